"""IR extraction from /repo's current tree."""
import os, subprocess, tempfile, shutil, sys, hashlib
from irparse import Module

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif_')
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_mpi = None


def mpi_flags():
    global _mpi
    if _mpi is None:
        f = subprocess.run(['mpic++', '--showme:compile'], capture_output=True, text=True).stdout.split()
        l = subprocess.run(['mpic++', '--showme:link'], capture_output=True, text=True).stdout.split()
        _mpi = (f, l)
    return _mpi


def emit_ir(tu, passes='function(sroa,simplifycfg)', defines=()):
    d = scratch()
    base = os.path.join(d, os.path.basename(tu).replace('.cpp', ''))
    cmd = ['clang++-18', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-access-control', '-w',
           '-I' + REPO, '-isystem', '/usr/include/trilinos', *mpi_flags()[0], *['-D' + x for x in defines],
           '-S', '-emit-llvm', os.path.join(VERIF, 'tu', tu), '-o', base + '.ll']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('clang: ' + p.stderr[-3000:])
    p = subprocess.run(['opt-18', '-S', '-passes=' + passes, base + '.ll', '-o', base + '.opt.ll'],
                       capture_output=True, text=True)
    if p.returncode:
        raise BuildError('opt: ' + p.stderr[-2000:])
    return base + '.opt.ll'


def load_ir(tu, **kw):
    return Module(open(emit_ir(tu, **kw)).read())
