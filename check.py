#!/usr/bin/env python3-vt
"""check.py PROPERTY   decides one property of /repo's current tree.

exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import re, sys, os, time, json, subprocess, threading, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'specs')]
sys.setrecursionlimit(20000)
import build, runner
from irparse import Unsupported


def mpi_env(scratch):
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1',
             OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_btl='self,vader',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/true',
             OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_orte_tmpdir_base=scratch, LC_ALL='C', TMPDIR=scratch)
    return e


class Native(threading.Thread):
    """compiles one harness of native/ against /repo"""

    def __init__(self, src, flags=(), libs=(), parts=()):
        super().__init__(daemon=True)
        self.parts = parts
        self.src, self.flags, self.libs = src, flags, libs
        self.exe = os.path.join(build.scratch(), os.path.basename(src).replace('.cpp', '') + '.exe')
        self.err = None
        self.proc = None
        self.start()

    def run(self):
        try:
            f, l = build.mpi_flags()
            base = ['g++', '-O1', '-std=c++17', '-w', '-I' + build.REPO, '-isystem', '/usr/include/trilinos', *f, *self.flags]
            src = os.path.join(HERE, 'native', self.src)
            objs = [src]
            if self.parts:
                # compile the instantiations of a harness in parallel
                objs = ['%s.%d.o' % (self.exe, i) for i in range(len(self.parts))]
                ps = [subprocess.Popen(base + list(x) + ['-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                      for x, o in zip(self.parts, objs)]
                for p in ps:
                    e = p.communicate()[1]
                    if p.returncode:
                        self.err = 'compile: ' + e[-1500:]
                if self.err:
                    return
            p = subprocess.run(base + objs + ['-o', self.exe, *l, *self.libs], capture_output=True, text=True)
            if p.returncode:
                self.err = 'compile: ' + p.stderr[-1500:]
        except Exception as e:
            self.err = repr(e)

    def execute(self, args, timeout, ranks=None):
        """returns (status, output): ok / fail / crash / hang / nobuild"""
        self.join()
        if self.err:
            return 'nobuild', self.err
        cmd = [self.exe] + [str(a) for a in args]
        sc = build.scratch()
        if ranks:
            cmd = ['mpiexec', '-n', str(ranks)] + cmd
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                                 cwd=sc, env=mpi_env(sc), start_new_session=True)
            try:
                o, e = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGTERM)
                    time.sleep(1)
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                o, e = p.communicate()
                return 'hang', (o + '\n' + e)[-4000:] + '\nno result after %d s' % timeout
        except Exception as ex:
            return 'nobuild', repr(ex)
        fails = [x for x in o.split('\n') if x.startswith('FAIL')]
        if fails:
            return 'fail', '\n'.join(fails[:20])
        if p.returncode:
            return 'crash', 'exit status %d\n%s\n%s' % (p.returncode, o[-2500:], e[-2500:])
        return 'ok', o


class Ctx:
    pass


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    import props
    spec = props.PROPS[prop]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cx = Ctx()
    cx.prop, cx.seed, cx.tier, cx.spec = prop, seed, tier, spec
    natives = [(n, Native(n['src'], n.get('flags', ()), n.get('libs', ()), n.get('parts', ()))) for n in spec.get('native', [])]
    recs, undecided = [], []
    for tu, mkjobs in spec.get('proof', []):
        try:
            m = build.load_ir(tu)
            jobs = mkjobs(tier)
            recs += runner.run_jobs(m, jobs, procs=int(os.environ.get('VERIF_PROCS', '8')))
        except (build.BuildError, Unsupported) as e:
            undecided.append('extraction of %s: %s' % (tu, str(e)[-600:]))
        except Exception as e:
            undecided.append('verifier failure on %s: %s' % (tu, traceback.format_exc()[-800:]))
    obls = [o for r in recs for o in r.obls]
    bad = [o for o in obls if o[1] != 'proved']
    refuted = [o for o in bad if o[1] == 'refuted']
    vac = [o for o in bad if o[1] == 'vacuous']
    unknown = [o for o in bad if o[1] not in ('refuted', 'vacuous')]
    for r in recs:
        if r.error:
            undecided.append('%s: %s' % (r.name, r.error))
    for o in unknown:
        undecided.append('solver gave no answer: ' + o[0])
    for o in vac:
        undecided.append('vacuous precondition: ' + o[0])
    if spec.get('proof') and not obls:
        undecided.append('no obligations generated')
    # executable contracts on the real code
    hints = None
    if refuted and spec.get('hints'):
        hints = os.path.join(build.scratch(), 'hints.txt')
        with open(hints, 'w') as f:
            for o in refuted[:400]:
                for line in spec['hints'](o[4] or {}, o[0]):
                    f.write(line + '\n')
    found = None
    nat_info = []
    nat_failed_to_run = []
    for n, th in natives:
        for run in n['runs'](cx, bool(bad or undecided)):
            args = [prop if a == '@P' else a for a in run['args']]
            if hints and n.get('takes_hints'):
                args = args + [hints]
            st, out = th.execute(args, run.get('timeout', 240), run.get('ranks'))
            nat_info.append((n['src'], args, run.get('ranks'), st, out[-300:]))
            if st in ('fail', 'crash', 'hang'):
                # confirm: a finding must be reproducible
                st2 = 'ok'
                mm = re.search(r'^FAIL \S+ case (\d+) ', out, re.M)
                if mm:
                    st2, out2 = th.execute(args + [mm.group(1)], run.get('timeout', 240), run.get('ranks'))
                if st2 not in ('fail', 'crash', 'hang'):
                    st2, out2 = th.execute(args, run.get('timeout', 240), run.get('ranks'))
                if st2 in ('fail', 'crash', 'hang'):
                    found = dict(harness=n['src'], args=args, ranks=run.get('ranks'), status=st, output=out)
                    break
                nat_info.append((n['src'], args, run.get('ranks'), 'irreproducible ' + st, out[-300:]))
            if st == 'nobuild':
                nat_failed_to_run.append(out)
                break
        if found:
            break
    # ---- known findings
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf)).get('findings', []):
            if k['property'] == prop:
                known.append(k)
    violations = 0
    line = None
    if found or refuted:
        rp = os.path.join(HERE, 'evidence', 'replay_%s.txt' % prop)
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            if found:
                f.write('failing input on the real code, found by native/%s\n' % found['harness'])
                f.write('command: %s%s %s\n' % ('mpiexec -n %s ' % found['ranks'] if found['ranks'] else '', found['harness'], ' '.join(map(str, found['args']))))
                f.write('status: %s\n%s\n' % (found['status'], found['output']))
            for o in refuted[:40]:
                f.write('failed obligation: %s\n  back end %s: counterexample %s\n' % (o[0], o[2], json.dumps(o[4])))
            for u in undecided[:20]:
                f.write('undecided: %s\n' % u)
        violations = 1
        line = 'VIOLATION property=%s replay=%s%s' % (prop, rp, '' if found else ' no-failing-input-found')
    # ---- evidence
    proved = sum(1 for o in obls if o[1] == 'proved')
    ev = dict(property=prop, tier=tier, seed=seed, level=spec['level'], wall_s=round(time.time() - t0, 2),
              violations=violations, assumptions=spec.get('assumptions', []))
    cov = {}
    backends = {}
    for o in obls:
        if o[1] == 'proved':
            backends[o[2]] = backends.get(o[2], 0) + 1
    evals = nontriv = 0
    samples = []
    for s, a, r, st, out in nat_info:
        mm = re.findall(r'OK evaluations (\d+) nontrivial (\d+)', out)
        for x, y in mm:
            evals += int(x)
            nontriv += int(y)
        samples.append(dict(harness=s, args=[str(x) for x in a], ranks=r, status=st))
    if recs:
        fns = sorted(set(f for r in recs for f in r.functions if 'dccrg::' in f))
        cov.update(obligations=len(obls), discharged=proved, checker_cmd='python3-vt /verif/check.py %s' % prop,
                   trusted_base=spec.get('trusted', []), back_ends=backends,
                   solver_seconds=round(sum(o[3] for o in obls), 2), cpu_seconds=round(sum(r.secs for r in recs), 1),
                   proof_jobs=len(recs), paths=sum(r.paths for r in recs), instructions=sum(r.instrs for r in recs),
                   precondition_covers=sum(r.covers for r in recs), functions_under_contract=spec.get('contracts', []),
                   functions_executed=fns[:80], obligation_samples=sorted(set(o[0] for o in obls))[:5])
    if natives:
        cov.update(evaluations=evals, distinct_nontrivial=nontriv, rule=spec.get('native_rule', ''), samples=samples[:12],
                   bounded=spec.get('bounded_note', 'executable contracts on the real compiled code; bounded, not counted as proved'))
    if undecided:
        cov['undecided'] = undecided[:30]
        cov['undecided_note'] = 'these obligations are NOT proved on this tree; only the bounded executable contracts covered them'
    if nat_failed_to_run:
        cov['native_not_built'] = nat_failed_to_run[:2]
    if spec['level'] == 'other':
        cov['explanation'] = spec.get('explanation', '')
    ev['coverage'] = cov
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d obligations, %d proved, %d refuted, %d undecided; native evaluations %d; %.1f s' % (
        prop, len(obls), proved, len(refuted), len(undecided), evals, time.time() - t0))
    if undecided:
        for u in undecided[:6]:
            print('  undecided: ' + u[:400])
    if line:
        if found:
            print(found['output'][:1500])
        print(line)
        sys.stdout.flush()
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
