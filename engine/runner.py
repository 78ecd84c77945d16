"""Runs proof jobs in parallel and collects obligations."""
import os, sys, time, traceback, multiprocessing as mp
import z3
import prover
import llvc
from irparse import Unsupported


class Rec:
    """picklable result of one job"""
    pass


def model_vals(mod):
    d = {}
    if mod is None:
        return d
    for x in mod.decls():
        if x.arity() == 0:
            v = mod[x]
            try:
                if z3.is_int_value(v):
                    d[x.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    d[x.name()] = str(v.as_fraction())
                elif z3.is_true(v) or z3.is_false(v):
                    d[x.name()] = bool(z3.is_true(v))
            except Exception:
                pass
    return d


def cover_check(pc):
    # small instances first (substituting lengths makes the query linear)
    Ls = [z3.Int('L%d' % i) for i in range(3)]
    for a, b, c in ((1, 1, 1), (2, 3, 1)):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*[z3.substitute(f, *[(x, z3.IntVal(v)) for x, v in zip(Ls, (a, b, c))]) for f in pc])
        if s.check() == z3.sat:
            return z3.sat
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*pc)
    return s.check()


_JOBS = None
_MOD = None


def _run(i):
    name, fn, args = _JOBS[i]
    r = Rec()
    r.name = name
    t0 = time.time()
    r.error = None
    r.obls = []
    r.functions = []
    r.paths = r.instrs = 0
    r.covers = r.cover_bad = 0
    r.facts = {}
    g = None
    llvc.Engine.created.clear()
    for k in prover.STATS:
        prover.STATS[k] = 0
    try:
        g = fn(_MOD, *args)
    except Unsupported as e:
        r.error = 'unsupported: ' + str(e)[:400]
    except Exception as e:
        r.error = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e))[:300] + traceback.format_exc()[-600:]
    for eng in list(llvc.Engine.created):
        for o in eng.obls:
            r.obls.append((name + ': ' + o.name, o.status, o.backend, o.secs, model_vals(o.model) if o.status == 'refuted' else None))
        r.functions = sorted(set(r.functions) | set(eng.m.dem.get(f, f) for f in eng.entered))
        r.paths += eng.paths
        r.instrs += eng.instrs
        for what, pc in getattr(eng, 'covers', []):
            r.covers += 1
            if cover_check(pc) == z3.unsat:
                r.cover_bad += 1
                r.obls.append((name + ': precondition satisfiable: ' + what, 'vacuous', 'z3', 0, None))
    r.facts = getattr(g, 'facts', {})
    r.stats = dict(prover.STATS)
    r.secs = time.time() - t0
    return r


def run_jobs(module, jobs, procs=8, chunksize=1):
    """jobs: list of (name, fn, args)"""
    global _JOBS, _MOD
    _JOBS, _MOD = jobs, module
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=40) as p:
        return p.map(_run, range(len(jobs)), chunksize=chunksize)
