"""Contracts of Cartesian_Geometry, No_Geometry and Grid_Topology.

Doubles are modelled as real numbers (rounding is not: see the executable contracts in native/geometry_check.cpp).
  box(l,v)  = [s + v*D/2^l, s + (v+1)*D/2^l]   per dimension; s start, D level 0 cell length (No_Geometry: 0 and 1)
  real(x)   = x inside the grid, x + k*(L*D) (k integer, result inside) along a periodic dimension, NaN otherwise
  index(x)  = min(floor((real(x)-s)*2^M/D), L*2^M-1), error_index when real(x) is NaN
"""
import itertools
from fractions import Fraction
import z3
import mapping as mp
from mapping import each, use, eqmod, cover, U64, ERR, S
from llvc import State, Ptr, I, R, zb, isz

BADS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)]     # which components are outside (dimensions are independent)
F64 = ('f', 64)
NAN = 'nan'
T = lambda x: z3.ToReal(x) if z3.is_int(x) else x


def rd(e, s, p):
    return [e.load(s, Ptr(p.r, p.o + 8 * i), F64) for i in range(3)]


def wr(e, st, vals, name='d3'):
    p = e.alloc(st, name)
    for i, v in enumerate(vals):
        e.store(st, Ptr(p.r, 8 * i), F64, v)
    return p


def one(e, fn, args, st, what):
    outs = [s for s in e.run(fn, args, st)]
    for s in outs:
        if s.out[0] != 'ret':
            e.oblige(s, z3.BoolVal(False), what + ' returns normally')
    assert len(outs) == 1, what
    return mp.reset(outs[0])


def world(m, kind, M, per=(0, 0, 0), contracts=()):
    """real constructors and setters run symbolically; kind 'c' Cartesian, 'n' No_Geometry"""
    g = mp.new(m, M)
    e, st = g.e, g.st
    g.kind = kind
    e.positive(*g.L)
    g.t = e.alloc(st, 'Topology')
    st = one(e, 't_ctor', [g.t], st, 'Grid_Topology()')
    for i in range(3):
        st = one(e, 't_set', [g.t, i, per[i]], st, 'set_periodicity')
    g.geo = e.alloc(st, 'Geometry')
    st = one(e, kind + '_ctor', [g.geo, g.m, g.t], st, 'geometry constructor')
    if kind == 'c':
        g.s = [z3.Real('s%d' % i) for i in range(3)]
        g.D = [z3.Real('D%d' % i) for i in range(3)]
        for x in g.D:
            st.assume(x > 0)
        e.positive(*g.D)
        g.par = e.alloc(st, 'Parameters')
        a, b = wr(e, st, g.s), wr(e, st, g.D)
        st = one(e, 'p_ctor2', [g.par, a, b], st, 'Parameters(start, length)')
        ok = e.run('c_set', [g.geo, g.par], st)
        for s in ok:
            e.oblige(s, zb(s.out[0] == 'ret' and s.out[1] == 1), 'set accepts positive cell lengths')
        assert len(ok) == 1
        st = mp.reset(ok[0])
    else:
        g.s = [z3.RealVal(0)] * 3
        g.D = [z3.RealVal(1)] * 3
    g.st = st
    return g


def same(e, s, r, want, name):
    """r (double) equals the real expression want"""
    if isinstance(r, str):
        return e.oblige(s, z3.BoolVal(False), name + ' (is NaN)')
    if not isz(r) and not isz(want):
        return e.oblige(s, zb(r == want), name)
    return e.oblige(s, R(r) == R(want), name)


def isnan(e, s, r, name):
    return e.oblige(s, zb(isinstance(r, str)), name)


def frac(n, d):
    return z3.RealVal(Fraction(n, d))


# ------------------------------------------------------------------ C04
def job_box(m, kind, M, l):
    g = world(m, kind, M)
    e, st = g.e, g.st
    v = mp.loc_vars(g, st, l)
    mp.range_facts(g, st, l, v)
    use(g, mp.contracts_core(g))
    c = mp.reg_cell(g, mp.cell_id(g, l, *v), l, v)
    st.assume(c <= mp.off(g, l + 1))
    h = 1 << l
    spec = {'length': lambda i: g.D[i] * frac(1, h),
            'min': lambda i: g.s[i] + T(v[i]) * g.D[i] * frac(1, h),
            'max': lambda i: g.s[i] + (T(v[i]) + 1) * g.D[i] * frac(1, h),
            'center': lambda i: g.s[i] + (T(v[i]) + frac(1, 2)) * g.D[i] * frac(1, h)}
    for fn, f in spec.items():
        o = e.alloc(st, 'out')
        for s, _ in each(g, '%s_%s' % (kind, fn), [g.geo, c, o], st, 'get_' + fn):
            for i, x in enumerate(rd(e, s, o)):
                same(e, s, x, f(i), 'get_%s of a level %d cell, dimension %d' % (fn, l, i))
    # center from indices of the cell
    ip = e.alloc(st, 'idx')
    ix = [e.var('i%d' % k, 0, U64, st) for k in range(3)]
    for k in range(3):
        e.store(st, Ptr(ip.r, 8 * k), ('i', 64), ix[k])
    inr = z3.And([ix[k] < g.L[k] * (1 << M) for k in range(3)])
    o = e.alloc(st, 'out')
    for s, _ in each(g, kind + '_center_i', [g.geo, l, ip, o], st, 'get_center(level, indices)'):
        xs = rd(e, s, o)
        if all(isinstance(x, str) for x in xs):
            e.oblige(s, z3.Not(inr), 'get_center(level, indices): NaN only outside the grid')
            continue
        e.oblige(s, inr, 'get_center(level, indices): NaN outside the grid')
        for i, x in enumerate(xs):
            same(e, s, x, g.s[i] + T(ix[i]) * g.D[i] * frac(1, 1 << M) + g.D[i] * frac(1, 2 * h),
                 'get_center(level, indices): center of the cell at the indices, dimension %d' % i)
    return g


def job_box_bad(m, kind, M):
    g = world(m, kind, M)
    e, st0 = g.e, g.st
    for which in ('zero', 'beyond'):
        st = st0.clone()
        c = e.var('cell_' + which, 0, U64, st)
        st.assume(c == 0 if which == 'zero' else c > mp.off(g, M + 1))
        for fn in ('length', 'center', 'min', 'max'):
            o = e.alloc(st, 'out')
            for s, _ in each(g, '%s_%s' % (kind, fn), [g.geo, c, o], st, 'get_%s(invalid)' % fn):
                for x in rd(e, s, o):
                    isnan(e, s, x, 'get_%s: NaN for invalid cells' % fn)
    st = st0.clone()
    ip = e.alloc(st, 'idx')
    for k in range(3):
        e.store(st, Ptr(ip.r, 8 * k), ('i', 64), e.var('i%d' % k, 0, U64, st))
    l = e.var('lvl', -(1 << 31), (1 << 31) - 1, st)
    st.assume(z3.Or(l < 0, l > M))
    o = e.alloc(st, 'out')
    for s, _ in each(g, kind + '_center_i', [g.geo, l, ip, o], st, 'get_center(bad level)'):
        for x in rd(e, s, o):
            isnan(e, s, x, 'get_center(level, indices): NaN for invalid levels')
    p = wr(e, st, [z3.Real('x%d' % k) for k in range(3)])
    for s, r in each(g, kind + '_cell', [g.geo, l, p], st, 'get_cell(bad level)'):
        eqmod(e, s, r, 0, 64, 'get_cell: error cell for invalid levels')
    return g


def job_tiling(m, kind):
    """lemmas over the box contract: shared faces, ends of the grid, children tile their parent"""
    g = world(m, kind, 0)
    e, st = g.e, g.st
    for fn, f in (('start', lambda i: g.s[i]), ('end', lambda i: g.s[i] + T(g.L[i]) * g.D[i]), ('len0', lambda i: g.D[i])):
        o = e.alloc(st, 'out')
        for s, _ in each(g, '%s_get_%s' % (kind, fn), [g.geo, o], st, 'get_' + fn):
            for i, x in enumerate(rd(e, s, o)):
                same(e, s, x, f(i), 'get_%s, dimension %d' % (fn, i))
    for l in range(mp.MAXLEVEL + 1):
        h = 1 << l
        for i in range(3):
            mn = lambda w, hh=h: g.s[i] + T(w) * g.D[i] * frac(1, hh)
            v = z3.Int('v%d_%d' % (l, i))
            e.oblige(st, mn(v + 1) - mn(v) == g.D[i] * frac(1, h), 'lemma boxes of level %d share faces' % l)
            e.oblige(st, mn(g.L[i] * h) == g.s[i] + T(g.L[i]) * g.D[i], 'lemma last box of level %d ends at grid end' % l)
            e.oblige(st, z3.And(mn(2 * v, 2 * h) == mn(v), mn(2 * v + 2, 2 * h) == mn(v + 1)),
                     'lemma children of level %d tile the cell' % l)
    return g


# ------------------------------------------------------------------ C05
def job_real(m, kind, per):
    """get_real_coordinate for every coordinate; coordinate i written as s + w*L*D"""
    g = world(m, kind, 0, per)
    return real_common(g, kind, per, [T(g.L[i]) * g.D[i] for i in range(3)], g.st)


def real_common(g, kind, per, ext, st0):
    e = g.e
    for nan in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
        st = st0.clone()
        w = [z3.Real('w%d' % i) for i in range(3)]
        x = [NAN if nan[i] else g.s[i] + w[i] * ext[i] for i in range(3)]
        p, o = wr(e, st, x), e.alloc(st, 'out')
        for s, _ in each(g, kind + '_real', [g.geo, p, o], st, 'get_real_coordinate'):
            for i, r in enumerate(rd(e, s, o)):
                n = 'get_real_coordinate, dimension %d: ' % i
                inside = z3.And(w[i] >= 0, w[i] <= 1)
                if nan[i]:
                    isnan(e, s, r, n + 'NaN stays NaN')
                elif isinstance(r, str):
                    e.oblige(s, zb(not per[i]) if per[i] else z3.Not(inside), n + 'NaN only outside a non-periodic dimension')
                else:
                    q = e.fdiv_sym(s, R(r) - g.s[i], ext[i])      # position in grid lengths
                    e.oblige(s, z3.And(q >= 0, q <= 1), n + 'inside the grid')
                    e.oblige(s, z3.Implies(inside, R(r) == x[i]), n + 'coordinates inside the grid are unchanged')
                    if per[i]:
                        k = R(q) - w[i]
                        ks = z3.simplify(k, som=True)
                        e.oblige(s, z3.BoolVal(True) if integral(ks) else z3.IsInt(ks), n + 'shifted by whole grid lengths')
                    else:
                        e.oblige(s, inside, n + 'NaN outside the grid')
    return g


def integral(k):
    import fastlin
    try:
        p = fastlin.poly(k)
    except fastlin.No:
        return False
    return all(Fraction(v).denominator == 1 and all(z3.is_int(fastlin.ATOM_EXPR[i]) for i in mm) for mm, v in p.items())


def h_real(g):
    """contract of get_real_coordinate (proved by job_real): every component is NaN or inside the grid.
       u = (real(x)-s)/D is what the callers are checked against"""
    def h(e, st, args, ins):
        import llvc
        res = []
        out = args[0]
        for nan in BADS:
            s = st.clone()
            for i in range(3):
                if not nan[i]:
                    s.assume(g.u[i] >= 0)
                    s.assume(g.u[i] <= T(g.L[i]))
                s.ghost[('isnan', i)] = bool(nan[i])
                e.store(s, Ptr(out.r, out.o + 8 * i), F64, NAN if nan[i] else g.s[i] + g.u[i] * g.D[i])
            res.append((s, None))
        return res
    return h


def job_index(m, kind, M):
    g = world(m, kind, M)
    e, st = g.e, g.st
    g.u = [z3.Real('u%d' % i) for i in range(3)]
    use(g, [(r'_?Geometry::get_real_coordinate\(', h_real(g))])
    x = [z3.Real('x%d' % i) for i in range(3)]
    p, o = wr(e, st, x), e.alloc(st, 'out')
    for s, _ in each(g, kind + '_indices', [g.geo, p, o], st, 'get_indices(coordinate)'):
        for i, r in enumerate(mp.get_arr(g, s, o, 3)):
            n = 'get_indices(coordinate), dimension %d: ' % i
            if s.ghost.get(('isnan', i)):
                eqmod(e, s, r, ERR, 64, n + 'error index outside the grid')
                continue
            r = I(e.canon_u(s, r, 64))
            e.oblige(s, z3.And(r >= 0, r < g.L[i] * (1 << M)), n + 'index inside the grid')
            e.oblige(s, T(r) <= g.u[i] * (1 << M), n + 'index cell starts at or before the coordinate')
            e.oblige(s, g.u[i] * (1 << M) <= T(r) + 1, n + 'index cell ends at or after the coordinate')
    return g


def h_index(g):
    """contract of get_indices(coordinate) (proved by job_index); components that are errors are enumerated"""
    def h(e, st, args, ins):
        out = args[0]
        res = []
        for bad in BADS:
            s = st.clone()
            for i in range(3):
                e.store(s, Ptr(out.r, out.o + 8 * i), ('i', 64), ERR if bad[i] else g.ix[i])
            s.ghost['bad'] = any(bad)
            res.append((s, None))
        return res
    return h


def job_lookup(m, kind, M, l):
    """get_cell(level, coordinate): the level-l cell whose box contains the coordinate"""
    g = world(m, kind, M)
    e, st = g.e, g.st
    g.u = [z3.Real('u%d' % i) for i in range(3)]
    g.ix = [e.var('i%d' % i, 0, U64, st) for i in range(3)]
    for i in range(3):
        st.assume(g.ix[i] < g.L[i] * (1 << M))
        st.assume(T(g.ix[i]) <= g.u[i] * (1 << M))
        st.assume(g.u[i] * (1 << M) <= T(g.ix[i]) + 1)
    use(g, mp.contracts_core(g) + [(r'_?Geometry::get_indices\(', h_index(g))])
    p = wr(e, st, [z3.Real('x%d' % i) for i in range(3)])
    v = [I(e.divmod_u(st, g.ix[i], 1 << (M - l), 'spec')[0]) for i in range(3)]
    for s, r in each(g, kind + '_cell', [g.geo, l, p], st, 'get_cell'):
        if s.ghost['bad']:
            eqmod(e, s, r, 0, 64, 'get_cell: error cell for coordinates outside the grid')
            continue
        mp.range_facts(g, s, l, v)
        eqmod(e, s, r, mp.cell_id(g, l, *v), 64, 'get_cell: cell of level %d at the indices of the coordinate' % l)
        for i in range(3):
            e.oblige(s, z3.And(T(v[i]) <= g.u[i] * (1 << l), g.u[i] * (1 << l) <= T(v[i]) + 1, v[i] < g.L[i] * (1 << l)),
                     'get_cell: box contains the coordinate, dimension %d' % i)
    return g


# ------------------------------------------------------------------ C06
def job_params(m):
    """Cartesian set/get: accepted exactly when every length is > 0 (NaN is not), all or nothing"""
    for case in itertools.product('rn', repeat=3):        # r: any real, n: NaN
        g = mp.new(m, 0)
        e, st = g.e, g.st
        g.t = e.alloc(st, 'Topology')
        st = one(e, 't_ctor', [g.t], st, 'Grid_Topology()')
        g.geo = e.alloc(st, 'Geometry')
        st = one(e, 'c_ctor', [g.geo, g.m, g.t], st, 'Cartesian_Geometry()')
        for src in ('default', 'set'):
            s0 = [z3.RealVal(0)] * 3
            D0 = [z3.RealVal(1)] * 3
            par = e.alloc(st, 'Parameters')
            if src == 'set':
                s0 = [z3.Real('s0_%d' % i) for i in range(3)]
                D0 = [z3.Real('D0_%d' % i) for i in range(3)]
                for x in D0:
                    st.assume(x > 0)
                raw_params(e, st, par, s0, D0)
                st = [mp.reset(s) for s, r in each(g, 'c_set', [g.geo, par], st, 'set') if e.feasible(s)]
                assert len(st) == 1
                st = st[0]
            s1 = [z3.Real('s%d' % i) for i in range(3)]
            D1 = [NAN if c == 'n' else z3.Real('D%d' % i) for i, c in enumerate(case)]
            good = z3.BoolVal(False) if 'n' in case else z3.And([d > 0 for d in D1])
            par2 = e.alloc(st, 'Parameters')
            raw_params(e, st, par2, s1, D1)
            a, b = e.alloc(st, 'o1'), e.alloc(st, 'o2')
            st_ = st.clone()
            for s, r in each(g, 'c_set', [g.geo, par2], st_, 'set'):
                r = I(e.canon_u(s, r, 32))
                e.oblige(s, (r == 1) == good, 'set succeeds exactly for positive cell lengths')
                s = mp.reset(s)
                for s2, _ in each(g, 'c_get', [g.geo, a, b], s, 'get'):
                    for i in range(3):
                        x, y = e.load(s2, Ptr(a.r, 8 * i), F64), e.load(s2, Ptr(b.r, 8 * i), F64)
                        if isinstance(y, str) or isinstance(x, str):
                            e.oblige(s2, z3.BoolVal(False), 'parameters never become NaN')
                            continue
                        new = z3.And(R(x) == s1[i], R(y) == (D1[i] if not isinstance(D1[i], str) else z3.RealVal(-1)))
                        old = z3.And(R(x) == s0[i], R(y) == D0[i])
                        e.oblige(s2, z3.If(good, new, old), 'accepted parameters are reported, rejected ones change nothing')
                    # copying through set(other)
                    g2 = e.alloc(s2, 'Geometry2')
                    s3 = one(e, 'c_ctor', [g2, g.m, g.t], mp.reset(s2.clone()), 'Cartesian_Geometry()')
                    a2, b2 = e.alloc(s3, 'o1'), e.alloc(s3, 'o2')
                    for s4, r4 in each(g, 'c_set_other', [g2, g.geo], s3, 'set(other)'):
                        for s5, _ in each(g, 'c_get', [g2, a2, b2], mp.reset(s4), 'get'):
                            for i in range(3):
                                e.oblige(s5, z3.And(R(e.load(s5, Ptr(a2.r, 8 * i), F64)) == R(e.load(s5, Ptr(a.r, 8 * i), F64)),
                                                    R(e.load(s5, Ptr(b2.r, 8 * i), F64)) == R(e.load(s5, Ptr(b.r, 8 * i), F64))),
                                         'set(other) copies the parameters')
    return g


def raw_params(e, st, par, s, D):
    for i in range(3):
        e.store(st, Ptr(par.r, 8 * i), F64, s[i])
        e.store(st, Ptr(par.r, 24 + 8 * i), F64, D[i])


# ------------------------------------------------------------------ topology (C07)
def job_topology(m):
    g = mp.new(m, 0)
    e, st = g.e, g.st
    t = e.alloc(st, 'Topology')
    st = one(e, 't_ctor', [t], st, 'Grid_Topology()')

    def read(s):
        r = []
        for d in range(3):
            outs = each(g, 't_get', [t, d], s.clone(), 'is_periodic')
            assert len(outs) == 1
            r.append(e.canon_u(s, outs[0][1], 32))
        return r
    for d, x in enumerate(read(st)):
        e.oblige(st, zb(x == 0) if isinstance(x, int) else x == 0, 'a new topology is not periodic')
    for old in itertools.product((0, 1), repeat=3):
        s = st.clone()
        for d in range(3):
            s = one(e, 't_set', [t, d, old[d]], s, 'set_periodicity')
        for d, x in enumerate(read(s)):
            e.oblige(s, zb(x == old[d]) if isinstance(x, int) else x == old[d], 'periodicity is reported as set')
        for val in (0, 1):
            for d in range(3):
                for s2, r in each(g, 't_set', [t, d, val], s.clone(), 'set_periodicity'):
                    e.oblige(s2, I(e.canon_u(s2, r, 32)) == 1, 'set_periodicity accepts dimension %d' % d)
                    for k, x in enumerate(read(mp.reset(s2))):
                        w = val if k == d else old[k]
                        e.oblige(s2, I(x) == w, 'setting dimension %d leaves others unchanged' % d)
            s3 = s.clone()
            d = e.var('dim', 3, U64, s3)
            for s2, r in each(g, 't_set', [t, d, val], s3, 'set_periodicity(bad)'):
                e.oblige(s2, I(e.canon_u(s2, r, 32)) == 0, 'set_periodicity refuses dimensions above 2')
                for k, x in enumerate(read(mp.reset(s2))):
                    e.oblige(s2, I(x) == old[k], 'refused set_periodicity changes nothing')
            for s2, r in each(g, 't_get', [t, d], s3.clone(), 'is_periodic(bad)'):
                e.oblige(s2, I(e.canon_u(s2, r, 32)) == 0, 'is_periodic is false for dimensions above 2')
    return g


# ------------------------------------------------------------------ Stretched_Cartesian_Geometry
VMAX = 2 ** 60 - 1      # std::vector<double>::max_size()


def canon_poly(e, k):
    import fastlin
    return fastlin.poly(I(k))


class Coords:
    """boundaries of level 0 cells in one dimension: F(0) = start, F(k+1) = F(k) + d(k) with d(k) > 0, k < L"""
    def __init__(self, g, i):
        self.g, self.i = g, i
        self.F = z3.Function('F%d' % i, z3.IntSort(), z3.RealSort())
        self.d = z3.Function('d%d' % i, z3.IntSort(), z3.RealSort())

    def at(self, e, st, p):
        """value at the index polynomial p; facts about it are added to st"""
        p = dict(p)
        c = p.get((), 0)
        vs = [m for m in p if m != ()]
        if vs and c == 1:                    # F(k+1) = F(k) + d(k)
            q = dict(p)
            del q[()]
            return self.at(e, st, q) + self.gap(e, st, q)
        k = self.index(p)
        r = self.F(k)
        e.keep.append(r)
        L = self.g.L[self.i]
        st.assume(self.F(z3.IntVal(0)) <= r)
        st.assume(r <= self.end(e, st))
        return r

    def end(self, e, st):
        f0 = self.F(z3.IntVal(0))
        W = self.g.W[self.i]
        return f0 + W

    def gap(self, e, st, q):
        k = self.index(q)
        d = self.d(k)
        e.keep.append(d)
        e.positive(d)
        st.assume(d > 0)
        st.assume(self.F(k) + d <= self.end(e, st))
        st.assume(z3.Implies(k >= self.g.L[self.i] - 1, self.F(k) + d == self.end(e, st)))
        return d

    def index(self, p):
        import fastlin
        if not p:
            return z3.IntVal(0)
        ts = []
        for m, v in sorted(p.items()):
            t = z3.IntVal(v)
            for a in m:
                t = t * fastlin.ATOM_EXPR[a] if v != 1 or t is not None and not z3.is_int_value(t) else fastlin.ATOM_EXPR[a]
            ts.append(t)
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r

    def load(self, e, st, off, name):
        import fastlin
        p = fastlin.poly(I(off))
        if any(v % 8 for v in p.values()):
            raise ValueError('unaligned')
        p = {m: v // 8 for m, v in p.items()}
        k = self.index(p)
        L = self.g.L[self.i]
        key = ('inb', self.i, k.get_id())
        if key not in st.ghost:         # else proved earlier on this path
            e.keep.append(k)
            e.oblige(st, z3.And(k >= 0, k <= L), name + ': coordinate index within the vector')
            st.ghost[key] = True
        if fastlin.poly(k - L) == {}:
            return self.end(e, st)
        st.assume(k >= 0)
        st.assume(k <= L)
        return self.at(e, st, p)


def stretched(m, M, per=(0, 0, 0)):
    """a stretched geometry whose parameters satisfy the class invariant (established by set, job_sset)"""
    g = mp.new(m, M)
    e, st = g.e, g.st
    g.kind = 's'
    e.positive(*g.L)
    for x in g.L:
        st.assume(x <= VMAX - 1)
    g.t = e.alloc(st, 'Topology')
    st = one(e, 't_ctor', [g.t], st, 'Grid_Topology()')
    for i in range(3):
        st = one(e, 't_set', [g.t, i, per[i]], st, 'set_periodicity')
    g.geo = e.alloc(st, 'Geometry')
    use(g, [(r'Stretched_Cartesian_Geometry::reset\(', lambda e, s, a, ins: None)])
    st = one(e, 's_ctor', [g.geo, g.m, g.t], st, 'geometry constructor')
    outs = e.run('s_params', [g.geo], st)
    par = outs[0].out[1]
    g.par = par
    g.W = [z3.Real('W%d' % i) for i in range(3)]
    for w in g.W:
        st.assume(w > 0)
    e.positive(*g.W)
    g.C = [Coords(g, i) for i in range(3)]
    put_vectors(g, st, par, 'coords')
    hook(g)
    g.st = st
    return g


def put_vectors(g, st, par, region):
    e = g.e
    for i in range(3):
        r = '%s%d' % (region, i)
        n = (g.L[i] + 1) * 8
        e.store(st, Ptr(par.r, par.o + 24 * i), ('ptr',), Ptr(r, 0))
        e.store(st, Ptr(par.r, par.o + 24 * i + 8), ('ptr',), Ptr(r, n))
        e.store(st, Ptr(par.r, par.o + 24 * i + 16), ('ptr',), Ptr(r, n))


def hook(g):
    e = g.e

    def region_hook(st, p, ty):
        if isinstance(p.r, str) and p.r.startswith('coords') and ty == F64:
            return g.C[int(p.r[-1])].load(e, st, p.o, 'std::vector<double>::operator[]')
        return None
    e.region_hook = region_hook


def job_sbox(m, M, l):
    g = stretched(m, M)
    e, st = g.e, g.st
    # location v = q*2^l + r: q is the level 0 cell
    v, q, r = mp.fine_vars(g, st, l, l)
    mp.range_facts(g, st, l, v)
    use(g, mp.contracts_core(g))
    c = mp.reg_cell(g, mp.cell_id(g, l, *v), l, v)
    st.assume(c <= mp.off(g, l + 1))
    h = 1 << l
    for i in range(3):
        for k in (q[i], q[i] + 1):
            g.C[i].load(e, st, k * 8, 'level 0 cell')
    F = [g.C[i].at(e, st, canon_poly(e, q[i])) for i in range(3)]
    d = [g.C[i].gap(e, st, canon_poly(e, q[i])) for i in range(3)]
    spec = {'length': lambda i: d[i] * frac(1, h),
            'min': lambda i: F[i] + T(r[i]) * d[i] * frac(1, h),
            'max': lambda i: F[i] + (T(r[i]) + 1) * d[i] * frac(1, h),
            'center': lambda i: F[i] + (T(r[i]) + frac(1, 2)) * d[i] * frac(1, h)}
    for fn, f in spec.items():
        o = e.alloc(st, 'out')
        for s, _ in each(g, 's_' + fn, [g.geo, c, o], st, 'Stretched get_' + fn):
            for i, x in enumerate(rd(e, s, o)):
                same(e, s, x, f(i), 'Stretched get_%s of a level %d cell, dimension %d' % (fn, l, i))
    return g


def job_sbad(m, M):
    g = stretched(m, M)
    e, st0 = g.e, g.st
    for which in ('zero', 'beyond'):
        st = st0.clone()
        c = e.var('cell_' + which, 0, U64, st)
        st.assume(c == 0 if which == 'zero' else c > mp.off(g, M + 1))
        for fn in ('length', 'center', 'min', 'max'):
            o = e.alloc(st, 'out')
            for s, _ in each(g, 's_' + fn, [g.geo, c, o], st, 'Stretched get_%s(invalid)' % fn):
                for x in rd(e, s, o):
                    isnan(e, s, x, 'Stretched get_%s: NaN for invalid cells' % fn)
    for fn, f in (('start', lambda i, s: g.C[i].F(z3.IntVal(0))), ('end', lambda i, s: g.C[i].end(e, s))):
        st = st0.clone()
        o = e.alloc(st, 'out')
        for s, _ in each(g, 's_get_' + fn, [g.geo, o], st, 'Stretched get_' + fn):
            for i, x in enumerate(rd(e, s, o)):
                same(e, s, x, f(i, s), 'Stretched get_%s, dimension %d' % (fn, i))
    return g


def job_sreal(m, per):
    g = stretched(m, 0, per)
    g.s = [g.C[i].F(z3.IntVal(0)) for i in range(3)]
    return real_common(g, 's', per, g.W, g.st)


def split_ite(s, r):
    """case split on if-then-else terms of r"""
    todo, ite = [r], None
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            ite = x
            break
        todo.extend(x.children())
    if ite is None:
        yield s, r
        return
    c, a, b = ite.children()
    for cond, v in ((c, a), (z3.Not(c), b)):
        s1 = s.clone()
        s1.assume(cond)
        yield from split_ite(s1, z3.substitute(r, (ite, v)))


def job_sindex(m, M):
    """get_indices of the stretched geometry: level 0 cell found by the loop, then the index inside it"""
    g = stretched(m, M)
    e, st = g.e, g.st
    e.quot_hints = [1 << M]
    w = [z3.Real('c%d' % i) for i in range(3)]       # real coordinate

    def h(e, st, args, ins):
        res = []
        out = args[0]
        for nan in BADS:
            s = st.clone()
            for i in range(3):
                if not nan[i]:
                    s.assume(w[i] >= g.C[i].F(z3.IntVal(0)))
                    s.assume(w[i] <= g.C[i].end(e, s))
                s.ghost[('isnan', i)] = bool(nan[i])
                e.store(s, Ptr(out.r, out.o + 8 * i), F64, NAN if nan[i] else w[i])
            res.append((s, None))
        return res
    use(g, [(r'Stretched_Cartesian_Geometry::get_real_coordinate\(', h)])

    def loop(e, st, phis, entry):
        cands, meas = [], []
        for r, t in phis:
            if t != ('i', 64):
                continue
            for i in range(3):
                L = g.L[i]
                cands.append(('%s < length[%d]' % (r, i), lambda v, r=r, L=L: v[r] <= L - 1))
                cands.append(('coordinates[%d][%s] <= coordinate' % (i, r),
                              lambda v, r=r, i=i: g.C[i].F(norm(g, i, v[r])) <= w[i]
                              if norm1(v[r]) is None else g.C[i].F(norm1(v[r])) + g.C[i].d(norm1(v[r])) <= w[i]))
                meas.append(lambda v, r=r, L=L: L - v[r])
                meas.append(lambda v, r=r: v[r])
        return cands, meas

    def norm(g, i, x):
        return g.C[i].index(canon_poly(e, x))

    def norm1(x):
        p = dict(canon_poly(e, x))
        if p.get((), 0) == 1 and len(p) > 1:
            del p[()]
            return g.C[0].index(p)
        return None
    e.loop_specs = [(r'Stretched_Cartesian_Geometry::get_indices\(', loop)]
    x = [z3.Real('x%d' % i) for i in range(3)]
    p, o = wr(e, st, x), e.alloc(st, 'out')
    for s, _ in each(g, 's_indices', [g.geo, p, o], st, 'Stretched get_indices'):
        for i, r in enumerate(mp.get_arr(g, s, o, 3)):
            n = 'Stretched get_indices(coordinate), dimension %d: ' % i
            if s.ghost.get(('isnan', i)):
                eqmod(e, s, r, ERR, 64, n + 'error index outside the grid')
                continue
            r = I(e.canon_u(s, r, 64))
            for s1, r1 in split_ite(s, r):
                e.oblige(s1, z3.And(r1 >= 0, r1 < g.L[i] * (1 << M)), n + 'index inside the grid')
                k, rem = e.divmod_u(s1, r1, 1 << M, 'spec')
                kp = canon_poly(e, k)
                F, d = g.C[i].at(e, s1, kp), g.C[i].gap(e, s1, kp)
                rem = T(I(rem))
                e.oblige(s1, F + rem * d * frac(1, 1 << M) <= w[i], n + 'index cell starts at or before the coordinate')
                e.oblige(s1, w[i] <= F + (rem + 1) * d * frac(1, 1 << M), n + 'index cell ends at or after the coordinate')
    return g


def job_slookup(m, M, l):
    """Stretched get_cell against the contract of its get_indices"""
    g = stretched(m, M)
    e, st = g.e, g.st
    g.ix = [e.var('i%d' % i, 0, U64, st) for i in range(3)]
    for i in range(3):
        st.assume(g.ix[i] < g.L[i] * (1 << M))
    use(g, mp.contracts_core(g) + [(r'_?Geometry::get_indices\(', h_index(g))])
    p = wr(e, st, [z3.Real('x%d' % i) for i in range(3)])
    v = [I(e.divmod_u(st, g.ix[i], 1 << (M - l), 'spec')[0]) for i in range(3)]
    for s, r in each(g, 's_cell', [g.geo, l, p], st, 'Stretched get_cell'):
        if s.ghost['bad']:
            eqmod(e, s, r, 0, 64, 'Stretched get_cell: error cell for coordinates outside the grid')
            continue
        mp.range_facts(g, s, l, v)
        eqmod(e, s, r, mp.cell_id(g, l, *v), 64, 'Stretched get_cell: cell of level %d at the indices of the coordinate' % l)
    # lemma: the index cell lies in the box of the level-l cell
    s = State()
    k, r1, r2 = z3.Int('k'), z3.Int('rl'), z3.Int('rf')      # index offset in the level 0 cell = rl*2^(M-l) + rf
    d, F, w = z3.Real('d'), z3.Real('F'), z3.Real('w')
    f = 1 << (M - l)
    for c in (d > 0, r1 >= 0, r2 >= 0, r2 <= f - 1, F + T(r1 * f + r2) * d * frac(1, 1 << M) <= w,
              w <= F + T(r1 * f + r2 + 1) * d * frac(1, 1 << M)):
        s.assume(c)
    e.oblige(s, z3.And(F + T(r1) * d * frac(1, 1 << l) <= w, w <= F + T(r1 + 1) * d * frac(1, 1 << l)),
             'lemma: the box of the level %d cell contains the box of the index cell' % l)
    return g


def job_sset(m):
    """Stretched set: accepted exactly when each dimension has length+1 strictly increasing values; otherwise unchanged"""
    g = stretched(m, 0)
    e, st = g.e, g.st
    G = [z3.Function('G%d' % i, z3.IntSort(), z3.RealSort()) for i in range(3)]
    n = [e.var('n%d' % i, 0, VMAX, st) for i in range(3)]
    j = [e.var('j%d' % i, 0, VMAX, st) for i in range(3)]       # arbitrary fixed position per dimension
    for i in range(3):
        st.assume(j[i] <= g.L[i] - 1)
    par = e.alloc(st, 'NewParameters')
    for i in range(3):
        e.store(st, Ptr(par.r, 24 * i), ('ptr',), Ptr('new%d' % i, 0))
        e.store(st, Ptr(par.r, 24 * i + 8), ('ptr',), Ptr('new%d' % i, n[i] * 8))
        e.store(st, Ptr(par.r, 24 * i + 16), ('ptr',), Ptr('new%d' % i, n[i] * 8))
    old = e.region_hook

    def idx(i, off):
        import fastlin
        p = fastlin.poly(I(off))
        return g.C[i].index({mm: v // 8 for mm, v in p.items()})

    def region_hook(s, p, ty):
        if isinstance(p.r, str) and p.r.startswith('new') and ty == F64:
            i = int(p.r[-1])
            k = idx(i, p.o)
            e.oblige(s, z3.And(k >= 0, k <= n[i] - 1), 'Stretched set: coordinate index within the vector')
            s.ghost[('read', i)] = s.ghost.get(('read', i), ()) + (k,)
            s.assume(z3.Or(k < j[i], k > j[i], G[i](k) == G[i](j[i])))
            s.assume(z3.Or(k < j[i] + 1, k > j[i] + 1, G[i](k) == G[i](g.C[i].index(canon_poly(e, j[i] + 1)))))
            return G[i](k)
        return old(s, p, ty)
    e.region_hook = region_hook
    inc = lambda i, k: G[i](g.C[i].index(canon_poly(e, k))) < G[i](g.C[i].index(canon_poly(e, I(k) + 1)))

    def assign(e, s, args, ins):
        d, src = args[0], args[1]
        for o in (0, 8, 16):
            e.store(s, Ptr(d.r, d.o + o), ('ptr',), e.load(s, Ptr(src.r, src.o + o), ('ptr',)))
        return d
    use(g, [(r'^std::vector<double, std::allocator<double>\s*>::operator=\(std::vector<double, std::allocator<double>\s*> const&\)', assign)])

    def loop(e, st, phis, entry):
        cands, meas = [], []
        for r, t in phis:
            if t != ('i', 64):
                continue
            for i in range(3):
                cands.append(('%s <= length[%d]' % (r, i), lambda v, r=r, i=i: v[r] <= g.L[i]))
                cands.append(('%s > j implies increasing at j, dimension %d' % (r, i),
                              lambda v, r=r, i=i: z3.Or(v[r] <= j[i], inc(i, j[i]))))
                meas.append(lambda v, r=r, i=i: g.L[i] - v[r])
        return cands, meas
    e.loop_specs = [(r'Stretched_Cartesian_Geometry::set\(dccrg::Stretched_Cartesian_Geometry_Parameters', loop)]
    for s, r in each(g, 's_set', [g.geo, par], st, 'Stretched set'):
        ptrs = [[e.load(s, Ptr(g.par.r, g.par.o + 24 * i + o), ('ptr',)) for o in (0, 8)] for i in range(3)]
        if not isinstance(r, int):
            r = e.unique_int(s, r) if hasattr(e, 'unique_int') else r
        if r == 1:
            for i in range(3):
                e.oblige(s, n[i] == g.L[i] + 1, 'Stretched set: accepted parameters have length+1 values in dimension %d' % i)
                e.oblige(s, inc(i, j[i]), 'Stretched set: accepted parameters are strictly increasing in dimension %d' % i)
                e.oblige(s, zb(ptrs[i][0].r == 'new%d' % i), 'Stretched set: accepted parameters are stored')
        elif r == 0:
            bads = []
            for i in range(3):
                bads.append(n[i] != g.L[i] + 1)
                for k in s.ghost.get(('read', i), ()):
                    bads.append(z3.And(k >= 0, k <= g.L[i] - 1, z3.Not(inc(i, k))))
            e.oblige(s, z3.Or(bads), 'Stretched set: refused only if a length is wrong or values do not increase')
            for i in range(3):
                e.oblige(s, zb(ptrs[i][0].r == 'coords%d' % i), 'Stretched set: refused parameters change nothing')
        else:
            e.oblige(s, z3.BoolVal(False), 'Stretched set returns true or false')
    return g
