"""Contracts of Mapping and Grid_Length (dccrg_mapping.hpp, dccrg_length.hpp).

Spec functions (mathematical integers):
  N        = L0*L1*L2
  off(l)   = N*(8^l-1)/7                    number of ids before level l
  last     = off(M+1)
  id(l,a,b,c) = 1 + off(l) + a + b*(L0*2^l) + c*(L0*2^l)*(L1*2^l)      0<=a<L0*2^l etc.
  index of (l,a,b,c) = (a,b,c)*2^(M-l)
  WF(L,M)  = L>=1 and 0<=M and off(M+1) <= 2^64-1       (implies M<=20)
"""
import z3
import llvc
from llvc import Engine, State, Ptr, I, zb

U64 = (1 << 64) - 1
S = lambda k: (8 ** k - 1) // 7      # off(k) = N*S(k)
MAXLEVEL = 20
while S(MAXLEVEL + 2) <= U64:
    MAXLEVEL += 1
NOISE = [
    (r'^std::(basic_ostream|ostream)|^std::operator<<|^std::basic_ios|^std::endl', lambda e, s, a, i: a[0] if a else None),
    (r'^std::allocator<char>|^std::__cxx11::basic_string', lambda e, s, a, i: None),
]


def h_abort(e, st, a, ins):
    st.out = ('abort', None)
    return [(st, None)]


NOISE.append((r'^(abort|std::terminate)(\(|$)', h_abort))


class Grid:
    """symbolic well-formed mapping with concrete M"""
    pass


def setup(m, M, contracts=(), timeout=20.0, wf=True):
    e = Engine(m, contracts=list(contracts) + NOISE, timeout=timeout)
    st = State()
    g = Grid()
    g.e, g.M = e, M
    g.cells = {}
    hi = U64 // S(M + 1) if wf else U64
    g.L = [e.var('L%d' % i, 1, hi, st) for i in range(3)]
    L = g.L
    g.P01 = L[0] * L[1]
    g.N = L[0] * L[1] * L[2]
    if wf:
        st.assume(g.N * S(M + 1) <= U64)
        wf_facts(st, L, hi)
        for x in (L[0] * L[1], L[0] * L[2], L[1] * L[2], g.N, L[0] * (L[1] * L[2]), L[2] * L[1] * L[0]):
            e.bounds[x.get_id()] = (1, hi)
            e.keep.append(x)
    g.st = st
    g.len = e.alloc(st, 'len')
    for i in range(3):
        e.store(st, Ptr(g.len.r, 8 * i), ('i', 64), L[i])
    g.m = e.alloc(st, 'Mapping')
    return g


def wf_facts(st, L, hi):
    """consequences of L>=1 and N<=hi (lemma 'product-monotone', proved in lemma_obligations)"""
    st.assume(L[0] * L[1] <= hi)
    st.assume(L[0] * L[2] <= hi)
    st.assume(L[1] * L[2] <= hi)
    st.assume(L[0] * L[1] >= 1)
    st.assume(L[0] * L[1] * L[2] >= 1)
    st.assume(L[0] * L[1] <= L[0] * L[1] * L[2])
    st.assume(L[0] <= L[0] * L[1])
    st.assume(L[1] <= L[0] * L[1])
    st.assume(L[2] <= L[0] * L[1] * L[2])


def h_max_possible(g):
    """contract of get_maximum_possible_refinement_level (proved in C03):
       for every k in 0..MAXLEVEL+1: result >= k iff N*S(k+1) <= 2^64-1"""
    def h(e, st, args, ins):
        L = [e.load(st, Ptr(args[0].r, 8 * i), ('i', 64)) for i in range(0)]
        r = e.fresh('maxposs', 0, MAXLEVEL, st)
        for k in range(0, MAXLEVEL + 1):
            st.assume((r >= k) == (g.N * S(k + 1) <= U64))
        return r
    return h


def make(g):
    """run the real constructor and setters; g.st becomes the state with a configured mapping"""
    e = g.e
    s, = e.run('w_ctor', [g.m], g.st)
    outs = e.run('w_set_length', [g.m, g.len], reset(s))
    ok = []
    for s in outs:
        if s.out[0] != 'ret':
            e.oblige(s, z3.BoolVal(False), 'set_length terminates normally'); continue
        e.oblige(s, I(s.out[1]) == 1, 'set_length accepts representable length')
        for s2 in e.run('w_set_max', [g.m, g.M], reset(s)):
            e.oblige(s2, I(s2.out[1]) == 1, 'set_maximum_refinement_level accepts representable level')
            ok.append(reset(s2))
    g.states = ok
    return ok


def reset(s):
    s.out = None
    s.frames = []
    s.depth = {}
    return s


# ------------------------------------------------------------------ contracts used at call sites
import re as _re

ERR = U64


def off(g, l):
    return g.N * S(l)


def cell_id(g, l, a, b, c):
    X = g.L[0] * (1 << l)
    Y = g.L[1] * (1 << l)
    return 1 + off(g, l) + a + b * X + c * X * Y


def reg_cell(g, c, l, v):
    """c = id(l, v) is a valid cell: remembered so that the contracts of the inverse functions apply to it"""
    import fastlin
    g.e.bounds[c.get_id()] = (1, U64)
    g.e.keep.append(c)
    g.cells[frozenset(fastlin.poly(c).items())] = (l, v)
    return c


def loc_vars(g, st, l, pre='', tag=''):
    """symbolic location of a level-l cell; pre-reduced coordinates a,b,c with range facts"""
    e = g.e
    v = []
    for i, n in enumerate('abc'):
        x = e.var(pre + n + tag, 0, None, st)
        st.assume(x < g.L[i] * (1 << l))
        v.append(x)
    return v


def range_facts(g, st, l, v):
    """lemma 'range': a+bX+cXY <= XYZ-1  (proved in lemma_obligations)"""
    a, b, c = v
    X = g.L[0] * (1 << l)
    Y = g.L[1] * (1 << l)
    st.assume(b * X <= (g.L[1] * (1 << l) - 1) * X)
    st.assume(c * X * Y <= (g.L[2] * (1 << l) - 1) * X * Y)
    st.assume(a + b * X + c * X * Y <= g.N * 8 ** l - 1)
    st.assume(b * X >= 0)
    st.assume(c * X * Y >= 0)


def new(m, M, use_contracts=True, timeout=20.0):
    g = setup(m, M, timeout=timeout)
    g.e.contracts.insert(0, (_re.compile(r'Mapping::get_maximum_possible_refinement_level\('), h_max_possible(g)))
    sts = make(g)
    assert len(sts) == 1
    g.st = forget(sts[0], ('maxposs',))
    return g


def forget(st, prefixes):
    """drop hypotheses about auxiliary variables that are no longer needed (weakening only)"""
    def mentions(f):
        todo = [f]
        while todo:
            x = todo.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(prefixes):
                return True
            todo.extend(x.children())
        return False
    st.pc = [f for f in st.pc if not mentions(f)]
    st.pcset = set(f.get_id() for f in st.pc)
    return st


def contracts_core(g):
    """call-site contracts of the three conversion functions, each proved in C01"""
    e = g.e

    def lookup(c):
        import fastlin
        if not isz_(c):
            return None
        try:
            k = frozenset(fastlin.poly(c).items())
        except fastlin.No:
            return None
        return g.cells.get(k)

    def lvl(e, st, args, ins):
        k = lookup(args[1])
        if k:
            return k[0]
        c = e.canon_u(st, args[1], 64)
        hints = [x for x in getattr(g, 'hints', ()) if 0 <= x <= g.M]
        for l in hints + [x for x in range(g.M + 1) if x not in hints]:
            if e.entails(st, z3.And(I(c) > off(g, l), I(c) <= off(g, l + 1))):
                return l
        return NotImplemented

    def cell(e, st, args, ins):
        l = args[2]
        if not isinstance(l, int):
            return NotImplemented
        l = e.canon_s(st, l, 32)
        if not 0 <= l <= g.M:
            return NotImplemented
        ix = [e.canon_u(st, e.load(st, Ptr(args[1].r, args[1].o + 8 * i), ('i', 64)), 64) for i in range(3)]
        for i in range(3):
            if not e.entails(st, I(ix[i]) < g.L[i] * (1 << g.M)):
                return NotImplemented
        v = [e.divmod_u(st, ix[i], 1 << (g.M - l), 'spec')[0] for i in range(3)]
        for i in range(3):
            st.assume(I(v[i]) < g.L[i] * (1 << l))
            st.assume(I(v[i]) >= 0)
        r = cell_id(g, l, *v)
        st.assume(r >= 1 + off(g, l))
        st.assume(r <= off(g, l + 1))
        return reg_cell(g, r, l, v)

    def indices(e, st, args, ins):
        k = lookup(args[2])
        if not k:
            return NotImplemented
        for i in range(3):
            x = I(k[1][i]) * (1 << (g.M - k[0]))
            e.bounds[x.get_id()] = (0, U64)
            e.keep.append(x)
            e.store(st, Ptr(args[0].r, args[0].o + 8 * i), ('i', 64), x)
        return None

    return [(r'dccrg::Mapping::get_indices\(', indices), (r'dccrg::Mapping::get_refinement_level\(', lvl), (r'dccrg::Mapping::get_cell_from_indices\(', cell)]


def use(g, cs):
    for p, h in cs:
        g.e.contracts.insert(0, (_re.compile(p), h))
    g.e.ccache.clear()


def each(g, fn, args, st, what):
    """run wrapper; yields (state, value) for normal returns; other endings are violated obligations"""
    e = g.e
    outs = e.run(fn, args, st)
    res = []
    for s in outs:
        if s.out[0] == 'ret':
            res.append((s, s.out[1]))
        else:
            e.oblige(s, z3.BoolVal(False), what + ' returns normally (ended with %s)' % s.out[0])
    cover(e, st, what)
    return res


def cover(e, st, what):
    """vacuity guard: the precondition must be satisfiable"""
    import prover
    e.covers = getattr(e, 'covers', [])
    e.covers.append((what, list(st.pc)))


def eqmod(e, s, r, want, w, name):
    """machine value r equals the mathematical integer want (which must be representable)"""
    want = I(want)
    if isinstance(r, int) and z3.is_int_value(want):
        return e.oblige(s, (r - want.as_long()) % (1 << w) == 0 or z3.BoolVal(False), name)
    if isz_(r) and not z3.is_bool(r):
        lo, hi = e.interval(r)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << w) and poly_same(r, want):
            return e.oblige(s, True, name)      # polynomial identity, r already canonical
    if isz_(r) and not z3.is_bool(r):
        if e.entails(s, z3.And(want >= 0, want < (1 << w))) and e.entails(s, r == want):
            return e.oblige(s, z3.And(want >= 0, want < (1 << w), r == want), name)
    return e.oblige(s, I(e.canon_u(s, r, w)) == want, name)


def poly_same(a, b):
    import fastlin
    try:
        return fastlin.poly(a - b) == {}
    except fastlin.No:
        return False


def out_arr(g, st, n):
    return g.e.alloc(st, 'out')


def get_arr(g, s, p, n):
    return [g.e.load(s, Ptr(p.r, 8 * i), ('i', 64)) for i in range(n)]


# ------------------------------------------------------------------ C01
def job_cell(m, M, l):
    g = new(m, M)
    e, st = g.e, g.st
    ix = [e.var('i%d' % k, 0, U64, st) for k in range(3)]
    ip = e.alloc(st, 'idx')
    for k in range(3):
        e.store(st, Ptr(ip.r, 8 * k), ('i', 64), ix[k])
    s_ = 1 << (M - l)
    v = [I(e.divmod_u(st, ix[k], s_, 'spec')[0]) for k in range(3)]
    inr = z3.And([ix[k] < g.L[k] * (1 << M) for k in range(3)])
    for s, r in each(g, 'w_cell', [g.m, ip, l], st, 'get_cell_from_indices'):
        if isinstance(r, int) and r == 0:
            e.oblige(s, z3.Not(inr), 'get_cell_from_indices: error cell only for indices outside the grid')
            continue
        e.oblige(s, inr, 'get_cell_from_indices: indices outside the grid give the error cell')
        for k in range(3):
            s.assume(v[k] < g.L[k] * (1 << l))
        range_facts(g, s, l, v)
        eqmod(e, s, r, cell_id(g, l, *v), 64, 'get_cell_from_indices: id of the level-%d cell at the indices' % l)
    return g


def job_cell_badlevel(m, M):
    g = new(m, M)
    e, st = g.e, g.st
    ip = e.alloc(st, 'idx')
    for k in range(3):
        e.store(st, Ptr(ip.r, 8 * k), ('i', 64), e.var('i%d' % k, 0, U64, st))
    l = e.var('lvl', -(1 << 31), (1 << 31) - 1, st)
    st.assume(z3.Or(l < 0, l > M))
    for s, r in each(g, 'w_cell', [g.m, ip, l], st, 'get_cell_from_indices(bad level)'):
        e.oblige(s, I(e.canon_u(s, r, 64)) == 0, 'get_cell_from_indices: invalid level gives the error cell')
    return g


def job_level(m, M):
    g = new(m, M)
    e, st = g.e, g.st
    c = e.var('cell', 0, U64, st)
    for s, r in each(g, 'w_level', [g.m, c], st, 'get_refinement_level'):
        r = e.canon_s(s, r, 32)
        good = z3.Or([z3.And(I(r) == l, c > off(g, l), c <= off(g, l + 1)) for l in range(M + 1)
                      if not isinstance(r, int) or r == l] +
                     [z3.And(I(r) == -1, z3.Or(c == 0, c > off(g, M + 1)))])
        e.oblige(s, good, 'get_refinement_level: level whose id range contains the cell, -1 outside')
    for s, r in each(g, 'w_last', [g.m], st, 'get_last_cell'):
        eqmod(e, s, r, off(g, M + 1), 64, 'get_last_cell: largest id')
    for s, r in each(g, 'w_get_max', [g.m], st, 'get_maximum_refinement_level'):
        e.oblige(s, zb(e.canon_s(s, r, 32) == M), 'get_maximum_refinement_level')
    for s, r in each(g, 'w_clen', [g.m, c], st, 'get_cell_length_in_indices'):
        r = e.canon_u(s, r, 64)
        good = z3.Or([z3.And(I(r) == 1 << (M - l), c > off(g, l), c <= off(g, l + 1)) for l in range(M + 1)] +
                     [z3.And(I(r) == ERR, z3.Or(c == 0, c > off(g, M + 1)))])
        e.oblige(s, good, 'get_cell_length_in_indices: 2^(M-level), error index for invalid cells')
    # invalid ids
    bad = st.clone()
    bad.assume(z3.Or(c == 0, c > off(g, M + 1)))
    o = e.alloc(bad, 'out')
    for s, _ in each(g, 'w_indices', [g.m, c, o], bad, 'get_indices(invalid)'):
        for x in get_arr(g, s, o, 3):
            eqmod(e, s, x, ERR, 64, 'get_indices: error indices for invalid cells')
    return g


def job_indices(m, M, l):
    g = new(m, M)
    g.hints = [l]
    e, st = g.e, g.st
    v = loc_vars(g, st, l)
    range_facts(g, st, l, v)
    use(g, contracts_core(g)[1:2])
    c = cell_id(g, l, *v)
    o = e.alloc(st, 'out')
    for s, _ in each(g, 'w_indices', [g.m, c, o], st, 'get_indices'):
        for k, x in enumerate(get_arr(g, s, o, 3)):
            eqmod(e, s, x, v[k] * (1 << (M - l)), 64, 'get_indices: corner of the cell, dimension %d' % k)
    return g


def job_c01_lemmas(m, M):
    """lemmas over the contracts: ranges, surjectivity of ids, round trips"""
    g = setup(m, M)
    e = g.e
    hi = U64 // S(M + 1)
    # product-monotone
    base = State()
    L = g.L
    for x in L:
        base.assume(x >= 1)
    base.assume(g.N <= hi)
    for f, n in [(L[0] * L[1] <= hi, 'L0L1<=N'), (L[0] * L[2] <= hi, 'L0L2<=N'), (L[1] * L[2] <= hi, 'L1L2<=N'),
                 (L[0] * L[1] <= g.N, 'L0L1<=L0L1L2'), (L[0] <= L[0] * L[1], 'L0<=L0L1'),
                 (L[1] <= L[0] * L[1], 'L1<=L0L1'), (L[2] <= g.N, 'L2<=N')]:
        e.oblige(base, f, 'lemma product-monotone ' + n)
    for l in range(M + 1):
        st = g.st.clone()
        v = loc_vars(g, st, l, tag='_%d' % l)
        a, b, c = v
        X, Y, Z = [g.L[i] * (1 << l) for i in range(3)]
        e.oblige(st, b * X <= (Y - 1) * X, 'lemma range b level %d' % l)
        e.oblige(st, c * X * Y <= (Z - 1) * X * Y, 'lemma range c level %d' % l)
        e.oblige(st, a + b * X + c * X * Y <= g.N * 8 ** l - 1, 'lemma range level %d' % l)
        st2 = g.st.clone()
        rem, q1, r1, q2, r2 = [e.var('%s_%d' % (n, l), 0, None, st2) for n in ('rem', 'q1', 'r1', 'q2', 'r2')]
        st2.assume(rem == q1 * X + r1)
        st2.assume(r1 < X)
        st2.assume(q1 == q2 * Y + r2)
        st2.assume(r2 < Y)
        st2.assume(rem < g.N * 8 ** l)
        e.oblige(st2, q2 < Z, 'lemma every id of level %d has a location' % l)
    return g


# ------------------------------------------------------------------ C02
def fine_vars(g, st, l, k, tag=''):
    """location of a level-l cell written as 2^k*coarse + remainder"""
    e = g.e
    v, hi, lo = [], [], []
    for i, n in enumerate('abc'):
        q = e.var(n + 'q' + tag, 0, None, st)
        r = e.var(n + 'r' + tag, 0, (1 << k) - 1, st)
        st.assume(q < g.L[i] * (1 << (l - k)))
        x = q * (1 << k) + r
        st.assume(x < g.L[i] * (1 << l))       # follows: q<=L*2^(l-k)-1, r<2^k
        v.append(x)
        hi.append(q)
        lo.append(r)
    return v, hi, lo


def job_tree(m, M, l):
    g = new(m, M)
    g.hints = [l, l - 1, l + 1, 0]
    e = g.e
    use(g, contracts_core(g))
    # downwards
    st = g.st.clone()
    v = loc_vars(g, st, l)
    range_facts(g, st, l, v)
    c = reg_cell(g, cell_id(g, l, *v), l, v)
    o = e.alloc(st, 'out')
    if l < M:
        ch = []
        for z in (0, 1):
            for y in (0, 1):
                for x in (0, 1):
                    w = [2 * v[0] + x, 2 * v[1] + y, 2 * v[2] + z]
                    ch.append(cell_id(g, l + 1, *w))
    for s, _ in each(g, 'w_children', [g.m, c, o], st, 'get_all_children'):
        r = get_arr(g, s, o, 8)
        for k in range(8):
            if l < M:
                eqmod(e, s, r[k], ch[k], 64, 'get_all_children: child %d' % k)
            else:
                eqmod(e, s, r[k], 0, 64, 'get_all_children: none at maximum level')
    for s, r in each(g, 'w_child', [g.m, c], st, 'get_child'):
        eqmod(e, s, r, ch[0] if l < M else c, 64, 'get_child: first child or the cell itself')
    # upwards
    st = g.st.clone()
    if l == 0:
        v = loc_vars(g, st, 0)
        hi = v
        par = cell_id(g, 0, *v)
    else:
        v, hi, lo = fine_vars(g, st, l, 1)
        par = cell_id(g, l - 1, *hi)
        range_facts(g, st, l - 1, hi)
    range_facts(g, st, l, v)
    c = reg_cell(g, cell_id(g, l, *v), l, v)
    for s, r in each(g, 'w_parent', [g.m, c], st, 'get_parent'):
        eqmod(e, s, r, par, 64, 'get_parent: enclosing cell one level coarser')
    o = e.alloc(st, 'out')
    for s, _ in each(g, 'w_siblings', [g.m, c, o], st, 'get_siblings'):
        r = get_arr(g, s, o, 8)
        for k in range(8):
            if l == 0:
                want = c if k == 0 else 0
            else:
                want = cell_id(g, l, 2 * hi[0] + (k & 1), 2 * hi[1] + (k >> 1 & 1), 2 * hi[2] + (k >> 2))
            eqmod(e, s, r[k], want, 64, 'get_siblings: children of the parent')
    st = g.st.clone()
    v, hi, lo = fine_vars(g, st, l, l)
    range_facts(g, st, l, v)
    range_facts(g, st, 0, hi)
    c = reg_cell(g, cell_id(g, l, *v), l, v)
    for s, r in each(g, 'w_parent0', [g.m, c], st, 'get_level_0_parent'):
        eqmod(e, s, r, cell_id(g, 0, *hi), 64, 'get_level_0_parent: enclosing level 0 cell')
    return g


def job_tree_bad(m, M):
    g = new(m, M)
    e, st = g.e, g.st
    c = e.var('cell', 0, U64, st)
    st.assume(z3.Or(c == 0, c > off(g, M + 1)))
    for fn, n in (('w_child', 'get_child'), ('w_parent', 'get_parent'), ('w_parent0', 'get_level_0_parent')):
        for s, r in each(g, fn, [g.m, c], st, n + '(invalid)'):
            eqmod(e, s, r, 0, 64, n + ': error cell for invalid cells')
    for fn, n in (('w_children', 'get_all_children'), ('w_siblings', 'get_siblings')):
        o = e.alloc(st, 'out')
        for s, _ in each(g, fn, [g.m, c, o], st, n + '(invalid)'):
            for x in get_arr(g, s, o, 8):
                eqmod(e, s, x, 0, 64, n + ': error cells for invalid cells')
    return g


# ------------------------------------------------------------------ C03
def getters(g, s, m):
    """(length, max level, last cell) read through the public getters"""
    e = g.e
    o = e.alloc(s, 'out')
    s1, = [x for x in e.run('w_get_length', [m, o], reset(s))]
    L = get_arr(g, s1, o, 3)
    s2, = e.run('w_get_max', [m], reset(s1))
    M = e.canon_s(s2, s2.out[1], 32)
    s3, = e.run('w_last', [m], reset(s2))
    return s3, L, M, s3.out[1]


def same(e, s, got, L, M, last, what):
    gl, gm, gk = got
    for i in range(3):
        eqmod(e, s, gl[i], L[i], 64, what + ': length[%d]' % i)
    e.oblige(s, I(gm) == M, what + ': maximum refinement level')
    eqmod(e, s, gk, last, 64, what + ': largest id')


def job_maxposs(m):
    e = Engine(m, contracts=NOISE)
    st = State()
    g = Grid()
    g.e, g.st, g.M = e, st, 0
    g.L = [e.var('L%d' % i, 1, U64, st) for i in range(3)]
    g.N = g.L[0] * g.L[1] * g.L[2]
    st.assume(g.N <= U64)
    wf_facts(st, g.L, U64)
    g.len = e.alloc(st, 'len')
    g.m = e.alloc(st, 'Mapping')
    for i in range(3):
        e.store(st, Ptr(g.len.r, 8 * i), ('i', 64), g.L[i])
    s, = e.run('w_ctor', [g.m], st)
    g2 = g
    use(g, [(r'Mapping::get_maximum_possible_refinement_level\(', h_max_possible(g))])
    outs = e.run('w_set_length', [g.m, g.len], reset(s))
    e.contracts.pop(0)
    e.ccache.clear()
    for s in outs:
        e.oblige(s, I(s.out[1]) == 1, 'set_length accepts length with N <= 2^64-1 at level 0')
        for s2, r in each(g, 'w_max_possible', [g.m], reset(s), 'get_maximum_possible_refinement_level'):
            r = e.canon_s(s2, r, 32)
            if isinstance(r, int):
                ok = z3.BoolVal(False) if r < 0 else z3.And(g.N * S(r + 1) <= U64, g.N * S(r + 2) > U64)
            else:
                ok = z3.And([r >= 0, r <= MAXLEVEL] + [(r >= k) == (g.N * S(k + 1) <= U64) for k in range(MAXLEVEL + 1)])
            e.oblige(s2, ok, 'get_maximum_possible_refinement_level: largest level whose ids fit 64 bits')
    return g


def job_set_length(m, M):
    """set_length on any configured mapping with maximum level M"""
    g = new(m, M)
    e, st = g.e, g.st
    e.timeout = 40
    NL = [e.var('n%d' % i, 0, U64, st) for i in range(3)]
    NN = NL[0] * NL[1] * NL[2]
    old = (g.L, g.M, off(g, M + 1))
    p = e.alloc(st, 'newlen')
    for i in range(3):
        e.store(st, Ptr(p.r, 8 * i), ('i', 64), NL[i])
    # the contract of get_maximum_possible_refinement_level is relative to the new length here
    h = Grid()
    h.N = NN
    use(g, [(r'Mapping::get_maximum_possible_refinement_level\(', h_max_possible(h))])
    ok = z3.And(NL[0] >= 1, NL[1] >= 1, NL[2] >= 1, NN * S(M + 1) <= U64)
    for s, r in each(g, 'w_set_length', [g.m, p], st, 'set_length'):
        r = e.canon_s(s, r, 32)
        if isz_(r):
            e.oblige(s, (r == 1) == ok, 'set_length: accepted exactly when all ids fit 64 bits')
            continue
        if r:
            e.oblige(s, ok, 'set_length: accepted only when all ids fit 64 bits')
            s.assume(ok)
            s3, a, b, c = getters(g, s, g.m)
            same(e, s3, (a, b, c), NL, M, NN * S(M + 1), 'set_length accepted')
        else:
            e.oblige(s, z3.Not(ok), 'set_length: refused only when not representable')
            s3, a, b, c = getters(g, s, g.m)
            same(e, s3, (a, b, c), *old, 'set_length refused')
    return g


def isz_(x):
    return isinstance(x, z3.ExprRef)


def job_set_max(m, M):
    """set_maximum_refinement_level on any configured mapping with maximum level M"""
    g = new(m, M)
    e = g.e
    old = (g.L, g.M, off(g, M + 1))
    for k in list(range(0, MAXLEVEL + 1)) + [None]:
        st = g.st.clone()
        if k is None:
            lv = e.var('lvl', -(1 << 31), (1 << 31) - 1, st)
            st.assume(z3.Or(lv < 0, lv > MAXLEVEL))
            ok = z3.BoolVal(False)
        else:
            lv = k
            ok = g.N * S(k + 1) <= U64
        for s, r in each(g, 'w_set_max', [g.m, lv], st, 'set_maximum_refinement_level'):
            r = e.canon_s(s, r, 32)
            if r:
                e.oblige(s, ok, 'set_maximum_refinement_level: accepted only when all ids fit')
                s.assume(ok)
                if k is not None:
                    s3, a, b, c = getters(g, s, g.m)
                    same(e, s3, (a, b, c), g.L, k, g.N * S(k + 1), 'set_maximum_refinement_level accepted')
            else:
                e.oblige(s, z3.Not(ok), 'set_maximum_refinement_level: refused only when not representable')
                s3, a, b, c = getters(g, s, g.m)
                same(e, s3, (a, b, c), *old, 'set_maximum_refinement_level refused')
    return g


def job_ctor(m, M):
    """constructors: default, from length, copy (independent of the original)"""
    g = new(m, M)
    e, st = g.e, g.st
    if M == 0:
        q = e.alloc(st, 'M0')
        s, = e.run('w_ctor', [q], st)
        s3, a, b, c = getters(g, s, q)
        same(e, s3, (a, b, c), [1, 1, 1], 0, 1, 'default constructor')
        q = e.alloc(st, 'M1')
        for s, _ in each(g, 'w_ctor_len', [q, g.len], st, 'constructor from length'):
            s3, a, b, c = getters(g, s, q)
            same(e, s3, (a, b, c), g.L, 0, g.N, 'constructor from length')
    q = e.alloc(st, 'copy')
    for s, _ in each(g, 'w_copy', [q, g.m], st, 'copy constructor'):
        s3, a, b, c = getters(g, s, q)
        same(e, s3, (a, b, c), g.L, M, off(g, M + 1), 'copy constructor')
        # overwrite the original: the copy must not notice
        s4 = s3.clone()
        for o, (z, x) in list(s4.mem[g.m.r].items()):
            if isz_(x) or isinstance(x, int):
                s4.cells_w(g.m.r)[o] = (z, 0)
        s5, a, b, c = getters(g, reset(s4), q)
        same(e, s5, (a, b, c), g.L, M, off(g, M + 1), 'copy is independent of the original')
    return g
