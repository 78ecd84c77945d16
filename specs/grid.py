"""Contracts of member functions of Dccrg (dccrg.hpp).

Abstraction of the standard containers (assumed contracts of libstdc++):
  an unordered_map/unordered_set member is a finite map; initially an arbitrary one whose contents are
  named on demand (`g.base`), followed by the updates made on the current path (`st.ghost`).
Grid invariant assumed on entry (established and checked for whole histories by the bounded contracts of C10/C13):
  cell_process does not contain the error cell, contains only ids 1..last, and its values are < comm_size;
  cell_data has exactly the cells of cell_process whose process is rank.
"""
import re
import z3
import llvc
import mapping as mp
from llvc import Ptr, I, zb, Unsupported
from mapping import U64, each, cover, eqmod, off, cell_id, reg_cell, loc_vars, range_facts

SCAL = ('rank', 'comm_size', 'neighborhood_length', 'grid_initialized', 'balancing_load', 'max_ref_lvl_diff')
MAPS = ('cell_data', 'neighbors_of', 'neighbors_to', 'user_neigh_of', 'user_neigh_to', 'user_hood_of', 'user_hood_to', 'cell_process',
        'local_cells_on_process_boundary', 'remote_cells_on_process_boundary', 'user_local_cells_on_process_boundary',
        'user_remote_cells_on_process_boundary', 'remote_neighbors', 'cells_to_send', 'cells_to_receive', 'added_cells', 'removed_cells',
        'cells_to_refine', 'cells_to_unrefine', 'cells_not_to_refine', 'cells_not_to_unrefine', 'refined_cell_data', 'unrefined_cell_data',
        'pin_requests', 'new_pin_requests', 'cell_weights')
NULL = llvc.NULL


def pkey(k):
    import fastlin
    if isinstance(k, int):
        k = z3.IntVal(k)
    try:
        return frozenset(fastlin.poly(k).items())
    except fastlin.No:
        return ('id', k.get_id())


class Maps:
    """ghost contents of the containers of one Dccrg object"""

    def __init__(self, g):
        self.g = g
        self.at_off = {}     # (region, offset) -> name
        self.base = {}       # (name, poly key) -> (key, present, value)
        self.kinds = {}

    def name(self, p):
        n = self.at_off.get((p.r, p.o))
        if n is None:
            raise Unsupported('operation on an unknown container')
        return n

    def initial(self, st, n, k):
        """contents of container n at key k when the function was called"""
        e = self.g.e
        pk = (n, pkey(k))
        if pk in self.base:
            _, p, v = self.base[pk]
            return p, v
        lv = self.g.cells.get(pk[1], (None,))[0]
        for t2, (k2, p, v) in list(self.base.items()):
            if t2[0] != n or t2[1] == 'mark':
                continue
            q2 = t2[1]
            l2 = self.g.cells.get(q2, (None,))[0]
            if lv is not None and l2 is not None and lv != l2:
                continue             # ids of different levels differ (C01)
            if e.entails(st, I(k2) == I(k)):
                return p, v
        p = z3.Bool('in_%s_%d' % (n, len(self.base)))
        v = self.fresh_val(n)
        self.base[pk] = (k, p, v)
        return p, v

    def facts(self, st, n, k, p, v):
        g = self.g
        if n == 'cell_process':
            st.assume(z3.Implies(p, z3.And(I(k) >= 1, I(k) <= off(g, g.M + 1))))
            st.assume(z3.And(v >= 0, v < g.scal['comm_size']))
        elif n == 'cell_data':
            pp, vv = self.get(st, 'cell_process', k, True)
            st.assume(p == z3.And(pp, vv == g.scal['rank']))
        elif n in ('pin_requests', 'new_pin_requests'):
            st.assume(z3.And(v >= 0, v <= U64))

    def fresh_val(self, n):
        e = self.g.e
        if n == 'cell_weights':
            return e.fresh_real('val_' + n)
        return z3.Int('val_%s_%d' % (n, len(self.base)))

    def get(self, st, n, k, init=False):
        """(present, value) of key k now (or at entry)"""
        e = self.g.e
        p, v = self.initial(st, n, k)
        tag = ('facts', n, p.get_id())
        if not st.ghost.get(tag):
            st.ghost[tag] = True
            self.facts(st, n, k, p, v)
        if init:
            return p, v
        for i, (k2, p2, r2) in enumerate(st.ghost.get(n, ())):
            if isinstance(k2, str):      # loop mark: arbitrary from here on, within the mode
                t = (n, 'mark', r2, pkey(k))
                if t not in self.base:
                    self.base[t] = (k, z3.Bool('in_%s_%d' % (n, len(self.base))), v)
                q = self.base[t][1]
                st.assume(z3.Implies(q, zb(p)) if p2 == 'shrink' else z3.Implies(zb(p), q))
                p = q
                continue
            v2 = self.slot_val(st, n, r2) if r2 is not None else v
            if pkey(k2) == pkey(k):
                p, v = p2, v2
                continue
            c = z3.simplify(I(k2) == I(k))
            if z3.is_false(c) or e.entails(st, z3.Not(c)):
                continue
            if z3.is_true(c) or e.entails(st, c):
                p, v = p2, v2
            else:
                p, v = z3.If(c, zb(p2), zb(p)), z3.If(c, v2, v) if v2 is not v else v
        return p, v

    def mark(self, st, n, mode):
        self.nmark = getattr(self, 'nmark', 0) + 1
        st.ghost[n] = st.ghost.get(n, ()) + (('mark', mode, self.nmark),)

    def slot_ty(self, n):
        return ('f', 64) if n == 'cell_weights' else ('i', 64)

    def slot_val(self, st, n, r):
        return llvc.R(self.g.e.load(st, Ptr(r, 0), self.slot_ty(n))) if n == 'cell_weights' else I(self.g.e.load(st, Ptr(r, 0), self.slot_ty(n)))

    def put(self, st, n, k, present, rid):
        st.ghost[n] = st.ghost.get(n, ()) + ((k, present, rid),)

    def slot(self, st, n, v):
        p = self.g.e.alloc(st, 'slot_' + n)
        self.g.e.store(st, p, self.slot_ty(n), v)
        return p


def keyof(e, st, p, w=64):
    return e.canon_u(st, e.load(st, p, ('i', w)), w) if w == 64 else e.canon_s(st, e.load(st, p, ('i', w)), w)


def h_count(g):
    def h(e, st, a, ins):
        n = g.maps.name(a[0])
        p, _ = g.maps.get(st, n, keyof(e, st, a[1]))
        return fork(e, st, zb(p), 1, 0)
    return h


def fork(e, st, p, a, b):
    p = z3.simplify(p)
    if z3.is_true(p) or p.get_id() in st.pcset:
        return a
    q = z3.simplify(z3.Not(p))
    if z3.is_true(q) or q.get_id() in st.pcset:
        return b
    out = []
    for f, v in ((p, a), (q, b)):
        if e.feasible(st, f):
            s = st.clone()
            s.assume(f)
            out.append((s, v))
    return out


def h_at(g, const):
    def h(e, st, a, ins):
        n = g.maps.name(a[0])
        k = keyof(e, st, a[1])
        p, v = g.maps.get(st, n, k)
        out = []
        if e.feasible(st, z3.Not(zb(p))):
            s = st.clone()
            s.assume(z3.Not(zb(p)))
            s.out = ('throw', 'std::out_of_range')
            out.append((s, None))
        if e.feasible(st, zb(p)):
            s = st.clone()
            s.assume(zb(p))
            if n in g.lists:
                q = g.lists[n](s, k)
            else:
                q = g.maps.slot(s, n, v)
                if not const:
                    g.maps.put(s, n, k, True, q.r)
            out.append((s, q))
        return out
    return h


def h_index(g):
    def h(e, st, a, ins):
        n = g.maps.name(a[0])
        k = keyof(e, st, a[1])
        p, v = g.maps.get(st, n, k)
        q = g.maps.slot(st, n, z3.If(zb(p), v, 0) if not isinstance(p, bool) else v)
        g.maps.put(st, n, k, True, q.r)
        return q
    return h


def h_erase(g):
    def h(e, st, a, ins):
        n = g.maps.name(a[0])
        k = keyof(e, st, a[1])
        p, v = g.maps.get(st, n, k)
        g.maps.put(st, n, k, z3.BoolVal(False), None)
        return z3.If(zb(p), z3.IntVal(1), z3.IntVal(0))
    return h


def h_insert(g):
    def h(e, st, a, ins):
        n = g.maps.name(a[0])
        k = keyof(e, st, a[1])
        g.maps.put(st, n, k, z3.BoolVal(True), None)
        return (NULL, 1)
    return h


def unsup(e, st, a, ins):
    raise Unsupported('container operation ' + e.m.dem.get(ins.a[1][1], '?')[:160])


def h_minmax(mn):
    def h(e, st, a, ins):
        x, y = [e.canon_u(st, e.load(st, p, ('i', 64)), 64) for p in a]
        q = e.alloc(st, 'minmax')
        if isinstance(x, int) and isinstance(y, int):
            v = min(x, y) if mn else max(x, y)
        else:
            v = z3.If(I(x) <= I(y), I(x), I(y)) if mn else z3.If(I(x) >= I(y), I(x), I(y))
            e.bounds[v.get_id()] = (0, U64)
            e.keep.append(v)
        e.store(st, q, ('i', 64), v)
        return q
    return h


def std_contracts(g):
    C = r'^std::unordered_(?:map|set)<.*>::'
    return [(C + r'count\(unsigned long const&\) const$', h_count(g)),
            (C + r'at\(unsigned long const&\) const$', h_at(g, True)),
            (C + r'at\(unsigned long const&\)$', h_at(g, False)),
            (C + r'operator\[\]\(unsigned long const&\)$', h_index(g)),
            (C + r'erase\(unsigned long const&\)$', h_erase(g)),
            (C + r'insert\(unsigned long const&\)$', h_insert(g)),
            (r'^unsigned long const& std::min<unsigned long>\(', h_minmax(True)),
            (r'^unsigned long const& std::max<unsigned long>\(', h_minmax(False)),
            (r'std::(__cxx11::)?to_string\(', lambda e, s, a, i: None),
            (r'^std::(unordered_|)(map|set|multimap)<|^std::_Hashtable|^std::_Rb_tree', unsup)]


def world(m, M, per=None):
    """Dccrg object after its real constructor and the real setters of its mapping; containers arbitrary"""
    g = mp.new(m, M)
    e, st = g.e, g.st
    g.maps = Maps(g)
    g.lists = {}
    q = e.alloc(st, 'Dccrg')
    saved = list(e.contracts)
    nop = lambda e, s, a, i: None
    e.contracts.insert(0, (re.compile(r'^std::.*(::~?\w+\(|operator=\(|::end\(|::begin\()|^std::(string|allocator|__cxx11)|^__gnu_cxx|^std::initializer_list'), nop))
    e.ccache.clear()
    outs = e.run('g_ctor', [q], st)
    assert len(outs) == 1 and outs[0].out[0] == 'ret', outs[0].out
    st = mp.reset(outs[0])
    e.contracts[:] = saved
    e.ccache.clear()

    def member(n):
        s, = e.run('m_' + n, [q], st.clone())
        return s.out[1]
    g.mem = {n: member(n) for n in MAPS + SCAL + ('mapping_rw', 'topology_rw')}
    for n in MAPS:
        g.maps.at_off[(g.mem[n].r, g.mem[n].o)] = n
    for fn, a in (('w_set_length', [g.mem['mapping_rw'], g.len]), ('w_set_max', [g.mem['mapping_rw'], M])):
        outs = e.run(fn, a, st)
        assert len(outs) == 1
        e.oblige(outs[0], I(outs[0].out[1]) == 1, 'grid mapping accepts a representable size')
        st = mp.reset(outs[0])
    st = mp.forget(st, ('maxposs',))
    g.scal = {'comm_size': e.var('nproc', 1, 2 ** 31 - 1, st), 'rank': e.var('rank', 0, 2 ** 31 - 2, st)}
    st.assume(g.scal['rank'] < g.scal['comm_size'])
    e.store(st, g.mem['rank'], ('i', 64), g.scal['rank'])
    e.store(st, g.mem['comm_size'], ('i', 64), g.scal['comm_size'])
    e.store(st, g.mem['grid_initialized'], ('i', 8), 1)
    if per is not None:
        for d in range(3):
            s, = e.run('t_set', [g.mem['topology_rw'], d, per[d]], st)
            st = mp.reset(s)
    mp.use(g, mp.contracts_core(g))
    mp.use(g, reversed(std_contracts(g)))
    g.obj, g.st = q, st
    return g


def same_maps(g, s, what, expect=()):
    """frame: every container holds what it held on entry except for `expect` = {name: [(key, present, value or None)]}"""
    e = g.e
    expect = dict(expect)
    n_ob = 0
    for n in MAPS:
        ks = [k for k, _, _ in s.ghost.get(n, ()) if not isinstance(k, str)]
        if any(isinstance(k, str) for k, _, _ in s.ghost.get(n, ())) and n not in expect:
            e.oblige(s, z3.BoolVal(False), '%s: %s is not changed' % (what, n))
            continue
        ex = expect.get(n, [])
        for k in ks + [x[0] for x in ex]:
            p0, v0 = g.maps.get(s, n, k, True)
            pw, vw = p0, v0
            for k2, p2, v2 in ex:
                c = I(k2) == I(k)
                pw = z3.If(c, zb(p2), zb(pw))
                if v2 is not None:
                    vw = z3.If(c, v2, vw)
            p, v = g.maps.get(s, n, k)
            e.oblige(s, zb(p) == zb(pw), '%s: membership in %s' % (what, n))
            e.oblige(s, z3.Implies(zb(p), v == vw), '%s: value in %s' % (what, n))
            n_ob += 2
    return n_ob


# ------------------------------------------------------------------ C08: boxes and lookup
def job_overlap(m):
    """indices_overlap, scalar and three dimensional"""
    g = world(m, 0)
    e, st0 = g.e, g.st
    st = st0.clone()
    a, n, b, k = [e.var(x, 0, U64, st) for x in ('a', 'n', 'b', 'k')]
    st.assume(a + n <= U64)
    st.assume(b + k <= U64)
    st.assume(n >= 1)
    st.assume(k >= 1)
    w = z3.And(a < b + k, b < a + n)
    for s, r in each(g, 'g_overlap1', [g.obj, a, n, b, k], st, 'indices_overlap'):
        e.oblige(s, (I(e.canon_u(s, r, 32)) != 0) == w, 'indices_overlap: true exactly when the ranges share an index')
        # lemma: the closed form equals the existence of a common index
        x = e.var('x', 0, U64, s)
        e.oblige(s, z3.Implies(z3.And(x >= a, x < a + n, x >= b, x < b + k), w), 'lemma overlap: a common index implies the closed form')
        y = z3.If(a >= b, a, b)
        e.oblige(s, z3.Implies(w, z3.And(y >= a, y < a + n, y >= b, y < b + k)), 'lemma overlap: the closed form gives a common index')
    st = st0.clone()
    A = [e.var('a%d' % i, 0, U64, st) for i in range(3)]
    B = [e.var('b%d' % i, 0, U64, st) for i in range(3)]
    n, k = e.var('n', 1, U64, st), e.var('k', 1, U64, st)
    for i in range(3):
        st.assume(A[i] + n <= U64)
        st.assume(B[i] + k <= U64)
    pa, pb = e.alloc(st, 'a'), e.alloc(st, 'b')
    for i in range(3):
        e.store(st, Ptr(pa.r, 8 * i), ('i', 64), A[i])
        e.store(st, Ptr(pb.r, 8 * i), ('i', 64), B[i])
    w = z3.And([z3.And(A[i] < B[i] + k, B[i] < A[i] + n) for i in range(3)])
    for s, r in each(g, 'g_overlap3', [g.obj, pa, n, pb, k], st, 'indices_overlap (boxes)'):
        e.oblige(s, (I(e.canon_u(s, r, 32)) != 0) == w, 'indices_overlap: true exactly when the boxes intersect')
    return g


def abstract_cells(g, st, names):
    """valid cells known only through the contracts of get_indices and get_cell_length_in_indices (C01)"""
    e = g.e
    cells = {}
    for n in names:
        c = e.var('cell_' + n, 1, U64, st)
        ln = e.var('len_' + n, 1, 1 << g.M, st)
        ix = [e.var('%s%d' % (n, i), 0, U64, st) for i in range(3)]
        for i in range(3):
            st.assume(ix[i] + ln <= g.L[i] * (1 << g.M))
        cells[pkey(c)] = (c, ix, ln)

    def find(st, c):
        k = cells.get(pkey(e.canon_u(st, c, 64)))
        if k is None:
            raise Unsupported('conversion of an unexpected cell')
        return k

    def indices(e, st, a, ins):
        _, ix, _ = find(st, a[2])
        for i in range(3):
            e.store(st, Ptr(a[0].r, a[0].o + 8 * i), ('i', 64), ix[i])
        return None

    def length(e, st, a, ins):
        return find(st, a[1])[2]
    mp.use(g, [(r'dccrg::Mapping::get_indices\(', indices), (r'dccrg::Mapping::get_cell_length_in_indices\(', length)])
    return [cells[k] for k in cells]


def job_overlapping(m, M):
    """overlapping_indices and is_neighbor for every pair of valid cells"""
    g = world(m, M)
    e, st = g.e, g.st
    (c1, A, n), (c2, B, k) = abstract_cells(g, st, 'ab')
    for i in range(3):
        st.assume(g.L[i] * (1 << M) <= U64)
    ov = [z3.And(A[i] < B[i] + k, B[i] < A[i] + n) for i in range(3)]
    want = sum([z3.If(x, 1, 0) for x in ov])
    for s, r in each(g, 'g_overlapping', [g.obj, c1, c2], st, 'overlapping_indices'):
        e.oblige(s, I(e.canon_s(s, r, 32)) == want, 'overlapping_indices: number of dimensions in which the cells overlap')
    return g


def job_is_neighbor(m, M, per):
    g = world(m, M, per)
    e, st = g.e, g.st
    (c1, A, n), (c2, B, k) = abstract_cells(g, st, 'ab')
    h = e.var('hood', 0, 2 ** 32 - 1, st)
    e.store(st, g.mem['neighborhood_length'], ('i', 32), h)
    # gap between the boxes in each dimension, the smaller way around if periodic
    ov = [z3.And(A[i] < B[i] + k, B[i] < A[i] + n) for i in range(3)]
    gap = []
    for i in range(3):
        G = g.L[i] * (1 << M)
        st.assume(G <= U64)
        d = z3.If(A[i] <= B[i], z3.If(B[i] <= A[i] + n, 0, B[i] - A[i] - n), z3.If(A[i] <= B[i] + k, 0, A[i] - B[i] - k))
        if per[i]:
            w = z3.If(A[i] <= B[i], A[i] + G - B[i] - k, B[i] + G - A[i] - n)
            d = z3.If(w < d, w, d)
        gap.append(d)
    num = sum([z3.If(x, 1, 0) for x in ov])
    mp.use(g, [(r'::overlapping_indices\(', lambda e, s, a, i: num)])
    st.assume(h * n <= U64)
    mx = z3.If(gap[0] >= gap[1], gap[0], gap[1])
    mx = z3.If(mx >= gap[2], mx, gap[2])
    near = z3.If(h == 0, z3.And(mx < n, num >= 2), mx < h * n)
    for s, r in each(g, 'g_is_neighbor', [g.obj, c1, c2], st, 'is_neighbor'):
        e.oblige(s, (I(e.canon_u(s, r, 32)) != 0) == near, 'is_neighbor: second cell is closer than the neighbourhood of the first')
    return g


def job_existing(m, M, his=None):
    """get_existing_cell(indices, lo, hi) for every lo and every set of existing cells"""
    g = world(m, M)
    e, st0 = g.e, g.st
    st = st0.clone()
    ix = [e.var('i%d' % i, 0, U64, st) for i in range(3)]
    lo = e.var('lvl', 0, 2 ** 31 - 1, st)
    ip = e.alloc(st, 'idx')
    for i in range(3):
        e.store(st, Ptr(ip.r, 8 * i), ('i', 64), ix[i])
    inr = z3.And([ix[i] < g.L[i] * (1 << M) for i in range(3)])
    at = []
    for l in range(M + 1):
        v = [e.var('at%d_%d' % (l, i), 0, U64, st) for i in range(3)]   # quotients of the indices by 2^(M-l)
        at.append(reg_cell(g, cell_id(g, l, *v), l, v))

    def cell(e, s, a, ins):
        """contract of get_cell_from_indices (C01): inside the grid the id of the level-l cell at the indices"""
        l = a[2]
        if not isinstance(l, int):
            return NotImplemented
        l = e.canon_s(s, l, 32)
        if not 0 <= l <= M:
            return NotImplemented
        for i in range(3):
            x = e.load(s, Ptr(a[1].r, a[1].o + 8 * i), ('i', 64))
            if not (mp.isz_(x) and x.eq(ix[i])) or not e.entails(s, I(x) < g.L[i] * (1 << M)):
                return NotImplemented
        s.assume(at[l] > off(g, l))
        s.assume(at[l] <= off(g, l + 1))
        return at[l]
    mp.use(g, [(r'dccrg::Mapping::get_cell_from_indices\(', cell)])
    def existing(s, l):
        """(id of the level-l cell at the indices, does it exist)"""
        return at[l], g.maps.get(s, 'cell_process', at[l], True)[0]
    for hi in (range(M + 1) if his is None else his):
        outs = each(g, 'g_existing', [g.obj, ip, lo, hi], st, 'get_existing_cell')
        for s, r in outs:
            r = e.canon_u(s, r, 64)
            if isinstance(r, int):
                e.oblige(s, zb(r == 0), 'get_existing_cell: a cell that exists or the error cell')
                s2 = s.clone()
                s2.assume(inr)
                if e.feasible(s2):
                    for l in range(hi + 1):
                        c, p = existing(s2, l)
                        e.oblige(s2, z3.Implies(l >= lo, z3.Not(p)), 'get_existing_cell: error cell only if no cell of the level range exists at the location')
                continue
            for i in range(3):
                e.oblige(s, ix[i] < g.L[i] * (1 << M), 'get_existing_cell: error cell outside of the grid')
            k = None
            for l in range(hi + 1):
                c, p = existing(s, l)
                if mp.poly_same(c, r):
                    k = l
                    e.oblige(s, z3.And(l >= lo, p), 'get_existing_cell: returned cell exists and is of the level range')
                elif k is not None:
                    e.oblige(s, z3.Not(p), 'get_existing_cell: no smaller cell of the range exists at the location')
            e.oblige(s, zb(k is not None), 'get_existing_cell: returned cell contains the location')
    return g


# ------------------------------------------------------------------ tree functions of the grid
def job_family(m, M, l):
    """Dccrg::get_child and get_parent of every valid cell of level l"""
    g = world(m, M)
    e, st = g.e, g.st
    v = loc_vars(g, st, l)
    range_facts(g, st, l, v)
    c = reg_cell(g, cell_id(g, l, *v), l, v)
    E = lambda s, x: g.maps.get(s, 'cell_process', x, True)[0]
    for s, r in each(g, 'g_child', [g.obj, c], st, 'get_child'):
        own = z3.If(E(s, c), c, z3.IntVal(0))
        if l == M:
            w = own
        else:
            k = cell_id(g, l + 1, *[x * 2 for x in v])
            w = z3.If(E(s, k), k, own)
        e.oblige(s, I(e.canon_u(s, r, 64)) == w, 'get_child: first child if it exists, else the cell itself if it exists, else error cell')
        same_maps(g, s, 'get_child')
    if l == 0:
        for s, r in each(g, 'g_parent', [g.obj, c], st, 'get_parent'):
            e.oblige(s, I(e.canon_u(s, r, 64)) == z3.If(E(s, c), c, z3.IntVal(0)), 'get_parent: level 0 cell itself if it exists')
    else:
        st2 = g.st.clone()
        v, q, _ = mp.fine_vars(g, st2, l, 1, tag='p')
        range_facts(g, st2, l, v)
        c = reg_cell(g, cell_id(g, l, *v), l, v)
        for s, r in each(g, 'g_parent', [g.obj, c], st2, 'get_parent'):
            p = cell_id(g, l - 1, *q)
            w = z3.If(E(s, p), p, z3.If(E(s, c), c, z3.IntVal(0)))
            e.oblige(s, I(e.canon_u(s, r, 64)) == w, 'get_parent: parent if it exists, else the cell itself if it exists, else error cell')
    return g


# ------------------------------------------------------------------ C13, C18: ownership, pins, weights
def h_child(g):
    """contract of Dccrg::get_child (job_family) under the invariant that an existing cell has no existing child"""
    def h(e, st, a, ins):
        c = e.canon_u(st, a[1], 64)
        p, _ = g.maps.get(st, 'cell_process', c)
        if e.entails(st, zb(p)):
            return c
        r = e.fresh('child', 0, U64, st)
        st.assume(z3.Implies(zb(p), r == c))
        return r
    return h


def job_owner(m):
    """is_local, get_process, pin, unpin, set_cell_weight, get_cell_weight, operator[] for every 64-bit id"""
    g = world(m, 0)
    mp.use(g, [(r'Dccrg<.*>::get_child\(', h_child(g))])
    e, st0 = g.e, g.st
    c = e.var('cell', 0, U64, st0)
    rank, nproc = g.scal['rank'], g.scal['comm_size']

    def own(s):
        return g.maps.get(s, 'cell_process', c, True)
    for s, r in each(g, 'g_is_local', [g.obj, c], st0, 'is_local'):
        p, v = own(s)
        e.oblige(s, (I(e.canon_u(s, r, 32)) != 0) == z3.And(p, v == rank), 'is_local: true exactly for existing cells of this process')
        same_maps(g, s, 'is_local')
    for s, r in each(g, 'g_process', [g.obj, c], st0, 'get_process'):
        p, v = own(s)
        e.oblige(s, I(e.canon_s(s, r, 32)) == z3.If(p, v, -1), 'get_process: owner of an existing cell, -1 otherwise')
        same_maps(g, s, 'get_process')
    st = st0.clone()
    pr = e.var('proc', -2 ** 31, 2 ** 31 - 1, st)

    def eff(s):
        """process to which the cell is pinned at the next load balance, -1 if not pinned"""
        pn, vn = g.maps.get(s, 'new_pin_requests', c)
        po, vo = g.maps.get(s, 'pin_requests', c)
        return z3.If(zb(pn), z3.If(vn == nproc, -1, vn), z3.If(zb(po), vo, -1))
    for fn, what, ok0, want in (
            ('g_pin', 'pin', z3.And(pr >= 0, pr < nproc), pr), ('g_pin1', 'pin to own process', z3.BoolVal(True), rank),
            ('g_unpin', 'unpin', z3.BoolVal(True), z3.IntVal(-1))):
        args = [g.obj, c] + ([pr] if fn == 'g_pin' else [])
        st1 = st.clone()
        p0, v0 = g.maps.get(st1, 'pin_requests', c, True)
        st1.assume(z3.Implies(p0, v0 < nproc))
        n0, w0 = g.maps.get(st1, 'new_pin_requests', c, True)
        st1.assume(z3.Implies(n0, w0 <= nproc))
        for s, r in each(g, fn, args, st1, what):
            p, v = own(s)
            ok = z3.And(p, v == rank, ok0)
            res = I(e.canon_u(s, r, 32)) != 0
            e.oblige(s, res == ok, '%s: accepted exactly for existing local cells and valid processes' % what)
            s2 = s.clone()
            s2.assume(res)
            if e.feasible(s2):
                e.oblige(s2, eff(s2) == want, '%s: the cell will be on the requested process' % what)
                touched = {n for n in MAPS if s2.ghost.get(n)}
                for k, _, _ in s2.ghost.get('new_pin_requests', ()):
                    e.oblige(s2, I(k) == c, '%s: only the request of the given cell changes' % what)
                same_maps(g, without(s2, ('new_pin_requests',)), what)
            s3 = s.clone()
            s3.assume(z3.Not(res))
            if e.feasible(s3):
                same_maps(g, s3, 'refused ' + what)
    st = st0.clone()
    w = z3.Real('weight')
    for s, r in each(g, 'g_set_weight', [g.obj, c, w], st, 'set_cell_weight'):
        p, v = own(s)
        res = I(e.canon_u(s, r, 32)) != 0
        e.oblige(s, res == z3.And(p, v == rank), 'set_cell_weight: accepted exactly for existing local cells')
        for acc in (True, False):
            s2 = s.clone()
            s2.assume(res if acc else z3.Not(res))
            if e.feasible(s2):
                same_maps(g, s2, 'set_cell_weight', {'cell_weights': [(c, True, w)]} if acc else {})
    for s, r in each(g, 'g_get_weight', [g.obj, c], st0, 'get_cell_weight'):
        p, v = own(s)
        pw, vw = g.maps.get(s, 'cell_weights', c, True)
        if isinstance(r, (str, float)):
            e.oblige(s, z3.Not(z3.And(p, v == rank)), 'get_cell_weight: NaN only for nonexistent or remote cells')
        else:
            e.oblige(s, z3.And(p, v == rank, llvc.R(r) == z3.If(zb(pw), vw, z3.RealVal(1))), 'get_cell_weight: the set weight, 1 if none was set')
        same_maps(g, s, 'get_cell_weight')
    return g


def without(s, names):
    s = s.clone()
    for n in names:
        s.ghost.pop(n, None)
    return s


# ------------------------------------------------------------------ for-each loops over containers
class NeedHavoc(Exception):
    pass


class Lists:
    """Sequences iterated with begin/end/!=/*/++ and the contract rule for such loops: entry state, then either the loop is
    over or one arbitrary iteration is executed on an arbitrary element from a state in which everything that the body
    changes is arbitrary (containers only within their declared mode); the state after the iteration must again be such a
    state. Memory changed by the body is found by executing it (retry) and is undefined at the start of an iteration."""

    def __init__(self, g, havoc):
        self.g = g
        self.n = 0
        self.specs = {}       # list region -> spec dict
        self.ptrs = {}        # (kind, key poly) -> Ptr
        self.havoc = havoc    # loop number -> set of (region, offset)
        self.loops = {}

    def new(self, st, kind, key, **spec):
        k = (kind, pkey(key))
        if k not in self.ptrs:
            self.n += 1
            r = 'list%d:' % self.n
            self.ptrs[k] = Ptr(r, 0)
            self.specs[r] = dict(kind=kind, key=key, **spec)
        return self.ptrs[k]

    def region(self, p):
        return isinstance(p, Ptr) and isinstance(p.r, str) and p.r.startswith('list') and p.r.split(':')[0] + ':'

    def contracts(self):
        g = self.g

        def vec(p):
            r = self.region(p)
            if not r or p.o != 0 or p.r != r:
                raise Unsupported('iteration over an unknown container')
            return r

        def begin(e, st, a, ins):
            return Ptr(vec(a[0]) + 'begin', 0)

        def end(e, st, a, ins):
            return Ptr(vec(a[0]) + 'end', 0)

        def ld(e, st, p):
            v = e.load(st, p, ('ptr',))
            if not self.region(v):
                raise Unsupported('unknown iterator')
            return v

        def deref(e, st, a, ins):
            v = ld(e, st, a[0])
            if not v.r.endswith('cur'):
                raise Unsupported('dereference outside of an iteration')
            return st.ghost[('elem', self.region(v))]

        def inc(e, st, a, ins):
            v = ld(e, st, a[0])
            if not v.r.endswith('cur'):
                raise Unsupported('increment outside of an iteration')
            e.store(st, a[0], ('ptr',), Ptr(self.region(v) + 'next', 0))
            return a[0]

        def ne(e, st, a, ins):
            x, y = ld(e, st, a[0]), ld(e, st, a[1])
            r = self.region(x)
            if self.region(y) != r or not y.r.endswith('end'):
                raise Unsupported('comparison of different iterators')
            sp = self.specs[r]
            fr = st.frames[-1]
            site = (fr.fn.name, fr.block)
            tag = ('loop', r, site)
            if x.r.endswith('begin'):
                hv = self.havoc.setdefault(tag, set())
                # changed containers become arbitrary within their mode
                for n, mode in sp.get('modifies', {}).items():
                    g.maps.mark(st, n, mode)
                for rid, o in hv:
                    if rid in st.mem:
                        st.cells_w(rid).pop(o, None)
                done = st.clone()
                e.store(done, a[0], ('ptr',), y)
                if sp.get('done'):
                    sp['done'](done, site)
                it = st
                e.store(it, a[0], ('ptr',), Ptr(r + 'cur', 0))
                el = sp['elem'](it)
                it.ghost[('elem', r)] = el
                it.ghost[tag] = (dict(it.mem), {n: len(it.ghost.get(n, ())) for n in MAPS}, (a[0].r, a[0].o))
                it.owned = set()
                return [(done, 0), (it, 1)]
            if x.r.endswith('next'):
                mem, upd, itc = st.ghost[tag]
                hv = self.havoc.setdefault(tag, set())
                miss = set()
                for rid, cells in mem.items():
                    now = st.mem.get(rid)
                    if now is cells or now is None:
                        continue
                    for o in set(cells) | set(now):
                        c0, c1 = cells.get(o), now.get(o)
                        if c0 is not c1 and (rid, o) != itc and (rid, o) not in hv and (
                                c0 is None or c1 is None or c0[0] != c1[0] or not llvc.is_same(c0[1], c1[1])):
                            miss.add((rid, o))
                if miss:
                    hv |= miss
                    raise NeedHavoc()
                for n in MAPS:
                    new = st.ghost.get(n, ())[upd[n]:]
                    mode = sp.get('modifies', {}).get(n)
                    for u in new:
                        if mode is None or isinstance(u[0], str) or (mode == 'shrink' and not z3.is_false(zb(u[1]))) or (mode == 'grow' and not z3.is_true(zb(u[1]))):
                            raise Unsupported('loop changes container ' + n)
                if sp.get('iter'):
                    sp['iter'](st, site, st.ghost[('elem', r)])
                return []
            raise Unsupported('iterator in an unexpected state')
        V = r'^std::vector<std::(pair<unsigned long, std::array<int, 3ul> *>|array<int, 3ul>)'
        N = r'^__gnu_cxx::__normal_iterator<std::(pair<unsigned long, std::array<int, 3ul> *>|array<int, 3ul>)'
        return [(V + r'.*>::begin\(\)', begin), (V + r'.*>::end\(\)', end), (N + r'.*::operator\*\(\)', deref), (N + r'.*::operator->\(\)', deref),
                (N + r'.*::operator\+\+\(\)$', inc), (r'^bool __gnu_cxx::operator!=<std::(pair<unsigned long|array<int)', ne),
                (V + r'.*>::~vector\(\)', lambda e, s, a, i: None)]


def retry(f):
    def run(m, *a):
        hv = {}
        for _ in range(12):
            try:
                return f(m, *a, havoc=hv)
            except NeedHavoc:
                continue
        raise Unsupported('loop state does not settle')
    run.__name__ = f.__name__
    return run


# ------------------------------------------------------------------ C11, C18: refinement requests
class Cells:
    """abstract cells: level, siblings of ids through the contracts proved in C01 and C02; maximum level symbolic"""

    def __init__(self, g, st):
        self.g, e = g, g.e
        self.M = e.var('maxlvl', 0, mp.MAXLEVEL, st)
        self.lv, self.sb = {}, {}

    def level(self, st, c):
        e, k = self.g.e, pkey(c)
        if k not in self.lv:
            self.lv[k] = z3.Int('lvl_%d' % len(self.lv))
        l = self.lv[k]
        p, _ = self.g.maps.get(st, 'cell_process', c, True)
        st.assume(z3.And(l >= -1, l <= self.M))
        st.assume(z3.Implies(zb(p), l >= 0))
        return l

    def siblings(self, st, c):
        """of an existing cell: itself and error cells on level 0, else eight different valid ids among which is c"""
        e, k = self.g.e, pkey(c)
        if k not in self.sb:
            n = len(self.sb)
            self.sb[k] = [z3.Int('sib%d_%d' % (n, i)) for i in range(8)]
        s = self.sb[k]
        l = self.level(st, c)
        p, _ = self.g.maps.get(st, 'cell_process', c, True)
        for x in s:
            e.bounds[x.get_id()] = (0, U64)
            st.assume(z3.And(x >= 0, x <= U64))
        st.assume(z3.Implies(z3.And(zb(p), l == 0), z3.And([s[0] == c] + [x == 0 for x in s[1:]])))
        st.assume(z3.Implies(z3.And(zb(p), l > 0), z3.And([x >= 1 for x in s] + [z3.Or([x == c for x in s])])))
        return s

    def contracts(self):
        g = self.g

        def lvl(e, st, a, ins):
            return self.level(st, e.canon_u(st, a[1], 64))

        def sib(e, st, a, ins):
            c = e.canon_u(st, a[2], 64)
            l = self.level(st, c)
            p, _ = g.maps.get(st, 'cell_process', c, True)
            s = st.clone()
            s.assume(z3.Not(zb(p)))
            if e.feasible(s):
                raise Unsupported('siblings of a cell that may not exist')
            out = []
            for top in (True, False):
                s = st.clone()
                s.assume(l == 0 if top else l > 0)
                if not e.feasible(s):
                    continue
                x = self.siblings(s, c)
                for i in range(8):
                    e.store(s, Ptr(a[0].r, a[0].o + 8 * i), ('i', 64), (c if i == 0 else 0) if top else x[i])
                out.append((s, None))
            return out

        def mx(e, st, a, ins):
            q = e.alloc(st, 'maxlvl')
            e.store(st, q, ('i', 32), self.M)
            return q
        return [(r'dccrg::Mapping::get_refinement_level\(', lvl), (r'dccrg::Mapping::get_siblings\(', sib),
                (r'dccrg::Mapping::get_maximum_refinement_level\(', mx)]


def requests(m, havoc):
    g = world(m, 0)
    e, st = g.e, g.st
    g.cs = Cells(g, st)
    g.ls = Lists(g, havoc)
    c = e.var('cell', 0, U64, st)
    mp.use(g, g.cs.contracts() + g.ls.contracts() + [(r'Dccrg<.*>::get_child\(', h_child(g))])
    g.c = c

    def elem(s):
        q = e.alloc(s, 'elem')
        n = e.fresh('neigh', 0, U64, s)
        e.store(s, q, ('i', 64), n)
        for i in range(3):
            e.store(s, Ptr(q.r, 8 + 4 * i), ('i', 32), e.fresh('off', -2 ** 31, 2 ** 31 - 1, s))
        p, _ = g.maps.get(s, 'cell_process', n, True)
        s.assume(zb(p))                       # invariant: neighbours exist
        return q
    g.elem = elem
    return g


def no_other(g, s, what, allowed):
    """frame: containers other than `allowed` hold what they held on entry"""
    return same_maps(g, without(s, allowed), what)


@retry
def job_refine(m, havoc=None):
    """refine_completely for every id and every state of the request sets"""
    g = requests(m, havoc)
    e, st, c = g.e, g.st, g.c
    seen = {'veto': None}

    def veto(s, n):
        d, _ = g.maps.get(s, 'cells_not_to_refine', n, True)
        return z3.And(g.cs.level(s, n) < g.cs.level(s, c), zb(d))

    def iter_of(s, site, q):
        if not s.ghost.get('scan_over'):
            n = I(e.load(s, q, ('i', 64)))
            e.oblige(s, z3.Not(veto(s, n)), 'refine_completely: continues past a neighbour only if it does not veto the refinement')

    def done_of(s, site):
        s.ghost['scan_over'] = True

    def lists(kind):
        def f(s, k):
            return g.ls.new(s, kind, k, elem=g.elem, modifies={'cells_to_unrefine': 'shrink'}, iter=iter_of if kind == 'of' else None)
        return f
    g.lists['neighbors_of'] = lists('of')
    g.lists['neighbors_to'] = lists('to')
    scan = []

    def h_of(e, s, a, ins):
        k = e.canon_u(s, a[1], 64)
        p, _ = g.maps.get(s, 'cell_process', k)
        s2 = s.clone()
        s2.assume(z3.Not(zb(p)))
        if e.feasible(s2):
            raise Unsupported('neighbours of a cell that may not exist')
        return g.ls.new(s, 'scan', k, elem=g.elem, iter=iter_of, done=done_of)
    dont = []

    def h_dont(e, s, a, ins):
        s.ghost['dont'] = s.ghost.get('dont', ()) + (a[1],)
        return True
    mp.use(g, [(r'Dccrg<.*>::get_neighbors_of\(unsigned long, int\)', h_of), (r'Dccrg<.*>::dont_unrefine\(unsigned long\)', h_dont)])
    facts(g)
    for s, r in each(g, 'g_refine', [g.obj, c], st, 'refine_completely'):
        p, v = g.maps.get(s, 'cell_process', c, True)
        loc = z3.And(zb(p), v == g.scal['rank'])
        l = g.cs.level(s, c)
        res = e.canon_u(s, r, 32)
        own, _ = g.maps.get(s, 'cells_not_to_refine', c, True)
        if s.ghost.get('dont'):
            e.oblige(s, z3.And(I(res) == 1, loc, l == g.cs.M, I(s.ghost['dont'][0]) == c), 'refine_completely: a cell of the maximum level is protected from unrefinement instead')
            no_other(g, s, 'refine_completely (maximum level)', ())
            continue
        for acc in (True, False):
            s2 = s.clone()
            s2.assume(I(res) == (1 if acc else 0))
            if not e.feasible(s2):
                continue
            if acc:
                e.oblige(s2, z3.And(loc, l < g.cs.M, z3.Not(zb(own))), 'refine_completely: accepted only for existing local cells below the maximum level without do-not-refine')
                e.oblige(s2, zb(bool(s2.ghost.get('scan_over'))), 'refine_completely: accepted only after all neighbours were looked at')
                q, _ = g.maps.get(s2, 'cells_to_refine', c)
                e.oblige(s2, zb(q), 'refine_completely: request of the cell is recorded')
                for k, _, _ in s2.ghost.get('cells_to_refine', ()):
                    e.oblige(s2, I(k) == c, 'refine_completely: no other request is recorded')
                for x in g.cs.siblings(s2, c):
                    q, _ = g.maps.get(s2, 'cells_to_unrefine', x)
                    e.oblige(s2, z3.Implies(x != 0, z3.Not(zb(q))), 'refine_completely: unrefinement of the siblings is withdrawn')
                no_other(g, s2, 'refine_completely', ('cells_to_refine', 'cells_to_unrefine'))
                x = e.fresh('any', 0, U64, s2)
                q0, _ = g.maps.get(s2, 'cells_to_unrefine', x, True)
                q1, _ = g.maps.get(s2, 'cells_to_unrefine', x)
                e.oblige(s2, z3.Implies(zb(q1), zb(q0)), 'refine_completely: no unrefinement request is added')
            else:
                n = s2.ghost.get(('elem', 'list1:'))
                vet = z3.BoolVal(False)
                if n is not None and not s2.ghost.get('scan_over'):
                    vet = veto(s2, I(e.load(s2, n, ('i', 64))))
                e.oblige(s2, z3.Or(z3.Not(loc), z3.And(l < g.cs.M, z3.Or(zb(own), vet))), 'refine_completely: refused only for nonexistent, remote or vetoed cells')
                no_other(g, s2, 'refused refine_completely', ())
    return g


def facts(g):
    """invariant: every existing cell has neighbour lists"""
    old = g.maps.facts

    def f(st, n, k, p, v):
        old(st, n, k, p, v)
        if n in ('neighbors_of', 'neighbors_to'):
            pp, _ = g.maps.get(st, 'cell_process', k, True)
            st.assume(p == zb(pp))
    g.maps.facts = f


@retry
def job_unrefine(m, havoc=None):
    """unrefine_completely for every id and every state of the request sets"""
    g = requests(m, havoc)
    e, st, c = g.e, g.st, g.c
    facts(g)
    e.store(st, g.mem['max_ref_lvl_diff'], ('i', 32), 1)

    def h_find(e, s, a, ins):
        k = e.canon_u(s, a[2], 64)
        p, _ = g.maps.get(s, 'cell_process', k)
        e.oblige(s, zb(p), 'unrefine_completely: looks for neighbours of an existing cell')
        g.ls.ptrs.clear()
        q = g.ls.new(s, 'found', k, elem=g.elem)
        s.ghost['found'] = (a[0].r, q)
        return None

    def h_parent(e, s, a, ins):
        """contract of Dccrg::get_parent (job_family): the parent of an existing cell does not exist, so the cell itself"""
        x = e.canon_u(s, a[1], 64)
        p, _ = g.maps.get(s, 'cell_process', x)
        if not e.entails(s, zb(p)):
            raise Unsupported('parent of a cell that may not exist')
        return x
    vec = Lists.contracts(g.ls)

    def redirect(h):
        def f(e, s, a, ins):
            fd = s.ghost.get('found')
            if fd and isinstance(a[0], Ptr) and a[0].r == fd[0]:
                a = [fd[1]] + a[1:]
            return h(e, s, a, ins)
        return f
    mp.use(g, [(p, redirect(h)) for p, h in vec[:2]] + [(r'Dccrg<.*>::find_neighbors_of\(', h_find), (r'Dccrg<.*>::get_parent\(', h_parent)])
    for s, r in each(g, 'g_unrefine', [g.obj, c], st, 'unrefine_completely'):
        p, v = g.maps.get(s, 'cell_process', c, True)
        loc = z3.And(zb(p), v == g.scal['rank'])
        l = g.cs.level(s, c)
        res = I(e.canon_u(s, r, 32))
        sib = g.cs.siblings(s, c)
        e.oblige(s, z3.Implies(z3.Not(loc), res == 0), 'unrefine_completely: refused for nonexistent and remote cells')
        e.oblige(s, z3.Implies(z3.And(loc, l == 0), res == 1), 'unrefine_completely: nothing to do for a level 0 cell')
        no_other(g, s, 'unrefine_completely', ('cells_to_unrefine',))
        new = s.ghost.get('cells_to_unrefine', ())
        if new:
            e.oblige(s, z3.And(loc, l > 0, res == 1), 'unrefine_completely: recorded only for existing local cells above level 0')
            for k, p2, _ in new:
                e.oblige(s, z3.And(I(k) == c, zb(p2)), 'unrefine_completely: records the request of the given cell only')
            for x in sib:
                rf, _ = g.maps.get(s, 'cells_to_refine', x, True)
                du, _ = g.maps.get(s, 'cells_not_to_unrefine', x, True)
                e.oblige(s, z3.And(z3.Not(zb(rf)), z3.Not(zb(du))), 'unrefine_completely: recorded only if no sibling has a refine or do-not-unrefine request')
        s2 = s.clone()
        s2.assume(z3.And(loc, l > 0, res == 1))
        if not new and e.feasible(s2):
            # not recorded although not refused: one of the vetoes holds
            why = []
            for x in sib:
                for n in ('cells_to_refine', 'cells_not_to_unrefine', 'cells_to_unrefine'):
                    why.append(zb(g.maps.get(s2, n, x, True)[0]))
            for k, q in list(s2.ghost.items()):
                if isinstance(k, tuple) and k[0] == 'elem':
                    n = I(e.load(s2, q, ('i', 64)))
                    ln = g.cs.level(s2, n)
                    why.append(z3.And(ln > l))
                    why.append(z3.And(ln >= l, zb(g.maps.get(s2, 'cells_to_refine', n, True)[0])))
            e.oblige(s2, z3.Or(why), 'unrefine_completely: ignored only because of another request or a smaller neighbour')
    return g


@retry
def job_donts(m, havoc=None):
    """dont_refine and dont_unrefine for every id and every state of the request sets"""
    g = requests(m, havoc)
    e, st, c = g.e, g.st, g.c
    for fn, what, dset, oset in (('g_dont_refine', 'dont_refine', 'cells_not_to_refine', 'cells_to_refine'),
                                 ('g_dont_unrefine', 'dont_unrefine', 'cells_not_to_unrefine', 'cells_to_unrefine')):
        for s, r in each(g, fn, [g.obj, c], st, what):
            p, _ = g.maps.get(s, 'cell_process', c, True)
            l = g.cs.level(s, c)
            none = l == g.cs.M if fn == 'g_dont_refine' else l == 0
            e.oblige(s, (I(e.canon_u(s, r, 32)) != 0) == zb(p), '%s: refused exactly for nonexistent cells' % what)
            no_other(g, s, what, (dset, oset))
            for k, q, _ in s.ghost.get(dset, ()):
                e.oblige(s, z3.And(I(k) == c, zb(q), zb(p), z3.Not(none)), '%s: records the given cell only' % what)
            sib = [c] if fn == 'g_dont_refine' else g.cs.siblings(s, c)
            for k, q, _ in s.ghost.get(oset, ()):
                e.oblige(s, z3.And(z3.Or([I(k) == x for x in sib]), z3.Not(zb(q)), zb(p), z3.Not(none)), '%s: withdraws only contrary requests of the cell' % what)
            s2 = s.clone()
            s2.assume(z3.And(zb(p), z3.Not(none)))
            if e.feasible(s2):
                e.oblige(s2, z3.Or([zb(g.maps.get(s2, dset, x)[0]) for x in sib]), '%s: the request is recorded' % what)
                if fn == 'g_dont_refine':
                    e.oblige(s2, z3.Not(zb(g.maps.get(s2, oset, c)[0])), '%s: contrary request is withdrawn' % what)
    return g


# ------------------------------------------------------------------ C07: neighbourhood window
@retry
def job_window(m, M, l, per, havoc=None):
    """indices_from_neighborhood for a cell of level l anywhere in the grid and every list of offsets: one arbitrary iteration
    of its loop over the offsets; the stepping loops of periodic dimensions by an inductive invariant"""
    g = world(m, M, per)
    e, st = g.e, g.st
    g.ls = Lists(g, havoc)
    n = 1 << (M - l)
    a = [e.var('a%d' % i, 0, U64, st) for i in range(3)]
    G = [g.L[i] * (1 << M) for i in range(3)]
    for i in range(3):
        st.assume(z3.And(G[i] <= 2 ** 63, a[i] <= g.L[i] * (1 << l) - 1))
    ip, out = e.alloc(st, 'indices'), e.alloc(st, 'result')
    for i in range(3):
        e.store(st, Ptr(ip.r, 8 * i), ('i', 64), a[i] * n)

    def elem(s):
        q = e.alloc(s, 'offsets')
        o = []
        for i in range(3):
            o.append(e.fresh('off', -2 ** 31 + 1, 2 ** 31 - 1, s))
            e.store(s, Ptr(q.r, 4 * i), ('i', 32), o[i])
        s.ghost['o'] = tuple(o)
        s.ghost['pushed'] = ()
        s.ghost['loopghosts'] = ()
        return q

    def iter_(s, site, q):
        o = s.ghost['o']
        f = 'indices_from_neighborhood: '
        e.oblige(s, zb(len(s.ghost['pushed']) == 1), f + 'one entry of the result per neighbourhood item')
        if len(s.ghost['pushed']) != 1:
            return
        v = [I(e.canon_u(s, x, 64)) for x in s.ghost['pushed'][0]]
        inside = z3.And([z3.BoolVal(True)] + [z3.And(a[i] + o[i] >= 0, a[i] + o[i] < g.L[i] * (1 << l)) for i in range(3) if not per[i]])
        err = z3.And([x == U64 for x in v])
        s2 = s.clone()
        s2.assume(z3.Not(inside))
        if e.feasible(s2):
            e.oblige(s2, err, f + 'error index for an item outside of a non-periodic dimension')
        s.assume(inside)
        if not e.feasible(s):
            return
        for i in range(3):
            if not per[i]:
                e.oblige(s, v[i] == (a[i] + o[i]) * n, f + 'item at its offset in non-periodic dimension %d' % i)
                continue
            w = [z3.IntVal(0)] + [gh['w%d' % i] for ms, gh in s.ghost['loopghosts'] if 'w%d' % i in gh]
            p = [v[i] == (a[i] + o[i] + x) * n for x in w]
            s3 = s.clone()
            s3.assume(z3.Not(z3.Or(p)))
            if e.feasible(s3) and len(w) == 1:
                raise Unsupported('periodic wrap without a witness')
            e.oblige(s, z3.And(v[i] >= 0, v[i] <= G[i] - n), f + 'item inside the grid in periodic dimension %d' % i)
            e.oblige(s, z3.Or(p), f + 'item at its offset modulo the grid length in periodic dimension %d' % i)

    def loop(e, s, phis, entry):
        """candidates for a stepping loop: which loop-carried integer is the stepped index (it starts as the index of the cell) and
        how it depends on the counter"""
        c, meas, ghosts, forms = [], [], {}, []
        o = s.ghost['o']
        x64 = [(r, d) for r, t in phis if t == ('i', 64) for d in range(3) if per[d] and llvc.is_same(entry[r], a[d] * n)]
        dims = {d for _, d in x64} or set(range(3))
        for r, t in phis:
            if t not in (('i', 32), ('i', 64)) or any(r == x for x, _ in x64):
                continue
            for d in dims:
                for sg in (0, o[d], -o[d]):
                    c.append(('counter >=', lambda v, r=r, sg=sg: v[r] >= sg))
                    c.append(('counter <=', lambda v, r=r, sg=sg: v[r] <= sg))
                meas += [lambda v, r=r, d=d: v[r] - o[d], lambda v, r=r, d=d: o[d] - v[r], lambda v, r=r, d=d: -o[d] - v[r], lambda v, r=r: v[r], lambda v, r=r: -v[r]]
            for x, d in x64:
                for k, j in (('i', lambda v, r: v[r]), ('-i', lambda v, r: -v[r]), ('o-i', lambda v, r, d=d: o[d] - v[r]), ('o+i', lambda v, r, d=d: o[d] + v[r])):
                    c.append(('index = start + %s steps modulo the grid' % k, lambda v, r=r, x=x, d=d, j=j: v[x] == (a[d] + j(v, r) + v['w%d' % d]) * n))
        for x, d in x64:
            K = g.L[d] * (1 << l)
            c.append(('index inside the grid', lambda v, x=x, d=d: z3.And(v[x] >= 0, v[x] <= G[d] - n)))
            ghosts['w%d' % d] = (z3.IntVal(0), [lambda v, d=d: v['w%d' % d], lambda v, d=d, K=K: v['w%d' % d] + K, lambda v, d=d, K=K: v['w%d' % d] - K])
        return c, meas, ghosts
    loop.ints = True
    loop.mem = loop.signed = True

    def push(e, s, b, ins):
        s.ghost['pushed'] = s.ghost.get('pushed', ()) + (tuple(e.load(s, Ptr(b[1].r, b[1].o + 8 * i), ('i', 64)) for i in range(3)),)
    nop = lambda e, s, b, i: None
    V = r'^std::vector<std::array<unsigned long, 3ul>.*>::'
    mp.use(g, g.ls.contracts() + [(V + r'push_back\(', push), (V + r'(reserve|~?vector)\(', nop),
                                  (r'^std::vector<std::array<int, 3ul>.*>::size\(\)', lambda e, s, b, i: e.fresh('size', 0, U64, s))])
    e.loop_specs = [(r'::indices_from_neighborhood\(', loop)]
    h = g.ls.new(st, 'hood', z3.IntVal(0), elem=elem, iter=iter_)
    for s, _ in each(g, 'g_window', [g.obj, ip, n, h, out], st, 'indices_from_neighborhood'):
        e.oblige(s, zb(s.ghost.get('pushed', ()) == ()), 'indices_from_neighborhood: no entries beyond those of the items')
    return g
