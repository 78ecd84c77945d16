"""Symbolic verification-condition generator over the LLVM IR of /repo's real functions.

A run executes one harness function along every feasible path.  Calls to functions that have
a contract are replaced by the contract (precondition becomes an obligation, postcondition an
assumption); calls to any other function defined in the module are entered.  Loops are unrolled
until the path condition refutes another iteration (running into the unroll limit is an error,
never an acceptance) unless a loop contract cuts them.

Integers: the bit pattern of an iN value is carried as any integer representative; it is reduced
to the canonical unsigned / signed representative where the instruction observes it (comparison,
division, extension, right shift), so machine wrap-around is modelled exactly.
Doubles: carried as exact rationals / reals (recorded as an assumption), plus explicit nan and inf.
"""
import itertools, re, math, struct, time
from fractions import Fraction
import z3
from irparse import *
import prover

NAN = 'nan'


class Violation(Exception):
    pass


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r, self.o = r, o

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.r, self.o)

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.r == other.r and is_same(self.o, other.o)

    def __hash__(self):
        return hash((self.r, self.o if isinstance(self.o, int) else self.o.get_id()))


NULL = Ptr(None, 0)


class FuncPtr:
    def __init__(self, name):
        self.name = name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def is_same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def isz(x):
    return isinstance(x, z3.ExprRef)


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def R(x):
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(Fraction(x))
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def zb(x):
    return z3.BoolVal(bool(x)) if not isz(x) else x


def fsimp(e):
    """light constant folding"""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    return e


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'idx', 'regs', 'callinst', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.prev = None
        self.idx = 0
        self.regs = {}
        self.callinst = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.idx, f.callinst = self.fn, self.block, self.prev, self.idx, self.callinst
        f.regs = dict(self.regs)
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.pcset = set()
        self.frames = []
        self.ghost = {}
        self.known = {}
        self.trace = []
        self.depth = {}
        self.out = None
        self.notes = []
        self.loops = []

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.frames = [f.clone() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.known = dict(self.known)
        s.trace = list(self.trace)
        s.depth = dict(self.depth)
        s.out = None
        s.notes = list(self.notes)
        s.loops = self.loops
        return s

    def assume(self, f):
        if f is True:
            return
        f = zb(f)
        k = f.get_id()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(f)

    def new_region(self, rid, cells=None):
        self.mem[rid] = cells if cells is not None else {}
        self.owned.add(rid)
        return Ptr(rid, 0)

    def cells_w(self, rid):
        if rid not in self.mem:
            raise Unsupported('write to unknown region %r' % (rid,))
        if rid not in self.owned:
            self.mem[rid] = dict(self.mem[rid])
            self.owned.add(rid)
        return self.mem[rid]


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'secs', 'model', 'info')

    def __init__(self, name, status, backend, secs, model=None, info=None):
        self.name, self.status, self.backend, self.secs, self.model, self.info = name, status, backend, secs, model, info


def innermost_loops(fn):
    """header label -> set of body labels for natural loops that contain no other loop"""
    r = getattr(fn, '_loops', None)
    if r is not None:
        return r
    labels = list(fn.blocks)
    succ = {}
    for b in labels:
        ins = fn.instr(b, len(fn.blocks[b]) - 1)
        if ins.op == 'br':
            c, x, y = ins.a
            succ[b] = [x] if c is None else [x, y]
        elif ins.op == 'switch':
            succ[b] = [ins.a[2]] + [l for _, l in ins.a[3]]
        elif ins.op == 'invoke':
            succ[b] = [ins.a[3], ins.a[4]]
        else:
            succ[b] = []
    pred = {b: [] for b in labels}
    for b in labels:
        for s in succ[b]:
            if s in pred:
                pred[s].append(b)
    reach, todo = {fn.entry}, [fn.entry]
    while todo:
        for s in succ[todo.pop()]:
            if s in pred and s not in reach:
                reach.add(s)
                todo.append(s)
    dom = {b: set(reach) for b in reach}
    dom[fn.entry] = {fn.entry}
    ch = True
    while ch:
        ch = False
        for b in labels:
            if b not in reach or b == fn.entry:
                continue
            ps = [dom[p] for p in pred[b] if p in reach]
            n = {b} | set.intersection(*ps)
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for b in reach:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo.extend(p for p in pred[x] if p in reach)
    r = {h: body for h, body in loops.items() if not any(o != h and o in body for o in loops)}
    fn._loops = r
    return r


class Engine:
    created = []

    def __init__(self, module, contracts=(), unroll=80, timeout=20.0):
        self.pos = set()
        self.quot_hints = []
        self.loop_specs = []
        self.loop_cache = {}
        self.m = module
        Engine.created.append(self)
        self.contracts = [(re.compile(p), h) for p, h in contracts]
        self.ccache = {}
        self.unroll = unroll
        self.timeout = timeout
        self.obls = []
        self.bounds = {}        # var id -> (lo, hi)
        self.nfresh = 0
        self.nregion = 0
        self.divs = {}
        self.keep = []
        self.instrs = 0
        self.maxinstrs = 3_000_000
        self.vars = {}
        self.paths = 0
        self.loops = {}         # (fn demangled regex, handler)
        self.entered = set()
        self.icache = {}
        self.max_paths = 20000
        self.obl_prefix = ''
        self.deadline = None
        self.slow_entails = False

    # ---- variables -------------------------------------------------------
    def var(self, name, lo=None, hi=None, st=None):
        v = z3.Int(name)
        self.vars[name] = v
        self.keep.append(v)
        if lo is not None or hi is not None:
            self.bounds[v.get_id()] = (lo, hi)
        if st is not None:
            if lo is not None:
                st.assume(v >= lo)
            if hi is not None:
                st.assume(v <= hi)
        return v

    def fresh(self, pre, lo=None, hi=None, st=None):
        self.nfresh += 1
        return self.var('%s!%d' % (pre, self.nfresh), lo, hi, st)

    def fresh_bool(self, pre):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (pre, self.nfresh))

    def fresh_real(self, pre):
        self.nfresh += 1
        v = z3.Real('%s!%d' % (pre, self.nfresh))
        self.keep.append(v)
        return v

    def interval(self, e):
        if isinstance(e, int):
            return (e, e)
        k = e.get_id()
        if k in self.bounds:
            return self.bounds[k]
        if k in self.icache:
            return self.icache[k]
        self.keep.append(e)
        r = self._interval(e)
        self.icache[k] = r
        return r

    def _interval(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        if not z3.is_app(e) or e.num_args() == 0:
            return (None, None)
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            lo, hi = 0, 0
            for i, c in enumerate(e.children()):
                a, b = self.interval(c)
                if k == z3.Z3_OP_SUB and i > 0:
                    a, b = (None if b is None else -b), (None if a is None else -a)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a, b = self.interval(e.children()[0])
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_MUL:
            lo, hi = 1, 1
            for c in e.children():
                a, b = self.interval(c)
                if a is None or b is None:
                    return (None, None)
                p = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(p), max(p)
            return (lo, hi)
        if k == z3.Z3_OP_ITE:
            _, x, y = e.children()
            a, b = self.interval(x)
            c, d = self.interval(y)
            return (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
        return (None, None)

    # ---- entailment ------------------------------------------------------
    def entails(self, st, f):
        f = fsimp(f) if isz(f) else f
        if f is True:
            return True
        if f is False:
            return False
        k = f.get_id()
        if k in st.known:
            return st.known[k]
        self.keep.append(f)
        r = prover.prove(st.pc, f, timeout=3.0, linear_only=True, quick=not self.slow_entails)
        ok = r[0] == 'proved'
        if ok:
            st.known[k] = True
        return ok

    def feasible(self, st, f=None):
        hyps = st.pc + ([zb(f)] if f is not None else [])
        return prover.feasible(hyps)

    def oblige(self, st, f, name, info=None):
        """record and discharge a proof obligation"""
        name = self.obl_prefix + name
        if f is True:
            self.obls.append(Obligation(name, 'proved', 'evaluation', 0.0))
            return True
        f = zb(f)
        r = prover.prove(st.pc, f, timeout=self.timeout)
        if r[0] != 'proved':
            # a refutation from the abstraction alone never counts: confirm that the path is feasible
            pass
        self.obls.append(Obligation(name, r[0], r[1], r[2], r[3] if len(r) > 3 else None, info))
        return r[0] == 'proved'

    # ---- canonical representatives --------------------------------------
    def canon_u(self, st, e, w):
        if isinstance(e, bool):
            return int(e)
        if isinstance(e, int):
            return e & ((1 << w) - 1)
        if z3.is_bool(e):
            return z3.If(e, z3.IntVal(1), z3.IntVal(0))
        return self._canon(st, e, 0, 1 << w, w)

    def canon_s(self, st, e, w):
        if isinstance(e, bool):
            return -int(e)
        if isinstance(e, int):
            e &= (1 << w) - 1
            return e - (1 << w) if e >> (w - 1) else e
        if z3.is_bool(e):
            return z3.If(e, z3.IntVal(-1), z3.IntVal(0))
        return self._canon(st, e, -(1 << (w - 1)), 1 << (w - 1), w)

    def _canon(self, st, e, lo, hi, w):
        a, b = self.interval(e)
        B = 1 << w
        if a is not None and b is not None and a >= lo and b < hi:
            return e
        key = ('c', e.get_id(), lo, w)
        if key in st.known:
            return st.known[key]
        self.keep.append(e)
        r = None
        if self.entails(st, z3.And(e >= lo, e < hi)):
            r = e
        elif self.entails(st, z3.And(e >= lo - B, e < lo)):
            r = e + B
        elif self.entails(st, z3.And(e >= hi, e < hi + B)):
            r = e - B
        elif self.entails(st, z3.And(e >= lo - B, e < hi)):
            r = z3.If(e < lo, e + B, e)
        elif self.entails(st, z3.And(e >= lo, e < hi + B)):
            r = z3.If(e >= hi, e - B, e)
        else:
            # general reduction: e = r + k*2^w
            r = self.fresh('wrap', lo, hi - 1, st)
            k = self.fresh('wk', None, None)
            st.assume(e == r + k * B)
        self.keep.append(r)
        st.known[key] = r
        return r

    # ---- memory ----------------------------------------------------------
    def alloc(self, st, name='obj'):
        self.nregion += 1
        return st.new_region('%s#%d' % (name, self.nregion))

    def load(self, st, p, ty):
        ty = self.m.rtype(ty)
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if p.r is None:
            raise Unsupported('null dereference')
        if ty[0] == 'struct':
            return tuple(self.load(st, Ptr(p.r, p.o + self.m.field_off(ty, i)[0]), t) for i, t in enumerate(ty[1]))
        if ty[0] == 'arr':
            s = self.m.size(ty[2])
            return tuple(self.load(st, Ptr(p.r, p.o + i * s), ty[2]) for i in range(ty[1]))
        sz = self.m.size(ty)
        if isinstance(p.r, str) and p.r.startswith('@'):
            self.ensure_global(st, p.r)
        if p.r not in st.mem:
            h = self.region_hook(st, p, ty)
            if h is not None:
                return h
            raise Unsupported('load from unknown region %r' % (p.r,))
        cells = st.mem[p.r]
        if not isinstance(p.o, int):
            o = fsimp(p.o)
            if isinstance(o, int):
                p = Ptr(p.r, o)
            else:
                # unique feasible offset?
                for c in sorted(k for k in cells if isinstance(k, int)):
                    if self.entails(st, p.o == c):
                        p = Ptr(p.r, c)
                        break
                else:
                    raise Unsupported('symbolic offset into %r' % (p.r,))
        c = cells.get(p.o)
        if c is None or c[0] != sz:
            return self.load_slow(st, cells, p, ty, sz)
        v = c[1]
        if v is UNDEF:
            return v
        if ty[0] == 'i' and isinstance(v, (Fraction, float, str)) or (ty[0] == 'i' and isz(v) and z3.is_real(v)):
            return v     # raw copy of a double through an integer register
        if ty == ('i', 1):
            return v
        return v

    def region_hook(self, st, p, ty):
        return None

    def load_slow(self, st, cells, p, ty, sz):
        # sub-piece of a larger integer cell, or integer assembled from zero bytes
        for o, (s, v) in cells.items():
            if isinstance(o, int) and o <= p.o and p.o + sz <= o + s and isinstance(v, int) and not isinstance(v, bool):
                return (v >> (8 * (p.o - o))) & ((1 << (8 * sz)) - 1)
        parts = []
        o = p.o
        while o < p.o + sz:
            c = cells.get(o)
            if c is None or not isinstance(c[1], int):
                if c is None and not parts and o == p.o:
                    inner = [x for x in cells if isinstance(x, int) and p.o <= x < p.o + sz]
                    if not inner:
                        return UNDEF
                # reading a region with a symbolic low part: only all-known pieces are supported
                raise Unsupported('partial load at %r+%d size %d' % (p.r, p.o, sz))
            parts.append((o - p.o, c[0], c[1]))
            o += c[0]
        v = 0
        for off, s, x in parts:
            v |= (x & ((1 << (8 * s)) - 1)) << (8 * off)
        return v

    def store(self, st, p, ty, v):
        ty = self.m.rtype(ty)
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported('store through %r' % (p,))
        if ty[0] == 'struct':
            if v is UNDEF:
                return
            for i, t in enumerate(ty[1]):
                self.store(st, Ptr(p.r, p.o + self.m.field_off(ty, i)[0]), t, v[i])
            return
        if ty[0] == 'arr':
            if v is UNDEF:
                return
            s = self.m.size(ty[2])
            for i in range(ty[1]):
                self.store(st, Ptr(p.r, p.o + i * s), ty[2], v[i])
            return
        o = p.o
        if not isinstance(o, int):
            o = fsimp(o)
            if not isinstance(o, int):
                if self.store_hook(st, p, ty, v):
                    return
                raise Unsupported('store at symbolic offset')
        if p.r not in st.mem:
            if self.store_hook(st, p, ty, v):
                return
        sz = self.m.size(ty)
        cells = st.cells_w(p.r)
        c = cells.get(o)
        if c is None or c[0] != sz:
            for k in [k for k, (s, _) in cells.items() if k < o + sz and o < k + s]:
                s0, v0 = cells.pop(k)
                # keep the untouched bytes of a concrete cell
                if isinstance(v0, int) and not isinstance(v0, bool):
                    for j in range(s0):
                        if not (o <= k + j < o + sz):
                            cells[k + j] = (1, (v0 >> (8 * j)) & 255)
        cells[o] = (sz, v)

    def store_hook(self, st, p, ty, v):
        return False

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            raise Unsupported('memcpy of symbolic length')
        if n == 0:
            return
        if isinstance(s.r, str) and s.r.startswith('@'):
            self.ensure_global(st, s.r)
        if s.r not in st.mem:
            raise Unsupported('memcpy from %r' % (s.r,))
        src = st.mem[s.r]
        items = [(k, v) for k, v in src.items() if s.o <= k < s.o + n]
        dst = st.cells_w(d.r)
        for k in [k for k, (z, _) in dst.items() if d.o <= k < d.o + n]:
            del dst[k]
        for k, (z, v) in items:
            if k + z > s.o + n:
                raise Unsupported('memcpy splits a cell')
            dst[k - s.o + d.o] = (z, v)
        # container models living inside the copied bytes
        for gk in [g for g in st.ghost if isinstance(g, tuple) and len(g) == 2 and g[0] == s.r and isinstance(g[1], int)
                   and s.o <= g[1] < s.o + n]:
            st.ghost[(d.r, gk[1] - s.o + d.o)] = st.ghost[gk]

    def ensure_global(self, st, g):
        if g in st.mem:
            return
        d = self.m.globals.get(g)
        if d is None:
            raise Unsupported('global ' + g)
        c = Cur(tokenize(re.sub(r', (comdat|section|align).*$', '', d)))
        ext = False
        while c.peek()[0] == 'word' and c.peek()[1] in LINKAGE:
            w = c.next()[1]
            if w in ('external', 'extern_weak'):
                ext = True
            if c.peek()[1] == '(':
                while c.next()[1] != ')':
                    pass
        st.new_region(g)
        if ext:
            return
        ty = parse_type(c)
        if c.end():
            return
        v = parse_value(c, ty)
        self.init_const(st, Ptr(g, 0), ty, v)

    def init_const(self, st, p, ty, v):
        ty = self.m.rtype(ty)
        if v[0] == 'zero':
            self.zero(st, p, ty)
        elif v[0] == 'agg':
            for i, (t, x) in enumerate(v[1]):
                o, ft = self.m.field_off(ty, i)
                self.init_const(st, Ptr(p.r, p.o + o), ft, x)
        elif v[0] == 'cstr':
            s = v[1][2:-1]
            b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode('latin1'))
            for i, ch in enumerate(b):
                self.store(st, Ptr(p.r, p.o + i), ('i', 8), ch)
        else:
            self.store(st, p, ty, self.const(st, ty, v))

    def zero(self, st, p, ty):
        ty = self.m.rtype(ty)
        if ty[0] == 'struct':
            for i, t in enumerate(ty[1]):
                self.zero(st, Ptr(p.r, p.o + self.m.field_off(ty, i)[0]), t)
        elif ty[0] == 'arr':
            s = self.m.size(ty[2])
            for i in range(ty[1]):
                self.zero(st, Ptr(p.r, p.o + i * s), ty[2])
        else:
            self.store(st, p, ty, NULL if ty[0] == 'ptr' else (Fraction(0) if ty[0] == 'f' else 0))

    # ---- values ----------------------------------------------------------
    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            if ty == ('i', 1):
                return bool(v[1] & 1)
            return v[1]
        if k == 'fp':
            d = v[1]
            if d != d:
                return NAN
            if math.isinf(d):
                return d
            return Fraction(d)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.m.rtype(ty)
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'f':
                return Fraction(0)
            if t[0] == 'struct':
                return tuple(self.const(st, x, ('zero',)) for x in t[1])
            if t[0] == 'arr':
                return tuple(self.const(st, t[2], ('zero',)) for _ in range(t[1]))
            return 0
        if k == 'glob':
            if v[1] in self.m.funcs or v[1] in self.m.decls:
                return FuncPtr(v[1])
            return Ptr(v[1], 0)
        if k == 'cgep':
            base = self.const(st, ('ptr',), v[2][0][1])
            return self.gep(st, v[1], base, [(t, self.const(st, t, x)) for t, x in v[2][1:]])
        if k == 'agg':
            return tuple(self.const(st, t, x) for t, x in v[1])
        if k == 'meta':
            return None
        if k == 'ccast':
            return self.const(st, v[2], v[3])
        raise Unsupported('constant %r' % (v,))

    def val(self, st, ty, v):
        if v[0] == 'loc':
            return st.frames[-1].regs[v[1]]
        return self.const(st, ty, v)

    def gep(self, st, bt, base, idx):
        if isinstance(base, FuncPtr) or not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.o
        t = bt
        for n, (it, i) in enumerate(idx):
            if n == 0:
                sz = self.m.size(t)
                i = self.canon_s(st, i, it[1])
                off = off + i * sz
            else:
                rt = self.m.rtype(t)
                if rt[0] == 'struct':
                    o, t = self.m.field_off(rt, i)
                    off = off + o
                else:
                    i = self.canon_s(st, i, it[1])
                    off = off + i * self.m.size(rt[2])
                    t = rt[2]
        if isz(off):
            off = fsimp(off)
        return Ptr(base.r, off)

    # ---- contracts -------------------------------------------------------
    def contract_for(self, name):
        if name in self.ccache:
            return self.ccache[name]
        d = self.m.dem.get(name, name)
        r = None
        for p, h in self.contracts:
            if p.search(d):
                r = h
                break
        self.ccache[name] = r
        return r

    # ---- running ---------------------------------------------------------
    def run(self, fname, args, st):
        """execute function; returns list of final states with .out = (kind, value)"""
        if not fname.startswith('@'):
            fname = '@' + fname
        fn = self.m.funcs[fname]
        st = st.clone()
        self.push(st, fn, args, None)
        work = [st]
        done = []
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            try:
                for x in self.step_path(s):
                    if x.out is not None:
                        self.paths += 1
                        if self.paths > self.max_paths:
                            raise Unsupported('path limit')
                        done.append(x)
                    else:
                        work.append(x)
            except Unsupported as e:
                fr = s.frames[-1] if s.frames else None
                where = ''
                if fr is not None:
                    try:
                        ins = fr.fn.blocks[fr.block][fr.idx]
                        where = self.m.dem.get(fr.fn.name, fr.fn.name)[:120] + ' ' + fr.block + ': ' + (
                            ins if isinstance(ins, str) else ins.text)[:160]
                    except Exception:
                        pass
                if '@@' not in str(e):
                    raise Unsupported('%s @@ %s' % (e, where))
                raise
        return done

    def push(self, st, fn, args, callinst):
        fn.parse()
        self.entered.add(fn.name)
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        f = Frame(fn)
        f.callinst = callinst
        if len(args) < len(fn.params):
            raise Unsupported('argument count of ' + fn.name)
        for (t, n, at), a in zip(fn.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                q = self.alloc(st, 'byval')
                self.memcpy(st, q, a, self.m.size(at['byval']))
                a = q
            f.regs[n] = a
        st.frames.append(f)

    def goto(self, st, label):
        f = st.frames[-1]
        f.prev = f.block
        f.block = label
        f.idx = 0
        key = (len(st.frames), f.fn.name, label)
        n = st.depth.get(key, 0) + 1
        st.depth[key] = n
        if n > self.unroll:
            raise Unsupported('unroll limit in %s %s' % (self.m.dem.get(f.fn.name), label))
        # phis
        blk = f.fn.blocks[label]
        new = []
        i = 0
        while i < len(blk):
            ins = f.fn.instr(label, i)
            if ins.op != 'phi':
                break
            t, inc = ins.a
            for v, b in inc:
                if b == f.prev:
                    new.append((ins.res, self.val(st, t, v)))
                    break
            else:
                raise Unsupported('phi without predecessor')
            i += 1
        for r, v in new:
            f.regs[r] = v
        f.idx = i

    def step_path(self, st):
        """run st until it forks or ends; returns list of successor states"""
        while True:
            f = st.frames[-1]
            ins = f.fn.instr(f.block, f.idx)
            self.instrs += 1
            if self.instrs > self.maxinstrs:
                raise Unsupported('instruction budget')
            op = ins.op
            if op == 'br':
                c, a, b = ins.a
                if c is None:
                    r = self.enter_block(st, a)
                    if r is not None:
                        return r
                    continue
                v = self.val(st, ('i', 1), c)
                r = self.branch(st, v, a, b)
                if r is not None:
                    return r
                continue
            if op == 'switch':
                t, v, d, cases = ins.a
                x = self.val(st, t, v)
                if isz(x):
                    xs = self.canon_u(st, x, t[1])
                    xs = fsimp(xs) if isz(xs) else xs
                    x = xs
                if isinstance(x, int):
                    for k, l in cases:
                        if (k[1] - x) % (1 << t[1]) == 0:
                            d = l
                            break
                    r = self.enter_block(st, d)
                    if r is not None:
                        return r
                    continue
                out = []
                neg = []
                for k, l in cases:
                    kv = k[1] % (1 << t[1])
                    cnd = x == kv
                    neg.append(z3.Not(cnd))
                    if self.feasible(st, cnd):
                        s2 = st.clone()
                        s2.assume(cnd)
                        r = self.enter_block(s2, l)
                        out.extend([s2] if r is None else r)
                ng = z3.And(neg)
                if self.feasible(st, ng):
                    st.assume(ng)
                    r = self.enter_block(st, d)
                    out.extend([st] if r is None else r)
                return out
            if op == 'ret':
                v = None
                if ins.a is not None:
                    v = self.val(st, ins.a[0], ins.a[1])
                if len(st.frames) == 1:
                    st.out = ('ret', v)
                    return [st]
                fr = st.frames.pop()
                # forget unroll counters of the finished frame
                d = len(st.frames) + 1
                for k in [k for k in st.depth if k[0] >= d]:
                    del st.depth[k]
                self.after_call(st, fr.callinst, v)
                continue
            if op in ('call', 'invoke'):
                r = self.do_call(st, ins)
                if r is not None:
                    return r
                continue
            if op == 'unreachable':
                st.out = ('unreachable', None)
                return [st]
            if op == 'resume':
                return [self.throw(st, 'resumed')]
            try:
                self.simple(st, ins)
            except ForkSelect as fs:
                out = []
                for cnd, v in ((fs.c, fs.a), (z3.Not(fs.c), fs.b)):
                    if self.feasible(st, cnd):
                        s2 = st.clone()
                        s2.assume(cnd)
                        s2.frames[-1].regs[ins.res] = v
                        s2.frames[-1].idx += 1
                        out.append(s2)
                return out
            f.idx += 1

    def enter_block(self, st, label):
        """None = continue on st; loop contracts are applied at loop headers"""
        f = st.frames[-1]
        for lp in st.loops:
            if lp['depth'] == len(st.frames) and lp['fn'] is f.fn:
                if label == lp['header']:
                    self.goto(st, label)
                    lp['back'].append(st)
                    return []
                if label not in lp['body']:
                    st.loops = [x for x in st.loops if x is not lp]
                    lp['exit'].append((st, label))
                    return []
        if self.loop_specs:
            spec = self.loop_spec(f.fn)
            if spec is not None:
                body = innermost_loops(f.fn).get(label)
                if body is not None:
                    return self.loop_contract(st, label, body, spec)
        self.goto(st, label)
        return None

    # ---- loop contracts: invariants from the spec's candidates, kept only if established and preserved -------------
    def loop_spec(self, fn):
        if fn.name not in self.loop_cache:
            d = self.m.dem.get(fn.name, fn.name)
            self.loop_cache[fn.name] = next((h for p, h in self.loop_specs if re.search(p, d)), None)
        return self.loop_cache[fn.name]

    def explore(self, states):
        """run states until every path ends, leaves the current loop or returns to its header"""
        work = list(states)
        done = []
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            for x in self.step_path(s):
                (done if x.out is not None else work).append(x)
        return done

    def loop_contract(self, st, label, body, spec):
        """spec(e, st, phis, entry) -> candidate invariants, termination measures[, ghosts]; attributes of spec: mem (memory changed by the
        loop takes part in the invariants, as ('m', region, offset)), signed (integers are taken as signed)"""
        f = st.frames[-1]
        self.goto(st, label)
        fr = st.frames[-1]
        phis = []
        i = 0
        while f.fn.instr(label, i).op == 'phi':
            ins = f.fn.instr(label, i)
            phis.append((ins.res, ins.a[0]))
            i += 1
        signed, usemem = getattr(spec, 'signed', False), getattr(spec, 'mem', False)

        def value(s, r, t):
            v = s.mem[r[1]][r[2]][1] if isinstance(r, tuple) else s.frames[-1].regs[r]
            if t[0] == 'i':
                return I((self.canon_s if signed else self.canon_u)(s, v, t[1]))
            if t[0] != 'f':
                raise Unsupported('loop-carried %r' % (t,))
            return R(v) if s is not st else v

        def holds(s, c):
            if not getattr(spec, 'ints', False):
                return self.entails(s, c)
            r = prover.lia(s.pc, zb(c))
            if r is None:
                raise Unsupported('loop invariant undecided')
            return r
        name = self.m.dem.get(f.fn.name, f.fn.name)
        name = re.sub(r'\(.*', '', name)
        havoc = set()
        mems = []
        cands = None
        while True:
            if cands is None:
                entry = {r: value(st, r, t) for r, t in phis + mems}
                sp = spec(self, st, phis + mems, entry)
                cands, measures, ghosts = sp if len(sp) == 3 else sp + ({},)
                for n, (init, _) in ghosts.items():
                    entry[n] = init
                cands = [(n, c) for n, c in cands if holds(st, c(entry))]
            mark = len(self.obls)
            hs = st.clone()
            hf = hs.frames[-1]
            cur = {}
            for rid, off in havoc:
                hs.cells_w(rid).pop(off, None)
            for r, t in phis + mems:
                if t[0] == 'i':
                    lo, hi = (-(1 << t[1] - 1), (1 << t[1] - 1) - 1) if signed else (0, (1 << t[1]) - 1)
                    cur[r] = self.fresh('loop', lo, hi, hs)
                else:
                    cur[r] = self.fresh_real('loop')
                if isinstance(r, tuple):
                    self.store(hs, Ptr(r[1], r[2]), t, cur[r])
                else:
                    hf.regs[r] = cur[r]
            for n in ghosts:
                cur[n] = self.fresh('ghost', None, None, hs)
            hs.ghost['loopghosts'] = st.ghost.get('loopghosts', ()) + ((tuple(r for r, _ in mems), {n: cur[n] for n in ghosts}),)
            for n, c in cands:
                hs.assume(c(cur))
            before = dict(hs.mem)
            hs.owned = set()
            lp = dict(depth=len(hs.frames), fn=f.fn, header=label, body=body, back=[], exit=[])
            hs.loops = [lp] + hs.loops
            ended = self.explore([hs])
            again = False
            wit = []
            for b in lp['back']:
                for rid, cells in before.items():
                    now = b.mem.get(rid)
                    if now is cells:
                        continue
                    for o in set(cells) | set(now):
                        x, y = cells.get(o), now.get(o)
                        if x is not y and (x is None or y is None or x[0] != y[0] or not is_same(x[1], y[1])):
                            if (rid, o) not in havoc and x is not None and ('m', rid, o) not in cur:
                                intlike = lambda v: isinstance(v, int) and not isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_int(v))
                                if usemem and y is not None and y[0] == x[0] and intlike(x[1]) and intlike(y[1]):
                                    mems.append((('m', rid, o), ('i', 8 * x[0])))
                                    cands = None
                                else:
                                    havoc.add((rid, o))
                                again = True
                if again:
                    continue
                bv = {r: value(b, r, t) for r, t in phis + mems}
                best = None
                for combo in itertools.product(*[[(n, u(cur)) for u in us] for n, (_, us) in ghosts.items()]):
                    v = dict(bv)
                    v.update(combo)
                    flags = [holds(b, c(v)) for n, c in cands]
                    if best is None or flags > best[2]:       # earlier candidates first
                        best = [x for x, ok in zip(cands, flags) if ok], v, flags
                    if all(flags):
                        break
                wit.append((b, best[1]))
                if len(best[0]) != len(cands):
                    cands = best[0]
                    again = True
                    break
            if again:
                del self.obls[mark:]
                continue
            break
        for n, c in cands:
            self.obls.append(Obligation('%s: loop invariant "%s" is established and preserved' % (name, n), 'proved', 'z3-lra', 0.0))
        for b, bv in wit:
            goal = z3.Or([z3.And(m(cur) > m(bv), m(cur) >= 0) for m in measures] or [z3.BoolVal(False)])
            best = None
            for mm in measures:
                gl = z3.And(mm(cur) > mm(bv), mm(cur) >= 0)
                if self.entails(b, gl):
                    best = gl
            self.oblige(b, best if best is not None else goal, name + ': loop terminates')
        out = list(ended)
        for s, l in lp['exit']:
            r = self.enter_block(s, l)
            out.extend([s] if r is None else r)
        return out

    def branch(self, st, v, a, b):
        if v is UNDEF:
            raise Unsupported('branch on undef')
        if isz(v):
            v = fsimp(v)
        if isinstance(v, (bool, int)):
            return self.enter_block(st, a if v else b)
        t = self.feasible(st, v)
        if not t:
            st.assume(z3.Not(v))
            return self.enter_block(st, b)
        e = self.feasible(st, z3.Not(v))
        if not e:
            st.assume(v)
            return self.enter_block(st, a)
        s2 = st.clone()
        st.assume(v)
        s2.assume(z3.Not(v))
        out = []
        for s, l in ((st, a), (s2, b)):
            r = self.enter_block(s, l)
            out.extend([s] if r is None else r)
        return out

    def throw(self, st, info):
        """exception leaves every frame up to a catching invoke (cleanups are not executed)"""
        st.out = ('exc', info)
        st.frames = st.frames[:1]
        return st

    def after_call(self, st, ins, v):
        f = st.frames[-1]
        if ins.res is not None:
            f.regs[ins.res] = v
        if ins.op == 'invoke':
            r = self.enter_block(st, ins.a[3])
            if r is not None:
                raise Unsupported('loop contract at invoke target')
        else:
            f.idx += 1

    def do_call(self, st, ins):
        rt, callee, args, normal, unwind = ins.a
        if callee[0] == 'glob':
            name = callee[1]
        elif callee[0] == 'loc':
            p = st.frames[-1].regs[callee[1]]
            if not isinstance(p, FuncPtr):
                raise Unsupported('indirect call')
            name = p.name
        else:
            raise Unsupported('callee %r' % (callee,))
        if name.startswith('@llvm.'):
            v = self.intrinsic(st, name, ins, args, rt)
            if isinstance(v, list):
                return v
            if ins.res is not None:
                st.frames[-1].regs[ins.res] = v
            st.frames[-1].idx += 1
            return None
        h = self.contract_for(name)
        av = [self.val(st, t, v) for t, v, at in args]
        if h is not None:
            res = h(self, st, av, ins)
            if res is not NotImplemented:
                if isinstance(res, list):
                    out = []
                    for s2, v in res:
                        if s2.out is None:
                            self.after_call(s2, ins, v)
                        out.append(s2)
                    return out
                self.after_call(st, ins, res)
                return None
        fn = self.m.funcs.get(name)
        if fn is None:
            raise Unsupported('external function ' + self.m.dem.get(name, name))
        # by-value aggregates passed by pointer
        self.push(st, fn, av, ins)
        return None

    def intrinsic(self, st, name, ins, args, rt):
        n = name[6:]
        if n.startswith(('lifetime', 'dbg', 'invariant', 'experimental.noalias', 'donothing', 'prefetch', 'stack')):
            return NULL if n.startswith('stacksave') else None
        av = [self.val(st, t, v) for t, v, at in args]
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(st, av[0], av[1], av[2])
            return None
        if n.startswith('memset'):
            d, b, k = av[0], av[1], av[2]
            if not isinstance(k, int) or not isinstance(b, int):
                raise Unsupported('memset')
            if b == 0:
                cells = st.cells_w(d.r)
                for c in [c for c, (z, _) in cells.items() if d.o <= c < d.o + k]:
                    del cells[c]
                # zero bytes, stored as 8-byte words where possible
                o = d.o
                while o < d.o + k:
                    cells[o] = (1, 0)
                    o += 1
                return None
            raise Unsupported('memset non-zero')
        if n.startswith('assume'):
            if isz(av[0]):
                pass
            return None
        if n.startswith('expect'):
            return av[0]
        if n.startswith(('umax', 'umin', 'smax', 'smin')):
            w = rt[1]
            cf = self.canon_u if n[0] == 'u' else self.canon_s
            a, b = cf(st, av[0], w), cf(st, av[1], w)
            if isinstance(a, int) and isinstance(b, int):
                return max(a, b) if n[1:4] == 'max' else min(a, b)
            a, b = I(a), I(b)
            return z3.If(a >= b, a, b) if n[1:4] == 'max' else z3.If(a <= b, a, b)
        if n.startswith('abs'):
            w = rt[1]
            a = self.canon_s(st, av[0], w)
            return abs(a) if isinstance(a, int) else z3.If(a >= 0, a, -a)
        if n.startswith('floor'):
            return self.ffloor(st, av[0])
        if n.startswith('ceil'):
            return self.fceil(st, av[0])
        if n.startswith('fabs'):
            a = av[0]
            if isinstance(a, str):
                return a
            return abs(a) if not isz(a) else z3.If(a >= 0, a, -a)
        if n.startswith('fmuladd'):
            return self.fbin(st, 'fadd', self.fbin(st, 'fmul', av[0], av[1]), av[2])
        if n.startswith('trap'):
            st.out = ('abort', 'trap')
            return [st]
        if n.startswith('is.constant'):
            return False
        if n.startswith(('uadd.with', 'umul.with', 'usub.with')):
            w = args[0][0][1]
            a, b = self.canon_u(st, av[0], w), self.canon_u(st, av[1], w)
            e = {'a': lambda: a + b, 'm': lambda: a * b, 's': lambda: a - b}[n[1]]()
            if isinstance(e, int):
                return (e, not (0 <= e < (1 << w)))
            if self.entails(st, z3.And(e >= 0, e < (1 << w))):
                return (e, False)
            return (e, z3.Or(e < 0, e >= (1 << w)))
        if n.startswith('eh.typeid'):
            return 1
        raise Unsupported('intrinsic ' + name)

    # ---- floating point as reals ----------------------------------------
    def ffloor(self, st, a):
        if isinstance(a, str) or isinstance(a, float):
            return a
        if isinstance(a, Fraction):
            return Fraction(math.floor(a))
        k = ('fl', a.get_id())
        if k not in st.ghost:
            self.keep.append(a)
            q = self.fresh('floor')
            st.assume(z3.And(z3.ToReal(q) <= a, a < z3.ToReal(q) + 1))
            if self.entails(st, a >= 0):
                st.assume(q >= 0)           # floor of a non-negative number
            st.ghost[k] = q
        return z3.ToReal(st.ghost[k])

    def fceil(self, st, a):
        if isinstance(a, str) or isinstance(a, float):
            return a
        if isinstance(a, Fraction):
            return Fraction(math.ceil(a))
        k = ('ce', a.get_id())
        if k not in st.ghost:
            self.keep.append(a)
            q = self.fresh('ceil')
            st.assume(z3.And(z3.ToReal(q) >= a, a > z3.ToReal(q) - 1))
            st.ghost[k] = q
        return z3.ToReal(st.ghost[k])

    def fbin(self, st, op, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('undef double')
        if a == NAN if isinstance(a, str) else False:
            return NAN
        if b == NAN if isinstance(b, str) else False:
            return NAN
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported('inf arithmetic')
        if not isz(a) and not isz(b):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                if b == 0:
                    raise Unsupported('fp division by zero')
                return a / b
        a, b = R(a), R(b)
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if z3.is_rational_value(b):
                f = b.as_fraction()
                if f == 0:
                    raise Unsupported('fp division by zero')
                return a * z3.RealVal(1 / f)
            return self.fdiv_sym(st, a, b)
        raise Unsupported(op)

    def pos_atom(self, st, i):
        """atom known to be positive (declared by the spec with self.positive)"""
        return i in self.pos

    def positive(self, *xs):
        import fastlin
        for x in xs:
            (m, v), = fastlin.poly(x).items()
            assert len(m) == 1 and v == 1
            self.pos.add(m[0])
            self.keep.append(x)

    def rpoly(self, p):
        """real-sorted expression of a polynomial"""
        import fastlin
        ts = []
        for m, v in p.items():
            t = None if v == 1 and m else z3.RealVal(v)
            for i in m:
                x = fastlin.ATOM_EXPR[i]
                x = z3.ToReal(x) if z3.is_int(x) else x
                t = x if t is None else t * x
            ts.append(t)
        if not ts:
            return Fraction(0)
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r

    def cancel(self, st, *ps):
        """divide the polynomials by their common positive atoms"""
        changed = False
        ps = [dict(p) for p in ps]
        while True:
            mons = [m for p in ps for m in p]
            if not mons:
                break
            com = [i for i in set(mons[0]) if self.pos_atom(st, i) and all(i in m for m in mons)]
            if not com:
                break
            i = com[0]
            changed = True
            ps = [{(lambda l: (l.remove(i), tuple(l))[1])(list(m)): v for m, v in p.items()} for p in ps]
        return changed, ps

    def fdiv_cancel(self, st, a, b):
        import fastlin
        if not self.pos:
            return None
        try:
            pa, pb = fastlin.poly(a), fastlin.poly(b)
        except fastlin.No:
            return None
        ch, (pa, pb) = self.cancel(st, pa, pb)
        if list(pb) == [()]:
            c = Fraction(pb[()])
            return self.rpoly({m: Fraction(v) / c for m, v in pa.items()})
        if ch:
            return self.fdiv_sym(st, self.rpoly(pa), self.rpoly(pb))
        return None

    def fdiv_sym(self, st, a, b):
        r = self.fdiv_cancel(st, R(a), R(b))
        if r is not None:
            return r
        a, b = R(a), R(b)
        self.oblige(st, b != 0, 'fp divisor is non-zero')
        k = ('fd', a.get_id(), b.get_id())
        if k not in st.ghost:
            self.keep += [a, b]
            q = self.fresh_real('quot')
            st.assume(q * b == a)
            # division lemmas: b > 0 and a >= 0 give a/b >= 0; b > 0 and a <= n*b give a/b <= n
            if self.entails(st, b > 0):
                if self.entails(st, a >= 0):
                    st.assume(q >= 0)
                for n in self.quot_hints:
                    if self.entails(st, a <= R(n) * b):
                        st.assume(q <= R(n))
            st.ghost[k] = q
        return st.ghost[k]

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if a is UNDEF or b is UNDEF:
            raise Unsupported('undef double compared')
        un = (isinstance(a, str)) or (isinstance(b, str))
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        if un:
            return pred[0] == 'u'
        o = pred[1:]
        if isinstance(a, float) or isinstance(b, float):     # infinities
            if isz(a) or isz(b):
                inf = a if isinstance(a, float) else b
                lhs = isinstance(a, float)
                big = inf > 0
                # x < +inf etc. for finite x
                tab = {'lt': (not big) if lhs else big, 'le': (not big) if lhs else big,
                       'gt': big if lhs else (not big), 'ge': big if lhs else (not big), 'eq': False, 'ne': True}
                return tab[o]
        if not isz(a) and not isz(b):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
        a, b = R(a), R(b)
        if self.pos:
            import fastlin
            try:
                ch, (p,) = self.cancel(st, fastlin.poly(a - b))
                if not p or list(p) == [()]:
                    v = p.get((), 0)
                    return {'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[o]
                if ch:
                    a, b = R(self.rpoly(p)), z3.RealVal(0)
            except fastlin.No:
                pass
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]

    # ---- integer ops -----------------------------------------------------
    def divmod_u(self, st, a, b, name):
        """a, b canonical and non-negative; returns (q, r)"""
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                self.oblige(st, z3.BoolVal(False), name + ' divisor is non-zero')
                raise Unsupported('division by zero')
            return a // b, a % b
        if not isinstance(b, int):
            bb = fsimp(b)
            b = bb
        if isinstance(b, int):
            if b == 0:
                self.oblige(st, z3.BoolVal(False), name + ' divisor is non-zero')
                raise Unsupported('division by zero')
            if b == 1:
                return a, 0
        else:
            self.oblige(st, I(b) != 0, name + ' divisor is non-zero')
        r = self.poly_div(st, a, b)
        if r is not None:
            return r
        k = ('dv', I(a).get_id(), I(b).get_id() if not isinstance(b, int) else b)
        if k not in st.ghost:
            a_, b_ = I(a), I(b)
            self.keep += [a_, b_]
            lo, hi = self.interval(a_)
            if isinstance(b, int):
                q = self.fresh('q', 0, None if hi is None else hi // b, st)
                r = self.fresh('r', 0, b - 1, st)
            else:
                q = self.fresh('q', 0, hi, st)
                r = self.fresh('r', 0, None, st)
                st.assume(r < b_)
            st.assume(a_ == q * b_ + r)
            st.ghost[k] = (q, r)
            hook = getattr(self, 'div_hook', None)
            if hook:
                hook(self, st, a_, b_, q, r)
        return st.ghost[k]

    def poly_div(self, st, a, b):
        """Euclidean division when a = b*p + rest syntactically with 0 <= rest < b provable (exact by uniqueness)"""
        import fastlin
        a, b = I(a), I(b)
        try:
            pa, pb = fastlin.poly(a), fastlin.poly(b)
        except fastlin.No:
            return None
        if len(pb) != 1 or not all(isinstance(c, int) for c in pa.values()):
            return None
        (mb, cb), = pb.items()
        quo, rem = {}, {}
        for m, c in pa.items():
            q = self.mono_div(m, mb)
            if q is not None and c % cb == 0:
                quo[q] = quo.get(q, 0) + c // cb
            elif q is not None and abs(c) > cb:
                quo[q] = quo.get(q, 0) + c // cb
                rem[m] = c % cb
            else:
                rem[m] = c
        if not quo and pa:
            return None
        rest = self.unpoly2(rem)
        if rem:
            lo, hi = self.interval(rest) if isz(rest) else (rest, rest)
            if not (mb == () and lo is not None and hi is not None and lo >= 0 and hi < cb):
                if not self.entails(st, z3.And(I(rest) >= 0, I(rest) < b)):
                    return None
        return self.unpoly2(quo), rest

    @staticmethod
    def mono_div(m, d):
        l = list(m)
        for x in d:
            if x in l:
                l.remove(x)
            else:
                return None
        return tuple(l)

    def unpoly2(self, p):
        import fastlin
        r = None
        for m, c in p.items():
            t = None
            for i in m:
                x = self.atom_expr(i)
                t = x if t is None else t * x
            t = z3.IntVal(c) if t is None else (t if c == 1 else c * t)
            r = t if r is None else r + t
        if r is None:
            return 0
        self.keep.append(r)
        return fsimp(r) if z3.is_int_value(r) else r

    def atom_expr(self, i):
        import fastlin
        return fastlin.ATOM_EXPR[i]

    def unpoly(self, lin, p):
        r = None
        for m, c in p.items():
            t = None
            for i in m:
                t = lin.atoms[i] if t is None else t * lin.atoms[i]
            t = z3.IntVal(c) if t is None else (t if c == 1 else c * t)
            r = t if r is None else r + t
        if r is None:
            return 0
        return fsimp(r) if z3.is_int_value(r) else r

    def simple(self, st, ins):
        op = ins.op
        f = st.frames[-1]
        if op in ('add', 'sub', 'mul'):
            t, a, b = ins.a
            a, b = self.val(st, t, a), self.val(st, t, b)
            if a is UNDEF or b is UNDEF:
                f.regs[ins.res] = UNDEF
                return
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                    d = a.o - b.o
                    f.regs[ins.res] = fsimp(d) if isz(d) else d
                    return
                if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                    pass
                raise Unsupported('pointer arithmetic')
            w = t[1] if t[0] == 'i' else None
            if w is None:
                raise Unsupported('vector arithmetic')
            if w == 1:
                raise Unsupported('i1 arithmetic')
            ca = isinstance(a, int) and isinstance(b, int)
            if 'nsw' in ins.flags and not ca:
                a, b = self.canon_s(st, a, w), self.canon_s(st, b, w)
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            a_ = a if not (isz(a) and z3.is_bool(a)) else z3.If(a, 1, 0)
            b_ = b if not (isz(b) and z3.is_bool(b)) else z3.If(b, 1, 0)
            e = a_ + b_ if op == 'add' else a_ - b_ if op == 'sub' else a_ * b_
            if 'nsw' in ins.flags:
                if isinstance(e, int):
                    sa, sb = self.canon_s(st, a_, w), self.canon_s(st, b_, w)
                    e = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
                    if not (-(1 << (w - 1)) <= e < (1 << (w - 1))):
                        self.oblige(st, z3.BoolVal(False), 'no signed overflow in ' + self.where(st))
                else:
                    lo, hi = self.interval(e)
                    if lo is None or hi is None or lo < -(1 << (w - 1)) or hi >= (1 << (w - 1)):
                        self.oblige(st, z3.And(e >= -(1 << (w - 1)), e < (1 << (w - 1))),
                                    'no signed overflow in ' + self.where(st))
            f.regs[ins.res] = e & ((1 << w) - 1) if isinstance(e, int) else e
            return
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            t, a, b = ins.a
            w = t[1]
            a, b = self.val(st, t, a), self.val(st, t, b)
            if isinstance(a, Ptr):
                raise Unsupported('division of pointer')
            if op[0] == 'u':
                a, b = self.canon_u(st, a, w), self.canon_u(st, b, w)
                q, r = self.divmod_u(st, a, b, self.where(st))
                f.regs[ins.res] = q if op == 'udiv' else r
                return
            a, b = self.canon_s(st, a, w), self.canon_s(st, b, w)
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    self.oblige(st, z3.BoolVal(False), 'divisor is non-zero')
                    raise Unsupported('division by zero')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                f.regs[ins.res] = q if op == 'sdiv' else a - q * b
                return
            if self.entails(st, z3.And(I(a) >= 0, I(b) > 0)):
                q, r = self.divmod_u(st, a, b, self.where(st))
                f.regs[ins.res] = q if op == 'sdiv' else r
                return
            if isinstance(b, int) and b > 0 and self.entails(st, I(a) <= 0):
                q, r = self.divmod_u(st, -a, b, self.where(st))
                f.regs[ins.res] = -q if op == 'sdiv' else -r
                return
            raise Unsupported('signed division')
        if op in ('shl', 'lshr', 'ashr'):
            t, a, b = ins.a
            w = t[1]
            a, b = self.val(st, t, a), self.val(st, t, b)
            b = self.canon_u(st, b, w)
            if not isinstance(b, int):
                b = fsimp(b)
            if not isinstance(b, int):
                b = self.unique_int(st, b)
            if b >= w:
                self.oblige(st, z3.BoolVal(False), 'shift amount below width in ' + self.where(st))
                raise Unsupported('shift out of range')
            if op == 'shl':
                e = a * (1 << b)
                f.regs[ins.res] = e & ((1 << w) - 1) if isinstance(e, int) else e
            elif op == 'lshr':
                a = self.canon_u(st, a, w)
                f.regs[ins.res] = self.divmod_u(st, a, 1 << b, 'lshr')[0]
            else:
                if isinstance(a, int):
                    f.regs[ins.res] = self.canon_s(st, a, w) >> b
                else:
                    a = self.canon_s(st, a, w)
                    if not self.entails(st, a >= 0):
                        raise Unsupported('ashr of negative')
                    f.regs[ins.res] = self.divmod_u(st, a, 1 << b, 'ashr')[0]
            return
        if op in ('and', 'or', 'xor'):
            t, a, b = ins.a
            a, b = self.val(st, t, a), self.val(st, t, b)
            f.regs[ins.res] = self.bitop(st, op, t, a, b)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            t, a, b = ins.a
            f.regs[ins.res] = self.fbin(st, op, self.val(st, t, a), self.val(st, t, b))
            return
        if op == 'fneg':
            a = self.val(st, ins.a[0], ins.a[1])
            f.regs[ins.res] = a if isinstance(a, str) else -a
            return
        if op == 'cast':
            f.regs[ins.res] = self.cast(st, ins)
            return
        if op == 'alloca':
            self.nregion += 1
            f.regs[ins.res] = st.new_region('%s@%s#%d' % (ins.res, f.fn.name[:60], self.nregion))
            return
        if op == 'load':
            p = self.val(st, ('ptr',), ins.a[1])
            f.regs[ins.res] = self.load(st, p, ins.a[0])
            return
        if op == 'store':
            p = self.val(st, ('ptr',), ins.a[2])
            self.store(st, p, ins.a[0], self.val(st, ins.a[0], ins.a[1]))
            return
        if op == 'getelementptr':
            bt, ops = ins.a
            base = self.val(st, ops[0][0], ops[0][1])
            f.regs[ins.res] = self.gep(st, bt, base, [(t, self.val(st, t, v)) for t, v in ops[1:]])
            return
        if op == 'icmp':
            pred, t, a, b = ins.a
            f.regs[ins.res] = self.icmp(st, pred, t, self.val(st, t, a), self.val(st, t, b))
            return
        if op == 'fcmp':
            pred, t, a, b = ins.a
            f.regs[ins.res] = self.fcmp(st, pred, self.val(st, t, a), self.val(st, t, b))
            return
        if op == 'select':
            c, t, a, b, ct = ins.a
            c = self.val(st, ('i', 1), c)
            a, b = self.val(st, t, a), self.val(st, t, b)
            if isz(c):
                c = fsimp(c)
            if isinstance(c, (bool, int)):
                f.regs[ins.res] = a if c else b
                return
            f.regs[ins.res] = self.select(st, c, t, a, b)
            return
        if op == 'extractvalue':
            v = self.val(st, ins.a[0], ins.a[1])
            for i in ins.a[2]:
                v = v[i]
            f.regs[ins.res] = v
            return
        if op == 'insertvalue':
            v = self.val(st, ins.a[0], ins.a[1])
            e = self.val(st, ins.a[2], ins.a[3])
            f.regs[ins.res] = self.insval(self.m.rtype(ins.a[0]), v, e, ins.a[4])
            return
        if op == 'freeze':
            f.regs[ins.res] = self.val(st, ins.a[0], ins.a[1])
            return
        if op == 'phi':
            raise Unsupported('stray phi')
        raise Unsupported('instruction ' + op)

    def insval(self, ty, v, e, idx):
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        if v is UNDEF:
            v = tuple([UNDEF] * n)
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            sub = self.m.rtype(ty[1][idx[0]] if ty[0] == 'struct' else ty[2])
            l[idx[0]] = self.insval(sub, l[idx[0]], e, idx[1:])
        return tuple(l)

    def select(self, st, c, t, a, b):
        if a is b:
            return a
        if t == ('i', 1):
            return fsimp(z3.If(c, zb(a), zb(b)))
        if t[0] == 'i':
            if isinstance(a, Ptr) or isinstance(b, Ptr) or a is UNDEF or b is UNDEF:
                raise ForkSelect(c, a, b)
            return z3.If(c, I(a), I(b))
        if t[0] == 'f':
            if isinstance(a, (str, float)) or isinstance(b, (str, float)):
                raise ForkSelect(c, a, b)
            return z3.If(c, R(a), R(b))
        if t[0] == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b:
                return a
            if a.r == b.r:
                return Ptr(a.r, z3.If(c, I(a.o), I(b.o)))
        raise ForkSelect(c, a, b)

    def unique_int(self, st, e):
        s = z3.Solver()
        s.set('timeout', 3000)
        for p in st.pc:
            s.add(p)
        if s.check() == z3.sat:
            v = s.model().eval(e, model_completion=True).as_long()
            if self.entails(st, e == v):
                return v
        raise Unsupported('symbolic shift amount')

    def bitop(self, st, op, t, a, b):
        if t == ('i', 1):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                a, b = bool(a), bool(b)
                return {'and': a and b, 'or': a or b, 'xor': a != b}[op]
            if a is UNDEF or b is UNDEF:
                raise Unsupported('undef bool')
            a, b = zb(a), zb(b)
            return fsimp({'and': z3.And(a, b), 'or': z3.Or(a, b), 'xor': z3.Xor(a, b)}[op])
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            a &= (1 << w) - 1
            b &= (1 << w) - 1
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            b &= (1 << w) - 1
            if op == 'and':
                if b == 0:
                    return 0
                if b & (b + 1) == 0:    # low mask
                    return self.divmod_u(st, self.canon_u(st, a, w), b + 1, 'and')[1]
            if op == 'or' and b == 0:
                return a
            if op == 'xor':
                if b == 0:
                    return a
                if b == (1 << w) - 1:
                    return -1 - a
        raise Unsupported('bit operation ' + op)

    def cast(self, st, ins):
        k, t, a, t2 = ins.a
        a = self.val(st, t, a)
        if a is UNDEF:
            return a
        if k == 'trunc':
            if t2 == ('i', 1):
                if isinstance(a, bool):
                    return a
                if isinstance(a, int):
                    return bool(a & 1)
                if z3.is_bool(a):
                    return a
                # i8 holding a bool
                e = self.canon_u(st, a, t[1])
                if self.entails(st, z3.Or(I(e) == 0, I(e) == 1)):
                    return fsimp(I(e) == 1)
                raise Unsupported('trunc to i1')
            if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
                return a
            return a & ((1 << t2[1]) - 1) if isinstance(a, int) else a
        if k == 'zext':
            if t == ('i', 1):
                if isinstance(a, (bool, int)):
                    return int(a)
                if t2 == ('i', 8):
                    return a            # keep bools stored in bytes as bools
                return z3.If(a, z3.IntVal(1), z3.IntVal(0))
            return self.canon_u(st, a, t[1])
        if k == 'sext':
            return self.canon_s(st, a, t[1])
        if k in ('uitofp', 'sitofp'):
            e = (self.canon_u if k[0] == 'u' else self.canon_s)(st, a, t[1])
            return Fraction(e) if isinstance(e, int) else z3.ToReal(e)
        if k in ('fptoui', 'fptosi'):
            return self.fptoint(st, a, t2[1], k == 'fptosi')
        if k in ('fpext', 'fptrunc', 'bitcast', 'addrspacecast'):
            return a
        if k in ('ptrtoint', 'inttoptr'):
            return a
        raise Unsupported('cast ' + k)

    def fptoint(self, st, a, w, signed):
        if isinstance(a, str) or isinstance(a, float):
            self.oblige(st, z3.BoolVal(False), 'double converted to integer is representable in ' + self.where(st))
            raise Unsupported('nan to int')
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
        if isinstance(a, Fraction):
            v = math.trunc(a)
            if not lo <= v < hi:
                self.oblige(st, z3.BoolVal(False), 'double converted to integer is representable in ' + self.where(st))
            return v
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
            q = a.children()[0]
            self.oblige(st, z3.And(q >= lo, q < hi), 'double converted to integer is representable in ' + self.where(st))
            return q
        self.oblige(st, z3.And(a > lo - 1, a < hi), 'double converted to integer is representable in ' + self.where(st))
        if not self.entails(st, a >= 0):
            raise Unsupported('truncation of negative double')
        return self.ffloor(st, a).children()[0]

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            same = isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
            return same if pred == 'eq' else not same
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undef')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                if isinstance(a, Ptr) and b == 0:
                    b = NULL
                elif isinstance(b, Ptr) and a == 0:
                    a = NULL
                else:
                    raise Unsupported('pointer/int comparison')
            if a.r != b.r:
                if pred in ('eq', 'ne'):
                    return pred == 'ne'
                raise Unsupported('pointer order across objects')
            x, y = a.o, b.o
            if isinstance(x, int) and isinstance(y, int):
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            x, y = I(x), I(y)
            return fsimp({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
        if t == ('i', 1) or isinstance(a, bool) and isinstance(b, bool):
            if pred in ('eq', 'ne'):
                e = fsimp(zb(a) == zb(b))
                return e if pred == 'eq' else (not e if isinstance(e, bool) else fsimp(z3.Not(e)))
        w = t[1]
        if isz(a) and z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isz(b) and z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        cf = self.canon_s if pred[0] == 's' else self.canon_u
        a, b = cf(st, a, w), cf(st, b, w)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if isinstance(a, int) and isinstance(b, int):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        a, b = I(a), I(b)
        return fsimp({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])

    def where(self, st):
        f = st.frames[-1]
        return re.sub(r'\(.*', '', self.m.dem.get(f.fn.name, f.fn.name))[-80:]


class ForkSelect(Exception):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class PInt:
    pass
