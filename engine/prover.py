"""Obligation discharge: linearising wrapper around z3 (and cvc5 as a second opinion).

prove(hyps, goal) returns one of
  ('proved', backend, seconds)        every model of hyps satisfies goal
  ('refuted', backend, seconds, model) z3 produced a model of hyps and not goal
  ('unknown', backend, seconds)

The first attempt replaces every nonlinear monomial by a fresh variable and adds
valid product facts (p >= 0 and m >= 0 entail p*m >= 0); unsat there entails unsat
of the original.  The second attempt hands the original formulas to z3.
"""
import fastlin
import time, z3, itertools, os, subprocess, tempfile

STATS = dict(queries=0, seconds=0.0, relaxed=0, linear=0, direct=0, cvc5=0)

def is_num(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)

def numval(e):
    if z3.is_int_value(e):
        return e.as_long()
    f = e.as_fraction()
    return f

class NoRelax(Exception):
    pass


class Lin:
    """Linearises z3 arithmetic formulas."""
    def __init__(self, relax=False):
        self.relax = relax   # integer variables become real ones (sound for unsat)
        self.nonneg_ids = None
        self.mvars = {}      # monomial key (tuple of atom ids) -> (fresh var, atoms)
        self.atoms = {}      # id -> atom (rebuilt)
        self.cache = {}
        self.bcache = {}
        self.n = 0
        self.keep = []

    # polynomial: dict monomial(tuple of atom ids sorted) -> coefficient
    def poly(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        self.keep.append(e)
        r = self._poly(e)
        self.cache[k] = r
        return r

    def _poly(self, e):
        if is_num(e):
            v = numval(e)
            return {(): v} if v != 0 else {}
        d = e.decl().kind() if z3.is_app(e) else None
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                for m, v in self.poly(c).items():
                    r[m] = r.get(m, 0) + v
            return {m: v for m, v in r.items() if v != 0}
        if d == z3.Z3_OP_SUB:
            ch = e.children()
            r = dict(self.poly(ch[0]))
            for c in ch[1:]:
                for m, v in self.poly(c).items():
                    r[m] = r.get(m, 0) - v
            return {m: v for m, v in r.items() if v != 0}
        if d == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.poly(e.children()[0]).items()}
        if d == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in e.children():
                p = self.poly(c)
                r = self.pmul(r, p)
                if len(r) > 2000:
                    raise OverflowError
            return r
        if d == z3.Z3_OP_TO_REAL and self.mixed_ok(e.children()[0]):
            return self.poly(e.children()[0])
        if d == z3.Z3_OP_DIV:
            b = e.children()[1]
            if is_num(b) and numval(b) != 0:
                from fractions import Fraction
                v = numval(b)
                return {m: Fraction(c) / Fraction(v) for m, c in self.poly(e.children()[0]).items()}
        return self.atom(self.rebuild_atom(e))

    def mixed_ok(self, e):
        return True

    @staticmethod
    def pmul(p, q):
        r = {}
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                m = tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + v1 * v2
        return {m: v for m, v in r.items() if v != 0}

    def atom(self, a):
        i = a.get_id()
        if i not in self.atoms:
            self.atoms[i] = a
            self.keep.append(a)
        return {(i,): 1}

    def rebuild_atom(self, e):
        """rebuild an opaque term, linearising inside it"""
        if not z3.is_app(e) or e.num_args() == 0:
            if self.relax and z3.is_app(e) and z3.is_int(e):
                return z3.Real('r!' + e.decl().name())
            return e
        k = e.decl().kind()
        if self.relax and k != z3.Z3_OP_ITE and not (k == z3.Z3_OP_UNINTERPRETED and z3.is_real(e)):
            raise NoRelax
        if k == z3.Z3_OP_ITE:
            c, a, b = e.children()
            if z3.is_arith(a):
                if self.relax:
                    return z3.If(self.form(c), self.expr(a, z3.RealSort()), self.expr(b, z3.RealSort()))
                return z3.If(self.form(c), self.expr(a, a.sort()), self.expr(b, b.sort()))
            return e
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            a, b = e.children()
            a2, b2 = self.expr(a, a.sort()), self.expr(b, b.sort())
            return a2 / b2 if k == z3.Z3_OP_IDIV else a2 % b2
        if k == z3.Z3_OP_TO_INT:
            return z3.ToInt(self.expr(e.children()[0], z3.RealSort()))
        if k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_SELECT:
            args = [self.expr(c, c.sort()) if z3.is_arith(c) else c for c in e.children()]
            if k == z3.Z3_OP_SELECT:
                return z3.Select(*args)
            return e.decl()(*args)
        return e

    def mono(self, m):
        """z3 term for a monomial"""
        if len(m) == 1:
            return self.atoms[m[0]]
        if m not in self.mvars:
            self.n += 1
            real = any(z3.is_real(self.atoms[i]) for i in m)
            v = (z3.Real if real else z3.Int)('mono!%d' % self.n)
            self.mvars[m] = v
        return self.mvars[m]

    def expr(self, e, sort):
        return self.unpoly(self.poly(e), sort)

    def unpoly(self, p, sort):
        real = self.relax or (sort == z3.RealSort())
        terms = []
        for m, v in p.items():
            if real:
                c = z3.RealVal(v)
                if m == ():
                    terms.append(c)
                else:
                    t = self.mono(m)
                    if z3.is_int(t):
                        t = z3.ToReal(t)
                    terms.append(t if v == 1 else c * t)
            else:
                if m == ():
                    terms.append(z3.IntVal(v))
                else:
                    t = self.mono(m)
                    terms.append(t if v == 1 else z3.IntVal(v) * t)
        if not terms:
            return z3.RealVal(0) if real else z3.IntVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def cmp_poly(self, a, b):
        p = dict(self.poly(a))
        for m, v in self.poly(b).items():
            p[m] = p.get(m, 0) - v
        return {m: v for m, v in p.items() if v != 0}

    def poly_rel(self, p, rel):
        real = self.relax or any(m and any(z3.is_real(self.atoms[i]) for i in m) for m in p) or any(
            not isinstance(v, int) for v in p.values())
        s = z3.RealSort() if real else z3.IntSort()
        t = self.unpoly(p, s)
        z = z3.RealVal(0) if real else z3.IntVal(0)
        return {'<=': t <= z, '<': t < z, '=': t == z, '>=': t >= z, '>': t > z}[rel]

    def form(self, f):
        k = f.get_id()
        r = self.bcache.get(k)
        if r is None:
            self.keep.append(f)
            r = self._form(f)
            self.bcache[k] = r
        return r

    def _form(self, f):
        if z3.is_quantifier(f):
            return f
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_AND:
            return z3.And([self.form(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.form(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.form(ch[0]), self.form(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.form(ch[0]), self.form(ch[1]), self.form(ch[2]))
        rel = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}.get(k)
        if rel:
            return self.poly_rel(self.cmp_poly(ch[0], ch[1]), rel)
        if k == z3.Z3_OP_EQ:
            if z3.is_arith(ch[0]):
                return self.poly_rel(self.cmp_poly(ch[0], ch[1]), '=')
            if z3.is_bool(ch[0]):
                return self.form(ch[0]) == self.form(ch[1])
            return f
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_arith(ch[0]):
            return z3.Not(self.poly_rel(self.cmp_poly(ch[0], ch[1]), '='))
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            args = [self.expr(c, c.sort()) if z3.is_arith(c) else c for c in ch]
            return f.decl()(*args)
        return f


def conjuncts(fs):
    out = []
    st = list(fs)[::-1]
    while st:
        f = st.pop()
        if z3.is_and(f):
            st.extend(f.children()[::-1])
        else:
            out.append(f)
    return out


def ineqs(lin, f, neg=False):
    """list of (poly, kind) with meaning poly >= 0 ('ge') or poly == 0 ('eq'), for literals only"""
    if z3.is_not(f):
        return ineqs(lin, f.children()[0], not neg)
    if not z3.is_app(f):
        return []
    k = f.decl().kind()
    ch = f.children()
    if len(ch) != 2 or not z3.is_arith(ch[0]):
        return []
    real = z3.is_real(ch[0]) or z3.is_real(ch[1])
    one = 0 if real else 1
    if neg:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT,
             z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if k is None:
            return []
    if k == z3.Z3_OP_LE:
        return [(lin.cmp_poly(ch[1], ch[0]), 'ge')]
    if k == z3.Z3_OP_GE:
        return [(lin.cmp_poly(ch[0], ch[1]), 'ge')]
    if k == z3.Z3_OP_LT:
        p = lin.cmp_poly(ch[1], ch[0])
        p[()] = p.get((), 0) - one
        return [(p, 'ge')]
    if k == z3.Z3_OP_GT:
        p = lin.cmp_poly(ch[0], ch[1])
        p[()] = p.get((), 0) - one
        return [(p, 'ge')]
    if k == z3.Z3_OP_EQ:
        return [(lin.cmp_poly(ch[0], ch[1]), 'eq')]
    return []


def product_facts(lin, lits, rounds=2, maxdeg=4, cap=1500):
    """valid facts p*m >= 0 for literal p >= 0 and nonnegative monomial m"""
    ineq = []
    nonneg = set()
    for f in lits:
        for p, k in ineqs(lin, f):
            ineq.append((p, k))
            # x + c >= 0 with c <= 0  ==> x >= 0
            if k == 'ge':
                ms = [m for m in p if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and p[ms[0]] > 0 and p.get((), 0) <= 0:
                    nonneg.add(ms[0][0])
    facts = []
    seen = set()
    for rnd in range(rounds):
        monos = list(lin.mvars.keys())
        new = False
        for m in monos:
            subs = set()
            for r in range(1, len(m)):
                for s in itertools.combinations(m, r):
                    subs.add(s)
            for s in subs:                       # s: part matched in p, rest: multiplier
                rest = list(m)
                for x in s:
                    rest.remove(x)
                rest = tuple(rest)
                for idx, (p, k) in enumerate(ineq):
                    if s not in p:
                        continue
                    if (idx, rest) in seen:
                        continue
                    seen.add((idx, rest))
                    if k == 'ge' and not all(x in nonneg for x in rest):
                        continue
                    q = Lin.pmul(p, {rest: 1})
                    if any(len(mm) > maxdeg for mm in q):
                        continue
                    facts.append(lin.poly_rel(q, '>=' if k == 'ge' else '='))
                    new = True
                    if len(facts) > cap:
                        return facts
            if len(m) >= 1 and all(x in nonneg for x in m) and ('nn', m) not in seen:
                seen.add(('nn', m))
                facts.append(lin.poly_rel({m: 1}, '>='))
        if not new:
            break
    return facts


def prove(hyps, goal, timeout=20.0, want_model=True, linear_only=False, use_cvc5=False, quick=False):
    STATS['queries'] += 1
    t0 = time.time()
    try:
        ng = z3.Not(goal)
        sg = z3.simplify(goal)
        if z3.is_true(sg):
            return ('proved', 'z3-simplify', time.time() - t0)
        # attempt 0: linear real relaxation
        try:
            if fastlin.check(conjuncts(hyps), conjuncts([ng])):
                STATS['relaxed'] += 1
                return ('proved', 'z3-lra', time.time() - t0)
        except (OverflowError, fastlin.No):
            pass
        if quick:
            return ('unknown', 'z3-lra', time.time() - t0)
        # attempt 1
        try:
            lin = Lin()
            lits = conjuncts(hyps)
            s = z3.Solver()
            s.set('timeout', int(min(timeout, 4) * 1000))
            for h in lits:
                s.add(lin.form(h))
            lg = lin.form(ng)
            s.add(lg)
            nonlin = bool(lin.mvars)
            if nonlin:
                gl = conjuncts([ng])
                for f in product_facts(lin, lits + gl):
                    s.add(f)
            r = s.check()
            if r == z3.unsat:
                STATS['linear'] += 1
                return ('proved', 'z3-linearised' if nonlin else 'z3', time.time() - t0)
            if r == z3.sat and not nonlin:
                return ('refuted', 'z3', time.time() - t0, s.model())
        except OverflowError:
            pass
        if linear_only:
            return ('unknown', 'z3-linearised', time.time() - t0)
        STATS['direct'] += 1
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        for h in hyps:
            s.add(h)
        s.add(ng)
        r = s.check()
        if r == z3.unsat:
            return ('proved', 'z3-nia', time.time() - t0)
        if r == z3.sat:
            return ('refuted', 'z3-nia', time.time() - t0, s.model())
        if use_cvc5:
            r = cvc5_check(hyps, ng, timeout)
            STATS['cvc5'] += 1
            if r == 'unsat':
                return ('proved', 'cvc5', time.time() - t0)
        return ('unknown', 'z3-nia', time.time() - t0)
    finally:
        STATS['seconds'] += time.time() - t0


def cvc5_check(hyps, ng, timeout):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(ng)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        n = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), n], capture_output=True, text=True,
                           timeout=timeout + 10)
        return p.stdout.split('\n')[0].strip()
    except Exception:
        return 'unknown'
    finally:
        os.unlink(n)


def feasible(hyps, timeout=3.0):
    """False only if hyps are definitely inconsistent"""
    r = prove(hyps, z3.BoolVal(False), timeout=timeout, linear_only=True, quick=True)
    return r[0] != 'proved'


def lia(hyps, goal, timeout=10.0):
    """linear integer arithmetic over the hypotheses without products (fewer hypotheses: sound)"""
    t0 = time.time()
    lin = Lin()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for h in conjuncts(hyps):
        k = len(lin.mvars)
        f = lin.form(h)
        if len(lin.mvars) == k:
            s.add(f)
    f = lin.form(z3.Not(goal))
    s.add(f)
    r = s.check()
    STATS['seconds'] += time.time() - t0
    if r == z3.unknown:
        return None
    return r == z3.unsat
