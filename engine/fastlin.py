"""Fast linear-real relaxation: formulas are translated once to SMT-LIB text over polynomial monomials.

Every integer variable is relaxed to a real one, every product of variables becomes an opaque real variable and
valid product facts (p>=0 and m>=0 give p*m>=0; p=0 gives p*m=0) are added.  unsat here entails unsat of the original
formulas; nothing else is concluded.
"""
import itertools
from fractions import Fraction
import z3

KEEP = []
POLY = {}
FORM = {}      # id -> (text, frozenset of symbols)
ATOMS = {}     # atom id -> (name, nonneg?)
ATOM_EXPR = {}
DEFS = {}      # atom name -> (text, symbols)
INEQ = {}      # (id,neg) -> list of (poly, kind)


class No(Exception):
    pass


def num(v):
    if isinstance(v, int):
        return str(v) + '.0' if v >= 0 else '(- %d.0)' % -v
    n, d = v.numerator, v.denominator
    if d == 1:
        return num(n)
    return '(/ %d.0 %d.0)' % (n, d) if n >= 0 else '(- (/ %d.0 %d.0))' % (-n, d)


def pmul(p, q):
    r = {}
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = tuple(sorted(m1 + m2))
            r[m] = r.get(m, 0) + v1 * v2
    return {m: v for m, v in r.items() if v}


def mname(m):
    if len(m) == 1:
        return ATOMS[m[0]]
    return 'm' + '_'.join(map(str, m))


def poly(e):
    k = e.get_id()
    r = POLY.get(k)
    if r is None:
        KEEP.append(e)
        r = _poly(e)
        POLY[k] = r
    return r


def _poly(e):
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): v} if v else {}
    if z3.is_rational_value(e):
        v = e.as_fraction()
        if v.denominator == 1:
            v = int(v)
        return {(): v} if v else {}
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            for m, v in poly(c).items():
                r[m] = r.get(m, 0) + v
        return {m: v for m, v in r.items() if v}
    if k == z3.Z3_OP_SUB:
        r = dict(poly(ch[0]))
        for c in ch[1:]:
            for m, v in poly(c).items():
                r[m] = r.get(m, 0) - v
        return {m: v for m, v in r.items() if v}
    if k == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in poly(ch[0]).items()}
    if k == z3.Z3_OP_MUL:
        r = {(): 1}
        for c in ch:
            r = pmul(r, poly(c))
            if len(r) > 400:
                raise No
        return r
    if k == z3.Z3_OP_TO_REAL:
        return poly(ch[0])
    if k == z3.Z3_OP_DIV:
        p = poly(ch[1])
        if list(p) == [()] and p[()]:
            d = Fraction(p[()])
            return {m: Fraction(v) / d for m, v in poly(ch[0]).items()}
        raise No
    i = e.get_id()
    ATOMS[i] = 'a%d' % i
    ATOM_EXPR[i] = e
    if k == z3.Z3_OP_ITE:
        ct, cs = form(ch[0])
        a = rel(psub(dict({(i,): 1}), poly(ch[1])), '=')
        b = rel(psub(dict({(i,): 1}), poly(ch[2])), '=')
        DEFS['a%d' % i] = ('(ite %s %s %s)' % (ct, a[0], b[0]), cs | a[1] | b[1])
    return {(i,): 1}


def psub(p, q):
    for m, v in q.items():
        p[m] = p.get(m, 0) - v
    return {m: v for m, v in p.items() if v}


def rel(p, op):
    """text of p op 0"""
    syms = set()
    terms = []
    for m, v in p.items():
        if m == ():
            terms.append(num(v))
            continue
        n = mname(m)
        syms.add((n, m))
        terms.append(n if v == 1 else '(* %s %s)' % (num(v), n))
    if not terms:
        t = '0.0'
    elif len(terms) == 1:
        t = terms[0]
    else:
        t = '(+ ' + ' '.join(terms) + ')'
    return '(%s %s 0.0)' % (op, t), frozenset(syms)


def form(f):
    k = f.get_id()
    r = FORM.get(k)
    if r is None:
        KEEP.append(f)
        r = _form(f)
        FORM[k] = r
    return r


RELS = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}


def allint(e):
    return z3.is_int(e)


def _form(f):
    if z3.is_quantifier(f):
        return 'true', frozenset()      # weaker hypothesis; goals containing quantifiers raise below
    k = f.decl().kind()
    ch = f.children()
    if k == z3.Z3_OP_TRUE:
        return 'true', frozenset()
    if k == z3.Z3_OP_FALSE:
        return 'false', frozenset()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_NOT) or (
            k == z3.Z3_OP_ITE) or (k == z3.Z3_OP_EQ and z3.is_bool(ch[0])):
        if any(z3.is_quantifier(c) for c in ch):
            raise No
        if k == z3.Z3_OP_NOT and z3.is_not(ch[0]):
            return form(ch[0].children()[0])
        fs = [form(c) for c in ch]
        op = {z3.Z3_OP_AND: 'and', z3.Z3_OP_OR: 'or', z3.Z3_OP_IMPLIES: '=>', z3.Z3_OP_XOR: 'xor',
              z3.Z3_OP_NOT: 'not', z3.Z3_OP_ITE: 'ite', z3.Z3_OP_EQ: '='}[k]
        if k == z3.Z3_OP_NOT:
            # strict integer negation keeps integrality
            g = neg_lit(ch[0])
            if g:
                return g
        if not fs:
            return ('true' if op == 'and' else 'false'), frozenset()
        return '(%s %s)' % (op, ' '.join(x[0] for x in fs)), frozenset().union(*[x[1] for x in fs])
    if k in RELS:
        p = psub(dict(poly(ch[0])), poly(ch[1]))
        return lit(p, RELS[k], allint(ch[0]) and allint(ch[1]))
    if k == z3.Z3_OP_EQ and z3.is_arith(ch[0]):
        return rel(psub(dict(poly(ch[0])), poly(ch[1])), '=')
    if k == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_arith(ch[0]):
        return neq(psub(dict(poly(ch[0])), poly(ch[1])), allint(ch[0]))
    if z3.is_bool(f) and k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
        n = 'b%d' % f.get_id()
        return n, frozenset([(n, None)])
    raise No


def lit(p, op, isint):
    if isint and op in ('<', '>'):
        p = dict(p)
        p[()] = p.get((), 0) + (1 if op == '<' else -1)
        op += '='
    return rel(p, op)


def neq(p, isint):
    a = lit(p, '<', isint)
    b = lit(p, '>', isint)
    return '(or %s %s)' % (a[0], b[0]), a[1] | b[1]


def neg_lit(f):
    k = f.decl().kind() if z3.is_app(f) else None
    ch = f.children()
    if k in RELS:
        p = psub(dict(poly(ch[0])), poly(ch[1]))
        op = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}[RELS[k]]
        return lit(p, op, allint(ch[0]) and allint(ch[1]))
    if k == z3.Z3_OP_EQ and z3.is_arith(ch[0]):
        return neq(psub(dict(poly(ch[0])), poly(ch[1])), allint(ch[0]))
    return None


def ineqs(f, neg=False):
    k = (f.get_id(), neg)
    r = INEQ.get(k)
    if r is None:
        KEEP.append(f)
        r = _ineqs(f, neg)
        INEQ[k] = r
    return r


def _ineqs(f, neg):
    if not z3.is_app(f):
        return []
    if z3.is_not(f):
        return ineqs(f.children()[0], not neg)
    k = f.decl().kind()
    ch = f.children()
    if len(ch) != 2 or not z3.is_arith(ch[0]):
        return []
    op = RELS.get(k)
    if op is None:
        if k == z3.Z3_OP_EQ and not neg:
            return [(psub(dict(poly(ch[0])), poly(ch[1])), 'eq')]
        return []
    if neg:
        op = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}[op]
    one = 1 if allint(ch[0]) and allint(ch[1]) else 0
    if op in ('<=', '<'):
        p = psub(dict(poly(ch[1])), poly(ch[0]))
    else:
        p = psub(dict(poly(ch[0])), poly(ch[1]))
    if op in ('<', '>') and one:
        p = dict(p)
        p[()] = p.get((), 0) - 1
        return [(p, 'ge')]
    return [(p, 'gt' if op in ('<', '>') else 'ge')]


def sliced(hyps, goal, hops=2, most=60):
    """cheap first attempt: only the hypotheses within two steps of the goal, no product facts"""
    forms = [form(f) for f in hyps]
    sel = [form(f) for f in goal]
    names = set(n for _, s in sel for n, m in s)
    rest = forms
    for _ in range(hops):
        new = [x for x in rest if any(n in names for n, m in x[1])]
        if len(sel) + len(new) > most:
            break
        rest = [x for x in rest if not any(n in names for n, m in x[1])]
        sel += new
        names.update(n for _, s in new for n, m in s)
    syms = {}
    for _, s in sel:
        for n, m in s:
            syms[n] = m
    texts = [t for t, _ in sel]
    define(syms, texts)
    return solve(syms, texts, 500)


def define(syms, texts):
    """definitions of ite atoms"""
    done = set()
    todo = [a for n, m in syms.items() if m for a in m]
    while todo:
        a = todo.pop()
        n = ATOMS[a]
        if n in done:
            continue
        done.add(n)
        syms.setdefault(n, (a,))
        d = DEFS.get(n)
        if d:
            texts.append(d[0])
            for n2, m2 in d[1]:
                if n2 not in syms:
                    syms[n2] = m2
                    if m2:
                        todo.extend(m2)


def solve(syms, texts, timeout):
    out = []
    for n, m in syms.items():
        out.append('(declare-const %s %s)' % (n, 'Bool' if m is None else 'Real'))
    for t in texts:
        out.append('(assert %s)' % t)
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout)
    s.from_string('\n'.join(out))
    return s.check() == z3.unsat


def check(hyps, neg_goal_lits, rounds=2, maxdeg=5, cap=1200, timeout=4000, extra_monos=()):
    """hyps, neg_goal_lits: lists of formulas (conjuncts); returns True when unsat"""
    if sliced(hyps, neg_goal_lits):
        return True
    texts = []
    syms = {}
    for f in list(hyps) + list(neg_goal_lits):
        t, s = form(f)
        texts.append(t)
        for n, m in s:
            syms[n] = m
    facts, fs = product_facts(list(hyps) + list(neg_goal_lits), syms, rounds, maxdeg, cap)
    texts += facts
    syms.update(fs)
    define(syms, texts)
    return solve(syms, texts, timeout)


def product_facts(lits, syms, rounds, maxdeg, cap):
    ineq = []
    nonneg = set()
    positive = set()
    for f in lits:
        for p, k in ineqs(f):
            ineq.append((p, k))
            if k != 'eq':
                ms = [m for m in p if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and p[ms[0]] > 0 and p.get((), 0) <= 0:
                    nonneg.add(ms[0][0])
                    if k == 'gt' or p.get((), 0) < 0:
                        positive.add(ms[0][0])
    facts = []
    seen = set()
    monos = [m for m in syms.values() if m and len(m) > 1]
    allm = set(monos)
    newsyms = {}
    index = {}
    for idx, (p, k) in enumerate(ineq):
        for m in p:
            if m:
                index.setdefault(m, []).append(idx)
    for rnd in range(rounds):
        fresh = []
        for m in monos:
            if all(x in nonneg for x in m) and ('nn', m) not in seen:
                seen.add(('nn', m))
                facts.append(rel({m: 1}, '>=')[0])
            subs = set()
            for r in range(1, len(m)):
                for s in itertools.combinations(m, r):
                    subs.add(s)
            for s in subs:
                if s not in index:
                    continue
                rest = list(m)
                for x in s:
                    rest.remove(x)
                rest = tuple(rest)
                nn = all(x in nonneg for x in rest)
                for idx in index[s]:
                    if (idx, rest) in seen:
                        continue
                    seen.add((idx, rest))
                    p, k = ineq[idx]
                    if k != 'eq' and not nn:
                        continue
                    q = pmul(p, {rest: 1})
                    if any(len(mm) > maxdeg for mm in q):
                        continue
                    t, sy = rel(q, '=' if k == 'eq' else '>' if k == 'gt' and all(x in positive for x in rest) else '>=')
                    facts.append(t)
                    for n, mm in sy:
                        newsyms[n] = mm
                        if len(mm) > 1 and mm not in allm:
                            allm.add(mm)
                            fresh.append(mm)
                    if len(facts) > cap:
                        return facts, newsyms
        monos = fresh
        if not fresh:
            break
    return facts, newsyms
