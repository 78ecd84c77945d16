"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits from /repo."""
import re, struct, subprocess
from fractions import Fraction

TOK = re.compile(r'''
  (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
 |(?P<glob>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)
 |(?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<meta>![\w.]*)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<hex>0x[0-9A-Fa-fKLMHR]+)
 |(?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
 |(?P<int>-?\d+)
 |(?P<word>[A-Za-z_$][\w.$-]*)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\r\n':
            pos += 1
            continue
        if c == ';':
            e = s.find('\n', pos)
            pos = n if e < 0 else e
            continue
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('token %r' % s[pos:pos + 30])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


class Cur:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported('expected %r got %r in %s' % (v, x, ' '.join(t[1] for t in self.t)[:300]))

    def end(self):
        return self.i >= len(self.t)


def parse_type(c):
    k, v = c.next()
    if k == 'word':
        if v == 'ptr':
            t = ('ptr',)
        elif v == 'void':
            t = ('void',)
        elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            t = ('f', {'double': 64, 'float': 32, 'x86_fp80': 80, 'half': 16, 'fp128': 128}[v])
        elif v in ('label', 'metadata', 'token', 'opaque'):
            t = (v,)
        elif re.match(r'i\d+$', v):
            t = ('i', int(v[1:]))
        else:
            raise Unsupported('type ' + v)
    elif k == 'loc':
        t = ('named', v)
    elif v == '[':
        n = int(c.next()[1])
        c.exp('x')
        e = parse_type(c)
        c.exp(']')
        t = ('arr', n, e)
    elif v == '{':
        ts = []
        if not c.acc('}'):
            while True:
                ts.append(parse_type(c))
                if c.acc('}'):
                    break
                c.exp(',')
        t = ('struct', tuple(ts), False)
    elif v == '<':
        if c.peek()[1] == '{':
            s = parse_type(c)
            c.exp('>')
            t = ('struct', s[1], True)
        else:
            n = int(c.next()[1])
            c.exp('x')
            e = parse_type(c)
            c.exp('>')
            t = ('vec', n, e)
    else:
        raise Unsupported('type token %r' % v)
    # function type
    while True:
        if c.peek()[1] == '(':
            # function type: ret (args)
            depth = 0
            while True:
                x = c.next()[1]
                if x == '(':
                    depth += 1
                if x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            t = ('func', t)
        elif c.peek()[1] == '*':
            c.next()
            t = ('ptr',)
        else:
            break
    return t


PARATTR = set('''noundef nonnull noalias nocapture readonly writeonly readnone returned signext zeroext inreg
sret byval align dereferenceable dereferenceable_or_null dead_on_unwind writable immarg nofree nest swiftself
captures byref inalloca elementtype preallocated noext range allocalign allocptr'''.split())
LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
external dso_local dso_preemptable hidden protected default unnamed_addr local_unnamed_addr thread_local externally_initialized
global constant fastcc ccc coldcc'''.split())


def skip_attrs(c):
    a = {}
    while c.peek()[0] == 'word' and c.peek()[1] in PARATTR:
        w = c.next()[1]
        if c.peek()[1] == '(':
            c.next()
            if w in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                a[w] = parse_type(c)
                c.exp(')')
            else:
                d = 1
                while d:
                    x = c.next()[1]
                    d += (x == '(') - (x == ')')
                a[w] = True
        elif w == 'align':
            c.next()
            a[w] = True
        else:
            a[w] = True
    return a


def parse_const_num(k, v, ty):
    if ty[0] == 'f':
        if k == 'hex':
            if v[2] in 'KLMHR':
                return ('fp80', v)
            bits = int(v, 16)
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else:
            d = float(v)
        return ('fp', d)
    return ('int', int(v))


CEXPR = set('getelementptr bitcast ptrtoint inttoptr trunc zext sext add sub mul icmp select addrspacecast xor'.split())


def parse_value(c, ty):
    k, v = c.next()
    if k == 'loc':
        return ('loc', v)
    if k == 'glob':
        return ('glob', v)
    if k in ('int', 'flt', 'hex'):
        return parse_const_num(k, v, ty)
    if k == 'cstr':
        return ('cstr', v)
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('undef',)
        if v in CEXPR:
            fl = []
            while c.peek()[0] == 'word':
                fl.append(c.next()[1])
                if fl[-1] == 'inrange' and c.peek()[1] == '(':
                    while c.next()[1] != ')':
                        pass
            c.exp('(')
            if v == 'getelementptr':
                bt = parse_type(c)
                c.exp(',')
                ops = []
                while True:
                    while c.peek()[1] == 'inrange':
                        c.next()
                    t = parse_type(c)
                    ops.append((t, parse_value(c, t)))
                    if c.acc(')'):
                        break
                    c.exp(',')
                return ('cgep', bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                t = parse_type(c)
                x = parse_value(c, t)
                c.exp('to')
                t2 = parse_type(c)
                c.exp(')')
                return ('ccast', v, t, x, t2)
            ops = []
            while True:
                t = parse_type(c)
                ops.append((t, parse_value(c, t)))
                if c.acc(')'):
                    break
                c.exp(',')
            return ('cexpr', v, ops)
        raise Unsupported('value ' + v)
    if v in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[v]
        packed = False
        if v == '<' and c.peek()[1] == '{':
            c.next()
            close = '}'
            packed = True
        items = []
        if not c.acc(close):
            while True:
                t = parse_type(c)
                items.append((t, parse_value(c, t)))
                if c.acc(close):
                    break
                c.exp(',')
        if packed:
            c.exp('>')
        return ('agg', items)
    if k == 'meta':
        return ('meta',)
    raise Unsupported('value token %r' % v)


def parse_tv(c):
    t = parse_type(c)
    skip_attrs(c)
    if t == ('metadata',):
        # skip until , or )
        d = 0
        while True:
            x = c.peek()[1]
            if x in (',', ')') and d == 0:
                break
            d += (x in '({') - (x in ')}') if x and len(x) == 1 else 0
            c.next()
        return (t, ('meta',))
    return (t, parse_value(c, t))


FLAGS = set('nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc volatile atomic disjoint nneg tail musttail notail'.split())


class Instr:
    __slots__ = ('op', 'res', 'a', 'flags', 'text')

    def __init__(self, op, res, a, flags, text):
        self.op, self.res, self.a, self.flags, self.text = op, res, a, flags, text


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


def parse_instr(line):
    c = Cur(tokenize(line))
    res = None
    if c.peek()[0] == 'loc' and c.peek(1)[1] == '=':
        res = c.next()[1]
        c.next()
    fl = set()
    while c.peek()[1] in FLAGS:
        fl.add(c.next()[1])
    op = c.next()[1]
    while c.peek()[1] in FLAGS:
        fl.add(c.next()[1])
    if op in BIN:
        t = parse_type(c)
        a = parse_value(c, t)
        c.exp(',')
        b = parse_value(c, t)
        return Instr(op, res, (t, a, b), fl, line)
    if op in CAST:
        t = parse_type(c)
        a = parse_value(c, t)
        c.exp('to')
        t2 = parse_type(c)
        return Instr('cast', res, (op, t, a, t2), fl, line)
    if op == 'fneg':
        t = parse_type(c)
        return Instr(op, res, (t, parse_value(c, t)), fl, line)
    if op == 'alloca':
        c.acc('inalloca')
        t = parse_type(c)
        n = None
        if c.acc(','):
            if c.peek()[1] != 'align':
                n = parse_tv(c)
        return Instr(op, res, (t, n), fl, line)
    if op == 'load':
        t = parse_type(c)
        c.exp(',')
        p = parse_tv(c)
        return Instr(op, res, (t, p[1]), fl, line)
    if op == 'store':
        v = parse_tv(c)
        c.exp(',')
        p = parse_tv(c)
        return Instr(op, res, (v[0], v[1], p[1]), fl, line)
    if op == 'getelementptr':
        bt = parse_type(c)
        ops = []
        while c.acc(','):
            ops.append(parse_tv(c))
        return Instr(op, res, (bt, ops), fl, line)
    if op in ('icmp', 'fcmp'):
        pred = c.next()[1]
        t = parse_type(c)
        a = parse_value(c, t)
        c.exp(',')
        b = parse_value(c, t)
        return Instr(op, res, (pred, t, a, b), fl, line)
    if op == 'select':
        x = parse_tv(c)
        c.exp(',')
        y = parse_tv(c)
        c.exp(',')
        z = parse_tv(c)
        return Instr(op, res, (x[1], y[0], y[1], z[1], x[0]), fl, line)
    if op == 'phi':
        t = parse_type(c)
        inc = []
        while True:
            c.exp('[')
            v = parse_value(c, t)
            c.exp(',')
            b = c.next()[1]
            c.exp(']')
            inc.append((v, b))
            if not c.acc(','):
                break
        return Instr(op, res, (t, inc), fl, line)
    if op == 'br':
        if c.acc('label'):
            return Instr('br', None, (None, c.next()[1], None), fl, line)
        c.exp('i1')
        v = parse_value(c, ('i', 1))
        c.exp(',')
        c.exp('label')
        a = c.next()[1]
        c.exp(',')
        c.exp('label')
        b = c.next()[1]
        return Instr('br', None, (v, a, b), fl, line)
    if op == 'switch':
        v = parse_tv(c)
        c.exp(',')
        c.exp('label')
        d = c.next()[1]
        c.exp('[')
        cases = []
        while not c.acc(']'):
            t = parse_type(c)
            k = parse_value(c, t)
            c.exp(',')
            c.exp('label')
            cases.append((k, c.next()[1]))
        return Instr('switch', None, (v[0], v[1], d, cases), fl, line)
    if op == 'ret':
        if c.acc('void'):
            return Instr('ret', None, None, fl, line)
        return Instr('ret', None, parse_tv(c), fl, line)
    if op in ('call', 'invoke'):
        while c.peek()[1] in FLAGS or c.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            c.next()
        skip_attrs(c)
        rt = parse_type(c)
        if rt[0] == 'func':
            rt = rt[1]
        k, v = c.next()
        if k == 'word' and v == 'asm':
            raise Unsupported('inline asm')
        callee = (k, v)
        c.exp('(')
        args = []
        if not c.acc(')'):
            while True:
                t = parse_type(c)
                at = skip_attrs(c)
                if t == ('metadata',):
                    d = 0
                    while not (c.peek()[1] in (',', ')') and d == 0):
                        x = c.next()[1]
                        d += (x in ('(', '{')) - (x in (')', '}'))
                    val = ('meta',)
                else:
                    val = parse_value(c, t)
                args.append((t, val, at))
                if c.acc(')'):
                    break
                c.exp(',')
        normal = unwind = None
        if op == 'invoke':
            while c.peek()[1] != 'to':
                c.next()
            c.next()
            c.exp('label')
            normal = c.next()[1]
            c.exp('unwind')
            c.exp('label')
            unwind = c.next()[1]
        return Instr(op, res, (rt, callee, args, normal, unwind), fl, line)
    if op == 'extractvalue':
        v = parse_tv(c)
        idx = []
        while c.acc(','):
            idx.append(int(c.next()[1]))
        return Instr(op, res, (v[0], v[1], idx), fl, line)
    if op == 'insertvalue':
        v = parse_tv(c)
        c.exp(',')
        e = parse_tv(c)
        idx = []
        while c.acc(','):
            idx.append(int(c.next()[1]))
        return Instr(op, res, (v[0], v[1], e[0], e[1], idx), fl, line)
    if op == 'freeze':
        v = parse_tv(c)
        return Instr(op, res, v, fl, line)
    if op in ('unreachable', 'resume', 'landingpad', 'fence'):
        return Instr(op, res, None, fl, line)
    if op in ('atomicrmw', 'cmpxchg', 'extractelement', 'insertelement', 'shufflevector', 'va_arg'):
        return Instr(op, res, None, fl, line)
    raise Unsupported('instr ' + op)


class Function:
    def __init__(self, name, header, lines):
        self.name = name
        self.header = header
        self.lines = lines
        self.blocks = None
        self.params = None

    def parse(self):
        if self.blocks is not None:
            return
        h = self.header
        # parameter list: find @name( ... )
        p = h.index(self.name + '(') + len(self.name)
        c = Cur(tokenize(h[p:].rsplit('{', 1)[0]))
        c.exp('(')
        self.params = []
        if not c.acc(')'):
            while True:
                if c.peek()[0] == 'dots':
                    c.next()
                    c.exp(')')
                    break
                t = parse_type(c)
                at = skip_attrs(c)
                n = c.next()[1]
                self.params.append((t, n, at))
                if c.acc(')'):
                    break
                c.exp(',')
        blocks = {}
        order = []
        cur = None
        first = True
        i = 0
        L = self.lines
        while i < len(L):
            l = L[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                first = False
                continue
            if first:
                cur = '%entry'
                # unnamed entry
                blocks[cur] = []
                order.append(cur)
                first = False
            # multi-line switch
            if s.startswith('switch') and s.endswith('['):
                while not L[i].strip().startswith(']'):
                    s += ' ' + L[i].strip()
                    i += 1
                s += ' ' + L[i].strip()
                i += 1
            if (' invoke ' in ' ' + s) and ' unwind ' not in s:
                s += ' ' + L[i].strip()
                i += 1
            if ' landingpad ' in ' ' + s:
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i]):
                    s += ' ' + L[i].strip()
                    i += 1
                blocks[cur].append(Instr('landingpad', s.split('=')[0].strip(), s, set(), s))
                continue
            blocks[cur].append(s)
        self.blocks = blocks
        self.entry = order[0]

    def instr(self, b, i):
        x = self.blocks[b][i]
        if isinstance(x, str):
            # drop metadata suffixes
            y = re.sub(r',\s*![\w.]+ ![\w.]+', '', x)
            x = parse_instr(y)
            self.blocks[b][i] = x
        return x


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                name = '@' + m.group(1)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = Function(name, l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.decls.add('@' + m.group(1))
            elif l.startswith('%') and ' = type ' in l:
                nm, d = l.split(' = type ', 1)
                self.types[nm] = d
            elif l.startswith('@'):
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)', l)
                self.globals[m.group(1)] = m.group(2)
            i += 1
        self._tc = {}
        self._demangle()

    def _demangle(self):
        names = [n[1:].strip('"') for n in list(self.funcs) + list(self.decls)]
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        out = p.stdout.split('\n')
        self.dem = {'@' + a: b for a, b in zip(names, out)}

    def rtype(self, t):
        while t[0] == 'named':
            if t[1] not in self._tc:
                d = self.types.get(t[1])
                if d is None or d == 'opaque':
                    raise Unsupported('opaque type ' + t[1])
                self._tc[t[1]] = parse_type(Cur(tokenize(d)))
            t = self._tc[t[1]]
        return t

    def align(self, t):
        t = self.rtype(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'f':
            return {64: 8, 32: 4, 80: 16, 16: 2, 128: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        t = self.rtype(t)
        k = t[0]
        if k == 'i':
            a = self.align(t)
            b = (t[1] + 7) // 8
            return (b + a - 1) // a * a
        if k == 'f':
            return {64: 8, 32: 4, 80: 16, 16: 2, 128: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise Unsupported('size %r' % (t,))

    def field_off(self, t, idx):
        t = self.rtype(t)
        if t[0] == 'struct':
            o = 0
            for j, x in enumerate(t[1]):
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                if j == idx:
                    return o, x
                o += self.size(x)
        if t[0] in ('arr', 'vec'):
            return idx * self.size(t[2]), t[2]
        raise Unsupported('field')
