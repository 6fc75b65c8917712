"""A parser for the subset of textual LLVM IR (LLVM 23, opaque pointers) that
optimised Rust code uses.  Anything it does not know raises IRError: the check
then reports an error rather than guessing."""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<comment>;[^\n]*)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<gname>@"[^"]*"|@[\w.$\-]+)
 | (?P<lname>%"[^"]*"|%[\w.$\-]+)
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+\-]\d+)?)?)
 | (?P<hex>0x[0-9A-Fa-fKLMHR]+)
 | (?P<id>[A-Za-z_][\w.$\-]*)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        if k not in ('ws', 'comment'):
            v = m.group()
            if k in ('gname', 'lname'):
                v = v[0] + v[2:-1] if v[1] == '"' else v
            out.append((k, v))
        i = m.end()
    return out


PTR = ('ptr',)
VOID = ('void',)


def isize(t):
    """store size in bytes"""
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8 if t[1] != 1 else 1
    if k == 'ptr':
        return 8
    if k == 'float':
        return 4
    if k == 'double':
        return 8
    if k == 'arr':
        return t[1] * allocsize(t[2])
    if k == 'vec':
        return t[1] * isize(t[2])
    if k == 'struct':
        off = 0
        for f in t[1]:
            if not t[2]:
                a = align(f)
                off = (off + a - 1) // a * a
            off += allocsize(f)
        if not t[2]:
            a = align(t)
            off = (off + a - 1) // a * a
        return off
    raise IRError('size of %r' % (t,))


def align(t):
    k = t[0]
    if k == 'i':
        b = isize(t)
        p = 1
        while p < b:
            p *= 2
        return min(p, 16)
    if k == 'ptr' or k == 'double':
        return 8
    if k == 'float':
        return 4
    if k == 'arr':
        return align(t[2])
    if k == 'vec':
        return isize(t)
    if k == 'struct':
        if t[2]:
            return 1
        return max([align(f) for f in t[1]] or [1])
    raise IRError('align of %r' % (t,))


def allocsize(t):
    s = isize(t)
    a = align(t)
    return (s + a - 1) // a * a


def field_off(t, i):
    if t[0] == 'arr':
        return i * allocsize(t[2])
    if t[0] == 'vec':
        return i * isize(t[2])
    off = 0
    for j, f in enumerate(t[1]):
        if not t[2]:
            a = align(f)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += allocsize(f)
    raise IRError('field')


PARAM_ATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'captures',
                     'sret', 'byval', 'byref', 'elementtype', 'initializes', 'memory', 'nofpclass',
                     'allocsize', 'inalloca', 'preallocated', 'dead_on_return'}
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nofree', 'readonly', 'readnone', 'writeonly', 'zeroext',
               'signext', 'inreg', 'nocapture', 'immarg', 'returned', 'writable', 'dead_on_unwind',
               'allocptr', 'allocalign', 'swiftself', 'nest', 'noext', 'inrange'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'samesign', 'fast', 'nusw'}
ORDERS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}


NAMED = {}


class P:
    """token cursor"""

    def __init__(self, toks, line=''):
        self.t = toks
        self.i = 0
        self.line = line

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError('expected %r at %r in: %s' % (v, self.peek(), self.line))

    def done(self):
        return self.i >= len(self.t)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v is None:
                raise IRError('paren: ' + self.line)
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        k, v = self.next()
        if v == 'ptr':
            if self.peek()[1] == 'addrspace':
                raise IRError('addrspace')
            return PTR
        if v == 'void':
            return VOID
        if k == 'id' and re.fullmatch(r'i\d+', v):
            return ('i', int(v[1:]))
        if v in ('float', 'double', 'label', 'metadata', 'token'):
            return (v,)
        if k == 'lname':
            if v not in NAMED:
                raise IRError('named type %r' % v)
            x = NAMED[v]
            if isinstance(x, str):
                x = NAMED[v] = ('struct', (), False) if x.strip() == 'opaque' else P(tokenize(x), x).type()
            return x
        if v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            return ('struct', tuple(fs), False)
        if v == '<' and self.peek()[1] == '{':
            self.next()
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            self.expect('>')
            return ('struct', tuple(fs), True)
        if v in ('[', '<'):
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']' if v == '[' else '>')
            return ('arr' if v == '[' else 'vec', n, t)
        raise IRError('type %r in %s' % (v, self.line))

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTRS:
                self.next()
            elif k == 'id' and v in PARAM_ATTRS_PAREN:
                self.next()
                if self.peek()[1] == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return

    def value(self, t):
        """('c',int) ('undef',) ('zero',) ('reg',name) ('g',name,off) ('agg',[(t,v)..]) ('str',bytes)
           ('expr',op,...)"""
        k, v = self.next()
        if k == 'num':
            if t[0] == 'i':
                return ('c', int(v) & ((1 << t[1]) - 1))
            raise IRError('const ' + self.line)
        if k == 'lname':
            return ('reg', v[1:])
        if k == 'gname':
            return ('g', v[1:], 0)
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null':
            return ('c', 0)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'splat' and t[0] == 'vec':
            self.expect('(')
            et = self.type()
            ev = self.value(et)
            self.expect(')')
            return ('agg', [(et, ev)] * t[1])
        if k == 'cstr':
            return ('str', unescape(v[2:-1]))
        if v == 'getelementptr':
            while self.peek()[1] in FLAGS or self.peek()[1] == 'inrange':
                if self.next()[1] == 'inrange':
                    self.skip_parens()
            self.expect('(')
            st = self.type()
            self.expect(',')
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            off = 0
            cur = st
            for n, (it, iv) in enumerate(idx):
                if iv[0] != 'c':
                    raise IRError('gep const ' + self.line)
                x = iv[1]
                if x >= 1 << (it[1] - 1):
                    x -= 1 << it[1]
                if n == 0:
                    off += x * allocsize(st)
                else:
                    off += field_off(cur, x)
                    cur = cur[2] if cur[0] in ('arr', 'vec') else cur[1][x]
            if b[0] == 'g':
                return ('g', b[1], b[2] + off)
            if b[0] == 'c':
                return ('c', b[1] + off)
            raise IRError('gep base ' + self.line)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'ptrtoaddr'):
            self.expect('(')
            ft = self.type()
            x = self.value(ft)
            self.expect('to')
            self.type()
            self.expect(')')
            return x
        if v in ('add', 'sub') and self.peek()[1] in ('(', 'nuw', 'nsw'):
            while self.peek()[1] in FLAGS:
                self.next()
            self.expect('(')
            t1 = self.type()
            a = self.value(t1)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            if a[0] == 'g' and b[0] == 'c':
                return ('g', a[1], a[2] + (b[1] if v == 'add' else -b[1]))
            if a[0] == 'c' and b[0] == 'c':
                return ('c', (a[1] + (b[1] if v == 'add' else -b[1])) & (2 ** 64 - 1))
            raise IRError('constexpr ' + self.line)
        if v in ('{', '[', '<'):
            packed = False
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                close = '}'
            el = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', el)
        raise IRError('value %r in %s' % (v, self.line))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(self, op, res, ty, a, line, **x):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a      # list of (type, value)
        self.x = x
        self.line = line

    def __repr__(self):
        return self.line.strip()


class Fn:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params      # [(type,name)]
        self.blocks = {}          # name -> [Ins]
        self.order = []


class Mod:
    def __init__(self):
        self.fns = {}
        self.decls = set()
        self.globals = {}   # name -> (type, init, const)


def parse_ins(line):
    toks = tokenize(line)
    p = P(toks, line)
    res = None
    if p.peek()[0] == 'lname' and p.peek(1)[1] == '=':
        res = p.next()[1][1:]
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()

    def finish(ins):
        # trailing ", align N", ", !meta !N" and "#N" are ignored
        return ins
    if op in BINOPS:
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return finish(Ins(op, res, t, [(t, a), (t, b)], line))
    if op == 'icmp':
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins('icmp', res, ('vec', t[1], ('i', 1)) if t[0] == 'vec' else ('i', 1), [(t, a), (t, b)], line, pred=pred)
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Ins('cast', res, t2, [(t, a)], line, kind=op)
    if op == 'freeze':
        t = p.type()
        return Ins('copy', res, t, [(t, p.value(t))], line)
    if op == 'select':
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return Ins('select', res, a[0], [c, a, b], line)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1][1:]
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Ins('phi', res, t, [], line, inc=inc)
    if op == 'alloca':
        t = p.type()
        n = 1
        al = 1
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next()[1])
            elif p.peek()[0] == 'meta':
                break
            else:
                ct, cv = p.tv()
                n = cv[1]
        return Ins('alloca', res, PTR, [], line, size=allocsize(t) * n)
    if op == 'load':
        at = p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        p.expect(',')
        pt = p.tv()
        order = None
        if at:
            order = p.next()[1]
            if order not in ORDERS:
                raise IRError(line)
        return Ins('load', res, t, [pt], line, order=order)
    if op == 'store':
        at = p.eat('atomic')
        p.eat('volatile')
        v = p.tv()
        p.expect(',')
        pt = p.tv()
        order = None
        if at:
            order = p.next()[1]
            if order not in ORDERS:
                raise IRError(line)
        return Ins('store', None, VOID, [v, pt], line, order=order)
    if op == 'cmpxchg':
        weak = p.eat('weak')
        p.eat('volatile')
        pt = p.tv()
        p.expect(',')
        c = p.tv()
        p.expect(',')
        n = p.tv()
        so = p.next()[1]
        fo = p.next()[1]
        if so not in ORDERS or fo not in ORDERS:
            raise IRError(line)
        return Ins('cmpxchg', res, ('struct', (c[0], ('i', 1)), False), [pt, c, n], line,
                   weak=weak, order=so, forder=fo)
    if op == 'atomicrmw':
        p.eat('volatile')
        f = p.next()[1]
        pt = p.tv()
        p.expect(',')
        v = p.tv()
        o = p.next()[1]
        if o not in ORDERS:
            raise IRError(line)
        return Ins('atomicrmw', res, v[0], [pt, v], line, f=f, order=o)
    if op == 'fence':
        o = p.next()[1]
        if o == 'syncscope':
            p.skip_parens()
            return Ins('nop', None, VOID, [], line)
        return Ins('fence', None, VOID, [], line, order=o)
    if op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        st = p.type()
        p.expect(',')
        b = p.tv()
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(p.tv())
        return Ins('gep', res, PTR, [b] + idx, line, st=st)
    if op == 'extractvalue':
        a = p.tv()
        path = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            path.append(int(p.next()[1]))
        t = a[0]
        for i in path:
            t = t[2] if t[0] == 'arr' else t[1][i]
        return Ins('extractvalue', res, t, [a], line, path=path)
    if op == 'insertvalue':
        a = p.tv()
        p.expect(',')
        b = p.tv()
        path = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            path.append(int(p.next()[1]))
        return Ins('insertvalue', res, a[0], [a, b], line, path=path)
    if op == 'br':
        if p.eat('label'):
            return Ins('br', None, VOID, [], line, to=[p.next()[1][1:]])
        c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()[1][1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1][1:]
        return Ins('condbr', None, VOID, [c], line, to=[a, b])
    if op == 'switch':
        c = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()[1][1:]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((v[1], p.next()[1][1:]))
        return Ins('switch', None, VOID, [c], line, to=[d] + [x[1] for x in cases], cases=cases, default=d)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Ins('ret', None, VOID, [], line)
        p.attrs()
        return Ins('ret', None, VOID, [(t, p.value(t))], line)
    if op == 'unreachable':
        return Ins('unreachable', None, VOID, [], line)
    if op == 'resume':
        return Ins('resume', None, VOID, [p.tv()], line)
    if op == 'landingpad':
        t = p.type()
        return Ins('landingpad', res, t, [], line)
    if op in ('call', 'invoke'):
        while True:
            k, v = p.peek()
            if v in ('fastcc', 'coldcc', 'ccc', 'fast', 'preserve_mostcc', 'preserve_allcc') or v in FLAGS:
                p.next()
            elif v == 'cc':
                p.next(); p.next()
            else:
                break
        p.attrs()
        t = p.type()
        if p.peek()[1] == '(':     # function type written out
            p.skip_parens()
        k, v = p.next()
        if k == 'gname':
            callee = ('g', v[1:], 0)
        elif k == 'lname':
            callee = ('reg', v[1:])
        elif v == 'asm':
            raise IRError('inline asm: ' + line)
        else:
            raise IRError('callee: ' + line)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                if p.peek()[1] == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        vv = p.next()[1]
                        if vv == '(':
                            d += 1
                        if vv == ')':
                            d -= 1
                else:
                    args.append(p.tv())
                if p.eat(')'):
                    break
                p.expect(',')
        to = None
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.expect('label')
            a = p.next()[1][1:]
            p.expect('unwind')
            p.expect('label')
            b = p.next()[1][1:]
            to = [a, b]
        return Ins(op, res, t, args, line, callee=callee, to=to)
    raise IRError('unknown instruction: ' + line)


def parse(text):
    m = Mod()
    lines = text.split('\n')
    NAMED.clear()
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            nm, body = ln.split(' = type ', 1)
            NAMED[tokenize(nm)[0][1]] = body
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('define'):
            hdr = ln
            mm = re.search(r'@("[^"]*"|[\w.$\-]+)\(', hdr)
            name = mm.group(1).strip('"')
            p = P(tokenize(hdr), hdr)
            p.next()
            # skip to return type
            while True:
                k, v = p.peek()
                if k == 'id' and v in ('internal', 'private', 'hidden', 'dso_local', 'linkonce_odr', 'weak',
                                       'weak_odr', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'coldcc',
                                       'external', 'available_externally', 'linkonce', 'protected',
                                       'dllexport', 'default'):
                    p.next()
                elif k == 'id' and (v in PARAM_ATTRS or v in PARAM_ATTRS_PAREN):
                    p.attrs()
                else:
                    break
            ret = p.type()
            p.next()
            p.expect('(')
            params = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    p.attrs()
                    k, v = p.peek()
                    if k == 'lname':
                        p.next()
                        params.append((t, v[1:]))
                    else:
                        params.append((t, str(len(params))))
                    if p.eat(')'):
                        break
                    p.expect(',')
            f = Fn(name, ret, params)
            i += 1
            cur = None
            while lines[i] != '}':
                l = lines[i]
                s = l.strip()
                if not s or s.startswith(';'):
                    i += 1
                    continue
                mm = re.match(r'^("[^"]*"|[\w.$\-]+):', l)
                if mm and not l.startswith(' '):
                    cur = mm.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                else:
                    if cur is None:
                        cur = str(len(params))
                        f.blocks[cur] = []
                        f.order.append(cur)
                    if s.startswith('switch') and not s.rstrip().endswith(']'):
                        while ']' not in lines[i].split('[')[-1]:
                            i += 1
                            l += ' ' + lines[i].strip()
                            if lines[i].strip().startswith(']'):
                                break
                    if re.match(r'\s*(%\S+ = )?(invoke|landingpad)', l):
                        # clauses continue on the following lines
                        while i + 1 < n and re.match(r'\s+(to label|cleanup|catch|filter)', lines[i + 1]):
                            i += 1
                            l += ' ' + lines[i].strip()
                    ins = parse_ins(l)
                    ins.x['site'] = i
                    f.blocks[cur].append(ins)
                i += 1
            m.fns[name] = f
        elif ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[\w.$\-]+)\(', ln)
            m.decls.add(mm.group(1).strip('"'))
        elif ln.startswith('@'):
            p = P(tokenize(ln), ln)
            name = p.next()[1][1:]
            p.expect('=')
            const = False
            ext = False
            while True:
                k, v = p.next()
                if v == 'global':
                    break
                if v == 'constant':
                    const = True
                    break
                if v in ('external', 'extern_weak'):
                    ext = True
                if v == 'thread_local':
                    if p.peek()[1] == '(':
                        p.skip_parens()
                if v == 'alias':
                    raise IRError('alias: ' + ln)
                if v is None:
                    raise IRError('global: ' + ln)
            t = p.type()
            init = ('undef',)
            if not ext:
                init = p.value(t)
            m.globals[name] = (t, init, const)
        i += 1
    return m
