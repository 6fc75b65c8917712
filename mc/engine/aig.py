"""And-inverter graph, bit-vector values over it, Tseitin conversion and the
call to the SAT back end (bit-blasting decision procedure for QF_BV)."""
import os
import subprocess
import tempfile
import time

FALSE = 0
TRUE = 1
MAXVS = 96


class Aig:
    def __init__(self):
        self.l = [0]
        self.r = [0]
        self.h = {}
        self.names = {}      # node -> input name
        self.nin = 0

    def inp(self, name):
        n = len(self.l)
        self.l.append(-1)
        self.r.append(-1)
        self.names[n] = name
        self.nin += 1
        return 2 * n

    def and_(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        if a == b:
            return a
        if a ^ 1 == b:
            return 0
        k = (a, b)
        h = self.h
        x = h.get(k)
        if x is not None:
            return x
        L = self.l
        R = self.r
        for p, q in ((a, b), (b, a)):
            n = p >> 1
            x, y = L[n], R[n]
            if x < 0:
                continue
            if not p & 1:
                if q == x or q == y:
                    h[k] = p
                    return p
                if q ^ 1 == x or q ^ 1 == y:
                    h[k] = 0
                    return 0
                # q and p share a deeper conjunct or contradict one
                m = q >> 1
                if not q & 1 and L[m] >= 0:
                    u, v = L[m], R[m]
                    if u ^ 1 == x or u ^ 1 == y or v ^ 1 == x or v ^ 1 == y:
                        h[k] = 0
                        return 0
            else:
                if q == x:
                    r = self.and_(q, y ^ 1)
                    h[k] = r
                    return r
                if q == y:
                    r = self.and_(q, x ^ 1)
                    h[k] = r
                    return r
                if q ^ 1 == x or q ^ 1 == y:
                    h[k] = q
                    return q
        n = len(L)
        L.append(a)
        R.append(b)
        h[k] = 2 * n
        return 2 * n

    def or_(self, a, b):
        return self.and_(a ^ 1, b ^ 1) ^ 1

    def ors(self, xs):
        xs = list(xs)
        if not xs:
            return 0
        while len(xs) > 1:
            xs = [self.or_(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
        return xs[0]

    def ands(self, xs):
        xs = list(xs)
        if not xs:
            return 1
        while len(xs) > 1:
            xs = [self.and_(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
        return xs[0]

    def xor(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        if a == 1:
            return b ^ 1
        if b == 1:
            return a ^ 1
        if a == b:
            return 0
        if a ^ 1 == b:
            return 1
        return self.or_(self.and_(a, b ^ 1), self.and_(a ^ 1, b))

    def mux(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if a == 1:
            return self.or_(c, b)
        if a == 0:
            return self.and_(c ^ 1, b)
        if b == 1:
            return self.or_(c ^ 1, a)
        if b == 0:
            return self.and_(c, a)
        if a ^ 1 == b:
            return self.xor(c, b)
        return self.or_(self.and_(c, a), self.and_(c ^ 1, b))

    # ---------------------------------------------------------------- solve
    def cone(self, roots):
        seen = set()
        st = [r >> 1 for r in roots]
        L = self.l
        R = self.r
        while st:
            n = st.pop()
            if n in seen or n == 0:
                continue
            seen.add(n)
            if L[n] >= 0:
                st.append(L[n] >> 1)
                st.append(R[n] >> 1)
        return seen

    def cnf(self, roots, f):
        """write the CNF asserting the conjunction of `roots`; returns (vars, clauses, map).
        Multiplexers and wide conjunctions get one variable each."""
        cone = sorted(self.cone(roots))
        L = self.l
        R = self.r
        fan = {}
        for n in cone:
            if L[n] >= 0:
                for x in (L[n] >> 1, R[n] >> 1):
                    fan[x] = fan.get(x, 0) + 1
        var = {}

        def v_(n):
            x = var.get(n)
            if x is None:
                x = var[n] = len(var) + 1
                if L[n] >= 0:
                    todo.append(n)
            return x

        def lit(x):
            v = v_(x >> 1)
            return -v if x & 1 else v
        todo = []
        out = []
        ncl = 0
        units = []
        # the top: conjunctions of the roots are split, disjunctions become clauses
        top = list(roots)
        while top:
            r = top.pop()
            if r == 1:
                continue
            if r == 0:
                out.append('0\n')
                ncl += 1
                continue
            n = r >> 1
            if not r & 1 and L[n] >= 0:
                top += [L[n], R[n]]
                continue
            if r & 1 and L[n] >= 0:
                # not(and ..): a clause of the negated leaves
                leaves = []
                st = [L[n], R[n]]
                while st:
                    x = st.pop()
                    m = x >> 1
                    if not x & 1 and L[m] >= 0 and fan[m] == 1:
                        st += [L[m], R[m]]
                    else:
                        leaves.append(x)
                units.append([x ^ 1 for x in leaves])
                continue
            units.append([r])
        for u in units:
            out.append(' '.join(str(lit(x)) for x in u) + ' 0\n')
            ncl += 1
        while todo:
            n = todo.pop()
            a, b = L[n], R[n]
            y = var[n]
            if a & 1 and b & 1 and L[a >> 1] >= 0 and L[b >> 1] >= 0:
                p, q = L[a >> 1], R[a >> 1]
                r, t = L[b >> 1], R[b >> 1]
                c = None
                if p ^ 1 == r:
                    c, x0, x1 = p, q, t
                elif p ^ 1 == t:
                    c, x0, x1 = p, q, r
                elif q ^ 1 == r:
                    c, x0, x1 = q, p, t
                elif q ^ 1 == t:
                    c, x0, x1 = q, p, r
                if c is not None:
                    # n = c ? not x0 : not x1
                    cl, tl, el = lit(c), lit(x0 ^ 1), lit(x1 ^ 1)
                    out.append('%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n' % (
                        -cl, -tl, y, -cl, tl, -y, cl, -el, y, cl, el, -y))
                    ncl += 4
                    if False:
                        out.append('%d %d %d 0\n%d %d %d 0\n' % (-tl, -el, y, tl, el, -y))
                        ncl += 2
                    continue
            leaves = []
            st = [a, b]
            while st:
                x = st.pop()
                m = x >> 1
                if not x & 1 and L[m] >= 0 and fan[m] == 1 and m not in var:
                    st += [L[m], R[m]]
                else:
                    leaves.append(lit(x))
            out.append(''.join('%d %d 0\n' % (-y, x) for x in leaves))
            out.append('%d %s 0\n' % (y, ' '.join(str(-x) for x in leaves)))
            ncl += len(leaves) + 1
        # number the variables in topological order
        ren = [0] * (len(var) + 1)
        for i, n in enumerate(sorted(var)):
            ren[var[n]] = i + 1
            var[n] = i + 1
        f.write('p cnf %d %d\n' % (max(1, len(var)), ncl))
        buf = []
        for c in out:
            for x in c.split():
                x = int(x)
                buf.append('0\n' if x == 0 else '%d ' % (ren[x] if x > 0 else -ren[-x]))
        f.write(''.join(buf))
        return len(var), ncl, var

    def solve(self, roots, limit=600, tmp=None, solver=None, stats=None):
        """('unsat',None) | ('sat',model: node->bool) | ('unknown',None)"""
        t0 = time.time()
        roots = [r for r in roots if r != TRUE]
        if any(r == FALSE for r in roots):
            return 'unsat', None
        solver = solver or os.environ.get('VP_SAT', 'kissat')
        fd, path = tempfile.mkstemp(suffix='.cnf', dir=tmp)
        with os.fdopen(fd, 'w') as f:
            nv, ncl, var = self.cnf(roots, f)
        tb = time.time()
        if solver == 'kissat':
            cmd = ['kissat', '-q', '--time=%d' % limit, path]
        elif solver == 'cadical':
            cmd = ['cadical', '-q', '-t', str(limit), path]
        elif solver == 'z3':
            cmd = ['z3-new', '-dimacs', '-T:%d' % limit, path]
        else:
            cmd = [solver, path]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit + 30)
            out = p.stdout
            rc = p.returncode
        except subprocess.TimeoutExpired:
            out = ''
            rc = 0
        os.unlink(path)
        if stats is not None:
            stats.update(vars=nv, clauses=ncl, cnf_s=round(tb - t0, 2), solver_s=round(time.time() - tb, 2),
                         solver=solver)
        model = None
        res = 'unknown'
        low = out.lower()
        if rc == 20 or 'unsatisfiable' in low or low.startswith('unsat'):
            res = 'unsat'
        elif rc == 10 or 's satisfiable' in low or low.startswith('sat'):
            res = 'sat'
            pos = set()
            for ln in out.split('\n'):
                if ln.startswith('v '):
                    for w in ln[2:].split():
                        w = int(w)
                        if w > 0:
                            pos.add(w)
                elif solver == 'z3' and ln and ln[0] in '-0123456789':
                    for w in ln.split():
                        w = int(w)
                        if w > 0:
                            pos.add(w)
            model = {n: (v in pos) for n, v in var.items()}
        return res, model

    def evaluator(self, model):
        """lit -> bool under the model; inputs outside the cone are False"""
        L = self.l
        R = self.r
        val = [False] * len(L)
        for n in range(1, len(L)):
            a = L[n]
            if a < 0:
                val[n] = model.get(n, False)
            else:
                b = R[n]
                val[n] = (val[a >> 1] ^ bool(a & 1)) and (val[b >> 1] ^ bool(b & 1))

        def ev(x):
            return val[x >> 1] ^ bool(x & 1)
        return ev


class BV:
    """non-constant bit-vector: bits (lsb first) and, when known, a finite
    superset of the values it can take"""
    __slots__ = ('b', 'vs')

    def __init__(self, b, vs):
        self.b = b
        self.vs = vs


class Ops:
    """operations on values: python int (constant) or BV"""

    def __init__(self, g):
        self.g = g

    def mk(self, bits, vs=None):
        w = len(bits)
        if vs is not None:
            if len(vs) == 1:
                return next(iter(vs))
            if len(vs) > MAXVS:
                vs = None
            elif len(vs) == 0:
                return 0
            else:
                al = (1 << w) - 1
                an = al
                orr = 0
                for v in vs:
                    an &= v
                    orr |= v
                bits = tuple(TRUE if an >> i & 1 else FALSE if not orr >> i & 1 else bits[i] for i in range(w))
        if all(x < 2 for x in bits):
            r = 0
            for i, x in enumerate(bits):
                if x:
                    r |= 1 << i
            return r
        if vs is not None:
            # drop values that contradict constant bits
            m = 0
            c = 0
            for i, x in enumerate(bits):
                if x < 2:
                    m |= 1 << i
                    if x:
                        c |= 1 << i
            nv = frozenset(v for v in vs if v & m == c)
            if len(nv) == 1:
                return next(iter(nv))
            if len(nv) < len(vs) and nv:
                return self.mk(bits, nv)
            vs = frozenset(vs)
        else:
            nf = [i for i, x in enumerate(bits) if x >= 2]
            if len(nf) <= 5:
                base = 0
                for i, x in enumerate(bits):
                    if x == 1:
                        base |= 1 << i
                s = set()
                for k in range(1 << len(nf)):
                    v = base
                    for j, i in enumerate(nf):
                        if k >> j & 1:
                            v |= 1 << i
                    s.add(v)
                vs = frozenset(s)
        return BV(tuple(bits), vs)

    def bits(self, v, w):
        if isinstance(v, int):
            return tuple((v >> i) & 1 for i in range(w))
        return v.b

    @staticmethod
    def vals(v):
        if isinstance(v, int):
            return (v,)
        return v.vs

    def mux(self, c, a, b, w):
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return a
        x = self.bits(a, w)
        y = self.bits(b, w)
        mx = self.g.mux
        bits = tuple(p if p == q else mx(c, p, q) for p, q in zip(x, y))
        va = self.vals(a)
        vb = self.vals(b)
        vs = None
        if va is not None and vb is not None:
            vs = frozenset(va) | frozenset(vb)
        return self.mk(bits, vs)

    def eq(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return TRUE if a == b else FALSE
        va = self.vals(a)
        vb = self.vals(b)
        if va is not None and vb is not None and not (set(va) & set(vb)):
            return FALSE
        g = self.g
        if isinstance(b, int):
            return g.ands([x if b >> i & 1 else x ^ 1 for i, x in enumerate(a.b)])
        if isinstance(a, int):
            return g.ands([x if a >> i & 1 else x ^ 1 for i, x in enumerate(b.b)])
        return g.ands([g.xor(x, y) ^ 1 for x, y in zip(a.b, b.b)])

    def _vs2(self, f, a, b):
        va = self.vals(a)
        vb = self.vals(b)
        if va is None or vb is None or len(va) * len(vb) > 2048:
            return None
        s = set()
        for x in va:
            for y in vb:
                s.add(f(x, y))
        return frozenset(s) if len(s) <= MAXVS else None

    def add_bits(self, x, y, c=FALSE):
        g = self.g
        out = []
        for p, q in zip(x, y):
            t = g.xor(p, q)
            out.append(g.xor(t, c))
            c = g.or_(g.and_(p, q), g.and_(t, c))
        return tuple(out), c

    def add(self, a, b, w):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & m
        vs = self._vs2(lambda x, y: (x + y) & m, a, b)
        if vs is not None and len(vs) == 1:
            return next(iter(vs))
        bits, _ = self.add_bits(self.bits(a, w), self.bits(b, w))
        return self.mk(bits, vs)

    def sub(self, a, b, w):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return (a - b) & m
        vs = self._vs2(lambda x, y: (x - y) & m, a, b)
        if vs is not None and len(vs) == 1:
            return next(iter(vs))
        bits, _ = self.add_bits(self.bits(a, w), tuple(x ^ 1 for x in self.bits(b, w)), TRUE)
        return self.mk(bits, vs)

    def bitop(self, op, a, b, w):
        if op == 'and':
            f = lambda x, y: x & y
            h = self.g.and_
        elif op == 'or':
            f = lambda x, y: x | y
            h = self.g.or_
        else:
            f = lambda x, y: x ^ y
            h = self.g.xor
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        vs = self._vs2(f, a, b)
        return self.mk(tuple(h(x, y) for x, y in zip(self.bits(a, w), self.bits(b, w))), vs)

    def table2(self, f, a, b, w):
        """exact result by cases over the (finite) operand values"""
        va = self.vals(a)
        vb = self.vals(b)
        if va is None or vb is None or len(va) * len(vb) > 1024:
            return None
        res = None
        for x in va:
            ex = self.eq(a, x, w)
            if ex == FALSE:
                continue
            for y in vb:
                e = self.g.and_(ex, self.eq(b, y, w))
                if e == FALSE:
                    continue
                v = f(x, y)
                res = v if res is None else self.mux(e, v, res, w)
        return 0 if res is None else res

    def shift(self, op, a, b, w):
        m = (1 << w) - 1

        def f(x, y):
            y &= (1 << 16) - 1 if y < w else y
            if y >= w:
                return 0
            if op == 'shl':
                return (x << y) & m
            if op == 'lshr':
                return x >> y
            s = x - (1 << w) if x >> (w - 1) else x
            return (s >> y) & m
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        if isinstance(b, int):
            if b >= w:
                return 0
            x = self.bits(a, w)
            if op == 'shl':
                bits = (FALSE,) * b + x[:w - b]
            elif op == 'lshr':
                bits = x[b:] + (FALSE,) * b
            else:
                bits = x[b:] + (x[-1],) * b
            return self.mk(bits, self._vs2(f, a, b))
        r = self.table2(f, a, b, w)
        if r is not None:
            return r
        vs = self._vs2(f, a, b)
        # barrel shifter
        cur = self.bits(a, w)
        bb = self.bits(b, w)
        fill = cur[-1] if op == 'ashr' else FALSE
        over = FALSE
        g = self.g
        for i in range(w):
            if (1 << i) >= w:
                over = g.or_(over, bb[i])
                continue
            k = 1 << i
            if op == 'shl':
                sh = (FALSE,) * k + cur[:w - k]
            else:
                sh = cur[k:] + (fill,) * k
            cur = tuple(g.mux(bb[i], p, q) for p, q in zip(sh, cur))
        cur = tuple(g.mux(over, fill if op == 'ashr' else FALSE, p) for p in cur)
        return self.mk(cur, vs)

    def mul(self, a, b, w):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return (a * b) & m
        if isinstance(a, int):
            a, b = b, a
        vs = self._vs2(lambda x, y: (x * y) & m, a, b)
        acc = (FALSE,) * w
        x = self.bits(a, w)
        y = self.bits(b, w)
        g = self.g
        for i in range(w):
            if y[i] == FALSE:
                continue
            part = (FALSE,) * i + tuple(g.and_(y[i], p) for p in x[:w - i])
            acc, _ = self.add_bits(acc, part)
        return self.mk(acc, vs)

    def divrem(self, op, a, b, w):
        def f(x, y):
            if y == 0:
                return 0
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0):
                q = -q
            r = sx - q * sy
            return (q if op == 'sdiv' else r) & ((1 << w) - 1)
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        if isinstance(b, int) and b and b & (b - 1) == 0 and op in ('udiv', 'urem'):
            k = b.bit_length() - 1
            return self.shift('lshr', a, k, w) if op == 'udiv' else self.bitop('and', a, b - 1, w)
        r = self.table2(f, a, b, w)
        if r is not None:
            return r
        if op in ('sdiv', 'srem'):
            raise NotImplementedError(op)
        # long division, unsigned
        g = self.g
        x = self.bits(a, w)
        y = self.bits(b, w) + (FALSE,)
        rem = (FALSE,) * (w + 1)
        q = [FALSE] * w
        for i in range(w - 1, -1, -1):
            rem = (x[i],) + rem[:w]
            d, c = self.add_bits(rem, tuple(t ^ 1 for t in y), TRUE)
            q[i] = c
            rem = tuple(g.mux(c, p, s) for p, s in zip(d, rem))
        return self.mk(tuple(q)) if op == 'udiv' else self.mk(rem[:w])

    def ult(self, a, b, w, orequal=False):
        if isinstance(a, int) and isinstance(b, int):
            return TRUE if (a <= b if orequal else a < b) else FALSE
        va = self.vals(a)
        vb = self.vals(b)
        if va is not None and vb is not None:
            if orequal:
                if max(va) <= min(vb):
                    return TRUE
                if min(va) > max(vb):
                    return FALSE
            else:
                if max(va) < min(vb):
                    return TRUE
                if min(va) >= max(vb):
                    return FALSE
        x = self.bits(a, w)
        y = self.bits(b, w)
        # a < b  iff no carry out of a + ~b + 1 ; a <= b iff carry of b + ~a + 1
        if orequal:
            return self.ult(b, a, w) ^ 1
        g = self.g
        c = TRUE
        for p, q in zip(x, y):
            nq = q ^ 1
            c = g.or_(g.and_(p, nq), g.and_(g.or_(p, nq), c))
        return c ^ 1

    def flip(self, a, w):
        """add 2^(w-1): turns signed comparison into unsigned"""
        return self.bitop('xor', a, 1 << (w - 1), w)

    def icmp(self, pred, a, b, w):
        if pred == 'eq':
            return self.eq(a, b, w)
        if pred == 'ne':
            return self.eq(a, b, w) ^ 1
        if pred[0] == 's':
            a = self.flip(a, w)
            b = self.flip(b, w)
        p = pred[1:]
        if p == 'lt':
            return self.ult(a, b, w)
        if p == 'le':
            return self.ult(a, b, w, True)
        if p == 'gt':
            return self.ult(b, a, w)
        if p == 'ge':
            return self.ult(b, a, w, True)
        raise NotImplementedError(pred)

    def slice(self, v, lo, n):
        if isinstance(v, int):
            return (v >> lo) & ((1 << n) - 1)
        vs = None
        if v.vs is not None:
            vs = frozenset((x >> lo) & ((1 << n) - 1) for x in v.vs)
        return self.mk(v.b[lo:lo + n], vs)

    def concat(self, lo, wl, hi, wh):
        if isinstance(lo, int) and isinstance(hi, int):
            return lo | hi << wl
        vs = self._vs2(lambda x, y: x | y << wl, lo, hi)
        return self.mk(self.bits(lo, wl) + self.bits(hi, wh), vs)

    def ext(self, v, w, w2, signed):
        if isinstance(v, int):
            if signed and v >> (w - 1):
                v |= ((1 << (w2 - w)) - 1) << w
            return v
        f = v.b[-1] if signed else FALSE
        vs = None
        if v.vs is not None:
            vs = frozenset((x | (((1 << (w2 - w)) - 1) << w) if signed and x >> (w - 1) else x) for x in v.vs)
        return self.mk(v.b + (f,) * (w2 - w), vs)

    def frombool(self, l):
        if l < 2:
            return l
        return BV((l,), frozenset((0, 1)))

    def tobool(self, v):
        if isinstance(v, int):
            return TRUE if v & 1 else FALSE
        return v.b[0]

    def nonzero(self, v, w):
        return self.eq(v, 0, w) ^ 1

    def fresh(self, name, w, vs=None):
        if w == 0:
            return 0
        return self.mk(tuple(self.g.inp('%s[%d]' % (name, i)) for i in range(w)), vs)
