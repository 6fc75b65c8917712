"""Symbolic execution of the compiled (LLVM IR) scenario under every
interleaving within a bounded number of scheduling rounds.

The threads are executed in a bounded round-robin (lazy sequentialisation): in
each round every thread runs from the point where it stopped to an arbitrary
later point, the stopping decisions being free boolean variables.  Memory is a
map from (object, offset) cells to bit-vectors over an and-inverter graph; an
address is resolved to the finite set of constants it can take.  All property
violations are collected as literals and decided by one SAT query."""
from llir import *
from aig import *
from prog import *

OBJ_SHIFT = 16
MASK64 = (1 << 64) - 1


def flat(t):
    if t[0] == 'struct':
        r = []
        for f in t[1]:
            r += flat(f)
        return r
    if t[0] in ('arr', 'vec'):
        return flat(t[2]) * t[1]
    if t == VOID:
        return []
    return [t]


def flat_offs(t, base=0):
    if t[0] == 'struct':
        r = []
        for i, f in enumerate(t[1]):
            r += flat_offs(f, base + field_off(t, i))
        return r
    if t[0] in ('arr', 'vec'):
        r = []
        for i in range(t[1]):
            r += flat_offs(t[2], base + field_off(t, i))
        return r
    if t == VOID:
        return []
    return [(t, base)]


def flat_index(t, path):
    idx = 0
    for i in path:
        if t[0] == 'struct':
            for f in t[1][:i]:
                idx += len(flat(f))
            t = t[1][i]
        else:
            idx += i * len(flat(t[2]))
            t = t[2]
    return idx, len(flat(t))


def width(t):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 64
    raise IRError('width of %r' % (t,))


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'cells', 'alive', 'msg', 'mon', 'zero', 'owner', 'local', 'const',
                 'atomic', 'thread_idx', 'symsize', 'old')

    def __init__(self, id, name, kind, size):
        self.id = id
        self.name = name
        self.kind = kind        # g(lobal) a(lloca) h(eap) t(hread) f(unction) k (task)
        self.size = size
        self.cells = {}         # off -> (size, value)
        self.alive = TRUE
        self.msg = ({}, {})     # channel -> off -> lit
        self.old = {}           # (off, size) -> [the delayed store is the last one here, value before it, message before it]
        self.mon = {}           # (off,size) -> [lit nonatomic-write, lit nonatomic-read, lit atomic-write, lit atomic-read]
        self.zero = False
        self.owner = None
        self.local = False
        self.const = False
        self.thread_idx = None
        self.symsize = None     # exact size, when it is not a constant


class Ctx:
    def __init__(self, name, tid, graph, seq):
        self.name = name
        self.tid = tid
        self.gr = graph
        self.seq = seq
        self.regs = {}
        self.at = {}
        self.done = FALSE
        self.started = False
        self.start_at = TRUE
        self.round = 0
        self.allocas = []
        self.block_pts = {}      # point -> (node, ins)
        self.acq_pend = [FALSE, FALSE]
        self.rel_fence = [FALSE, FALSE]
        self.panicked = FALSE
        self.guards = {}
        self.unw = FALSE


class Sym:
    def __init__(self, mod, scen, rounds=3, u_in=4, u_out=3, u_inv=8, u_seq=None, race=True, spurious_cas=False,
                 spurious_park=False, expect_panic=False, noalloc=False, threads=None, max_any_vs=64, order=None,
                 weak=False, uaf=True, seqb=None, clock='exact', solo=None):
        self.mod = mod
        self.scen = scen
        self.R = rounds
        self.u = (u_in, u_out, u_inv)
        self.u_seq = u_seq or max(u_in, 8)
        self.seqb = seqb or {}    # (function, loop) -> bound raised after a failed unwinding check
        self.cutlits = []
        # after the rounds one thread continues alone: 'any' (the others stopped anywhere: it must finish) or
        # 'live' (the others finished or asleep: it must finish or fall asleep)
        self.solo = solo
        self.pick = None
        self.race = race
        self.noalloc = noalloc
        self.spurious_cas = spurious_cas
        self.spurious_park = spurious_park
        self.expect_panic = expect_panic
        self.g = Aig()
        self.o = Ops(self.g)
        self.objs = {}
        self.byname = {}
        self.nobj = 0
        self.asm = TRUE
        self.viol = []           # (lit, kind, id, text, where)
        self.events = []         # (lit, tid, site, text, [(label,value,width)])
        self.asserts = {}        # id -> reach lit
        self.ghost = {}
        self.wref = {}
        self.fncache = {}
        self.clock = 0
        self.laps = []
        self.clockmode = clock
        self.stats = dict(instructions=0, points=0, nodes=0, functions=0)
        addr_taken(mod)
        names = [n for n in mod.fns if n.startswith(scen + '__')]
        self.tnames = sorted(n for n in names if n[len(scen) + 2:].startswith('t') and n[len(scen) + 3:].isdigit())
        self.has = {n[len(scen) + 2:]: n for n in names}
        if not self.tnames and 'setup' not in self.has:
            raise IRError('no such scenario: ' + scen)
        self.nt = len(self.tnames)
        self.order = order
        # happens-before monitor
        # happens-before is tracked for two events, each chosen freely: channel 0, an access that a later one
        # conflicts with; channel 1, an atomic store that other threads need not see until it happens before them
        self.weak = weak
        self.chan = [i for i, on in enumerate((race, weak)) if on]
        self.notyet = TRUE
        self.nodelay = TRUE
        self.stale = FALSE
        self.known = ({}, {})
        self.sc = [FALSE, FALSE]
        self.cuts = 0
        self.nundef = 0
        self.undef_bit = None
        self.ispoint = None
        self.picks = []

    # -------------------------------------------------------------- objects
    def newobj(self, name, kind, size):
        self.nobj += 1
        if size >= 1 << OBJ_SHIFT:
            raise IRError('object too large: %s %d' % (name, size))
        o = Obj(self.nobj, name, kind, size)
        self.objs[o.id] = o
        return o

    def addr(self, o, off=0):
        return ((o.id << OBJ_SHIFT) + off) & MASK64

    def gobj(self, name):
        o = self.byname.get(name)
        if o is not None:
            return o
        if name in self.mod.globals:
            t, init, const = self.mod.globals[name]
            o = self.newobj(name, 'g', allocsize(t))
            o.const = const
            self.byname[name] = o
            if init[0] == 'undef' and 'GLOBAL_PANIC_COUNT' in name:
                init = ('zero',)
            self.initval(o, t, init, 0)
            return o
        o = self.newobj(name, 'f', 1)
        self.byname[name] = o
        return o

    def initval(self, o, t, v, off):
        if v[0] == 'agg':
            if t[0] == 'struct':
                for i, (et, ev) in enumerate(v[1]):
                    self.initval(o, et, ev, off + field_off(t, i))
            else:
                for i, (et, ev) in enumerate(v[1]):
                    self.initval(o, et, ev, off + i * allocsize(et))
        elif v[0] == 'str':
            s = v[1]
            i = 0
            while i < len(s):
                n = 8 if (off + i) % 8 == 0 and i + 8 <= len(s) else 1
                o.cells[off + i] = (n, int.from_bytes(s[i:i + n], 'little'))
                i += n
        elif v[0] == 'zero':
            sz = allocsize(t)
            i = 0
            while i < sz:
                n = 8 if (off + i) % 8 == 0 and i + 8 <= sz else 1
                o.cells[off + i] = (n, 0)
                i += n
        elif v[0] == 'undef':
            pass
        elif v[0] == 'c':
            o.cells[off] = (isize(t), v[1])
        elif v[0] == 'g':
            o.cells[off] = (8, self.addr(self.gobj(v[1]), v[2]))
        else:
            raise IRError('initializer %r' % (v,))

    # --------------------------------------------------------------- memory
    def split(self, o, at):
        """make `at` a cell boundary"""
        if at in o.cells:
            return
        for off, (n, v) in o.cells.items():
            if off < at < off + n:
                lo = self.o.slice(v, 0, 8 * (at - off))
                hi = self.o.slice(v, 8 * (at - off), 8 * (off + n - at))
                o.cells[off] = (at - off, lo)
                o.cells[at] = (off + n - at, hi)
                return

    def region(self, o, off, n):
        """cells exactly covering [off,off+n), creating uninitialised ones"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return [(off, n)]
        self.split(o, off)
        self.split(o, off + n)
        out = []
        p = off
        ks = sorted(k for k in o.cells if off <= k < off + n)
        for k in ks + [off + n]:
            if k > p:
                # gap
                if o.zero:
                    o.cells[p] = (k - p, 0)
                else:
                    # uninitialised memory: all zero or the pattern 0xA5, chosen freely
                    self.nundef += 1
                    if self.undef_bit is None:
                        self.undef_bit = self.g.inp('undef')
                    bit = self.undef_bit
                    pat = int.from_bytes(bytes([0xA5]) * (k - p), 'little')
                    o.cells[p] = (k - p, self.o.mux(bit, pat, 0, 8 * (k - p)))
                out.append((p, k - p))
            if k < off + n:
                out.append((k, o.cells[k][0]))
                p = k + o.cells[k][0]
        return out

    def rd(self, o, off, n):
        rs = self.region(o, off, n)
        v = o.cells[rs[0][0]][1]
        w = rs[0][1]
        for (p, s) in rs[1:]:
            v = self.o.concat(v, 8 * w, o.cells[p][1], 8 * s)
            w += s
        return v

    def wr(self, o, off, n, v, cond):
        if cond == FALSE:
            return
        for (p, s), e in o.old.items():
            if p < off + n and off < p + s:
                e[0] = self.g.and_(e[0], cond ^ 1)
        rs = self.region(o, off, n) if cond != TRUE else None
        if cond == TRUE:
            self.split(o, off)
            self.split(o, off + n)
            ks = sorted(k for k in o.cells if off <= k < off + n)
            if len(ks) > 1 and sum(o.cells[k][0] for k in ks) == n:
                rs = [(k, o.cells[k][0]) for k in ks]
            else:
                for k in ks:
                    del o.cells[k]
                o.cells[off] = (n, v)
                return
        for (p, s) in rs:
            part = v if len(rs) == 1 else self.o.slice(v, 8 * (p - off), 8 * s)
            o.cells[p] = (s, self.o.mux(cond, part, o.cells[p][1], 8 * s))

    def resolve(self, a, n, guard, ctx, ins, what):
        """[(obj, off, cond)] for an access of n bytes; anything else is reported"""
        vs = self.o.vals(a)
        if vs is None:
            self.report(guard, 'wild', 0, 'access through an indeterminate pointer', ctx, ins)
            return []
        out = []
        miss = guard
        for v in sorted(vs):
            e = self.o.eq(a, v, 64)
            c = self.g.and_(guard, e)
            if c == FALSE:
                continue
            o = self.objs.get(v >> OBJ_SHIFT)
            off = v & ((1 << OBJ_SHIFT) - 1)
            if o is None or off + n > o.size or o.kind == 'f':
                self.report(c, 'wild', 0, 'access outside any object (address 0x%x)' % v, ctx, ins)
                continue
            if o.symsize is not None:
                oob = self.o.ult(o.symsize, off + n, 64)
                self.report(self.g.and_(c, oob), 'wild', 0, 'access outside %s' % o.name, ctx, ins)
            if o.const and what == 'write':
                self.report(c, 'wild', 0, 'write to constant', ctx, ins)
                continue
            if o.alive != TRUE:
                d = self.g.and_(c, o.alive ^ 1)
                if d != FALSE:
                    self.report(d, 'uaf', 0, 'access to %s after its lifetime ended' % o.name, ctx, ins)
            out.append((o, off, e if len(vs) > 1 else TRUE))
        return out

    # ------------------------------------------------------------- reporting
    def report(self, lit, kind, id, text, ctx, ins):
        l = self.g.and_(self.asm, lit)
        if l == FALSE:
            return
        self.viol.append((l, kind, id, text, ctx.name if ctx else '', ins.line.strip() if ins else ''))

    def event(self, lit, ctx, ins, text, vals=()):
        if lit != FALSE:
            self.events.append((lit, ctx.tid, ins, text, list(vals), ctx.name, self.ispoint))

    # ------------------------------------------------------------------- hb
    def hb_access(self, ctx, cands, n, g, write, atomic, ins):
        if not self.race or ctx.seq or g == FALSE:
            return
        G = self.g
        t = ctx.tid
        kn = self.known[0].get(t, FALSE)
        sh = [(o, off, c) for (o, off, c) in cands if not o.local and not o.const and o.kind != 't']
        if not sh:
            return
        bad = []
        for o, off, c in sh:
            for (mo, ms), m in o.mon.items():
                if mo < off + n and off < mo + ms:
                    for tid, (wn, rn, wa, ra) in m.items():
                        if tid == t:
                            continue
                        x = wn
                        if write:
                            x = G.or_(x, rn)
                        if not atomic:
                            x = G.or_(x, wa)
                            if write:
                                x = G.or_(x, ra)
                        if x != FALSE:
                            bad.append(G.and_(c, x))
        if bad:
            b = G.ands([g, G.ors(bad), kn ^ 1])
            self.report(b, 'race', 0, 'data race: unsynchronised conflicting access', ctx, ins)
        pick = G.ands([g, self.notyet, G.inp('mon')])
        self.picks.append((pick, ctx.tid, ins))
        self.notyet = G.and_(self.notyet, pick ^ 1)
        self.known[0][t] = G.or_(kn, pick)
        idx = (0 if write else 1) + (2 if atomic else 0)
        for o, off, c in sh:
            m = o.mon.setdefault((off, n), {}).setdefault(t, [FALSE] * 4)
            m[idx] = G.or_(m[idx], G.and_(pick, c))

    def hb_load(self, ctx, cands, g, order, stale=None):
        """stale: the candidates whose value before the delayed store is read instead"""
        if not self.chan or ctx.seq:
            return
        G = self.g
        for ch in self.chan:
            ms = []
            for o, off, c in cands:
                x = o.msg[ch].get(off, FALSE)
                if stale and (o, off) in stale:
                    l, ent = stale[o, off]
                    x = G.mux(l, ent[2] if ch == 0 else FALSE, x)
                ms.append(G.and_(c, x))
            m = G.and_(g, G.ors(ms))
            if m == FALSE:
                continue
            if order in ('acquire', 'acq_rel', 'seq_cst'):
                self.known[ch][ctx.tid] = G.or_(self.known[ch].get(ctx.tid, FALSE), m)
            else:
                ctx.acq_pend[ch] = G.or_(ctx.acq_pend[ch], m)

    def hb_store(self, ctx, cands, g, order, rmw):
        if not self.chan or ctx.seq:
            return
        G = self.g
        for ch in self.chan:
            rel = self.known[ch].get(ctx.tid, FALSE) if order in ('release', 'acq_rel', 'seq_cst') else ctx.rel_fence[ch]
            for o, off, c in cands:
                w = G.and_(g, c)
                old = o.msg[ch].get(off, FALSE)
                new = G.or_(old, rel) if rmw else rel
                o.msg[ch][off] = G.mux(w, new, old)

    # A store may stay invisible to a thread for as long as the memory model allows: reads of that thread may return
    # the value before it unless the store, or a read of it, happens before them (or both are sequentially consistent,
    # or fences order them). One such store per execution, chosen freely; any number of reads.
    def weak_old(self, cs, n):
        """before a store: what is there now"""
        if not self.weak:
            return None
        return [(self.rd(o, off, n), o.msg[0].get(off, FALSE)) for o, off, c in cs]

    def weak_store(self, ctx, cs, n, g, order, before):
        """an atomic store, before its message is set"""
        if not self.weak or ctx.seq or g == FALSE:
            return FALSE
        G = self.g
        sh = [(i, o, off, c) for i, (o, off, c) in enumerate(cs) if not o.local and not o.const and o.kind not in 'tk']
        if not sh:
            return FALSE
        pick = G.ands([g, self.nodelay, G.inp('delay'), G.ors([c for _, _, _, c in sh])])
        self.nodelay = G.and_(self.nodelay, pick ^ 1)
        t = ctx.tid
        self.known[1][t] = G.or_(self.known[1].get(t, FALSE), pick)
        if order == 'seq_cst':
            self.sc[1] = G.or_(self.sc[1], pick)
        for i, o, off, c in sh:
            e = o.old.get((off, n))
            p = G.and_(pick, c)
            if e is None:
                o.old[off, n] = [p, before[i][0], before[i][1]]
            else:
                e[1] = self.o.mux(p, before[i][0], e[1], 8 * n)
                e[2] = G.mux(p, before[i][1], e[2])
                e[0] = G.or_(e[0], p)
        return pick

    def weak_seen(self, ctx, cs, n, g):
        if not self.weak or ctx.seq:
            return
        G = self.g
        s = [G.ands([g, c, o.old[off, n][0]]) for o, off, c in cs if (off, n) in o.old]
        if s:
            self.known[1][ctx.tid] = G.or_(self.known[1].get(ctx.tid, FALSE), G.ors(s))

    def weak_load(self, ctx, cs, n, g, order, w, val, ne=None):
        """an atomic read: (value, {candidate: (read the old value, entry)}, some old value is read)"""
        if not self.weak or ctx.seq:
            return val, None, FALSE
        G = self.g
        t = ctx.tid
        st = {}
        sees = []
        any_ = []
        vis = self.known[1].get(t, FALSE)
        ok = G.and_(g, vis ^ 1)
        if order == 'seq_cst':
            ok = G.and_(ok, self.sc[1] ^ 1)
        choice = None
        for o, off, c in cs:
            e = o.old.get((off, n))
            if e is None or e[0] == FALSE:
                continue
            old = self.o.slice(e[1], 0, w) if w < 8 * n else e[1]
            can = G.ands([ok, c, e[0]])
            if ne is not None:
                can = G.and_(can, self.o.eq(old, ne, w) ^ 1)
            if can != FALSE:
                if choice is None:
                    choice = G.inp('stale')
                l = G.and_(can, choice)
                st[o, off] = (l, list(e))
                any_.append(l)
                val = self.o.mux(l, old, val, w)
            else:
                l = FALSE
            sees.append(G.ands([g, c, e[0], l ^ 1]))
        # having seen the store, the thread cannot go back
        if sees:
            self.known[1][t] = G.or_(vis, G.ors(sees))
        x = G.ors(any_)
        self.stale = G.or_(self.stale, x)
        return val, st, x

    # -------------------------------------------------------------- operands
    def val(self, ctx, node, t, v):
        """flattened list of component values"""
        k = v[0]
        if k == 'reg':
            dn = ctx.gr.defnode(node, v[1])
            r = ctx.regs.get((dn, v[1]))
            if r is None:
                # not yet executed under any feasible guard
                return [0] * len(flat(t))
            return r
        if k == 'c':
            return [v[1] & MASK64 if t[0] == 'ptr' else v[1]]
        if k == 'g':
            return [self.addr(self.gobj(v[1]), v[2]) & ((1 << width(t)) - 1)]
        if k in ('undef', 'zero'):
            return [0] * len(flat(t))
        if k == 'agg':
            r = []
            for et, ev in v[1]:
                r += self.val(ctx, node, et, ev)
            return r
        raise IRError('operand %r' % (v,))

    def v1(self, ctx, node, tv):
        return self.val(ctx, node, *tv)[0]

    def setreg(self, ctx, node, ins, g, comps):
        if ins.res is None:
            return
        key = (node, ins.res)
        old = ctx.regs.get(key)
        if old is not None and old is not comps:
            ts = flat(ins.ty)
            comps = [self.o.mux(g, n, p, width(t)) for n, p, t in zip(comps, old, ts)]
        ctx.regs[key] = comps

    # --------------------------------------------------------------- running
    def graph(self, name, seq):
        import copy
        f = self.mod.fns[name]
        if name not in self.fncache:
            inline_calls(self.mod, f)
            self.fncache[name] = f
        ui, uo, uv = self.u

        def bounds(l):
            if seq:
                d = 2 if l.visible and not l.outer else self.u_seq
                return self.seqb.get((name, l.head), d)
            d = uv if not l.visible else uo if l.outer else ui
            return self.seqb.get((name, l.head), d)
        gr = Graph(f, bounds, None if seq else self.seqb.get((name, None), uo - 1))
        self.stats['functions'] += 1
        self.stats['nodes'] += len(gr.order)
        return gr

    def thread_obj(self, tid):
        nm = 'thread%s' % tid
        o = self.byname.get(nm)
        if o is None:
            o = self.newobj(nm, 't', 64)
            for off in range(0, 64, 8):
                o.cells[off] = (8, (tid if isinstance(tid, int) else 90) + 1)
            o.cells[0] = (8, 100)
            o.cells[40] = (4, 0)
            o.cells[44] = (4, 0)
            o.thread_idx = tid
            self.byname[nm] = o
        return o

    def task_obj(self, i):
        nm = 'task%d' % i
        o = self.byname.get(nm)
        if o is None:
            o = self.newobj(nm, 'k', 8)
            o.cells[0] = (1, 0)
            self.byname[nm] = o
        return o

    def run(self):
        if 'setup' in self.has:
            c = Ctx('setup', 'm', self.graph(self.has['setup'], True), True)
            self.exec(c, 0, TRUE, True)
        self.ctxs = [Ctx('t%d' % i, i, self.graph(n, False), False) for i, n in enumerate(self.tnames)]
        for r in range(self.R):
            seq = self.order[r] if self.order else range(self.nt)
            for i in seq:
                c = self.ctxs[i]
                c.round = r
                st = self.g.inp('start_%d_%d' % (i, r))
                entry = self.g.and_(c.start_at, st)
                if entry != FALSE:
                    self.events.append((entry, i, None, 'start', [], c.name, True))
                c.start_at = self.g.and_(c.start_at, st ^ 1)
                self.exec(c, r, entry, False)
        if self.solo:
            self.run_solo()
        # everybody finished / stuck
        G = self.g
        alldone = G.ands([c.done for c in self.ctxs])
        self.alldone = G.and_(self.asm, alldone)
        blocked = [self.asleep(c) for c in self.ctxs]
        if self.nt:
            stuck = G.ands([G.or_(c.done, b) for c, b in zip(self.ctxs, blocked)])
            stuck = G.and_(stuck, alldone ^ 1)
            self.stuck = stuck
            self.report(stuck, 'deadlock', 0, 'every unfinished thread waits for a wake-up that never comes', None, None)
        self.blocked = blocked
        if 'fin' in self.has:
            c = Ctx('fin', 'm', self.graph(self.has['fin'], True), True)
            self.exec(c, 0, alldone, True)
            self.fin = c
        if 'probe' in self.has:
            c = Ctx('probe', 'm', self.graph(self.has['probe'], True), True)
            self.exec(c, 0, TRUE, True)
            self.probe = c

    def asleep(self, c):
        """the thread is at a blocking operation that is not enabled"""
        G = self.g
        b = []
        for k, (node, ins) in c.block_pts.items():
            a = c.at.get(k, FALSE)
            if a == FALSE:
                continue
            en = self.enabled(c, node, ins)
            b.append(G.and_(a, en ^ 1))
        return G.ors(b)

    def run_solo(self):
        G = self.g
        picks = [G.inp('solo_%d' % i) for i in range(self.nt)]
        ok = [G.or_(c.done, self.asleep(c)) for c in self.ctxs]
        taken = FALSE
        for i, c in enumerate(self.ctxs):
            p = G.and_(picks[i], taken ^ 1)
            p = G.and_(p, c.done ^ 1)
            if self.solo == 'live':
                p = G.ands([p] + [ok[j] for j in range(self.nt) if j != i])
            taken = G.or_(taken, p)
            if p == FALSE:
                continue
            self.pick = p
            c.round = self.R
            entry = G.and_(c.start_at, p)
            if entry != FALSE:
                self.events.append((entry, i, None, 'start', [], c.name, True))
            c.start_at = G.and_(c.start_at, p ^ 1)
            self.events.append((p, i, None, 'alone', [], c.name, None))
            self.exec(c, self.R, entry, False)
            if self.solo == 'any':
                self.report(G.and_(p, self.asleep(c)), 'hang', 0, 'a non-blocking operation sleeps', c, None)
        self.pick = None

    def exec(self, ctx, rnd, entry, first):
        G = self.g
        gr = ctx.gr
        f = gr.f
        ein = {}        # node -> [(pred, idx, lit)]
        if entry != FALSE:
            ein[gr.entry] = [(None, 0, entry)]
        at = ctx.at
        for node in gr.order:
            b = node[0]
            inc = ein.pop(node, None)
            if inc:
                g = G.ors([l for _, _, l in inc])
            else:
                g = FALSE
                if not any((node, i) in at for i in self.ptidx(f, b)):
                    continue
            blk = f.blocks[b]
            # phis: simultaneous
            i = 0
            ph = []
            while i < len(blk) and blk[i].op == 'phi':
                if g != FALSE:
                    ph.append((blk[i], self.phi(ctx, node, blk[i], inc)))
                i += 1
            for ins, v in ph:
                self.setreg(ctx, node, ins, g, v)
            n = len(blk)
            while i < n:
                ins = blk[i]
                if maybe_visible(ins):
                    g = self.visible(ctx, node, i, ins, g)
                elif g != FALSE:
                    if i == n - 1:
                        self.terminator(ctx, node, ins, g, ein)
                    else:
                        g = self.step(ctx, node, ins, g)
                    self.stats['instructions'] += 1
                i += 1

    def ptidx(self, f, b):
        c = f.__dict__.setdefault('ptidx', {})
        r = c.get(b)
        if r is None:
            r = c[b] = [i for i, ins in enumerate(f.blocks[b]) if maybe_visible(ins)]
        return r

    def phi(self, ctx, node, ins, inc):
        ts = flat(ins.ty)
        src = dict()
        for v, b in ins.x['inc']:
            src[b] = v
        res = None
        for (p, idx, l) in inc:
            if l == FALSE:
                continue
            v = self.val(ctx, p, ins.ty, src[p[0]])
            if res is None:
                res = v
            else:
                res = [self.o.mux(l, x, y, width(t)) for x, y, t in zip(v, res, ts)]
        return res

    def terminator(self, ctx, node, ins, g, ein):
        G = self.g
        op = ins.op
        if op == 'ret':
            ctx.done = G.or_(ctx.done, g)
            for o in ctx.allocas:
                o.alive = G.and_(o.alive, g ^ 1)
            return
        if op == 'unreachable':
            prev = ctx.gr.f.blocks[node[0]]
            if not (len(prev) > 1 and prev[-2].op in ('call', 'badcall', 'cut') and
                    (prev[-2].op != 'call' or prev[-2].x['callee'][1] == 'vp_panic')):
                self.report(g, 'ub', 0, 'undefined behaviour: unreachable code reached', ctx, ins)
            return
        if op == 'resume':
            raise IRError('resume')
        edges = ctx.gr.edges[node]
        conds = []
        if op == 'br':
            conds = [g]
        elif op == 'condbr':
            c = self.o.tobool(self.v1(ctx, node, ins.a[0]))
            conds = [G.and_(g, c), G.and_(g, c ^ 1)]
        elif op in ('switch', 'fswitch'):
            v = self.v1(ctx, node, ins.a[0])
            w = width(ins.a[0][0])
            es = []
            rest = g
            for cv, _ in ins.x['cases']:
                if op == 'fswitch':
                    cv = self.addr(self.gobj(cv[1]))
                e = self.o.eq(v, cv, w)
                es.append(G.and_(g, e))
                rest = G.and_(rest, e ^ 1)
            conds = [rest] + es
        elif op == 'invoke':
            raise IRError('invoke')
        for (m, idx) in edges:
            l = conds[idx]
            if l == FALSE:
                continue
            if m is None:
                self.cuts += 1
                if self.pick is not None:
                    head = succs(ins)[idx]
                    self.cutlits.append((G.and_(self.asm, l), (ctx.gr.f.name, head), ctx.gr.bnd[head]))
                    self.report(l, 'hang', 0, 'a thread running alone does not finish (%s)' % ctx.name, ctx, ins)
                if ctx.seq:
                    head = succs(ins)[idx]
                    self.cutlits.append((G.and_(self.asm, l), (ctx.gr.f.name, head), ctx.gr.bnd[head]))
                    self.report(l, 'unwind', 0, 'loop does not finish within the bound (%s)' % ctx.name, ctx, ins)
                self.asm = G.and_(self.asm, l ^ 1)
                continue
            ein.setdefault(m, []).append((node, idx, l))

    # ------------------------------------------------------- visible actions
    def point(self, ctx, k, g, enabled, ins, blocking=False):
        G = self.g
        reach = G.or_(g, ctx.at.get(k, FALSE))
        if reach == FALSE:
            return FALSE
        self.stats['points'] += 1
        if ctx.seq:
            if enabled != TRUE:
                self.report(G.and_(reach, enabled ^ 1), 'deadlock', 0, 'sequential code blocks', ctx, ins)
            return G.and_(reach, enabled)
        if blocking:
            ctx.block_pts[k] = (k[0], ins)
        stop = G.inp('stop') if self.pick is None else self.pick ^ 1
        go = G.ands([reach, stop ^ 1, enabled])
        ctx.at[k] = G.and_(reach, go ^ 1)
        return go

    def enabled(self, ctx, node, ins):
        kd = kind_of(ins.x['callee'][1])
        if kd == 'lock_slow':
            v = self.peek(self.v1(ctx, node, ins.a[0]), 1)
            return self.o.bits(v, 8)[0] ^ 1
        if kd == 'park':
            if self.spurious_park:
                return TRUE
            o = self.thread_obj(ctx.tid)
            return self.o.eq(self.rd(o, 40, 4), 1, 32)
        if kd == 'vp_wait':
            o = self.task_obj(self.cint(self.v1(ctx, node, ins.a[0])))
            return self.o.bits(self.rd(o, 0, 1), 8)[0]
        return TRUE

    def cint(self, v):
        if not isinstance(v, int):
            raise IRError('constant expected')
        return v

    def peek(self, a, n):
        res = 0
        for v in sorted(self.o.vals(a) or ()):
            o = self.objs.get(v >> OBJ_SHIFT)
            off = v & ((1 << OBJ_SHIFT) - 1)
            if o is None or off + n > o.size:
                continue
            res = self.o.mux(self.o.eq(a, v, 64), self.rd(o, off, n), res, 8 * n)
        return res

    def visible(self, ctx, node, i, ins, g):
        k = (node, i)
        if g == FALSE and ctx.at.get(k, FALSE) == FALSE:
            return FALSE
        op = ins.op
        G = self.g
        self.stats['instructions'] += 1
        if op in ('call', 'invoke'):
            kd = kind_of(ins.x['callee'][1])
            en = self.enabled(ctx, node, ins)
            go = self.point(ctx, k, g, en, ins, kd in ('lock_slow', 'park', 'vp_wait'))
            if go == FALSE:
                return FALSE
            self.ispoint = True
            self.vcall(ctx, node, ins, go, kd)
            self.ispoint = None
            return go
        pv = {'load': 0, 'store': 1, 'cmpxchg': 0, 'atomicrmw': 0}[op]
        a = self.v1(ctx, node, ins.a[pv])
        vs = self.o.vals(a)
        if vs is not None and all((self.objs.get(v >> OBJ_SHIFT) is not None and
                                   (self.objs[v >> OBJ_SHIFT].local or
                                    (self.objs[v >> OBJ_SHIFT].kind == 't' and v & 0xffff == 0)
                                    or self.objs[v >> OBJ_SHIFT].const or
                                    'GLOBAL_PANIC_COUNT' in self.objs[v >> OBJ_SHIFT].name)) for v in vs) \
                and ctx.at.get(k, FALSE) == FALSE:
            go = g
            self.ispoint = False
        else:
            go = self.point(ctx, k, g, TRUE, ins)
            self.ispoint = True
        if go == FALSE:
            self.ispoint = None
            return FALSE
        go = self.step(ctx, node, ins, go)
        self.ispoint = None
        return go

    def vcall(self, ctx, node, ins, go, kd):
        G = self.g
        if kd == 'lock_slow':
            a = self.v1(ctx, node, ins.a[0])
            cs = self.resolve(a, 1, go, ctx, ins, 'write')
            self.event(go, ctx, ins, 'lock', [('addr', a, 64)])
            for o, off, c in cs:
                v = self.rd(o, off, 1)
                self.wr(o, off, 1, self.o.bitop('or', v, 1, 8), G.and_(go, c))
            self.hb_access(ctx, cs, 1, go, True, True, ins)
            self.hb_load(ctx, cs, go, 'acquire')
            self.hb_store(ctx, cs, go, 'monotonic', True)
        elif kd in ('park', 'park_timeout'):
            o = self.thread_obj(ctx.tid)
            self.event(go, ctx, ins, kd, [('token', self.rd(o, 40, 4), 32)])
            if kd == 'park_timeout':
                self.park_timeout(ctx, node, ins, go, o)
            self.wr(o, 40, 4, 0, go)
            self.hb_load(ctx, [(o, 40, TRUE)], go, 'acquire')
            self.hb_store(ctx, [(o, 40, TRUE)], go, 'monotonic', True)
        elif kd == 'vp_wait':
            i = self.cint(self.v1(ctx, node, ins.a[0]))
            o = self.task_obj(i)
            self.event(go, ctx, ins, 'wait task %d' % i)
            self.wr(o, 0, 1, 0, go)
            self.hb_load(ctx, [(o, 0, TRUE)], go, 'acquire')
            self.hb_store(ctx, [(o, 0, TRUE)], go, 'monotonic', True)
        elif kd == 'vp_wake':
            v = self.v1(ctx, node, ins.a[0])
            self.event(go, ctx, ins, 'wake', [('task', v, 64)])
            for x in sorted(self.o.vals(v) or ()):
                o = self.task_obj(x)
                c = self.o.eq(v, x, 64)
                w = G.and_(go, c)
                if w == FALSE:
                    continue
                r = self.wref.get(x, 0)
                self.report(G.and_(w, self.o.eq(r, 0, 8)), 'waker', 0, 'wake through a waker already released', ctx, ins)
                self.wr(o, 0, 1, 1, w)
                self.hb_store(ctx, [(o, 0, c)], go, 'release', True)
        elif kd == 'vp_yield':
            self.event(go, ctx, ins, 'yield')

    def park_timeout(self, ctx, node, ins, go, o):
        """park_timeout returns when the token is there, when the time has
        passed, or (if spurious wake-ups are enabled) at any moment. Clock mode
        'exact': time passes only here, and a wait that runs out takes exactly
        the time asked for; 'prompt': as 'exact', and a thread whose token is
        there returns at once; 'tick': waits may take longer and time also
        passes between instructions."""
        G = self.g
        # in half seconds, rounded up
        ns = self.v1(ctx, node, ins.a[1])
        half = G.and_(self.o.ult(0, ns, 32), self.o.ult(ns, 500000000, 32, True))
        more = self.o.ult(500000000, ns, 32)
        dur = self.o.add(self.v1(ctx, node, ins.a[0]), self.v1(ctx, node, ins.a[0]), 64)
        big = self.o.ult((1 << 62) - 1, self.v1(ctx, node, ins.a[0]), 64)
        dur = self.o.mux(big, 1 << 63, dur, 64)
        dur = self.o.add(dur, self.o.mux(more, 2, self.o.mux(half, 1, 0, 64), 64), 64)
        tok = self.o.eq(self.rd(o, 40, 4), 1, 32)
        early = TRUE if self.spurious_park else tok
        el = self.o.ext(self.o.fresh('adv', 3), 3, 64, False)
        if self.clockmode == 'exact':
            le = self.o.ult(el, dur, 64, True)
            ok = G.and_(le, G.or_(early, self.o.eq(el, dur, 64)))
        elif self.clockmode == 'prompt':
            ok = self.o.eq(el, self.o.mux(tok, 0, dur, 64), 64)
        else:
            ok = G.or_(early, self.o.ult(dur, el, 64, True))
        self.asm = G.and_(self.asm, G.or_(go ^ 1, ok))
        self.clock = self.o.mux(go, self.o.add(self.clock, el, 64), self.clock, 64)

    # -------------------------------------------------------------- stepping
    def step(self, ctx, node, ins, g):
        """execute one instruction under guard g; returns the guard afterwards"""
        op = ins.op
        o = self.o
        G = self.g
        a = ins.a
        if op in ('icmp', 'cast', 'select') or op in BINOPS:
            if a[0][0][0] == 'vec' or (op == 'cast' and ins.ty[0] == 'vec'):
                self.setreg(ctx, node, ins, g, self.lanes(ctx, node, ins))
                return g
        if op in BINOPS:
            x = self.v1(ctx, node, a[0])
            y = self.v1(ctx, node, a[1])
            w = width(ins.ty)
            if op == 'add':
                r = o.add(x, y, w)
            elif op == 'sub':
                r = o.sub(x, y, w)
            elif op in ('and', 'or', 'xor'):
                r = o.bitop(op, x, y, w)
            elif op in ('shl', 'lshr', 'ashr'):
                r = o.shift(op, x, y, w)
            elif op == 'mul':
                r = o.mul(x, y, w)
            else:
                z = o.eq(y, 0, w)
                if z != FALSE:
                    self.report(G.and_(g, z), 'ub', 0, 'division by zero', ctx, ins)
                r = o.divrem(op, x, y, w)
            self.setreg(ctx, node, ins, g, [r])
        elif op == 'icmp':
            w = width(a[0][0])
            r = o.icmp(ins.x['pred'], self.v1(ctx, node, a[0]), self.v1(ctx, node, a[1]), w)
            self.setreg(ctx, node, ins, g, [o.frombool(r)])
        elif op == 'cast':
            v = self.v1(ctx, node, a[0])
            kd = ins.x['kind']
            w1 = width(a[0][0])
            w2 = width(ins.ty)
            if kd == 'trunc' or (kd in ('ptrtoint', 'inttoptr') and w2 < w1):
                v = o.slice(v, 0, w2)
            elif w2 > w1:
                v = o.ext(v, w1, w2, kd == 'sext')
            self.setreg(ctx, node, ins, g, [v])
        elif op == 'copy':
            self.setreg(ctx, node, ins, g, self.val(ctx, node, *a[0]))
        elif op == 'select':
            c = self.val(ctx, node, *a[0])
            cb = o.tobool(c[0])
            x = self.val(ctx, node, *a[1])
            y = self.val(ctx, node, *a[2])
            self.setreg(ctx, node, ins, g, [o.mux(cb, p, q, width(t)) for p, q, t in zip(x, y, flat(ins.ty))])
        elif op == 'alloca':
            key = (node, ins.res)
            if key not in ctx.regs:
                ob = self.newobj('%s:%%%s' % (ctx.name, ins.res), 'a', ins.x['size'])
                ob.owner = ctx.tid
                ob.local = not self.escapes(ctx.gr.f, ins.res)
                ctx.allocas.append(ob)
                ctx.regs[key] = [self.addr(ob)]
        elif op == 'gep':
            base = self.v1(ctx, node, a[0])
            cur = ins.x['st']
            const = 0
            acc = base
            for n, (it, iv) in enumerate(a[1:]):
                if n == 0:
                    st = allocsize(cur)
                elif cur[0] in ('arr', 'vec'):
                    cur = cur[2]
                    st = allocsize(cur)
                else:
                    const += field_off(cur, iv[1])
                    cur = cur[1][iv[1]]
                    continue
                if iv[0] == 'c':
                    const += signed(iv[1], it[1]) * st
                else:
                    x = self.v1(ctx, node, (it, iv))
                    if it[1] < 64:
                        x = o.ext(x, it[1], 64, True)
                    acc = o.add(acc, o.mul(x, st, 64), 64)
            if const:
                acc = o.add(acc, const & MASK64, 64)
            self.setreg(ctx, node, ins, g, [acc])
        elif op == 'load':
            self.load(ctx, node, ins, g)
        elif op == 'store':
            self.store(ctx, node, ins, g)
        elif op == 'cmpxchg':
            self.cmpxchg(ctx, node, ins, g)
        elif op == 'atomicrmw':
            self.rmw(ctx, node, ins, g)
        elif op == 'fence':
            self.fence(ctx, ins, g)
        elif op == 'extractvalue':
            v = self.val(ctx, node, *a[0])
            i0, n = flat_index(a[0][0], ins.x['path'])
            self.setreg(ctx, node, ins, g, v[i0:i0 + n])
        elif op == 'insertvalue':
            v = list(self.val(ctx, node, *a[0]))
            i0, n = flat_index(a[0][0], ins.x['path'])
            v[i0:i0 + n] = self.val(ctx, node, *a[1])
            self.setreg(ctx, node, ins, g, v)
        elif op in ('call', 'invoke'):
            return self.call(ctx, node, ins, g)
        elif op == 'nop':
            pass
        elif op == 'cut':
            self.asm = self.g.and_(self.asm, g ^ 1)
        elif op == 'badcall':
            self.report(g, 'wild', 0, 'call through an unknown function pointer', ctx, ins)
        else:
            raise IRError('cannot execute: ' + ins.line)
        return g

    def lanes(self, ctx, node, ins):
        """vector operations, lane by lane"""
        o = self.o
        a = ins.a
        x = self.val(ctx, node, *a[0])
        if ins.op == 'cast':
            t1, t2 = flat(a[0][0]), flat(ins.ty)
            if ins.x['kind'] == 'bitcast':
                bits = []
                for v, t in zip(x, t1):
                    bits += o.bits(v, width(t))
                r = []
                for t in t2:
                    r.append(o.mk(tuple(bits[:width(t)])))
                    bits = bits[width(t):]
                return r
            w1, w2 = width(t1[0]), width(t2[0])
            if w2 < w1:
                return [o.slice(v, 0, w2) for v in x]
            return [o.ext(v, w1, w2, ins.x['kind'] == 'sext') for v in x]
        y = self.val(ctx, node, *a[1])
        if ins.op == 'select':
            z = self.val(ctx, node, *a[2])
            return [o.mux(o.tobool(c), p, q, width(t)) for c, p, q, t in zip(x, y, z, flat(ins.ty))]
        w = width(a[0][0][2])
        if ins.op == 'icmp':
            return [o.frombool(o.icmp(ins.x['pred'], p, q, w)) for p, q in zip(x, y)]
        if ins.op in ('and', 'or', 'xor'):
            return [o.bitop(ins.op, p, q, w) for p, q in zip(x, y)]
        if ins.op in ('shl', 'lshr', 'ashr'):
            return [o.shift(ins.op, p, q, w) for p, q in zip(x, y)]
        if ins.op in ('add', 'sub'):
            return [getattr(o, ins.op)(p, q, w) for p, q in zip(x, y)]
        raise IRError('cannot execute: ' + ins.line)

    def escapes(self, f, reg):
        """does the address of this alloca leave the function's own loads and stores?"""
        seen = set()
        st = [reg]
        while st:
            r = st.pop()
            if r in seen:
                continue
            seen.add(r)
            for b in f.blocks.values():
                for i in b:
                    uses = [n for n, (t, v) in enumerate(i.a) if v == ('reg', r)]
                    if i.op == 'phi' and any(v == ('reg', r) for v, _ in i.x['inc']):
                        st.append(i.res)
                    if not uses:
                        if any(v[0] == 'agg' for t, v in i.a):
                            return True
                        continue
                    if i.op == 'load':
                        continue
                    if i.op == 'store':
                        if 0 in uses:
                            return True
                        continue
                    if i.op in ('gep', 'copy', 'select'):
                        st.append(i.res)
                        continue
                    if i.op == 'icmp':
                        continue
                    if i.op == 'call' and i.x['callee'][0] == 'g' and i.x['callee'][1].startswith('llvm.'):
                        continue
                    return True
        return False

    # -- memory instructions
    def load(self, ctx, node, ins, g):
        o = self.o
        t = ins.ty
        a = self.v1(ctx, node, ins.a[0])
        n = isize(t)
        order = ins.x.get('order')
        cs = self.resolve(a, n, g, ctx, ins, 'read')
        parts = flat_offs(t)
        comps = []
        for (st, so) in parts:
            sz = isize(st)
            w = width(st)
            res = None
            for ob, off, c in cs:
                v = self.rd(ob, off + so, sz)
                if w < 8 * sz:
                    v = o.slice(v, 0, w)
                res = v if res is None else o.mux(c, v, res, w)
            comps.append(0 if res is None else res)
        self.hb_access(ctx, cs, n, g, False, bool(order), ins)
        if order:
            st = None
            x = FALSE
            if t[0] == 'i':
                comps[0], st, x = self.weak_load(ctx, cs, n, g, order, width(t), comps[0])
            self.hb_load(ctx, cs, g, order, st)
            self.event(g, ctx, ins, 'load', [('addr', a, 64), ('value', comps[0], width(parts[0][0])), ('stale', o.frombool(x), 1)])
        self.setreg(ctx, node, ins, g, comps)

    def store(self, ctx, node, ins, g):
        o = self.o
        t = ins.a[0][0]
        vals = self.val(ctx, node, *ins.a[0])
        a = self.v1(ctx, node, ins.a[1])
        n = isize(t)
        order = ins.x.get('order')
        cs = self.resolve(a, n, g, ctx, ins, 'write')
        before = self.weak_old(cs, n) if order else None
        for (st, so), v in zip(flat_offs(t), vals):
            sz = isize(st)
            w = width(st)
            if w < 8 * sz:
                v = o.ext(v, w, 8 * sz, False)
            for ob, off, c in cs:
                self.wr(ob, off + so, sz, v, self.g.and_(g, c))
        self.hb_access(ctx, cs, n, g, True, bool(order), ins)
        if order:
            x = self.weak_store(ctx, cs, n, g, order, before)
            self.hb_store(ctx, cs, g, order, False)
            self.event(g, ctx, ins, 'store', [('addr', a, 64), ('value', vals[0], width(flat(t)[0])), ('delayed', o.frombool(x), 1)])
        elif self.chan and not ctx.seq:
            # a plain store to a cell ends any release sequence there
            self.hb_store(ctx, cs, g, 'none_plain', False)

    def cmpxchg(self, ctx, node, ins, g):
        o = self.o
        G = self.g
        t = ins.a[1][0]
        w = width(t)
        n = isize(t)
        a = self.v1(ctx, node, ins.a[0])
        exp = self.v1(ctx, node, ins.a[1])
        new = self.v1(ctx, node, ins.a[2])
        cs = self.resolve(a, n, g, ctx, ins, 'write')
        old = None
        for ob, off, c in cs:
            v = self.rd(ob, off, n)
            if w < 8 * n:
                v = o.slice(v, 0, w)
            old = v if old is None else o.mux(c, v, old, w)
        if old is None:
            old = 0
        old, st, stale = self.weak_load(ctx, cs, n, g, ins.x['forder'], w, old, exp)
        ok = o.eq(old, exp, w)
        if ins.x['weak'] and self.spurious_cas and not ctx.seq:
            sp = G.inp('spurious')
            ok = G.and_(ok, sp ^ 1)
        else:
            sp = FALSE
        nv = o.ext(new, w, 8 * n, False) if w < 8 * n else new
        before = self.weak_old(cs, n)
        for ob, off, c in cs:
            self.wr(ob, off, n, nv, G.ands([g, c, ok]))
        gs = G.and_(g, ok)
        gf = G.and_(g, ok ^ 1)
        self.hb_access(ctx, cs, n, gs, True, True, ins)
        self.hb_access(ctx, cs, n, gf, False, True, ins)
        self.hb_load(ctx, cs, gs, ins.x['order'])
        self.hb_load(ctx, cs, gf, ins.x['forder'], st)
        x = self.weak_store(ctx, cs, n, gs, ins.x['order'], before)
        self.hb_store(ctx, cs, gs, ins.x['order'], True)
        self.event(g, ctx, ins, 'cas', [('addr', a, 64), ('old', old, w), ('expected', exp, w), ('new', new, w),
                                        ('ok', o.frombool(ok), 1), ('spur', o.frombool(sp), 1),
                                        ('stale', o.frombool(stale), 1), ('delayed', o.frombool(x), 1)])
        self.setreg(ctx, node, ins, g, [old, o.frombool(ok)])

    def rmw(self, ctx, node, ins, g):
        o = self.o
        G = self.g
        t = ins.a[1][0]
        w = width(t)
        n = isize(t)
        a = self.v1(ctx, node, ins.a[0])
        x = self.v1(ctx, node, ins.a[1])
        cs = self.resolve(a, n, g, ctx, ins, 'write')
        old = None
        for ob, off, c in cs:
            v = self.rd(ob, off, n)
            if w < 8 * n:
                v = o.slice(v, 0, w)
            old = v if old is None else o.mux(c, v, old, w)
        if old is None:
            old = 0
        f = ins.x['f']
        if f == 'xchg':
            nv = x
        elif f == 'add':
            nv = o.add(old, x, w)
        elif f == 'sub':
            nv = o.sub(old, x, w)
        elif f in ('and', 'or', 'xor'):
            nv = o.bitop(f, old, x, w)
        elif f == 'nand':
            nv = o.bitop('xor', o.bitop('and', old, x, w), (1 << w) - 1, w)
        elif f in ('umax', 'umin', 'max', 'min'):
            lt = o.icmp('ult' if f[0] == 'u' else 'slt', old, x, w)
            nv = o.mux(lt, x, old, w) if f.endswith('max') else o.mux(lt, old, x, w)
        else:
            raise IRError('atomicrmw ' + f)
        sv = o.ext(nv, w, 8 * n, False) if w < 8 * n else nv
        before = self.weak_old(cs, n)
        self.weak_seen(ctx, cs, n, g)
        for ob, off, c in cs:
            self.wr(ob, off, n, sv, G.and_(g, c))
        self.hb_access(ctx, cs, n, g, True, True, ins)
        self.hb_load(ctx, cs, g, ins.x['order'])
        d = self.weak_store(ctx, cs, n, g, ins.x['order'], before)
        self.hb_store(ctx, cs, g, ins.x['order'], True)
        self.event(g, ctx, ins, 'rmw ' + f, [('addr', a, 64), ('old', old, w), ('new', nv, w), ('delayed', o.frombool(d), 1)])
        self.setreg(ctx, node, ins, g, [old])

    def fence(self, ctx, ins, g):
        if not self.chan or ctx.seq:
            return
        G = self.g
        od = ins.x['order']
        t = ctx.tid
        for ch in self.chan:
            k = self.known[ch]
            if od in ('acquire', 'acq_rel', 'seq_cst'):
                k[t] = G.or_(k.get(t, FALSE), G.and_(g, ctx.acq_pend[ch]))
            if od == 'seq_cst':
                k[t] = G.or_(k.get(t, FALSE), G.and_(g, self.sc[ch]))
                self.sc[ch] = G.or_(self.sc[ch], G.and_(g, k[t]))
            if od in ('release', 'acq_rel', 'seq_cst'):
                ctx.rel_fence[ch] = G.mux(g, k.get(t, FALSE), ctx.rel_fence[ch])

    # -- calls
    def call(self, ctx, node, ins, g):
        o = self.o
        G = self.g
        c = ins.x['callee']
        if c[0] != 'g':
            raise IRError('indirect call left: ' + ins.line)
        name = c[1]
        kd = kind_of(name)
        if kd == 'llvm':
            return self.intrinsic(ctx, node, ins, g, name)
        if kd == 'nop':
            if ins.res is not None:
                self.setreg(ctx, node, ins, g, [0] * len(flat(ins.ty)))
            return g
        if kd == 'not_unwinding':
            self.setreg(ctx, node, ins, g, [o.frombool(ctx.unw ^ 1)])
            return g
        if kd == 'vp_unwinding':
            c = o.tobool(self.v1(ctx, node, ins.a[0]))
            for ob in [self.gobj(n) for n in self.mod.globals if 'GLOBAL_PANIC_COUNT' in n]:
                v = self.rd(ob, 0, 8)
                d = G.and_(g, c ^ ctx.unw)
                self.wr(ob, 0, 8, o.add(v, o.mux(c, 1, MASK64, 64), 64), d)
            ctx.unw = G.mux(g, c, ctx.unw)
            return g
        if kd == 'vp_woken':
            x = self.cint(self.v1(ctx, node, ins.a[0]))
            self.setreg(ctx, node, ins, g, [o.ext(self.rd(self.task_obj(x), 0, 1), 8, 64, False)])
            return g
        if kd == 'unexpected':
            self.report(g, 'wild', 0, 'thread handle released', ctx, ins)
            return g
        if kd in ('alloc', 'alloc_zeroed'):
            if self.noalloc and not ctx.seq:
                self.report(g, 'alloc', 0, 'allocation after construction', ctx, ins)
            self.heap(ctx, node, ins, g, self.v1(ctx, node, ins.a[0]), kd == 'alloc_zeroed')
            return g
        if kd == 'realloc':
            if self.noalloc and not ctx.seq:
                self.report(g, 'alloc', 0, 'allocation after construction', ctx, ins)
            a = self.v1(ctx, node, ins.a[0])
            old = self.v1(ctx, node, ins.a[1])
            new = self.v1(ctx, node, ins.a[3])
            self.heap(ctx, node, ins, g, new, False)
            d = ctx.regs[(node, ins.res)][0]
            n = o.mux(o.ult(new, old, 64), new, old, 64)
            vs = o.vals(n)
            if vs is None:
                raise IRError('realloc of unbounded size')
            for v in sorted(vs):
                self.copyn(ctx, ins, G.and_(g, o.eq(n, v, 64)), d, a, v)
            self.free(ctx, ins, g, a)
            return g
        if kd == 'dealloc':
            if self.noalloc == 'free' and not ctx.seq:
                self.report(g, 'alloc', 0, 'deallocation during operation', ctx, ins)
            self.free(ctx, ins, g, self.v1(ctx, node, ins.a[0]))
            return g
        if kd == 'thread_current':
            self.setreg(ctx, node, ins, g, [self.addr(self.thread_obj(ctx.tid))])
            return g
        if kd == 'unlock_slow':
            a = self.v1(ctx, node, ins.a[0])
            cs = self.resolve(a, 1, g, ctx, ins, 'write')
            for ob, off, cc in cs:
                self.wr(ob, off, 1, 0, G.and_(g, cc))
            self.hb_store(ctx, cs, g, 'release', True)
            return g
        if kd == 'instant_now':
            raise IRError('Instant::now is modelled only through vp hooks')
        if kd == 'vp_panic':
            if ctx.name in ('setup',) or not self.expect_panic:
                self.report(g, 'panic', 0, 'the code panics (assertion, overflow or bounds check)', ctx, ins)
            ctx.panicked = G.or_(ctx.panicked, g)
            return FALSE
        if kd == 'vp_assert':
            c = o.tobool(self.v1(ctx, node, ins.a[0]))
            i = self.cint(self.v1(ctx, node, ins.a[1]))
            if ins.a[0][1] != ('c', 0):      # else: an unreachable marker, not something to witness
                self.asserts[i] = G.or_(self.asserts.get(i, FALSE), G.and_(self.asm, g))
            self.report(G.and_(g, c ^ 1), 'assert', i, 'assertion %d' % i, ctx, ins)
            return g
        if kd == 'vp_assume':
            c = o.tobool(self.v1(ctx, node, ins.a[0]))
            self.asm = G.and_(self.asm, G.or_(g ^ 1, c))
            return G.and_(g, c)
        if kd == 'vp_laps':
            # the third of three calls, one lap of the queue apart: words that advanced by the same amount twice
            # advance k times more
            a = self.cint(self.v1(ctx, node, ins.a[0]))
            n = self.cint(self.v1(ctx, node, ins.a[1]))
            ob, off = self.objs[a >> OBJ_SHIFT], a & ((1 << OBJ_SHIFT) - 1)
            snap = {}
            for p in range(off, off + n - 7, 8):
                v = self.rd(ob, p, 8)
                if isinstance(v, int):
                    snap[p] = v
            self.laps.append(snap)
            if len(self.laps) == 3:
                x, y, z = self.laps
                k = self.v1(ctx, node, ins.a[2])
                if all((z[p] - y[p] - y[p] + x[p]) & MASK64 == 0 for p in z if p in x and p in y):
                    for p in z:
                        d = (z[p] - y[p]) & MASK64 if p in x and p in y else 0
                        if d:
                            self.wr(ob, p, 8, o.add(z[p], o.mul(k, d, 64), 64), g)
            return g
        if kd == 'vp_any':
            mx = self.cint(self.v1(ctx, node, ins.a[0]))
            key = (node, ins.res)
            if key not in ctx.regs:
                w = max(1, mx.bit_length())
                v = o.fresh('any_%s_%s' % (ctx.name, ins.res), w)
                if mx + 1 < 1 << w:
                    self.asm = G.and_(self.asm, o.ult(v, mx, w, True))
                if mx < 64:
                    v = o.mk(o.bits(v, w), frozenset(range(mx + 1)))
                ctx.regs[key] = [o.ext(v, w, 64, False)]
            self.event(g, ctx, ins, 'any', [('value', ctx.regs[key][0], 64)])
            return g
        if kd in ('vp_gset', 'vp_gget'):
            ix = self.v1(ctx, node, ins.a[0])
            idx = sorted(o.vals(ix) or ())
            if not idx or len(idx) > 64:
                idx = range(128)
            if kd == 'vp_gset':
                v = self.v1(ctx, node, ins.a[1])
                for k in idx:
                    cc = G.and_(g, o.eq(ix, k, 64))
                    self.ghost[k] = o.mux(cc, v, self.ghost.get(k, 0), 64)
            else:
                r = 0
                for k in idx:
                    r = o.mux(o.eq(ix, k, 64), self.ghost.get(k, 0), r, 64)
                self.setreg(ctx, node, ins, g, [r])
            return g
        if kd in ('vp_wclone', 'vp_wdrop'):
            v = self.v1(ctx, node, ins.a[0])
            for x in sorted(o.vals(v) or ()):
                cc = G.and_(g, o.eq(v, x, 64))
                if cc == FALSE:
                    continue
                r = self.wref.get(x, 0)
                if kd == 'vp_wdrop':
                    self.report(G.and_(cc, o.eq(r, 0, 8)), 'waker', 0, 'waker released twice', ctx, ins)
                self.wref[x] = o.mux(cc, o.add(r, 1 if kd == 'vp_wclone' else 255, 8), r, 8)
            return g
        if kd == 'vp_wrefs':
            v = self.v1(ctx, node, ins.a[0])
            r = 0
            for x in sorted(o.vals(v) or ()):
                r = o.mux(o.eq(v, x, 64), self.wref.get(x, 0), r, 8)
            self.setreg(ctx, node, ins, g, [o.ext(r, 8, 64, False)])
            return g
        if kd == 'vp_done':
            x = self.cint(self.v1(ctx, node, ins.a[0]))
            self.setreg(ctx, node, ins, g, [o.ext(o.frombool(self.ctxs[x].done), 1, 64, False)])
            return g
        if kd == 'vp_now':
            if not ctx.seq and self.clockmode == 'tick':
                adv = o.ext(o.fresh('tick', 1), 1, 64, False)
                self.clock = o.mux(g, o.add(self.clock, adv, 64), self.clock, 64)
            self.setreg(ctx, node, ins, g, [self.clock])
            self.event(g, ctx, ins, 'now', [('value', self.clock, 64)])
            return g
        if kd == 'vp_live':
            # number of heap objects alive and allocated by threads/setup
            raise IRError('vp_live')
        if kd in ('memcpy', 'memmove'):
            return self.memcpy(ctx, node, ins, g)
        if kd == 'memset':
            return self.memset(ctx, node, ins, g)
        raise IRError('no model for external function %s' % name)

    def heap(self, ctx, node, ins, g, size, zero):
        vs = self.o.vals(size)
        if vs is None or len(vs) > 64:
            raise IRError('allocation of unbounded size')
        key = (node, ins.res)
        if key not in ctx.regs:
            ob = self.newobj('%s:heap%s' % (ctx.name, ins.res), 'h', max(vs))
            ob.zero = zero
            ob.owner = ctx.tid
            ob.alive = TRUE
            ctx.regs[key] = [self.addr(ob)]
        if not isinstance(size, int):
            ob = self.objs[ctx.regs[key][0] >> OBJ_SHIFT]
            if max(vs) > ob.size:
                ob.size = max(vs)
            ob.symsize = size if ob.symsize is None else self.o.mux(g, size, ob.symsize, 64)

    def free(self, ctx, ins, g, a):
        G = self.g
        for ob, off, cc in self.resolve(a, 0, g, ctx, ins, 'write'):
            w = G.and_(g, cc)
            if off != 0 or ob.kind != 'h':
                self.report(w, 'wild', 0, 'free of something that is not a heap block', ctx, ins)
                continue
            if self.race:
                self.hb_access(ctx, [(ob, 0, cc)], ob.size, g, True, False, ins)
            ob.alive = G.and_(ob.alive, w ^ 1)

    def intrinsic(self, ctx, node, ins, g, name):
        o = self.o
        G = self.g
        p = name.split('.')
        k = p[1]
        if k == 'lifetime':
            a = self.v1(ctx, node, ins.a[-1])
            vs = o.vals(a)
            for v in vs or ():
                ob = self.objs.get(v >> OBJ_SHIFT)
                if ob is None or ob.kind != 'a':
                    continue
                if p[2] == 'start':
                    ob.alive = G.or_(ob.alive, g)
                    if ob.cells and not ctx.seq and len(vs) == 1:
                        pass
                else:
                    ob.alive = G.and_(ob.alive, G.and_(g, o.eq(a, v, 64)) ^ 1)
                    if not ob.local:
                        self.hb_access(ctx, [(ob, 0, o.eq(a, v, 64))], ob.size, g, True, False, ins)
            return g
        if k == 'assume':
            if not ins.a or ins.a[0][0] != ('i', 1):
                return g
            c = o.tobool(self.v1(ctx, node, ins.a[0]))
            if c != TRUE:
                self.report(G.and_(g, c ^ 1), 'ub', 0, 'undefined behaviour: compiler assumption violated', ctx, ins)
            return g
        if k in ('experimental', 'dbg', 'invariant', 'donothing', 'prefetch'):
            return g
        if k in ('umin', 'umax', 'smin', 'smax'):
            x = self.v1(ctx, node, ins.a[0])
            y = self.v1(ctx, node, ins.a[1])
            w = width(ins.ty)
            lt = o.icmp(k[0] + 'lt', x, y, w)
            r = o.mux(lt, x, y, w) if k.endswith('min') else o.mux(lt, y, x, w)
            self.setreg(ctx, node, ins, g, [r])
            return g
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with':
            x = self.v1(ctx, node, ins.a[0])
            y = self.v1(ctx, node, ins.a[1])
            w = width(ins.a[0][0])
            W = 2 * w if 'mul' in k else w + 1
            sg = k[0] == 's'
            X = o.ext(x, w, W, sg)
            Y = o.ext(y, w, W, sg)
            f = {'add': o.add, 'sub': o.sub, 'mul': o.mul}[k[1:]]
            z = f(X, Y, W)
            lo = o.slice(z, 0, w)
            ov = o.eq(o.ext(lo, w, W, sg), z, W) ^ 1
            self.setreg(ctx, node, ins, g, [lo, o.frombool(ov)])
            return g
        if k in ('uadd', 'usub') and p[2] == 'sat':
            x = self.v1(ctx, node, ins.a[0])
            y = self.v1(ctx, node, ins.a[1])
            w = width(ins.ty)
            if k == 'usub':
                r = o.mux(o.ult(x, y, w), 0, o.sub(x, y, w), w)
            else:
                s = o.add(x, y, w)
                r = o.mux(o.ult(s, x, w), (1 << w) - 1, s, w)
            self.setreg(ctx, node, ins, g, [r])
            return g
        if k == 'memcpy' or k == 'memmove':
            return self.memcpy(ctx, node, ins, g)
        if k == 'memset':
            return self.memset(ctx, node, ins, g)
        if k in ('ctlz', 'cttz', 'ctpop'):
            x = self.v1(ctx, node, ins.a[0])
            w = width(ins.ty)
            b = o.bits(x, w)
            if k == 'ctpop':
                r = 0
                for i in range(w):
                    r = o.add(r, o.ext(o.frombool(b[i]), 1, w, False) if w > 1 else o.frombool(b[i]), w)
            else:
                r = w
                it = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
                for i in it:
                    r = o.mux(b[i], (w - 1 - i) if k == 'ctlz' else i, r, w)
            self.setreg(ctx, node, ins, g, [r])
            return g
        if k == 'expect':
            self.setreg(ctx, node, ins, g, self.val(ctx, node, *ins.a[0]))
            return g
        if k in ('fshl', 'fshr'):
            x = self.v1(ctx, node, ins.a[0])
            y = self.v1(ctx, node, ins.a[1])
            s = self.v1(ctx, node, ins.a[2])
            w = width(ins.ty)
            if not isinstance(s, int):
                raise IRError('funnel shift')
            s %= w
            z = o.concat(y, w, x, w)
            r = o.slice(z, (w - s) if k == 'fshl' else s, w) if s else (x if k == 'fshl' else y)
            self.setreg(ctx, node, ins, g, [r])
            return g
        if k == 'ucmp' or k == 'scmp':
            x = self.v1(ctx, node, ins.a[0])
            y = self.v1(ctx, node, ins.a[1])
            w = width(ins.a[0][0])
            rw = width(ins.ty)
            lt = o.icmp(k[0] + 'lt', x, y, w)
            e = o.eq(x, y, w)
            r = o.mux(lt, (1 << rw) - 1, o.mux(e, 0, 1, rw), rw)
            self.setreg(ctx, node, ins, g, [r])
            return g
        if k == 'abs':
            x = self.v1(ctx, node, ins.a[0])
            w = width(ins.ty)
            self.setreg(ctx, node, ins, g, [o.mux(o.bits(x, w)[-1], o.sub(0, x, w), x, w)])
            return g
        raise IRError('no model for intrinsic ' + name)

    def memcpy(self, ctx, node, ins, g):
        G = self.g
        d = self.v1(ctx, node, ins.a[0])
        s = self.v1(ctx, node, ins.a[1])
        n = self.v1(ctx, node, ins.a[2])
        if not isinstance(n, int):
            # bounded by cases
            vs = self.o.vals(n)
            if vs is None:
                raise IRError('memcpy of unbounded size')
            for v in sorted(vs):
                self.copyn(ctx, ins, G.and_(g, self.o.eq(n, v, 64)), d, s, v)
        else:
            self.copyn(ctx, ins, g, d, s, n)
        if ins.res is not None:
            self.setreg(ctx, node, ins, g, [d])
        return g

    def copyn(self, ctx, ins, g, d, s, n):
        if n == 0 or g == FALSE:
            return
        G = self.g
        src = self.resolve(s, n, g, ctx, ins, 'read')
        dst = self.resolve(d, n, g, ctx, ins, 'write')
        # common cell boundaries over all sources
        cuts = set()
        for o, off, c in src:
            for (p, sz) in self.region(o, off, n):
                cuts.add(p - off)
        for o, off, c in dst:
            for (p, sz) in self.region(o, off, n):
                cuts.add(p - off)
        cuts = sorted(cuts) + [n]
        vals = []
        for i in range(len(cuts) - 1):
            p = cuts[i]
            sz = cuts[i + 1] - p
            res = None
            for o, off, c in src:
                v = self.rd(o, off + p, sz)
                res = v if res is None else self.o.mux(c, v, res, 8 * sz)
            vals.append((p, sz, 0 if res is None else res))
        for p, sz, v in vals:
            for o, off, c in dst:
                self.wr(o, off + p, sz, v, G.and_(g, c))
        self.hb_access(ctx, src, n, g, False, False, ins)
        self.hb_access(ctx, dst, n, g, True, False, ins)

    def memset(self, ctx, node, ins, g):
        d = self.v1(ctx, node, ins.a[0])
        b = self.v1(ctx, node, ins.a[1])
        n = self.v1(ctx, node, ins.a[2])
        if not isinstance(b, int):
            raise IRError('memset of symbolic byte')
        if isinstance(n, int):
            ns = [n]
        else:
            ns = self.o.vals(n)
            if ns is None:
                raise IRError('memset of unbounded size')
        for k in sorted(ns):
            gk = g if isinstance(n, int) else self.g.and_(g, self.o.eq(n, k, 64))
            if k and gk != FALSE:
                self.setn(ctx, ins, gk, d, b, k)
        return g

    def setn(self, ctx, ins, g, d, b, n):
        dst = self.resolve(d, n, g, ctx, ins, 'write')
        for o, off, c in dst:
            p = 0
            while p < n:
                sz = 8 if (off + p) % 8 == 0 and p + 8 <= n else 1
                self.wr(o, off + p, sz, int.from_bytes(bytes([b & 255]) * sz, 'little'), self.g.and_(g, c))
                p += sz
        self.hb_access(ctx, dst, n, g, True, False, ins)
