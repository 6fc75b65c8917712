"""Control-flow preparation: inlining of the remaining (indirectly called)
functions, natural loops, and unrolling of every function into an acyclic graph
whose nodes are (block, loop counters)."""
from llir import *


def clone_ins(i):
    j = Ins(i.op, i.res, i.ty, list(i.a), i.line, **i.x)
    j.x = dict(i.x)
    return j


def kind_of(name):
    """model kind of an external function, None if the body is used"""
    n = name
    if n.startswith('vp_'):
        return n
    if n.startswith('llvm.'):
        return 'llvm'
    if '__rust_no_alloc_shim' in n:
        return 'nop'
    if '__rust_alloc_zeroed' in n:
        return 'alloc_zeroed'
    if '__rust_realloc' in n:
        return 'realloc'
    if '__rust_dealloc' in n:
        return 'dealloc'
    if '__rust_alloc' in n:
        return 'alloc'
    if 'RawMutex' in n and 'unlock_slow' in n:
        return 'unlock_slow'
    if 'RawMutex' in n and 'lock_slow' in n:
        return 'lock_slow'
    if '7current7current' in n:
        return 'thread_current'
    if 'functions12park_timeout' in n:
        return 'park_timeout'
    if 'functions4park' in n:
        return 'park'
    if 'functions9yield_now' in n:
        return 'nop'
    if 'futex_wake' in n:
        return 'nop'
    if 'Instant' in n and n.endswith('3now'):
        return 'instant_now'
    if 'is_zero_slow_path' in n:
        return 'not_unwinding'
    if 'thread' in n and 'Inner' in n and 'drop_slow' in n:
        return 'unexpected'
    if n.startswith('mem') and n in ('memcpy', 'memmove', 'memset', 'memcmp', 'bcmp'):
        return n
    return None


# a function is inlined into itself at most this often; deeper nesting is outside the bound
NEST = 1


def inline_calls(mod, f, depth=0):
    """replace calls to functions defined in the module (direct or through a
    pointer) by their bodies"""
    taken = [n for n in mod.fns if n in mod.taken]
    n_inl = 0
    pos = 0
    while pos < len(f.order):
        b = f.order[pos]
        pos += 1
        for k, ins in enumerate(f.blocks[b]):
            if ins.op not in ('call', 'invoke'):
                continue
            c = ins.x['callee']
            if c[0] == 'g':
                if c[1] in mod.fns and kind_of(c[1]) is None:
                    cands = [c[1]]
                else:
                    continue
            else:
                cands = [n for n in taken if len(mod.fns[n].params) == len(ins.a)
                         and mod.fns[n].ret == ins.ty]
                # external functions whose address is taken cannot be followed
            n_inl += 1
            if n_inl > 3000:
                raise IRError('call nesting too deep (recursion?) in ' + f.name)
            # the new blocks follow this one
            expand(mod, f, b, k, ins, cands, 'i%d.' % n_inl)
            break


def expand(mod, f, b, k, ins, cands, pfx):
    blk = f.blocks[b]
    pre = blk[:k]
    post = blk[k + 1:]
    if ins.op == 'invoke':
        contname = ins.x['to'][0]
        cont_split = False
    else:
        contname = pfx + 'cont'
        cont_split = True
    new_blocks = []
    entry = []
    stk = ins.x.get('stk', ())
    for c in cands:
        g = mod.fns[c]
        p = pfx + str(len(entry)) + '.'
        names = {}
        for bb in g.order:
            for i in g.blocks[bb]:
                if i.res is not None:
                    names[i.res] = p + i.res
        args = {pn: av for (pt, pn), (at, av) in zip(g.params, ins.a)}

        def mapv(t, v):
            if v[0] == 'reg':
                if v[1] in args:
                    return args[v[1]]
                return ('reg', names[v[1]])
            if v[0] == 'agg':
                return ('agg', [(et, mapv(et, ev)) for et, ev in v[1]])
            return v
        rets = []
        bodies = []
        for bb in g.order:
            out = []
            for i in g.blocks[bb]:
                j = clone_ins(i)
                j.a = [(t, mapv(t, v)) for t, v in i.a]
                if i.res is not None:
                    j.res = p + i.res
                if 'to' in j.x and j.x['to']:
                    j.x['to'] = [p + x for x in j.x['to']]
                if 'cases' in j.x:
                    j.x['cases'] = [(v, p + x) for v, x in j.x['cases']]
                    j.x['default'] = p + j.x['default']
                if j.op == 'phi':
                    j.x['inc'] = [(mapv(j.ty, v), p + x) for v, x in j.x['inc']]
                if j.op in ('call', 'invoke'):
                    j.x['stk'] = stk + (c,)
                if j.op in ('call', 'invoke') and j.x['callee'][0] == 'reg':
                    j.x['callee'] = mapv(PTR, j.x['callee'])
                if j.op == 'ret':
                    rets.append((j.a[0][1] if j.a else None, p + bb))
                    j = Ins('br', None, VOID, [], j.line, to=[contname])
                out.append(j)
            bodies.append((p + bb, out))
        if stk.count(c) >= NEST:
            bodies, rets = [(p + g.order[0], [Ins('cut', None, VOID, [], ins.line), Ins('unreachable', None, VOID, [], ins.line)])], []
        entry.append((c, p + g.order[0], rets))
        new_blocks += bodies
    if cont_split:
        f.blocks[contname] = post
        # successors of b now come from cont
        for x in set(succs(post[-1])):
            for i in f.blocks[x]:
                if i.op != 'phi':
                    break
                i.x['inc'] = [(v, contname if src == b else src) for v, src in i.x['inc']]
    allrets = [r for e in entry for r in e[2]]
    if cont_split and ins.res is not None and allrets:
        ph = Ins('phi', ins.res, ins.ty, [], ins.line, inc=[(v, src) for v, src in allrets])
        f.blocks[contname] = [ph] + post
    if len(cands) == 1 and ins.x['callee'][0] == 'g':
        f.blocks[b] = pre + [Ins('br', None, VOID, [], ins.line, to=[entry[0][1]])]
    else:
        bad = pfx + 'bad'
        cs = [(('f', c), e) for c, e, _ in entry]
        f.blocks[b] = pre + [Ins('fswitch', None, VOID, [(PTR, ins.x['callee'] if ins.x['callee'][0] == 'reg' else ins.x['callee'])], ins.line,
                                 to=[bad] + [e for _, e in cs], cases=cs, default=bad)]
        f.blocks[bad] = [Ins('badcall', None, VOID, [], ins.line), Ins('unreachable', None, VOID, [], ins.line)]
        new_blocks.append((bad, f.blocks[bad]))
    for nm, body in new_blocks:
        f.blocks[nm] = body
    pos = f.order.index(b) + 1
    f.order[pos:pos] = [nm for nm, _ in new_blocks] + ([contname] if cont_split else [])


def succs(ins):
    if ins.op in ('br', 'condbr', 'switch', 'fswitch'):
        return ins.x['to']
    if ins.op == 'invoke':
        return ins.x['to']
    return []


def term(f, b):
    return f.blocks[b][-1]


def addr_taken(mod):
    taken = set()

    def walk(v):
        if v[0] == 'g':
            if v[1] in mod.fns or v[1] in mod.decls:
                taken.add(v[1])
        elif v[0] == 'agg':
            for _, e in v[1]:
                walk(e)
    for t, init, c in mod.globals.values():
        walk(init)
    for f in mod.fns.values():
        for b in f.blocks.values():
            for i in b:
                for t, v in i.a:
                    walk(v)
                if i.op == 'phi':
                    for v, _ in i.x['inc']:
                        walk(v)
    mod.taken = taken


ATOMIC = ('cmpxchg', 'atomicrmw')


def maybe_visible(i):
    if i.op in ATOMIC:
        return True
    if i.op in ('load', 'store') and i.x.get('order'):
        return True
    if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
        return kind_of(i.x['callee'][1]) in ('lock_slow', 'park', 'park_timeout', 'vp_wait', 'vp_yield', 'vp_wake')
    return False


class Loop:
    def __init__(self, head):
        self.head = head
        self.body = {head}
        self.parent = None
        self.visible = False
        self.outer = False
        self.depth = 0


class Graph:
    """unrolled acyclic graph of one function"""

    def __init__(self, f, bounds, total=None):
        """bounds(loop) -> number of times the loop head may be entered;
        total: bound on the summed repetitions of nested outer loops"""
        self.total = total
        self.f = f
        self.loops(f)
        self.unroll(bounds)

    def loops(self, f):
        entry = f.order[0]
        # reverse postorder
        seen = set()
        post = []
        st = [(entry, iter(succs(term(f, entry))))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succs(term(f, s)))))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succs(term(f, b)):
                preds[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succs(term(f, b)):
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise IRError('irreducible control flow in ' + f.name)
                    L = loops.setdefault(s, Loop(s))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L.body:
                            continue
                        L.body.add(x)
                        st += preds[x]
        ls = sorted(loops.values(), key=lambda l: len(l.body))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.head in m.body and m is not l:
                    l.parent = m
                    break
        for l in ls:
            l.visible = any(maybe_visible(i) for b in l.body for i in f.blocks[b])
        for l in ls:
            p = l.parent
            while p:
                if l.visible:
                    p.outer = True
                p = p.parent
        self.inner = {}
        for b in rpo:
            ch = []
            for l in ls:
                if b in l.body:
                    ch.append(l)
            self.inner[b] = ch[::-1]      # outermost first
        self.rpo = rpo
        self.ls = ls
        self.live = set(rpo)

    def unroll(self, bounds):
        f = self.f
        entry = f.order[0]
        self.edges = {}      # node -> list of (succ node or None(cut), index into term.to)
        self.preds = {}
        start = (entry, self.enter((), [], self.inner[entry]))
        self.entry = start
        todo = [start]
        seen = {start}
        bnd = {l.head: bounds(l) for l in self.ls}
        self.bnd = bnd
        while todo:
            n = todo.pop()
            b, ctr = n
            lb = self.inner[b]
            es = []
            for idx, s in enumerate(succs(term(f, b))):
                ls = self.inner[s]
                c = []
                for i, l in enumerate(ls):
                    if i < len(lb) and lb[i] is l:
                        c.append(ctr[i])
                    else:
                        c.append(0)
                cut = False
                if ls and ls[-1].head == s and ls[-1] in lb:
                    # back edge
                    j = len(ls) - 1
                    c[j] += 1
                    if c[j] >= bnd[s]:
                        cut = True
                    if self.total is not None and sum(x for x, l in zip(c, ls) if l.outer) > self.total:
                        cut = True
                if cut:
                    es.append((None, idx))
                    continue
                m = (s, tuple(c))
                es.append((m, idx))
                self.preds.setdefault(m, []).append((n, idx))
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
            self.edges[n] = es
        # topological order
        indeg = {n: len(self.preds.get(n, ())) for n in seen}
        rp = {b: i for i, b in enumerate(self.rpo)}
        import heapq

        def key(n):
            b, ctr = n
            k = []
            # order by outermost loop position, iteration, ...
            for l, c in zip(self.inner[b], ctr):
                k += [rp[l.head], c]
            k.append(rp[b])
            return tuple(k)
        h = [(key(start), start)]
        order = []
        while h:
            _, n = heapq.heappop(h)
            order.append(n)
            for m, _ in self.edges[n]:
                if m is None:
                    continue
                indeg[m] -= 1
                if indeg[m] == 0:
                    heapq.heappush(h, (key(m), m))
        if len(order) != len(seen):
            raise IRError('unrolled graph is not acyclic')
        self.order = order
        # where is each register defined
        self.defb = {}
        for b in self.rpo:
            for i in f.blocks[b]:
                if i.res is not None:
                    self.defb[i.res] = b

    @staticmethod
    def enter(_, __, ls):
        return tuple(0 for _ in ls)

    def defnode(self, node, reg):
        """copy of the defining block whose value a use in `node` sees"""
        db = self.defb[reg]
        b, ctr = node
        ld = self.inner[db]
        lu = self.inner[b]
        c = []
        for i, l in enumerate(ld):
            if i < len(lu) and lu[i] is l:
                c.append(ctr[i])
            else:
                raise IRError('value %%%s leaves its loop without a phi' % reg)
        return (db, tuple(c))
