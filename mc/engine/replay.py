"""Instruments a scenario's IR, compiles it natively and replays a schedule."""
import os
import re
import subprocess
import shutil
from llir import *
from prog import kind_of, maybe_visible
import build

ORD = {'unordered': 0, 'monotonic': 0, 'acquire': 1, 'release': 2, 'acq_rel': 3, 'seq_cst': 4}
MAXT = 8


def q(n):
    return n if re.fullmatch(r'[\w.$\-]+', n) else '"%s"' % n


def vt(t, v):
    if v[0] == 'reg':
        return '%' + q(v[1])
    if v[0] == 'g':
        if v[2]:
            return 'getelementptr (i8, ptr @%s, i64 %d)' % (q(v[1]), v[2])
        return '@' + q(v[1])
    if v[0] == 'c':
        if t == PTR:
            return 'null' if v[1] == 0 else 'inttoptr (i64 %d to ptr)' % v[1]
        return str(v[1])
    if v[0] == 'undef':
        return 'undef'
    if v[0] == 'zero':
        return 'zeroinitializer'
    raise IRError('operand %r' % (v,))


def tt(t):
    if t[0] == 'i':
        return 'i%d' % t[1]
    if t[0] == 'ptr':
        return 'ptr'
    if t[0] == 'void':
        return 'void'
    raise IRError('type %r' % (t,))


HOOKS = '''
declare void @vpr_point(i32)
declare void @vpr_blk(i32, i64)
declare void @vpr_mem(ptr, i64, i32)
declare void @vpr_chk(ptr, i64)
declare void @vpr_aload(ptr, i64, i32)
declare void @vpr_astore(ptr, i64, i32)
declare void @vpr_armw(ptr, i64, i32)
declare void @vpr_acas(ptr, i64, i32, i32, i32)
declare void @vpr_fence(i32)
declare void @vpr_val(i64)
declare void @vpr_life(ptr, i32)
declare void @vpr_alloca(ptr, i64)
declare void @vpr_global(ptr, i64)
declare ptr @vpr_alloc(i64)
declare ptr @vpr_alloc_zeroed(i64)
declare void @vpr_dealloc(ptr)
declare ptr @vpr_realloc(ptr, i64, i64)
declare zeroext i1 @vpr_not_unwinding()
declare void @vpr_panicglobal(ptr)
declare ptr @vpr_current()
declare void @vpr_park()
declare void @vpr_park_timeout(i64, i32)
declare void @vpr_lock(ptr)
declare void @vpr_unlock(ptr)
declare i64 @vpr_exp(ptr, i64, i64, i32)
declare i64 @vpr_read(ptr, i64, i64, i32)
declare i64 @vpr_casold(i64)
'''


def instrument(text):
    lines = text.split('\n')
    out = []
    n = len(lines)
    i = 0
    uid = 0
    infn = False
    mod = parse(text)
    for ln0 in lines:
        pass
    while i < n:
        ln = lines[i]
        if ln.startswith('define'):
            infn = True
            out.append(ln)
            i += 1
            continue
        if ln == '}':
            infn = False
            out.append(ln)
            i += 1
            continue
        if not infn:
            if ln.startswith('@') and ' external ' in ln and 'GLOBAL_PANIC_COUNT' in ln:
                ln = re.sub(r' external ', ' ', ln)
                ln = ln.replace(', align', ' zeroinitializer, align', 1) if ', align' in ln else ln + ' zeroinitializer'
            out.append(ln)
            i += 1
            continue
        s = ln.strip()
        if not s or s.startswith(';') or (re.match(r'^("[^"]*"|[\w.$\-]+):', ln) and not ln.startswith(' ')):
            out.append(ln)
            i += 1
            continue
        l = ln
        raw = [ln]
        if s.startswith('switch') and not s.rstrip().endswith(']'):
            while ']' not in lines[i].split('[')[-1]:
                i += 1
                l += ' ' + lines[i].strip()
                raw.append(lines[i])
                if lines[i].strip().startswith(']'):
                    break
        if re.match(r'\s*(%\S+ = )?(invoke|landingpad)', l):
            while i + 1 < n and re.match(r'\s+(to label|cleanup|catch|filter)', lines[i + 1]):
                i += 1
                l += ' ' + lines[i].strip()
                raw.append(lines[i])
        ins = parse_ins(l)
        site = i
        i += 1
        uid += 1
        op = ins.op
        pre = []
        post = []
        body = raw
        if op == 'alloca':
            post.append('  call void @vpr_alloca(ptr %%%s, i64 %d)' % (q(ins.res), ins.x['size']))
        elif op == 'load':
            p = vt(PTR, ins.a[0][1])
            sz = isize(ins.ty)
            if ins.x['order']:
                pre.append('  call void @vpr_point(i32 %d)' % site)
                if ins.ty[0] == 'i' and ins.ty[1] <= 64 and ins.res is not None:
                    pre.append('  call void @vpr_chk(ptr %s, i64 %d)' % (p, sz))
                    u = '%%vpl%d' % uid
                    body = [re.sub(r'^\s*%("[^"]*"|[\w.$\-]+) =', '  %s =' % u, ln, count=1)]
                    w = ins.ty[1]
                    if w < 64:
                        post.append('  %s.z = zext i%d %s to i64' % (u, w, u))
                        post.append('  %s.r = call i64 @vpr_read(ptr %s, i64 %d, i64 %s.z, i32 %d)' % (u, p, sz, u, ORD[ins.x['order']]))
                        post.append('  %%%s = trunc i64 %s.r to i%d' % (q(ins.res), u, w))
                    else:
                        post.append('  %%%s = call i64 @vpr_read(ptr %s, i64 %d, i64 %s, i32 %d)' % (q(ins.res), p, sz, u, ORD[ins.x['order']]))
                else:
                    pre.append('  call void @vpr_aload(ptr %s, i64 %d, i32 %d)' % (p, sz, ORD[ins.x['order']]))
                post += valhook(ins.res, ins.ty, uid)
            else:
                pre.append('  call void @vpr_mem(ptr %s, i64 %d, i32 0)' % (p, sz))
        elif op == 'store':
            p = vt(PTR, ins.a[1][1])
            sz = isize(ins.a[0][0])
            if ins.x['order']:
                pre.append('  call void @vpr_point(i32 %d)' % site)
                pre.append('  call void @vpr_astore(ptr %s, i64 %d, i32 %d)' % (p, sz, ORD[ins.x['order']]))
            else:
                pre.append('  call void @vpr_mem(ptr %s, i64 %d, i32 1)' % (p, sz))
        elif op == 'cmpxchg':
            p = vt(PTR, ins.a[0][1])
            t = ins.a[1][0]
            sz = isize(t)
            pre.append('  call void @vpr_point(i32 %d)' % site)
            pre.append('  call void @vpr_chk(ptr %s, i64 %d)' % (p, sz))
            res = q(ins.res)
            if t[0] == 'i':
                e = vt(t, ins.a[1][1])
                u = '%%vps%d' % uid
                w = t[1]
                if w < 64:
                    pre.append('  %s.z = zext %s %s to i64' % (u, tt(t), e))
                    pre.append('  %s.x = call i64 @vpr_exp(ptr %s, i64 %d, i64 %s.z, i32 %d)' % (u, p, sz, u, ORD[ins.x['order']]))
                    pre.append('  %s.e = trunc i64 %s.x to %s' % (u, u, tt(t)))
                else:
                    pre.append('  %s.e = call i64 @vpr_exp(ptr %s, i64 %d, i64 %s, i32 %d)' % (u, p, sz, e, ORD[ins.x['order']]))
                res = 'vps%d.c' % uid
                body = ['  %%%s = cmpxchg ptr %s, %s %s.e, %s %s %s %s, align %d' % (
                    res, p, tt(t), u, tt(t), vt(t, ins.a[2][1]), ins.x['order'], ins.x['forder'], sz)]
            post.append('  %%vpo%d = extractvalue { %s, i1 } %%%s, 1' % (uid, tt(t), res))
            post.append('  %%vpz%d = zext i1 %%vpo%d to i32' % (uid, uid))
            post.append('  call void @vpr_acas(ptr %s, i64 %d, i32 %d, i32 %d, i32 %%vpz%d)' % (
                p, sz, ORD[ins.x['order']], ORD[ins.x['forder']], uid))
            if t[0] == 'i':
                post.append('  %%vpq%d = extractvalue { %s, i1 } %%%s, 0' % (uid, tt(t), res))
                if w < 64:
                    post.append('  %%vpq%d.z = zext %s %%vpq%d to i64' % (uid, tt(t), uid))
                    post.append('  %%vpq%d.r = call i64 @vpr_casold(i64 %%vpq%d.z)' % (uid, uid))
                    post.append('  %%vpv%d = trunc i64 %%vpq%d.r to %s' % (uid, uid, tt(t)))
                else:
                    post.append('  %%vpv%d = call i64 @vpr_casold(i64 %%vpq%d)' % (uid, uid))
                post.append('  %%%s = insertvalue { %s, i1 } %%%s, %s %%vpv%d, 0' % (q(ins.res), tt(t), res, tt(t), uid))
                post += valhook('vpv%d' % uid, t, uid)
        elif op == 'atomicrmw':
            p = vt(PTR, ins.a[0][1])
            sz = isize(ins.ty)
            pre.append('  call void @vpr_point(i32 %d)' % site)
            pre.append('  call void @vpr_armw(ptr %s, i64 %d, i32 %d)' % (p, sz, ORD[ins.x['order']]))
            post += valhook(ins.res, ins.ty, uid)
        elif op == 'fence':
            pre.append('  call void @vpr_fence(i32 %d)' % ORD[ins.x['order']])
        elif op in ('call', 'invoke') and ins.x['callee'][0] == 'g':
            name = ins.x['callee'][1]
            kd = kind_of(name)
            a = ins.a
            r = '%%%s = ' % q(ins.res) if ins.res is not None else ''
            if kd in ('lock_slow', 'park', 'park_timeout', 'vp_wait', 'vp_yield', 'vp_wake'):
                if kd == 'lock_slow':
                    pre.append('  %%vpb%d = ptrtoint ptr %s to i64' % (uid, vt(PTR, a[0][1])))
                    pre.append('  call void @vpr_blk(i32 1, i64 %%vpb%d)' % uid)
                elif kd == 'park':
                    pre.append('  call void @vpr_blk(i32 2, i64 0)')
                elif kd == 'vp_wait':
                    pre.append('  call void @vpr_blk(i32 3, i64 %s)' % vt(*a[0]))
                pre.append('  call void @vpr_point(i32 %d)' % site)
            if kd == 'llvm':
                nm = name.split('.')
                if nm[1] == 'lifetime':
                    pre.append('  call void @vpr_life(ptr %s, i32 %d)' % (vt(*a[-1]), 1 if nm[2] == 'start' else 0))
                    body = []
                elif nm[1] in ('memcpy', 'memmove'):
                    pre.append('  call void @vpr_mem(ptr %s, i64 %s, i32 0)' % (vt(*a[1]), vt(*a[2])))
                    pre.append('  call void @vpr_mem(ptr %s, i64 %s, i32 1)' % (vt(*a[0]), vt(*a[2])))
                elif nm[1] == 'memset':
                    pre.append('  call void @vpr_mem(ptr %s, i64 %s, i32 1)' % (vt(*a[0]), vt(*a[2])))
            elif kd in ('memcpy', 'memmove'):
                pre.append('  call void @vpr_mem(ptr %s, i64 %s, i32 0)' % (vt(*a[1]), vt(*a[2])))
                pre.append('  call void @vpr_mem(ptr %s, i64 %s, i32 1)' % (vt(*a[0]), vt(*a[2])))
            elif kd == 'memset':
                pre.append('  call void @vpr_mem(ptr %s, i64 %s, i32 1)' % (vt(*a[0]), vt(*a[2])))
            elif kd == 'alloc':
                body = ['  %scall ptr @vpr_alloc(i64 %s)' % (r, vt(*a[0]))]
            elif kd == 'alloc_zeroed':
                body = ['  %scall ptr @vpr_alloc_zeroed(i64 %s)' % (r, vt(*a[0]))]
            elif kd == 'dealloc':
                body = ['  call void @vpr_dealloc(ptr %s)' % vt(*a[0])]
            elif kd == 'lock_slow':
                body = ['  call void @vpr_lock(ptr %s)' % vt(*a[0])]
                if ins.res is not None:
                    body.append('  %sadd i1 1, 0' % r)
            elif kd == 'unlock_slow':
                body = ['  call void @vpr_unlock(ptr %s)' % vt(*a[0])]
            elif kd == 'park':
                body = ['  call void @vpr_park()']
            elif kd == 'park_timeout':
                body = ['  call void @vpr_park_timeout(i64 %s, i32 %s)' % (vt(*a[0]), vt(*a[1]))]
            elif kd == 'thread_current':
                body = ['  %scall ptr @vpr_current()' % r]
            elif kd == 'nop':
                body = []
                if ins.res is not None:
                    body = ['  %sadd %s 0, 0' % (r, tt(ins.ty))]
            elif kd == 'not_unwinding':
                body = ['  %scall zeroext i1 @vpr_not_unwinding()' % r]
            elif kd == 'realloc':
                body = ['  %scall ptr @vpr_realloc(ptr %s, i64 %s, i64 %s)' % (r, vt(*a[0]), vt(*a[1]), vt(*a[3]))]
            elif kd == 'unexpected':
                body = ['  call void @vp_panic()']
            if op == 'invoke':
                raise IRError('invoke in replay')
        out += pre + body + post
    out.append(HOOKS)
    body = []
    for g, (t, init, const) in mod.globals.items():
        if g.startswith('llvm.'):
            continue
        if t[0] == 'struct' and not t[1]:
            continue
        body.append('  call void @vpr_global(ptr @%s, i64 %d)' % (q(g), allocsize(t)))
        if 'GLOBAL_PANIC_COUNT' in g:
            body.append('  call void @vpr_panicglobal(ptr @%s)' % q(g))
    out.append('define void @vp_globals() {\n' + '\n'.join(body) + '\n  ret void\n}')
    s = '\n'.join(out)
    # no function attributes that would let the code generator assume purity
    s = re.sub(r'^attributes #(\d+) = \{.*\}$', r'attributes #\1 = { nounwind }', s, flags=re.M)
    return s


def valhook(res, t, uid):
    if t[0] != 'i' or t[1] > 64:
        return []
    if t[1] == 64:
        return ['  call void @vpr_val(i64 %%%s)' % q(res)]
    return ['  %%vpw%d = zext i%d %%%s to i64' % (uid, t[1], q(res)), '  call void @vpr_val(i64 %%vpw%d)' % uid]


def tables(sched, per, anys, nows, nthreads, scen, has, race, noalloc, spark, solo):
    def arr(name, rows, ty='u64'):
        return 'const %s %s[] = {%s};' % (ty, name, ', '.join(rows) or '0')
    c = ['#include <stdint.h>', 'typedef uint64_t u64;', 'struct sched { int tid; int site; int point; int flags; };']
    c.append('const struct sched vp_sched[] = {%s};' % (', '.join('{%d,%d,1,0}' % x for x in sched) or '{0,0,0,0}'))
    c.append('const int vp_nsched = %d;' % len(sched))

    def pack(name, lists, fmt, ty):
        rows = []
        off = []
        ln = []
        for l in lists:
            off.append(len(rows))
            ln.append(len(l))
            rows += [fmt(x) for x in l]
        c.append('const %s %s[] = {%s};' % (ty, name, ', '.join(rows) or ('{0,0,0,0}' if 'struct' in ty else '0')))
        base = {'vp_per': 'vp_per', 'vp_anys': 'vp_any', 'vp_nows': 'vp_now'}[name]
        c.append('const int %s_off[] = {%s};' % (base, ', '.join(map(str, off))))
        c.append('const int %s_len[] = {%s};' % (base, ', '.join(map(str, ln))))
    pack('vp_per', per, lambda x: '{%d,%d,%d,%d}' % x, 'struct sched')
    pack('vp_anys', anys, lambda x: '%dull' % x, 'u64')
    pack('vp_nows', nows, lambda x: '%dull' % x, 'u64')
    c.append('const int vp_nthreads = %d, vp_have_fin = %d, vp_have_probe = %d, vp_race = %d, vp_noalloc = %d, '
             'vp_spurious_park = %d;' % (nthreads, 'fin' in has, 'probe' in has, race, 1 if noalloc else 0, spark))
    c.append('const int vp_solo = %d, vp_solo_any = %d;' % solo)
    for k in ('setup', 'fin', 'probe'):
        if k in has:
            c.append('void %s__%s(void); void vp_call_%s(void) { %s__%s(); }' % (scen, k, k, scen, k))
        else:
            c.append('void vp_call_%s(void) {}' % k)
    for i in range(nthreads):
        c.append('void %s__t%d(void);' % (scen, i))
    c.append('void (*const vp_threads[])(void) = {%s};' % (', '.join('%s__t%d' % (scen, i) for i in range(nthreads)) or '0'))
    return '\n'.join(c) + '\n'


def extract(sym, ev):
    """concrete schedule and inputs of a satisfying assignment"""
    o = sym.o

    def num(v, w):
        return sum((1 << i) for i, b in enumerate(o.bits(v, w)) if ev(b))
    sched = []
    per = [[] for _ in range(MAXT + 1)]
    anys = [[] for _ in range(MAXT + 1)]
    nows = [[] for _ in range(MAXT + 1)]
    log = []
    lines = []
    for (lit, tid, ins, text, vals, cname, pt) in sym.events:
        if not ev(lit):
            continue
        t = tid if isinstance(tid, int) else MAXT
        d = {l: num(v, w) for l, v, w in vals}
        if text == 'any':
            anys[t].append(d['value'])
        if text == 'now':
            nows[t].append(d['value'])
        lines.append('%-5s %-10s %s    %s' % (cname, text, ' '.join('%s=0x%x' % (k, x) for k, x in d.items()),
                                           ins.line.strip()[:120] if ins is not None else ''))
        if t == MAXT:
            continue
        if text == 'start':
            sched.append((t, -1))
        elif pt is not None:
            site = ins.x['site']
            per[t].append((t, site, 1 if pt else 0, d.get('stale', 0) + 2 * d.get('delayed', 0) + 4 * d.get('spur', 0)))
            if pt:
                sched.append((t, site))
            v = d.get('value', d.get('old'))
            if ins.op == 'store':
                v = None
            log.append((t, site, v))
    return sched, per, anys, nows, log, lines


def run(sym, irpath, ev, workdir, keep=None, cont=False):
    """compile and replay; returns (kind, id, text, log_ok, lines)"""
    sched, per, anys, nows, log, lines = extract(sym, ev)
    solo = -1
    for (lit, tid, ins, text, vals, cname, pt) in sym.events:
        if text == 'alone' and ev(lit):
            solo = tid
    if not cont:
        solo = -1
    fill = 0xA5 if sym.undef_bit is not None and ev(sym.undef_bit) else 0
    c = 'const int vp_fill = %d;\n' % fill + tables(sched, per, anys, nows, sym.nt, sym.scen, sym.has, 1 if sym.race else 0, sym.noalloc,
               1 if sym.spurious_park else 0, (solo, 1 if sym.solo == 'any' else 0))
    base = os.path.join(workdir, 'rp')
    obj = irpath + '.o'
    if not os.path.exists(obj):
        open(base + '.ll', 'w').write(instrument(open(irpath).read()))
        build.sh([build.LLVM + '/llc', '-O1', '-filetype=obj', '-relocation-model=pic', base + '.ll', '-o', obj])
    rto = os.path.join(workdir, 'rt.o')
    if not os.path.exists(rto):
        build.sh(['gcc', '-O1', '-w', '-c', os.path.join(os.path.dirname(__file__), 'rt.c'), '-o', rto])
    open(base + '.c', 'w').write(c)
    exe = base + '.exe'
    build.sh(['gcc', '-w', '-Wl,--unresolved-symbols=ignore-all', base + '.c', rto, obj, '-lpthread', '-o', exe])
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, errors='replace')
    m = re.search(r'^RESULT (\w+) (-?\d+) (.*)$', p.stdout, re.M)
    if not m:
        return 'error', 0, 'no result (exit %d) %s' % (p.returncode, p.stderr[-300:]), False, lines
    kind, id, text = m.group(1), int(m.group(2)), m.group(3)
    ok = None
    ml = re.search(r'^LOG (.*)$', p.stdout, re.M)
    if ml:
        toks = ml.group(1).split()
        got = []
        for tk in toks:
            if tk.startswith('='):
                got[-1][2] = int(tk[1:], 16)
            else:
                a, b = tk.split(':')
                got.append([int(a), int(b), None])
        ok = len(got) == len(log)
        if ok:
            for g, l in zip(got, log):
                if g[0] != l[0] or g[1] != l[1]:
                    ok = False
                    break
                if g[2] is not None and l[2] is not None and l[2] < 0x10000 and g[2] != l[2]:
                    ok = False
                    break
    if keep:
        os.makedirs(keep, exist_ok=True)
        shutil.copy(exe, os.path.join(keep, 'replay.exe'))
    return kind, id, text, ok, lines
