"""From /repo's working tree to optimised LLVM IR, one module per scenario."""
import fcntl
import glob
import os
import re
import shutil
import subprocess
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VP_REPO', '/repo')
TC = 'stable-x86_64-unknown-linux-gnu'
LLVM = os.path.expanduser('~/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin' % TC)
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))

IC = 'instcombine<no-verify-fixpoint>'
F = 'sroa,early-cse<memssa>,%s,simplifycfg,sccp,gvn,%s,adce,dse,simplifycfg' % (IC, IC)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:300], p.stderr[-4000:]))
    return p.stdout


def cargo(config, dest=None):
    """builds under a lock; dest: directory for a private copy of the result"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, config + '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        ll = cargo_locked(config)
        if dest:
            os.makedirs(dest, exist_ok=True)
            for f in (ll, ll[:-2] + 'bc'):
                shutil.copy(f, dest)
            ll = os.path.join(dest, os.path.basename(ll))
        return ll


def cargo_locked(config):
    """config: 'std' | 'nostd' (+ '-rel': without debug assertions) | 'unwind' (std, panics unwind).
    Returns the linked .ll text path"""
    feats = {'std': [], 'unwind': ['--features', 'unwind'], 'nostd': ['--no-default-features']}[config.split('-')[0]]
    panic = 'unwind' if config.startswith('unwind') else 'abort'
    dbg = 'off' if config.endswith('-rel') else 'on'
    td = os.path.join(BUILD, 'mc-' + config)
    env = dict(os.environ)
    env.pop('RUSTC_WRAPPER', None)
    env.update(RUSTUP_TOOLCHAIN=TC, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
               RUSTFLAGS='--emit=llvm-bc -C codegen-units=1 -C opt-level=3 -C no-prepopulate-passes '
                         '-C debug-assertions=%s -C panic=%s -C symbol-mangling-version=v0 -A warnings' % (dbg, panic))
    # emitted bitcode of an older build must not be picked up
    for f in glob.glob(os.path.join(td, 'debug/deps/*.bc')):
        if re.search(r'/(vph|thingbuf)-', f):
            os.unlink(f)
    for f in glob.glob(os.path.join(td, 'debug/.fingerprint/*')):
        if re.search(r'/(vph|thingbuf)-', f):
            for x in glob.glob(f + '/*'):
                os.unlink(x)
            os.rmdir(f)
    sh(['cargo', 'build', '--offline', '--locked', '--manifest-path', os.path.join(VERIF, 'mc/harness/Cargo.toml')] + feats, env=env)
    vph = glob.glob(os.path.join(td, 'debug/deps/vph-*.bc'))
    tb = glob.glob(os.path.join(td, 'debug/deps/thingbuf-*.bc'))
    if len(vph) != 1 or len(tb) != 1:
        raise BuildError('bitcode not found')
    out = os.path.join(td, 'linked.bc')
    sh([LLVM + '/llvm-link', vph[0], tb[0], '-o', out])
    ll = os.path.join(td, 'linked.ll')
    sh([LLVM + '/opt', '-passes=strip-dead-prototypes', '-strip-debug', '-S', out, '-o', ll])
    return ll


def entries(text, scen):
    return sorted(set(re.findall(r'@(%s__\w+)\(' % re.escape(scen), text)))


_ent = {}


def entries_of(ll, scen):
    if ll not in _ent:
        d = {}
        for m in re.finditer(r'^define [^\n]*?@(\w+?)__(setup|fin|probe|t\d)\(', open(ll).read(), flags=re.M):
            d.setdefault(m.group(1), set()).add(m.group(1) + '__' + m.group(2))
        _ent[ll] = d
    return sorted(_ent[ll].get(scen, ()))


def prep(s, keep):
    """calls that never return become vp_panic; everything else is made inlinable"""
    s = re.sub(r'^\s*(tail |musttail |notail )?call void @llvm\.x86\.sse2\.pause\(\).*\n', '', s, flags=re.M)
    s = re.sub(r'^\s*(tail )?call void @_RNvNtNt[^\n]*9functions9yield_now\(\).*\n', '', s, flags=re.M)
    att = {m.group(1): m.group(2) for m in re.finditer(r'^attributes #(\d+) = \{(.*)\}$', s, flags=re.M)}
    nr = set(k for k, v in att.items() if 'noreturn' in v.split())
    nrf = set()
    for m in re.finditer(r'^(?:declare|define)\b.*? @("[^"]+"|[\w.$]+)\(.*?#(\d+)[^\n]*$', s, flags=re.M):
        if m.group(2) in nr:
            nrf.add(m.group(1))
    nrf.add('llvm.trap')
    out = []
    for line in s.split('\n'):
        m = re.match(r'\s+((?:tail |musttail |notail )?call|invoke) .*?@("[^"]+"|[\w.$]+)\(', line)
        if m and m.group(2) in nrf and m.group(2) != 'vp_throw':
            line = '  %s void @vp_panic() #9999' % m.group(1).split()[-1]
        out.append(line)
    s = '\n'.join(out)

    def fixattr(m):
        v = re.sub(r'\b(noinline|cold|optnone|optsize|minsize|inlinehint|alwaysinline|uwtable|nonlazybind)\b ?', '',
                   m.group(2))
        return 'attributes #%s = {%s}' % (m.group(1), v if v.strip() else ' "vp" ')
    s = re.sub(r'^attributes #(\d+) = \{(.*)\}$', fixattr, s, flags=re.M)

    def fixdef(m):
        line = m.group(0)
        name = re.search(r'@("[^"]+"|[\w.$]+)\(', line).group(1)
        if name in keep or name in nrf:
            return line
        return re.sub(r' (#\d+)([^#]*)\{$', r' alwaysinline \1\2{', line)
    s = re.sub(r'^define .*\{$', fixdef, s, flags=re.M)
    s += '\ndeclare void @vp_panic() #9999\nattributes #9999 = { noreturn nounwind }\n'
    return s


# models of std::time::Instant over the engine's clock (half seconds, shared with
# the native replay); a value is (seconds, nanoseconds)
NS = 1000000000


def _ld(p, x):
    """load the Instant at %p as (%xs, %xn)"""
    return ['%%%ss = load i64, ptr %%%s, align 8' % (x, p), '%%%sp = getelementptr i8, ptr %%%s, i64 8' % (x, p), '%%%sn = load i32, ptr %%%sp, align 8' % (x, x)]


def _now(x):
    return ['%%%sk = call i64 @vp_now()' % x, '%%%ss = lshr i64 %%%sk, 1' % (x, x), '%%%sb = and i64 %%%sk, 1' % (x, x), '%%%st = trunc i64 %%%sb to i32' % (x, x),
            '%%%sn = mul i32 %%%st, 500000000' % (x, x)]


def _sub(x, y):
    """(%ds, %dn) = x - y; %neg: x < y"""
    return ['%%c = icmp ult i32 %%%sn, %%%sn' % (x, y), '%%d1 = sub i32 %%%sn, %%%sn' % (x, y), '%%d2 = add i32 %%d1, %d' % NS, '%dn = select i1 %c, i32 %d2, i32 %d1',
            '%%d3 = sub i64 %%%ss, %%%ss' % (x, y), '%cz = zext i1 %c to i64', '%ds = sub i64 %d3, %cz', '%neg = icmp slt i64 %ds, 0']


def _add(x, y):
    """(%ds, %dn) = x + y; %neg: overflow"""
    return ['%%d1 = add i32 %%%sn, %%%sn' % (x, y), '%%c = icmp uge i32 %%d1, %d' % NS, '%%d2 = sub i32 %%d1, %d' % NS, '%dn = select i1 %c, i32 %d2, i32 %d1',
            '%cz = zext i1 %c to i64', '%%d3 = add i64 %%%ss, %%%ss' % (x, y), '%ds = add i64 %d3, %cz', '%%ov = icmp ult i64 %%ds, %%%ss' % x,
            '%sg = icmp slt i64 %ds, 0', '%neg = or i1 %ov, %sg']


SAT = ['%rs = select i1 %neg, i64 0, i64 %ds', '%rn = select i1 %neg, i32 0, i32 %dn', 'R %rs %rn']
CHK = ['%%rn = select i1 %%neg, i32 %d, i32 %%dn' % NS, 'R %ds %rn']
ST = ['store i64 %ds, ptr %p, align 8', 'store i32 %dn, ptr %ap, align 8', 'R']
DI = '{ i64, i32 }'
TIME = {
    'now': (DI, '', _now('a') + ['R %as %an']),
    'elapsed': (DI, 'ptr %p', _ld('p', 'b') + _now('a') + _sub('a', 'b') + SAT),
    'duration_since': (DI, 'ptr %p, i64 %bs, i32 %bn', _ld('p', 'a') + _sub('a', 'b') + SAT),
    'checked_duration_since': (DI, 'ptr %p, i64 %bs, i32 %bn', _ld('p', 'a') + _sub('a', 'b') + CHK),
    'sub': (DI, 'i64 %as, i32 %an, i64 %bs, i32 %bn', _sub('a', 'b') + SAT),
    'add_d': (DI, 'i64 %as, i32 %an, i64 %bs, i32 %bn, ptr %l', _add('a', 'b') + ['PANIC %neg', 'R %ds %dn']),
    'sub_d': (DI, 'i64 %as, i32 %an, i64 %bs, i32 %bn, ptr %l', _sub('a', 'b') + ['R %ds %dn']),
    'checked_add': (DI, 'ptr %p, i64 %bs, i32 %bn', _ld('p', 'a') + _add('a', 'b') + CHK),
    'checked_sub': (DI, 'ptr %p, i64 %bs, i32 %bn', _ld('p', 'a') + _sub('a', 'b') + ['R %ds %dn']),
    'add_assign': ('void', 'ptr %p, i64 %bs, i32 %bn', _ld('p', 'a') + _add('a', 'b') + ST),
    'sub_assign': ('void', 'ptr %p, i64 %bs, i32 %bn', _ld('p', 'a') + _sub('a', 'b') + ST),
}
TIME['saturating_duration_since'] = TIME['duration_since']


def time_models(s):
    """definitions for the std::time::Instant functions the module calls"""
    out = []
    add = []
    for line in s.split('\n'):
        m = re.match(r'declare .*?@(\w+?4timeNtB\w_7Instant(\w+))\(', line)
        if not m:
            out.append(line)
            continue
        name, tail = m.group(1), m.group(2)
        k = None
        if tail.endswith('E3add'):
            k = 'add_d'
        elif tail.endswith('E3sub'):
            k = 'sub_d'
        else:
            for c in sorted(TIME, key=len, reverse=True):
                if tail.endswith('%d%s' % (len(c), c)):
                    k = c
                    break
        if k is None:
            out.append(line)
            continue
        ret, args, body = TIME[k]
        code = []
        for b in body:
            if b.startswith('PANIC'):
                code += ['  br i1 %s, label %%bad, label %%good' % b.split()[1], 'bad:', '  call void @vp_panic() #9999', '  unreachable', 'good:']
            elif b == 'R':
                code.append('  ret void')
            elif b.startswith('R '):
                r = b.split()[1:]
                code += ['  %%r0 = insertvalue { i64, i32 } poison, i64 %s, 0' % r[0],
                         '  %%r1 = insertvalue { i64, i32 } %%r0, i32 %s, 1' % (r[1] if len(r) > 1 else '0'), '  ret { i64, i32 } %r1']
            else:
                code.append('  ' + b)
        add.append('define internal %s @%s(%s) alwaysinline {\n%s\n}' % (ret, name, args, '\n'.join(code)))
    if add and not re.search(r'^declare.*@vp_now\(', s, flags=re.M):
        add.append('declare i64 @vp_now()')
    return '\n'.join(out + add) + '\n'


# ---- unwinding: the only source of an exception is vp_throw (user code that panics, or a panic
# resumed by the library); after inlining everything, it is a jump to the landing pad
def unwind_in(s):
    """before inlining: calls through pointers become direct, std's catch/resume use vp_throw"""
    tries = {}

    def spec(m):
        k = (m.group(1), m.group(3), m.group(5))
        n = tries.setdefault(k, 'vp_try%d' % len(tries))
        return '%s @%s(ptr %s)' % (m.group(1), n, m.group(4))
    s = re.sub(r'\b(i\d+) @(__rust_try\w*)\(ptr (@[\w.$]+), ptr (\S+), ptr (@[\w.$]+)\)', spec, s)
    s = re.sub(r'^define [^\n]*@__rust_try\w*\(.*?^\}\n', '', s, flags=re.M | re.S)
    for (t, f, c), n in tries.items():
        s += ('\ndefine internal %s @%s(ptr %%d) alwaysinline "target-cpu"="x86-64" personality ptr @rust_eh_personality {\nstart:\n  invoke void %s(ptr %%d)\n          to label %%a unwind label %%b\n\n'
              'a:\n  ret %s 0\n\nb:\n  %%l = landingpad { ptr, i32 }\n          catch ptr null\n  %%p = extractvalue { ptr, i32 } %%l, 0\n  call void %s(ptr %%d, ptr %%p)\n  ret %s 1\n}\n'
              % (t, n, f, t, c, t))
    defs = {}
    for m in re.finditer(r'^define .*? @("[^"]+"|[\w.$]+)\((.*)\)', s, flags=re.M):
        defs[m.group(1)] = m.group(0)
    body = re.sub(r'^(define|declare) [^\n]*', '', s, flags=re.M)
    taken = {}
    for m in re.finditer(r'@("[^"]+"|[\w.$]+)(\(?)', body):
        if m.group(1) in defs and not m.group(2):
            taken[m.group(1)] = fn_sig(defs[m.group(1)])
    out = []
    disp = {}
    for line in s.split('\n'):
        m = re.match(r'(\s+(?:%\S+ = )?(?:(?:tail |notail )?call|invoke) )(.*)$', line)
        if m:
            c = re.match(r'((?:\w+ |\w+\([^)]*\) )*?)(void|ptr|i\d+|\{[^}]*\}) (%[\w.$]+)\(', m.group(2))
            if c:
                ret, fp = c.group(2), c.group(3)
                rest = m.group(2)[c.end():]
                args, tail = split_args(rest)
                ts = [arg_type(a) for a in args]
                key = (ret, tuple(ts))
                if key not in disp:
                    disp[key] = 'vp_disp%d' % len(disp)
                line = '%s%s @%s(%s)%s' % (m.group(1), ret, disp[key], ', '.join(['ptr %s' % fp] + args), tail)
        out.append(line)
    s = '\n'.join(out)
    for (ret, ts), name in disp.items():
        b = ['define internal %s @%s(%s) alwaysinline "target-cpu"="x86-64" {' % (ret, name, ', '.join(['ptr %f'] + ['%s %%a%d' % (t, i) for i, t in enumerate(ts)]))]
        for k, (fn, sig) in enumerate(sorted(taken.items())):
            if sig != (ret, ts):
                continue
            b.append('  %%c%d = icmp eq ptr %%f, @%s\n  br i1 %%c%d, label %%y%d, label %%n%d\ny%d:' % (k, fn, k, k, k, k))
            a = ', '.join('%s %%a%d' % (t, i) for i, t in enumerate(ts))
            if ret == 'void':
                b.append('  call void @%s(%s)\n  ret void' % (fn, a))
            else:
                b.append('  %%r%d = call %s @%s(%s)\n  ret %s %%r%d' % (k, ret, fn, a, ret, k))
            b.append('n%d:' % k)
        b.append('  call void @vp_panic() #9999\n  unreachable\n}')
        s += '\n' + '\n'.join(b)
    res = []
    add = []
    for line in s.split('\n'):
        if line.startswith('declare '):
            name = re.search(r'@("[^"]+"|[\w.$]+)\(', line).group(1)
            if name.endswith('9panicking12catch_unwind7cleanup'):
                add.append('@vp_nothing = internal constant { ptr, i64, i64, ptr } { ptr null, i64 0, i64 1, ptr null }\n'
                           'define internal { ptr, ptr } @%s(ptr %%p) alwaysinline {\n  call void @vp_unwinding(i1 zeroext false)\n'
                           '  ret { ptr, ptr } { ptr inttoptr (i64 1 to ptr), ptr @vp_nothing }\n}' % name)
                continue
            if re.search(r'3std5panic13resume_unwind$|9panicking\w*resume_unwind$|rust_panic_without_hook$', name):
                add.append('define internal void @%s(ptr %%p, ptr %%v) alwaysinline {\n  call void @vp_throw()\n  unreachable\n}' % name)
                continue
            if name != 'vp_throw' and not name.startswith('llvm.'):
                line = re.sub(r'( #\d+)?$', r' nounwind\1', line, count=1)
        res.append(line)
    s = '\n'.join(res + add)
    for d in ('declare void @vp_unwinding(i1 zeroext) nounwind', 'declare void @vp_throw() noreturn'):
        if not re.search(r'^declare [^\n]*@%s\(' % re.search(r'@(\w+)', d).group(1), s, flags=re.M):
            s += '\n' + d
    return s + '\n'


def split_args(rest):
    """'a, b) tail' -> (['a', 'b'], ' tail')"""
    depth = 0
    args = []
    cur = ''
    for i, ch in enumerate(rest):
        if ch in '({[':
            depth += 1
        elif ch in ')}]':
            if depth == 0:
                if cur.strip():
                    args.append(cur.strip())
                return args, rest[i + 1:]
            depth -= 1
        if ch == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    raise BuildError('arguments: ' + rest[:80])


def arg_type(a):
    if a.startswith('{'):
        return a[:a.index('}') + 1]
    return a.split()[0]


def fn_sig(d):
    m = re.match(r'define (?:[\w]+ |\w+\([^)]*\) )*?(void|ptr|i\d+|\{[^}]*\}) @("[^"]+"|[\w.$]+)\((.*)$', d)
    if not m:
        return None
    args, _ = split_args(m.group(3))
    return m.group(1), tuple(arg_type(a) for a in args)


def unwind_out(s, es):
    """after inlining: throwing is a jump; what nobody catches ends the thread"""
    def fn(m):
        t = m.group(0)
        end = 'ret void' if re.search(r'@("[^"]+"|[\w.$]+)\(', t).group(1) in es else 'unreachable'
        if end == 'unreachable':
            # only its address is used: every call has been inlined
            t = re.sub(r'^(\s+)(?:tail )?call void @vp_throw\(\)[^\n]*', r'\1call void @vp_panic()', t, flags=re.M)
        t = re.sub(r'^(\s+)(?:tail )?call void @vp_throw\(\)[^\n]*\n\s+unreachable', r'\1call void @vp_unwinding(i1 zeroext true)\n\1ret void', t, flags=re.M)
        return re.sub(r'^(\s+)resume \{ ptr, i32 \}[^\n]*', r'\1' + end, t, flags=re.M)
    s = re.sub(r'^define .*?^\}', fn, s, flags=re.M | re.S)
    s = re.sub(r'^(\s+)invoke void @vp_throw\(\)[^\n]*\n\s+to label (%\S+) unwind label (%\S+)',
               r'\1call void @vp_unwinding(i1 zeroext true)\n\1br i1 true, label \3, label \2', s, flags=re.M)
    s = re.sub(r'^(\s+%\S+ = )landingpad \{ ptr, i32 \}\n(?:\s+(?:cleanup|catch|filter)[^\n]*\n)*', r'\1insertvalue { ptr, i32 } { ptr null, i32 0 }, i32 0, 1\n', s, flags=re.M)
    for d in ('declare void @vp_unwinding(i1 zeroext)', 'declare void @vp_panic()'):
        if not re.search(r'^declare [^\n]*@%s\(' % re.search(r'@(\w+)', d).group(1), s, flags=re.M):
            s += '\n' + d + '\n'
    s = re.sub(r' personality ptr @\w+', '', s)
    if re.search(r'\binvoke\b|@vp_throw\(', re.sub(r'^declare.*$', '', s, flags=re.M)):
        raise BuildError('unwinding that was not resolved: ' + re.search(r'[^\n]*(\binvoke\b|@vp_throw\()[^\n]*', re.sub(r'^declare.*$', '', s, flags=re.M)).group(0)[:200])
    return s


def scenario_ir(ll, scen, workdir):
    es = entries_of(ll, scen)
    if not es:
        raise BuildError('no entry points for scenario ' + scen)
    sub = os.path.join(workdir, scen + '.sub.ll')
    sh([LLVM + '/opt', '-passes=internalize,globaldce,strip-dead-prototypes', '-internalize-public-api-list=' + ','.join(es), ll[:-2] + 'bc', '-S',
        '-strip-debug', '-o', sub])
    text = open(sub).read()
    os.unlink(sub)
    src = os.path.join(workdir, scen + '.in.ll')
    dst = os.path.join(workdir, scen + '.ll')
    unw = 'll-unwind' in ll or 'mc-unwind' in ll
    text = time_models(text)
    if unw:
        text = unwind_in(text)
    open(src, 'w').write(prep(text, set(es)))
    pipeline = ('function(lower-expect),internalize,globaldce,always-inline,globaldce,function(%s,%s,loop-simplify,'
                'lcssa,loop(indvars,loop-deletion),%s,simplifycfg),globaldce,function(loop-simplify,lcssa)') % (F, F, F)
    sh([LLVM + '/opt', '-passes=' + pipeline, '-internalize-public-api-list=' + ','.join(es), src, '-S', '-o', dst])
    os.unlink(src)
    if unw:
        t = unwind_out(open(dst).read(), set(es))
        open(src, 'w').write(t)
        sh([LLVM + '/opt', '-passes=globaldce,function(%s,loop-simplify,lcssa),globaldce' % F, src, '-S', '-o', dst])
        os.unlink(src)
    return dst
