#!/usr/bin/env python3
"""Build the model-checking harness against /repo's current working tree.

Both implementations (naive "n", fast "f") are compiled from /repo's own source list, given symbol
prefixes, and linked into one explorer binary. External crypto, entropy and sleep calls become vp_*;
the one-time-signature and SHAKE entry points become weak so that the explorer can interpose on them
(original bodies stay reachable as <prefix>real_<name>).
"""
import fcntl, glob, hashlib, os, re, shlex, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.environ.get('VP_WORK', os.path.join(os.path.dirname(HERE), '.work'))
SHIM = ['gen_leaf_wots', 'wots_pkgen', 'wots_sign', 'wots_pk_from_sig', 'shake128', 'shake256']
EXT = ['SHA256', 'SHA512', 'SHA256_Init', 'SHA256_Update', 'SHA256_Final', 'SHA512_Init', 'SHA512_Update', 'SHA512_Final', 'open', 'read', 'sleep', 'usleep', 'nanosleep', 'close', 'getrandom', 'getentropy', '__read_chk', '__open_2', 'open64', '__open64_2']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError('command failed: %s\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def make_var(expr):
    r = subprocess.run(['make', '-s', '--no-print-directory', '--eval', 'vpq: ; @echo "%s"' % expr, 'vpq'], cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout.split() if r.returncode == 0 else []

def sources():
    n = [s for s in make_var('$(SOURCES)') if s.endswith('.c')]
    f = [s for s in make_var('$(SOURCES_FAST)') if s.endswith('.c')]
    if not n or not f:
        allc = sorted(os.path.basename(p) for p in glob.glob(REPO + '/*.c'))
        n = [s for s in allc if s != 'xmss_core_fast.c']
        f = [s for s in allc if s != 'xmss_core.c']
    return n, f

def repo_cflags():
    return [x for x in make_var('$(CFLAGS)') if x.startswith(('-D', '-I', '-std', '-f', '-m', '-U'))]

def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d not in ('_build', 'test'))
        for f in sorted(files):
            if f.endswith(('.c', '.h')) or f == 'Makefile':
                out.append(os.path.join(root, f))
    return out

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

VARIANT = {  # name: (compile flags replacing -O3, link flags, extra redirected symbols)
    'mc': (['-O3'], [], []),
    'asan': (['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds'], ['-fsanitize=address,undefined'], []),
    'race': (['-O1', '-fsanitize=thread', '-fno-builtin'], [], ['memcpy', 'memmove', 'memset', 'memcmp', 'malloc', 'free', 'calloc', 'realloc', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_once']),
}

def build_variant(prefix, srcs, out, bd, variant='mc'):
    vflags, _, vext = VARIANT[variant]
    base = ['gcc'] + vflags + ['-g1', '-w', '-fPIC', '-fsemantic-interposition', '-ffunction-sections', '-fno-builtin-sleep', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0',
            '-fno-stack-protector', '-I', REPO] + repo_cflags()
    def one(s):
        o = os.path.join(bd, prefix + s.replace('/', '_')[:-2] + '.o')
        sh(base + ['-c', os.path.join(REPO, s), '-o', o], cwd=REPO)
        syms = sh(['readelf', '-sW', o]).splitlines()
        secs = {}
        for m in re.finditer(r'^\s*\[\s*(\d+)\]\s+(\S+)', sh(['readelf', '-SW', o]), re.M):
            secs[m.group(1)] = m.group(2)
        args = []
        for l in syms:
            c = l.split()
            if len(c) >= 8 and c[3] == 'FUNC' and c[4] == 'GLOBAL' and c[6] in secs and c[7] in SHIM:
                args += ['--weaken-symbol=' + c[7], '--add-symbol', 'real_%s=%s:0x%s,global,function' % (c[7], secs[c[6]], c[1])]
        if args:
            sh(['objcopy'] + args + [o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    r = os.path.join(bd, prefix + 'all.o')
    sh(['ld', '-r', '-o', r] + objs)
    lines = []
    defs = set()
    for l in sh(['nm', r]).splitlines():
        c = l.split()
        if len(c) == 3 and c[1] in 'TDBRWVCGS':
            defs.add(c[2])
        if len(c) == 2 and c[0] in 'Uw' and c[1] in EXT + vext:
            lines.append('%s vp_%s' % (c[1], c[1]))
    lines += ['%s %s%s' % (d, prefix, d) for d in sorted(defs)]
    mp = os.path.join(bd, prefix + 'map')
    open(mp, 'w').write('\n'.join(lines) + '\n')
    sh(['objcopy', '--redefine-syms=' + mp, r, out])
    return defs

def tools():
    """(name, source, -D flags, prefix) of every command-line tool in the Makefile"""
    names = [t for t in make_var('$(UI)') if t.startswith('ui/')]
    if len(names) < 12:
        names = ['ui/%s_%s%s' % (s, t, f) for f in ('', '_fast') for s in ('xmss', 'xmssmt') for t in ('keypair', 'sign', 'open')]
    out = []
    for t in names:
        m = re.match(r'ui/(xmss|xmssmt)_(\w+?)(_fast)?$', t)
        if m and os.path.exists(os.path.join(REPO, 'ui', m.group(2) + '.c')):
            out.append((t[3:], 'ui/%s.c' % m.group(2), ['-DXMSSMT'] if m.group(1) == 'xmssmt' else [], 'f_' if m.group(3) else 'n_'))
    return out

def build_tools(bd, variant, dn, df):
    """every tool's main() as tool_<name>(), on top of the prefixed library"""
    vflags = VARIANT[variant][0] if variant != 'race' else ['-O3']
    def one(t):
        name, src, defs, pre = t
        o = os.path.join(bd, 'tool_%s.o' % name)
        sh(['gcc'] + vflags + ['-g1', '-w', '-fPIC', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-stack-protector', '-I', REPO] + repo_cflags() + defs + ['-c', os.path.join(REPO, src), '-o', o], cwd=REPO)
        lib = dn if pre == 'n_' else df
        lines = []
        for l in sh(['nm', o]).splitlines():
            c = l.split()
            if len(c) == 2 and c[0] in 'Uw':
                if c[1] in lib: lines.append('%s %s%s' % (c[1], pre, c[1]))
                elif c[1] in ('malloc', 'calloc', 'realloc'): lines.append('%s vpt_%s' % (c[1], c[1]))
            elif len(c) == 3 and c[1] in 'TDBRVCGSW':
                lines.append('%s tool_%s%s' % (c[2], name, '' if c[2] == 'main' else '__' + c[2]))
        mp = o + '.map'
        open(mp, 'w').write('\n'.join(lines) + '\n')
        sh(['objcopy', '--redefine-syms=' + mp, o])
        return o
    ts = tools()
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, ts))
    g = os.path.join(bd, 'tools_gen.cpp')
    with open(g, 'w') as f:
        for t in ts: f.write('extern "C" int tool_%s(int, char **);\n' % t[0])
        f.write('struct ToolFn { const char *name; int (*fn)(int, char **); };\nextern const ToolFn TOOLS[];\nconst ToolFn TOOLS[] = {%s {0, 0}};\n' % ''.join('{"%s", tool_%s}, ' % (t[0], t[0]) for t in ts))
    sh(['g++', '-O1', '-c', g, '-o', g + '.o'])
    return objs + [g + '.o']

def real_tools():
    """the tools as the project's own Makefile builds them, in a directory of their own"""
    os.makedirs(WORK, exist_ok=True)
    d = os.path.join(WORK, 'build', 'real')
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest(repo_files())
        stamp = os.path.join(d, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == key: return d
        subprocess.run(['rm', '-rf', d]); os.makedirs(d + '/ui')
        for p in repo_files():
            r = os.path.relpath(p, REPO)
            os.makedirs(os.path.dirname(os.path.join(d, r)), exist_ok=True)
            open(os.path.join(d, r), 'wb').write(open(p, 'rb').read())
        sh(['make', '-j8'] + ['ui/' + t[0] for t in tools()], cwd=d, env={k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS')})
        open(stamp, 'w').write(key)
    return d

def build(variant='mc'):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant)

def _build(variant):
    hsrc = sorted(glob.glob(HERE + '/*.cpp') + glob.glob(HERE + '/*.hpp') + [__file__])
    key = digest(repo_files() + hsrc)
    hd = os.path.join(WORK, 'build')
    bd = os.path.join(hd, variant)
    mc = os.path.join(bd, 'mc')
    stamp = os.path.join(bd, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(mc):
        return mc
    os.makedirs(bd, exist_ok=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    ns, fs = sources()
    dn = build_variant('n_', ns, os.path.join(bd, 'n.o'), bd, variant)
    df = build_variant('f_', fs, os.path.join(bd, 'f.o'), bd, variant)
    have = [s for s in SHIM if ('real_' + s) in dn and ('real_' + s) in df]
    defs = ['-DHAVE_SHIM_%s=1' % s for s in have]
    if 'xmssmt_core_seed_keypair' in dn:
        defs.append('-DHAVE_SEED_KEYPAIR=1')
    hdrkey = digest([p for p in repo_files() if p.endswith('.h')] + [s for s in hsrc if s.endswith('.hpp')], ' '.join(defs))
    def comp(src):
        o = os.path.join(hd, 'h_' + os.path.basename(src)[:-4] + '.o')
        k = digest([src], hdrkey)
        kf = o + '.key'
        if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == k:
            return o
        opt = '-O3' if os.path.basename(src) in ('prim.cpp', 'ref.cpp') else '-O2'
        sh(['g++', '-std=c++17', opt, '-g1', '-w', '-I', REPO, '-I', HERE] + defs + ['-c', src, '-o', o])
        open(kf, 'w').write(k)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, [s for s in hsrc if s.endswith('.cpp')]))
    objs += build_tools(bd, variant, dn, df)
    sh(['g++', '-o', mc + '.tmp'] + VARIANT[variant][1] + objs + [os.path.join(bd, 'n.o'), os.path.join(bd, 'f.o'), '-lcrypto', '-lpthread', '-ldl', '-Wl,-z,noexecstack'])
    os.rename(mc + '.tmp', mc)
    open(stamp, 'w').write(key)
    return mc

if __name__ == '__main__':
    for v in sys.argv[1:] or list(VARIANT) + ['real']:
        try:
            print(real_tools() if v == 'real' else build(v))
        except RuntimeError as e:
            if v == 'mc':
                raise
            print('variant %s does not build: %s' % (v, e))
