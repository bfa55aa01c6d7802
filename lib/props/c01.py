"""C01: every configuration the build offers compiles.

The type checker is the deciding analysis: every library source the build selects is checked, under each configuration of a
covering set of option values, with the project's own flags (warnings are not errors here).  Then, on the parsed default
configuration, every declared operation of a class and every declared function has a definition, so that no caller is left
with an unresolved name."""
import json, os, re, shlex, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build
from ir import *

QUICK = [
    ('full', ['ENABLE_REG_GATES=ON', 'ENABLE_BCD=ON', 'ENABLE_ROT_API=ON', 'ENABLE_QBDT_CPU_PARALLEL=ON', 'ENABLE_VM6502Q_DEBUG=ON']),
    ('minimal', ['ENABLE_ALU=OFF', 'ENABLE_QBDT=OFF', 'ENABLE_PTHREAD=OFF', 'ENABLE_ENV_VARS=OFF', 'ENABLE_RDRAND=OFF']),
    ('double', ['FPPOW=6', 'UINTPOW=5', 'QBCAPPOW=6', 'ENABLE_RDRAND=OFF', 'ENABLE_DEVRAND=ON', 'ENABLE_BCD=ON']),
    ('half, 256 qubits', ['FPPOW=4', 'QBCAPPOW=8', 'CPP_STD=11', 'ENABLE_QUNIT_CPU_PARALLEL=OFF', 'ENABLE_REG_GATES=ON']),
    ('32 bit, single thread', ['ENABLE_PURE32=ON', 'UINTPOW=5', 'ENABLE_PTHREAD=OFF', 'ENABLE_RNDFILE=ON', 'ENABLE_RDRAND=OFF',
                               'ENABLE_ROT_API=ON', 'CPP_STD=20']),
]
THOROUGH = [(o, o.split()) for o in (
    'FPPOW=4', 'FPPOW=6', 'FPPOW=7', 'UINTPOW=4', 'UINTPOW=5', 'QBCAPPOW=6', 'QBCAPPOW=8', 'QBCAPPOW=12', 'ENABLE_PURE32=ON',
    'ENABLE_REG_GATES=ON', 'ENABLE_BCD=ON', 'ENABLE_ROT_API=ON', 'ENABLE_ALU=OFF', 'ENABLE_QBDT=OFF', 'ENABLE_PTHREAD=OFF',
    'ENABLE_QBDT_CPU_PARALLEL=ON', 'ENABLE_QUNIT_CPU_PARALLEL=OFF', 'ENABLE_RDRAND=OFF', 'ENABLE_RDRAND=OFF ENABLE_DEVRAND=ON',
    'ENABLE_RDRAND=OFF ENABLE_RNDFILE=ON', 'ENABLE_RDRAND=OFF SEED_DEVRAND=OFF', 'ENABLE_ENV_VARS=OFF', 'CPP_STD=11',
    'CPP_STD=17', 'CPP_STD=20', 'ENABLE_COMPLEX_X2=OFF ENABLE_SSE3=OFF', 'ENABLE_VM6502Q_DEBUG=ON')]


def jobs(work, confs):
    def conf(i):
        name, opts = confs[i]
        d = os.path.join(work, 'c%d' % i)
        r = subprocess.run(['cmake', '-G', 'Ninja', '-S', build.REPO, '-B', d, '-DCMAKE_BUILD_TYPE=Release', '-DENABLE_OPENCL=OFF',
                            '-DENABLE_CUDA=OFF', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] +
                           ['-D' + o for o in opts], capture_output=True, text=True, env=dict(os.environ, CC='gcc', CXX='g++'))
        if r.returncode:
            raise build.Broken('configuration %s: %s' % (name, (r.stdout + r.stderr)[-1500:]))
        return name, d
    with ThreadPoolExecutor(6) as ex:
        ds = list(ex.map(conf, range(len(confs))))
    out = []
    for name, d in ds:
        seen = set()
        for c in json.load(open(os.path.join(d, 'compile_commands.json'))):
            f = os.path.normpath(os.path.join(c['directory'], c['file']))
            if not f.startswith(os.path.join(build.REPO, 'src') + os.sep) or f in seen:
                continue
            seen.add(f)
            t = shlex.split(c['command'])
            i = t.index('-o')
            del t[i:i + 2]
            t = [x for x in t if not re.match(r'-O\d|-Werror|-Wall', x)]
            if f.endswith('/src/pinvoke_api.cpp') and os.path.exists(os.path.join(os.path.dirname(f), 'wasm_api.cpp')):
                w = os.path.join(os.path.dirname(f), 'wasm_api.cpp')
                out.append((name, w, [w if os.path.normpath(os.path.join(c['directory'], x)) == f else x for x in t] +
                            ['-fsyntax-only', '-O0', '-w', '-fmax-errors=3'], c['directory']))
            out.append((name, f, t + ['-fsyntax-only', '-O0', '-w', '-fmax-errors=3'], c['directory']))
    out.sort(key=lambda j: -os.path.getsize(j[1]))
    return out


def one(j):
    name, f, cmd, cwd = j
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    errs = []
    if r.returncode:
        top = ''
        for l in r.stderr.splitlines():
            m = re.match(r'(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)', l)
            if m:
                errs.append((os.path.relpath(m.group(1), build.REPO) if m.group(1).startswith(build.REPO) else m.group(1),
                             m.group(2), m.group(3)))
        if not errs:
            raise build.Broken('the compiler does not run: ' + r.stderr[-500:])
    return name, f, errs


def run(rep, ctx):
    rep.rule('compiles', 'every source file the build selects type-checks in every configuration of the covering set')
    rep.rule('defined', 'every operation that is declared (and not pure, deleted or defaulted) is defined')
    confs = list(QUICK) + (THOROUGH if ctx.tier == 'thorough' else [])
    work = tempfile.mkdtemp(prefix='qc01')
    try:
        js = jobs(work, confs)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, js))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    opts = dict(confs)
    for name, f, errs in sorted(res):
        rel = os.path.relpath(f, build.REPO)
        e = errs[0] if errs else (rel, '0', '')
        rep.check('compiles', not errs, '%s: %s' % (name, rel), '%s:%s' % (e[0], e[1]),
                  'with -D%s: %s' % (' -D'.join(opts[name]), e[2]))
    p = ctx.program()
    n = 0
    defined = set(p.fns)
    for q, c in sorted(p.classes.items()):
        if not q.startswith('Qrack::') and q != 'BigInteger':
            continue
        for m in c['methods']:
            n += 1
            if m.get('pure') or m.get('implicit') or m.get('deleted') or m.get('acc') != 'public':
                continue
            rep.check('defined', m['id'] in defined, 'method %s::%s %s' % (q, m['n'], m['id']), q,
                      '%s::%s is declared but has no definition in the library' % (q, m['n']))
    ncall = 0
    bad = {}
    for f in p.fns.values():
        for x in (f.body.walk() if f.body is not None else ()):
            if x.k == 'call' and x.get('fid') and (x.get('q') or '').startswith('Qrack::') and not x.get('virt') \
                    and 'anonymous class' not in x.get('q'):
                ncall += 1
                if x.get('fid') not in defined and x.get('fid') not in bad:
                    m = p.method_cls.get(x.get('fid'))
                    if m and (m[1].get('pure') or m[1].get('implicit') or m[1].get('deleted')):
                        continue
                    bad[x.get('fid')] = (f, x)
    for fid, (f, x) in sorted(bad.items()):
        rep.check('defined', False, 'call ' + fid, f.loc(x), '%s calls %s, which is not defined' % (f.q, x.get('q')))
    napi = exported(rep, p)
    rep.floor('configurations', len(confs), 5)
    rep.floor('source files times configurations', len(res), 90)
    rep.floor('declared operations', n, 500)
    rep.floor('calls of library functions', ncall, 2000)
    rep.floor('exported C functions', napi, 100)
    rep.note('configurations: ' + '; '.join('%s = %s' % (a, ' '.join(b)) for a, b in confs))


def exported(rep, p):
    """functions the C API header declares, read from its preprocessed text"""
    flags = [fl for f, fl in p.flags.items() if f.endswith('/src/pinvoke_api.cpp')]
    if not flags:
        raise build.Broken('src/pinvoke_api.cpp is not in the build')
    h = os.path.join(build.REPO, 'include', 'pinvoke_api.hpp')
    inc = [x for x in flags[0] if not x.startswith('-m')]
    d = tempfile.mkdtemp(prefix='qc01')
    try:
        # the configured header directory of the parsed program is gone by now: configure once more
        cfg, units = build.configure(d)
        fl = [v for f, v in units.items() if f.endswith('/src/pinvoke_api.cpp')][0]
        r = subprocess.run(['g++', '-E', '-x', 'c++'] + fl + [h], capture_output=True, text=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r.returncode:
        raise build.Broken('pinvoke_api.hpp cannot be preprocessed: ' + r.stderr[-500:])
    mine, text = False, []
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            mine = m.group(1) == h
        elif mine and not l.startswith('#'):
            text.append(l)
    text = ' '.join(text)
    names = set()
    for s in re.split(r'[;{}]', text):
        if re.match(r'\s*(typedef|using|struct|enum)\b', s):
            continue
        m = re.match(r'[^(]*?\b(\w+)\s*\(', re.sub(r'extern\s*"C"|__attribute__\s*\(\(.*?\)\)', '', s))
        if m:
            names.add(m.group(1))
    have = {f.name for f in p.fns.values() if not f.cls}
    for nme in sorted(names):
        rep.check('defined', nme in have, 'exported ' + nme, 'include/pinvoke_api.hpp',
                  'the C API declares %s but nothing defines it' % nme)
    return len(names)
