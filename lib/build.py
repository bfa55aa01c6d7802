"""Configure /repo out of tree with its own CMake, build (or reuse) the extractor, extract every library translation
unit in parallel and load the result.  Nothing is written under /repo."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('QRACK_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
CXXF = ['-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
        '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']
LDF = ['-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1']


class Broken(Exception):
    """the analysis itself cannot run or an anchor vanished: neither a pass nor a violation"""


def extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    binp = os.path.join(VERIF, 'tool', 'qextract')
    stamp = binp + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read().strip() == h:
        r = subprocess.run([binp], capture_output=True)
        if r.returncode == 2:
            return binp
    out = binp if os.access(os.path.dirname(binp), os.W_OK) else os.path.join(tempfile.mkdtemp(prefix='qx'), 'qextract')
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + CXXF + [src, '-s', '-o', tmp] + LDF, capture_output=True, text=True)
    if r.returncode:
        raise Broken('extractor does not build:\n' + r.stderr[-2000:])
    os.replace(tmp, out)
    open(out + '.sha', 'w').write(h + '\n')
    return out


def configure(work, opts=()):
    """returns (cfgdir, [(file, flags)]) for the library's translation units"""
    cfg = os.path.join(work, 'cfg')
    env = dict(os.environ, CC='gcc', CXX='g++')
    r = subprocess.run(['cmake', '-G', 'Ninja', '-S', REPO, '-B', cfg, '-DCMAKE_BUILD_TYPE=Release',
                        '-DENABLE_OPENCL=OFF', '-DENABLE_CUDA=OFF', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
                        '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + list(opts), capture_output=True, text=True, env=env)
    if r.returncode:
        raise Broken('cmake configure failed:\n' + (r.stdout + r.stderr)[-2000:])
    cc = json.load(open(os.path.join(cfg, 'compile_commands.json')))
    units = {}
    for c in cc:
        f = os.path.normpath(os.path.join(c['directory'], c['file']))
        if not f.startswith(os.path.join(REPO, 'src') + os.sep):
            continue
        toks = c['command'].split()
        fl = []
        i = 1
        while i < len(toks):
            t = toks[i]
            if t in ('-o', '-c'):
                i += 1 if t == '-o' else 0
            elif t in ('-I', '-isystem', '-D', '-U'):
                fl += [t, toks[i + 1]]
                i += 1
            elif t.startswith(('-I', '-D', '-U', '-std', '-m')):
                fl.append(t.replace('\\"', '"'))
            i += 1
        if f not in units:
            units[f] = fl
    return cfg, units


def extract(want=None, opts=(), keep=None):
    """want: None for every unit, or a list of path suffixes under src/"""
    from ir import Program
    t0 = time.time()
    work = keep or tempfile.mkdtemp(prefix='qsa')
    try:
        tool = extractor()
        cfg, units = configure(work, opts)
        files = sorted(units)
        if want is not None:
            miss = [w for w in want if not any(f.endswith('/src/' + w) for f in files)]
            if miss:
                raise Broken('translation units not in the build any more: %s' % miss)
            files = [f for f in files if any(f.endswith('/src/' + w) for w in want)]
        files = [f for f in files if not f.endswith('qrack_cl_precompile.cpp')]
        # biggest first, so the parallel tail is short
        files.sort(key=lambda f: -os.path.getsize(f))
        outs = {f: os.path.join(work, 'x%d.json' % i) for i, f in enumerate(files)}

        def go(f):
            r = subprocess.run([tool, REPO, outs[f], f, '--'] + units[f] + ['-Wno-everything', '-resource-dir', LLVM + '/lib/clang/18'],
                               capture_output=True, text=True, cwd=work)
            return f, r.returncode, r.stderr
        with ThreadPoolExecutor(8) as ex:
            for f, rc, err in ex.map(go, files):
                if rc:
                    raise Broken('cannot parse %s:\n%s' % (f, err[-1500:]))
        t1 = time.time()
        p = Program()
        for f in files:
            p.load(outs[f], os.path.relpath(f, REPO))
        p.finish()
        p.flags = units
        p.timing = (t1 - t0, time.time() - t1)
        return p
    finally:
        if keep is None:
            shutil.rmtree(work, ignore_errors=True)


def extract_text(text, name='witness.cpp', opts=()):
    """one more translation unit, written by a check, parsed against the headers of the current tree"""
    from ir import Program
    work = tempfile.mkdtemp(prefix='qsw')
    try:
        tool = extractor()
        cfg, units = configure(work, opts)
        fl = next((units[f] for f in sorted(units) if f.endswith('/src/qunit.cpp')), None) or units[sorted(units)[0]]
        src, out = os.path.join(work, name), os.path.join(work, 'w.json')
        with open(src, 'w') as f:
            f.write(text)
        r = subprocess.run([tool, REPO, out, src, '--'] + fl + ['-Wno-everything', '-resource-dir', LLVM + '/lib/clang/18'],
                           capture_output=True, text=True, cwd=work)
        if r.returncode:
            raise Broken('cannot parse the witness unit:\n%s' % r.stderr[-1500:])
        p = Program()
        p.load(out, name)
        p.finish()
        return p
    finally:
        shutil.rmtree(work, ignore_errors=True)
