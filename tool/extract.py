"""Front end: /repo sources -> clang bitcode -> irdump JSON lines, one file per translation unit.

Nothing is executed.  Results are cached under /verif/.cache keyed by a hash of everything the
translation unit could read from the repository, the flags and the tool source, so a change of the
tree is always seen.
"""
import hashlib, json, os, subprocess, sys, glob, fnmatch
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))

FLAGS = ('-DHAVE_LIBNUMA -DPOCO_ENABLE_CPP11 -DPOCO_ENABLE_CPP14 -DPOCO_HAVE_FD_EPOLL -DPOCO_OS_FAMILY_UNIX '
         '-DPOCO_UNBUNDLED -DPOTHOS_DLL_EXPORTS -DPOTHOS_LIBRARY_NAME="libPothos.so" -D_FILE_OFFSET_BITS=64 '
         '-D_LARGEFILE64_SOURCE -D_REENTRANT -D_THREAD_SAFE -D_XOPEN_SOURCE=500 '
         '-I@REPO@/lib -I@REPO@/include -I/usr/include/muparserx -I/usr/include/nlohmann '
         '-std=gnu++14 -fPIC -DNDEBUG -w -O0 -Xclang -disable-O0-optnone -flto -fwhole-program-vtables '
         '-g -fstandalone-debug -emit-llvm -c')


class AnalysisError(Exception):
    """The front end or an anchor failed: no verdict."""


def flags():
    return [f.replace('@REPO@', REPO) for f in FLAGS.split()]


SKIP = ['*Windows*', '*OSX*', '*/SIMD/*', '*/System/SIMD.cpp', '*.in.cpp', '*/Test*.cpp', '*Tests.cpp',
        '*/Testing/*', '*Msvc*', '*BSD*', '*NumaInfoOther*']


def all_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'lib')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if not f.endswith('.cpp'):
                continue
            if any(fnmatch.fnmatch(p, s) for s in SKIP):
                continue
            out.append(os.path.relpath(p, REPO))
    return out


def expand(globs):
    """repo-relative glob patterns -> sources.  '+x.cpp' names a driver unit in /verif/tool/units"""
    srcs = all_sources()
    out = []
    for g in globs:
        if g.startswith('+'):
            out.append(g)
            continue
        m = [s for s in srcs if fnmatch.fnmatch(s, g)]
        for s in m:
            if s not in out:
                out.append(s)
    return out


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for top in ('include', 'lib'):
            for root, dirs, files in os.walk(os.path.join(REPO, top)):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith(('.hpp', '.h', '.hxx', '.inl', '.ipp')):
                        p = os.path.join(root, f)
                        h.update(p.encode())
                        with open(p, 'rb') as fp:
                            h.update(fp.read())
        h.update(' '.join(flags()).encode())
        with open(os.path.join(HERE, 'irdump.cpp'), 'rb') as fp:
            h.update(fp.read())
        _hdr = h.hexdigest()
    return _hdr


def build_irdump():
    src = os.path.join(HERE, 'irdump.cpp')
    with open(src, 'rb') as fp:
        key = hashlib.sha256(fp.read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'irdump-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
               '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build irdump: ' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def extract_one(src):
    """returns path of the jsonl"""
    exe = build_irdump()
    if src.startswith('+'):
        path = os.path.join(HERE, 'units', src[1:])
        extra = ['-femit-all-decls'] if False else []
    else:
        path = os.path.join(REPO, src)
        extra = []
    with open(path, 'rb') as fp:
        body = fp.read()
    key = hashlib.sha256(header_hash().encode() + path.encode() + b'\0' + body + b'\0' + REPO.encode()).hexdigest()[:24]
    out = os.path.join(CACHE, key + '.jsonl')
    if os.path.exists(out):
        return out
    bc = os.path.join(CACHE, key + '.%d.bc' % os.getpid())
    r = subprocess.run(['clang++-18'] + flags() + extra + [path, '-o', bc], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot compile %s:\n%s' % (path, r.stderr[-3000:]))
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([exe, bc, tmp, REPO + '/'], capture_output=True, text=True)
    os.unlink(bc)
    if r.returncode:
        raise AnalysisError('irdump failed on %s: %s' % (path, r.stderr[-2000:]))
    os.replace(tmp, out)
    return out


def extract(srcs):
    build_irdump()
    header_hash()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(extract_one, srcs))


def prune_cache(limit=3 << 30):
    fs = []
    for f in glob.glob(os.path.join(CACHE, '*.jsonl')):
        try:
            st = os.stat(f)
            fs.append((st.st_mtime, st.st_size, f))
        except OSError:
            pass
    tot = sum(x[1] for x in fs)
    for mt, sz, f in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= sz


if __name__ == '__main__':
    import time
    t = time.time()
    s = expand(sys.argv[1:] or ['*'])
    fs = extract(s)
    for a, b in zip(s, fs):
        print(a, os.path.getsize(b))
    print(len(s), 'units', sum(os.path.getsize(f) for f in fs), 'bytes', round(time.time() - t, 1), 's')
