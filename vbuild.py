"""Builds everything a check needs from /repo's current tree: the engine, the Qt model, the repository's bitcode,
the harness, and the native replay program. Results are cached by content under /verif/build (nothing in git)."""
import hashlib, os, re, subprocess, sys, threading, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
QT = '/usr/include/x86_64-linux-gnu/qt5'
MOC = '/usr/lib/qt5/bin/moc'
DEFS = ['-D_REENTRANT', '-DPILLOW_ZLIB', '-DQT_NO_DEBUG', '-DQT_NETWORK_LIB', '-DQT_SCRIPT_LIB', '-DQT_CORE_LIB']
INC = ['-I' + QT, '-I' + QT + '/QtNetwork', '-I' + QT + '/QtCore', '-I' + QT + '/QtScript']
PRIV = ['-I' + QT + '/QtCore/5.15.13', '-I' + QT + '/QtCore/5.15.13/QtCore']
LLF = ['-O1', '-gline-tables-only', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-mcmodel=large', '-ffp-contract=off', '-emit-llvm', '-w', '-ferror-limit=0']
QTHEADERS = 'QtCore/qobject.h QtCore/qiodevice.h QtCore/qfiledevice.h QtCore/qfile.h QtCore/qbuffer.h QtCore/qtimer.h QtNetwork/qabstractsocket.h QtNetwork/qtcpsocket.h QtNetwork/qtcpserver.h QtNetwork/qlocalserver.h QtNetwork/qlocalsocket.h QtNetwork/qnetworkreply.h QtNetwork/qnetworkaccessmanager.h QtNetwork/qnetworkcookiejar.h QtNetwork/qsslsocket.h'.split()
pool = ThreadPoolExecutor(10)
with open(os.path.abspath(__file__), 'rb') as f: SELF = f.read()

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout

def digest(paths, *extra):
    h = hashlib.sha256(SELF)
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    for e in extra: h.update(repr(e).encode() + b'\0')
    return h.hexdigest()[:20]

def tree(d, pat):
    r = []
    for base, _, fs in os.walk(d):
        for f in fs:
            if re.search(pat, f): r.append(os.path.join(base, f))
    return sorted(r)

def cached(kind, key, make):
    """make(dir) fills a fresh directory; returns its final path."""
    final = os.path.join(BUILD, kind + '-' + key)
    if os.path.isdir(final): return final
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='.' + kind + '-', dir=BUILD)
    try:
        make(tmp)
        try: os.rename(tmp, final)
        except OSError:
            if not os.path.isdir(final): raise
    finally:
        if os.path.isdir(tmp): shutil.rmtree(tmp, ignore_errors=True)
    # keep the few most recent of each kind
    olds = sorted([d for d in os.listdir(BUILD) if d.startswith(kind + '-')], key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in olds[:-12]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return final

def engine():
    src = tree(VERIF + '/engine', r'\.')
    return cached('engine', digest(src), lambda d: run(['bash', VERIF + '/engine/build.sh', d + '/engine'])) + '/engine'

def par(fns):
    fs = [pool.submit(f) for f in fns]
    errs = []
    for f in fs:
        try: f.result()
        except BuildError as e: errs.append(e)
    if errs: raise errs[0]

def moc(src, out, extra=()):
    run([MOC] + DEFS + INC + list(extra) + [src, '-o', out])

def link(bcs, out):
    run(['llvm-link-18'] + sorted(bcs) + ['-o', out])

def pch():
    """Precompiled Qt headers for clang (symbolic build) and g++ (native build)."""
    key = digest([VERIF + '/harness/qtall.h'], LLF)
    def make(d):
        shutil.copy(VERIF + '/harness/qtall.h', d + '/qtall.h')
        par([lambda: run(['clang++', '-std=c++14'] + LLF[:-3] + DEFS + INC + ['-fPIC', '-w', '-fpch-validate-input-files-content', '-x', 'c++-header', VERIF + '/harness/qtall.h', '-o', d + '/qtall.pch']),
             lambda: run(['g++', '-std=c++14', '-O0', '-g1', '-fsanitize=address', '-w', '-fPIC'] + DEFS + INC + ['-x', 'c++-header', d + '/qtall.h', '-o', d + '/qtall.h.gch'])])
    return cached('pch', key, make)

def model():
    src = tree(VERIF + '/qtmodel', r'\.(cpp|h)$')
    def make(d):
        os.makedirs(d + '/h'); os.makedirs(d + '/m')
        jobs = []
        for h in QTHEADERS:
            b = os.path.basename(h)[:-2]
            def one(h=h, b=b):
                with open(QT + '/' + h) as f: t = ''.join(l for l in f if 'Q_PRIVATE_SLOT' not in l)
                with open(d + '/h/' + b + '.h', 'w') as f: f.write(t)
                moc(d + '/h/' + b + '.h', d + '/m/moc_' + b + '.cpp')
                with open(d + '/m/moc_' + b + '.cpp') as f: t = f.read()
                t = re.sub(r'#include "[^"]*/%s\.h"' % b, '#include <%s>' % h, t).replace('#include "../h/%s.h"' % b, '#include <%s>' % h)
                with open(d + '/m/moc_' + b + '.cpp', 'w') as f: f.write(t)
                run(['clang++', '-std=c++14', '-c'] + LLF + ['-fno-access-control'] + DEFS + INC + PRIV + [d + '/m/moc_' + b + '.cpp', '-o', d + '/m/moc_' + b + '.bc'])
            jobs.append(one)
        for s in src:
            if s.endswith('.cpp'): jobs.insert(0, lambda s=s: run(['clang++', '-std=c++14', '-c'] + LLF + ['-fno-access-control'] + DEFS + INC + PRIV + ['-I' + VERIF + '/qtmodel', s, '-o', d + '/m/' + os.path.basename(s) + '.bc']))
        par(jobs)
        link(tree(d + '/m', r'\.bc$'), d + '/model.bc')
        shutil.rmtree(d + '/m'); shutil.rmtree(d + '/h')
    return cached('model', digest(src, LLF, QTHEADERS), make) + '/model.bc'

def repo_sources():
    pc = REPO + '/pillowcore'
    cpp = [f for f in tree(pc, r'\.cpp$') if 'QtScript' not in f]
    c = [f for f in tree(pc, r'\.c$') if os.path.basename(f) != 'thin.c']
    return cpp, c, tree(pc, r'\.(h|c|cpp|rl)$')

def uses_qobject(f):
    with open(f, errors='replace') as x: return 'Q_OBJECT' in x.read()

def mocs(d):
    """moc output for the repository's and the shim's classes, into d."""
    pc = REPO + '/pillowcore'
    jobs = []; units = []
    for h in tree(pc, r'\.h$') + [VERIF + '/harness/shim.h']:
        if 'QtScript' in h or 'PillowCore.h' in h or not uses_qobject(h): continue
        o = d + '/moc_' + os.path.basename(h)[:-2] + '.cpp'; units.append(o)
        jobs.append(lambda h=h, o=o: moc(h, o, ['-I' + pc]))
    for s in tree(pc, r'\.cpp$'):
        if 'QtScript' in s or not uses_qobject(s): continue
        jobs.append(lambda s=s: moc(s, d + '/' + os.path.basename(s)[:-4] + '.moc', ['-I' + pc]))
    par(jobs)
    return units

def unit_flags(d, src):
    f = ['-I' + d, '-I' + REPO + '/pillowcore', '-DPILLOWCORE_BUILD', '-I' + VERIF + '/harness']
    name = os.path.basename(src)
    if name in ('shim.cpp', 'moc_shim.cpp'): return f + (['-DSX_SHIM_IMPL'] if name == 'moc_shim.cpp' else [])
    return f + ['-include', REPO + '/pillowcore/pch.h', '-include', VERIF + '/harness/shim.h']

def mocs_for_harness(src, d):
    if uses_qobject(src): moc(src, d + '/' + os.path.basename(src)[:-4] + '.moc', ['-I' + REPO + '/pillowcore', '-I' + VERIF + '/harness'])

def repo_key(): return digest(repo_sources()[2] + tree(VERIF + '/harness', r'^(shim|qtall|native|sx)'), REPO, LLF)

def repo_bc():
    cpp, c, allsrc = repo_sources()
    p = pch()
    def make(d):
        units = cpp + mocs(d) + [VERIF + '/harness/shim.cpp']
        def bc(s): return d + '/' + os.path.basename(s) + '.bc'
        par([lambda s=s: run(['clang++', '-std=c++14', '-c', '-include-pch', p + '/qtall.pch', '-fPIC'] + LLF + DEFS + INC + unit_flags(d, s) + [s, '-o', bc(s)]) for s in units] +
            [lambda s=s: run(['clang', '-c'] + LLF + ['-I' + os.path.dirname(s), s, '-o', bc(s)]) for s in c])
        link(tree(d, r'\.bc$'), d + '/repo.bc')
        for f in tree(d, r'\.(bc|cpp|moc)$'):
            if not f.endswith('/repo.bc'): os.unlink(f)
    return cached('repo', repo_key(), make) + '/repo.bc'

def harness_bc(name):
    src = VERIF + '/harness/' + name + '.cpp'
    p = pch()
    def make(d):
        mocs_for_harness(src, d)
        run(['clang++', '-std=c++14', '-c', '-include-pch', p + '/qtall.pch', '-fPIC'] + LLF + DEFS + INC + unit_flags(d, src) + [src, '-o', d + '/h.bc'])
    return cached('hb_' + name, digest(tree(VERIF + '/harness', r'\.(h|cpp)$'), repo_key()), make) + '/h.bc'

def program(name):
    """Linked bitcode of model + repository + one harness."""
    fs = [pool2.submit(f) for f in (model, repo_bc, lambda: harness_bc(name))]
    m, r, h = [f.result() for f in fs]
    key = digest([m, r, h])
    def make(d):
        run(['llvm-link-18', h, r, m, '-o', d + '/all.bc'])
    return cached('prog_' + name, key, make) + '/all.bc'
pool2 = ThreadPoolExecutor(8)

NF = ['-O0', '-g1', '-fsanitize=address', '-w', '-fPIC']
def native_repo():
    cpp, c, allsrc = repo_sources()
    p = pch()
    def make(d):
        units = cpp + mocs(d) + [VERIF + '/harness/shim.cpp', VERIF + '/harness/native.cpp']
        def o(s): return d + '/' + os.path.basename(s) + '.o'
        par([lambda s=s: run(['g++', '-std=c++14', '-c', '-include', p + '/qtall.h'] + NF + DEFS + INC + unit_flags(d, s) + [s, '-o', o(s)]) for s in units] +
            [lambda s=s: run(['gcc', '-c'] + NF + ['-I' + os.path.dirname(s), s, '-o', o(s)]) for s in c])
        run(['ar', 'rcs', d + '/librepo.a'] + [x for x in tree(d, r'\.o$') if 'native.cpp' not in x])
        for f in tree(d, r'\.(o|cpp|moc)$'):
            if not f.endswith('native.cpp.o'): os.unlink(f)
    return cached('nrepo', repo_key(), make)

def native(name):
    src = VERIF + '/harness/' + name + '.cpp'
    p = pch()
    nr = pool2.submit(native_repo)
    def make(d):
        mocs_for_harness(src, d)
        run(['g++', '-std=c++14', '-c', '-include', p + '/qtall.h'] + NF + DEFS + INC + unit_flags(d, src) + [src, '-o', d + '/h.o'])
        n = nr.result()
        run(['g++', '-fsanitize=address', '-rdynamic', d + '/h.o', n + '/native.cpp.o', n + '/librepo.a', '-o', d + '/replay', '-lQt5Network', '-lQt5Core', '-lz', '-ldl'])
    return cached('native_' + name, digest(tree(VERIF + '/harness', r'\.(h|cpp)$'), repo_key()), make) + '/replay'

if __name__ == '__main__':
    engine(); pch(); model()
    for n in sys.argv[1:]:
        if n == '--all': continue
        print(program(n)); print(native(n))
