"""Builds the LLVM IR of /repo's current tree (in a scratch directory) and exports it as JSON.

Nothing of the program is run: sources are copied, bison makes the parser the way the
project's Makefile does, clang compiles every unit the Makefile compiles with the
Makefile's own -D/-I flags, and tool/irx dumps the linked program."""
import os, re, shlex, shutil, subprocess, sys, tempfile, hashlib, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('JSISH_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError('command failed: %s\n%s%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), r.stdout[-2000:], r.stderr[-4000:]))
    return r.stdout

def tool():
    """Returns the path of the exporter, building it when it is absent or older than its source."""
    src = os.path.join(HERE, 'tool', 'irx.cpp')
    d = os.path.join(HERE, 'build')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(d, 'irx-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    cxx = run(['llvm-config-18', '--cxxflags']).replace('-fno-exceptions', '').split()
    ld = run(['llvm-config-18', '--ldflags', '--libs', '--system-libs']).split()
    tmp = exe + '.%d' % os.getpid()
    run(['clang++-18', '-O1', '-w'] + cxx + [src, '-o', tmp] + ld)
    os.rename(tmp, exe)
    return exe

_tmps = []
def _cleanup():
    for t in _tmps:
        shutil.rmtree(t, ignore_errors=True)
atexit.register(_cleanup)

def scratch():
    t = tempfile.mkdtemp(prefix='jsishsa.')
    _tmps.append(t)
    return t

def stage():
    """Copies the sources to a scratch tree, makes make.conf and the parser as build.sh does."""
    t = os.path.join(scratch(), 'tree')
    os.makedirs(t)
    for n in sorted(os.listdir(REPO)):
        if n in ('.git', '_build'):
            continue
        p = os.path.join(REPO, n)
        if os.path.isdir(p) and not os.path.islink(p):
            if n in ('src', 'miniz', 'Configs', 'tools', 'lib', 'regex', 'win', 'sqlite'):
                shutil.copytree(p, os.path.join(t, n), symlinks=True,
                    ignore=shutil.ignore_patterns('*.o', '*.d', 'parser.c', 'parser.h', 'parser.output'))
        else:
            shutil.copy2(p, os.path.join(t, n), follow_symlinks=False)
    conf = open(os.path.join(t, 'Configs', 'make_default.conf')).read()
    conf = re.sub(r'(?m)^WITH_EXT_WEBSOCKET=1', 'WITH_EXT_WEBSOCKET=0', conf)
    conf = re.sub(r'(?m)^(BUILDIN_.*)=1', r'\1=0', conf)
    conf = conf.replace('-DJSI__WEBSOCKET=1', '-DJSI__WEBSOCKET=0')
    open(os.path.join(t, 'make.conf'), 'w').write(conf)
    open(os.path.join(t, '.depend'), 'w').write('\n')
    run(['bison', '-v', '-osrc/parser.c', '-d', 'src/parser.y'], cwd=t)
    return t

def units(t):
    out = run(['make', '-n', '-B', 'CC=gcc', 'SQLITELIB=', 'EXTRALD=-lsqlite3', 'libjsi.so'], cwd=t)
    res = []
    for line in out.splitlines():
        if not re.match(r'\s*gcc\s', line) or ' -c ' not in line:
            continue
        a = shlex.split(line)
        src = [x for x in a if x.endswith('.c')]
        fl = [x for x in a if x.startswith('-D') or x.startswith('-I')]
        if len(src) != 1:
            continue
        res.append((src[0], fl))
    if len(res) < 35:
        raise BuildError('only %d compile commands found in the Makefile output' % len(res))
    return res

def compile_all(t, extra=()):
    us = units(t)
    def one(u):
        src, fl = u
        o = os.path.join(t, re.sub(r'[^A-Za-z0-9]', '_', src) + '.bc')
        run(['clang-18', '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug',
             '-w', '-fno-discard-value-names', '-o', o] + list(extra) + fl + [src], cwd=t)
        return o
    with ThreadPoolExecutor(8) as ex:
        return us, list(ex.map(one, us))

def tree_hash():
    h = hashlib.sha256()
    for d in ('src', 'miniz', 'Configs', '.'):
        p = os.path.join(REPO, d)
        for n in sorted(os.listdir(p)):
            f = os.path.join(p, n)
            if os.path.isfile(f) and (d != '.' or n == 'Makefile') and not n.endswith(('.o', '.d')):
                h.update(('%s/%s\0' % (d, n)).encode()); h.update(open(f, 'rb').read())
    for f in (os.path.join(HERE, 'tool', 'irx.cpp'), os.path.join(HERE, 'sa', 'build.py')):
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

def export(inline=0, keep=()):
    """JSON path of the exported program; cached by content only when JSISH_SA_CACHE is set (development)."""
    cache = os.environ.get('JSISH_SA_CACHE')
    key = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        key = os.path.join(cache, '%s-%d-%s.json' % (tree_hash(), inline, hashlib.sha256(' '.join(sorted(keep)).encode()).hexdigest()[:8]))
        if os.path.exists(key):
            return key
    exe = tool()
    t = stage()
    us, bcs = compile_all(t)
    out = key + '.%d' % os.getpid() if key else os.path.join(t, 'prog.json')
    kf = os.path.join(t, 'keep.txt')
    open(kf, 'w').write('\n'.join(keep))
    run([exe, out] + (['-inline', str(inline), '-keep', kf] if inline else []) + bcs, cwd=t)
    if key:
        os.rename(out, key)
        return key
    return out

if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        print('exporter:', tool())
    else:
        print(export(int(sys.argv[1]) if len(sys.argv) > 1 else 0))
