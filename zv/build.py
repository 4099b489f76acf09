"""Builds everything under test from /repo's working tree.

Output goes to /verif/build/<hash of sources and harness>, so a build is
reused only when every input is byte-identical.  Nothing is written in /repo.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NATIVE = os.path.join(VERIF, 'native')

WRAP = ('read pread write pwrite writev open open64 openat creat close unlink access rmdir remove rename mkdir '
        'truncate ftruncate fsync fdatasync time gettimeofday clock_gettime recv epoll_ctl send fallocate statvfs zdb_open').split()
# open64 & co: gcc with -D_FILE_OFFSET_BITS=64 renames some of them
SAN = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
# no fortified variants of open(), read(): they would not be interposed
BASE = ['-g', '-O1', '-std=gnu11', '-w', '-fno-common', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0']
if os.uname().machine == 'x86_64':
    BASE.append('-msse4.2')
DEFS = ['-DZDB_REVISION="verif"', '-DZDBD_REVISION="verif"']


class BuildError(Exception):
    pass


def _sources():
    out = []
    for pat in ('libzdb/*.[ch]', 'zdbd/*.[ch]', 'tools/*/*.[ch]', 'utilities/*/*.[ch]'):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    for pat in ('*.c', '*.h', '*.cc', '*.dict'):
        out += sorted(glob.glob(os.path.join(NATIVE, pat)))
    out.append(os.path.abspath(__file__))
    return out


def source_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(os.path.relpath(p, '/').encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def _compile(jobs, pool):
    list(pool.map(lambda j: _run(j), jobs))


def _objs(out, tag, files, flags, cc='gcc'):
    jobs, objs = [], []
    d = os.path.join(out, 'obj-' + tag)
    os.makedirs(d, exist_ok=True)
    for f in files:
        o = os.path.join(d, os.path.basename(os.path.dirname(f)) + '-' + os.path.basename(f) + '.o')
        jobs.append([cc] + flags + ['-I', REPO + '/libzdb', '-I', REPO + '/zdbd', '-I', NATIVE, '-c', f, '-o', o])
        objs.append(o)
    return jobs, objs


def _lib():
    return sorted(glob.glob(REPO + '/libzdb/*.c'))


def _zdbd():
    return sorted(glob.glob(REPO + '/zdbd/*.c'))


WRAPFLAGS = ['-Wl,' + ','.join('--wrap=' + w for w in WRAP)]
WRAPFLAGS_LIB = WRAPFLAGS


def build_all(out):
    os.makedirs(out, exist_ok=True)
    pool = ThreadPoolExecutor(os.cpu_count() or 4)
    jobs = []

    def group(tag, files, flags):
        j, o = _objs(out, tag, files, BASE + DEFS + flags)
        jobs.extend(j)
        return o

    lib = group('lib', _lib(), SAN)
    srv = group('zdbd', _zdbd(), SAN)
    rlib = group('rlib', _lib(), ['-O2', '-DRELEASE'])
    rsrv = group('rzdbd', _zdbd(), ['-O2', '-DRELEASE'])
    shim = group('shim', [NATIVE + '/shim.c'], ['-O2'])
    tools = {}
    for name, d in (('index-rebuild', 'index-rebuild'), ('index-dump', 'index-dump'),
                    ('integrity-check', 'integrity-check'), ('namespace-dump', 'namespace-dump'),
                    ('namespace-editor', 'namespace-editor'), ('quick-compact', 'quick-compaction')):
        files = sorted(glob.glob(REPO + '/tools/%s/*.c' % d))
        if files:
            tools[name] = group('t-' + name, files, SAN)
    utils = {}
    if os.path.exists('/usr/include/hiredis/hiredis.h'):
        # they reach the servers through unix sockets
        conn = group('u-conn', [NATIVE + '/unixredis.c'], SAN)
        for name in ('db-replicate', 'db-sync'):
            files = sorted(glob.glob(REPO + '/utilities/%s/*.c' % name))
            if files:
                utils[name] = group('u-' + name, files, SAN) + conn
    natives = {}
    for f in sorted(glob.glob(NATIVE + '/*.c')):
        n = os.path.basename(f)[:-2]
        if n in ('shim', 'unixredis') or n.startswith('fuzz'):
            continue
        if n == 'hooker':
            # a program of its own, started by the server
            jobs.append(['gcc', '-O2', '-static', f, '-o', out + '/hooker'])
            continue
        extra, flags = [], []
        if n == 'digest' and os.path.exists(REPO + '/libzdb/crc32.c'):
            # the portable implementation, beside the accelerated one
            flags = ['-DZV_SOFT']
            extra = group('soft', [REPO + '/libzdb/crc32.c'], SAN + [
                '-mno-sse4.2', '-Dzdb_crc32=zv_soft_crc32', '-Dzdb_crc32_engine_value=zv_soft_engine'])
        natives[n] = group('n-' + n, [f], SAN + flags) + extra

    _compile(jobs, pool)
    links = []
    links.append(['gcc'] + SAN + WRAPFLAGS + srv + lib + shim + ['-o', out + '/zdb'])
    links.append(['gcc'] + WRAPFLAGS + rsrv + rlib + shim + ['-o', out + '/zdb-rel'])
    for n, o in tools.items():
        links.append(['gcc'] + SAN + WRAPFLAGS + o + lib + shim + ['-o', out + '/' + n])
    for n, o in natives.items():
        links.append(['gcc'] + SAN + WRAPFLAGS + o + lib + shim + ['-o', out + '/' + n, '-lm'])
    _compile(links, pool)
    for n, o in utils.items():
        # utilities are optional: they need hiredis
        _run(['gcc'] + SAN + ['-Wl,--wrap=redisConnectWithTimeout,--wrap=redisConnect'] + o + ['-o', out + '/' + n, '-lhiredis'])
    for d in glob.glob(out + '/obj-*'):
        shutil.rmtree(d)
    with open(out + '/.ok', 'w') as f:
        f.write('ok\n')


def ensure():
    """Returns the directory holding the binaries for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, source_hash())
    if os.path.exists(out + '/.ok'):
        os.utime(out)
        return out
    with open(BUILD + '/.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out + '/.ok'):
            return out
        tmp = tempfile.mkdtemp(prefix='.tmp-', dir=BUILD)
        try:
            build_all(tmp)
            if os.path.exists(out):
                shutil.rmtree(out)
            os.chmod(tmp, 0o755)
            os.rename(tmp, out)
        finally:
            if os.path.exists(tmp):
                shutil.rmtree(tmp, ignore_errors=True)
        # keep a few recent builds only
        olds = sorted((d for d in glob.glob(BUILD + '/*') if os.path.isdir(d) and d != out),
                      key=os.path.getmtime)
        for d in olds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == '__main__':
    try:
        print(ensure())
    except BuildError as e:
        print('build failed:', e, file=sys.stderr)
        sys.exit(2)
