"""P33: the options of the server are validated and take effect."""
import ctypes
import os
import random
import signal
import socket
import stat
import subprocess
import time
from fractions import Fraction

from .. import resp
from ..engine import Check, Part, Violation
from ..gens import weighted
from .p26 import differ, image

LOW, HIGH = 512 * 1024, 0xffffffff


def reaper():
    """orphans of this worker come back to it"""
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


class Run:
    """One start of the server with exactly these options."""

    def __init__(self, env, sc, srv, argv):
        self.env, self.sc, self.srv, self.argv = env, sc, srv, argv
        self.proc = None
        self.pid = None
        self.clients = []
        self.out = os.path.join(srv.root, 'out')

    def spawn(self):
        self.f = open(self.out, 'wb')
        self.proc = subprocess.Popen(self.argv, stdin=subprocess.DEVNULL, stdout=self.f, stderr=self.f,
                                     env=self.srv.env(), cwd=self.srv.root, start_new_session=True)

    def text(self):
        with open(self.out, 'rb') as f:
            return f.read().decode('latin-1')

    def ended(self, limit=30):
        try:
            return self.proc.wait(limit)
        except subprocess.TimeoutExpired:
            return None

    def daemon(self):
        """the process which stayed when the first one ended"""
        end = time.monotonic() + 20
        while time.monotonic() < end:
            for pid in children():
                try:
                    if os.getsid(pid) == self.proc.pid or os.getpgid(pid) == self.proc.pid:
                        return pid
                except OSError:
                    continue
            time.sleep(0.005)
        return None

    def connect(self, where, limit=30):
        end = time.monotonic() + limit
        while True:
            try:
                c = resp.Client(where) if isinstance(where, str) else resp.Client(host=where[0], port=where[1])
                self.clients.append(c)
                return c
            except OSError:
                if time.monotonic() > end or (self.proc.poll() is not None and self.pid is None):
                    return None
                time.sleep(0.004)

    def stop(self, sig=signal.SIGTERM):
        """exit code"""
        for c in self.clients:
            try:
                c.close()
            except OSError:
                pass
        self.clients = []
        code = None
        if self.proc is None:
            return None
        if self.pid is not None:
            try:
                os.kill(self.pid, sig)
            except OSError:
                pass
            end = time.monotonic() + 30
            while time.monotonic() < end:
                try:
                    p, st = os.waitpid(self.pid, os.WNOHANG)
                except OSError:
                    break
                if p:
                    code = os.waitstatus_to_exitcode(st)
                    break
                time.sleep(0.003)
            else:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                code = 'hang'
            self.pid = None
        elif self.proc.poll() is None:
            self.proc.send_signal(sig)
            try:
                code = self.proc.wait(30)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
                code = 'hang'
        self.proc = None
        self.f.close()
        return code

    def close(self):
        if self.proc is not None:
            if self.pid is None and self.proc.poll() is not None:
                for pid in children():
                    try:
                        if os.getsid(pid) == self.proc.pid:
                            self.pid = pid
                    except OSError:
                        pass
            self.stop(signal.SIGKILL)


def children():
    out = []
    me = str(os.getpid())
    try:
        for t in os.listdir('/proc/self/task'):
            with open('/proc/self/task/%s/children' % t) as f:
                out += [int(x) for x in f.read().split()]
        return out
    except OSError:
        pass
    for n in os.listdir('/proc'):
        if n.isdigit():
            try:
                with open('/proc/%s/stat' % n) as f:
                    if f.read().rsplit(')', 1)[1].split()[1] == me:
                        out.append(int(n))
            except OSError:
                continue
    return out


def binary(srv, rel):
    return os.path.join(srv.builddir, 'zdb-rel' if rel else 'zdb')


def err(r):
    return isinstance(r, resp.Err)


def bad(what):
    raise Violation(what, 'option')


def refused(run, dirs, what):
    """the server must refuse to start, without touching anything"""
    before = image(*[d for d in dirs if os.path.isdir(d)])
    run.spawn()
    code = run.ended()
    if code is None:
        run.close()
        bad('%s: neither refused' % what)
    if code in (0, 99) or code < 0:
        bad('%s: ended with code %s: %s' % (what, code, run.text()[-500:]))
    after = image(*[d for d in dirs if os.path.isdir(d)])
    diff = differ(before, after)
    if diff:
        bad('%s: refused, but %s changed' % (what, diff[:5]))
    run.stop()


# ------------------------------------------------ sizes
SHIFT = {'': 0, 'k': 10, 'M': 20, 'G': 30, 'T': 40}


def gen_size(rng, i):
    kind = weighted(rng, [(30, 'edge'), (25, 'near'), (25, 'fraction'), (12, 'junk'), (8, 'large')])
    v = None
    if kind == 'edge':
        v = rng.choice([LOW, HIGH, 1 << 32, 0, 1 << 31, 1 << 20]) + rng.choice([-2, -1, 0, 1, 2])
        text = str(max(0, v))
    elif kind == 'near':
        text = str(rng.randrange(LOW - 3000, LOW + 600000))
    elif kind == 'large':
        text = rng.choice(['4294967296', '99999999999', '18446744073709551615', '18446744073709551616', '36893488147419103232',
                           '18446744073710075904', '1T', '4G', '3.99G', '8G', '1024T', '16777216T', '4194304k', '4194303k'])
    elif kind == 'fraction':
        suffix = rng.choice(['k', 'k', 'M', 'M', 'G'])
        lo = Fraction(LOW, 1 << SHIFT[suffix])
        hi = Fraction(HIGH, 1 << SHIFT[suffix])
        base = rng.choice([lo, lo, lo, hi])
        digits = rng.choice([0, 1, 2, 3, 6])
        n = int(base * 10 ** digits) + rng.randrange(-3, 40)
        n = max(0, n)
        s = str(n).rjust(digits + 1, '0')
        text = (s[:-digits] + '.' + s[-digits:] if digits else s) + suffix
    else:
        text = rng.choice(['', 'k', 'M', 'abc', '-1', '-1M', '-600000', '-18446744073709027328', '-0.6M', '700000m', '1m', '1K',
                           '600000x', '1g', '1t', '.', '-', '--5', 'M1', ' ', '1 M', '700000 ', '1,5M'])
    return {'text': text, 'kind': kind, 'rel': rng.random() < 0.5, 'eq': rng.random() < 0.4,
            'twice': rng.random() < 0.15, 'probe': [rng.choice([0, 0, 1, 100, 5000]), rng.choice([-1, 0, 0, 1, 1, 2])],
            'mode': rng.choice(['user', 'seq'])}


def meaning(text):
    """bytes, or None when it is no size"""
    t = text
    shift = 0
    if t and t[-1] in 'kMGT':
        shift = SHIFT[t[-1]]
        t = t[:-1]
    if not t or any(c not in '0123456789.' for c in t) or t.count('.') > 1 or t == '.':
        return None
    return int(Fraction(t) * (1 << shift))


def run_size(case, env):
    reaper()
    sc = env.scratch()
    srv = env.server(sc, name='s', bits=6)
    v = meaning(case['text'])
    opts = ['--datasize=' + case['text']] if case['eq'] else ['--datasize', case['text']]
    if case['twice']:
        # the last one counts
        opts = ['--datasize', '1M'] + opts
    argv = [binary(srv, case['rel']), '--data', srv.data, '--index', srv.index, '--socket', srv.sock, '--mode', case['mode']]
    argv = argv + opts
    run = Run(env, sc, srv, argv)
    env.open.append(run)
    if v is None or not LOW <= v < HIGH:
        refused(run, [srv.data, srv.index], 'datasize %r' % case['text'])
        if os.path.exists(srv.data) or os.path.exists(srv.index):
            bad('datasize %r: refused, but directories were created' % case['text'])
        env.label('refused')
        return True
    run.spawn()
    c = run.connect(srv.sock)
    if c is None:
        bad('datasize %r (%d bytes): refused: %s' % (case['text'], v, run.text()[-500:]))
    env.label('accepted')
    first, delta = case['probe']
    files = lambda: sorted(n for n in os.listdir(os.path.join(srv.data, 'default')) if n[0] == 'd')
    key = b'' if case['mode'] == 'seq' else b'k'
    if not err(c.do(b'SET', key, b'x' * first)):
        end = os.path.getsize(os.path.join(srv.data, 'default', 'd0'))
        want = v + delta - end
        n = 1
        while want > 8 * 1024 * 1024 - 1 and n < 3 and v < 24 << 20:
            # several values are needed
            part = 4 << 20
            if err(c.do(b'SET', key, b'y' * part)):
                bad('datasize %r: SET of %d bytes refused' % (case['text'], part))
            end = os.path.getsize(os.path.join(srv.data, 'default', 'd0'))
            want = v + delta - end
            n += 1
        if len(files()) != 1:
            bad('datasize %r (%d bytes): data files %s with %d bytes stored' % (case['text'], v, files(), end))
        if 0 < want < 8 * 1024 * 1024 - 1:
            if err(c.do(b'SET', key, b'z' * want)):
                bad('datasize %r: SET of %d bytes refused' % (case['text'], want))
            rotated = len(files()) == 2
            if rotated != (delta > 0):
                bad('datasize %r (%d bytes): a value which ends %d bytes %s the limit %s' % (
                    case['text'], v, abs(delta), 'after' if delta > 0 else 'before',
                    'started a new file' if rotated else 'went to the same file'))
            env.label('probed')
    code = run.stop()
    if code != 128 + 15:
        bad('datasize %r: stopped with code %s' % (case['text'], code))
    return True


# ------------------------------------------------ everything else
MODES = ['user', 'seq', 'User', 'sequential', '', 'mixed', 'use', 'users', 'seq ', 'kv']


def gen_start(rng, i):
    case = {'seed': rng.randrange(1 << 40), 'rel': rng.random() < 0.4, 'starts': []}
    mode = rng.choice([None, 'user', 'seq', None])
    for n in range(rng.choice([1, 2, 2, 3])):
        s = {'mode': mode}
        if rng.random() < 0.08:
            s['mode'] = rng.choice(MODES[2:])
        if rng.random() < 0.5:
            s['admin'] = ''.join(rng.choice('abcXYZ0129 _:-$%') for _ in range(rng.choice([1, 3, 8, 127, 128])))
        if rng.random() < (0.5 if 'admin' in s else 0.1):
            s['protect'] = True
        if rng.random() < 0.4:
            s['maxsize'] = rng.choice([1, 5, 10, 100, 1000, 4000])
        s['net'] = rng.choice(['unix', 'unix', 'tcp', 'tcp', 'both', 'port', 'socketport'])
        r = rng.random()
        if r < 0.15:
            s['background'] = True
            if rng.random() < 0.6:
                s['logfile'] = True
        elif r < 0.22:
            s['dump'] = True
        elif r < 0.27:
            s['version'] = rng.choice(['--version', '--help', '--nothing', '--datasiz', '-', '--data', '--mode'])
        if s.get('version') in ('-',):
            s['version'] = '--unknown=1'
        if rng.random() < 0.2:
            s['verbose'] = True
        if rng.random() < 0.2:
            s['sync'] = True
        if rng.random() < 0.06:
            s['same'] = True
        if rng.random() < 0.3:
            s['deep'] = True
        s['sig'] = rng.choice(['term', 'term', 'int', 'kill'])
        s['sets'] = [rng.randrange(0, 12) for _ in range(rng.randrange(1, 5))]
        s['order'] = rng.randrange(1 << 30)
        s['eq'] = rng.randrange(1 << 30)
        case['starts'].append(s)
    return case


class State:
    def __init__(self):
        self.store = {}
        self.size = 0
        self.created = False
        self.count = 0


def run_start(case, env):
    reaper()
    sc = env.scratch()
    srv = env.server(sc, name='s', bits=6, datasize=100000)
    rng = random.Random(case['seed'])
    st = State()
    deep = any(s.get('deep') for s in case['starts'])
    data = os.path.join(srv.root, 'a/b/c/data' if deep else 'data')
    index = os.path.join(srv.root, 'a/index' if deep else 'index')
    for n, s in enumerate(case['starts']):
        one_start(env, sc, srv, rng, st, case, s, n, data, index)
    return True


def six():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_STREAM) as x:
            x.bind(('::', 0))
        return True
    except OSError:
        return False


def one_start(env, sc, srv, rng, st, case, s, n, data, index):
    # no other worker uses the same
    port = 10000 + os.getpid() % 200 * 100 + rng.randrange(100)
    addr = '127.%d.%d.%d' % (rng.randrange(1, 255), os.getpid() % 250 + 1, rng.randrange(1, 255))
    if s['net'] == 'port' and not six():
        # the default address needs it
        s = dict(s, net='tcp')
    what = 'start %d (%s)' % (n, ' '.join('%s=%s' % (k, s[k]) for k in sorted(s) if k not in ('sets', 'order', 'eq')))
    groups = [['--data', data], ['--index', index if not s.get('same') else data]]
    if s['net'] in ('unix', 'both', 'socketport'):
        groups.append(['--socket', srv.sock])
    if s['net'] in ('tcp', 'both'):
        groups.append(['--listen', addr])
    if s['net'] in ('tcp', 'both', 'port', 'socketport'):
        groups.append(['--port', str(port)])
    if s['net'] == 'both':
        groups.append(['--dualnet'])
    if s['mode'] is not None:
        groups.append(['--mode', s['mode']])
    if 'admin' in s:
        groups.append(['--admin', s['admin']])
    if s.get('protect'):
        groups.append(['--protect'])
    if 'maxsize' in s:
        groups.append(['--maxsize', str(s['maxsize'])])
    log = os.path.join(srv.root, 'log%d' % n)
    if s.get('background'):
        groups.append(['--background'])
        if s.get('logfile'):
            groups.append(['--logfile', log])
    if s.get('dump'):
        groups.append(['--dump'])
    if s.get('verbose'):
        groups.append(['--verbose'])
    if s.get('sync'):
        groups.append(['--sync'])
    order = random.Random(s['order'])
    order.shuffle(groups)
    if 'version' in s:
        # a missing argument: must be the last one
        groups.append([s['version']])
    argv = [binary(srv, case['rel'])]
    eq = random.Random(s['eq'])
    for g in groups:
        argv += ['='.join(g)] if len(g) == 2 and eq.random() < 0.4 else g
    run = Run(env, sc, srv, argv)
    env.open.append(run)
    wrong = None
    if s['mode'] not in (None, 'user', 'seq'):
        wrong = 'mode'
    elif s.get('protect') and 'admin' not in s and s.get('version') not in ('--version', '--help'):
        wrong = 'protect without password'
    elif 'version' in s and s['version'] != '--version':
        wrong = s['version']
    if 'version' in s and wrong is None:
        before = image(data, index), sorted(os.listdir(srv.root))
        run.spawn()
        code = run.ended()
        if code != 0:
            bad('%s: --version ended with code %s' % (what, code))
        text = run.text()
        if not text:
            bad('%s: --version printed nothing' % what)
        names = [x for x in os.listdir(srv.root) if x not in before[1] and x != 'out']
        diff = differ(before[0], image(data, index)) + names
        if diff:
            bad('%s: --version changed %s' % (what, diff[:5]))
        run.stop()
        env.label('version')
        return
    if wrong:
        was = os.path.exists(data), os.path.exists(index)
        refused(run, [data, index], what)
        if (os.path.exists(data), os.path.exists(index)) != was:
            bad('%s: refused, but directories were created' % what)
        env.label('refused:' + ('syntax' if wrong.startswith('-') else wrong.split()[0]))
        return
    if s.get('same'):
        refused(run, [data, index] if st.created else [], what)
        env.label('refused:same')
        return
    if s.get('dump'):
        before = image(data, index) if st.created else None
        run.spawn()
        code = run.ended()
        if code != 0:
            bad('%s: --dump ended with code %s: %s' % (what, code, run.text()[-400:]))
        if before is not None:
            diff = differ(before, image(data, index))
            if diff:
                bad('%s: --dump changed %s' % (what, diff[:5]))
        if s['net'] != 'port' and os.path.exists(srv.sock) and stat.S_ISSOCK(os.stat(srv.sock).st_mode) and n == 0:
            bad('%s: --dump listens' % what)
        run.stop()
        st.created = True
        env.label('dump')
        return
    run.spawn()
    if s.get('background'):
        code = run.ended()
        if code != 0:
            bad('%s: the first process ended with code %s: %s' % (what, code, run.text()[-400:]))
        run.pid = run.daemon()
        if run.pid is None:
            bad('%s: nothing stays in the background' % what)
    ends = {'unix': [srv.sock], 'tcp': [(addr, port)], 'both': [srv.sock, (addr, port)], 'port': [(addr, port)],
            'socketport': [srv.sock]}[s['net']]
    conns = []
    for e in ends:
        c = run.connect(e, 2 if s.get('background') else 30)
        if c is None:
            bad('%s: does not listen on %s: %s' % (what, e, run.text()[-400:]))
        conns.append(c)
    st.created = True
    # nothing else listens
    if s['net'] in ('unix', 'socketport'):
        if run.connect((addr, port), 0) is not None:
            bad('%s: listens on tcp port %d' % (what, port))
    if s['net'] in ('tcp', 'both'):
        other = '127.%d.%d.%d' % (int(addr.split('.')[1]) % 250 + 1, os.getpid() % 250 + 1, 254)
        if other != addr and run.connect((other, port), 0) is not None:
            bad('%s: listens on %s' % (what, other))
    env.label('net:' + s['net'])
    talk(env, st, s, conns, what, rng)
    if s['sig'] != 'kill' and s.get('background'):
        env.label('background')
    before = image(data, index) if s.get('background') else None
    code = run.stop({'term': signal.SIGTERM, 'int': signal.SIGINT, 'kill': signal.SIGKILL}[s['sig']])
    want = {'term': 143, 'int': 130, 'kill': -9}[s['sig']]
    if code != want:
        bad('%s: ended with code %s instead of %s' % (what, code, want))
    if s.get('logfile'):
        if not os.path.exists(log):
            bad('%s: no log file' % what)


def talk(env, st, s, conns, what, rng):
    c = conns[0]
    admin = s.get('admin')
    seq = s['mode'] == 'seq'
    info = c.do(b'NSINFO', b'default')
    fields = dict(l.split(': ', 1) for l in info.decode('latin-1').splitlines() if ': ' in l)
    if fields.get('data_limits_bytes') != str(s.get('maxsize', 0)):
        bad('%s: NSINFO default: limit %s instead of %s' % (what, fields.get('data_limits_bytes'), s.get('maxsize', 0)))
    if fields.get('data_size_bytes') != str(st.size):
        bad('%s: NSINFO default: size %s instead of %d' % (what, fields.get('data_size_bytes'), st.size))
    if fields.get('password') != ('yes' if s.get('protect') else 'no'):
        bad('%s: NSINFO default: password %s' % (what, fields.get('password')))
    # administrators
    other = 'ns%d' % rng.randrange(1 << 40)
    if admin is not None:
        if not err(c.do(b'NSNEW', other.encode())):
            bad('%s: NSNEW accepted without the password' % what)
        for w in (admin[:-1], admin + 'x', admin.swapcase() if admin.swapcase() != admin else admin + ' '):
            if not err(c.do(b'AUTH', w.encode())):
                bad('%s: AUTH accepts %r' % (what, w))
        if s.get('protect'):
            key = b'' if seq else b'p'
            if not err(c.do(b'SET', key, b'value')):
                bad('%s: --protect: SET accepted without the password' % what)
            if not err(c.do(b'SELECT', b'default', b'wrong')):
                bad('%s: --protect: SELECT accepted with another password' % what)
            for d in conns:
                if err(d.do(b'SELECT', b'default', admin.encode())):
                    bad('%s: --protect: SELECT default refused with the password' % what)
            env.label('protect')
        r = c.do(b'AUTH', admin.encode())
        if err(r):
            bad('%s: AUTH answers %r' % (what, r))
        env.label('admin')
    if err(c.do(b'NSNEW', other.encode())):
        bad('%s: NSNEW refused' % what)
    # a namespace of the mode asked
    r = c.do(b'NSSET', other.encode(), b'mode', b'seq')
    r2 = c.do(b'NSSET', other.encode(), b'mode', b'user')
    if s['mode'] is None:
        if err(r) or err(r2):
            bad('%s: without --mode, NSSET mode answers %r, %r' % (what, r, r2))
    elif not err(r if s['mode'] == 'user' else r2):
        bad('%s: NSSET mode accepts another mode' % what)
    f2 = dict(l.split(': ', 1) for l in c.do(b'NSINFO', other.encode()).decode('latin-1').splitlines() if ': ' in l)
    if f2.get('mode') != ('sequential' if seq else 'userkey'):
        bad('%s: NSINFO of a new namespace: mode %s' % (what, f2.get('mode')))
    if f2.get('data_limits_bytes') != '0':
        bad('%s: --maxsize changes another namespace: %s' % (what, f2.get('data_limits_bytes')))
    if err(c.do(b'NSDEL', other.encode())):
        bad('%s: NSDEL refused' % what)
    # writes through each endpoint, seen through the others, up to the limit
    limit = s.get('maxsize', 0)
    for i, length in enumerate(s['sets']):
        d = conns[i % len(conns)]
        payload = bytes(rng.randrange(256) for _ in range(length))
        if limit and i == len(s['sets']) - 1 and limit > st.size and limit - st.size < 5000:
            # exactly the limit, then one byte more
            payload = b'e' * (limit - st.size)
        if seq:
            key, size = b'', st.size + len(payload)
        else:
            key = b'k%d' % (i % 3)
            size = st.size + len(payload) - (len(st.store[key]) if key in st.store else 0)
        r = d.do(b'SET', key, payload)
        full = limit and st.size + len(payload) > limit if seq or key not in st.store else limit and size > limit
        same = not seq and st.store.get(key) == payload
        if same:
            pass
        elif err(r) != bool(full):
            bad('%s: SET of %d bytes with %d stored answers %r' % (what, len(payload), st.size, r))
        if full or same:
            if full:
                env.label('quota')
            continue
        if seq:
            if len(r) != 4 and len(r) != 8:
                bad('%s: sequential SET answers %r' % (what, r))
            key = r
        st.store[key], st.size = payload, size
    for key in st.store:
        for d in conns:
            g = d.do(b'GET', key)
            if g != st.store[key]:
                bad('%s: GET %r answers %r instead of %r' % (what, key, g, st.store[key]))


CHECK = Check('P33', 'the options are refused or their effect was observed',
              [Part('datasize', gen_size, run_size, 1500, 30000),
               Part('start', gen_start, run_start, 2000, 40000, ('starts',))],
              ['only options written as documented are used: text after a unit, abbreviations and hexadecimal sizes are not'])
