"""Reference model of the server: an ordinary dictionary per namespace.

It is written from the documentation and from the observable protocol, and
knows nothing about files, hashes, offsets or in-memory layout.
"""
import struct

from .util import seqid

ERR = object()      # any error reply
ANY = object()      # any reply
OK = ('simple', 'OK')

RW, RO, FROZEN = 0, 1, 2


class Item:
    __slots__ = ('value', 'ts', 'versions', 'pos')

    def __init__(self, value, ts, versions=None, pos=0):
        # pos: rank in the order SCAN walks
        self.value, self.ts, self.pos = value, ts, pos
        # oldest first, current one included: (ts, value)
        self.versions = (versions or []) + [(ts, value)]


class Ns:
    def __init__(self, name, seq):
        self.name, self.seq = name, seq
        self.password = None
        self.public = True
        self.worm = False
        self.maxsize = 0
        self.lock = RW
        self.items = {}          # key -> Item, in scan order
        self.pos = 0
        self.nextid = 0          # sequential: next identifier
        self.fresh = True        # nothing ever written, no file jump
        self.ids = []            # every id ever handed out (sequential)
        self.dead = set()        # keys which existed and were deleted
        self.gone = False
        self.touched = 0
        self.epoch = 0           # what was known before a FLUSH is void
        self.unsure = False      # cannot tell whether it is still fresh
        self.doubt = set()       # keys written last by a command which was refused or interrupted

    @property
    def size(self):
        return sum(len(i.value) for i in self.items.values())

    def settings(self):
        return (self.password, self.public, self.worm, self.maxsize, self.seq)


def doubt(before, after, models):
    """The command leading from one to the other did not end: the data files
    may hold what it wrote."""
    for name, a in before.ns.items():
        b = after.ns.get(name)
        if b is None:
            continue
        for k in set(a.items) | set(b.items):
            x, y = a.items.get(k), b.items.get(k)
            if (x and (x.value, x.ts)) != (y and (y.value, y.ts)):
                for m in models:
                    if name in m.ns:
                        m.ns[name].doubt.add(k)


class Session:
    def __init__(self, ns, writable, admin):
        self.ns, self.writable, self.admin = ns, writable, admin
        self.detached = False
        self.commands = 0


class Model:
    halved = frozenset()    # namespaces whose removal was interrupted, parts of them may be left
    nocompare = False       # SET stores a value again even if it is the same

    def __init__(self, mode=None, admin=None, protect=False, maxsize=0):
        # mode: None is the mixed mode
        self.mode, self.admin, self.protect = mode, admin, protect
        self.maxsize = maxsize
        self.now = 1700000000
        self.ns = {}
        self.sessions = []
        self.ns['default'] = Ns('default', mode == 'seq')
        self.boot()

    def boot(self):
        """What a process start does to the state."""
        for s in self.sessions:
            s.detached = True
        self.sessions = []
        for n in self.ns.values():
            n.lock = RW
        d = self.ns['default']
        d.password = self.admin if self.protect else None
        if self.maxsize:
            d.maxsize = self.maxsize
        d.public = True
        d.worm = False

    def connect(self):
        s = Session(self.ns['default'], not self.protect, self.admin is None)
        self.sessions.append(s)
        return s

    # ---- helpers
    def _key(self, a):
        return a if 0 < len(a) <= 255 else None

    def _name(self, a):
        if len(a) > 128:
            return None
        return a.split(b'\0')[0].decode('latin-1')

    def exec(self, s, argv):
        """-> expected reply; the state is updated as if it was executed."""
        cmd = argv[0].upper().decode('latin-1')
        if s.ns is None or s.detached:
            return ERR
        return getattr(self, 'c_' + cmd.lower())(s, argv)

    # ---- data commands
    def c_ping(self, s, a):
        return ('simple', 'PONG')

    def c_set(self, s, a):
        ns = s.ns
        if len(a) == 4:
            if not s.admin:
                return ERR
        elif len(a) != 3:
            return ERR
        k, v = a[1], a[2]
        if len(k) > 255 or not s.writable or ns.lock != RW:
            return ERR
        cur = ns.items.get(k)
        if cur is not None and ns.worm:
            return ERR
        if ns.maxsize:
            if ns.size + len(v) > ns.maxsize + (len(cur.value) if cur else 0):
                return ERR
        # a request refused from here on may already have moved to new files
        if not ns.seq and not k or ns.seq and k and cur is None:
            ns.unsure = True
            return ERR
        if cur is not None and cur.value == v and not self.nocompare:
            return None
        ts = self.now
        if len(a) == 4:
            ts = int(a[3]) & 0xffffffff
        ns.fresh = False
        ns.touched += 1
        ns.pos += 1
        if ns.seq:
            if cur is None:
                k = seqid(ns.nextid)
                ns.items[k] = Item(v, ts, None, ns.pos)
                ns.ids.append(k)
            else:
                ns.items[k] = Item(v, ts, cur.versions, cur.pos)
            # every entry, update included, uses one position
            ns.nextid += 1
            ns.doubt.discard(k)
            return k
        # the most recently written key comes last
        old = ns.items.pop(k, None)
        ns.items[k] = Item(v, ts, old.versions if old else None, ns.pos)
        ns.dead.discard(k)
        ns.doubt.discard(k)
        return k

    c_setx = c_set

    def _read(self, s, a):
        """common path of the commands taking one key"""
        if len(a) != 2 or not all(a):
            return ERR
        if len(a[1]) > 255 or s.ns.lock == FROZEN:
            return ERR
        return s.ns.items.get(a[1])

    def c_get(self, s, a):
        i = self._read(s, a)
        return i if i is ERR or i is None else i.value

    def c_mget(self, s, a):
        if len(a) < 2 or any(len(x) > 255 for x in a[1:]) or s.ns.lock == FROZEN:
            return ERR
        return [s.ns.items[k].value if k in s.ns.items else None for k in a[1:]]

    def c_exists(self, s, a):
        i = self._read(s, a)
        return i if i is ERR else (1 if i else 0)

    def c_check(self, s, a):
        i = self._read(s, a)
        return i if i is ERR or i is None else 1

    def c_length(self, s, a):
        i = self._read(s, a)
        return i if i is ERR or i is None else len(i.value)

    def c_keytime(self, s, a):
        i = self._read(s, a)
        return i if i is ERR or i is None else i.ts

    def c_del(self, s, a):
        ns = s.ns
        if len(a) == 3:
            if not s.admin:
                return ERR
        elif len(a) != 2 or not all(a):
            return ERR
        if len(a[1]) > 255 or not s.writable or ns.lock != RW:
            return ERR
        if a[1] not in ns.items or ns.worm:
            return ERR
        del ns.items[a[1]]
        ns.dead.add(a[1])
        ns.doubt.discard(a[1])
        ns.touched += 1
        return OK

    def c_dbsize(self, s, a):
        return len(s.ns.items)

    # ---- namespaces
    def c_nsnew(self, s, a):
        if not s.admin or len(a) != 2 or not all(a):
            return ERR
        n = self._name(a[1])
        if not n or n in ('.', '..', 'default') or '/' in n or n in self.ns:
            return ERR
        self.ns[n] = Ns(n, self.mode == 'seq')
        return OK

    def c_nsdel(self, s, a):
        if not s.admin or len(a) != 2 or not all(a):
            return ERR
        n = self._name(a[1])
        if n is None or n == 'default' or n not in self.ns or self.ns[n] is s.ns:
            return ERR
        ns = self.ns.pop(n)
        ns.gone = True
        for o in self.sessions:
            if o.ns is ns:
                o.ns = None
        return OK

    def c_nslist(self, s, a):
        return ('set', sorted(n.encode('latin-1') for n in self.ns))

    def c_nsset(self, s, a):
        if not s.admin or len(a) != 4 or not all(a):
            return ERR
        n = self._name(a[1])
        if n is None or len(a[2]) > 255 or len(a[3]) > 63 or n not in self.ns:
            return ERR
        ns = self.ns[n]
        prop = a[2].decode('latin-1')
        val = a[3].split(b'\0')[0].decode('latin-1')
        if prop == 'mode':
            if self.mode is not None or not ns.fresh or val not in ('user', 'seq'):
                return ERR
            ns.seq = val == 'seq'
            return OK
        if prop == 'lock':
            ns.lock = RO if val[:1] == '1' else RW
            return OK
        if prop == 'freeze':
            ns.lock = FROZEN if val[:1] == '1' else RW
            return OK
        if n == 'default':
            return ERR
        if prop == 'maxsize':
            ns.maxsize = int(val)
        elif prop == 'password':
            ns.password = None if val == '*' else val
        elif prop == 'public':
            ns.public = val[:1] == '1'
        elif prop == 'worm':
            ns.worm = val[:1] == '1'
        else:
            return ERR
        return OK

    def c_select(self, s, a):
        """SELECT ns [password]; the SECURE form is handled by its own check"""
        if len(a) < 2:
            return ERR
        n = self._name(a[1])
        if n is None or n not in self.ns:
            return ERR
        ns = self.ns[n]
        writable = True
        if ns.password is not None:
            if len(a) == 2:
                if not ns.public:
                    return ERR
                writable = False
            elif len(a) == 3:
                if a[2].decode('latin-1') != ns.password:
                    return ERR
            else:
                return ERR
        s.ns, s.writable = ns, writable
        return OK

    def c_nsinfo(self, s, a):
        if len(a) != 2 or not all(a):
            return ERR
        n = self._name(a[1])
        if n is None or n not in self.ns:
            return ERR
        ns = self.ns[n]
        want = {
            'name': ns.name, 'entries': str(len(ns.items)),
            'public': 'yes' if ns.public else 'no', 'worm': 'yes' if ns.worm else 'no',
            'locked': 'no' if ns.lock == RW else 'yes',
            'password': 'yes' if ns.password is not None else 'no',
            'data_size_bytes': str(ns.size), 'data_limits_bytes': str(ns.maxsize),
            'mode': 'sequential' if ns.seq else 'userkey',
        }
        if ns.maxsize:
            want['space_available'] = str(max(0, ns.maxsize - ns.size))
        if ns.seq:
            want['next_internal_id'] = '0x%08x' % struct.unpack('>Q', struct.pack('<Q', ns.nextid))[0]
        return ('info', want)

    def c_nsjump(self, s, a):
        if not s.admin:
            return ERR
        s.ns.fresh = False
        return OK

    def c_reload(self, s, a):
        if not s.admin or len(a) != 2 or not all(a):
            return ERR
        n = self._name(a[1])
        if n is None or n not in self.ns:
            return ERR
        return OK

    def c_flush(self, s, a):
        ns = s.ns
        if ns.public or ns.password is None or not s.writable or ns.lock != RW:
            return ERR
        ns.items.clear()
        ns.doubt = set()
        ns.epoch += 1
        ns.ids = []
        ns.dead = set()
        ns.nextid = 0
        ns.fresh = True
        ns.unsure = False
        return OK

    # ---- commands whose reply is judged elsewhere: who may use them
    def _admin_only(self, s, a):
        return ANY if s.admin else ERR

    c_hooks = c_index = c_stop = c_master = _admin_only

    def _not_frozen(self, s, a):
        return ERR if s.ns.lock == FROZEN else ANY

    c_scan = c_rscan = c_keycur = c_history = c_kscan = _not_frozen

    def c_auth(self, s, a):
        """AUTH password"""
        if len(a) != 2 or not a[1]:
            return ERR
        if self.admin is None or len(a[1]) > 128:
            return ERR
        if a[1].decode('latin-1') != self.admin:
            return ERR
        s.admin = True
        return OK


def parse_info(b):
    out = {}
    for line in b.decode('latin-1').split('\n'):
        if ': ' in line:
            k, v = line.split(': ', 1)
            out[k] = v
    return out


def compare(got, want):
    """None when `got` is what the model wants, a text otherwise."""
    from . import resp
    from .util import short
    if want is ANY:
        return None
    if want is ERR:
        return None if isinstance(got, resp.Err) else 'expected an error, got %s' % short(got)
    if isinstance(want, tuple):
        if want[0] == 'simple':
            ok = isinstance(got, resp.Simple) and str(got) == want[1]
            return None if ok else 'expected +%s, got %s' % (want[1], short(got))
        if want[0] == 'set':
            ok = isinstance(got, list) and sorted(got) == want[1]
            return None if ok else 'expected (any order) %s, got %s' % (short(want[1]), short(got))
        if want[0] == 'info':
            if not isinstance(got, bytes):
                return 'expected a description, got %s' % short(got)
            have = parse_info(got)
            for k, v in want[1].items():
                if k == 'name' and '\n' in v:
                    continue
                if have.get(k) != v:
                    return 'field %s should be %r, is %r' % (k, v, have.get(k))
            return None
        raise ValueError(want)
    if isinstance(want, (bytes, list)) or want is None or isinstance(want, int):
        if type(got) is not type(want) or got != want:
            return 'expected %s, got %s' % (short(want), short(got))
        return None
    raise ValueError(want)
