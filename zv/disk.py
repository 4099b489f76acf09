"""Independent reader of the files of a server, written from the documented
format; shares no code with the program under test."""
import os
import struct

from .engine import Violation
from .util import crc32c, short

# times are always 0: equal contents give equal files
VERSION = 3
DHEAD = struct.Struct('<4sIQQI')            # magic version created opened fileid
DENTRY = struct.Struct('<BIIIBI')           # idlen length previous crc flags timestamp
IHEAD = struct.Struct('<4sIQQIB')           # magic version created opened fileid mode
IITEM = struct.Struct('<BIIIBIIIII')        # idlen offset length previous flags dataid timestamp crc parentid parentoff
NSHEAD = struct.Struct('<IBBQB')            # version namelen passlen maxsize flags

assert (DHEAD.size, DENTRY.size, IHEAD.size, IITEM.size) == (28, 18, 29, 34)

_CRC = {}


def crc(b):
    r = _CRC.get(b)
    if r is None:
        if len(_CRC) > 20000:
            _CRC.clear()
        r = _CRC[b] = crc32c(b)
    return r


class Bad(Violation):
    def __init__(self, msg):
        Violation.__init__(self, 'the files are wrong: ' + msg, 'disk')


class DataEntry:
    __slots__ = ('file', 'offset', 'key', 'value', 'previous', 'crc', 'deleted', 'flags', 'ts')


class IndexItem:
    __slots__ = ('file', 'offset', 'key', 'dataoff', 'length', 'previous', 'flags', 'deleted', 'dataid', 'ts', 'crc', 'parent')


def numbered(path, letter):
    """{number: path} of the files of a namespace directory"""
    out = {}
    for n in os.listdir(path):
        if n[:1] == letter and n[1:].isdigit() and str(int(n[1:])) == n[1:]:
            out[int(n[1:])] = os.path.join(path, n)
    return out


def read_data(path, fid, tail=False):
    """[DataEntry]; with `tail`, what follows the last whole entry is ignored"""
    with open(path, 'rb') as f:
        b = f.read()
    if len(b) < DHEAD.size:
        raise Bad('%s: %d bytes, no complete header' % (os.path.basename(path), len(b)))
    magic, version, created, opened, fileid = DHEAD.unpack_from(b)
    if magic != b'DAT0' or version != VERSION:
        raise Bad('d%d: header magic %r version %d' % (fid, magic, version))
    if fileid != fid:
        raise Bad('d%d: its header says it is file %d' % (fid, fileid))
    if created or opened:
        raise Bad('d%d: a time is in the header' % fid)
    out = []
    at = DHEAD.size
    while at < len(b):
        if at + DENTRY.size > len(b):
            if tail:
                break
            raise Bad('d%d: %d bytes after the last entry' % (fid, len(b) - at))
        e = DataEntry()
        idlen, length, e.previous, e.crc, e.flags, e.ts = DENTRY.unpack_from(b, at)
        end = at + DENTRY.size + idlen + length
        if end > len(b):
            if tail:
                break
            raise Bad('d%d: entry at %d is cut by the end of the file' % (fid, at))
        e.file, e.offset = fid, at
        e.key = b[at + DENTRY.size:at + DENTRY.size + idlen]
        e.value = b[at + DENTRY.size + idlen:end]
        e.deleted = bool(e.flags & 1)
        out.append(e)
        at = end
    return out


def read_index(path, fid, tail=False):
    """(mode, [IndexItem])"""
    with open(path, 'rb') as f:
        b = f.read()
    if len(b) < IHEAD.size:
        raise Bad('%s: %d bytes, no complete header' % (os.path.basename(path), len(b)))
    magic, version, created, opened, fileid, mode = IHEAD.unpack_from(b)
    if magic != b'IDX0' or version != VERSION + 1:
        raise Bad('i%d: header magic %r version %d' % (fid, magic, version))
    if fileid != fid:
        raise Bad('i%d: its header says it is file %d' % (fid, fileid))
    if created or opened:
        raise Bad('i%d: a time is in the header' % fid)
    out = []
    at = IHEAD.size
    while at < len(b):
        if at + IITEM.size > len(b) or at + IITEM.size + b[at] > len(b):
            if tail:
                break
            raise Bad('i%d: item at %d is cut by the end of the file' % (fid, at))
        e = IndexItem()
        idlen, e.dataoff, e.length, e.previous, e.flags, e.dataid, e.ts, e.crc, pid, poff = IITEM.unpack_from(b, at)
        e.file, e.offset = fid, at
        e.key = b[at + IITEM.size:at + IITEM.size + idlen]
        e.deleted = bool(e.flags & 1)
        e.parent = (pid, poff)
        out.append(e)
        at += IITEM.size + idlen
    return mode, out


def read_descriptor(path):
    """(name, password, public, worm, maxsize)"""
    with open(path, 'rb') as f:
        b = f.read()
    if len(b) < NSHEAD.size:
        raise Bad('descriptor of %d bytes' % len(b))
    version, nl, pl, maxsize, flags = NSHEAD.unpack_from(b)
    if version != 1:
        raise Bad('descriptor version %d' % version)
    if len(b) != NSHEAD.size + nl + pl:
        raise Bad('descriptor of %d bytes, %d announced' % (len(b), NSHEAD.size + nl + pl))
    name = b[NSHEAD.size:NSHEAD.size + nl]
    pw = b[NSHEAD.size + nl:]
    return name, pw or None, bool(flags & 1), bool(flags & 2), maxsize


class Space:
    """Everything a namespace has on disk."""

    def __init__(self, datadir, indexdir, name, tail=False):
        d, x = os.path.join(datadir, name), os.path.join(indexdir, name)
        df, xf = numbered(d, 'd'), numbered(x, 'i')
        self.name = name
        for what, fs in (('data', df), ('index', xf)):
            if sorted(fs) != list(range(len(fs))):
                raise Bad('%s: %s files are not numbered from 0 without gap: %s' % (name, what, sorted(fs)))
        self.ndata, self.nindex = len(df), len(xf)
        self.data = {n: read_data(p, n, tail) for n, p in sorted(df.items())}
        self.index, self.modes = {}, set()
        for n, p in sorted(xf.items()):
            m, self.index[n] = read_index(p, n, tail)
            self.modes.add(m)
        desc = os.path.join(x, 'zdb-namespace')
        self.descriptor = read_descriptor(desc)
        self.at = {(e.file, e.offset): e for es in self.data.values() for e in es}
        self.iat = {(e.file, e.offset): e for es in self.index.values() for e in es}

    def items(self):
        for n in sorted(self.index):
            yield from self.index[n]

    def entries(self):
        for n in sorted(self.data):
            yield from self.data[n]

    def live(self):
        """{key: IndexItem} which the index calls alive"""
        out = {}
        for it in self.items():
            if not it.deleted:
                if it.key in out:
                    o = out[it.key]
                    raise Bad('%s: key %s is alive twice, in i%d at %d and in i%d at %d' % (
                        self.name, short(it.key), o.file, o.offset, it.file, it.offset))
                out[it.key] = it
        return out

    def payload(self, it, alive=True):
        """the data entry of an index item"""
        e = self.at.get((it.dataid, it.dataoff))
        where = '%s: item of %s in i%d at %d' % (self.name, short(it.key), it.file, it.offset)
        if e is None:
            raise Bad('%s: no data entry starts in d%d at %d' % (where, it.dataid, it.dataoff))
        if e.key != it.key:
            raise Bad('%s: its data entry is the one of key %s' % (where, short(e.key)))
        if len(e.value) != it.length:
            raise Bad('%s: length %d, its data entry has %d' % (where, it.length, len(e.value)))
        if e.crc != it.crc:
            raise Bad('%s: checksum %08x, its data entry has %08x' % (where, it.crc, e.crc))
        if e.deleted:
            raise Bad('%s: its data entry is a deletion' % where)
        if e.ts != it.ts:
            raise Bad('%s: timestamp %d, its data entry has %d' % (where, it.ts, e.ts))
        return e

    def history(self, it):
        """[(ts, value)], newest first"""
        out = []
        seen = set()
        while True:
            e = self.payload(it)
            out.append((it.ts, e.value))
            if it.parent == (0, 0):
                return out
            p = self.iat.get(it.parent)
            if p is None:
                raise Bad('%s: parent of %s: no item starts in i%d at %d' % (self.name, short(it.key), *it.parent))
            if p.key != it.key:
                raise Bad('%s: parent of %s is an item of %s' % (self.name, short(it.key), short(p.key)))
            if it.parent in seen:
                raise Bad('%s: endless history of %s' % (self.name, short(it.key)))
            seen.add(it.parent)
            it = p

    def replay(self):
        """{key: (ts, value)} rebuilt from the data files alone"""
        out = {}
        for e in self.entries():
            if e.deleted:
                out.pop(e.key, None)
            else:
                out[e.key] = (e.ts, e.value)
        return out

    def check_sums(self):
        for e in self.entries():
            if e.deleted:
                if e.value:
                    raise Bad('%s: deletion of %s in d%d at %d has a payload' % (self.name, short(e.key), e.file, e.offset))
            elif crc(e.value) != e.crc:
                raise Bad('%s: entry of %s in d%d at %d: checksum %08x, its payload has %08x' % (
                    self.name, short(e.key), e.file, e.offset, e.crc, crc(e.value)))
            if e.flags & ~1:
                raise Bad('%s: entry of %s in d%d at %d has flags %d' % (self.name, short(e.key), e.file, e.offset, e.flags))

    def check_links(self):
        """`previous` leads from each entry to the one before in the file"""
        for what, files in (('d', self.data), ('i', self.index)):
            for n, es in files.items():
                for a, b in zip(es, es[1:]):
                    if b.previous != a.offset:
                        raise Bad('%s: entry of %s in %s%d at %d: previous entry is at %d, it says %d' % (
                            self.name, short(b.key), what, n, b.offset, a.offset, b.previous))


def spaces(srv, model, tail=False):
    """yields (Ns, Space) for every namespace of the model"""
    for ns in model.ns.values():
        try:
            yield ns, Space(srv.data, srv.index, ns.name, tail)
        except (Bad, OSError) as e:
            raise Bad('%s: %s' % (ns.name, e))


def check(srv, model, strict=True, replay=True):
    """Raises Bad when the files do not say what the model says.

    Not strict: entries which nothing refers to may exist (interrupted or
    refused commands), nothing more. The data files alone say the same as
    the model but for the keys of such commands.
    """
    stats = {'files': 0, 'entries': 0, 'items': 0}
    for ns, sp in spaces(srv, model):
        stats['files'] += sp.ndata
        stats['entries'] += len(sp.at)
        stats['items'] += len(sp.iat)
        if sp.ndata != sp.nindex and strict:
            raise Bad('%s: %d data files and %d index files' % (ns.name, sp.ndata, sp.nindex))
        if ns.name != 'default':
            name, pw, public, worm, maxsize = sp.descriptor
            want = (ns.name.encode('latin-1'), ns.password.encode('latin-1') if isinstance(ns.password, str) else ns.password,
                    ns.public, ns.worm, ns.maxsize)
            if (name, pw, public, worm, maxsize) != want:
                raise Bad('%s: descriptor says %s instead of %s' % (ns.name, sp.descriptor, want))
        if sp.modes != {1 if ns.seq else 0}:
            raise Bad('%s: index headers say modes %s' % (ns.name, sorted(sp.modes)))
        sp.check_sums()
        sp.check_links()
        live = sp.live()
        if set(live) != set(ns.items):
            extra, lost = set(live) - set(ns.items), set(ns.items) - set(live)
            raise Bad('%s: the index says %d keys are alive instead of %d; not expected: %s; missing: %s' % (
                ns.name, len(live), len(ns.items), short(sorted(extra)), short(sorted(lost))))
        for k, it in live.items():
            want = list(reversed(ns.items[k].versions))
            got = sp.history(it)
            if got != want:
                raise Bad('%s: versions of %s on disk are %s instead of %s' % (
                    ns.name, short(k), short([list(x) for x in got]), short([list(x) for x in want])))
        if strict:
            for it in sp.items():
                if it.deleted:
                    sp.payload(it)
        if strict or replay and ns.name not in model.halved:
            got = sp.replay()
            want = {k: (i.ts, i.value) for k, i in ns.items.items()}
            if not strict:
                for k in ns.doubt:
                    got.pop(k, None)
                    want.pop(k, None)
            if got != want:
                k = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[0]
                raise Bad('%s: the data files alone give %d keys instead of %d; %s is %s instead of %s' % (
                    ns.name, len(got), len(want), short(k), short(list(got.get(k) or ['absent'])), short(list(want.get(k) or ['absent']))))
    return stats
