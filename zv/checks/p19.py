"""P19: index-dump, namespace-dump and namespace-editor show, or change,
exactly what is stored."""
import os
import re
import time

from .. import disk, resp
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted, wide
from ..util import expand, short
from .p18 import ToolWorld, tool

ENTRY = [('id length', 10), ('data length', 10), ('data offset', 10), ('data fileid', 10), ('entry flags', 16), ('entry date', None),
         ('previous', 10), ('data crc', 16), ('parent id', 10), ('parent offs', 10), ('entry key', None)]


def date(ts):
    return time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(ts))


def parse_dump(text):
    """[[fields of an entry, ...] per file], totals per file, total"""
    files, totals, total = [], [], None
    for line in text.split('\n'):
        m = re.match(r'\[\+\] +([a-z ]+?) *: ?(.*)$', line)
        k, v = m.groups() if m else (None, None)
        if k == 'index-dump':
            pass
        if line.startswith('[+] index-dump: index mode:'):
            files.append([])
        elif line.startswith('[+] index entry:'):
            m = re.match(r'\[\+\] index entry: (\d+), offset: (-?\d+)$', line)
            files[-1].append({'n': int(m.group(1)), 'offset': int(m.group(2))})
        elif line.startswith('[+]   ') and k:
            files[-1][-1][k] = v
        elif line.startswith('[+] file done'):
            totals.append(int(line.rsplit(' ', 1)[1]))
        elif line.startswith('[+] all done'):
            total = int(line.rsplit(' ', 1)[1])
    return files, totals, total


class DumpWorld(ToolWorld):
    edited = None           # settings of the default namespace

    def start(self):
        if self.edited:
            d = self.model.ns['default']
            d.public, d.worm, d.maxsize = self.edited
        ToolWorld.start(self)

    def op_dump(self, pick, kind):
        """index-dump lists the items of every index file"""
        names = sorted(self.model.ns)
        name = names[pick % len(names)]
        self.pause(kind)
        before = self.tree(self.srv.data), self.tree(self.srv.index)
        p = tool(self, 'index-dump', os.path.join(self.srv.index, name))
        if (self.tree(self.srv.data), self.tree(self.srv.index)) != before:
            self.fail('index-dump changed a file')
        files, totals, total = parse_dump(p.stdout.decode('latin-1'))
        sp = disk.Space(self.srv.data, self.srv.index, name)
        want = []
        for n in sorted(sp.index):
            want.append([])
            for j, it in enumerate(sp.index[n]):
                want[-1].append({
                    'n': j + 1, 'offset': it.offset, 'id length': len(it.key), 'data length': it.length, 'data offset': it.dataoff,
                    'data fileid': it.dataid, 'entry flags': it.flags, 'entry date': date(it.ts), 'previous': it.previous,
                    'data crc': it.crc, 'parent id': it.parent[0], 'parent offs': it.parent[1], 'entry key': '0x' + it.key.hex()})
        if len(files) != len(want):
            self.fail('index-dump shows %d files instead of %d' % (len(files), len(want)))
        for f, (fs, ws) in enumerate(zip(files, want)):
            if len(fs) != len(ws):
                self.fail('index-dump shows %d items in file %d instead of %d' % (len(fs), f, len(ws)))
            for a, b in zip(fs, ws):
                for k, base in ENTRY:
                    v = a.get(k)
                    try:
                        v = int(v, base) if base else v.lower()
                    except (ValueError, TypeError, AttributeError):
                        pass
                    a[k] = v
                if a != b:
                    bad = [k for k in b if a.get(k) != b[k]]
                    self.fail('index-dump of file %d item %d: %s is %s instead of %s' % (
                        f, b['n'], bad[0] if bad else 'fields', short(a.get(bad[0])) if bad else sorted(a), short(b[bad[0]]) if bad else sorted(b)))
        if totals != [len(w) for w in want] or total != sum(totals):
            self.fail('index-dump counts %s, %s in total, instead of %s' % (totals, total, [len(w) for w in want]))
        self.resume()
        self.env.label('dump:' + ('seq' if self.model.ns[name].seq else 'user'))
        if total:
            self.env.label('dump:items')

    def show(self, name):
        """namespace-dump"""
        before = self.tree(self.srv.index)
        p = tool(self, 'namespace-dump', self.srv.index, name)
        if self.tree(self.srv.index) != before:
            self.fail('namespace-dump changed a file')
        out = {}
        for line in p.stdout.decode('latin-1').split('\n'):
            m = re.match(r'\[\+\] (name|password|public flag|mode worm|maximum size) *: (.*)$', line)
            if m:
                out[m.group(1)] = m.group(2)
        d = disk.read_descriptor(os.path.join(self.srv.index, name, 'zdb-namespace'))
        want = (d[0].decode('latin-1'), d[1].decode('latin-1') if d[1] else '<no password set>', d[2], d[3], d[4])
        try:
            got = (out['name'], out['password'], out['public flag'] != '0', out['mode worm'] != '0', int(out['maximum size'].split(' ')[0]))
        except (KeyError, ValueError) as e:
            self.fail('namespace-dump of %s: %s in %s' % (name, e, short(p.stdout[-400:])))
        if got != want:
            self.fail('namespace-dump of %s shows %s instead of %s' % (name, got, want))
        self.env.label('show')
        return d

    def op_show(self, pick, kind):
        names = sorted(self.model.ns)
        name = names[pick % len(names)]
        self.pause(kind)
        d = self.show(name)
        ns = self.model.ns[name]
        if name != 'default':
            pw = ns.password.encode('latin-1') if ns.password is not None else None
            if d != (name.encode('latin-1'), pw, ns.public, ns.worm, ns.maxsize):
                self.fail('the descriptor of %s says %s' % (name, d))
        self.resume()

    def op_edit(self, pick, password, public, worm, maxsize, kind):
        """namespace-editor replaces the settings"""
        names = sorted(self.model.ns)
        name = names[pick % len(names)]
        ns = self.model.ns[name]
        self.pause(kind)
        s = self.srv
        argv = ['--index', s.index, '--namespace', name]
        pw = None
        if name == 'default':
            password = None         # see P10 for protected instances
        if password is not None:
            pw = bytes.fromhex(password)
            argv += ['--password', os.fsdecode(pw)]
        if public is not None:
            argv += ['--public', 'yes' if public else 'no']
        if worm is not None:
            argv += ['--worm', 'yes' if worm else 'no']
        if maxsize is not None:
            argv += ['--maxsize', str(maxsize)]
        before = self.tree(s.data), self.tree(s.index)
        big = pw is not None and len(pw) > 255
        p = tool(self, 'namespace-editor', *argv, code=None)
        desc = os.path.join(name, 'zdb-namespace')
        if big:
            if p.returncode == 0 or self.tree(s.index) != before[1]:
                self.fail('namespace-editor: a password of %d bytes cannot be stored, code %d' % (len(pw), p.returncode))
            self.resume()
            return
        if p.returncode != 0:
            self.fail('namespace-editor fails: %s' % short(p.stderr[-300:]))
        after = self.tree(s.data), self.tree(s.index)
        d = disk.read_descriptor(os.path.join(s.index, desc))
        want = (name.encode('latin-1'), pw or None, public is None or bool(public), bool(worm), maxsize or 0)
        if d != want:
            self.fail('namespace-editor wrote %s instead of %s' % (d, want))
        after[1].pop(desc)
        before[1].pop(desc)
        if after != before:
            self.fail('namespace-editor changed other files')
        self.show(name)
        ns.password = pw.decode('latin-1') if pw else None
        ns.public, ns.worm, ns.maxsize = want[2:]
        if name == 'default':
            self.edited = want[2:]
        self.resume()
        # the server applies them
        c = self.srv.client()
        if name != 'default' and pw:
            r = c.do('SELECT', name, pw + b'x' if len(pw) < 200 else pw[:-1])
            if not isinstance(r, resp.Err):
                self.fail('%s is selected with another password' % name)
            r = c.do('SELECT', name)
            if isinstance(r, resp.Err) != (not ns.public):
                self.fail('SELECT %s without password: %s (public: %s)' % (name, short(r), ns.public))
        self.srv.clients.remove(c)
        c.close()
        self.verify()
        self.env.label('edit' + (':password' if pw else '') + (':private' if not want[2] else '') + (':worm' if worm else ''))

    def op_absent(self, which, name):
        """nothing is there"""
        if name in self.model.ns:
            return
        self.pause('term')
        before = self.tree(self.srv.data), self.tree(self.srv.index)
        s = self.srv
        argv = {'index-dump': [os.path.join(s.index, name)], 'namespace-dump': [s.index, name],
                'namespace-editor': ['--index', s.index, '--namespace', name, '--password', 'p']}[which]
        p = tool(self, which, *argv, code=None)
        if p.returncode == 0:
            self.fail('%s succeeds on %s which does not exist' % (which, name))
        if (self.tree(s.data), self.tree(s.index)) != before or os.path.exists(os.path.join(s.index, name)):
            self.fail('%s created %s' % (which, name))
        self.resume()
        self.env.label('absent:' + which)


def gen_password(rng):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.6:
        return rng.choice(['pw1', 'x', 'a b', '*', '$(x)', '0', '<no password set>']).encode().hex()
    n = rng.choice([1, 8, 62, 63, 64, 127, 128, 200, 254, 255, 256, 257, 300])
    return bytes(b or 7 for b in expand(n, rng.randrange(2, 1 << 20))).replace(b'\n', b'n').hex()


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None])
    nk = rng.choice([1, 3, 8])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 8]), 'datasize': rng.choice([120, 300, 800, 5000]), 'keys': gen_keys(rng, nk)}
    h = Hist(rng, mode, nk, rng.choice([40, 200, 900]), clients=1)
    kind = lambda: rng.choice(['term', 'term', 'kill'])
    n = rng.randrange(6, 40)
    at = set(rng.sample(range(n), rng.randrange(1, 5)))
    for j in range(n):
        if j in at:
            o = weighted(rng, [(5, 'dump'), (1, 'show'), (5, 'edit'), (1, 'absent')])
            if o == 'edit':
                h.ops.append(['edit', rng.randrange(6), gen_password(rng), rng.choice([None, 0, 1]), rng.choice([None, 0, 0, 1]),
                              rng.choice([None, 0, 1, 500, 10000, 1 << 33, (1 << 63) - 1]), kind()])
                # whatever the name was
                h.pw = {k: None for k in h.pw}
            elif o == 'absent':
                h.ops.append(['absent', rng.choice(['index-dump', 'namespace-dump', 'namespace-editor']), rng.choice(['nowhere', 'beta', 'g'])])
            else:
                h.ops.append([o, rng.randrange(6), kind()])
            h.restarted()
            continue
        o = weighted(rng, [(40, 'set'), (12, 'delete'), (5, 'jump'), (4, 'new_ns'), (5, 'select'), (3, 'setting'), (3, 'tick'), (1, 'restart'), (1, 'nsdel')])
        if o == 'select':
            h.select(0)
        elif o == 'tick':
            h.ops.append(['tick', rng.choice([1, 60, 100000, 500000000])])
        elif o == 'set' and rng.random() < 0.06:
            h.ops.append(['set', 0, rng.randrange(nk), h.value(), rng.choice([0, 1, 1500000000, 2000000000, 4294967295])])
        elif o == 'setting':
            h.setting()
        else:
            getattr(h, o)()
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = DumpWorld(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    return any(k in env.labels for k in ('dump:items',)) or any(k.startswith('edit') for k in env.labels)


CHECK = Check(
    'P19',
    'Random histories (keys, updates, deletions, rotations, namespaces, settings, times) interrupted by runs of index-dump, whose every field of '
    'every item is compared with an independent reader; of namespace-dump, compared with the descriptor and the model; of namespace-editor with '
    'random settings, which must write exactly them, change no other file, and be applied by the server; and of each on what does not exist, '
    'which must fail and create nothing. Non-trivial: items were dumped, or settings edited.',
    [Part('tools', gen, run, 1200, 20000)],
    ['the tools run while no server uses the files', 'dates are shown in UTC'])
CHECK.technique = 'stateful model-based testing, tool output differential with an independent reader of the files'
