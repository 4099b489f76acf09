"""P18: an index rebuilt from the data files, or a compacted namespace, holds
the same live content."""
import copy
import os
import shutil
import subprocess

from .. import disk, resp
from ..engine import Check, Part, Violation
from ..gens import Hist, gen_keys, gen_value, weighted, wide
from ..util import short
from ..world import World


def tool(world, name, *argv, code=0):
    e = world.srv.env()
    try:
        p = subprocess.run([os.path.join(world.env.build, name)] + list(argv), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=world.srv.root, timeout=120)
    except subprocess.TimeoutExpired:
        raise Violation('step %d: %s does not end' % (world.n, name), 'hang')
    err = p.stderr.decode('latin-1')
    if 'AddressSanitizer' in err or 'runtime error' in err or p.returncode < 0:
        i = max(0, err.find('ERROR: AddressSanitizer'))
        raise Violation('step %d: %s crashed (code %d): %s' % (world.n, name, p.returncode, err[i:i + 1500]), 'crash')
    if code is not None and p.returncode != code:
        raise Violation('step %d: %s ends with code %d: %s' % (world.n, name, p.returncode, err[-800:]), 'code')
    return p


class ToolWorld(World):
    def __init__(self, env, cfg):
        self.past = []              # (time, {name: contents}) before each tick
        self.compacted = set()      # history is not kept there
        self.rolled = set()         # data files hold what was rolled back
        self.halved = set()         # data files hold more than what was acknowledged
        World.__init__(self, env, cfg)

    def op_tick(self, d):
        self.past.append((self.model.now, {n: (x, copy.deepcopy(x)) for n, x in self.model.ns.items()}))
        World.op_tick(self, d)

    def pause(self, kind):
        """stops the server; only the files are left"""
        if kind == 'kill':
            self.srv.kill()
        else:
            code = self.srv.stop()
            t = self.srv.sanitizer()
            if t or (code is not None and code < 0) or code == 99:
                raise Violation('stopping crashed the server (code %s): %s' % (code, t), 'stop')

    def resume(self):
        self.model.boot()
        self.start()

    def op_halfdel(self, key):
        """a deletion is interrupted after its mark in the data, then done again"""
        c, s = self.client(0)
        ns = s.ns
        k = self.key(key, ns)
        if ns is None or ns.name in self.compacted or ns.name in self.rolled or k not in ns.items or not s.writable or ns.worm:
            return
        ctl = self.srv.ctl
        ctl['crash_at'] = ctl['mutations'] + 1
        try:
            r = c.do('DEL', k)
            self.fail('DEL %s was not interrupted: %s' % (short(k), short(r)))
        except resp.Closed:
            pass
        self.srv.dead(20)
        self.srv.kill()
        ctl.disarm()
        self.resume()
        self.select(self.clients[0][0], ns)
        self.clients[0][1].ns = ns
        self.clients[0][1].writable = True
        r = self.clients[0][0].do('EXISTS', k)
        if r == 1:
            self.do(0, ['DEL', k])
        elif r == 0:
            self.model.exec(self.clients[0][1], [b'DEL', k])
        else:
            self.fail('EXISTS %s: %s' % (short(k), short(r)))
        self.halved.add(ns.name)
        self.env.label('interrupted')

    def op_rebuild(self, pick, back, template, kind):
        """the index of a namespace is lost, and rebuilt"""
        m = self.model
        names = sorted(m.ns)
        ns = m.ns[names[pick % len(names)]]
        name = ns.name
        if name in self.rolled:
            return
        self.pause(kind)
        s = self.srv
        old = os.path.join(self.sc.path, 'lost')
        shutil.rmtree(old, ignore_errors=True)
        os.rename(os.path.join(s.index, name), old)
        argv = ['--data', s.data, '--index', s.index, '--namespace', name, '--mode', 'seq' if ns.seq else 'user']
        if template:
            argv += ['--template', os.path.join(old, 'zdb-namespace')]
        then = None
        if back:
            # a time when it existed
            ok = [(t, x[name][1]) for t, x in self.past if name in x and x[name][0] is ns and x[name][1].epoch == ns.epoch and x[name][1].seq == ns.seq]
            if ok:
                then = ok[back % len(ok)]
                argv += ['--time', str(then[0])]
        before = self.tree(s.data)
        tool(self, 'index-rebuild', *argv)
        if self.tree(s.data) != before:
            self.fail('index-rebuild changed the data files')
        if then is not None:
            was = then[1]
            lost = set(ns.items) - set(was.items)
            ns.items = copy.deepcopy(was.items)
            ns.dead = (ns.dead | lost) - set(was.items)
            ns.nextid, ns.ids, ns.pos = was.nextid, list(was.ids), was.pos
            self.rolled.add(name)
            self.env.label('rolledback')
        if not template:
            ns.password, ns.public, ns.worm, ns.maxsize = None, True, False, 0
        if ns.fresh:
            ns.unsure = True
        if name in self.compacted:
            self.forget(ns)
        ns.epoch += 1               # positions are others
        self.past = []
        self.resume()
        self.verify(history=not self.compacted)
        self.env.label('rebuild:%s:%s' % ('seq' if ns.seq else 'user', 'compacted' if name in self.compacted else 'plain'))

    def forget(self, ns):
        """previous versions are not kept"""
        for it in ns.items.values():
            del it.versions[:-1]

    def tree(self, path):
        out = {}
        for d, _, fs in os.walk(path):
            for f in fs:
                if f == '.lockfile':
                    continue
                p = os.path.join(d, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, path)] = h.read()
        return out

    def op_compact(self, pick, kind):
        m = self.model
        names = sorted(m.ns)
        ns = m.ns[names[pick % len(names)]]
        name = ns.name
        if name in self.rolled:
            return
        self.pause(kind)
        s = self.srv
        out = os.path.join(self.sc.path, 'out')
        shutil.rmtree(out, ignore_errors=True)
        os.mkdir(out)
        os.mkdir(out + '/data')
        os.mkdir(out + '/index')
        before = self.tree(s.data), self.tree(s.index)
        tool(self, 'quick-compact', '--in-data', s.data, '--in-index', s.index, '--out-data', out + '/data',
             '--out-index', out + '/index', '--namespace', name)
        if (self.tree(s.data), self.tree(s.index)) != before:
            self.fail('quick-compact changed its input')
        was = disk.Space(s.data, s.index, name)
        for side, root in (('data', s.data), ('index', s.index)):
            shutil.rmtree(os.path.join(root, name))
            shutil.move(os.path.join(out, side, name), os.path.join(root, name))
        try:
            self.inspect(ns, was)
        except disk.Bad as e:
            self.fail('after quick-compact: %s' % e)
        self.compacted.add(name)
        ns.epoch += 1
        self.past = []
        self.resume()
        self.verify()
        self.env.label('compact:' + ('seq' if ns.seq else 'user'))

    def inspect(self, ns, was):
        sp = disk.Space(self.srv.data, self.srv.index, ns.name)
        if sp.nindex != was.nindex:
            raise disk.Bad('%d index files instead of %d' % (sp.nindex, was.nindex))
        if sp.descriptor != was.descriptor:
            raise disk.Bad('settings are %s instead of %s' % (sp.descriptor, was.descriptor))
        if sp.modes != was.modes:
            raise disk.Bad('the mode changed')
        sp.check_links()
        live = sp.live()
        if set(live) != set(ns.items):
            raise disk.Bad('%s is not what is alive' % short(sorted(live)))
        for k, it in live.items():
            e = sp.payload(it)
            if e.value != ns.items[k].value or e.flags:
                raise disk.Bad('%s has the value %s (flags %d)' % (short(k), short(e.value), e.flags))
        # what is dead has no payload any more
        for it in sp.items():
            if it.deleted and it.length:
                raise disk.Bad('%s, deleted, still has a length' % short(it.key))
        n = sum(len(e.value) for e in sp.entries())
        if n != ns.size:
            raise disk.Bad('%d bytes of payload are kept for %d alive' % (n, ns.size))

    def finish(self):
        self.verify(history=not self.compacted)
        self.restart('term')
        self.verify(history=not self.compacted)
        self.srv.stop()
        if not self.compacted and not self.rolled:
            disk.check(self.srv, self.model, strict=not self.halved)


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None])
    nk = rng.choice([1, 3, 8])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 8]), 'datasize': rng.choice([120, 300, 800, 5000]), 'keys': gen_keys(rng, nk)}
    h = Hist(rng, mode, nk, rng.choice([40, 200, 900]), clients=1)
    kind = lambda: rng.choice(['term', 'term', 'kill'])
    tools = rng.randrange(1, 4)
    n = rng.randrange(8, 60)
    at = set(rng.sample(range(n // 2, n + tools), tools))
    back = rng.random() < 0.3
    for j in range(n + tools):
        if j in at:
            if rng.random() < 0.6:
                h.ops.append(['rebuild', rng.randrange(6), rng.randrange(1, 9) if back else 0, int(rng.random() < 0.6), kind()])
                h.restarted()
            else:
                h.ops.append(['compact', rng.randrange(6), kind()])
                h.restarted()
            continue
        o = weighted(rng, [(40, 'set'), (12, 'delete'), (5, 'jump'), (3, 'new_ns'), (5, 'select'), (2, 'setting'), (3, 'tick'), (1, 'flush'),
                           (1, 'restart'), (1, 'nsdel'), (1.5, 'halfdel')])
        if o == 'select':
            h.select(0)
        elif o == 'tick':
            h.ops.append(['tick', rng.choice([1, 60, 100000])])
        elif o == 'halfdel':
            h.ops.append(['halfdel', h.key(0)])
            h.restarted()
        elif o == 'flush':
            h.ops.append(['cmd', 0, 'FLUSH'])
        elif o == 'set' and rng.random() < 0.06 and not back:
            h.ops.append(['set', 0, rng.randrange(nk), gen_value(rng, 60, h.prev), rng.choice([0, 1, 1500000000, 2000000000])])
        elif o == 'setting':
            h.setting(kinds=('password', 'public', 'maxsize', 'worm', 'worm') if rng.random() < 0.3 else ('password', 'public', 'maxsize'))
        else:
            getattr(h, o)()
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = ToolWorld(env, case['cfg'])
    w.run(case['ops'])
    w.finish()
    return sum(len(n.items) for n in w.model.ns.values()) >= 2


CHECK = Check(
    'P18',
    'Random histories (writes, updates, deletions, rotations, several namespaces and settings, kills) during which the index of a namespace is '
    'removed and rebuilt by index-rebuild, fully or up to a past time, with or without a settings template, or a namespace is replaced by what '
    'quick-compact writes; then the history goes on. After each, the server must show exactly the content of the model (values, times, '
    'scan order, identifiers, settings; every previous version when never compacted), the input files must be unchanged, and an independent '
    'reader must find every live payload, and none of the dead. Non-trivial: 2 live entries or more at the end.',
    [Part('histories', gen, run, 1200, 20000)],
    ['the server was not interrupted within a command before a rebuild, but a deletion (what the index never had would be found in the data)',
     'previous versions are lost by a compaction (documented)', 'a namespace is not rebuilt again after a return to a past time'])
CHECK.technique = 'stateful model-based testing of the offline tools between server runs, with an independent reader of the files'
