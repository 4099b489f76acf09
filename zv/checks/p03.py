"""P03: what a restart or a reload shows is what was there before."""
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted
from ..world import World


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None, None])
    nk = rng.choice([4, 10, 30])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([300, 1000, 4000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.2,
           'opts': rng.choice([[], [], ['--sync'], ['--synctime', '10']])}
    h = Hist(rng, mode, nk, rng.choice([100, 600, 3000]))
    for _ in range(rng.choice([0, 1, 2, 3])):
        h.new_ns()
    for c in range(h.nclients):
        h.select(c)
    for _ in range(rng.randrange(1, 5)):
        for _ in range(rng.randrange(3, 50)):
            o = weighted(rng, [(40, 'set'), (15, 'del'), (3, 'get'), (3, 'jump'), (4, 'select'), (3, 'setting'),
                               (1, 'new'), (1, 'nsdel'), (2, 'tick'), (1, 'reload'), (1, 'ts')])
            if o == 'set':
                h.set()
            elif o == 'del':
                h.delete()
            elif o == 'get':
                h.get()
            elif o == 'jump':
                h.jump()
            elif o == 'select':
                h.select(h.c())
            elif o == 'setting':
                h.setting(kinds=('password', 'public', 'worm', 'maxsize', 'mode'))
            elif o == 'new':
                h.new_ns()
            elif o == 'nsdel':
                h.nsdel()
            elif o == 'reload':
                h.reload()
                h.ops.append(['verify', 1])
            elif o == 'ts':
                c = h.c()
                h.ops.append(['set', c, None if h.seq.get(h.at[c]) else h.key(c), h.value(),
                              rng.choice([0, 5, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])])
            else:
                h.ops.append(['tick', rng.choice([1, 60, 86400])])
        h.restart()
        h.ops.append(['verify', 1])
        for c in range(h.nclients):
            h.select(c)
    return {'cfg': cfg, 'ops': h.ops}


def run(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    L = env.labels
    for n in w.model.ns.values():
        if n.items:
            env.label('nonempty:' + ('seq' if n.seq else 'user'))
    return L['SET'] >= 3 and (L['restart:term'] + L['restart:kill'] + L['restart:stop']) >= 1


def gen_many(rng, i):
    """a lot of keys, of versions, or of files"""
    cfg = {'mode': 'user', 'bits': rng.choice([10, 16]), 'datasize': rng.choice([4000, 60000000]) if i % 2 else 60000000,
           'rel': True, 'keys': [(b'K%d' % k).hex() for k in range(400)]}
    ops, k = [], 0
    for _ in range(rng.randrange(1, 4)):
        if i % 2:
            n, jump, pool = rng.choice([300, 700]), rng.choice([1, 1, 2]), rng.choice([5, 100, 5000])
        else:
            n, jump, pool = rng.choice([1000, 70000 if k < 9000 else 2000]), 0, rng.choice([30, 400, 1 << 20])
        ops.append(['bulk', 0, n, k, pool, rng.choice([1, 1, 30]) if i % 2 else 1, jump, 0])
        k += n
        for _ in range(rng.randrange(0, 12)):
            o = rng.choice(['get', 'del', 'upd', 'restart', 'jump', 'reload'])
            x = rng.randrange(400)
            if o == 'get':
                ops.append(['get', 0, x])
            elif o == 'del':
                ops.append(['del', 0, x])
            elif o == 'upd':
                ops.append(['set', 0, x, [20, rng.randrange(99)]])
            elif o == 'jump':
                ops.append(['cmd', 0, 'NSJUMP'])
            elif o == 'reload':
                if rng.random() < .3:
                    ops.append(['cmd', 0, 'RELOAD', 'default'])
            elif rng.random() < .3:
                ops.append(['restart', rng.choice(['term', 'kill'])])
    return {'cfg': cfg, 'ops': ops}


def run_many(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    w.restart('term')
    w.verify(history=len(w.model.ns['default'].items) < 1000)
    w.op_scan(0, 'RSCAN')
    return env.labels['bulk'] >= 250


CHECK = Check(
    'P03',
    'Random histories over up to five namespaces of both modes (writes, updates, deletions, file rotations, settings, '
    'creation and deletion of namespaces), cut by restarts (SIGTERM, STOP, SIGKILL) and RELOADs; after each one the whole '
    'observable state (every namespace, setting, counter, value, timestamp, SCAN order) is compared with the model. '
    'Non-trivial: at least 3 effective SET and one restart. '
    'Part many: up to 70 000 keys or versions in one file, or up to 2000 files; non-trivial: at least 250 writes.',
    [Part('hist', gen, run, 2500, 20000), Part('many', gen_many, run_many, 16, 160)],
    ['a killed process loses nothing it wrote (the page cache survives); power loss is P27',
     'the default rotation size and hash table size are scaled down'])
