"""P09: isolation and lifecycle of namespaces."""
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted, wide
from ..world import World

POOL = ['alpha', 'Alpha', 'alph', 'alphaa', 'a', 'default2', 'defaul', 'Default', 'zdb-namespace', 'i0', 'd0', '-x', '%s%n', 'a b', ' a',
        'x\r\ny', '\xc3\xa9t\xc3\xa9', '\xff\xfe', '...', '.hidden', '~', '$HOME', '*', 'n' * 128, 'n' * 127, 'm' * 64, '1', '0', '\\', '"', "'"]


def gen(rng, i):
    mode = rng.choice(['user', 'seq', None, None, None])
    nk = rng.choice([2, 5, 12])
    cfg = {'mode': mode, 'bits': rng.choice([1, 1, 3, 10]), 'datasize': rng.choice([200, 1000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.2}
    h = Hist(rng, mode, nk, rng.choice([60, 300]), clients=4)
    h.NAMES = rng.sample(POOL, rng.choice([2, 4, 6, 8]))
    for _ in range(rng.choice([1, 2, 4])):
        h.new_ns(c=rng.randrange(2))
    for c in range(4):
        h.select(c)
    for _ in range(rng.randrange(20, 130)):
        o = weighted(rng, [(40, 'set'), (14, 'del'), (12, 'get'), (2, 'jump'), (14, 'select'), (2, 'setting'), (2, 'info'), (2, 'list'),
                           (5, 'new'), (4, 'nsdel'), (1, 'reload'), (0.7, 'restart'), (3, 'scan'), (2, 'history'), (3, 'verify'),
                           (1, 'dup'), (1, 'close'), (1, 'flush')])
        if o == 'set':
            h.set()
        elif o == 'del':
            h.delete()
        elif o == 'get':
            h.get()
        elif o == 'jump':
            h.jump()
        elif o == 'select':
            h.select(h.c())
        elif o == 'setting':
            h.setting(kinds=('password', 'public', 'worm', 'maxsize', 'mode', 'lock', 'freeze'))
        elif o == 'new':
            h.new_ns(c=h.c())
        elif o == 'nsdel':
            h.nsdel(h.c())
        elif o == 'dup':
            h.ops.append(['cmd', h.c(), rng.choice(['NSNEW', 'NSDEL', 'NSNEW']), rng.choice(list(h.pw) + h.NAMES)])
        elif o == 'reload':
            h.reload()
        elif o == 'info':
            h.ops.append(['cmd', h.c(), 'NSINFO', rng.choice(list(h.pw) + h.NAMES)])
        elif o == 'list':
            h.ops.append(['cmd', h.c(), 'NSLIST'])
        elif o == 'scan':
            h.ops.append(['scan', h.c(), rng.choice(['SCAN', 'RSCAN'])])
        elif o == 'history':
            c = h.c()
            h.ops.append(['history', c, h.key(c), 5])
        elif o == 'verify':
            h.ops.append(['verify', 1])
        elif o == 'close':
            c = h.c()
            h.ops.append(['close', c])
            h.at[c] = 'default'
        elif o == 'flush':
            h.ops.append(['cmd', h.c(), 'FLUSH'])
        else:
            h.restart()
            h.ops.append(['verify', 1])
            for c in range(4):
                h.select(c)
    if rng.random() < 0.012:
        crowd(rng, h)
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def crowd(rng, h):
    """a lot of namespaces"""
    pad = rng.choice(['', 'p' * rng.randrange(1, 124)])
    names = ['M%03d%s' % (k, pad) for k in range(rng.choice([20, 40, 70, 140, 260]))]
    rng.shuffle(names)
    ops = [['cmd', 0, 'NSNEW', n] for n in names]

    def some():
        for n in rng.sample(names, 5):
            c = rng.randrange(4)
            ops.append(['cmd', c, 'SELECT', n])
            ops.append(['set', c, None if h.mode == 'seq' else 0, h.value()])
    some()
    ops.append(['cmd', 1, 'NSLIST'])
    for n in rng.sample(names, rng.choice([0, 3, 15])):
        ops.append(['cmd', 0, 'NSDEL', n])
    some()
    if rng.random() < 0.6:
        ops.append(['restart', rng.choice(['term', 'kill'])])
    ops.append(['verify', 1])
    for n in names[:3]:
        ops.append(['cmd', 0, 'NSNEW', n])
    some()
    at = rng.randrange(len(h.ops) + 1)
    h.ops[at:at] = ops


def run(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify(history=True)
    w.restart('kill')
    w.verify(history=True)
    L = env.labels
    return L['SET'] >= 3 and L['NSNEW'] >= 1 and L['SELECT'] >= 2


CHECK = Check(
    'P09',
    'Random histories of four clients over up to nine namespaces with similar or unusual names, with the same keys everywhere '
    'and a tiny hash table: writes, deletions, selections, creations, deletions (also of a namespace in use), creations again, '
    'reloads, restarts; every reply is compared with the model (one dictionary per namespace), and the whole state of every '
    'namespace is verified at random points, at the end, and after a last restart. Non-trivial: 3 SET, one NSNEW and two SELECT '
    'took effect.',
    [Part('lifecycle', gen, run, 2500, 20000)],
    ['the hash table size and rotation size are scaled down'])
