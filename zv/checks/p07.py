"""P07: HISTORY gives back every version of a key, newest first."""
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted, wide
from ..world import World


def gen(rng, i):
    mode = rng.choice(['user', 'user', 'seq', None])
    nk = rng.choice([2, 4, 8])
    cfg = {'mode': mode, 'bits': rng.choice([1, 4]), 'datasize': rng.choice([150, 400, 2000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.25}
    h = Hist(rng, mode, nk, rng.choice([30, 300, 2000]), clients=2)
    if mode is None or rng.random() < 0.2:
        h.new_ns()
        for c in range(h.nclients):
            h.select(c)
    jumps = rng.choice([0, 3, 8])

    def key(c):
        # few keys, many versions
        return rng.randrange(4) if h.seq.get(h.at[c]) else rng.randrange(nk)

    for _ in range(rng.randrange(10, 110)):
        o = weighted(rng, [(40, 'set'), (5, 'new'), (4, 'del'), (jumps, 'jump'), (12, 'history'), (4, 'from'), (3, 'craft'),
                           (2, 'foreign'), (1, 'select'), (1, 'restart'), (1, 'reload'), (5, 'tick'), (1, 'ts')])
        c = h.c()
        slot = rng.randrange(3)
        if o == 'set':
            h.ops.append(['set', c, key(c), h.value()])
        elif o == 'new':
            h.set(c)
        elif o == 'ts':
            h.ops.append(['set', c, key(c), h.value(), rng.choice([0, 7, (1 << 31) + 5, (1 << 32) - 1])])
        elif o == 'del':
            h.ops.append(['del', c, key(c)])
        elif o == 'jump':
            h.jump(c)
        elif o == 'history':
            k = key(c)
            h.ops.append(['history', c, k if rng.random() < 0.95 else ['+', k], rng.choice([0, 1, 2, 1000, 1000]), slot])
        elif o == 'from':
            h.ops.append(['histfrom', c, slot])
        elif o == 'craft':
            h.ops.append(['histcraft', c, slot, rng.choice([key(c), '61' * 255, '61', '61' * 256, '61' * 300]),
                          [[rng.randrange(9), rng.choice([0, 1, 29, 255, rng.randrange(256)])]
                           for _ in range(rng.randrange(1, 5))]])
        elif o == 'foreign':
            h.ops.append(['histcraft', c, slot, key(c), []])
        elif o == 'select':
            h.select(c)
        elif o == 'restart':
            h.restart(rng.choice(['term', 'kill']))
            for c in range(h.nclients):
                h.select(c)
        elif o == 'reload':
            h.reload()
        else:
            h.ops.append(['tick', rng.choice([1, 100])])
    for k in range(nk):
        h.ops.append(['history', 0, k, 1000, 0])
    for s in range(3):
        h.ops.append(['histfrom', 0, s])
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    L = env.labels
    return L['SET'] >= 4 and L['HISTORY'] >= 4 and sum(L['HISTORY:depth%d' % d] for d in (3, 4, 5)) >= 1


CHECK = Check(
    'P07',
    'Random histories concentrated on few keys, in both modes, with file rotations, deletions and re-creations, restarts '
    'and reloads; HISTORY is followed from the current version and from remembered places (kept across later changes), and '
    'every timestamp, payload and the length of the chain are compared with the list of versions of the model; places '
    'belonging to another key must be refused, forged ones must not hurt. Non-trivial: at least 4 SET, 4 versions read and '
    'one key with 3 versions or more.',
    [Part('versions', gen, run, 4000, 30000)],
    ['a key created again after its deletion starts a new chain, as documented by the implementation'])
