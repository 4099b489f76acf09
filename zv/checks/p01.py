"""P01: user-key mode behaves as a dictionary."""
from .. import large
from ..engine import Check, Part
from ..gens import gen_keys, gen_value, weighted, wide
from ..world import World


def gen(rng, i):
    nk = rng.choice([3, 6, 12, 30])
    cfg = {'mode': rng.choice(['user', 'user', None]), 'bits': rng.choice([1, 2, 4, 8, 12]),
           'datasize': rng.choice([600, 1500, 4000, 20000, 200000]),
           'keys': gen_keys(rng, nk), 'rel': rng.random() < 0.3}
    ops, prev = [], []
    big = rng.choice([300, 3000, 9000])
    for _ in range(rng.randrange(20, 140)):
        k = rng.randrange(nk)
        c = rng.choice([0, 0, 0, 1])
        o = weighted(rng, [(40, 'set'), (14, 'get'), (4, 'mget'), (12, 'del'), (5, 'EXISTS'), (4, 'LENGTH'),
                           (4, 'KEYTIME'), (4, 'CHECK'), (3, 'dbsize'), (3, 'tick'), (2, 'odd'), (2, 'jump'), (1, 'verify'),
                           (1, 'tset'), (1, 'tdel')])
        if o == 'set':
            ops.append(['set', c, k, gen_value(rng, big, prev)])
        elif o == 'tset':
            ops.append(['set', c, k, gen_value(rng, big, prev), rng.choice([0, 1, 12345, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])])
        elif o == 'tdel':
            ops.append(['del', c, k, rng.randrange(1 << 31)])
        elif o == 'get':
            ops.append(['get', c, k])
        elif o == 'mget':
            ops.append(['mget', c, [rng.randrange(nk) if rng.random() < .8 else 'ffee' for _ in range(rng.randrange(1, 8) if rng.random() < 0.95 else rng.choice([255, 256, 300, 1022, 1023]))]])
        elif o == 'del':
            ops.append(['del', c, k])
        elif o == 'dbsize':
            ops.append(['cmd', c, 'DBSIZE'])
        elif o == 'tick':
            ops.append(['tick', rng.choice([0, 1, 1, 60, 100000])])
        elif o == 'jump':
            ops.append(['cmd', c, 'NSJUMP'])
        elif o == 'verify':
            ops.append(['verify'])
        elif o == 'odd':
            bad = rng.choice([None, ['+', k], ['+', k], '61' * 256, '61' * 300, '00' * 511, '62' * 512])
            ops.append(rng.choice([['set', c, bad, gen_value(rng, 100)], ['get', c, bad], ['del', c, bad],
                                   ['key', c, 'EXISTS', bad], ['key', c, 'CHECK', bad], ['key', c, 'LENGTH', bad],
                                   ['cmd', c, 'SET', 'a'], ['cmd', c, 'GET'], ['cmd', c, 'DEL'],
                                   ['cmd', c, 'GET', 'a', 'b'], ['mget', c, [k, bad]]]))
        else:
            ops.append(['key', c, o, k])
    return wide(rng, {'cfg': cfg, 'ops': ops})


def run(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    L = env.labels
    return L['SET'] >= 3 and L['GET'] + L['MGET'] >= 1 and L['DEL'] >= 1


def gen_big(rng, i):
    cfg = {'mode': 'user', 'datasize': rng.choice([1 << 20, 64 << 20]), 'bits': 8, 'keys': gen_keys(rng, 3),
           'rel': rng.random() < 0.5}
    sizes = [8 << 20, (8 << 20) - 1, (4 << 20) + 17, 1 << 20, 65536, 65535, 8192, 8191, 100]
    ops = []
    for _ in range(rng.randrange(3, 7)):
        ops.append(['set', 0, rng.randrange(3), [rng.choice(sizes), rng.randrange(0, 1 << 20)]])
        ops.append(['get', rng.choice([0, 1]), rng.randrange(3)])
    return {'cfg': cfg, 'ops': ops}


def run_big(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    return any(o[0] == 'set' and o[3][0] > (1 << 20) for o in case['ops'])


CHECK = Check(
    'P01',
    'Random command sequences (20-140 commands, two clients) over a small set of binary keys in user-key mode, '
    'with value sizes, file rotation size and hash table size drawn per case; each reply is compared with a dictionary '
    'model and the whole content is verified at the end. Non-trivial: at least 3 effective SET, one read and one '
    'effective DEL. The "big" part stores values up to the 8 MiB limit; non-trivial when a value exceeds 1 MiB. ' + large.RULE,
    [Part('seq', gen, run, 3500, 30000), Part('big', gen_big, run_big, 40, 300),
     large.part('user')],
    ['time() is replaced by a clock the check controls', 'the default rotation size and hash table size are scaled down'])
