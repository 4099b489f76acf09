"""P02: sequential mode hands out identifiers which stay attached to their value."""
from .. import large
from ..engine import Check, Part
from ..gens import gen_value, weighted
from ..world import World
from ..util import seqid


def odd_id(rng):
    """a key which was never handed out (hex)"""
    r = rng.random()
    if r < 0.25:
        return seqid(rng.randrange(1 << 20)).hex() if rng.random() < .1 else seqid(rng.randrange(200, 5000)).hex()
    if r < 0.45:
        return seqid((rng.randrange(1, 1 << 16) << 32) + rng.randrange(60)).hex()
    if r < 0.60:
        return seqid((1 << 64) - 1 - rng.randrange(60)).hex()
    if r < 0.75:
        # entries are 42 bytes long: arithmetic wraparound lands on real ones
        return seqid(((1 << 32) * rng.randrange(1, 42) // 42 + rng.randrange(3)) & ((1 << 64) - 1)).hex()
    if r < 0.9:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 7, 9, 16, 255]))).hex()
    return '61' * 256


def gen(rng, i):
    cfg = {'mode': rng.choice(['seq', 'seq', 'seq', None]), 'bits': 2,
           'datasize': rng.choice([200, 500, 1500, 4000, 60000]), 'rel': rng.random() < 0.3}
    ops, prev = [], []
    if cfg['mode'] is None:
        ops += [['cmd', 0, 'NSNEW', 'sq'], ['cmd', 0, 'NSSET', 'sq', 'mode', 'seq'],
                ['cmd', 0, 'SELECT', 'sq'], ['cmd', 1, 'SELECT', 'sq']]
    big = rng.choice([60, 300, 3000])
    jumps = rng.choice([0, 1, 6])
    restarts = rng.choice([0, 0, 1, 3])
    for _ in range(rng.randrange(20, 120)):
        c = rng.choice([0, 0, 0, 1])
        k = rng.randrange(1 << 16)
        if rng.random() < 0.06:
            k = odd_id(rng)
        o = weighted(rng, [(30, 'new'), (16, 'upd'), (14, 'get'), (4, 'mget'), (9, 'del'), (4, 'EXISTS'),
                           (3, 'LENGTH'), (3, 'KEYTIME'), (3, 'CHECK'), (2, 'dbsize'), (2, 'tick'),
                           (jumps, 'jump'), (1, 'verify'), (1, 'info'), (restarts, 'restart')])
        if o == 'new':
            ops.append(['set', c, None, gen_value(rng, big, prev)])
        elif o == 'upd':
            ops.append(['set', c, k, gen_value(rng, big, prev)])
        elif o == 'get':
            ops.append(['get', c, k])
        elif o == 'mget':
            ops.append(['mget', c, [rng.randrange(1 << 16) if rng.random() < .9 else odd_id(rng)
                                    for _ in range(rng.randrange(1, 6))]])
        elif o == 'del':
            ops.append(['del', c, k])
        elif o == 'dbsize':
            ops.append(['cmd', c, 'DBSIZE'])
        elif o == 'info':
            ops.append(['cmd', c, 'NSINFO', 'default' if cfg['mode'] else 'sq'])
        elif o == 'tick':
            ops.append(['tick', rng.choice([0, 1, 60])])
        elif o == 'jump':
            ops.append(['cmd', c, 'NSJUMP'])
        elif o == 'verify':
            ops.append(['verify'])
        elif o == 'restart':
            ops.append(['restart', rng.choice(['term', 'kill'])])
            if cfg['mode'] is None:
                ops += [['cmd', 0, 'SELECT', 'sq'], ['cmd', 1, 'SELECT', 'sq']]
        else:
            ops.append(['key', c, o, k])
    return {'cfg': cfg, 'ops': ops}


def run(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    ns = w.model.ns['default' if case['cfg']['mode'] else 'sq']  if 'sq' in w.model.ns or case['cfg']['mode'] else None
    if ns is None:
        return False
    upd = ns.nextid - len(ns.ids)
    env.label('updates', upd)
    return len(ns.ids) >= 3 and upd >= 1 and env.labels['GET'] + env.labels['MGET'] >= 1


def gen_many(rng, i):
    """a lot of entries, or of files"""
    cfg = {'mode': 'seq', 'bits': 2, 'datasize': 60000000, 'rel': True}
    ops, k, total = [], 0, 0
    files = i % 2
    for _ in range(rng.randrange(1, 4)):
        if files:
            n, jump = rng.choice([300, 600, 1100]), rng.choice([1, 1, 2])
        else:
            n, jump = rng.choice([1000, 70000 if k < 9000 else 2000]), rng.choice([0, 0, 9000])
        ops.append(['bulk', 0, n, k, 1, rng.choice([1, 1, 3]), jump, rng.choice([0, 0, 2, 5])])
        k += n
        for _ in range(rng.randrange(0, 12)):
            o = rng.choice(['get', 'del', 'upd', 'KEYTIME', 'restart', 'jump'])
            x = rng.randrange(k) if rng.random() < .8 else max(0, k - 1 - rng.randrange(40))
            if o == 'get':
                ops.append(['get', 0, x])
            elif o == 'del':
                ops.append(['del', 0, x])
            elif o == 'upd':
                ops.append(['set', 0, x, [20, rng.randrange(99)]])
            elif o == 'jump':
                ops.append(['cmd', 0, 'NSJUMP'])
            elif o == 'restart':
                if rng.random() < .4:
                    ops.append(['restart', 'term'])
            else:
                ops.append(['key', 0, o, x])
    return {'cfg': cfg, 'ops': ops}


def run_many(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    w.op_scan(0, 'RSCAN')
    w.restart('term')
    w.verify()
    return len(w.model.ns['default'].ids) >= 250


CHECK = Check(
    'P02',
    'Random command sequences in a sequential namespace (server mode seq, or a namespace switched to seq in mixed mode): '
    'inserts, updates, deletions, reads of handed out, deleted, never handed out, 64-bit aliasing and malformed ids, file '
    'rotations by size and by NSJUMP, restarts; each reply and the final content are compared with the model. '
    'Non-trivial: at least 3 inserts, 1 update and 1 successful read. '
    'Part many: up to 200 000 entries in one file, or up to 3000 files; non-trivial: at least 250 identifiers. ' + large.RULE,
    [Part('seq', gen, run, 6000, 50000), Part('many', gen_many, run_many, 24, 240), large.part('seq')],
    ['time() is replaced by a clock the check controls', 'the default rotation size and hash table size are scaled down'])
