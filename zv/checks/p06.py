"""P06: enumeration is complete, ordered, and cursors stay valid."""
from ..engine import Check, Part
from ..gens import Hist, gen_keys, weighted, wide
from ..world import World


def gen(rng, i):
    mode = rng.choice(['user', 'user', 'seq', None])
    nk = rng.choice([4, 10, 40])
    rel = rng.random() < 0.25
    cfg = {'mode': mode, 'bits': rng.choice([1, 4, 10]), 'datasize': rng.choice([150, 400, 2000, 50000]),
           'keys': gen_keys(rng, nk), 'rel': rel,
           # time slice of one call, in a simulated clock
           'todstep': rng.choice([0, 30, 100, 500] if rel else [0, 2, 10, 40])}
    h = Hist(rng, mode, nk, rng.choice([30, 100, 300]), clients=2)
    if mode is None or rng.random() < 0.3:
        h.new_ns()
        for c in range(h.nclients):
            h.select(c)
    jumps = rng.choice([0, 2, 8])
    dels = rng.choice([4, 15, 40])
    for _ in range(rng.randrange(10, 130)):
        o = weighted(rng, [(40, 'set'), (dels, 'del'), (jumps, 'jump'), (4, 'SCAN'), (4, 'RSCAN'), (4, 'cursor'),
                           (5, 'step'), (4, 'walk'), (2, 'craft'), (2, 'kscan'), (1, 'select'), (1, 'restart'),
                           (1, 'reload'), (1, 'wipe'), (2, 'tick')])
        c = h.c()
        cmd = rng.choice(['SCAN', 'RSCAN'])
        slot = str(rng.randrange(4))
        if o == 'set':
            h.set(c)
        elif o == 'del':
            h.delete(c)
        elif o == 'jump':
            h.jump(c)
        elif o in ('SCAN', 'RSCAN'):
            h.ops.append(['scan', c, o])
        elif o == 'cursor':
            k = h.key(c)
            h.ops.append(['cursor', c, slot, k if rng.random() < 0.93 else ['+', k]])
        elif o == 'step':
            h.ops.append(['step', c, cmd, slot, rng.random() < 0.4])
        elif o == 'walk':
            h.ops.append(['walk', c, cmd, slot])
        elif o == 'craft':
            h.ops.append(['craft', c, cmd, slot, [[rng.randrange(19), rng.randrange(256)]
                                                  for _ in range(rng.randrange(1, 5))]])
        elif o == 'kscan':
            k = bytes.fromhex(rng.choice(cfg['keys']))
            h.ops.append(['kscan', c, k[:rng.randrange(1, len(k) + 1)].hex() if rng.random() < .9 else 'fefe'])
        elif o == 'select':
            h.select(c)
        elif o == 'restart':
            h.restart(rng.choice(['term', 'kill']))
            for c in range(h.nclients):
                h.select(c)
        elif o == 'reload':
            h.reload()
        elif o == 'wipe':
            for _ in range(12):
                h.delete(c)
        else:
            h.ops.append(['tick', 1])
    for cmd in ('SCAN', 'RSCAN'):
        h.ops.append(['scan', 0, cmd])
        for s in range(4):
            h.ops.append(['walk', 0, cmd, str(s)])
    return wide(rng, {'cfg': cfg, 'ops': h.ops})


def run(case, env):
    w = World(env, case['cfg'])
    w.run(case['ops'])
    w.verify()
    L = env.labels
    return L['SET'] >= 4 and L['DEL'] >= 1 and L['SCAN'] + L['RSCAN'] >= 2 and \
        L['SCAN:walk'] + L['RSCAN:walk'] + L['SCAN:step'] + L['RSCAN:step'] >= 1


CHECK = Check(
    'P06',
    'Random histories (writes, updates, deletions, wipes, file rotations including empty files, restarts, reloads) in '
    'namespaces of both modes, interleaved with full SCAN/RSCAN walks, single SCAN/RSCAN steps and KEYCUR cursors which are '
    'kept across later mutations and restarts and then followed to the end, KSCAN prefixes, and forged cursors; the listed '
    'keys, sizes, timestamps and their order are compared with the model. Non-trivial: at least 4 effective SET, 1 DEL, two '
    'full walks and one resumed cursor.',
    [Part('walks', gen, run, 4000, 30000)],
    ['the clock behind the time slice of one call is simulated, so that the number of entries per call is drawn per case',
     'a forged cursor has to be refused or answered with well-formed data; which one is not judged',
     'KSCAN is disabled in release builds, it is judged on the debug build'])
