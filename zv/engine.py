"""Property-based testing engine: generation, parallel execution, shrinking.

A case is a JSON value which fully determines an execution.  Cases are made
by a generator from a random stream seeded with (VERIF_SEED, property, part,
number), so a run is a pure function of the code and of VERIF_SEED.
"""
import copy
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import sys
import time
import traceback
from collections import Counter

from . import build, resp, server, util

VERIF = build.VERIF
OUT = os.environ.get('ZV_OUT', os.path.join(VERIF, 'out'))
EVID = os.environ.get('ZV_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Violation(Exception):
    """The property is broken. `sig` names the kind of failure."""

    def __init__(self, msg, sig=None):
        self.msg, self.sig = msg, sig
        Exception.__init__(self, msg)


class Discard(Exception):
    """The case could not be judged (counted, never a verdict)."""


class Env:
    """What a case needs to run."""

    def __init__(self, builddir):
        self.build = builddir
        self.labels = Counter()
        self.open = []

    def label(self, name, n=1):
        self.labels[name] += n

    def scratch(self):
        s = server.Scratch()
        self.open.append(s)
        return s

    def server(self, scratch, **kw):
        s = server.Server(scratch, self.build, **kw)
        self.open.append(s)
        return s

    def cleanup(self):
        for x in reversed(self.open):
            try:
                (x.close if hasattr(x, 'close') else x.clean)()
            except Exception:
                pass
        self.open = []


class Part:
    """One generator plus its oracle."""

    def __init__(self, name, gen, run, quick, thorough, listkeys=('ops',), simplify=None):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough = quick, thorough
        self.listkeys = listkeys
        self.simplify = simplify


class Check:
    level = 'exploration'
    budget = {'quick': 150, 'thorough': 700}

    def __init__(self, pid, rule, parts, assumptions=(), level='exploration'):
        self.pid, self.rule, self.parts = pid, rule, parts
        self.assumptions = list(assumptions)
        self.level = level

    def part(self, name):
        for p in self.parts:
            if p.name == name:
                return p
        raise KeyError(name)


def make_case(check, part, seed, i):
    rng = random.Random('%s/%s/%s/%d' % (seed, check.pid, part.name, i))
    case = part.gen(rng, i)
    case['part'] = part.name
    return case


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def run_case(check, case, builddir):
    """-> (verdict, message, sig, labels, nontrivial)"""
    env = Env(builddir)
    part = check.part(case['part'])
    verdict, msg, sig, non = 'ok', None, None, False
    try:
        non = bool(part.run(case, env))
    except Violation as e:
        verdict, msg, sig = 'bad', e.msg, e.sig
    except Discard as e:
        verdict, msg = 'discard', str(e)
    except resp.Closed as e:
        verdict, msg, sig = 'bad', 'connection closed unexpectedly (%s)' % e, 'closed'
    except resp.Hang as e:
        verdict, msg, sig = 'bad', 'no answer within %d s (%s)' % (resp.Client.TIMEOUT, e), 'hang'
    except resp.Malformed as e:
        verdict, msg, sig = 'bad', 'reply is not valid protocol: %s' % e, 'malformed'
    except server.ServerDied as e:
        verdict, msg, sig = 'bad', str(e), 'died'
    except (MemoryError, BlockingIOError) as e:
        verdict, msg = 'discard', 'resources: %r' % e
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
            verdict, msg = 'discard', 'resources: %r' % e
        else:
            verdict, msg, sig = 'bad', 'unexpected: ' + traceback.format_exc(limit=6), 'exception'
    except Exception:
        verdict, msg, sig = 'bad', 'unexpected: ' + traceback.format_exc(limit=6), 'exception'
    if verdict == 'bad':
        # a crash of the program under test explains everything else
        for x in env.open:
            if isinstance(x, server.Server):
                if x.proc is not None:
                    x.dead(0.3)
                t = x.sanitizer()
                if t:
                    msg = '%s\n--- server:\n%s' % (msg, t)
                    break
    env.cleanup()
    return verdict, msg, sig, dict(env.labels), non


# ---------------------------------------------------------------- workers
_G = {}


def _init(check, builddir):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _G['check'], _G['build'] = check, builddir


def _task(arg):
    check = _G['check']
    kind = arg[0]
    if kind == 'gen':
        _, pname, seed, i = arg
        case = make_case(check, check.part(pname), seed, i)
    else:
        case = arg[1]
    t = time.monotonic()
    verdict, msg, sig, labels, non = run_case(check, case, _G['build'])
    h = hashlib.sha256(canon(case).encode()).hexdigest()[:16]
    keep = case if verdict != 'ok' or (kind == 'gen' and arg[3] < 2) else None
    return arg, verdict, msg, sig, labels, non, h, keep, time.monotonic() - t


# ---------------------------------------------------------------- shrinking
def _get(case, key):
    return case.get(key)


def shrink(check, case, sig, pool, limit):
    """Greedy ddmin on the lists of the case, then on its configuration."""
    end = time.monotonic() + limit
    part = check.part(case['part'])
    tried = set()
    best = case

    def first_bad(cands):
        """First candidate which still fails, evaluated in parallel batches."""
        cands = [c for c in cands if canon(c) not in tried]
        for k in range(0, len(cands), 8):
            if time.monotonic() > end:
                return None
            batch = cands[k:k + 8]
            for c in batch:
                tried.add(canon(c))
            for c, r in zip(batch, pool.map(_task, [('case', c) for c in batch], chunksize=1)):
                if r[1] == 'bad' and r[3] == sig:
                    return c
        return None

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for key in part.listkeys:
            lst = _get(best, key)
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and time.monotonic() < end:
                lst = best[key]
                cands = []
                for k in range(0, len(lst), size):
                    c = copy.deepcopy(best)
                    c[key] = lst[:k] + lst[k + size:]
                    cands.append(c)
                # later chunks first: what follows the failure is useless
                got = first_bad(cands[::-1])
                if got is not None:
                    best = got
                    progress = True
                    size = min(size, max(1, len(best[key]) // 2))
                else:
                    size //= 2
        if part.simplify and time.monotonic() < end:
            got = first_bad(list(part.simplify(copy.deepcopy(best))))
            if got is not None:
                best = got
                progress = True
    return best


# ---------------------------------------------------------------- findings
def known(pid):
    """[(pattern, text)] of the findings recorded for this property."""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    sig, text = rest.split(' ', 1)
                    out.append((sig[4:] if sig.startswith('sig=') else sig, text))
    except OSError:
        pass
    return out


# ---------------------------------------------------------------- main
def main(check, tier, seed, replay=None, only=None, cases=None, keep_going=False):
    t0 = time.monotonic()
    try:
        builddir = build.ensure()
    except build.BuildError as e:
        print('error: the tree does not build\n%s' % e, file=sys.stderr)
        return 2
    if replay:
        with open(replay) as f:
            case = json.load(f)['case']
        verdict, msg, sig, labels, non = run_case(check, case, builddir)
        print(verdict, sig, msg)
        return 1 if verdict == 'bad' else 0

    scale = float(os.environ.get('ZV_SCALE', '1'))
    jobs = []
    per = []
    for p in check.parts:
        if only and p.name != only:
            continue
        n = cases if cases is not None else int((p.quick if tier == 'quick' else p.thorough) * scale)
        per.append([('gen', p.name, seed, i) for i in range(n)])
    # interleave the parts so that a time cap cuts all of them evenly
    total = sum(len(x) for x in per)
    order = []
    for x in per:
        for i, j in enumerate(x):
            order.append(((i + 0.5) / len(x), j))
    order.sort(key=lambda x: (x[0], x[1][1]))
    jobs = [j for _, j in order]

    cap = check.budget[tier] if not os.environ.get('ZV_BUDGET') else float(os.environ['ZV_BUDGET'])
    findings = known(check.pid)
    seen_findings = {}
    labels = Counter()
    hashes = set()
    samples = {}
    evaluated = nontrivial = discarded = 0
    partcount = Counter()
    slow = 0.0
    bad = None
    ignored = 0
    capped = False
    nproc = int(os.environ.get('ZV_JOBS', os.cpu_count() or 4))
    pool = mp.get_context('fork').Pool(nproc, _init, (check, builddir))
    result = 0
    try:
        # judged as they end: a long case does not hold the others
        running, ended = 0, queue.Queue()
        it = iter(jobs)
        done = False
        failures = []
        while True:
            while not done and running < nproc * 3:
                j = next(it, None)
                if j is None or time.monotonic() - t0 > cap:
                    if j is not None:
                        capped = True
                    done = True
                    break
                pool.apply_async(_task, (j,), callback=ended.put, error_callback=ended.put)
                running += 1
            if not running:
                break
            r = ended.get(timeout=600)
            running -= 1
            if isinstance(r, BaseException):
                raise r
            arg, verdict, msg, sig, lab, non, h, case, dt = r
            evaluated += 1
            partcount[arg[1]] += 1
            slow = max(slow, dt)
            if verdict == 'discard':
                discarded += 1
                continue
            if verdict == 'ok':
                for k, v in lab.items():
                    labels[k] += v
                if non and h not in hashes:
                    hashes.add(h)
                    nontrivial += 1
                    if case is not None:
                        samples.setdefault(arg[1], case)
                continue
            hit = next((f for f in findings if f[0] == sig), None)
            if hit:
                seen_findings[hit[0]] = hit[1]
                continue
            if keep_going:
                print('FAIL', arg, sig, (msg or '')[:500], flush=True)
                ignored += 1
                continue
            # confirm before believing it
            again = pool.map(_task, [('case', case)] * 3, chunksize=1)
            rep = [x for x in again if x[1] == 'bad']
            if len(rep) < 2:
                ignored += 1
                failures.append((sig, msg))
                print('note: a failure was not reproducible (%d of 3), ignored: %s' % (len(rep), (msg or '')[:300]), flush=True)
                if ignored >= 5 and len(rep) >= 1:
                    bad = (case, msg, sig)
                    break
                continue
            bad = (case, rep[0][2], rep[0][3])
            break
        if bad:
            case, msg, sig = bad
            limit = float(os.environ.get('ZV_SHRINK', '60'))
            small = shrink(check, case, sig, pool, limit)
            fin = run_case(check, small, builddir)
            if fin[0] != 'bad':
                small = case
            else:
                msg, sig = fin[1], fin[2]
            d = os.path.join(OUT, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (check.pid, hashlib.sha256(canon(small).encode()).hexdigest()[:12]))
            with open(path, 'w') as f:
                json.dump({'property': check.pid, 'sig': sig, 'message': msg, 'case': small}, f, indent=1)
            print('minimal case: %s' % canon(small)[:3000])
            print('what fails: %s' % msg)
            print('replay with: python3 -m zv.check %s --replay %s' % (check.pid, path))
            print('VIOLATION property=%s replay=%s' % (check.pid, path), flush=True)
            result = 1
    finally:
        pool.terminate()
        pool.join()
    for sig, text in sorted(seen_findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (check.pid, text))
    ev = {
        'property': check.pid, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': evaluated,
            'distinct_nontrivial': nontrivial,
            'rule': check.rule,
            'samples': [c if len(canon(c)) < 20000 else canon(c)[:20000] for c in samples.values()][:6],
            'cases_per_part': dict(partcount),
            'labels': dict(sorted(labels.items())),
            'discarded': discarded,
            'not_reproduced': ignored,
            'planned_cases': total,
            'time_cap_hit': capped,
            'slowest_case_s': round(slow, 2),
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if result else 0,
    }
    if not ev['coverage']['samples']:
        ev['coverage']['samples'] = ['none: no non-trivial case among those kept']
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d' % (check.pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, check.pid + '.json'))
    print('%s %s: %d cases (%d non-trivial, %d discarded) in %.1f s%s' % (
        check.pid, 'VIOLATED' if result else 'held', evaluated, nontrivial, discarded,
        time.monotonic() - t0, ' [time cap]' if capped else ''))
    return result
