"""P13: the protocol parser."""
from .. import resp
from ..engine import Check, Part, Violation
from ..gens import gen_keys, weighted
from ..model import ERR, compare
from ..util import expand, seqid, short
from ..world import World

MAX = 8 << 20


def parse(stream):
    """Independent reader: ([requests], end) where end is one of
    'clean', 'partial', 'bad' (to be refused) or 'unclear'."""
    out, p = [], 0

    def header(p, kind):
        e = stream.find(b'\n', p)
        if e < 0:
            return ('bad' if len(stream) - p > 8192 else 'unclear' if len(stream) - p >= 8000 else 'partial'), 0, p
        if e - p > 8000:
            return 'unclear', 0, p
        line = stream[p:e]
        if line.endswith(b'\r'):
            line = line[:-1]
        if line[:1] != kind or not line[1:].isdigit() or not all(48 <= x <= 57 for x in line[1:]):
            return 'bad', 0, p
        return 'ok', int(line[1:]), e + 1

    while p < len(stream):
        st, n, p = header(p, b'*')
        if st != 'ok':
            return out, st
        if n == 0 or n > 1024:
            return out, 'bad'
        args = []
        for _ in range(n):
            st, ln, p = header(p, b'$')
            if st != 'ok':
                return out, st
            if ln > MAX:
                return out, 'bad'
            if len(stream) - p < ln + 2:
                return out, 'partial'
            args.append(stream[p:p + ln])
            if stream[p + ln:p + ln + 2] != b'\r\n':
                return out, 'unclear'
            p += ln + 2
        out.append(args)
    return out, 'clean'


def request(op, keys, nconn):
    """bytes of one generated request"""
    args = []
    for a in op:
        if isinstance(a, str):
            args.append(a.encode('latin-1'))
        elif isinstance(a, list):
            args.append(expand(a[0], a[1]))
        elif a is None:
            args.append(b'')
        elif a >= 1 << 16:
            args.append(seqid(a - (1 << 16)))
        else:
            args.append(bytes.fromhex(keys[a % len(keys)]))
    return resp.encode(*args)


def mutate(data, m):
    d = bytearray(data)
    kind, x, y = m
    n = len(d)
    lines = [i for i in range(n) if d[i:i + 1] in (b'*', b'$') and (i == 0 or d[i - 1:i] == b'\n')]
    if kind == 'flip' and n:
        d[x % n] ^= 1 << (y % 8)
    elif kind == 'set' and n:
        d[x % n] = y % 256
    elif kind == 'del' and n:
        del d[x % n:x % n + 1 + y % 8]
    elif kind == 'ins':
        d[x % (n + 1):x % (n + 1)] = expand(1 + y % 12, y)
    elif kind == 'dup' and n:
        a = x % n
        d[a:a] = d[a:a + 1 + y % 30]
    elif kind == 'cut':
        del d[x % (n + 1):]
    elif kind == 'num' and lines:
        # another number in a header
        i = lines[x % len(lines)] + 1
        e = d.find(b'\r', i)
        vals = [b'-1', b'-2', b'-3', b'0', b'1', b'1024', b'1025', b'8388608', b'8388609', b'2147483647', b'2147483648', b'4294967295',
                b'4294967297', b'-2147483648', b'99999999999999999999', b'', b'+1', b' 1', b'1 ', b'0x4', b'03', b'1e1', b'\x001', b'-0', b'-8388608']
        d[i:e] = vals[y % len(vals)]
    elif kind == 'eol' and lines:
        i = lines[x % len(lines)]
        e = d.find(b'\r\n', i)
        d[e:e + 2] = [b'\n', b'\r', b'', b'\r\r\n', b'\n\r', b'\n\n'][y % 6]
    elif kind == 'type' and lines:
        d[lines[x % len(lines)]] = b'*$:+-(\0 \xff'[y % 9]
    return bytes(d)


JUNK = [b'PING\r\n', b'\r\n', b'\n', b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'*0\r\n', b'*-1\r\n', b'$4\r\nPING\r\n', b'*1\r\n*1\r\n$4\r\nPING\r\n',
        b'*1\r\n$-1\r\n', b'*2\r\n$3\r\nGET\r\n$-1\r\n', b'*2\r\n$3\r\nGET\r\n$-2\r\nab', b'*1\r\n:4\r\n', b'*1025\r\n', b'*\r\n', b'*a\r\n', b'*1\r\n$\r\n',
        b'*', b'*1', b'*1\r\n$', b'*1\r\n$8388609\r\n', b'*3\r\n$3\r\nSET\r\n$1\r\na\r\n$2147483646\r\nx', b'\0' * 40, b'\xff' * 40, b'*2147483648\r\n',
        b'*4294967297\r\n$4\r\nPING\r\n', b'*1\r\n$4294967300\r\nPING\r\n', b'*\n1\r\n$4\r\nPING\r\n', b'*1\r\n$\r\n4\r\nPING\r\n', b'*1\r\n$4PING\r\nPING\r\n',
        b'A' * 8192, b'A' * 8193, b'*' + b'1' * 8191, b'*' + b'\n' * 9000, b'*' + b' ' * 8191, b'*1\r\n$' + b'0' * 9000, b'*1\r\n' + b'\r' * 9000 + b'\n',
        b'*1\r\n$0\r\n\r\n', b'*2\r\n$0\r\n\r\n$0\r\n\r\n']


def gen(rng, i):
    nconn = rng.choice([1, 1, 2, 3])
    mode = rng.choice(['user', 'seq'])
    keys = gen_keys(rng, rng.choice([2, 5]))
    cfg = {'mode': mode, 'bits': 6, 'datasize': rng.choice([3000, 1 << 24]), 'keys': keys, 'rel': rng.random() < 0.4}
    recv = rng.choice([0, 0, 0, 1, 2, 3, 7, 64, 100, 1000, 4096, 8191])
    hostile = rng.random() < 0.5
    ops = []
    size = [0] * nconn

    def key():
        return (1 << 16) + rng.randrange(6) if mode == 'seq' else rng.randrange(len(keys))

    for _ in range(rng.randrange(1, 40)):
        c = rng.randrange(nconn)
        o = weighted(rng, [(30, 'set'), (14, 'get'), (6, 'del'), (8, 'small'), (6, 'pad'), (5, 'odd'), (2, 'mget'), (1.5, 'big')])
        if recv and recv < 64 and o == 'big':
            o = 'get'
        k = None if mode == 'seq' and rng.random() < 0.7 else key()
        if o == 'set':
            a = [rng.choice(['SET', 'set', 'Set', 'SETX']), k, [rng.choice([0, 1, 5, 30, 200, 1000]), rng.randrange(0, 1 << 20)]]
        elif o == 'get':
            a = ['GET', key()]
        elif o == 'mget':
            a = ['MGET'] + [key() for _ in range(rng.choice([1, 3, 200, 1022, 1023]))]
        elif o == 'del':
            a = ['DEL', key()]
        elif o == 'small':
            a = [rng.choice(['PING', 'DBSIZE', 'ping', 'NOPE', 'GET', 'SET'])]
        elif o == 'big':
            a = ['SET', k, [rng.choice([8000, 8192, 20000, 65536, 150000]), rng.randrange(0, 1 << 20)]]
        elif o == 'odd':
            a = rng.choice([['SET', k, [3, 5], [2, 6], [1, 7]], [[rng.choice([0, 1, 300, 9000]), rng.randrange(0, 1 << 20)]], ['GET', None],
                            ['GET', [256, 9]], ['EXISTS', key(), key()], ['DEL', [9000, 3]], ['GET', [8185, 1]], ['PING', [0, 2], [8192, 5]]])
        else:
            # ends exactly at (or near) a multiple of the read size
            m = rng.choice([8192, 8192, 4096, recv or 8192])
            base = len(request(['SET', k, [4000, 0]], keys, nconn))
            want = (-(size[c] + base) + rng.choice([0, 0, 0, 1, 2, 3, -1, -2])) % m
            n = 4000 + want
            if n > 9999:
                n -= m
            a = ['SET', k, [max(0, n), rng.randrange(2, 1 << 20)]]
        size[c] += len(request(a, keys, nconn))
        ops.append([c, 'req', a])
        if hostile and rng.random() < 0.25:
            if rng.random() < 0.4:
                ops.append([c, 'junk', rng.randrange(len(JUNK))])
            else:
                b = rng.choice([['SET', k, [10, 4]], ['GET', key()], ['PING'], ['MGET', key(), key(), key()]])
                ms = [[rng.choice(['flip', 'set', 'del', 'ins', 'dup', 'cut', 'num', 'num', 'num', 'eol', 'type']), rng.randrange(1 << 16), rng.randrange(1 << 16)]
                      for _ in range(rng.choice([1, 1, 2, 3]))]
                ops.append([c, 'mut', b, ms])
    sched = []
    if rng.random() < 0.75:
        for _ in range(rng.randrange(0, 60)):
            sched.append([rng.randrange(nconn), rng.choice([1, 1, 2, 3, 5, 10, 20, 50, 200, 1000, 4095, 4096, 8191, 8192, 8193, 16384])])
    return {'cfg': cfg, 'ops': ops, 'sched': sched, 'nconn': nconn, 'recv': recv}


def run(case, env):
    w = World(env, case['cfg'])
    keys = case['cfg']['keys']
    n = case['nconn']
    conns, streams = [], []
    for i in range(n):
        name = 'n%d' % i
        w.do(0, ['NSNEW', name])
        c, s = w.client(10 + i)
        w.do(10 + i, ['SELECT', name])
        c.s.settimeout(15)
        c.TIMEOUT = 15
        conns.append((c, s))
        data = b''
        for op in case['ops']:
            if op[0] != i:
                continue
            if op[1] == 'req':
                data += request(op[2], keys, n)
            elif op[1] == 'junk':
                data += JUNK[op[2]]
            else:
                d = request(op[2], keys, n)
                for m in op[3]:
                    d = mutate(d, m)
                data += d
        streams.append(data)
    parsed = [parse(x) for x in streams]
    w.srv.ctl['recv_max'] = case['recv']
    sent = [0] * n
    gone = [False] * n

    def push(i, k):
        d = streams[i][sent[i]:sent[i] + k]
        sent[i] += len(d)
        if d and not gone[i]:
            try:
                conns[i][0].raw(d)
            except resp.Closed:
                if parsed[i][1] not in ('bad', 'unclear'):
                    w.fail('connection %d was closed while it sends valid requests' % i)
                gone[i] = True

    for i, k in case['sched']:
        if i < n:
            push(i, k)
    for i in range(n):
        push(i, len(streams[i]))
    total = 0
    for i in range(n):
        c, s = conns[i]
        reqs, end = parsed[i]
        r_lost = False
        for r, argv in enumerate(reqs):
            cmd = argv[0].upper().decode('latin-1')
            if hasattr(w.model, 'c_' + cmd.lower()) and cmd.isalpha():
                want = w.model.exec(s, argv)
            else:
                want = ERR
            try:
                got = c.recv()
            except resp.Closed:
                if end in ('bad', 'unclear') and any(len(x) > 100 for x in reqs[:r + 1]):
                    # more replies than the socket takes: those which wait
                    # in the server are lost when it refuses the connection
                    env.label('refused with replies waiting')
                    r_lost = True
                    for x in reqs[r + 1:]:
                        cmd = x[0].upper().decode('latin-1')
                        if hasattr(w.model, 'c_' + cmd.lower()) and cmd.isalpha():
                            w.model.exec(s, x)
                    break
                w.fail('connection %d was closed before the reply to its request %d (of %d)' % (i, r, len(reqs)), argv)
            bad = compare(got, want)
            if bad:
                w.fail('connection %d, request %d: %s' % (i, r, bad), argv)
            total += 1
        env.label('end:' + end)
        if r_lost:
            pass
        elif end == 'clean':
            if c.pending():
                w.fail('connection %d received more than its replies: %s' % (i, short(bytes(c.buf[c.pos:]))))
            if c.do('PING') != 'PONG':
                w.fail('connection %d does not work any more' % i)
        elif end == 'partial':
            if c.pending():
                w.fail('connection %d received a reply to an incomplete request: %s' % (i, short(bytes(c.buf[c.pos:]))))
        elif end == 'bad':
            # refused: an error or nothing, then the end
            try:
                got = c.recv()
                if not isinstance(got, resp.Err):
                    w.fail('connection %d: malformed bytes were answered %s' % (i, short(got)))
                got = c.recv()
                w.fail('connection %d: %s after malformed bytes' % (i, short(got)))
            except resp.Closed:
                pass
            except resp.Hang:
                w.fail('connection %d: nothing happens after malformed bytes' % i)
        c.close()
        if end == 'unclear':
            # whatever it did stays in its own namespace
            w.do(0, ['NSDEL', 'n%d' % i])
    env.label('requests', total)
    for i in range(n):
        w.drop(10 + i)
    w.srv.ctl['recv_max'] = 0
    c = w.srv.client()
    if c.do('PING') != 'PONG':
        w.fail('the server does not answer')
    w.verify()
    return total >= 1 and (bool(case['sched']) or case['recv'] > 0 or any(e[1] in ('bad', 'unclear') for e in parsed))


# every command, with the kind of its arguments
TEMPLATES = [
    ['SET', 'k', 'v'], ['SET', 'k', 'v', 'n'], ['SETX', 'k', 'v'], ['GET', 'k'], ['MGET', 'k', 'k'], ['DEL', 'k'], ['DEL', 'k', 'n'],
    ['EXISTS', 'k'], ['CHECK', 'k'], ['SCAN'], ['SCAN', 'c'], ['SCANX', 'c'], ['RSCAN'], ['RSCAN', 'c'], ['KSCAN', 'k'], ['HISTORY', 'k'],
    ['HISTORY', 'k', 'c'], ['KEYCUR', 'k'], ['LENGTH', 'k'], ['KEYTIME', 'k'], ['INFO'], ['DBSIZE'], ['TIME'], ['PING'], ['PING', 'v'],
    ['NSNEW', 's'], ['NSDEL', 's'], ['NSLIST'], ['NSSET', 's', 'p', 'w'], ['NSSET', 's', 'p', 'w'], ['NSSET', 's', 'p', 'w'], ['NSINFO', 's'],
    ['NSJUMP'], ['SELECT', 's'], ['SELECT', 's', 'w'], ['SELECT', 's', 'e', 'w'], ['RELOAD', 's'], ['FLUSH'], ['AUTH', 'w'], ['AUTH', 'e', 'w'],
    ['HOOKS'], ['INDEX', 'i'], ['INDEX', 'i', 'r'], ['DATA', 'd', 'n', 'n'], ['COMMAND'], ['MASTER'], ['WAIT', 'x'], ['WAIT', 'x', 'n'], ['s', 's'],
]
LENGTHS = [1, 2, 8, 11, 12, 13, 31, 32, 63, 64, 126, 127, 128, 129, 130, 199, 254, 255, 256, 257, 258, 300, 511, 513, 1024, 5000, 20000]
NUMBERS = ['0', '-1', '1', '28', '26', '4294967295', '4294967296', '-2147483649', '9223372036854775807', '18446744073709551616', '99999999999999999999999', 'x', '0x10', ' 5', '']
STRINGS = ['', '*', '%s%n%p', '..', '.', '/', 'a/b', '\0', 'a\0b', 'default', 'nobody', '-', "'", '\xff\xfe', '\r\n', 'arena']


def weird(rng):
    r = rng.random()
    if r < 0.5:
        return [rng.choice(LENGTHS), rng.randrange(1 << 20)]
    return rng.choice(NUMBERS if r < 0.7 else STRINGS)


def gen_args(rng, i):
    mode = rng.choice(['user', 'seq'])
    cfg = {'mode': mode, 'bits': 6, 'datasize': rng.choice([3000, 1 << 24]), 'admin': 'root', 'rel': rng.random() < 0.3}
    odd = rng.choice([0.15, 0.4, 0.8])

    def arg(kind):
        if rng.random() < odd:
            return weird(rng)
        if kind == 'k':
            return [8, rng.randrange(6)] if mode == 'user' or rng.random() < 0.2 else (1 << 16) + rng.randrange(6)
        return {'v': lambda: [rng.choice([0, 1, 30, 300]), rng.randrange(1 << 20)], 'n': lambda: rng.choice(NUMBERS),
                's': lambda: rng.choice(['arena', 'arena', 'arena', 'new', 'other']), 'e': lambda: 'SECURE', 'r': lambda: 'RESET', 'd': lambda: 'RAW',
                'i': lambda: 'DIRTY', 'p': lambda: rng.choice(['password', 'maxsize', 'public', 'worm', 'lock', 'freeze', 'mode']),
                'w': lambda: rng.choice(['0', '1', '*', 'CHALLENGE', 'user', 'seq', '9999999', 'secret']), 'x': lambda: weird(rng),
                'c': lambda: rng.choice(['=', '=', '=', '^'] + NUMBERS)}[kind]()

    ops = []
    for _ in range(rng.randrange(5, 80)):
        c = rng.choice([0, 0, 0, 1])
        t = rng.choice(TEMPLATES)
        a = [arg('s') if t[0] == 's' else t[0]] + [arg(k) for k in t[1:]]
        r = rng.random()
        if r < 0.05:
            a = a[:-1] or a
        elif r < 0.12:
            a += [weird(rng) for _ in range(rng.choice([1, 1, 2, 5, 60]))]
        if c == 0 and a[0] == 'AUTH' and rng.random() < 0.8:
            a = ['AUTH', 'root']
        ops.append([c, a, rng.randrange(1 << 16)])
    if rng.random() < 0.3:
        ops.insert(rng.randrange(len(ops)), [1, rng.choice([['MIRROR'], ['STOP']]) if not cfg['rel'] else ['MIRROR'], 0])
    return {'cfg': cfg, 'ops': [x for x in ops if x[1] != ['STOP']]}


def run_args(case, env):
    w = World(env, case['cfg'])
    for x in (['AUTH', 'root'], ['NSNEW', 'witness'], ['NSSET', 'witness', 'password', 'deep'], ['NSSET', 'witness', 'public', '0'], ['SELECT', 'witness', 'deep']):
        w.do(0, x)
    for k in range(5):
        w.do(0, ['SET', b'' if case['cfg']['mode'] == 'seq' else b'wit%d' % k, expand(50 + k, k)])
    conns, cursors = {}, []
    answered = 0

    def conn(i):
        if i not in conns:
            c = conns[i] = w.srv.client()
            if i == 0 and c.do('AUTH', 'root') != 'OK':
                w.fail('AUTH')
            c.do('NSNEW', 'arena')
            c.do('SELECT', 'arena')
        return conns[i]

    def collect(got):
        if isinstance(got, bytes) and got:
            del cursors[:-8]
            cursors.append(got)
        elif isinstance(got, list):
            for g in got[:4]:
                collect(g)

    for n, (i, a, r) in enumerate(case['ops']):
        argv = []
        for x in a:
            if isinstance(x, list):
                argv.append(expand(x[0], x[1]))
            elif isinstance(x, int):
                argv.append(seqid(x - (1 << 16)))
            elif x in ('=', '^'):
                # what was received before, or nearly
                d = bytearray(cursors[r % len(cursors)] if cursors else b'')
                if x == '^' and d:
                    d[(r >> 3) % len(d)] ^= 1 << (r & 7)
                argv.append(bytes(d))
            else:
                argv.append(x.encode('latin-1'))
        if argv[0].upper() in (b'STOP', b'WITNESS') or argv[0].upper() == b'MIRROR' and i == 0 or argv[0].upper() == b'WAIT' and len(argv) > 1 and \
                (hasattr(w.model, 'c_' + argv[1].decode('latin-1').lower()) or argv[1] == b'*'):
            continue
        w.n = n
        try:
            c = conn(i)
            got = c.do(*argv)
        except resp.Closed:
            w.fail('the connection was closed', argv)
        except resp.Hang:
            w.fail('no reply', argv)
        answered += 1
        if isinstance(got, resp.Err):
            env.label('refused')
            if 'namespace is not available' in str(got):
                # it was removed
                c.close()
                w.srv.clients.remove(c)
                del conns[i]
                continue
        else:
            env.label('accepted')
            if i == 1 and argv[0].upper() in (b'NSNEW', b'NSDEL', b'NSSET', b'HOOKS', b'RELOAD', b'NSJUMP', b'INDEX', b'DATA', b'MASTER', b'MIRROR'):
                w.fail('accepted without being administrator: %s' % short(got), argv)
            collect(got)
        if c.pending(0):
            w.fail('more than one reply', argv)
    ns = w.model.ns['witness']
    for turn in range(2):
        c = w.srv.client()
        if c.do('AUTH', 'root') != 'OK' or c.do('SELECT', 'witness', 'deep') != 'OK':
            w.fail('the witness cannot be selected')
        for k, item in ns.items.items():
            if c.do('GET', k) != item.value:
                w.fail('the content of another namespace was changed')
        if c.do('DBSIZE') != len(ns.items):
            w.fail('the content of another namespace was changed')
        c.close()
        w.srv.clients.remove(c)
        if turn == 0:
            code = w.srv.stop()
            t = w.srv.sanitizer()
            if t or code is not None and code < 0:
                raise Violation('the stop after these commands ends with %s: %s' % (code, t), 'stop')
            w.srv.start()
    return answered >= 5


CHECK = Check(
    'P13',
    'One to three connections, each with its own namespace, send generated requests (every size class, ends aimed at the read sizes of '
    'the server, wrong arities, unknown and empty commands) cut and interleaved at generated places, while the server reads a '
    'generated number of bytes at a time; half of the cases mix in malformed bytes (25 kinds of numbers, headers, types, ends of line, random '
    'edits). An independent parser says which requests each connection made and whether it has to be refused; replies follow '
    'the model, nothing else is received, and the other connections and the content are intact (AddressSanitizer). '
    'Second part: every command with arguments of every length, numbers and strings out of range, cursors received before with a bit changed, '
    'by an administrator and by another: each gets one well-formed reply, and the content of another namespace stays. '
    'Non-trivial: at least one complete request, and a cut, a short read or malformed bytes; five answers.',
    [Part('stream', gen, run, 4000, 40000, listkeys=('ops', 'sched')), Part('args', gen_args, run_args, 3000, 40000)],
    ['bytes after a bulk argument other than CR LF, and headers of about 8 KiB, may be accepted or refused'])
CHECK.technique = 'generated byte streams and cuts against an independent protocol parser and the reference model, under AddressSanitizer'
