"""Scenarios for the http driver (C13..C18)."""
import g_stream
from vlib import Scenario, hx
from g_stream import segment

METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH']
TOKEN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~'
PATHC = "abcXYZ019-._~!$&'()*+,;=:@/%"
VALC = ''.join(chr(c) for c in range(33, 127))
ARGC = "abcXYZ019-._~!$'()*+,;:@/%?[]{}|^`\"<>\\"
HNAMES = ['Host', 'Accept', 'X-A', 'x-b', 'USER-AGENT', 'Cookie', 'Content-Type', 'Connection', 'X-Content-Length', 'Content-Length-X', 'eTag']


def word(rng, alpha, lo, hi):
    return ''.join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


def recase(rng, s):
    m = rng.randint(0, 3)
    return s if m == 0 else s.lower() if m == 1 else s.upper() if m == 2 else ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def pieces(rng, data, mode=None):
    return [s[1:] for s in segment(rng, data, mode)]


def value(rng):
    r = rng.random()
    if r < 0.1:
        return ''
    v = word(rng, VALC, 1, 12)
    if r < 0.3:
        v = v + ' ' + word(rng, VALC, 1, 5)
    if r < 0.35:
        v = rng.choice(['a:b: c', 'HTTP/1.0', 'HTTP/1.1', 'chunked', 'Content-Length: 5', 'GET / HTTP/1.0'])
    return v


def path(rng):
    return '/' + rng.choice(['', '', 'index.html', 'a/b', 'HTTP', 'HTTP/1.1', 'x/HTTP/1.0/y', 'a:8080/b', word(rng, PATHC, 1, 20), word(rng, PATHC, 1, 40)])


def args(rng, n=None):
    out = []
    for _ in range(rng.randint(0, 5) if n is None else n):
        k = word(rng, 'abcABC019_-.%+', 1, 5)
        if k.lower() in [x[0].lower() for x in out]:
            continue
        out.append((k, rng.choice(['', word(rng, ARGC, 1, 8), word(rng, ARGC, 1, 8), 'a=b', '=', 'HTTP/1.1'])))
    return out


def argtext(rng, a, bare=0.0):
    t = [(k if v == '' and rng.random() < bare else k + '=' + v) for k, v in a]
    return '&'.join(t)


def lineend(rng, style):
    return style if style != 'mix' else rng.choice(['\r\n', '\n'])


def head(rng, first, hs, style=None):
    style = style or rng.choice(['\r\n', '\r\n', '\r\n', '\n', 'mix'])
    t = first + lineend(rng, style)
    for k, v in hs:
        t += k + ':' + rng.choice([' ', ' ', ' ', '', '  ', '\t']) + v + lineend(rng, style)
    return (t + lineend(rng, style)).encode('latin1')


def hdrs(rng, n=None):
    out = []
    for _ in range(rng.randint(0, 5) if n is None else n):
        out.append((rng.choice(HNAMES + [word(rng, TOKEN, 1, 10)]), value(rng)))
        if rng.random() < 0.1:
            out.append((recase(rng, out[-1][0]), value(rng)))
    return [(k, v) for k, v in out if k.lower() not in ('content-length', 'transfer-encoding')]


def body(rng, hi=40):
    r = rng.random()
    if r < 0.1:
        return b''
    if r < 0.3:
        return rng.choice([b'\r\n', b'\r\n\r\n', b'\n\n', b'a\r\n\r\nb', b'\n', b'0\r\n\r\n', b'5\r\nhello\r\n0\r\n\r\n', b'\x00', b'GET / HTTP/1.1\r\n\r\n', b'x' * 300])
    return bytes(rng.randrange(256) for _ in range(rng.randint(1, hi)))


def askline(rng, hs, gs, ps):
    q = []
    for k, _ in hs:
        q.append('h:' + hx(recase(rng, k).encode()))
    for k in ['x-absent', 'content-length', 'host'] + [k[:-1] for k, _ in hs[:2] if len(k) > 1] + [k + 'x' for k, _ in hs[:1]]:
        q.append('h:' + hx(k.encode()))
    for t, a in (('g:', gs), ('p:', ps)):
        for k, _ in a:
            q.append(t + hx(recase(rng, k).encode()))
        for k in ['zz'] + [k[:-1] for k, _ in a[:2] if len(k) > 1] + [x[0] + '&' + y[0] for x, y in zip(a, a[1:])]:
            q.append(t + hx(k.encode()))
    return 'ask ' + ','.join(sorted(set(q)))


def req(rng):
    m = rng.choice(METHODS)
    a = args(rng) if rng.random() < 0.6 else []
    tg = path(rng) + ('?' + argtext(rng, a, 0.3) if a or rng.random() < 0.1 else '')
    hs = hdrs(rng)
    ps = []
    b = b''
    r = rng.random()
    if r < 0.65:
        if m == 'POST' and rng.random() < 0.6:
            ps = args(rng)
            if rng.random() < 0.2:
                ps = [(k, v + rng.choice([' ', ' x', 'y z'])) for k, v in ps]
            b = (argtext(rng, ps, 0.2) + rng.choice(['', '', '\r\n', '\r\n\r\n', '\n'])).encode()
        else:
            b = body(rng)
        if b or rng.random() < 0.5:
            n = str(len(b))
            hs.insert(rng.randint(0, len(hs)), (recase(rng, 'Content-Length'), '0' * rng.choice([0, 0, 0, 2]) + n))
            if rng.random() < 0.05:
                hs.append(('content-length', hs[[k.lower() for k, _ in hs].index('content-length')][1]))
        else:
            ps = []
    w = head(rng, '%s %s HTTP/1.%d' % (m, tg, rng.randint(0, 1)), hs)
    extra = b''
    if rng.random() < 0.12 and any(k.lower() == 'content-length' for k, _ in hs):
        extra = rng.choice([b'X', b'\r\n', b'GET / HTTP/1.1\r\n\r\n', b'&q=1', bytes(30)])
    return w + b, extra, askline(rng, hs, a, ps)


def chunked(rng, data, ext=True, trailers=True):
    out = b''
    i = 0
    while i < len(data):
        n = min(len(data) - i, rng.choice([1, 2, 3, 5, 9, 10, 15, 16, 17, 26, 31, 100, 255, 256, 300]))
        s = '%x' % n
        s = recase(rng, s)
        if rng.random() < 0.2:
            s = '0' * rng.randint(1, 4) + s
        if ext and rng.random() < 0.25:
            s += rng.choice([';a', ';a=b', '; name="v;w"', ' ;x=1', ';', ';5', '\t;q', ' '])
        out += s.encode() + b'\r\n' + data[i:i + n] + b'\r\n'
        i += n
    out += rng.choice([b'0', b'0', b'00', b'0000', b'0;end', b'0 '] if ext else [b'0']) + b'\r\n'
    if trailers and rng.random() < 0.25:
        for _ in range(rng.randint(1, 3)):
            out += rng.choice([b'X-T: 1', b'5', b'0', b'Expires: never', b'a']) + b'\r\n'
    return out + b'\r\n'


def chunkdata(rng):
    r = rng.random()
    if r < 0.25:
        return b''.join(rng.choice([b'\r\n', b'0\r\n\r\n', b'5\r\n', b'a', b'ff', b'\n', b'\r', b'3\r\nabc\r\n', b'0', b';']) for _ in range(rng.randint(1, 8)))
    if r < 0.3:
        return b''
    return bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 16, 17, 40, 260])))


def resp(rng):
    st = rng.choice([200, 200, 404, 101, 301, 500, 100, 599, 204, rng.randint(100, 999)])
    hs = hdrs(rng)
    reason = rng.choice(['', ' ', ' OK', ' Not Found', ' HTTP/1.1 5', ' 404', ' HTTP/1.0', ' 1.0', ' was HTTP/1.0', ' 1.1'])
    first = 'HTTP/1.%d %d%s' % (rng.randint(0, 1), st, reason)
    r = rng.random()
    extra = b''
    if r < 0.45:
        d = chunkdata(rng)
        hs.insert(rng.randint(0, len(hs)), (recase(rng, 'Transfer-Encoding'), rng.choice(['chunked', 'chunked', 'chunked', 'gzip, chunked', 'gzip,chunked'])))
        b = chunked(rng, d)
        if rng.random() < 0.12:
            extra = rng.choice([b'X', b'5\r\nhello\r\n', b'HTTP/1.1 200 OK\r\n\r\n', b'\r\n'])
    elif r < 0.9:
        b = body(rng)
        if not b and rng.random() < 0.3:
            pass
        else:
            hs.insert(rng.randint(0, len(hs)), (recase(rng, 'Content-Length'), '0' * rng.choice([0, 0, 0, 2]) + str(len(b))))
            if rng.random() < 0.15:
                extra = rng.choice([b'X', b'\r\n\r\n', b'HTTP/1.1 200 OK\r\n\r\n', bytes(40)])
    else:
        b = b''
    return head(rng, first, hs) + b, extra, askline(rng, hs, [], [])


def feeds(rng, w, mode=None):
    return 'feedall ' + ' '.join(pieces(rng, w, mode))


def messages(rng, kind, n):
    out = []
    for _ in range(n):
        w, extra, ask = req(rng) if kind == 'req' else resp(rng)
        mode = None if len(w) < 200 else rng.choice(['one', 'two', 'rand', 'rand'])
        out.append(Scenario('%s message' % kind, [feeds(rng, w + extra, mode), ask], 'random', kind=kind))
    return out


def large(rng, kind, n):
    out = []
    for _ in range(n):
        b = bytes(rng.randrange(256) for _ in range(rng.choice([4000, 4096, 4097, 8192, 9001, 20000])))
        if kind == 'req' and rng.random() < 0.3:
            b = b'a=' + b.replace(b'&', b'x').replace(b'=', b'y').replace(b'\r', b'z').replace(b'\n', b'w')
        first = b'POST / HTTP/1.1\r\n' if kind == 'req' else b'HTTP/1.1 200 OK\r\n'
        if kind == 'resp' and rng.random() < 0.5:
            cut = rng.randint(1, len(b) - 1)
            w = first + b'Transfer-Encoding: chunked\r\n\r\n%x\r\n' % cut + b[:cut] + b'\r\n%x\r\n' % (len(b) - cut) + b[cut:] + b'\r\n0\r\n\r\n'
        else:
            w = first + b'Content-Length: %d\r\n\r\n' % len(b) + b
        out.append(Scenario('large %s' % kind, [feeds(rng, w, rng.choice(['one', 'two', 'rand'])), 'ask h:' + hx(b'content-length')], 'random', kind=kind))
    return out


def twosplits(rng, kind, n):
    """every cut of a message into two pieces, and the first byte alone with each"""
    out = []
    for _ in range(n):
        while True:
            w, extra, ask = req(rng) if kind == 'req' else resp(rng)
            if len(w) < 120:
                break
        w += extra
        for i in range(1, len(w)):
            out.append(Scenario('%s cut at %d' % (kind, i), ['feedall %s %s' % (w[:i].hex(), w[i:].hex()), ask], 'enumerated cuts', kind=kind))
    return out


def empties(rng, kind, n):
    """pieces of no bytes in between"""
    out = []
    for _ in range(n):
        w, extra, ask = req(rng) if kind == 'req' else resp(rng)
        ps = pieces(rng, w, 'rand')
        ops = []
        ps2 = []
        for p in ps:
            if rng.random() < 0.3 and ps2:
                ps2.append('-')
            ps2.append(p)
        out.append(Scenario('%s with empty pieces' % kind, ['feedall ' + ' '.join(ps2), ask], 'random', kind=kind))
    return out


def from_model(hist, rng, kind, n):
    hist = hist if len(hist) <= n else rng.sample(hist, n)
    out = []
    for h in hist:
        w = bytes(h)
        ask = 'ask h:' + hx(b'content-length') + ',h:' + hx(b'a') + ',g:' + hx(b'a')
        e = w.find(b'\n')
        tail = len(w) - rng.randint(1, min(8, len(w) - 1))
        r = rng.random()
        if r < 0.35:   # the varied part byte by byte
            ps = [w[:tail].hex()] + ['%02x' % c for c in w[tail:]]
        elif r < 0.5:
            ps = [w.hex()]
        else:
            ps = pieces(rng, w, rng.choice(['two', 'rand', 'rand']))
        out.append(Scenario('%s from the model' % kind, ['feedall ' + ' '.join(ps), ask], 'TLC enumeration', kind=kind))
    return out


# ---------------------------------------------------------------- hostile input
BITS = [b'GET', b'POST', b'HTTP/1.1', b'HTTP', b' ', b' ', b'\r\n', b'\n', b'\r', b'\r\n\r\n', b'\n\n', b'/', b'?', b'&', b'=', b':', b'Content-Length: ', b'content-length:',
        b'Transfer-Encoding: chunked', b'5', b'0', b'-1', b'18446744073709551616', b'99999999999999999999999', b'18446744073709551615', b'ffffffffffffffff', b'10000000000000000', b'\x00', b'\xff', b'a', b'%', b'%4', b'200', b'2000', b'20', b'hello',
        b'0x10', b'+5', b'1;', b'\t', b'7fffffff', b'80000000', b'7ffffffffffffffe', b'ffffffffffffffe0']
FIRST = ['GE', 'GETX', 'get', 'Get', 'GETGET', 'POSTS', 'POS', 'P', 'PUTT', 'DELET', 'DELETED', 'PATC', 'PATCHY', 'HEAD', 'OPTIONS', 'TRACE', 'G', ' GET', 'GET\t', 'XGET', 'POSTGET', 'GETPOST', 'Patch', 'CONNECT', '\r\nGET', 'GET:']
RFIRST = ['HTT', 'HTTP', 'http/1.1', 'HTTP1.1', 'HTTPS/1.1', 'XHTTP/1.1', 'HTTP/', 'HTTP/x', 'HTTP-1.1', 'HTTP//1.1', ' HTTP/1.1', 'ICY', 'HTTPX']
RSTAT = ['', '20', '2', 'abc', '2x0', '-20', '+20', '0x1', 'x200', '200x', '2000', ' 200', '٢']


def mutate(rng, w):
    w = bytearray(w)
    for _ in range(rng.randint(1, 4)):
        i = rng.randint(0, max(0, len(w) - 1))
        r = rng.randint(0, 5)
        if r == 0 and w:
            w[i] = rng.randrange(256)
        elif r == 1:
            w[i:i] = rng.choice(BITS)
        elif r == 2:
            del w[i:i + rng.randint(1, 5)]
        elif r == 3:
            w = w[:i]
        elif r == 4:
            j = rng.randint(0, len(w))
            w[i:i] = w[min(i, j):max(i, j)]
        elif w:
            w[i] = rng.choice(b'\r\n :;=&?/0129afAF%\x00\xff')
    return bytes(w)


def hostile(rng, n):
    out = []
    for _ in range(n):
        kind = rng.choice(['req', 'resp'])
        r = rng.random()
        if r < 0.55:
            w, extra, ask = req(rng) if kind == 'req' else resp(rng)
            w = mutate(rng, (w + extra)[:400])
        elif r < 0.7:
            w = b''.join(rng.choice(BITS) for _ in range(rng.randint(1, 25)))
        elif r < 0.85:
            first = rng.choice([b'GET / HTTP/1.1', b'POST /a?b=c HTTP/1.0']) if kind == 'req' else b'HTTP/1.1 200 OK'
            w = first + b'\r\n' + b''.join(rng.choice(BITS) for _ in range(rng.randint(1, 15))) + b'\r\n\r\n' + b''.join(rng.choice(BITS) for _ in range(rng.randint(0, 10)))
        elif kind == 'req':
            w = (rng.choice(FIRST) + ' / HTTP/1.1\r\nA: b\r\n\r\n').encode()
        else:
            w = (rng.choice(RFIRST) + ' 200 OK\r\n\r\n').encode() if rng.random() < 0.5 else ('HTTP/1.1 ' + rng.choice(RSTAT) + rng.choice(['', ' OK']) + '\r\nA: b\r\n\r\n').encode('utf8')
        if not w:
            continue
        mode = None if len(w) < 150 else rng.choice(['one', 'two', 'rand'])
        out.append(Scenario('hostile %s' % kind, [feeds(rng, w, mode), 'ask h:' + hx(b'a') + ',g:' + hx(b'b')], 'random hostile', kind=kind))
    return out


def firsts(rng):
    out = []
    for f in FIRST + METHODS:
        for t in (' / HTTP/1.1\r\n\r\n', ' /a?b=c HTTP/1.0\n\n', '\r\n\r\n', ' \r\n\r\n'):
            w = (f + t).encode()
            for mode in ('one', 'bytes'):
                out.append(Scenario('first word %r' % f, [feeds(rng, w, mode)], 'enumerated', kind='req'))
    for f in RFIRST + ['HTTP/1.1', 'HTTP/1.0']:
        for s in RSTAT + ['200', '999', '100']:
            w = (f + ' ' + s + rng.choice(['', ' OK', ' ']) + '\r\n' + rng.choice(['', 'A: b\r\n']) + '\r\n').encode('utf8')
            for mode in ('one', 'bytes'):
                out.append(Scenario('first words %r %r' % (f, s), [feeds(rng, w, mode)], 'enumerated', kind='resp'))
    return out


SIZES = ['ffffffffffffffff', 'fffffffffffffffe', 'fffffffffffffffb', '10000000000000000', '100000000000000005', '7fffffffffffffff', '8000000000000000', 'ffffffff', '100000000',
         '0x5', '-1', '-5', '+5', ' 5', '5 5', 'g', '5g', '5xyz', '3 x', '3\t,', '0x', '0 0', '', ';', '5;x', '3 ;x', '3 \t', '0 ', '0\t;x', '00000000000000000005', '5' * 70]


def chunksizes(rng):
    out = []
    for s in SIZES:
        for pre in (b'', b'3\r\nabc\r\n'):
            for post in (b'', b'hello\r\n0\r\n\r\n'):
                w = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n' + pre + s.encode() + b'\r\n' + post
                for mode in ('one', 'rand', 'bytes'):
                    out.append(Scenario('chunk size %r' % s, [feeds(rng, w, mode), 'ask h:' + hx(b'a')], 'enumerated', kind='resp'))
    for s in ['-1', '-5', '+5', '5x', 'x', '0x5', '', ' ', '5 5', '18446744073709551615', '18446744073709551616', '18446744073709551611', '2147483647', '2147483648', '4294967296', '4294967301', '1099511627776', '9' * 40, '005', '5,5']:
        for kind in ('req', 'resp'):
            first = b'POST / HTTP/1.1' if kind == 'req' else b'HTTP/1.1 200 OK'
            w = first + b'\r\nContent-Length: ' + s.encode() + b'\r\n\r\nhello'
            for mode in ('one', 'rand'):
                out.append(Scenario('content length %r' % s, [feeds(rng, w, mode), 'ask h:' + hx(b'a')], 'enumerated', kind=kind))
    return out


ENDS = [b'\r\n\r\n', b'\n\n', b'\n\r\n', b'\r\n\n']


def header_limits(rng, lim, deltas=(-2, -1, 0, 1, 2, 3, 4, 5, 40)):
    """header sections around the limit, with every ending, cut around it"""
    out = []
    for kind in ('req', 'resp'):
        first = b'GET / HTTP/1.1\r\nA: ' if kind == 'req' else b'HTTP/1.1 200 OK\r\nA: '
        for d in deltas:
            for e in ENDS:
                h = first + b'x' * (lim + d - len(first))
                w = h + e
                cuts = [[], [lim - 1], [lim], [lim + 1], [lim + 2], [lim + 3], [lim + 4], [len(h)], [len(w) - 1], [len(h), len(w) - 1], list(range(len(h) - 2, len(w))), [20, len(h) + 1]]
                for c in cuts:
                    c = sorted({x for x in c if 0 < x < len(w)})
                    ps = [w[a:b].hex() for a, b in zip([0] + c, c + [len(w)])]
                    out.append(Scenario('%s header of %d%+d' % (kind, lim, d), ['feedall ' + ' '.join(ps), 'ask h:' + hx(b'a')], 'enumerated limits', kind=kind))
                    if d > 0 and rng.random() < 0.3:     # no end in sight
                        out.append(Scenario('%s unending header' % kind, ['feedall ' + ' '.join(ps[:-1] + [hx(b'y' * 40)])], 'enumerated limits', kind=kind))
    return out


def body_limits(rng, lim):
    out = []
    for d in (-2, -1, 0, 1, 2, 50):
        n = lim + d
        b = bytes(rng.randrange(256) for _ in range(n))
        for kind in ('req', 'resp'):
            first = b'PUT / HTTP/1.1\r\n' if kind == 'req' else b'HTTP/1.1 200 OK\r\n'
            ws = [first + b'Content-Length: %d\r\n\r\n' % n + b, first + b'Content-Length: %d\r\n\r\n' % n + b + b'extra' * 60, first + b'\r\n' + b,
                  first + b'Content-Length: %d\r\n\r\n' % (n + 1000) + b]
            if kind == 'resp':
                for cs in ([n], [n - 1, 1], [1, n - 1], [n // 2, n - n // 2], [1] * 5 + [n - 5]):
                    t = first + b'Transfer-Encoding: chunked\r\n\r\n'
                    i = 0
                    for c in cs:
                        t += b'%x\r\n' % c + b[i:i + c] + b'\r\n'
                        i += c
                    ws.append(t + b'0\r\n\r\n')
                    ws.append(t + b'0\r\n\r\n' + b'trailing' * 40)
            for w in ws:
                for mode in ('one', 'two', 'rand', 'rand'):
                    out.append(Scenario('%s body of %d%+d' % (kind, lim, d), [feeds(rng, w, mode), 'ask h:' + hx(b'a')], 'enumerated limits', kind=kind))
    return out


# ---------------------------------------------------------------- construction
def construct(rng, kind, n, limits=False):
    out = []
    for _ in range(n):
        ops = []
        hs = []
        for _ in range(rng.randint(0, 4)):
            k = rng.choice(['Host', 'host', 'Connection', 'CONNECTION', 'Content-Type', 'Accept', word(rng, TOKEN, 1, 10)])
            if k.lower() in [x[0].lower() for x in hs] or k.lower() in ('content-length', 'transfer-encoding'):
                continue
            hs.append((k, word(rng, VALC, 0, 10)))
        gs = args(rng) if kind == 'req' and rng.random() < 0.6 else []
        ps = []
        b = b''
        r = rng.random()
        if kind == 'req':
            t = rng.choice([-1, 0, 1, 1, 2, 3, 4])
            if t >= 0:
                ops.append('set type %d' % t)
            if rng.random() < 0.8:
                u = path(rng)
                if rng.random() < 0.15:
                    u = u[1:]
                ops.append('set uri ' + hx(u.encode()))
            if r < 0.35 and t == 1:
                ps = args(rng, rng.randint(1, 4))
        else:
            if rng.random() < 0.9:
                ops.append('set status %d' % rng.choice([200, 404, 101, 500, 598, 599, 100, rng.randint(100, 999)]))
        if not ps and rng.random() < 0.7:
            b = body(rng)
            if kind == 'req' and t == 1 and rng.random() < 0.3:
                b = argtext(rng, args(rng)).encode()
            ops.append('set body ' + hx(b))
            if b and rng.random() < 0.08:
                hs.append((recase(rng, 'content-length'), str(len(b))))
        if rng.random() < 0.6:
            ops.append('set ver %d' % rng.choice([1, 2]))
        for k, v in hs:
            ops.append('set h %s %s' % (hx(k.encode()), hx(v.encode())))
        for k, v in gs:
            ops.append('set g %s %s' % (hx(k.encode()), hx(v.encode())))
        for k, v in ps:
            ops.append('set p %s %s' % (hx(k.encode()), hx(v.encode())))
        rng.shuffle(ops)
        ops.append('build ' + hx(rng.choice(['example.com', '10.0.0.1', 'a.b:80', '']).encode()))
        r = rng.random()
        ops.append('refeed ' + ('-' if r < 0.3 else ','.join(['1'] * 400) if r < 0.4 else ','.join(str(rng.choice([1, 2, 7, 20, 60])) for _ in range(8))))
        ops.append(askline(rng, hs + [('Connection', ''), ('Host', ''), ('Content-Type', ''), ('Content-Length', '')], gs, ps))
        out.append(Scenario('%s construction' % kind, ops, 'random', kind=kind))
    return out


# ---------------------------------------------------------------- over a socket
def socket(rng, n):
    out = []
    for _ in range(n):
        kind = rng.choice(['req', 'resp'])
        w, extra, ask = req(rng) if kind == 'req' else resp(rng)
        r = rng.random()
        if r < 0.1:
            w = mutate(rng, w) or b'x'
        elif r < 0.15:
            w = w + extra
        elif r < 0.18:
            big = bytes(rng.randrange(256) for _ in range(rng.choice([4095, 4096, 4097, 9000])))
            first = b'PUT / HTTP/1.1\r\n' if kind == 'req' else b'HTTP/1.1 200 OK\r\n'
            w = first + b'Content-Length: %d\r\n\r\n' % len(big) + big
            ask = 'ask h:' + hx(b'content-length')
        segs = segment(rng, w, None if len(w) < 150 else rng.choice(['one', 'two', 'rand']))
        items = []
        p = rng.choice([0, 0.2, 0.5])
        for s in segs:
            while rng.random() < p:
                items.append('W')
            items.append(s)
        f = rng.random()
        if f < 0.35:
            items.insert(rng.randint(0, len(items)), rng.choice('TXEX'))
        elif f < 0.5:
            items = items[:rng.randint(0, len(items))]
        ops = ['srecv'] * (1 + sum(1 for x in items[:3] if x == 'W')) if items[:1] == ['W'] else ['srecv']
        k = 0
        while k < len(items) and items[k] == 'W':
            k += 1
        ops = ['srecv'] * (k + 1) + [ask]
        out.append(Scenario('%s received' % kind, ops, 'random', kind=kind, **{'in': ','.join(items) or '-'}))
    for _ in range(n // 2):
        kind = rng.choice(['req', 'resp'])
        sc = construct(rng, kind, 1)[0]
        ops = [o for o in sc.ops if o.startswith('set')] + ['ssend']
        items = []
        for _ in range(rng.randint(0, 10)):
            r = rng.random()
            items.append('W' if r < 0.3 else rng.choice('TXE') if r < 0.36 else 'A%d' % rng.choice([1, 1, 2, 5, 17, 40, 4096]))
        out.append(Scenario('%s sent' % kind, ops, 'random', kind=kind, out=','.join(items) or '-'))
    return out


def patience(rng):
    """nothing arrives, or is taken, for a long time in the middle of a message"""
    out = []
    for kind, w in (('req', b'PUT /ab HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc'), ('resp', b'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc'),
                    ('resp', b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n')):
        for pos in sorted({1, 5, len(w) // 2, len(w) - 9, len(w) - 2, len(w) - 1}):
            its = ['D' + w[:pos].hex()] + ['W'] * 700 + ['D' + w[pos:].hex()]
            out.append(Scenario('%s patience@%d' % (kind, pos), ['srecv', 'ask h:' + hx(b'content-length')], 'enumerated', kind=kind, **{'in': ','.join(its)}))
        for pos in (0, 1, 20):
            out.append(Scenario('%s patient send@%d' % (kind, pos), ['set body ' + hx(b'abc'), 'ssend'], 'enumerated', kind=kind,
                                out=','.join((['A%d' % pos] if pos else []) + ['W'] * 700)))
    return out


def statuses(rng):
    """every status code, with a body and without, built and parsed back"""
    out = []
    for st in range(100, 600):
        for bd in (b'abc', b''):
            out.append(Scenario('resp construction', ['set status %d' % st] + (['set body ' + hx(bd)] if bd or rng.random() < 0.3 else [])
                                + ['set ver %d' % rng.choice([1, 2]), 'build ' + hx(b'h'), 'refeed -', 'ask h:' + hx(b'content-length')], 'enumerated', kind='resp'))
    return out


def types(rng):
    """every request type and version, with a body and without"""
    out = []
    for t in (0, 1, 2, 3, 4):
        for v in (1, 2):
            for bd in (b'', b'abc', b'a=b&c=d'):
                for u in ('/', '/x'):
                    out.append(Scenario('req construction', ['set type %d' % t, 'set uri ' + hx(u.encode()), 'set ver %d' % v] + (['set body ' + hx(bd)] if bd else [])
                                        + (['set g 61 62'] if u != '/' else []) + ['build ' + hx(b'h'), 'refeed -', 'ask h:' + hx(b'content-length')], 'enumerated', kind='req'))
    return out


def trickle(rng, n):
    """one byte at a time, and a stop after every prefix"""
    out = []
    for _ in range(n):
        kind = rng.choice(['req', 'resp'])
        while True:
            w, extra, ask = req(rng) if kind == 'req' else resp(rng)
            if len(w) < 90:
                break
        for i in range(0, len(w) + 1):
            end = rng.choice('XTEX')
            its = segment(rng, w[:i], rng.choice(['one', 'rand']))
            out.append(Scenario('%s stopped after %d' % (kind, i), ['srecv', ask], 'enumerated stops', kind=kind, **{'in': ','.join(its + [end])}))
    return out


def carried(rng, scs, k):
    """the same transfers over a TcpSocket and an SSLSocket on the simulated kernel"""
    out = g_stream.carried(rng, scs, k)
    for s in out:       # a blocking descriptor only where the first outcome is final
        s.params['nb'] = 0 if s.ops.count('srecv') < 2 and rng.random() < 0.2 and not (s.params['t'] == 't' and 'W' in s.params['out']) else 1
    return out
