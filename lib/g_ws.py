"""Scenarios for the ws driver (C21..C23, C29)."""
from vlib import Scenario, hx
from g_http import recase, word

TOK = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.'
KEYC = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/'


def esc(b):
    return bytes(b).replace(b'@', b'@@')


def frame(rng, masked, payload, fin=True, op=2):
    n = len(payload)
    h = bytes([(128 if fin else 0) | op])
    m = 128 if masked else 0
    if n <= 125:
        h += bytes([m | n])
    elif n <= 65535:
        h += bytes([m | 126]) + n.to_bytes(2, 'big')
    else:
        h += bytes([m | 127]) + n.to_bytes(8, 'big')
    if not masked:
        return h + payload
    k = bytes(rng.randrange(256) for _ in range(4))
    return h + k + bytes(c ^ k[i % 4] for i, c in enumerate(payload))


def payload(rng):
    n = rng.choice([0, 1, 2, 3, 5, 7, 20, 60, 124, 125, 126, 127, 200])
    m = rng.random()
    return bytes([64] * n) if m < 0.1 else bytes(rng.randrange(256) for _ in range(n))


def frames(rng, masked, n):
    return [frame(rng, masked, payload(rng), rng.random() < 0.8, rng.choice([0, 1, 2, 9, 10])) for _ in range(n)]


def cuts(rng, n, faults='', at=None):
    """piece sizes for n bytes with outcomes in between"""
    mode = rng.randint(0, 5)
    out = []
    if mode == 1:
        out = [str(rng.randint(1, max(1, n - 1)))]
    elif mode == 2:
        out = ['1'] * n
    elif mode == 3:
        left = n
        while left > 0:
            k = rng.randint(1, 40)
            out.append(str(k))
            left -= k
    elif mode == 4:
        out = [str(max(1, n - rng.randint(0, 5)))]
    elif mode == 5:
        out = [str(rng.randint(1, 5)) for _ in range(8)]
    return out


def with_outcomes(rng, pieces, kinds, p):
    out = []
    for x in pieces:
        if rng.random() < p:
            out.append(rng.choice(kinds))
        out.append(x)
    if rng.random() < p:
        out.append(rng.choice(kinds))
    return out


def header_block(rng, hs, nl):
    hs = list(hs)
    rng.shuffle(hs)
    for _ in range(rng.choice([0, 0, 0, 1, 3])):
        hs.insert(rng.randint(0, len(hs)), ('X-' + word(rng, TOK, 1, 6), word(rng, TOK + ' ,;=', 0, 12).strip()))
    return b''.join((recase(rng, k) + ':' + rng.choice([' ', ' ', '', '  ', '\t']) + v).encode() + nl for k, v in hs) + nl


def answer(rng, kind):
    nl = rng.choice([b'\r\n', b'\r\n', b'\r\n', b'\n'])
    line = b'HTTP/1.1 101 ' + rng.choice([b'Switching Protocols', b'Upgrading', b'OK', b'', b'200 OK'])
    up = ('Upgrade', rng.choice(['websocket', 'WebSocket', 'WEBSOCKET']))
    co = ('Connection', rng.choice(['Upgrade', 'upgrade', 'keep-alive, Upgrade']))
    acc = {'ok': '@A', 'lower': '@B', 'cut': '@C', 'extra': '@D', 'other': '@E', 'key': '@K', 'empty': ''}
    hs = [up, co]
    if kind in acc:
        hs.append(('Sec-WebSocket-Accept', acc[kind]))
    elif kind != 'none':
        hs.append(('Sec-WebSocket-Accept', '@A'))
    if kind == 'status':
        line = b'HTTP/1.1 ' + rng.choice([b'200 OK', b'400 Bad Request', b'404 Not Found', b'301 Moved', b'426 Upgrade Required', b'500 101', b'100 Continue', b'102 x', b'201 C', b'110 x', b'011 x', b'1010 x'])
    if kind == 'badline':
        line = rng.choice([b'HTTP/1.1', b'101', b'HTTP/1.1 abc OK', b'GET / HTTP/1.1', b'HTTX/1.1 101 OK', b'', b'HTTP/1.1  101'])
    if kind == 'noup':
        hs = hs[1:]
    if kind == 'nocon':
        hs = [hs[0]] + hs[2:]
    if kind == 'body':
        hs.append(('Content-Length', str(rng.choice([1, 5, 20]))))
    if kind == 'zero':
        hs.append(('Content-Length', '0'))
    if kind == 'proto':
        hs.append(('Sec-WebSocket-Protocol', 'chat'))
    if kind == 'nowhere':
        hs = hs[:-1]
        line += b'\r\nX-Sec-WebSocket-Accept: @A\r\nSec-WebSocket-Accept-X: @A'
    return line + nl + header_block(rng, hs, nl)


ANSWERS = ['ok'] * 12 + ['zero', 'proto', 'lower', 'cut', 'extra', 'other', 'other', 'key', 'empty', 'none', 'none', 'status', 'status', 'status', 'badline', 'noup', 'nocon', 'body', 'nowhere']


def key(rng):
    # 22 characters of which the last carries four bits
    return word(rng, KEYC, 21, 21) + rng.choice('AQgw') + '=='


def request(rng, kind):
    nl = rng.choice([b'\r\n', b'\r\n', b'\r\n', b'\n'])
    line = b'GET ' + rng.choice([b'/', b'/chat', b'/a/b?x=1', b'/HTTP/1.1']) + b' HTTP/1.1'
    hs = [('Host', 'h'), ('Upgrade', rng.choice(['websocket', 'websocket', 'WebSocket', 'WEBSOCKET', 'wEbSocket'])), ('Connection', rng.choice(['Upgrade', 'upgrade', 'keep-alive, Upgrade'])),
          ('Sec-WebSocket-Key', key(rng)), ('Sec-WebSocket-Version', '13')]
    if kind == 'method':
        line = rng.choice([b'POST', b'PUT', b'DELETE', b'PATCH', b'HEAD', b'GETX', b'get']) + line[3:]
    if kind == 'noup':
        hs.pop(1)
    if kind == 'otherup':
        hs[1] = ('Upgrade', rng.choice(['h2c', 'websocke', 'websocketx', 'web socket', '', 'xwebsocket', 'TLS/1.0']))
    if kind == 'bad':
        line = rng.choice([b'', b'GARBAGE', b'HTTP/1.1 200 OK', b'\x16\x03\x01\x02', b'GET'])
    if kind == 'nokey':
        hs.pop(3)
    if kind == 'oddkey':
        hs[3] = ('Sec-WebSocket-Key', rng.choice(['', 'a', 'x y', word(rng, KEYC, 30, 90)]))
    if kind == 'nover':
        hs.pop(4)
    if kind == 'ver':
        hs[4] = ('Sec-WebSocket-Version', rng.choice(['8', '12', '14', 'x']))
    if kind == 'nocon':
        hs.pop(2)
    if kind == 'proto':
        hs.append(('Sec-WebSocket-Protocol', 'chat, superchat'))
    if kind == 'ext':
        hs += [('Sec-WebSocket-Extensions', 'permessage-deflate'), ('Origin', 'http://x')]
    if kind == 'http10':
        line = line[:-1] + b'0'
    return line + nl + header_block(rng, hs, nl)


REQUESTS = ['ok'] * 12 + ['proto', 'ext', 'method', 'method', 'noup', 'noup', 'otherup', 'otherup', 'bad', 'bad', 'nokey', 'oddkey', 'nover', 'ver', 'nocon', 'http10']
ELEN = {'@A': 28, '@B': 28, '@C': 27, '@D': 29, '@E': 28, '@K': 24}


def elen(t):
    """length after the template's places are filled"""
    n = i = 0
    while i < len(t):
        if t[i] == 64 and i + 1 < len(t):
            n += ELEN.get('@' + chr(t[i + 1]), 1)
            i += 2
        else:
            n += 1
            i += 1
    return n


def incoming(rng, text, fr, truncate=False, fault=None):
    """`wire in` line(s) for a message text followed by frames, some of them in the message's last segment"""
    n = elen(text)
    same = rng.choice([0, 0, len(fr), rng.randint(0, len(fr))])
    t = text + b''.join(esc(f) for f in fr[:same])
    items = []
    if fault is not None:
        k = rng.choice([0, 1, n - 1, n - 2, rng.randint(0, n), rng.randint(0, n)])
        k = max(0, min(n, k))
        pc = ([str(k)] if k else []) + [fault]
        items.append(':'.join(['R' + hx(t)] + pc))
    else:
        items.append(':'.join(['R' + hx(t)] + with_outcomes(rng, cuts(rng, n), ['W'], rng.choice([0, 0, 0, 0.1, 0.5]))))
    for f in fr[same:]:
        i = rng.randint(0, len(f))
        items += ['D' + hx(f[:i])] if i else []
        if rng.random() < 0.3:
            items.append('W')
        items += ['D' + hx(f[i:])] if i < len(f) else []
    if rng.random() < 0.1:
        items.append(rng.choice(['T', 'X', 'E']))
    return 'wire in ' + ','.join(items)


def outgoing(rng, p):
    items = []
    while rng.random() < p:
        items.append(rng.choice(['A1', 'A2', 'A5', 'A40', 'A100', 'A300', 'W', 'W', 'T', 'E', 'E', 'X']))
    return ['wire out ' + ','.join(items)] if items else []


def paths(rng):
    return rng.choice(['/', '/chat', '/a/b/c', '', 'chat', '/x?y=1&z=2', '/HTTP/1.1', '/%20a', '/' + word(rng, TOK, 1, 30)])


def protos(rng):
    n = rng.choice([0, 0, 1, 2, 3, 5])
    return ','.join(hx(word(rng, TOK, 1, 10).encode()) for _ in range(n)) or '-'


def frame_ops(rng, n, nfr):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            ops.append('recv')
        elif r < 0.75:
            ops.append('send %d %d %s' % (rng.choice([0, 1, 2, 9, 10]), rng.random() < 0.8, hx(payload(rng))))
        elif r < 0.9:
            ops.append('disc')
        elif r < 0.95:
            ops += outgoing(rng, 0.5)
        else:
            ops.append('new')
    return ops


def client_conn(rng, kind=None, fault=None, pout=0.1):
    kind = kind or rng.choice(ANSWERS)
    text = answer(rng, kind)
    fr = frames(rng, False, rng.choice([0, 0, 1, 2, 3]))
    if rng.random() < 0.06:
        text = text[:rng.randint(0, len(text) - 1)]
        if text.endswith(b'@'):
            text = text[:-1]
        fr = []
    ops = ['wire new', incoming(rng, text, fr, fault=fault)] + outgoing(rng, pout)
    p = paths(rng)
    if rng.random() < 0.2:
        ops.append('connect 2d -')
    else:
        ops.append('connect %s %s' % (hx(p.encode()), protos(rng)))
    if rng.random() < 0.04:
        ops[-1] += ' conn=E111'
    return ops, len(fr)


def server_conn(rng, kind=None, fault=None, pout=0.1, kern=False):
    kind = kind or rng.choice(REQUESTS)
    text = esc(request(rng, kind))
    fr = frames(rng, True, rng.choice([0, 0, 1, 2, 3]))
    if rng.random() < 0.06:
        text = text[:rng.randint(0, len(text) - 1)]
        fr = []
    ops = ['wire new', incoming(rng, text, fr, fault=fault)] + outgoing(rng, pout)
    ops.append(rng.choice(['accept', 'adopt 0', 'adopt 1']) if kern else 'adopt 0')
    return ops, len(fr)


def wrap(rng, name, parts, i, **kw):
    return Scenario('%s-%d' % (name, i), parts, t=rng.choice('sk') if 't' not in kw else kw['t'])


def handshakes(rng, n, role):
    """one or two connections, every kind of answer or request, frames behind it"""
    out = []
    kinds = sorted(set(ANSWERS if role == 'client' else REQUESTS))
    for i in range(n):
        t = rng.choice('sk')
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            fault = rng.choice([None, None, None, 'T', 'X', 'E', 'W']) if rng.random() < 0.5 else None
            kind = kinds[i % len(kinds)] if i < 4 * len(kinds) else None
            o, k = (client_conn if role == 'client' else server_conn)(rng, kind, fault, **({} if role == 'client' else {'kern': t == 'k'}))
            ops += o + ['recv'] * (k + rng.choice([0, 0, 1]))
            if role == 'server' or rng.random() < 0.5:
                ops.append('disc')
        out.append(Scenario('%s-%d' % (role, i), ops, t=t))
    return out


def everysplit(rng, role, n):
    """an answer (request) with a frame behind, cut at every place"""
    out = []
    for j in range(n):
        text = answer(rng, 'ok') if role == 'client' else esc(request(rng, 'ok'))
        f = frames(rng, role == 'server', 1)[0]
        m = elen(text)
        for k in range(1, m + 2, 1 if n > 1 else 3):
            conn = 'connect 2f63 -' if role == 'client' else 'adopt 0'
            out.append(Scenario('split-%s-%d-%d' % (role, j, k), ['wire in R%s:%d' % (hx(text + esc(f)), k), conn, 'recv', 'disc'], t='sk'[k % 2]))
    return out


def everyfault(rng, role, n):
    """a failure after every byte of the message"""
    out = []
    for j in range(n):
        text = answer(rng, 'ok') if role == 'client' else esc(request(rng, 'ok'))
        m = elen(text)
        for k in range(0, m + 1, 1 if n > 1 else 4):
            f = 'TXE'[(k + k // 4) % 3]
            conn = 'connect 2f63 -' if role == 'client' else 'adopt 0'
            out.append(Scenario('fault-%s-%d-%d' % (role, j, k), ['wire in R%s:%s%s' % (hx(text), '%d:' % k if k else '', f), conn, 'recv', 'disc'], t='sk'[k % 2]))
        for k in range(0, 260, 4 if n > 1 else 16):
            for f in 'TEX':
                conn = 'connect 2f63 -' if role == 'client' else 'adopt 0'
                o = ['wire in R' + hx(text), 'wire out ' + ('A%d,' % k if k else '') + f, conn, 'send 1 1 6869', 'disc']
                out.append(Scenario('ofault-%s-%d-%d%s' % (role, j, k, f), o, t='sk'[k % 2]))
    return out


def endings(rng, n):
    out = []
    for i in range(n):
        t = rng.choice('sk')
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            srv = rng.random() < 0.5
            bad = rng.random() < 0.15
            o, k = server_conn(rng, None if bad else 'ok', None, 0.05, t == 'k') if srv else client_conn(rng, None if bad else 'ok', None, 0.05)
            ops += o + frame_ops(rng, rng.randint(0, 4), k) + outgoing(rng, 0.25) + ['disc'] * rng.choice([0, 1, 1, 2, 3]) if True else []
            if srv and ops[-1] != 'disc' or rng.random() < 0.3:
                ops.append(rng.choice(['disc', 'new']))
            nxt = rng.random()
        # a server end is not adopted over a live connection
        fixed, live = [], False
        for o in ops:
            if o.startswith('a') and live:
                fixed.append('disc')
            live = live or o.startswith(('a', 'connect'))
            fixed.append(o)
        out.append(Scenario('end-%d' % i, fixed, t=t))
    return out


def unconnected(rng):
    out = []
    for t in 'sk':
        for i, o in enumerate([['disc'], ['disc', 'disc'], ['send 1 1 68', 'disc'], ['recv', 'disc'], ['del'], ['connect 2f - conn=E111', 'disc', 'disc']]):
            out.append(Scenario('unc-%s-%d' % (t, i), o, t=t))
    return out


def digests(rng, n):
    out = []
    for i in range(n):
        m = rng.choice([0, 1, 2, 3, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129]) if rng.random() < 0.4 else rng.randint(0, 200)
        if i < 140:
            m = i
        b = bytes(rng.randrange(256) for _ in range(m))
        ops = ['sha ' + hx(b)] if m > 40 else ['sha ' + hx(b), 'b64 ' + hx(b)]
        if m > 40 and rng.random() < 0.5:
            ops.append('b64 ' + hx(b))
        if rng.random() < 0.2:
            ops += ['sha -', 'b64 ' + hx(bytes([rng.choice([0, 255, 128, 127])]) * rng.randint(0, 9))]
        out.append(Scenario('dig-%d' % i, ops, t='s'))
    return out


def bits64(rng):
    """every value of every byte position of a base64 group"""
    out = []
    for n in (1, 2, 3):
        for p in range(n):
            out.append(Scenario('b64-%d-%d' % (n, p), ['b64 ' + hx(bytes([rng.randrange(256) if q != p else v for q in range(n)])) for v in range(256)], t='s'))
    return out


# ---------------------------------------------------------------- from the model
def model_text(rng, role, k):
    if role == 'client':
        return {'ok': lambda: answer(rng, 'ok'), 'other': lambda: answer(rng, rng.choice(['other', 'cut', 'extra', 'lower', 'key'])), 'none': lambda: answer(rng, 'none'),
                's200': lambda: answer(rng, 'status'), 'garbage': lambda: b'G\n\n', 'half': lambda: answer(rng, 'ok')[:20]}[k]()
    return {'ok': lambda: esc(request(rng, 'ok')), 'post': lambda: esc(request(rng, 'method')), 'plain': lambda: esc(request(rng, rng.choice(['noup', 'otherup']))),
            'garbage': lambda: b'G\n\n', 'half': lambda: esc(request(rng, 'ok'))[:20]}[k]()


def from_model(hs, rng, limit):
    hs = [h for h in hs if True]
    if len(hs) > limit:
        hs = rng.sample(hs, limit)
    out = []
    for i, h in enumerate(hs):
        ops = []
        for o in h:
            if o[0] in ('connect', 'accept'):
                _, k, fk, fp, nb, s = o
                role = 'client' if o[0] == 'connect' else 'server'
                t = model_text(rng, role, k)
                n = elen(t)
                at = 0 if fp == 0 else min(10, n) if fp == 1 else n
                fr = [frame(rng, role == 'server', b'\x07'), frame(rng, role == 'server', b'')][:nb]
                if fk == 'none' or fp < 2:
                    item = 'R' + hx(t + b''.join(esc(f) for f in fr))
                    if fk != 'none':
                        item += (':%d' % at if at else '') + ':' + fk
                    items = [item]
                else:
                    items = ['R' + hx(t), fk] + ['D' + hx(f) for f in fr]
                ops += ['wire new', 'wire in ' + ','.join(items)]
                if s == 'E':
                    ops.append('wire out A9,E')
                if role == 'client':
                    ops.append('connect 2f61 -' + (' conn=E111' if s == 'conn' else ''))
                else:
                    ops.append('adopt 0')
            elif o[0] == 'recv':
                ops.append('recv')
            elif o[0] == 'send':
                ops += (['wire out A1,E'] if o[1] == 'E' else []) + ['send 2 1 05']
            elif o[0] == 'disc':
                ops += (['wire out E'] if o[1] == 'E' else []) + ['disc']
            elif o[0] == 'renew':
                ops.append('new')
        out.append(Scenario('model-%d' % i, ops, 'model', t=rng.choice('sk')))
    return out
