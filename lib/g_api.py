"""Scenarios for the api driver (C30..C33)."""
import re
from vlib import Scenario, hx, SPEC
import g_http

ALNUM = 'abcdefghijklmnopqrstuvwxyz0123456789'


def b(t):
    return hx(t.encode('latin1'))


def chunked(name, ops, src, n=60):
    return [Scenario(name, ops[i:i + n], src) for i in range(0, len(ops), n)]


# ---------------------------------------------------------------- media types
def extensions():
    return re.findall(r'"\.([^"]*)" :>', open(SPEC + '/MimeTable.tla').read())


def mime(rng, n):
    exts = extensions()
    ops = []
    for x in exts:                       # as a name, as an extension, as an extension without its dot
        ops += ['mime ' + b(t) for t in ('.' + x, x, rng.choice(['file.', 'a.b.', '/srv/www.d/x.', '..', 'a.html.', 'html.', 'ä ö.']) + x)]
    odd = ['', '.', '..', 'a.', 'html.', '.html.', 'noext_zzqy', 'x.zzqy_unknown', '.html/zzqy', 'dir.html/zzqy_file', 'a.html ', 'a. html', 'a.html\x00', '\x00', '.\xff',
           'a.html?x=zzqy', 'N/A', '.N/A', 'x.N/A', '.zzqy, .qqzz', 'x' * 300 + '.zzqy', 'a.html.zzqy']
    out = chunked('every extension', ops, 'enumerated') + chunked('odd names', ['mime ' + b(t) for t in odd], 'enumerated')
    near = []
    for x in exts:                       # next to every known extension
        i = rng.randrange(len(x))
        near += ['mime ' + b('f.' + t) for t in (x + rng.choice(ALNUM), rng.choice(ALNUM) + x, x[:-1], x[1:], x[:i] + rng.choice(ALNUM) + x[i:], x + x, x.upper())]
    out += chunked('near misses', near, 'enumerated')
    more = []
    for _ in range(n):
        stem = ''.join(rng.choice(ALNUM + '._- /\\') for _ in range(rng.randint(0, 12)))
        r = rng.random()
        x = rng.choice(exts)
        if r < 0.5:
            t = stem + '.' + x
        elif r < 0.6:
            t = stem + '.' + ''.join(c.upper() if rng.random() < 0.5 else c for c in x)
        elif r < 0.8:                     # neighbours of known extensions which nobody registered
            y = rng.choice([x + 'zzq', 'zzq' + x, x + ' ', ' ' + x, x + '\x00', x + '/zzq', x + ',', x + ', .zzq'])
            t = stem + '.' + y
        else:
            t = stem + rng.choice(['', '.']) + x + '.' + rng.choice(exts)
        more.append('mime ' + b(t))
    return out + chunked('names', more, 'random')


def mime_model(hist, rng, n):
    hist = hist if len(hist) <= n else rng.sample(hist, n)
    return chunked('names from the model', ['mime ' + hx(h) for h in hist], 'TLC enumeration')


# ---------------------------------------------------------------- names
def names(rng, n):
    errs = [0, 1, 2, 4, 11, 32, 98, 104, 110, 111, 113, 115]
    out = chunked('statuses', ['status %d %d' % (v, e) for v in range(0, 22) for e in errs], 'enumerated')
    out += chunked('no statuses', ['status %d %d' % (v, rng.choice(errs)) for v in [-1, -2, 22, 23, 24, 30, 64, 99, 255, 256, 257, 278, 65536, 65537, 99999, 2147483647, -2147483648, -2147483647]], 'enumerated')
    out += chunked('type names', ['rname %d' % v for v in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 255, 256, 65536, 2147483647]], 'enumerated')
    m = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH']
    ts = ['']
    for x in m:
        for i in range(len(x) + 1):
            ts.append(x[:i])
            for c in 'AGTPEHDZ@az \x00\xff/':
                ts.append(x[:i] + c)
                ts.append(x[:i] + c + x[i:])
        ts += [x.lower(), x.title(), ' ' + x, x + ' / HTTP/1.1', x + x, '\r\n' + x]
    out += chunked('request types', ['rtype ' + b(t) for t in ts], 'enumerated')
    e = ['none', 'chunked', 'compress', 'deflate', 'gzip', 'identity']
    ts = ['', 'x-gzip', 'gzip ', ' gzip', 'gzi', 'gzipp', 'chunked,gzip', 'chunked\x00', '\xff']
    for x in e:
        ts += [x, x.upper(), x.title(), x[:-1], x + x, x[1:], x.swapcase()[::-1]] + [''.join(c.upper() if rng.random() < 0.5 else c for c in x) for _ in range(6)]
    out += chunked('encodings', ['tenc ' + b(t) for t in ts], 'enumerated')
    more = []
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            t = ''.join(rng.choice('GETPOSUDLACHZgt ') for _ in range(rng.randint(0, 8)))
            if rng.random() < 0.5:
                x = rng.choice(m)
                t = x[:rng.randint(0, len(x))] + t[:rng.randint(0, 4)]
            more.append('rtype ' + b(t))
        elif r < 0.9:
            x = rng.choice(e)
            i = rng.randint(0, len(x))
            more.append('tenc ' + b(rng.choice([x, x[:i], x[:i] + rng.choice('abcZ-, ') + x[i:], x[i:]]).swapcase() if rng.random() < 0.5 else x))
        else:
            more.append('status %d %d' % (rng.randint(-5, 40), rng.choice(errs)))
    return out + chunked('names', more, 'random')


def rtype_model(hist, rng, n):
    hist = hist if len(hist) <= n else rng.sample(hist, n)
    return chunked('request types from the model', ['rtype ' + hx(h) for h in hist], 'TLC enumeration')


# ---------------------------------------------------------------- byte order
def net(rng, n):
    ops = []
    F4, F8 = ['htonf', 'ntohf'], ['htond', 'ntohd', 'htonll', 'ntohll']
    special4 = ['00000000', '00000080', '0000803f', '0000c07f', '0100807f', '0000807f', '000080ff', 'ffffffff', '01000000', '0100a07f', '0000a0ff', '7f80ffff', '7f800001', 'ffc00001', 'ff800001', '7fa00000']
    special8 = ['0' * 16, '00000000000000f0', '000000000000f87f', '010000000000f07f', '000000000000f07f', '000000000000f0ff', 'f' * 16, '0100000000000000', '0102030405060708',
                '7ff0000000000001', 'fff0000000000001', '7ff8000000000000', 'fffeffffffffffff', '00000000ffffffff', 'ffffffff00000000']
    for f in F4:
        ops += ['net %s %s' % (f, x) for x in special4]
        ops += ['net %s %s' % (f, hx(bytes((0x80 >> (k & 7)) if k // 8 == i else 0 for i in range(4)))) for k in range(32)]
    for f in F8:
        ops += ['net %s %s' % (f, x) for x in special8]
        ops += ['net %s %s' % (f, hx(bytes((0x80 >> (k & 7)) if k // 8 == i else 0 for i in range(8)))) for k in range(64)]
    for _ in range(n):
        if rng.random() < 0.4:
            ops.append('net %s %s' % (rng.choice(F4), hx(bytes(rng.choice([0, 255, 127, 128, 1, rng.randrange(256)]) for _ in range(4)))))
        else:
            ops.append('net %s %s' % (rng.choice(F8), hx(bytes(rng.choice([0, 255, 127, 128, 1, rng.randrange(256)]) for _ in range(8)))))
    return chunked('byte order', ops, 'random')


def net_model(hist, rng, n):
    """every word of the model; pairs of them as the halves of 8-byte numbers"""
    hist = hist if len(hist) <= n else rng.sample(hist, n)
    ops = []
    for h in hist:
        f = rng.choice([('htonf', 'ntohf'), ('htonf', 'ntohf'), ('htond', 'ntohd'), ('htonll', 'ntohll')])
        ops.append('net %s %s' % (rng.choice(f), hx(bytes(h if f[0] == 'htonf' else (h + rng.choice(hist) if rng.random() < .5 else rng.choice(hist) + h)))))
    return chunked('byte order from the model', ops, 'TLC enumeration')


# ---------------------------------------------------------------- values
KEYS = ['a', 'A', 'Ab', 'aB', 'host', 'Host', 'X-Key', 'x-key', 'b', 'content-type', 'k1', 'K1']


def values(rng, n):
    out = []
    for _ in range(n):
        kind = rng.choice(['req', 'resp', 'req', 'resp', 'packet', 'frame'])
        ops = ['new 0 ' + kind]
        live = {0}
        look = 'look %d ' + ','.join(b(k) for k in ['a', 'AB', 'host', 'X-KEY', 'k1', 'zz'])
        for _ in range(rng.randint(4, 26)):
            i = rng.choice(sorted(live)) if live and rng.random() < 0.95 else rng.randrange(4)
            r = rng.random()
            if r < 0.22:
                j = rng.choice([x for x in range(4) if x != i])
                how = rng.choice(['copy', 'assign', 'assign', 'move', 'massign'])
                ops.append('%s %d %d' % (how, i, j))
                if i in live:
                    live.add(j)
                    if how in ('move', 'massign'):
                        live.discard(i)
                    ops.append(look % j)
            elif r < 0.26:
                ops.append('new %d %s' % (i, kind))
                live.add(i)
            elif r < 0.28:
                ops.append('drop %d' % i)
                live.discard(i)
            elif r < 0.40:
                ops.append(look % i)
            elif kind in ('req', 'resp'):
                w = rng.random()
                if w < 0.12:
                    ops.append('uri %d %s' % (i, b(rng.choice(['', '/', 'x', '/a/b', 'a/b', 'index.html', '//', g_http.path(rng)]))))
                elif w < 0.2:
                    ops.append('body %d %s' % (i, b(rng.choice(['', 'body', 'x' * 40, '\x00\x01', 'a=b']))))
                elif w < 0.27:
                    ops.append('type %d %d' % (i, rng.randint(0, 4)))
                elif w < 0.33:
                    ops.append('ver %d %d' % (i, rng.randint(1, 2)))
                elif w < 0.4:
                    ops.append('stat %d %d' % (i, rng.choice([200, 404, 500, 301, 101, 204])))
                elif w < 0.75:
                    m = rng.choice('hhggp') if kind == 'req' else 'h'
                    ops.append('%s %d %s %s' % (m, i, b(rng.choice(KEYS)), b(rng.choice(['v', 'w', 'value', 'xy', '1']))))
                else:
                    ops.append('%sr %d %s' % (rng.choice('hhgp'), i, b(rng.choice(KEYS))))
            elif kind == 'packet':
                w = rng.random()
                if w < 0.45:
                    ops.append('put %d %s' % (i, hx(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 10, 40, 300]))))))
                elif w < 0.75:
                    ops.append('take %d %d' % (i, rng.choice([0, 1, 2, 5, 12, 60])))
                elif w < 0.95:
                    ops.append('cur %d %d' % (i, rng.choice([0, 1, 4, 20, 1000])))
                else:
                    ops.append('clear %d' % i)
            else:
                w = rng.random()
                if w < 0.6:
                    ops.append('pay %d %s' % (i, hx(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 10, 40, 300]))))))
                elif w < 0.8:
                    ops.append('op %d %d' % (i, rng.choice([0, 1, 2, 8, 9, 10])))
                else:
                    ops.append('fin %d %d' % (i, rng.randint(0, 1)))
        for i in range(4):
            if i in live:
                ops.append(look % i)
                if kind in ('req', 'resp') and rng.random() < 0.5:
                    ops.append('build %d %s' % (i, b('example.com')))
                    ops.append(look % i)
                if kind == 'packet':
                    ops += ['cur %d 0' % i, 'take %d 1' % i]
        out.append(Scenario('values of kind ' + kind, ops, 'random'))
    return out


def parsers(rng, n):
    """A message fed in pieces, its parser copied and moved in between: every copy goes on by itself."""
    out = []
    for _ in range(n):
        kind = rng.choice(['req', 'resp'])
        w = (g_http.req if kind == 'req' else g_http.resp)(rng)
        data = w[0] if isinstance(w, tuple) else w
        if isinstance(data, str):
            data = data.encode('latin1')
        cut = sorted(rng.randrange(len(data) + 1) for _ in range(rng.choice([1, 1, 2, 3])))
        ops, at, i = ['new 0 ' + kind], 0, 0
        look = 'look %d ' + ','.join(b(k) for k in ['host', 'content-length', 'X-KEY', 'connection', 'transfer-encoding', 'zz'])
        kept = []
        for c in cut:
            if c > at:
                ops.append('feed %d %s' % (i, hx(data[at:c])))
            at = c
            free = [x for x in range(4) if x != i and x not in [k for k, _ in kept]]
            if not free:
                continue
            j = rng.choice(free)
            how = rng.choice(['copy', 'assign', 'move', 'massign'])
            if how == 'assign' and rng.random() < 0.3:       # onto a parser which is busy
                ops += ['new %d %s' % (j, kind), 'feed %d %s' % (j, hx(data[:rng.randrange(len(data) + 1)]))]
            ops.append('%s %d %d' % (how, i, j))
            if how in ('copy', 'assign'):
                kept.append((i, at))
            i = j
        for j, a in [(i, at)] + kept:
            if a < len(data):
                ops.append('feed %d %s' % (j, hx(data[a:])))
            ops.append(look % j)
        out.append(Scenario('a parser copied', ops, 'random'))
    return out


def value_model(hist, rng, n):
    """Histories of the model over two values."""
    hist = hist if len(hist) <= n else rng.sample(hist, n)
    key = {'a': 'a', 'A': 'A', 'b': 'b'}
    out = []
    for h in hist:
        ops = ['new 0 req']
        for o in h:
            k = o['op']
            if k == 'put':
                ops.append('h %d %s %s' % (o['n'], b(key[o['k']]), b('v%d' % o['v'])))
            elif k == 'read':
                ops.append('hr %d %s' % (o['n'], b(key[o['k']])))
            elif k == 'look':
                ops.append('look %d %s' % (o['n'], ','.join(b(x) for x in ('a', 'b', 'A', 'B'))))
            elif k == 'uri':
                ops.append('uri %d %s' % (o['n'], b('/u%d' % o['v'])))
            elif k == 'new':
                ops.append('new %d req' % o['n'])
            else:
                ops.append('%s %d %d' % (k, o['n'], o['to']))
        ops += ['look 0 ' + b('a'), 'look 1 ' + b('a')]
        out.append(Scenario('values from the model', ops, 'TLC histories'))
    return out
