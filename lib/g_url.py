"""Scenarios for the url driver (C24..C26)."""
from vlib import Scenario, hx

SCHEMES = ['http', 'https', 'ftp', 'sftp', 'irc', 'mailto', 'HTTP', 'Https', 'FTP', 'sFtP', 'IRC', 'MailTo', 'ws', 'foo', 'git+ssh', 'httpx', 'htt', 'unknown', 'Unknown', 'x']
HOSTS = ['example.com', '127.0.0.1', 'a', 'localhost', 'a.b.c.d', '[::1]', '[2001:db8::8a2e:370:7334]', 'EXAMPLE.com', 'xn--bcher-kva.example', 'http', 'https', 'a-b_c', 'h%41']
PC = 'abcXYZ019-._~!$&\'()*+,;=:@/%[]|'


def word(rng, alpha, lo, hi):
    return ''.join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


def host(rng):
    return rng.choice(HOSTS) if rng.random() < 0.7 else word(rng, 'abcXYZ019-._~', 1, 12)


def port(rng):
    return rng.choice(['80', '443', '21', '22', '25', '6697', '0', '65535', '8080', '1', '00080', word(rng, '0123456789', 1, 5)])


def parts(rng):
    sc = rng.choice(SCHEMES) if rng.random() < 0.75 else None
    p = port(rng) if rng.random() < 0.45 else None
    path = '' if rng.random() < 0.3 else '/' + rng.choice(['', '', 'a', 'a/b', 'a:80/b', 'http://x', '//', 'x://y', ':', '@', word(rng, PC, 1, 20)])
    q = None if rng.random() < 0.4 else rng.choice(['', 'a=b', 'u=http://h:1/p?x', '?', '/', ':', 'a?b?c', word(rng, PC + '?', 1, 15)])
    f = None if rng.random() < 0.5 else rng.choice(['', 'frag', '#', '?', '/', ':80', 'a#b', 'http://q', word(rng, PC + '?#', 1, 12)])
    return sc, host(rng), p, path, q, f


def text(rng, t=None):
    sc, h, p, path, q, f = t or parts(rng)
    return (sc + '://' if sc else '') + h + (':' + p if p is not None else '') + path + ('?' + q if q is not None else '') + ('#' + f if f is not None else '')


def scruffy(rng):
    r = rng.random()
    if r < 0.4:
        t = text(rng)
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(t))
            t = rng.choice([t[:i], t[:i] + rng.choice([':', '/', '?', '#', '://', '[', ']', '@', '\x00', '\xff', ' ']) + t[i:], t[:i] + t[i + 1:], t[i:]])
        return t
    if r < 0.8:
        return ''.join(rng.choice([':', '/', '?', '#', '://', 'a', 'http', '80', '[', ']', '@', '.']) for _ in range(rng.randint(0, 10)))
    return rng.choice(['', '/', '//', '?', '#', ':', '://', 'bob', '/bob', 'http://', 'http:', 'http:/', 'http:///', '://a', 'a:', ':80', '?#', '#?', '[', '[]', '[::1', 'http://[', 'a://[b:c'])


def b(t):
    return hx(t.encode('latin1'))


def splits(rng, n):
    out = []
    for _ in range(n):
        ops = ['new'] if rng.random() < 0.3 else []
        for _ in range(rng.randint(1, 5)):
            ops.append('parse ' + b(text(rng) if rng.random() < 0.75 else scruffy(rng)))
            if rng.random() < 0.1:
                ops.append('set %s %s' % (rng.choice(['host', 'port', 'path', 'query', 'frag']), b(word(rng, PC, 0, 5))))
        ops.append('schemes')
        ops.append('sname ' + b(rng.choice(SCHEMES)))
        out.append(Scenario('urls parsed in turn', ops, 'random'))
    return out


def assembled(rng, n):
    out = []
    for _ in range(n):
        ops = ['new']
        if rng.random() < 0.4:
            ops.append('parse ' + b(text(rng)))
        for _ in range(rng.randint(1, 3)):
            sc, h, p, path, q, f = parts(rng)
            sets = []
            if rng.random() < 0.7:
                sets.append('set scheme %d' % rng.randint(0, 6))
            sets.append('set host ' + b(h))
            if rng.random() < 0.7:
                sets.append('set port ' + b(p or ''))
            if rng.random() < 0.7:
                sets.append('set path ' + b(path))
            if rng.random() < 0.7:
                sets.append('set query ' + b((q or '').replace('#', '')))
            if rng.random() < 0.7:
                sets.append('set frag ' + b(f or ''))
            rng.shuffle(sets)
            ops += sets[:rng.randint(1, len(sets))]
            ops.append('look')
        out.append(Scenario('url assembled', ops, 'random'))
    return out


def from_model(hist, rng, n):
    hist = hist if len(hist) <= n else rng.sample(hist, n)
    return [Scenario('urls from the model', ['parse ' + hx(h) for h in hist[i:i + 8]], 'TLC enumeration') for i in range(0, len(hist), 8)]


def pct_model(hist, rng, n):
    hist = hist if len(hist) <= n else rng.sample(hist, n)
    return [Scenario('escapes from the model', [o + ' ' + hx(h) for h in hist[i:i + 8] for o in ('enc', 'dec')], 'TLC enumeration') for i in range(0, len(hist), 8)]


HEXD = '0123456789abcdefABCDEF'


def codec(rng, n):
    out = [Scenario('every byte', ['enc %02x' % c for c in range(256)], 'enumerated'),
           Scenario('every escape', ['dec ' + b('%' + x + y) for x in HEXD for y in HEXD], 'enumerated'),
           Scenario('every byte after %', ['dec ' + b('%' + chr(c)) for c in range(256)] + ['dec ' + b('%4' + chr(c)) for c in range(256)]
                    + ['dec ' + b('%' + chr(c) + '1x') for c in range(256)], 'enumerated'),
           Scenario('every plain byte', ['dec ' + b(chr(c)) for c in range(256)] + ['dec ' + b('a' + chr(c) + 'b') for c in range(256)], 'enumerated')]
    for _ in range(n):
        ops = []
        for _ in range(6):
            r = rng.random()
            if r < 0.45:
                ops.append('enc ' + hx(bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127), 0, 37, 43, 32]) for _ in range(rng.choice([0, 1, 2, 5, 20, 60])))))
            else:
                t = ''
                for _ in range(rng.randint(0, 12)):
                    t += rng.choice(['%', '%' + rng.choice(HEXD) + rng.choice(HEXD), '%' + rng.choice(HEXD), '%' + rng.choice('gGxX+ -') + rng.choice(HEXD), '%' + rng.choice(HEXD) + rng.choice('gGxX+ -'),
                                     '+', 'a', ' ', '%%', '\x00', '\xff', '%00', '%ff', '%FF', '0x', '%0x41'])
                ops.append('dec ' + b(t))
        out.append(Scenario('codec', ops, 'random'))
    return out
