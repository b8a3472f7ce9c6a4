"""Histories of listeners and the ports they serve."""
import re
from vlib import Scenario

CANDS = ['4', '6', '4:6', '6:4', '4:6', '6:4', '4:4', '6:4:6']
FAULTS = ['sock=E24', 'sock=ok,E24', 'opt=E22', 'bind=E13', 'bind=E13,E13', 'lst=E95', 'gai=E2']


def probe(rng, ports, nid):
    """a client of either family on each port"""
    out = []
    for p in ports:
        for f in (4, 6):
            nid[0] += 1
            out.append('peer %d %d %d %d' % (nid[0], p, f, rng.randint(0, 1)))
    return out


def fixed(rng):
    out = []
    for kind in ('lst', 'ssl'):
        for cands in ('4', '6', '4:6', '6:4'):
            for ver in (0, 4, 6):
                for v6only in (0, 1):
                    f = 6 if cands[0] == '6' and ver != 4 else 4
                    n = [0]
                    head = ['new 1 %s' % kind] + (['inet 1 %d' % ver] if ver else [])
                    L = 'listen 1 80 L=%s' % cands
                    tag = dict(v6only=v6only)
                    out.append(Scenario('reach', head + [L] + probe(rng, (80, 81), n) + ['close 1'] + probe(rng, (80,), n) + [L] + probe(rng, (80,), n)
                                        + ['listen 1 81 L=%s' % cands] + probe(rng, (80, 81), n) + ['del 1'] + probe(rng, (80, 81), n), 'enumerated', **tag))
                    out.append(Scenario('again', head + ['linger 80 4', 'linger 80 6', L] + probe(rng, (80,), n), 'enumerated', **tag))
                    if kind == 'lst':
                        live = ['peer 1 80 %d 0' % f, 'peer 2 80 %d 0' % f, 'new 11 sock', 'acc 1 11', 'use 11']
                        for end in ([], ['disc 11']):
                            for stop in (['close 1'], ['del 1', 'new 1 lst'] + head[1:], ['move 1 2', 'del 2'], [], ['listen 1 81 L=%s' % cands]):
                                out.append(Scenario('relisten', head + [L] + live + end + stop + ['use 11', L] + probe(rng, (80,), n)
                                                    + ['acc 1 11', 'use 11', 'acc 1 11', 'acc 1 11'], 'enumerated', **tag))
                    out.append(Scenario('taken', head + ['other 80 4 1', 'other 80 6 1', L] + probe(rng, (80,), n) + ['other 80 4 0', L] + probe(rng, (80,), n)
                                        + ['other 80 6 0', L] + probe(rng, (80,), n), 'enumerated', **tag))
    for cands in ('4', '6'):
        many = ['peer %d 80 %s 0' % (i + 1, cands) for i in range(70)]
        out.append(Scenario('queue', ['new 1 lst', 'listen 1 80 L=' + cands] + many + ['new 11 sock'] + ['acc 1 11', 'use 11'] * 64, 'enumerated', v6only=1))
        out.append(Scenario('queue', ['new 1 ssl', 'listen 1 80 L=' + cands] + many, 'enumerated', v6only=1))
    for f in FAULTS:
        for cands in ('4', '4:6', '6:4'):
            for kind in ('lst', 'ssl'):
                n = [0]
                out.append(Scenario('fault', ['new 1 %s' % kind, 'listen 1 80 L=%s %s' % (cands, f)] + probe(rng, (80,), n) + ['listen 1 80 L=%s' % cands]
                                    + probe(rng, (80,), n) + ['listen 1 81 L=%s %s' % (cands, f)] + probe(rng, (80, 81), n), 'enumerated', v6only=1))
    return out


def histories(rng, k):
    out = []
    for i in range(k):
        kinds = {1: 'lst', 2: rng.choice(['lst', 'ssl'])}
        ops = ['new %d %s' % (o, x) for o, x in kinds.items()] + ['new 11 sock', 'new 12 sock']
        nid = 0
        ports = rng.choice([(80, 81), (80,), (443, 65535)])
        for _ in range(rng.randint(6, 30)):
            r = rng.random()
            o = rng.choice(list(kinds))
            p = rng.choice(ports)
            f = rng.choice([4, 6])
            c = rng.choice([11, 12])
            if r < .22:
                ops.append('listen %d %d L=%s%s' % (o, p, rng.choice(CANDS), ' ' + rng.choice(FAULTS) if rng.random() < .15 else ''))
            elif r < .47:
                nid += 1
                ops.append('peer %d %d %d %d' % (nid, p, f, rng.randint(0, 1)))
            elif r < .62:
                ls = [x for x in kinds if kinds[x] == 'lst']
                ops.append('acc %d %d%s' % (rng.choice(ls), c, ' acc=E24' if rng.random() < .1 else ''))
            elif r < .70:
                ops.append('use %d' % c)
            elif r < .77:
                ops.append('disc %d' % c)
            elif r < .83:
                ops.append('close %d' % o)
            elif r < .86:
                ops += ['del %d' % o, 'new %d %s' % (o, kinds[o])]
            elif r < .89 and kinds[o] == 'lst':
                n = max(kinds) + 1
                kinds[n] = 'lst'
                ops.append('move %d %d' % (o, n))
            elif r < .92:
                ops.append('inet %d %d' % (o, rng.choice([0, 4, 6])))
            elif r < .95:
                ops.append('other %d %d %d' % (p, f, rng.random() < .6))
            elif r < .98:
                ops.append('linger %d %d' % (p, f))
            else:
                ops.append('adopt %d %d %d' % (o, p, f))
        out.append(Scenario('ports%d' % i, ops, v6only=rng.randint(0, 1)))
    return out


def from_model(hists, rng, n):
    """behaviours enumerated by TLC from MC_Ports"""
    hists = hists if len(hists) <= n else rng.sample(hists, n)
    out = []
    for h in hists:
        ops = ['new 1 lst', 'new 2 %s' % rng.choice(['lst', 'ssl'] if not any(o[0] == 'acc' and o[1] == 2 for o in h) else ['lst']), 'new 11 sock', 'new 12 sock']
        for o in h:
            if o[0] == 'listen':
                ops.append('listen %d %d L=%s' % (o[1], 80 + o[2], ':'.join(map(str, o[3]))))
            elif o[0] == 'peer':
                ops.append('peer %d %d %d %d' % (o[1], 80 + o[2], o[3], rng.randint(0, 1)))
            elif o[0] in ('linger', 'other'):
                ops.append('%s %d %d%s' % (o[0], 80 + o[1], o[2], '' if o[0] == 'linger' else ' %d' % o[3]))
            else:
                ops.append(' '.join(map(str, o)))
        n2 = [50]
        out.append(Scenario('model', ops + probe(rng, (80, 81), n2) + ['use 11', 'use 12'], 'tlc', v6only=rng.randint(0, 1)))
    return out


def real(scens):
    """those which need no failing system call, for the machine's own kernel. Linux forgets an IPv6 listener without
    SO_REUSEPORT once an IPv4 one with it shares the port, so two listeners never meet one of those here."""
    def two(s):
        return sum(o.startswith(('new', 'move', 'adopt')) and not o.endswith('sock') for o in s.ops) > 1
    return [Scenario(s.name, [re.sub(r' L=\S+', '', o) for o in s.ops], s.src, v6only=0, real=1) for s in scens
            if not any(re.search(r' (?!L=)[a-z]+=', o) for o in s.ops) and not (two(s) and any(re.match(r'other \d+ 6 1', o) for o in s.ops))]
