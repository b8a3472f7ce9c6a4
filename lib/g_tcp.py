"""Histories for TcpSocket / TcpListener on the simulated kernel."""
import itertools
from vlib import Scenario

ERR = [111, 110, 101, 113, 13, 98, 22, 12]
CONN_OUT = ['sockfail', 'nbfail', 'err', 'ok', 'okp', 'soerr', 'timeout', 'waiterr', 'gsofail', 'iokp', 'itimeout']
LST_OUT = ['sockfail', 'opt1', 'opt2', 'bindfail', 'lstfail', 'ok']


def fams(rng, n):
    return 'L=' + ':'.join(rng.choice('46') for _ in range(n))


def q(d):
    return ' '.join('%s=%s' % (k, ','.join(v)) for k, v in sorted(d.items()) if v)


def conn_dir(outs, rng, restore='ok'):
    d = dict(sock=[], nb=[], conn=[], wait=[], so=[], gso=[])
    e = lambda: 'E%d' % rng.choice(ERR)
    for o in outs:
        if o == 'sockfail':
            d['sock'].append('E24')
            continue
        d['sock'].append('ok')
        if o == 'nbfail':
            d['nb'].append('E22')
            continue
        d['nb'].append('ok')
        if o == 'err':
            d['conn'].append(e())
            continue
        if o == 'ok':
            d['conn'].append('ok')
            d['nb'].append(restore)
            break
        d['conn'].append('P')
        if o[0] == 'i':                          # signals during the wait
            d['wait'] += ['I%d' % rng.choice([0, 1, 50, 300, 700, 999]) for _ in range(rng.choice([1, 1, 2, 5]))]
        if o in ('timeout', 'itimeout'):
            d['wait'].append('T')
            continue
        if o == 'waiterr':
            d['wait'].append('E12')
            continue
        d['wait'].append('R')
        if o == 'soerr':
            d['so'].append(str(rng.choice(ERR)))
            d['gso'].append('ok')
            continue
        d['so'].append('0')
        if o == 'gsofail':
            d['gso'].append('E9')
            continue
        d['gso'].append('ok')
        d['nb'].append(restore)
        break
    return q(d)


def lst_dir(outs):
    d = dict(sock=[], opt=[], bind=[], lst=[])
    for o in outs:
        if o == 'sockfail':
            d['sock'].append('E24')
            continue
        d['sock'].append('ok')
        if o == 'opt1':
            d['opt'].append('E22')
            continue
        d['opt'].append('ok')
        if o == 'opt2':
            d['opt'].append('E22')
            continue
        d['opt'].append('ok')
        if o == 'bindfail':
            d['bind'].append('E98')
            continue
        d['bind'].append('ok')
        if o == 'lstfail':
            d['lst'].append('E98')
            continue
        d['lst'].append('ok')
        break
    return q(d)


def conn(o, outs, rng, secs=None, restore='ok', port=None):
    return 'conn %d %s %s %d %s %s' % (o, rng.choice(['host', 'example.org', '127.0.0.1', '::1']), port or rng.choice(['80', '8080', 'http', '0']),
                                       rng.choice([0, 1, 3, 20, 30, 3600]) if secs is None else secs, fams(rng, len(outs)), conn_dir(outs, rng, restore))


def rnd_conn(o, rng, good=0.5):
    r = rng.random()
    if r < 0.06:
        return 'conn %d nowhere 80 5 gai=E2' % o
    n = rng.choice([1, 1, 2, 2, 3, 4])
    outs = [rng.choice(CONN_OUT) for _ in range(n)]
    if rng.random() < good:
        outs[-1] = rng.choice(['ok', 'okp', 'iokp'])
    return conn(o, outs, rng, restore='E22' if rng.random() < 0.07 else 'ok')


def rnd_listen(l, rng, good=0.6):
    if rng.random() < 0.06:
        return 'listen %d 80 gai=E8' % l
    n = rng.choice([1, 2, 2, 3])
    outs = [rng.choice(LST_OUT) for _ in range(n)]
    if rng.random() < good:
        outs[-1] = 'ok'
    return 'listen %d %s %s %s' % (l, rng.choice(['80', '9090']), fams(rng, n), lst_dir(outs))


def acc(l, c, rng):
    r = rng.random()
    d = 'acc=E%d' % rng.choice([24, 103, 22, 4]) if r < 0.15 else 'acc=%s:%d' % (rng.choice('46'), rng.randint(1, 9))
    if rng.random() < 0.1:
        d += ' gni=E3'
    return 'acc %d %d %s' % (l, c, d)


MS = [0, 1, 5, 10, 999, 1000, 1001, 1500, 2000, 59999, 60000, 65535, 65536, 2147483, 2147483647, 2147483648, 4294967000, 4294967295]


def connect_enum(rng, depth=3):
    out = []
    for n in range(1, depth + 1):
        for outs in itertools.product(CONN_OUT, repeat=n):
            if any(o in ('ok', 'okp', 'iokp') for o in outs[:-1]):
                continue
            out.append(Scenario('conn-' + '-'.join(outs), ['new 1 sock', conn(1, outs, rng), 'send 1 3', 'disc 1'], 'enumerated',
                                base=rng.choice([64, 64, 3, 0, 1500])))
    for restore in ('E22',):
        for o in ('ok', 'okp'):
            out.append(Scenario('restore', ['new 1 sock', conn(1, ['err', o, 'ok'], rng, restore=restore), 'send 1 1'], 'enumerated'))
    for secs in (0, 1, 2, 7, 20, 21, 600, 86400, 2000000):
        for f in (0, 4, 6):
            out.append(Scenario('secs', ['new 1 sock', 'inet 1 %d' % f, conn(1, ['timeout', 'okp'], rng, secs=secs)], 'enumerated'))
            out.append(Scenario('secs', ['new 1 sock', 'inet 1 %d' % f, conn(1, ['itimeout', 'iokp'], rng, secs=secs)], 'enumerated'))
    for f in (0, 4, 6):
        out.append(Scenario('gai', ['new 1 sock', 'inet 1 %d' % f, 'conn 1 nohost 80 2 gai=E2', 'conn 1 nohost 80 2 gai=E11', 'send 1 2'], 'enumerated'))
    return out


def listen_enum(rng, depth=3):
    out = []
    for n in range(1, depth + 1):
        for outs in itertools.product(LST_OUT, repeat=n):
            if 'ok' in outs[:-1]:
                continue
            out.append(Scenario('lst-' + '-'.join(outs), ['new 1 sock', 'new 11 lst', 'listen 11 80 %s %s' % (fams(rng, n), lst_dir(outs)), 'ext 0',
                                                         acc(11, 1, rng), 'lclose 11', 'listen 11 81 ' + fams(rng, 1)], 'enumerated',
                                base=rng.choice([64, 64, 0, 3])))
    for f in (0, 4, 6):
        out.append(Scenario('linet', ['new 11 lst', 'inet 11 %d' % f, 'listen 11 80 L=4', 'inet 11 %d' % ((f + 4) % 10 if (f + 4) % 10 in (0, 4, 6) else 0),
                                      'listen 11 80 L=6', 'listen 11 80 gai=E2'], 'enumerated'))
    return out


def histories(rng, k, focus=None):
    """random histories over two sockets and two listeners, with foreign descriptors coming and going"""
    out = []
    for i in range(k):
        ops = ['new 1 sock', 'new 2 sock', 'new 11 lst']
        live = {1, 2}
        ls = {11}
        nl = 12
        ext = []      # [index, state] state: open/adopted/closed
        nx = 0
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            o = rng.choice(sorted(live)) if live else None
            l = rng.choice(sorted(ls)) if ls else None
            if r < 0.22 and o:
                ops.append(rnd_conn(o, rng))
            elif r < 0.32 and l:
                ops.append(rnd_listen(l, rng))
            elif r < 0.42 and l and o:
                ops.append(acc(l, o, rng))
            elif r < 0.50 and o:
                ops.append('disc %d%s' % (o, ' close=E4' if rng.random() < 0.2 else ''))
            elif r < 0.55:
                ops.append('ext %d' % (rng.random() < 0.3))
                ext.append(nx)
                nx += 1
            elif r < 0.58 and ext:
                e = ext.pop(rng.randrange(len(ext)))
                ops.append('extclose %d' % e)
            elif r < 0.63 and ext and o:
                e = ext.pop(rng.randrange(len(ext)))
                ops.append('adopt %d %d' % (o, e))
            elif r < 0.66 and ext and l:
                e = ext.pop(rng.randrange(len(ext)))
                ops.append('lset %d %d' % (l, e))
            elif r < 0.68 and o:
                ops.append('release %d' % o)
            elif r < 0.69 and l:
                ops.append('lrel %d' % l)
            elif r < 0.73 and l:
                ops.append('lclose %d' % l)
            elif r < 0.76 and l:
                ops.append('lmove %d %d' % (l, nl))
                ls.add(nl)
                if rng.random() < 0.5:
                    ops.append('del %d' % l)
                    ls.discard(l)
                nl += 1
            elif r < 0.83 and o:
                ops.append('blk %d %d%s' % (o, rng.random() < 0.4, rng.choice(['', '', '', ' nb=E22', ' nbg=E9'])))
            elif r < 0.88 and o:
                ops.append('%s %d %d' % (rng.choice(['rto', 'sto']), o, rng.choice(MS)))
            elif r < 0.91 and o:
                ops.append('send %d %d' % (o, rng.randint(1, 5)))
            elif r < 0.93 and (o or l):
                ops.append('shut %d' % rng.choice([x for x in (o, o, l) if x]))
            elif r < 0.95:
                x = rng.choice(sorted(live | ls)) if live | ls else None
                if x:
                    ops.append('inet %d %d' % (x, rng.choice([0, 4, 6])))
            elif r < 0.98 and (len(live) + len(ls)) > 1:
                x = rng.choice(sorted(live | ls))
                ops.append('del %d' % x)
                live.discard(x)
                ls.discard(x)
            elif o and any(('conn %d ' % o) in p for p in ops):
                ops.append('readopt %d' % o) if False else None
        ops = [p for p in ops if p]
        out.append(Scenario('hist%d' % i, ops, base=rng.choice([64, 64, 64, 3, 0, 1500])))
    # adopting the descriptor already held
    for b in (64, 0):
        out.append(Scenario('readopt', ['new 1 sock', 'conn 1 h 80 1 L=4', 'readopt 1', 'send 1 2', 'disc 1'], 'enumerated', base=b))
    return out


def modes(rng, k):
    """connection state and blocking mode over reconnects"""
    out = []
    for i in range(k):
        ops = ['new 1 sock', 'new 2 sock', 'new 11 lst', 'listen 11 80 L=4']
        for _ in range(rng.randint(3, 10)):
            o = rng.choice([1, 2])
            ops.append(rng.choice([
                'blk %d 0' % o, 'blk %d 1' % o, 'blk %d 0' % o, 'blk %d 0 nb=E22' % o, 'blk %d 1 nb=E22' % o, 'blk %d 0 nbg=E22' % o,
                rnd_conn(o, rng, 0.8), rnd_conn(o, rng, 0.8), acc(11, o, rng), acc(11, o, rng), 'disc %d' % o, 'send %d 2' % o,
                'release %d' % o, rnd_listen(11, rng)]))
        out.append(Scenario('mode%d' % i, ops, base=rng.choice([64, 64, 0])))
    for nb in (0, 1):
        for b in (0, 1):
            out.append(Scenario('adoptmode', ['new 1 sock', 'ext %d' % nb, 'adopt 1 0', 'blk 1 %d' % b, 'blk 1 %d' % (1 - b), 'disc 1', conn(1, ['ok'], rng)],
                                'enumerated'))
    return out


def timeouts(rng, k):
    out = []
    for ms in MS:
        out.append(Scenario('to', ['new 1 sock', 'rto 1 %d' % ms, 'sto 1 %d' % rng.choice(MS), conn(1, ['ok'], rng), 'sto 1 %d' % ms, 'rto 1 0',
                                   'rto 1 %d' % ms], 'enumerated'))
    for i in range(k):
        ops = ['new 1 sock', 'new 2 sock', 'new 11 lst', 'listen 11 80 L=4']
        for _ in range(rng.randint(3, 10)):
            o = rng.choice([1, 1, 1, 2])
            ops.append(rng.choice([
                'rto %d %d' % (o, rng.choice(MS + [rng.getrandbits(32)])), 'sto %d %d' % (o, rng.choice(MS + [rng.getrandbits(32)])),
                'rto %d %d' % (o, rng.choice(MS)), 'sto %d %d' % (o, rng.choice(MS)),
                rnd_conn(o, rng, 0.85), acc(11, o, rng), 'disc %d' % o, 'blk %d %d' % (o, rng.random() < 0.5)]))
        if rng.random() < 0.3:
            ops += ['ext 0', 'adopt 1 0', 'rto 1 %d' % rng.choice(MS)]
        out.append(Scenario('timeout%d' % i, ops))
    return out


def raw(rng, k, exhaustive=3):
    """every short sequence of outcomes of send and recv, and random longer ones"""
    out = []
    S = ['1', '2', '100', 'E4', 'E11', 'E32', 'E104']
    R = ['1', '3', '100', 'E4', 'E11', '0', 'E104', 'E9']
    for nb in (0, 1):
        pre = ['new 1 sock', 'conn 1 h 80 1 L=4'] + (['blk 1 0'] if nb else [])
        for n in range(1, exhaustive + 1):
            for c in itertools.product(S, repeat=n):
                size = rng.choice([1, 2, 3, 4, 5, 7])
                out.append(Scenario('snd', pre + ['sraw 1 %d %d snd=%s' % (size, rng.choice([0, 0, 0, 1, size]), ','.join(c)),
                                                  'sraw 1 %d %d' % (size, rng.randint(0, size))], 'enumerated'))
        for n in range(1, 3):
            for c in itertools.product(R, repeat=n):
                out.append(Scenario('rcv', pre + ['rraw 1 %d rcv=%s' % (rng.choice([1, 2, 3, 10]), ','.join(c)), 'rraw 1 2 rcv=2'], 'enumerated'))
    for i in range(k):
        nb = rng.random() < 0.5
        ops = ['new 1 sock', 'conn 1 h 80 1 L=4'] + (['blk 1 0'] if nb else [])
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.5:
                size = rng.choice([1, 5, 50, 300])
                snd = [rng.choice(['1', '2', '7', '60', 'E4', 'E4', 'E11', 'E32'] if rng.random() < 0.5 else ['1', '3', 'E4', '10']) for _ in range(rng.randint(0, 8))]
                ops.append('sraw 1 %d %d%s' % (size, rng.choice([0, 0, rng.randint(0, size)]), ' snd=' + ','.join(snd) if snd else ''))
            else:
                rcv = ['E4'] * rng.randint(0, 4) + [rng.choice(['1', '5', '300', 'E11', '0', 'E104', 'E9', 'E107'])]
                ops.append('rraw 1 %d rcv=%s' % (rng.choice([1, 4, 100]), ','.join(rcv)))
            if rng.random() < 0.15:
                ops.append('blk 1 %d' % (rng.random() < 0.5))
        if rng.random() < 0.1:
            ops += ['disc 1', 'sraw 1 3 0', 'rraw 1 3']
        out.append(Scenario('raw%d' % i, ops))
    return out


def shuts(rng, k):
    """shutdown at every point of the life of sockets and listeners, and from another thread while a call is blocked"""
    out = []
    for b in (64, 0, 3):
        out.append(Scenario('shut', ['new 1 sock', 'shut 1', 'conn 1 h 80 1 L=4', 'rraw 1 5 rcv=3', 'shut 1', 'rraw 1 5 rcv=3', 'sraw 1 4 0', 'shut 1', 'disc 1', 'shut 1',
                                     'conn 1 h 80 1 L=4', 'rraw 1 5 rcv=3', 'sraw 1 4 0'], 'enumerated', base=b))
        out.append(Scenario('lshut', ['new 11 lst', 'shut 11', 'listen 11 80 L=4', 'new 1 sock', 'acc 11 1 acc=4:5', 'shut 11', 'acc 11 1 acc=4:6', 'rraw 1 3 rcv=2', 'shut 11',
                                      'lclose 11', 'shut 11', 'listen 11 80 L=4', 'acc 11 1 acc=4:5'], 'enumerated', base=b))
        out.append(Scenario('intr', ['new 1 sock', 'conn 1 h 80 1 L=4', 'rraw 1 5 rcv=S', 'rraw 1 5', 'disc 1'], 'enumerated', base=b))
        out.append(Scenario('lintr', ['new 11 lst', 'listen 11 80 L=4', 'new 1 sock', 'acc 11 1 acc=S', 'acc 11 1', 'lclose 11'], 'enumerated', base=b))
        out.append(Scenario('foreign', ['new 1 sock', 'conn 1 h 80 1 L=4', 'disc 1', 'ext 0', 'shut 1', 'new 11 lst', 'listen 11 80 L=4', 'lclose 11', 'ext 0', 'shut 11'], 'enumerated', base=b))
    for i in range(k):
        ops = ['new 1 sock', 'new 2 sock', 'new 11 lst']
        ls = [11]
        ext = 0
        for _ in range(rng.randint(4, 14)):
            o = rng.choice([1, 1, 2])
            l = rng.choice(ls)
            r = rng.random()
            if r < .2:
                ops.append('shut %d' % rng.choice([o, o, l]))
            elif r < .38:
                ops.append(rnd_conn(o, rng, .85))
            elif r < .46:
                ops.append(rnd_listen(l, rng))
            elif r < .56:
                ops.append(acc(l, o, rng) if rng.random() < .6 else 'acc %d %d acc=S' % (l, o))
            elif r < .72:
                ops.append('rraw %d %d rcv=%s' % (o, rng.choice([1, 4, 100]), ','.join(['E4'] * rng.randint(0, 2) + [rng.choice(['S', 'S', '3', 'E11', '0', 'E104'])])))
            elif r < .78:
                ops.append('sraw %d %d 0%s' % (o, rng.choice([1, 5]), rng.choice(['', ' snd=2', ' snd=E4,1'])))
            elif r < .84:
                ops.append(rng.choice(['disc %d' % o, 'lclose %d' % l]))
            elif r < .88:
                ops.append('blk %d %d' % (o, rng.random() < .5))
            elif r < .92:
                ops += ['ext 0', rng.choice(['adopt %d %d' % (o, ext), 'lset %d %d' % (l, ext), 'shut %d' % o])]
                ext += 1
            elif r < .95:
                ops.append(rng.choice(['release %d' % o, 'lrel %d' % l]))
            elif r < .97:
                ops.append('lmove %d %d' % (l, max(ls) + 1))
                ls.append(max(ls) + 1)
            else:
                ops.append('%s %d %d' % (rng.choice(['rto', 'sto']), o, rng.choice(MS)))
        out.append(Scenario('shut%d' % i, ops, base=rng.choice([64, 64, 0, 3])))
    return out


def from_model(hists, rng, n):
    """behaviours enumerated by TLC from Gen_Tcp"""
    out = []
    hists = hists if len(hists) <= n else rng.sample(hists, n)
    for h in hists:
        ops = ['new 1 sock', 'new 2 sock', 'new 11 lst']
        for o in h:
            k = o[0]
            if k == 'conn':
                ops.append(conn(o[1], o[2], rng, restore=o[3], secs=1) if o[4] else 'conn %d h 80 1 gai=E2' % o[1])
            elif k == 'listen':
                ops.append('listen %d 80 %s %s' % (o[1], fams(rng, len(o[2])), lst_dir(o[2])) if o[4] else 'listen %d 80 gai=E2' % o[1])
            elif k == 'acc':
                ops.append('acc %d %d acc=%s' % (o[1], o[2], '4:5' if o[3] else 'E24'))
            elif k in ('disc', 'lclose'):
                ops.append('%s %d' % (k, o[1]))
            elif k == 'blk':
                ops.append('blk %d %d%s' % (o[1], o[2], '' if o[3] else ' nb=E22'))
            elif k in ('rto', 'sto'):
                ops.append('%s %d %d' % (k, o[1], o[2]))
            elif k == 'ext':
                ops.append('ext 0')
        out.append(Scenario('model', ops, 'tlc', base=rng.choice([64, 64, 0])))
    return out


def from_raw_model(hists, rng, n):
    out = []
    hists = hists if len(hists) <= n else rng.sample(hists, n)
    for nb, h in hists:
        ops = ['new 1 sock', 'conn 1 h 80 1 L=4'] + (['blk 1 0'] if nb else [])
        cur = None
        for o in h:
            if o[0] == 'sraw':
                ops.append('sraw 1 4 %d' % o[1])
                cur = []
            else:
                cur.append('E%d' % -o[1] if o[1] < 0 else str(o[1]))
                base = ops[-1].split(' snd=')[0]
                ops[-1] = base + ' snd=' + ','.join(cur)
        out.append(Scenario('rawmodel', ops, 'tlc'))
    return out


def from_shut_model(hists):
    """behaviours of the two threads of MC_Shut"""
    out = []
    for h in hists:
        for kind in ('sock', 'lst'):
            for base in (64, 0):
                ops = ['new 1 sock', 'conn 1 h 80 1 L=4'] if kind == 'sock' else ['new 1 lst', 'listen 1 80 L=4', 'new 2 sock']
                for i, (o,) in enumerate(h):
                    nxt = h[i + 1][0] if i + 1 < len(h) else ''
                    if o in ('rraw', 'acc'):
                        q = {'arrives': ('3', '4:5'), 'intr': ('S', 'S')}.get(nxt)
                        ops.append(('rraw 1 4' + (' rcv=' + q[0] if q else '')) if kind == 'sock' else 'acc 1 2' + (' acc=' + q[1] if q else ''))
                    elif o == 'shut':
                        ops.append('shut 1')
                ops += ['disc 1' if kind == 'sock' else 'lclose 1', 'ext 0', 'shut 1']
                out.append(Scenario('shutmodel', ops, 'tlc', base=base))
    return out
