"""Scenarios for the tls driver (C27, C28)."""
from vlib import Scenario

SIZES = [1, 1, 2, 3, 5, 16, 17, 100, 255, 256, 1000, 4095, 4096, 5000]
BIG = [16383, 16384, 16385, 20000, 32768, 40000]


def n(rng, big=.12):
    return rng.choice(BIG) if rng.random() < big else rng.choice(SIZES + [rng.randint(1, 300)] * 3)


def rxs(rng, again=.25, err=.04, hs=False):
    """outcomes of the next reads"""
    out = []
    for _ in range(rng.randint(0, 7)):
        r = rng.random()
        if r < .4:
            out.append(str(rng.choice([1, 2, 3, 4, 5, 6, 7, 20, 100, 2000])))
        elif r < .6:
            out.append('E4')
        elif r < .6 + again:
            out.append('E11')
        elif r < .6 + again + err:
            out.append(rng.choice(['E104', 'Z', 'X', 'E110', 'E5']))
        else:
            out.append('100000')
    return ' rcv=' + ','.join(out) if out else ''


def txs(rng, again=.25, err=.03):
    out = []
    for _ in range(rng.randint(0, 7)):
        r = rng.random()
        if r < .4:
            out.append(str(rng.choice([1, 2, 3, 5, 6, 28, 29, 30, 100, 3000, 16000])))
        elif r < .6:
            out.append('E4')
        elif r < .6 + again:
            out.append('E11')
        elif r < .6 + again + err:
            out.append(rng.choice(['E32', 'E104', 'E110']))
        else:
            out.append('1000000')
    return ' snd=' + ','.join(out) if out else ''


def setup(rng, ops, role, o=1):
    """one established connection as object o"""
    if role == 'client':
        ops += ['new %d sock' % o]
        if rng.random() < .3:
            ops.append('rto %d %d' % (o, rng.choice([0, 1, 999, 1500])))
        ops += ['conn %d host.test%s' % (o, ' rcv=%s' % ','.join(rng.choice(['1', '3', '5', '50', 'E4', '100000']) for _ in range(rng.randint(0, 12))) if rng.random() < .3 else '')]
    else:
        ops += ['new %d lst good' % (o + 50), 'listen %d' % (o + 50), 'new %d sock' % o]
        if rng.random() < .3:
            ops.append('sto %d %d' % (o, rng.choice([0, 1, 999, 1500])))
        ops += ['acc %d %d' % (o + 50, o)]


def traffic(rng, count):
    out = []
    for k in range(count):
        ops = []
        role = rng.choice(['client', 'client', 'server'])
        setup(rng, ops, role)
        nb = False
        to = False
        pend = False     # a message has not gone out yet
        again = rng.choice([.1, .3, .5])
        err = rng.choice([0, 0, 0, .03])
        ended = False
        for _ in range(rng.randint(3, 14)):
            r = rng.random()
            if r < .12:
                nb = not nb if rng.random() < .8 else nb
                ops.append('blk 1 %d%s' % (0 if nb else 1, ' nb=E9' if rng.random() < .05 else ''))
            elif r < .2:
                v = rng.choice([0, 1, 250, 999, 1000, 1001, 60000, 4000000])
                ops.append('%s 1 %d' % (rng.choice(['rto', 'sto']), v))
            elif r < .5:
                if pend:
                    ops.append('resend 1' + txs(rng, again, err))
                else:
                    ops.append('send 1 %d' % n(rng) + txs(rng, again, err))
                    pend = True
                # the message has to be completed before the next one
                for _ in range(rng.randint(0, 2)):
                    ops.append('resend 1' + txs(rng, again, 0))
                ops.append('resend 1')
                pend = False
            elif r < .7 and not ended:
                for _ in range(rng.randint(1, 3)):
                    ops.append('psend 1 %d' % n(rng))
            elif r < .74 and not ended and rng.random() < .5:
                ops.append('pend 1 %s' % rng.choice(['eof', 'fin', 'both', 'both']))
                ended = True
            else:
                for _ in range(rng.randint(1, 4)):
                    ops.append('recv 1 %d' % rng.choice([1, 2, 5, 100, 4096, 20000]) + rxs(rng, again, err))
        out.append(Scenario('traffic-%d' % k, ops, 'traffic'))
    return out


def cuts(rng, count):
    """every byte of a small exchange on its own, and every place where it can block"""
    out = []
    for k in range(count):
        for role in ('client', 'server'):
            ops = []
            setup(rng, ops, role)
            ops.append('blk 1 0')
            size = rng.choice([1, 5, 40])
            at = rng.randint(0, 60)
            ops.append('send 1 %d snd=%s' % (size, ','.join(['1'] * at + ['E11'])))
            for _ in range(rng.randint(0, 5)):
                ops.append('resend 1 snd=%s' % ','.join(rng.choice([['E11'], ['1', 'E11'], ['E4', '7', 'E11']])))
            ops += ['resend 1', 'send 1 7', 'resend 1']
            ops.append('psend 1 %d' % size)
            at = rng.randint(0, 60)
            ops.append('recv 1 100 rcv=%s' % ','.join(['1'] * at + ['E11']))
            for _ in range(rng.randint(0, 5)):
                ops.append('recv 1 100 rcv=%s' % ','.join(rng.choice([['E11'], ['1', 'E11'], ['E4', '3', 'E11']])))
            ops += ['recv 1 100', 'recv 1 100', 'psend 1 9', 'recv 1 4', 'recv 1 100']
            out.append(Scenario('cut-%d-%s' % (k, role), ops, 'cuts'))
    return out


def timeouts(rng, count):
    out = []
    for k in range(count):
        ops = []
        role = rng.choice(['client', 'server'])
        setup(rng, ops, role)
        ops += ['rto 1 %d' % rng.choice([1, 500, 70000]), 'recv 1 10', 'psend 1 30', 'recv 1 10', 'recv 1 10 rcv=E4,E4,2,E11', 'recv 1 10', 'recv 1 10', 'recv 1 10']
        ops += ['sto 1 %d' % rng.choice([1, 500, 70000]), 'send 1 %d snd=E4,5,E11' % rng.choice([3, 500, 20000, 40000]), 'resend 1 snd=E11', 'resend 1', 'send 1 5', 'resend 1']
        if rng.random() < .5:
            ops += ['disc 1', 'recv 1 5', 'send 1 5', 'blk 1 0', 'peer good', 'conn 1 host.test', 'psend 1 6', 'recv 1 10']
        out.append(Scenario('timeouts-%d' % k, ops, 'timeouts'))
    return out


def dead(rng):
    """calls on a socket that is not connected"""
    out = []
    for pre in (['new 1 sock'], ['new 1 sock', 'conn 1 host.test', 'disc 1'], ['new 1 sock', 'peer wrong', 'conn 1 host.test'], ['new 1 sock', 'conn 1 host.test conn=E111'],
                ['new 1 sock', 'conn 1 host.test', 'blk 1 0', 'disc 1'], ['new 1 sock', 'conn 1 host.test', 'rel 1'], ['new 1 sock', 'rel 1'],
                ['new 9 lst good', 'listen 9', 'new 1 sock', 'acc 9 1', 'psend 1 5', 'rel 1'], ['new 1 sock', 'conn 1 host.test gai=E2']):
        for post in (['send 1 5'], ['recv 1 5'], ['blk 1 0'], ['blk 1 1'], ['rto 1 5'], ['sto 1 5'], ['disc 1', 'disc 1'], ['ver 1 0']):
            out.append(Scenario('dead', pre + post + ['peer good', 'conn 1 host.test', 'send 1 5', 'psend 1 5', 'recv 1 5'], 'dead'))
    return out


def reuse(rng, count):
    """a socket used again, in either role, after whatever it was used for before; connections that outlive their listener"""
    out = []
    for k in range(count):
        ops = ['new 1 sock', 'new 9 lst %s' % rng.choice(['good', 'chain']), 'listen 9']
        alive = True
        for _ in range(rng.randint(2, 4)):
            if rng.random() < .15:
                ops.append('peer ' + rng.choice(['wrong', 'plain', 'alert']))
                ops.append(rng.choice(['conn 1 host.test', 'acc 9 1'] if alive else ['conn 1 host.test']))
                ops.append('peer good')
            ops.append('acc 9 1' if alive and rng.random() < .5 else 'conn 1 host.test')
            if rng.random() < .15:
                ops.append('newctx')
            if alive and rng.random() < .2:
                ops.append('del 9')
                alive = False
            for _ in range(rng.randint(1, 4)):
                q = rng.random()
                if q < .35:
                    ops += ['psend 1 %d' % n(rng), 'recv 1 %d' % rng.choice([1, 100, 20000])]
                elif q < .7:
                    ops += ['send 1 %d%s' % (n(rng), txs(rng, .4, 0)), 'resend 1' + txs(rng, .4, 0), 'resend 1']
                else:
                    ops.append(rng.choice(['blk 1 0', 'blk 1 0', 'blk 1 1', 'rto 1 5', 'sto 1 9', 'recv 1 10 rcv=E11']))
            ops += ['resend 1'] * 2
            if rng.random() < .4:
                ops.append(rng.choice(['disc 1', 'disc 1', 'rel 1', 'rel 1']))
        out.append(Scenario('reuse-%d' % k, ops, 'reuse'))
    return out


# ---------------------------------------------------------------- C28
CERTS = ['good', 'cnonly', 'chain', 'multi', 'wild', 'wrong', 'sanother', 'expired', 'future', 'foreign', 'self', 'broken', 'byleaf']
BADPEER = ['plain', 'mute', 'alert', 'weak']
HOSTS = ['host.test', 'HOST.TEST', 'a.host.test', 'other.test', 'one.test', 'x.a.host.test', 'host.tes', 'ost.test', '10.0.0.7']
CAS = ['ca', 'none', 'ca2', 'both', 'mem', 'mem2']


def matrix(rng, count=None):
    """every certificate, host name, set of authorities and verification setting"""
    out = []
    for ca in CAS:
        for cert in CERTS:
            for host in HOSTS:
                for ver in ('', '1', '0'):
                    ops = ['new 1 sock', 'peer ' + cert]
                    if ver:
                        ops.append('ver 1 ' + ver)
                    ops += ['conn 1 ' + host, 'psend 1 5', 'recv 1 5']
                    out.append(Scenario('matrix-%s-%s-%s-%s' % (ca, cert, host, ver), ops, 'matrix', ca=ca))
    if count and len(out) > count:
        # the interesting pairs always, a sample of the rest
        core = [s for s in out if s.params['ca'] == 'ca' and ('-host.test-' in s.name or '-a.host.test-' in s.name)]
        rest = [s for s in out if s not in core]
        out = core + rng.sample(rest, max(0, count - len(core)))
    return out


LOADS = ['file ca', 'mem ca', 'file ca2', 'mem ca2', 'file both', 'mem both', 'file missing', 'mem garbage', 'mem half', 'mem missing', 'file key']


def loads(rng, count):
    """authorities loaded one after the other, at any time"""
    out = []
    for k in range(count):
        ops = ['new 1 sock', 'new 2 sock']
        for _ in range(rng.randint(2, 6)):
            for _ in range(rng.randint(0, 2)):
                ops.append('load ' + rng.choice(LOADS))
            ops.append('peer ' + rng.choice(['good', 'good', 'foreign', 'foreign', 'chain', 'expired', 'wrong', 'self']))
            o = rng.randint(1, 2)
            ops += ['conn %d host.test' % o, 'psend %d 5' % o, 'recv %d 5' % o]
            if rng.random() < .3:
                ops.append('load ' + rng.choice(LOADS))
        out.append(Scenario('loads-%d' % k, ops, 'loads', ca=rng.choice(['none', 'none', 'ca', 'ca2'])))
    for cert, key in (('missing', 'key'), ('key', 'key'), ('good', 'missing'), ('good', 'ca'), ('missing', 'missing')):
        out.append(Scenario('ctor-%s-%s' % (cert, key), ['new 9 lst %s %s' % (cert, key), 'new 8 lst good', 'listen 8', 'new 1 sock', 'acc 8 1', 'psend 1 5', 'recv 1 5'], 'loads'))
    return out


def fault(rng, i):
    """something goes wrong at the i-th read or write"""
    if rng.random() < .65:
        return ' rcv=%s,%s' % (','.join(['100000'] * i), rng.choice(['E104', 'Z', 'X', 'X', 'E110'])) if i else ' rcv=' + rng.choice(['E104', 'Z', 'X'])
    i = i % 5
    return ' snd=%s,%s' % (','.join(['100000'] * i), rng.choice(['E32', 'E104'])) if i else ' snd=E32'


TCPF = [' gai=E2', ' sock=E24', ' conn=E111', ' conn=P so=111', ' conn=P wait=T', ' L=4:6 conn=E111,ok', ' nb=E9', ' gso=E9 conn=P', ' L=6:4 conn=E101,P', ' conn=P', ' wait=E9 conn=P']


def lifecycles(rng, count):
    out = []
    for k in range(count):
        ops = []
        nobj = rng.randint(1, 3)
        nl = rng.randint(0, 2)
        for i in range(1, nobj + 1):
            ops.append('new %d sock' % i)
        ls = []
        for i in range(nl):
            ops.append('new %d lst %s' % (50 + i, rng.choice(['good', 'good', 'chain', 'self', 'missing'])))
            if not ops[-1].endswith('missing'):
                ops.append('listen %d' % (50 + i))
                ls.append(50 + i)
        live = set()
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            o = rng.randint(1, nobj)
            if r < .45:
                kind = rng.choice(['good'] * 4 + CERTS + BADPEER)
                ops.append('peer ' + kind)
                if rng.random() < .2:
                    ops.append('ver %d %d' % (o, rng.randint(0, 1)))
                q = rng.random()
                f = fault(rng, rng.randint(0, 16)) if q < .3 else rng.choice(TCPF) if q < .4 else rxs(rng, 0, 0) if q < .5 else ''
                ops.append('conn %d %s%s' % (o, rng.choice(['host.test'] * 5 + HOSTS), f))
            elif r < .7 and ls:
                ops.append('peer ' + rng.choice(['good'] * 3 + BADPEER))
                q = rng.random()
                f = fault(rng, rng.randint(0, 12)) if q < .35 else ' acc=' + rng.choice(['E103', 'E24', '6:9', '4:3']) if q < .5 else ' gni=E1' if q < .55 else rxs(rng, 0, 0) if q < .65 else ''
                ops.append('acc %d %d%s' % (rng.choice(ls), o, f))
            elif r < .78:
                ops.append('%s %d' % (rng.choice(['disc', 'disc', 'disc', 'rel']), o))
            elif r < .84 and ls:
                l = rng.choice(ls)
                ops.append(rng.choice(['lclose %d' % l, 'listen %d' % l, 'listen %d bind=E98' % l, 'listen %d' % l]))
            elif r < .87:
                if rng.random() < .4:
                    ops.append('newctx')
                ops += ['del %d' % o, 'new %d sock' % o]
            elif r < .9 and ls:
                ops.append('del %d' % ls.pop(rng.randrange(len(ls))))     # accepted connections outlive their listener
            else:
                ops += ['psend %d 20' % o, 'recv %d 20' % o, 'send %d 30' % o, 'resend %d' % o]
        out.append(Scenario('life-%d' % k, ops, 'lifecycle', order=rng.choice(['fwd', 'rev'])))
    return out


def everyfault(rng):
    """a fault at every read and write of a handshake, in both roles, then the objects are used again"""
    out = []
    for role in ('client', 'server'):
        for q, items in (('rcv', ['E104', 'Z', 'X', 'E4', 'E4,1']), ('snd', ['E32', 'E104', 'E4', '1'])):
            for i in range(18 if q == 'rcv' else 6):
                for it in items:
                    d = ' %s=%s' % (q, ','.join(['100000'] * i + [it]))
                    again = ['psend 1 5', 'recv 1 5', 'send 1 5', 'resend 1']
                    if role == 'client':
                        ops = ['new 1 sock', 'conn 1 host.test' + d, 'conn 1 host.test'] + again
                    else:
                        ops = ['new 9 lst good', 'listen 9', 'new 1 sock', 'acc 9 1' + d, 'acc 9 1'] + again
                    out.append(Scenario('fault-%s-%s-%d-%s' % (role, q, i, it), ops, 'everyfault'))
        for bad in BADPEER:
            ops = (['new 1 sock', 'peer ' + bad, 'conn 1 host.test', 'peer good', 'conn 1 host.test'] if role == 'client' else
                   ['new 9 lst good', 'listen 9', 'new 1 sock', 'peer ' + bad, 'acc 9 1', 'peer good', 'acc 9 1'])
            out.append(Scenario('bad-%s-%s' % (role, bad), ops + ['psend 1 5', 'recv 1 5'], 'everyfault'))
            if role == 'client':
                out.append(Scenario('badnv-%s' % bad, ['new 1 sock', 'ver 1 0', 'peer ' + bad, 'conn 1 host.test', 'peer good', 'conn 1 host.test', 'psend 1 5', 'recv 1 5'], 'everyfault'))
    return out


def candidates(rng, count):
    """IP versions, names and candidate lists (C10)"""
    out = []
    good = ['ok', 'P']
    bad = ['E111', 'P so=111', 'E101', 'E113']
    for k in range(count):
        ops = ['new 1 sock', 'new 9 lst good']
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .6:
                ops.append('inet %d %d' % (rng.choice([1, 9]), rng.choice([0, 4, 6])))
            if rng.random() < .6:
                m = rng.randint(1, 4)
                at = rng.randint(1, m + 1)
                c = [rng.choice(['E111', 'E101', 'E113']) for _ in range(at - 1)] + ([rng.choice(good)] if at <= m else [])
                ops.append('conn 1 %s L=%s conn=%s' % (rng.choice(['host.test', 'a.host.test']), ':'.join(rng.choice('46') for _ in range(m)), ','.join(c)) if rng.random() < .85
                           else 'conn 1 host.test gai=%s' % rng.choice(['E2', 'E11']))
            else:
                m = rng.randint(1, 3)
                at = rng.randint(1, m + 1)
                c = ['E98'] * (at - 1) + (['ok'] if at <= m else [])
                if rng.random() < .25:
                    ops.append('listen 9 ' + rng.choice(['gai=E2', 'gai=E11', 'lst=E98', 'sock=E24 L=4', 'sock=E24,E24 L=6:4', 'L=4 bind=E13']))
                    continue
                ops.append('listen 9 L=%s bind=%s' % (':'.join(rng.choice('46') for _ in range(m)), ','.join(c)))
                if at <= m and rng.random() < .5:
                    ops.append('acc 9 1')
        out.append(Scenario('cand-%d' % k, ops, 'candidates'))
    return out


# ---------------------------------------------------------------- behaviours generated from MC_Tls
def real_size(k, rng):
    return rng.choice([1, 5, 100, 4000]) if k == 1 else rng.choice([16384, 16383]) if k == 2 else rng.choice([16385, 20000, 32768])


def outcomes(o, rng, hs):
    """the model's outcomes of one call's reads and writes, as directives"""
    rx, tx = [], []
    for kind, res in o:
        if kind == 'rx':
            v = {'done': '100000', 'data': rng.choice(['100000', '100000', '1', '5', '100']), 'again': 'E11', 'intr': 'E4', 'other': rng.choice(['E104', 'E110', 'E5']),
                 'eof': 'Z', 'tampered': 'X'}[res]
            if hs and res == 'done' and rng.random() < .7:
                rx += ['100000'] * rng.randint(0, 5)        # a flight is several reads
            rx.append(v)
        elif kind == 'tx':
            tx.append({'done': '1000000', 'all': '1000000', 'part': rng.choice(['1', '5', '20', '28']), 'again': 'E11', 'intr': 'E4', 'other': rng.choice(['E32', 'E104'])}[res])
    return (' rcv=' + ','.join(rx) if rx else '') + (' snd=' + ','.join(tx) if tx else '')


def from_model(hists, rng, n):
    out = []
    seen = set()
    hists = [h for h in hists if not (str(h) in seen or seen.add(str(h)))]
    hists = hists if len(hists) <= n else rng.sample(hists, n)
    for h in hists:
        ops = ['new 1 sock', 'new 2 sock', 'new 51 lst good', 'listen 51']
        tot = 0
        for o in h:
            k = o[0]
            out_ = [x for x in o if isinstance(x, list)]
            if k == 'conn':
                tcp = [x for x in out_ if x[0] == 'tcp']
                ops.append('conn %d host.test%s%s' % (o[1], '' if not tcp or tcp[0][1] else ' conn=E111', outcomes([x for x in out_ if x[0] in ('rx', 'tx')], rng, True)))
            elif k == 'acc':
                tcp = [x for x in out_ if x[0] == 'tcp']
                ops.append('acc %d %d%s%s' % (o[1], o[2], '' if not tcp or tcp[0][1] else ' acc=E24', outcomes([x for x in out_ if x[0] in ('rx', 'tx')], rng, True)))
            elif k == 'blk':
                ops.append('blk %d %d%s' % (o[1], o[2], ''.join('' if x[1] else ' nb=E9' for x in out_)))
            elif k == 'send':
                tot = o[2]
                ops.append('send %d %d%s' % (o[1], real_size(tot, rng), outcomes(out_, rng, False)))
            elif k == 'resend':
                ops.append('resend %d%s' % (o[1], outcomes(out_, rng, False)))
            elif k == 'recv':
                ops.append('recv %d %d%s' % (o[1], rng.choice([1, 3, 100]) if o[2] == 1 else 20000, outcomes(out_, rng, False)))
            elif k == 'psend':
                ops.append('psend %d %d' % (o[1], real_size(o[2], rng)))
            elif k == 'pend':
                ops.append('pend %d %s' % (o[1], o[2]))
            elif k in ('disc', 'rel', 'rto'):
                ops.append(k + ' ' + ' '.join(str(x) for x in o[1:]))
            elif k == 'peer':
                ops.append('peer ' + o[1])
        out.append(Scenario('model', ops, 'tlc'))
    return out


def shuts(rng, k):
    """shutdown at every point, and from another thread while a receive or an accept is blocked"""
    out = []
    for role in ('client', 'server'):
        for tail in (['shut 1', 'recv 1 10'], ['recv 1 10 rcv=S', 'recv 1 10'], ['recv 1 10 rcv=3,S'], ['psend 1 5', 'recv 1 10', 'shut 1', 'send 1 5'], ['disc 1', 'shut 1'], ['shut 1', 'disc 1', 'shut 1'],
                     ['shut 1', 'del 1']):
            ops = []
            setup(rng, ops, role)
            out.append(Scenario('shut', ops + tail, 'enumerated', ca='ca'))
    for tail in (['shut 51', 'acc 51 1'], ['acc 51 1 acc=S', 'acc 51 1'], ['acc 51 1', 'shut 51', 'psend 1 4', 'recv 1 9'], ['lclose 51', 'shut 51']):
        out.append(Scenario('lshut', ['new 51 lst good', 'listen 51', 'new 1 sock'] + tail + ['lclose 51'], 'enumerated', ca='ca'))
    out.append(Scenario('fresh', ['new 51 lst good', 'new 1 sock', 'shut 1', 'shut 51', 'conn 1 host.test', 'psend 1 3', 'recv 1 9', 'listen 51', 'new 2 sock', 'acc 51 2'], 'enumerated', ca='ca'))
    for i in range(k):
        ops = []
        setup(rng, ops, rng.choice(['client', 'server']))
        if rng.random() < .5:
            ops += ['new 60 lst good', 'listen 60', 'new 2 sock']
        two = ops[-1] == 'new 2 sock'
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < .3:
                ops.append('shut %d' % rng.choice([1, 1, 2, 60] if two else [1]))
            elif r < .45:
                ops += ['psend 1 %d' % n(rng, .05), 'recv 1 %d%s' % (rng.choice([1, 10, 5000]), rxs(rng))]
            elif r < .6:
                ops.append('recv 1 %d rcv=%s' % (rng.choice([1, 10]), ','.join([rng.choice(['3', 'E4', '100000'])] * rng.randint(0, 2) + ['S'])))
            elif r < .7:
                ops.append('send 1 %d%s' % (n(rng, .05), txs(rng)))
            elif r < .8 and two:
                ops.append('acc 60 2%s' % rng.choice(['', ' acc=S', ' acc=E24']))
            elif r < .88:
                ops.append('blk 1 %d' % (rng.random() < .6))
            elif r < .95:
                ops += ['disc 1', 'conn 1 host.test']
            else:
                ops.append(rng.choice(['rto 1 1000', 'sto 1 1000', 'disc 1']))
        out.append(Scenario('shut%d' % i, ops, ca='ca'))
    return out


def from_shut_model(hists, rng):
    """behaviours of the two threads of MC_Shut"""
    out = []
    for h in hists:
        for role in ('client', 'server'):
            ops = []
            setup(rng, ops, role)
            for i, (o,) in enumerate(h):
                nxt = h[i + 1][0] if i + 1 < len(h) else ''
                if o == 'shut':
                    ops.append('shut 1')
                elif o == 'rraw':
                    ops += ['psend 1 3', 'recv 1 3'] if nxt == 'arrives' else ['recv 1 3' + (' rcv=S' if nxt == 'intr' else '')]
            out.append(Scenario('shutmodel', ops + ['disc 1', 'shut 1'], 'tlc', ca='ca'))
        ops = ['new 51 lst good', 'listen 51', 'new 1 sock']
        for i, (o,) in enumerate(h):
            nxt = h[i + 1][0] if i + 1 < len(h) else ''
            if o == 'shut':
                ops.append('shut 51')
            elif o == 'rraw':
                ops.append('acc 51 1' + (' acc=S' if nxt == 'intr' else ''))
        out.append(Scenario('lshutmodel', ops + ['lclose 51', 'shut 51'], 'tlc', ca='ca'))
    return out
