"""Scenarios for the stream driver: packets and WebSocket frames over scripted transports."""
import struct
from vlib import Scenario, hx

LENS = [0, 1, 2, 3, 4, 5, 7, 8, 16, 100, 255, 256, 300]


def pat(n, seed):
    return bytes((a * 7 + seed + (a >> 8)) & 255 for a in range(n))


def pwire(b):
    return struct.pack('>I', len(b)) + b


def fwire(fin, op, masked, b, key=b'\x11\x00\xff\x80', form=None, rsv=0):
    n = len(b)
    h = bytes([(128 if fin else 0) | op | rsv])
    m = 128 if masked else 0
    form = form or (7 if n <= 125 else 16 if n <= 65535 else 64)
    h += bytes([m | n]) if form == 7 else bytes([m | 126]) + struct.pack('>H', n) if form == 16 else bytes([m | 127]) + struct.pack('>Q', n)
    if masked:
        return h + key + bytes(c ^ key[i % 4] for i, c in enumerate(b))
    return h + b


def items(segs):
    return ','.join(segs) or '-'


def segment(rng, data, mode=None):
    """cut data into segments"""
    if not data:
        return []
    mode = mode or rng.choice(['one', 'bytes', 'rand', 'rand', 'rand', 'two'])
    if mode == 'one' or len(data) > 5000 and mode == 'bytes':
        cuts = []
    elif mode == 'bytes':
        cuts = range(1, len(data))
    elif mode == 'two':
        cuts = [rng.randint(1, max(1, len(data) - 1))]
    else:
        cuts = sorted({rng.randint(1, max(1, len(data) - 1)) for _ in range(rng.randint(1, 6))})
    out, last = [], 0
    for c in list(cuts) + [len(data)]:
        if c > last:
            out.append('D' + data[last:c].hex())
            last = c
    return out


def stalls(rng, segs, p, boundary_ok=True, kinds='WWWT'):
    """insert would-blocks (and perhaps timeouts) between segments"""
    out = []
    for s in segs:
        while rng.random() < p:
            out.append('W' if rng.random() < 0.9 else rng.choice(kinds))
        out.append(s)
    while rng.random() < p:
        out.append('W')
    return out


def outscript(rng, total, fault=False):
    out = []
    n = 0
    while n < total and len(out) < 60:
        r = rng.random()
        if r < 0.25:
            out.append('W')
        elif fault and r < 0.30:
            out.append(rng.choice('TE'))
            break
        else:
            k = rng.choice([1, 1, 2, 3, 4, 5, 8, 50, 1000, 4096, 70000])
            out.append('A%d' % k)
            n += k
    return out


def bodies(rng, k, big=False):
    r = []
    for i in range(k):
        n = rng.choice(LENS) if rng.random() < 0.97 or not big else rng.choice([4095, 4096, 4097, 65535, 65536])
        if rng.random() < 0.3:
            n = rng.randint(0, 40)
        r.append(pat(n, rng.randrange(256)))
    return r


def recv_ops(op, n_messages, n_stalls):
    return [op] * (n_messages + n_stalls)


# ------------------------------------------------------------------ packets
def packets_ok(rng, k):
    """C03: fault-free streams of packets under every segmentation and stall pattern; object reuse"""
    out = []
    for i in range(k):
        bs = bodies(rng, rng.choice([1, 2, 3, 5]), True)
        wire = b''.join(map(pwire, bs))
        it = stalls(rng, segment(rng, wire), rng.choice([0, 0, 0.1, 0.4]), kinds='W')
        nst = sum(1 for x in it if x in 'WT')
        reuse = rng.choice([0, 1, 1])
        ops = ['PRecv'] * (len(bs) + nst)
        out.append(Scenario('precv%d' % i, ops, **{'in': items(it), 'reuse': reuse, 'nb': rng.choice([0, 1])}))
        ops = []
        for b in bs:
            ops.append('PSend %s %d' % (hx(b), rng.choice([0, 0, 1, 3, len(b)])))
            if rng.random() < 0.25:
                ops.append('PAgain')
        out.append(Scenario('psend%d' % i, ops, **{'out': items(outscript(rng, len(wire) * 2)), 'reuse': reuse}))
    # reuse with shrinking and growing messages, all cut positions
    for a, b in [(9, 2), (2, 9), (5, 0), (0, 5), (1, 1), (300, 3)]:
        wire = pwire(pat(a, 1)) + pwire(pat(b, 100))
        for c in range(1, min(len(wire), 40)):
            out.append(Scenario('cut-%d-%d-%d' % (a, b, c), ['PRecv', 'PRecv', 'PRecv'], 'enumerated',
                                **{'in': items(['D' + wire[:c].hex(), 'D' + wire[c:].hex()]), 'reuse': 1}))
    return out


def faults(rng, k, mk, recv, wire_lens=(0, 1, 2, 5)):
    """C04/C20: every outcome at every byte offset of a short message stream, plus random mixtures.
    mk(len, seed) -> wire bytes"""
    out = []
    for n1 in wire_lens:
        for n2 in (0, 3):
            wire = mk(n1, 1) + mk(n2, 50)
            for pos in range(len(wire) + 1):
                for mark in ('W', 'T', 'X', 'E', 'W,W', 'W,T', 'W,X', 'T,T', 'T,W'):
                    for byte in ((0, 1) if pos < 12 else (0,)):
                        pre, post = wire[:pos], wire[pos:]
                        it = (['D%02x' % x for x in pre] if byte else (['D' + pre.hex()] if pre else []))
                        it += mark.split(',')
                        if 'X' not in mark and 'E' not in mark:
                            it += ['D' + post.hex()] if post else []
                        out.append(Scenario('%s-%d-%d@%d%s' % (recv[0], n1, n2, pos, mark), [recv[0]] * 5, 'enumerated',
                                            **{'in': items(it), 'reuse': byte, 'nb': 1}))
    for i in range(k):
        ns = [rng.choice([0, 1, 2, 5, 9, 130, 300]) for _ in range(rng.choice([1, 2, 4]))]
        wire = b''.join(mk(n, rng.randrange(256)) for n in ns)
        it = stalls(rng, segment(rng, wire, rng.choice(['bytes', 'rand', 'two', 'one'])), rng.choice([0.05, 0.2, 0.5]), kinds='WWT')
        r = rng.random()
        if r < 0.5 and it:
            it = it[:rng.randint(0, len(it))] + [rng.choice('XE')]
        nst = sum(1 for x in it if x in 'WT')
        out.append(Scenario('%s-mix%d' % (recv[0], i), [rng.choice(recv)] * (len(ns) + min(nst, 30) + 1),
                            **{'in': items(it), 'reuse': rng.choice([0, 1]), 'nb': rng.choice([0, 1])}))
    return out


def exact(rng, k):
    out = []
    data = pat(9, 3)
    for pos in range(0, 10):
        for mark in ('W', 'T', 'X', 'E', 'W,W', 'W,T', 'W,E'):
            for byte in (0, 1):
                it = (['D%02x' % x for x in data[:pos]] if byte else (['D' + data[:pos].hex()] if pos else [])) + mark.split(',')
                if not set('XE') & set(mark):
                    it += ['D' + data[pos:].hex()] if pos < 9 else []
                out.append(Scenario('exact@%d%s' % (pos, mark), ['Exact 4', 'Exact 0', 'Exact 5', 'Exact 1', 'Exact 4', 'Exact 5'], 'enumerated',
                                    **{'in': items(it), 'nb': 1}))
    for i in range(k):
        n = rng.choice([1, 2, 7, 64, 500])
        data = pat(n * 3, i & 255)
        it = stalls(rng, segment(rng, data), 0.3)
        if rng.random() < 0.3:
            it = it[:rng.randint(0, len(it))] + [rng.choice('XE')]
        ops = ['Exact %d' % rng.choice([0, 1, n, n, 2 * n]) for _ in range(6)]
        out.append(Scenario('exact%d' % i, ops, **{'in': items(it)}))
    return out


def patience(mk, recv, send, over, n=(0, 5), long=700):
    """a transport that has nothing to give, or takes nothing, for a long time"""
    out = []
    for k in n:
        wire = mk(k, 7)
        for pos in sorted({1, 3, 4, 7, len(wire) // 2, len(wire) - 1} & set(range(1, len(wire)))):
            out.append(Scenario('patience@%d' % pos, [recv] * 2, 'enumerated', nb=1,
                                **{'in': items(['D' + wire[:pos].hex()] + ['W'] * long + ['D' + wire[pos:].hex()])}))
        for pos in sorted({0, 1, over, over + k - 1}):
            out.append(Scenario('patience-send@%d' % pos, [send % hx(pat(k, 5))] * 2, 'enumerated', nb=1,
                                **{'out': items((['A%d' % pos] if pos else []) + ['W'] * long)}))
    return out


def send_faults(rng, k, kind='P'):
    out = []

    def op(n, seed):
        if kind == 'P':
            return 'PSend %s' % hx(pat(n, seed))
        return 'FSend %s %d %d %s' % (kind, rng.choice([0, 1, 2, 8, 9, 10]), rng.choice([0, 1]), hx(pat(n, seed)))
    over = {'P': 4, 'client': 6, 'server': 2}[kind]
    for n in (0, 1, 3):
        for pos in range(0, n + over + 1):
            for mark in ('W', 'T', 'E', 'W,W,W', 'W,E', 'W,T'):
                for step in (0, 1):
                    it = (['A1'] * pos if step else (['A%d' % pos] if pos else [])) + mark.split(',')
                    out.append(Scenario('send-%s-%d@%d%s' % (kind, n, pos, mark), [op(n, 5), op(2, 9)], 'enumerated', **{'out': items(it), 'nb': 1}))
    for i in range(k):
        ns = [rng.choice([0, 1, 2, 5, 125, 126, 300]) for _ in range(3)]
        out.append(Scenario('sendmix%d' % i, [op(n, rng.randrange(256)) for n in ns],
                            **{'out': items(outscript(rng, sum(ns) + 30, True)), 'nb': rng.choice([0, 1])}))
    return out


def limits(rng, k):
    """C05: announced sizes against limits, for packets and frames in both directions"""
    out = []
    small = [0, 1, 2, 3, 4, 5, 125, 126, 127, 128, 255, 256, 257]
    for kind in ('P', 'client', 'server'):
        for lim in (0, 1, 2, 4, 125, 126, 255, 256):
            for n in sorted({0, 1, lim - 1, lim, lim + 1, 2 * lim, lim + 256} & set(range(0, 700))):
                b = pat(n, lim & 255)
                wire = pwire(b) if kind == 'P' else fwire(1, 2, kind == 'server', b)
                op = 'PRecv' if kind == 'P' else 'FRecv ' + kind
                pre = ['Limit %d' % lim] if lim or rng.random() < 0.5 else []
                out.append(Scenario('lim-%s-%d-%d' % (kind, lim, n), pre + [op, op], 'enumerated',
                                    **{'in': items(segment(rng, wire)), 'reuse': rng.choice([0, 1])}))
        # hostile announcements, nothing behind them
        for lim in (1, 1000, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 2):
            for n in (lim + 1, 2**32 - 1, 2**31, 2**31 + 1, 0x01000000, 2**16, 2**16 + 1):
                if n <= lim or n >= 2**32:
                    continue
                if lim >= 2**30 or n > lim:
                    wire = struct.pack('>I', n) if kind == 'P' else \
                        bytes([0x82, (128 if kind == 'server' else 0) | 127]) + struct.pack('>Q', n)
                    op = 'PRecv' if kind == 'P' else 'FRecv ' + kind
                    out.append(Scenario('huge-%s-%d-%d' % (kind, lim, n), ['Limit %d' % lim, op], 'enumerated',
                                        **{'in': items(['D' + (wire + pat(40, 2)).hex()])}))
            if kind != 'P':
                for n in (2**32, 2**32 + 1, 2**33 + 3, 2**63, 2**64 - 1, 2**40, 2**32 + lim, 2**63 + 5, 2**48 + 1):
                    wire = bytes([0x82, (128 if kind == 'server' else 0) | 127]) + struct.pack('>Q', n)
                    out.append(Scenario('huge64-%s-%d-%d' % (kind, lim, n), ['Limit %d' % lim, 'FRecv ' + kind], 'enumerated',
                                        **{'in': items(['D' + (wire + pat(40, 2)).hex()])}))
    for i in range(k):
        kind = rng.choice(['P', 'client', 'server'])
        ops, wire = [], b''
        lim = 0
        for _ in range(rng.choice([2, 3, 4])):
            if rng.random() < 0.6:
                lim = rng.choice([0, 1, 5, 100, 126, 300, 70000])
                ops.append('Limit %d' % lim)
            n = rng.choice([x for x in small + [lim, max(lim - 1, 0), lim + 1] if x < 1000])
            b = pat(n, i & 255)
            wire += pwire(b) if kind == 'P' else fwire(rng.choice([0, 1]), rng.choice([0, 1, 2]), kind == 'server', b)
            ops.append('PRecv' if kind == 'P' else 'FRecv ' + kind)
        out.append(Scenario('limhist%d' % i, ops, **{'in': items(segment(rng, wire)), 'reuse': rng.choice([0, 1])}))
    return out


# ------------------------------------------------------------------ frames
EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 257, 1000]
BIG = [4095, 4096, 65534, 65535, 65536, 65537, 70000]


def frames_codec(rng, k, quick=True):
    out = []
    for role in ('client', 'server'):
        other = 'server' if role == 'client' else 'client'
        for n in EDGE + BIG:
            big = n > 2000
            for rep in range(1 if big else 3):
                op, fin = rng.choice([0, 1, 2, 8, 9, 10]), rng.choice([0, 1])
                ops = ['FSend %s %d %d P%d:%d' % (role, op, fin, n, rng.randrange(256))]
                if not big or n == 65536:
                    ops.append('FAgain')
                out.append(Scenario('fsend-%s-%d' % (role, n), ops, 'enumerated', reuse=rep % 2))
                wire = fwire(fin, op, role == 'client', pat(n, rep), bytes(rng.getrandbits(8) for _ in range(4)))
                out.append(Scenario('frecv-%s-%d' % (other, n), ['FRecv ' + other], 'enumerated',
                                    **{'in': items(segment(rng, wire))}))
    for op in range(0, 16):
        for fin in (0, 1):
            for role in ('client', 'server'):
                if op in (0, 1, 2, 8, 9, 10):
                    out.append(Scenario('op', ['FSend %s %d %d %s' % (role, op, fin, hx(pat(5, op)))], 'enumerated'))
                out.append(Scenario('op', ['FRecv ' + role], 'enumerated', **{'in': 'D' + fwire(fin, op, role == 'server', pat(5, op)).hex()}))
    for i in range(k):
        role = rng.choice(['client', 'server'])
        ops = []
        for _ in range(rng.choice([2, 3, 5])):
            n = rng.choice(EDGE + [rng.randint(0, 300)])
            ops.append('FSend %s %d %d %s' % (role, rng.choice([0, 1, 2, 8, 9, 10]), rng.choice([0, 1]),
                                              hx(bytes(rng.getrandbits(8) for _ in range(n)))))
            while rng.random() < 0.3:
                ops.append('FAgain')
        out.append(Scenario('fsendmix%d' % i, ops, reuse=rng.choice([0, 1]), out=items(outscript(rng, 2000)) if rng.random() < 0.5 else '-'))
        ops, wire = [], b''
        for _ in range(rng.choice([2, 3, 5])):
            n = rng.choice(EDGE + [rng.randint(0, 300)])
            key = bytes(rng.choice([0, 255, rng.getrandbits(8)]) for _ in range(4))
            wire += fwire(rng.choice([0, 1]), rng.choice([0, 1, 2, 8, 9, 10]), role == 'server',
                          bytes(rng.getrandbits(8) for _ in range(n)), key)
            ops.append('FRecv ' + role)
        out.append(Scenario('frecvmix%d' % i, ops + ['FRecv ' + role], reuse=rng.choice([0, 1, 1]), **{'in': items(segment(rng, wire))}))
    return out


def frames_contract(rng, k):
    out = []
    for role in ('client', 'server'):
        masked = role == 'server'
        out += faults(rng, k // 4, lambda n, s: fwire(s & 1, 1 + (s & 1), masked, pat(n, s), bytes([s, 0, 255, s ^ 85])), ['FRecv ' + role], (0, 1, 3, 126))
        # wrong direction, all lengths, and with a correct frame before
        for n in (0, 1, 5, 125, 126, 200):
            for pre in (0, 1):
                wire = (fwire(1, 1, masked, pat(3, 3)) if pre else b'') + fwire(1, 2, not masked, pat(n, 9)) + fwire(1, 1, masked, b'zz')
                out.append(Scenario('direction-%s-%d' % (role, n), ['FRecv ' + role] * 3, 'enumerated', **{'in': items(segment(rng, wire))}))
        # 16 and 64 bit lengths split everywhere, with faults inside the extended length and key
        for n, form in ((126, 16), (300, 16), (65536, 64)):
            wire = fwire(1, 2, masked, pat(n, 7))
            for pos in range(1, 16):
                for mark in ('', 'W', 'T', 'X', 'E', 'W,W', 'W,T'):
                    if n > 1000 and mark not in ('', 'W', 'T') or n > 1000 and pos not in (3, 9, 10, 12):
                        continue
                    it = ['D' + wire[:pos].hex()] + ([mark] if mark and ',' not in mark else mark.split(',') if mark else [])
                    if not set('XE') & set(mark):
                        it.append('D' + wire[pos:].hex())
                    out.append(Scenario('ext-%s-%d@%d%s' % (role, n, pos, mark), ['FRecv ' + role] * 2, 'enumerated', nb=1, **{'in': items(it)}))
    return out


def carried(rng, scs, k):
    """the same histories over a TcpSocket and an SSLSocket on the simulated kernel, with interrupted calls"""
    out = []
    for s in rng.sample(scs, min(k, len(scs))):
        p = dict(s.params)
        p['t'] = rng.choice('kkt')
        if rng.random() < 0.3:
            p['nb'] = rng.choice([0, 1])

        def its(x):
            v = [] if p.get(x, '-') == '-' else p[x].split(',')
            r = []
            for i in v:
                while rng.random() < 0.06:
                    r.append('I')
                r.append(i)
            return r
        i, o = its('in'), its('out')
        if p['t'] == 't':
            if any(x[0] in 'TEX' for x in o):
                o = [x for x in o if x[0] not in 'TEX']
            if 'W' in o:
                p['nb'] = 1
            p['cut'] = rng.choice([0, 0, 0, 1, 5, 29, 1000])
        p['in'], p['out'] = items(i), items(o)
        out.append(Scenario(s.name + '~' + p['t'], list(s.ops), s.src, **p))
    return out
