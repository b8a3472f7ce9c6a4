"""Scenario generators for the packet driver."""
import struct
from vlib import Scenario, hx

SC = {'bool': 1, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i16': 16, 'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}
ENUMS = {'e8': (0, 255), 'e16s': (-32768, 32767), 'e32': (0, 2**32 - 1), 'e32s': (-2**31, 2**31 - 1)}
COMP = {
    'vec_u8': ('vec', 'u8'), 'vec_u16': ('vec', 'u16'), 'vec_u64': ('vec', 'u64'), 'vec_str': ('vec', 'str'),
    'vec_bool': ('vec', 'bool'),
    'vec_vec_u16': ('vec', 'vec_u16'), 'map_u8_str': ('map', 'u8', 'str'), 'map_str_u32': ('map', 'str', 'u32'),
    'umap_str_u16': ('map', 'str', 'u16'), 'umap_u32_vecstr': ('map', 'u32', 'vec_str'),
    'pair_u16_str': ('tup', 'u16', 'str'), 'pair_str_vecu8': ('tup', 'str', 'vec_u8'),
    'map_str_vecu16': ('map', 'str', 'vec_u16'), 'vec_pair': ('vec', 'pair_u16_str'),
    'map_str_umap': ('map', 'str', 'umap_str_u16'), 'vec_e8': ('vec', 'e8'), 'vec_f64': ('vec', 'f64'),
    'map_i32_bool': ('map', 'i32', 'bool'), 'vec_map': ('vec', 'map_u8_str'),
    'obj': ('tup', 'u16', 'str', 'vec_u8'), 'vec_obj': ('vec', 'obj'), 'pair_bool_obj': ('tup', 'bool', 'obj'),
}
ALL = list(SC) + list(ENUMS) + ['str', 'cstr', 'sv'] + list(COMP)


def num(rng, bits):
    if bits == 1:
        return rng.choice([0, 1])
    r = rng.random()
    if r < 0.5:
        return rng.choice([0, 1, 2**bits - 1, 2**(bits - 1), 2**(bits - 1) - 1, 0x7f, 0x80, 0xff, 2**(bits - 8)]) % 2**bits
    if r < 0.7:
        return int.from_bytes(bytes(range(1, bits // 8 + 1)), 'big')
    return rng.getrandbits(bits)


def strval(rng, zero_ok=True, big=False):
    r = rng.random()
    if r < 0.2:
        return b''
    n = rng.choice([1, 2, 3, 4, 5, 7, 16, 40]) if not big else rng.choice([255, 256, 257, 300, 700])
    b = bytes(rng.choice([0, 1, 0x41, 0x7f, 0x80, 0xff, rng.getrandbits(8)]) for _ in range(n))
    return b if zero_ok else b.replace(b'\0', b'\1')


def tokens(rng, t, depth=0, big=False):
    if t in SC:
        return [str(num(rng, SC[t]))]
    if t in ENUMS:
        lo, hi = ENUMS[t]
        return [str(rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, rng.randint(lo, hi)]))]
    if t == 'cstr':
        return [hx(strval(rng, False, big))]
    if t in ('str', 'sv'):
        return [hx(strval(rng, True, big))]
    c = COMP[t]
    if c[0] == 'tup':
        return sum((tokens(rng, x, depth + 1, big) for x in c[1:]), [])
    if c[0] == 'vec':
        n = rng.choice([0, 1, 2, 3, 3, 5] if depth else [0, 1, 2, 3, 5, 9])
        if 'map' in c[1] or 'obj' in c[1]:
            n = rng.choice([0, 1, 2])
        if big and c[1] in SC:
            n = rng.choice([255, 256, 260])
        return [str(n)] + sum((tokens(rng, c[1], depth + 1) for _ in range(n)), [])
    n = rng.choice([0, 1, 2, 3]) if depth == 0 else rng.choice([0, 1, 2])
    return [str(n)] + sum((tokens(rng, c[1], depth + 1) + tokens(rng, c[2], depth + 1) for _ in range(n)), [])


RD = {'cstr': ['cstr', 'str', 'sv'], 'str': ['str', 'sv'], 'sv': ['sv', 'str']}


def roundtrip(rng, k):
    """writes then reads in order, with dumps, interleaving and reuse"""
    out = []
    # every type alone, boundary-heavy, plus mixtures
    for i in range(k):
        ops = []
        pend = []
        if rng.random() < 0.2:
            b = strval(rng)
            ops.append('Make3 %d %s %d' % (num(rng, 16), hx(b), num(rng, 8)))
            pend = ['u16', 'str', 'u8']
        n = rng.choice([1, 2, 3, 5, 8])
        for j in range(n):
            t = ALL[(i + j * 7) % len(ALL)] if rng.random() < 0.7 else rng.choice(ALL)
            r = rng.random()
            big = rng.random() < 0.05
            if r < 0.78:
                ops.append('W %s %s' % (t, ' '.join(tokens(rng, t, 0, big))))
                pend.append(rng.choice(RD.get(t, [t])))
            elif r < 0.83 and ('vec_' + t) in COMP:
                ops.append('Range %s %s' % (t, ' '.join(tokens(rng, 'vec_' + t))))
                pend.append('vec_' + t)
            elif r < 0.87:
                b = strval(rng)
                ops.append('RawW ' + hx(b))
                pend.append(('raw', len(b)))
            elif r < 0.91:
                ops.append('Add3 %d %s %d' % (num(rng, 16), hx(strval(rng)), num(rng, 8)))
                pend += ['u16', 'str', 'u8']
            elif r < 0.94:
                ops.append('Reserve %d' % rng.choice([0, 1, 100, 5000]))
            elif r < 0.96:
                ops.append('Clear')
                pend = []
            else:
                ops.append('Dump')
            while pend and rng.random() < 0.25:
                t = pend.pop(0)
                ops.append('RawR %d' % t[1] if isinstance(t, tuple) else 'R ' + t)
        ops.append('Dump')
        for t in pend:
            ops.append('RawR %d' % t[1] if isinstance(t, tuple) else 'R ' + t)
        ops.append('Dump')
        if rng.random() < 0.3:   # read everything a second time, or clear and start again
            if rng.random() < 0.5:
                ops.append('SetCur 0')
                ops.append('R ' + rng.choice(ALL))
            else:
                t = rng.choice(ALL)
                ops += [rng.choice(['Clear', 'New']), 'Dump', 'W %s %s' % (t, ' '.join(tokens(rng, t))), 'Dump', 'R ' + t]
        out.append(Scenario('roundtrip%d' % i, ops))
    return out


def each_type(rng):
    out = []
    for t in ALL:
        for rep in range(3):
            ops = ['W u8 1']
            ops.append('W %s %s' % (t, ' '.join(tokens(rng, t))))
            ops.append('W u16 4660')
            ops += ['Dump', 'R u8', 'R ' + RD.get(t, [t])[rep % len(RD.get(t, [t]))], 'R u16']
            out.append(Scenario('type-%s' % t, ops, 'types'))
    for t, bits in SC.items():
        if t[0] == 'f':
            pats = [0, 0x80000000, 0x7f800000, 0x7fc00001, 0xff800000, 1, 0x3f800000, 0x12345678] if bits == 32 else \
                   [0, 2**63, 0x7ff0000000000000, 0x7ff8000000000001, 1, 0x3ff0000000000000, 0x0123456789abcdef]
        else:
            pats = sorted({p % 2**bits for p in [0, 1, 2**bits - 1, 2**(bits - 1), 2**(bits - 1) - 1, 0x0102030405060708,
                                                 0x80, 0x7f, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0xff00ff00ff00ff00]})
        ops = ['W %s %d' % (t, p) for p in pats] + ['Dump'] + ['R ' + t for _ in pats]
        out.append(Scenario('bounds-%s' % t, ops, 'types'))
    for t, (lo, hi) in ENUMS.items():
        vals = [lo, hi, 0, 1, hi // 2, lo // 2]
        out.append(Scenario('bounds-%s' % t, ['W %s %d' % (t, v) for v in vals] + ['Dump'] + ['R ' + t for _ in vals], 'types'))
    return out


HOSTILE = [0, 1, 2, 3, 5, 255, 256, 65535, 65536, 0x01000000, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0xfffffff8,
           0xfffffffb, 0xfffffffc, 0xffffffff]
BIGS = [2**63 - 1, 2**63, 2**64 - 1, 2**64 - 4, 2**64 - 5, 2**64 - 8, 2**32, 2**32 - 1, 2**31, 2**62]


def safety(rng, k):
    out = []
    for i in range(k):
        ops = []
        r = rng.random()
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20])
        body = bytearray(rng.getrandbits(8) for _ in range(n))
        # plant length prefixes
        for _ in range(rng.choice([0, 1, 1, 2])):
            at = rng.randint(0, n)
            h = rng.choice(HOSTILE + [n - at - 4, n - at - 3, n - at - 5, 1, 2]) % 2**32
            body[at:at] = struct.pack('>I', h)
        ops.append(rng.choice(['RawW ', 'SetBuf ']) + hx(body))
        for _ in range(rng.choice([1, 2, 4, 7, 10])):
            q = rng.random()
            if q < 0.5:
                ops.append('R ' + rng.choice([t for t in ALL if t != 'cstr']))
            elif q < 0.62:
                ops.append('Seek %d' % rng.choice([0, 1, -1, 2, -2, 3, 4, -4, -5, 8, -100, 100, 2**31, -2**31, 2**63 - 1, -2**63,
                                                   2**63 - 5, -2**63 + 3, len(body), -len(body), len(body) + 1]))
            elif q < 0.74:
                ops.append('SetCur %d' % rng.choice([0, 1, 2, len(body), len(body) + 1, max(0, len(body) - 1), rng.randint(0, 30)] + BIGS))
            elif q < 0.84:
                ops.append('RawR %d' % rng.choice([0, 1, 2, 3, len(body), len(body) + 1] + BIGS))
            elif q < 0.90:
                ops.append('Need %d' % rng.choice([0, 1, 4, len(body), len(body) + 1] + BIGS))
            elif q < 0.94:
                ops.append('W u16 %d' % num(rng, 16))
            elif q < 0.97:
                ops.append('Dump')
            else:
                ops.append('SetCur 0')
        out.append(Scenario('safety%d' % i, ops))
    # every type against every hostile count, and against every truncation of a valid encoding
    for t in ALL:
        if t == 'cstr':
            continue
        for h in HOSTILE:
            for tail in (b'', b'\0\0\0\1a'):
                out.append(Scenario('hostile-%s-%x' % (t, h), ['RawW ' + hx(struct.pack('>I', h) + tail), 'R ' + t, 'R u8'], 'enumerated'))
    for b in BIGS:
        for base in (0, 1, 5):
            pre = ['RawW 0102030405', 'SetCur %d' % base]
            s = b if b < 2**63 else b - 2**64
            out.append(Scenario('big', pre + ['Need %d' % b, 'RawR %d' % b, 'R u8', 'SetCur %d' % b, 'R u8', 'SetCur %d' % base,
                                              'Seek %d' % s, 'Seek %d' % -max(s, -2**63 + 1), 'Seek %d' % s], 'enumerated'))
    return out


def truncations(rng, k):
    """write values, then read them back from every proper prefix"""
    out = []
    enc = [('vec_u16', '3 1 2 3', 4 + 6), ('str', '6162', 6), ('obj', '5 6162 2 9 8', 2 + 6 + 6), ('u64', '72623859790382856', 8),
           ('map_u8_str', '2 1 61 2 62', 4 + 2 * 6), ('vec_str', '2 61 6263', 4 + 5 + 6), ('pair_u16_str', '9 61', 7),
           ('umap_str_u16', '1 61 7', 4 + 5 + 2), ('f64', '1', 8), ('e8', '3', 4), ('vec_vec_u16', '2 1 5 1 6', 4 + 12)]
    raw = {'vec_u16': '00000003000100020003', 'str': '000000026162', 'obj': '00050000000261620000000209 08'.replace(' ', ''),
           'u64': '0102030405060708', 'map_u8_str': '0000000201000000016102000000 0162'.replace(' ', ''),
           'vec_str': '0000000200000001610000 00026263'.replace(' ', ''), 'pair_u16_str': '00090000000161',
           'umap_str_u16': '0000000100000001610007', 'f64': '0000000000000001', 'e8': '00000003',
           'vec_vec_u16': '00000002000000010005000000010006'}
    for t, toks, n in enc:
        b = raw[t]
        for cut in range(len(b) // 2 + 1):
            out.append(Scenario('cut-%s-%d' % (t, cut), ['RawW ' + (b[:2 * cut] or '-'), 'R ' + t, 'SetCur 0', 'R ' + t, 'R u8'], 'enumerated'))
    return out


def from_model(hists):
    """behaviours enumerated by TLC from Gen_Packet"""
    out = []
    for h in hists:
        ops = []
        for o in h:
            ops.append(' '.join(str(x) for x in o))
        ops.append('Dump')
        out.append(Scenario('model', ops, 'tlc'))
    return out
