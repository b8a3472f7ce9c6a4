"""Scenarios for the crew driver (C35): scenarios of other drivers side by side."""
import g_packet, g_stream, g_http, g_url, g_api, g_ws
from vlib import Scenario


def pool(rng, n):
    """short scenarios of every kind of object"""
    mk = lambda k, s: g_stream.pwire(g_stream.pat(k, s))
    p = {
        'packet': g_packet.roundtrip(rng, n) + g_packet.safety(rng, n),
        'stream': rng.sample(g_stream.packets_ok(rng, n), n) + rng.sample(g_stream.faults(rng, n, mk, ['PRecv']), n)
        + rng.sample(g_stream.frames_contract(rng, n), n) + rng.sample(g_stream.frames_codec(rng, n), n) + rng.sample(g_stream.send_faults(rng, n), n),
        'http': g_http.messages(rng, 'req', n) + g_http.messages(rng, 'resp', n) + g_http.construct(rng, 'req', n) + g_http.construct(rng, 'resp', n)
        + g_http.socket(rng, n),
        'url': g_url.splits(rng, n) + g_url.assembled(rng, n) + g_url.codec(rng, n),
        'api': g_api.mime(rng, n) + g_api.names(rng, n) + g_api.net(rng, n) + g_api.values(rng, n),
        'ws': [s for s in g_ws.handshakes(rng, n, 'client') + g_ws.handshakes(rng, n, 'server') + g_ws.endings(rng, n) if s.params.get('t') != 'k']
        + g_ws.digests(rng, max(n // 4, 1)),
    }
    for v in p.values():
        v[:] = [s for s in v if sum(len(o) for o in s.ops) + len(str(s.params)) < 4000]
    return p


def crew(name, src, lanes, limit=14, **params):
    ops = []
    for i, (d, s) in enumerate(lanes):
        ops.append('lane %d %s %s' % (i, d, ' '.join('%s=%s' % kv for kv in sorted(s.params.items()))))
        ops += ['%d %s' % (i, o) for o in s.ops[:limit]]
    return Scenario(name, ops, src, **params)


def choose(rng, p, k):
    """k scenarios; often of one kind, sometimes the very same one"""
    ds = sorted(p)
    d = rng.choice(ds)
    same = rng.random() < 0.6
    out = []
    for _ in range(k):
        e = d if same else rng.choice(ds)
        out.append((e, rng.choice(p[e])))
    if same and rng.random() < 0.2:
        out[1] = out[0]
    return out


def turns(rng, p, n, scheds):
    out = []
    for i in range(n):
        ls = choose(rng, p, rng.choice([2, 2, 2, 3, 4]))
        sc = ''.join(map(str, rng.choice(scheds))) if scheds and len(ls) == 2 and rng.random() < 0.8 else ''
        out.append(crew('turns' + '+'.join(d for d, _ in ls), 'model' if sc else 'random', ls, mode='turns', sched=sc or '0', seed=rng.randrange(1, 10**8)))
    return out


def every(rng, p, scheds, per):
    """a few pairs under every schedule of the model"""
    out = []
    for d in sorted(p):
        for _ in range(per):
            a, b = rng.choice(p[d]), rng.choice(p[d])
            for s in scheds:
                out.append(crew('every+' + d, 'model', [(d, a), (d, b)], 6, mode='turns', sched=''.join(map(str, s)), seed=1))
    return out


def free(rng, p, n):
    return [crew('free', 'random', choose(rng, p, 4), mode='free', seed=1) for _ in range(n)]
