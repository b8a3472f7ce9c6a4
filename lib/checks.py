"""One function per property: what is model checked, generated, executed and validated."""
import os
import subprocess
import vlib
import g_packet
import g_stream
import g_crew
import g_tcp
import g_selector
import g_http
import g_url
import g_ws
import g_tls
import g_api
import g_ports

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check('C01')
def c01(r):
    exe = vlib.build('packet', std='c++17')
    r.model('MC_Packet')
    h = r.gen('Gen_Packet', 'Gen_Packet_rt.cfg')
    rng = r.rng()
    sc = g_packet.each_type(rng) + g_packet.from_model(h) + g_packet.roundtrip(rng, 700 if r.quick() else 12000)
    r.conform(exe, 'T_Packet', sc)
    if not r.quick():
        r.corruption_selftest(exe, 'T_Packet', sc, 200)


@check('C02')
def c02(r):
    exe = vlib.build('packet', std='c++17')
    r.model('MC_Packet')
    h = r.gen('Gen_Packet', 'Gen_Packet_safe.cfg')
    rng = r.rng()
    sc = g_packet.truncations(rng, 0) + g_packet.from_model(h) + g_packet.safety(rng, 1500 if r.quick() else 30000)
    r.conform(exe, 'T_Packet', sc)
    if not r.quick():
        r.corruption_selftest(exe, 'T_Packet', sc, 200)


@check('C03')
def c03(r):
    exe = vlib.build('stream')
    r.model('MC_Framing')
    rng = r.rng()
    sc = g_stream.packets_ok(rng, 500 if r.quick() else 8000) + g_stream.send_faults(rng, 100 if r.quick() else 2000)
    sc += g_stream.patience(lambda n, s: g_stream.pwire(g_stream.pat(n, s)), 'PRecv', 'PSend %s', 4)
    sc += g_stream.carried(rng, sc, 400 if r.quick() else 8000)
    r.conform(exe, 'T_Framing', sc)
    if not r.quick():
        r.corruption_selftest(exe, 'T_Framing', sc, 200)


@check('C04')
def c04(r):
    exe = vlib.build('stream')
    r.model('MC_Framing')
    rng = r.rng()
    mk = lambda n, s: g_stream.pwire(g_stream.pat(n, s))
    sc = g_stream.faults(rng, 500 if r.quick() else 10000, mk, ['PRecv']) + g_stream.exact(rng, 200 if r.quick() else 4000) \
        + g_stream.send_faults(rng, 300 if r.quick() else 4000)
    sc += g_stream.carried(rng, sc, 400 if r.quick() else 8000)
    r.conform(exe, 'T_Framing', sc)
    if not r.quick():
        r.corruption_selftest(exe, 'T_Framing', sc, 200)


@check('C05')
def c05(r):
    exe = vlib.build('stream')
    r.model('MC_Framing')
    rng = r.rng()
    sc = g_stream.limits(rng, 500 if r.quick() else 10000)
    sc += g_stream.carried(rng, sc, 400 if r.quick() else 8000)
    r.conform(exe, 'T_Framing', sc)
    if not r.quick():
        r.corruption_selftest(exe, 'T_Framing', sc, 200)


@check('C19')
def c19(r):
    exe = vlib.build('stream')
    r.model('MC_Framing')
    rng = r.rng()
    sc = g_stream.frames_codec(rng, 250 if r.quick() else 5000)
    sc += g_stream.carried(rng, sc, 400 if r.quick() else 8000)
    r.conform(exe, 'T_Framing', sc)
    if not r.quick():
        r.corruption_selftest(exe, 'T_Framing', sc, 200)


@check('C20')
def c20(r):
    exe = vlib.build('stream')
    r.model('MC_Framing')
    rng = r.rng()
    sc = g_stream.frames_contract(rng, 500 if r.quick() else 10000)
    for role, m in (('client', False), ('server', True)):
        sc += g_stream.patience(lambda n, s: g_stream.fwire(1, 2, m, g_stream.pat(n, s)), 'FRecv ' + role, 'FSend ' + role + ' 2 1 %s', 2 if m else 6, (5, 126))
    sc += g_stream.carried(rng, sc, 400 if r.quick() else 8000)
    r.conform(exe, 'T_Framing', sc)
    if not r.quick():
        r.corruption_selftest(exe, 'T_Framing', sc, 200)


def tcp(r, scen):
    exe = vlib.build('tcp')
    r.conform(exe, 'T_Tcp', scen, tenv={'PROP': r.prop})
    if not r.quick():
        r.corruption_selftest(exe, 'T_Tcp', scen, 200, tenv={'PROP': r.prop})


def tcp_model(r):
    r.model('MC_Tcp', 'MC_Tcp.cfg' if r.quick() else 'MC_Tcp3.cfg')
    return r.both(lambda: r.gen('Gen_Tcp'), lambda: vlib.build('tcp'))[0]


@check('C06')
def c06(r):
    rng = r.rng()
    h = r.both(lambda: r.gen('MC_Raw'), lambda: vlib.build('tcp'))[0]
    tcp(r, g_tcp.raw(rng, 400 if r.quick() else 8000, 3 if r.quick() else 4) + g_tcp.from_raw_model(h, rng, 500 if r.quick() else 10**6))


@check('C07')
def c07(r):
    rng = r.rng()
    q = r.quick()
    h = tcp_model(r)
    tcp(r, g_tcp.connect_enum(rng, 2 if q else 4) + g_tcp.listen_enum(rng, 2 if q else 4) + g_tcp.histories(rng, 700 if q else 15000)
        + g_tcp.from_model(h, rng, 600 if q else 10**6))
    tls(r, g_tls.lifecycles(rng, 150 if q else 4000))


@check('C08')
def c08(r):
    rng = r.rng()
    q = r.quick()
    h = tcp_model(r)
    tcp(r, g_tcp.connect_enum(rng, 2) + g_tcp.listen_enum(rng, 2) + g_tcp.modes(rng, 500 if q else 10000) + g_tcp.histories(rng, 200 if q else 4000)
        + g_tcp.from_model(h, rng, 600 if q else 10**6))


@check('C09')
def c09(r):
    rng = r.rng()
    h = tcp_model(r)
    tcp(r, g_tcp.timeouts(rng, 700 if r.quick() else 15000)
        + g_tcp.from_model([x for x in h if any(o[0] in ('rto', 'sto') for o in x)], rng, 500 if r.quick() else 10**6))


@check('C10')
def c10(r):
    rng = r.rng()
    q = r.quick()
    h = tcp_model(r)
    tcp(r, g_tcp.connect_enum(rng, 3 if q else 4) + g_tcp.listen_enum(rng, 3 if q else 4) + g_tcp.histories(rng, 200 if q else 4000)
        + g_tcp.from_model(h, rng, 300 if q else 20000))
    tls(r, g_tls.candidates(rng, 150 if q else 4000))


def selector(r, sc):
    exe = vlib.build('selector')
    r.conform(exe, 'T_Selector', sc, tenv={'PROP': r.prop})
    if not r.quick():
        r.corruption_selftest(exe, 'T_Selector', sc, 200, tenv={'PROP': r.prop})


@check('C11')
def c11(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Selector', 'MC_Selector.cfg' if q else 'MC_Selector3.cfg')
    h = r.gen('MC_Selector', 'Gen_Selector.cfg')
    selector(r, g_selector.ready(rng, 300 if q else 6000) + g_selector.crowds(rng, 24 if q else 300) + g_selector.reuse(rng, 50 if q else 1000)
             + g_selector.from_model(h, rng, 500 if q else 10**6))


@check('C12')
def c12(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Selector', 'MC_Selector.cfg' if q else 'MC_Selector3.cfg')
    h = r.gen('MC_Selector', 'Gen_Selector.cfg')
    selector(r, g_selector.memb(rng, 300 if q else 6000) + g_selector.reuse(rng, 300 if q else 6000) + g_selector.crowds(rng, 4 if q else 40)
             + g_selector.from_model(h, rng, 1000 if q else 10**6))


# ---------------------------------------------------------------- HTTP
SMALL = ['-DMAX_HTTP_HEADER_SIZE=120', '-DMAX_HTTP_BODY_SIZE=200']


def http(r, sc, limits=None):
    exe = vlib.build('http', limits=limits)
    r.conform(exe, 'T_Http', sc, tenv={'PROP': r.prop})
    if not r.quick():
        r.corruption_selftest(exe, 'T_Http', sc, 200, tenv={'PROP': r.prop})


def http_model(r, modes):
    for m in modes:
        r.model('MC_Http', 'MC_Http%s_%s.cfg' % ('' if r.quick() else '3', m))


@check('C13')
def c13(r):
    rng = r.rng()
    q = r.quick()
    http_model(r, ['head'])
    h = r.both(lambda: r.gen('MC_Http', 'Gen_Http_head.cfg'), lambda: vlib.build('http'))[0]
    http(r, g_http.messages(rng, 'req', 900 if q else 25000) + g_http.twosplits(rng, 'req', 5 if q else 100) + g_http.empties(rng, 'req', 60 if q else 1000) + g_http.large(rng, 'req', 12 if q else 200)
         + g_http.from_model(h, rng, 'req', 1500 if q else 10**6))


@check('C14')
def c14(r):
    rng = r.rng()
    q = r.quick()
    http_model(r, ['chunk', 'len'])
    h = r.both(lambda: r.gen('MC_Http', 'Gen_Http_chunk.cfg') , lambda: r.gen('MC_Http', 'Gen_Http_len.cfg'))
    http(r, g_http.messages(rng, 'resp', 900 if q else 25000) + g_http.twosplits(rng, 'resp', 5 if q else 100) + g_http.empties(rng, 'resp', 60 if q else 1000) + g_http.large(rng, 'resp', 12 if q else 200)
         + g_http.from_model(h[0], rng, 'resp', 1500 if q else 10**6) + g_http.from_model(h[1], rng, 'resp', 600 if q else 10**6))


@check('C15')
def c15(r):
    rng = r.rng()
    q = r.quick()
    http_model(r, ['chunk', 'head', 'len'])
    http(r, g_http.hostile(rng, 1200 if q else 30000) + g_http.firsts(rng) + g_http.chunksizes(rng))
    lim = g_http.header_limits(rng, 120) + g_http.body_limits(rng, 200)
    http(r, (rng.sample(lim, 900) if q else lim) + g_http.hostile(rng, 300 if q else 6000) + g_http.chunksizes(rng), SMALL)


@check('C16')
def c16(r):
    rng = r.rng()
    http_model(r, ['head'])
    http(r, g_http.types(rng) + g_http.construct(rng, 'req', 1500 if r.quick() else 40000))


@check('C17')
def c17(r):
    rng = r.rng()
    http_model(r, ['len'])
    http(r, g_http.statuses(rng) + g_http.construct(rng, 'resp', 1500 if r.quick() else 40000))


@check('C18')
def c18(r):
    rng = r.rng()
    q = r.quick()
    http_model(r, ['len'])
    sc = g_http.socket(rng, 900 if q else 25000) + g_http.trickle(rng, 5 if q else 100) + g_http.patience(rng)
    http(r, sc + g_http.carried(rng, sc, 400 if q else 10000))
    http(r, g_http.socket(rng, 200 if q else 5000), SMALL)


# ---------------------------------------------------------------- URLs
def url(r, sc):
    exe = vlib.build('url')
    r.conform(exe, 'T_Url', sc, tenv={'PROP': r.prop})
    if not r.quick():
        r.corruption_selftest(exe, 'T_Url', sc, 200, tenv={'PROP': r.prop})


@check('C24')
def c24(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Url', 'MC_Url.cfg' if q else 'MC_Url3.cfg')
    h = r.both(lambda: r.gen('MC_Url', 'Gen_Url.cfg'), lambda: vlib.build('url'))[0]
    url(r, g_url.splits(rng, 1200 if q else 30000) + g_url.from_model(h, rng, 10000 if q else 10**6))


@check('C25')
def c25(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Url', 'MC_Url.cfg' if q else 'MC_Url3.cfg')
    h = r.both(lambda: r.gen('MC_Url', 'Gen_Url.cfg'), lambda: vlib.build('url'))[0]
    url(r, g_url.assembled(rng, 1500 if q else 40000) + g_url.splits(rng, 300 if q else 5000) + g_url.from_model(h, rng, 4000 if q else 10**6))


@check('C26')
def c26(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Url', 'MC_Pct.cfg' if q else 'MC_Pct3.cfg')
    h = r.both(lambda: r.gen('MC_Url', 'Gen_Pct.cfg'), lambda: vlib.build('url'))[0]
    url(r, g_url.codec(rng, 800 if q else 20000) + g_url.pct_model(h, rng, 10**6))


# ---------------------------------------------------------------- WebSocket
def ws(r, sc):
    exe = vlib.build('ws')
    r.conform(exe, 'T_WebSocket', sc, tenv={'PROP': r.prop})
    if not r.quick():
        r.corruption_selftest(exe, 'T_WebSocket', sc, 200, tenv={'PROP': r.prop})


def ws_model(r):
    q = r.quick()
    r.model('MC_WebSocket', 'MC_WebSocket.cfg' if q else 'MC_WebSocket3.cfg')
    return r.both(lambda: r.gen('MC_WebSocket', 'Gen_WebSocket.cfg'), lambda: vlib.build('ws'))[0]


@check('C21')
def c21(r):
    rng = r.rng()
    q = r.quick()
    h = [x for x in ws_model(r) if x[0][0] == 'connect']
    ws(r, g_ws.handshakes(rng, 300 if q else 8000, 'client') + g_ws.everysplit(rng, 'client', 1 if q else 8) + g_ws.everyfault(rng, 'client', 1 if q else 8)
       + g_ws.digests(rng, 30) + g_ws.from_model(h, rng, 250 if q else 10**6))


@check('C22')
def c22(r):
    rng = r.rng()
    q = r.quick()
    h = [x for x in ws_model(r) if x[0][0] == 'accept']
    ws(r, g_ws.handshakes(rng, 300 if q else 8000, 'server') + g_ws.everysplit(rng, 'server', 1 if q else 8) + g_ws.everyfault(rng, 'server', 1 if q else 8)
       + g_ws.digests(rng, 30) + g_ws.from_model(h, rng, 250 if q else 10**6))


@check('C23')
def c23(r):
    rng = r.rng()
    q = r.quick()
    h = [x for x in ws_model(r) if any(o[0] in ('disc', 'renew') for o in x)]
    ws(r, g_ws.endings(rng, 350 if q else 10000) + g_ws.unconnected(rng) + g_ws.from_model(h, rng, 350 if q else 10**6))


@check('C29')
def c29(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Digest')
    ws(r, g_ws.digests(rng, 500 if q else 6000) + g_ws.bits64(rng))


# ---------------------------------------------------------------- TLS
def tls(r, sc):
    exe = vlib.build('tls')
    r.conform(exe, 'T_Tls', sc, tenv={'PROP': r.prop})
    if not r.quick():
        r.corruption_selftest(exe, 'T_Tls', sc, 200, tenv={'PROP': r.prop})


def tls_sim(r, cfg, num):
    return r.gen('MC_Tls', cfg, extra=('-simulate', 'num=%d' % num, '-depth', '150', '-seed', str(r.seed)))


@check('C27')
def c27(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Tls', 'MC_Tls.cfg' if q else 'MC_Tls3.cfg')
    h, f, _ = r.both(lambda: tls_sim(r, 'Gen_Tls.cfg', 1000 if q else 20000), lambda: tls_sim(r, 'Gen_TlsF.cfg', 400 if q else 10000), lambda: vlib.build('tls'))
    tls(r, g_tls.traffic(rng, 350 if q else 9000) + g_tls.cuts(rng, 50 if q else 1500) + g_tls.timeouts(rng, 40 if q else 1000) + g_tls.dead(rng)
        + g_tls.reuse(rng, 120 if q else 4000)
        + g_tls.from_model(h + f, rng, 450 if q else 10**6))


@check('C28')
def c28(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Tls', 'MC_TlsHs.cfg' if q else 'MC_TlsHs3.cfg')
    h = r.both(lambda: r.gen('MC_Tls', 'Gen_TlsHs.cfg'), lambda: vlib.build('tls'))[0]
    tls(r, g_tls.matrix(rng, 350 if q else None) + g_tls.lifecycles(rng, 350 if q else 8000) + g_tls.everyfault(rng) + g_tls.loads(rng, 60 if q else 2000) + g_tls.from_model(h, rng, 400 if q else 10**6))


# ---------------------------------------------------------------- conversions and values
def api(r, sc):
    exe = vlib.build('api')
    r.conform(exe, 'T_Api', sc, tenv={'PROP': r.prop})
    if not r.quick():
        r.corruption_selftest(exe, 'T_Api', sc, 200, tenv={'PROP': r.prop})


def api_gen(r, cfg, module='MC_Api'):
    return r.both(lambda: r.gen(module, cfg), lambda: vlib.build('api'))[0]


@check('C30')
def c30(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Api', 'MC_Mime.cfg' if q else 'MC_Mime3.cfg')
    h = api_gen(r, 'Gen_Mime.cfg')
    api(r, g_api.mime(rng, 2000 if q else 40000) + g_api.mime_model(h, rng, 3000 if q else 10**6))


@check('C31')
def c31(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Api', 'MC_RType.cfg' if q else 'MC_RType3.cfg')
    h = api_gen(r, 'Gen_RType.cfg')
    api(r, g_api.names(rng, 1500 if q else 40000) + g_api.rtype_model(h, rng, 4000 if q else 10**6))


@check('C32')
def c32(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Net')
    h = api_gen(r, 'Gen_Net.cfg', 'MC_Net')
    api(r, g_api.net(rng, 3000 if q else 100000) + g_api.net_model(h, rng, 1500 if q else 10**6))


@check('C33')
def c33(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Values', 'MC_Values.cfg' if q else 'MC_Values3.cfg')
    h = api_gen(r, 'Gen_Values.cfg', 'MC_Values')
    api(r, g_api.values(rng, 400 if q else 8000) + g_api.parsers(rng, 300 if q else 6000) + g_api.value_model(h, rng, 800 if q else 10**6))


@check('C34')
def c34(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Shut')
    r.model('MC_Shut', 'MC_ShutL.cfg')
    h = r.both(lambda: r.gen('MC_Shut', 'Gen_Shut.cfg'), lambda: vlib.build('tcp'), lambda: vlib.build('tls'))[0]
    tcp(r, g_tcp.shuts(rng, 500 if q else 12000) + g_tcp.from_shut_model(h))
    tls(r, g_tls.shuts(rng, 300 if q else 6000) + g_tls.from_shut_model(h, rng))


# ---------------------------------------------------------------- several objects at once
@check('C35')
def c35(r):
    rng = r.rng()
    q = r.quick()
    for n in (1, 2, 3, 4):
        r.model('MC_Crew', 'MC_Crew%d.cfg' % n, workers=1 if n < 4 else 2)
    h, exe, tsan = r.both(lambda: r.gen('MC_Crew', 'Gen_Crew.cfg'), lambda: vlib.build('crew', std='c++17'),
                          lambda: vlib.build('crew', std='c++17', sanitize=False, extra=('-fsanitize=thread',)))
    p = g_crew.pool(rng, 30 if q else 300)
    sc = g_crew.every(rng, p, h, 1 if q else 4) + g_crew.turns(rng, p, 600 if q else 15000, h)
    r.conform(exe, 'T_Crew', sc, tenv={'PROP': 'ALL'})
    free = g_crew.free(rng, p, 400 if q else 10000)
    r.conform(tsan, 'T_Crew', free, tag='f', tenv={'PROP': 'ALL'}, env={'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'})
    if not q:
        r.corruption_selftest(exe, 'T_Crew', sc[:2000], 200, tenv={'PROP': 'ALL'})


# ---------------------------------------------------------------- ports
@check('C36')
def c36(r):
    rng = r.rng()
    q = r.quick()
    r.model('MC_Ports', 'MC_Ports.cfg' if q else 'MC_Ports3.cfg')
    h, exe = r.both(lambda: r.gen('MC_Ports', 'Gen_Ports.cfg'), lambda: vlib.build('ports'))
    sc = g_ports.fixed(rng) + g_ports.histories(rng, 1500 if q else 30000) + g_ports.from_model(h, rng, 1500 if q else 10**6)
    r.conform(exe, 'T_Ports', sc)
    if not q:
        r.corruption_selftest(exe, 'T_Ports', sc, 200)
        # the same on the machine's own kernel: what the stand-in kernel and the specification say about ports is what Linux does
        own = os.path.join(vlib.VERIF, 'lib', 'ownnet.sh')
        if subprocess.run([own]).returncode == 0:
            sh = os.path.join(r.work, 'ports-own-kernel.sh')
            with open(sh, 'w') as f:
                f.write('#!/bin/sh\nexec %s %s "$@"\n' % (own, exe))
            os.chmod(sh, 0o755)
            r.conform(sh, 'T_Ports', g_ports.real(sc[:8000]), tag='k')
        else:
            print('C36: no network namespace can be made here; the scenarios ran on the stand-in kernel only')
