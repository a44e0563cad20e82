"""Z/IP transport: acknowledgements, sequence numbers, reception, keepalive, DTLS thread."""
import asyncio
import ssl

from . import check
from ..scenario import *  # noqa
from .wire import layout

ADDR, PSK = K("::1"), K(b"\x12\x34")


def zipconn(w, cls="pyzwave.zipconnection.ZIPConnection"):
    return w.new(cls, ADDR, PSK)


def ack(w, seq, **kw):
    d = dict(ackRequest=False, ackResponse=True, nackResponse=False, nackWaiting=False, nackQueueFull=False, nackOptionError=False, headerExtIncluded=False,
             zwCmdIncluded=False, moreInformation=False, secureOrigin=True, seqNo=seq, sourceEP=0, destEP=0)
    d.update(kw)
    return w.msg("Zip.ZipPacket", **d)


def queued(w, seq, delay):
    """A nack-waiting packet announcing the delay, as decoded from the network."""
    ext = [] if delay is None else [0x01, 3] + list((delay & 0xFFFFFF).to_bytes(3, "big"))
    pkt = [0x23, 0x02, 0x30, 0x90 if delay is not None else 0x10, seq, 0, 0] + ([len(ext) + 1] + ext if delay is not None else [])
    return BS([K(x) for x in pkt])


def packet(seq, f0, f1=0x10, tail=()):
    return BS([K(x) for x in [0x23, 0x02, f0, f1, seq, 0, 0] + list(tail)])


def frames(w):
    """Z/IP packets handed to the socket: list of (connection, canonical bytes)."""
    return [(c, data_items(w.ip, d)) for c, d in w.sent]


@check("T01")
def t01(ctx):
    """A send completes exactly when its own acknowledgement arrives; nothing of it remains afterwards."""
    ip = ctx.ip
    depth = 4 if ctx.tier == "thorough" else 3

    def run(ip):
        w = World(ip)
        ad = zipconn(w)
        t = w.spawn(ad, "send", w.msg("Basic.Get"), timeout=7)
        seq = data_items(ip, w.sent[-1][1])[4]
        hist, problems = [], []
        state, want = "pending", 7
        for _ in range(depth):
            for wf in w.sched.timeouts():
                tv = const(wf.timeout)
                if want is not None and (tv is None or tv < want):
                    problems.append("waits %s s where %s s are due" % (tv, want))
            a = w.choose("ack", "ackother", "queued", "queuedlong", "late", "queuedother", "queuednodelay", "nack", "nackfull", "nackoption", "timeout", "cancel", "both")
            hist.append(a)
            if a == "ack":
                w.call(ad, "onPacket", packet(seq, 0x40))
                state = "acked"
            elif a == "ackother":
                w.call(ad, "onPacket", packet((seq + 1) & 0xFF, 0x40))
            elif a == "queued":
                w.call(ad, "onPacket", queued(w, seq, 30))
                want = 30
            elif a == "queuedlong":
                w.call(ad, "onPacket", queued(w, seq, 4000000))
                want = 4000000
            elif a == "late":
                w.call(ad, "onPacket", queued(w, seq, -5))
                want = 60
            elif a == "queuednodelay":
                w.call(ad, "onPacket", queued(w, seq, None))
                want = 0
            elif a == "queuedother":
                w.call(ad, "onPacket", queued(w, (seq + 1) & 0xFF, 30))
            elif a.startswith("nack"):
                w.call(ad, "onPacket", packet(seq, {"nack": 0x20, "nackfull": 0x28, "nackoption": 0x24}[a]))
            elif a == "both":
                w.call(ad, "onPacket", queued(w, seq, 30))
                w.call(ad, "onPacket", packet(seq, 0x40))
                state = "acked"
            elif a == "timeout":
                tos = w.sched.timeouts()
                if not tos:
                    problems.append("waits without any timeout")
                    break
                w.sched.fire(tos[-1])
                state = "timeout"
            elif a == "cancel":
                t.cancel()
                state = "cancelled"
            w.run()
            if state != "pending":
                break
            if t.done():
                break
        res = w.result(t)
        got = {"pending": "pending", "cancelled": "cancelled"}.get(res[0]) or (w.canon(res[1]) if res[0] == "result" else res)
        # afterwards nothing is pending under this number any more
        after = None
        if t.done():
            r, e = w.attempt(ad, "ackReceived", ack(w, seq))
            again = w.spawn(ad, "waitForAck", seq, timeout=3)
            free = not again.done()
            w.attempt(ad, "ackReceived", ack(w, seq))
            w.run()
            after = (e, r is None or w.true(r), free, w.result(again)[0])
        return hist, state, got, problems, after, res[0] == "result"

    for p in ctx.scen("one send under every environment history", run, scfg()):
        where = "sending a command and waiting for its acknowledgement"
        if not p.returned:
            ctx.fail("ack", where, "receiving an acknowledgement raises %s" % p.exc_name(), p)
            continue
        hist, state, got, problems, after, isres = p.value
        want = {"acked": 1, "timeout": 0, "pending": "pending", "cancelled": "cancelled"}[state]
        ctx.require(got == want, "ack", where, "after %s the send is %s" % (", ".join(hist), got if not isres or got not in (0, 1) else bool(got)), p, key="outcome")
        for m in problems:
            ctx.fail("wait", where, "after %s it %s" % (", ".join(hist[:-1]), m), p, key="wait")
        if not problems:
            ctx.ok("wait")
        if after is not None:
            e, r, free, again = after
            ctx.require(e is None and not r, "leftover", where, "after %s a second acknowledgement is still taken for a pending send (%s)" % (", ".join(hist), e), p, key="leftover")
            ctx.require(free and again == "result", "leftover", where, "after %s the number cannot be waited for again (%s)" % (", ".join(hist), again), p, key="leftover")

    # two sends pending at once: an acknowledgement completes only its own
    def two(ip):
        w = World(ip)
        ad = zipconn(w)
        t1 = w.spawn(ad, "send", w.msg("Basic.Get"))
        t2 = w.spawn(ad, "send", w.msg("Basic.Get"))
        s1, s2 = [f[1][4] for f in frames(w)]
        order = w.choose((0, 1), (1, 0))
        out = []
        for i in order:
            w.call(ad, "onPacket", packet((s1, s2)[i], 0x40))
            w.run()
            out.append((i, t1.done(), t2.done()))
        return s1 != s2, out, w.result(t1)[0], w.result(t2)[0]

    for p in ctx.scen("two sends", two, scfg()):
        where = "two sends pending at the same time"
        if not ctx.require(p.returned, "two", where, "raises %s" % p.exc_name(), p):
            continue
        diff, out, r1, r2 = p.value
        i, d1, d2 = out[0]
        ctx.require(diff and (d1, d2) == ((True, False) if i == 0 else (False, True)) and r1 == r2 == "result", "two", where, "the acknowledgement of one completes %s" % ("both" if d1 and d2 else "another"), p)

    # nothing pending: acknowledgements of any kind are ignored
    def none(ip):
        w = World(ip)
        ad = zipconn(w)
        pk = w.choose(packet(9, 0x40), queued(w, 9, 3), queued(w, 9, None))
        r, e = w.attempt(ad, "onPacket", pk)
        r2, e2 = w.attempt(ad, "ackReceived", ack(w, 9))
        t = w.spawn(ad, "waitForAck", 9)
        return e, e2, r2, t.done()

    for p in ctx.scen("acknowledgement for nothing", none, scfg()):
        where = "acknowledgement nobody waits for"
        ok = p.returned and p.value[0] is None and p.value[1] is None and not p.value[3]
        ctx.require(ok, "stray", where, "has an effect (%s)" % (p.value if p.returned else p.exc_name(),), p)
    ctx.floor("ack", 100)


# ------------------------------------------------------------------ sequence numbers
@check("T02")
def t02(ctx):
    """Sequence numbers fit their byte, and a number is not given to a new send while an older send still waits for it."""
    ip = ctx.ip
    rounds = 600 if ctx.tier == "thorough" else 270

    def run(ip):
        w = World(ip)
        ad = zipconn(w)
        pending = w.choose(1, 2, 5)
        first = [w.spawn(ad, "send", w.msg("Basic.Get")) for _ in range(pending)]
        parked = [f[1][4] for f in frames(w)]
        for s in parked:
            w.call(ad, "onPacket", queued(w, s, 3600))
        w.run()
        bad = []
        mark = len(w.sent)
        for i in range(rounds):
            t = w.spawn(ad, "send", w.msg("Basic.Get"))
            if len(w.sent) != mark + 1:
                bad.append("send %d put %d packets on the wire: %s" % (i, len(w.sent) - mark, w.result(t)))
                break
            seq = data_items(ip, w.sent[-1][1])[4]
            mark += 1
            if seq in parked:
                bad.append("send %d reuses number %s of a waiting send" % (i, seq))
            if not (isinstance(seq, int) and 0 <= seq <= 255):
                bad.append("send %d uses the number %s" % (i, seq))
            w.call(ad, "ackReceived", ack(w, seq))
            w.run()
            r = w.result(t)
            if r[0] != "result" or not w.true(r[1]):
                bad.append("send %d is acknowledged but ends as %s" % (i, r))
            if any(x.done() for x in first):
                bad.append("the acknowledgement of send %d completes a parked one" % i)
            if bad:
                break
        for s, t in zip(parked, first):
            w.call(ad, "ackReceived", ack(w, s))
            w.run()
            if w.result(t)[0] != "result":
                bad.append("a parked send ends as %s" % (w.result(t),))
        return bad, len(set(parked)) == len(parked)

    for p in ctx.scen("many sends while some are parked", run, scfg(max_steps=80000000)):
        where = "sequence numbers of sent packets"
        if ctx.require(p.returned, "seq", where, "sending raises %s" % p.exc_name(), p):
            bad, distinct = p.value
            ctx.require(not bad and distinct, "seq", where, "; ".join(bad) or "two pending sends share a number", p)
            ctx.ok("seq", rounds)


# ------------------------------------------------------------------ reception
def tails():
    """What may follow the fixed part of a Z/IP packet."""
    rep = [K(0x20), K(3), B(9)]
    ext = [K(x) for x in (5, 0x84, 2, 0, 0)]
    return [
        ("nothing", []), ("a command", rep), ("a truncated command", [K(0x20)]), ("a command without its value", [K(0x20), K(3)]), ("an unknown command", [K(0x7B), K(0x11), B(9)]),
        ("an extension and a command", ext + rep), ("an extension only", ext), ("a broken extension", [K(9), K(0x84), K(7), B(9)]), ("a wait announcement", [K(6), K(1), K(3), B(9), B(10), B(11)]),
        ("any byte", [B(9)]), ("any two bytes", [B(9), B(10)]), ("a nested Z/IP packet", [K(0x23), K(2), K(0), K(0x40), K(1), K(0), K(0)] + rep),
        ("a node list", [K(0x52), K(2), K(1), K(0), K(1), K(0x21)] + [K(0)] * 29), ("half a node list", [K(0x52), K(2), K(1), K(0), K(1), K(0x21)]), ("a frame with no command but its class", [K(0x52)]),
    ]


PAYLOADS = [
    ("an association report", (0x85, 3, 1, 5, 0, 4, 0, 5, 1)), ("an association report with half an end point", (0x85, 3, 1, 5, 0, 4, 0, 5)), ("a multi channel association report", (0x8E, 3, 1, 5, 0, 4, 0, 5, 1)),
    ("a multi channel association report with half an end point", (0x8E, 3, 1, 5, 0, 4, 0, 5)), ("a group name", (0x59, 2, 1, 3, 65, 66, 67)), ("a group name that is no text", (0x59, 2, 1, 2, 0xFF, 0xFE)),
    ("group commands", (0x59, 6, 1, 4, 0x20, 1, 0x25, 3)), ("half a group command", (0x59, 6, 1, 3, 0x20, 1, 0x25)), ("group info", (0x59, 4, 1, 1, 0, 0, 1, 0, 0, 0)), ("a bulk report", (0x70, 9, 0, 1, 2, 0, 1, 5, 6)),
    ("a parameter", (0x70, 6, 1, 2, 0, 5)), ("a parameter without size", (0x70, 6, 1, 0)), ("a parameter of size 3", (0x70, 6, 1, 3, 1, 2, 3)), ("a meter value", (0x32, 2, 0x21, 0x34, 0, 0, 0, 1, 0, 0)),
    ("a sensor value", (0x31, 5, 1, 0x22, 0, 1)), ("a sensor value of no bytes", (0x31, 5, 1, 0)), ("a sensor value of 7 bytes", (0x31, 5, 1, 7, 1, 2, 3, 4, 5, 6, 7)), ("sensors", (0x31, 2, 3)), ("a battery report", (0x80, 3, 255)),
    ("node info", (0x52, 4, 1, 0, 0, 0, 0, 4, 0x10, 1, 0x20, 0x25)), ("an added node", (0x34, 2, 1, 6, 0, 4, 6, 0xD3, 0x9C, 4, 0x10, 1, 0x20, 0, 0)), ("an added node with too long a list", (0x34, 2, 1, 6, 0, 4, 99, 0xD3)),
    ("a supervised command", (0x6C, 1, 1, 3, 0x20, 1, 5)), ("an empty supervised command", (0x6C, 1, 1, 0)), ("a supervised unknown command", (0x6C, 1, 1, 2, 0x99, 9)), ("a supervised command twice", (0x6C, 1, 1, 7, 0x6C, 1, 2, 3, 0x20, 1, 5)),
    ("a mailbox message", (0x69, 3, 0, 0) + (0,) * 16 + (1, 2)), ("an indicator report", (0x87, 3, 5, 1, 1, 2, 3)), ("a version report", (0x86, 0x12, 6, 4, 5, 1, 2, 3, 1, 9, 9)), ("product information", (0x72, 5, 0, 1, 0, 2, 0, 3)),
    ("a provisioning entry", (0x78, 6, 1, 16) + (0,) * 16), ("an indicator value", (0x87, 3, 255)),
]


def datagrams(ctx):
    """(name, items) of datagrams for reception; the first flag byte is fully unknown, bytes that count something take their boundary values."""
    out = [("%d bytes of a Z/IP packet" % n, [K(0x23), K(2), B(2), K(0xC0), B(4), B(5), B(6)][:n]) for n in range(8)]
    for f1 in (0, 0x40, 0x80, 0xC0):
        for n, t in tails():
            if f1 & 0x80 and t and not isinstance(t[0], K):
                var = [[K(x)] + t[1:] for x in (0, 1, 2, 255)]
            else:
                var = [t]
            for t in var:
                out.append(("a Z/IP packet with flags %02x and %s" % (f1, n), [K(0x23), K(2), B(2), K(f1), B(4), B(5), B(6)] + t))
    out += [("a keep alive", [K(0x23), K(3), B(2)]), ("a keep alive without flags", [K(0x23), K(3)])]
    out += [("an advertisement", [K(0x58), K(1), B(2), B(3)] + [B(4 + i) for i in range(20)]), ("a short advertisement", [K(0x58), K(1), B(2)]), ("an unknown frame", [K(0x99), K(1), B(2)])]
    # what each list-like command carries, whole and cut anywhere in its tail
    for n, cmd in PAYLOADS:
        cuts = range(2, len(cmd) + 1) if ctx.tier == "thorough" else sorted({2, 3, 4, len(cmd) - 1, len(cmd)} & set(range(2, len(cmd) + 1)))
        for c in cuts:
            out.append(("a Z/IP packet with %s cut to %d" % (n, c) if c < len(cmd) else "a Z/IP packet with %s" % n, [K(0x23), K(2), K(0), K(0x40), B(4), K(0), K(0)] + [K(x) for x in cmd[:c]]))
    hids = layout()
    if ctx.tier != "thorough":
        hids = hids[::4]
    for hid, _c, _f in hids:
        for x in (0, 1, 255):
            out.append(("a bare command %04x" % hid, [K(hid >> 8), K(hid & 255), K(x)]))
    return out


@check("T03")
def t03(ctx):
    """No datagram makes reception raise."""
    ip = ctx.ip
    cases = datagrams(ctx)

    for who in ("connection", "gateway"):
        def run(ip, who=who):
            w = World(ip)
            n, items = cases[ip.choose(len(cases), "datagram")]
            if who == "connection":
                ad = zipconn(w)
                pend = w.choose("idle", "sending")
                if pend == "sending":
                    w.spawn(ad, "send", w.msg("Basic.Get"))
                r, e = w.attempt(ad, "onPacket", BS(items))
                pe = w.guard(w.run)[1]
                after = w.spawn(ad, "send", w.msg("Basic.Get"))
                return n, pend, e or pe, not after.done()
            gw = gateway(w, {4: 0x31})
            pend = w.choose("known", "unknown")
            r, e = w.attempt(gw, "onUnsolicitedMessage", BS(items), T((K(addrtext(0x31 if pend == "known" else 0x99)), K(4123))))
            pe = w.guard(w.run)[1]
            return n, pend, e or pe, True

        entry = "a datagram on the gateway's unsolicited port" if who == "gateway" else "a datagram on a connection"
        for p in ctx.scen(entry, run, scfg(max_paths=400000)):
            if not ctx.require(p.returned, "receive", entry, "the analysis entry raises %s" % p.exc_name(), p):
                continue
            n, pend, e, alive = p.value
            ctx.require(e is None, "receive", entry, "%s (%s) raises %s out of the receive callback" % (n, pend, e), p, key="%s %s" % (entry, n.split(" (")[0]))
            ctx.require(alive, "alive", entry, "after %s a new send ends at once" % n, p)
    ctx.floor("receive", 150)


def addr(host):
    return [K(x) for x in (0x20, 1, 0xD, 0xB8) + (0,) * 10 + (host >> 8, host & 255)]


def addrtext(host):
    return "2001:db8::%x" % host


def advert(node, host):
    return BS([K(0x58), K(1), K(0), K(node)] + addr(host) + [K(1), K(2), K(3), K(4)])


def nodelist(*nodes):
    """NodeListReport of the given nodes."""
    mask = [0] * 29
    for n in nodes:
        mask[(n - 1) // 8] |= 1 << (n - 1) % 8
    return [K(x) for x in [0x52, 2, 1, 0, 1] + mask]


def unsolicited(cmd, seq=5, flags=0, sep=0, dep=0, f1=0x40):
    return BS([K(x) if isinstance(x, int) else x for x in [0x23, 2, flags, f1, seq, sep, dep] + list(cmd)])


def frame(w, i):
    return data_items(w.ip, w.sent[i][1])


def gateway(w, nodes=()):
    """A gateway that learnt the addresses of some nodes {id: host} from a node list and advertisements."""
    gw = zipconn(w, "pyzwave.zipgateway.ZIPGateway")
    nodes = dict(nodes)
    if nodes:
        w.call(gw, "onUnsolicitedMessage", unsolicited(nodelist(*nodes)), T((K("2001:db8::ffff"), K(4123))))
        w.run()
        answer(w, gw, nodes)
        del w.sent[:]
    return gw


def answer(w, gw, nodes, limit=20):
    """Answer address solicitations until there are no more."""
    done = 0
    for _ in range(limit):
        asked = [f for f in (frame(w, i) for i in range(len(w.sent))) if f[:2] == [0x58, 4]]
        if len(asked) <= done:
            break
        node = asked[done][3]
        done += 1
        if node in nodes:
            w.call(gw, "onPacket", advert(node, nodes[node]))
        w.run()
    return done


@check("T04")
def t04(ctx):
    """Acknowledgements are consumed, plain commands delivered once, everything else neither."""
    flags = ["ackRequest", "ackResponse", "nackResponse", "nackWaiting", "nackQueueFull", "nackOptionError"]
    depth = range(64) if ctx.tier == "thorough" else [0, 1, 2, 3, 4, 6, 8, 16, 20, 32, 36, 40, 52, 60]

    def run(ip):
        w = World(ip)
        got = []
        ad = zipconn(w)
        w.call(ad, "addListener", w.listener(onMessageReceived=lambda s, m: got.append((s == ad, m))))
        kind = w.choose("zip", "zip", "other")
        if kind == "other":
            k = w.choose("advert", "keepresp", "keepreq", "unknown", "bare", "garbage")
            pk = {"advert": advert(6, 0x66), "keepresp": BS([K(0x23), K(3), K(0x40)]), "keepreq": BS([K(0x23), K(3), K(0x80)]), "unknown": BS([K(0x99), K(1), B(2)]),
                  "bare": BS([K(0x20), K(3), B(9)]), "garbage": BS([K(0x23)])}[k]
            t = w.spawn(ad, "send", w.msg("Basic.Get"))
            r, e = w.attempt(ad, "onPacket", pk)
            w.run()
            return k, None, None, t.done(), len(got), [w.canon(w.get(m, "nodeId")) if k == "advert" else None for _s, m in got], e, e is None and w.true(r)
        n = depth[ip.choose(len(depth), "flags")]
        shape = w.choose("no command", "command", "extension and command", "unknown command")
        t = w.spawn(ad, "send", w.msg("Basic.Get"))
        seq = frame(w, 0)[4] if w.choose("own", "other") == "own" else 77
        f0 = sum(128 >> i for i in range(6) if n >> i & 1)
        tail = {"no command": [], "command": [K(0x20), K(3), B(9)], "extension and command": [K(5), K(0x84), K(2), K(0), K(0), K(0x20), K(3), B(9)], "unknown command": [K(0x7B), K(0x55), B(9)]}[shape]
        f1 = BV([("f", i) for i in range(6)] + [int(shape != "no command"), int(shape.startswith("ext"))])
        r, e = w.attempt(ad, "onPacket", BS([K(0x23), K(2), K(f0), f1, K(seq), B(5), B(6)] + tail))
        w.run()
        out = []
        for s, m in got:
            c = w.get(m, "command") if w.canon(w.call(m, "hid")) == 0x2302 else m
            v = w.canon(w.get(c, "value")) if shape not in ("unknown command", "no command") else None
            out.append((s, v, w.canon(w.call(c, "hid"))))
        return "zip", [flags[i] for i in range(6) if n >> i & 1], (shape, seq != 77), (t.done(), w.result(t)[0] == "result" and w.canon(w.result(t)[1])), len(got), out, e, e is None and w.true(r)

    for p in ctx.scen("a packet with every combination of flags", run, scfg(max_paths=200000)):
        where = "classification of a received packet"
        if not ctx.require(p.returned, "classify", where, "raises %s" % p.exc_name(), p):
            continue
        kind, fl, sh, done, n, out, e, r = p.value
        ctx.require(e is None, "classify", where, "%s %s raises %s" % (kind, fl, e), p)
        if kind == "advert":
            ctx.require(n == 1 and out == [6] and r and not done, "classify", where, "a node advertisement is delivered %d times" % n, p, key="advert")
        elif kind != "zip":
            ctx.require(n == 0 and not done, "classify", where, "%s is delivered or completes a send" % kind, p, key=kind)
            ctx.require(r == (kind == "keepresp"), "verdict", where, "%s is reported as %s" % (kind, "handled" if r else "not handled"), p, key="verdict " + kind)
        else:
            shape, own = sh
            name = "a packet with [%s], %s, %s" % (", ".join(fl), shape, "of the pending send" if own else "of another")
            if "ackResponse" in fl:
                if shape == "no command":
                    ctx.require(done == ((True, 1) if own else (False, False)) and n == 0, "classify", where, "%s completes the send %s and is delivered %d times" % (name, done, n), p, key="ack")
            elif "nackResponse" in fl:
                ctx.require(done[1] != 1, "classify", where, "%s completes the send successfully" % name, p, key="nack")
                if shape == "no command":
                    ctx.require(n == 0, "classify", where, "%s is delivered" % name, p, key="nack delivery")
            elif "ackRequest" in fl:
                ctx.require(not done[0], "classify", where, "%s completes the send" % name, p, key="request")
            else:
                want = 0 if shape == "no command" else 1
                ctx.require(n == want and not done[0], "classify", where, "%s is delivered %d times and completes the send: %s" % (name, n, done[0]), p, key="delivery")
                if want and n == 1:
                    ok = out[0][0] and (out[0][2] == 0x7B55 if shape == "unknown command" else out[0][2] == 0x2003 and out[0][1] == canon(None, B(9)))
                    ctx.require(ok, "content", where, "%s is delivered as %s" % (name, out[0][1:]), p)
                if want:
                    ctx.require(r, "verdict", where, "%s is reported as not handled" % name, p)
    def series(ip):
        """Packets that repeat a number or a content are packets of their own."""
        w = World(ip)
        got = []
        ad = zipconn(w, w.choose("pyzwave.zipconnection.ZIPConnection", "pyzwave.zipgateway.ZIPGateway"))
        w.call(ad, "addListener", w.listener(onMessageReceived=lambda s, m: got.append(w.canon(w.get(w.get(m, "command"), "value")))))
        seqs = w.choose((9, 9, 9), (0, 0, 1), (255, 0, 255), (1, 2, 1), (3, 2, 1))
        vals = w.choose((7, 7, 7), (0, 7, 0), (1, 2, 3))
        between = w.choose(None, "keep alive", "send")
        res = []
        for q, v in zip(seqs, vals):
            r, e = w.attempt(ad, "onPacket", BS([K(0x23), K(2), K(0), K(0x50), K(q), K(0), K(0), K(0x20), K(3), K(v)]))
            w.run()
            res.append(e or bool(w.true(r)))
            if between == "keep alive":
                w.attempt(ad, "onPacket", BS([K(0x23), K(3), K(0x40)]))
            elif between:
                w.spawn(ad, "send", w.msg("Basic.Get"))
            w.run()
        return ip.o(ad).cls.qualname.split(".")[-1], seqs, vals, between, res, got

    for p in ctx.scen("packets one after the other", series, scfg()):
        where = "classification of a received packet"
        if not ctx.require(p.returned, "classify", where, "several: raises %s" % p.exc_name(), p):
            continue
        who, seqs, vals, between, res, got = p.value
        ctx.require(tuple(got) == vals and res == [True] * 3, "classify", where, "%s: packets with the numbers %s and values %s%s are delivered as %s (%s)" % (who, seqs, vals, between and ", %s in between" % between or "", got, res), p, key="series")
    ctx.floor("classify", 100)


@check("T05")
def t05(ctx):
    """A connected connection always has exactly one keep alive due within 25 s of the last transmission."""
    depth = 5 if ctx.tier == "thorough" else 4

    def run(ip):
        w = World(ip)
        ad = zipconn(w)
        before = len(w.sched.armed())
        t = w.spawn(ad, "connect")
        w.run()
        hist, bad = ["connect"], []
        if not t.done() or w.result(t)[0] != "result":
            bad.append("connecting ends as %s" % (w.result(t),))
        if before:
            bad.append("a keep alive is due before connecting")
        for _ in range(depth):
            arm = w.sched.armed()
            if len(arm) != 1:
                bad.append("after [%s] %d keep alive timers are armed" % (", ".join(hist), len(arm)))
                break
            if const(arm[0].delay) != 25:
                bad.append("after [%s] the keep alive is due in %s s" % (", ".join(hist), const(arm[0].delay)))
                break
            a = w.choose("send", "fire", "receive", "reset")
            hist.append(a)
            old = arm[0]
            n = len(w.sent)
            if a == "send":
                w.start(ad, "send", w.msg("Basic.Get"))
                w.run()
            elif a == "fire":
                old.fire()
                w.run()
                if [frame(w, i) for i in range(n, len(w.sent))] != [[0x23, 3, 0x80]]:
                    bad.append("the keep alive timer sends %s" % [frame(w, i) for i in range(n, len(w.sent))])
            elif a == "receive":
                w.call(ad, "onPacket", packet(3, 0, 0x50, [0x20, 2]))
                w.run()
            elif a == "reset":
                w.call(ad, "resetKeepAlive")
            if a in ("send", "fire", "reset") and old in w.sched.armed():
                bad.append("after [%s] the keep alive is still due at its old time" % ", ".join(hist))
        return bad

    for p in ctx.scen("keep alive under every history", run, scfg()):
        where = "keep alive of a connection"
        if ctx.require(p.returned, "keepalive", where, "raises %s" % p.exc_name(), p):
            ctx.require(not p.value, "keepalive", where, "; ".join(p.value), p)
    ctx.floor("keepalive", 50)


@check("T06")
def t06(ctx):
    """A packet from a node's address is acknowledged when asked for and delivered once as that node's; others have no effect."""

    def run(ip):
        w = World(ip)
        got = []
        gw = gateway(w, {4: 0x31, 7: 0x37, 9: 0x39})
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, *a: got.append((s == gw,) + a)))
        host = w.choose(0x31, 0x37, 0x39, 0x40)
        ask = w.choose(True, False)
        shape = w.choose("command", "extension", "unknown", "none")
        f0 = BV([("r", 0), ("r", 1)] + [("n", i) for i in range(4)] + [0, int(ask)])
        f1 = BV([("f", i) for i in range(4)] + [1, ("more", 0), int(shape != "none"), int(shape == "extension")])
        tail = {"command": [K(0x25), K(3), B(9)], "extension": [K(5), K(0x84), K(2), K(0), K(0), K(0x25), K(3), B(9)], "unknown": [K(0x7B), K(0x55), B(9)], "none": []}[shape]
        sep, dep = BV([("s", i) for i in range(7)] + [0]), BV([("d", i) for i in range(7)] + [0])
        ad = T((K(addrtext(host)), K(41230), K(0), K(0)))
        r, e = w.attempt(gw, "onUnsolicitedMessage", BS([K(0x23), K(2), f0, f1, B(4), sep, dep] + tail), ad)
        w.run()
        back = [(data_items(ip, a[1]), a[2] == ad) for a in w.sentto]
        out = []
        for g in got:
            s, node, ep, m, ext = g
            out.append((s, w.canon(node), w.canon(ep), w.canon(w.call(m, "hid")), w.canon(w.get(m, "value")) if shape in ("command", "extension") else None,
                        len(w.canon(ip.call(BC(list), [ext], {}))) - 1 if isinstance(ext, R) else None))
        return host, ask, shape, e, back, out, len(w.sent), [canon(ip, x) for x in (B(4), sep, dep, B(9))]

    ids = {0x31: 4, 0x37: 7, 0x39: 9}
    for p in ctx.scen("an unsolicited packet", run, scfg()):
        where = "an unsolicited packet"
        if not ctx.require(p.returned, "unsolicited", where, "raises %s" % p.exc_name(), p):
            continue
        host, ask, shape, e, back, out, n, (seq, sep, dep, val) = p.value
        name = "from node %s, %s, %s" % (ids.get(host), shape, "ack requested" if ask else "no ack requested")
        ctx.require(e is None and n == 0, "unsolicited", where, "%s raises %s or sends %d packets elsewhere" % (name, e, n), p)
        known = host in ids
        if known and ask:
            ok = len(back) == 1 and back[0][1] and back[0][0][:3] == [0x23, 2, 0x40] and back[0][0][4:] == [seq, dep, sep] and back[0][0][3] in (0x10, 0)
            ctx.require(ok, "ack", where, "%s is acknowledged with %s" % (name, [b[0] for b in back]), p)
        else:
            ctx.require(back == [], "ack", where, "%s is acknowledged" % name, p)
        hid = 0x7B55 if shape == "unknown" else 0x2503
        want = [(True, ids[host], sep, hid, None if shape == "unknown" else val)] if known and shape != "none" else []
        ctx.require([o[:5] for o in out] == want, "delivery", where, "%s is delivered as %s instead of %s" % (name, [o[:5] for o in out], want), p)
        if want and out:
            ctx.require(out[0][5] == (1 if shape == "extension" else 0), "extension", where, "%s is delivered with %s header extension options" % (name, out[0][5]), p)
    def series(ip):
        w = World(ip)
        got = []
        gw = gateway(w, {4: 0x31, 7: 0x37})
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, n, ep, m, fl: got.append((w.canon(n), w.canon(ep), w.canon(w.get(m, "value"))))))
        pk = w.choose(((0x31, 5, 0, 1),) * 3, ((0x31, 5, 0, 1), (0x37, 5, 0, 1), (0x31, 5, 0, 1)), ((0x31, 5, 0, 0), (0x31, 5, 2, 0), (0x31, 6, 0, 0)), ((0x31, 9, 0, 1), (0x31, 8, 0, 0), (0x31, 7, 0, 1)))
        ask = w.choose(True, False)
        errs = []
        for h, q, e, v in pk:
            _, x = w.attempt(gw, "onUnsolicitedMessage", unsolicited([0x20, 3, v], q, 0x80 if ask else 0, e, 0), T((K(addrtext(h)), K(41230), K(0), K(0))))
            w.run()
            errs += [x] * bool(x)
        return pk, ask, errs, got, [(data_items(ip, a[1])[4], w.canon(a[2])[1]) for a in w.sentto]

    for p in ctx.scen("unsolicited packets one after the other", series, scfg()):
        where = "an unsolicited packet"
        if not ctx.require(p.returned, "unsolicited", where, "several: raises %s" % p.exc_name(), p):
            continue
        pk, ask, errs, got, back = p.value
        want = [(ids[h], e, v) for h, q, e, v in pk]
        ctx.require(not errs and got == want, "delivery", where, "several (%s) are delivered as %s %s" % (want, got, errs), p, key="series")
        ctx.require(back == ([(q, addrtext(h)) for h, q, e, v in pk] if ask else []), "ack", where, "several (%s) are acknowledged as %s" % ([x[:2] for x in pk], back), p, key="series")
    ctx.floor("delivery", 30)


# ------------------------------------------------------------------ sockets
@check("T07")
def t07(ctx):
    """The DTLS thread touches the event loop only through its thread safe entry, and keeps the order of packets."""
    D = "pyzwave.dtlsconnection.DTLSConnection"
    depth = 5 if ctx.tier == "thorough" else 4

    def run(ip):
        w = World(ip)
        got, log = [], []
        con = w.new(D)
        server = w.choose(False, True)
        handler = w.choose(True, False)
        t = None
        if server:
            w.call(con, "listen", K(b"psk"))
        else:
            t = w.spawn(con, "connect", K("::1"), K(b"psk"))
        if handler:
            w.call(con, "onMessage", w.fn(lambda a, k: (got.append([w.canon(x) for x in a]), NONE)[1]))
        hist = []

        def read(*a):
            if got or (t is not None and t.done()):
                log.append("reading thread ran the loop's code")
            k = len(hist)
            o = ["packet", "error", "ssl", "stop", "attr"]
            if k >= depth:
                o = ["error"]
            x = o[ip.choose(len(o), "socket")]
            hist.append(x)
            if x == "error":
                ip.throw(OSError)
            if x == "attr":
                ip.throw(AttributeError)
            if x == "ssl":
                ip.throw(ssl.SSLError)
            if x == "stop":
                w.call(con, "stop")
            return T((K(bytes([k])), T((K("::9"), K(1))))) if server else K(bytes([k]))
        sock = w.listener(recv=lambda *a: read(*a), recvfrom=lambda *a: read(*a))
        w.sock = sock
        w.sched.foreign = []
        r, e = w.attempt(con, "run")
        log += w.sched.foreign
        w.sched.foreign = None
        early = len(got) or (t is not None and t.done())
        w.run()
        return server, handler, hist, e, early, log, got, t is None or w.result(t)[0]

    def sock(ip, f, args, kw):
        return ip.world.sock

    for p in ctx.scen("the reading thread under every socket behaviour", run, scfg(cuts={D + ".createDtlsPskSock": sock})):
        where = "the DTLS reading thread"
        if not ctx.require(p.returned, "thread", where, "raises %s" % p.exc_name(), p):
            continue
        server, handler, hist, e, early, log, got, con = p.value
        pk = []
        for i, x in enumerate(hist):
            if x in ("packet", "stop"):
                pk.append([("bytes", i)] + ([("list", "::9", 1)] if server else []))
        ctx.require(e is None, "thread", where, "after [%s] the thread dies of %s" % (", ".join(hist), e), p)
        ctx.require(not early and not log, "loop", where, "the thread uses the loop itself: %s after [%s]" % (", ".join(sorted(set(log))) or "runs its callbacks", ", ".join(hist)), p)
        ctx.require(got == (pk if handler else []), "order", where, "packets [%s] are handed over as %s" % (", ".join(hist), got), p)
        ctx.require(server or con == "result", "connected", where, "connecting is reported as %s" % (con,), p)
        end = [i for i, x in enumerate(hist) if x in ("error", "ssl", "stop")]
        ctx.require(end and end[0] == len(hist) - 1, "end", where, "the thread goes on reading after [%s]" % ", ".join(hist[: end[0] + 1] if end else hist[:8]), p)
    ctx.floor("order", 30)


@check("T08")
def t08(ctx):
    """The PSK callbacks never write beyond the buffers the TLS library passes them."""
    D = "pyzwave.dtlsconnection.DTLSConnection"
    sizes = [0, 1, 15, 16, 17, 32, 64]

    def run(ip):
        w = World(ip)
        con = w.new(D)
        psk = bytes(range(1, 1 + sizes[ip.choose(len(sizes), "psk")]))
        if psk and w.choose(True, False):
            psk = (b"\0" + psk)[:-2] + b"\0" if len(psk) > 1 else b"\0"  # keys are binary
        w.sched.spawn(w.call(con, "connect", K("::1"), K(psk)))
        w.run()
        side = w.choose("client", "server")
        mp, mi = sizes[ip.choose(len(sizes), "psk buffer")], sizes[ip.choose(len(sizes), "identity buffer")]
        ssl, ident, cpsk = S(("buf", "ssl"), "obj"), S(("buf", "identity"), "obj"), S(("buf", "psk"), "obj")
        mark = len(ip.events)
        if side == "client":
            r, e = w.attempt(con, "clientPskCb", ssl, NONE, ident, K(mi), cpsk, K(mp))
        else:
            r, e = w.attempt(con, "serverPskCb", ssl, ident, cpsk, K(mp))
        writes = []
        for ev in ip.events[mark:]:
            if ev.kind == "ext" and str(ev.name).endswith("memmove"):
                d, src, n = ev.args[:3]
                writes.append(("psk" if d == cpsk else "identity" if d == ident else "?", w.canon(src), w.canon(n)))
        return len(psk), side, mp, mi, e, writes, None if e else w.canon(r), list(psk)

    for p in ctx.scen("the PSK callbacks", run, scfg()):
        where = "PSK callback"
        if not ctx.require(p.returned, "psk", where, "raises %s" % p.exc_name(), p):
            continue
        n, side, mp, mi, e, writes, r, psk = p.value
        name = "%s callback, %d byte key into %d, identity into %d" % (side, n, mp, mi)
        ctx.require(e is None, "psk", where, "%s raises %s" % (name, e), p)
        for dst, src, cnt in writes:
            ctx.require(dst in ("psk", "identity") and isinstance(cnt, int) and cnt <= (mp if dst == "psk" else mi) and cnt <= len(src) - 1, "bounds", where, "%s writes %s bytes to %s" % (name, cnt, dst), p)
        if r:
            ok = [w_ for w_ in writes if w_[0] == "psk"] == [("psk", ("bytes",) + tuple(psk), n)]
            ctx.require(r == n and ok, "key", where, "%s returns %s after writing %s" % (name, r, writes), p)
            if side == "client":
                iden = [bytes(w_[1][1:])[:w_[2]] for w_ in writes if w_[0] == "identity"]
                ctx.require(len(iden) == 1 and iden[0].endswith(b"\0") and iden[0].count(b"\0") == 1 and len(iden[0]) > 1, "identity", where, "%s gives the identity %s" % (name, iden), p)
        fits = n <= mp and (side == "server" or mi >= 16)
        ctx.require(bool(r) == (fits and n > 0), "key", where, "%s %s" % (name, "gives no key" if not r else "gives a key"), p)
    ctx.floor("key", 50)


@check("T10")
def t10(ctx):
    """A DTLS connection is set up with the pre-shared key, to the peer that was asked for, and reported only then."""
    D = "pyzwave.dtlsconnection.DTLSConnection"
    PSKB = bytes(range(1, 17))

    def run(ip):
        w = World(ip)
        log = []
        server = w.choose(False, True)
        fails = w.choose(None, "socket", "connect" if not server else "bind", "handshake" if not server else "listen")
        how = w.choose("in time", "late")

        def rec(n):
            def f(*a):
                log.append((n, [w.canon(x) for x in a]))
                if n == fails:
                    ip.throw(OSError)
                return NONE
            return f

        def quiet(*a):
            ip.throw(OSError)
        native = S(("native", "ssl"), "obj")

        def wrap(n):
            def f(ip_, a, k):
                log.append((n, {x: w.canon(y) for x, y in k.items()}))
                if fails == "socket":
                    ip.throw(OSError)
                sk = w.listener(recv=quiet, recvfrom=quiet, setblocking=lambda *x: NONE, settimeout=lambda *x: NONE, **{x: rec(x) for x in ("connect", "bind", "listen", "do_handshake", "accept", "close", "send")})
                for holder, attr, val in ((sk, "_sslobj", w.listener()),):
                    ip.w(holder).attrs[attr] = val
                    inner = w.listener()
                    ip.w(val).attrs["_ssl"] = inner
                    ip.w(inner).attrs["value"] = native
                return sk
            return f

        def install(n):
            def f(ip_, a, k):
                log.append((n, a[0] == native, a[1] if len(a) > 1 else None))
                return NONE
            return f
        if fails == "handshake":
            fails = "do_handshake"
        ip.cfg.ext = {
            "ssl.wrap_socket": wrap("client socket"), "dtls.wrap_client": wrap("client socket"), "dtls.wrap_server": wrap("server socket"),
            "dtls.openssl.SSL_set_psk_client_callback": install("client callback"), "dtls.openssl.SSL_set_psk_server_callback": install("server callback"),
        }
        con = w.new(D)
        other = w.new(D)
        addr = ("::1", "fd00::9")[ip.choose(2, "address")] if not server else None
        t = w.spawn(con, "connect", K(addr), K(PSKB)) if not server else None
        if server:
            w.call(con, "listen", K(PSKB))
        w.call(other, "listen", K(b"other"))
        w.run()
        started = [ev for ev in ip.events if ev.kind == "call" and ev.name == "start"]
        early = bool(log) or t is not None and t.done()
        if how == "late" and t is not None:
            for x in w.sched.timeouts():
                w.sched.fire(x)
            w.run()
            return server, fails, how, addr, early, len(started), w.result(t)[:1] + ((w.result(t)[1],) if w.result(t)[0] == "exception" else ()), None, None, None, None
        before = None if t is None else t.state
        _, e = w.attempt(con, "run")
        w.run()
        keys = []
        held = {}
        for x in ip.o(con).attrs.values():
            held[repr(x)] = 1
        out = []
        decl = [w.canon(ev.args[0]) for ev in ip.events if ev.kind == "ext" and ev.name == "dtls.openssl._make_function" and ev.args]
        for x in log:
            if len(x) == 3:
                if "SSL_set_psk_%s" % x[0].replace(" ", "_") not in decl:
                    keys.append(x[0])
                src = [ev for ev in ip.events if ev.kind == "call" and ev.name == "__call__" and ev.res == x[2]]
                ident, cpsk = S(("buf", "identity"), "obj"), S(("buf", "psk"), "obj")
                mark = len(ip.events)
                r = None
                if src:
                    a = [native, NONE, ident, K(64), cpsk, K(64)] if x[0] == "client callback" else [native, ident, cpsk, K(64)]
                    r, e2 = w.guard(lambda: ip.call(src[-1].args[0], a, {}))
                    r = e2 or w.canon(r)
                wr = [w.canon(ev.args[1]) for ev in ip.events[mark:] if ev.kind == "ext" and str(ev.name).endswith("memmove") and ev.args[0] == cpsk]
                out.append((x[0], x[1], r, wr, repr(x[2]) in held))
            else:
                out.append(x)
        res = None if t is None else w.result(t)[0]
        udp = [repr(ev.args[1] if len(ev.args) > 1 else ev.kw.get("type")) for ev in ip.events if ev.kind == "ext" and ev.name == "socket.socket"]
        fam = [repr(ev.args[0] if ev.args else ev.kw.get("family")) for ev in ip.events if ev.kind == "ext" and ev.name == "socket.socket"]
        return server, fails, how, addr, early, len(started), res, before, e, out, (keys, udp, fam)

    for p in ctx.scen("setting up DTLS connections", run, scfg()):
        where = "setting up a DTLS connection"
        if not ctx.require(p.returned, "setup", where, "raises %s" % p.exc_name(), p):
            continue
        server, fails, how, addr, early, started, res, before, e, log, more = p.value
        name = "a %s%s" % ("server" if server else "client of " + addr, " whose %s fails" % fails if fails else "")
        ctx.require(not early and started == 2, "thread", where, "%s: %s" % (name, "connects on the caller's thread" if early else "its thread is started %d times" % (started - 1)), p, key="thread")
        if how == "late" and not server:
            ctx.require(res == ("exception", "TimeoutError"), "reported", where, "%s that is never connected ends as %s" % (name, res), p, key="late")
            continue
        if not server:
            ctx.require(before == "pending", "reported", where, "%s is reported %s before it is connected" % (name, before), p, key="early")
            ctx.require(res == ("pending" if fails else "result"), "reported", where, "%s: connecting is reported as %s" % (name, res), p, key="end")
        ctx.require(not more[0], "setup", where, "%s: the %s is used without its declaration" % (name, more[0]), p, key="declared")
        ctx.require(all("SOCK_DGRAM" in x for x in more[1]), "setup", where, "%s uses a socket of type %s" % (name, more[1]), p, key="udp")
        kind = "server" if server else "client"
        names = [x[0] for x in log]
        want = ["server socket", "bind", "listen", "server callback"] if server else ["client socket", "connect", "client callback", "do_handshake"]
        if fails is None:
            ctx.require(sorted(x for x in names if x != "close") == sorted(want), "setup", where, "%s does %s" % (name, names), p, key=kind)
            if {"do_handshake", "connect", kind + " callback"} <= set(names):
                ctx.require(names.index("do_handshake") > names.index(kind + " callback") and names.index("do_handshake") > names.index("connect"), "setup", where, "%s does %s" % (name, names), p, key="order")
        for x in log:
            if x[0].endswith("socket"):
                ctx.require(x[1].get("ciphers") == "PSK" and x[1].get("do_handshake_on_connect") in (0, False), "setup", where, "%s: the socket is made with %s" % (name, x[1]), p, key="ciphers")
            elif x[0] == "connect":
                ctx.require(x[1] == [("list", addr, 41230)], "setup", where, "%s connects to %s" % (name, x[1]), p, key="peer")
            elif x[0] == "bind":
                ctx.require(x[1] == [("list", "::", 4123)], "setup", where, "%s listens on %s" % (name, x[1]), p, key="port")
                ctx.require(all(y.endswith("AF_INET6") for y in more[2]), "setup", where, "%s binds a socket of family %s to an IPv6 address, which always fails" % (name, more[2]), p, key="family")
            elif x[0].endswith("callback"):
                ctx.require(x[1], "setup", where, "%s: the %s is not set on its own socket" % (name, x[0]), p, key="socket")
                ctx.require(x[2] == len(PSKB) and x[3] == [("bytes",) + tuple(PSKB)], "key", where, "%s: the %s gives %s %s" % (name, x[0], x[2], x[3]), p, key="key")
                ctx.require(x[4], "alive", where, "%s: nothing keeps the %s alive while the TLS library holds it" % (name, x[0]), p, key="alive")
    ctx.floor("setup", 20)
    ctx.floor("reported", 8)


@check("T09")
def t09(ctx):
    """The datagram socket: what is received reaches the callback, what is sent reaches the peer, a lost socket is closed."""
    depth = 4 if ctx.tier == "thorough" else 3

    def run(ip):
        w = World(ip)
        wire, got, kwargs, closed = [], [], [], []
        proto = []

        def endpoint(args, kw):
            kwargs.append({k: w.canon(v) for k, v in kw.items()})
            p = ip.call(args[0], [], {})
            tr = w.listener(sendto=lambda *a: wire.append([w.canon(x) for x in a]), close=lambda *a: closed.append(1))
            proto.append(p)
            w.call(p, "connection_made", tr)
            return T((tr, p))
        w.sched.endpoint = endpoint
        con = w.new("pyzwave.connection.Connection")
        server = w.choose(False, True)
        out = []
        early = w.guard(lambda: w.true(w.call(con, "send", K(b"early"))))
        when = w.choose("before", "after", "never")
        cb = w.fn(lambda a, k: (got.append([w.canon(x) for x in a]), NONE)[1])
        if when == "before":
            w.call(con, "onMessage", cb)
        t = w.spawn(con, "listen", K(b"psk"), K(4123)) if server else w.spawn(con, "connect", K("::7"), K(b"psk"))
        res = w.result(t)[0]
        if when == "after":
            w.call(con, "onMessage", cb)
        want = []
        for k in range(depth):
            a = w.choose("receive", "send", "sendTo", "error", "lost")
            mark = len(wire), len(got), len(closed)
            data = bytes([k, 9])
            e = r = None
            if a == "receive":
                _, e = w.attempt(proto[0], "datagram_received", K(data), T((K("::5"), K(7))))
            elif a == "send":
                r, e = w.guard(lambda: w.true(w.call(con, "send", K(data))))
            elif a == "sendTo":
                _, e = w.attempt(con, "sendTo", K(data), T((K("::5"), K(7))))
            elif a == "error":
                _, e = w.attempt(proto[0], "error_received", exc_(w))
            else:
                _, e = w.attempt(proto[0], "connection_lost", NONE)
            w.run()
            out.append((a, e, r, wire[mark[0]:], got[mark[1]:], len(closed) - mark[2], list(data)))
            if a == "lost":
                r, e = w.attempt(proto[0], "connection_lost", NONE)
                w.run()
                out.append(("lost again", e, None, [], [], 0, []))
                break
        return server, when, early, res, kwargs, out

    for p in ctx.scen("a datagram socket under every history", run, Cfg(havoc=False, raw_mixin=True)):
        where = "datagram socket"
        if not ctx.require(p.returned, "socket", where, "raises %s" % p.exc_name(), p):
            continue
        server, when, early, res, kwargs, out = p.value
        ctx.require(early == (False, None), "socket", where, "sending before there is a socket: %s" % (early,), p, key="early")
        ctx.require(res == "result" and len(kwargs) == 1, "socket", where, "setting up ends as %s" % res, p, key="setup")
        want = {"local_addr": ("list", "::", 4123)} if server else {"remote_addr": ("list", "::7", 4123)}
        ctx.require({k: v for k, v in kwargs[0].items() if k.endswith("_addr")} == want, "socket", where, "the socket is opened with %s" % kwargs, p, key="address")
        hist = []
        for a, e, r, wire, got, closed, data in out:
            hist.append(a)
            name = "%s socket after [%s], callback set %s" % ("server" if server else "client", ", ".join(hist), when)
            ctx.require(e is None, "socket", where, "%s: %s raises %s" % (name, a, e), p, key="raise " + a)
            d = ("bytes",) + tuple(data)
            ww = {"send": [[d]], "sendTo": [[d, ("list", "::5", 7)]]}.get(a, [])
            ctx.require(wire == ww, "wire", where, "%s: %s writes %s" % (name, a, wire), p, key="wire " + a)
            g = [[d, ("list", "::5", 7)] if server else [d]] if a == "receive" and when != "never" else []
            ctx.require(got == g, "receive", where, "%s: a datagram is handed over as %s" % (name, got), p, key="receive " + a)
            if a == "send":
                ctx.require(r is True, "socket", where, "%s: sending reports %s" % (name, r), p, key="sent")
            if a == "lost" and not server:
                ctx.require(closed >= 1, "close", where, "%s: the socket is not closed" % name, p)
            elif a != "lost again" and a != "lost":
                ctx.require(closed == 0, "close", where, "%s: the socket is closed" % name, p, key="closed " + a)
    D = "pyzwave.dtlsconnection.DTLSConnection"

    def dtls(ip):
        w = World(ip)
        got, sent, n = [], [], []
        size = (0, 1, 255, 256, 512, 1024, 1280)[ip.choose(7, "size")]
        data = bytes(i & 255 for i in range(size))
        con = w.new(D)
        server = w.choose(False, True)

        def read(a):
            n.append(1)
            if len(n) > 1:
                ip.throw(OSError)
            d = data if not a or not isinstance(a[0], K) or a[0].v < 0 else data[:a[0].v]
            return T((K(d), T((K("::9"), K(1))))) if server else K(d)
        w.sock = w.listener(recv=lambda *a: read(a), recvfrom=lambda *a: read(a), send=lambda *a: (sent.append(a[0].v), K(len(a[0].v)))[1])
        if server:
            w.call(con, "listen", K(b"psk"))
        else:
            w.spawn(con, "connect", K("::1"), K(b"psk"))
        w.call(con, "onMessage", w.fn(lambda a, k: (got.append(a[0].v if isinstance(a[0], K) else None), NONE)[1]))
        _, e = w.attempt(con, "run")
        w.run()
        _, e2 = w.attempt(con, "send", K(data))
        return server, size, e, [x == data for x in got], e2, [x == data for x in sent]

    for p in ctx.scen("a DTLS socket and datagrams of every size", dtls, scfg(cuts={D + ".createDtlsPskSock": lambda ip, f, args, kw: ip.world.sock})):
        where = "DTLS socket"
        if not ctx.require(p.returned, "socket", where, "raises %s" % p.exc_name(), p, key="dtls"):
            continue
        server, size, e, got, e2, sent = p.value
        ctx.require(e is None and got == [True], "receive", where, "a datagram of %d bytes is handed over %s" % (size, "changed" if got else "never"), p, key="dtls receive")
        ctx.require(e2 is None and sent == [True], "wire", where, "a datagram of %d bytes is sent %s" % (size, "changed" if sent else "never"), p, key="dtls send")
    ctx.floor("receive", 50)


def exc_(w):
    return w.ip.call(BC(OSError), [], {})
