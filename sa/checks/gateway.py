"""Gateway: network management operations, connections to nodes, node list."""
from . import check
from ..scenario import *  # noqa
from .transport import zipconn, packet, advert, nodelist, unsolicited, frame, gateway, answer, addr, addrtext, PSK

GW = "pyzwave.zipgateway.ZIPGateway"
NODE = BV([("node", i) for i in range(8)])
EP = BV([("ep", i) for i in range(7)] + [0])
FLAG = lambda n: S(("in", n), "bool")  # noqa: E731


def report(*items):
    """A Z/IP packet that carries a report, as received on the gateway's connection."""
    return BS([K(0x23), K(2), K(0), K(0x50), K(3), K(0), K(0)] + [K(x) if isinstance(x, int) else x for x in items])


def b(n):
    return BV([("r%d" % n, i) for i in range(8)])


def bits(v):
    return canon(None, v)


MASK = [0x21] + [0] * 28
# name, args, expected command (after its sequence number: list of byte values), report, value on report, value without
OPS = [
    ("addNode", [K(0x22)], [0x34, 0x01, None, 0, 7, 0x22], None, 1, 0),
    ("addNodeStop", [], [0x34, 0x01, None, 0, 5, 0], None, 1, 0),
    ("addNodeKeysSet", [TRUE, TRUE, K(0x83)], [0x34, 0x12, None, 3, 0x83], None, 1, 0),
    ("addNodeKeysSet", [FALSE, TRUE, K(0x04)], [0x34, 0x12, None, 1, 0x04], None, 1, 0),
    ("addNodeKeysSet", [TRUE, FALSE, K(0)], [0x34, 0x12, None, 2, 0], None, 1, 0),
    ("addNodeDSKSet", [TRUE, K(0), K(bytes(range(1, 17)))], [0x34, 0x14, None, 0x80] + list(range(1, 17)), None, 1, 0),
    ("addNodeDSKSet", [FALSE, K(0), K(b"")], [0x34, 0x14, None, 0x00], None, 1, 0),
    ("addNodeDSKSet", [TRUE, K(0), lambda w: w.new("pyzwave.types.dsk_t", K(bytes(range(1, 17))))], [0x34, 0x14, None, 0x80] + list(range(1, 17)), None, 1, 0),
    ("addNodeDSKSet", [TRUE, K(0), K("00258-00772-01286-01800-02314-02828-03342-65535")], [0x34, 0x14, None, 0x80] + list(range(1, 15)) + [255, 255], None, 1, 0),
    ("removeNode", [], [0x34, 0x03, None, 0, 1], None, 1, 0),
    ("removeNodeStop", [], [0x34, 0x03, None, 0, 5], None, 1, 0),
    ("getFailedNodeList", [], [0x52, 0x0B, None], [0x52, 0x0C, 1] + MASK, ("set", 1, 6), ("set",)),
    ("getNodeList", [], [0x52, 0x01, None], [0x52, 0x02, 1, 0, 9] + MASK, ("set", 1, 6), ("set",)),
    ("getFailedNodeList", [], [0x52, 0x0B, None], [0x52, 0x0C, 1], ("set",), ("set",)),
    ("getNodeList", [], [0x52, 0x01, None], [0x52, 0x02, 1], ("set",), ("set",)),
    ("getNodeList", [], [0x52, 0x01, None], [0x52, 0x02, 1, 0, 9], ("set",), ("set",)),
    ("getMultiChannelEndPoints", [NODE], [0x52, 0x05, None, bits(NODE)], [0x52, 0x06, 1, NODE, 0, 3, 2], 5, 0),
    ("getMultiChannelEndPoints", [NODE], [0x52, 0x05, None, bits(NODE)], [0x52, 0x06, 1, NODE, 0, 3], 3, 0),
    ("getMultiChannelEndPoints", [NODE], [0x52, 0x05, None, bits(NODE)], [0x52, 0x06, 1, NODE], 0, 0),
    ("getMultiChannelCapability", [NODE, EP], [0x52, 0x07, None, bits(NODE), bits(EP)], [0x52, 0x08, 1, NODE, 2, EP, b(1), b(2), 0x20, 0x25], {"genericDeviceClass": bits(b(1)), "specificDeviceClass": bits(b(2)), "commandClass": ("bytes", 0x20, 0x25)}, {}),
    ("getNodeInfo", [NODE], [0x52, 0x03, None, 15, bits(NODE)], [0x52, 0x04, 1, 0x1B, 0x80, 0, 0, b(1), b(2), b(3), 0x5E, 0x20],
     {"listening": 1, "basicDeviceClass": bits(b(1)), "genericDeviceClass": bits(b(2)), "specificDeviceClass": bits(b(3)), "commandClass": ("bytes", 0x5E, 0x20)}, {}),
    ("removeFailedNode", [NODE], [0x34, 0x07, None, bits(NODE)], [0x34, 0x08, 1, 1, NODE], 1, 2),
    ("removeFailedNode", [NODE], [0x34, 0x07, None, bits(NODE)], [0x34, 0x08, 1, 0, NODE], 0, 2),
]


INFO = ("listening", "basicDeviceClass", "genericDeviceClass", "specificDeviceClass", "commandClass")
# operation: arguments, command, two answers and what they mean
AGAIN = {
    "getFailedNodeList": ([], [0x52, 0x0B], [([0x52, 0x0C, 1] + MASK, ("set", 1, 6)), ([0x52, 0x0C, 1, 2] + [0] * 28, ("set", 2))]),
    "getMultiChannelEndPoints": ([K(4)], [0x52, 5], [([0x52, 6, 1, 4, 0, 3, 0], 3), ([0x52, 6, 1, 4, 0, 1, 0], 1)]),
    "getMultiChannelCapability": ([K(4), K(2)], [0x52, 7], [([0x52, 8, 1, 4, 1, 2, 7, 8, 0x20], {"genericDeviceClass": 7, "specificDeviceClass": 8, "commandClass": ("bytes", 0x20)}), ([0x52, 8, 1, 4, 2, 2, 9, 1, 0x25, 0x26], {"genericDeviceClass": 9, "specificDeviceClass": 1, "commandClass": ("bytes", 0x25, 0x26)})]),
    "getNodeInfo": ([K(4)], [0x52, 3], [([0x52, 4, 1, 0x10, 0x80, 0, 0, 1, 2, 3, 0x5E], dict(zip(INFO, (1, 1, 2, 3, ("bytes", 0x5E))))), ([0x52, 4, 1, 0x10, 0, 0, 0, 4, 5, 6, 0x5E, 0x20], dict(zip(INFO, (0, 4, 5, 6, ("bytes", 0x5E, 0x20)))))]),
    "removeFailedNode": ([K(4)], [0x34, 7], [([0x34, 8, 1, 1, 4], 1), ([0x34, 8, 1, 0, 4], 0)]),
}


def ack_last(w, gw, i=None):
    f = frame(w, len(w.sent) - 1 if i is None else i)
    w.call(gw, "onPacket", packet(f[4], 0x40))


@check("G01")
def g01(ctx):
    """Each network management operation sends its own command and reports exactly what came back."""
    depth = 4 if ctx.tier == "thorough" else 3

    def run(ip):
        w = World(ip)
        n = ip.choose(len(OPS), "operation")
        name, args, cmd, rep, good, bad = OPS[n]
        gw = gateway(w)
        t = w.spawn(gw, name, *[a(w) if callable(a) else a for a in args])
        if not w.sent:
            return n, None, [], "no packet", None, None, 0
        f = frame(w, 0)
        hist, acked, answered = [], False, False
        for _ in range(depth):
            opts = []
            if not acked:
                opts += ["ack", "unacked"]
            if rep and not answered:
                opts.append("report")
            if acked and not answered:
                opts.append("timeout")
            if not opts or t.done():
                break
            a = w.choose(*opts)
            hist.append(a)
            if a == "ack":
                ack_last(w, gw, 0)
                acked = "yes"
            elif a == "unacked":
                w.sched.fire(w.sched.timeouts()[-1])
                acked = "no"
            elif a == "report":
                w.call(gw, "onPacket", report(*rep))
                answered = True
            elif a == "timeout":
                if not w.sched.timeouts():
                    break
                w.sched.fire(w.sched.timeouts()[-1])
            w.run()
        if not t.done():
            while w.sched.timeouts() and not t.done():
                hist.append("timeout")
                w.sched.fire(w.sched.timeouts()[-1])
                w.run()
        res = w.result(t)
        v = res[1] if len(res) > 1 else None
        if res[0] == "result" and isinstance(good, dict):
            v = {k: w.canon(w.get(v, k)) for k in good}
        elif res[0] == "result":
            v = w.canon(v)
        return n, f, hist, res[0], v, (acked, answered), len(w.sent)

    for p in ctx.scen("an operation under every answer", run, scfg()):
        where = "network management operation"
        if not ctx.require(p.returned, "answer", where, "raises %s" % p.exc_name(), p):
            continue
        n, f, hist, res, v, st, sent = p.value
        name, args, cmd, rep, good, bad = OPS[n]
        if not ctx.require(f is not None, "command", name, "sends nothing", p):
            continue
        c = f[7:]
        ok = len(c) == len(cmd) and all(x is None or x == y for x, y in zip(cmd, c)) and isinstance(c[2], int) and f[2] == 0x80 and f[5:7] == [0, 0]
        ctx.require(ok and sent == 1, "command", name, "sends %d packets, the first carrying %s instead of %s" % (sent, c, cmd), p)
        acked, answered = st
        if rep is None:
            want = good if acked == "yes" else bad
        else:
            want = good if answered else bad
        if isinstance(want, dict) and not want:
            ctx.require(res == "result" and v.get("commandClass") in (("bytes",), ("list",), None) and not any(isinstance(x, (int, tuple)) and x and x not in (("bytes",), ("list",)) for x in v.values()), "answer", name, "after [%s] without an answer it gives %s %s" % (", ".join(hist), res, v), p)
        else:
            ctx.require(res == "result" and v == want, "answer", name, "after [%s] it gives %s %s instead of %s" % (", ".join(hist), res, v, want), p)

    # the same question again: every answer is the last one that came
    def again(ip):
        w = World(ip)
        know = w.choose((), {4: 0x34})
        gw = gateway(w, know)
        what = w.choose(*AGAIN)
        args, head, reps = AGAIN[what]
        fst = w.choose(0, 1)
        out = []
        for k in (fst, 1 - fst, fst, None, 1 - fst):
            m = len(w.sent)
            t = w.spawn(gw, what, *args)
            w.run()
            new = [f for f in (frame(w, i) for i in range(m, len(w.sent)))]
            asked = [f[7:] for f in new if f[:2] == [0x23, 2]]
            if asked:
                ack_last(w, gw)
                w.run()
            if k is not None:
                w.call(gw, "onPacket", report(*reps[k][0]))
            w.run()
            while not t.done() and w.sched.timeouts():
                w.sched.fire(w.sched.timeouts()[-1])
                w.run()
            res = w.result(t)
            v = res[1] if len(res) > 1 else None
            if res[0] == "result" and isinstance(reps[0][1], dict):
                v = {x: w.canon(w.get(v, x)) for x in reps[0][1]}
            elif res[0] == "result":
                v = w.canon(v)
            out.append((k, [a[:2] for a in asked], res[0], v))
        return what, know != (), out

    for p in ctx.scen("an operation asked again", again, scfg()):
        where = "network management operation"
        if not ctx.require(p.returned, "answer", where, "asked again: raises %s" % p.exc_name(), p):
            continue
        what, know, out = p.value
        args, head, reps = AGAIN[what]
        for i, (k, asked, res, v) in enumerate(out):
            name = "%s asked time %d%s" % (what, i + 1, " of a known node" if know else "")
            ctx.require(asked == [head], "command", what, "%s sends %s" % (name, asked), p, key="again")
            if k is not None:
                ctx.require(res == "result" and v == reps[k][1], "answer", what, "%s gives %s %s instead of %s" % (name, res, v, reps[k][1]), p, key="again")
            else:
                old = v in (reps[0][1], reps[1][1]) and what != "removeFailedNode"
                ctx.require(not old, "answer", what, "%s without an answer gives %s" % (name, v), p, key="again silent")

    # sequence numbers of many operations
    rounds = 600 if ctx.tier == "thorough" else 270

    def many(ip):
        w = World(ip)
        gw = gateway(w)
        bad, prev = [], None
        names = ["addNode", "addNodeStop", "removeNode", "removeNodeStop", "addNodeKeysSet", "addNodeDSKSet", "getFailedNodeList", "removeFailedNode", "getNodeInfo", "getMultiChannelEndPoints", "getMultiChannelCapability"]
        k = ip.choose(len(names), "operation")
        args = next(o[1] for o in OPS if o[0] == names[k])
        for i in range(rounds):
            m = len(w.sent)
            t = w.spawn(gw, names[k], *args)
            if len(w.sent) != m + 1:
                bad.append("%s number %d sends %d packets (%s)" % (names[k], i, len(w.sent) - m, w.result(t)))
                break
            s = frame(w, m)[9]
            if not isinstance(s, int) or s == prev:
                bad.append("%s number %d has the sequence number %s after %s" % (names[k], i, s, prev))
                break
            prev = s
            t.cancel()
            w.run()
        return bad

    for p in ctx.scen("many operations", many, scfg(max_steps=80000000)):
        if ctx.require(p.returned, "sequence", "many operations", "raises %s" % p.exc_name(), p):
            ctx.require(not p.value, "sequence", "many operations", "; ".join(p.value), p)
    ctx.floor("answer", 40)


@check("G02")
def g02(ctx):
    """Commands for a node go over one connection to that node's address, and what comes back over it is that node's."""
    nodes = {4: 0x34, 7: 0x37}
    tasks = 3

    def run(ip):
        w = World(ip)
        # a node need not be on the list yet
        gw = gateway(w, w.choose((), {9: 0x39}))
        m0 = len(w.sent)
        got = []
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, *a: got.append((s == gw,) + a)))
        ts, dst = [], []
        for i in range(tasks):
            n = w.choose(4, 7) if i else 4
            dst.append(n)
            ts.append(w.start(gw, "sendToNode", K(n), w.msg("Basic.Set", value=40 + i), destEP=K(i)))
            if w.choose("at once", "later") == "later":
                w.run()
        hist, dead = [], set()
        asked = 0
        for _ in range(12):
            w.run()
            q = [f for f in (frame(w, i) for i in range(m0, len(w.sent))) if f[:2] == [0x58, 4]]
            if len(q) <= asked:
                break
            n = q[asked][3]
            asked += 1
            a = w.choose("answer", "other first", "incomplete first", "none") if asked < 3 else "answer"
            hist.append((n, a))
            if a == "incomplete first":
                w.call(gw, "onPacket", K(bytes([0x58, 1, 0, n] + [0xFD] * (5 * (asked - 1)))))
                w.run()
            if a == "none":
                dead.add(n)
                for wf in w.sched.timeouts():
                    if const(wf.timeout) == 3:
                        w.sched.fire(wf)
                        break
            else:
                if a == "other first":
                    w.call(gw, "onPacket", advert(4 if n == 7 else 7, nodes[4 if n == 7 else 7]))
                w.call(gw, "onPacket", advert(n, nodes[n]))
        w.run()
        conns = [(c, a) for c, a in w.conns]
        seen = []
        for c, d in w.sent:
            f = data_items(ip, d)
            if f[:2] == [0x23, 2]:
                to = [a for cc, a in conns if cc == c]
                seen.append((to[0] if to else None, f[5:7], f[7:]))
        # what comes back over each connection
        del got[:]
        return dst, hist, sorted(dead), [a for _c, a in conns], seen, [w.result(t)[1] if w.result(t)[0] == "exception" else "" for t in ts]

    for p in ctx.scen("commands to several nodes at once", run, scfg(max_paths=200000)):
        where = "sending to nodes"
        if not ctx.require(p.returned, "connect", where, "raises %s" % p.exc_name(), p):
            continue
        dst, hist, dead, conns, seen, res = p.value
        addrs = {n: addrtext(h) for n, h in nodes.items()}
        name = "commands to %s with lookups %s" % (dst, hist)
        cs = [c[0] for c in conns]
        ctx.require(len(cs) == len(set(cs)) and all(c in addrs.values() for c in cs), "connect", where, "%s open connections to %s" % (name, cs), p)
        ctx.require(all(c[1:] == [("bytes", 0x12, 0x34)] for c in conns), "psk", where, "%s connect with %s" % (name, [c[1:] for c in conns]), p)
        for i, n in enumerate(dst):
            mine = [x for x in seen if x[2] == [0x20, 1, 40 + i]]
            ctx.require(res[i] in ("", "TimeoutError"), "connect", where, "%s: command %d fails with %s" % (name, i, res[i]), p, key="fails")
            if n not in dead:
                ctx.require(len(mine) == 1, "sent", where, "%s: command %d is sent %d times" % (name, i, len(mine)), p)
            for to, eps, _c in mine:
                ctx.require(to is not None and to[0] == addrs[n], "address", where, "%s: command %d for node %d goes to %s" % (name, i, n, to), p)
                ctx.require(eps == [0, i], "endpoint", where, "%s: command %d for endpoint %d carries endpoints %s" % (name, i, i, eps), p)

    # what comes back
    def back(ip):
        w = World(ip)
        gw = gateway(w, w.choose((), {9: 0x39}))
        got = []
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, *a: got.append((s == gw,) + a)))
        for n in nodes:
            w.spawn(gw, "sendToNode", K(n), w.msg("Basic.Get"))
            answer(w, gw, nodes) if n == 4 else w.call(gw, "onPacket", advert(n, nodes[n]))
            w.run()
        n = w.choose(4, 7)
        conn = ip.await_value(w.call(gw, "connectToNode", K(n)))
        m = len(w.conns)
        w.call(conn, "onPacket", BS([K(0x23), K(2), K(0), K(0x50), K(9), EP, K(0), K(0x20), K(3), b(1)]))
        w.run()
        return n, m, [(g[0], w.canon(g[1]), w.canon(g[2]), w.canon(w.call(g[3], "hid")), w.canon(w.get(g[3], "value"))) for g in got]

    for p in ctx.scen("a command received over a node's connection", back, scfg()):
        where = "receiving over a node's connection"
        if ctx.require(p.returned, "attribution", where, "raises %s" % p.exc_name(), p):
            n, m, got = p.value
            ctx.require(m == 2, "connect", where, "%d connections for two nodes" % m, p)
            ctx.require(got == [(True, n, bits(EP), 0x2003, bits(b(1)))], "attribution", where, "a command of node %d is reported as %s" % (n, got), p)

    # a failed connection is tried again
    def again(ip):
        w = World(ip)
        gw = gateway(w)
        t = w.spawn(gw, "sendToNode", K(4), w.msg("Basic.Get"))
        a = w.choose("timeout", "cancel")
        if a == "timeout":
            w.sched.fire(w.sched.timeouts()[-1])
        else:
            t.cancel()
        w.run()
        r1 = w.result(t)[0]
        n = len(w.conns)
        t2 = w.spawn(gw, "sendToNode", K(4), w.msg("Basic.Get"))
        w.call(gw, "onPacket", advert(4, 0x34))
        w.run()
        f = frame(w, len(w.sent) - 1)
        return a, r1, n, len(w.conns), f[:2] == [0x23, 2] and f[7:] == [0x20, 2]

    for p in ctx.scen("sending again after a failed lookup", again, scfg()):
        where = "sending after a failed lookup"
        if ctx.require(p.returned, "again", where, "raises %s" % p.exc_name(), p):
            a, r1, n0, n1, ok = p.value
            ctx.require(n0 == 0 and n1 == 1 and ok and r1 != "pending", "again", where, "after %s (%s) there are %d, then %d connections and the command is %ssent" % (a, r1, n0, n1, "" if ok else "not "), p)
    ctx.floor("address", 100)


@check("G03")
def g03(ctx):
    """The node list follows the latest report; every node is reachable under its advertised address as soon as it is known."""
    hosts = {1: 0x31, 4: 0x34, 7: 0x37, 9: 0x39}
    lists = [(1, 4), (1, 4, 7), (1,), (1, 7, 9)]
    depth = 4 if ctx.tier == "thorough" else 3

    def run(ip):
        w = World(ip)
        gw = gateway(w)
        told = []

        def updated(s):
            t = w.start(gw, "getNodeList")
            told.append(t)
        w.call(gw, "addListener", w.listener(nodeListUpdated=updated))
        got = []
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, n, ep, m, fl: got.append(w.canon(n))))
        hist, last, errs = [], None, []
        deaf, known = set(), set()
        asked = 0

        def step(a):
            nonlocal asked
            q = [f for f in (frame(w, i) for i in range(len(w.sent))) if f[:2] == [0x58, 4]]
            while asked < len(q):
                n = q[asked][3]
                asked += 1
                if a == "answer":
                    w.call(gw, "onPacket", advert(n, hosts[n]))
                    deaf.discard(n)
                    if n in last:
                        known.add(n)
                else:
                    deaf.add(n)
                    if w.sched.timeouts():
                        w.sched.fire(w.sched.timeouts()[0])
                w.run()
                q = [f for f in (frame(w, i) for i in range(len(w.sent))) if f[:2] == [0x58, 4]]
                if a == "one":
                    break
        for k in range(depth):
            a = w.choose("report", "answer", "silent", "report without a list") if k else "report"
            if a == "report without a list":
                hist.append(a)
                t, e = w.attempt(gw, "onUnsolicitedMessage", unsolicited(nodelist(*last)[:w.choose(2, 3, 5)]), T((K(addrtext(0xFFFF)), K(4123))))
                if e:
                    errs.append(e)
                w.run()
                errs += [w.excname(x.val) for x in w.sched.tasks if x.state == "exception"]
            elif a == "report":
                last = lists[ip.choose(len(lists), "node list")]
                hist.append(list(last))
                _, e = w.attempt(gw, "onUnsolicitedMessage", unsolicited(nodelist(*last)), T((K(addrtext(0xFFFF)), K(4123))))
                if e:
                    errs.append(e)
                w.run()
                known &= set(last)
            else:
                hist.append(a)
                step(a)
        if w.choose(True, False):
            step("answer")
        else:
            hist.append("silent")
            step("silent")
        w.run()
        lt = w.spawn(gw, "getNodeList")
        final = w.canon(w.result(lt)[1]) if lt.done() else "asks the controller again"
        told_ = [w.canon(w.result(t)[1]) if w.result(t)[0] == "result" else w.result(t)[0] for t in told]
        seen = {}
        for n, h in hosts.items():
            del got[:]
            w.attempt(gw, "onUnsolicitedMessage", unsolicited([0x20, 3, 1]), T((K(addrtext(h)), K(4123))))
            w.run()
            seen[n] = list(got)
        return hist, last, final, told_, seen, errs, sorted(deaf), sorted(known)

    for p in ctx.scen("node list reports and address lookups in every order", run, scfg(max_paths=300000)):
        where = "keeping the node list"
        if not ctx.require(p.returned, "nodes", where, "raises %s" % p.exc_name(), p):
            continue
        hist, last, final, told, seen, errs, deaf, known = p.value
        name = "after %s" % (hist,)
        want = ("set",) + tuple(sorted(last))
        ctx.require(not errs, "nodes", where, "%s receiving a report raises %s" % (name, errs), p, key="raise")
        ctx.require(final == want, "nodes", where, "%s the node list is %s" % (name, final), p)
        ctx.require(told and told[-1] == want, "notified", where, "%s the listeners were last told about %s" % (name, told[-1] if told else "nothing"), p)
        for n, g in seen.items():
            if n not in last:
                ctx.require(g == [], "stale", where, "%s a packet from the address of node %d, which is not in the list, is attributed to %s" % (name, n, g), p)
            elif n not in deaf or n in known:
                ctx.require(g == [n], "known", where, "%s a packet from the address of node %d is attributed to %s" % (name, n, g), p)
            else:
                ctx.require(g in ([], [n]), "known", where, "%s a packet from the address of node %d is attributed to %s" % (name, n, g), p)

    def repeated(ip):
        """A report with the nodes of the one before is a report."""
        w = World(ip)
        gw = gateway(w)
        told, got = [], []
        w.call(gw, "addListener", w.listener(nodeListUpdated=lambda s: told.append(1)))
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, n, ep, m, fl: got.append(w.canon(n))))
        deaf = w.choose(None, 1, 4, 7)
        order = w.choose((1, 4, 7), (7, 1, 4))
        n, errs, at = 0, [], 0
        counts, seen = [], []
        for k in range(3):
            _, e = w.attempt(gw, "onUnsolicitedMessage", unsolicited(nodelist(*(order if k else (1, 4, 7)))), T((K(addrtext(0xFFFF)), K(4123))))
            errs += [e] * bool(e)
            w.run()
            for _ in range(12):
                if at < len(w.sent):
                    f = frame(w, at)
                    at += 1
                    if f[:2] == [0x58, 4] and (f[3] != deaf or k == 2):
                        w.call(gw, "onPacket", advert(f[3], hosts[f[3]]))
                elif w.sched.timeouts():
                    w.sched.fire(w.sched.timeouts()[0])
                w.run()
            counts.append(len(told))
            row = []
            for i in (1, 4, 7):
                del got[:]
                w.attempt(gw, "onUnsolicitedMessage", unsolicited([0x20, 3, 1]), T((K(addrtext(hosts[i])), K(4123))))
                w.run()
                row.append(list(got))
            seen.append(row)
        return deaf, order, errs, counts, seen

    for p in ctx.scen("the same list again", repeated, scfg()):
        where = "keeping the node list"
        if not ctx.require(p.returned, "nodes", where, "the same list again: raises %s" % p.exc_name(), p):
            continue
        deaf, order, errs, counts, seen = p.value
        ctx.require(not errs, "nodes", where, "the same list again: raises %s" % errs, p)
        ctx.require(counts == [1, 2, 3], "notified", where, "after one, two and three reports with the same nodes %s (node %s without an address at first) the listeners were told %s times" % (order, deaf, counts), p, key="again")
        for k, row in enumerate(seen):
            ctx.require(row == [[i] if i != deaf or k == 2 else [] for i in (1, 4, 7)], "known", where, "report %d with the same nodes, node %s answers its address query only then: packets of 1, 4 and 7 are attributed to %s" % (k + 1, deaf, row), p, key="again")

    def again(ip):
        """The list is the same however it was learnt and however often it is asked for."""
        w = World(ip)
        gw = gateway(w)
        own = w.choose(1, 4, 200)
        lst = list(w.choose((1, 4, 7), (4, 200)))
        steps, out, asked = [], [], 0
        for k in range(depth):
            a = w.choose("ask", "report")
            steps.append(a)
            if a == "report":
                lst = list(w.choose((1, 4), (1, 4, 200)))
                steps.append(lst)
                w.attempt(gw, "onUnsolicitedMessage", unsolicited([0x52, 2, 9, 0, own] + nodelist(*lst)[5:]), T((K(addrtext(0xFFFF)), K(4123))))
                w.run()
                continue
            t = w.spawn(gw, "getNodeList")
            if not t.done():
                asked += 1
                f = frame(w, len(w.sent) - 1)
                w.attempt(gw, "ackReceived", w.msg("Zip.ZipPacket", seqNo=f[4], nackResponse=False))
                w.call(gw, "onPacket", report(*([0x52, 2, f[9], 0, own] + nodelist(*lst)[5:])))
                w.run()
            r = w.result(t)
            out.append((w.canon(r[1]) if r[0] == "result" else r[0], ("set",) + tuple(sorted(lst))))
        return own, steps, out, asked

    for p in ctx.scen("asking for the node list repeatedly", again, scfg(max_paths=100000)):
        where = "asking for the node list"
        if not ctx.require(p.returned, "nodes", where, "raises %s" % p.exc_name(), p):
            continue
        own, steps, out, asked = p.value
        for got, want in out:
            ctx.require(set(got) == set(want), "nodes", where, "after %s with controller %d the node list is %s instead of %s" % (steps, own, got, want), p)
    ctx.floor("nodes", 30)


@check("G04")
def g04(ctx):
    """An answer is given to the request it belongs to, also when several requests are under way."""
    pairs = [
        ("ipOfNode", [[K(4)], [K(7)]], [[0x58, 1, 0, 4] + addr(0x34) + [1, 2, 3, 4], [0x58, 1, 0, 7] + addr(0x37) + [1, 2, 3, 4]], None, [("ipv6", ("bytes",) + tuple(x.v for x in addr(0x34))), ("ipv6", ("bytes",) + tuple(x.v for x in addr(0x37)))]),
        ("getNodeInfo", [[K(4)], [K(7)]], [[0x52, 4, "seq0", 0, 0x80, 0, 0, 1, 2, 3, 0x41], [0x52, 4, "seq1", 0, 0x80, 0, 0, 1, 2, 3, 0x42]], "commandClass", [("bytes", 0x41), ("bytes", 0x42)]),
        ("getMultiChannelEndPoints", [[K(4)], [K(7)]], [[0x52, 6, "seq0", 4, 0, 3, 0], [0x52, 6, "seq1", 7, 0, 5, 0]], None, [3, 5]),
        ("getMultiChannelCapability", [[K(4), K(1)], [K(7), K(2)]], [[0x52, 8, "seq0", 4, 1, 1, 1, 1, 0x41], [0x52, 8, "seq1", 7, 1, 2, 1, 1, 0x42]], "commandClass", [("bytes", 0x41), ("bytes", 0x42)]),
        ("removeFailedNode", [[K(4)], [K(7)]], [[0x34, 8, "seq0", 1, 4], [0x34, 8, "seq1", 2, 7]], None, [1, 2]),
    ]

    def run(ip):
        w = World(ip)
        k = ip.choose(len(pairs), "request")
        name, args, reps, fld, want = pairs[k]
        gw = gateway(w)
        mode = w.choose("together", "late")
        ts = [w.spawn(gw, name, *args[0])]
        order = (0, 1)
        if mode == "together":
            ts.append(w.spawn(gw, name, *args[1]))
            order = w.choose((0, 1), (1, 0))
        seqs = {}

        def scan():
            for i in range(len(w.sent)):
                f = frame(w, i)
                if f[:2] == [0x23, 2]:
                    w.attempt(gw, "ackReceived", w.msg("Zip.ZipPacket", seqNo=f[4], nackResponse=False))
                    for j in (0, 1):
                        if f[10 if name != "getNodeInfo" else 11] == args[j][0].v:
                            seqs["seq%d" % j] = f[9]
            w.run()
        scan()
        if mode == "late":
            for _ in range(4):
                if w.sched.timeouts():
                    w.sched.fire(w.sched.timeouts()[-1])
                    w.run()
            ended = ts[0].done()
            ts.append(w.spawn(gw, name, *args[1]))
            scan()
            if not ended:
                return name, mode, ["no timeout"], want, order
        for i in order:
            d = [seqs.get(x, 0) if isinstance(x, str) else x for x in reps[i]]
            w.call(gw, "onPacket", (report(*d) if d[0] != 0x58 else BS([x if isinstance(x, V) else K(x) for x in d])))
            w.run()
        out = []
        for t in ts:
            r = w.result(t)
            v = r[1] if len(r) > 1 else None
            if r[0] == "result":
                v = w.canon(w.get(v, fld)) if fld else w.canon(v)
            out.append(v if r[0] == "result" else r[0] if r[0] != "exception" else v)
        return name, mode, out, want, order

    for p in ctx.scen("two requests of one kind", run, scfg()):
        where = "two requests of one kind"
        if not ctx.require(p.returned, "correlate", where, "raises %s" % p.exc_name(), p):
            continue
        name, mode, out, want, order = p.value
        good = out == want if mode == "together" else len(out) == 2 and out[1] == want[1]
        ctx.require(good, "correlate", name, "%s requests for two nodes, answers in order %s: they return %s" % (mode, order, out), p, key="%s %s" % (name, mode))
    ctx.floor("correlate", 10)


@check("G05")
def g05(ctx):
    """Connecting prepares the gateway: mode, unsolicited destination, listening socket, node addresses; silence never makes it fail."""

    def run(ip):
        w = World(ip)
        gw = zipconn(w, GW)
        mode = w.choose(1, 2, "silent")
        dest = w.choose("ack", "silent")
        lst = w.choose("report", "silent")
        lost = w.choose(None, 4, 7) if lst == "report" else None
        hosts = {1: 0x31, 4: 0x34, 7: 0x37}
        t = w.spawn(gw, "connect")
        cmds = []
        i = 0
        for _ in range(60):
            w.run()
            if t.done():
                break
            moved = False
            while i < len(w.sent):
                f = frame(w, i)
                i += 1
                moved = True
                if f[:2] == [0x58, 4]:
                    if f[3] != lost:
                        w.call(gw, "onPacket", advert(f[3], hosts[f[3]]))
                    else:
                        moved = False
                    continue
                c = f[7:]
                cmds.append(c)
                if c[:2] == [0x5F, 2]:
                    if mode == "silent":
                        moved = False
                        continue
                    ack_last(w, gw, i - 1)
                    w.call(gw, "onPacket", report(0x5F, 3, mode))
                elif c[:2] == [0x5F, 8] or c[:2] == [0x5F, 1]:
                    if dest == "ack":
                        ack_last(w, gw, i - 1)
                    else:
                        moved = False
                elif c[:2] == [0x52, 1]:
                    if lst == "silent":
                        moved = False
                        continue
                    ack_last(w, gw, i - 1)
                    w.call(gw, "onPacket", report(*nodelist(1, 4, 7)))
                else:
                    ack_last(w, gw, i - 1)
            w.run()
            if not moved and not t.done():
                if not w.sched.timeouts():
                    break
                w.sched.fire(w.sched.timeouts()[-1])
        got = []
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, n, ep, m, fl: got.append(w.canon(n))))
        seen = {}
        for n, h in hosts.items():
            del got[:]
            w.attempt(gw, "onUnsolicitedMessage", unsolicited([0x20, 3, 1]), T((K(addrtext(h)), K(4123))))
            w.run()
            seen[n] = list(got)
        return mode, dest, lst, lost, w.result(t), cmds, w.listens, [c[1] for c in w.conns], seen, len(w.sched.armed())

    for p in ctx.scen("connecting under every gateway behaviour", run, scfg()):
        where = "connecting the gateway"
        if not ctx.require(p.returned, "connect", where, "raises %s" % p.exc_name(), p):
            continue
        mode, dest, lst, lost, res, cmds, listens, conns, seen, armed = p.value
        name = "mode %s, destination %s, node list %s, node %s without address" % (mode, dest, lst, lost)
        ctx.require(res[0] == "result", "connect", where, "%s: ends as %s" % (name, res), p)
        ctx.require(conns == [["::1", ("bytes", 0x12, 0x34)]], "connect", where, "%s: connects to %s" % (name, conns), p, key="address")
        sets = [c for c in cmds if c[:2] == [0x5F, 1]]
        ctx.require([c[:3] for c in sets] == ([[0x5F, 1, 1]] if mode == 2 else []), "mode", where, "%s: gateway mode commands %s" % (name, sets), p)
        ctx.require(listens == [[("bytes", 0x12, 0x34), 4123]], "listen", where, "%s: listens on %s" % (name, listens), p)
        dst = [c for c in cmds if c[:2] == [0x5F, 8]]
        ctx.require(len(dst) == 1 and dst[0][-2:] == [4123 >> 8, 4123 & 255] and len(dst[0]) == 20, "destination", where, "%s: unsolicited destination commands %s" % (name, dst), p)
        for n, g in seen.items():
            want = [n] if lst == "report" and n != lost else []
            ctx.require(g == want, "addresses", where, "%s: a packet from node %d's address is attributed to %s" % (name, n, g), p)
        ctx.require(armed == 1, "keepalive", where, "%s: %d keep alive timers" % (name, armed), p)
    ctx.floor("connect", 10)
    hosts = {1: 0x31, 4: 0x34}

    def wired(ip):
        """The same down to the datagram end points of the event loop."""
        w = World(ip)
        links = []  # [local/remote address, protocol, written]

        def endpoint(args, kw):
            a = {k: w.canon(v) for k, v in kw.items()}
            p = ip.call(args[0], [], {})
            out = []
            tr = w.listener(sendto=lambda *x: out.append([data_items(ip, x[0])] + [w.canon(y) for y in x[1:]]), close=lambda *x: None)
            links.append(["local" if "local_addr" in a else "remote", a.get("local_addr", a.get("remote_addr")), p, out])
            w.call(p, "connection_made", tr)
            return T((tr, p))
        w.sched.endpoint = endpoint
        gw = zipconn(w, GW)
        got = []
        w.call(gw, "addListener", w.listener(messageReceived=lambda s, n, ep, m, fl: got.append([w.canon(n), w.canon(ep), w.canon(w.call(m, "hid"))])))
        t = w.spawn(gw, "connect")
        read = {}

        def serve():
            for _ in range(40):
                w.run()
                moved = False
                for i, (kind, a, p, out) in enumerate(links):
                    while read.setdefault(i, 0) < len(out):
                        f = out[read[i]][0]
                        read[i] += 1
                        moved = True
                        if kind == "local":
                            continue
                        src = T((K("::1"), K(4123)))
                        if f[:2] == [0x58, 4]:
                            w.call(p, "datagram_received", advert(f[3], hosts[f[3]]), src)
                            continue
                        if f[:2] == [0x23, 2] and f[2] & 0x80:
                            w.call(p, "datagram_received", BS([K(0x23), K(2), K(0x40), K(0), K(f[4]), K(0), K(0)]), src)
                        if f[7:9] == [0x5F, 2]:
                            w.call(p, "datagram_received", report(0x5F, 3, 1), src)
                        elif f[7:9] == [0x52, 1]:
                            w.call(p, "datagram_received", report(*nodelist(1, 4)), src)
                if not moved:
                    break
        serve()
        res = w.result(t)
        n0 = len(links)
        mark = [len(x[3]) for x in links]
        ask = w.choose(True, False)
        host = w.choose(0x31, 0x34, 0x39)
        where = [x for x in links if x[0] == "local"]
        e = None
        if where:
            _, e = w.attempt(where[0][2], "datagram_received", BS([K(0x23), K(2), K(0x80 if ask else 0), K(0x50), K(9), K(2), K(0), K(0x20), K(3), K(1)]), T((K(addrtext(host)), K(41230), K(0), K(0))))
            w.run()
        unsol = list(got)
        wrote = [x[3][m:] for x, m in zip(links, mark)]
        del got[:]
        back = None
        s = w.spawn(gw, "sendToNode", K(4), w.msg("Basic.Get"))
        serve()
        sent = w.result(s)
        if len(links) > n0:
            _, e2 = w.attempt(links[n0][2], "datagram_received", report(0x20, 3, 1), T((K("::1"), K(4123))))
            w.run()
            back = e2, list(got), [x[0][7:] for x in links[n0][3] if x[0][:2] == [0x23, 2]]
        return res[0], [(x[0], x[1]) for x in links], ask, host, e, unsol, wrote, sent, back

    for p in ctx.scen("a connected gateway down to its sockets", wired, Cfg(havoc=False, raw_mixin=True)):
        where = "a connected gateway"
        if not ctx.require(p.returned, "wired", where, "raises %s" % p.exc_name(), p):
            continue
        res, links, ask, host, e, unsol, wrote, sent, back = p.value
        ids = {v: k for k, v in hosts.items()}
        name = "a datagram from %s on the unsolicited port" % ("node %d" % ids[host] if host in ids else "a stranger")
        ctx.require(res == "result", "wired", where, "connecting ends as %s" % res, p, key="connect")
        ctx.require(links == [("remote", ("list", "::1", 4123)), ("local", ("list", "::", 4123)), ("remote", ("list", addrtext(0x34), 4123))], "wired", where, "the sockets opened are %s" % (links,), p, key="sockets")
        ctx.require(e is None and unsol == ([[ids[host], 2, 0x2003]] if host in ids else []), "wired", where, "%s is delivered as %s (%s)" % (name, unsol, e), p, key="unsolicited")
        want = [[0x23, 2, 0x40, 0x10, 9, 0, 2], ("list", addrtext(host), 41230, 0, 0)]
        acks = [[b_ for b_ in o] for o in wrote]
        ok = acks[:1] == [[]] and len(acks) > 1 and (len(acks[1]) == 1 and acks[1][0][1:] == want[1:] and acks[1][0][0][:3] == want[0][:3] and acks[1][0][0][4:] == want[0][4:] if ask and host in ids else acks[1] == [])
        ctx.require(ok, "wired", where, "%s that asks for %s acknowledge makes the gateway write %s" % (name, "an" if ask else "no", wrote), p, key="ack")
        ctx.require(sent[0] == "result" and canon(None, sent[1]) in (True, 1), "wired", where, "sending to a node ends as %s" % (sent,), p, key="send")
        ctx.require(back is not None and back[0] is None and back[1] == [[4, 0, 0x2003]] and back[2] == [[0x20, 2]], "wired", where, "its connection delivers %s and is written %s" % ((back or (0, "nothing", 0))[1], (back or (0, 0, "nothing"))[2]), p, key="node")
    ctx.floor("wired", 6)
