"""Nodes: supervision, storing, node information, dispatch, addressing, interview."""
import asyncio

from . import check
from ..scenario import *  # noqa
from .waiters import Sender, stub

NODE = "pyzwave.node.Node"


class Net:
    """An adapter whose transmissions are recorded and answered by reply(message class name, command) -> bool/exception/None (= stays open)."""

    def __init__(self, w, reply=None, nodeid=1):
        self.w = w
        self.log = []  # (method, node, class name, canonical command, source end point, end point, timeout)
        self.cmds = []
        self.open = []
        self.reply = reply or (lambda n, c: True)
        self.ref = w.new("vstubs.StubAdapter", aio.fn(w.ip, self.hook))
        w.ip.setattr(self.ref, "nodeId", K(nodeid))

    def hook(self, args, kw):
        w = self.w
        f = aio.Future(w.ip)
        name = args[0].v
        if name not in ("send", "sendToNode"):
            self.log.append((name, [w.canon(a) for a in args[1:]]))
            f.finish("result", lift(self.reply(name, args[1:])))
            return f.ref
        cmd = args[2]
        cn = cname(w, cmd)
        self.log.append((name, w.canon(args[1]), cn, w.canon(args[3]), w.canon(args[4]), w.canon(args[5])))
        self.cmds.append(cmd)
        r = self.reply(cn, cmd)
        if r is None:
            self.open.append((f, cn, cmd))
        elif isinstance(r, type) and issubclass(r, BaseException):
            f.finish("exception", w.ip.call(BC(r), [], {}))
        else:
            f.finish("result", lift(r))
        return f.ref


def cname(w, m):
    c = w.ip.o(m).cls
    return ".".join(c.qualname.split(".")[-2:])


def mknode(w, net, ep, classes, nid=4):
    root = w.new(NODE, K(nid), net.ref, w.ip.mklist([K(x) for x in classes]))
    if not ep:
        return root, root
    return w.new("pyzwave.node.NodeEndPoint", root, K(ep), net.ref, w.ip.mklist([K(x) for x in classes])), root


def field(w, m, f):
    return w.canon(w.get(m, f))


def sbits(n, k=8):
    return BV([("r%s" % n, i) for i in range(k)] + [0] * 0)


@check("N01")
def n01(ctx):
    """A supervised command is answered exactly once, with its own session, saying whether it was handled."""
    stub(ctx)
    inners = ["waited", "handler", "handler declines", "listener", "class listener", "nobody", "unknown", "absent", "nested"]

    def run(ip):
        w = World(ip)
        net = Net(w, lambda n, c: w.sendres)
        w.sendres = True
        ep = w.choose(0, 2)
        node, root = mknode(w, net, ep, [0x70, 0x31, 0x25, 0x6C])
        kind = w.choose(*inners)
        heard = []
        w.call(node, "addListener", w.listener(onMessage=lambda s, m: heard.append(cname(w, m)) or (TRUE if kind == "listener" else NONE)))
        wrong = []
        if ep:
            w.call(root, "addListener", w.listener(onMessage=lambda s, m: wrong.append(cname(w, m)) or NONE))
        t = None
        inner = None
        if kind == "waited":
            t = w.spawn(node, "waitForMessage", ip.lookup("pyzwave.commandclass.SwitchBinary.Report"), timeout=9)
            inner = w.msg("SwitchBinary.Report", value=K(3))
        elif kind == "handler":
            inner = w.msg("Configuration.Report", parameterNumber=K(3), size=K(1), value=K(7))
        elif kind == "handler declines":
            inner = w.msg("SensorMultilevel.Report", sensorType=K(1))
        elif kind in ("listener", "nobody"):
            inner = w.msg("SwitchBinary.Report", value=K(3))
        elif kind == "class listener":
            cc = w.ip.call(w.ip.getattr(w.get(node, "supported"), "get"), [K(0x25)], {})
            w.call(cc, "addListener", w.listener(onReport=lambda s, m, f: TRUE))
            inner = w.msg("SwitchBinary.Report", value=K(3))
        elif kind == "unknown":
            inner = w.new("pyzwave.message.UnknownMessage", K(0x9905))
        elif kind == "nested":
            inner = w.msg("Supervision.Get", statusUpdates=FALSE, sessionID=K(9), command=w.msg("SwitchBinary.Report", value=K(3)))
        session = w.choose(0, 42, 63)
        w.sendres = w.choose(True, False)
        kw = {"command": inner} if inner is not None else {}
        m = w.msg("Supervision.Get", statusUpdates=FALSE, sessionID=K(session), **kw)
        r = w.spawn(node, "handleMessage", m, K(0))
        w.run()
        res = w.result(r)
        reps = [{f: field(w, c, f) for f in ("sessionID", "status", "moreStatusUpdates", "wakeUpRequest", "duration")} for c in net.cmds if cname(w, c) == "Supervision.Report"]
        wire = []
        for c in net.cmds:
            b, e = w.attempt(c, "compose")
            wire.append(e or w.canon(b))
        return ep, kind, session, res[0] if res[0] != "exception" else res[1], w.canon(res[1]) if res[0] == "result" else None, reps, net.log, wire, heard, wrong

    for p in ctx.scen("a supervised command", run, scfg()):
        where = "supervised commands"
        if not ctx.require(p.returned, "supervise", where, "raises %s" % p.exc_name(), p):
            continue
        ep, kind, session, st, val, reps, log, wire, heard, wrong = p.value
        name = "%s command to end point %d" % (kind, ep)
        ctx.require(st == "result", "supervise", where, "%s ends as %s" % (name, st), p, key=kind)
        handled = kind in ("waited", "handler", "listener", "class listener")
        ctx.require(bool(val) == handled, "supervise", where, "%s is reported as %s" % (name, val), p, key=kind + " result")
        want = {"sessionID": session, "status": 0xFF if handled else 0, "moreStatusUpdates": 0, "wakeUpRequest": 0, "duration": 0}
        if not ctx.require(len(reps) == 1 and len(log) == 1, "supervise", where, "%s is answered with %d reports (%s)" % (name, len(reps), log), p, key=kind + " count"):
            continue
        ctx.require(reps[0] == want, "supervise", where, "%s is answered with %s" % (name, reps[0]), p, key=kind + " report")
        ctx.require(log[0][:2] == ("sendToNode", 4) and log[0][3:5] == (0, ep), "supervise", where, "%s is answered to %s" % (name, log[0]), p, key=kind + " address")
        ctx.require(wire[0] == ("bytes", 0x6C, 0x02, session, want["status"], 0), "supervise", where, "%s is answered with the bytes %s" % (name, wire[0]), p, key=kind + " bytes")
        ctx.require(not wrong, "supervise", where, "%s is also given to the root node" % name, p, key=kind + " root")
        ctx.require("Supervision.Get" not in heard or kind == "nested", "supervise", where, "%s: the listeners hear the envelope" % name, p, key=kind + " envelope")

    def cut(ip):
        """A supervised command that ends before its session cannot be answered."""
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, w.choose(0, 2), [0x70, 0x6C])
        m = w.msg("Supervision.Get") if w.choose(False, True) else ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [K(bytes([0x6C, 1]))], {})
        t = w.spawn(node, "handleMessage", m, K(0))
        w.run()
        r = w.result(t)
        return r[0] if r[0] != "exception" else r[1], bool(r[0] == "result" and w.canon(r[1])), len(net.log)

    for p in ctx.scen("a supervised command without session", cut, scfg()):
        if ctx.require(p.returned, "cut", "supervised commands", "raises %s" % p.exc_name(), p):
            ctx.require(p.value == ("result", False, 0), "cut", "supervised commands", "one without a session ends as %s, handled: %s, answered %s times" % p.value, p)
    ctx.floor("supervise", 100)


@check("N02")
def n02(ctx):
    """Every change of a node is stored: at once, or exactly once when the last lock ends."""
    stub(ctx)
    depth = 8 if ctx.tier == "thorough" else 7

    def run(ip):
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, w.choose(0, 1), [0x72, 0x86])
        stored = []
        w.call(node, "addListener", w.listener(nodeUpdated=lambda s: stored.append(s == node)))
        cc = w.ip.call(w.ip.getattr(w.get(node, "supported"), "get"), [K(0x72)], {})
        locks, hist, out, dirty, tasks = [], [], [], False, []
        for k in range(depth):
            opts = ["change"]
            if len(locks) < 3:
                opts.append("lock")
            if locks:
                opts.append("unlock")
            if len(locks) > 1:
                opts.append("unlock first")
            a = w.choose(*opts) if k < depth - 1 else "change"
            if a == "change" and hist and hist[-1] == "change" and len(hist) > 1 and hist[-2] == "change":
                raise Infeasible()
            n = len(stored)
            hist.append(a)
            if a == "change":
                w.call(cc, "speak", "commandClassUpdated")
                want = 0 if locks else 1
                dirty = bool(locks)
            elif a == "lock":
                f = aio.Future(ip)
                locks.append(f)
                tasks.append(w.sched.spawn(ip.call(ip.lookup("vstubs.locked"), [node, aio.fn(ip, lambda a, k, f=f: f.ref)], {}), "locked"))
                want = 0
            else:
                c = locks.pop(0 if "first" in a else -1)
                how = w.choose("normal", "error", "cancelled") if k < 4 else "normal"
                hist[-1] += "" if how == "normal" else " (%s)" % how
                if how == "error":
                    c.finish("exception", w.ip.call(BC(ValueError), [], {}))
                else:
                    c.finish("result" if how == "normal" else "cancelled", NONE)
                want = 1 if not locks and dirty else 0
                if not locks:
                    dirty = False
            w.run()
            out.append((stored[n:], want))
        return hist, out

    for p in ctx.scen("changes inside and outside of locks", run, scfg(max_paths=200000)):
        where = "storage lock"
        if not ctx.require(p.returned, "store", where, "raises %s" % p.exc_name(), p):
            continue
        hist, out = p.value
        for i, (got, want) in enumerate(out):
            ctx.require(got == [True] * want, "store", where, "[%s] stores the node %d times instead of %d" % (", ".join(hist[:i + 1]), len(got), want), p)
    ctx.floor("store", 300)


NIFS = [
    [], [0x20], [0x20, 0x31], [0x20, 0xEF, 0x31], [0xEF, 0x31], [0xEF], [0x20, 0xF1, 0x00, 0x25], [0xF1, 0x00, 0x25, 0xEF, 0x31], [0x20, 0xF1, 0x00, 0x25, 0xEF, 0x31, 0x60],
    [0x20, 0xEF, 0x31, 0xF1, 0x00, 0x25], [0x20, 0xEF, 0x31, 0xF1, 0x00, 0x25, 0xEF, 0x60], [0xF1, 0x00], [0x20, 0xF1], [0x20, 0xF1, 0x00], [0x20, 0xEF, 0x20], [0x02, 0x5E], [0x5E, 0xEF, 0x20, 0xF1],
    [0x99, 0x20], [0x20, 0xEF, 0x5E], [0x86, 0xEF, 0x20, 0xEF, 0x25], [0x86, 0xF1, 0x00, 0x25, 0xEF, 0x31, 0xEF, 0x60], [0xEF, 0xEF, 0x20], [0x20, 0xF1, 0x00, 0x25, 0xF1, 0x00, 0x60],
    [0x60, 0x25, 0x5E, 0x20, 0xEF, 0x20, 0x25, 0x72], [0x20, 0x00, 0x25], [0x20, 0xF1, 0x31, 0x25],
]


def parse_nif(l):
    """supported: id -> security S0; the meaning of a node information frame's command class list."""
    sup, secure, ctrl, i = {}, False, False, 0
    while i < len(l):
        if l[i] == 0xF1 and l[i + 1:i + 2] == [0]:
            secure, ctrl = True, False
            i += 2
            continue
        if l[i] == 0xEF:
            ctrl = True
        elif not ctrl and l[i] != 0xF1:
            sup[l[i]] = secure
        i += 1
    return sup


@check("N03")
def n03(ctx):
    """The command class list of a node is read as supported, secured and controlled classes."""
    stub(ctx)

    def run(ip):
        w = World(ip)
        net = Net(w)
        k = ip.choose(len(NIFS), "list")
        ep = w.choose(0, 1)
        if ep:
            root, _ = mknode(w, net, 0, w.choose([], [0x31, 0x5E, 0x60, 0xEF, 0x22]))
            node, e = w.guard(lambda: w.new("pyzwave.node.NodeEndPoint", root, K(3), net.ref, ip.mklist([K(x) for x in NIFS[k]])))
        else:
            node, e = w.guard(lambda: w.new(NODE, K(4), net.ref, ip.mklist([K(x) for x in NIFS[k]])))
        if e:
            return NIFS[k], e, None, None, None, None
        stored = []
        w.call(node, "addListener", w.listener(nodeUpdated=lambda s: stored.append(1)))
        out, zp = {}, w.canon(w.get(node, "isZWavePlus"))
        d = w.get(node, "supported")
        for c in ip.iter_elems(d)[0]:
            cc = ip.call(ip.getattr(d, "get"), [c], {})
            del stored[:]
            w.call(cc, "speak", "commandClassUpdated")
            w.run()
            out[w.canon(c)] = (w.canon(w.get(cc, "securityS0")), w.canon(w.get(cc, "id")), w.get(cc, "node") == node, len(stored), ip.o(cc).cls.qualname)
        sup = [x for x in range(256) if w.true(w.call(node, "supports", K(x)))]
        ids = [w.canon(w.get(node, "nodeId")), w.canon(w.get(node, "rootNodeId")), w.canon(w.get(node, "endpoint"))]
        return NIFS[k], None, out, sup, zp, (ids, ep)

    for p in ctx.scen("command class lists", run, scfg()):
        where = "command class list of a node"
        if not ctx.require(p.returned, "nif", where, "raises %s" % p.exc_name(), p):
            continue
        lst, e, out, sup, zp, ids = p.value
        name = "the list %s" % " ".join("%02X" % x for x in lst)
        if not ctx.require(e is None, "nif", where, "%s raises %s" % (name, e), p, key="raises"):
            continue
        want = parse_nif(lst)
        got = {c: v for c, v in out.items() if c not in (0, 0xF1)}
        ctx.require(set(got) == set(want) - {0} and [x for x in sup if x not in (0, 0xF1)] == sorted(set(want) - {0}), "nif", where, "%s is read as %s" % (name, sorted(got)), p)
        ctx.require(bool(zp) == (0x5E in want), "nif", where, "%s: Z-Wave Plus is %s" % (name, zp), p)
        for c, v in got.items():
            if c not in want:
                continue
            ctx.require(bool(v[0]) == want[c], "secure", where, "%s: class %02X needs security: %s" % (name, c, v[0]), p)
            ctx.require(v[1] == c and v[2] is True, "nif", where, "%s: class %02X says it is %s of %s" % (name, c, v[1], v[2]), p)
            ctx.require(v[3] == 1, "nif", where, "%s: a change of class %02X stores the node %d times" % (name, c, v[3]), p)
        ctx.require(ids[0] == ["4:%d" % (3 if ids[1] else 0), 4, 3 if ids[1] else 0], "nif", where, "the node calls itself %s" % ids[0], p)
    ctx.floor("nif", 60)


@check("N04")
def n04(ctx):
    """A command reaches the waiting request, its command class and the listeners at most once each, and nobody else."""
    stub(ctx)

    def run(ip):
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, 0, [0x70, 0x25] if w.choose(True, False) else [0x25, 0x72])
        conf = w.true(w.call(node, "supports", K(0x70)))
        kind = w.choose("Configuration.Report", "SwitchBinary.Report", "SwitchBinary.Set", "Basic.Set", "unknown")
        wait = w.choose(None, "same", "other")
        cl = w.choose(None, "declines", "takes", "fails")
        ls = [w.choose("declines", "takes"), w.choose("declines", "takes", "fails")]
        heard, cheard = [], []

        def one(i):
            def f(s, m):
                heard.append((i, cname(w, m), s == node))
                if ls[i] == "fails":
                    ip.throw(ValueError, "listener")
                return TRUE if ls[i] == "takes" else NONE
            return f
        for i in (0, 1):
            w.call(node, "addListener", (w.alistener if i else w.listener)(onMessage=one(i)))

        def cfn(i, n):
            def f(s, m, fl):
                cheard.append((i, n, cname(w, m), w.canon(fl)))
                if cl == "fails":
                    ip.throw(ValueError, "listener")
                return TRUE if cl == "takes" else NONE
            return f
        if cl:
            for i in (0x25, 0x70, 0x72):
                if w.true(w.call(node, "supports", K(i))):
                    cc = ip.call(ip.getattr(w.get(node, "supported"), "get"), [K(i)], {})
                    w.call(cc, "addListener", w.listener(onReport=cfn(i, "onReport"), onSet=cfn(i, "onSet"), onGet=cfn(i, "onGet")))
        t = None
        mk = {"Configuration.Report": dict(parameterNumber=K(3), size=K(1), value=K(7)), "SwitchBinary.Report": dict(value=K(1)), "SwitchBinary.Set": dict(value=K(1)), "Basic.Set": dict(value=K(1))}
        if wait:
            wt = kind if wait == "same" else "Version.VersionReport"
            if wt == "unknown":
                wt = "Version.VersionReport"
            t = w.spawn(node, "waitForMessage", ip.lookup("pyzwave.commandclass." + wt), timeout=9)
        m = w.new("pyzwave.message.UnknownMessage", K(0x2503)) if kind == "unknown" else w.msg(kind, **mk[kind])
        r = w.spawn(node, "handleMessage", m, K(11))
        w.run()
        res = w.result(r)
        got = None
        if t:
            x = w.result(t)
            got = x[0] if x[0] != "result" else x[1] == m
        return conf, kind, wait, cl, ls, heard, cheard, res[0], w.canon(res[1]) if res[0] == "result" else res[1:], got, [x[2] for x in net.log]

    for p in ctx.scen("one command to a node", run, scfg(max_paths=100000)):
        where = "commands of a node"
        if not ctx.require(p.returned, "dispatch", where, "raises %s" % p.exc_name(), p):
            continue
        conf, kind, wait, cl, ls, heard, cheard, st, val, got, sent = p.value
        name = "%s (%s, waited for: %s, class listener %s, listeners %s)" % (kind, "with configuration" if conf else "without", wait, cl, ls)
        if not ctx.require(st == "result", "dispatch", where, "%s ends as %s %s" % (name, st, val), p):
            continue
        waited = wait == "same" and kind != "unknown"
        if wait:
            ctx.require(got == (True if waited else "pending"), "dispatch", where, "%s: the waiting request is %s" % (name, got), p, key="waiting")
        handler = kind == "Configuration.Report" and conf
        cid = {"Configuration.Report": 0x70, "SwitchBinary.Report": 0x25, "SwitchBinary.Set": 0x25}.get(kind)
        hascl = cl and cid and (cid != 0x70 or conf) and not handler
        wantc = [(cid, "on" + kind.split(".")[1], kind, 11)] if hascl else []
        ctx.require(cheard == wantc, "dispatch", where, "%s: the command class listeners hear %s" % (name, cheard), p, key="class")
        taken = handler or hascl and cl == "takes"
        wantl = [] if taken or waited else [(i, "message.UnknownMessage" if kind == "unknown" else kind, True) for i in (0, 1)]
        ctx.require(sorted(heard) == wantl, "dispatch", where, "%s: the listeners hear %s" % (name, heard), p, key="listeners")
        ok = taken or waited or "takes" in ls
        ctx.require(bool(val) == ok, "dispatch", where, "%s is reported as %s" % (name, val), p, key="result")
        ctx.require(not sent, "dispatch", where, "%s: %s is sent" % (name, sent), p, key="sent")
    def twice(ip):
        """The same object again, an equal command, and an unequal one."""
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, w.choose(0, 2), [0x70, 0x25])
        kind = w.choose("SwitchBinary.Report", "Basic.Set", "Configuration.Report")
        mk = (lambda v: dict(parameterNumber=K(3), size=K(1), value=K(v))) if kind == "Configuration.Report" else lambda v: dict(value=K(v))
        heard, cheard, stored = [], [], []
        takes = w.choose(True, False)
        w.call(node, "addListener", w.listener(onMessage=lambda s, m: heard.append(m.oid) or (TRUE if takes else NONE), nodeUpdated=lambda s: stored.append(1)))
        cc = ip.call(ip.getattr(w.get(node, "supported"), "get"), [K(0x25)], {})
        w.call(cc, "addListener", w.listener(onReport=lambda s, m, fl: cheard.append(m.oid) or NONE))
        a, b, c = (w.msg(kind, **mk(v)) for v in (1, 1, 0))
        order = w.choose((a, a, b), (a, b, a), (a, c, a), (c, c, b))
        res = []
        for m in order:
            t = w.spawn(node, "handleMessage", m, K(0))
            w.run()
            x = w.result(t)
            res.append((x[0], w.canon(x[1]) if x[0] == "result" else x[1:]))
        return kind, takes, [m.oid for m in order], heard, cheard, len(stored), res

    for p in ctx.scen("several commands to a node", twice, scfg()):
        where = "commands of a node"
        if not ctx.require(p.returned, "dispatch", where, "several commands: raises %s" % p.exc_name(), p):
            continue
        kind, takes, order, heard, cheard, stored, res = p.value
        conf = kind == "Configuration.Report"
        name = "%s three times, some of them alike" % kind
        ctx.require(all(x[0] == "result" and bool(x[1]) == (conf or takes) for x in res), "dispatch", where, "%s: reported as %s" % (name, res), p, key="again result")
        ctx.require(heard == ([] if conf else order), "dispatch", where, "%s: the listener hears %d of them" % (name, len(heard)), p, key="again listeners")
        ctx.require(cheard == (order if kind == "SwitchBinary.Report" else []), "dispatch", where, "%s: the listener of the class hears %d of them" % (name, len(cheard)), p, key="again class")
        ctx.require(stored == (3 if conf else 0), "dispatch", where, "%s: the node is stored %d times" % (name, stored), p, key="again stored")
    ctx.floor("dispatch", 150)


@check("N05")
def n05(ctx):
    """What is sent through a node or a command class goes to that node's end point, with the given command and time limit."""
    stub(ctx)

    def run(ip):
        w = World(ip)
        state = w.choose(True, False, OSError, None)
        net = Net(w, lambda n, c: state)
        ep = w.choose(0, 1, 7)
        node, root = mknode(w, net, ep, [0x25, 0x70])
        mood = w.choose("", "failed and asleep", "failed", "flirs")
        if mood:
            # what is known about the node does not keep a command from being sent
            ip.setattr(root, "flirs" if mood == "flirs" else "isFailed", TRUE)
            ip.setattr(root, "listening", FALSE if mood != "failed" else TRUE)
        via = w.choose("node", "class", "receive", "class receive", "set", "get")
        tmo = None if via in ("set", "get") else w.choose(None, 9)
        kw = {} if tmo is None else {"timeout": K(tmo)}
        o = node
        if "class" in via or via in ("set", "get"):
            o = ip.call(ip.getattr(w.get(node, "supported"), "get"), [K(0x70 if via in ("set", "get") else 0x25)], {})
        m = w.msg("SwitchBinary.Get")
        if via in ("node", "class"):
            t = w.spawn(o, "send", m, **kw)
        elif via == "set":
            t = w.spawn(o, "set", K(3), K(1), K(5))
        elif via == "get":
            t = w.spawn(o, "get", K(3))
        else:
            t = w.spawn(o, "sendAndReceive", m, ip.lookup("pyzwave.commandclass.SwitchBinary.Report"), **kw)
        w.run()
        want = "Configuration." + via.title() if via in ("set", "get") else "SwitchBinary.Get"
        res = w.result(t)
        tos = [const(x.timeout) for x in w.sched.timeouts()]
        same = via in ("set", "get") or len(net.cmds) == 1 and net.cmds[0] == m
        return ep, via, mood, tmo, state.__name__ if isinstance(state, type) else state, net.log, want, same, res[0] if res[0] != "exception" else res[1], w.canon(res[1]) if res[0] == "result" else None, tos

    for p in ctx.scen("sending", run, scfg()):
        where = "sending to a node"
        if not ctx.require(p.returned, "address", where, "raises %s" % p.exc_name(), p):
            continue
        ep, via, mood, tmo, state, log, want, same, st, val, tos = p.value
        name = "%s to end point %d%s" % (via, ep, mood and " (%s)" % mood)
        if not ctx.require(len(log) == 1 and same, "address", where, "%s sends %s" % (name, log), p):
            continue
        l = log[0]
        ctx.require(l[0] == "sendToNode" and l[1] == 4 and l[2] == want and l[3] == 0 and l[4] == ep, "address", where, "%s sends %s" % (name, l), p)
        if via in ("node", "class"):
            ctx.require(l[5] == (tmo or 3), "address", where, "%s with timeout %s sends with %s" % (name, tmo, l[5]), p, key="timeout")
        answering = via in ("receive", "class receive", "get")
        if state is None:
            ctx.require(st == "pending", "result", where, "%s ends as %s while it is being sent" % (name, st), p)
        elif state == "OSError":
            ctx.require(st == "OSError", "result", where, "%s that cannot be sent ends as %s" % (name, st), p)
        elif answering:
            ctx.require(st == ("pending" if state else "TimeoutError"), "result", where, "%s, %s, ends as %s" % (name, "sent" if state else "not sent", st), p)
            if state:
                ctx.require(tos == [tmo or 3], "result", where, "%s with timeout %s waits %s s" % (name, tmo, tos), p, key="wait")
        else:
            ctx.require(st == "result" and bool(val) == state, "result", where, "%s, %s, ends as %s %s" % (name, "sent" if state else "not sent", st, val), p)
    ctx.floor("address", 60)


INTERVIEW = '''
from pyzwave.commandclass import ZWaveCommandClass
from pyzwave.commandclass.CommandClass import CommandClass


@ZWaveCommandClass(0x9D)
class Programmable(CommandClass):
    """A command class of the application."""

    NAME = "PROGRAMMABLE"
    script = None

    async def interview(self):
        return await self.script()
'''


@check("N06")
def n06(ctx):
    """Interviewing a node interviews each of its command classes once; what one class does not answer costs no other class."""
    stub(ctx)
    versions = {0x86: 2, 0x72: 1, 0x5E: 2}
    order = [0x86, 0x20, 0x72, 0x99, 0x5E]

    def run(ip):
        w = World(ip)
        asked = []
        net = Net(w, None)
        net.reply = lambda n, c: reply(n, c)
        ep = w.choose(0, 1)
        node, _ = mknode(w, net, ep, order)
        kinds = {}

        def reply(n, c):
            k = n if n != "Version.VersionCommandClassGet" else n + " %x" % field(w, c, "requestedCommandClass")
            asked.append(k)
            if k not in kinds:
                kinds[k] = w.choose("answer", "silence", "not sent") if "%x" not in n and k in ("Version.VersionGet", "ManufacturerSpecific.Get", "Version.VersionCommandClassGet 86", "Version.VersionCommandClassGet 5e", "Version.VersionCommandClassGet 20") else "answer"
            how = kinds[k]
            if how == "not sent":
                return False
            if how == "answer":
                ans = None
                if n == "Version.VersionCommandClassGet":
                    ans = w.msg("Version.VersionCommandClassReport", requestedCommandClass=w.get(c, "requestedCommandClass"), commandClassVersion=K(versions.get(field(w, c, "requestedCommandClass"), 1)))
                elif n == "Version.VersionGet":
                    ans = w.msg("Version.VersionReport", zwaveLibraryType=K(6), zwaveProtocolVersion=K(1), zwaveProtocolSubVersion=K(2), applicationVersion=K(3), applicationSubVersion=K(4))
                elif n == "ManufacturerSpecific.Get":
                    ans = w.msg("ManufacturerSpecific.Report", manufacturerID=K(0x86), productTypeID=K(1), productID=K(0x63))
                elif n == "ZwavePlusInfo.Get":
                    ans = w.msg("ZwavePlusInfo.Report", zwavePlusVersion=K(1), roleType=K(5), nodeType=K(0), installerIconType=K(0x700), userIconType=K(0x700))
                if ans is not None:
                    w.start(node, "handleMessage", ans, K(0))
            return True
        t = w.spawn(node, "interview")
        for _ in range(40):
            w.run()
            tos = w.sched.timeouts()
            if t.done() or not tos:
                break
            w.sched.fire(tos[0])
        w.run()
        res = w.result(t)
        st = {}
        d = w.get(node, "supported")
        for c in order:
            cc = ip.call(ip.getattr(d, "get"), [K(c)], {})
            st[c] = (w.canon(w.get(cc, "interviewed")), w.canon(w.get(cc, "version")))
        return ep, asked, dict(kinds), res[0] if res[0] != "exception" else res[1], st

    def rude(ip):
        """One class whose interview does not get an answer in time, wherever that surfaces."""
        w = World(ip)
        seen = []
        ep = w.choose(0, 1)
        node, _ = mknode(w, Net(w), ep, order)
        k = ip.choose(len(order) + 1, "silent class")
        kind = w.choose(asyncio.TimeoutError, TypeError, ConnectionError, KeyError)
        d = w.get(node, "supported")
        for i, c in enumerate(order):
            def interview(args, kw, i=i, c=c):
                seen.append(c)
                f = aio.Future(w.ip)
                if i == k or k == len(order):
                    f.finish("exception", w.ip.call(BC(kind), [], {}))
                else:
                    f.finish("result", NONE)
                return f.ref
            ip.setattr(ip.call(ip.getattr(d, "get"), [K(c)], {}), "interview", aio.fn(w.ip, interview))
        t = w.spawn(node, "interview")
        w.run()
        r = w.result(t)
        return ep, k, seen, r[0] if r[0] != "exception" else r[1], kind.__name__

    full = {"Version.VersionGet": (0x86, [0x86, 0x12, 6, 1, 2, 3, 4]), "ManufacturerSpecific.Get": (0x72, [0x72, 5, 0, 0x86, 0, 1, 0, 0x63]), "ZwavePlusInfo.Get": (0x5E, [0x5E, 2, 1, 5, 0, 7, 0, 7, 1]),
            "SensorMultilevel.SupportedGetSensor": (0x31, [0x31, 2, 3]), "SensorMultilevel.SupportedGetScale": (0x31, [0x31, 6, None, 1]), "Association.GroupingsGet": (0x85, [0x85, 6, 2]), "Association.Get": (0x85, [0x85, 3, None, 5, 0, 1, 9]),
            "Version.VersionCommandClassGet": (0x72, [0x86, 0x14, 0x72, 5])}
    fields = {0x86: (("zwaveLibraryType", 1), ("zwaveProtocolVersion", 1), ("zwaveProtocolSubVersion", 1), ("applicationVersion", 1), ("applicationSubVersion", 1)),
              0x72: (("manufacturerID", 2), ("productTypeID", 2), ("productID", 2)),
              0x5E: (("zwavePlusVersion", 1), ("roleType", 1), ("nodeType", 1), ("installerIconType", 2), ("userIconType", 2))}
    all6 = [0x86, 0x31, 0x72, 0x85, 0x5E, 0x20]

    def short(ip):
        """One answer ends early: its own class may stay without an interview, no other does."""
        w = World(ip)
        net = Net(w, None)
        node, _ = mknode(w, net, w.choose(0, 1), all6)
        d = w.get(node, "supported")
        cc = {c: ip.call(ip.getattr(d, "get"), [K(c)], {}) for c in all6}
        victim = w.choose(*full)
        cut = w.choose(*range(2, len(full[victim][1])))
        for c in fields:
            for f, n in fields[c]:
                ip.setattr(cc[c], f, K(99))

        def reply(n, c):
            raw = None
            if n == "Version.VersionCommandClassGet":
                x = field(w, c, "requestedCommandClass")
                raw = [0x86, 0x14, x, 5]
                hit = x == 0x72
            elif n in full:
                raw = list(full[n][1])
                hit = True
                for f in ("sensorType", "groupingIdentifier"):
                    x = w.get(c, f) if None in raw else NONE
                    if x != NONE:
                        x = w.canon(x)
                        raw[2] = x[-1] if isinstance(x, tuple) else x
            if raw is not None:
                m, e = w.guard(lambda: ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [K(bytes(raw[:cut] if hit and n == victim else raw))], {}))
                if not e:
                    w.start(node, "handleMessage", m, K(0))
            return True
        net.reply = reply
        t = w.spawn(node, "interview")
        for _ in range(60):
            w.run()
            tos = w.sched.timeouts()
            if t.done() or not tos:
                break
            w.sched.fire(tos[0])
        r = w.result(t)
        st = {c: w.canon(w.get(cc[c], "interviewed")) for c in all6}
        known = {c: {f: w.canon(w.get(cc[c], f)) for f, n in fields[c]} for c in fields}
        return victim, cut, r[0] if r[0] != "exception" else r[1], st, known

    for p in ctx.scen("answers that end early", short, scfg(max_paths=100000)):
        where = "interview of a node"
        if not ctx.require(p.returned, "short", where, "raises %s" % p.exc_name(), p):
            continue
        victim, cut, st, iv, known = p.value
        name = "with the answer to %s ending after %d bytes" % (victim, cut)
        ctx.require(st == "result", "short", where, "%s the interview ends as %s" % (name, st), p, key="short")
        v = full[victim][0]
        for c in all6:
            if c != v:
                ctx.require(iv[c] == 1, "short", where, "%s class %02X is not interviewed" % (name, c), p, key="short %02X" % c)
        for c in fields:
            at = 2
            for f, n in fields[c]:
                raw = next(b for k, (x, b) in full.items() if x == c and k != "Version.VersionCommandClassGet")
                new = int.from_bytes(bytes(raw[at:at + n]), "big")
                at += n
                old = c == v and victim == "Version.VersionCommandClassGet"
                whole = c != v or not old and at <= cut
                must = c != v or (c == 0x5E and cut >= 5 and cut != 6 and cut != 8 and whole)
                got = known[c][f]
                ctx.require(got == new if must else got in ((99, new) if whole else (99,)), "short", where, "%s %s is %s" % (name, f, got), p, key="short %s" % f)
    ctx.floor("short", 100)

    outcomes = ("True", "None", "False", "timeout")

    def twice(ip):
        """A class of the application, interviewed twice with outcomes of its own."""
        w = World(ip)
        net = Net(w, None)
        net.reply = lambda n, c: n == "Version.VersionCommandClassGet" and w.start(node, "handleMessage", w.msg("Version.VersionCommandClassReport", requestedCommandClass=w.get(c, "requestedCommandClass"), commandClassVersion=K(3)), K(0)) is not None or True
        node, _ = mknode(w, net, w.choose(0, 1), [0x9D, 0x20])
        d = w.get(node, "supported")
        cc = ip.call(ip.getattr(d, "get"), [K(0x9D)], {})
        how = [w.choose(*outcomes), w.choose(*outcomes)]
        left = list(how)
        runs = []

        def script(args, kw):
            runs.append(w.canon(w.get(cc, "version")))
            f = aio.Future(w.ip)
            k = left.pop(0) if left else "True"
            if k == "timeout":
                f.finish("exception", w.ip.call(BC(asyncio.TimeoutError), [], {}))
            else:
                f.finish("result", K({"True": True, "False": False, "None": None}[k]))
            return f.ref
        ip.setattr(cc, "script", aio.fn(ip, script))
        out = []
        for _i in range(2):
            t = w.spawn(node, "interview")
            w.run()
            other = ip.call(ip.getattr(d, "get"), [K(0x20)], {})
            out.append((w.result(t)[0], w.canon(w.get(cc, "interviewed")), w.canon(w.get(other, "interviewed")), list(runs)))
            del runs[:]
        return how, out

    ctx.ip.load_extra("vinterview", INTERVIEW)
    for p in ctx.scen("interviewing a class of the application twice", twice, scfg()):
        where = "interview of a node"
        if ctx.require(p.returned, "twice", where, "raises %s" % p.exc_name(), p):
            how, out = p.value
            for i, (st, iv, other, runs) in enumerate(out):
                name = "with the interviews of a class ending as %s, after the %s one" % (" and ".join(how), ("first", "second")[i])
                ctx.require(st == "result" and runs == [3] and other == 1, "twice", where, "%s: node interview ends as %s, the class was interviewed with versions %s, the next class is interviewed: %s" % (name, st, runs, other), p, key="twice")
                ctx.require(bool(iv) == (how[i] in ("True", "None")), "twice", where, "%s: it says interviewed %s" % (name, iv), p, key="twice state")

    for p in ctx.scen("a class that does not answer", rude, scfg()):
        where = "interview of a node"
        if ctx.require(p.returned, "silent", where, "raises %s" % p.exc_name(), p):
            ep, k, seen, st, kind = p.value
            ctx.require(st == "result" and seen == order, "silent", where, "with %s ending as " % ("%02X" % order[k] if k < len(order) else "every class") + kind + " the classes %s are interviewed and it ends as %s" % (["%02X" % x for x in seen], st), p, key="silent")

    for p in ctx.scen("interviewing a node", run, scfg(max_paths=100000)):
        where = "interview of a node"
        if not ctx.require(p.returned, "interview", where, "raises %s" % p.exc_name(), p):
            continue
        ep, asked, kinds, st, state = p.value
        name = "with %s" % {k: v for k, v in kinds.items() if v != "answer"}
        ctx.require(st == "result", "interview", where, "%s the interview ends as %s" % (name, st), p)
        want = []
        inter = {}
        get = {0x86: "Version.VersionGet", 0x72: "ManufacturerSpecific.Get", 0x5E: "ZwavePlusInfo.Get"}
        for c in order:
            # 0x99 is unknown: its version cannot be asked with the library's own table
            v = 0
            k = "Version.VersionCommandClassGet %x" % c
            want.append(k)
            if kinds.get(k, "answer") == "answer":
                v = versions.get(c, 1)
            ok = bool(v)
            if v and c in get:
                want.append(get[c])
                ok = kinds.get(get[c], "answer") == "answer"
            inter[c] = (1 if ok else 0, v)
        ctx.require(asked == want, "order", where, "%s the node is asked %s" % (name, asked), p)
        for c in order:
            ctx.require(state[c] == inter[c], "state", where, "%s class %02X is %s (interviewed, version)" % (name, c, state[c]), p, key="state %02X" % c)
    ctx.floor("interview", 60)
