"""Application: the node list, loading of nodes, routing of messages, startup."""
import asyncio

from . import check
from ..scenario import *  # noqa
from ..stubs import SRC

APP = "pyzwave.application.Application"
MC = 0x60  # multi channel
EPS = {7: 2}  # end points of the nodes that have any


class Ad:
    """Adapter whose answers the scenario gives one by one."""

    def __init__(self, w, nodeid=1):
        self.w = w
        self.open = []  # (future, name, args)
        self.list = []
        self.failed = []
        self.eps = EPS
        self.ref = w.new("vstubs.StubAdapter", aio.fn(w.ip, self.hook))
        w.ip.setattr(self.ref, "nodeId", K(nodeid))
        self.auto = False
        self.seen = []

    def hook(self, args, kw):
        name, rest = args[0].v, args[1:]
        self.seen.append((name, [self.w.canon(a) for a in rest]))
        f = aio.Future(self.w.ip)
        if self.auto:
            f.finish("result", self.value(name, rest))
        else:
            self.open.append((f, name, rest))
        return f.ref

    def value(self, name, args):
        w = self.w
        if name == "getNodeList":
            return w.ip.mkset([K(x) for x in self.list])
        if name == "getFailedNodeList":
            return w.ip.mkset([K(x) for x in self.failed])
        n = args[0].v
        if name == "getNodeInfo":
            cc = bytes([0x20] + ([MC] if n in self.eps else []))
            return w.msg("NetworkManagementProxy.NodeInfoCachedReport", listening=TRUE if n % 2 else FALSE, basicDeviceClass=K(10 + n), genericDeviceClass=K(20 + n), specificDeviceClass=K(30 + n), commandClass=K(cc))
        if name == "getMultiChannelEndPoints":
            return K(self.eps.get(n, 0))
        if name == "getMultiChannelCapability":
            e = args[1].v
            return w.msg("NetworkManagementProxy.MultiChannelCapabilityReport", genericDeviceClass=K(40 + e), specificDeviceClass=K(50 + e), commandClass=K(bytes([0x25, 0x20 + e])))
        return TRUE

    def answer(self, i=0, fail=False):
        f, name, args = self.open.pop(i)
        if f.done():
            return
        if fail:
            f.finish("exception", self.w.ip.call(BC(asyncio.TimeoutError), [], {}))
        else:
            f.finish("result", self.value(name, args))
        self.w.run()

    def drain(self, n=200):
        while self.open and n:
            self.answer()
            n -= 1
        return n > 0


class Log:
    """Listener of the application that records what it is told, optionally taking its time."""

    def __init__(self, w, slow=()):
        self.w = w
        self.log = []
        self.open = []
        self.slow = slow
        self.ref = w.alistener(**{n: (lambda s, *a, n=n: self.told(n, s, *a)) for n in ("nodeAdded", "nodesAdded", "nodeRemoved", "nodesRemoved")})

    def told(self, n, s, *a):
        w = self.w
        v = a[0]
        if n == "nodeAdded":
            v = (ident(w, v), v.oid)
        elif n == "nodesAdded":
            v = [(ident(w, x), x.oid) for x in w.ip.iter_elems(v)[0]]
        else:
            v = w.canon(v)
        self.log.append((n, v))
        if n in self.slow:
            f = aio.Future(w.ip)
            self.open.append(f)
            w.wait(f)
        return NONE

    def drain(self):
        while self.open:
            f = self.open.pop(0)
            if not f.done():
                f.finish("result", NONE)
            self.w.run()


def ident(w, node):
    return w.canon(w.get(node, "nodeId"))


def nodes(w, app):
    d = w.get(app, "nodes")
    out = {}
    for k in w.ip.iter_elems(d)[0]:
        v = w.ip.call(w.ip.getattr(d, "get"), [k], {})
        out[w.canon(k)] = v.oid
    return out


def expected(lst, ctrl=1, eps=EPS):
    out = set()
    for n in lst:
        if n != ctrl:
            out.add("%d:0" % n)
            for e in range(1, eps.get(n, 0) + 1):
                out.add("%d:%d" % (n, e))
    return out


def replay(log):
    """What the listeners know after these notifications, and what was odd on the way."""
    batch, single, odd = {}, {}, []
    removed_b = []
    removed_s = []
    for what, v in log:
        if what == "nodesAdded":
            for i, o in v:
                if batch.get(i) == o:
                    odd.append("node %s announced twice" % i)
                elif i in batch:
                    odd.append("node %s announced again as another object" % i)
                batch[i] = o
        elif what == "nodeAdded":
            i, o = v
            if batch.get(i) != o:
                odd.append("node %s added without being announced in the batch" % i)
            if single.get(i) == o:
                odd.append("node %s added twice" % i)
            single[i] = o
        elif what == "nodeRemoved":
            removed_s.append(v)
            if v not in batch:
                odd.append("node %s removed that was never announced" % v)
            batch.pop(v, None)
            single.pop(v, None)
        elif what == "nodesRemoved":
            removed_b += list(v[1:])
    if sorted(removed_s) != sorted(removed_b):
        odd.append("nodeRemoved for %s, nodesRemoved for %s" % (removed_s, removed_b))
    return batch, single, odd


NETS = [(), (1,), (4,), (1, 4, 9), (4, 9, 40), (1, 4, 7, 9, 40, 232), (2, 9, 232), (7, 40)]
MANY = {4: 1, 9: 0, 40: 5, 232: 127}


def networks(ip, startup):
    """Controllers, node ids and numbers of end points of many kinds; every answer at once."""
    w = World(ip)
    own = w.choose(1, 4, 9, 40, 232)
    ad = Ad(w, own)
    ad.eps = MANY
    ad.auto = True
    log = Log(w)
    app = w.new(APP, ad.ref, log.ref)
    a, b = NETS[ip.choose(len(NETS), "first list")], NETS[ip.choose(len(NETS), "second list")]
    ad.list = list(a)
    out = []
    if startup:
        ad.failed = w.choose([], [own], [2, 4], [250])
        t = w.spawn(app, "startup")
        w.run()
        out.append(w.result(t)[0])
    else:
        w.call(ad.ref, "speak", "nodeListUpdated")
        w.run()
        out.append("result")
    first = nodes(w, app)
    ad.list = list(b)
    w.call(ad.ref, "speak", "nodeListUpdated")
    w.run()
    return own, a, b, list(ad.failed), out, first, nodes(w, app), log.log


def judge(ctx, startup):
    for p in ctx.scen("networks of many kinds", lambda ip: networks(ip, startup), scfg(max_paths=10000)):
        where = "startup" if startup else "updating the node list"
        if not ctx.require(p.returned, "network", where, "raises %s" % p.exc_name(), p):
            continue
        own, a, b, failed, res, first, then, log = p.value
        name = "controller %d, lists %s and %s%s" % (own, list(a), list(b), ", failed %s" % failed if failed else "")
        ctx.require(res == ["result"], "network", where, "%s: ends as %s" % (name, res), p, key="ends")
        ctx.require(set(first) == expected(a, own, MANY), "network", where, "%s: the nodes are %s" % (name, sorted(first)), p, key="first")
        ctx.require(set(then) == expected(b, own, MANY), "network", where, "%s: the nodes are %s" % (name, sorted(then)), p, key="second")
        ctx.require(all(then[n] == o for n, o in first.items() if n in then), "network", where, "%s: nodes that stay are loaded again" % name, p, key="stay")
        batch, single, odd = replay(log)
        ctx.require(not odd and batch == then and single == then, "network", where, "%s: the listeners know %s / %s: %s" % (name, sorted(batch), sorted(single), "; ".join(odd)), p, key="known")
    ctx.floor("network", 300)


@check("A01")
def a01(ctx):
    """The application's nodes follow the node list, and the listeners are told about every change exactly once."""
    ctx.ip.load_extra("vstubs", SRC)
    lists = [(1, 4), (1, 4, 7), (1, 7), (1,)]
    depth = 6 if ctx.tier == "thorough" else 5

    def run(ip):
        w = World(ip)
        ad = Ad(w)
        slow = w.choose((), ("nodesAdded",), ("nodeRemoved",))
        log = Log(w, slow)
        app = w.new(APP, ad.ref, log.ref)
        hist, failed = [], False
        ad.auto = True
        ad.list = list(lists[0])
        w.call(ad.ref, "speak", "nodeListUpdated")
        w.run()
        log.drain()
        ad.auto = False
        for k in range(depth):
            opts = ["update"] if hist.count("update") < 3 else []
            if ad.open:
                opts.append("first")
            if len(ad.open) > 1:
                opts.append("last")
            if ad.open and not failed:
                opts.append("fail")
            if log.open:
                opts.append("listener")
            if not opts:
                break
            a = w.choose(*opts) if k else "update"
            hist.append(a)
            if a == "update":
                ad.list = list(lists[ip.choose(3, "node list") + 1])
                hist.append(ad.list)
                w.call(ad.ref, "speak", "nodeListUpdated")
                w.run()
            elif a == "listener":
                log.open.pop(0).finish("result", NONE)
                w.run()
            else:
                failed = failed or a == "fail"
                ad.answer(-1 if a == "last" else 0, a == "fail")
        def settle():
            for _ in range(200):
                if not ad.open and not log.open:
                    return True
                ad.drain()
                log.drain()
            return False
        ok = settle()
        if failed:
            w.call(ad.ref, "speak", "nodeListUpdated")
            w.run()
            ok = settle() and ok
        return hist, slow, ad.list, nodes(w, app), log.log, ok

    for p in ctx.scen("node list updates in every order", run, scfg(max_paths=200000)):
        where = "updating the node list"
        if not ctx.require(p.returned, "nodes", where, "raises %s" % p.exc_name(), p):
            continue
        hist, slow, lst, got, log, ok = p.value
        name = "after %s%s" % (hist, " with a listener slow in %s" % slow if slow else "")
        ctx.require(ok, "nodes", where, "%s the application keeps asking the adapter" % name, p, key="settle")
        if "fail" not in hist:
            ctx.require(set(got) == expected(lst), "nodes", where, "%s the nodes are %s" % (name, sorted(got)), p)
            batch, single, odd = replay(log)
            ctx.require(not odd, "notify", where, "%s: %s" % (name, "; ".join(odd)), p)
            ctx.require(batch == got and single == got, "notify", where, "%s the listeners know %s / %s, the application has %s" % (name, sorted(batch), sorted(single), sorted(got)), p, key="known")
        else:
            ctx.require({x for x in got if x.endswith(":0")} == {x for x in expected(lst) if x.endswith(":0")}, "recover", where, "%s the nodes are %s" % (name, sorted(got)), p)
    judge(ctx, False)
    ctx.floor("nodes", 100)
    ctx.floor("notify", 100)


def bb(n):
    return BV([("r%s" % n, i) for i in range(8)])


@check("A02")
def a02(ctx):
    """A node is loaded with exactly what the controller reports about it and its end points, and its changes are stored."""
    ctx.ip.load_extra("vstubs", SRC)

    def run(ip):
        w = World(ip)
        eps = ip.choose(4, "end points")
        mc = w.choose(True, False)
        marked = w.choose((), (0xEF, 0x72, 0x20), (0xF1, 0x00, 0x86, 0x27, 0xEF, 0x22))
        ad = Ad(w)
        ad.auto = True
        plain = w.choose("full", "no classes", "no answer")
        lis = w.choose(1, 0) if plain == "full" else 1
        lst = K(lis)

        def value(name, args):
            if name == "getNodeInfo":
                cc = [K(0x5E), K(0x31), K(0x20)] + ([K(MC)] if mc else []) + [K(x) for x in marked]
                if w.ip.truth(ip.compare_eq(args[0], K(9))) if hasattr(ip, "compare_eq") else args[0].v == 9:
                    cc = [K(0x72)] if plain == "full" else []
                    if plain == "no answer":
                        return w.msg("NetworkManagementProxy.NodeInfoCachedReport")
                return w.msg("NetworkManagementProxy.NodeInfoCachedReport", listening=lst, basicDeviceClass=bb("b"), genericDeviceClass=bb("g"), specificDeviceClass=bb("s"), commandClass=BS(cc))
            if name == "getMultiChannelEndPoints":
                return K(eps)
            if name == "getMultiChannelCapability":
                return w.msg("NetworkManagementProxy.MultiChannelCapabilityReport", genericDeviceClass=bb("eg%d" % args[1].v), specificDeviceClass=bb("es%d" % args[1].v), commandClass=BS([K(0x32 + args[1].v), K(0x25)] + [K(x) for x in marked]))
            return Ad.value(ad, name, args)
        ad.value = value
        stored = []
        storage = w.listener(nodeUpdated=lambda node: stored.append(node.oid))
        app = w.new(APP, ad.ref, storage)
        how = w.choose("startup", "update")
        ad.list = [1, 9, 4]
        if how == "startup":
            t = w.spawn(app, "startup")
        else:
            w.call(ad.ref, "speak", "nodeListUpdated")
        w.run()
        res = w.result(t)[0] if how == "startup" else "result"
        out = {}
        d = w.get(app, "nodes")
        for k in ip.iter_elems(d)[0]:
            n = w.ip.call(w.ip.getattr(d, "get"), [k], {})
            del stored[:]
            w.call(n, "speak", "nodeUpdated")
            w.run()
            out[w.canon(k)] = dict(
                id=ident(w, n), root=w.canon(w.get(n, "rootNodeId")), ep=w.canon(w.get(n, "endpoint")), basic=w.canon(w.get(n, "basicDeviceClass")), generic=w.canon(w.get(n, "genericDeviceClass")),
                specific=w.canon(w.get(n, "specificDeviceClass")), listening=w.canon(w.get(n, "listening")), zplus=w.canon(w.get(n, "isZWavePlus")), stored=stored == [n.oid],
                cc=sorted(w.canon(x) for x in ip.iter_elems(w.get(n, "supported"))[0] if w.canon(x) != 0xF1))
        asked = [(a, b[0]) for a, b in ad.seen if a in ("getNodeInfo", "getMultiChannelEndPoints")]
        return mc, eps, how, res, out, asked, lis, marked, plain

    for p in ctx.scen("loading a node", run, scfg()):
        where = "loading nodes"
        if not ctx.require(p.returned, "load", where, "raises %s" % p.exc_name(), p):
            continue
        mc, eps, how, res, out, asked, lis, marked, plain = p.value
        name = "%s with %s end points%s" % (how, eps if mc else "no", "" if plain == "full" else ", %s of node 9" % plain)
        ctx.require(res == "result", "load", where, "%s ends as %s" % (name, res), p)
        want = {"4:0", "9:0"} | ({"4:%d" % e for e in range(1, eps + 1)} if mc else set())
        ctx.require(set(out) == want, "load", where, "%s gives the nodes %s" % (name, sorted(out)), p)
        ctx.require(not any(a[1] == 1 for a in asked), "controller", where, "%s asks the controller about itself" % name, p)
        for k, n in out.items():
            root, ep = (int(x) for x in k.split(":"))
            ctx.require(n["id"] == k and n["root"] == root and n["ep"] == ep, "identity", where, "%s: node %s calls itself %s" % (name, k, (n["id"], n["root"], n["ep"])), p)
            ctx.require(n["stored"], "stored", where, "%s: changes of node %s are not given to the storage exactly once" % (name, k), p)
            if root == 9 and plain == "no answer":
                # nothing is known about it but that it is there
                ctx.require(n["cc"] == [] and not any(n[x] for x in ("basic", "generic", "specific", "listening", "zplus")), "classes", where, "%s: it is known as %s" % (name, n), p, key="silent")
                continue
            ctx.require(n["basic"] == bits_(bb("b")), "classes", where, "%s: node %s has the basic device class %s" % (name, k, n["basic"]), p)
            ctx.require(n["listening"] == lis, "classes", where, "%s: node %s listening is %s" % (name, k, n["listening"]), p)
            g, s = ("g", "s") if ep == 0 else ("eg%d" % ep, "es%d" % ep)
            ctx.require(n["generic"] == bits_(bb(g)) and n["specific"] == bits_(bb(s)), "classes", where, "%s: node %s has the device class %s %s" % (name, k, n["generic"], n["specific"]), p)
            more = [0x86, 0x27] if marked[:1] == (0xF1,) else []
            cc = [0x72] * (plain == "full") if root == 9 else [0x20, 0x31, 0x5E] + ([MC] if mc else []) + more if ep == 0 else [0x25, 0x32 + ep] + more
            ctx.require(n["cc"] == sorted(cc), "supported", where, "%s: node %s supports %s" % (name, k, n["cc"]), p)
            ctx.require(n["zplus"] == (1 if 0x5E in cc else 0), "supported", where, "%s: node %s is %sa Z-Wave Plus node" % (name, k, "" if n["zplus"] else "not "), p)
    ctx.floor("classes", 30)


def bits_(v):
    return canon(None, v)


@check("A03")
def a03(ctx):
    """A command from a node is handled by that node's end point and nobody else; everything else goes to the listeners."""
    ctx.ip.load_extra("vstubs", SRC)

    def run(ip):
        w = World(ip)
        ad = Ad(w, 1)
        ad.auto = True
        ad.list = [1, 4, 7]
        told, heard = [], []
        answers = w.choose("nothing", "handled")
        lis = w.listener(messageReceived=lambda s, *a: told.append([x.oid if isinstance(x, R) else w.canon(x) for x in a]) or (TRUE if answers == "handled" else NONE))
        app = w.new(APP, ad.ref, lis)
        w.call(ad.ref, "speak", "nodeListUpdated")
        w.run()
        d = w.get(app, "nodes")
        for k in ip.iter_elems(d)[0]:
            n = w.ip.call(w.ip.getattr(d, "get"), [k], {})
            w.call(n, "addListener", w.listener(onMessage=lambda s, *a, k=k: heard.append((w.canon(k), s == n and False or ident(w, s), [x.oid if isinstance(x, R) else w.canon(x) for x in a])) or (TRUE if answers == "handled" else NONE)))
        src = w.choose((4, 0), (7, 0), (7, 1), (7, 2), (7, 3), (1, 0), (9, 0), (4, 1))
        m = w.msg("SwitchBinary.Report", value=K(5))
        flags = w.listener()
        t = w.spawn(app, "messageReceived", ad.ref, K(src[0]), K(src[1]), m, flags)
        w.run()
        r = w.result(t)
        return src, answers, r[0], w.canon(r[1]) if r[0] == "result" else None, heard, told, m.oid

    for p in ctx.scen("a command from a node", run, scfg()):
        where = "routing of commands"
        if not ctx.require(p.returned, "route", where, "raises %s" % p.exc_name(), p):
            continue
        src, ans, st, res, heard, told, m = p.value
        name = "a command from %d:%d" % src
        ctx.require(st == "result", "route", where, "%s ends as %s" % (name, st), p)
        known = src in ((4, 0), (7, 0), (7, 1), (7, 2))
        ctx.require(heard == ([("%d:%d" % src, "%d:%d" % src, [m])] if known else []), "route", where, "%s is handled by %s" % (name, heard), p)
        ctx.require(told == ([[m]] if src == (1, 0) else []), "route", where, "%s is given to the listeners as %s" % (name, told), p)
        if known:
            ctx.require(bool(res) == (ans == "handled"), "result", where, "%s, %s: reported as %s" % (name, ans, res), p)
        elif src[0] != 1:
            ctx.require(not res, "result", where, "%s: reported as %s" % (name, res), p)
    ctx.floor("route", 15)


@check("A04")
def a04(ctx):
    """Network management reports reach the listeners once each; a removal of a foreign node is announced when it is done."""
    ctx.ip.load_extra("vstubs", SRC)
    names = ("addNodeStatus", "removeNodeStatus", "nodeRemoved", "nodesRemoved", "messageReceived")

    def run(ip):
        w = World(ip)
        ad = Ad(w)
        log = []
        kinds = []

        def one(i):
            k = w.choose("no", "yes") if i else w.choose("no", "fails")
            kinds.append(k)

            def told(n, s, *a):
                log.append((i, n, [("obj", x.oid) if isinstance(x, R) and ip.o(x).kind == "inst" else w.canon(x) for x in a]))
                if k == "fails":
                    ip.throw(ValueError, "listener")
                return TRUE if k == "yes" else NONE
            mk = w.alistener if i else w.listener
            return mk(**{n: (lambda s, *a, n=n: told(n, s, *a)) for n in names})
        app = w.new(APP, ad.ref, one(0))
        w.call(app, "addListener", one(1))
        what = w.choose("add", "remove", "other", "unknown", "empty", "plain")
        st = nid = None
        if what == "add":
            cmd = w.msg("NetworkManagementInclusion.NodeAddStatus", status=bb("st"))
        elif what == "remove":
            st, nid = w.choose(1, 3, 5, 6, 7), w.choose(0, 4, None)
            cmd = w.msg("NetworkManagementInclusion.NodeRemoveStatus", seqNo=K(3), status=K(st), **({} if nid is None else {"nodeID": K(nid)}))
        elif what == "unknown":
            cmd = w.new("pyzwave.message.UnknownMessage", K(0x9901))
        elif what == "empty":
            cmd = None
        else:
            cmd = w.msg("NetworkManagementInclusion.NodeAddKeysReport", seqNo=K(3))
        m = cmd if what == "plain" else w.msg("Zip.ZipPacket", **({"command": cmd} if cmd is not None else {}))
        t = w.spawn(app, "onMessageReceived", ad.ref, m)
        w.run()
        r = w.result(t)
        return what, st, nid, kinds, r[0], w.canon(r[1]) if r[0] == "result" else None, log, ("obj", cmd.oid) if cmd is not None else None

    for p in ctx.scen("a command of the controller", run, scfg()):
        where = "commands of the controller"
        if not ctx.require(p.returned, "tell", where, "raises %s" % p.exc_name(), p):
            continue
        what, st, nid, kinds, res, val, log, cmd = p.value
        name = "%s%s with listeners %s" % (what, "" if st is None else " status %d node %s" % (st, nid), kinds)
        ctx.require(res == "result", "tell", where, "%s ends as %s" % (name, res), p)
        want = {"add": [("addNodeStatus", [cmd])], "remove": [("removeNodeStatus", [cmd])], "other": [("messageReceived", [cmd])], "unknown": [("messageReceived", [cmd])], "empty": [], "plain": []}[what]
        if what == "remove" and st == 6 and nid == 0:
            want = want + [("nodeRemoved", [0]), ("nodesRemoved", [("list", 0)])]
        for i in (0, 1):
            got = [(n, a) for j, n, a in log if j == i]
            ctx.require(got == want, "tell", where, "%s: listener %d is told %s" % (name, i, got), p)
        wantres = what in ("add", "remove") or what in ("other", "unknown") and "yes" in kinds
        ctx.require(bool(val) == wantres, "result", where, "%s: reported as %s" % (name, val), p)
    ctx.floor("tell", 60)


@check("A05")
def a05(ctx):
    """Startup loads and announces every node once, also when the node list changes or a listener fails meanwhile."""
    ctx.ip.load_extra("vstubs", SRC)
    depth = 6 if ctx.tier == "thorough" else 5

    def run(ip):
        w = World(ip)
        ad = Ad(w)
        slow = w.choose((), ("nodesAdded",), ("nodeAdded",))
        log = Log(w, slow)
        app = w.new(APP, ad.ref, log.ref)

        def bad(*a):
            ip.throw(ValueError, "listener")
        w.call(app, "addListener", w.alistener(nodeAdded=bad, nodesAdded=bad, nodeRemoved=bad, nodesRemoved=bad))
        hist = []
        ad.list = [1, 4, 7]
        early = w.choose("", "an update under way", "an update before")
        if early:
            hist.append(early)
            w.call(ad.ref, "speak", "nodeListUpdated")
            w.run()
            for _ in range(100):
                if early != "an update before" or not ad.open and not log.open:
                    break
                ad.drain()
                log.drain()
        t = w.spawn(app, "startup")
        for k in range(depth):
            opts = []
            if ad.open:
                opts.append("first")
            if log.open:
                opts.append("listener")
            if not any(isinstance(h, list) for h in hist):
                opts.append("update")
            if not opts:
                break
            a = w.choose(*opts)
            if a == "update":
                ad.list = w.choose([1, 7], [1, 4, 7, 9], [1, 4])
                hist.append(ad.list)
                w.call(ad.ref, "speak", "nodeListUpdated")
                w.run()
            else:
                hist.append(a)
                if a == "listener":
                    log.open.pop(0).finish("result", NONE)
                    w.run()
                else:
                    ad.answer()
        for _ in range(300):
            if not ad.open and not log.open:
                break
            ad.drain()
            log.drain()
        return hist, slow, ad.list, w.result(t)[0], nodes(w, app), log.log

    for p in ctx.scen("startup with changes meanwhile", run, scfg(max_paths=200000)):
        where = "startup"
        if not ctx.require(p.returned, "startup", where, "raises %s" % p.exc_name(), p):
            continue
        hist, slow, lst, res, got, log = p.value
        where += " after an update of the node list" if hist[:1] in (["an update under way"], ["an update before"]) else ""
        name = "after %s%s" % (hist, " with a listener slow in %s" % slow if slow else "")
        ctx.require(res == "result", "startup", where, "%s startup ends as %s" % (name, res), p)
        ctx.require(set(got) == expected(lst), "startup", where, "%s the nodes are %s" % (name, sorted(got)), p)
        batch, single, odd = replay(log)
        ctx.require(not odd, "notify", where, "%s: %s" % (name, "; ".join(odd)), p)
        ctx.require(batch == got and single == got, "notify", where, "%s the listeners know %s / %s, the application has %s" % (name, sorted(batch), sorted(single), sorted(got)), p, key="known")
    judge(ctx, True)
    ctx.floor("startup", 60)
