"""Listeners, attributes, shared state."""
from . import check
from ..scenario import *  # noqa
from ..stubs import SRC
from .wire import LAYOUT


KINDS = ["absent", "value", "raise", "avalue", "araise", "later", "later raise", "cancelled"]


def hearer(w, i, kind, log, futs):
    """A listener of the given kind for the message 'ping'; (object, expected answer or None)."""
    def told(*a):
        log.append((i,) + tuple(w.canon(x) if not isinstance(x, R) else ("obj", x.oid) for x in a))

    def value(*a):
        told(*a)
        return K("answer %d" % i)

    def bad(*a):
        told(*a)
        w.ip.throw(ValueError, "listener %d" % i)

    def later(*a):
        told(*a)
        f = aio.Future(w.ip)
        futs[i] = f
        w.wait(f)
        if kind == "later raise":
            w.ip.throw(KeyError, "listener %d" % i)
        return K("answer %d" % i)
    if kind == "absent":
        return w.listener(other=value), None
    if kind == "value":
        return w.listener(ping=value), "answer %d" % i
    if kind == "raise":
        return w.listener(ping=bad), None
    if kind == "avalue":
        return w.alistener(ping=value), "answer %d" % i
    if kind == "araise":
        return w.alistener(ping=bad), None
    return w.alistener(ping=later), None if kind in ("later raise", "cancelled") else "answer %d" % i


@check("U01")
def u01(ctx):
    """Every listener hears a message exactly once; asking returns the answers in order; one listener's failure stays its own."""
    n = 3
    kinds = KINDS if ctx.tier == "thorough" else KINDS

    def run(ip):
        w = World(ip)
        o = w.new("pyzwave.util.Listenable")
        log, futs, want, names = [], {}, [], []
        for i in range(n):
            k = kinds[ip.choose(len(kinds), "listener %d" % i)]
            names.append(k)
            l, ans = hearer(w, i, k, log, futs)
            w.call(o, "addListener", l)
            if ans:
                want.append(ans)
        how = w.choose("ask", "speak")
        arg = w.listener(mark=lambda *a: NONE)
        if how == "speak":
            _, e = w.attempt(o, "speak", "ping", arg, K(7))
            w.run()
            res = ("result", None) if e is None else ("exception", e)
        else:
            t = w.spawn(o, "ask", "ping", arg, K(7))
        while futs:
            open_ = sorted(futs)
            i = open_[ip.choose(len(open_), "which listener answers")]
            f = futs.pop(i)
            f.finish("cancelled" if names[i] == "cancelled" else "result", NONE)
            w.run()
        if how == "ask":
            res = w.result(t)
            if res[0] == "result":
                res = ("result", w.canon(res[1]))
        return names, how, res, want, log, ("obj", o.oid), ("obj", arg.oid)

    for p in ctx.scen("speaking to listeners of every kind", run, scfg(max_paths=100000)):
        where = "speaking to listeners"
        if not ctx.require(p.returned, "isolated", where, "raises %s" % p.exc_name(), p):
            continue
        names, how, res, want, log, o, arg = p.value
        name = "%s with listeners %s" % (how, ", ".join(names))
        ctx.require(res[0] == "result", "isolated", where, "%s ends as %s" % (name, res), p, key=how)
        if how == "ask" and res[0] == "result":
            ctx.require(res[1] == ("list",) + tuple(want), "answers", where, "%s returns %s instead of %s" % (name, res[1], want), p)
        heard = sorted(log)
        ctx.require(heard == sorted((i, o, arg, 7) for i, k in enumerate(names) if k != "absent"), "heard", where, "%s: heard by %s" % (name, [x[0] for x in heard]), p)
    ctx.floor("isolated", 300)


MUTABLE = ("list", "set", "dict", "inst", "bytearray")


def reach(ip, v, out, skip):
    """Mutable objects reachable from v."""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            todo += list(x.items)
            continue
        if not isinstance(x, R) or x.oid in out or x.oid in skip:
            continue
        o = ip.o(x)
        if o.kind not in MUTABLE or o.cls is None and o.kind == "inst":
            continue
        out[x.oid] = o
        todo += list(o.attrs.values())
        if o.fields:
            todo += list(o.fields.values())
        if isinstance(o.items, dict):
            for e in o.items.values():
                todo += list(e) if isinstance(e, tuple) else [e]
        elif o.items:
            todo += list(o.items)
    return out


@check("U02")
def u02(ctx):
    """Objects of one kind never share mutable state."""
    ctx.ip.load_extra("vstubs", SRC)
    classes = ["pyzwave.commandclass." + c for _h, c, _f in LAYOUT]

    def owned(w, make, fields):
        ip = w.ip
        a, b = make(), make()
        ra, rb = {}, {}
        for o, r in ((a, ra), (b, rb)):
            reach(ip, o, r, set())
            for f in fields:
                v, e = w.guard(lambda: w.get(o, f))
                if e is None:
                    reach(ip, v, r, {o.oid})
        return ra, rb

    def messages(ip):
        w = World(ip)
        out = []
        for q in classes:
            c = ip.lookup(q)
            fields = attr_names(ip, c)
            ra, rb = owned(w, lambda: ip.call(c, [], {}), fields)
            both = set(ra) & set(rb)
            out.append((q, len(fields), [kindname(ra[i]) for i in both]))
        return out

    for p in ctx.scen("two messages of every type", messages, scfg()):
        if ctx.require(p.returned, "messages", "messages", "raises %s" % p.exc_name(), p):
            for q, n, both in p.value:
                ctx.require(not both, "messages", q, "two messages share the mutable default of a field (%s): changing one changes all" % both, p)

    def classes_(ip):
        w = World(ip)
        out = []
        col = ip.lookup("pyzwave.commandclass.ZWaveCommandClass")
        ids = [k for k, _c in ip.o(col).items.values()]
        load = ip.getattr(ip.lookup("pyzwave.commandclass.CommandClass.CommandClass"), "load")
        for k in ids:
            nodes = [w.listener(), w.listener()]
            objs = [ip.call(load, [k, FALSE, n], {}) for n in nodes]
            rs = [{}, {}]
            for o, r, n in zip(objs, rs, nodes):
                reach(ip, o, r, {n.oid})
                for f in attr_names(ip, ip.o(o).cls):
                    v, e = w.guard(lambda: w.get(o, f))
                    if e is None:
                        reach(ip, v, r, {n.oid})
            both = set(rs[0]) & set(rs[1])
            out.append((k.v, ip.o(objs[0]).cls.qualname, [kindname(rs[0][i]) for i in both]))
        return out

    for p in ctx.scen("one command class on two nodes", classes_, scfg()):
        if ctx.require(p.returned, "classes", "command classes", "raises %s" % p.exc_name(), p):
            for k, q, both in p.value:
                ctx.require(not both, "classes", q, "the command classes of two nodes share mutable state (%s)" % both, p)

    def others(ip):
        w = World(ip)
        out = []
        hook = lambda: aio.fn(ip, lambda a, k: NONE)  # noqa: E731
        mk = {
            "pyzwave.node.Node": lambda: w.new("pyzwave.node.Node", K(4), w.new("vstubs.StubAdapter", hook()), ip.mklist([K(0x20), K(0x31), K(0xEF), K(0x25)])),
            "pyzwave.application.Application": lambda: w.new("pyzwave.application.Application", w.new("vstubs.StubAdapter", hook()), w.listener()),
            "pyzwave.mailbox.MailboxService": lambda: w.new("pyzwave.mailbox.MailboxService", w.new("vstubs.StubAdapter", hook())),
            "pyzwave.zipgateway.ZIPGateway": lambda: w.new("pyzwave.zipgateway.ZIPGateway", K("::1"), K(b"1234")),
            "pyzwave.zipconnection.ZIPConnection": lambda: w.new("pyzwave.zipconnection.ZIPConnection", K("::1"), K(b"1234")),
            "pyzwave.connection.Connection": lambda: w.new("pyzwave.connection.Connection"),
        }
        for q, m in mk.items():
            ra, rb = owned(w, m, ["nodes", "supported"])
            out.append((q, [kindname(ra[i]) for i in set(ra) & set(rb)], len(ra)))
        return out

    for p in ctx.scen("two of each component", others, scfg()):
        if ctx.require(p.returned, "components", "components", "raises %s" % p.exc_name(), p):
            for q, both, n in p.value:
                ctx.require(not both, "components", q, "two instances share mutable state (%s)" % both, p)

    def using(ip):
        """What is done with one instance is not seen in another one, wherever the state is kept."""
        from .mailbox import Box, PUSH, POP
        w = World(ip)
        out = []
        hook = lambda: aio.fn(ip, lambda a, k: lift(True))  # noqa: E731
        node = lambda i: w.new("pyzwave.node.Node", K(i), w.new("vstubs.StubAdapter", hook()), ip.mklist([K(0x20), K(0x25), K(0x85)]))  # noqa: E731
        conn = lambda i: w.new("pyzwave.zipgateway.ZIPGateway", K("::%d" % i), K(b"1234"))  # noqa: E731
        report = w.msg("Basic.Report", value=K(7))
        kind = w.choose("node", "gateway", "command class", "mailbox")
        heard = []
        if kind in ("node", "gateway"):
            a, b = (node(4), node(7)) if kind == "node" else (conn(1), conn(2))
            w.call(a, "addListener", w.listener(ping=lambda s, *x: heard.append(1)))
            w.call(b, "speak", K("ping"))
            out.append(("a listener of one hears the other", bool(heard)))
            s = w.call(a, "addWaitingSession", ip.lookup("pyzwave.commandclass.Basic.Report"))
            r = w.true(w.call(b, "messageReceived", report))
            out.append(("a message received by one ends a wait of the other", r or w.true(w.call(s, "done"))))
            out.append(("a wait does not end", not w.true(w.call(a, "messageReceived", report))))
        if kind == "gateway":
            t = w.spawn(a, "waitForAck", K(5))
            _, e = w.attempt(b, "ackReceived", w.msg("Zip.ZipPacket", ackResponse=TRUE, seqNo=K(5)))
            w.run()
            out.append(("an acknowledgement received by one ends a send of the other", t.done()))
        if kind == "node":
            w.sched.spawn(ip.call(ip.lookup("vstubs.locked"), [a, w.fn(lambda x, k: aio.Future(ip).ref)], {}), "lock")
            w.run()
            w.call(b, "addListener", w.listener(nodeUpdated=lambda s, *x: heard.append("b")))
            w.call(b, "commandClassUpdated", NONE)
            out.append(("locking one keeps the other from being stored", "b" not in heard))
        if kind == "command class":
            a, b = (ip.getitem(w.get(node(i), "supported"), K(0x85)) for i in (4, 7))
            w.call(a, "addListener", w.listener(ping=lambda s, *x: heard.append(1)))
            w.call(b, "speak", K("ping"))
            out.append(("a listener of one hears the other", bool(heard)))
            for c, v in ((a, 3), (b, 2)):
                w.call(c, "__setstate__", ip.mkdict([(K("version"), K(v))]))
            out.append(("the version of one is that of the other", w.canon(w.get(a, "version")) != 3))
        if kind == "mailbox":
            one, two = Box(w), Box(w)
            one.queue(PUSH, 7, "a")
            two.wakeup(7)
            out.append(("a message pushed to one is delivered by the other", [x[5] for x in two.sent if x[2] == POP] != [None]))
            out.append(("a message pushed is not delivered any longer", [x[5] for x in one.drain(7)] != ["a", None]))
        return kind, out

    from .mailbox import EXT
    for p in ctx.scen("two of each component in use", using, scfg(ext=EXT)):
        if ctx.require(p.returned, "using", "components", "raises %s" % p.exc_name(), p):
            kind, out = p.value
            for text, bad in out:
                ctx.require(not bad, "using", "two instances of a %s" % kind, text, p, key=text)
    ctx.floor("messages", 30)
    ctx.floor("classes", 6)
    ctx.floor("using", 10)


def kindname(o):
    return getattr(o.cls, "qualname", None) or getattr(o.cls, "name", None) or o.kind


def attr_names(ip, c):
    v = ip.getattr(c, "attributes")
    return [x.items[0].v for x in ip.iter_elems(v)[0]]


@check("U03")
def u03(ctx):
    """Every module can be the first one a program imports, and gives the same registry of commands."""
    from ..absint import Interp
    root = ctx.ip.root
    names = sorted(n for n in ctx.ip.modules if n.split(".")[0] == ctx.ip.package and not ctx.ip.modules[n].path.endswith("<namespace>"))
    want = None
    for n in names:
        ip = Interp(root)
        err = None
        try:
            ip.load_module(n)
        except AbsRaise as e:
            err = World.excname(type("W", (), {"ip": ip}), e.exc)
            fr = [f.module.name for f in ip.frames]
        ctx.funcs.add(n)
        ctx.require(err is None, "import", n, "importing %s first raises %s%s" % (n, err, " while executing " + " > ".join(fr) if err else ""), key=n)
        if err:
            continue
        if "pyzwave.commandclass" in ip.modules:
            reg = ip.modules["pyzwave.commandclass"].attrs.get("ZWaveMessage")
            keys = sorted(k.v for k, _c in ip.o(reg).items.values())
            want = want or keys
            ctx.require(keys == want, "registry", n, "importing %s first registers %d commands instead of %d" % (n, len(keys), len(want)), key=n)
    ctx.floor("import", 20)
    ctx.floor("registry", 10)


ATTRS = '''
from pyzwave.util import AttributesMixin
from pyzwave.commandclass.CommandClass import VarDictAttribute

class Inner(AttributesMixin):
    attributes = (("x", int), ("y", str))

class Plain:
    def __init__(self, a, b=0):
        self.a = a
        self.b = b
    def __eq__(self, other):
        return isinstance(other, Plain) and self.a == other.a and self.b == other.b

class Outer(AttributesMixin):
    attributes = (("n", int), ("s", str), ("items", list), ("inner", Inner), ("pair", Plain), ("table", VarDictAttribute(int, Inner)), ("numbers", VarDictAttribute(int, int)))

    def __init__(self, tell, **kwargs):
        super().__init__(**kwargs)
        self.tell = tell

    def attributeUpdated(self, name, newValue, oldValue):
        self.tell(self, name, newValue, oldValue)
'''


@check("U04")
def u04(ctx):
    """Declared attributes keep their type, changes are announced once each, defaults stick, nothing else changes."""
    ctx.ip.load_extra("vattrs", ATTRS)
    acts = ["n=0", "n=1", "n='1'", "s='a'", "s=5", "items=[1]", "inner={x:1}", "inner=Inner(2)", "inner same", "pair=(1,)", "pair=(1,2)", "other=3", "read n", "read items", "grow items", "inner.x=7", "load", "bad n"]
    depth = 3

    def shape(w, v):
        """A value with its type."""
        ip = w.ip
        if isinstance(v, R):
            o = ip.o(v)
            q = getattr(o.cls, "qualname", None)
            if q == "vattrs.Inner":
                return ("Inner", shape(w, w.get(v, "x")), shape(w, w.get(v, "y")))
            if q == "vattrs.Plain":
                return ("Plain", shape(w, w.get(v, "a")), shape(w, w.get(v, "b")))
        return w.canon(v)

    EMPTY = {"n": 0, "s": "", "items": ("list",), "inner": ("Inner", 0, "")}

    def history(ip):
        w = World(ip)
        told = []
        tell = w.fn(lambda a, k: (told.append((a[0].oid, w.canon(a[1]), shape(w, a[2]), shape(w, a[3]) if a[3] != NONE else None)), NONE)[1])
        o = w.new("vattrs.Outer", tell)
        o2 = w.new("vattrs.Outer", w.fn(lambda a, k: NONE), n=K(9), s=K("z"))
        val, oid, hist, bad, other = {}, {}, [], [], None
        inner = ip.lookup("vattrs.Inner")
        cur = None
        for _ in range(depth):
            a = acts[ip.choose(len(acts), "action")]
            hist.append(a)
            del told[:]
            exp = []

            def put(name, v, new, always=False):
                r, e = w.guard(lambda: (ip.setattr(o, name, v), NONE)[1])
                if e:
                    bad.append("%s raises %s" % (a, e))
                    return
                if always or name not in val or val[name] != new:
                    exp.append((name, new, val.get(name)))
                val[name] = new
            if a in ("n=0", "n=1"):
                put("n", K(int(a[-1])), int(a[-1]))
            elif a == "n='1'":
                put("n", K("1"), 1)
            elif a == "s='a'":
                put("s", K("a"), "a")
            elif a == "s=5":
                put("s", K(5), "5")
            elif a == "items=[1]":
                put("items", ip.mklist([K(1)]), ("list", 1))
            elif a == "inner={x:1}":
                d = ip.mkdict([(K("x"), K(1))])
                put("inner", d, ("Inner", 1, ""), always=True)
                cur = None
            elif a in ("inner=Inner(2)", "inner same"):
                same = a == "inner same" and cur is not None
                if not same:
                    cur = ip.call(inner, [], {"x": K(2)})
                    put("inner", cur, ("Inner", 2, ""), always=True)
                else:
                    put("inner", cur, val["inner"])
                if w.get(o, "inner") != cur:
                    bad.append("%s: the object assigned is not the one read" % a)
            elif a.startswith("pair="):
                t = (1,) if a == "pair=(1,)" else (1, 2)
                put("pair", T([K(x) for x in t]), ("Plain", 1, t[1] if len(t) > 1 else 0))
            elif a == "other=3":
                ip.setattr(o, "other", K(3))
                other = 3
            elif a.startswith("read "):
                f = a[5:]
                v1, v2 = w.get(o, f), w.get(o, f)
                if isinstance(v1, R) and v1 != v2:
                    bad.append("%s gives another object each time" % a)
                val.setdefault(f, EMPTY[f])
            elif a == "grow items":
                w.call(w.get(o, "items"), "append", K(4))
                val["items"] = val.get("items", EMPTY["items"]) + (4,)
            elif a == "inner.x=7":
                ip.setattr(w.get(o, "inner"), "x", K(7))
                val["inner"] = ("Inner", 7, val.get("inner", EMPTY["inner"])[2])
            elif a == "load":
                st = ip.mkdict([(K("s"), K("t")), (K("inner"), ip.mkdict([(K("y"), K("q"))])), (K("unknown"), K(1))])
                r, e = w.attempt(o, "__setstate__", st)
                if e:
                    bad.append("load raises %s" % e)
                val["s"], val["inner"] = "t", ("Inner", 0, "q")
                cur = None
                del told[:]
            elif a == "bad n":
                r, e = w.guard(lambda: (ip.setattr(o, "n", K("x")), NONE)[1])
                if e != "ValueError":
                    bad.append("n='x' ends as %s" % e)
            if [x[1:] for x in told] != exp or any(x[0] != o.oid for x in told):
                bad.append("%s announces %s instead of %s" % (a, [x[1:] for x in told], exp))
            st = w.call(o, "__getstate__")
            keys = sorted(w.canon(x) for x in ip.iter_elems(st)[0])
            if keys != sorted(val):
                bad.append("after %s the state has %s instead of %s" % (a, keys, sorted(val)))
        got = {f: shape(w, w.get(o, f)) for f in val}
        if got != val:
            bad.append("reads %s instead of %s" % (got, val))
        if other and w.canon(w.get(o, "other")) != other:
            bad.append("an undeclared attribute reads %s" % w.canon(w.get(o, "other")))
        if (w.canon(w.get(o2, "n")), w.canon(w.get(o2, "s")), shape(w, w.get(o2, "inner"))) != (9, "z", EMPTY["inner"]):
            bad.append("another object changed")
        return hist, bad

    for p in ctx.scen("histories of assignments", history, scfg(max_paths=100000)):
        where = "attributes"
        if not ctx.require(p.returned, "attributes", where, "raises %s" % p.exc_name(), p):
            continue
        hist, bad = p.value
        ctx.require(not bad, "attributes", where, "[%s]: %s" % (", ".join(hist), "; ".join(bad)), p, key=bad and bad[0].split(" ")[0])

    def tables(ip):
        w = World(ip)
        o = w.new("vattrs.Outer", w.fn(lambda a, k: NONE))
        out = {}
        for how in ("item", "load"):
            t = w.get(o, "table")
            n = w.get(o, "numbers")
            if how == "item":
                ip.setitem(t, K(1), ip.mkdict([(K("x"), K(5))]))
                ip.setitem(t, K(2), ip.call(ip.lookup("vattrs.Inner"), [], {"y": K("k")}))
                ip.setitem(n, K(1), K("7"))
            else:
                w.call(o, "__setstate__", ip.mkdict([(K("table"), ip.mkdict([(K("3"), ip.mkdict([(K("x"), K("8"))]))])), (K("numbers"), ip.mkdict([(K("4"), K("9"))]))]))
                t, n = w.get(o, "table"), w.get(o, "numbers")
            out[how] = ([(w.canon(k), shape(w, w.call(t, "get", k))) for k in ip.iter_elems(t)[0]], [(w.canon(k), w.canon(w.call(n, "get", k))) for k in ip.iter_elems(n)[0]])
        return out

    want = {"item": ([(1, ("Inner", 5, "")), (2, ("Inner", 0, "k"))], [(1, 7)]), "load": ([(3, ("Inner", 8, ""))], [(4, 9)])}
    for p in ctx.scen("tables of attributes", tables, scfg()):
        if ctx.require(p.returned, "tables", "attribute tables", "raises %s" % p.exc_name(), p):
            for how in want:
                ctx.require(p.value[how] == want[how], "tables", "attribute tables", "by %s the entries are %s instead of %s" % (how, p.value[how], want[how]), p, key=how)
    ctx.floor("attributes", 3000)
