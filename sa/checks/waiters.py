"""Request/response matching: a response is never missed, never given to the wrong waiter, nothing lingers."""
from . import check
from ..scenario import *  # noqa
from ..stubs import SRC


class Sender:
    """Transmissions the scenario completes by hand."""

    def __init__(self, w):
        self.w = w
        self.futs = []
        self.calls = []

    def hook(self, args, kw):
        self.calls.append([a for a in args])
        f = aio.Future(self.w.ip)
        self.futs.append(f)
        return f.ref

    def adapter(self):
        self.w.ip.load_extra_done = True
        return self.w.new("vstubs.StubAdapter", aio.fn(self.w.ip, self.hook))


def stub(ctx):
    ctx.ip.load_extra("vstubs", SRC)


def exc(w, t):
    return w.ip.call(BC(t), [], {})


def subject(w, kind, snd, got):
    """(object, deliver(message)) for an adapter or a node."""
    ad = snd.adapter()
    if kind == "adapter":
        w.call(ad, "addListener", w.listener(onMessageReceived=lambda s, m: got.append(m)))
        return ad, lambda m: w.call(ad, "commandReceived", m)
    node = w.new("pyzwave.node.Node", K(4), ad, w.ip.mklist([]))
    w.call(node, "addListener", w.listener(onMessage=lambda s, m: got.append(m)))

    def deliver(m):
        w.sched.spawn(w.call(node, "handleMessage", m, K(0)))
        w.run()
    return node, deliver


@check("S01")
def s01(ctx):
    """A response completes its request whenever it arrives after the request went out; nothing lingers afterwards."""
    stub(ctx)
    depth = 5 if ctx.tier == "thorough" else 4
    for kind in ("adapter", "node"):
        def run(ip, kind=kind):
            w = World(ip)
            snd, got = Sender(w), []
            o, deliver = subject(w, kind, snd, got)
            t = w.spawn(o, "sendAndReceive", w.msg("Basic.Get"), ip.lookup("pyzwave.commandclass.Basic.Report"), timeout=9)
            if not snd.futs:
                return ["no request"], None, None, None, None
            hist, sent, resp, state, wants = [], None, 0, "pending", []
            for step in range(depth):
                opts = ["resp", "other", "cancel"]
                if sent is None:
                    opts += ["sent", "unsent", "senderr"]
                else:
                    opts += ["timeout"]
                a = w.choose(*opts)
                hist.append(a)
                if a == "resp":
                    deliver(w.msg("Basic.Report", value=40 + step))
                    if not resp:
                        resp = 40 + step
                elif a == "other":
                    deliver(w.msg("SwitchBinary.Report", value=1))
                elif a == "sent":
                    snd.futs[0].finish("result", TRUE)
                    sent = True
                elif a == "unsent":
                    snd.futs[0].finish("result", FALSE)
                    sent = False
                elif a == "senderr":
                    snd.futs[0].finish("exception", exc(w, OSError))
                    sent = "error"
                elif a == "timeout":
                    tos = w.sched.timeouts()
                    if not tos:
                        return hist, "waits without a timeout", None, None, None
                    wants.append(const(tos[-1].timeout))
                    w.sched.fire(tos[-1])
                elif a == "cancel":
                    t.cancel()
                w.run()
                # what must have happened by now
                if a == "cancel":
                    state = "cancelled"
                elif sent == "error":
                    state = "OSError"
                elif sent is False and kind == "node":
                    state = "TimeoutError"
                elif sent is not None and resp:
                    state = resp
                elif a == "timeout":
                    state = "TimeoutError"
                if state != "pending" or t.done():
                    break
            res = w.result(t)
            if res[0] == "result":
                m = res[1]
                now = w.canon(w.get(m, "value")) if isinstance(m, R) else repr(m)
                now = (w.canon(ip.getattr(m, "hid") and w.call(m, "hid")), now) if isinstance(m, R) else now
            else:
                now = res[1] if res[0] == "exception" else res[0]
            exp = (0x2003, state) if isinstance(state, int) else state
            late = None
            if t.done():
                n = len(got)
                deliver(w.msg("Basic.Report", value=99))
                late = [w.canon(w.get(m, "value")) for m in got[n:]]
            return hist, now, exp, late, wants
        for p in ctx.scen("%s request under every environment history" % kind, run, scfg()):
            where = "request and response on %s" % ("the adapter" if kind == "adapter" else "a node")
            if not p.returned:
                ctx.fail("response", where, "raises %s" % p.exc_name(), p, key=where + " raises")
                continue
            hist, now, exp, late, wants = p.value
            ctx.require(now == exp, "response", where, "after [%s] the request is %s instead of %s" % (", ".join(hist), now, exp), p)
            for x in wants or []:
                ctx.require(x == 9, "timeout", where, "the response is awaited for %s s instead of the given 9 s" % (x,), p)
            if late is not None:
                ctx.require(late == [99], "linger", where, "after [%s] has ended, a later message of that type is %s" % (", ".join(hist), "swallowed" if not late else "delivered as %s" % late), p, key=where + " linger")

    def limit(ip):
        """The time limit is the one given."""
        w = World(ip)
        snd, got = Sender(w), []
        kind = w.choose("adapter", "node")
        o, deliver = subject(w, kind, snd, got)
        how = w.choose("sendAndReceive", "waitForMessage")
        t = w.choose(0, 0.5, 1, 2, 60, 86400)
        R_ = ip.lookup("pyzwave.commandclass.Basic.Report")
        args = [w.msg("Basic.Get"), R_] if how == "sendAndReceive" else [R_]
        task = w.spawn(o, how, *args, timeout=t)
        for f in snd.futs:
            f.finish("result", TRUE)
        w.run()
        tos = [const(x.timeout) for x in w.sched.timeouts() if x.task is task]
        return kind, how, t, tos, w.result(task)

    for p in ctx.scen("time limits", limit, scfg()):
        if not ctx.require(p.returned, "timeout", "time limit of a request", "raises %s" % p.exc_name(), p):
            continue
        kind, how, t, tos, res = p.value
        ok = tos == [t] and res[0] == "pending" or t == 0 and res == ("exception", "TimeoutError")
        ctx.require(ok, "timeout", "time limit of a request", "%s of %s with the limit %s waits %s s: %s" % (how, kind, t, tos, res[0]), p, key=how)

    # several waiters at once
    def several(ip):
        w = World(ip)
        snd, got = Sender(w), []
        kind = w.choose("adapter", "node")
        o, deliver = subject(w, kind, snd, got)
        rep = ip.lookup("pyzwave.commandclass.Basic.Report")
        oth = ip.lookup("pyzwave.commandclass.SwitchBinary.Report")
        t1 = w.spawn(o, "waitForMessage", rep, timeout=5)
        t2 = w.spawn(o, "waitForMessage", rep, timeout=9)
        t3 = w.spawn(o, "waitForMessage", oth, timeout=9)
        a = w.choose("timeout1", "cancel1", "timeout2", "cancel2", "none", "cancel1 late")
        i = {"1": 0, "2": 1}.get(a.split()[0][-1])
        ts = [t1, t2]
        if a.startswith("timeout"):
            w.sched.fire([x for x in w.sched.timeouts() if x.task is ts[i]][-1])
            w.run()
        elif a.startswith("cancel") and "late" not in a:
            ts[i].cancel()
            w.run()
        elif "late" in a:
            ts[i].cancel()
        mid = [w.result(t)[0] for t in ts + [t3]]
        _, e = w.guard(lambda: deliver(w.msg("Basic.Report", value=7)))
        w.run()
        out = [w.result(t)[0] for t in ts + [t3]]
        n = len(got)
        deliver(w.msg("Basic.Report", value=8))
        return kind, a, i, mid, out, e, len(got) - n

    for p in ctx.scen("several waiters", several, scfg()):
        where = "several tasks waiting for the same type"
        if not ctx.require(p.returned, "others", where, "raises %s" % p.exc_name(), p, key=where + " raises"):
            continue
        kind, a, i, mid, out, e, later = p.value
        ctx.require(e is None, "others", where, "after %s of one, receiving the message raises %s" % (a, e), p, key=where + " set")
        for j in (0, 1):
            if j != i:
                ctx.require(mid[j] == "pending", "others", where, "%s (%s) ends the wait of the other task: %s" % (a, kind, mid[j]), p, key=where)
                ctx.require(out[j] == "result", "others", where, "after %s (%s) the other task never gets the message: %s" % (a, kind, out[j]), p, key=where)
        ctx.require(out[2] == "pending", "others", where, "a task waiting for another type is %s" % out[2], p, key=where + " type")
        ctx.require(later == 1, "others", where, "a message nobody waits for reaches the listeners %d times" % later, p, key=where + " later")
    ctx.floor("response", 60)


@check("S02")
def s02(ctx):
    """A message completes only waits for its own command, and otherwise reaches the listeners exactly once."""
    stub(ctx)
    types = [("Basic.Get", {}), ("Basic.Report", {"value": 1}), ("Basic.Set", {"value": 1}), ("SwitchBinary.Report", {"value": 1}), ("SwitchBinary.Get", {}), ("Version.VersionCommandClassReport", {"requestedCommandClass": 1, "commandClassVersion": 1})]

    def run(ip):
        w = World(ip)
        snd, got, got2 = Sender(w), [], []
        ad = snd.adapter()
        w.call(ad, "addListener", w.listener(onMessageReceived=lambda s, m: got.append(m)))
        w.call(ad, "addListener", w.listener(onMessageReceived=lambda s, m: got2.append(m)))
        waits = [w.spawn(ad, "waitForMessage", ip.lookup("pyzwave.commandclass." + n), timeout=5) for n, _ in types[:4]]
        k = ip.choose(len(types) + 1, "message")
        shape = w.choose("plain", "zip")
        if k == len(types):
            m = w.new("pyzwave.message.UnknownMessage", K(0x2003 + 0x5500))
        else:
            m = w.msg(types[k][0], **types[k][1])
        pkt = m
        if shape == "zip":
            pkt = w.msg("Zip.ZipPacket", command=m, sourceEP=2, seqNo=3)
        r, e = w.attempt(ad, "commandReceived", pkt)
        w.run()
        done = [i for i, t in enumerate(waits) if t.done()]
        same = [w.result(waits[i])[1] == m for i in done]
        return k, shape, done, same, [x == pkt for x in got], [x == pkt for x in got2], e

    for p in ctx.scen("one message, several waits", run, scfg()):
        where = "dispatch of a received command"
        if not ctx.require(p.returned, "dispatch", where, "raises %s" % p.exc_name(), p):
            continue
        k, shape, done, same, got, got2, e = p.value
        if k < 4:
            ok = done == [k] and same == [True] and got == [] and got2 == []
        else:
            ok = done == [] and got == [True] and got2 == [True]
        ctx.require(ok and e is None, "dispatch", where, "%s (%s) completes the waits %s and reaches listeners %d/%d times %s" % (types[k][0] if k < len(types) else "an unknown command", shape, [types[i][0] for i in done], len(got), len(got2), e or ""), p)
    ctx.floor("dispatch", 14)

    kinds = ["any", "wants 1", "wants 2", "given up", "late"]
    deep = ctx.tier == "thorough"

    def history(ip):
        w = World(ip)
        snd, got = Sender(w), []
        ad = snd.adapter()
        w.call(ad, "addListener", w.listener(onMessageReceived=lambda s, m: got.append(w.canon(w.get(m, "value")))))
        R_ = ip.lookup("pyzwave.commandclass.Basic.Report")
        names, waits, sess = [], [], []
        n = 3 if deep else 2
        while len(names) < n:
            k = kinds[ip.choose(len(kinds), "wait")]
            names.append(k)
            kw = {}
            if k.startswith("wants"):
                kw["match"] = w.fn(lambda a, _k, v=int(k[-1]): lift(w.canon(w.get(a[0], "value")) == v))
            s_ = w.call(ad, "addWaitingSession", R_, **kw)
            t = w.spawn(ad, "waitForMessage", R_, timeout=5, session=s_)
            waits.append(t)
            if k == "given up":
                t.cancel()
                w.run()
            if k == "late":
                for x in w.sched.timeouts():
                    if x.task is t:
                        w.sched.fire(x)
                w.run()
        model, hist, bad = [None] * n, [], []
        for step in range(3):
            v = (1, 2, 3)[ip.choose(3, "message")]
            hist.append(v)
            k0 = len(got)
            w.call(ad, "commandReceived", w.msg("Basic.Report", value=v))
            w.run()
            hit = [i for i in range(n) if model[i] is None and (names[i] == "any" or names[i] == "wants %d" % v)]
            for i in hit:
                model[i] = v
            if got[k0:] != ([] if hit else [v]):
                bad.append("message %d reaches listeners %d times" % (v, len(got) - k0))
        ends = []
        for i, t in enumerate(waits):
            r = w.result(t)
            ends.append(w.canon(w.get(r[1], "value")) if r[0] == "result" else None if r[0] == "pending" or names[i] in ("given up", "late") else r)
        return names, hist, bad, model, ends, [w.result(t)[0] for t in waits]

    for p in ctx.scen("waits that name the answer they want", history, scfg(max_paths=400000)):
        where = "waits for a command"
        if not ctx.require(p.returned, "wanted", where, "raises %s" % p.exc_name(), p):
            continue
        names, hist, bad, model, ends, st = p.value
        name = "waits [%s], messages %s" % (", ".join(names), hist)
        ctx.require(ends == model, "wanted", where, "%s: the waits end as %s instead of %s (%s)" % (name, ends, model, st), p, key="ends")
        ctx.require(not bad, "wanted", where, "%s: %s" % (name, "; ".join(bad)), p, key="listeners")
    ctx.floor("wanted", 500)
