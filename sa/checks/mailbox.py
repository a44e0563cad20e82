"""The mailbox for sleeping nodes: what is accepted is delivered, once and in order; heartbeats."""
import binascii

from . import check
from ..scenario import *  # noqa
from ..absint import AnalysisError
from .waiters import stub
from .node import Net, cname, field

# long messages with a common beginning and end, and a short one that the others begin with
PART = bytes(range(0x25, 0x3E))
DATA = {"a": PART + b"\x01" + PART, "b": PART + b"\x02" + PART, "c": PART[:3]}


def crc(ip, data):
    x = ip.unwrap_int(data) if not isinstance(data, K) else data
    b = x.v if isinstance(x, K) else None
    if b is None and isinstance(x, BS) and all(isinstance(i, K) for i in x.items):
        b = bytes(i.v for i in x.items)
    if not isinstance(b, (bytes, bytearray)):
        if isinstance(x, K):
            ip.throw(TypeError, "crc of no bytes")
        raise AnalysisError("crc of unknown data")
    return b


EXT = {
    "crcmod.predefined.mkCrcFun": lambda ip, a, k: aio.fn(ip, lambda x, kw: K(binascii.crc_hqx(crc(ip, x[0]), 0x1D0F))),
    "crcmod.predefined.mkPredefinedCrcFun": lambda ip, a, k: aio.fn(ip, lambda x, kw: K(binascii.crc_hqx(crc(ip, x[0]), 0x1D0F))),
    "crcmod.mkCrcFun": lambda ip, a, k: aio.fn(ip, lambda x, kw: K(binascii.crc_hqx(crc(ip, x[0]), 0x1D0F))),
    "binascii.crc_hqx": lambda ip, a, k: K(binascii.crc_hqx(crc(ip, a[0]), a[1].v)),
}


class Box:
    """A mailbox service, its adapter, and what it sends."""

    def __init__(self, w):
        self.w = w
        w.sched.hold_sleep = True
        self.how = "sent"
        self.sent = []  # [node, operation, last, handle, entry, outcome]
        self.net = Net(w, self.reply, nodeid=1)
        self.ref = w.new("pyzwave.mailbox.MailboxService", self.net.ref)
        self.open = []

    def reply(self, n, c):
        w = self.w
        e = w.canon(w.get(c, "mailboxEntry"))
        e = bytes(e[1:]) if isinstance(e, tuple) and e and e[0] == "bytes" else e
        e = next((k for k, v in DATA.items() if v == e), e)
        how = self.how(field(w, c, "operation")) if callable(self.how) else self.how
        self.sent.append([self.net.log[-1][1], n, field(w, c, "operation"), bool(field(w, c, "last")), field(w, c, "queueHandle"), e or None, how])
        if how == "open":
            return None
        if how == "error":
            return OSError
        return how == "sent"

    def give(self, m, node=1):
        """A message from the mailbox proxy, as the adapter tells its listeners."""
        t = self.w.spawn(self.net.ref, "ask", "messageReceived", K(node), K(0), m, K(0))
        self.w.run()
        return t

    def queue(self, op, handle, data=None, node=1):
        kw = dict(last=FALSE, operation=K(op), queueHandle=K(handle))
        if data is not None:
            kw["mailboxEntry"] = K(DATA[data])
        return self.give(self.w.msg("Mailbox.Queue", **kw), node)

    def wakeup(self, handle, node=1):
        return self.give(self.w.msg("Mailbox.WakeupNotification", queueHandle=K(handle)), node)

    def finish(self, i, how):
        recs = [x for x in self.sent if x[6] == "open"]
        if i >= len(self.net.open) or i >= len(recs):
            return  # never sent, which the expectations tell
        f, _, _ = self.net.open.pop(i)
        rec = recs[i]
        rec[6] = how
        if how == "error":
            f.finish("exception", self.w.ip.call(BC(OSError), [], {}))
        else:
            f.finish("result", lift(how == "sent"))
        self.w.run()

    def openable(self):
        return [x for x in self.sent if x[6] == "open"]

    def drain(self, handle, n=6):
        """The node wakes up and takes everything."""
        self.how = "sent"
        k = len(self.sent)
        self.wakeup(handle)
        for _ in range(n):
            l = [x for x in self.sent[k:] if x[2] == POP]
            if l and l[-1][5] is None:
                break
            self.queue(ACK, handle)
        return [x for x in self.sent[k:] if x[2] == POP]


PUSH, POP, WAITING, PING, ACK = 0, 1, 2, 3, 4


def outcome(w, t):
    """What the mailbox answered its adapter."""
    r = w.result(t)
    if r[0] != "result":
        return r[0]
    l = w.ip.iter_elems(r[1])[0]
    return [bool(w.canon(x)) for x in l]


@check("M01")
def m01(ctx):
    """A pushed message is kept if and only if its acceptance was sent, once per content, and everything kept is delivered in order."""
    stub(ctx)
    depth = 4 if ctx.tier == "thorough" else 3

    def run(ip):
        w = World(ip)
        box = Box(w)
        hist, model, bad, tasks = [], {7: [], 9: []}, [], []
        pend = []  # [handle, data] being accepted, in order of the open sends
        for k in range(depth):
            opts = [("push", h, d, how) for h, d in ((7, "a"), (7, "b"), (9, "a")) for how in ("sent", "not sent", "error", "open")]
            opts += [("finish", i, how) for i in range(len(pend)) for how in ("sent", "not sent", "error")]
            a = opts[ip.choose(len(opts), "environment")]
            hist.append(" ".join(str(x) for x in a))
            if a[0] == "push":
                _, h, d, how = a
                box.how = how
                n = len(box.sent)
                t = box.queue(PUSH, h, d)
                busy = d in model[h] or [h, d, 1] in pend
                new = box.sent[n:]
                if busy:
                    if new:
                        bad.append("%s: a waiting message is accepted again" % hist[-1])
                    continue
                if new != [[1, "Mailbox.Queue", WAITING, False, h, d, how]]:
                    bad.append("%s is answered by %s" % (hist[-1], new))
                if how == "open":
                    pend.append([h, d, 1])
                    model[h].append(("?", d))
                elif how == "sent":
                    model[h].append(d)
                    if outcome(w, t) != [True]:
                        bad.append("%s counts as handled: %s" % (hist[-1], outcome(w, t)))
            else:
                h, d, _ = pend.pop(a[1])
                box.finish(a[1], a[2])
                i = model[h].index(("?", d))
                if a[2] == "sent":
                    model[h][i] = d
                else:
                    del model[h][i]
        while pend:
            h, d, _ = pend.pop(0)
            box.finish(0, "sent")
            model[h][model[h].index(("?", d))] = d
        got = {}
        for h in (7, 9):
            pops = box.drain(h)
            got[h] = pops
        return hist, bad, model, got

    for p in ctx.scen("pushing messages", run, scfg(ext=EXT, max_paths=400000)):
        where = "mailbox"
        if not ctx.require(p.returned, "push", where, "raises %s" % p.exc_name(), p):
            continue
        hist, bad, model, got = p.value
        name = "[%s]" % ", ".join(hist)
        ctx.require(not bad, "push", where, "%s: %s" % (name, "; ".join(bad)), p, key="push")
        for h in (7, 9):
            l = model[h]
            want = [[1, "Mailbox.Queue", POP, i == len(l) - 1, h, d, "sent"] for i, d in enumerate(l)] + [[1, "Mailbox.Queue", POP, True, h, None, "sent"]]
            ctx.require(got[h] == want, "delivered", where, "%s: queue %d delivers %s instead of %s" % (name, h, [(x[5], x[3]) for x in got[h]], [(x[5], x[3]) for x in want]), p, key="delivered")
    def many(ip):
        """A mailbox is not full after a few messages."""
        w = World(ip)
        box = Box(w)
        n = 300 if ctx.tier == "thorough" else 120
        bad = []
        data = [PART + bytes([i >> 8, i & 255]) + b"x" * (i % 50) for i in range(n)]
        for i, d in enumerate(data):
            h = 7 + (i % 5 == 4)
            s = len(box.sent)
            t = box.give(w.msg("Mailbox.Queue", last=FALSE, operation=K(PUSH), queueHandle=K(h), mailboxEntry=K(d)))
            if [x[2:6] for x in box.sent[s:]] != [[WAITING, False, h, d]] or outcome(w, t) != [True]:
                bad.append("message %d is answered by %s" % (i + 1, [x[2:5] for x in box.sent[s:]]))
        for h in (8, 7):
            mine = [d for i, d in enumerate(data) if (i % 5 == 4) == (h == 8)]
            got = [x[5] for x in box.drain(h, n + 3)]
            if got != mine + [None]:
                k = next((k for k, (a, b_) in enumerate(zip(got, mine + [None])) if a != b_), min(len(got), len(mine) + 1))
                bad.append("queue %d delivers %d messages instead of %d, the first other one is number %d" % (h, len(got) - 1, len(mine), k + 1))
        return bad

    for p in ctx.scen("many messages", many, scfg(ext=EXT, max_steps=10**9)):
        where = "mailbox"
        if ctx.require(p.returned, "push", where, "many messages: raises %s" % p.exc_name(), p):
            ctx.require(not p.value, "push", where, "many messages: %s" % "; ".join(p.value[:3]), p, key="many")
    ctx.floor("push", 200)
    ctx.floor("delivered", 400)


@check("M02")
def m02(ctx):
    """A node that wakes up gets its messages in order, each until it was sent once, the last one marked."""
    stub(ctx)
    deep = ctx.tier == "thorough"

    def run(ip):
        w = World(ip)
        box = Box(w)
        n = w.choose(0, 1, 2, 3)
        depth = 4 if deep and n == 2 else 3
        model = {7: [], 9: ["a"]}
        box.queue(PUSH, 9, "a")
        for d in list(DATA)[:n]:
            box.queue(PUSH, 7, d)
            model[7].append(d)
        hist, bad, flying, last = ["%d messages" % n], [], [], None

        def finish(i, how):
            h, d, what = flying.pop(i)
            box.finish(i, how)
            hist.append("%s is %s" % (d or "nothing", {"pop": how, "push": "accepted" if how == "sent" else "refused"}[what]))
            if what == "push":
                if how == "sent":
                    model[h].append(d)
            elif how == "sent" and d in model[h]:
                model[h].remove(d)
        for k in range(depth):
            opts = [("wakeup", 7), ("ack", 7), ("ack", 0)] + ([("wakeup", 9)] if k < 2 else []) + ([("push", 7)] if n < 3 and (k or n < 2) else [])
            if flying:
                opts = [("finish", i, how) for i in range(len(flying)) for how in ("sent", "not sent", "error")] + opts[:3]
            a = opts[ip.choose(len(opts), "environment")]
            if a[0] == "finish":
                finish(*a[1:])
                continue
            if a[0] == "push":
                d = list(DATA)[n]
                n += 1
                box.how = w.choose("sent", "open") if k < depth - 1 else "sent"
                hist.append("push " + d + (", not accepted yet" if box.how == "open" else ""))
                box.queue(PUSH, 7, d)
                if box.how == "open":
                    flying.append((7, d, "push"))
                else:
                    model[7].append(d)
                continue
            how = w.choose(*(["sent", "not sent"] + (["error"] if k < 2 else []) + (["open"] if k < depth - 1 else []))) if len(flying) < 2 else "sent"
            hist.append("%s %s %s" % (a[0], a[1], how))
            s = len(box.sent)
            box.how = how
            t = box.wakeup(a[1]) if a[0] == "wakeup" else box.queue(ACK, a[1])
            if a[0] == "wakeup":
                last = a[1]
            h = a[1] or last
            new = box.sent[s:]
            if not h:
                # nothing woke up: nobody to answer
                if new:
                    bad.append("%s sends %s" % (hist[-1], new))
                if t.state != "result":
                    bad.append("%s is %s" % (hist[-1], t.state))
                continue
            waiting = [d for d in model[h] if (h, d, "pop") not in flying]
            if not waiting and model[h]:
                # everything left is on its way: there is nothing else to send, but it is not known yet whether more follows
                if [x[5] for x in new] not in ([None], []):
                    bad.append("%s sends %s" % (hist[-1], new))
                want = new
            else:
                want = [[1, "Mailbox.Queue", POP, len(waiting) < 2, h, waiting[0] if waiting else None, how]]
                if len(waiting) == 1 and (len(model[h]) > 1 or (h, "push") in [(x[0], x[2]) for x in flying]) and len(new) == 1:
                    # another one is still on its way, both answers are right
                    want[0][3] = new[0][3]
            if new != want:
                bad.append("%s sends %s instead of %s" % (hist[-1], new, want))
                break
            for x in new:
                if how == "open":
                    flying.append((h, x[5], "pop"))
                elif how == "sent" and x[5] in model[h]:
                    model[h].remove(x[5])
        while flying:
            finish(0, "not sent")
        got = {h: box.drain(h) for h in (7, 9)}
        return hist, bad, model, got

    for p in ctx.scen("nodes waking up", run, scfg(ext=EXT, max_paths=400000)):
        where = "mailbox"
        if not ctx.require(p.returned, "wakeup", where, "raises %s" % p.exc_name(), p):
            continue
        hist, bad, model, got = p.value
        name = "[%s]" % ", ".join(hist)
        ctx.require(not bad, "wakeup", where, "%s: %s" % (name, "; ".join(bad)), p, key="wakeup")
        for h in (7, 9):
            l = model[h]
            want = [[1, "Mailbox.Queue", POP, i == len(l) - 1, h, d, "sent"] for i, d in enumerate(l)] + [[1, "Mailbox.Queue", POP, True, h, None, "sent"]]
            ctx.require(bool(bad) or got[h] == want, "kept", where, "%s: afterwards queue %d delivers %s instead of %s" % (name, h, [(x[5], x[3]) for x in got[h]], [(x[5], x[3]) for x in want]), p, key="kept")
    ctx.floor("wakeup", 200)


@check("M03")
def m03(ctx):
    """A waiting message is announced every minute until it was delivered, every tenth time by a ping."""
    stub(ctx)
    span = 32 if ctx.tier == "thorough" else 22

    def run(ip):
        w = World(ip)
        box = Box(w)
        acc = w.choose("sent", "not sent", "error")
        box.how = acc
        two = w.choose(False, True)
        box.queue(PUSH, 7, "a")
        k0 = len(box.sent)
        fails = w.choose((), (1,), (2, 3), (10,))
        what = w.choose("not sent", "error", "late") if fails else "sent"
        pop = w.choose(None, 1, 9, 10, 15)
        popok = w.choose("sent", "not sent", "error") if pop is not None else None
        out = []
        if two:
            w.sched.advance(30)
            box.how = "sent"
            box.queue(PUSH, 7, "b")
            w.sched.advance(30)
        start = 1 if two else 0
        out.append([x[2] for x in box.sent[k0:] if x[5] == "a"] if two else [])
        for m in range(start, span):
            s = len(box.sent)
            box.how = (lambda op, m=m: ("open" if what == "late" else what) if m + 1 in fails else "sent")
            if m:
                w.sched.advance(60)
            else:
                w.sched.advance(60)
            if what == "late" and box.openable():
                w.sched.advance(5)
                while box.openable():
                    box.finish(0, "sent")
            out.append([x[1:6] for x in box.sent[s:] if x[5] == "a"])
            if m + 1 == pop:
                box.how = popok
                box.wakeup(7)
        return acc, two, fails, what, pop, popok, out

    for p in ctx.scen("waiting messages", run, scfg(ext=EXT, max_paths=100000)):
        where = "mailbox heartbeats"
        if not ctx.require(p.returned, "heartbeat", where, "raises %s" % p.exc_name(), p):
            continue
        acc, two, fails, what, pop, popok, out = p.value
        desc = "acceptance %s%s%s%s" % (acc, ", two messages" if two else "", ", sending in minute %s is %s" % (fails, what) if fails else "", ", taken in minute %s: %s" % (pop, popok) if pop else "")
        alive = acc == "sent"
        for m, got in enumerate(out[1:], 2 if two else 1):
            op = PING if m % 10 == 0 else WAITING
            want = [["Mailbox.Queue", op, False, 7, "a"]] if alive else []
            if not ctx.require(got == want, "heartbeat", where, "%s: minute %d sends %s instead of %s" % (desc, m, got, want), p, key="ended" if not want else "beat"):
                break
            if m == pop and popok == "sent":
                alive = False
    weeks = 4 if ctx.tier == "thorough" else 1

    def long(ip):
        w = World(ip)
        box = Box(w)
        box.how = "sent"
        box.queue(PUSH, 7, "a")
        del box.sent[:]
        # nobody there for a while, that is
        away = w.choose((0, 0), (5, 100), (700, 760))
        how = w.choose("not sent", "error") if away[1] else "sent"
        for m in range(weeks * 7 * 24 * 60 if not away[1] else 800):
            box.how = how if away[0] <= m < away[1] else "sent"
            w.sched.advance(60)
            if len(box.sent) != 1:
                return m + 1, len(box.sent)
            del box.sent[:]
        return None

    for p in ctx.scen("a message waiting for weeks", long, scfg(ext=EXT, max_steps=10**9, unroll_while=10**9)):
        where = "mailbox heartbeats"
        if ctx.require(p.returned, "heartbeat", where, "waiting for weeks raises %s" % p.exc_name(), p, key="weeks"):
            ctx.require(p.value is None, "heartbeat", where, "a message still waiting is announced %s times in minute %s" % (p.value or (0, 0))[::-1], p, key="weeks")
    ctx.floor("heartbeat", 300)


@check("M04")
def m04(ctx):
    """The mailbox is directed to this address and port; only its own commands make it do anything."""
    stub(ctx)
    from .wire import LAYOUT
    src = "import ipaddress\nfrom pyzwave.message import Message\nclass Push(Message):\n    NAME = 'PUSH'\n    operation = 0\n    queueHandle = 7\n    mailboxEntry = b'1'\nclass Ack(Push):\n    operation = 4\ndef addr(s):\n    return ipaddress.IPv6Address(s)\n"
    ctx.ip.load_extra("otherpush", src)

    def enable(ip):
        w = World(ip)
        box = Box(w)
        how = w.choose(True, False, OSError)
        before = w.choose(None, "woken", "enabled")
        if before == "woken":
            box.wakeup(7)
        elif before:
            w.spawn(box.ref, "initialize", ip.call(ip.lookup("otherpush.addr"), [K("2001:db8::9:9")], {}), K(4124))
            w.run()
        del box.net.log[:]
        del box.net.cmds[:]
        box.net.reply = lambda n, c: how
        addr_ = ip.call(ip.lookup("otherpush.addr"), [K("2001:db8::17:5")], {})
        t = w.spawn(box.ref, "initialize", addr_, K(4123))
        w.run()
        return getattr(how, "__name__", how), w.result(t), [x[0] for x in box.net.log], [data_items(ip, w.call(c, "compose")) for c in box.net.cmds]

    want = [0x69, 2, 2] + [0x20, 1, 0x0D, 0xB8] + [0] * 9 + [0x17, 0, 5] + [4123 >> 8, 4123 & 255]
    for p in ctx.scen("enabling the mailbox", enable, scfg(ext=EXT)):
        where = "enabling the mailbox"
        if not ctx.require(p.returned, "enable", where, "raises %s" % p.exc_name(), p):
            continue
        how, res, ops, cmds = p.value
        ctx.require(cmds == [want] and ops == ["send"], "enable", where, "sends %s %s" % (ops, cmds), p, key="command")
        r = (res[0], bool(canon(None, res[1]))) if res[0] == "result" else (res[0],)
        ctx.require(r == ("result", how) if how in (True, False) else r in (("result", False), ("exception",)), "enable", where, "an outcome of %s is reported as %s" % (how, res), p, key="outcome")
    names = sorted({cls for _h, cls, _f in LAYOUT if not cls.startswith("Mailbox.Queue") and cls != "Mailbox.WakeupNotification"} | {"Mailbox.QueueFlush"})

    def other(ip):
        w = World(ip)
        box = Box(w)
        if w.choose(False, True):
            box.queue(PUSH, 7, "a")
        n = len(box.sent)
        k = ip.choose(len(names) + 9, "message")
        if k < len(names):
            name = names[k]
            m = w.msg(name)
        else:
            name, m = [("a queue %s" % o, lambda o=o: w.msg("Mailbox.Queue", last=FALSE, operation=K(o), queueHandle=K(7), mailboxEntry=K(DATA["b"]))) for o in (1, 2, 3, 5, 6)][k - len(names)] if k < len(names) + 5 else [
                ("a queue command without operation", lambda: w.msg("Mailbox.Queue")), ("a command with an operation of its own", lambda: w.new("otherpush.Push")), ("a command with an acknowledge operation of its own", lambda: w.new("otherpush.Ack")), ("a message without command", lambda: w.new("pyzwave.message.Message"))][k - len(names) - 5]
            m = m()
        t = box.give(m)
        new = box.sent[n:] + [x[:3] for x in box.net.log[len(box.sent):]]
        out = outcome(w, t)
        got = [x[5] for x in box.drain(7)]
        return name, new, out, got, n

    for p in ctx.scen("commands that are none of the mailbox", other, scfg(ext=EXT)):
        where = "mailbox"
        if not ctx.require(p.returned, "other", where, "raises %s" % p.exc_name(), p):
            continue
        name, new, out, got, n = p.value
        ctx.require(new == [], "other", where, "%s makes it send %s" % (name, new), p, key="sends " + name)
        ctx.require(out == [False], "other", where, "%s is reported as handled: %s" % (name, out), p, key="handled " + name)
        ctx.require(got == (["a"] if n else []) + [None], "other", where, "after %s the queue delivers %s" % (name, got), p, key="queue " + name)

    def cut(ip):
        """Commands of the mailbox that end before their queue handle."""
        w = World(ip)
        box = Box(w)
        box.how = "sent"
        for x in ("a", "b", "c"):
            box.queue(PUSH, 7, x)
        awake = w.choose(False, True)
        if awake:
            box.wakeup(7)
        name = w.choose("wake up notification", "push", "queue")
        m = w.msg("Mailbox.WakeupNotification") if name[0] == "w" else w.msg("Mailbox.Queue", last=FALSE, operation=K(PUSH)) if name[0] == "p" else w.msg("Mailbox.Queue")
        k = len(box.sent)
        t = w.spawn(box.ref, "messageReceived", NONE, K(1), K(0), m, K(0))
        w.run()
        r = w.result(t)
        new = [x[5] for x in box.sent[k:]]
        k = len(box.sent)
        if awake:
            box.queue(ACK, 0)
        else:
            box.wakeup(7)
        return name, awake, r[0] if r[0] != "exception" else r[1], bool(r[0] == "result" and w.canon(r[1])), new, [x[5] for x in box.sent[k:] if x[2] == POP]

    for p in ctx.scen("commands of the mailbox that end early", cut, scfg(ext=EXT)):
        where = "mailbox"
        if not ctx.require(p.returned, "cut", where, "raises %s" % p.exc_name(), p):
            continue
        name, awake, st, handled, new, got = p.value
        ctx.require(st == "result" and not handled and new == [], "cut", where, "an incomplete %s ends as %s, handled: %s, and sends %s" % (name, st, handled, new), p, key="cut " + name)
        ctx.require(got == (["b"] if awake else ["a"]), "cut", where, "after an incomplete %s the %s gets %s" % (name, "node awake" if awake else "waking node", got), p, key="after " + name)
    ctx.floor("cut", 10)
    ctx.floor("other", 100)
