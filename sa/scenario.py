"""Scenarios: a component closed with an environment, analysed over every interleaving choice the scenario leaves open."""
from .harness import *  # noqa
from . import aio
from .checks.wire import canon, B  # noqa

STUBS = '''
class Recorder:
    """Listener that accepts and records everything."""
    def __init__(self, log, names):
        self._log = log
        self._names = names

    def __getattr__(self, name):
        if name not in self._names:
            raise AttributeError(name)
        def fn(*args):
            self._log(name, *args)
        return fn
'''


class World:
    def __init__(self, ip):
        self.ip = ip
        ip.sched = self.sched = aio.Sched(ip)
        self.sent = []  # (connection ref, message value) handed to the socket layer
        self.sentto = []
        self.conns = []  # (connection, address, psk)
        self.listens = []
        ip.world = self

    # -- calling
    def new(self, cls, *args, **kw):
        cls = self.ip.lookup(cls) if isinstance(cls, str) else cls
        return self.ip.call(cls, [lift(a) for a in args], {k: lift(v) for k, v in kw.items()})

    def call(self, obj, name, *args, **kw):
        return self.ip.call(self.ip.getattr(obj, name), [lift(a) for a in args], {k: lift(v) for k, v in kw.items()})

    def attempt(self, obj, name, *args, **kw):
        """Call; returns (value, None) or (None, exception name)."""
        return self.guard(lambda: self.call(obj, name, *args, **kw))

    def guard(self, f):
        depth = len(self.ip.frames)
        try:
            return f(), None
        except AbsRaise as e:
            del self.ip.frames[depth:]
            return None, self.excname(e.exc)

    def excname(self, exc):
        c = self.ip.o(exc).cls if isinstance(exc, R) else None
        return c.t.__name__ if isinstance(c, BC) else getattr(c, "name", repr(c))

    def get(self, obj, name):
        return self.ip.getattr(obj, name)

    def spawn(self, obj, name, *args, **kw):
        """Start a coroutine method as a task and let it run until it waits."""
        v = self.call(obj, name, *args, **kw)
        t = self.sched.spawn(v, name)
        self.sched.run()
        return t

    def start(self, obj, name, *args, **kw):
        return self.sched.spawn(self.call(obj, name, *args, **kw), name)

    def run(self):
        self.sched.run()

    def result(self, t):
        """("pending",) / ("result", v) / ("exception", name) / ("cancelled",)"""
        if t.state == "result":
            return ("result", t.val)
        if t.state == "exception":
            return ("exception", self.excname(t.val))
        return (t.state,)

    def complete(self, obj, name, *args, **kw):
        """Run a coroutine method to its end; the environment does nothing."""
        t = self.spawn(obj, name, *args, **kw)
        return self.result(t)

    def choose(self, *opts):
        return opts[self.ip.choose(len(opts), "environment")]

    def fn(self, f):
        return aio.fn(self.ip, f)

    def acoro(self, f):
        """An awaitable whose body is f()."""
        return aio.Awaitable(self.ip, f).ref

    def listener(self, **methods):
        """An object with the given methods (Python callables f(sender, *args))."""
        r = self.ip.alloc("inst", None)
        w = self.ip.w(r)
        w.cls = BC(object)
        for n, f in methods.items():
            w.attrs[n] = self.fn(lambda a, k, f=f: f(*a) or NONE)
        return r

    def alistener(self, **methods):
        """An object whose methods are coroutines; the Python callables run inside the awaiting task and may wait."""
        r = self.ip.alloc("inst", None)
        w = self.ip.w(r)
        w.cls = BC(object)
        for n, f in methods.items():
            m = self.fn(lambda a, k, f=f: self.acoro(lambda: f(*a) or NONE))
            self.ip.o(m).extra.is_async = True
            w.attrs[n] = m
        return r

    def wait(self, fut):
        """Inside alistener methods: wait for a Future of the scenario."""
        return fut.await_()

    def canon(self, v):
        return canon(self.ip, v)

    def msg(self, cls, **kw):
        return self.new("pyzwave.commandclass." + cls, **kw)

    def true(self, v):
        return self.ip.truth(v)


def lift(v):
    if isinstance(v, V):
        return v
    if callable(v) and not isinstance(v, type):
        return v
    return K(v)


def io_cuts(on_send=None):
    """The socket layer: what is handed to it is recorded, nothing else happens."""

    def send(ip, f, args, kw):
        w = ip.world
        data = args[1] if len(args) > 1 else kw.get("msg")
        w.sent.append((args[0], data))
        ip.ev("net", "send", args[0], [data])
        if on_send:
            r = on_send(ip, args[0], data)
            if r is not None:
                return r
        return TRUE

    def sendto(ip, f, args, kw):
        w = ip.world
        a = list(args[1:]) + list(kw.values())
        w.sentto.append((args[0],) + tuple(a))
        ip.ev("net", "sendTo", args[0], a)
        return TRUE

    def conn(ip, f, args, kw):
        ip.ev("net", "connect", args[0], list(args[1:]), kw)
        ip.world.conns.append((args[0], [canon(ip, x) for x in list(args[1:]) + list(kw.values())]))
        return aio.Awaitable(ip, lambda: (ip.sched.yield_(), NONE)[1]).ref

    def listen(ip, f, args, kw):
        ip.ev("net", "listen", args[0], list(args[1:]), kw)
        ip.world.listens.append([canon(ip, x) for x in list(args[1:]) + list(kw.values())])
        return aio.Awaitable(ip, lambda: (ip.sched.yield_(), NONE)[1]).ref

    def stop(ip, f, args, kw):
        ip.ev("net", "stop", args[0])
        return NONE

    c = "pyzwave.connection.Connection."
    return {c + "send": send, c + "sendTo": sendto, c + "connect": conn, c + "listen": listen, c + "stop": stop}


def scfg(**kw):
    d = dict(havoc=False, raw_mixin=True, cuts=io_cuts(kw.pop("on_send", None)))
    d["cuts"].update(kw.pop("cuts", {}))
    d.update(kw)
    return Cfg(**d)


def data_items(ip, v):
    """Byte values of something sent, as canonical ints / bit terms."""
    x = canon(ip, v)
    return list(x[1:]) if isinstance(x, tuple) and x and x[0] == "bytes" else x


def sent_frame(ip, v):
    """Decode what was sent with the analysed decoder; the caller compares canonical fields."""
    m = ip.lookup("pyzwave.message.Message")
    return ip.call(ip.getattr(m, "decode"), [v], {})
