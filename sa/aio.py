"""Abstract semantics of asyncio: tasks, futures, events, locks, queues, timers.

A scenario (see harness.Scenario) closes the analysed component with an environment: the environment decides
when a task runs on, which timeout elapses, what arrives.  Tasks are fibers of the interpreter: each has its own
abstract call stack, they switch only where the analysed source awaits something that is not ready, exactly the
points where asyncio can interleave them.  Values stay abstract throughout.
"""
import asyncio
import threading

from .values import *  # noqa

threading.stack_size(256 * 1024 * 1024)


class KillFiber(BaseException):
    pass


class Fiber:
    """A second abstract stack of the interpreter (an OS thread used purely as a coroutine)."""

    def __init__(self, ip, fn):
        self.ip, self.fn = ip, fn
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.started = self.done = self.running = False
        self.msg = None
        self.out = None
        self.err = None
        self.ctx = ([], [], [], 0)
        self.thread = None

    def _main(self):
        self.go.acquire()
        try:
            if isinstance(self.msg, KillFiber):
                raise self.msg
            self.out = ("done", self.fn())
        except KillFiber:
            self.out = ("killed", None)
        except BaseException as e:  # noqa: B902 - carried over to the resumer
            self.out = ("err", e)
        self.done = True
        self.back.release()

    def resume(self, msg=None):
        """Run until the fiber pauses or ends.  Returns ("pause", v) / ("done", v); raises what it raised."""
        ip = self.ip
        if not self.started:
            self.started = True
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
            ip.fibers.append(self)
        saved = (ip.frames, ip.call_stack, ip.active_exc, ip.loop_rep, ip.cur_fiber)
        ip.frames, ip.call_stack, ip.active_exc, ip.loop_rep = self.ctx
        ip.cur_fiber = self
        ip.switches += 1
        self.msg = msg
        self.running = True
        self.go.release()
        self.back.acquire()
        self.running = False
        self.ctx = (ip.frames, ip.call_stack, ip.active_exc, ip.loop_rep)
        ip.frames, ip.call_stack, ip.active_exc, ip.loop_rep, ip.cur_fiber = saved
        kind, v = self.out
        if kind == "err":
            raise v
        return kind, v

    def pause(self, v=None):
        """Called inside the fiber: hand control back; returns (or raises) the resume message."""
        self.out = ("pause", v)
        self.back.release()
        self.go.acquire()
        m = self.msg
        if isinstance(m, BaseException):
            raise m
        return m

    def kill(self):
        if self.started and not self.done:
            try:
                self.resume(KillFiber())
            except BaseException:  # noqa: B902
                pass


def close(ip):
    for f in reversed(ip.fibers):
        f.kill()
    ip.fibers = []
    ip.cur_fiber = None
    ip.sched = None


def fn(ip, f):
    """Wrap a Python callable f(args, kw) as an abstract callable."""
    r = ip.alloc("pycall")
    ip.w(r).extra = lambda ip2, args, kw: f(list(args), dict(kw))
    return r


def obj(ip, x):
    r = ip.alloc("aio")
    ip.w(r).extra = x
    x.ref = r
    return r


def get(ip, v):
    if isinstance(v, R):
        o = ip.o(v)
        if o.kind == "aio":
            return o.extra
    return None


class Aio:
    ref = None

    def __init__(self, ip):
        self.ip = ip

    def attr(self, name):
        m = getattr(self, "m_" + name, None)
        if m is None:
            self.ip.throw(AttributeError, "%s.%s" % (type(self).__name__, name))

        def go(a, k):
            touched(self.ip, "%s.%s" % (type(self).__name__, name))
            return m(*a, **k)
        return fn(self.ip, go)


def touched(ip, what):
    """Something that belongs to the event loop is used; another thread must not do that."""
    if getattr(ip.sched, "foreign", None) is not None:
        ip.sched.foreign.append(what)


class Future(Aio):
    def __init__(self, ip):
        super().__init__(ip)
        self.state = "pending"
        self.val = None
        self.cbs = []
        obj(ip, self)

    # -- python side
    def finish(self, state, val):
        self.state, self.val = state, val
        self.ip.ev("future", state, self.ref, (val,) if isinstance(val, V) else ())
        cbs, self.cbs = self.cbs, []
        for c in cbs:
            if callable(c):
                c(self)
            else:
                self.ip.sched.soon.append((c, [self.ref]))

    def done(self):
        return self.state != "pending"

    def outcome(self):
        if self.state == "result":
            return self.val
        if self.state == "exception":
            from .absint import AbsRaise
            raise AbsRaise(self.val)
        self.ip.throw(asyncio.CancelledError, "future was cancelled")

    def cancel(self):
        if self.done():
            return False
        self.finish("cancelled", None)
        return True

    def await_(self):
        self.ip.sched.block(self.done, self)
        return self.outcome()

    # -- program side
    def m_set_result(self, v):
        if self.done():
            self.ip.throw(asyncio.InvalidStateError, "invalid state")
        self.finish("result", v)
        return NONE

    def m_set_exception(self, v):
        if self.done():
            self.ip.throw(asyncio.InvalidStateError, "invalid state")
        if isinstance(v, (BC, ClassV)):
            v = self.ip.call(v, [], {})
        self.finish("exception", v)
        return NONE

    def m_cancel(self, msg=None):
        return K(self.cancel())

    def m_done(self):
        return K(self.done())

    def m_cancelled(self):
        return K(self.state == "cancelled")

    def m_result(self):
        if not self.done():
            self.ip.throw(asyncio.InvalidStateError, "Result is not set.")
        return self.outcome()

    def m_exception(self):
        if not self.done():
            self.ip.throw(asyncio.InvalidStateError, "Exception is not set.")
        if self.state == "cancelled":
            self.outcome()
        return self.val if self.state == "exception" else NONE

    def m_add_done_callback(self, cb, context=None):
        if self.done():
            self.ip.sched.soon.append((cb, [self.ref]))
        else:
            self.cbs.append(cb)
        return NONE

    def m_remove_done_callback(self, cb):
        self.cbs = [c for c in self.cbs if c != cb]
        return NONE

    def m_get_loop(self):
        return S(("loop",), "obj")


class Task(Future):
    def __init__(self, ip, aw, name=""):
        super().__init__(ip)
        self.aw = aw
        self.name = name
        self.waiting = None  # (ready predicate, thing)
        self.wfs = []  # enclosing wait_for's, outermost first
        self.inject = None
        self.fiber = Fiber(ip, self._run)
        ip.sched.tasks.append(self)

    def _run(self):
        return self.ip.await_value(self.aw)

    def ready(self):
        return self.waiting is None or self.inject is not None or self.waiting[0]()

    def step(self):
        from .absint import AbsRaise

        try:
            kind, v = self.fiber.resume()
        except AbsRaise as e:
            self.waiting = None
            if e.exc is not None and self.ip.exc_matches(e.exc, BC(asyncio.CancelledError)):
                self.finish("cancelled", None)
            else:
                self.finish("exception", e.exc)
            return
        if kind == "done":
            self.waiting = None
            self.finish("result", v)

    def cancel(self):
        if self.done():
            return False
        if not self.fiber.started:
            self.waiting = None
            self.finish("cancelled", None)
            return True
        fut = self.waiting[1] if self.waiting else None
        if isinstance(fut, Future) and not fut.done():
            fut.cancel()
            return True
        self.inject = asyncio.CancelledError
        return True

    def m_get_name(self):
        return K(self.name)

    def m_set_name(self, name):
        self.name = name.v if isinstance(name, K) else ""
        return NONE

    def m_uncancel(self):
        return K(0)

    def m_cancelling(self):
        return K(0)

    def m_get_coro(self):
        return self.aw


class Awaitable(Aio):
    """An awaitable with a Python-side body."""

    def __init__(self, ip, body):
        super().__init__(ip)
        self.body = body
        obj(ip, self)

    def await_(self):
        return self.body()


class Event(Aio):
    def __init__(self, ip):
        super().__init__(ip)
        self.flag = False
        self.waiters = []
        obj(ip, self)

    def m_set(self):
        self.flag = True
        for w in self.waiters:
            if not w.done():
                w.finish("result", TRUE)
        self.waiters = []
        return NONE

    def m_clear(self):
        self.flag = False
        return NONE

    def m_is_set(self):
        return K(self.flag)

    def m_wait(self):
        def body():
            if self.flag:
                return TRUE
            f = Future(self.ip)
            self.waiters.append(f)
            try:
                f.await_()
            finally:
                if f in self.waiters:
                    self.waiters.remove(f)
            return TRUE

        return Awaitable(self.ip, body).ref


class Lock(Aio):
    def __init__(self, ip, n=1):
        super().__init__(ip)
        self.n = n
        self.waiters = []
        obj(ip, self)

    def m_locked(self):
        return K(self.n == 0)

    def acquire(self):
        while self.n == 0:
            f = Future(self.ip)
            self.waiters.append(f)
            try:
                f.await_()
            finally:
                if f in self.waiters:
                    self.waiters.remove(f)
        self.n -= 1
        return TRUE

    def m_acquire(self):
        return Awaitable(self.ip, self.acquire).ref

    def m_release(self):
        self.n += 1
        for w in self.waiters:
            if not w.done():
                w.finish("result", TRUE)
                break
        return NONE

    def m___aenter__(self):
        return Awaitable(self.ip, lambda: (self.acquire(), NONE)[1]).ref

    def m___aexit__(self, *a):
        return Awaitable(self.ip, self.m_release).ref


class Queue(Aio):
    def __init__(self, ip, lifo=False):
        super().__init__(ip)
        self.items = []
        self.lifo = lifo
        self.waiters = []
        obj(ip, self)

    def m_put_nowait(self, x):
        self.items.append(x)
        for w in self.waiters:
            if not w.done():
                w.finish("result", TRUE)
                break
        return NONE

    def m_put(self, x):
        return Awaitable(self.ip, lambda: self.m_put_nowait(x)).ref

    def m_get_nowait(self):
        if not self.items:
            self.ip.throw(asyncio.QueueEmpty, "")
        return self.items.pop(-1 if self.lifo else 0)

    def get(self):
        while not self.items:
            f = Future(self.ip)
            self.waiters.append(f)
            try:
                f.await_()
            finally:
                if f in self.waiters:
                    self.waiters.remove(f)
        return self.m_get_nowait()

    def m_get(self):
        return Awaitable(self.ip, self.get).ref

    def m_empty(self):
        return K(not self.items)

    def m_qsize(self):
        return K(len(self.items))

    def m_task_done(self):
        return NONE


class Timer(Aio):
    def __init__(self, ip, delay, cb, args):
        super().__init__(ip)
        self.delay, self.cb, self.args = delay, cb, args
        self.state = "armed"
        self.due = ip.sched.after(delay) if isinstance(delay, K) else float("inf")
        obj(ip, self)
        ip.sched.timers.append(self)

    def m_cancel(self):
        if self.state == "armed":
            self.state = "cancelled"
        self.ip.ev("timer_cancel", "cancel", self.ref)
        return NONE

    def m_cancelled(self):
        return K(self.state == "cancelled")

    def m_when(self):
        return self.delay

    def fire(self):
        self.state = "fired"
        self.ip.call(self.cb, self.args, {})


class Timeout(Aio):
    """asyncio.timeout: an async context manager."""

    def __init__(self, ip, tv):
        super().__init__(ip)
        self.tv = tv
        self.wf = None
        obj(ip, self)

    def enter(self):
        t = self.ip.sched.current
        self.ip.ev("wait_for", "timeout", self.ref, (self.tv,))
        self.wf = WaitFor(t, self.tv)
        if t is not None and self.tv != NONE:
            t.wfs.append(self.wf)
            if isinstance(self.tv, K) and self.tv.v <= 0:
                self.wf.fired = True
                t.inject = asyncio.CancelledError
        return self.ref

    def leave(self, et=NONE, e=NONE, tb=NONE):
        t = self.wf.task
        if t is not None and self.wf in t.wfs:
            t.wfs.remove(self.wf)
        if self.wf.fired:
            if t.inject is asyncio.CancelledError:
                t.inject = None
            if e != NONE and self.ip.exc_matches(e, BC(asyncio.CancelledError)):
                self.ip.throw(TimeoutError, "timeout")
        return FALSE

    def m___aenter__(self):
        return Awaitable(self.ip, self.enter).ref

    def m___aexit__(self, *a):
        return Awaitable(self.ip, lambda: self.leave(*a)).ref

    def m_expired(self):
        return K(bool(self.wf and self.wf.fired))

    def m_when(self):
        return self.tv

    def m_reschedule(self, when):
        return NONE


class WaitFor:
    def __init__(self, task, timeout):
        self.task, self.timeout = task, timeout
        self.fired = False
        self.mild = False  # elapses without an exception (asyncio.wait)


class Sched:
    def __init__(self, ip):
        self.ip = ip
        self.tasks = []
        self.timers = []
        self.soon = []
        self.current = None
        self.log = []
        self.now = 0.0
        self.hold_sleep = False  # let sleeping tasks wait until the scenario's time advances
        self.sleeps = []

    def after(self, delay):
        if not isinstance(delay, K) or not isinstance(delay.v, (int, float)):
            from .absint import AnalysisError
            raise AnalysisError("unknown delay %r" % (delay,))
        return self.now + delay.v

    def advance(self, secs):
        """Time passes: sleeping tasks and timers go on when they are due."""
        end = self.now + secs
        self.run()
        for _ in range(200):
            due = [(f.due, i, f) for i, f in enumerate(self.sleeps) if not f.done()]
            due += [(t.due, len(due) + i, t) for i, t in enumerate(self.timers) if t.state == "armed"]
            due = [x for x in sorted(due, key=lambda x: x[:2]) if x[0] <= end]
            if not due:
                break
            self.now = max(self.now, due[0][0])
            if isinstance(due[0][2], Timer):
                due[0][2].fire()
            else:
                due[0][2].finish("result", NONE)
            self.run()
        self.now = end

    # -- used by awaiting code
    def block(self, ready, thing):
        ip = self.ip
        t = self.current
        if t is None:
            if not ready():
                from .absint import AnalysisError
                raise AnalysisError("the scenario's main flow awaits something that is not ready at %s" % ip.loc())
            return
        while not ready():
            ip.suspend(thing.ref if isinstance(thing, Aio) else None)
            t.waiting = (ready, thing)
            t.fiber.pause()
            t.waiting = None
            if t.inject is not None:
                e, t.inject = t.inject, None
                ip.throw(e, "injected")

    def yield_(self):
        """A bare suspension (sleep(0), opaque await): others may run, then it goes on."""
        ip = self.ip
        t = self.current
        if t is None:
            return
        ip.suspend(None)
        hit = []
        if t in self.tasks:  # the others that are ready go first
            self.tasks.remove(t)
            self.tasks.append(t)
        t.waiting = (lambda: bool(hit) or self.released(t), None)
        hit.append(1)
        t.fiber.pause()
        t.waiting = None
        if t.inject is not None:
            e, t.inject = t.inject, None
            ip.throw(e, "injected")

    def released(self, t):
        return True

    def wait_for(self, inner, timeout):
        """asyncio.wait_for."""
        from .absint import AbsRaise

        ip = self.ip
        t = self.current
        tv = ip.unwrap_int(timeout) if isinstance(timeout, V) else K(timeout)
        ip.ev("wait_for", "wait_for", inner, (tv,))
        a = get(ip, inner)
        if isinstance(tv, K) and tv.v is not None and tv.v <= 0:
            if isinstance(a, Future) and a.done():
                return a.outcome()
            if isinstance(a, Future):
                a.cancel()
            ip.throw(TimeoutError, "timeout")
        if isinstance(tv, K) and tv.v is None:
            return ip.await_value(inner)
        wf = WaitFor(t, tv)
        if t is not None:
            t.wfs.append(wf)
        depth = len(ip.frames)
        try:
            return ip.await_value(inner)
        except AbsRaise as e:
            del ip.frames[depth:]
            if wf.fired and ip.exc_matches(e.exc, BC(asyncio.CancelledError)):
                ip.throw(TimeoutError, "timeout")
            raise
        finally:
            if t is not None and wf in t.wfs:
                t.wfs.remove(wf)

    # -- used by the environment
    def spawn(self, aw, name=""):
        return Task(self.ip, aw, name)

    def run(self, limit=2000):
        """Run every ready task until all are blocked or finished."""
        n = 0
        while True:
            progress = False
            while self.soon:
                cb, args = self.soon.pop(0)
                self.ip.call(cb, args, {})
                progress = True
                n += 1
                if n > limit:
                    self.ip.throw(EndlessLoop, "callbacks that schedule themselves")
            for t in list(self.tasks):
                if not t.done() and not t.fiber.running and t.ready():
                    self.step(t)
                    progress = True
                    n += 1
                    if n > limit:
                        self.ip.throw(EndlessLoop, "tasks do not come to rest")
            if not progress:
                return

    def step(self, t):
        prev = self.current
        self.current = t
        try:
            t.step()
        finally:
            self.current = prev

    def blocked(self):
        return [t for t in self.tasks if not t.done()]

    def timeouts(self):
        """Timeouts that could elapse now."""
        return [w for t in self.tasks if not t.done() and t.waiting is not None for w in t.wfs]

    def fire(self, wf):
        """The timeout elapses: the awaiting task is interrupted there."""
        t = wf.task
        wf.fired = True
        if wf.mild:
            return
        fut = t.waiting[1] if t.waiting else None
        if isinstance(fut, Future) and not fut.done():
            fut.cancel()
        else:
            t.inject = asyncio.CancelledError

    def armed(self):
        return [x for x in self.timers if x.state == "armed"]


# ---------------------------------------------------------------- library entry points (scheduler present)
def wrap(ip, v):
    """ensure_future"""
    a = get(ip, v)
    if isinstance(a, Future):
        return a
    return ip.sched.spawn(v)


def call(ip, last, args, kw):
    """asyncio.<last>(...); None when not modelled here."""
    if last not in ("run_coroutine_threadsafe", "iscoroutine", "isfuture", "wait_for", "get_event_loop"):
        touched(ip, "asyncio." + last)
    if last == "Event":
        return Event(ip).ref
    if last == "Future":
        return Future(ip).ref
    if last == "Lock":
        return Lock(ip).ref
    if last in ("Semaphore", "BoundedSemaphore"):
        n = ip.unwrap_int(args[0]) if args else K(1)
        return Lock(ip, n.v).ref
    if last in ("Queue", "LifoQueue"):
        return Queue(ip, last == "LifoQueue").ref
    if last in ("ensure_future", "create_task"):
        t = wrap(ip, args[0])
        if isinstance(kw.get("name"), K) and isinstance(t, Task):
            t.name = kw["name"].v
        ip.ev("spawn", last, None, args, kw, t.ref)
        return t.ref
    if last == "run_coroutine_threadsafe":
        t = wrap(ip, args[0])
        ip.ev("spawn", last, None, args, kw, t.ref)
        return t.ref
    if last == "wait_for":
        inner = args[0]
        timeout = args[1] if len(args) > 1 else kw.get("timeout", NONE)
        return Awaitable(ip, lambda: ip.sched.wait_for(inner, timeout)).ref
    if last in ("timeout", "timeout_at"):
        tv = ip.unwrap_int(args[0]) if args else kw.get("delay", NONE)
        return Timeout(ip, tv).ref
    if last == "current_task":
        return ip.sched.current.ref if ip.sched.current is not None else NONE
    if last == "all_tasks":
        return ip.mkset([t.ref for t in ip.sched.tasks if not t.done()])
    if last == "to_thread":
        return Awaitable(ip, lambda: (ip.sched.yield_(), ip.call(args[0], list(args[1:]), kw))[1]).ref
    if last == "gather":
        futs = [wrap(ip, a) for a in args]
        rex = "return_exceptions" in kw and ip.truth(kw["return_exceptions"])

        def body():
            bad = lambda: [f for f in futs if f.state in ("exception", "cancelled")]  # noqa: E731
            ip.sched.block(lambda: all(f.done() for f in futs) or (not rex and bool(bad())), None)
            if not rex and bad():
                bad()[0].outcome()
            return ip.mklist([f.val if f.state != "cancelled" else ip.call(BC(asyncio.CancelledError), [], {}) for f in futs])

        return Awaitable(ip, body).ref
    if last == "shield":
        inner = wrap(ip, args[0])
        outer = Future(ip)

        def copy(f):
            if not outer.done():
                outer.finish(f.state, f.val)

        if inner.done():
            copy(inner)
        else:
            inner.cbs.append(copy)
        return outer.ref
    if last == "sleep":
        ip.ev("ext", "asyncio.sleep", None, args, kw)
        delay = args[0] if args else kw.get("delay", K(0))

        def body():
            if ip.sched.hold_sleep and not (isinstance(delay, K) and delay.v == 0):
                f = Future(ip)
                f.due = ip.sched.after(delay)
                ip.sched.sleeps.append(f)
                f.await_()
                return args[1] if len(args) > 1 else NONE
            ip.sched.yield_()
            return args[1] if len(args) > 1 else NONE

        return Awaitable(ip, body).ref
    if last == "wait":
        seq = ip.iter_elems(args[0])
        futs = [wrap(ip, a) for a in seq[0]]
        rw = kw.get("return_when")
        rw = rw.name if isinstance(rw, E) else rw.v if isinstance(rw, K) else ""
        first = "FIRST_COMPLETED" in rw
        tv = ip.unwrap_int(args[1]) if len(args) > 1 else ip.unwrap_int(kw.get("timeout", NONE))
        fail = (lambda: any(f.state in ("exception",) for f in futs)) if "FIRST_EXCEPTION" in rw else (lambda: False)

        def body():
            t = ip.sched.current
            wf = WaitFor(t, tv)
            timed = isinstance(tv, K) and tv.v is not None and t is not None
            if timed:
                wf.mild = True
                t.wfs.append(wf)
                ip.ev("wait_for", "wait", None, (tv,))
            try:
                ip.sched.block(lambda: wf.fired or (any if first else all)(f.done() for f in futs) or fail(), None)
            finally:
                if timed and wf in t.wfs:
                    t.wfs.remove(wf)
            return T([ip.mkset([f.ref for f in futs if f.done()]), ip.mkset([f.ref for f in futs if not f.done()])])

        return Awaitable(ip, body).ref
    if last == "iscoroutine":
        return K(isinstance(args[0], R) and ip.o(args[0]).kind == "coro")
    if last == "isfuture":
        return K(isinstance(get(ip, args[0]), Future))
    return None


def loop_call(ip, name, args, kw):
    """loop.<name>(...)"""
    if name not in ("call_soon_threadsafe", "is_running", "is_closed", "time"):
        touched(ip, "loop." + name)
    if name == "create_future":
        return Future(ip).ref
    if name in ("create_task", "ensure_future"):
        return call(ip, "create_task", args, kw)
    if name == "run_in_executor":
        return Awaitable(ip, lambda: (ip.sched.yield_(), ip.call(args[1], list(args[2:]), kw))[1]).ref
    if name == "call_later":
        ip.ev("ext", "call_later", None, args, kw)
        return Timer(ip, args[0], args[1], args[2:]).ref
    if name == "call_at":
        ip.ev("ext", "call_at", None, args, kw)
        return Timer(ip, args[0], args[1], args[2:]).ref
    if name in ("create_datagram_endpoint", "create_connection", "create_server") and getattr(ip.sched, "endpoint", None):
        return Awaitable(ip, lambda: (ip.sched.yield_(), ip.sched.endpoint(args, kw))[1]).ref
    if name in ("call_soon", "call_soon_threadsafe"):
        ip.ev("ext", name, None, args, kw)
        ip.sched.soon.append((args[0], list(args[1:])))
        return S(("handle", ip.uid()), "obj")
    return None
