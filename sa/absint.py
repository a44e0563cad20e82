"""Abstract interpreter for the Python subset pyzwave is written in.

The interpreter never imports or runs the analysed program: it parses the sources, evaluates
module initialisers by constant propagation (class tables, decorator registries), and then
analyses entry points path by path over an abstract domain:

  * values     : constants, provenance terms (Herbrand / access-path domain), abstract heap objects
  * predicates : normalised facts (truthiness, identity with None, equality, order, membership,
                 isinstance) accumulated along a path; a branch on an undecided predicate partitions
                 the trace, nothing is solved for
  * loops      : a loop over an unknown sequence is analysed as zero iterations and as one
                 representative iteration whose loop-carried variables are widened
  * suspension : every `await` of something unknown havocs all shared mutable state
  * effects    : calls that leave the analysed program, attribute / container writes, suspensions,
                 spawned tasks and exceptional exits are recorded as events of the abstract trace
"""
import ast
import asyncio
import builtins
import importlib
import os
import ssl
import struct

from .values import *  # noqa
from . import aio
from . import prelude


class AbsRaise(Exception):
    def __init__(self, exc, loc=None, cause=None):
        super().__init__(repr(exc))
        self.exc = exc
        self.loc = loc


class _Ctl(Exception):
    pass


class BreakEx(_Ctl):
    pass


class ContinueEx(_Ctl):
    pass


class ReturnEx(_Ctl):
    def __init__(self, v):
        self.v = v


class StopGen(_Ctl):
    def __init__(self, v=None):
        self.v = v


class Infeasible(Exception):
    """The current abstract path is contradictory."""


class AnalysisLimit(Exception):
    pass


class AnalysisError(Exception):
    """The analysis cannot speak about the program (vanished anchor, unknown shape)."""


EXC_ALIASES = {
    "asyncio.TimeoutError": TimeoutError,
    "asyncio.exceptions.TimeoutError": TimeoutError,
    "concurrent.futures.TimeoutError": TimeoutError,
    "asyncio.CancelledError": asyncio.CancelledError,
    "asyncio.exceptions.CancelledError": asyncio.CancelledError,
    "asyncio.InvalidStateError": asyncio.InvalidStateError,
    "asyncio.exceptions.InvalidStateError": asyncio.InvalidStateError,
    "ipaddress.AddressValueError": ValueError,
    "json.JSONDecodeError": ValueError,
    "socket.error": OSError,
    "socket.timeout": TimeoutError,
    "ssl.SSLError": ssl.SSLError,
    "ssl.SSLEOFError": ssl.SSLEOFError,
    "ssl.SSLZeroReturnError": ssl.SSLZeroReturnError,
    "ssl.SSLWantReadError": ssl.SSLWantReadError,
    "struct.error": struct.error,
}

ENUM_BASES = {"enum.Enum": "Enum", "enum.IntEnum": "IntEnum", "enum.IntFlag": "IntFlag", "enum.Flag": "Flag"}

BUILTIN_TYPES = {
    n: getattr(builtins, n)
    for n in (
        "int str bytes bool float list dict set frozenset tuple bytearray object type complex memoryview slice "
        "range enumerate zip map filter reversed"
    ).split()
}
for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTIN_TYPES[_n] = _o

BUILTIN_FUNCS = set(
    "len isinstance issubclass hasattr getattr setattr delattr sorted any all min max sum next iter repr "
    "print super property staticmethod classmethod callable id abs divmod format open ord chr hash vars round "
    "pow input bin hex oct globals locals dir aiter anext".split()
)

CONTAINER = ("dict", "list", "set")


class Frame:
    __slots__ = ("func", "env", "module", "parent", "hook", "cls", "globals_decl", "nonlocal_decl", "line", "isclass")

    def __init__(self, func, env, module, parent=None, cls=None):
        self.func = func
        self.env = env
        self.module = module
        self.parent = parent  # lexically enclosing frame
        self.hook = None
        self.cls = cls
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.line = 0
        self.isclass = False


class Cfg:
    """Analysis parameters of one entry."""

    def __init__(self, **kw):
        self.cuts = {}  # qualname -> callable(ip, func, args, kw) -> V
        self.await_raises = None  # callable(ip, awaitable V, kind) -> list of exception types
        self.call_raises = None  # callable(ip, Ev) -> list of exception types
        self.pure = set()  # method names whose opaque result is a function of receiver and arguments
        self.raw_mixin = False  # interpret AttributesMixin.__getattr__/__setattr__/__init__ themselves
        self.index_raises = True
        self.enum_raises = False
        self.cancel = False
        self.max_unroll = 400
        self.havoc = True
        self.ext = {}  # dotted name -> callable(ip, args, kw) -> V
        self.sym_methods = {}  # method name -> callable(ip, recv S, args, kw) -> V or None
        self.max_paths = 20000
        self.max_steps = 400000
        self.spawn_inline = False
        self.track_iter = True
        self.field_value = None  # callable(ip, obj, name) -> V or None
        self.intop_raises = False
        self.later_iterations = True
        self.concrete_range = 400
        self.unroll_while = 300
        self.loop_events = False
        self.__dict__.update(kw)


CONST_CACHE = {}


def const_ext(name):
    """A constant of the standard library (string.digits, os.sep, math.pi, socket.AF_INET6 stays a name)."""
    if name in CONST_CACHE:
        return CONST_CACHE[name]
    mod, _, leaf = name.rpartition(".")
    res = None
    if mod in ("string", "os", "os.path", "math", "sys", "errno") and leaf:
        m = importlib.import_module(mod)
        v = getattr(m, leaf, None)
        if isinstance(v, (str, int, float)) and not name in ("os.environ", "sys.argv", "sys.platform"):
            res = K(v)
    CONST_CACHE[name] = res
    return res


ABCS = {
    "Iterable", "Iterator", "Mapping", "MutableMapping", "Sequence", "MutableSequence", "Set", "MutableSet", "Callable", "Hashable", "Sized",
    "Container", "Collection", "Awaitable", "Coroutine", "Generator", "AsyncIterable", "AsyncIterator", "Reversible", "Number", "Integral",
    "Real", "Complex", "Rational", "Buffer", "ByteString",
}


def stdlib_lacks(qual, name):
    """True when the standard-library class is known not to have the attribute."""
    if qual != "ipaddress.IPv6Address":
        return False
    import ipaddress
    return not hasattr(ipaddress.IPv6Address, name)


class Interp:
    def __init__(self, root, package="pyzwave"):
        self.root = root
        self.package = package
        self.modules = {}
        self.prelude = {}
        self.base = {}
        self.next_oid = 1
        self.initing = True
        self.cfg = Cfg()
        self.switches = 0
        self.overlay = {}
        self.facts = {}
        self.iv = {}
        self.sattr = {}
        self.classattr = {}
        self.modattr = {}
        self.events = []
        self.epoch = 0
        self.counter = 0
        self.steps = 0
        self.taken = []
        self.prefix = []
        self.frames = []
        self.loop_rep = 0
        self.seen_iters = set()
        self.path_loops = []
        self.funcs_seen = set()
        self.volatile_cache = None
        self.item_kind_cache = None
        self.branches_seen = 0
        self.call_stack = []
        self.active_exc = []
        self.fibers = []
        self.cur_fiber = None
        self.sched = None
        self.carried = {}
        self.disp_e = {}
        self.disp_x = {}

    # ------------------------------------------------------------------ loading
    def module_path(self, name):
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, _ = self.module_path(name)
        if path is None:
            d = os.path.join(self.root, name.replace(".", "/"))
            if not os.path.isdir(d):
                return None
            m = ModuleV(name, os.path.join(d, "<namespace>"))  # namespace package
            m.tree = ast.Module(body=[], type_ignores=[])
            m.attrs["__name__"] = K(name)
            m.done = True
            self.modules[name] = m
            return m
        m = ModuleV(name, path)
        with open(path, encoding="utf-8") as fd:
            m.src = fd.read()
        m.tree = ast.parse(m.src, path)
        self.modules[name] = m
        m.attrs["__name__"] = K(name)
        m.attrs["__file__"] = K(path)
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            fr = Frame(None, m.attrs, m)
            self.frames.append(fr)
            try:
                self.exec_body(m.tree.body)
            finally:
                self.frames.pop()
            self.modules[par].attrs.setdefault(leaf, m)
        else:
            fr = Frame(None, m.attrs, m)
            self.frames.append(fr)
            try:
                self.exec_body(m.tree.body)
            finally:
                self.frames.pop()
        m.done = True
        return m

    def load_all(self):
        """Evaluate the initialisers of every module of the package."""
        top = os.path.join(self.root, self.package)
        self.load_prelude()
        self.load_module(self.package)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                self.load_module(rel)
        # initialiser state becomes the immutable base heap
        self.base.update(self.overlay)
        self.overlay = {}
        self.initing = False
        return self

    def load_prelude(self):
        """Standard-library helpers that are interpreted (sa/prelude.py)."""
        m = ModuleV("<stdlib>", "<stdlib>")
        m.src = prelude.SRC
        m.tree = ast.parse(m.src)
        m.attrs["__name__"] = K("stdlib")
        self.frames.append(Frame(None, m.attrs, m))
        try:
            self.exec_body(m.tree.body)
        finally:
            self.frames.pop()
        m.done = True
        for n, v in m.attrs.items():
            if isinstance(v, (ClassV, FuncV)) and "__" in n:
                v.name = n.split("__", 1)[1]
            self.prelude[n] = v

    def load_extra(self, name, src):
        """Add a module of the environment (listener and observer classes a scenario uses)."""
        if name in self.modules:
            return self.modules[name]
        self.reset([])
        self.initing = True
        m = ModuleV(name, os.path.join(self.root, "<%s>" % name))
        m.src = src
        m.tree = ast.parse(src)
        self.modules[name] = m
        m.attrs["__name__"] = K(name)
        self.frames.append(Frame(None, m.attrs, m))
        try:
            self.exec_body(m.tree.body)
        finally:
            self.frames.pop()
        m.done = True
        self.base.update(self.overlay)
        self.overlay = {}
        self.initing = False
        return m

    def lookup(self, qual):
        """Resolve 'pyzwave.mod.Class.attr' to a program entity."""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            name = ".".join(parts[:i])
            if name in self.modules:
                cur = self.modules[name]
                rest = parts[i:]
                for p in rest:
                    if isinstance(cur, ModuleV):
                        if p not in cur.attrs:
                            sub = self.load_module(cur.name + "." + p)
                            if sub is None:
                                raise AnalysisError("anchor %s: no %s in %s" % (qual, p, cur.name))
                            cur = sub
                        else:
                            cur = cur.attrs[p]
                    elif isinstance(cur, ClassV):
                        v = self.class_lookup(cur, p)
                        if v is None:
                            raise AnalysisError("anchor %s: no %s in %s" % (qual, p, cur.qualname))
                        cur = v
                    else:
                        raise AnalysisError("anchor %s: cannot step into %r" % (qual, cur))
                return cur
        raise AnalysisError("anchor %s: module not found" % qual)

    # ------------------------------------------------------------------ path control
    def choose(self, n, why=""):
        if n <= 1:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if self.initing:
            raise AnalysisError("module initialiser is not deterministic: %s at %s" % (why, self.loc()))
        self.taken.append((c, n))
        self.branches_seen += 1
        return c

    def explore(self, fn, cfg=None, stack=None, until=None, make=None):
        """Analyse every abstract path of fn(self).  Returns a list of Path.

        stack: prefixes to start from (default: the root); until: stop and leave the rest on `stack`
        as soon as it holds that many prefixes; make: what to keep of each path."""
        if cfg is not None:
            self.cfg = cfg
        if stack is None:
            stack = [[]]
        out = []
        while stack and (until is None or len(stack) < until):
            prefix = stack.pop() if until is None else stack.pop(0)
            self.reset(prefix)
            outcome = None
            try:
                v = fn(self)
                outcome = ("ret", v)
            except AbsRaise as e:
                outcome = ("exc", e.exc, e.loc)
            except Infeasible:
                outcome = None
            except RecursionError:
                raise AnalysisLimit("recursion limit")
            finally:
                if self.fibers:
                    aio.close(self)
            for i in range(len(self.taken) - 1, len(prefix) - 1, -1):
                c, n = self.taken[i]
                for alt in range(n - 1, c, -1):
                    stack.append([x[0] for x in self.taken[:i]] + [alt])
            if outcome is not None:
                out.append(Path(self, outcome) if make is None else make(Path(self, outcome)))
            if len(out) > self.cfg.max_paths:
                raise AnalysisLimit("more than %d abstract paths" % self.cfg.max_paths)
        return out

    def reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.overlay = {}
        self.facts = {}
        self.iv = {}
        self.sattr = {}
        self.classattr = {}
        self.modattr = {}
        self.events = []
        self.epoch = 0
        self.counter = 0
        self.steps = 0
        self.frames = []
        self.loop_rep = 0
        self.seen_iters = set()
        self.next_oid = max(self.base, default=0) + 1
        self.call_stack = []
        self.active_exc = []
        self.fibers = []
        self.switches = 0
        self.cur_fiber = None
        self.sched = None

    def uid(self):
        self.counter += 1
        return self.counter

    # ------------------------------------------------------------------ heap
    def alloc(self, kind, cls=None, prov=None):
        oid = self.next_oid
        self.next_oid += 1
        o = Obj(kind, cls, prov)
        if kind == "list":
            o.items = []
        elif kind in ("dict", "set"):
            o.items = {}
            o.absent = set()
        o.epoch = self.epoch
        o.local_loop = self.loop_rep
        self.overlay[oid] = o
        if prov is None:
            o.prov = ("new", (cls.name if isinstance(cls, ClassV) else kind), oid if not self.initing else "init%d" % oid)
        return R(oid, cls.name if isinstance(cls, ClassV) else kind)

    def o(self, r):
        x = self.overlay.get(r.oid)
        if x is None:
            x = self.base[r.oid]
        return x

    def w(self, r):
        x = self.overlay.get(r.oid)
        if x is None:
            x = self.base[r.oid].copy()
            self.overlay[r.oid] = x
        return x

    def share(self, v, depth=0):
        """The value escapes: other tasks may reach it from now on."""
        if depth > 6:
            return
        if isinstance(v, R):
            o = self.o(v)
            if o.shared:
                return
            o = self.w(v)
            o.shared = True
            o.epoch = self.epoch
            for n in o.attrs:
                o.aep[n] = self.epoch
            for x in list(o.attrs.values()):
                self.share(x, depth + 1)
            if o.kind == "list":
                for x in o.items:
                    self.share(x, depth + 1)
            elif o.kind == "dict":
                for _k, (a, b) in list(o.items.items()):
                    self.share(b, depth + 1)
            if o.fields:
                for x in list(o.fields.values()):
                    self.share(x, depth + 1)
        elif isinstance(v, T):
            for x in v.items:
                self.share(x, depth + 1)
        elif isinstance(v, BM):
            self.share(v.self, depth + 1)

    def sync(self, r):
        """Bring a shared volatile container up to the current epoch."""
        o = self.o(r)
        if o.kind in CONTAINER and o.shared and o.volatile and o.epoch < self.epoch and self.cfg.havoc:
            o = self.w(r)
            o.items = [] if o.kind == "list" else {}
            o.absent = set() if o.kind != "list" else None
            o.ver += 1
            o.epoch = self.epoch
            o.open = ("cont", o.prov, self.epoch)
            o.rep = False
        return o

    def ckey(self, r):
        """Identity of the present contents of a container, usable inside predicates."""
        o = self.sync(r)
        if isinstance(o.extra, tuple) and o.extra and o.extra[0] == "ckey" and not o.shared and not o.ver:
            return o.extra[1]
        return ("cont", o.prov, o.epoch if o.shared else 0, o.ver)

    def enter(self, *roots):
        """Everything reachable from roots is in an arbitrary reachable state from here on."""
        for r in roots:
            self.share(r)
        self.epoch += 1
        self.events = []

    def suspend(self, what=None):
        self.epoch += 1
        self.ev("suspend", "suspend", None, (what,) if what is not None else ())

    def ev(self, kind, name, recv=None, args=(), kw=None, res=None, extra=None):
        f = None
        for fr in reversed(self.frames):
            if fr.func is not None and isinstance(fr.func, FuncV) and not fr.func.synthetic:
                f = fr.func.qualname
                break
        e = Ev(kind, name, recv, args, kw, res, self.loc(), f, extra)
        self.events.append(e)
        return e

    def loc(self):
        for fr in reversed(self.frames):
            if fr.module is not None:
                return "%s:%d" % (os.path.relpath(fr.module.path, self.root), fr.line)
        return "?"

    # ------------------------------------------------------------------ facts
    def keyof(self, v):
        v = self.unwrap_int(v)
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return ("k", int(v.v))
            if isinstance(v.v, float) and v.v == int(v.v):
                return ("k", int(v.v))
            if isinstance(v.v, (int, str, bytes)) or v.v is None:
                return ("k", v.v) if not isinstance(v.v, bytes) else ("kb", v.v)
            return v
        if isinstance(v, EN) and v.intlike:
            return ("k", v.val)
        if isinstance(v, R) and self.sched is not None:
            o = self.o(v)
            if isinstance(o.cls, ClassV) and o.cls.fields is not None and (o.cls.opts.get("frozen") or o.cls.opts.get("unsafe_hash")):
                return ("dc", o.cls, tuple(self.keyof(self.getattr(v, n)) for n, _d, x in o.cls.fields if not x.get("initvar")))
        return v

    def unwrap_int(self, v):
        """Strip int()-like and scalar-subclass wrappers: they do not change the number."""
        while True:
            if isinstance(v, S) and isinstance(v.term, tuple) and v.term and v.term[0] in ("int", "wrap"):
                v = v.term[-1]
                if not isinstance(v, V):
                    v = S(v)
                continue
            if isinstance(v, R):
                o = self.o(v)
                if o.kind == "inst" and o.payload is not None:
                    v = o.payload
                    continue
            return v

    def decide(self, p):
        """Truth of predicate p on this path; partitions the trace when it is open."""
        neg, p = self.normp(p)
        if p is True or p is False:
            return p != neg
        val = self.facts.get(p)
        if val is None:
            val = self.imply(p)
            if val is None:
                val = self.choose(2, p) == 0
            self.assume(p, val)
        return val != neg

    def known(self, p):
        """Truth of p if decided on this path, else None (no partitioning)."""
        neg, p = self.normp(p)
        if p is True or p is False:
            return p != neg
        val = self.facts.get(p)
        if val is None:
            val = self.imply(p)
        return None if val is None else val != neg

    def assume(self, p, val):
        neg, p = self.normp(p)
        val = bool(val) != neg
        if p is True or p is False:
            if p != val:
                raise Infeasible()
            return
        old = self.facts.get(p)
        if old is not None and old != val:
            raise Infeasible()
        self.facts[p] = val
        if p[0] == "lt":
            self.refine_lt(p[1], p[2], val)
        elif p[0] == "eq" and isinstance(p[2], K) and isinstance(p[2].v, int) and isinstance(p[1], S):
            lo, hi = self.iv.get(p[1], (None, None))
            c = int(p[2].v)
            if val:
                self.iv[p[1]] = (c, c)
            else:
                if lo == c:
                    self.iv[p[1]] = (c + 1, hi)
                elif hi == c:
                    self.iv[p[1]] = (lo, c - 1)
        elif p[0] == "truthy" and not val and isinstance(p[1], S) and p[1].ty == "int":
            self.iv[p[1]] = (0, 0)

    def normp(self, p):
        """-> (negated?, canonical predicate or bool)"""
        neg = False
        while True:
            h = p[0]
            if h == "not":
                neg = not neg
                p = p[1]
                continue
            if h == "eq":
                a, b = p[1], p[2]
                if isinstance(b, S) and not isinstance(a, S):
                    a, b = b, a
                    p = ("eq", a, b)
                if isinstance(a, S) and isinstance(a.term, tuple) and a.term and a.term[0] == "len" and b == K(0):
                    neg = not neg
                    p = self.nonempty_pred(a)
                    continue
                if isinstance(a, S) and isinstance(a.term, tuple) and a.term and a.term[0] == "pred" and isinstance(b, K) and isinstance(b.v, bool):
                    p = a.term[1]
                    if not b.v:
                        neg = not neg
                    continue
                if not isinstance(b, K) and repr(a) > repr(b):
                    p = ("eq", b, a)
                return neg, p
            if h == "lt":
                a, b = p[1], p[2]
                if isinstance(b, S) and isinstance(b.term, tuple) and b.term and b.term[0] == "len" and a == K(0):
                    p = self.nonempty_pred(b)
                    continue
                if isinstance(a, S) and isinstance(a.term, tuple) and a.term and a.term[0] == "len" and b == K(1):
                    neg = not neg
                    p = self.nonempty_pred(a)
                    continue
                return neg, p
            if h == "truthy":
                x = p[1]
                t = x.term if isinstance(x, S) else None
                if isinstance(t, tuple) and t:
                    if t[0] == "not":
                        neg = not neg
                        p = ("truthy", t[1])
                        continue
                    if t[0] == "bool":
                        p = ("truthy", t[1])
                        continue
                    if t[0] == "pred":
                        p = t[1]
                        continue
                    if t[0] == "len":
                        p = self.nonempty_pred(x)
                        continue
                    if t[0] == "int" and isinstance(t[1], S):
                        p = ("truthy", t[1])
                        continue
                if not isinstance(x, S):
                    return neg, bool(self.truth(x))
                return neg, p
            return neg, p

    @staticmethod
    def nonempty_pred(lenv):
        t = lenv.term
        if isinstance(t[1], tuple) and t[1] and t[1][0] == "cont":
            return ("nonempty", t[1])
        return ("truthy", t[1])

    def refine_lt(self, a, b, val):
        def upd(t, lo=None, hi=None):
            l0, h0 = self.iv.get(t, (None, None))
            if lo is not None:
                l0 = lo if l0 is None else max(l0, lo)
            if hi is not None:
                h0 = hi if h0 is None else min(h0, hi)
            self.iv[t] = (l0, h0)
            if l0 is not None and h0 is not None and l0 > h0:
                raise Infeasible()

        for x in (a, b):
            if isinstance(x, K) and not isinstance(x.v, int):
                return
        if isinstance(b, K) and isinstance(a, S):
            if val:
                upd(a, hi=b.v - 1)
            else:
                upd(a, lo=b.v)
        elif isinstance(a, K) and isinstance(b, S):
            if val:
                upd(b, lo=a.v + 1)
            else:
                upd(b, hi=a.v)

    def rng(self, v, depth=0):
        """Interval of an integer-valued abstract value: (lo, hi), None = unbounded."""
        if depth > 12:
            return (None, None)
        v = self.unwrap_int(v)
        if isinstance(v, K):
            if isinstance(v.v, (int, bool)):
                return (int(v.v), int(v.v))
            return (None, None)
        if isinstance(v, EN) and isinstance(v.val, int):
            return (v.val, v.val)
        if isinstance(v, BV):
            return (0, (1 << len(v.bits)) - 1)
        if not isinstance(v, S):
            return (None, None)
        lo, hi = None, None
        t = v.term
        if isinstance(t, tuple) and t:
            if t[0] == "bin":
                op, a, b = t[1], t[2], t[3]
                la, ha = self.rng(a, depth + 1)
                lb, hb = self.rng(b, depth + 1)
                if op == "+":
                    lo = None if la is None or lb is None else la + lb
                    hi = None if ha is None or hb is None else ha + hb
                elif op == "-":
                    lo = None if la is None or hb is None else la - hb
                    hi = None if ha is None or lb is None else ha - lb
                elif op == "&":
                    for x in (b, a):
                        x = self.unwrap_int(x)
                        if isinstance(x, K) and isinstance(x.v, int) and x.v >= 0:
                            lo, hi = 0, x.v
                elif op == "%":
                    if isinstance(b, K) and isinstance(b.v, int) and b.v > 0:
                        lo, hi = 0, b.v - 1
                elif op == ">>" and la is not None and la >= 0:
                    lo, hi = 0, ha
                    if ha is not None and isinstance(b, K):
                        hi = ha >> b.v
                elif op == "//" and la is not None and la >= 0 and isinstance(b, K) and b.v > 0:
                    lo, hi = 0, None if ha is None else ha // b.v
                elif op == "*" and None not in (la, ha, lb, hb) and la >= 0 and lb >= 0:
                    lo, hi = la * lb, ha * hb
                elif op == "<<" and la is not None and la >= 0:
                    lo = 0
                    if ha is not None and isinstance(b, K):
                        hi = ha << b.v
                elif op == "|" and la is not None and lb is not None and la >= 0 and lb >= 0:
                    lo = 0
                    if ha is not None and hb is not None:
                        hi = (1 << max(ha.bit_length(), hb.bit_length())) - 1
            elif t[0] == "len":
                lo = 0
            elif t[0] == "rng":
                lo, hi = t[-2], t[-1]
            elif t[0] == "bits":
                lo, hi = 0, (1 << t[-1]) - 1
            elif t[0] == "min":
                rs = [self.rng(x, depth + 1) for x in t[1:]]
                his = [h for _l, h in rs if h is not None]
                los = [l for l, _h in rs]
                hi = min(his) if his else None
                lo = min(los) if los and None not in los else None
            elif t[0] == "max":
                rs = [self.rng(x, depth + 1) for x in t[1:]]
                his = [h for _l, h in rs]
                los = [l for l, _h in rs if l is not None]
                hi = max(his) if his and None not in his else None
                lo = max(los) if los else None
        l2, h2 = self.iv.get(v, (None, None))
        if l2 is not None:
            lo = l2 if lo is None else max(lo, l2)
        if h2 is not None:
            hi = h2 if hi is None else min(hi, h2)
        return (lo, hi)

    def imply(self, p):
        h = p[0]
        f = self.facts
        if h == "truthy":
            x = p[1]
            if f.get(("none", x)):
                return False
            if isinstance(x, S) and isinstance(x.term, tuple) and x.term and x.term[0] in ("new", "loop", "fmtne"):
                return True
            for q, val in f.items():
                if q[0] == "eq" and val and q[1] == x and isinstance(q[2], (K, EN)):
                    return self.truth(q[2])
                if q[0] == "isinst" and val and q[1] == x and isinstance(q[2], ClassV):
                    if not self.scalar_class(q[2]):
                        return True
            lo, hi = self.rng(x)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
            if lo == 0 and hi == 0:
                return False
            return None
        if h == "none":
            x = p[1]
            if f.get(("truthy", x)):
                return False
            if isinstance(x, S):
                if x.ty in ("int", "str", "bytes", "bool", "float", "obj"):
                    return False
                t = x.term
                if isinstance(t, tuple) and t and t[0] in ("new", "loop", "fmt", "len", "bin", "int", "pred", "list", "set", "key"):
                    return False
                if t and isinstance(t, tuple) and t[0] == "enumval":
                    return False
            for q, val in f.items():
                if val and q[0] in ("isinst",) and q[1] == x:
                    return False
                if val and q[0] == "eq" and q[1] == x and isinstance(q[2], (K, EN)):
                    return q[2] == NONE
                if q[0] == "eq" and not val and q[1] == x and q[2] == NONE:
                    return False
            return None
        if h == "eq":
            a, b = p[1], p[2]
            if b == NONE:
                return f.get(("none", a), self.imply(("none", a)))
            if isinstance(a, S) and isinstance(b, (K, EN)):
                if f.get(("none", a)):
                    return False
                bt = self.truth(b)
                ft = f.get(("truthy", a))
                if ft is not None and ft != bt:
                    return False
                kb = self.keyof(b)
                for q, val in f.items():
                    if q[0] == "eq" and q[1] == a and isinstance(q[2], (K, EN)):
                        if self.keyof(q[2]) == kb:
                            return val
                        if val:
                            return False
                if isinstance(b, (K, EN)) and isinstance(kb, tuple) and isinstance(kb[1], int):
                    lo, hi = self.rng(a)
                    if lo is not None and kb[1] < lo or hi is not None and kb[1] > hi:
                        return False
                    if lo is not None and lo == hi == kb[1]:
                        return True
            # distinct freshly created objects
            if isinstance(a, S) and isinstance(b, S):
                ta, tb = a.term, b.term
                if isinstance(ta, tuple) and isinstance(tb, tuple) and ta and tb and ta[0] == "new" and tb[0] == "new":
                    return False
                ka = [q[2] for q, val in f.items() if q[0] == "eq" and val and q[1] == a and isinstance(q[2], (K, EN))]
                kb = [q[2] for q, val in f.items() if q[0] == "eq" and val and q[1] == b and isinstance(q[2], (K, EN))]
                if ka and kb:
                    return self.keyof(ka[0]) == self.keyof(kb[0])
            return None
        if h == "lt":
            a, b = p[1], p[2]
            if a == b:
                return False
            la, ha = self.rng(a)
            lb, hb = self.rng(b)
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
            if f.get(("lt", b, a)):
                return False
            if f.get(("eq", a, b)) or f.get(("eq", b, a)):
                return False
            return None
        if h == "isinst":
            x, c = p[1], p[2]
            if f.get(("none", x)):
                return False
            for q, val in f.items():
                if q[0] != "isinst" or q[1] != x:
                    continue
                d = q[2]
                if val and self.subclass(d, c):
                    return True
                if not val and self.subclass(c, d):
                    return False
                if val and isinstance(d, ClassV) and isinstance(c, ClassV) and not self.subclass(c, d):
                    return False
            if isinstance(x, S) and x.ty in ("int", "str", "bytes", "bool", "float"):
                if isinstance(c, BC):
                    return issubclass(getattr(builtins, x.ty), c.t)
                return False
            return None
        if h == "in":
            if isinstance(p[2], tuple) and p[2] and p[2][0] == "cont":
                if f.get(("nonempty", p[2])) is False:
                    return False
            return None
        if h == "nonempty":
            for q, val in f.items():
                if val and q[0] == "in" and q[2] == p[1]:
                    return True
            return None
        return None

    def scalar_class(self, c):
        for b in c.mro:
            if isinstance(b, BC) and b.t in (int, str, bytes, float, bool, dict, list, set, tuple, bytearray):
                return True
            if isinstance(b, ClassV) and ("__bool__" in b.attrs or "__len__" in b.attrs):
                return True
        return False

    def truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, (T, BS)):
            return len(v.items) > 0
        if isinstance(v, EN):
            if v.intlike:
                return bool(v.val)
            return True
        if isinstance(v, BV):
            if any(b == 1 for b in v.bits):
                return True
            if all(b == 0 for b in v.bits):
                return False
            return self.decide(("nz", v.bits))
        if isinstance(v, R):
            o = self.o(v)
            if isinstance(o.cls, ClassV):
                for nm in ("__bool__", "__len__"):
                    m = self.class_lookup(o.cls, nm)
                    if isinstance(m, FuncV):
                        return self.truth(self.call_func(m, [v], {}))
            if o.kind in CONTAINER:
                o = self.sync(v)
                if o.items:
                    return True
                if o.open is None:
                    return False
                return self.decide(("nonempty", self.ckey(v)))
            if o.payload is not None:
                return self.truth(o.payload)
            return True
        if isinstance(v, S):
            return self.decide(("truthy", v))
        return True

    # ------------------------------------------------------------------ classes
    def class_lookup(self, cls, name):
        if isinstance(cls, BC):
            return None
        ov = self.classattr.get((cls, name))
        if ov is not None:
            return ov
        for c in cls.mro:
            if isinstance(c, ClassV):
                ov = self.classattr.get((c, name))
                if ov is not None:
                    return ov
                if name in c.attrs:
                    return c.attrs[name]
        return None

    def class_owner(self, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassV) and name in c.attrs:
                return c
        return None

    def mro_of(self, b):
        if isinstance(b, ClassV):
            return list(b.mro)
        if isinstance(b, BC):
            return [BC(t) for t in b.t.__mro__]
        return [b]

    def compute_mro(self, cls):
        seqs = [self.mro_of(b) for b in cls.bases] + [list(cls.bases)]
        res = [cls]
        obj = BC(object)
        seqs = [[x for x in s if x != obj] for s in seqs]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x != cand] if s[0] == cand else s for s in seqs]
            seqs = [s[1:] if s and s[0] == cand else s for s in seqs]
        res.append(obj)
        return res

    def subclass(self, c, d):
        if c == d:
            return True
        if d == BC(object):
            return True
        if isinstance(c, ClassV):
            if d in c.mro:
                return True
            if isinstance(d, BC):
                for b in c.mro:
                    if isinstance(b, BC) and issubclass(b.t, d.t):
                        return True
                if c.enum_kind in ("IntEnum", "IntFlag") and d.t is int:
                    return True
            return False
        if isinstance(c, BC) and isinstance(d, BC):
            return issubclass(c.t, d.t)
        return False

    def is_mixin(self, cls):
        if self.cfg.raw_mixin or not isinstance(cls, ClassV):
            return False
        m = self.mixin_class()
        return m is not None and m in cls.mro

    def mixin_class(self):
        mod = self.modules.get(self.package + ".util")
        return mod.attrs.get("AttributesMixin") if mod else None

    def message_class(self):
        mod = self.modules.get(self.package + ".message")
        return mod.attrs.get("Message") if mod else None

    def is_message(self, cls):
        m = self.message_class()
        return isinstance(cls, ClassV) and m is not None and m in cls.mro

    def attr_table(self, cls):
        """[(name, type V)] of an attribute-table class."""
        a = self.class_lookup(cls, "attributes")
        out = []
        if a is None:
            return out
        for it in self.concrete_items(a):
            its = self.concrete_items(it)
            out.append((its[0].v, its[1]))
        return out

    def concrete_items(self, v):
        if isinstance(v, T):
            return list(v.items)
        if isinstance(v, R):
            o = self.o(v)
            if o.kind == "list":
                return list(o.items)
        raise AnalysisError("expected a constant sequence, got %r" % (v,))

    # ------------------------------------------------------------------ exceptions
    def mkexc(self, t, *args):
        if isinstance(t, type):
            t = BC(t)
        r = self.alloc("inst", t)
        o = self.w(r)
        o.attrs["args"] = T([a if isinstance(a, V) else K(a) for a in args])
        return R(r.oid, t.t.__name__ if isinstance(t, BC) else getattr(t, "name", "exc"))

    def throw(self, t, *args):
        raise AbsRaise(self.mkexc(t, *args), self.loc())

    def exc_class(self, exc):
        if isinstance(exc, R):
            return self.o(exc).cls
        return exc

    def exc_matches(self, exc, hv):
        if isinstance(hv, T):
            return any(self.exc_matches(exc, x) for x in hv.items)
        c = self.exc_class(exc)
        if isinstance(hv, (BC, ClassV)):
            if isinstance(c, (BC, ClassV)):
                return self.subclass(c, hv)
            if isinstance(c, E):
                return hv in (BC(Exception), BC(BaseException))
            return hv in (BC(Exception), BC(BaseException))
        if isinstance(hv, E):
            return isinstance(c, E) and c == hv
        return False

    # ------------------------------------------------------------------ names
    def norm_ext(self, name):
        if name in EXC_ALIASES:
            return BC(EXC_ALIASES[name])
        v = self.prelude.get(name.replace(".", "__"))
        if v is not None:
            return v
        v = const_ext(name)
        if v is not None:
            return v
        return E(name)

    def load_name(self, name):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            pass
        else:
            f = fr
            while f is not None:
                if name in f.env and (f is fr or not f.isclass):
                    return f.env[name]
                f = f.parent
        if self.modattr and (fr.module.name, name) in self.modattr:
            return self.modattr[(fr.module.name, name)]
        if name in fr.module.attrs:
            return fr.module.attrs[name]
        if name in BUILTIN_TYPES:
            return BC(BUILTIN_TYPES[name])
        if name in BUILTIN_FUNCS:
            return BI(name)
        if name == "NotImplemented":
            return E("NotImplemented")
        if name == "__class__":
            f = fr
            while f is not None:
                if f.func is not None and f.func.cls is not None:
                    return f.func.cls
                f = f.parent
        if name == "Ellipsis":
            return K(...)
        if name == "__debug__":
            return TRUE
        self.throw(NameError, name)

    def store_name(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            self.set_global(fr.module, name, v)
            return
        if name in fr.nonlocal_decl:
            f = fr.parent
            while f is not None:
                if name in f.env and not f.isclass:
                    f.env[name] = v
                    return
                f = f.parent
        # comprehension frames write walrus targets outwards; they are handled at the site
        fr.env[name] = v

    def set_global(self, m, name, v):
        if self.initing:
            m.attrs[name] = v
        else:
            self.modattr[(m.name, name)] = v
            self.share(v)

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            fr = self.frames[-1]
            f = fr
            while f is not None:
                if f.isclass and f.cls is not None:
                    return "_" + f.cls.name.lstrip("_") + name
                if f.func is not None and isinstance(f.func, FuncV) and f.func.cls is not None:
                    return "_" + f.func.cls.name.lstrip("_") + name
                f = f.parent
        return name

    # ------------------------------------------------------------------ attribute access
    def getattr(self, v, name):
        if isinstance(v, R):
            return self.getattr_obj(v, name)
        if isinstance(v, S):
            return self.getattr_sym(v, name)
        if isinstance(v, ModuleV):
            if self.modattr and (v.name, name) in self.modattr:
                return self.modattr[(v.name, name)]
            if name in v.attrs:
                return v.attrs[name]
            sub = self.load_module(v.name + "." + name) if self.initing else self.modules.get(v.name + "." + name)
            if sub is not None:
                return sub
            self.throw(AttributeError, name)
        if isinstance(v, E):
            if v.name in ENUM_BASES:
                pass
            return self.norm_ext(v.name + "." + name)
        if isinstance(v, ClassV):
            return self.getattr_class(v, name)
        if isinstance(v, EN):
            if name == "value" or name == "_value_":
                return K(v.val) if not isinstance(v.val, V) else v.val
            if name == "name" or name == "_name_":
                return K(v.name)
            a = self.class_lookup(v.cls, name)
            if a is not None:
                return self.bind_attr(a, v, v.cls)
            if v.intlike:
                return BI("int." + name, K(v.val))
            if name == "__class__":
                return v.cls
            self.throw(AttributeError, name)
        if isinstance(v, K):
            if v.v is None:
                if name == "__class__":
                    return BC(type(None))
                if name in ("__eq__", "__bool__", "__repr__", "__str__", "__hash__", "__ne__"):
                    return BI("object." + name, v)
                self.throw(AttributeError, "None." + name)
            t = type(v.v)
            if name == "__class__":
                return BC(t)
            if hasattr(t, name):
                return BI("%s.%s" % (t.__name__, name), v)
            self.throw(AttributeError, name)
        if isinstance(v, TN):
            if name in v.names:
                return v.items[v.names.index(name)]
            a = self.class_lookup(v.cls, name)
            if a is not None:
                return self.bind_attr(a, v, v.cls)
            if name == "__class__":
                return v.cls
            if name == "_fields":
                return T([K(n) for n in v.names])
            if name in ("_replace", "_asdict"):
                return BI("tuple." + name, v)
        if isinstance(v, T):
            if not hasattr(tuple, name) and self.sched is not None:
                self.throw(AttributeError, name)
            return BI("tuple." + name, v)
        if isinstance(v, BS):
            return BI("bytes." + name, v)
        if isinstance(v, BV):
            return BI("int." + name, v)
        if isinstance(v, BC):
            if name == "__name__":
                return K(v.t.__name__)
            if name == "__mro__":
                return T([BC(x) for x in v.t.__mro__])
            if name == "__getstate__" and v.t.__getstate__ is object.__getstate__:
                return BI("object.__getstate__", None)
            if hasattr(v.t, name):
                return BI("%s.%s" % (v.t.__name__, name), None)
            self.throw(AttributeError, name)
        if isinstance(v, BM):
            if name == "__self__":
                return v.self
            if name == "__func__":
                return v.func
            return self.getattr(v.func, name)
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name == "__name__":
                return K(v.name)
            if name == "__qualname__":
                return K(v.qualname)
            if name == "__get__":
                return BI("function.__get__", v)
            if name in ("__doc__", "__module__", "__wrapped__", "__dict__"):
                return NONE
            self.throw(AttributeError, name)
        if isinstance(v, BI):
            if name == "__self__":
                return v.self if v.self is not None else NONE
            if name == "__name__":
                return K(v.name.rsplit(".", 1)[-1])
            return E("builtin." + v.name + "." + name)
        if isinstance(v, PropV):
            if name in ("setter", "getter", "deleter"):
                return BI("property." + name, v)
            self.throw(AttributeError, name)
        if isinstance(v, StaticV):
            return self.getattr(v.func, name)
        raise AnalysisError("getattr on %r.%s" % (v, name))

    def bind_attr(self, a, inst, cls):
        if isinstance(a, FuncV):
            return BM(a, inst)
        if isinstance(a, PropV):
            return self.call(a.fget, [inst], {})
        if isinstance(a, StaticV):
            return a.func
        if isinstance(a, ClassMV):
            return BM(a.func, cls)
        if isinstance(a, R):
            o = self.o(a)
            if isinstance(o.cls, ClassV) and self.class_lookup(o.cls, "__get__") is not None:
                return self.call(self.getattr(a, "__get__"), [inst, cls], {})
        return a

    def getattr_class(self, cls, name):
        if cls.enum_kind and name in cls.members:
            return cls.members[name]
        if name == "__name__":
            return K(cls.name)
        if name == "__qualname__":
            return K(cls.name)
        if name == "__dict__":
            return self.mkdict([(K(n), v) for n, v in cls.attrs.items() if isinstance(v, V)])
        if name == "__mro__":
            return T(cls.mro)
        if name == "__bases__":
            return T(cls.bases)
        if name == "__members__" and cls.enum_kind:
            r = self.alloc("dict")
            o = self.w(r)
            for n, m in cls.members.items():
                o.items[("k", n)] = (K(n), m)
            return r
        if name == "__class__":
            return BC(type)
        if name == "__module__":
            return K(cls.module.name if cls.module else "?")
        a = self.class_lookup(cls, name)
        if a is not None:
            if isinstance(a, StaticV):
                return a.func
            if isinstance(a, ClassMV):
                return BM(a.func, cls)
            if isinstance(a, R):
                o = self.o(a)
                if isinstance(o.cls, ClassV) and self.class_lookup(o.cls, "__get__") is not None:
                    return self.call(self.getattr(a, "__get__"), [NONE, cls], {})
            return a
        if name == "__getstate__":
            # inherited from object, also by the builtin types
            return BI("object.__getstate__", None)
        for b in cls.mro:
            if isinstance(b, BC) and b.t is not object and hasattr(b.t, name):
                return BI("%s.%s" % (b.t.__name__, name), cls)
        if hasattr(object, name):
            return BI("object." + name, cls)
        for b in cls.mro:
            if isinstance(b, E) and not stdlib_lacks(b.name, name):
                return S(("attr", ("class", cls.qualname), name))
        if name == "__doc__":
            return NONE
        self.throw(AttributeError, "%s.%s" % (cls.name, name))

    def builtin_base(self, o):
        """Name of the builtin container/scalar type an object extends, if any."""
        if o.kind in CONTAINER:
            if o.extra == "bytearray":
                return "bytearray"
            return o.kind
        if isinstance(o.cls, ClassV):
            for b in o.cls.mro:
                if isinstance(b, BC) and b.t in (int, str, bytes, float, dict, list, set, bytearray, tuple):
                    return b.t.__name__
        return None

    def getattr_obj(self, r, name):
        o = self.o(r)
        cls = o.cls
        if name == "__class__":
            return cls if cls is not None else BC({"dict": dict, "list": list, "set": set}.get(o.kind, object))
        a = self.class_lookup(cls, name) if isinstance(cls, ClassV) else None
        if isinstance(a, PropV):
            if a.cached and name in o.attrs:
                return o.attrs[name]
            val = self.call(a.fget, [r], {})
            if a.cached:
                self.rawset(r, name, val)
            return val
        if isinstance(a, R) and isinstance(self.o(a).cls, ClassV) and isinstance(self.class_lookup(self.o(a).cls, "__set__"), FuncV):
            return self.bind_attr(a, r, cls)
        if name in o.attrs:
            return self.read_attr(r, name)
        if name == "__dict__":
            d = self.alloc("dict")
            do = self.w(d)
            for n, v in o.attrs.items():
                do.items[("k", n)] = (K(n), v)
            return d
        if o.fields is not None and name in o.fields and not self.cfg.raw_mixin:
            return o.fields[name]
        if a is not None:
            return self.bind_attr(a, r, cls)
        if o.kind == "aio" and name == "__await__":
            return BI("coro.__await__", r)
        if o.kind == "aio":
            return o.extra.attr(name)
        if o.kind in ("coro", "gen", "ctxmgr", "waitfor", "gather", "iter"):
            return BI("%s.%s" % (o.kind, name), r)
        bb = self.builtin_base(o)
        if bb is not None:
            t = {"dict": dict, "list": list, "set": set, "int": int, "str": str, "bytes": bytes, "float": float,
                 "bytearray": bytearray, "tuple": tuple}[bb]
            if hasattr(t, name):
                return BI("%s.%s" % (bb, name), r)
        if isinstance(cls, ClassV) and self.is_mixin(cls):
            v = self.mixin_field(r, name)
            if v is not None:
                return v
        elif isinstance(cls, ClassV):
            ga = self.class_lookup(cls, "__getattr__")
            if isinstance(ga, FuncV):
                return self.call_func(ga, [r, K(name)], {})
        if isinstance(cls, BC) and issubclass(cls.t, BaseException):
            if name == "args":
                return T(())
            if name in ("__cause__", "__context__", "__traceback__"):
                return NONE
            if name in ("with_traceback", "add_note"):
                return BI("BaseException." + name, r)
            if name == "value" and cls.t is StopIteration:
                return NONE
            if name in ("__str__", "__repr__", "__init__", "__dict__", "__eq__"):
                return BI("BaseException." + name, r)
            if self.sched is not None and not hasattr(cls.t, name):
                self.throw(AttributeError, name)
            return S(("attr", o.prov, name))
        if isinstance(cls, ClassV) and self.is_exc(r) and name in ("with_traceback", "add_note", "__cause__", "__context__", "__traceback__", "args"):
            return BI("BaseException." + name, r) if name in ("with_traceback", "add_note") else T(()) if name == "args" else NONE
        if isinstance(o.payload, S) and isinstance(o.payload.term, tuple) and o.payload.term[0] == "ipv6":
            return self.getattr(o.payload, name)
        if o.lazy:
            v = S(("attr", o.prov, name))
            if self.is_volatile(cls, name):
                v = S(("v", o.prov, name, self.epoch))
            w = self.w(r)
            w.attrs[name] = v
            w.aep[name] = self.epoch
            return v
        if hasattr(object, name):
            return BI("object." + name, r)
        if isinstance(cls, ClassV) and any(isinstance(b, E) for b in cls.mro):
            return S(("attr", o.prov, name))
        self.throw(AttributeError, "%s.%s" % (getattr(cls, "name", o.kind), name))

    def read_attr(self, r, name):
        o = self.o(r)
        v = o.attrs[name]
        if o.shared and self.cfg.havoc and o.aep.get(name, 0) < self.epoch and self.is_volatile(o.cls, name):
            w = self.w(r)
            if isinstance(v, R) and self.o(v).kind in CONTAINER:
                src = self.o(v)
                nr = self.alloc(src.kind, src.cls, ("v", o.prov, name))
                no = self.w(nr)
                no.open = ("cont", no.prov, self.epoch)
                no.shared = True
                no.epoch = self.epoch
                no.volatile = True
                no.extra = src.extra
                v = nr
            else:
                v = S(("v", o.prov, name, self.epoch))
            w.attrs[name] = v
            w.aep[name] = self.epoch
        return v

    def mixin_field(self, r, name):
        """Attribute of an attribute-table object (AttributesMixin contract; checked separately)."""
        o = self.o(r)
        table = self.attr_table(o.cls)
        typ = None
        for n, t in table:
            if n == name:
                typ = t
                break
        if typ is None:
            # AttributesMixin.__getattr__ answers None for any unknown name
            if name.startswith("__") and name.endswith("__"):
                return None
            if o.lazy and any(isinstance(b, E) for b in o.cls.mro):
                return S(("attr", o.prov, name))
            return NONE
        if self.cfg.field_value is not None:
            v = self.cfg.field_value(self, r, name)
            if v is not None:
                w = self.w(r)
                w.fields = dict(w.fields or {})
                w.fields[name] = v
                return v
        if o.lazy:
            v = self.arbitrary(typ, ("field", o.prov, name))
        elif self.is_message(o.cls):
            d = self.getattr(typ, "default") if self.hasattr_(typ, "default") else NONE
            return d
        else:
            v = self.call(typ, [], {})
        w = self.w(r)
        w.fields = dict(w.fields or {})
        w.fields[name] = v
        if w.shared:
            self.share(v)
        return v

    def arbitrary(self, typ, prov):
        """An arbitrary value of a declared attribute type."""
        if isinstance(typ, ClassV):
            if self.is_message(typ):
                return S(prov)
            for b in typ.mro:
                if isinstance(b, BC) and b.t in (dict, list, set):
                    r = self.alloc(b.t.__name__, typ, prov)
                    o = self.w(r)
                    o.open = ("cont", prov, self.epoch)
                    o.shared = True
                    o.epoch = self.epoch
                    o.lazy = True
                    return r
            if self.mixin_class() in typ.mro:
                r = self.alloc("inst", typ, prov)
                o = self.w(r)
                o.lazy = True
                o.shared = True
                o.fields = {}
                return r
            for b in typ.mro:
                if isinstance(b, BC) and b.t in (int, str, bytes, float):
                    return S(prov, b.t.__name__)
            return S(prov)
        if isinstance(typ, BC) and typ.t in (int, str, bytes, float):
            return S(prov, typ.t.__name__)
        return S(prov)

    def getattr_sym(self, v, name):
        if (v, name) in self.sattr:
            return self.sattr[(v, name)]
        if self.facts.get(("none", v)):
            self.throw(AttributeError, "None." + name)
        if isinstance(v.term, tuple) and v.term and v.term[0] == "ipv6" and name == "packed":
            x = v.term[1]
            if isinstance(x, (K, BS)):
                return x
        if isinstance(v.term, tuple) and v.term and v.term[0] == "ipv6" and isinstance(v.term[1], K) and name in ("compressed", "exploded", "version", "is_multicast", "is_link_local", "ipv4_mapped", "is_unspecified"):
            import ipaddress
            x = getattr(ipaddress.IPv6Address(v.term[1].v), name)
            if x is None or isinstance(x, (str, int, bool)):
                return K(x)
        for q, val in self.facts.items():
            if val and q[0] == "isinst" and q[1] == v and isinstance(q[2], ClassV):
                a = self.class_lookup(q[2], name)
                if isinstance(a, PropV) and not self.is_message(q[2]):
                    return self.call(a.fget, [v], {})
                if isinstance(a, (FuncV, StaticV, ClassMV)):
                    return self.bind_attr(a, v, q[2])
        if v.ty in ("int", "str", "bytes", "float", "bool"):
            t = getattr(builtins, v.ty)
            if hasattr(t, name):
                return BI("%s.%s" % (v.ty, name), v)
        if isinstance(v.term, tuple) and v.term and v.term[0] == "phiself":
            pass
        return S(("attr", v, name))

    def hasattr_(self, v, name):
        n = len(self.events)
        try:
            if isinstance(v, S):
                if v.ty in ("int", "str", "bytes", "float", "bool"):
                    return hasattr(getattr(builtins, v.ty), name)
                return self.decide(("hasattr", v, name))
            if isinstance(v, R):
                o = self.o(v)
                if isinstance(o.cls, ClassV) and self.is_mixin(o.cls) and not (name.startswith("__")):
                    return True
                if o.lazy and isinstance(o.cls, ClassV) and self.class_lookup(o.cls, name) is None and name not in o.attrs:
                    return self.decide(("hasattr", o.prov, name))
            self.getattr(v, name)
            return True
        except AbsRaise as e:
            if self.exc_matches(e.exc, BC(AttributeError)):
                del self.events[n:]
                return False
            raise

    def setattr(self, v, name, val):
        if isinstance(v, R):
            o = self.o(v)
            if isinstance(o.cls, ClassV):
                a = self.class_lookup(o.cls, name)
                if isinstance(a, PropV) and not a.cached:
                    if a.fset is None:
                        self.throw(AttributeError, name)
                    self.call(a.fset, [v, val], {})
                    return
                if isinstance(a, R) and isinstance(self.o(a).cls, ClassV) and isinstance(self.class_lookup(self.o(a).cls, "__set__"), FuncV):
                    self.call(self.getattr(a, "__set__"), [v, val], {})
                    return
                if self.is_mixin(o.cls):
                    for n, _t in self.attr_table(o.cls):
                        if n == name:
                            old = (o.fields or {}).get(name)
                            w = self.w(v)
                            w.fields = dict(w.fields or {})
                            w.fields[name] = val
                            if w.shared:
                                self.share(val)
                            self.ev("setfield", name, v, (val,), extra=old)
                            return
                else:
                    sa = self.class_lookup(o.cls, "__setattr__")
                    if isinstance(sa, FuncV) and not self.in_call(sa, v):
                        self.call_func(sa, [v, K(name), val], {})
                        return
            self.rawset(v, name, val)
            return
        if isinstance(v, S):
            self.sattr[(v, name)] = val
            self.share(val)
            self.ev("setattr", name, v, (val,))
            return
        if isinstance(v, ClassV):
            if self.initing:
                v.attrs[name] = val
            else:
                self.classattr[(v, name)] = val
                self.share(val)
            self.ev("setattr", name, v, (val,))
            return
        if isinstance(v, FuncV):
            v.attrs[name] = val
            return
        if isinstance(v, ModuleV):
            self.set_global(v, name, val)
            self.ev("setattr", name, v, (val,))
            return
        if isinstance(v, K) and v.v is None:
            self.throw(AttributeError, "None." + name)
        self.ev("setattr", name, v, (val,))

    def in_call(self, func, selfv):
        return any(f is func and s == selfv for f, s in self.call_stack[-3:])

    def rawset(self, r, name, val):
        w = self.w(r)
        old = w.attrs.get(name)
        w.attrs[name] = val
        w.aep[name] = self.epoch
        if w.shared:
            self.share(val)
        self.ev("setattr", name, r, (val,), extra=old)

    def delattr(self, v, name):
        if isinstance(v, R):
            o = self.o(v)
            a = self.class_lookup(o.cls, name) if isinstance(o.cls, ClassV) else None
            if isinstance(a, PropV) and a.fdel not in (None, NONE):
                self.call(a.fdel, [v], {})
                return
            if isinstance(a, R) and isinstance(self.o(a).cls, ClassV) and isinstance(self.class_lookup(self.o(a).cls, "__delete__"), FuncV):
                self.call(self.getattr(a, "__delete__"), [v], {})
                return
            da = self.class_lookup(o.cls, "__delattr__") if isinstance(o.cls, ClassV) else None
            if isinstance(da, FuncV) and not self.in_call(da, v):
                self.call_func(da, [v, K(name)], {})
                return
            w = self.w(v)
            if name not in w.attrs and self.sched is not None and not o.lazy and not (o.fields and name in o.fields):
                self.throw(AttributeError, name)
            w.attrs.pop(name, None)
        self.ev("delattr", name, v)

    # ------------------------------------------------------------------ volatility (who writes what, program-wide)
    def volatility(self):
        if self.volatile_cache is not None:
            return self.volatile_cache
        percls = {}
        anycls = set()
        contmut = set()
        MUT = {"append", "pop", "extend", "add", "remove", "clear", "update", "setdefault", "insert", "discard", "popitem", "sort", "reverse"}
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, ast.ClassDef):
                    for fn in node.body:
                        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self._vol_func(fn, node.name, m.name, percls, anycls, contmut, MUT)
            # functions outside classes
            classfns = set()
            for node in ast.walk(m.tree):
                if isinstance(node, ast.ClassDef):
                    for fn in node.body:
                        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            for sub in ast.walk(fn):
                                classfns.add(id(sub))
            for node in ast.walk(m.tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(node) not in classfns:
                    self._vol_func(node, None, m.name, percls, anycls, contmut, MUT)
        self.volatile_cache = (percls, anycls, contmut)
        return self.volatile_cache

    @staticmethod
    def _vol_func(fn, clsname, modname, percls, anycls, contmut, MUT):
        selfname = fn.args.args[0].arg if fn.args.args else None
        isinit = fn.name == "__init__"
        alias = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Attribute):
                    alias[n.targets[0].id] = v.attr
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id == selfname and clsname:
                    if not isinit:
                        percls.setdefault((modname, clsname), set()).add(n.attr)
                else:
                    anycls.add(n.attr)
            tgt = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                tgt = n.func.value
            if tgt is not None and not isinit:
                while isinstance(tgt, ast.Subscript):
                    tgt = tgt.value
                if isinstance(tgt, ast.Attribute):
                    contmut.add(tgt.attr)
                elif isinstance(tgt, ast.Name) and tgt.id in alias:
                    contmut.add(alias[tgt.id])

    def is_volatile(self, cls, name):
        percls, anycls, _ = self.volatility()
        if name in anycls:
            return True
        if isinstance(cls, ClassV):
            for c in self.related(cls):
                if isinstance(c, ClassV) and c.module is not None:
                    if name in percls.get((c.module.name, c.name), ()):
                        return True
            return False
        return True

    def related(self, cls):
        """MRO of cls plus every program subclass (their methods write the same attributes)."""
        out = list(cls.mro)
        return out

    def container_volatile(self, attr):
        _p, _a, contmut = self.volatility()
        return attr in contmut

    def item_kinds(self):
        """attr name -> kind of the values stored in the dict held in that attribute ('list', 'dict', 'set')."""
        if self.item_kind_cache is not None:
            return self.item_kind_cache
        out = {}

        def kind(n):
            if isinstance(n, (ast.List, ast.ListComp)):
                return "list"
            if isinstance(n, (ast.Dict, ast.DictComp)):
                return "dict"
            if isinstance(n, (ast.Set, ast.SetComp)):
                return "set"
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set"):
                return n.func.id
            return None

        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and len(n.args) == 2:
                    if isinstance(n.func.value, ast.Attribute) and kind(n.args[1]):
                        out[n.func.value.attr] = kind(n.args[1])
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
                    t = n.targets[0].value
                    if isinstance(t, ast.Attribute) and kind(n.value):
                        out[t.attr] = kind(n.value)
        self.item_kind_cache = out
        return out

    # ------------------------------------------------------------------ statements
    def exec_body(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise AnalysisLimit("step budget at %s" % self.loc())
        fr = self.frames[-1]
        fr.line = getattr(st, "lineno", fr.line)
        t = type(st)
        m = self.disp_x.get(t)
        if m is None:
            m = self.disp_x[t] = getattr(self, "x_" + t.__name__, self.x_unsupported)
        m(st)

    def x_unsupported(self, st):
        raise AnalysisError("unsupported statement %s at %s" % (type(st).__name__, self.loc()))

    def x_Expr(self, st):
        self.eval(st.value)

    def x_Pass(self, st):
        pass

    def x_Break(self, st):
        raise BreakEx()

    def x_Continue(self, st):
        raise ContinueEx()

    def x_Return(self, st):
        raise ReturnEx(self.eval(st.value) if st.value is not None else NONE)

    def x_Global(self, st):
        self.frames[-1].globals_decl.update(st.names)

    def x_Nonlocal(self, st):
        self.frames[-1].nonlocal_decl.update(st.names)

    def x_Assert(self, st):
        if st.msg is not None and self.sched is not None:
            if not self.truth(self.eval(st.test)):
                self.throw(AssertionError, self.eval(st.msg))
            return
        if not self.truth(self.eval(st.test)):
            self.throw(AssertionError)

    def x_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        fr = self.frames[-1]
        if fr.isclass and isinstance(st.target, ast.Name):
            fr.cls.ann.append((st.target.id, st.annotation))
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def x_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            self.store_name(t.id, self.inplace(st.op, cur, self.eval(st.value)))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            name = self.mangle(t.attr)
            cur = self.getattr(obj, name)
            val = self.eval(st.value)
            self.setattr(obj, name, self.inplace(st.op, cur, val))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            k = self.eval_index(t.slice)
            cur = self.getitem(obj, k)
            val = self.eval(st.value)
            self.setitem(obj, k, self.inplace(st.op, cur, val))
        else:
            self.x_unsupported(st)

    def inplace(self, op, cur, val):
        if isinstance(cur, R) and self.o(cur).kind == "list" and isinstance(op, ast.Add):
            self.call(self.getattr(cur, "extend"), [val], {})
            return cur
        if isinstance(cur, R) and self.o(cur).kind in ("dict", "set") and isinstance(op, ast.BitOr):
            self.call(self.getattr(cur, "update"), [val], {})
            return cur
        return self.binop(op, cur, val)

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value), self.mangle(t.attr))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval_index(t.slice))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.x_Delete(ast.Delete(targets=[e]))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError("assign to %s" % type(t).__name__)

    def unpack(self, elts, v):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.known_seq(v)
        if vals is not None and not star:
            if len(vals) != n:
                self.throw(ValueError, "unpack")
            for e, x in zip(elts, vals):
                self.assign(e, x)
            return
        if vals is not None and star:
            i = star[0]
            after = n - i - 1
            if len(vals) < n - 1:
                self.throw(ValueError, "unpack")
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x)
            self.assign(elts[i].value, self.mklist(vals[i : len(vals) - after]))
            for e, x in zip(elts[i + 1 :], vals[len(vals) - after :]):
                self.assign(e, x)
            return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, S(("rest", v, i)))
            else:
                self.assign(e, S(("item", v, K(i))))

    def known_seq(self, v):
        """Elements of v if it is a sequence of statically known length."""
        if isinstance(v, T):
            return list(v.items)
        if isinstance(v, BS):
            return list(v.items)
        if isinstance(v, K) and isinstance(v.v, (str, bytes)):
            return [K(x) for x in v.v]
        if isinstance(v, R):
            o = self.sync(v)
            if o.kind == "list" and o.open is None and not o.rep:
                return list(o.items)
            if o.kind == "gen" and self.sched is not None or o.kind == "iter":
                return list(self.iter_elems(v)[0])
            if o.kind in ("dict", "set") and o.open is None and not o.rep:
                if isinstance(o.cls, ClassV) and self.class_lookup(o.cls, "__iter__"):
                    return None
                return [a for a, _b in o.items.values()]
            if o.payload is not None:
                return self.known_seq(o.payload)
        if isinstance(v, ClassV) and v.enum_kind:
            return list(v.members.values())
        return None

    def mkset(self, items):
        return self.call(BC(set), [self.mklist(list(items))], {})

    def mkdict(self, pairs):
        d = self.call(BC(dict), [], {})
        for k, v in pairs:
            self.setitem(d, k, v)
        return d

    def mklist(self, items, rep=False, open_=None):
        r = self.alloc("list")
        o = self.w(r)
        o.items = list(items)
        o.rep = rep
        o.open = open_
        return r

    def x_If(self, st):
        if self.truth(self.eval(st.test)):
            self.exec_body(st.body)
        else:
            self.exec_body(st.orelse)

    def x_Raise(self, st):
        if st.exc is None:
            if self.active_exc:
                raise AbsRaise(self.active_exc[-1], self.loc())
            self.throw(RuntimeError, "no active exception")
        v = self.eval(st.exc)
        if isinstance(v, (BC, ClassV)):
            v = self.call(v, [], {})
        if isinstance(v, E):
            v = self.call(v, [], {})
        cause = self.eval(st.cause) if st.cause is not None else None
        if isinstance(v, R) and self.o(v).kind == "inst":
            w = self.w(v)
            if cause is not None:
                w.attrs["__cause__"] = cause
            if self.active_exc and self.active_exc[-1] != v:
                w.attrs.setdefault("__context__", self.active_exc[-1])
        raise AbsRaise(v, self.loc())

    def x_Try(self, st):
        depth = len(self.frames)
        rep = self.loop_rep
        try:
            try:
                self.exec_body(st.body)
            except AbsRaise as e:
                del self.frames[depth:]
                self.loop_rep = rep
                handled = False
                for h in st.handlers:
                    self.frames[-1].line = h.lineno
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type)):
                        handled = True
                        if h.name:
                            self.store_name(h.name, e.exc)
                        self.active_exc.append(e.exc)
                        try:
                            self.ev("caught", "caught", None, (e.exc,))
                            self.exec_body(h.body)
                        finally:
                            self.active_exc.pop()
                        break
                if not handled:
                    raise
            else:
                self.exec_body(st.orelse)
        except (AbsRaise, BreakEx, ContinueEx, ReturnEx) as pend:
            del self.frames[depth:]
            self.loop_rep = rep
            if isinstance(pend, AbsRaise):
                self.active_exc.append(pend.exc)
                try:
                    self.exec_body(st.finalbody)
                finally:
                    self.active_exc.pop()
            else:
                self.exec_body(st.finalbody)
            raise
        else:
            self.exec_body(st.finalbody)

    x_TryStar = x_Try

    def x_With(self, st, is_async=False):
        self.do_with(st.items, st.body, is_async)

    def x_AsyncWith(self, st):
        self.do_with(st.items, st.body, True)

    def do_with(self, items, body, is_async):
        if not items:
            self.exec_body(body)
            return
        it = items[0]
        cm = self.eval(it.context_expr)

        def inner(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val)
            self.do_with(items[1:], body, is_async)

        self.run_with(cm, inner, is_async)

    def run_with(self, cm, inner, is_async=False):
        depth = len(self.frames)
        if isinstance(cm, R) and self.o(cm).kind == "ctxmgr":
            func, args, kw = self.o(cm).extra
            pend = []
            rep = self.loop_rep
            ran = []

            def hook(v):
                if ran:
                    self.throw(RuntimeError, "generator didn't stop")
                ran.append(1)
                saved = self.frames[depth:]
                del self.frames[depth:]
                try:
                    inner(v)
                except (BreakEx, ContinueEx, ReturnEx) as e:
                    pend.append(e)
                finally:
                    del self.frames[depth:]
                    self.frames.extend(saved)
                    self.loop_rep = rep
                return NONE

            self.run_gen(func, args, kw, hook)
            if not ran:
                self.throw(RuntimeError, "generator didn't yield")
            if pend:
                raise pend[0]
            return
        if isinstance(cm, R) and self.o(cm).kind == "suppress":
            excs = self.o(cm).extra
            try:
                inner(NONE)
            except AbsRaise as e:
                del self.frames[depth:]
                if not any(self.exc_matches(e.exc, x) for x in excs):
                    raise
                self.ev("caught", "caught", None, (e.exc,))
            return
        if isinstance(cm, R) and isinstance(self.o(cm).cls, ClassV):
            en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
            v = self.call(self.getattr(cm, en), [], {})
            if is_async:
                v = self.await_value(v)
            try:
                inner(v)
            except AbsRaise as e:
                del self.frames[depth:]
                res = self.call(self.getattr(cm, ex), [self.exc_class(e.exc), e.exc, NONE], {})
                if is_async:
                    res = self.await_value(res)
                if not self.truth(res):
                    raise
                self.ev("caught", "caught", None, (e.exc,))
            except (BreakEx, ContinueEx, ReturnEx):
                del self.frames[depth:]
                res = self.call(self.getattr(cm, ex), [NONE, NONE, NONE], {})
                if is_async:
                    self.await_value(res)
                raise
            else:
                res = self.call(self.getattr(cm, ex), [NONE, NONE, NONE], {})
                if is_async:
                    self.await_value(res)
            return
        if isinstance(cm, R) and self.o(cm).kind == "aio" and not is_async:
            v = self.call(self.getattr(cm, "__enter__"), [], {})
            try:
                inner(v)
            except (AbsRaise, BreakEx, ContinueEx, ReturnEx):
                del self.frames[depth:]
                self.call(self.getattr(cm, "__exit__"), [NONE, NONE, NONE], {})
                raise
            self.call(self.getattr(cm, "__exit__"), [NONE, NONE, NONE], {})
            return
        if isinstance(cm, R) and self.o(cm).kind == "aio":
            v = self.await_value(self.call(self.getattr(cm, "__aenter__"), [], {}))
            try:
                inner(v)
            except (AbsRaise, BreakEx, ContinueEx, ReturnEx) as e:
                del self.frames[depth:]
                exc = e.exc if isinstance(e, AbsRaise) and isinstance(e.exc, V) else NONE
                self.await_value(self.call(self.getattr(cm, "__aexit__"), [NONE, exc, NONE], {}))
                raise
            self.await_value(self.call(self.getattr(cm, "__aexit__"), [NONE, NONE, NONE], {}))
            return
        # opaque context manager
        self.ev("cm_enter", "cm_enter", cm)
        if is_async:
            self.suspend(cm)
        res = S(("enter", cm)) if isinstance(cm, (S, E)) else cm
        try:
            inner(res)
        except (AbsRaise, BreakEx, ContinueEx, ReturnEx):
            del self.frames[depth:]
            self.ev("cm_exit", "cm_exit", cm)
            raise
        self.ev("cm_exit", "cm_exit", cm)

    # ---- loops
    def x_For(self, st, is_async=False):
        it = self.eval(st.iter)
        if is_async:
            it = self.aiter(it)

        def body(x):
            self.assign(st.target, x)
            self.exec_body(st.body)

        if is_async and self.has_anext(it):
            if not self.async_steps(it, body):
                self.exec_body(st.orelse)
            return

        names = self.loop_carried(st.body, st.target)
        broke = self.iterate(it, body, names, st, is_async)
        if not broke:
            self.exec_body(st.orelse)

    def aiter(self, it):
        """What an `async for` really iterates."""
        if self.sched is not None and isinstance(it, R) and isinstance(self.o(it).cls, ClassV):
            m = self.class_lookup(self.o(it).cls, "__aiter__")
            if isinstance(m, FuncV):
                it = self.call(self.getattr(it, "__aiter__"), [], {})
        return it

    def has_anext(self, it):
        return self.sched is not None and isinstance(it, R) and isinstance(self.o(it).cls, ClassV) and isinstance(self.class_lookup(self.o(it).cls, "__anext__"), FuncV)

    def async_steps(self, it, body):
        """Iterate an asynchronous iterator object; True if the body broke out."""
        for n in range(max(5000, self.cfg.unroll_while)):
            depth = len(self.frames)
            try:
                x = self.await_value(self.call(self.getattr(it, "__anext__"), [], {}))
            except AbsRaise as e:
                del self.frames[depth:]
                if self.exc_matches(e.exc, BC(StopAsyncIteration)):
                    return False
                raise
            try:
                body(x)
            except ContinueEx:
                pass
            except BreakEx:
                return True
        self.throw(EndlessLoop, "at %s" % self.loc())

    def x_AsyncFor(self, st):
        self.x_For(st, True)

    def loop_carried(self, body, target=None):
        """Names read in the body before being written there (upward exposed) and also written there."""
        key = (id(body[0]) if body else 0, len(body), id(target))
        hit = self.carried.get(key)
        if hit is None:
            hit = self.carried[key] = (self.loop_carried_(body, target), list(body), target)
        return set(hit[0]) if isinstance(hit[0], set) else hit[0]

    def loop_carried_(self, body, target=None):
        written = set()
        exposed = set()

        def targets(t, w):
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    w.add(n.id)

        def expr(e, w):
            if e is None:
                return
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in w:
                    exposed.add(n.id)
                elif isinstance(n, ast.NamedExpr):
                    w.add(n.target.id)
                    written.add(n.target.id)

        def block(sts, w):
            for s in sts:
                if isinstance(s, ast.Assign):
                    expr(s.value, w)
                    for t in s.targets:
                        expr(t, w)
                        targets(t, w)
                        targets(t, written)
                elif isinstance(s, ast.AnnAssign):
                    expr(s.value, w)
                    targets(s.target, w)
                    targets(s.target, written)
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Name):
                        if s.target.id not in w:
                            exposed.add(s.target.id)
                        written.add(s.target.id)
                        w.add(s.target.id)
                    expr(s.target, w)
                    expr(s.value, w)
                elif isinstance(s, ast.If):
                    expr(s.test, w)
                    w1, w2 = set(w), set(w)
                    block(s.body, w1)
                    block(s.orelse, w2)
                    w |= w1 & w2
                elif isinstance(s, (ast.For, ast.AsyncFor)):
                    expr(s.iter, w)
                    w1 = set(w)
                    targets(s.target, w1)
                    targets(s.target, written)
                    block(s.body, w1)
                    block(s.orelse, set(w))
                elif isinstance(s, ast.While):
                    expr(s.test, w)
                    block(s.body, set(w))
                    block(s.orelse, set(w))
                elif isinstance(s, (ast.Try,)):
                    w1 = set(w)
                    block(s.body, w1)
                    for h in s.handlers:
                        block(h.body, set(w))
                    block(s.orelse, w1)
                    block(s.finalbody, set(w))
                    w |= w1 if not s.handlers else set()
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for i in s.items:
                        expr(i.context_expr, w)
                        if i.optional_vars is not None:
                            targets(i.optional_vars, w)
                            targets(i.optional_vars, written)
                    block(s.body, w)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    w.add(s.name)
                elif isinstance(s, ast.Match):
                    expr(s.subject, w)
                    for c in s.cases:
                        w1 = set(w)
                        block(c.body, w1)
                else:
                    for f in ast.iter_child_nodes(s):
                        if isinstance(f, ast.expr):
                            expr(f, w)

        w0 = set()
        if target is not None:
            targets(target, w0)
        block(body, w0)
        return sorted(exposed & written)

    def loop_consts(self, body, name):
        """Constants assigned to name inside body, or None if it is assigned anything else."""
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
                                if t is x and isinstance(n.value, ast.Constant):
                                    out.append(K(n.value.value))
                                else:
                                    return None
                elif isinstance(n, (ast.AugAssign, ast.For, ast.AsyncFor, ast.NamedExpr, ast.AnnAssign, ast.withitem)):
                    t = n.target if not isinstance(n, ast.withitem) else n.optional_vars
                    if t is None:
                        continue
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and x.id == name:
                            return None
        return out

    def widen(self, names, body, lid):
        """Representative later iteration: loop-carried variables take any value they can have there."""
        fr = self.frames[-1]
        pre = {}
        for n in names:
            if n not in fr.env:
                continue
            v = fr.env[n]
            if isinstance(v, R) and self.o(v).kind in CONTAINER:
                continue
            consts = self.loop_consts(body, n)
            if consts is not None and isinstance(v, (K, EN)):
                opts = [v] + [c for c in consts if c != v]
                fr.env[n] = opts[self.choose(len(opts), "loop-carried %s" % n)]
            else:
                ty = None
                if isinstance(v, K) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
                    ty = "int"
                elif isinstance(v, K) and isinstance(v.v, (str, bytes)):
                    ty = type(v.v).__name__
                elif isinstance(v, S):
                    ty = v.ty
                fr.env[n] = S(("phi", n, lid), ty)
            pre[n] = fr.env[n]
        return pre

    def live_elems(self, it, elems, live):
        """The elements of a loop whose body may change what it loops over."""
        if isinstance(it, R) and self.o(it).kind == "iter":
            while True:
                x = self.next_elem(it)
                if x is None:
                    return
                yield x
        elif live is None or self.o(live).rep or self.o(live).kind not in CONTAINER:
            yield from elems
        elif self.o(live).kind == "list" and isinstance(it, R) and self.o(it).kind == "list":
            if it.oid != live.oid or isinstance(self.o(it).cls, ClassV):
                yield from elems
                return
            i = 0
            while True:
                o = self.sync(live)
                if o.open is not None and i >= len(elems) or i >= len(o.items):
                    return
                if i > self.cfg.max_unroll:
                    if self.sched is not None:
                        self.throw(EndlessLoop, "at %s" % self.loc())
                    raise AnalysisLimit("loop over a growing list at %s" % self.loc())
                yield o.items[i]
                i += 1
        else:
            n = len(self.sync(live).items)
            for x in elems:
                yield x
                o = self.sync(live)
                if o.open is None and len(o.items) != n:
                    self.throw(RuntimeError, "%s changed size during iteration" % o.kind)

    def mkgen(self, run):
        """A generator object whose elements run(hook) passes to hook."""
        r = self.alloc("gen")
        self.w(r).extra = (run, None, None)
        return r

    def gen_next(self, r, msg=("send", NONE)):
        """Resume a generator: (True, yielded value) or (False, its return value)."""
        x = self.o(r).extra
        if x[0] is not None:
            self.w(r).extra = (None, None, None)
            if msg[0] == "throw":
                raise AbsRaise(msg[1])
            if msg[0] == "close":
                return False, NONE
            func, args, kw = x
            fib = aio.Fiber(self, None)

            def hook(v):
                m = fib.pause(v)
                if m[0] == "throw":
                    raise AbsRaise(m[1])
                if m[0] == "close":
                    self.throw(GeneratorExit)
                return m[1]

            frame = self.frames[-1:]
            fib.fn = lambda: func(hook) if args is None else self.run_gen(func, args, kw, hook)
            fib.ctx = (list(frame), [], [], 0)
        else:
            fib = x[1]
        if fib is None:
            if msg[0] == "throw":
                raise AbsRaise(msg[1])
            return False, NONE
        if fib.running:
            self.throw(ValueError, "generator already executing")
        self.w(r).extra = (None, fib, None)
        try:
            kind, v = fib.resume(msg)
        except AbsRaise as e:
            self.w(r).extra = (None, None, None)
            if self.exc_matches(e.exc, BC(StopIteration)):
                self.throw(RuntimeError, "generator raised StopIteration")
            raise
        if kind == "pause":
            return True, v
        self.w(r).extra = (None, None, None)
        return False, v if isinstance(v, V) else NONE

    def gen_close(self, r):
        try:
            more, _v = self.gen_next(r, ("close",))
        except AbsRaise as e:
            if self.exc_matches(e.exc, BC(GeneratorExit)):
                return
            raise
        if more:
            self.throw(RuntimeError, "generator ignored GeneratorExit")

    def drain(self, step):
        out = []
        while True:
            x = step()
            if x is None:
                return out
            out.append(x)
            if len(out) > 5000:
                if self.sched is not None:
                    self.throw(EndlessLoop, "at %s" % self.loc())
                raise AnalysisLimit("endless iterator at %s" % self.loc())

    def stepper(self, it):
        """A function answering the next element of an iterable (None at its end); None: not modelled."""
        if isinstance(it, R):
            o = self.o(it)
            if o.kind == "gen" and self.sched is not None:
                def step():
                    more, v = self.gen_next(it)
                    return v if more else None
                return step
            if o.kind == "iter":
                return lambda: self.next_elem(it)
            if isinstance(o.cls, ClassV):
                nx = self.class_lookup(o.cls, "__next__")
                if isinstance(nx, FuncV):
                    def step():
                        try:
                            return self.call(self.getattr(it, "__next__"), [], {})
                        except AbsRaise as e:
                            if self.exc_matches(e.exc, BC(StopIteration)):
                                return None
                            raise
                    return step
                m = self.class_lookup(o.cls, "__iter__")
                if isinstance(m, FuncV):
                    return self.stepper(self.call(self.getattr(it, "__iter__"), [], {}))
                gi = self.class_lookup(o.cls, "__getitem__")
                if isinstance(gi, FuncV) and o.kind == "inst" and o.payload is None and self.sched is not None:
                    pos = [0]

                    def step():
                        try:
                            v = self.call(self.getattr(it, "__getitem__"), [K(pos[0])], {})
                        except AbsRaise as e:
                            if self.exc_matches(e.exc, BC(IndexError)):
                                return None
                            raise
                        pos[0] += 1
                        return v
                    return step
        r = self.make_iter(it)
        return None if r is None else lambda: self.next_elem(r)

    def lazy(self, it):
        """Whether iterating runs code of its own (a generator or an iterator class)."""
        if not isinstance(it, R):
            return False
        o = self.o(it)
        if o.kind == "gen":
            return self.sched is not None
        if not isinstance(o.cls, ClassV) or o.kind == "aio":
            return False
        if isinstance(self.class_lookup(o.cls, "__next__"), FuncV):
            return True
        m = self.class_lookup(o.cls, "__iter__")
        if m is None and o.kind == "inst" and o.payload is None and self.sched is not None:
            return isinstance(self.class_lookup(o.cls, "__getitem__"), FuncV) and not self.is_mixin(o.cls)
        return False

    def make_iter(self, it):
        """An iterator object over known elements (None: not modelled)."""
        if isinstance(it, R) and self.o(it).kind == "iter":
            return it
        if isinstance(it, R) and self.o(it).kind == "gen" and self.sched is not None:
            return it
        if isinstance(it, R) and self.o(it).kind == "gen":
            out = []
            if self.o(it).extra[0] is None:
                return None
            self.iterate_gen(it, out.append)
            it = T(out)
        seq = self.iter_elems(it)
        if seq is None or seq[1] is not None and self.o(seq[1]).rep:
            return None
        elems, live = seq
        r = self.alloc("iter")
        byindex = live is not None and isinstance(it, R) and it.oid == live.oid and self.o(live).kind == "list"
        self.w(r).extra = [live, list(elems), 0, len(self.sync(live).items) if live is not None and self.o(live).kind in CONTAINER else None, byindex]
        return r

    def next_elem(self, r):
        """The next element of an iterator object, None when there is none."""
        if self.o(r).kind == "gen":
            more, v = self.gen_next(r)
            return v if more else None
        live, elems, i, n, byindex = self.o(r).extra
        if i < 0:
            return None
        if byindex:
            elems = self.sync(live).items
        elif n is not None and len(self.sync(live).items) != n:
            self.throw(RuntimeError, "%s changed size during iteration" % self.o(live).kind)
        if i >= len(elems):
            self.w(r).extra = [live, [], -1, n, byindex]
            return None
        self.w(r).extra = [live, elems if not byindex else [], i + 1, n, byindex]
        return elems[i]

    def iterate(self, it, body, names, st, is_async=False):
        """Run body(x) over the elements of `it`; True if the loop was left by break."""
        if isinstance(it, R) and isinstance(self.o(it).cls, ClassV) and self.o(it).kind == "inst" and not is_async:
            m = self.class_lookup(self.o(it).cls, "__iter__")
            if isinstance(m, FuncV) and not isinstance(self.class_lookup(self.o(it).cls, "__next__"), FuncV):
                it = self.call(self.getattr(it, "__iter__"), [], {})
        if self.lazy(it) and not is_async:
            x = self.o(it).extra if self.o(it).kind == "gen" else None
            if x is None or x[0] is None or x[1] is not None:
                return self.iterate_steps(it, body, st)
        if isinstance(it, R) and self.o(it).kind == "gen" and self.o(it).extra[0] is not None:
            return self.iterate_gen(it, body)
        seq = self.iter_elems(it)
        if seq is not None:
            elems, live = seq
            mark = self.iter_begin(live) if live is not None else None
            try:
                if len(elems) > (self.cfg.max_unroll if self.sched is None else 20000):
                    raise AnalysisLimit("loop of %d known iterations at %s" % (len(elems), self.loc()))
                rep = live is not None and self.o(live).rep
                for x in self.live_elems(it, elems, live):
                    if rep:
                        self.loop_rep += 1
                    try:
                        body(x)
                    except ContinueEx:
                        pass
                    except BreakEx:
                        return True
                    finally:
                        if rep:
                            self.loop_rep -= 1
            finally:
                if mark is not None:
                    self.iter_end(mark)
            return False
        # unknown number of iterations: none, or a representative one
        lid = (self.loc(), self.uid())
        live = it if isinstance(it, R) else None
        src = it
        if not self.loop_nonempty(it):
            return False
        x = self.rep_elem(it, lid)
        mark = self.iter_begin(live, src)
        pre = {}
        try:
            if names and self.cfg.later_iterations:
                if self.choose(2, "first or later iteration") == 1:
                    pre = self.widen(names, st.body, lid)
            if is_async:
                self.suspend(it)
            self.loop_rep += 1
            try:
                body(x)
                ended = "end"
            except ContinueEx:
                ended = "end"
            except BreakEx:
                return True
            finally:
                self.loop_rep -= 1
            if self.cfg.loop_events:
                fr = self.frames[-1]
                self.ev("backedge", "for", None, (), extra={"pre": pre, "post": {n: fr.env.get(n) for n in pre}, "node": st})
        finally:
            self.iter_end(mark)
        return False

    def loop_nonempty(self, it):
        """Does the loop run at least one (representative) iteration?"""
        if isinstance(it, R):
            o = self.o(it)
            if o.kind in CONTAINER:
                if o.items:
                    return True
                return self.decide(("nonempty", self.ckey(it)))
            if o.kind == "view":
                base = o.extra[0]
                return self.loop_nonempty(base)
        if isinstance(it, S):
            t = it.term
            if isinstance(t, tuple) and t and t[0] in ("list", "set", "sorted", "reversed", "tuple", "enumerate", "iter", "keys", "values", "items"):
                if isinstance(t[1], V):
                    return self.loop_nonempty(t[1])
            if isinstance(t, tuple) and t and t[0] == "range":
                lo, hi = t[1], t[2]
                c = self.compare("<", lo, hi)
                return self.truth(c)
            if isinstance(t, tuple) and t and t[0] == "cont":
                return self.decide(("nonempty", t))
            return self.decide(("truthy", it))
        return self.decide(("iterates", it))

    def iter_elems(self, it):
        """(elements, live container or None) if the iteration is over known elements."""
        if isinstance(it, R):
            o = self.o(it)
            if o.kind in CONTAINER:
                if isinstance(o.cls, ClassV) and isinstance(self.class_lookup(o.cls, "__iter__"), FuncV):
                    return self.iter_elems(self.call(self.getattr(it, "__iter__"), [], {}))
                o = self.sync(it)
                if o.open is None:
                    if o.kind == "list":
                        return list(o.items), it
                    return [a for a, _b in o.items.values()], it
                if o.items and (o.rep or o.kind in ("dict", "set")) and False:
                    return None
                return None
            if o.kind == "view":
                base, what = o.extra
                bo = self.sync(base)
                if bo.open is None:
                    if what == "keys":
                        return [a for a, _b in bo.items.values()], base
                    if what == "values":
                        return [b for _a, b in bo.items.values()], base
                    return [T([a, b]) for a, b in bo.items.values()], base
                return None
            if o.kind == "gen" and self.sched is None:
                return None
            if self.lazy(it):
                out = self.drain(self.stepper(it))
                if o.kind == "gen":
                    w = self.w(it)
                    w.kind, w.extra = "iter", [None, out, 0, None, False]
                return out, None
            if o.kind == "iter":
                live, elems, i, n, byindex = o.extra
                if byindex and i >= 0:
                    elems = self.sync(live).items
                return list(elems[i:]) if i >= 0 else [], None
            if isinstance(o.cls, ClassV):
                m = self.class_lookup(o.cls, "__iter__")
                if isinstance(m, FuncV):
                    return self.iter_elems(self.call_func(m, [it], {}))
            if o.payload is not None:
                return self.iter_elems(o.payload)
            return None
        ks = self.known_seq(it)
        if ks is not None:
            return ks, None
        if isinstance(it, (K, BV)) and not (isinstance(it, K) and hasattr(it.v, "__iter__")):
            self.throw(TypeError, "object is not iterable")
        if isinstance(it, S) and isinstance(it.term, tuple) and it.term and it.term[0] == "zipk":
            return list(it.term[1]), None
        return None

    def rep_elem(self, it, lid):
        """A representative element of an unknown iterable."""
        if isinstance(it, R):
            o = self.sync(it) if self.o(it).kind in CONTAINER else self.o(it)
            if o.kind == "list":
                if o.items and o.open is not None:
                    n = len(o.items)
                    c = self.choose(n + 1, "element")
                    if c < n:
                        return o.items[c]
                return self.elem_of(self.ckey(it), lid)
            if o.kind in ("dict", "set"):
                if o.items:
                    ks = list(o.items.values())
                    c = self.choose(len(ks) + 1, "element")
                    if c < len(ks):
                        return ks[c][0]
                ck = self.ckey(it)
                k = S(("key", ck, lid))
                self.assume(("in", k, ck), True)
                self.rep_dict_item(it, k)
                return k
            if o.kind == "view":
                base, what = o.extra
                k = self.rep_elem(base, lid)
                if what == "keys":
                    return k
                v = self.dict_value(base, k)
                if what == "values":
                    return v
                return T([k, v])
        if isinstance(it, S):
            t = it.term
            if isinstance(t, tuple) and t:
                if t[0] in ("list", "set", "sorted", "reversed", "tuple", "iter") and isinstance(t[1], V):
                    return self.rep_elem(t[1], lid)
                if t[0] == "enumerate":
                    return T([S(("idx", t[1], lid), "int"), self.rep_elem(t[1], lid)])
                if t[0] == "zip":
                    return T([self.rep_elem(x, lid) for x in t[1:]])
                if t[0] == "range":
                    i = S(("rangeidx", t, lid), "int")
                    lo, hi = t[1], t[2]
                    self.assume_lt(lo, i, strict=False)
                    self.assume_lt(i, hi, strict=True)
                    return i
                if t[0] == "items" and isinstance(t[1], S):
                    k = S(("key", t[1], lid))
                    self.assume(("in", k, t[1]), True)
                    return T([k, S(("item", t[1], k))])
                if t[0] == "keys" and isinstance(t[1], S):
                    k = S(("key", t[1], lid))
                    self.assume(("in", k, t[1]), True)
                    return k
                if t[0] == "values" and isinstance(t[1], S):
                    k = S(("key", t[1], lid))
                    return S(("item", t[1], k))
                if t[0] == "map":
                    return self.call(t[1], [self.rep_elem(t[2], lid)], {})
                if t[0] == "chain":
                    c = self.choose(len(t) - 1, "chain")
                    return self.rep_elem(t[1 + c], lid)
            ty = "int" if it.ty == "bytes" or (isinstance(t, tuple) and t and t[0] == "bytesof") else None
            e = S(("elem", it, lid), ty)
            if ty == "int":
                self.iv[e] = (0, 255)
            self.assume(("in", e, it), True)
            return e
        return S(("elem", it, lid))

    def assume_lt(self, a, b, strict):
        try:
            if strict:
                c = self.compare("<", a, b)
            else:
                c = self.compare("<=", a, b)
            if isinstance(c, K):
                if not c.v:
                    raise Infeasible()
                return
            if isinstance(c, S):
                self.assume(("truthy", c), True)
        except AbsRaise:
            pass

    def elem_of(self, src, lid):
        return S(("elem", src, lid))

    def iterate_steps(self, it, body, st):
        step = self.stepper(it)
        n = 0
        since = None
        while True:
            x = step()
            if x is None:
                return False
            n += 1
            if self.sched is not None and since != (len(self.taken), self.switches):
                since = (len(self.taken), self.switches)
                n = 0
            if n > 5000:
                if self.sched is not None:
                    self.throw(EndlessLoop, "at %s" % self.loc())
                raise AnalysisLimit("endless iterator at %s" % self.loc())
            depth = len(self.frames)
            try:
                body(x)
            except ContinueEx:
                pass
            except (BreakEx, AbsRaise, ReturnEx) as e:
                # a generator nothing else refers to is closed at once
                del self.frames[depth:]
                if isinstance(it, R) and self.o(it).kind == "gen" and isinstance(getattr(st, "iter", None), ast.Call):
                    self.gen_close(it)
                if isinstance(e, BreakEx):
                    return True
                raise

    def iterate_gen(self, it, body):
        func, args, kw = self.o(it).extra
        self.w(it).extra = (None, None, None)
        depth = len(self.frames)

        class _Brk(_Ctl):
            pass

        brk = []

        def hook(v):
            saved = self.frames[depth:]
            del self.frames[depth:]
            try:
                body(v)
            except ContinueEx:
                pass
            except BreakEx:
                brk.append(1)
                raise StopGen()
            finally:
                del self.frames[depth:]
                self.frames.extend(saved)
            return NONE

        try:
            self.run_gen(func, args, kw, hook)
        except StopGen:
            if not brk:
                raise
            del self.frames[depth:]
            return True
        return False

    def run_gen(self, func, args, kw, hook):
        if args is None:
            return func(hook)
        return self.call_func(func, args, kw, hook=hook)

    def iter_begin(self, live, src=None):
        if live is not None:
            o = self.o(live)
            base = live
            if o.kind == "view":
                base = o.extra[0]
                o = self.o(base)
            if o.kind in CONTAINER:
                e = self.ev("iter_begin", "iter", base, (), extra={"shared": o.shared, "prov": o.prov, "volatile": o.volatile})
                return e
        elif isinstance(src, S):
            return self.ev("iter_begin", "iter", src, (), extra={"shared": False, "prov": src.term, "volatile": False})
        return None

    def iter_end(self, mark):
        if mark is not None:
            self.ev("iter_end", "iter", mark.recv, (), extra=mark)

    def x_While(self, st):
        if not hasattr(st, "sa_head"):
            st.sa_head = [ast.Expr(value=st.test, lineno=st.lineno)] + list(st.body)
        names = self.loop_carried(st.sa_head)
        # names only tested in the condition but written in the body are loop carried too
        n_iter = 0
        since = None
        while True:
            c = self.eval(st.test)
            concrete = isinstance(c, K) or (isinstance(c, R) and self.o(c).open is None) or isinstance(c, (BS, T, BV))
            if self.sched is not None:
                concrete = True  # closed scenario: every iteration is followed
            elif concrete and not self.while_concrete(c, st, names):
                concrete = False
            ok = self.truth(c)
            if not ok:
                self.exec_body(st.orelse)
                return
            if concrete:
                # statically decided: unroll (constant propagation through the loop)
                n_iter += 1
                if self.sched is not None and since != (len(self.taken), self.switches):
                    since = (len(self.taken), self.switches)
                    n_iter = 0
                if n_iter > self.cfg.unroll_while:
                    if self.sched is None:
                        raise AnalysisLimit("while loop does not terminate abstractly at %s" % self.loc())
                    if n_iter > 1500:
                        self.throw(EndlessLoop, "at %s" % self.loc())
                try:
                    self.exec_body(st.body)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                continue
            break
        # undecided condition: representative iteration
        lid = (self.loc(), self.uid())
        pre = {}
        if self.cfg.later_iterations and names and self.choose(2, "first or later iteration") == 1:
            pre = self.widen(names, list(st.body), lid)
            if not self.truth(self.eval(st.test)):
                raise Infeasible()
        self.loop_rep += 1
        try:
            self.exec_body(st.body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        finally:
            self.loop_rep -= 1
        fr = self.frames[-1]
        self.ev("backedge", "while", None, (), extra={"pre": pre, "post": {n: fr.env.get(n) for n in pre}, "node": st, "names": names})
        if isinstance(st.test, ast.Constant) and st.test.value:
            raise _EndlessLoop()
        # leave the loop: the condition is false now (later iterations behave like the representative one)
        for n in list(pre):
            v = fr.env.get(n)
            if isinstance(v, S):
                fr.env[n] = S(("phiout", n, lid), v.ty)
        if isinstance(st.test, ast.Constant):
            return
        try:
            c = self.eval(st.test)
            if self.truth(c):
                raise Infeasible()
        except Infeasible:
            raise
        self.exec_body(st.orelse)

    def while_concrete(self, c, st, names):
        # an iterator or counter driven `while True:` is unrolled; unknown values at its exits fork the path
        return True

    # ---- match
    def x_Match(self, st):
        subj = self.eval(st.subject)
        for case in st.cases:
            if self.match_pattern(case.pattern, subj):
                if case.guard is not None and not self.truth(self.eval(case.guard)):
                    continue
                self.exec_body(case.body)
                return

    def match_pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, K(p.value)))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(x, v) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v):
                return False
            if p.name:
                self.store_name(p.name, v)
            return True
        if isinstance(p, ast.MatchClass):
            if not self.truth(self.isinstance_(v, self.eval(p.cls))):
                return False
            for n, sp in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_pattern(sp, self.getattr(v, n)):
                    return False
            if p.patterns:
                cls = self.eval(p.cls)
                ma = self.class_lookup(cls, "__match_args__") if isinstance(cls, ClassV) else None
                names = None
                if isinstance(ma, T):
                    names = [x.v for x in ma.items]
                elif isinstance(cls, ClassV) and cls.fields is not None:
                    names = [n for n, _d, _o in cls.fields]
                elif isinstance(cls, ClassV) and cls.ntuple is not None:
                    names = [n for n, _d in cls.ntuple]
                if names is not None:
                    return all(self.match_pattern(sp, self.getattr(v, n)) for n, sp in zip(names, p.patterns))
                if len(p.patterns) == 1:
                    return self.match_pattern(p.patterns[0], v)
                raise AnalysisError("positional class pattern")
            return True
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(v, R) and self.o(v).kind == "dict"):
                if isinstance(v, S):
                    raise AnalysisError("mapping pattern on unknown value")
                return False
            keys = [self.eval(k) for k in p.keys]
            for k, sp in zip(keys, p.patterns):
                if not self.truth(self.contains(v, k)) or not self.match_pattern(sp, self.dict_value(v, k)):
                    return False
            if p.rest:
                from .models import snapshot, dict_method
                rest = snapshot(self, v)
                for k in keys:
                    dict_method(self, rest, "pop", [k], {})
                self.store_name(p.rest, rest)
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (K, BS, EN, BV)) or isinstance(v, S) and v.ty in ("int", "str", "bytes") or isinstance(v, R) and self.o(v).kind not in ("list",):
                return False
            seq = self.known_seq(v)
            if seq is None:
                raise AnalysisError("sequence pattern on unknown value")
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if star:
                i, after = star[0], len(p.patterns) - star[0] - 1
                if len(seq) < i + after:
                    return False
                mid = seq[i:len(seq) - after]
                if not all(self.match_pattern(a, b) for a, b in zip(p.patterns[:i], seq[:i])):
                    return False
                if p.patterns[i].name:
                    self.store_name(p.patterns[i].name, self.mklist(mid))
                return all(self.match_pattern(a, b) for a, b in zip(p.patterns[i + 1:], seq[len(seq) - after:]))
            if len(seq) != len(p.patterns):
                return False
            return all(self.match_pattern(a, b) for a, b in zip(p.patterns, seq))
        raise AnalysisError("unsupported pattern %s" % type(p).__name__)

    # ---- definitions
    def x_Import(self, st):
        for a in st.names:
            top = a.name.split(".")[0]
            if top == self.package:
                m = self.load_module(a.name)
                if m is None:
                    self.throw(ImportError, a.name)
                v = m if a.asname else self.modules[top]
            else:
                v = E(a.name if a.asname else top)
            self.store_name(a.asname or top, v)

    def x_ImportFrom(self, st):
        fr = self.frames[-1]
        if st.level:
            base = fr.module.name.split(".")
            _p, ispkg = self.module_path(fr.module.name)
            if not ispkg:
                base = base[:-1]
            if st.level > 1:
                base = base[: -(st.level - 1)]
            name = ".".join(base + ([st.module] if st.module else []))
        else:
            name = st.module
        if name.split(".")[0] != self.package:
            for a in st.names:
                if a.name == "*":
                    continue
                self.store_name(a.asname or a.name, self.norm_ext(name + "." + a.name))
            return
        m = self.load_module(name)
        if m is None:
            self.throw(ImportError, name)
        for a in st.names:
            if a.name == "*":
                for n, v in list(m.attrs.items()):
                    if not n.startswith("_"):
                        self.store_name(n, v)
                continue
            if a.name in m.attrs:
                v = m.attrs[a.name]
            else:
                sub = self.load_module(name + "." + a.name)
                if sub is None:
                    self.throw(ImportError, name + "." + a.name)
                v = sub
                if a.name in m.attrs:
                    v = m.attrs[a.name]
            self.store_name(a.asname or a.name, v)

    def qual(self, name):
        fr = self.frames[-1]
        if fr.isclass:
            return fr.cls.qualname + "." + name
        if fr.func is not None:
            return fr.func.qualname + ".<locals>." + name
        return fr.module.name + "." + name

    def make_func(self, st, is_async=False):
        fr = self.frames[-1]
        name = getattr(st, "name", "<lambda>")
        f = FuncV(st, fr.module, None, self.qual(name), fr.cls if fr.isclass else None)
        # closure: nearest non-class frame that is a function
        f.closure = fr if (fr.func is not None or fr.parent is not None) and not fr.isclass else (fr.parent if fr.isclass else None)
        if f.closure is not None and f.closure.func is None and f.closure.parent is None and not f.closure.isclass and f.closure.env is fr.module.attrs:
            f.closure = None
        if f.cls is None and not fr.isclass:
            # functions nested in a method see the method's class for name mangling and super()
            f.cls = None
        f.is_async = is_async
        a = st.args
        f.defaults = [self.eval(d) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not isinstance(st, ast.Lambda):
            f.is_gen = self.has_yield(st)
        return f

    @staticmethod
    def has_yield(st):
        stack = list(st.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        return False

    def x_FunctionDef(self, st, is_async=False):
        f = self.make_func(st, is_async)
        v = f
        decs = [self.eval(d) for d in st.decorator_list]
        for d in reversed(decs):
            v = self.call(d, [v], {})
        name = self.mangle(st.name) if self.frames[-1].isclass else st.name
        self.store_name(name, v)

    def x_AsyncFunctionDef(self, st):
        self.x_FunctionDef(st, True)

    def x_ClassDef(self, st):
        fr = self.frames[-1]
        bases = []
        for b in st.bases:
            v = self.eval(b)
            bases.append(v)
        cls = ClassV(st.name, self.qual(st.name), fr.module, bases or [BC(object)])
        cls.node = st
        for b in bases:
            if isinstance(b, E) and b.name in ENUM_BASES:
                cls.enum_kind = ENUM_BASES[b.name]
            elif isinstance(b, ClassV) and b.enum_kind:
                cls.enum_kind = b.enum_kind
        cls.mro = self.compute_mro(cls)
        cf = Frame(None, cls.attrs, fr.module, fr if (fr.func is not None or fr.isclass or fr.parent is not None) else None, cls)
        cf.isclass = True
        cf.line = st.lineno
        self.frames.append(cf)
        try:
            self.exec_body(st.body)
        finally:
            self.frames.pop()
        if cls.enum_kind:
            last = 0
            order = [n for n in cls.attrs if not n.startswith("_")]
            for n in order:
                v = cls.attrs[n]
                if isinstance(v, (FuncV, PropV, StaticV, ClassMV, ClassV)):
                    continue
                if isinstance(v, S) and isinstance(v.term, tuple) and v.term[0] == "enum.auto":
                    val = (last * 2 or 1) if "Flag" in cls.enum_kind else last + 1
                elif isinstance(v, K):
                    val = v.v
                elif isinstance(v, EN):
                    val = v.val
                elif isinstance(v, T):
                    val = tuple(repr(x) for x in v.items)
                else:
                    val = repr(v)
                if isinstance(val, int):
                    last = val
                alias = [m for m in cls.members.values() if m.val == val]
                mem = alias[0] if alias else EN(cls, n, val)
                cls.members[n] = mem
                cls.attrs[n] = mem
        for b in bases:
            if isinstance(b, E) and b.name == "typing.NamedTuple":
                cls.ntuple = [(n, cls.attrs.pop(n, None)) for n, _a in cls.ann]
                cls.bases = [BC(tuple)]
                cls.mro = self.compute_mro(cls)
                self.ntuple_methods(cls)
        # __set_name__ protocol
        for n, v in list(cls.attrs.items()):
            if isinstance(v, R):
                o = self.o(v)
                if isinstance(o.cls, ClassV):
                    sn = self.class_lookup(o.cls, "__set_name__")
                    if isinstance(sn, FuncV):
                        self.call_func(sn, [v, cls, K(n)], {})
        for b in cls.mro[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.attrs:
                f = b.attrs["__init_subclass__"]
                f = f.func if isinstance(f, ClassMV) else f
                kw = {k.arg: self.eval(k.value) for k in st.keywords if k.arg and k.arg != "metaclass"}
                self.call_func(f, [cls], kw)
                break
        v = cls
        for d in reversed([self.eval(d) for d in st.decorator_list]):
            v = self.call(d, [v], {})
        self.store_name(st.name, v)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BM):
            if isinstance(f.func, (FuncV, BM)):
                return self.call(f.func, [f.self] + list(args), kw)
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, (BI, BC)):
            return self.call_builtin(f, args, kw)
        if isinstance(f, E):
            return self.call_ext(f, args, kw)
        if isinstance(f, S):
            return self.call_sym(f, args, kw)
        if isinstance(f, R):
            o = self.o(f)
            if o.kind == "partial":
                g, a0, k0 = o.extra
                k1 = dict(k0)
                k1.update(kw)
                return self.call(g, list(a0) + list(args), k1)
            if o.kind == "pycall":
                return o.extra(self, args, kw)
            if isinstance(o.cls, ClassV):
                m = self.class_lookup(o.cls, "__call__")
                if m is not None:
                    return self.call(self.bind_attr(m, f, o.cls), args, kw)
            if o.lazy:
                return self.opaque("call", "__call__", f, args, kw)
            self.throw(TypeError, "not callable")
        if isinstance(f, StaticV):
            return self.call(f.func, args, kw)
        if isinstance(f, K):
            self.throw(TypeError, "not callable: %r" % (f,))
        raise AnalysisError("call of %r at %s" % (f, self.loc()))

    def bind_params(self, f, args, kw):
        a = f.node.args
        params = [p.arg for p in getattr(a, "posonlyargs", [])] + [p.arg for p in a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        starred = kw.pop("**", None)
        n = len(params)
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
        if len(args) > n:
            if a.vararg:
                env[a.vararg.arg] = T(args[n:])
            else:
                self.throw(TypeError, "too many arguments for %s" % f.qualname)
        elif a.vararg:
            env[a.vararg.arg] = T(())
        rest = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in env:
                    self.throw(TypeError, "multiple values for %s" % k)
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.throw(TypeError, "unexpected keyword %s for %s" % (k, f.qualname))
        d0 = n - len(f.defaults)
        for i, p in enumerate(params):
            if p not in env:
                if i >= d0:
                    env[p] = f.defaults[i - d0]
                elif starred is not None:
                    env[p] = S(("kwitem", starred, p))
                else:
                    self.throw(TypeError, "missing argument %s for %s" % (p, f.qualname))
        for p in kwonly:
            if p not in env:
                if p in f.kwdefaults:
                    env[p] = f.kwdefaults[p]
                else:
                    self.throw(TypeError, "missing argument %s for %s" % (p, f.qualname))
        if a.kwarg:
            r = self.alloc("dict")
            o = self.w(r)
            for k, v in rest.items():
                o.items[("k", k)] = (K(k), v)
            if starred is not None:
                o.open = starred
            env[a.kwarg.arg] = r
        return env

    def call_func(self, f, args, kw, hook=None):
        if f.synthetic is not None:
            return f.synthetic(self, args, kw)
        cut = self.cfg.cuts.get(f.qualname)
        if cut is not None and hook is None:
            res = cut(self, f, list(args), dict(kw))
            if res is not NotImplemented:
                return res
        env = self.bind_params(f, args, kw)
        if hook is None:
            if f.ctxmgr:
                r = self.alloc("ctxmgr")
                self.w(r).extra = (f, list(args), dict(kw))
                return r
            if f.is_gen:
                r = self.alloc("gen")
                self.w(r).extra = (f, list(args), dict(kw))
                return r
            if f.is_async:
                r = self.alloc("coro")
                self.w(r).extra = (f, list(args), dict(kw))
                return R(r.oid, "coro:" + f.qualname)
        return self.run_func(f, env, args, hook)

    def run_func(self, f, env, args, hook=None):
        if len(self.call_stack) > (80 if self.sched is None else 160):
            raise AnalysisLimit("call depth at %s" % self.loc())
        if self.sched is not None:
            if sum(1 for g, _ in self.call_stack if g is f) > 60:
                self.throw(RecursionError)
        elif sum(1 for g, _ in self.call_stack if g is f) > 6:
            self.ev("recursion", f.qualname)
            return S(("rec", f.qualname, self.uid()))
        self.funcs_seen.add(f.qualname)
        fr = Frame(f, env, f.module, f.closure, f.cls)
        fr.line = f.node.lineno
        fr.hook = hook
        self.frames.append(fr)
        self.call_stack.append((f, args[0] if args else None))
        depth = len(self.frames)
        cs = len(self.call_stack)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            self.exec_body(f.node.body)
            return NONE
        except ReturnEx as e:
            return e.v
        finally:
            del self.frames[depth - 1 :]
            del self.call_stack[cs - 1 :]

    def construct(self, cls, args, kw):
        if cls.enum_kind:
            return self.enum_value(cls, args[0] if args else kw.get("value"))
        cut = self.cfg.cuts.get(cls.qualname)
        if cut is not None:
            res = cut(self, cls, list(args), dict(kw))
            if res is not NotImplemented:
                return res
        if cls.ntuple is None and cls.fields is None:
            for b in cls.mro[1:]:
                if isinstance(b, ClassV) and (b.ntuple is not None or b.fields is not None):
                    cls.ntuple, cls.fields = b.ntuple, cls.fields
                    break
        if cls.ntuple is not None and not isinstance(self.class_lookup(cls, "__new__"), (FuncV, StaticV)):
            return self.make_ntuple(cls, args, kw)
        new = self.class_lookup(cls, "__new__")
        if new is not None:
            f = new.func if isinstance(new, (StaticV, ClassMV)) else new
            if isinstance(f, FuncV) and not self.in_call(f, cls):
                r = self.call_func(f, [cls] + list(args), kw)
                if not isinstance(r, R):
                    return r
                init = self.class_lookup(cls, "__init__")
                if isinstance(init, FuncV):
                    self.call_func(init, [r] + list(args), kw)
                return r
        r = self.instantiate(cls, args)
        init = self.class_lookup(cls, "__init__")
        if isinstance(init, FuncV):
            if self.is_mixin(cls) and init is self.class_lookup(self.mixin_class(), "__init__"):
                self.mixin_init(r, kw, init)
            else:
                self.call_func(init, [r] + list(args), kw)
        elif self.o(r).kind in CONTAINER and (args or kw):
            if args:
                self.container_init(r, args[0])
            if self.o(r).kind == "dict":
                for k, v in kw.items():
                    if k != "**":
                        self.w(r).items[("k", k)] = (K(k), v)
        elif any(isinstance(b, BC) and issubclass(b.t, BaseException) for b in cls.mro):
            self.w(r).attrs["args"] = T(args)
        elif any(isinstance(b, E) for b in cls.mro):
            self.w(r).lazy = True
            self.w(r).extra = ("ctor", tuple(args), dict(kw))
            if any(isinstance(b, E) and b.name == "ipaddress.IPv6Address" for b in cls.mro):
                from .models import ipv6
                self.w(r).payload = ipv6(self, args[0])
        return r

    def make_ntuple(self, cls, args, kw):
        names = [n for n, _d in cls.ntuple]
        vals = dict(zip(names, args))
        if len(args) > len(names):
            self.throw(TypeError, "too many arguments for %s" % cls.name)
        for k, v in kw.items():
            if k not in names or k in vals:
                self.throw(TypeError, "unexpected argument %s for %s" % (k, cls.name))
            vals[k] = v
        for n, d in cls.ntuple:
            if n not in vals:
                if d is None:
                    self.throw(TypeError, "missing argument %s for %s" % (n, cls.name))
                vals[n] = d
        return TN([vals[n] for n in names], cls, names)

    def synth(self, cls, name, fn):
        """A method of a generated class: fn(self, args, kw)."""
        f = FuncV(ast.parse("def %s(self, *a, **k): pass" % name).body[0], cls.module, None, cls.qualname + "." + name, cls)
        f.synthetic = lambda ip, args, kw: fn(args[0], list(args[1:]), kw)
        cls.attrs[name] = f

    def make_dataclass(self, cls, opts):
        opts = {k: self.truth(v) for k, v in opts.items() if k not in ("match_args",)}
        fields = {}
        for b in reversed(cls.mro[1:]):
            if isinstance(b, ClassV) and b.fields is not None:
                fields.update({f[0]: f for f in b.fields})
        kwonly = False
        for n, ann in cls.ann:
            text = ast.unparse(ann)
            if "ClassVar" in text:
                continue
            if "KW_ONLY" in text:
                kwonly = True
                continue
            d = cls.attrs.get(n)
            o = {"kw_only": kwonly, "initvar": "InitVar" in text}
            if isinstance(d, R) and getattr(self.o(d).cls, "qualname", "").endswith("dataclasses___Field"):
                given = self.o(d).attrs["kw"]
                o.update({k.v: x for k, x in self.o(given).items.values()})
                d = o.get("default")
                if d is None:
                    cls.attrs.pop(n, None)
                else:
                    cls.attrs[n] = d
            fields[n] = (n, d, o)
        cls.fields = list(fields.values())
        cls.opts = dict(opts)

        def opt(o, k, default):
            return self.truth(o[k]) if isinstance(o.get(k), V) else o.get(k, default)

        stored = [f for f in cls.fields if not f[2].get("initvar")]

        def init(slf, args, kw):
            kw = dict(kw)
            names = [n for n, _d, o in cls.fields if opt(o, "init", True) and not opt(o, "kw_only", opts.get("kw_only", False))]
            if len(args) > len(names):
                self.throw(TypeError, "too many arguments for %s" % cls.name)
            vals = dict(zip(names, args))
            allowed = [n for n, _d, o in cls.fields if opt(o, "init", True)]
            for k, v in kw.items():
                if k not in allowed or k in vals:
                    self.throw(TypeError, "unexpected argument %s for %s" % (k, cls.name))
                vals[k] = v
            late = []
            for n, d, o in cls.fields:
                if n in vals:
                    v = vals[n]
                elif isinstance(o.get("default_factory"), V):
                    v = self.call(o["default_factory"], [], {})
                elif d is not None:
                    v = d
                elif not opt(o, "init", True):
                    continue
                else:
                    self.throw(TypeError, "missing argument %s for %s" % (n, cls.name))
                if o.get("initvar"):
                    late.append(v)
                elif opts.get("frozen"):
                    self.rawset(slf, n, v)
                else:
                    self.setattr(slf, n, v)
            post = self.class_lookup(self.o(slf).cls, "__post_init__")
            if post is not None:
                self.call(self.getattr(slf, "__post_init__"), late, {})
            return NONE

        def values(slf):
            return T([self.getattr(slf, n) for n, _d, o in stored if opt(o, "compare", True)])

        def same(slf, args):
            return isinstance(args[0], R) and self.o(args[0]).cls is self.o(slf).cls

        def text(slf, args, kw):
            from .models import fmt_concat, fmt_value
            parts = [K(cls.name + "(")]
            for i, (n, _d, o) in enumerate(x for x in stored if opt(x[2], "repr", True)):
                parts += [K(", " if i else ""), K(n + "="), fmt_value(self, self.getattr(slf, n), None, ord("r"))]
            return fmt_concat(self, parts + [K(")")])

        if opts.get("init", True):
            self.synth(cls, "__init__", init)
        if opts.get("eq", True) and "__eq__" not in cls.attrs:
            self.synth(cls, "__eq__", lambda slf, a, k: self.eq(values(slf), values(a[0])) if same(slf, a) else E("NotImplemented"))
        if opts.get("repr", True) and "__repr__" not in cls.attrs:
            self.synth(cls, "__repr__", text)
        if opts.get("order"):
            for nm, op in (("__lt__", "<"), ("__le__", "<="), ("__gt__", ">"), ("__ge__", ">=")):
                self.synth(cls, nm, lambda slf, a, k, op=op: self.compare(op, values(slf), values(a[0])) if same(slf, a) else E("NotImplemented"))
        if opts.get("frozen"):
            def deny(slf, a, k):
                self.throw_cls(self.prelude["dataclasses__FrozenInstanceError"], "cannot assign to field")
            self.synth(cls, "__setattr__", deny)
            self.synth(cls, "__delattr__", deny)
        cls.attrs["__dataclass_fields__"] = self.mkdict([(K(n), self.dcfield(n, o)) for n, _d, o in stored])
        return cls

    def dcfield(self, n, o):
        r = self.call(self.prelude["dataclasses___Field"], [K(n), self.mkdict([(K(k), v) for k, v in o.items() if isinstance(v, V)])], {})
        return r

    def throw_cls(self, cls, *args):
        raise AbsRaise(self.call(cls, [K(a) for a in args], {}), self.loc())

    def make_namedtuple(self, name, fields, module=None):
        fr = self.frames[-1]
        cls = ClassV(name, fr.module.name + "." + name, fr.module, [BC(tuple)])
        cls.ntuple = list(fields)
        cls.mro = self.compute_mro(cls)
        self.ntuple_methods(cls)
        return cls

    def ntuple_methods(self, cls):
        cls.attrs["_fields"] = T([K(n) for n, _d in cls.ntuple])
        f = FuncV(ast.parse("def _make(cls, it): pass").body[0], cls.module, None, cls.qualname + "._make", cls)
        f.synthetic = lambda ip, args, kw: ip.call(args[0], list(ip.iter_elems(args[1])[0]), {})
        cls.attrs["_make"] = ClassMV(f)

    def instantiate(self, cls, args):
        for b in cls.mro:
            if isinstance(b, BC) and b.t in (dict, list, set, frozenset, bytearray):
                k = {dict: "dict", list: "list", set: "set", frozenset: "set", bytearray: "list"}[b.t]
                r = self.alloc(k, cls)
                if b.t is bytearray:
                    self.w(r).extra = "bytearray"
                return r
        r = self.alloc("inst", cls)
        for b in cls.mro:
            if isinstance(b, BC) and b.t in (int, str, bytes, float):
                v = args[0] if args else K(b.t())
                o = self.w(r)
                o.payload = self.scalar_convert(b.t, v)
                break
        if any(isinstance(b, E) for b in cls.mro):
            self.w(r).lazy = True
        if self.is_mixin(cls):
            self.w(r).fields = {}
        return r

    def scalar_convert(self, t, v):
        if t is int:
            return self.to_int(v)
        return self.unwrap_int(v)

    def to_int(self, v):
        v = self.unwrap_int(v)
        if isinstance(v, K):
            if v.v is None:
                self.throw(TypeError, "int(None)")
            if isinstance(v.v, (bool, int, float)):
                return K(int(v.v))
            if isinstance(v.v, (str, bytes)):
                try:
                    return K(int(v.v))
                except ValueError:
                    self.throw(ValueError, "int")
        if isinstance(v, EN) and isinstance(v.val, int):
            return K(v.val)
        if isinstance(v, BV):
            return v
        if isinstance(v, S):
            if v.ty == "int":
                return v
            if isinstance(v.term, tuple) and v.term and v.term[0] == "ipv6" and isinstance(v.term[1], K):
                import ipaddress
                return K(int(ipaddress.IPv6Address(v.term[1].v)))
            return S(("int", v), "int")
        if isinstance(v, R):
            o = self.o(v)
            m = self.class_lookup(o.cls, "__int__") if isinstance(o.cls, ClassV) else None
            if isinstance(m, FuncV):
                return self.call_func(m, [v], {})
            if o.lazy:
                return S(("int", S(("obj", o.prov))), "int")
        self.throw(TypeError, "int(%r)" % (v,))

    def mixin_init(self, r, kw, init):
        """AttributesMixin construction: attribute values are kept as given (the wrapping contract is
        decided separately on AttributesMixin itself)."""
        o = self.w(r)
        o.fields = {}
        names = [n for n, _t in self.attr_table(o.cls)]
        for k, v in kw.items():
            if k in names:
                o.fields[k] = v
            elif k == "**":
                o.extra = ("openkw", v)
        o.attrs.setdefault("_attributes", K("<attributes>"))
        # cooperative __init__ of the next class in the MRO
        mro = o.cls.mro
        i = mro.index(self.mixin_class())
        for b in mro[i + 1 :]:
            if isinstance(b, ClassV) and "__init__" in b.attrs:
                self.call_func(b.attrs["__init__"], [r], {})
                break

    def container_init(self, r, src):
        o = self.w(r)
        if o.kind == "list":
            if isinstance(src, K) and o.extra == "bytearray" and isinstance(src.v, int):
                o.items = [K(0)] * src.v
                return
            seq = self.iter_elems(src)
            if seq is not None:
                o.items = list(seq[0])
                o.rep = bool(seq[1] is not None and self.o(seq[1]).rep)
            elif isinstance(src, R) and self.o(src).kind in CONTAINER:
                so = self.sync(src)
                o.open = ("copy", so.open, self.ckey(src))
                o.items = list(so.items) if so.kind == "list" else []
            else:
                o.open = ("copy", src)
        elif o.kind == "set":
            seq = self.iter_elems(src)
            if seq is not None:
                for x in seq[0]:
                    o.items[self.keyof(x)] = (x, NONE)
                o.rep = bool(seq[1] is not None and self.o(seq[1]).rep)
            else:
                o.open = ("copy", src)
        else:
            if isinstance(src, R) and self.o(src).kind == "dict":
                so = self.sync(src)
                o.items = dict(so.items)
                o.open = so.open and ("copy", so.open)
                o.rep = so.rep
            else:
                seq = self.iter_elems(src)
                if seq is not None:
                    for x in seq[0]:
                        ab = self.known_seq(x)
                        if ab is None or len(ab) != 2:
                            o.open = ("copy", src)
                            break
                        o.items[self.keyof(ab[0])] = (ab[0], ab[1])
                    o.rep = bool(seq[1] is not None and self.o(seq[1]).rep)
                else:
                    o.open = ("copy", src)

    def enum_value(self, cls, v):
        v0 = v
        v = self.unwrap_int(v) if v is not None else NONE
        if isinstance(v, EN) and v.cls is cls:
            return v
        val = v.v if isinstance(v, K) else (v.val if isinstance(v, EN) else None)
        if isinstance(v, (K, EN)):
            for m in cls.members.values():
                if m.val == val and not isinstance(m.val, V):
                    return m
            if "Flag" in (cls.enum_kind or "") and isinstance(val, int):
                return EN(cls, "<flags %d>" % val, val)
            miss = self.class_lookup(cls, "_missing_")
            if isinstance(miss, ClassMV):
                m = self.call_func(miss.func, [cls, v], {})
                if m != NONE:
                    return m
            self.throw(ValueError, "%r is not a valid %s" % (v, cls.name))
        if isinstance(v, R):
            v = S(("obj", self.o(v).prov))
        if self.cfg.enum_raises and "Flag" not in cls.enum_kind:
            if not self.decide(("validenum", v, cls)):
                self.throw(ValueError, "not a valid %s" % cls.name)
        return S(("wrap", cls.qualname, v), v.ty if isinstance(v, S) else "int")

    # ------------------------------------------------------------------ opaque effects
    def opaque(self, kind, name, recv, args, kw, ty=None, pure=False):
        for a in args:
            self.share(a)
        for a in kw.values():
            if isinstance(a, V):
                self.share(a)
        if pure:
            res = S(("pure", name, recv, tuple(args), tuple(sorted((k, v) for k, v in kw.items() if isinstance(v, V)))), ty)
        else:
            res = S(("call", name, self.uid()), ty)
        e = self.ev(kind, name, recv, args, kw, res)
        if self.cfg.call_raises is not None:
            opts = self.cfg.call_raises(self, e)
            if opts:
                c = self.choose(len(opts) + 1, "call raises")
                if c:
                    e.extra = ("raised", opts[c - 1])
                    self.throw(opts[c - 1], "injected")
        return res

    def call_sym(self, f, args, kw):
        t = f.term
        if isinstance(t, tuple) and t and t[0] == "attr" and len(t) == 3:
            recv, name = t[1], t[2]
            recv = recv if isinstance(recv, V) else S(recv)
            if self.facts.get(("none", recv)):
                self.throw(AttributeError, "None." + name)
            h = self.cfg.sym_methods.get(name)
            if h is not None:
                res = h(self, recv, list(args), dict(kw))
                if res is not NotImplemented and res is not None:
                    return res
            from .models import sym_method

            res = sym_method(self, recv, name, args, kw)
            if res is not None:
                return res
            return self.opaque("call", name, recv, args, kw, pure=name in self.cfg.pure)
        return self.opaque("call", "__call__", f, args, kw)

    def call_ext(self, f, args, kw):
        from .models import ext_call

        h = self.cfg.ext.get(f.name)
        if h is not None:
            res = h(self, list(args), dict(kw))
            if res is not NotImplemented:
                return res
        return ext_call(self, f.name, list(args), dict(kw))

    def call_builtin(self, f, args, kw):
        from .models import builtin_call

        return builtin_call(self, f, list(args), dict(kw))

    # ------------------------------------------------------------------ async
    def await_value(self, v):
        if isinstance(v, R):
            o = self.o(v)
            if o.kind == "aio":
                if not hasattr(o.extra, "await_"):
                    self.throw(TypeError, "object can't be awaited")
                return o.extra.await_()
            if o.kind == "coro":
                f, args, kw = o.extra
                if o.payload is not None:
                    self.throw(RuntimeError, "cannot reuse already awaited coroutine")
                self.w(v).payload = TRUE
                self.ev("coro_start", f.qualname, None, args, kw)
                env = self.bind_params(f, args, kw)
                return self.run_func(f, env, args)
            if o.kind == "waitfor":
                inner, timeout = o.extra
                self.ev("wait_for", "wait_for", inner, (timeout,))
                res = self.await_outcomes(v, "wait_for", [TimeoutError])
                if isinstance(inner, R) and self.o(inner).kind == "coro":
                    return self.await_value(inner)
                self.suspend(inner)
                return S(("awaited", inner, self.uid())) if not isinstance(inner, S) else S(("awaited", inner))
            if o.kind == "gather":
                outs = []
                for x in o.extra:
                    outs.append(self.await_value(x))
                return self.mklist(outs)
            if o.kind == "ready":
                return o.extra
            if isinstance(o.cls, ClassV):
                m = self.class_lookup(o.cls, "__await__")
                if isinstance(m, FuncV) and self.sched is not None:
                    g = self.call_func(m, [v], {})
                    if isinstance(g, R) and self.o(g).kind == "gen":
                        while True:
                            more, x = self.gen_next(g)
                            if not more:
                                return x
                            self.sched.yield_()
                    return self.await_value(g)
                if m is not None:
                    self.suspend(v)
                    return S(("awaited", v, self.uid()))
            self.ev("await", "await", v)
            self.await_outcomes(v, "await", [])
            self.suspend(v)
            return S(("awaited", v, self.uid()))
        if isinstance(v, K):
            self.throw(TypeError, "object %r can't be awaited" % (v,))
        self.ev("await", "await", v)
        self.await_outcomes(v, "await", [])
        if self.sched is not None:
            self.sched.yield_()
            return S(("awaited", v))
        self.suspend(v)
        return S(("awaited", v))

    def await_outcomes(self, v, kind, default):
        opts = list(default)
        if self.cfg.await_raises is not None:
            opts = list(self.cfg.await_raises(self, v, kind, default))
        if opts:
            c = self.choose(len(opts) + 1, "await outcome")
            if c:
                self.suspend(v)
                self.ev("await_raise", opts[c - 1].__name__, v if isinstance(v, V) else None)
                self.throw(opts[c - 1], "injected")

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise AnalysisLimit("step budget at %s" % self.loc())
        t = type(e)
        m = self.disp_e.get(t)
        if m is None:
            m = self.disp_e[t] = getattr(self, "e_" + t.__name__, None)
        if self.frames:
            self.frames[-1].line = e.lineno if hasattr(e, "lineno") else self.frames[-1].line
        if m is None:
            raise AnalysisError("unsupported expression %s at %s" % (type(e).__name__, self.loc()))
        return m(e)

    def e_Constant(self, e):
        return K(e.value)

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_Attribute(self, e):
        v = self.eval(e.value)
        self.frames[-1].line = e.lineno
        return self.getattr(v, self.mangle(e.attr))

    def e_Tuple(self, e):
        return T(self.eval_elts(e.elts))

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                seq = self.iter_elems(v)
                if seq is None:
                    raise AnalysisError("splat of unknown sequence at %s" % self.loc())
                out.extend(seq[0])
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        out = []
        open_ = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                seq = self.iter_elems(v)
                if seq is None:
                    open_ = ("splat", v)
                else:
                    out.extend(seq[0])
            else:
                out.append(self.eval(x))
        return self.mklist(out, open_=open_)

    def e_Set(self, e):
        r = self.alloc("set")
        o = self.w(r)
        for v in self.eval_elts(e.elts):
            o.items[self.keyof(v)] = (v, NONE)
        return r

    def e_Dict(self, e):
        r = self.alloc("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v)
                if isinstance(src, R) and self.o(src).kind == "dict":
                    so = self.sync(src)
                    o = self.w(r)
                    o.items.update(so.items)
                    if so.open is not None:
                        o.open = ("copy", so.open)
                else:
                    self.w(r).open = ("copy", src)
                continue
            kv = self.eval(k)
            vv = self.eval(v)
            self.w(r).items[self.keyof(kv)] = (kv, vv)
        return r

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        fr = self.frames[-1]
        while fr.func is None and fr.parent is not None and not fr.isclass:
            fr = fr.parent
        fr.env[e.target.id] = v
        self.frames[-1].env[e.target.id] = v
        return v

    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not self.is_pred(v) else FALSE
            if isinstance(e.op, ast.Or) and t:
                return v if not self.is_pred(v) else TRUE
        return v

    @staticmethod
    def is_pred(v):
        return isinstance(v, S) and isinstance(v.term, tuple) and v.term and v.term[0] in ("pred", "not")

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, S):
                return S(("not", v), "bool")
            return K(not self.truth(v))
        u = self.unwrap_int(v)
        if isinstance(u, EN) and isinstance(u.val, int):
            u = K(u.val)
        if isinstance(u, K) and isinstance(u.v, (int, float)):
            if isinstance(e.op, ast.USub):
                return K(-u.v)
            if isinstance(e.op, ast.UAdd):
                return K(+u.v)
            return K(~u.v)
        if isinstance(u, K):
            self.throw(TypeError, "unary")
        if isinstance(v, R) and isinstance(self.o(v).cls, ClassV):
            m = self.class_lookup(self.o(v).cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(e.op).__name__])
            if isinstance(m, FuncV):
                return self.call_func(m, [v], {})
        if isinstance(u, EN) and isinstance(u.val, int) and isinstance(e.op, ast.Invert) and "Flag" in (u.cls.enum_kind or ""):
            mask = 0
            for x in u.cls.members.values():
                mask |= x.val
            return self.construct(u.cls, [K(mask & ~u.val)], {})
        return S(("un", type(e.op).__name__, u), "int")

    OPS = {
        ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@",
    }

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        self.frames[-1].line = e.lineno
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        from .models import binop

        return binop(self, self.OPS[type(op)], a, b)

    CMP = {
        ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
    }

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r)
            res = self.compare(self.CMP[type(op)], left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return FALSE if self.is_pred(res) else res
            left = right
        return res

    def neg(self, v):
        if isinstance(v, K):
            return K(not v.v)
        return S(("not", v), "bool")

    def pred(self, p):
        k = self.known(p)
        if k is not None:
            return K(k)
        return S(("pred", p), "bool")

    def is_(self, a, b):
        if a == b:
            return TRUE
        if isinstance(a, K) and not isinstance(b, K):
            a, b = b, a
        if isinstance(b, K) and b.v is None:
            if isinstance(a, S):
                return self.pred(("none", a))
            return FALSE
        if isinstance(b, K) and isinstance(b.v, bool):
            if isinstance(a, S):
                if self.is_pred(a) or a.ty == "bool":
                    return a if b.v else self.neg(a)
                # x is True: for a value of unknown type identity with the constant
                return self.pred(("is", a, b))
            if isinstance(a, K):
                return FALSE
            return FALSE
        if isinstance(a, K) and isinstance(b, K):
            return K(a.v is b.v or a == b)
        if isinstance(a, S) or isinstance(b, S):
            return self.pred(("eq", a, b))
        return FALSE

    def compare(self, op, a, b):
        if op == "is":
            return self.is_(a, b)
        if op == "is not":
            return self.neg(self.is_(a, b))
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            return self.neg(self.contains(b, a))
        if op == "!=":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, R):
                    o = self.o(x)
                    m = self.class_lookup(o.cls, "__ne__") if isinstance(o.cls, ClassV) else None
                    if isinstance(m, FuncV):
                        r = self.call_func(m, [x, y], {})
                        if not self.notimpl(r):
                            return r
            return self.neg(self.compare("==", a, b))
        if op in ("<=", ">=") and all(isinstance(x, R) and self.o(x).kind == "set" for x in (a, b)):
            x, y = (a, b) if op == "<=" else (b, a)
            ks = self.known_seq(x)
            if ks is not None:
                return K(all(self.truth(self.contains(y, k)) for k in ks))
        if op in ("<", "<=", ">", ">="):
            nm, rn = {"<": ("__lt__", "__gt__"), ">": ("__gt__", "__lt__"), "<=": ("__le__", "__ge__"), ">=": ("__ge__", "__le__")}[op]
            for x, y, n in ((a, b, nm), (b, a, rn)):
                if isinstance(x, R):
                    o = self.o(x)
                    m = self.class_lookup(o.cls, n) if isinstance(o.cls, ClassV) else None
                    if isinstance(m, FuncV):
                        r = self.call_func(m, [x, y], {})
                        if not self.notimpl(r):
                            return r
        if op == ">":
            return self.compare("<", b, a)
        if op == ">=":
            return self.neg(self.compare("<", a, b))
        if op == "<=":
            return self.neg(self.compare("<", b, a))
        if op == "==":
            return self.eq(a, b)
        a0, b0 = self.unwrap_int(a), self.unwrap_int(b)
        av, bv = self.pyval(a0), self.pyval(b0)
        if av is not None and bv is not None:
            try:
                return K(av[0] < bv[0])
            except TypeError:
                self.throw(TypeError, "'<' not supported")
        if isinstance(a0, K) and a0.v is None or isinstance(b0, K) and b0.v is None:
            self.throw(TypeError, "'<' not supported with None")
        sa, sb = [self.known_seq(x) if isinstance(x, T) or isinstance(x, R) and self.o(x).kind == "list" else None for x in (a0, b0)]
        if sa is not None and sb is not None:
            for x, y in zip(sa, sb):
                if not self.truth(self.eq(x, y)):
                    return self.compare("<", x, y)
            return K(len(sa) < len(sb))
        if isinstance(a0, R) and isinstance(b0, R) and self.o(a0).kind == "set" and self.o(b0).kind == "set":
            sa, sb = self.known_seq(a0), self.known_seq(b0)
            if sa is not None and sb is not None:
                return K(len(sa) < len(sb) and all(self.truth(self.contains(b0, x)) for x in sa))
        i6 = [x.term[1] if isinstance(x, S) and isinstance(x.term, tuple) and x.term[:1] == ("ipv6",) else None for x in (a0, b0)]
        if all(isinstance(x, K) for x in i6):
            return K(i6[0].v < i6[1].v)
        if isinstance(a0, BV) and isinstance(b0, K) and isinstance(b0.v, int):
            if b0.v > (1 << len(a0.bits)) - 1:
                return TRUE
            if b0.v <= 0:
                return FALSE
        if isinstance(a0, K) and isinstance(b0, BV) and isinstance(a0.v, int):
            if a0.v >= (1 << len(b0.bits)) - 1:
                return FALSE
            if a0.v < 0:
                return TRUE
            if a0.v == 0:
                return self.bv_nonzero(b0)
        if isinstance(a0, EN):
            a0 = K(a0.val)
        if isinstance(b0, EN):
            b0 = K(b0.val)
        return self.pred(("lt", a0, b0))

    @staticmethod
    def notimpl(r):
        return r == E("NotImplemented") or isinstance(r, S) and r.term == ("py", "NotImplemented") or isinstance(r, K) and r.v is NotImplemented

    def is_exc(self, v):
        if not isinstance(v, R):
            return False
        cls = self.o(v).cls
        if isinstance(cls, BC):
            return isinstance(cls.t, type) and issubclass(cls.t, BaseException)
        return isinstance(cls, ClassV) and any(isinstance(b, BC) and issubclass(b.t, BaseException) for b in cls.mro)

    def bv_nonzero(self, b):
        if any(x == 1 for x in b.bits):
            return TRUE
        if not b.bits:
            return FALSE
        return S(("pred", ("nz", b.bits)), "bool")

    def pyval(self, v):
        if isinstance(v, K):
            return (v.v,)
        if isinstance(v, EN) and not isinstance(v.val, V):
            if v.intlike:
                return (v.val,)
        return None

    def eq(self, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, R):
                o = self.o(x)
                m = self.class_lookup(o.cls, "__eq__") if isinstance(o.cls, ClassV) else None
                if isinstance(m, FuncV) and not (self.is_message(o.cls) and not self.cfg.raw_mixin):
                    r = self.call_func(m, [x, y], {})
                    if not self.notimpl(r):
                        return r
        if a == b:
            return TRUE
        a0, b0 = self.unwrap_int(a), self.unwrap_int(b)
        if a0 == b0:
            return TRUE
        i6 = [isinstance(x, S) and isinstance(x.term, tuple) and x.term[:1] == ("ipv6",) for x in (a0, b0)]
        if all(i6):
            return self.eq(a0.term[1], b0.term[1])
        if any(i6) and isinstance(a0, (K, EN, T, BS, BV)) + isinstance(b0, (K, EN, T, BS, BV)):
            return FALSE
        if isinstance(a0, (T, BS)) and isinstance(b0, (T, BS)) and type(a0) is type(b0):
            if len(a0.items) != len(b0.items):
                return FALSE
            for x, y in zip(a0.items, b0.items):
                if not self.truth(self.eq(x, y)):
                    return FALSE
            return TRUE
        if isinstance(a0, EN) and isinstance(b0, EN):
            if a0.cls is b0.cls:
                return K(a0.val == b0.val)
            if not (a0.intlike and b0.intlike):
                return FALSE
        av, bv = self.pyval(a0), self.pyval(b0)
        if av is not None and bv is not None:
            return K(av[0] == bv[0])
        if isinstance(a0, BV) or isinstance(b0, BV):
            x, y = (a0, b0) if isinstance(a0, BV) else (b0, a0)
            yv = self.pyval(y)
            if yv is not None and isinstance(yv[0], int):
                c = int(yv[0])
                if c < 0 or c >= (1 << max(len(x.bits), 1)) and len(x.bits) < c.bit_length():
                    return FALSE
                if c == 0:
                    return self.neg(self.bv_nonzero(x))
                if all(t in (0, 1) for t in x.bits):
                    return K(sum(t << i for i, t in enumerate(x.bits)) == c)
                return S(("pred", ("bveq", x.bits, c)), "bool")
            if isinstance(y, BV):
                return S(("pred", ("bveq2", x.bits, y.bits)), "bool")
            if yv is not None:
                return FALSE
        if isinstance(a0, (K, EN)) and isinstance(b0, (K, EN)):
            return FALSE
        if isinstance(a0, S) or isinstance(b0, S):
            other = b0 if isinstance(a0, S) else a0
            s = a0 if isinstance(a0, S) else b0
            if isinstance(other, K) and other.v is None:
                return self.pred(("none", s))
            if isinstance(other, R):
                oo = self.o(other)
                if oo.kind == "inst" and oo.payload is None and isinstance(s.term, tuple) and s.term and s.term[0] in ("new",):
                    return FALSE
                return self.pred(("eq", s, other))
            if isinstance(other, (K, EN)) and isinstance(s.ty, str) and s.ty in ("int", "str", "bytes"):
                k = self.pyval(other)
                if k is not None:
                    pt = type(k[0])
                    if s.ty == "int" and pt not in (int, bool, float) or s.ty in ("str", "bytes") and pt.__name__ != s.ty:
                        return FALSE
            return self.pred(("eq", s, other))
        if isinstance(a0, R) and isinstance(b0, R):
            oa, ob = self.o(a0), self.o(b0)
            if oa.kind in CONTAINER and ob.kind == oa.kind:
                sa, sb = self.known_seq(a0), self.known_seq(b0)
                if sa is not None and sb is not None and oa.kind == "list":
                    return self.eq(T(sa), T(sb))
                if sa is not None and sb is not None and len(sa) != len(sb):
                    return FALSE
                if sa is not None and sb is not None and not sa:
                    return TRUE
                if sa is not None and sb is not None and self.sched is not None:
                    for x in sa:
                        if not self.truth(self.contains(b0, x)):
                            return FALSE
                        if oa.kind == "dict" and not self.truth(self.eq(self.dict_value(a0, x), self.dict_value(b0, x))):
                            return FALSE
                    return TRUE
                return self.pred(("eq", S(("obj", oa.prov)), S(("obj", ob.prov))))
            if oa.lazy and ob.lazy and oa.cls is ob.cls:
                return self.pred(("eq", S(("obj", oa.prov)), S(("obj", ob.prov))))
            return FALSE
        return FALSE

    def contains(self, cont, x):
        if isinstance(cont, R):
            o = self.o(cont)
            if o.kind == "view":
                base, what = o.extra
                if what == "keys":
                    return self.contains(base, x)
                if what == "values":
                    for _a, b in self.sync(base).items.values():
                        if self.truth(self.eq(b, x)):
                            return TRUE
                    if self.sync(base).open is None:
                        return FALSE
                    return self.pred(("inval", x, self.ckey(base)))
            if o.kind in CONTAINER:
                m = self.class_lookup(o.cls, "__contains__") if isinstance(o.cls, ClassV) else None
                if isinstance(m, FuncV):
                    return self.call_func(m, [cont, x], {})
                o = self.sync(cont)
                if o.kind == "list":
                    for y in o.items:
                        if self.truth(self.eq(x, y)):
                            return TRUE
                    if o.open is None:
                        return FALSE
                    return self.pred(("in", self.unwrap_int(x), self.ckey(cont)))
                k = self.keyof(x)
                if k in o.items:
                    return TRUE
                if k in o.absent:
                    return FALSE
                for kk, (a, _b) in o.items.items():
                    if isinstance(a, S) or isinstance(self.unwrap_int(x), S):
                        if self.truth(self.eq(a, x)):
                            return TRUE
                if o.open is None:
                    return FALSE
                return self.pred(("in", self.unwrap_int(x), self.ckey(cont)))
            if isinstance(o.cls, ClassV):
                m = self.class_lookup(o.cls, "__contains__")
                if isinstance(m, FuncV):
                    return self.call_func(m, [cont, x], {})
            step = self.stepper(cont) if self.sched is not None and (o.kind in ("gen", "iter") or isinstance(o.cls, ClassV) and (self.lazy(cont) or isinstance(self.class_lookup(o.cls, "__iter__"), FuncV))) else None
            if step is not None:
                while True:
                    y = step()
                    if y is None:
                        return FALSE
                    if self.truth(self.eq(x, y)):
                        return TRUE
            return self.pred(("in", self.unwrap_int(x), cont))
        seq = self.known_seq(cont)
        if seq is not None:
            if isinstance(cont, K) and isinstance(x, K):
                try:
                    return K(x.v in cont.v)
                except TypeError:
                    self.throw(TypeError, "in")
            if isinstance(cont, K):
                return self.pred(("in", self.unwrap_int(x), cont))
            for y in seq:
                if self.truth(self.eq(x, y)):
                    return TRUE
            return FALSE
        if isinstance(cont, K):
            self.throw(TypeError, "argument of type %s is not iterable" % type(cont.v).__name__)
        if isinstance(cont, S) and isinstance(cont.term, tuple) and cont.term and cont.term[0] in ("list", "set", "keys", "tuple", "sorted", "iter"):
            if isinstance(cont.term[1], V):
                return self.contains(cont.term[1], x)
        if isinstance(cont, EN) and isinstance(cont.val, int) and "Flag" in (cont.cls.enum_kind or ""):
            xv = self.pyval(self.unwrap_int(x))
            if xv is not None and isinstance(xv[0], int):
                return K(xv[0] & cont.val == xv[0])
        if isinstance(cont, ClassV) and cont.enum_kind:
            xv = self.pyval(self.unwrap_int(x))
            if xv is not None and all(not isinstance(m.val, V) for m in cont.members.values()):
                return K(any(m.val == xv[0] for m in cont.members.values()))
            return self.pred(("validenum", self.unwrap_int(x), cont))
        return self.pred(("in", self.unwrap_int(x), cont))

    def abc_instance(self, v, name):
        v = self.unwrap_int(v)
        t = None
        if isinstance(v, K):
            t = type(v.v)
        elif isinstance(v, T):
            t = tuple
        elif isinstance(v, BS):
            t = bytes
        elif isinstance(v, BV):
            t = int
        elif isinstance(v, EN) and v.intlike:
            t = int
        elif isinstance(v, (FuncV, BM, BI)):
            return name in ("Callable", "Hashable")
        elif isinstance(v, (ClassV, BC)):
            return name in ("Callable", "Hashable")
        elif isinstance(v, R):
            o = self.o(v)
            if o.kind in CONTAINER:
                t = {"list": bytearray if o.extra == "bytearray" else list, "dict": dict, "set": set}[o.kind]
            elif o.kind == "gen":
                return name in ("Iterable", "Iterator", "Generator", "Hashable")
            elif o.kind == "iter":
                return name in ("Iterable", "Iterator", "Hashable")
            elif o.kind == "coro":
                return name in ("Awaitable", "Coroutine", "Hashable")
            elif o.kind == "aio":
                return name in ("Hashable",) or name == "Awaitable" and hasattr(o.extra, "await_")
            elif isinstance(o.cls, ClassV):
                meth = {"Iterable": "__iter__", "Iterator": "__next__", "Callable": "__call__", "Awaitable": "__await__", "Sized": "__len__", "Container": "__contains__", "AsyncIterable": "__aiter__", "AsyncIterator": "__anext__"}.get(name)
                if any(isinstance(b, E) and b.name.split(".")[-1] == name for b in o.cls.mro):
                    return True
                return meth is not None and isinstance(self.class_lookup(o.cls, meth), FuncV)
        if t is None:
            return None
        import collections.abc
        import numbers
        a = getattr(collections.abc, name, None) or getattr(numbers, name, None)
        return issubclass(t, a) if a is not None else None

    def isinstance_(self, v, c):
        if isinstance(v, S) and isinstance(v.term, tuple) and v.term and v.term[0] == "ipv6" and not isinstance(c, (T, R)):
            return K(isinstance(c, E) and c.name == "ipaddress.IPv6Address" or isinstance(c, BC) and c.t is object)
        if isinstance(c, R) and self.o(c).kind == "union":
            c = T(self.o(c).extra)
        if isinstance(c, T):
            for x in c.items:
                if self.truth(self.isinstance_(v, x)):
                    return TRUE
            return FALSE
        if isinstance(c, E) and c.name.split(".")[-1] in ABCS and c.name.startswith(("collections.abc.", "numbers.", "typing.")):
            r = self.abc_instance(v, c.name.split(".")[-1])
            if r is not None:
                return K(r)
        if isinstance(c, K) and c.v is None:
            return K(isinstance(v, K) and v.v is None)
        if isinstance(v, (FuncV, BM, BI)) and isinstance(c, E) and c.name.startswith("types."):
            return K({"types.FunctionType": isinstance(v, FuncV), "types.MethodType": isinstance(v, BM)}.get(c.name, False))
        if isinstance(v, K):
            return K(isinstance(v.v, c.t)) if isinstance(c, BC) else FALSE
        if isinstance(v, TN) and isinstance(c, ClassV):
            return K(c in v.cls.mro)
        if isinstance(v, T):
            return K(isinstance(c, BC) and c.t in (tuple, object))
        if isinstance(v, BS):
            return K(isinstance(c, BC) and c.t in (bytes, object))
        if isinstance(v, BV):
            return K(isinstance(c, BC) and c.t in (int, object))
        if isinstance(v, EN):
            return K(self.subclass(v.cls, c))
        if isinstance(v, R):
            o = self.o(v)
            k = o.cls
            if k is None:
                k = BC({"dict": dict, "list": list, "set": set}.get(o.kind, object))
                if o.extra == "bytearray":
                    k = BC(bytearray)
            if isinstance(c, (ClassV, BC)):
                return K(self.subclass(k, c))
            if isinstance(c, E):
                if isinstance(k, ClassV) and c in k.mro:
                    return TRUE
                return FALSE
        if isinstance(v, (FuncV, BM, BI)):
            return FALSE
        if isinstance(v, ClassV):
            return K(c == BC(type) or c == BC(object))
        if isinstance(v, S):
            if isinstance(v.term, tuple) and v.term and v.term[0] == "fmt":
                return K(c == BC(str))
            if isinstance(v.term, tuple) and v.term and v.term[0] == "wrap":
                pass
            return self.pred(("isinst", v, c))
        return self.pred(("isinst", S(("val", repr(v))), c))

    # ---- subscripts
    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return S(("slice", self.eval(s.lower) if s.lower else NONE, self.eval(s.upper) if s.upper else NONE,
                      self.eval(s.step) if s.step else NONE))
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            raise AnalysisError("extended slice")
        return self.eval(s)

    def e_Subscript(self, e):
        v = self.eval(e.value)
        k = self.eval_index(e.slice)
        self.frames[-1].line = e.lineno
        return self.getitem(v, k)

    def e_Slice(self, e):
        return self.eval_index(e)

    def getitem(self, v, k):
        from .models import getitem

        return getitem(self, v, k)

    def setitem(self, v, k, val):
        from .models import setitem

        return setitem(self, v, k, val)

    def delitem(self, v, k):
        from .models import delitem

        return delitem(self, v, k)

    def dict_value(self, d, k):
        """Value stored under a key known to be present."""
        o = self.sync(d)
        kk = self.keyof(k)
        if kk in o.items:
            return o.items[kk][1]
        v = self.fresh_item(d, k)
        w = self.w(d)
        w.items[kk] = (k, v)
        return v

    def rep_dict_item(self, d, k):
        w = self.w(d)
        kk = self.keyof(k)
        if kk not in w.items:
            w.items[kk] = (k, self.fresh_item(d, k))

    def fresh_item(self, d, k):
        o = self.o(d)
        prov = self.ckey(d)[1]
        name = None
        if isinstance(prov, tuple) and len(prov) >= 3 and isinstance(prov[-1], str):
            name = prov[-1]
        if isinstance(prov, tuple) and prov and prov[0] == "attrobj":
            name = prov[2]
        kind = self.item_kinds().get(name) if name else None
        if kind:
            r = self.alloc(kind, None, ("item", prov, o.epoch if o.shared else 0, o.ver, k))
            w = self.w(r)
            w.open = ("cont", w.prov, self.epoch)
            w.shared = True
            w.epoch = self.epoch
            return r
        return S(("item", self.ckey(d), self.unwrap_int(k)))

    # ---- comprehension
    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_GeneratorExp(self, e):
        if self.sched is not None and not any(g.is_async for g in e.generators):
            return self.lazy_comp(e)
        return self.comp(e, "list", gen=True)

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    def lazy_comp(self, e):
        fr = self.frames[-1]
        first = self.eval(e.generators[0].iter)
        stack = list(self.call_stack)

        def run(hook):
            sub = Frame(None, {}, fr.module, fr if fr.env is not fr.module.attrs else None, fr.cls)
            sub.line = e.lineno
            sub.func = fr.func if fr.func is not None else None

            def level(i):
                if i == len(e.generators):
                    hook(self.eval(e.elt))
                    return
                g = e.generators[i]
                it = first if i == 0 else self.eval(g.iter)

                def body(x):
                    self.assign(g.target, x)
                    for c in g.ifs:
                        if not self.truth(self.eval(c)):
                            return
                    level(i + 1)

                self.iterate(it, body, [], e)

            self.frames.append(sub)
            depth = len(self.frames)
            old, self.call_stack = self.call_stack, stack
            try:
                level(0)
            finally:
                del self.frames[depth - 1 :]
                self.call_stack = old
            return NONE

        return self.mkgen(run)

    def comp(self, e, kind, gen=False):
        r = self.alloc(kind)
        fr = self.frames[-1]
        sub = Frame(None, {}, fr.module, fr if fr.env is not fr.module.attrs else None, fr.cls)
        sub.line = e.lineno
        info = {"rep": False}

        def run(i):
            if i == len(e.generators):
                if kind == "dict":
                    k = self.eval(e.key)
                    v = self.eval(e.value)
                    self.w(r).items[self.keyof(k)] = (k, v)
                else:
                    v = self.eval(e.elt)
                    if kind == "list":
                        self.w(r).items.append(v)
                    else:
                        self.w(r).items[self.keyof(v)] = (v, NONE)
                return
            g = e.generators[i]
            if i == 0:
                self.frames.pop()
                try:
                    it = self.eval(g.iter)
                finally:
                    self.frames.append(sub)
            else:
                it = self.eval(g.iter)

            def body(x):
                self.assign(g.target, x)
                for c in g.ifs:
                    if not self.truth(self.eval(c)):
                        return
                run(i + 1)

            if g.is_async:
                it = self.aiter(it)
                if self.has_anext(it):
                    self.async_steps(it, body)
                    return
            seq = self.iter_elems(it)
            unknown = seq is None and not (isinstance(it, R) and self.o(it).kind == "gen")
            rep = unknown or (seq is not None and seq[1] is not None and self.o(seq[1]).rep)
            if rep:
                info["rep"] = True
            self.iterate(it, body, [], e, bool(g.is_async))

        self.frames.append(sub)
        depth = len(self.frames)
        try:
            run(0)
        finally:
            del self.frames[depth - 1 :]
        w = self.w(r)
        w.rep = info["rep"] and bool(w.items)
        if gen and e.generators:
            w.extra = "genexp"
        return r

    # ---- others
    def e_Lambda(self, e):
        return self.make_func(e)

    def e_Await(self, e):
        return self.await_value(self.eval(e.value))

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        fr = self.frames[-1]
        if fr.hook is None:
            raise AnalysisError("yield outside an analysed generator at %s" % self.loc())
        return fr.hook(v)

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        fr = self.frames[-1]
        hook = fr.hook
        if isinstance(v, R) and isinstance(self.o(v).cls, ClassV) and isinstance(self.class_lookup(self.o(v).cls, "__iter__"), FuncV) and self.o(v).kind == "inst":
            v = self.call(self.getattr(v, "__iter__"), [], {})
        if isinstance(v, R) and self.o(v).kind == "gen" and self.sched is not None:
            msg = ("send", NONE)
            while True:
                more, x = self.gen_next(v, msg)
                if not more:
                    return x
                try:
                    msg = ("send", hook(x))
                except AbsRaise as exc:
                    if self.exc_matches(exc.exc, BC(GeneratorExit)):
                        self.gen_close(v)
                        raise
                    msg = ("throw", exc.exc)
        if isinstance(v, R) and self.o(v).kind == "gen" and self.o(v).extra[0] is not None:
            func, args, kw = self.o(v).extra
            self.w(v).extra = (None, None, None)
            res = self.run_gen(func, args, kw, hook)
            return res if isinstance(res, V) else NONE

        def body(x):
            hook(x)

        self.iterate(v, body, [], e)
        return NONE

    def e_JoinedStr(self, e):
        from .models import fmt_concat, fmt_value

        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.eval(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec)
                parts.append(fmt_value(self, x, spec, v.conversion))
        return fmt_concat(self, parts)

    def e_FormattedValue(self, e):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]))

    def e_Call(self, e):
        f = e.func
        # super() needs the frame
        if isinstance(f, ast.Name) and f.id == "super":
            return self.make_super(e)
        fv = self.eval(f)
        args = []
        kw = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                seq = self.iter_elems(v)
                if seq is None:
                    if isinstance(fv, E) and fv.name == "asyncio.gather":
                        args.append(S(("splat", v)))
                        continue
                    args.append(S(("splat", v)))
                    continue
                args.extend(seq[0])
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, R) and self.o(v).kind == "dict":
                    o = self.sync(v)
                    for _kk, (a, b) in o.items.items():
                        if isinstance(a, K):
                            kw[a.v] = b
                    if o.open is not None:
                        kw["**"] = S(("kwargs", o.open))
                elif isinstance(v, S):
                    kw["**"] = v
                continue
            kw[k.arg] = self.eval(k.value)
        self.frames[-1].line = e.lineno
        if "**" in kw and not isinstance(fv, (FuncV, BM, ClassV, S, R)):
            kw.pop("**")
        return self.call(fv, args, kw, e)

    def make_super(self, e):
        fr = self.frames[-1]
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.parent
        if f is None:
            raise AnalysisError("super() outside a method at %s" % self.loc())
        if e.args:
            cls = self.eval(e.args[0])
            selfv = self.eval(e.args[1])
        else:
            cls = f.func.cls
            selfv = f.env[f.func.node.args.args[0].arg]
        r = self.alloc("super")
        self.w(r).extra = (cls, selfv)
        return SuperV(cls, selfv)


class _EndlessLoop(Infeasible):
    pass


class SuperV(V):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_

    def __repr__(self):
        return "super(%r)" % (self.cls,)


def _super_getattr(ip, s, name):
    if isinstance(s.self, R):
        actual = ip.o(s.self).cls
    elif isinstance(s.self, ClassV):
        actual = s.self
    else:
        actual = s.cls
    mro = actual.mro if isinstance(actual, ClassV) else s.cls.mro
    i = mro.index(s.cls) if s.cls in mro else 0
    for b in mro[i + 1 :]:
        if isinstance(b, ClassV) and name in b.attrs:
            a = b.attrs[name]
            if name == "__init__" and not ip.cfg.raw_mixin and b is ip.mixin_class():
                def init(ip2, args, kw, r=s.self, a=a):
                    ip2.mixin_init(r, kw, a)
                    return NONE

                r = ip.alloc("pycall")
                ip.w(r).extra = init
                return r
            if not ip.cfg.raw_mixin and b is ip.mixin_class() and name == "__setattr__":
                def sa(ip2, args, kw, r=s.self):
                    ip2.rawset(r, args[0].v, args[1])
                    return NONE

                r = ip.alloc("pycall")
                ip.w(r).extra = sa
                return r
            return ip.bind_attr(a, s.self, actual)
        if isinstance(b, BC) and (b.t is object or hasattr(b.t, name)):
            if b.t is object:
                for e in mro[i + 1 :]:
                    if isinstance(e, E):
                        return BI("extsuper." + name, s.self)
            return BI("%s.%s" % (b.t.__name__ if b.t is not object else "object", name), ("super", s.self) and s.self)
        if isinstance(b, E):
            return BI("extsuper." + name, s.self)
    return BI("object." + name, s.self)


_orig_getattr = Interp.getattr


def _getattr(self, v, name):
    if isinstance(v, SuperV):
        return _super_getattr(self, v, name)
    return _orig_getattr(self, v, name)


Interp.getattr = _getattr


class Path:
    """One abstract path of an entry: facts, events and how it ended."""

    def __init__(self, ip, outcome):
        self.ip_overlay = ip.overlay
        self.facts = dict(ip.facts)
        self.iv = dict(ip.iv)
        self.events = list(ip.events)
        self.outcome = outcome
        self.taken = list(ip.taken)
        self.base = ip.base
        self.epoch = ip.epoch
        self.sattr = dict(ip.sattr)

    def o(self, r):
        x = self.ip_overlay.get(r.oid)
        return x if x is not None else self.base[r.oid]

    @property
    def returned(self):
        return self.outcome[0] == "ret"

    @property
    def value(self):
        return self.outcome[1]

    def exc_name(self):
        if self.outcome[0] != "exc":
            return None
        c = self.o(self.outcome[1]).cls if isinstance(self.outcome[1], R) else None
        if isinstance(c, BC):
            return c.t.__name__
        if isinstance(c, ClassV):
            return c.name
        return repr(c)

    def calls(self, name=None, recv=None):
        return [e for e in self.events if e.kind in ("call", "ext") and (name is None or e.name == name) and (recv is None or e.recv == recv)]

    def describe(self, n=12):
        fs = "; ".join("%s%s" % ("" if v else "not ", show(p)) for p, v in list(self.facts.items())[:n])
        return fs
