"""Abstract values of the interpreter.

K    known constant                     T    tuple of abstract values
S    value known only by provenance     R    reference to an abstract heap object
E    name in a module we do not analyse  EN   member of an analysed enum class
BC   built-in class                      BI   built-in function / method
BM   bound method                        BV   bit vector with per-bit provenance
BS   byte string of known length         plus FuncV / ClassV / ModuleV (program entities)
"""


class V:
    __slots__ = ()


class K(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return repr(self.v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


class T(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, T) and self.items == o.items

    def __hash__(self):
        return hash(("T", self.items))

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ",)"


class TN(T):
    """A named tuple."""

    __slots__ = ("cls", "names")

    def __init__(self, items, cls, names):
        self.items = tuple(items)
        self.cls = cls
        self.names = names

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join("%s=%r" % x for x in zip(self.names, self.items)))


class R(V):
    __slots__ = ("oid", "hint")

    def __init__(self, oid, hint=""):
        self.oid = oid
        self.hint = hint

    def __eq__(self, o):
        return isinstance(o, R) and self.oid == o.oid

    def __hash__(self):
        return hash(("R", self.oid))

    def __repr__(self):
        return "<%s#%s>" % (self.hint, self.oid)


class S(V):
    """A value known only by where it came from."""

    __slots__ = ("term", "ty", "_h")

    def __init__(self, term, ty=None):
        self.term = term
        self.ty = ty
        self._h = hash(("S", term))

    def __eq__(self, o):
        return isinstance(o, S) and self._h == o._h and self.term == o.term

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self.term)


def show(t):
    if isinstance(t, V):
        return repr(t)
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        h = t[0]
        if h == "in" and len(t) == 2:
            return str(t[1])
        if h in ("attr", "field") and len(t) == 3:
            return "%s.%s" % (show(t[1]), t[2])
        if h == "v" and len(t) >= 4:
            return "%s.%s@%s" % (show(t[1]), t[2], t[3])
        return "%s(%s)" % (h, ", ".join(show(x) for x in t[1:]))
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x) for x in t) + ")"
    return str(t)


class E(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, E) and self.name == o.name

    def __hash__(self):
        return hash(("E", self.name))

    def __repr__(self):
        return "ext:" + self.name


class EN(V):
    __slots__ = ("cls", "name", "val")

    def __init__(self, cls, name, val):
        self.cls = cls
        self.name = name
        self.val = val

    @property
    def intlike(self):
        return self.cls.enum_kind in ("IntEnum", "IntFlag")

    def __eq__(self, o):
        return isinstance(o, EN) and self.cls is o.cls and self.val == o.val

    def __hash__(self):
        return hash(("EN", id(self.cls), self.val))

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class BC(V):
    """Built-in class (wraps the analyser's own type object; only used for its identity and MRO)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, BC) and self.t is o.t

    def __hash__(self):
        return hash(("BC", self.t))

    def __repr__(self):
        return self.t.__name__


class BI(V):
    __slots__ = ("name", "self")

    def __init__(self, name, self_=None):
        self.name = name
        self.self = self_

    def __eq__(self, o):
        return isinstance(o, BI) and self.name == o.name and self.self == o.self

    def __hash__(self):
        return hash(("BI", self.name, self.self))

    def __repr__(self):
        return "builtin:%s(%r)" % (self.name, self.self)


class BM(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __eq__(self, o):
        return isinstance(o, BM) and self.func == o.func and self.self == o.self

    def __hash__(self):
        return hash(("BM", self.func, self.self))

    def __repr__(self):
        return "%r.%r" % (self.self, self.func)


class BV(V):
    """Non-negative integer as a little-endian list of bits.  A bit is 0, 1 or a provenance token."""

    __slots__ = ("bits",)

    def __init__(self, bits):
        b = list(bits)
        while b and b[-1] == 0:
            b.pop()
        self.bits = tuple(b)

    def __eq__(self, o):
        return isinstance(o, BV) and self.bits == o.bits

    def __hash__(self):
        return hash(("BV", self.bits))

    def __repr__(self):
        return "bits[" + " ".join(str(x) for x in reversed(self.bits)) + "]"


class BS(V):
    """Byte string of known length whose items are K or BV."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, BS) and self.items == o.items

    def __hash__(self):
        return hash(("BS", self.items))

    def __repr__(self):
        return "bytes" + repr(list(self.items))


class FuncV(V):
    __slots__ = (
        "node", "module", "closure", "qualname", "defaults", "kwdefaults",
        "cls", "is_async", "is_gen", "ctxmgr", "actx", "name", "attrs", "synthetic", "body_names",
    )

    def __init__(self, node, module, closure, qualname, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.qualname = qualname
        self.cls = cls
        self.defaults = []
        self.kwdefaults = {}
        self.is_async = False
        self.is_gen = False
        self.ctxmgr = False
        self.actx = False
        self.name = getattr(node, "name", "<lambda>")
        self.attrs = {}
        self.synthetic = None
        self.body_names = None

    def __repr__(self):
        return "func:" + self.qualname


class ClassV(V):
    __slots__ = ("name", "qualname", "module", "bases", "attrs", "mro", "enum_kind", "node", "members", "closure", "ann", "fields", "ntuple", "opts")

    def __init__(self, name, qualname, module, bases):
        self.name = name
        self.qualname = qualname
        self.module = module
        self.bases = bases
        self.attrs = {}
        self.mro = None
        self.enum_kind = None
        self.node = None
        self.members = {}
        self.closure = None
        self.ann = []  # annotated names of the body, in order, with the annotation node
        self.fields = None  # dataclass: [(name, default or None, field options)]
        self.ntuple = None  # named tuple: [(name, default or None)]
        self.opts = {}

    def __repr__(self):
        return "class:" + self.qualname


class ModuleV(V):
    __slots__ = ("name", "path", "attrs", "tree", "src", "done")

    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.attrs = {}
        self.tree = None
        self.src = ""
        self.done = False

    def __repr__(self):
        return "module:" + self.name


class PropV(V):
    __slots__ = ("fget", "fset", "fdel", "cached")

    def __init__(self, fget, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel
        self.cached = False

    def __repr__(self):
        return "property(%r)" % (self.fget,)


class StaticV(V):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassMV(V):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class Obj:
    """Abstract heap object."""

    __slots__ = (
        "kind", "cls", "attrs", "aep", "items", "absent", "open", "rep", "shared",
        "prov", "epoch", "ver", "fields", "lazy", "payload", "volatile", "local_loop", "extra",
    )

    def __init__(self, kind, cls=None, prov=None):
        self.kind = kind
        self.cls = cls
        self.attrs = {}
        self.aep = {}
        self.items = None
        self.absent = None
        self.open = None
        self.rep = False
        self.shared = False
        self.prov = prov
        self.epoch = 0
        self.ver = 0
        self.fields = None
        self.lazy = False
        self.payload = None
        self.volatile = True
        self.local_loop = 0
        self.extra = None

    def copy(self):
        o = Obj(self.kind, self.cls, self.prov)
        o.attrs = dict(self.attrs)
        o.aep = dict(self.aep)
        o.items = self.items.copy() if self.items is not None else None
        o.absent = set(self.absent) if self.absent is not None else None
        o.open = self.open
        o.rep = self.rep
        o.shared = self.shared
        o.epoch = self.epoch
        o.ver = self.ver
        o.fields = dict(self.fields) if self.fields is not None else None
        o.lazy = self.lazy
        o.payload = self.payload
        o.volatile = self.volatile
        o.local_loop = self.local_loop
        o.extra = self.extra
        return o


class Ev:
    """One event of an abstract trace."""

    __slots__ = ("kind", "name", "recv", "args", "kw", "res", "loc", "func", "extra")

    def __init__(self, kind, name, recv=None, args=(), kw=None, res=None, loc=None, func=None, extra=None):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = tuple(args)
        self.kw = dict(kw or {})
        self.res = res
        self.loc = loc
        self.func = func
        self.extra = extra

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default

    def __repr__(self):
        a = ", ".join([repr(x) for x in self.args] + ["%s=%r" % kv for kv in self.kw.items()])
        r = "%r." % (self.recv,) if self.recv is not None else ""
        return "%s:%s%s(%s)@%s" % (self.kind, r, self.name, a, self.loc)


class EndlessLoop(BaseException):
    """In a closed scenario: a loop of the program that is never left (nothing it waits for or depends on changes)."""
