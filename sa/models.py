"""Transfer functions for built-ins, operators, containers and the few library calls pyzwave uses."""
import asyncio
import builtins
import importlib

from .values import *  # noqa
from . import aio
from .absint import (  # noqa
    AbsRaise, AnalysisError, AnalysisLimit, BUILTIN_TYPES, CONTAINER, Infeasible, Interp, SuperV,
)

LOOP = S(("loop",), "obj")


# ---------------------------------------------------------------- helpers
def flat(ip, v):
    v = ip.unwrap_int(v)
    if isinstance(v, EN) and v.intlike:
        return K(v.val)
    return v


def bits_of(v):
    """Bit list of a non-negative known-width integer, or None."""
    if isinstance(v, BV):
        return list(v.bits)
    if isinstance(v, K) and isinstance(v.v, int) and v.v >= 0:
        n = int(v.v)
        return [(n >> i) & 1 for i in range(n.bit_length())]
    return None


def mkbv(bits):
    bv = BV(bits)
    if all(b in (0, 1) and isinstance(b, int) for b in bv.bits):
        return K(sum(b << i for i, b in enumerate(bv.bits)))
    return bv


def bytes_items(ip, v):
    """List of byte values if v is a byte string / bytearray of known contents."""
    v = ip.unwrap_int(v)
    if isinstance(v, BS):
        return list(v.items)
    if isinstance(v, K) and isinstance(v.v, (bytes, bytearray)):
        return [K(x) for x in v.v]
    if isinstance(v, R):
        o = ip.sync(v)
        if o.kind == "list" and o.open is None and not o.rep:
            return list(o.items)
    return None


def mkbytes(ip, items):
    items = [flat(ip, x) for x in items]
    if all(isinstance(x, K) and isinstance(x.v, int) for x in items):
        try:
            return K(bytes(int(x.v) for x in items))
        except ValueError:
            ip.throw(ValueError, "bytes must be in range(0, 256)")
    for x in items:
        if isinstance(x, K) and not (isinstance(x.v, int) and 0 <= x.v <= 255):
            ip.throw(ValueError, "bytes must be in range(0, 256)")
    return BS(items)


def is_str(v):
    return isinstance(v, K) and isinstance(v.v, str) or isinstance(v, S) and v.ty == "str"


def is_bytes(v):
    return isinstance(v, BS) or isinstance(v, K) and isinstance(v.v, bytes) or isinstance(v, S) and v.ty == "bytes"


def is_inty(v):
    return isinstance(v, BV) or isinstance(v, K) and isinstance(v.v, (int, float)) or isinstance(v, S) and v.ty in ("int", "bool")


# ---------------------------------------------------------------- operators
def binop(ip, op, a, b):
    for x, y, pre in ((a, b, ""), (b, a, "r")):
        if isinstance(x, R):
            o = ip.o(x)
            if o.kind == "aio" and hasattr(o.extra, "binop"):
                return o.extra.binop(pre + op, y)
            nm = {"+": "add", "-": "sub", "*": "mul", "|": "or", "&": "and", "%": "mod", "<<": "lshift", ">>": "rshift", "/": "truediv", "//": "floordiv", "**": "pow", "^": "xor", "@": "matmul"}.get(op)
            m = ip.class_lookup(o.cls, "__%s%s__" % (pre, nm)) if nm and isinstance(o.cls, ClassV) else None
            if isinstance(m, FuncV):
                res = ip.call_func(m, [x, y], {})
                if not ip.notimpl(res):
                    return res
    if op == "|" and all(isinstance(x, (ClassV, BC)) or isinstance(x, K) and x.v is None or isinstance(x, R) and ip.o(x).kind == "union" for x in (a, b)) and not (isinstance(a, K) and isinstance(b, K)):
        r = ip.alloc("union")
        ip.w(r).extra = [y for x in (a, b) for y in (ip.o(x).extra if isinstance(x, R) else [x])]
        return r
    a0, b0 = flat(ip, a), flat(ip, b)
    if isinstance(a0, EN) and isinstance(b0, EN) and isinstance(a0.val, int) and isinstance(b0.val, int):
        if a0.cls is b0.cls and op in "|&^" and "Flag" in (a0.cls.enum_kind or ""):
            return ip.enum_value(a0.cls, K(eval("a%sb" % op, {"a": a0.val, "b": b0.val})))
    if isinstance(a, EN) and isinstance(b, EN) and a.cls is b.cls and a.cls.enum_kind == "IntFlag" and op in "|&^":
        return ip.enum_value(a.cls, K({"|": a.val | b.val, "&": a.val & b.val, "^": a.val ^ b.val}[op]))
    if isinstance(a0, K) and isinstance(b0, K):
        x, y = a0.v, b0.v
        try:
            if op == "+":
                return K(x + y)
            if op == "-":
                return K(x - y)
            if op == "*":
                if isinstance(x, (str, bytes)) and isinstance(y, int) and y > 4096 or isinstance(y, (str, bytes)) and isinstance(x, int) and x > 4096:
                    return S(("bin", op, a0, b0))
                return K(x * y)
            if op == "/":
                return K(x / y)
            if op == "//":
                return K(x // y)
            if op == "%":
                return K(x % y)
            if op == "**":
                return K(x ** y)
            if op == "<<":
                return K(x << y)
            if op == ">>":
                return K(x >> y)
            if op == "|":
                return K(x | y)
            if op == "&":
                return K(x & y)
            if op == "^":
                return K(x ^ y)
        except TypeError:
            ip.throw(TypeError, "unsupported operand %r %s %r" % (x, op, y))
        except ValueError as e:
            ip.throw(ValueError, str(e))
        except ZeroDivisionError:
            ip.throw(ZeroDivisionError, "division by zero")
    for x, y in ((a0, b0), (b0, a0)):
        if isinstance(x, K) and x.v is None and not isinstance(y, (E, R)):
            ip.throw(TypeError, "unsupported operand None %s %r" % (op, y))
    if op == "%" and is_str(a0):
        if isinstance(a0, K):
            res = percent(ip, a0.v, b0)
            if res is not None:
                return res
        return S(("mod", a0, b0), "str")
    if isinstance(a0, (BV, K)) and isinstance(b0, (BV, K)):
        x, y = bits_of(a0), bits_of(b0)
        if x is not None and y is not None:
            n = max(len(x), len(y))
            xx = x + [0] * (n - len(x))
            yy = y + [0] * (n - len(y))
            if op == "<<" and isinstance(b0, K):
                return mkbv([0] * b0.v + x)
            if op == ">>" and isinstance(b0, K):
                return mkbv(x[b0.v:])
            if op == "|" or op == "+" and all(p == 0 or q == 0 for p, q in zip(xx, yy)):
                r = []
                for p, q in zip(xx, yy):
                    r.append(q if p == 0 else p if q == 0 else 1 if 1 in (p, q) and (p == 1 or q == 1) else p if p == q else ("or", p, q))
                return mkbv(r)
            if op == "&":
                r = []
                for p, q in zip(xx, yy):
                    r.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else ("and", p, q))
                return mkbv(r)
            if op == "^":
                r = []
                for p, q in zip(xx, yy):
                    r.append(q if p == 0 else p if q == 0 else 0 if p == q else ("xor", p, q))
                return mkbv(r)
            if op == "*" and isinstance(b0, K) and b0.v and b0.v & (b0.v - 1) == 0:
                return mkbv([0] * (b0.v.bit_length() - 1) + x)
            if op == "*" and isinstance(a0, K) and a0.v and a0.v & (a0.v - 1) == 0:
                return mkbv([0] * (a0.v.bit_length() - 1) + y)
            if op == "%" and isinstance(b0, K) and b0.v and b0.v & (b0.v - 1) == 0:
                return mkbv(x[: b0.v.bit_length() - 1])
            if op == "//" and isinstance(b0, K) and b0.v and b0.v & (b0.v - 1) == 0:
                return mkbv(x[b0.v.bit_length() - 1:])
            if op == "-" and isinstance(b0, K) and len(x) and b0.v == (1 << len(x)):
                # two's complement with a known top bit is recognised by the caller; keep symbolic
                return S(("bin", "-", a0, b0), "int")
    # concatenation
    if op == "+":
        if is_str(a0) or is_str(b0):
            if is_inty(a0) or is_inty(b0) or is_bytes(a0) or is_bytes(b0):
                ip.throw(TypeError, "can only concatenate str")
            return fmt_concat(ip, [a0, b0])
        if is_bytes(a0) or is_bytes(b0):
            xa, xb = bytes_items(ip, a0), bytes_items(ip, b0)
            if xa is not None and xb is not None:
                return mkbytes(ip, xa + xb)
            if xa == []:
                return b0
            if xb == []:
                return a0
            return S(("cat", a0, b0), "bytes")
        if isinstance(a0, T) and isinstance(b0, T):
            return T(a0.items + b0.items)
        if isinstance(a0, R) and ip.o(a0).kind == "list":
            oa = ip.sync(a0)
            seq = ip.iter_elems(b0)
            if seq is not None and oa.open is None:
                rep = oa.rep or bool(seq[1] is not None and ip.o(seq[1]).rep)
                r = ip.mklist(list(oa.items) + list(seq[0]), rep=rep)
            else:
                r = ip.mklist(list(oa.items) + list(seq[0] if seq else []), open_=("concat", a0, b0))
            if oa.extra == "bytearray":
                ip.w(r).extra = "bytearray"
            return r
    if op == "*" and isinstance(b0, K) and isinstance(b0.v, int):
        if isinstance(a0, R) and ip.o(a0).kind == "list" and ip.known_seq(a0) is not None and b0.v < 4096:
            return ip.mklist(ip.known_seq(a0) * b0.v)
        if isinstance(a0, T):
            return T(a0.items * b0.v)
    if op in ("|", "&", "-", "^"):
        # keys() / items() views take part in set algebra as sets
        vs = [isinstance(x, R) and ip.o(x).kind == "view" for x in (a0, b0)]
        if any(vs):
            a0, b0 = [make_container(ip, set, [x]) if v or not (isinstance(x, R) and ip.o(x).kind == "set") else x for x, v in zip((a0, b0), vs)]
    if isinstance(a0, R) and isinstance(b0, R) and ip.o(a0).kind in ("dict", "set") and op == "^":
        return binop(ip, "|", binop(ip, "-", a0, b0), binop(ip, "-", b0, a0))
    if isinstance(a0, R) and isinstance(b0, R) and ip.o(a0).kind in ("dict", "set") and op in ("|", "&", "-"):
        sa, sb = ip.known_seq(a0), ip.known_seq(b0)
        r = ip.alloc(ip.o(a0).kind)
        if op == "|":
            container_update(ip, r, a0)
            container_update(ip, r, b0)
            return r
        if sa is not None:
            for x in sa:
                inb = ip.truth(ip.contains(b0, x))
                if inb == (op == "&"):
                    ip.w(r).items[ip.keyof(x)] = (x, NONE)
            return r
        return S(("setop", op, a0, b0))
    # integer algebra: fold constants
    ty = None
    if is_inty(a0) or is_inty(b0):
        ty = "int" if op != "/" else "float"
    if isinstance(b0, K) and isinstance(b0.v, int) and op in "+-" and isinstance(a0, S):
        c = b0.v if op == "+" else -b0.v
        t = a0.term
        if isinstance(t, tuple) and t and t[0] == "bin" and t[1] == "+" and isinstance(t[3], K):
            c += t[3].v
            a0 = t[2]
        if c == 0:
            return a0
        return S(("bin", "+", a0, K(c)), "int")
    if isinstance(a0, K) and isinstance(a0.v, int) and op in "+*|&^":
        a0, b0 = b0, a0
        if op == "+":
            return binop(ip, "+", a0, b0)
    if isinstance(b0, K):
        if op in ("|", "^", "<<", ">>") and b0.v == 0 or op in ("*", "//") and b0.v == 1:
            return a0
        if op == "&" and b0.v == 0 or op == "*" and b0.v == 0:
            return K(0)
        lo, hi = ip.rng(a0)
        if op == "&" and lo is not None and lo >= 0 and hi is not None and b0.v >= 0 and (b0.v & (b0.v + 1)) == 0 and hi <= b0.v:
            return a0
        if op == "%" and isinstance(b0.v, int) and lo is not None and lo >= 0 and hi is not None and hi < b0.v:
            return a0
        if op == "%" and isinstance(b0.v, int) and b0.v > 0 and b0.v & (b0.v - 1) == 0:
            # x % 2**n == x & (2**n - 1)
            return binop(ip, "&", a0, K(b0.v - 1))
        if op == "//" and isinstance(b0.v, int) and b0.v > 0 and b0.v & (b0.v - 1) == 0:
            return binop(ip, ">>", a0, K(b0.v.bit_length() - 1))
        if op == "*" and isinstance(b0.v, int) and b0.v > 0 and b0.v & (b0.v - 1) == 0 and is_inty(a0):
            return binop(ip, "<<", a0, K(b0.v.bit_length() - 1))
    if op == "-" and a0 == b0:
        return K(0)
    if ip.cfg.intop_raises:
        for x in (a0, b0):
            if isinstance(x, S) and x.ty is None and not ip.decide(("isinst", x, BC(int))):
                ip.throw(TypeError, "operand")
    return S(("bin", op, a0, b0), ty)


# ---------------------------------------------------------------- strings
def fmt_value(ip, x, spec=None, conversion=-1):
    x0 = ip.unwrap_int(x)
    if isinstance(spec, K) and spec.v == "":
        spec = None
    if isinstance(x0, S) and isinstance(x0.term, tuple) and x0.term[:1] == ("ipv6",) and isinstance(x0.term[1], K):
        import ipaddress
        a = ipaddress.IPv6Address(x0.term[1].v)
        return K(repr(a) if conversion == ord("r") else format(a, spec.v if isinstance(spec, K) else ""))
    if conversion in (ord("r"), ord("a")):
        c = plain(ip, x0) if not isinstance(ip.unwrap_int(x), EN) else None
        if c is not None and not isinstance(c[0], set):
            return fmt_value(ip, K(repr(c[0])), spec)
        if isinstance(x, R) and isinstance(ip.o(x).cls, ClassV) and isinstance(ip.class_lookup(ip.o(x).cls, "__repr__"), FuncV):
            return fmt_value(ip, ip.call_func(ip.class_lookup(ip.o(x).cls, "__repr__"), [x], {}), spec)
        return S(("repr", x0), "str")
    if isinstance(x, R) and spec is not None and isinstance(ip.o(x).cls, ClassV) and isinstance(ip.class_lookup(ip.o(x).cls, "__format__"), FuncV):
        return ip.call_func(ip.class_lookup(ip.o(x).cls, "__format__"), [x, spec], {})
    if isinstance(x0, K):
        try:
            if spec is None:
                return K(str(x0.v))
            if isinstance(spec, K):
                return K(format(x0.v, spec.v))
        except (ValueError, TypeError) as e:
            ip.throw(type(e), str(e))
    if isinstance(x0, EN) and x0.intlike:
        return fmt_value(ip, K(x0.val), spec, conversion)
    if isinstance(x0, EN) and spec is None:
        return K("%s.%s" % (x0.cls.name, x0.name))
    if isinstance(x0, S) and x0.ty == "str" and spec is None:
        return x0
    if isinstance(x, R):
        o = ip.o(x)
        if o.kind == "aio" and hasattr(o.extra, "text"):
            return K(o.extra.text())
        if isinstance(o.cls, ClassV) and spec is None:
            for nm in ("__str__", "__repr__"):
                m = ip.class_lookup(o.cls, nm)
                if isinstance(m, FuncV):
                    return ip.call_func(m, [x], {})
        if spec is None and ip.is_exc(x):
            a = o.attrs.get("args")
            if isinstance(a, T) and not a.items:
                return K("")
            if isinstance(a, T) and len(a.items) == 1:
                if ip.subclass(o.cls, BC(KeyError)):
                    return fmt_value(ip, a.items[0], None, ord("r"))
                return fmt_value(ip, a.items[0])
        if spec is None and o.kind in ("list", "dict") and not isinstance(o.cls, ClassV):
            c = plain(ip, x)
            if c is not None:
                return K(str(c[0]))
    if isinstance(x0, T) and spec is None:
        c = plain(ip, x0)
        if c is not None:
            return K(str(c[0]))
    return S(("fv", x0, spec), "str")


def percent(ip, fmt, arg):
    """'...%s...' % (...) with a constant template."""
    import re
    args = list(arg.items) if isinstance(arg, T) else [arg]
    parts = []
    pos = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([#0 +-]*)(\d+|\*)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])", fmt):
        if m.start() > pos and "%" in fmt[pos:m.start()]:
            return None
        parts.append(K(fmt[pos:m.start()]))
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == "%":
            parts.append(K("%"))
            continue
        if width == "*":
            return None
        if name is not None:
            v = getitem(ip, arg, K(name))
        elif not args:
            ip.throw(TypeError, "not enough arguments for format string")
        else:
            v = args.pop(0)
        x = flat(ip, v)
        if isinstance(x, K) and conv not in "sra" or isinstance(x, K) and (isinstance(x.v, (str, int, float)) or x.v is None) and not isinstance(ip.unwrap_int(v), EN):
            try:
                parts.append(K(re.sub(r"\(\w+\)", "", m.group(0), count=1) % x.v))
            except (TypeError, ValueError) as e:
                ip.throw(type(e), str(e))
        elif conv in "sr" and not flags and width is None and prec is None:
            parts.append(fmt_value(ip, v, None, ord("r") if conv == "r" else -1))
        elif conv in "diuxX" and not isinstance(x, R) and "#" not in flags:
            spec = ("0" if "0" in flags else "") + (width or "") + (conv if conv in "xX" else "d")
            parts.append(fmt_value(ip, v, K(spec) if spec != "d" else None))
        else:
            return None
    if "%" in fmt[pos:]:
        return None
    if args and isinstance(arg, T) and not any(p for p in ()):
        ip.throw(TypeError, "not all arguments converted during string formatting")
    parts.append(K(fmt[pos:]))
    return fmt_concat(ip, parts)


def fmt_concat(ip, parts):
    out = []

    def add(p):
        if isinstance(p, K) and isinstance(p.v, str):
            if p.v == "":
                return
            if out and isinstance(out[-1], K):
                out[-1] = K(out[-1].v + p.v)
                return
        elif isinstance(p, S) and isinstance(p.term, tuple) and p.term and p.term[0] == "fmt":
            for q in p.term[1]:
                add(q)
            return
        out.append(p)

    for p in parts:
        add(p)
    if not out:
        return K("")
    if len(out) == 1 and (isinstance(out[0], K) or isinstance(out[0], S) and out[0].ty == "str"):
        return out[0]
    return S(("fmt", tuple(out)), "str")


def str_format(ip, fmt, args, kw):
    """'...{}...'.format(...) with a constant template."""
    import string

    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                names = field.split(".")
                v = kw[names[0]] if not names[0].isdigit() else args[int(names[0])]
                for n in names[1:]:
                    v = ip.getattr(v, n)
            if spec and "{" in spec:
                return None
            parts.append(fmt_value(ip, v, K(spec) if spec else None, ord(conv) if conv else -1))
    except (IndexError, KeyError, ValueError):
        return None
    return fmt_concat(ip, parts)


# ---------------------------------------------------------------- containers
def find_key(ip, d, k):
    """Stored key of k in dict/set d: its key if known present, None if known absent, else partition."""
    o = ip.sync(d)
    kk = ip.keyof(k)
    if kk in o.items:
        return kk
    if kk in o.absent:
        return None
    ku = ip.unwrap_int(k)
    for k2, (a, _b) in list(o.items.items()):
        if isinstance(a, S) or isinstance(ku, S) or isinstance(ip.unwrap_int(a), S):
            if ip.truth(ip.eq(a, k)):
                return k2
    if o.open is None:
        return None
    if ip.decide(("in", ku, ip.ckey(d))):
        w = ip.w(d)
        if ip.o(d).kind == "set":
            w.items[kk] = (k, NONE)
        else:
            w.items[kk] = (k, ip.fresh_item(d, k))
        return kk
    ip.w(d).absent.add(kk)
    return None


def known_key(ip, d, k):
    """find_key without partitioning on membership of unknown contents (used by writes)."""
    o = ip.sync(d)
    kk = ip.keyof(k)
    if kk in o.items:
        return kk
    ku = ip.unwrap_int(k)
    for k2, (a, _b) in list(o.items.items()):
        if isinstance(ip.unwrap_int(a), S) or isinstance(ku, S):
            if ip.truth(ip.eq(a, k)):
                return k2
    return kk


def mark_rep(ip, r):
    o = ip.o(r)
    if ip.loop_rep > o.local_loop and o.open is None:
        ip.w(r).rep = True


def dict_set(ip, d, k, v, ev="setitem"):
    kk = known_key(ip, d, k)
    w = ip.w(d)
    old = w.items.get(kk)
    w.items[kk] = (old[0] if old else k, v)
    w.absent.discard(kk)
    if w.shared:
        ip.share(v)
    mark_rep(ip, d)
    if ev:
        ip.ev(ev, ev, d, (k, v), extra=old[1] if old else None)


def dict_del(ip, d, kk, k, ev="delitem", res=None):
    w = ip.w(d)
    ck = ip.ckey(d)
    w.items.pop(kk, None)
    if w.open is not None:
        w.absent.add(kk)
        w.absent.add(ip.keyof(k))
        ip.facts.pop(("nonempty", ck), None)
        ip.facts.pop(("in", ip.unwrap_int(k), ck), None)
    if ev:
        ip.ev(ev, ev, d, (k,), res=res)


def container_update(ip, d, src):
    o = ip.o(d)
    if isinstance(src, R) and ip.o(src).kind == "dict" and o.kind == "dict":
        so = ip.sync(src)
        w = ip.w(d)
        for kk, kv in so.items.items():
            w.items[kk] = kv
            w.absent.discard(kk)
        if so.open is not None:
            w.open = ("merge", w.open, so.open)
            w.absent = set()
        if so.rep:
            w.rep = True
        return
    seq = ip.iter_elems(src)
    w = ip.w(d)
    if seq is None:
        w.open = ("merge", w.open, src)
        w.absent = set()
        return
    for x in seq[0]:
        if o.kind == "set":
            w.items[ip.keyof(x)] = (x, NONE)
        else:
            ab = ip.known_seq(x)
            w.items[ip.keyof(ab[0])] = (ab[0], ab[1])
    if seq[1] is not None and ip.o(seq[1]).rep:
        w.rep = True


def norm_slice(ip, sl, n):
    lo, hi, st = sl.term[1:]
    vals = []
    for x in (lo, hi, st):
        x = flat(ip, x)
        if not isinstance(x, K):
            return None
        vals.append(x.v)
    return slice(*vals).indices(n)


def is_slice(k):
    return isinstance(k, S) and isinstance(k.term, tuple) and k.term and k.term[0] == "slice"


def getitem(ip, v, k):
    if isinstance(v, R):
        o = ip.o(v)
        if isinstance(o.cls, ClassV):
            m = ip.class_lookup(o.cls, "__getitem__")
            if isinstance(m, FuncV):
                return ip.call_func(m, [v, k], {})
        if o.kind == "dict":
            kk = find_key(ip, v, k)
            if kk is None:
                if isinstance(o.extra, tuple) and o.extra and o.extra[0] == "defaultdict":
                    val = ip.call(o.extra[1], [], {})
                    dict_set(ip, v, k, val)
                    return val
                m = missing(ip, v)
                if m is not None:
                    return ip.call_func(m, [v, k], {})
                ip.throw(KeyError, k)
            return ip.o(v).items[kk][1]
        if o.kind == "list":
            return seq_index(ip, v, k)
        if o.lazy:
            return ip.opaque("call", "__getitem__", v, [k], {})
        if o.payload is not None:
            return getitem(ip, o.payload, k)
        ip.throw(TypeError, "not subscriptable")
    if isinstance(v, (T, BS)) or isinstance(v, K) and isinstance(v.v, (str, bytes)):
        return seq_index(ip, v, k)
    if isinstance(v, K):
        ip.throw(TypeError, "'%s' object is not subscriptable" % type(v.v).__name__)
    if isinstance(v, ClassV):
        if v.enum_kind:
            if isinstance(k, K):
                if k.v in v.members:
                    return v.members[k.v]
                ip.throw(KeyError, k)
            if not ip.decide(("enumname", k, v)):
                ip.throw(KeyError, k)
            return S(("enumitem", v.qualname, k), "int")
        return v
    if isinstance(v, (BC, E)):
        return v
    if isinstance(v, S):
        if ip.facts.get(("none", v)):
            ip.throw(TypeError, "None is not subscriptable")
        if is_slice(k):
            lo, hi, st = k.term[1:]
            if lo == NONE and hi == NONE and st == NONE:
                return v
            t = v.term
            # x[a:][b:] and x[a:b] canonical forms
            if isinstance(t, tuple) and t and t[0] == "slice" and len(t) == 4 and t[3] == NONE and st == NONE:
                lo0 = t[2] if isinstance(t[2], V) else K(0)
                lo0 = K(0) if lo0 == NONE else lo0
                l1 = K(0) if lo == NONE else lo
                h1 = hi if hi == NONE else binop(ip, "+", lo0, hi)
                return S(("slice", t[1], binop(ip, "+", lo0, l1), h1), v.ty)
            if lo == NONE:
                lo = K(0)
            return S(("slice", v, lo, hi) + ((st,) if st != NONE else ()), v.ty)
        if isinstance(v.term, tuple) and v.term and v.term[0] == "list" and isinstance(v.term[1], R):
            pass
        k0 = ip.unwrap_int(k)
        if ip.cfg.index_raises:
            if v.ty in ("bytes", "str") or isinstance(k0, K) and isinstance(k0.v, int) or isinstance(k0, S) and k0.ty == "int":
                ln = S(("len", v), "int")
                if isinstance(k0, K) and k0.v < 0:
                    ok = ip.truth(ip.compare("<", K(-k0.v - 1), ln))
                elif v.ty in ("bytes", "str"):
                    ok = ip.truth(ip.compare("<", k0, ln))
                else:
                    ok = ip.decide(("in", k0, v))
                if not ok:
                    ip.throw(IndexError if v.ty else LookupError, k)
            elif not ip.decide(("in", k0, v)):
                ip.throw(KeyError, k)
        r = S(("item", v, k0), "int" if v.ty == "bytes" else "str" if v.ty == "str" else None)
        if v.ty == "bytes":
            ip.iv.setdefault(r, (0, 255))
        return r
    if isinstance(v, BI):
        return v
    raise AnalysisError("getitem on %r at %s" % (v, ip.loc()))


def seq_index(ip, v, k):
    def wrap(items):
        if isinstance(v, T):
            return T(items)
        if isinstance(v, BS):
            return mkbytes(ip, items)
        if isinstance(v, K):
            return K(type(v.v)(items))
        r = ip.mklist(items)
        if ip.o(v).extra == "bytearray":
            ip.w(r).extra = "bytearray"
        return r

    if isinstance(v, R):
        o = ip.sync(v)
        items = o.items
        opened = o.open is not None or o.rep
    elif isinstance(v, K):
        items = v.v
        opened = False
    else:
        items = v.items
        opened = False
    if is_slice(k):
        if not opened:
            ix = norm_slice(ip, k, len(items))
            if ix is not None:
                if isinstance(v, K):
                    return K(items[slice(*ix) if not (ix[2] < 0 and ix[1] < 0) else slice(ix[0], None, ix[2])])
                return wrap([items[i] for i in range(*ix)])
            return S(("slice", v) + tuple(k.term[1:]), "bytes" if is_bytes(v) else None)
        lo, hi, st = k.term[1:]
        r = ip.mklist([], open_=("sliceof", ip.ckey(v), lo, hi, st))
        if o.extra == "bytearray":
            ip.w(r).extra = "bytearray"
        return r
    k0 = flat(ip, k)
    if isinstance(k0, K) and not opened:
        if not isinstance(k0.v, int):
            ip.throw(TypeError, "indices must be integers")
        if -len(items) <= k0.v < len(items):
            x = items[k0.v]
            return x if isinstance(x, V) else K(x)
        ip.throw(IndexError, "index out of range")
    if not opened:
        # unknown index into a known sequence
        if isinstance(v, K):
            return S(("item", v, k0))
        if not items:
            ip.throw(IndexError, "index out of range")
        n = K(len(items))
        if ip.cfg.index_raises:
            if not ip.truth(ip.compare("<", k0, n)):
                ip.throw(IndexError, "index out of range")
        if len(items) <= 16:
            for i, x in enumerate(items[:-1]):
                if ip.truth(ip.eq(k0, K(i))):
                    return x
            return items[-1]
        return S(("item", v, k0))
    if isinstance(k0, K) and k0.v == -1 and items:
        return items[-1]
    if isinstance(k0, K) and isinstance(k0.v, int) and o.open is None and o.rep and items:
        return items[min(k0.v, len(items) - 1)] if k0.v >= 0 else items[0]
    ck = ip.ckey(v)
    if ip.cfg.index_raises and not ip.decide(("hasidx", k0, ck)):
        ip.throw(IndexError, "index out of range")
    return S(("item", ck, k0))


def setitem(ip, v, k, val):
    if isinstance(v, R):
        o = ip.o(v)
        if isinstance(o.cls, ClassV):
            m = ip.class_lookup(o.cls, "__setitem__")
            if isinstance(m, FuncV):
                ip.call_func(m, [v, k, val], {})
                return
        if o.kind == "dict":
            dict_set(ip, v, k, val)
            return
        if o.kind == "list":
            w = ip.w(v)
            k0 = flat(ip, k)
            if is_slice(k0) and w.open is None and not w.rep:
                new = ip.known_seq(val)
                lim = [flat(ip, x) for x in k0.term[1:4]]
                if new is not None and all(isinstance(x, K) for x in lim):
                    try:
                        w.items[slice(*[x.v for x in lim])] = list(new)
                    except ValueError as e:
                        ip.throw(ValueError, str(e))
                    if w.shared:
                        for x in new:
                            ip.share(x)
                    ip.ev("setitem", "setitem", v, (k, val))
                    return
            if isinstance(k0, K) and isinstance(k0.v, int) and w.open is None and not w.rep:
                if not -len(w.items) <= k0.v < len(w.items):
                    ip.throw(IndexError, "assignment index out of range")
                w.items[k0.v] = val
            elif isinstance(k0, K) and k0.v == -1 and w.items:
                w.items[-1] = val
            else:
                w.ver += 1
                w.open = ("set", w.open, k0)
            if w.shared:
                ip.share(val)
            ip.ev("setitem", "setitem", v, (k, val))
            return
        ip.ev("setitem", "setitem", v, (k, val))
        return
    if isinstance(v, K):
        ip.throw(TypeError, "does not support item assignment")
    ip.share(val)
    ip.ev("setitem", "setitem", v, (k, val))


def delitem(ip, v, k):
    if isinstance(v, R):
        o = ip.o(v)
        if isinstance(o.cls, ClassV):
            m = ip.class_lookup(o.cls, "__delitem__")
            if isinstance(m, FuncV):
                ip.call_func(m, [v, k], {})
                return
        if o.kind == "dict":
            kk = find_key(ip, v, k)
            if kk is None:
                ip.throw(KeyError, k)
            dict_del(ip, v, kk, k)
            return
        if o.kind == "list":
            list_pop(ip, v, k, ev="delitem")
            return
    if isinstance(v, K):
        ip.throw(TypeError, "doesn't support item deletion")
    if isinstance(v, S) and ip.cfg.index_raises:
        if not ip.decide(("in", ip.unwrap_int(k), v)):
            ip.throw(KeyError, k)
    ip.ev("delitem", "delitem", v, (k,))


def list_pop(ip, r, k=None, ev="pop"):
    o = ip.sync(r)
    k0 = flat(ip, k) if k is not None else K(-1)
    if is_slice(k0):
        w = ip.w(r)
        if w.open is None and not w.rep:
            ix = norm_slice(ip, k0, len(w.items))
            if ix is not None:
                for i in sorted(range(*ix), reverse=True):
                    del w.items[i]
                ip.ev(ev, ev, r, (k0,))
                return NONE
        w.ver += 1
        w.open = ("del", w.open, k0)
        ip.ev(ev, ev, r, (k0,))
        return NONE
    if o.open is None and not o.rep:
        if isinstance(k0, K):
            if not -len(o.items) <= k0.v < len(o.items):
                ip.throw(IndexError, "pop index out of range")
            v = ip.w(r).items.pop(k0.v)
            ip.ev(ev, ev, r, (k0,), res=v)
            return v
        w = ip.w(r)
        v = S(("item", r, k0))
        w.open = ("del", w.open, k0)
        w.items = []
        w.ver += 1
        ip.ev(ev, ev, r, (k0,), res=v)
        return v
    if not ip.truth(r):
        ip.throw(IndexError, "pop from empty list")
    ck = ip.ckey(r)
    w = ip.w(r)
    if o.open is None and o.rep and o.items:
        v = o.items[0 if k0 == K(0) else -1]
    else:
        v = w.items.pop() if (k0 == K(-1) and w.items) else S(("item", ck, k0))
    w.ver += 1
    ip.ev(ev, ev, r, (k0,), res=v)
    return v


def mkview(ip, base, what):
    r = ip.alloc("view")
    ip.w(r).extra = (base, what)
    return r


def snapshot(ip, src):
    """An independent copy of a container with the same present contents."""
    so = ip.sync(src)
    ck = ip.ckey(src)
    r = ip.alloc(so.kind)
    w = ip.w(r)
    w.items = so.items.copy()
    w.absent = set(so.absent) if so.absent is not None else None
    w.open = so.open
    w.rep = so.rep
    if so.extra == "bytearray":
        w.extra = "bytearray"
    elif so.open is not None:
        w.extra = ("ckey", ck)
    return r


def deepcopy(ip, v, memo):
    if isinstance(v, T):
        x = [deepcopy(ip, i, memo) for i in v.items]
        return TN(x, v.cls, v.names) if isinstance(v, TN) else T(x)
    if not isinstance(v, R):
        return v
    if v in memo:
        return memo[v]
    o = ip.o(v)
    m = ip.class_lookup(o.cls, "__deepcopy__") if isinstance(o.cls, ClassV) else None
    if isinstance(m, FuncV):
        return ip.call_func(m, [v, ip.mkdict([])], {})
    if o.kind in CONTAINER:
        r = snapshot(ip, v)
        memo[v] = r
        w = ip.w(r)
        w.cls = o.cls
        if o.kind == "dict":
            w.items = {k: (a, deepcopy(ip, b, memo)) for k, (a, b) in list(w.items.items())}
        elif o.kind == "list" and w.extra != "bytearray":
            w.items = [deepcopy(ip, x, memo) for x in list(w.items)]
    elif o.kind == "inst" or isinstance(o.cls, ClassV):
        r = ip.alloc(o.kind, o.cls)
        memo[v] = r
        w = ip.w(r)
        w.payload, w.lazy, w.extra = o.payload, o.lazy, o.extra
    else:
        return v
    w = ip.w(r)
    w.attrs = {k: deepcopy(ip, x, memo) for k, x in list(o.attrs.items())}
    if o.fields is not None:
        w.fields = {k: deepcopy(ip, x, memo) for k, x in list(o.fields.items())}
    return r


def missing(ip, d):
    o = ip.o(d)
    m = ip.class_lookup(o.cls, "__missing__") if isinstance(o.cls, ClassV) else None
    return m if isinstance(m, FuncV) else None


def dict_method(ip, d, name, args, kw):
    o = ip.o(d)
    if name in ("items", "keys", "values"):
        return mkview(ip, d, name)
    if name == "__iter__":
        return mkview(ip, d, "keys")
    if name == "get":
        kk = find_key(ip, d, args[0])
        if kk is None:
            return args[1] if len(args) > 1 else kw.get("default", NONE)
        return ip.o(d).items[kk][1]
    if name == "__getitem__":
        kk = find_key(ip, d, args[0])
        if kk is None:
            m = missing(ip, d)
            if m is not None:
                return ip.call(m, [d, args[0]], {})
            ip.throw(KeyError, args[0])
        return ip.o(d).items[kk][1]
    if name == "__setitem__":
        dict_set(ip, d, args[0], args[1])
        return NONE
    if name == "__delitem__":
        kk = find_key(ip, d, args[0])
        if kk is None:
            ip.throw(KeyError, args[0])
        dict_del(ip, d, kk, args[0])
        return NONE
    if name == "__contains__":
        return K(find_key(ip, d, args[0]) is not None)
    if name == "__len__":
        return length(ip, d)
    if name == "pop":
        kk = find_key(ip, d, args[0])
        if kk is None:
            if len(args) > 1:
                ip.ev("pop", "popmiss", d, (args[0],), res=args[1])
                return args[1]
            ip.throw(KeyError, args[0])
        v = ip.o(d).items[kk][1]
        dict_del(ip, d, kk, args[0], ev="pop", res=v)
        return v
    if name == "popitem":
        if not ip.truth(d):
            ip.throw(KeyError, "popitem(): dictionary is empty")
        ks = ip.known_seq(d)
        if ks:
            k = ks[0] if kw.get("last") == FALSE else ks[-1]
        else:
            k = ip.rep_elem(d, (ip.loc(), ip.uid()))
        v = ip.dict_value(d, k)
        dict_del(ip, d, ip.keyof(k), k, ev="pop", res=v)
        return T([k, v])
    if name == "setdefault":
        kk = find_key(ip, d, args[0])
        if kk is not None:
            return ip.o(d).items[kk][1]
        v = args[1] if len(args) > 1 else NONE
        dict_set(ip, d, args[0], v)
        return v
    if name == "update":
        if args:
            container_update(ip, d, args[0])
        for k, v in kw.items():
            if k != "**":
                dict_set(ip, d, K(k), v, ev=None)
        if ip.o(d).shared:
            ip.share_items(d)
        ip.ev("update", "update", d, args, kw)
        return NONE
    if name == "clear":
        w = ip.w(d)
        w.items = {}
        w.absent = set()
        w.open = None
        w.rep = False
        w.ver += 1
        ip.ev("clear", "clear", d)
        return NONE
    if name == "copy":
        return snapshot(ip, d)
    if name == "__init__":
        if args:
            ip.container_init(d, args[0])
        return NONE
    if name in ("__eq__", "__ne__"):
        r = ip.eq(d, args[0])
        return r if name == "__eq__" else ip.neg(r)
    if name in ("__or__", "__ior__"):
        if name == "__or__":
            return binop(ip, "|", d, args[0])
        container_update(ip, d, args[0])
        return d
    if name in ("__repr__", "__str__"):
        return fmt_value(ip, d)
    if name == "move_to_end":
        kk = find_key(ip, d, args[0])
        if kk is None:
            ip.throw(KeyError, args[0])
        w = ip.w(d)
        x = w.items.pop(kk)
        last = args[1] if len(args) > 1 else kw.get("last", TRUE)
        if last == FALSE:
            rest = dict(w.items)
            w.items.clear()
            w.items[kk] = x
            w.items.update(rest)
        else:
            w.items[kk] = x
        return NONE
    if name == "fromkeys":
        r = ip.alloc("dict")
        seq = ip.iter_elems(args[0])
        v = args[1] if len(args) > 1 else NONE
        if seq is None:
            ip.w(r).open = ("fromkeys", args[0])
        else:
            for x in seq[0]:
                ip.w(r).items[ip.keyof(x)] = (x, v)
        return r
    raise AnalysisError("dict.%s at %s" % (name, ip.loc()))


def set_method(ip, d, name, args, kw):
    o = ip.o(d)
    if name == "add":
        kk = known_key(ip, d, args[0])
        w = ip.w(d)
        w.items[kk] = (args[0], NONE)
        w.absent.discard(kk)
        if w.shared:
            ip.share(args[0])
        mark_rep(ip, d)
        ip.ev("add", "add", d, args)
        return NONE
    if name in ("discard", "remove"):
        kk = find_key(ip, d, args[0])
        if kk is None:
            if name == "remove":
                ip.throw(KeyError, args[0])
            return NONE
        dict_del(ip, d, kk, args[0], ev="remove")
        return NONE
    if name == "__contains__":
        return K(find_key(ip, d, args[0]) is not None)
    if name == "__iter__":
        return d
    if name == "__len__":
        return length(ip, d)
    if name == "update":
        for a in args:
            container_update(ip, d, a)
        ip.ev("update", "update", d, args)
        return NONE
    if name == "clear":
        w = ip.w(d)
        w.items = {}
        w.absent = set()
        w.open = None
        w.ver += 1
        ip.ev("clear", "clear", d)
        return NONE
    if name == "copy":
        return snapshot(ip, d)
    if name == "pop":
        if not ip.truth(d):
            ip.throw(KeyError, "pop from an empty set")
        ks = ip.known_seq(d)
        k = ks[0] if ks and len(ks) == 1 else ip.rep_elem(d, (ip.loc(), ip.uid()))
        dict_del(ip, d, ip.keyof(k), k, ev="pop", res=k)
        return k
    if name in ("issuperset", "issubset", "isdisjoint"):
        a = args[0]
        if not (isinstance(a, R) and ip.o(a).kind in ("set", "dict")):
            a = make_container(ip, set, [a])
        x, y = (d, a) if name != "issuperset" else (a, d)
        ks = ip.known_seq(x)
        if ks is None:
            return S(("setrel", name, d, args[0]), "bool")
        for e in ks:
            if ip.truth(ip.contains(y, e)) == (name == "isdisjoint"):
                return FALSE
        return TRUE
    if name in ("difference_update", "intersection_update", "symmetric_difference_update", "__isub__", "__iand__", "__ixor__", "__ior__"):
        op = {"d": "-", "i": "&", "s": "^", "_": {"__isub__": "-", "__iand__": "&", "__ixor__": "^"}.get(name, "|")}[name[0]]
        cur = d
        for a in args:
            if not (isinstance(a, R) and ip.o(a).kind in ("set", "dict")):
                a = make_container(ip, set, [a])
            cur = binop(ip, op, cur, a)
        if isinstance(cur, R):
            src = ip.o(cur)
            w = ip.w(d)
            w.items, w.absent, w.open, w.rep = src.items.copy(), src.absent, src.open, src.rep
            w.ver += 1
        ip.ev("update", "update", d, args)
        return d if name.startswith("__") else NONE
    if name in ("__or__", "__and__", "__sub__", "__xor__"):
        return binop(ip, {"__or__": "|", "__and__": "&", "__sub__": "-", "__xor__": "^"}[name], d, args[0])
    if name == "__eq__":
        return ip.eq(d, args[0])
    if name in ("union", "difference", "intersection", "symmetric_difference"):
        op = {"union": "|", "difference": "-", "intersection": "&", "symmetric_difference": "^"}[name]
        cur = d
        for a in args:
            if not (isinstance(a, R) and ip.o(a).kind in ("set", "dict")):
                a = make_container(ip, set, [a])
            cur = binop(ip, op, cur, a)
        return cur
    if name == "__init__":
        if args:
            ip.container_init(d, args[0])
        return NONE
    raise AnalysisError("set.%s at %s" % (name, ip.loc()))


def seq_find(ip, items, name, args):
    if name == "count":
        return K(sum(1 for x in items if ip.truth(ip.eq(x, args[0]))))
    lo = flat(ip, args[1]).v if len(args) > 1 else 0
    hi = flat(ip, args[2]).v if len(args) > 2 else len(items)
    for i, x in list(enumerate(items))[lo:hi]:
        if ip.truth(ip.eq(x, args[0])):
            return K(i)
    ip.throw(ValueError, "is not in list")


def list_method(ip, r, name, args, kw):
    o = ip.sync(r)
    if name == "append":
        w = ip.w(r)
        w.items.append(args[0])
        if w.shared:
            ip.share(args[0])
        mark_rep(ip, r)
        if w.open is not None:
            ip.facts[("nonempty", ip.ckey(r))] = True
        ip.ev("append", "append", r, args)
        return NONE
    if name == "extend":
        seq = ip.iter_elems(args[0])
        w = ip.w(r)
        if seq is None:
            src = args[0]
            w.open = ("concat", w.open, src)
            w.ver += 1
        else:
            w.items.extend(seq[0])
            if seq[1] is not None and ip.o(seq[1]).rep:
                w.rep = True
            if w.shared:
                for x in seq[0]:
                    ip.share(x)
            mark_rep(ip, r)
        ip.ev("extend", "extend", r, args)
        return NONE
    if name == "insert":
        w = ip.w(r)
        k0 = flat(ip, args[0])
        if isinstance(k0, K) and w.open is None and not w.rep:
            w.items.insert(k0.v, args[1])
        else:
            w.open = ("insert", w.open, k0, args[1])
            w.ver += 1
        if w.shared:
            ip.share(args[1])
        mark_rep(ip, r)
        ip.ev("insert", "insert", r, args)
        return NONE
    if name == "pop":
        return list_pop(ip, r, args[0] if args else None)
    if name == "popleft":
        return list_pop(ip, r, K(0))
    if name == "remove":
        if not ip.truth(ip.contains(r, args[0])):
            ip.throw(ValueError, "list.remove(x): x not in list")
        w = ip.w(r)
        for i, x in enumerate(w.items):
            if x == args[0] or ip.known(("eq", ip.unwrap_int(x), ip.unwrap_int(args[0]))) if isinstance(x, S) else x == args[0]:
                del w.items[i]
                break
        else:
            w.ver += 1
        ip.ev("remove", "remove", r, args)
        return NONE
    if name == "clear":
        w = ip.w(r)
        w.items = []
        w.open = None
        w.rep = False
        w.ver += 1
        ip.ev("clear", "clear", r)
        return NONE
    if name == "copy":
        return snapshot(ip, r)
    if name in ("sort", "reverse"):
        w = ip.w(r)
        if name == "sort" and w.open is None and not w.rep:
            res = sort_elems(ip, w.items, kw.get("key"), "reverse" in kw and ip.truth(kw["reverse"]))
            if res is not None:
                w = ip.w(r)
                w.items = res
        elif name == "reverse" and w.open is None and not w.rep:
            w.items.reverse()
        ip.ev(name, name, r)
        return NONE
    if name in ("index", "count"):
        ks = ip.known_seq(r)
        if ks is not None:
            return seq_find(ip, ks, name, args)
        return S((name, r, args[0]), "int")
    if name == "__len__":
        return length(ip, r)
    if name == "__iter__":
        return builtin_call(ip, BI("iter"), [r], {}) if ip.sched is not None and not isinstance(o.cls, ClassV) else r
    if name == "__contains__":
        return ip.contains(r, args[0])
    if name == "__eq__":
        return ip.eq(r, args[0])
    if name == "__delitem__":
        ip.delitem(r, args[0])
        return NONE
    if name == "__reversed__":
        return builtin_call(ip, BI("reversed"), [r], {})
    if name == "__iadd__":
        list_method(ip, r, "extend", args, kw)
        return r
    if name == "__add__":
        return binop(ip, "+", r, args[0])
    if name in ("__repr__", "__str__"):
        return fmt_value(ip, r)
    if name == "__getitem__":
        return seq_index(ip, r, args[0])
    if name == "__init__":
        if args:
            ip.container_init(r, args[0])
        return NONE
    if name == "__setitem__":
        w = ip.w(r)
        k0 = flat(ip, args[0])
        if isinstance(k0, K) and w.open is None and not w.rep and -len(w.items) <= k0.v < len(w.items):
            w.items[k0.v] = args[1]
        ip.ev("setitem", "setitem", r, args)
        return NONE
    if name in ("decode", "hex", "startswith", "endswith", "find"):
        return S(("meth", name, r) + tuple(args), {"decode": "str", "hex": "str", "find": "int"}.get(name, "bool"))
    raise AnalysisError("list.%s at %s" % (name, ip.loc()))


def length(ip, v):
    v0 = ip.unwrap_int(v)
    if isinstance(v0, R):
        o = ip.o(v0)
        if o.kind == "view":
            return length(ip, o.extra[0])
        if o.kind in CONTAINER:
            o = ip.sync(v0)
            if o.open is None and not o.rep:
                return K(len(o.items))
            return S(("len", ip.ckey(v0)), "int")
        if isinstance(o.cls, ClassV):
            m = ip.class_lookup(o.cls, "__len__")
            if isinstance(m, FuncV):
                return ip.call_func(m, [v0], {})
        if o.lazy:
            return S(("len", S(("obj", o.prov))), "int")
        ip.throw(TypeError, "object has no len()")
    ks = ip.known_seq(v0)
    if ks is not None:
        return K(len(ks))
    if isinstance(v0, (K, BV)):
        ip.throw(TypeError, "object of type %s has no len()" % type(getattr(v0, "v", 0)).__name__)
    if isinstance(v0, S):
        if ip.facts.get(("none", v0)):
            ip.throw(TypeError, "object of type NoneType has no len()")
        t = v0.term
        if isinstance(t, tuple) and t and t[0] in ("list", "tuple", "sorted", "reversed", "keys", "values", "items") and isinstance(t[1], V):
            return length(ip, t[1])
        if isinstance(t, tuple) and t and t[0] == "to_bytes":
            return t[2]
    return S(("len", v0), "int")


def make_container(ip, t, args):
    if t in (set, frozenset, dict):
        if args and isinstance(args[0], R) and ip.o(args[0]).kind in CONTAINER and ip.o(args[0]).kind == ("dict" if t is dict else "set"):
            oo = ip.o(args[0])
            if not (isinstance(oo.cls, ClassV) and isinstance(ip.class_lookup(oo.cls, "__iter__"), FuncV)):
                return snapshot(ip, args[0])
        r = ip.alloc("dict" if t is dict else "set")
        if args:
            ip.container_init(r, args[0])
        return r
    if t is bytearray:
        r = ip.alloc("list")
        ip.w(r).extra = "bytearray"
        if args:
            ip.container_init(r, args[0])
        return r
    if t is list:
        if not args:
            return ip.alloc("list")
        src = args[0]
        if isinstance(src, R) and ip.o(src).kind == "list":
            oo = ip.o(src)
            if not (isinstance(oo.cls, ClassV) and isinstance(ip.class_lookup(oo.cls, "__iter__"), FuncV)):
                r = snapshot(ip, src)
                if ip.o(r).extra == "bytearray":
                    ip.w(r).extra = None
                return r
        if isinstance(src, R) and ip.o(src).kind == "gen":
            out = []
            ip.iterate(src, lambda x: out.append(x), [], None)
            return ip.mklist(out)
        seq = ip.iter_elems(src)
        if seq is not None:
            return ip.mklist(list(seq[0]), rep=bool(seq[1] is not None and ip.o(seq[1]).rep))
        return S(("list", src), "obj")
    if t is tuple:
        if not args:
            return T(())
        seq = ip.iter_elems(args[0])
        if seq is not None and not (seq[1] is not None and ip.o(seq[1]).rep):
            return T(seq[0])
        return S(("tuple", args[0]), "obj")
    raise AnalysisError("container %s" % t)


Interp.share_items = lambda self, d: [self.share(b) for _a, b in list(self.o(d).items.values())]


# ---------------------------------------------------------------- integers <-> bytes
def from_bytes(ip, args, kw):
    b = args[0]
    order = args[1] if len(args) > 1 else kw.get("byteorder", K("big"))
    signed = kw.get("signed", FALSE)
    b = ip.unwrap_int(b)
    if isinstance(b, K) and isinstance(b.v, bytes) and isinstance(order, K) and isinstance(signed, K):
        return K(int.from_bytes(b.v, order.v, signed=signed.v))
    items = bytes_items(ip, b)
    if items is not None and isinstance(order, K) and isinstance(signed, K):
        its = items if order.v == "little" else items[::-1]
        bits = []
        for x in its:
            bb = bits_of(flat(ip, x))
            if bb is None:
                return S(("from_bytes", T(items), order, signed), "int")
            bits += bb + [0] * (8 - len(bb))
        if not signed.v:
            return mkbv(bits)
        return S(("signed", T([mkbv(bits)]), K(len(bits))), "int")
    return S(("from_bytes", b, order, signed), "int")


def to_bytes(ip, v, args, kw):
    n = args[0] if args else kw.get("length", K(1))
    order = args[1] if len(args) > 1 else kw.get("byteorder", K("big"))
    signed = kw.get("signed", FALSE)
    v, n, order, signed = flat(ip, v), flat(ip, n), flat(ip, order), flat(ip, signed)
    if all(isinstance(x, K) for x in (v, n, order, signed)):
        try:
            return K(int(v.v).to_bytes(n.v, order.v, signed=signed.v))
        except OverflowError:
            ip.throw(OverflowError, "int too big to convert")
    bits = bits_of(v)
    if bits is not None and isinstance(n, K) and isinstance(order, K) and isinstance(signed, K) and not signed.v:
        if len(bits) <= 8 * n.v:
            bits = bits + [0] * (8 * n.v - len(bits))
            out = [mkbv(bits[i * 8: i * 8 + 8]) for i in range(n.v)]
            if order.v == "big":
                out.reverse()
            return mkbytes(ip, out)
    return S(("to_bytes", v, flat(ip, n), order, signed), "bytes")


def plain(ip, v, d=0):
    """(value,) of a value built of constants only, None otherwise."""
    v = flat(ip, v)
    if isinstance(v, K):
        return (v.v,)
    if d > 6:
        return None
    if isinstance(v, (T, BS)):
        xs = [plain(ip, x, d + 1) for x in v.items]
        if any(x is None for x in xs):
            return None
        return (tuple(x[0] for x in xs),) if isinstance(v, T) else None
    if isinstance(v, R):
        o = ip.o(v)
        if isinstance(o.cls, ClassV) or o.kind not in ("list", "dict", "set") or o.open is not None or o.rep:
            return None
        if o.kind == "list":
            xs = [plain(ip, x, d + 1) for x in o.items]
            if any(x is None for x in xs):
                return None
            if o.extra == "bytearray":
                return (bytearray(x[0] for x in xs),)
            return ([x[0] for x in xs],)
        xs = [(plain(ip, a, d + 1), plain(ip, b, d + 1)) for a, b in o.items.values()]
        if any(a is None or b is None for a, b in xs):
            return None
        if o.kind == "dict":
            return ({a[0]: b[0] for a, b in xs},)
        return ({a[0] for a, _b in xs},)
    return None


def fold(ip, f, args, kw=None):
    """Apply a pure function to constant arguments; None when an argument is not constant."""
    xs = [plain(ip, a) for a in args]
    ks = {k: plain(ip, a) for k, a in (kw or {}).items()}
    if any(x is None for x in xs) or any(x is None for x in ks.values()):
        return None
    try:
        return lift(ip, f(*[x[0] for x in xs], **{k: x[0] for k, x in ks.items()}))
    except Exception as e:  # the error is the program's
        if type(e).__module__ == "builtins":
            ip.throw(type(e), *[x for x in e.args if isinstance(x, (str, int))])
        if isinstance(e, ValueError):
            ip.throw(ValueError, str(e))
        return None


def str_const(ip, v, name, args, kw, pyargs):
    try:
        r = getattr(v.v, name)(*pyargs)
    except Exception as e:  # constant folding of a pure method: the error is the program's
        if isinstance(e, (ValueError, TypeError, IndexError, KeyError, UnicodeError)):
            ip.throw(type(e) if not isinstance(e, UnicodeError) else type(e), str(e))
        raise
    return lift(ip, r)


def lift(ip, r):
    if isinstance(r, (int, float, str, bytes, bool)) or r is None:
        return K(r)
    if isinstance(r, tuple):
        return T([lift(ip, x) for x in r])
    if isinstance(r, list):
        return ip.mklist([lift(ip, x) for x in r])
    if isinstance(r, dict):
        return ip.mkdict([(lift(ip, a), lift(ip, b)) for a, b in r.items()])
    if isinstance(r, (set, frozenset)):
        return ip.mkset([lift(ip, x) for x in r])
    if isinstance(r, bytearray):
        return K(bytes(r))
    return S(("py", repr(r)))


STR_INT = {"find", "index", "count", "rfind"}
STR_BOOL = {"startswith", "endswith", "isdigit", "isalnum", "isalpha", "isupper", "islower", "isnumeric", "isspace"}


def str_method(ip, v, name, args, kw):
    v = ip.unwrap_int(v)
    if name == "format":
        if isinstance(v, K):
            r = str_format(ip, v.v, args, kw)
            if r is not None:
                return r
        return S(("format", v, tuple(args)), "str")
    if name == "join":
        seq = ip.iter_elems(args[0])
        if seq is not None and not (seq[1] is not None and ip.o(seq[1]).rep):
            parts = []
            for i, x in enumerate(seq[0]):
                if i:
                    parts.append(v)
                parts.append(ip.unwrap_int(x))
            return fmt_concat(ip, parts)
        return S(("join", v, args[0]), "str")
    pa = [flat(ip, a) for a in args]
    if isinstance(v, K) and isinstance(v.v, str) and all(isinstance(a, K) for a in pa) and not kw:
        return str_const(ip, v, name, args, kw, [a.v for a in pa])
    if isinstance(v, K) and isinstance(v.v, str):
        if name in ("startswith", "endswith", "translate", "format_map", "maketrans", "split", "rsplit", "encode", "splitlines", "expandtabs"):
            res = fold(ip, getattr(v.v, name), args, kw)
            if res is not None:
                return res
        if name in ("__add__", "__mod__", "__eq__", "__contains__", "__len__", "__getitem__"):
            if name == "__len__":
                return K(len(v.v))
            if name == "__contains__":
                return ip.contains(v, args[0])
            if name == "__getitem__":
                return getitem(ip, v, args[0])
            if name == "__eq__":
                return ip.eq(v, args[0])
            return binop(ip, {"__add__": "+", "__mod__": "%"}[name], v, args[0])
    if name == "encode":
        return S(("encode", v) + tuple(pa), "bytes")
    if name in STR_INT:
        return S(("meth", name, v) + tuple(pa), "int")
    if name in STR_BOOL:
        return S(("meth", name, v) + tuple(pa), "bool")
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        return S(("meth", name, v) + tuple(pa))
    if name in ("__str__", "__repr__"):
        return v
    return S(("meth", name, v) + tuple(pa), "str")


def bytes_method(ip, v, name, args, kw):
    v = ip.unwrap_int(v)
    if name == "join":
        seq = ip.iter_elems(args[0])
        if seq is not None and not (seq[1] is not None and ip.o(seq[1]).rep):
            cur = K(b"")
            for i, x in enumerate(seq[0]):
                if i and v != K(b""):
                    cur = binop(ip, "+", cur, v)
                cur = binop(ip, "+", cur, x)
            return cur
        return S(("join", v, args[0]), "bytes")
    pa = [flat(ip, a) for a in args]
    if isinstance(v, K) and isinstance(v.v, bytes) and all(isinstance(a, K) for a in pa) and all(isinstance(a, K) for a in kw.values()):
        if not kw:
            return str_const(ip, v, name, args, kw, [a.v for a in pa])
    if isinstance(v, K) and isinstance(v.v, bytes):
        res = fold(ip, getattr(v.v, name), args, kw)
        if res is not None:
            return res
    if name in ("startswith", "endswith") and args:
        xs = bytes_items(ip, v)
        alts = list(flat(ip, args[0]).items) if isinstance(flat(ip, args[0]), T) else [args[0]]
        if xs is not None and len(args) == 1 and all(bytes_items(ip, a) is not None for a in alts):
            for a in alts:
                ys = bytes_items(ip, a)
                part = xs[:len(ys)] if name == "startswith" else xs[len(xs) - len(ys):] if ys else []
                if len(ys) <= len(xs) and ip.truth(ip.eq(T(part), T(ys))):
                    return TRUE
            return FALSE
    if name in ("ljust", "rjust") and isinstance(flat(ip, args[0]), K):
        xs = bytes_items(ip, v)
        fill = flat(ip, args[1]) if len(args) > 1 else K(b" ")
        if xs is not None and isinstance(fill, K):
            pad = [K(fill.v[0])] * (flat(ip, args[0]).v - len(xs))
            return mkbytes(ip, xs + pad if name == "ljust" else pad + xs)
    if name in ("removeprefix", "removesuffix"):
        xs, ys = bytes_items(ip, v), bytes_items(ip, args[0])
        if xs is not None and ys is not None:
            k = bytes_method(ip, v, "startswith" if name == "removeprefix" else "endswith", args, {})
            if not ys or not ip.truth(k):
                return v
            return mkbytes(ip, xs[len(ys):] if name == "removeprefix" else xs[:-len(ys)])
    if name in ("decode", "hex"):
        return S(("meth", name, v) + tuple(pa), "str")
    if name in STR_INT:
        return S(("meth", name, v) + tuple(pa), "int")
    if name in STR_BOOL:
        return S(("meth", name, v) + tuple(pa), "bool")
    return S(("meth", name, v) + tuple(pa), "bytes")


def type_of(ip, v):
    if isinstance(v, R):
        o = ip.o(v)
        if o.cls is not None:
            return o.cls
        return BC({"dict": dict, "list": list if o.extra != "bytearray" else bytearray, "set": set}.get(o.kind, object))
    if isinstance(v, K):
        return BC(type(v.v))
    if isinstance(v, TN):
        return v.cls
    if isinstance(v, T):
        return BC(tuple)
    if isinstance(v, BS):
        return BC(bytes)
    if isinstance(v, BV):
        return BC(int)
    if isinstance(v, EN):
        return v.cls
    if isinstance(v, (ClassV, BC)):
        return BC(type)
    if isinstance(v, S) and v.ty in ("int", "str", "bytes", "bool", "float"):
        return BC(getattr(builtins, v.ty))
    return S(("type", v), "obj")


def closed(ip, v, d=0):
    """A value whose order against others is decided: built of constants, or of a class that defines `<`."""
    v = flat(ip, v)
    if isinstance(v, K) or ip.pyval(v) is not None:
        return True
    if isinstance(v, T) and d < 6:
        return all(closed(ip, x, d + 1) for x in v.items)
    if isinstance(v, R) and d < 6:
        o = ip.o(v)
        if o.kind == "list":
            ks = ip.known_seq(v)
            return ks is not None and all(closed(ip, x, d + 1) for x in ks)
        return isinstance(o.cls, ClassV) and isinstance(ip.class_lookup(o.cls, "__lt__"), FuncV)
    if isinstance(v, S) and isinstance(v.term, tuple) and v.term[:1] == ("ipv6",):
        return isinstance(v.term[1], K)
    return False


def sort_elems(ip, items, key=None, reverse=False):
    """The elements in order, None when the order is not decided by what is known of them."""
    items = list(items)
    if len(items) < 2:
        if key is not None and key != NONE:
            for x in items:
                ip.call(key, [x], {})
        return items
    keys = [x if key is None or key == NONE else ip.call(key, [x], {}) for x in items]
    if not all(closed(ip, k) for k in keys):
        return None
    pairs = list(zip(keys, items))
    if reverse:
        pairs.reverse()
    pv = [ip.pyval(flat(ip, k)) for k in keys]
    out = []
    if all(x is not None for x in pv):
        try:
            out = sorted(zip(pv[::-1] if reverse else pv, pairs), key=lambda p: p[0][0])
            out = [p for _k, p in out]
        except TypeError:
            ip.throw(TypeError, "'<' not supported")
    else:
        for k, x in pairs:
            i = len(out)
            while i and ip.truth(ip.compare("<", k, out[i - 1][0])):
                i -= 1
            out.insert(i, (k, x))
    if reverse:
        out.reverse()
    return [x for _k, x in out]


# ---------------------------------------------------------------- built-ins
def builtin_call(ip, f, args, kw):
    if isinstance(f, BC):
        return construct_builtin(ip, f, args, kw)
    name, slf = f.name, f.self
    if "." in name:
        return method_call(ip, name, slf, args, kw)
    if name == "len":
        return length(ip, args[0])
    if name == "isinstance":
        return ip.isinstance_(args[0], args[1])
    if name == "issubclass":
        a, b = args
        if isinstance(b, T):
            return K(any(isinstance(a, (ClassV, BC)) and ip.subclass(a, x) for x in b.items))
        if isinstance(a, (ClassV, BC)) and isinstance(b, (ClassV, BC)):
            return K(ip.subclass(a, b))
        if isinstance(a, (ClassV, BC)) and isinstance(b, E):
            return K(isinstance(a, ClassV) and b in a.mro)
        return ip.pred(("subcls", a, b))
    if name == "hasattr":
        if isinstance(args[1], K):
            return K(ip.hasattr_(args[0], args[1].v))
        return ip.pred(("hasattr", args[0], args[1]))
    if name == "getattr":
        if isinstance(args[1], K):
            nm = args[1].v
            if len(args) > 2:
                if isinstance(args[0], S) and args[0].ty is None:
                    if not ip.decide(("hasattr", args[0], nm)):
                        return args[2]
                    return ip.getattr(args[0], nm)
                n = len(ip.events)
                try:
                    return ip.getattr(args[0], nm)
                except AbsRaise as e:
                    if ip.exc_matches(e.exc, BC(AttributeError)):
                        del ip.events[n:]
                        return args[2]
                    raise
            return ip.getattr(args[0], nm)
        if len(args) > 2:
            if not ip.decide(("hasattr", args[0], args[1])):
                return args[2]
        return S(("getattr", args[0], args[1]))
    if name == "setattr":
        if isinstance(args[1], K):
            ip.setattr(args[0], args[1].v, args[2])
        else:
            ip.ev("setattr", "?", args[0], (args[1], args[2]))
        return NONE
    if name == "delattr":
        ip.delattr(args[0], args[1].v if isinstance(args[1], K) else "?")
        return NONE
    if name == "sorted":
        seq = ip.iter_elems(args[0])
        if seq is not None:
            rep = bool(seq[1] is not None and ip.o(seq[1]).rep)
            if not rep:
                res = sort_elems(ip, seq[0], kw.get("key"), "reverse" in kw and ip.truth(kw["reverse"]))
                if res is not None:
                    return ip.mklist(res)
            return ip.mklist(list(seq[0]), rep=rep)
        return S(("sorted", args[0]), "obj")
    if name == "reversed":
        seq = ip.iter_elems(args[0])
        if seq is not None:
            return ip.mklist(list(seq[0])[::-1], rep=bool(seq[1] is not None and ip.o(seq[1]).rep))
        return S(("reversed", args[0]), "obj")
    if name in ("any", "all"):
        want = name == "any"
        a = args[0]
        if ip.lazy(a):
            step = ip.stepper(a)
            while True:
                x = step()
                if x is None:
                    return K(not want)
                if ip.truth(x) == want:
                    return K(want)
        seq = ip.iter_elems(a)
        if seq is None:
            return S((name, a), "bool")
        for x in seq[0]:
            if ip.truth(x) == want:
                return K(want)
        return K(not want)
    if name in ("min", "max"):
        if len(args) == 1:
            seq = ip.iter_elems(args[0])
            if seq is None or (seq[1] is not None and ip.o(seq[1]).rep):
                if "default" in kw and not ip.loop_nonempty(args[0]):
                    return kw["default"]
                return S((name + "of", args[0]), "int")
            if not seq[0]:
                if "default" in kw:
                    return kw["default"]
                ip.throw(ValueError, "%s() arg is an empty sequence" % name)
            args = list(seq[0])
        vs = [flat(ip, a) for a in args]
        key = kw.get("key", NONE)
        if key == NONE and all(isinstance(v, K) for v in vs):
            try:
                return args[vs.index(K((min if name == "min" else max)(v.v for v in vs)))]
            except TypeError as e:
                ip.throw(TypeError, str(e))
        if len(vs) > 1:
            keys = [a if key == NONE else ip.call(key, [a], {}) for a in args]
            if all(closed(ip, k) for k in keys):
                best = 0
                for i in range(1, len(keys)):
                    a, b = (keys[i], keys[best]) if name == "min" else (keys[best], keys[i])
                    if ip.truth(ip.compare("<", a, b)):
                        best = i
                return args[best]
            if key != NONE:
                return S((name + "by", key) + tuple(vs))
        if len(vs) == 1:
            return vs[0]
        return S((name,) + tuple(vs), "int")
    if name == "sum":
        seq = ip.iter_elems(args[0])
        start = args[1] if len(args) > 1 else K(0)
        if seq is None or (seq[1] is not None and ip.o(seq[1]).rep):
            return S(("sum", args[0]), "int")
        cur = start
        for x in seq[0]:
            cur = binop(ip, "+", cur, x)
        return cur
    if name == "next":
        it = args[0]
        if isinstance(it, R) and ip.o(it).kind == "iter":
            x = ip.next_elem(it)
            if x is not None:
                return x
            if len(args) > 1:
                return args[1]
            ip.throw(StopIteration)
        if isinstance(it, R) and isinstance(ip.o(it).cls, ClassV) and isinstance(ip.class_lookup(ip.o(it).cls, "__next__"), FuncV):
            try:
                return ip.call(ip.getattr(it, "__next__"), [], {})
            except AbsRaise as e:
                if len(args) > 1 and ip.exc_matches(e.exc, BC(StopIteration)):
                    return args[1]
                raise
        if isinstance(it, R) and ip.o(it).kind == "gen" and ip.sched is not None:
            more, x = ip.gen_next(it)
            if more:
                return x
            if len(args) > 1:
                return args[1]
            exc = ip.mkexc(BC(StopIteration), *([x] if x != NONE else []))
            ip.w(exc).attrs["value"] = x
            raise AbsRaise(exc)
        if isinstance(it, R) and ip.o(it).kind == "gen":
            x = ip.make_iter(it)
            if x is not None:
                it2 = ip.o(x).extra
                ip.w(it).kind = "iter"
                ip.w(it).extra = it2
                return builtin_call(ip, BI("next"), [it] + list(args[1:]), {})
        seq = ip.iter_elems(it)
        if seq is not None:
            if seq[0]:
                if isinstance(it, R) and ip.o(it).kind == "list" and ip.o(it).extra == "genexp" and not ip.o(it).rep:
                    return ip.w(it).items.pop(0)
                return seq[0][0]
            if len(args) > 1:
                return args[1]
            ip.throw(StopIteration)
        t = it.term if isinstance(it, S) else None
        first = True
        if isinstance(t, tuple) and t[0] == "iter":
            # an iterator over something unknown: one element stands for all
            first = t not in ip.seen_iters
            ip.seen_iters.add(t)
        if first and ip.loop_nonempty(it):
            return ip.rep_elem(it, (ip.loc(), ip.uid()))
        if len(args) > 1:
            return args[1]
        ip.throw(StopIteration)
    if name == "iter" and len(args) == 2 and ip.sched is not None:
        def run(hook):
            while True:
                x = ip.call(args[0], [], {})
                if ip.truth(ip.eq(x, args[1])):
                    return NONE
                hook(x)
        return ip.mkgen(run)
    if name == "iter":
        a = args[0]
        if isinstance(a, R) and isinstance(ip.o(a).cls, ClassV) and isinstance(ip.class_lookup(ip.o(a).cls, "__iter__"), FuncV):
            a = ip.call(ip.getattr(a, "__iter__"), [], {})
            if isinstance(a, R) and ip.o(a).kind in ("gen", "iter") and ip.sched is not None:
                return a
            if isinstance(a, R) and isinstance(ip.o(a).cls, ClassV) and isinstance(ip.class_lookup(ip.o(a).cls, "__next__"), FuncV):
                return a
        r = ip.make_iter(a)
        if r is not None:
            return r
        return S(("iter", a, ip.uid()), "obj")
    if name in ("repr", "format", "bin", "hex", "oct"):
        v = flat(ip, args[0])
        if isinstance(v, K) and len(args) == 1 and not (isinstance(ip.unwrap_int(args[0]), EN) and name in ("repr", "format")):
            return K(getattr(builtins, name)(v.v))
        if name == "format":
            return fmt_value(ip, args[0], *args[1:2])
        if name == "repr":
            return fmt_value(ip, args[0], None, ord("r"))
        return S((name, v) + tuple(args[1:]), "str")
    if name == "print":
        return NONE
    if name == "property":
        return PropV(args[0] if args else NONE, args[1] if len(args) > 1 else None)
    if name == "staticmethod":
        return StaticV(args[0])
    if name == "classmethod":
        return ClassMV(args[0])
    if name == "callable":
        if isinstance(args[0], (FuncV, BM, ClassV, BC, BI)):
            return TRUE
        if isinstance(args[0], K):
            return FALSE
        return ip.pred(("callable", args[0]))
    if name == "id":
        a = args[0]
        if isinstance(a, R):
            return S(("new", "id", ip.o(a).prov), "int")
        return S(("id", a), "int")
    if name == "abs":
        v = flat(ip, args[0])
        if isinstance(v, K):
            return K(abs(v.v))
        return S(("abs", v), "int")
    if name in ("ord", "chr", "hash", "round"):
        v = flat(ip, args[0])
        if isinstance(v, K) and len(args) == 1:
            return K(getattr(builtins, name)(v.v))
        return S((name, v), "str" if name == "chr" else "int")
    if name == "divmod":
        return T([binop(ip, "//", args[0], args[1]), binop(ip, "%", args[0], args[1])])
    if name in ("round", "pow") and len(args) > 1:
        vs = [flat(ip, a) for a in args]
        if all(isinstance(v, K) for v in vs):
            try:
                return K(getattr(builtins, name)(*[v.v for v in vs]))
            except (TypeError, ValueError) as e:
                ip.throw(type(e), str(e))
    if name == "pow":
        return binop(ip, "**", args[0], args[1])
    if name == "vars":
        return ip.getattr(args[0], "__dict__")
    if name == "open":
        if "open" in ip.cfg.ext:
            return ip.cfg.ext["open"](ip, list(args), dict(kw))
        return ip.opaque("ext", "open", None, args, kw)
    if name == "dir":
        return S(("dir", args[0]), "obj")
    if name == "identity":
        return args[0]
    if name == "input":
        return ip.opaque("ext", "input", None, args, kw)
    raise AnalysisError("builtin %s at %s" % (name, ip.loc()))


def construct_builtin(ip, f, args, kw):
    t = f.t
    if issubclass(t, BaseException):
        return ip.mkexc(f, *args)
    if t is int:
        if not args:
            return K(0)
        if len(args) > 1 or "base" in kw:
            v, b = flat(ip, args[0]), flat(ip, args[1] if len(args) > 1 else kw["base"])
            if isinstance(v, K) and isinstance(b, K):
                try:
                    return K(int(v.v, b.v))
                except ValueError as e:
                    ip.throw(ValueError, str(e))
            return S(("intbase", v, b), "int")
        return ip.to_int(args[0])
    if t is float:
        v = flat(ip, args[0]) if args else K(0.0)
        if isinstance(v, K) and not isinstance(v.v, bytes):
            try:
                return K(float(v.v))
            except (ValueError, TypeError) as e:
                ip.throw(type(e), str(e))
        return S(("float", v), "float")
    if t is bool:
        if not args:
            return FALSE
        v = args[0]
        if isinstance(v, S):
            if v.ty == "bool":
                return v
            return S(("bool", v), "bool")
        raw = ip.unwrap_int(v) if isinstance(v, R) else v
        if isinstance(raw, BV) and len(raw.bits) == 1:
            return raw
        return K(ip.truth(v))
    if t is str:
        if not args:
            return K("")
        if len(args) > 1 or kw:
            return S(("strdecode",) + tuple(args), "str")
        v = ip.unwrap_int(args[0])
        if isinstance(v, K):
            return K(str(v.v))
        if isinstance(v, S) and v.ty == "str":
            return v
        return fmt_concat(ip, [fmt_value(ip, args[0])])
    if t is bytes:
        if not args:
            return K(b"")
        a = ip.unwrap_int(args[0])
        if isinstance(a, K) and isinstance(a.v, bytes) or isinstance(a, BS):
            return a
        if isinstance(a, K) and isinstance(a.v, int):
            if a.v < 0:
                ip.throw(ValueError, "negative count")
            return K(bytes(a.v)) if a.v < 100000 else S(("zeros", a), "bytes")
        if isinstance(a, K) and isinstance(a.v, str) and len(args) > 1:
            return K(a.v.encode())
        items = bytes_items(ip, a)
        if items is None:
            seq = ip.iter_elems(a)
            if seq is not None and not (seq[1] is not None and ip.o(seq[1]).rep):
                items = list(seq[0])
        if items is not None:
            if all(isinstance(flat(ip, x), (K, BV)) for x in items):
                return mkbytes(ip, items)
            return S(("bytes", T(items)), "bytes")
        if isinstance(a, S) and a.ty == "bytes":
            return a
        if isinstance(a, R):
            o = ip.sync(a)
            return S(("bytesof", ip.ckey(a), tuple(o.items)), "bytes")
        return S(("bytes", a), "bytes")
    if t in (dict, list, set, frozenset, tuple, bytearray):
        r = make_container(ip, t, args)
        if t is dict and kw:
            for k, v in kw.items():
                if k != "**":
                    ip.w(r).items[("k", k)] = (K(k), v)
        return r
    if t is type:
        if len(args) == 1:
            return type_of(ip, args[0])
        if not isinstance(args[0], K):
            raise AnalysisError("type() with 3 arguments")
        fr = ip.frames[-1]
        bases = [x for x in ip.iter_elems(args[1])[0]]
        cls = ClassV(args[0].v, fr.module.name + "." + args[0].v, fr.module, bases)
        for b in bases:
            if isinstance(b, ClassV) and b.enum_kind:
                raise AnalysisError("type() with 3 arguments")
        for k, v in ip.o(args[2]).items.values():
            cls.attrs[k.v] = v
        cls.mro = ip.compute_mro(cls)
        return cls
    if t is object:
        return ip.alloc("inst", BC(object))
    if t is range:
        vs = [flat(ip, a) for a in args]
        if len(vs) == 1:
            vs = [K(0)] + vs
        step = vs[2] if len(vs) > 2 else K(1)
        if all(isinstance(v, K) for v in vs):
            rr = range(vs[0].v, vs[1].v, step.v)
            if len(rr) <= ip.cfg.concrete_range:
                return T([K(i) for i in rr])
        return S(("range", vs[0], vs[1], step), "obj")
    if t is enumerate:
        start = flat(ip, args[1] if len(args) > 1 else kw.get("start", K(0)))
        seq = ip.iter_elems(args[0])
        if seq is not None and isinstance(start, K) and not (seq[1] is not None and ip.o(seq[1]).rep):
            return T([T([K(i + start.v), x]) for i, x in enumerate(seq[0])])
        return S(("enumerate", args[0]), "obj")
    if t is zip and ip.sched is not None:
        steps = [ip.stepper(a) for a in args]
        if steps and all(s is not None for s in steps):
            strict = ip.truth(kw["strict"]) if "strict" in kw else False

            def run(hook):
                while True:
                    row = []
                    for i, st in enumerate(steps):
                        x = st()
                        if x is None:
                            if strict and (i or any(o() is not None for o in steps[1:])):
                                ip.throw(ValueError, "zip() arguments have different lengths")
                            return NONE
                        row.append(x)
                    hook(T(row))
            return ip.mkgen(run)
        if not steps:
            return T(())
    if t is zip:
        seqs = [ip.iter_elems(a) for a in args]
        if all(s is not None and not (s[1] is not None and ip.o(s[1]).rep) for s in seqs):
            return T([T(x) for x in zip(*[s[0] for s in seqs])])
        return S(("zip",) + tuple(args), "obj")
    if t in (map, filter) and ip.sched is not None:
        steps = [ip.stepper(a) for a in args[1:]]
        if all(s is not None for s in steps):
            def run(hook):
                while True:
                    row = []
                    for st in steps:
                        x = st()
                        if x is None:
                            return NONE
                        row.append(x)
                    if t is map:
                        hook(ip.call(args[0], row, {}))
                    elif ip.truth(row[0] if args[0] == NONE else ip.call(args[0], row, {})):
                        hook(row[0])
            return ip.mkgen(run)
    if t is enumerate and ip.lazy(args[0]):
        step = ip.stepper(args[0])
        n = flat(ip, args[1] if len(args) > 1 else kw.get("start", K(0)))
        if isinstance(n, K):
            def run(hook):
                i = n.v
                while True:
                    x = step()
                    if x is None:
                        return NONE
                    hook(T([K(i), x]))
                    i += 1
            if ip.sched is not None:
                return ip.mkgen(run)
    if t in (map, filter):
        seq = ip.iter_elems(args[1])
        if seq is not None:
            out = []
            for x in seq[0]:
                if t is map:
                    out.append(ip.call(args[0], [x], {}))
                else:
                    c = x if args[0] == NONE else ip.call(args[0], [x], {})
                    if ip.truth(c):
                        out.append(x)
            return ip.mklist(out, rep=bool(seq[1] is not None and ip.o(seq[1]).rep))
        return S(("map" if t is map else "filter", args[0], args[1]), "obj")
    if t is reversed:
        return builtin_call(ip, BI("reversed"), args, kw)
    if t is slice:
        a = list(args) + [NONE] * 3
        if len(args) == 1:
            return S(("slice", NONE, a[0], NONE))
        return S(("slice", a[0], a[1], a[2]))
    if t is memoryview:
        return args[0]
    raise AnalysisError("constructor %s at %s" % (t, ip.loc()))


def method_call(ip, name, slf, args, kw):
    base, meth = name.split(".", 1)
    if base == "property":
        if meth == "setter":
            return PropV(slf.fget, args[0], slf.fdel)
        if meth == "deleter":
            return PropV(slf.fget, slf.fset, args[0])
        return PropV(args[0], slf.fset, slf.fdel)
    if base == "function":
        if meth == "__get__":
            if args and args[0] != NONE:
                return BM(slf, args[0])
            return slf
    if base == "extsuper":
        if meth in ("__init__", "__init_subclass__", "__setattr__"):
            if meth == "__setattr__":
                ip.rawset(slf, args[0].v, args[1])
            return NONE
        return ip.opaque("call", meth, slf, args, kw)
    if meth == "from_bytes":
        return from_bytes(ip, args, kw)
    if meth == "fromhex":
        if isinstance(args[0], K):
            return K(bytes.fromhex(args[0].v))
        return S(("fromhex", args[0]), "bytes")
    if slf is None or isinstance(slf, ClassV) and meth not in ("fromkeys", "__init_subclass__"):
        if base == "object" and isinstance(slf, ClassV) and meth == "__new__":
            return ip.instantiate(args[0], args[1:])
        if meth == "__new__":
            cls = args[0]
            if isinstance(cls, ClassV):
                return ip.instantiate(cls, args[1:])
            return construct_builtin(ip, cls, args[1:], kw)
        if slf is None and base == "dict" and meth == "fromkeys":
            return dict_method(ip, None, "fromkeys", args, kw) if False else _fromkeys(ip, args)
        if args:
            slf, args = args[0], args[1:]
    if base in EXC_NAMES and isinstance(slf, R) and ip.is_exc(slf):
        if meth == "__init__":
            ip.w(slf).attrs["args"] = T(args)
            return NONE
        if meth == "with_traceback":
            return slf
        if meth == "add_note":
            return NONE
        if meth == "__str__":
            from .models import fmt_value as fv
            o = ip.o(slf)
            a = o.attrs.get("args")
            if isinstance(a, T) and len(a.items) == 1:
                return fv(ip, a.items[0])
            if isinstance(a, T) and not a.items:
                return K("")
    if base == "object" or meth == "__getstate__" or meth in ("__setattr__", "__getattribute__", "__new__", "__init_subclass__") and base != "coro":
        return object_method(ip, meth, slf, args, kw)
    if isinstance(slf, SuperV):
        slf = slf.self
    if base in ("list", "dict", "set", "frozenset", "bytearray"):
        if isinstance(slf, R):
            k = ip.o(slf).kind
            if k == "dict":
                return dict_method(ip, slf, meth, args, kw)
            if k == "set":
                return set_method(ip, slf, meth, args, kw)
            if k == "list":
                return list_method(ip, slf, meth, args, kw)
    if base == "str":
        return str_method(ip, slf, meth, args, kw)
    if base == "bytes":
        return bytes_method(ip, slf, meth, args, kw)
    if base in ("int", "float", "bool"):
        if meth == "to_bytes":
            return to_bytes(ip, slf, args, kw)
        v = flat(ip, slf)
        if meth == "__init__":
            return NONE
        if meth in ("__int__", "__index__", "__trunc__"):
            return ip.to_int(v)
        if meth in ("__str__", "__repr__"):
            return fmt_value(ip, v)
        if isinstance(v, K) and all(isinstance(flat(ip, a), K) for a in args):
            return lift(ip, getattr(v.v, meth)(*[flat(ip, a).v for a in args]))
        if meth == "__eq__":
            return ip.eq(v, args[0])
        return S(("meth", meth, v) + tuple(args), "int")
    if base == "tuple":
        if isinstance(slf, T):
            if meth in ("index", "count"):
                return seq_find(ip, list(slf.items), meth, args)
            if meth == "_replace":
                return TN([kw.get(n, x) for n, x in zip(slf.names, slf.items)], slf.cls, slf.names)
            if meth == "_asdict":
                return ip.mkdict([(K(n), x) for n, x in zip(slf.names, slf.items)])
            if meth == "__iter__":
                return slf if ip.sched is None else builtin_call(ip, BI("iter"), [slf], {})
            if meth == "__len__":
                return K(len(slf.items))
            if meth == "__getitem__":
                return getitem(ip, slf, args[0])
            if meth == "__contains__":
                return ip.contains(slf, args[0])
            if meth == "__eq__":
                return ip.eq(slf, args[0])
    if meth == "__await__" and ip.sched is not None:
        return ip.mkgen(lambda hook: ip.await_value(slf))
    if base == "view":
        return ip.opaque("call", meth, slf, args, kw)
    if base in ("iter", "gen") and isinstance(slf, R) and ip.sched is not None and meth in ("send", "throw", "close", "asend", "athrow", "aclose", "__anext__"):
        if meth in ("close", "aclose"):
            if ip.o(slf).kind == "gen":
                ip.gen_close(slf)
            return aio.Awaitable(ip, lambda: NONE).ref if meth == "aclose" else NONE
        if meth == "throw" or meth == "athrow":
            exc = args[0]
            if isinstance(exc, (ClassV, BC)):
                exc = ip.call(exc, list(args[1:2]), {})
            msg = ("throw", exc)
        else:
            msg = ("send", args[0] if args else NONE)
        isasync = meth in ("asend", "athrow", "__anext__")

        def go():
            more, x = ip.gen_next(slf, msg)
            if more:
                return x
            if isasync:
                ip.throw(StopAsyncIteration)
            exc = ip.mkexc(BC(StopIteration), *([x] if x != NONE else []))
            ip.w(exc).attrs["value"] = x
            raise AbsRaise(exc)
        if isasync:
            return aio.Awaitable(ip, go).ref
        return go()
    if base in ("iter", "gen") and meth in ("__aiter__",):
        return slf
    if base in ("iter", "gen") and meth in ("__next__", "__iter__"):
        return slf if meth == "__iter__" else builtin_call(ip, BI("next"), [slf], {})
    if base in ("coro", "gen", "ctxmgr", "waitfor", "gather"):
        if meth in ("close", "cancel"):
            ip.ev("call", meth, slf, args, kw)
            return NONE
        return ip.opaque("call", meth, slf, args, kw)
    raise AnalysisError("method %s on %r at %s" % (name, slf, ip.loc()))


def _fromkeys(ip, args):
    r = ip.alloc("dict")
    return dict_method(ip, r, "fromkeys", args, {})


def object_method(ip, meth, slf, args, kw):
    if meth in ("__init__", "__init_subclass__"):
        if isinstance(slf, R) and ip.o(slf).kind in CONTAINER and args and meth == "__init__":
            ip.container_init(slf, args[0])
        return NONE
    if meth == "__setattr__":
        ip.rawset(slf, args[0].v if isinstance(args[0], K) else "?", args[1])
        return NONE
    if meth == "__delattr__":
        ip.delattr(slf, args[0].v)
        return NONE
    if meth == "__getattribute__":
        return ip.getattr(slf, args[0].v)
    if meth == "__new__":
        return ip.instantiate(slf if isinstance(slf, ClassV) else args[0], args)
    if meth == "__eq__":
        return K(slf == args[0])
    if meth == "__ne__":
        return K(slf != args[0])
    if meth in ("__repr__", "__str__"):
        return S(("repr", slf), "str")
    if meth == "__hash__":
        return S(("hash", slf), "int")
    if meth == "__getstate__":
        # object.__getstate__ (Python >= 3.11): the instance dict, or None when there is none
        if isinstance(slf, R):
            o = ip.o(slf)
            if o.attrs or o.fields:
                return ip.getattr(slf, "__dict__")
            return NONE
        return NONE
    if meth in ("__reduce__", "__dir__", "__sizeof__"):
        return S(("obj", meth, slf))
    if meth in ("__class__",):
        return type_of(ip, slf)
    raise AnalysisError("object.%s at %s" % (meth, ip.loc()))


# ---------------------------------------------------------------- library calls
def spawn(ip, name, args, kw):
    for a in args:
        ip.share(a)
    res = S(("task", ip.uid()), "obj")
    ip.ev("spawn", name, None, args, kw, res)
    return res


EXC_NAMES = {n for n, t in vars(builtins).items() if isinstance(t, type) and issubclass(t, BaseException)} | {"CancelledError", "QueueEmpty", "QueueFull", "InvalidStateError"}
FOLD_MODULES = ("math", "binascii", "textwrap", "unicodedata", "base64", "zlib", "html", "shlex", "fnmatch", "ntpath", "posixpath")
FOLD_NAMES = ("os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext", "os.path.split", "os.path.normpath",
              "os.path.commonprefix", "os.path.isabs", "os.fspath", "json.dumps", "json.loads", "re.escape", "socket.inet_pton", "socket.inet_ntop",
              "socket.inet_aton", "socket.htons", "socket.ntohs", "socket.htonl", "socket.ntohl")
PURE_EXT = ("os.path.", "math.", "string.", "operator.", "inspect.", "typing.", "ipaddress.", "socket.inet_", "binascii.", "struct.")


def functional_enum(ip, name, args):
    from .absint import ENUM_BASES
    fr = ip.frames[-1]
    cls = ClassV(args[0].v, fr.module.name + "." + args[0].v, fr.module, [E(name)])
    cls.enum_kind = ENUM_BASES[name]
    cls.mro = ip.compute_mro(cls)
    f = flat(ip, args[1])
    pairs = []
    if isinstance(f, K):
        names = f.v.replace(",", " ").split()
        pairs = [(n, (1 << i) if "Flag" in name else i + 1) for i, n in enumerate(names)]
    elif isinstance(f, R) and ip.o(f).kind == "dict":
        pairs = [(a.v, flat(ip, b).v) for a, b in ip.o(f).items.values()]
    else:
        for i, x in enumerate(ip.known_seq(f)):
            if isinstance(x, T):
                pairs.append((x.items[0].v, flat(ip, x.items[1]).v))
            else:
                pairs.append((x.v, (1 << i) if "Flag" in name else i + 1))
    for n, v in pairs:
        alias = [m for m in cls.members.values() if m.val == v]
        cls.members[n] = cls.attrs[n] = alias[0] if alias else EN(cls, n, v)
    return cls


def ipv6(ip, v):
    """ipaddress.IPv6Address(v): the address whose 16 packed bytes (or text form) are v."""
    v = ip.unwrap_int(v)
    if isinstance(v, S) and isinstance(v.term, tuple) and v.term[0] == "ipv6":
        return v
    if isinstance(v, BS) and len(v.items) != 16:
        ip.throw(ValueError, "not 16 bytes")
    if isinstance(v, BS) and all(isinstance(x, K) for x in v.items):
        v = K(bytes(x.v for x in v.items))
    if isinstance(v, K):
        import ipaddress
        try:
            a = ipaddress.IPv6Address(v.v)
        except (ValueError, TypeError) as e:
            ip.throw(ValueError, str(e))
        return S(("ipv6", K(a.packed)), "obj")
    return S(("ipv6", v), "obj")


def ext_call(ip, name, args, kw):
    last = name.rsplit(".", 1)[-1]
    if name in ("ipaddress.ip_address", "ipaddress.ip_interface", "ipaddress.IPv6Interface") and args and last == "ip_address":
        a = ip.unwrap_int(args[0])
        if isinstance(a, K) and isinstance(a.v, str) and ":" in a.v or isinstance(a, BS) and len(a.items) == 16 or isinstance(a, K) and isinstance(a.v, bytes) and len(a.v) == 16:
            return ipv6(ip, a)
    if name == "ipaddress.v6_int_to_packed" and args and isinstance(flat(ip, args[0]), K):
        return K(flat(ip, args[0]).v.to_bytes(16, "big"))
    if name == "ipaddress.IPv6Address" and args and isinstance(ip.unwrap_int(args[0]), (K, BS)):
        return ipv6(ip, args[0])
    if name == "math.pow" and len(args) == 2:
        x, y = flat(ip, args[0]), flat(ip, args[1])
        if isinstance(x, K) and isinstance(y, K):
            import math
            return K(math.pow(x.v, y.v))
    if name.startswith("logging."):
        if last == "getLogger":
            return S(("logger",), "obj")
        return NONE
    if name.startswith("asyncio."):
        if ip.sched is not None:
            res = aio.call(ip, last, args, kw)
            if res is not None:
                return res
        if last == "wait_for":
            r = ip.alloc("waitfor")
            ip.w(r).extra = (args[0], args[1] if len(args) > 1 else kw.get("timeout", NONE))
            return r
        if last in ("ensure_future", "create_task", "run_coroutine_threadsafe"):
            return spawn(ip, last, args, kw)
        if last == "gather":
            r = ip.alloc("gather")
            ip.w(r).extra = [a for a in args]
            return r
        if last in ("get_event_loop", "get_running_loop", "new_event_loop"):
            return LOOP
        if last in ("Event", "Lock", "Queue", "Future", "Condition", "Semaphore", "LifoQueue", "BoundedSemaphore"):
            res = S(("new", "asyncio." + last, ip.uid()), "obj")
            ip.ev("ext", name, None, args, kw, res)
            return res
        if last == "sleep":
            ip.ev("ext", name, None, args, kw)
            return S(("sleep", ip.uid()), "obj")
        if last == "shield":
            return args[0] if isinstance(args[0], S) else args[0]
        if last in ("iscoroutinefunction", "iscoroutine", "isfuture"):
            return iscoro(ip, last, args[0])
        if last == "iscoroutinefunction":
            return iscoro(ip, last, args[0])
        return ip.opaque("ext", name, None, args, kw)
    if name in ("inspect.iscoroutinefunction", "inspect.isawaitable", "inspect.iscoroutine"):
        return iscoro(ip, last, args[0])
    if name == "contextlib.contextmanager" or name == "contextlib.asynccontextmanager":
        f = args[0]
        g = FuncV(f.node, f.module, f.closure, f.qualname, f.cls)
        g.defaults, g.kwdefaults, g.is_async, g.is_gen = f.defaults, f.kwdefaults, f.is_async, f.is_gen
        g.ctxmgr = True
        g.actx = last.startswith("async")
        return g
    if name == "contextlib.suppress":
        r = ip.alloc("suppress")
        ip.w(r).extra = list(args)
        return r
    if name == "contextlib.nullcontext":
        r = ip.alloc("suppress")
        ip.w(r).extra = []
        return r
    if name == "functools.wraps" or name == "functools.update_wrapper":
        return BI("identity") if last == "wraps" else args[0]
    if name == "functools.partial":
        r = ip.alloc("partial")
        ip.w(r).extra = (args[0], tuple(args[1:]), dict(kw))
        return r
    if name in ("functools.lru_cache", "functools.cache", "functools.cached_property"):
        if args and isinstance(args[0], FuncV):
            if last != "cached_property":
                return args[0]
            p = PropV(args[0])
            p.cached = True
            return p
        return BI("identity")
    if name == "dataclasses.dataclass":
        if args and isinstance(args[0], ClassV):
            return ip.make_dataclass(args[0], kw)
        r = ip.alloc("pycall")
        opts = dict(kw)
        ip.w(r).extra = lambda ip2, a, k: ip2.make_dataclass(a[0], opts) if isinstance(a[0], ClassV) else a[0]
        return r
    if name in ("collections.namedtuple", "typing.NamedTuple") and len(args) >= 2 and isinstance(args[0], K):
        f = flat(ip, args[1])
        if isinstance(f, K):
            names = [(n, None) for n in f.v.replace(",", " ").split()]
        else:
            names = [(x.v, None) if isinstance(x, K) else (x.items[0].v, None) for x in ip.known_seq(f)]
        if isinstance(kw.get("defaults"), V):
            ds = ip.known_seq(kw["defaults"])
            names = names[:len(names) - len(ds)] + [(n, d) for (n, _x), d in zip(names[len(names) - len(ds):], ds)]
        return ip.make_namedtuple(args[0].v, names)
    if name in ("enum.Enum", "enum.IntEnum", "enum.IntFlag", "enum.Flag", "enum.StrEnum") and len(args) >= 2 and isinstance(args[0], K):
        return functional_enum(ip, name, args)
    if name == "functools.reduce":
        seq = ip.iter_elems(args[1])
        if seq is not None:
            items = list(seq[0])
            cur = args[2] if len(args) > 2 else items.pop(0)
            for x in items:
                cur = ip.call(args[0], [cur, x], {})
            return cur
        return S(("reduce",) + tuple(args))
    if name in ("abc.abstractmethod", "typing.no_type_check", "typing.overload", "typing.final"):
        return args[0]
    if name == "abc.abstractproperty":
        return PropV(args[0])
    if name == "enum.auto":
        return S(("enum.auto",))
    if name in ("enum.unique",):
        return args[0]
    if name == "typing.cast":
        return args[1]
    if name.startswith("typing."):
        return E(name + "()")
    if name in ("collections.OrderedDict",):
        return make_container(ip, dict, args)
    if name == "collections.defaultdict":
        r = ip.alloc("dict")
        if args and args[0] != NONE:
            ip.w(r).extra = ("defaultdict", args[0])
        return r
    if name == "collections.deque":
        r = make_container(ip, list, args[:1])
        return r
    if name in ("copy.copy", "copy.deepcopy"):
        if name == "copy.deepcopy" and ip.sched is not None:
            return deepcopy(ip, args[0], {})
        if isinstance(args[0], R) and ip.o(args[0]).kind in CONTAINER:
            return snapshot(ip, args[0])
        if isinstance(args[0], (K, T, BS, EN)):
            return args[0]
        if isinstance(args[0], R):
            o = ip.o(args[0])
            r = ip.alloc(o.kind, o.cls)
            w = ip.w(r)
            w.attrs = dict(o.attrs)
            w.fields = dict(o.fields) if o.fields is not None else None
            w.payload, w.lazy, w.extra = o.payload, o.lazy, o.extra
            return r
        return S(("copy", args[0]))
    if name in ("random.randint", "random.randrange", "secrets.randbelow"):
        vs = [flat(ip, a) for a in args]
        if name == "random.randint" and all(isinstance(v, K) for v in vs):
            return S(("rng", "rand", ip.uid(), vs[0].v, vs[1].v), "int")
        if vs and isinstance(vs[-1], K):
            lo = vs[0].v if len(vs) > 1 and isinstance(vs[0], K) else 0
            return S(("rng", "rand", ip.uid(), lo, vs[-1].v - 1), "int")
    if name == "itertools.chain":
        return S(("chain",) + tuple(args), "obj")
    if name == "itertools.count":
        return S(("count", ip.uid()), "obj")
    if name.startswith("operator.") and last in ("itemgetter", "attrgetter"):
        return BI("identity")
    if name.split(".")[0] in FOLD_MODULES or name in FOLD_NAMES:
        f = importlib.import_module(name.rsplit(".", 1)[0])
        f = getattr(f, last, None)
        if f is not None and not isinstance(f, type):
            res = fold(ip, f, args, kw)
            if res is not None:
                return res
    if name in ("inspect.isclass", "inspect.isfunction", "inspect.ismethod") and ip.sched is not None:
        a = args[0]
        return K({"isclass": isinstance(a, (ClassV, BC)), "isfunction": isinstance(a, FuncV), "ismethod": isinstance(a, BM)}[last])
    if any(name.startswith(p) for p in PURE_EXT):
        for a in args:
            ip.share(a)
        vs = tuple(flat(ip, a) for a in args)
        kws = tuple(sorted((k, v) for k, v in kw.items()))
        res = S(("ext", name) + vs + kws, "obj" if not name.startswith("os.path.") else "str")
        e = ip.ev("ext", name, None, args, kw, res)
        if ip.cfg.call_raises is not None:
            opts = ip.cfg.call_raises(ip, e)
            if opts:
                c = ip.choose(len(opts) + 1, "ext raises")
                if c:
                    e.extra = ("raised", opts[c - 1])
                    ip.throw(opts[c - 1], "injected")
        return res
    if name.endswith("Error") or name.endswith("Exception"):
        r = ip.alloc("inst", None)
        w = ip.w(r)
        w.cls = E(name)
        w.attrs["args"] = T(args)
        return r
    return ip.opaque("ext", name, None, args, kw)


def iscoro(ip, what, v):
    f = v.func if isinstance(v, BM) else v
    if what == "iscoroutinefunction":
        if isinstance(f, FuncV):
            return K(f.is_async)
        if isinstance(f, R) and ip.o(f).kind == "pycall":
            return K(bool(getattr(ip.o(f).extra, "is_async", False)))
        if isinstance(f, (BI, BC, ClassV, K)):
            return FALSE
    else:
        if isinstance(v, R):
            return K(ip.o(v).kind in ("coro", "gather", "waitfor"))
        if isinstance(v, K):
            return FALSE
    return ip.pred(("iscoro", v))


LOGGER_METHODS = {"debug", "info", "warning", "error", "exception", "critical", "warn", "log", "setLevel"}


def sym_method(ip, recv, name, args, kw):
    t = recv.term if isinstance(recv, S) else None
    if isinstance(t, tuple) and t:
        if is_slice(recv) and name == "indices" and all(isinstance(x, K) for x in t[1:]) and isinstance(flat(ip, args[0]), K):
            return T([K(x) for x in slice(*(x.v for x in t[1:])).indices(flat(ip, args[0]).v)])
        if t[0] == "logger":
            return NONE
        if t[0] == "loop":
            if ip.sched is not None:
                res = aio.loop_call(ip, name, args, kw)
                if res is not None:
                    return res
            if name in ("create_task", "ensure_future"):
                return spawn(ip, name, args, kw)
            if name == "create_future":
                res = S(("new", "Future", ip.uid()), "obj")
                ip.ev("call", name, recv, args, kw, res)
                return res
            if name == "time":
                return S(("time", ip.uid()), "float")
            return None
        if t[0] in ("list", "sorted", "tuple", "reversed") and isinstance(t[1], V):
            if name == "copy":
                return recv
    if name in ("items", "keys", "values") and not args:
        return S((name, recv), "obj")
    if name == "get" and args:
        k = ip.unwrap_int(args[0])
        if ip.facts.get(("none", recv)):
            ip.throw(AttributeError, "None.get")
        if ip.decide(("in", k, recv)):
            return S(("item", recv, k))
        return args[1] if len(args) > 1 else NONE
    if name in ("done", "cancelled", "is_set", "is_alive", "locked") and not args:
        return S(("pure", name, recv, ip.epoch), "bool")
    if name == "result" and not args:
        return S(("result", recv))
    if name in ("encode",) and not args:
        return S(("encode", recv), "bytes")
    if name in ("decode", "hex", "strip", "lower", "upper", "rstrip", "lstrip"):
        return S(("meth", name, recv) + tuple(args), "str")
    if name in ("startswith", "endswith", "isdigit"):
        return S(("meth", name, recv) + tuple(args), "bool")
    if name == "to_bytes":
        return to_bytes(ip, recv, args, kw)
    return None
