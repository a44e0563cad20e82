"""Wire format: bit-provenance interpretation of the encoder and decoder against the layout table."""
import math

from . import check
from .. import models
from ..harness import *  # noqa
from ..absint import AbsRaise
from ..values import ClassV, PropV

B = lambda i: BV([("b", i, j) for j in range(8)])  # noqa: E731  byte i of the payload, fully unknown
RAW = dict(raw_mixin=True, intop_raises=False)
FUN = "pyzwave.message.Message.decode"


def layout():
    out = []
    for line in open(os.path.join(VERIF, "spec", "wire.txt"), encoding="utf-8"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        hid, cls, *fields = line.split()
        fs = []
        for f in fields:
            if "=" in f:
                n, k = f.split("=")
                fs.append((n, k))
            else:
                n, k = f.split(":")
                fs.append((n, int(k)))
        out.append((int(hid, 16), cls, fs))
    return out


# ------------------------------------------------------------------ observation
def canon(ip, v, depth=0):
    """Representation-independent reading of a value, inside the running analysis."""
    if depth > 8:
        return ("deep",)
    if isinstance(v, R):
        o = ip.sync(v)
        if o.payload is not None and not (isinstance(o.payload, S) and o.payload.term[0] == "ipv6"):
            p = o.payload
            if clsq(o.cls) and any(getattr(b, "name", "") == "float_t" for b in o.cls.mro):
                return ("float", fval(ip, p), canon(ip, ip.getattr(v, "scale"), depth + 1))
            return canon(ip, p, depth + 1)
        if o.payload is not None:
            return ("ipv6", canon(ip, o.payload.term[1], depth + 1))
        if o.kind == "list":
            if o.open is not None or o.rep:
                return ("openlist",)
            return ("list",) + tuple(canon(ip, x, depth + 1) for x in o.items)
        if o.kind == "set":
            if o.open is not None or o.rep:
                return ("openset",)
            return ("set",) + tuple(sorted((canon(ip, x[0] if isinstance(x, tuple) else x, depth + 1) for x in vals(o)), key=repr))
        if o.kind == "dict":
            if o.open is not None or o.rep:
                return ("opendict",)
            return ("dict",) + tuple(sorted(((canon(ip, k, depth + 1), canon(ip, x, depth + 1)) for k, x in o.items.values()), key=repr))
        if isinstance(o.cls, ClassV):
            if ip.is_message(o.cls):
                return ("msg", o.cls.qualname, canon(ip, ip.call(ip.getattr(v, "hid"), [], {}), depth + 1))
            if ip.class_lookup(o.cls, "__int__") is not None:
                return canon(ip, ip.to_int(v), depth + 1)
            if ip.class_lookup(o.cls, "serialize") is not None and ip.class_lookup(o.cls, "__getstate__") is not None:
                return ("text", canon(ip, ip.call(ip.getattr(v, "__getstate__"), [], {}), depth + 1))
            if ip.mixin_class() in o.cls.mro:
                out = []
                for n, _t in ip.attr_table(o.cls):
                    if n not in ("-", "_"):
                        out.append((n, canon(ip, ip.getattr(v, n), depth + 1)))
                return ("attrs",) + tuple(out)
            return ("obj", o.cls.qualname)
        return ("obj", o.kind)
    if isinstance(v, K):
        if isinstance(v.v, bool):
            return int(v.v)
        if isinstance(v.v, (bytes, bytearray)):
            return ("bytes",) + tuple(v.v)
        return v.v
    if isinstance(v, EN):
        return v.val
    if isinstance(v, BV):
        return ("bits", v.bits)
    if isinstance(v, BS):
        return ("bytes",) + tuple(canon(ip, x) for x in v.items)
    if isinstance(v, T):
        return ("list",) + tuple(canon(ip, x, depth + 1) for x in v.items)
    if isinstance(v, S) and isinstance(v.term, tuple):
        if v.term[0] == "ipv6":
            return ("ipv6", canon(ip, v.term[1]))
        if v.term[0] == "signed":
            return ("signed", canon(ip, v.term[1].items[0]), v.term[2].v)
        if v.term[0] == "bool" and isinstance(v.term[1], V):
            return canon(ip, v.term[1])
        if v.term[0] == "fmt":
            return ("fmt",) + tuple(canon(ip, x) if isinstance(x, V) else x for x in v.term[1])
        if v.term[0] == "fmtv":
            return ("fmtv",) + tuple(canon(ip, x) if isinstance(x, V) else x for x in v.term[1:])
    return ("sym", v)


def clsq(c):
    return isinstance(c, ClassV)


def vals(o):
    return list(o.items.values()) if isinstance(o.items, dict) else list(o.items)


def fval(ip, p):
    """value of a scaled float: (raw, divisor)."""
    if isinstance(p, S) and isinstance(p.term, tuple) and p.term[0] == "bin" and p.term[1] == "/" and isinstance(p.term[3], K):
        return (canon(ip, p.term[2]), float(p.term[3].v))
    if isinstance(p, S) and isinstance(p.term, tuple) and p.term[0] == "float":
        return fval(ip, p.term[1])
    return (canon(ip, p), 1.0)


def pkt(hid, payload):
    return BS([K(hid >> 8), K(hid & 255)] + [K(x) if isinstance(x, int) else x for x in payload])


def decode(ip, items):
    m = ip.lookup("pyzwave.message.Message")
    return ip.call(ip.getattr(m, "decode"), [items], {})


REJECT = object()


def expect_bits(payload, pos, n):
    """Bits payload[pos:pos+n] read most significant first, as canonical integer."""
    bits = []
    for k in range(pos + n - 1, pos - 1, -1):
        b = payload[k // 8]
        j = 7 - k % 8
        bs = models.bits_of(K(b) if isinstance(b, int) else b)
        bits.append(bs[j] if j < len(bs) else 0)
    x = models.mkbv(bits)
    return x.v if isinstance(x, K) else ("bits", x.bits)


def byteval(x):
    if isinstance(x, int):
        return x
    return x.v if isinstance(x, K) else ("bits", x.bits)


def bytesval(xs):
    xs = list(xs)
    return ("bytes",) + tuple(byteval(x) for x in xs)


def signedval(xs):
    bits = []
    xs = list(xs)
    if all(isinstance(x, int) for x in xs):
        return int.from_bytes(bytes(xs), "big", signed=True)
    for x in reversed(xs):
        b = models.bits_of(K(x) if isinstance(x, int) else x)
        bits += b + [0] * (8 - len(b))
    return ("signed", ("bits", tuple(bits)), len(bits))


def uintval(xs):
    bits = []
    for x in reversed(list(xs)):
        b = models.bits_of(K(x) if isinstance(x, int) else x)
        bits += b + [0] * (8 - len(b))
    x = models.mkbv(bits)
    return x.v if isinstance(x, K) else ("bits", x.bits)


# ------------------------------------------------------------------ expected decoding of one payload
def oracle(hid, fields, payload):
    """What the layout says about a payload: {field: canonical value}, or REJECT."""
    pos = 0
    total = len(payload) * 8
    out = {}
    if hid == 0x6906 and len(payload) == 16:
        return {"queueHandle": expect_bits(payload, 120, 8)}
    for name, kind in fields:
        if pos // 8 >= len(payload):
            break
        if isinstance(kind, int):
            if pos + kind > total:
                return REJECT
            if name != "_":
                out[name] = expect_bits(payload, pos, kind)
            pos += kind
            continue
        assert pos % 8 == 0
        rest = payload[pos // 8:]
        r = COMPOSITE[kind](hid, out, rest)
        if r is REJECT:
            return REJECT
        out[name], used = r
        pos += used * 8
    return out


def c_ipv6(hid, out, rest):
    if len(rest) < 16:
        return REJECT
    return ("ipv6", bytesval(rest[:16])), 16


def c_rest(hid, out, rest):
    return bytesval(rest), len(rest)


def c_nodelist(hid, out, rest):
    if len(rest) < 29:
        return REJECT
    s = [i * 8 + j + 1 for i in range(29) for j in range(8) if rest[i] >> j & 1]
    return ("set",) + tuple(sorted(s, key=repr)), 29


def c_sensors(hid, out, rest):
    s = [i * 8 + j + 1 for i in range(len(rest)) for j in range(8) if rest[i] >> j & 1 and i * 8 + j + 1 in SENSORS]
    return ("set",) + tuple(sorted(s, key=repr)), len(rest)


def c_float(hid, out, rest):
    b = rest[0]
    bits = models.bits_of(K(b) if isinstance(b, int) else b)
    bits += [0] * (8 - len(bits))
    prec = sum(x << i for i, x in enumerate(bits[5:8]))
    size = sum(x << i for i, x in enumerate(bits[0:3]))
    sc = models.mkbv(bits[3:5])
    sc = sc.v if isinstance(sc, K) else ("bits", sc.bits)
    if len(rest) < 1 + size:
        return REJECT
    raw = signedval(rest[1:1 + size])
    if isinstance(raw, int):
        return ("float", (raw / 10.0 ** prec, 1.0), sc), 1 + size
    return ("float", (raw, float(10 ** prec)), sc), 1 + size


def c_message(hid, out, rest):
    if hid == 0x6C01:
        n = rest[0]
        if len(rest) < 1 + n:
            return REJECT
        return nested(rest[1:1 + n]), 1 + n
    return nested(rest), len(rest)


def nested(data):
    if len(data) < 2:
        return ("msg", "pyzwave.message.UnknownMessage", 0)
    h = data[0] << 8 | data[1]
    for hid, cls, _f in LAYOUT:
        if hid == h:
            return ("msg", "pyzwave.commandclass." + cls, h)
    return ("msg", "pyzwave.message.UnknownMessage", h)


def c_list(hid, out, rest):
    if hid == 0x3402:
        n = out["nodeInfoLength"] - 7
        if n < 0:
            return REJECT
        n = min(n, len(rest))
        return ("list",) + tuple(byteval(x) for x in rest[:n]), n
    if hid == 0x5904:
        n = out["groupCount"]
        if len(rest) < 7 * n:
            return REJECT
        gs = []
        for i in range(n):
            g = rest[7 * i:7 * i + 7]
            gs.append(("attrs", ("groupingIdentifier", byteval(g[0])), ("mode", byteval(g[1])), ("profile", uintval(g[2:4])), ("eventCode", uintval(g[5:7]))))
        return ("list",) + tuple(gs), 7 * n
    if hid == 0x5906:
        n = rest[0]
        if len(rest) < 1 + n:
            return REJECT
        return ("list",) + tuple(("list", byteval(rest[1 + i]), byteval(rest[2 + i])) for i in range(0, n, 2)), 1 + n
    raise AnalysisError("no oracle for list field of %04x" % hid)


def c_str(hid, out, rest):
    n = rest[0]
    if len(rest) < 1 + n:
        return REJECT
    try:
        return bytes(rest[1:1 + n]).decode("utf-8"), 1 + n
    except UnicodeDecodeError:
        return REJECT


def dsktext(xs):
    return ("text", "-".join("%05d" % (xs[i] << 8 | xs[i + 1]) for i in range(0, len(xs), 2)))


def c_dsk(hid, out, rest):
    n = out["dskLengthN"] if hid == 0x7804 else 16
    if n not in (0, 16) or len(rest) < n:
        return REJECT
    return dsktext(rest[:n]), n


def c_meta(hid, out, rest):
    d = {}
    i = 0
    while i < len(rest):
        t = rest[i]
        if i + 2 > len(rest) or i + 2 + rest[i + 1] > len(rest):
            return REJECT
        n = rest[i + 1]
        d[t >> 1] = bytesval(rest[i + 2:i + 2 + n])
        i += 2 + n
    return ("dict",) + tuple(sorted(d.items(), key=repr)), len(rest)


def c_nodes(hid, out, rest):
    nodes = []
    i = 0
    while i < len(rest):
        if rest[i] == 0:
            i += 1
            break
        nodes.append(("list", byteval(rest[i]), None))
        i += 1
    while i < len(rest):
        if i + 1 >= len(rest):
            return REJECT
        nodes.append(("list", byteval(rest[i]), byteval(rest[i + 1])))
        i += 2
    return ("list",) + tuple(nodes), len(rest)


def c_int(hid, out, rest):
    n = out["size"]
    if len(rest) < n:
        return REJECT
    return uintval(rest[:n]), n


def c_hdrext(hid, out, rest):
    if not out["headerExtIncluded"]:
        return ("dict",), 0
    n = rest[0]
    if n < 1 or len(rest) < n:
        return REJECT
    body = rest[1:n]
    d = {}
    i = 0
    while i < len(body):
        t = body[i] & 0x7F
        if i + 2 > len(body) or i + 2 + body[i + 1] > len(body):
            return REJECT
        k = body[i + 1]
        data = body[i + 2:i + 2 + k]
        i += 2 + k
        if t == 1:
            if len(data) < 3:
                return REJECT
            d[1] = signedval(data[:3])
        elif t == 3:
            r = maintenance(data)
            if r is REJECT:
                return REJECT
            d[3] = r
        elif t == 4:
            if len(data) < 2:
                return REJECT
            d[4] = ("attrs", ("security2SecurityClass", byteval(data[0])), ("crc16", expect_bits(data, 15, 1)))
    return ("dict",) + tuple(sorted(d.items(), key=repr)), n


def maintenance(data):
    d = {}
    i = 0
    while i < len(data):
        t = data[i]
        if i + 2 > len(data) or i + 2 + data[i + 1] > len(data):
            return REJECT
        k = data[i + 1]
        x = data[i + 2:i + 2 + k]
        i += 2 + k
        if t > 8:
            continue
        if t in (0, 4, 5):
            if len(x) < 1:
                return REJECT
            d[t] = byteval(x[0])
        elif t == 1:
            if len(x) < 2:
                return REJECT
            d[t] = uintval(x[:2])
        elif t == 2:
            d[t] = ("attrs",) + tuple((n, byteval(x[j])) for j, n in enumerate(("repeater1", "repeater2", "repeater3", "repeater4", "speed")))
        else:
            d[t] = bytesval(x)
    return ("dict",) + tuple(sorted(d.items(), key=repr))


COMPOSITE = {
    "IPv6": c_ipv6, "bytes_t": c_rest, "NodeList": c_nodelist, "SensorSupported": c_sensors, "float_t": c_float, "Message": c_message,
    "list": c_list, "str_t": c_str, "dsk_t": c_dsk, "MetadataExtension": c_meta, "Nodes": c_nodes, "int": c_int, "HeaderExtension": c_hdrext,
}
LAYOUT = layout()
SENSORS = (1, 2, 3, 4, 5, 6, 9, 0x0B, 0x0C, 0x0E, 0x0F, 0x11, 0x13, 0x1B, 0x1E, 0x1F, 0x23, 0x28)  # sensor types the library knows


# ------------------------------------------------------------------ payload scenarios
def fixed(fields):
    """Number of leading payload bytes taken by plain fields before the first composite one."""
    n = 0
    for _f, k in fields:
        if not isinstance(k, int):
            return n // 8
        n += k
    return n // 8


def setbits(payload, fields, name, value):
    pos = 0
    for f, k in fields:
        if not isinstance(k, int):
            break
        if f == name:
            for i in range(k):
                b = pos + k - 1 - i
                cur = models.bits_of(K(payload[b // 8]) if isinstance(payload[b // 8], int) else payload[b // 8])
                cur = cur + [0] * (8 - len(cur))
                cur[7 - b % 8] = value >> i & 1
                x = models.mkbv(cur)
                payload[b // 8] = x.v if isinstance(x, K) else x
            return payload
        pos += k
    raise AnalysisError("no field " + name)


def scenarios(hid, fields, deep=False):
    n = fixed(fields)
    head = [B(i) for i in range(n)]
    comp = [k for _f, k in fields if not isinstance(k, int)]
    if hid == 0x6906:
        yield "full", head
        yield "ipv6form", [B(i) for i in range(16)]
        return
    if not comp:
        yield "full", head
        yield "trailing", head + [B(n), B(n + 1)]
        return
    kind = comp[0]
    if hid == 0x2302:
        h0 = setbits(list(head), fields, "headerExtIncluded", 0)
        h1 = setbits(list(head), fields, "headerExtIncluded", 1)
        yield "plain", h0 + [0x20, 0x01, 0x42]
        yield "nocmd", h0
        yield "unknowncmd", h0 + [0xFE, 0xDC, 1, 2]
        yield "shortcmd", h0 + [0x20]
        cmd = [0x25, 0x03, 0xFF]
        for t, ext in (
            ("empty", []),
            ("delay", [0x01, 3, B(50), B(51), B(52)]),
            ("delay-critical", [0x81, 3, B(50), B(51), B(52)]),
            ("delay-const", [0x01, 3, 0xFF, 0xFF, 0xFE]),
            ("encap", [0x84, 2, B(50), B(51)]),
            ("encap+delay", [0x84, 2, B(50), B(51), 0x01, 3, B(52), B(53), B(54)]),
            ("maint", [0x03, 0x1B, 0, 1, B(50), 1, 2, B(51), B(52), 2, 5, B(53), B(54), B(55), B(56), B(57), 3, 5, B(58), B(59), B(60), B(61), B(62), 4, 1, B(63), 5, 1, B(64)]),
            ("maint+delay", [0x03, 3, 0, 1, B(50), 0x01, 3, B(51), B(52), B(53)]),
            ("cutoption", [0x01, 3, B(50), B(51)]),
            ("cutlength", [0x01]),
            ("maintcut", [0x03, 3, 1, 2, B(50)]),
            ("maint-unknown", [0x03, 9, 0x20, 2, B(50), B(51), 5, 1, B(52), 9, 0]),
            ("maintget", [0x02, 0, 0x01, 3, B(51), B(52), B(53)]),
            ("multicast", [0x05, 2, B(50), B(51), 0x01, 3, B(51), B(52), B(53)]),
            ("unknown", [0x01, 3, B(51), B(52), B(53), 0x2A, 1, B(50)]),
        ):
            yield "ext-" + t, h1 + [len(ext) + 1] + ext + cmd
        yield "ext-short", h1 + [9, 1, 3, B(50), B(51), B(52)]
        yield "ext-zero", h1 + [0] + cmd
        yield "ext-missing", h1
        return
    if kind == "bytes_t":
        for k in (0, 1, 3, 7):
            yield "rest%d" % k, head + [B(100 + i) for i in range(k)]
        return
    if kind == "IPv6":
        tail = sum(k for _f, k in fields if isinstance(k, int)) // 8 - n
        yield "full", head + [B(100 + i) for i in range(16 + tail)]
        yield "cut", head + [B(100 + i) for i in range(15)]
        return
    if kind in ("NodeList",):
        for i in range(29):
            for j in range(8):
                yield "bit%d.%d" % (i, j), head + [1 << j if x == i else 0 for x in range(29)]
        yield "all", head + [255] * 29
        yield "none", head + [0] * 29
        yield "mixed", head + [(37 * i + 11) & 255 for i in range(29)]
        yield "trailing", head + [0x81] + [0] * 27 + [0x80, 0xFF]
        yield "cut", head + [1] * 28
        return
    if kind == "SensorSupported":
        known = SENSORS
        yield "unknown", [0xFF] * 7
        for t in known:
            for ln in sorted({(t + 7) // 8, 5, 6}):
                b = [0] * ln
                b[(t - 1) // 8] |= 1 << (t - 1) % 8
                yield "type%d/%d" % (t, ln), b
        b = [0] * 5
        for t in known:
            b[(t - 1) // 8] |= 1 << (t - 1) % 8
        yield "allknown", b
        yield "none", [0]
        return
    if kind == "float_t":
        tail = sum(k for _f, k in fields if isinstance(k, int)) // 8 - n
        for prec in range(8):
            for size in (1, 2, 4):
                for scale in ((0, 1, 2, 3) if prec in (0, 2) else (3,)):
                    yield "p%ds%dz%d" % (prec, scale, size), head + [prec << 5 | scale << 3 | size] + [B(100 + i) for i in range(size + tail)]
        yield "const", head + [0x42, 0xFF, 0x38] + [1] * tail
        yield "cut", head + [0x44, B(100), B(101)]
        return
    if hid == 0x6C01:
        yield "basic", head + [3, 0x20, 0x03, B(100)]
        yield "padded", head + [3, 0x20, 0x03, B(100), 7, 7]
        yield "nocmd", head + [0]
        yield "unknown", head + [4, 0xFE, 0x01, 1, 2]
        yield "over", head + [9, 0x20, 0x03, B(100)]
        yield "one", head + [1, 0x20]
        return
    if hid == 0x3402:
        for ln, have in ((7, 0), (8, 1), (9, 4), (12, 5), (12, 2), (7, 3), (255, 6)):
            yield "nif%d/%d" % (ln, have), setbits(list(head), fields, "nodeInfoLength", ln) + [B(100 + i) for i in range(have)]
        for ln in (0, 3, 6):
            yield "nif%d" % ln, setbits(list(head), fields, "nodeInfoLength", ln) + [B(100 + i) for i in range(4)]
        return
    if hid == 0x5904:
        for cnt, have in ((0, 0), (0, 7), (1, 7), (2, 14), (1, 14), (3, 21), (2, 13), (1, 3)):
            yield "groups%d/%d" % (cnt, have), setbits(list(head), fields, "groupCount", cnt) + [B(100 + i) for i in range(have)]
        return
    if hid == 0x5906:
        for cnt, have in ((0, 0), (2, 2), (4, 4), (6, 6), (2, 6), (4, 2), (6, 5)):
            yield "cmds%d/%d" % (cnt, have), head + [cnt] + [B(100 + i) for i in range(have)]
        return
    if kind == "str_t":
        for txt in (b"", b"Lifeline", b"Sm\xc3\xa5 gr\xc3\xb8nne", b"x" * 40, b" A\t\n", b"Lamp\0\0\0", b"\0a\0b"):
            yield "str%d" % len(txt), head + [len(txt)] + list(txt)
        yield "padded", head + [3] + list(b"abcdef")
        yield "cut", head + [9] + list(b"abcdef")
        yield "notutf8", head + [2, 0xC3, 0x28]
        return
    if kind == "dsk_t":
        key = [0x7E, 0x4D, 0x70, 0x22, 0x00, 0x01, 0xFF, 0xFF, 0xA8, 0x13, 0x00, 0x00, 0x6C, 0x72, 0xA4, 0xE0]
        more = {0x7801: [[], [B(120), B(121)]], 0x7804: [[]]}.get(hid, [[]])
        if hid == 0x7804:
            h = setbits(list(head), fields, "dskLengthN", 16)
            z = setbits(list(head), fields, "dskLengthN", 0)
            yield "dsk", h + key
            yield "nodsk", z
            yield "badlen", setbits(list(head), fields, "dskLengthN", 15) + key
            yield "meta", h + key + [0x69, 1, B(120), 0x6E, 2, B(121), B(122), 0x00, 0]
            yield "meta-critical", z + [0x01, 1, B(120), 0x02, 0]
            yield "metacut", h + key + [0x69, 4, B(120)]
            yield "cut", h + key[:15]
            return
        for m in more:
            yield "dsk%d" % len(m), head + key + m
        yield "cut", head + key[:15]
        return
    if kind == "Nodes":
        for name, body in (
            ("none", []), ("plain", [1, 2, 200]), ("mc", [0, 7, 1, 8, 0]), ("both", [3, 4, 0, 5, 2]), ("marker", [9, 0]), ("ep0", [0, 1, 0]), ("zero-ep", [2, 0, 1, 0, 2, 0]),
            ("cut", [1, 0, 5]), ("cut2", [0, 5, 1, 6]),
        ):
            yield name, head + body
        yield "sym-mc", head + [0, B(100), B(101), B(102), B(103)]
        return
    if kind == "int":
        for size in (1, 2, 4):
            h = setbits(list(head), fields, "size", size)
            yield "size%d" % size, h + [B(100 + i) for i in range(size)]
            yield "size%d-padded" % size, h + [B(100 + i) for i in range(size + 1)]
            yield "size%d-cut" % size, h + [B(100 + i) for i in range(size - 1)] if size > 1 else h + [B(100)]
        return
    raise AnalysisError("no scenarios for %04x" % hid)


def concretise(payload):
    """Replace unknown bytes where the oracle needs concrete ones (nested messages, node markers)."""
    return payload


def decode_obs(ip, hid, fields, payload):
    m = decode(ip, pkt(hid, payload))
    out = {}
    for f, _k in fields:
        if f != "_":
            out[f] = canon(ip, ip.getattr(m, f))
    return canon(ip, m), out


UNSET = {"bytes_t": (("bytes",), None), "HeaderExtension": (("dict",), None), "Nodes": (("list",), None)}


def judge(ctx, rule, hid, cls, fields, name, payload):
    exp = oracle(hid, fields, payload)
    entry = "decode %04x %s [%s]" % (hid, cls, name)
    paths = ctx.explore(entry, lambda ip: decode_obs(ip, hid, fields, payload), Cfg(**RAW), minpaths=1)
    where = "decoding of %s" % cls
    for p in paths:
        if exp is REJECT:
            ctx.require(not p.returned, rule, where, "payload '%s' does not fit the layout but is accepted as %s" % (name, p.returned and p.value[1]), p, "%s/%s" % (cls, name.rstrip("0123456789.")))
            continue
        if not p.returned:
            ctx.fail(rule, where, "well-formed payload '%s' is rejected with %s at %s" % (name, p.exc_name(), p.outcome[2]), p, "%s/reject" % cls)
            continue
        mc, got = p.value
        ctx.require(mc == ("msg", "pyzwave.commandclass." + cls, hid), rule, where, "packet %04x decodes as %s" % (hid, mc), p, cls)
        for f, k in fields:
            if f == "_":
                continue
            if f in exp:
                ctx.require(same(got[f], exp[f]), rule, where, "field %s (%s): decoded %s, layout says %s" % (f, name, brief(got[f]), brief(exp[f])), p, "%s.%s" % (cls, f))
            else:
                ok = got[f] is None or got[f] in UNSET.get(k, ())
                ctx.require(ok, rule, where, "field %s (%s) is beyond the end of the payload but reads %s" % (f, name, brief(got[f])), p, "%s.%s" % (cls, f))


def same(a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "float":
        (ra, da), (rb, db) = a[1], b[1]
        if isinstance(ra, (int, float)) and isinstance(rb, (int, float)):
            return abs(ra / da - rb / db) < 1e-12 and a[2] == b[2]
        return ra == rb and da == db and a[2] == b[2]
    return False


def brief(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


@check("W01")
def w01(ctx):
    """Every field of every supported command is decoded from exactly the bits its layout gives it."""
    ip = ctx.ip
    for hid, cls, fields in LAYOUT:
        ip.lookup("pyzwave.commandclass." + cls)
        for name, payload in scenarios(hid, fields):
            if name == "full" or oracle(hid, fields, payload) is not REJECT:
                judge(ctx, "decode-layout", hid, cls, fields, name, payload)

    def meter(ip):
        """The unit of a meter report is told by a bit of the first byte and two of the second."""
        t = (0, 1, 2, 3, 31)[ip.choose(5, "meter type")]
        out = []
        for hi in (0, 1):
            for lo in range(4):
                for rate in (0, 1, 3):
                    m = decode(ip, pkt(0x3202, [K(hi << 7 | rate << 5 | t), K(0x22 & 0x07 | 0x20 | lo << 3), B(2), B(3), K(0), K(0)]))
                    out.append((t, hi, lo, rate, canon(ip, ip.getattr(m, "scale"))))
        return out

    for p in ctx.scen("the unit of a meter report", meter, Cfg(**RAW)):
        where = "Meter.Report"
        if ctx.require(p.returned, "meter-unit", where, "the unit of a report raises %s" % p.exc_name(), p):
            for t, hi, lo, rate, s in p.value:
                ctx.require(s == hi << 2 | lo, "meter-unit", where, "a report of meter type %d with scale %d and scale2 %d is in unit %s" % (t, lo, hi, s), p, key="unit")
    ctx.floor("decode-layout", 1500)
    ctx.floor("meter-unit", 100)


# ------------------------------------------------------------------ encoding
ENCODABLE = {"Message", "IPv6", "bytes_t", "dsk_t", "Nodes", "int", "HeaderExtension"}
KEY = [0x7E, 0x4D, 0x70, 0x22, 0x00, 0x01, 0xFF, 0xFF, 0xA8, 0x13, 0x00, 0x00, 0x6C, 0x72, 0xA4, 0xE0]
KEYTEXT = "-".join("%05d" % (KEY[i] << 8 | KEY[i + 1]) for i in range(0, 16, 2))


def encodable(hid, fields):
    if hid in (0x7006,):
        return False
    return all(isinstance(k, int) or k in ENCODABLE for _n, k in fields)


def fbits(name, n):
    return BV([("b", name, j) for j in range(n)])


def ftuple(name, n):
    return [("b", name, j) for j in range(n)]


def pylist(ip, xs):
    r = ip.alloc("list")
    ip.w(r).items = list(xs)
    return r


def field_values(ip, hid, cls, fields):
    """Alternatives of (label, {field: value builder result}, {composite field: expected bytes})."""
    alts = [("", {}, {})]

    def fork(name, choices):
        nonlocal alts
        base = alts[0]
        new = [(lab, dict(v), dict(e)) for lab, v, e in alts]
        for i, (lab, val, exp) in enumerate(choices):
            if i == 0:
                for _l, v, e in new:
                    if name not in v:
                        v[name] = val
                        e[name] = exp
            else:
                v, e = dict(base[1]), dict(base[2])
                v[name] = val
                e[name] = exp
                new.append((name + ":" + lab, v, e))
        # alternatives of later fields are combined with the first choice of the earlier ones
        alts = new

    for name, kind in fields:
        if name == "_":
            continue
        if isinstance(kind, int):
            continue
        if kind == "IPv6":
            bs = [BV([("b", name + str(i), j) for j in range(8)]) for i in range(16)]
            addr = ip.call(ip.lookup("ipaddress.IPv6Address") if False else E("ipaddress.IPv6Address"), [BS(bs)], {})
            fork(name, [("object", addr, bs), ("text", K("fd00:aaaa::3"), list(bytes.fromhex("fd00aaaa000000000000000000000003")))])
        elif kind == "bytes_t":
            mk = lambda n, name=name: [BV([("b", name + str(i), j) for j in range(8)]) for i in range(n)]  # noqa: E731
            fork(name, [("3", BS(mk(3)), mk(3)), ("0", K(b""), []), ("9", BS(mk(9)), mk(9)), ("default", MISSING, [])])
        elif kind == "dsk_t":
            bs = [BV([("b", name + str(i), j) for j in range(8)]) for i in range(16)]
            ch = [("bytes", BS(bs), bs), ("text", K(KEYTEXT), KEY), ("empty", K(b""), [])]
            fork(name, ch)
        elif kind == "Nodes":
            n1, n2, n3, e3 = (fbits("n%d" % i, 8) for i in range(4))
            fork(name, [
                ("pairs", [T((n1, K(None))), T((n2, K(None)))], [n1, n2]), ("ids", [n1, n2, n3], [n1, n2, n3]), ("mc", [T((n1, e3)), T((n2, K(0)))], [0, n1, e3, n2, 0]),
                ("mixed", [T((n1, e3)), T((n2, K(None))), T((n3, K(1)))], [n2, 0, n1, e3, n3, 1]), ("text", [K("7"), K("8:2")], [7, 0, 8, 2]), ("none", [], []),
                ("default", MISSING, []),
            ])
        elif kind == "int":
            fork(name, [("s%d" % z, fbits(name, 8 * z), (z, [BV([("b", name, 8 * (z - 1 - i) + j) for j in range(8)]) for i in range(z)])) for z in (1, 2, 4)])
        elif kind == "HeaderExtension":
            fork(name, [("default", MISSING, [])])
        elif kind == "Message":
            inner = [("set", "INNER", [0x20, 0x01, fbits("inner", 8)]), ("get", "INNER2", [0x25, 0x02])]
            if hid == 0x2302:
                inner.append(("none", K(None), []))
            if hid == 0x6C01:
                inner = [(a, b, [len(c)] + c) for a, b, c in inner]
            fork(name, inner)
        else:
            raise AnalysisError("no encoder choices for " + kind)
    return alts


MISSING = "<missing>"
NEW = 0xA5C35A96A5



def build_value(ip, v):
    if isinstance(v, list):
        return pylist(ip, v)
    if v == "INNER":
        return construct(ip, "pyzwave.commandclass.Basic.Set", (), {"value": fbits("inner", 8)})
    if v == "INNER2":
        return construct(ip, "pyzwave.commandclass.SwitchBinary.Get")
    return v


def expected_bytes(hid, fields, exp, sizes):
    """Bytes the layout prescribes for field values named by their own bits."""
    bits = []  # most significant first

    def put(byte):
        b = models.bits_of(K(byte) if isinstance(byte, int) else byte)
        b = b + [0] * (8 - len(b))
        bits.extend(reversed(b))

    put(hid >> 8)
    put(hid & 255)
    for name, kind in fields:
        if isinstance(kind, int):
            if name == "_":
                bits += [0] * kind
            elif name in sizes:
                bits += [sizes[name] >> i & 1 for i in range(kind - 1, -1, -1)]
            else:
                bits += list(reversed(ftuple(name, kind)))
        else:
            e = exp[name]
            if isinstance(e, tuple):
                e = e[1]
            for byte in e:
                put(byte)
    assert len(bits) % 8 == 0
    out = []
    for i in range(0, len(bits), 8):
        x = models.mkbv(list(reversed(bits[i:i + 8])))
        out.append(x.v if isinstance(x, K) else ("bits", x.bits))
    return ("bytes",) + tuple(out)


def make_msg(ip, cls, fields, vals, sizes, route, skip=()):
    kw = {}
    for name, kind in fields:
        if name == "_" or name in skip:
            continue
        if isinstance(kind, int):
            kw[name] = K(sizes[name]) if name in sizes else K(NEW >> 3 & (1 << kind) - 1) if route == "overwrite" else fbits(name, kind)
        else:
            v = vals[name]
            if isinstance(v, str) and v == MISSING:
                continue
            kw[name] = build_value(ip, v)
    c = ip.lookup("pyzwave.commandclass." + cls)
    if route == "kw":
        return ip.call(c, [], kw)
    m = ip.call(c, [], {})
    if route == "overwrite":
        for k, kind in fields:
            if isinstance(kind, int) and k != "_":
                ip.setattr(m, k, K(sizes[k] if k in sizes else ~(NEW >> 3) & (1 << kind) - 1))
            elif k in kw:
                ip.setattr(m, k, kw[k])
        # what was sent before is not what is sent then
        ip.call(ip.getattr(m, "compose"), [], {})
    for k in (reversed(list(kw)) if route == "attr" else list(kw)):
        ip.setattr(m, k, kw[k])
    return m


def encode_cases(ip, hid, cls, fields):
    for lab, vals, exp in field_values(ip, hid, cls, fields):
        sizes = {}
        for n, e in exp.items():
            if isinstance(e, tuple):
                sizes["size"] = e[0]
        yield lab, vals, exp, sizes


def refused(p):
    return not p.returned


@check("W02")
def w02(ctx):
    """Encoding places every field in exactly the bits of its layout, whatever way the fields were assigned."""
    ip = ctx.ip
    for hid, cls, fields in LAYOUT:
        if not encodable(hid, fields):
            continue
        ip.reset([])
        ip.cfg = Cfg(**RAW)
        n = len(list(encode_cases(ip, hid, cls, fields)))
        for i in range(n):
            for route in ("kw", "attr", "overwrite") if i == 0 else ("kw", "attr"):
                exp = {}

                def run(ip, i=i, route=route, exp=exp):
                    _lab, vals, e, sizes = list(encode_cases(ip, hid, cls, fields))[i]
                    sz = dict(sizes)
                    if route == "overwrite":
                        for f, k in fields:
                            if isinstance(k, int) and f != "_":
                                sz.setdefault(f, NEW >> 3 & (1 << k) - 1)
                    exp["v"] = expected_bytes(hid, fields, e, sz)
                    m = make_msg(ip, cls, fields, vals, sizes, route)
                    got = canon(ip, ip.call(ip.getattr(m, "compose"), [], {}))
                    again = canon(ip, ip.call(ip.getattr(m, "compose"), [], {}))
                    return got, again

                name = "encode %04x %s #%d %s" % (hid, cls, i, route)
                for p in ctx.explore(name, run, Cfg(**RAW)):
                    where = "encoding of %s (%s)" % (cls, route)
                    if not p.returned:
                        ctx.fail("encode-layout", where, "in-range field values are refused with %s at %s" % (p.exc_name(), p.outcome[2]), p, cls)
                        continue
                    got, again = p.value
                    ctx.require(got == exp["v"], "encode-layout", where, "sent %s, layout says %s" % (brief(diff(got, exp["v"])[0]), brief(diff(got, exp["v"])[1])), p, cls)
                    ctx.require(again == got, "encode-pure", where, "composing the same message twice gives different bytes", p, cls)
        for fname, kind in fields:
            if kind != "Message":
                continue

            def carried(ip, fname=fname):
                """The command inside changes between two transmissions."""
                _lab, vals, _e, sizes = list(encode_cases(ip, hid, cls, fields))[0]
                inner = ip.call(ip.lookup("pyzwave.commandclass.Basic.Set"), [], {"value": K(5)})
                m = make_msg(ip, cls, fields, dict(dict(vals), **{fname: inner}), sizes, "kw")
                out = []
                for v in (0x11, 0x6E, 0):
                    ip.setattr(inner, "value", K(v))
                    out.append(canon(ip, ip.call(ip.getattr(m, "compose"), [], {})))
                return out
            for p in ctx.explore("encode %04x with a changing command" % hid, carried, Cfg(**RAW)):
                where = "encoding of %s" % cls
                if ctx.require(p.returned, "encode-layout", where, "with a changing command: raises %s" % p.exc_name(), p, cls):
                    tails = [list(x)[-1] if isinstance(x, (tuple, list)) else None for x in p.value]
                    ctx.require(tails == [0x11, 0x6E, 0], "encode-layout", where, "a command whose value is set to 17, 110 and 0 is sent as %s" % (tails,), p, cls + " inside")
    ctx.floor("encode-layout", 200)


def diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return x, y
    return a, b


# ------------------------------------------------------------------ malformed input
@check("W03")
def w03(ctx):
    """Lengths and counts inside a packet never reach outside it."""
    for hid, cls, fields in LAYOUT:
        comp = [k for _f, k in fields if not isinstance(k, int)]
        for name, payload in scenarios(hid, fields):
            if oracle(hid, fields, payload) is REJECT or comp and not name.startswith(("bit", "type", "p")):
                judge(ctx, "decode-bounds", hid, cls, fields, name, payload)
        # every truncation of a packet with a composite field
        if comp and comp[0] not in ("NodeList",):
            best = [pl for nm, pl in scenarios(hid, fields) if oracle(hid, fields, pl) is not REJECT][:3 if ctx.tier == "quick" else 40]
            for pl in best:
                for cut in range(len(pl)):
                    try:
                        oracle(hid, fields, pl[:cut])
                    except (TypeError, AnalysisError):
                        continue
                    judge(ctx, "decode-bounds", hid, cls, fields, "cut%d/%d" % (cut, len(pl)), pl[:cut])
    reader(ctx)
    ctx.floor("decode-bounds", 300)
    ctx.floor("reader", 100)


def reader(ctx):
    """The bit reader itself: every start offset, width and length."""
    ip = ctx.ip
    Rd = "pyzwave.types.BitStreamReader"

    def mk(ip, n, skip):
        r = ip.call(ip.lookup(Rd), [BS([B(i) for i in range(n)])], {})
        if skip:
            call(ip, r, "advance", K(skip))
        return r

    def run_bits(ip, start, size, adv):
        r = mk(ip, 4, start)
        v = canon(ip, call(ip, r, "bits", K(size), K(adv)))
        nxt = canon(ip, call(ip, r, "bits", K(8 - ((start + size) % 8 if adv else start % 8)), K(False)))
        return v, nxt, canon(ip, call(ip, r, "bytesLeft"))

    pl = [B(i) for i in range(4)]
    for start in range(0, 16):
        for size in range(1, 9 - start % 8):
            for adv in (True, False):
                for p in ctx.explore("reader bits %d+%d" % (start, size), lambda ip: run_bits(ip, start, size, adv), Cfg(**RAW)):
                    pos = start + size if adv else start
                    w = 8 - pos % 8
                    ok = p.returned and p.value == (expect_bits(pl, start, size), expect_bits(pl, pos, w), 4 - pos // 8)
                    ctx.require(ok, "reader", "BitStreamReader.bits", "bits(%d) at bit %d gives %s" % (size, start, brief(p.value if p.returned else p.exc_name())), p, "BitStreamReader.bits")

    def run_value(ip, start, size, peek):
        r = mk(ip, 4, 8 * start)
        v = canon(ip, call(ip, r, "peekValue" if peek else "value", K(size)))
        return v, canon(ip, call(ip, r, "bytesLeft"))

    for start in range(0, 5):
        for size in range(-3, 7):
            for peek in (False, True):
                for p in ctx.explore("reader value %d+%d" % (start, size), lambda ip: run_value(ip, start, size, peek), Cfg(**RAW)):
                    if size < 0 or start + size > 4:
                        ctx.require(not p.returned, "reader", "BitStreamReader.value", "value(%d) with %d bytes left returns %s" % (size, 4 - start, p.returned and brief(p.value)), p, "BitStreamReader.value")
                    else:
                        ok = p.returned and p.value == (bytesval(pl[start:start + size]), 4 - start - (0 if peek else size))
                        ctx.require(ok, "reader", "BitStreamReader.value", "value(%d) at byte %d gives %s" % (size, start, brief(p.value if p.returned else p.exc_name())), p, "BitStreamReader.value")

    def run_rest(ip, start, peek):
        r = mk(ip, 4, 8 * start)
        v = canon(ip, call(ip, r, "remaining", K(not peek)))
        return v, canon(ip, call(ip, r, "bytesLeft"))

    for start in range(0, 5):
        for peek in (False, True):
            for p in ctx.explore("reader remaining %d" % start, lambda ip: run_rest(ip, start, peek), Cfg(**RAW)):
                ok = p.returned and p.value == (bytesval(pl[start:]), 4 - start if peek else 0)
                ctx.require(ok, "reader", "BitStreamReader.remaining", "remaining at byte %d gives %s" % (start, brief(p.value if p.returned else p.exc_name())), p, "BitStreamReader.remaining")

    for what, args, want in (("byte", [], True), ("peekByte", [], False), ("bit", [], None)):
        for start in range(0, 5):
            def run1(ip):
                r = mk(ip, 4, 8 * start)
                return canon(ip, call(ip, r, what, *args)), canon(ip, call(ip, r, "bytesLeft"))
            for p in ctx.explore("reader %s %d" % (what, start), run1, Cfg(**RAW)):
                if start == 4:
                    ctx.require(not p.returned, "reader", "BitStreamReader." + what, "reads past the end", p)
                else:
                    exp = expect_bits(pl, 8 * start, 1) if what == "bit" else byteval(pl[start])
                    ok = p.returned and p.value == (exp, 4 - start - (1 if what == "byte" else 0))
                    ctx.require(ok, "reader", "BitStreamReader." + what, "at byte %d gives %s" % (start, brief(p.value if p.returned else p.exc_name())), p)


# ------------------------------------------------------------------ versions and round trip
@check("W04")
def w04(ctx):
    """Payloads of older versions decode as far as they reach; re-encoding what was decoded gives the same bits back."""
    ip = ctx.ip
    for hid, cls, fields in LAYOUT:
        n = fixed(fields)
        for k in range(n + 1):
            judge(ctx, "prefix", hid, cls, fields, "first%d" % k, [B(i) for i in range(k)])
        derived = [a for c in ip.lookup("pyzwave.commandclass." + cls).mro if isinstance(c, ClassV) for a, v in c.attrs.items() if isinstance(v, PropV) and not a.startswith("_")]

        def read(ip):
            k = ip.choose(n + 4, "bytes of the payload")
            try:
                m = decode(ip, pkt(hid, [K((0, 0x21, 0x41, 0xFF)[i % 4]) for i in range(k)]))
            except AbsRaise:
                return k, "refused"
            return k, [(a, canon(ip, ip.getattr(m, a))) for a in derived]

        if derived:
            for p in ctx.explore("derived %04x %s" % (hid, cls), read, Cfg(**RAW)):
                ctx.require(p.returned, "derived", cls, "what is told by a report that ends early (%s) raises %s" % (", ".join(derived), p.exc_name()), p, key="derived")
        if not encodable(hid, fields):
            continue
        mask = set()
        for name, payload in scenarios(hid, fields):
            if oracle(hid, fields, payload) is REJECT or name in ("trailing", "ipv6form", "unknowncmd", "shortcmd", "padded", "unknown", "one", "nocmd") or name.startswith(("ext-", "size")) and "padded" in name or name.startswith("ext-"):
                continue
            if hid == 0x6C01 and name != "basic" or hid == 0x7804 or hid == 0x2302 and name == "nocmd":
                continue

            def run(ip, payload=payload):
                m = decode(ip, pkt(hid, payload))
                return canon(ip, ip.call(ip.getattr(m, "compose"), [], {}))

            want = bytesval([hid >> 8, hid & 255] + reserved_cleared(fields, payload))
            if name in ("marker",):
                continue
            for p in ctx.explore("roundtrip %04x %s [%s]" % (hid, cls, name), run, Cfg(**RAW)):
                where = "decoding and re-encoding of %s" % cls
                if not p.returned:
                    ctx.fail("roundtrip", where, "payload '%s' cannot be sent back: %s at %s" % (name, p.exc_name(), p.outcome[2]), p, cls)
                    continue
                d = diff(p.value, want)
                ctx.require(p.value == want, "roundtrip", where, "payload '%s' comes back as %s, was %s" % (name, brief(d[0]), brief(d[1])), p, cls)
        del mask
    ctx.floor("prefix", 500)
    ctx.floor("derived", 1)
    ctx.floor("roundtrip", 80)


def reserved_cleared(fields, payload):
    out = list(payload)
    pos = 0
    for name, kind in fields:
        if kind == "IPv6":
            pos += 128
            continue
        if not isinstance(kind, int):
            break
        if name == "_":
            for b in range(pos, pos + kind):
                if b // 8 >= len(out):
                    break
                cur = models.bits_of(K(out[b // 8]) if isinstance(out[b // 8], int) else out[b // 8])
                cur = list(cur) + [0] * (8 - len(cur))
                cur[7 - b % 8] = 0
                x = models.mkbv(cur)
                out[b // 8] = x.v if isinstance(x, K) else x
        pos += kind
    return out


# ------------------------------------------------------------------ out of range
@check("W05")
def w05(ctx):
    """A value that does not fit its field is refused; it never changes another field."""
    ip = ctx.ip
    for hid, cls, fields in LAYOUT:
        if not encodable(hid, fields):
            continue
        for fname, kind in fields:
            if fname == "_" or isinstance(kind, int) and kind == 1:
                continue
            if isinstance(kind, int):
                bad = [-1, 1 << kind, (1 << kind) + 1, (1 << kind + 1) - 1, 1 << (kind + 8)]
            elif kind == "dsk_t":
                bad = [bytes(15), bytes(17), "-".join(["70000"] + ["00001"] * 7), "-".join(["00001"] * 7 + ["65536"])]
            elif kind == "IPv6":
                bad = [bytes(15), bytes(17)]
            elif kind == "Nodes":
                bad = [[K(256)], [K(-1)], [T((K(1), K(256)))], [T((K(300), K(1)))]]
            elif kind == "int":
                bad = [256, -1, 1 << 20]
            else:
                continue
            for b in bad:
                for route in ("kw", "attr"):
                    def run(ip, b=b, route=route):
                        _lab, vals, e, sizes = list(encode_cases(ip, hid, cls, fields))[0]
                        sizes = dict(sizes)
                        vals = dict(vals)
                        if isinstance(kind, int):
                            sizes[fname] = b
                        else:
                            vals[fname] = b if isinstance(b, list) else K(b)
                        m = make_msg(ip, cls, fields, vals, sizes, route)
                        return canon(ip, ip.call(ip.getattr(m, "compose"), [], {}))
                    for p in ctx.explore("overflow %s.%s=%r %s" % (cls, fname, b, route), run, Cfg(**RAW)):
                        ctx.require(not p.returned, "out-of-range", "encoding of %s" % cls, "%s=%r is accepted and sent as %s" % (fname, b, p.returned and brief(p.value)), p, "%s.%s" % (cls, fname))
    ctx.floor("out-of-range", 800)


# ------------------------------------------------------------------ missing fields
@check("W06")
def w06(ctx):
    """A message with a required field missing is never sent; optional ones default to nothing; reserved bits are zero."""
    ip = ctx.ip
    optional = {"bytes_t", "Nodes", "HeaderExtension"}
    for hid, cls, fields in LAYOUT:
        if not encodable(hid, fields):
            continue
        names = [f for f, _k in fields if f != "_"]
        for fname, kind in fields:
            if fname == "_":
                continue
            for route in ("kw", "attr"):
                exp = {}

                def run(ip, route=route, exp=exp):
                    _lab, vals, e, sizes = list(encode_cases(ip, hid, cls, fields))[0]
                    m = make_msg(ip, cls, fields, vals, sizes, route, skip=(fname,))
                    e = dict(e)
                    e[fname] = []
                    if kind in optional:
                        exp["v"] = expected_bytes(hid, fields, e, sizes)
                    return canon(ip, ip.call(ip.getattr(m, "compose"), [], {}))
                for p in ctx.explore("missing %s.%s %s" % (cls, fname, route), run, Cfg(**RAW)):
                    where = "encoding of %s without %s" % (cls, fname)
                    if kind in optional:
                        ctx.require(p.returned and p.value == exp["v"], "default", where, "an omitted optional field does not encode as nothing: %s" % (brief(p.value) if p.returned else p.exc_name()), p)
                    else:
                        ctx.require(not p.returned, "missing", where, "the field was never set but the message is sent as %s" % (p.returned and brief(p.value)), p)
        if names:
            for p in ctx.explore("missing all %s" % cls, lambda ip: canon(ip, call(ip, ip.call(ip.lookup("pyzwave.commandclass." + cls), [], {}), "compose")), Cfg(**RAW)):
                need = [f for f, k in fields if f != "_" and k not in optional]
                if need:
                    ctx.require(not p.returned, "missing", "encoding of an empty %s" % cls, "no field was set but the message is sent", p)
    ctx.floor("missing", 200)


# ------------------------------------------------------------------ identity of commands
@check("W07")
def w07(ctx):
    """Command ids and message types correspond one to one; anything else decodes as an unknown message with its id."""
    ip = ctx.ip
    reg = ip.lookup("pyzwave.commandclass.ZWaveMessage")
    known = {}

    def table(ip):
        out = []
        for hid, cls, _f in LAYOUT:
            c = ip.lookup("pyzwave.commandclass." + cls)
            got = ip.call(ip.getattr(reg, "get"), [K(hid)], {})
            own = canon(ip, ip.call(ip.getattr(c, "hid"), [], {}))
            m = ip.call(c, [], {})
            inst = canon(ip, call(ip, m, "hid"))
            cc = canon(ip, call(ip, m, "cmdClass"))
            out.append((hid, cls, got == c or got is c, own, inst, cc))
        return out

    for p in ctx.explore("registered commands", table, Cfg(**RAW)):
        if not p.returned:
            ctx.fail("registry", "command registry", "looking up the registered commands raises %s" % p.exc_name(), p)
            continue
        for hid, cls, same_cls, own, inst, cc in p.value:
            ctx.require(same_cls, "registry", cls, "command %04x is not decoded as %s" % (hid, cls), p)
            ctx.require(own == hid and inst == hid, "registry", cls, "%s reports id %s/%s instead of %04x" % (cls, own, inst, hid), p)
            ctx.require(cc == hid >> 8, "registry", cls, "%s reports command class %s" % (cls, cc), p)
    for p in ctx.explore("registry keys", lambda ip: canon(ip, ip.call(K_list(), [reg], {})), Cfg(**RAW)):
        if p.returned and isinstance(p.value, tuple):
            for h in p.value[1:]:
                known[h] = 1
    ids = [h for h in unknown_ids(ctx.tier) if h not in known and h not in {x[0] for x in LAYOUT}]
    for h in ids:
        for tail in ([], [1], [1, 2, 3]):
            if tail and h % 7:
                continue
            def run(ip):
                m = decode(ip, BS([K(h >> 8), K(h & 255)] + [K(t) for t in tail]))
                return canon(ip, m), canon(ip, call(ip, m, "cmdClass"))
            for p in ctx.explore("unknown %04x+%d" % (h, len(tail)), run, Cfg(**RAW)):
                ok = p.returned and p.value == (("msg", "pyzwave.message.UnknownMessage", h), h >> 8)
                ctx.require(ok, "unknown", "decoding of unregistered commands", "packet %04x decodes as %s" % (h, brief(p.value) if p.returned else p.exc_name()), p)
    for n in (0, 1):
        for p in ctx.explore("short %d" % n, lambda ip: canon(ip, decode(ip, BS([B(i) for i in range(n)]) if n else K(b""))), Cfg(**RAW)):
            ok = p.returned and p.value == ("msg", "pyzwave.message.UnknownMessage", 0)
            ctx.require(ok, "unknown", "decoding of packets without a command", "a %d byte packet decodes as %s" % (n, brief(p.value) if p.returned else p.exc_name()), p)
    ctx.floor("registry", 300)
    ctx.floor("unknown", 300)


def K_list():
    return BC(list)


def unknown_ids(tier):
    out = []
    classes = sorted({h >> 8 for h, _c, _f in LAYOUT})
    for c in classes:
        out += [c << 8 | x for x in (range(0, 256) if tier == "thorough" else list(range(0, 34)) + [0x7F, 0x80, 0xFE, 0xFF])]
    out += [0x0000, 0x0001, 0x0100, 0xFFFF, 0xFF00, 0xF100, 0xEF00, 0xFE25]
    for c in range(256) if tier == "thorough" else range(0, 256, 5):
        if c not in classes:
            out += [c << 8 | 1, c << 8 | 2, c << 8 | 3]
    return out


# ------------------------------------------------------------------ header extension
@check("W09")
def w09(ctx):
    """Transport options in a header extension are read by their own length, and never cost the packet."""
    hid, cls, fields = [x for x in LAYOUT if x[0] == 0x2302][0]
    for name, payload in scenarios(hid, fields):
        judge(ctx, "options", hid, cls, fields, name, payload)
    n = fixed(fields)
    head = setbits([B(i) for i in range(n)], fields, "headerExtIncluded", 1)
    tlv = {
        "delay": [0x01, 3, B(50), B(51), B(52)], "rssi": [0x03, 7, 3, 5, B(53), B(54), B(55), B(56), B(57)], "encap": [0x84, 2, B(58), B(59)], "unknown": [0x2A, 2, B(60), B(61)],
        "unknown0": [0x7F, 0], "route": [0x83, 3, 0, 1, B(62)], "multicast": [0x05, 1, B(63)],
    }
    import itertools
    ime = {
        "repeaters": [0, 1, B(70)], "time": [1, 2, B(71), B(72)], "nodes": [2, 5] + [B(73 + i) for i in range(5)], "quality": [3, 1, B(80)], "rssi": [4, 5] + [B(81 + i) for i in range(5)],
        "ack": [5, 1, B(86)], "unknown": [0x42, 2, B(87), B(88)], "unknown0": [6, 0], "repeaters0": [0, 0], "time1": [1, 1, B(89)],
    }
    for k in (0, 1, 2):
        for combo in itertools.permutations(sorted(ime), k):
            body = [x for t in combo for x in ime[t]]
            for last in (True, False) if k < 2 or ctx.tier == "thorough" or hash_stable(combo) % 3 == 0 else (True,):
                ext = [0x03, len(body)] + body + ([] if last else tlv["encap"])
                judge(ctx, "options", hid, cls, fields, "report of %s%s" % ("+".join(combo), "" if last else ", encap"), head + [len(ext) + 1] + ext + [0x25, 0x03, 0xFF])
    for k in (1, 2, 3):
        for combo in itertools.permutations(sorted(tlv), k):
            if k == 3 and ctx.tier == "quick" and hash_stable(combo) % 3:
                continue
            ext = [x for t in combo for x in tlv[t]]
            judge(ctx, "options", hid, cls, fields, "+".join(combo), head + [len(ext) + 1] + ext + [0x25, 0x03, 0xFF])

    def delay(ip, body):
        m = decode(ip, pkt(hid, head + [len(body) + 1] + body + [0x25, 0x03, 0xFF]))
        return canon(ip, ip.getattr(ip.getattr(m, "headerExtension"), "expectedDelay"))

    for combo in (("delay",), ("encap", "delay"), ("delay", "route"), ("route",), ("encap", "unknown"), ()):
        body = [x for t in combo for x in tlv[t]]
        want = signedval(tlv["delay"][2:]) if "delay" in combo else 0
        for p in ctx.explore("expected delay [%s]" % "+".join(combo), lambda ip: delay(ip, body), Cfg(**RAW)):
            ctx.require(p.returned and p.value == want, "delay", "expected delay of a queued packet", "options %s give %s" % ("+".join(combo), brief(p.value) if p.returned else p.exc_name()), p)
    ctx.floor("options", 400)


def hash_stable(x):
    return sum(ord(c) * (i + 1) for i, c in enumerate("/".join(x)))


# ------------------------------------------------------------------ code tables
@check("W08")
def w08(ctx):
    """Every published code keeps its number, and decoding that number gives the published name back."""
    ip = ctx.ip
    for line in open(os.path.join(VERIF, "spec", "enums.txt"), encoding="utf-8"):
        q, *mem = line.split()
        want = [(m.split("=")[0], int(m.split("=")[1])) for m in mem]

        def read(ip):
            c = ip.lookup(q)
            return [(n, canon(ip, ip.getattr(c, n)), canon(ip, ip.getattr(ip.call(c, [K(v)], {}), "name"))) for n, v in want]
        for p in ctx.explore("codes of %s" % q, read, Cfg(**RAW)):
            if not p.returned:
                ctx.fail("codes", q, "the code table cannot be read: %s" % p.exc_name(), p)
                continue
            for (n, v), (n2, got, back) in zip(want, p.value):
                ctx.require(got == v, "codes", "%s.%s" % (q, n), "has the code %s, not %d" % (brief(got), v), p)
                ctx.require(back == n, "codes", "%s.%s" % (q, n), "code %d reads back as %s" % (v, back), p)
    ctx.floor("codes", 190)
