"""Command classes: what an interview and the reports of a node leave behind."""
import asyncio

from . import check
from ..scenario import *  # noqa
from .waiters import stub
from .node import Net, cname, mknode, field

CC = "pyzwave.commandclass."


def cls(w, node, i):
    return w.ip.call(w.ip.getattr(w.get(node, "supported"), "get"), [K(i)], {})


def sb(name, k=8):
    """k distinct unknown bits, least significant last in transmission order."""
    return BV([(name, i) for i in range(k)])


def drive(w, t, fired=None, limit=60):
    """Run until the task ends; whatever waits with nobody left to answer times out."""
    for _ in range(limit):
        w.run()
        if t.done():
            return True
        tos = w.sched.timeouts()
        if not tos:
            return False
        if fired is not None:
            fired.append(1)
        w.sched.fire(tos[0])
    return False


def known(w, cc):
    """What the command class knows, attribute by attribute."""
    ip = w.ip
    out = {"interviewed": w.canon(w.get(cc, "interviewed")), "version": w.canon(w.get(cc, "version"))}

    def conv(v):
        if isinstance(v, R) and isinstance(ip.o(v).cls, ClassV):
            n = ip.o(v).cls
            if ip.class_lookup(n, "parseAttributes") is not None:
                return {a: conv(ip.getattr(v, a)) for a in names(n)}
        if isinstance(v, R) and (ip.o(v).kind == "dict" or ip.builtin_base(ip.o(v)) == "dict"):
            return {w.canon(k): conv(ip.call(ip.getattr(v, "get"), [k], {})) for k in ip.iter_elems(v)[0]}
        if isinstance(v, T):
            return [conv(x) for x in v.items]
        if isinstance(v, R) and ip.builtin_base(ip.o(v)) in ("list", "set", "tuple"):
            return [conv(x) for x in ip.iter_elems(v)[0]]
        x = w.canon(v)
        if x is None or isinstance(x, bool):
            x = int(bool(x))
        return x

    def names(c):
        l = ip.getattr(c, "attributes")
        return [w.canon(ip.iter_elems(a)[0][0]) for a in ip.iter_elems(l)[0] if w.canon(ip.iter_elems(a)[0][0]) != "-"]

    for a in names(ip.o(cc).cls):
        out[a] = conv(w.get(cc, a))
    return out


def vreport(w, cmd, v=1):
    return w.msg("Version.VersionCommandClassReport", requestedCommandClass=w.get(cmd, "requestedCommandClass"), commandClassVersion=K(v))


SIMPLE = {
    0x86: ("Version", "VersionGet", "VersionReport", dict(zwaveLibraryType=8, zwaveProtocolVersion=8, zwaveProtocolSubVersion=8, applicationVersion=8, applicationSubVersion=8)),
    0x5E: ("ZwavePlusInfo", "Get", "Report", dict(zwavePlusVersion=8, roleType=8, nodeType=8, installerIconType=16, userIconType=16)),
    0x72: ("ManufacturerSpecific", "Get", "Report", dict(manufacturerID=16, productTypeID=16, productID=16)),
}


@check("C01")
def c01(ctx):
    """An interview leaves exactly what the node reported, in the attributes of that name, and sends nothing else."""
    stub(ctx)

    def run(ip):
        w = World(ip)
        i = list(SIMPLE)[ip.choose(len(SIMPLE), "class")]
        mod, get, rep, fields = SIMPLE[i]
        old = w.choose(False, True)
        ep = w.choose(0, 2)
        vals = {f: K((37 * k + 11) % (1 << n)) if old else sb(f, n) for k, (f, n) in enumerate(fields.items())}
        # version 1 of the Z-Wave Plus information has no icons
        first = i == 0x5E and w.choose(False, True)
        blank = not first and w.choose(False, True)
        sent = {f: v for f, v in vals.items() if not first or "Icon" not in f}
        net = Net(w)
        node, root = mknode(w, net, ep, [i, 0x25])
        cc = cls(w, node, i)

        def reply(n, c):
            if n == "Version.VersionCommandClassGet" and blank:
                # it ends before the version
                w.start(node, "handleMessage", w.msg("Version.VersionCommandClassReport", requestedCommandClass=w.get(c, "requestedCommandClass")), K(0))
            elif n == "Version.VersionCommandClassGet":
                w.start(node, "handleMessage", vreport(w, c, 2), K(0))
            elif n == mod + "." + get:
                w.start(node, "handleMessage", w.msg(mod + "." + rep, **sent), K(0))
            return True
        net.reply = reply
        if old:
            for f in fields:
                ip.setattr(cc, f, K(99))
        t = w.spawn(cc, "interview")
        done = drive(w, t)
        res = w.result(t)
        out = {f: w.canon(w.get(cc, f)) for f in fields}
        vals = {f: K(99 if old else 0) if blank or f not in sent else v for f, v in vals.items()}
        return mod, ep, done, res[0], out, {f: w.canon(v) for f, v in vals.items()}, [x[2] for x in net.log], [x[1:2] + x[3:5] for x in net.log], mod + "." + get, w.canon(w.get(cc, "interviewed")), w.canon(w.get(cc, "version")), old, blank

    for p in ctx.scen("interview of the plain command classes", run, scfg()):
        where = "interview"
        if not ctx.require(p.returned, "interview", where, "raises %s" % p.exc_name(), p):
            continue
        mod, ep, done, st, out, want, sent, to, get, iv, ver, old, blank = p.value
        where = "interview of " + mod
        ctx.require(done and st == "result", "interview", where, "ends as %s" % st, p)
        for f, v in want.items():
            ctx.require(out[f] == v, "interview", where, "%s is %s, reported was %s" % (f, out[f], v), p, key="%s.%s" % (mod, f))
        ctx.require(sent == ["Version.VersionCommandClassGet", get][:1 if blank else 2], "asked", where, "%s asks %s" % (mod, sent), p)
        ctx.require(all(x == (4, 0, ep) for x in to), "asked", where, "%s at end point %d asks %s" % (mod, ep, to), p)
        ctx.require((iv, ver) == ((0, 0) if blank else (1, 2)), "interview", where, "%s afterwards: interviewed %s, version %s" % (mod, iv, ver), p)

    # sensors
    sets = [(), (1,), (5, 1), (0x28, 3, 1)]

    def sensors(ip):
        w = World(ip)
        ver = w.choose(1, 4, 5, 11)
        types = w.choose(*sets)
        silent = w.choose(None, 0, 1) if types and ver > 4 else None
        late = silent is None and len(types) > 1 and w.choose(False, True)
        before = w.choose(None, "loaded", "interviewed") if ver > 4 and silent is None and not late else None
        net = Net(w)
        node, root = mknode(w, net, 0, [0x31])
        cc = cls(w, node, 0x31)
        masks = {x: sb("scale%d" % x, 4) for x in types}
        asked = []

        def reply(n, c):
            if n == "Version.VersionCommandClassGet":
                w.start(node, "handleMessage", vreport(w, c, ver), K(0))
            elif n == "SensorMultilevel.SupportedGetSensor":
                raw = sum(1 << (x - 1) for x in types)
                m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [K(bytes([0x31, 2]) + raw.to_bytes(6, "little"))], {})
                w.start(node, "handleMessage", m, K(0))
            elif n == "SensorMultilevel.SupportedGetScale":
                x = field(w, c, "sensorType")
                x = x[-1] if isinstance(x, tuple) else x
                asked.append(x)
                if late and len(asked) == 2:
                    # the first answer once more
                    w.start(node, "handleMessage", w.msg("SensorMultilevel.SupportedScaleReport", sensorType=K(asked[0]), scaleBitMask=masks[asked[0]]), K(0))
                if silent is None or len(asked) != silent + 1:
                    w.start(node, "handleMessage", w.msg("SensorMultilevel.SupportedScaleReport", sensorType=K(x), scaleBitMask=masks[x]), K(0))
            return True
        net.reply = reply
        if before == "loaded":
            # known from an earlier run
            w.call(cc, "__setstate__", ip.mkdict([(K("version"), K(str(ver))), (K("interviewed"), K("true")), (K("supportedTypes"), ip.mkdict([(K("1"), K("15")), (K("7"), K("3"))]))]))
        elif before:
            now = types
            types, keep = (7, 1), masks
            masks = {7: K(3), 1: K(15)}
            drive(w, w.spawn(cc, "interview"))
            types, masks = now, keep
            del asked[:]
        del net.log[:]
        t = w.spawn(cc, "interview")
        done = drive(w, t)
        d = w.get(cc, "supportedTypes")
        got = {}
        for k in ip.iter_elems(d)[0]:
            got[w.canon(k)] = w.canon(ip.call(ip.getattr(d, "get"), [k], {}))
        return ver, types, silent, late, before, done, w.result(t)[0], asked, got, {x: w.canon(m) for x, m in masks.items()}, w.canon(w.get(cc, "interviewed")), [x[2] for x in net.log]

    for p in ctx.scen("interview of a sensor", sensors, scfg()):
        where = "interview of SensorMultilevel"
        if not ctx.require(p.returned, "interview", where, "raises %s" % p.exc_name(), p):
            continue
        ver, types, silent, late, before, done, st, asked, got, masks, iv, log = p.value
        name = "version %d with the types %s%s" % (ver, list(types), "" if silent is None else ", no answer to question %d" % (silent + 1))
        if before:
            name += ", %s with other types before" % before
        ctx.require(done and st == "result", "interview", where, "%s ends as %s" % (name, st), p)
        if ver < 5:
            ctx.require(len(log) == 1 and got == {} and iv == 1, "sensor", where, "%s asks %s" % (name, log[1:]), p)
            continue
        broken = silent is not None and silent < len(types)
        if broken:
            known = asked[:silent]
        else:
            ctx.require(sorted(asked) == sorted(types), "sensor", where, "%s asks for the types %s" % (name, asked), p)
            known = types
        ctx.require(got == {x: masks[x] for x in known}, "sensor", where, "%s%s is known as %s" % (name, ", with the first answer repeated" if late else "", got), p)
        ctx.require(iv == (0 if broken else 1), "sensor", where, "%s: interviewed is %s" % (name, iv), p)

    def versions(ip):
        """The version is asked for again whenever somebody asks."""
        w = World(ip)
        net = Net(w)
        i = w.choose(*STATEFUL)
        node, root = mknode(w, net, w.choose(0, 2), [i, 0x86])
        cc = cls(w, node, i)
        kinds = w.choose((2, 3, 1), (None, 2, 1), (4, None, 2), ("interview", 3, 1), ("loaded", 1, 2))
        now = [0]

        def reply(n, c):
            if n == "Version.VersionCommandClassGet":
                if now[0]:
                    w.start(node, "handleMessage", vreport(w, c, now[0]), K(0))
                return True
            m = answers(w, node, n, c)
            if m is not None:
                w.start(node, "handleMessage", m, K(0))
            return True
        net.reply = reply
        out = []
        for k in kinds:
            if k == "loaded":
                w.call(cc, "__setstate__", ip.mkdict([(K("version"), K("7")), (K("interviewed"), K("true"))]))
            now[0] = {None: 0, "interview": 5}.get(k, k)
            if k != "loaded":
                del net.log[:]
                t = w.spawn(cc, "interview" if k == "interview" else "requestVersion")
                done = drive(w, t)
                r = w.result(t)
                out.append((k, done, r[0], w.canon(r[1]) if r[0] == "result" else None, w.canon(w.get(cc, "version")), [x[2] for x in net.log][:1]))
        return STATEFUL[i], kinds, out

    for p in ctx.scen("asking for versions", versions, scfg()):
        where = "version of a command class"
        if not ctx.require(p.returned, "interview", where, "raises %s" % p.exc_name(), p):
            continue
        i, kinds, out = p.value
        ver = 7 if kinds[0] == "loaded" else 0
        for k, done, st, val, cur, log in out:
            ver = {None: ver, "interview": 5}.get(k, k)
            ctx.require(done and st == "result" and log == ["Version.VersionCommandClassGet"], "asked", where, "%s, asked for with the answers %s: %s, asks %s" % (i, kinds, st, log), p)
            ctx.require(cur == ver and (k == "interview" or val == (k or 0)), "interview", where, "%s, asked for with the answers %s: gives %s and is %s" % (i, kinds, val, cur), p, key="version")
    ctx.floor("interview", 60)
    ctx.floor("sensor", 20)


def nodelist(w, v):
    out = []
    for x in w.ip.iter_elems(v)[0]:
        out.append(tuple(w.canon(y) for y in w.ip.iter_elems(x)[0]))
    return out


@check("C02")
def c02(ctx):
    """The association groups are the ones reported, and the life line is set up if and only if it is missing."""
    stub(ctx)
    lines = {"none": [], "controller": [(1, None)], "controller end point 0": [(1, 0)], "controller end point 2": [(1, 2)], "others": [(2, None), (11, 0)], "both": [(2, None), (1, None)]}

    def run(ip):
        w = World(ip)
        plus, mc, mca = w.choose(True, False), w.choose(True, False), w.choose(True, False)
        groups = w.choose(0, 1, 2)
        line = w.choose(*lines)
        silent = w.choose(None, 1, "cut") if groups else None
        cut = silent == "cut"
        silent = 1 if cut else silent
        ep = w.choose(0, 3)
        net = Net(w)
        node, root = mknode(w, net, ep, [0x85] + ([0x5E] if plus else []) + ([0x60] if mc else []) + ([0x8E] if mca else []))
        cc = cls(w, node, 0x85)
        state = {1: list(lines[line]), 2: [(7, None)]}
        maxn = {1: K(5), 2: K(255)}
        sets, asked = [], []

        def reply(n, c):
            if n == "Version.VersionCommandClassGet":
                w.start(node, "handleMessage", vreport(w, c, 2), K(0))
            elif n == "Association.GroupingsGet":
                w.start(node, "handleMessage", w.msg("Association.GroupingsReport", supportedGroupings=K(groups)), K(0))
            elif n in ("Association.Get", "MultiChannelAssociation.MultiChannelGet"):
                g = field(w, c, "groupingIdentifier")
                asked.append((g, n))
                if g == silent and len(asked) == 1:
                    if cut:
                        # a report that ends after the number of the group
                        raw = bytes([0x85 if n == "Association.Get" else 0x8E, 3, g])
                        w.start(node, "handleMessage", ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [K(raw)], {}), K(0))
                    return True
                if g not in state:
                    return True
                r = "Association.Report" if n == "Association.Get" else "MultiChannelAssociation.MultiChannelReport"
                nodes = ip.mklist([ip.mktuple([K(a), K(b)]) if hasattr(ip, "mktuple") else T([K(a), K(b)]) for a, b in state[g]])
                m = w.msg(r, groupingIdentifier=K(g), maxNodesSupported=maxn[g], reportsToFollow=K(0), nodes=nodes)
                # another group's report first: it must not be mistaken for this one
                o = 3 - g
                nodes2 = ip.mklist([T([K(77), NONE])])
                w.start(node, "handleMessage", w.msg(r, groupingIdentifier=K(o), maxNodesSupported=K(9), reportsToFollow=K(0), nodes=nodes2), K(0))
                w.start(node, "handleMessage", m, K(0))
            elif n in ("Association.Set", "MultiChannelAssociation.MultiChannelSet"):
                l = nodelist(w, w.get(c, "nodes"))
                b, e = w.attempt(c, "compose")
                sets.append((n, field(w, c, "groupingIdentifier"), l, e or w.canon(b)))
                state.setdefault(field(w, c, "groupingIdentifier"), []).extend(l)
            return True
        net.reply = reply
        t = w.spawn(cc, "interview")
        done = drive(w, t)
        got = {}
        d = w.get(cc, "groupings")
        for k in ip.iter_elems(d)[0]:
            g = ip.call(ip.getattr(d, "get"), [k], {})
            got[w.canon(k)] = (w.canon(w.get(g, "maxNodes")), nodelist(w, w.get(g, "nodes")))
        return plus, mc, mca, groups, line, silent, ep, done, w.result(t)[0], got, sets, asked, {g: w.canon(m) for g, m in maxn.items()}, [x[:2] + x[3:5] for x in net.log], w.canon(w.get(cc, "interviewed"))

    for p in ctx.scen("interview of the associations", run, scfg(max_paths=100000)):
        where = "interview of Association"
        if not ctx.require(p.returned, "groups", where, "raises %s" % p.exc_name(), p):
            continue
        plus, mc, mca, groups, line, silent, ep, done, st, got, sets, asked, maxn, to, iv = p.value
        name = "%d groups, life line %s, %s%s%s%s" % (groups, line, "plus " if plus else "", "multi channel " if mc else "", "multi channel association" if mca else "", ", silent" if silent else "")
        ctx.require(done and st == "result", "groups", where, "%s ends as %s" % (name, st), p)
        ctx.require(all(x == ("sendToNode", 4, 0, ep) for x in to), "groups", where, "%s at end point %d sends to %s" % (name, ep, to), p, key="address")
        has = line in ("controller", "controller end point 0", "both")
        # without an answer about the group nothing is known to be in it
        need = plus and groups > 0 and (not has or silent == 1)
        multi = mc and mca
        want = []
        if need:
            want = [("MultiChannelAssociation.MultiChannelSet", 1, [(1, 0)], ("bytes", 0x8E, 1, 1, 0, 1, 0))] if multi else [("Association.Set", 1, [(1, None)], ("bytes", 0x85, 1, 1, 1))]
        ctx.require(sets == want, "lifeline", where, "%s: sets %s" % (name, sets), p, key="lifeline")
        get = "MultiChannelAssociation.MultiChannelGet" if mca else "Association.Get"
        exp = [(g, get) for g in range(1, groups + 1)] + ([(1, get)] if need else [])
        ctx.require(asked == exp, "groups", where, "%s: asks for %s" % (name, asked), p, key="asked")
        final = {g: (maxn[g], list(lines[line]) if g == 1 else [(7, None)]) for g in range(1, groups + 1)}
        if need:
            final[1] = (maxn[1], final[1][1] + want[0][2])
        elif silent and 1 in final:
            final[1] = (0, [])
        ctx.require(got == final, "groups", where, "%s: the groups are %s" % (name, got), p, key="groups")
        ctx.require(iv == 1, "groups", where, "%s: interviewed is %s" % (name, iv), p, key="interviewed")

    def again(ip):
        """A second interview during which a group does not answer, and with more or fewer groups."""
        w = World(ip)
        mca, mc = w.choose(True, False), w.choose(True, False)
        silent = w.choose(1, 2)
        second = w.choose(2, 3, 1)
        net = Net(w)
        node, root = mknode(w, net, 0, [0x85] + ([0x60] if mc else []) + ([0x8E] if mca else []))
        cc = cls(w, node, 0x85)
        rnd, asked = [0], []

        def reply(n, c):
            if n == "Version.VersionCommandClassGet":
                w.start(node, "handleMessage", vreport(w, c, 2), K(0))
            elif n == "Association.GroupingsGet":
                w.start(node, "handleMessage", w.msg("Association.GroupingsReport", supportedGroupings=K(second if rnd[0] else 2)), K(0))
            elif n in ("Association.Get", "MultiChannelAssociation.MultiChannelGet"):
                g = field(w, c, "groupingIdentifier")
                asked.append(g)
                if rnd[0] and g == silent:
                    return True
                r = "Association.Report" if n == "Association.Get" else "MultiChannelAssociation.MultiChannelReport"
                w.start(node, "handleMessage", w.msg(r, groupingIdentifier=K(g), maxNodesSupported=K(10 * g + rnd[0]), reportsToFollow=K(0), nodes=ip.mklist([T([K(20 * g + rnd[0]), NONE])])), K(0))
            return True
        net.reply = reply
        out = []
        for _i in range(2):
            t = w.spawn(cc, "interview")
            done = drive(w, t)
            got = {}
            d = w.get(cc, "groupings")
            for k in ip.iter_elems(d)[0]:
                g = ip.call(ip.getattr(d, "get"), [k], {})
                got[w.canon(k)] = (w.canon(w.get(g, "maxNodes")), nodelist(w, w.get(g, "nodes")))
            out.append((done, w.result(t)[0], got))
            rnd[0] = 1
        return silent, second, out, asked

    for p in ctx.scen("a second interview of the associations", again, scfg()):
        where = "interview of Association"
        if not ctx.require(p.returned, "again", where, "a second one raises %s" % p.exc_name(), p):
            continue
        silent, second, out, asked = p.value
        ctx.require(asked == [1, 2] + list(range(1, second + 1)), "again", where, "two interviews with 2 and %d groups ask for the groups %s" % (second, asked), p, key="asked")
        val = lambda g, r: (10 * g + r, [(20 * g + r, None)])
        ctx.require(all(x[0] and x[1] == "result" for x in out), "again", where, "two interviews end as %s" % [x[1] for x in out], p)
        ctx.require(out[0][2] == {1: val(1, 0), 2: val(2, 0)}, "again", where, "the first interview gives %s" % out[0][2], p)
        # what a silent group reported the last time is still what is known of it
        want = {g: val(g, 0 if g == silent else 1) for g in range(1, second + 1)}
        if silent == 3:
            want[3] = (0, [])
        got = out[1][2]
        ctx.require(got == want, "again", where, "after a second interview with %d groups, group %d silent: %s" % (second, silent, got), p)

    def frames(ip):
        """A group in two reports."""
        w = World(ip)
        net = Net(w)
        node, root = mknode(w, net, 0, [0x85])
        cc = cls(w, node, 0x85)

        def reply(n, c):
            if n == "Version.VersionCommandClassGet":
                w.start(node, "handleMessage", vreport(w, c, 2), K(0))
            elif n == "Association.GroupingsGet":
                w.start(node, "handleMessage", w.msg("Association.GroupingsReport", supportedGroupings=K(1)), K(0))
            elif n == "Association.Get":
                for i in (1, 0):
                    w.start(node, "handleMessage", w.msg("Association.Report", groupingIdentifier=K(1), maxNodesSupported=K(9), reportsToFollow=K(i), nodes=ip.mklist([T([K(7 - i), NONE])])), K(0))
            return True
        net.reply = reply
        t = w.spawn(cc, "interview")
        drive(w, t)
        d = w.get(cc, "groupings")
        g = ip.call(ip.getattr(d, "get"), [K(1)], {})
        return nodelist(w, w.get(g, "nodes"))

    for p in ctx.scen("a group in two reports", frames, scfg()):
        ctx.require(p.returned and sorted(p.value) == [(6, None), (7, None)], "frames", "interview of Association", "a group reported in two reports is known as %s" % (p.value if p.returned else p.exc_name()), p, key="reports to follow")
    ctx.floor("groups", 200)
    ctx.floor("lifeline", 60)


@check("C03")
def c03(ctx):
    """The group information is the one reported, whatever the order of the reports."""
    stub(ctx)
    depth = 5 if ctx.tier == "thorough" else 3

    def run(ip):
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, w.choose(0, 2), [0x59])
        cc = cls(w, node, 0x59)
        hist, want, asks = [], {}, []
        n = 0

        def reply(nm, c):
            if nm == "Version.VersionCommandClassGet":
                w.start(node, "handleMessage", vreport(w, c, 1), K(0))
            elif nm in ("AssociationGrpInfo.GroupNameGet", "AssociationGrpInfo.GroupCommandListGet"):
                asks.append((nm.split(".")[1], field(w, c, "groupingIdentifier")))
            elif nm == "AssociationGrpInfo.GroupInfoGet":
                asks.append((nm.split(".")[1], field(w, c, "listMode"), field(w, c, "refreshCache")))
            else:
                asks.append((nm,))
            return True
        net.reply = reply
        t = w.spawn(cc, "interview")
        done = drive(w, t)
        exp = [("GroupInfoGet", 1, 0)]
        res = [w.result(t)[0]]
        for k in range(depth):
            a = w.choose("info 1", "info 1 2", "name 1", "name 2", "empty name 1", "commands 1", "commands 2", "list 2", "interview") if k else w.choose("info 1", "info 1 2", "name 1", "commands 2", "list 1")
            hist.append(a)
            n += 1
            if a == "interview":
                # what is known stays known until something else is reported
                t = w.spawn(cc, "interview")
                done = drive(w, t) and done
                exp.append(("GroupInfoGet", 1, 0))
                res.append(w.result(t)[0])
                continue
            g = int(a[-1])
            if a.startswith(("info", "list")):
                raw = []
                for x in a.split()[1:]:
                    raw += [K(int(x)), K(0)] + [BV([("p%d%s" % (n, x), 8 * i + j) for j in range(8)]) for i in (1, 0)] + [K(0)] * 3
                    want[int(x)] = {"profile": ("p%d%s" % (n, x)), "name": None, "commands": None}
                    exp += [("GroupNameGet", int(x)), ("GroupCommandListGet", int(x))]
                m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [BS([K(0x59), K(4), K(len(a.split()) - 1 | (0x80 if a.startswith("list") else 0))] + raw)], {})
            elif "name" in a:
                nm = "" if a.startswith("empty") else "group %d" % n
                m = w.msg("AssociationGrpInfo.GroupNameReport", groupingIdentifier=K(g), name=K(nm))
                if g in want:
                    want[g]["name"] = nm
            else:
                m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [BS([K(0x59), K(6), K(g), K(4), K(n), K(1), K(n), K(2)])], {})
                if g in want:
                    want[g]["commands"] = [(n, 1), (n, 2)]
            r = w.spawn(node, "handleMessage", m, K(0))
            w.run()
            x = w.result(r)
            res.append("not handled" if x[0] == "result" and (a.startswith(("info", "list")) or g in want) and not w.true(x[1]) else x[0] if x[0] != "exception" else x[1])
        got = {}
        d = w.get(cc, "groupings")
        for k in ip.iter_elems(d)[0]:
            g = ip.call(ip.getattr(d, "get"), [k], {})
            cm = w.get(g, "commands")
            got[w.canon(k)] = (w.canon(w.get(g, "profile")), w.canon(w.get(g, "name")), [tuple(w.canon(y) for y in ip.iter_elems(x)[0]) for x in ip.iter_elems(cm)[0]])
        full = {g: (w.canon(BV([(v["profile"], i) for i in range(16)])), v["name"] or "", v["commands"] or []) for g, v in want.items()}
        return hist, res, done, got, full, asks, exp

    for p in ctx.scen("group reports in every order", run, scfg(max_paths=100000)):
        where = "reports of AssociationGrpInfo"
        if not ctx.require(p.returned, "info", where, "raises %s" % p.exc_name(), p):
            continue
        hist, res, done, got, full, asks, exp = p.value
        name = "[%s]" % ", ".join(hist)
        ctx.require(done and all(x == "result" for x in res), "info", where, "%s: handling ends as %s" % (name, res), p, key="handler")
        ctx.require(got == full, "info", where, "%s leaves %s instead of %s" % (name, got, full), p, key="groups")
        ctx.require(asks == exp, "asked", where, "%s: asks for %s" % (name, asks), p, key="asked")
    ctx.floor("info", 60)


@check("C04")
def c04(ctx):
    """A configuration parameter's value is the one the node last reported for that very parameter."""
    stub(ctx)
    depth = 5 if ctx.tier == "thorough" else 3

    def run(ip):
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, 0, [0x70])
        cc = cls(w, node, 0x70)
        last, hist, bad, stored = {}, [], [], []
        w.call(node, "addListener", w.listener(nodeUpdated=lambda s: stored.append(1)))
        n = 0
        vals = [0, 0xFEDCBA98, 0x7F, 0x7F, 0x80]
        for k in range(depth):
            a = w.choose("report 1", "report 2", "get 1", "get 2", "fresh 1", "set 1", "foreign 1")
            hist.append(a)
            num = int(a[-1])
            logn = len(net.log)
            if a.startswith("report"):
                n += 1
                size = w.choose(1, 2, 4) if k == 0 else (1, 2, 4)[k % 3]
                val = vals[n % len(vals)] % (1 << 8 * size)
                bits = [K(x) for x in val.to_bytes(size, "big")]
                m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [BS([K(0x70), K(6), K(num), K(size)] + bits)], {})
                s = len(stored)
                r = w.spawn(node, "handleMessage", m, K(0))
                w.run()
                x = w.result(r)
                if x[0] != "result" or w.canon(x[1]) is not True and w.canon(x[1]) != 1:
                    bad.append("%s is handled as %s" % (a, x[:2]))
                last[num] = (val, size)
                if len(stored) != s + 1:
                    bad.append("%s stores the node %d times" % (a, len(stored) - s))
            elif a.startswith("set"):
                v = sb("s%d" % k, 16)
                t = w.spawn(cc, "set", K(num), K(2), v)
                w.run()
                b, e = w.attempt(net.cmds[-1], "compose") if net.cmds else (None, "nothing sent")
                want = w.canon(BS([K(0x70), K(4), K(num), K(2), BV([("s%d" % k, 8 + i) for i in range(8)]), BV([("s%d" % k, i) for i in range(8)])]))
                if e or w.canon(b) != want or len(net.log) != logn + 1 or w.result(t)[0] != "result":
                    bad.append("%s sends %s" % (a, e or w.canon(b)))
            else:
                fresh = a.startswith("fresh") or a.startswith("foreign")
                t = w.spawn(cc, "get", K(num), **({"cached": FALSE} if fresh else {}))
                w.run()
                if not fresh and num in last:
                    if len(net.log) != logn:
                        bad.append("%s asks the node although the value is known" % a)
                    want = last[num][0]
                else:
                    ask = net.log[logn:]
                    if [x[2] for x in ask] != ["Configuration.Get"] or field(w, net.cmds[-1], "parameterNumber") != num:
                        bad.append("%s asks %s" % (a, ask))
                    if a.startswith("foreign"):
                        # the node reports another parameter meanwhile
                        n += 1
                        m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [BS([K(0x70), K(6), K(3 - num), K(1), K(n)])], {})
                        w.start(node, "handleMessage", m, K(0))
                        w.run()
                        last[3 - num] = (n, 1)
                        if t.done():
                            bad.append("%s is answered by the report of another parameter" % a)
                    n += 1
                    m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [BS([K(0x70), K(6), K(num), K(1), K(n)])], {})
                    w.start(node, "handleMessage", m, K(0))
                    w.run()
                    last[num] = (n, 1)
                    want = last[num][0]
                x = w.result(t)
                if x[0] != "result" or w.canon(x[1]) != want:
                    bad.append("%s returns %s" % (a, w.canon(x[1]) if x[0] == "result" else x[:2]))
        got = {}
        d = w.get(cc, "parameters")
        for k in ip.iter_elems(d)[0]:
            g = ip.call(ip.getattr(d, "get"), [k], {})
            got[w.canon(k)] = (w.canon(w.get(g, "value")), w.canon(w.get(g, "size")))
        return hist, bad, got, last

    def one(ip):
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, 0, [0x70])
        cc = cls(w, node, 0x70)
        size = w.choose(1, 2, 4)
        bits = [BV([("v", 8 * i + j) for j in range(8)]) for i in reversed(range(size))]
        m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [BS([K(0x70), K(6), K(200), K(size)] + bits)], {})
        w.start(node, "handleMessage", m, K(0))
        w.run()
        t = w.spawn(cc, "get", K(200))
        w.run()
        x = w.result(t)
        return size, w.canon(x[1]) if x[0] == "result" else x[:2], w.canon(BV([("v", i) for i in range(8 * size)]))

    for p in ctx.scen("one configuration report", one, scfg()):
        if ctx.require(p.returned, "parameter", "configuration parameters", "raises %s" % p.exc_name(), p):
            ctx.require(p.value[1] == p.value[2], "parameter", "configuration parameters", "a reported value of %d bytes is known as %s" % p.value[:2], p, key="value")

    for p in ctx.scen("configuration reports and requests", run, scfg(max_paths=100000)):
        where = "configuration parameters"
        if not ctx.require(p.returned, "parameter", where, "raises %s" % p.exc_name(), p):
            continue
        hist, bad, got, last = p.value
        ctx.require(not bad, "parameter", where, "[%s]: %s" % (", ".join(hist), "; ".join(bad)), p, key="steps")
        ctx.require(got == last, "parameter", where, "[%s] leaves %s instead of %s" % (", ".join(hist), got, last), p, key="known")
    ctx.floor("parameter", 150)


@check("C05")
def c05(ctx):
    """A sensor report reaches the listeners if and only if its type and scale are supported, when that is known."""
    stub(ctx)

    def run(ip):
        w = World(ip)
        net = Net(w)
        node, _ = mknode(w, net, 0, [0x31])
        cc = cls(w, node, 0x31)
        ver = w.choose(1, 4, 5, 11)
        sup = w.choose({}, {1: 1}, {1: 2}, {1: 15}, {5: 1, 1: 4}, {5: 3})
        st = w.choose("plain", "strings")
        f = K if st == "plain" else lambda x: K(str(x))
        state = ip.mkdict([(f(k), f(v)) for k, v in sup.items()])
        w.call(cc, "__setstate__", ip.mkdict([(K("version"), f(ver)), (K("interviewed"), TRUE if st == "plain" else K("true")), (K("supportedTypes"), state)]))
        typ, scale = w.choose(1, 5, 3), w.choose(0, 1, 2, 3)
        heard, cheard = [], []
        w.call(node, "addListener", w.listener(onMessage=lambda s, m: heard.append(1) or NONE))
        takes = w.choose(True, False)
        w.call(cc, "addListener", w.listener(onReport=lambda s, m, fl: cheard.append(1) or (TRUE if takes else NONE)))
        m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [BS([K(0x31), K(5), K(typ), K(1 | scale << 3), sb("x")])], {})
        t = w.spawn(node, "handleMessage", m, K(0))
        w.run()
        r = w.result(t)
        return ver, sup, typ, scale, takes, heard, cheard, r[0] if r[0] != "exception" else r[1], w.canon(r[1]) if r[0] == "result" else None

    for p in ctx.scen("a sensor report", run, scfg(max_paths=100000)):
        where = "reports of SensorMultilevel"
        if not ctx.require(p.returned, "filter", where, "raises %s" % p.exc_name(), p):
            continue
        ver, sup, typ, scale, takes, heard, cheard, st, val = p.value
        name = "type %d scale %d, version %d supporting %s" % (typ, scale, ver, sup)
        ok = ver < 5 or bool(sup.get(typ, 0) & 1 << scale)
        ctx.require(st == "result", "filter", where, "%s ends as %s" % (name, st), p)
        ctx.require(cheard == ([1] if ok else []), "filter", where, "%s: heard %d times by the listener of the class" % (name, len(cheard)), p)
        ctx.require(heard == ([1] if ok and not takes else []), "filter", where, "%s: heard %d times by the listener of the node" % (name, len(heard)), p)
        ctx.require(bool(val) == (takes or not ok), "filter", where, "%s is reported as %s" % (name, val), p)
    ctx.floor("filter", 300)


STATEFUL = {0x86: "Version", 0x5E: "ZwavePlusInfo", 0x72: "ManufacturerSpecific", 0x31: "SensorMultilevel", 0x85: "Association", 0x59: "AssociationGrpInfo", 0x70: "Configuration", 0x25: "UnknownCommandClass"}


def answers(w, node, n, c):
    """The node's answers to everything the library asks."""
    dec = lambda b: w.ip.call(w.ip.getattr(w.ip.lookup("pyzwave.message.Message"), "decode"), [K(bytes(b))], {})  # noqa: E731
    g = lambda f: field(w, c, f)  # noqa: E731
    num = lambda v: v[-1] if isinstance(v, tuple) else v  # noqa: E731
    m = None
    if n == "Version.VersionCommandClassGet":
        m = dec([0x86, 0x14, g("requestedCommandClass"), 5])
    elif n == "Version.VersionGet":
        m = dec([0x86, 0x12, 3, 4, 5, 6, 7])
    elif n == "ZwavePlusInfo.Get":
        m = dec([0x5E, 2, 2, 5, 0, 1, 2, 3, 4])
    elif n == "ManufacturerSpecific.Get":
        m = dec([0x72, 5, 1, 2, 3, 4, 5, 6])
    elif n == "SensorMultilevel.SupportedGetSensor":
        m = dec([0x31, 2, 0x11])
    elif n == "SensorMultilevel.SupportedGetScale":
        m = dec([0x31, 6, num(g("sensorType")), 3])
    elif n == "Association.GroupingsGet":
        m = dec([0x85, 6, 2])
    elif n == "Association.Get":
        m = dec([0x85, 3, g("groupingIdentifier"), 5, 0, 7])
    elif n == "AssociationGrpInfo.GroupInfoGet":
        m = dec([0x59, 4, 2, 1, 0, 0, 1, 0, 0, 0, 2, 0, 0x20, 3, 0, 0, 0])
    elif n == "AssociationGrpInfo.GroupNameGet":
        m = dec([0x59, 2, g("groupingIdentifier"), 2, 0x41, 0x42])
    elif n == "AssociationGrpInfo.GroupCommandListGet":
        m = dec([0x59, 6, g("groupingIdentifier"), 2, 0x20, 1])
    elif n == "Configuration.Get":
        m = dec([0x70, 6, g("parameterNumber"), 1, 9])
    return m


@check("C06")
def c06(ctx):
    """What was stored last is what the command class knows."""
    stub(ctx)
    ids = list(STATEFUL)

    def run(ip):
        w = World(ip)
        i = ids[ip.choose(len(ids), "class")]
        net = Net(w)
        node, _ = mknode(w, net, w.choose(0, 2), [i])
        cc = cls(w, node, i)
        again = w.choose("first", "again")
        if again == "again":
            w.call(cc, "__setstate__", ip.mkdict([(K("version"), K(4)), (K("interviewed"), TRUE)]))
        what = w.choose("interview", "version", "get" if i == 0x70 else "interview")
        bad = w.choose(None, 0, 1, 2, 3)
        how = w.choose("silence", "not sent", "cancel", "error") if bad is not None else None
        count, tasks = [], []
        snaps = [known(w, cc)]

        def reply(n, c):
            count.append(n)
            if bad is not None and len(count) == bad + 1:
                if how == "silence":
                    return True
                if how == "not sent":
                    return False
                if how == "error":
                    return OSError
                return None
            m = answers(w, node, n, c)
            if m is not None:
                w.start(node, "handleMessage", m, K(0))
            return True
        net.reply = reply
        w.call(node, "addListener", w.listener(nodeUpdated=lambda s: snaps.append(known(w, cc))))
        t = w.spawn(cc, {"interview": "interview", "version": "requestVersion", "get": "get"}[what], *([K(3)] if what == "get" else []))
        done = drive(w, t)
        if not done:
            t.cancel()
            w.run()
        if bad is not None and len(count) <= bad:
            raise Infeasible()
        drive(w, t)
        return STATEFUL[i], again, what, bad, how, snaps[-1], known(w, cc), w.result(t)[0], len(snaps) - 1, snaps[0]

    for p in ctx.scen("storing what a command class learns", run, scfg(max_paths=100000)):
        where = "storing"
        if not ctx.require(p.returned, "stored", where, "raises %s" % p.exc_name(), p):
            continue
        name, again, what, bad, how, last, cur, res, n, first = p.value
        where = "storing %s" % name
        desc = "%s (%s)%s" % (what, again, "" if bad is None else ", %s at question %d" % (how, bad + 1))
        ctx.require(last == cur, "stored", where, "%s: stored is %s, known is %s" % (desc, last, cur), p)
        ctx.require(n <= 8, "stored", where, "%s stores the node %d times" % (desc, n), p, key="often")
    ctx.floor("stored", 60)


RAW = {
    0x70: [[0x70, 6, 9, 2, 0x12, 0x34], [0x70, 6, 3, 2, 0x12, 0x34], [0x70, 6, 9, 7, 1, 2, 3, 4, 5, 6, 7]],
    0x31: [[0x31, 5, 1, 0x22, 1, 2], [0x31, 5, 1, 0x29, 1], [0x31, 5, 0x77, 1, 1], [0x31, 5, 1, 0xE0], [0x31, 5, 1, 0x24, 1, 2, 3, 4]],
    0x59: [[0x59, 4, 2, 1, 0, 0, 1, 0, 0, 0, 2, 0, 0x20, 3, 0, 0, 0], [0x59, 4, 1, 3, 0, 0x20, 1, 0, 0, 0], [0x59, 4, 0x81, 9, 0, 0x20, 1, 0, 0, 0], [0x59, 2, 3, 2, 0x41, 0x42], [0x59, 2, 3, 1, 0xFF], [0x59, 6, 3, 4, 0x20, 1, 0x20, 3], [0x59, 6, 3, 3, 0x20, 1, 5],
           [0x59, 2, 9, 0], [0x59, 6, 9, 0]],
}


@check("C07")
def c07(ctx):
    """No report makes its handling fail, and an incomplete one changes nothing else."""
    stub(ctx)

    def run(ip):
        w = World(ip)
        i = w.choose(*RAW)
        net = Net(w)
        node, _ = mknode(w, net, w.choose(0, 2), [i])
        cc = cls(w, node, i)
        sends = w.choose("sent", "not sent")
        net.reply = lambda n, c: sends == "sent"
        ver = w.choose(1, 5)
        types = [(K("supportedTypes"), ip.mkdict([(K(1), K(15))]))] if i == 0x31 and ver == 5 and w.choose(False, True) else []
        w.call(cc, "__setstate__", ip.mkdict([(K("version"), K(ver)), (K("interviewed"), TRUE)] + types))
        for b in ([0x70, 6, 3, 1, 7], [0x59, 4, 1, 3, 0, 0, 1, 0, 0, 0]):
            if b[0] == i:
                w.start(node, "handleMessage", ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [K(bytes(b))], {}), K(0))
                w.run()
        raw = RAW[i][ip.choose(len(RAW[i]), "report")]
        n = w.choose(*range(2, len(raw) + 1))
        before = known(w, cc)
        m, e = w.guard(lambda: ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [K(bytes(raw[:n]))], {}))
        if e:
            return raw[:n], "refused", False, before, known(w, cc)
        t = w.spawn(node, "handleMessage", m, K(0))
        drive(w, t)
        r = w.result(t)
        return raw[:n], r[0] if r[0] != "exception" else r[1], n == len(raw), before, known(w, cc)

    for p in ctx.scen("truncated and nonsense reports", run, scfg(max_paths=100000)):
        where = "reports of a node"
        if not ctx.require(p.returned, "handled", where, "raises %s" % p.exc_name(), p):
            continue
        raw, st, full, before, after = p.value
        name = " ".join("%02X" % x for x in raw)
        ctx.require(st in ("result", "refused"), "handled", where, "handling %s ends as %s" % (name, st), p, key=name[:5])
        if not full:
            ctx.require(before == after, "kept", where, "the incomplete %s (%s) leaves %s instead of %s" % (name, st, after, before), p, key=name[:5])
        else:
            for a in before:
                if isinstance(before[a], dict):
                    gone = {k: v for k, v in before[a].items() if k not in (raw[2], raw[3]) and after[a].get(k) != v}
                    ctx.require(not gone, "kept", where, "%s changes %s to %s" % (name, gone, after[a]), p)
                else:
                    ctx.require(before[a] == after[a], "kept", where, "%s changes %s" % (name, a), p)
    ctx.floor("handled", 80)


@check("C08")
def c08(ctx):
    """A handler handles the messages it is registered for, in its own class and the classes derived from it, and in no other."""
    stub(ctx)
    kinds = {"configuration": CC + "Configuration.Configuration", "special": "vstubs.SpecialConfiguration", "other": "vstubs.OtherConfiguration", "plain": "vstubs.PlainSpecial", "switch": "vstubs.Switch",
             "basic": CC + "Basic.Basic", "sensor": CC + "SensorMultilevel.SensorMultilevel"}
    msgs = {"Configuration.Report": dict(parameterNumber=K(3), size=K(1), value=K(7)), "Configuration.BulkReport": dict(), "Configuration.Set": dict(parameterNumber=K(3), default=FALSE, size=K(1), value=K(7)),
            "SwitchBinary.Set": dict(value=K(1)), "Basic.Set": dict(value=K(1)), "Configuration.Get": dict(parameterNumber=K(3))}
    want = {("configuration", "Configuration.Report"): (1, ()), ("special", "Configuration.Report"): (1, ()), ("plain", "Configuration.Report"): (1, ()), ("other", "Configuration.Report"): (0, ("report",)),
            ("special", "Configuration.BulkReport"): (0, ("bulk",)), ("plain", "Configuration.BulkReport"): (0, ("bulk",)), ("special", "Configuration.Set"): (0, ("set",)), ("plain", "Configuration.Set"): (0, ("set",)),
            ("switch", "SwitchBinary.Set"): (0, ("switch",))}

    def run(ip):
        w = World(ip)
        kind, mn = w.choose(*kinds), w.choose(*msgs)
        net = Net(w)
        node, _ = mknode(w, net, 0, [])
        cc = w.new(kinds[kind], FALSE, node)
        heard = []
        w.call(cc, "addListener", w.listener(**{n: (lambda s, m, fl, n=n: heard.append(n) or NONE) for n in ("onReport", "onSet", "onGet", "onBulkReport")}))
        t = w.spawn(cc, "handleMessage", w.msg(mn, **msgs[mn]), K(0))
        r = w.result(t)
        seen = ()
        if kinds[kind].startswith("vstubs"):
            seen = tuple(w.canon(x) for x in ip.iter_elems(w.get(cc, "seen"))[0])
        par = 0
        if kind in ("configuration", "special", "other", "plain"):
            par = w.canon(w.call(w.get(cc, "parameters"), "__len__"))
        return kind, mn, r[0] if r[0] != "exception" else r[1], w.canon(r[1]) if r[0] == "result" else None, seen, par, heard

    for p in ctx.scen("handlers of derived command classes", run, scfg()):
        where = "message handlers of command classes"
        if not ctx.require(p.returned, "handler", where, "raises %s" % p.exc_name(), p):
            continue
        kind, mn, st, val, seen, par, heard = p.value
        name = "%s given to the class %s" % (mn, kind)
        wp, ws = want.get((kind, mn), (0, ()))
        ctx.require(st == "result", "handler", where, "%s ends as %s" % (name, st), p)
        ctx.require(seen == ws and par == wp, "handler", where, "%s is handled by %s%s" % (name, list(seen), " and stored" if par else ""), p)
        taken = bool(wp or ws) and ws != ("set",)
        ctx.require(bool(val) == taken, "handler", where, "%s is reported as %s" % (name, val), p)
        ctx.require(heard == ([] if taken else ["on" + mn.split(".")[1]]), "handler", where, "%s is heard as %s" % (name, heard), p)
    ctx.floor("handler", 100)
