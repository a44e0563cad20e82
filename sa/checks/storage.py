"""Stored settings: round trip through the file system and YAML, interrupted writes."""
from . import check
from ..scenario import *  # noqa
from ..fsmodel import FS
from .waiters import stub
from .node import Net, mknode
from .commands import STATEFUL, answers, cls, drive, known

EXT = {n: (lambda ip, a, k, n=n: ip.world.fs.hooks()[n](ip, a, k)) for n in FS(None).hooks()}
IDS = list(STATEFUL)
# what an installation may contain besides what the answers of the interview say
REPORTS = {
    0x70: [[0x70, 6, 9, 4, 0xFE, 0, 0, 1], [0x70, 6, 200, 1, 0x80]],
    0x31: [],
    0x59: [[0x59, 4, 1, 3, 0, 0, 1, 0, 0, 0], [0x59, 2, 3, 0], [0x59, 6, 3, 0]],
}


def learn(w, net, node, cc, i, what):
    """Let the command class learn something through the network."""
    ip = w.ip
    count = []

    def reply(n, c):
        count.append(n)
        if what == "half" and len(count) > 1:
            return True
        m = answers(w, node, n, c)
        if m is not None:
            w.start(node, "handleMessage", m, K(0))
        return True
    net.reply = reply
    if what != "unasked":
        t = w.spawn(cc, "requestVersion" if what == "version" else "interview")
        drive(w, t)
    if what in ("reports", "unasked"):
        for b in REPORTS.get(i, ()):
            m = ip.call(ip.getattr(ip.lookup("pyzwave.message.Message"), "decode"), [K(bytes(b))], {})
            w.start(node, "handleMessage", m, K(0))
            w.run()


def store(w, path="/data"):
    return w.new("pyzwave.persistantstorage.YamlStorage", K(path))


def state_keys(w, cc):
    v = w.call(cc, "__getstate__")
    return sorted(w.canon(k) for k in w.ip.iter_elems(v)[0])


@check("P01")
def p01(ctx):
    """What is stored for a node is what the same node knows after it was loaded again."""
    stub(ctx)

    def run(ip):
        w = World(ip)
        w.fs = FS(ip)
        i = w.choose(*IDS)
        what = w.choose("interview", "version", "half", *(("reports", "unasked") if i in REPORTS else ()))
        ep = w.choose(0, 2)
        dirs = w.choose("fresh", "existing", "deep")
        base = "/data"
        if dirs == "existing":
            w.fs.dirs.add("/data/nodes")
        elif dirs == "deep":
            base = "/data/home/settings"
        st = store(w, base)
        net = Net(w)
        node, root = mknode(w, net, ep, [i, 0x25])
        other, _ = mknode(w, net, 0, [i, 0x25], nid=5)
        errs = []

        def saver(n):
            def f(s, *a):
                _, e = w.attempt(st, "nodeUpdated", n)
                if e:
                    errs.append(e)
            return f
        for n in (node, other):
            _, e = w.attempt(st, "nodeAdded", NONE, n)
            if e:
                errs.append("load of nothing: " + e)
        made = sorted(w.fs.files)
        w.call(node, "addListener", w.listener(nodeUpdated=saver(node)))
        cc = cls(w, node, i)
        learn(w, net, node, cc, i, what)
        if w.choose(False, True):
            # reading an attribute never set gives it its (empty) default
            known(w, cc)
            what += ", everything read"
        saver(node)(None)
        keys = state_keys(w, cc)
        first = known(w, cc)
        # the same network after a restart
        net2 = Net(w)
        node2, _ = mknode(w, net2, ep, [0x72, i, 0x25] if i != 0x72 else [i, 0x25])
        other2, _ = mknode(w, net2, 0, [i, 0x25], nid=5)
        sib, _ = mknode(w, net2, 7 if ep else 1, [i, 0x25])
        st2 = store(w, base)
        for n in (node2, other2, sib):
            _, e = w.attempt(st2, "nodeAdded", NONE, n)
            if e:
                errs.append("load: " + e)
        cc2 = cls(w, node2, i)
        keys2 = state_keys(w, cc2)
        again = known(w, cc2)
        clean = [known(w, cls(w, n, i)) for n in (other, other2, sib)]
        kn25 = known(w, cls(w, node2, 0x25)) == known(w, cls(w, node, 0x25))
        files = {p: c for p, c in w.fs.files.items()}
        _, e = w.attempt(st2, "nodeUpdated", node2)
        if e:
            errs.append("store again: " + e)
        node3, _ = mknode(w, net2, ep, [i, 0x25])
        w.attempt(store(w, base), "nodeAdded", NONE, node3)
        third = known(w, cls(w, node3, i))
        return STATEFUL[i], what, ep, dirs, errs, w.fs.odd, made, first, again, third, clean, kn25, len(files), keys, keys2

    for p in ctx.scen("stored settings", run, scfg(ext=EXT, max_paths=100000)):
        where = "stored settings"
        if not ctx.require(p.returned, "roundtrip", where, "raises %s" % p.exc_name(), p):
            continue
        name, what, ep, dirs, errs, odd, made, first, again, third, clean, kn25, n, keys, keys2 = p.value
        where = "stored settings of %s" % name
        desc = "after %s (end point %d, %s directory)" % (what, ep, dirs)
        ctx.require(not errs, "stored", where, "%s: %s" % (desc, ", ".join(sorted(set(errs)))), p, key="error")
        ctx.require(not odd, "plain", where, "%s: stores %s" % (desc, ", ".join(sorted(set(odd)))), p, key="odd")
        ctx.require(not made, "stored", where, "loading creates %s" % made, p, key="made")
        for a in first:
            ctx.require(again.get(a) == first[a], "roundtrip", where, "%s: %s is %r, loaded again it is %r" % (desc, a, first[a], again.get(a)), p, key=a)
        ctx.require(keys == keys2, "roundtrip", where, "%s: the state consists of %s, loaded again of %s" % (desc, keys, keys2), p, key="keys")
        ctx.require(third == again, "roundtrip", where, "%s: loaded and stored twice it is %r instead of %r" % (desc, third, again), p, key="twice")
        empty = {k: v for k, v in clean[0].items()}
        ctx.require(all(c == empty for c in clean) and not any(empty[k] for k in ("version", "interviewed")), "own", where, "%s: other nodes know %r" % (desc, clean), p, key="others")
        ctx.require(kn25 and n == 1, "own", where, "%s: %d files, other classes changed" % (desc, n), p, key="files")
    def same(ip):
        """One storage in use for long, and one that was moved."""
        w = World(ip)
        w.fs = FS(ip)
        st = store(w)
        net = Net(w)
        ep = w.choose(0, 2)
        out, files = [], []
        move = w.choose(False, True)
        for v in (1, 2, 4):
            node, _ = mknode(w, net, ep, [0x86, 0x25])
            w.attempt(st, "nodeAdded", NONE, node)
            out.append(w.canon(w.get(cls(w, node, 0x86), "version")))
            w.call(cls(w, node, 0x86), "__setstate__", ip.mkdict([(K("version"), K(v)), (K("interviewed"), FALSE)]))
            if move and v == 2:
                ip.setattr(st, "path", K("/data/other"))
            w.attempt(st, "nodeUpdated", node)
            files.append(sorted(w.fs.files))
        return ep, move, out, files, w.canon(w.get(st, "path"))

    for p in ctx.scen("a storage in use", same, scfg(ext=EXT)):
        where = "a storage in use"
        if not ctx.require(p.returned, "roundtrip", where, "raises %s" % p.exc_name(), p):
            continue
        ep, move, out, files, path = p.value
        ctx.require(out == [0, 1, 2], "roundtrip", where, "end point %d%s: the version stored as 1 and 2 is loaded as %s" % (ep, ", moved" if move else "", out[1:]), p, key="stale")
        ok = len(files[0]) == 1 and files[1][:1] == files[0][:1] and len(files[1]) == 1 + move and files[2] == files[1] and (not move or files[1][1].startswith("/data/other/"))
        ctx.require(ok and path == ("/data/other" if move else "/data"), "own", where, "end point %d%s: the files are %s" % (ep, ", moved to /data/other" if move else "", files), p, key="moved")

    def places(ip):
        """No two nodes or end points share a file, and a node keeps its own."""
        w = World(ip)
        w.fs = FS(ip)
        st = store(w)
        out = []
        net = Net(w)
        for n in (1, 2, 10, 11, 12, 20, 21, 23, 111, 112, 120, 200, 201, 210, 211, 232):
            root, _ = mknode(w, net, 0, [0x25], nid=n)
            for e in (0, 1, 2, 3, 10, 11, 12, 20, 21, 111, 120, 127):
                node = w.new("pyzwave.node.NodeEndPoint", root, K(e), net.ref, ip.mklist([K(0x25)])) if e else root
                was = {p: list(c) for p, c in w.fs.files.items()}
                _, err = w.attempt(st, "nodeUpdated", node)
                new = sorted(set(w.fs.files) - set(was))
                lost = sorted(p for p, c in was.items() if w.fs.files.get(p) != c)
                w.attempt(st, "nodeUpdated", node)
                more = sorted(set(w.fs.files) - set(was) - set(new))
                del w.fs.states[:]
                if err or len(new) != 1 or lost or more:
                    out.append("%d:%d is stored in %s%s%s%s" % (n, e, new, err and " (%s)" % err or "", lost and ", which changes %s" % lost or "", more and " and then in %s" % more or ""))
        return out

    for p in ctx.scen("the files of the nodes", places, scfg(ext=EXT)):
        where = "files of the settings"
        if not ctx.require(p.returned, "own", where, "raises %s" % p.exc_name(), p):
            continue
        ctx.require(not p.value, "own", where, "; ".join(p.value[:3]), p, key="shared")
    ctx.floor("roundtrip", 150)
    ctx.floor("own", 60)


@check("P02")
def p02(ctx):
    """Whenever the program ends while it stores settings, the settings found later are the old or the new ones."""
    stub(ctx)

    def settings(w, files, docs, i, ep):
        fs = w.fs
        old = fs.files, fs.fail
        fs.files, fs.fail = {p: list(c) for p, c in files.items()}, None
        node, _ = mknode(w, Net(w), ep, [i])
        _, e = w.attempt(store(w), "nodeAdded", NONE, node)
        fs.files, fs.fail = old
        return ("error", e) if e else known(w, cls(w, node, i))

    def run(ip):
        w = World(ip)
        w.fs = FS(ip)
        i = w.choose(0x86, 0x70)
        ep = w.choose(0, 2)
        first = w.choose(False, True)
        if w.choose(False, True):
            w.fs.dirs.add("/data/nodes")
        elif not first:
            raise Infeasible()
        st = store(w)
        net = Net(w)
        node, _ = mknode(w, net, ep, [i])
        cc = cls(w, node, i)
        if not first:
            w.call(cc, "__setstate__", ip.mkdict([(K("version"), K(1)), (K("interviewed"), FALSE)]))
            w.attempt(st, "nodeUpdated", node)
        before = settings(w, w.fs.files, w.fs.docs, i, ep)
        w.call(cc, "__setstate__", ip.mkdict([(K("version"), K(3)), (K("interviewed"), TRUE)]))
        del w.fs.states[:]
        del w.fs.ops[:]
        bad = ip.choose(8, "step that fails")
        w.fs.fail = (lambda op: len(w.fs.ops) == bad) if bad else None
        _, e = w.attempt(st, "nodeUpdated", node)
        nops = len(w.fs.ops)
        if bad and not e:
            raise Infeasible()
        w.fs.fail = None
        final = settings(w, w.fs.files, w.fs.docs, i, ep)
        mid = [settings(w, s, w.fs.docs, i, ep) for s in w.fs.states]
        ops = list(w.fs.ops)
        _, e2 = w.attempt(st, "nodeUpdated", node)
        repaired = settings(w, w.fs.files, w.fs.docs, i, ep)
        return STATEFUL[i], ep, first, bad, ops[bad - 1] if bad and len(ops) >= bad else None, e, before, final, mid, known(w, cc), e2, repaired

    for p in ctx.scen("interrupted writes", run, scfg(ext=EXT, max_paths=100000)):
        where = "storing settings"
        if not ctx.require(p.returned, "crash", where, "raises %s" % p.exc_name(), p):
            continue
        name, ep, first, bad, op, e, before, final, mid, cur, e2, repaired = p.value
        desc = "%s%s" % (name, ", first time" if first else "")
        for k, s in enumerate(mid):
            ctx.require(s in (before, cur), "crash", where, "%s: interrupted after step %d the settings are %r instead of %r or %r" % (desc, k + 1, s, before, cur), p, key="interrupted")
        if bad:
            ctx.require(final in (before, cur), "failed", where, "%s: when %s fails the settings are %r instead of %r" % (desc, op, final, before), p, key="fails")
        else:
            ctx.require(e is None and final == cur, "failed", where, "%s: storing ends as %s with the settings %r" % (desc, e, final), p, key="stored")
        ctx.require(e2 is None and repaired == cur, "failed", where, "%s: the next storing ends as %s with the settings %r" % (desc, e2, repaired), p, key="next")
    ctx.floor("crash", 10)
    ctx.floor("failed", 10)
