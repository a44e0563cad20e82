"""Shared machinery of the checks: obligations, violations, evidence, entry construction."""
import json
import os
import pickle
import time
import traceback

from .values import *  # noqa
from .absint import AbsRaise, AnalysisError, AnalysisLimit, Cfg, Infeasible, Interp, CONTAINER  # noqa
from . import models  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "pyzwave"


class Brief:
    """What a scenario's check needs of one abstract path."""

    def __init__(self, p):
        self.returned = p.returned
        self.value = p.value if p.returned else None
        self._exc = p.exc_name()
        self.loc = p.outcome[2] if p.outcome[0] == "exc" else None
        self._d = p.describe()

    def exc_name(self):
        return "%s at %s" % (self._exc, self.loc) if self._exc else None

    def describe(self, n=12):
        return self._d


class Ctx:
    """One run of one check."""

    def __init__(self, prop, root, tier="quick", ip=None):
        self.prop = prop
        self.root = root
        self.tier = tier
        self.ip = ip or Interp(root).load_all()
        self.violations = []
        self.obligations = {}
        self.paths = 0
        self.branches = 0
        self.entries = []
        self.funcs = set()
        self.notes = []
        self.samples = {}
        self.floors = {}
        self.errors = []

    # ---- obligations
    def ok(self, rule, n=1):
        self.obligations[rule] = self.obligations.get(rule, 0) + n

    def fail(self, rule, where, msg, path=None, key=None):
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        k = (rule, key or where)
        for v in self.violations:
            if v["k"] == k:
                v["count"] += 1
                return
        det = None
        if path is not None:
            det = path.describe()
        self.violations.append({"k": k, "rule": rule, "construct": key or where, "where": where, "message": msg, "path": det, "count": 1})

    def require(self, cond, rule, where, msg, path=None, key=None):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, where, msg, path, key)
        return bool(cond)

    def floor(self, rule, n):
        """At least n obligations of this rule must have been generated (guards against vacuous passes)."""
        self.floors[rule] = n

    # ---- exploring
    def explore(self, name, fn, cfg=None, minpaths=1):
        ip = self.ip
        ip.funcs_seen = set()
        b0 = ip.branches_seen
        cfg = cfg or Cfg()
        if self.tier == "thorough":
            cfg.max_steps *= 4
            cfg.max_paths *= 4
        try:
            ps = ip.explore(fn, cfg)
        except Infeasible:
            ps = []
        except (AnalysisError, AnalysisLimit, RecursionError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
            self.errors.append("%s: %s: %s" % (name, type(e).__name__, e))
            if os.environ.get("SA_DEBUG"):
                raise
            return []
        self.paths += len(ps)
        self.branches += ip.branches_seen - b0
        self.funcs |= ip.funcs_seen
        self.entries.append({"entry": name, "paths": len(ps), "functions": len(ip.funcs_seen)})
        if len(ps) < minpaths:
            self.errors.append("%s: only %d feasible abstract paths" % (name, len(ps)))
        return ps

    def scen(self, name, fn, cfg=None, minpaths=1):
        """As explore, for closed scenarios: the abstract paths are divided over worker processes.
        fn must return plain data."""
        ip = self.ip
        cfg = cfg or Cfg()
        if self.tier == "thorough":
            cfg.max_steps *= 4
            cfg.max_paths *= 4
        ip.funcs_seen = set()
        b0 = ip.branches_seen
        n = int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 1)
        stack = [[]]
        try:
            out = ip.explore(fn, cfg, stack, until=4 * n if n > 1 else None, make=Brief)
            if stack:
                out += self.fork(fn, cfg, stack, n)
        except (AnalysisError, AnalysisLimit, RecursionError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError, OSError) as e:
            self.errors.append("%s: %s: %s" % (name, type(e).__name__, e))
            if os.environ.get("SA_DEBUG"):
                raise
            return []
        self.paths += len(out)
        self.branches += ip.branches_seen - b0
        self.funcs |= ip.funcs_seen
        self.entries.append({"entry": name, "paths": len(out), "functions": len(ip.funcs_seen)})
        if len(out) < minpaths:
            self.errors.append("%s: only %d feasible abstract paths" % (name, len(out)))
        return out

    def fork(self, fn, cfg, stack, n):
        ip = self.ip
        kids = []
        for w in range(n):
            mine = stack[w::n]
            if not mine:
                continue
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    b0 = ip.branches_seen
                    try:
                        res = ("ok", ip.explore(fn, cfg, mine, make=Brief), ip.branches_seen - b0, ip.funcs_seen)
                        data = pickle.dumps(res)
                    except BaseException as e:  # noqa: B902
                        data = pickle.dumps(("err", type(e).__name__, str(e), traceback.format_exc()))
                    with os.fdopen(wr, "wb") as fd:
                        fd.write(data)
                except BaseException:  # noqa: B902
                    code = 1
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        out, errs = [], []
        for pid, r in kids:
            with os.fdopen(r, "rb") as fd:
                data = fd.read()
            os.waitpid(pid, 0)
            res = pickle.loads(data) if data else ("err", "AnalysisError", "worker died", "")
            if res[0] == "ok":
                out += res[1]
                ip.branches_seen += res[2]
                ip.funcs_seen |= res[3]
            else:
                errs.append("%s: %s" % (res[1], res[2]))
                if os.environ.get("SA_DEBUG"):
                    print(res[3])
        if errs:
            raise AnalysisError("; ".join(errs[:3]))
        return out

    # ---- result
    def evidence(self, wall):
        known, new = self.split_known()
        return {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Path-sensitive abstract interpretation / dataflow over the parsed sources; every abstract path of every "
                "listed entry was enumerated and each rule's obligation was decided on it. Nothing is executed or solved for.",
                "entries": len(self.entries),
                "abstract_paths": self.paths,
                "branch_decisions": self.branches,
                "functions_analysed": len(self.funcs),
                "functions": sorted(self.funcs)[:200],
                "obligations": dict(sorted(self.obligations.items())),
                "obligations_total": sum(self.obligations.values()),
                "entry_detail": self.entries[:400],
                "notes": self.notes,
                "known_findings": [v["construct"] for v in known],
            },
            "wall_s": round(wall, 3),
            "violations": len(new),
        }

    def split_known(self):
        kf = load_known()
        known, new = [], []
        for v in self.violations:
            if (self.prop, v["rule"], v["construct"]) in kf:
                known.append(v)
            else:
                new.append(v)
        return known, new


def load_known():
    """known-findings.txt: lines 'known: property=<id> rule=<rule> construct=<construct> :: text' and 'fixed: ...'."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    with open(p, encoding="utf-8") as fd:
        for line in fd:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, text = line[len("known:"):].partition("::")
            d = {}
            for tok in head.strip().split(" ", 2):
                a, _, b = tok.partition("=")
                d[a] = b.strip()
            out[(d["property"], d["rule"], d["construct"])] = text.strip()
    return out


# ---------------------------------------------------------------- building abstract objects
def sym(name, ty=None):
    return S(("in", name), ty)


def symobj(ip, cls, name, **attrs):
    """A lazily arbitrary instance of cls."""
    if isinstance(cls, str):
        cls = ip.lookup(cls)
    r = ip.alloc("inst", cls, ("in", name))
    o = ip.w(r)
    o.lazy = True
    o.shared = True
    if ip.is_mixin(cls):
        o.fields = {}
        for k, v in attrs.items():
            o.fields[k] = v
    else:
        o.attrs.update(attrs)
    return R(r.oid, name)


def msg(ip, cls, name="msg", **fields):
    """A message object whose listed fields are given and whose other fields are arbitrary."""
    if isinstance(cls, str):
        cls = ip.lookup(cls)
    r = ip.alloc("inst", cls, ("in", name))
    o = ip.w(r)
    o.lazy = True
    o.fields = dict(fields)
    o.attrs["_attributes"] = K("<attributes>")
    return R(r.oid, name)


def construct(ip, cls, args=(), kw=None, prov=None):
    """Run the class's constructor abstractly; the object is then entered in an arbitrary reachable state."""
    if isinstance(cls, str):
        cls = ip.lookup(cls)
    r = ip.construct(cls, list(args), dict(kw or {}))
    if prov is not None:
        ip.w(r).prov = prov
        o = ip.o(r)
        for n, v in list(o.attrs.items()):
            if isinstance(v, R) and ip.o(v).kind in CONTAINER:
                ip.w(v).prov = ("attrobj", prov, n)
                ip.w(v).volatile = True
    return r


def attr(ip, r, name):
    return ip.getattr(r, name)


def mangled(ip, cls, name):
    return "_%s%s" % (cls.name.lstrip("_"), name)


def call(ip, r, name, *args, **kw):
    return ip.call(ip.getattr(r, name), list(args), kw)


def acall(ip, r, name, *args, **kw):
    return ip.await_value(call(ip, r, name, *args, **kw))


def const(v):
    if isinstance(v, K):
        return v.v
    if isinstance(v, EN):
        return v.val
    return None


def payload(p, v):
    """Number/string inside a scalar-subclass instance (p: Path or Interp)."""
    while isinstance(v, R):
        o = p.o(v)
        if o.payload is None:
            return v
        v = o.payload
    if isinstance(v, EN) and v.intlike:
        return K(v.val)
    return v


def is_none(p, v):
    return isinstance(v, K) and v.v is None or isinstance(v, S) and p.facts.get(("none", v)) is True


def clsname(p, v):
    if isinstance(v, R):
        c = p.o(v).cls
        return getattr(c, "name", None) or (c.t.__name__ if isinstance(c, BC) else p.o(v).kind)
    return type(v).__name__


def clsqual(p, v):
    if isinstance(v, R):
        c = p.o(v).cls
        return getattr(c, "qualname", None)
    return None


def spec(name):
    with open(os.path.join(VERIF, "spec", name), encoding="utf-8") as fd:
        return json.load(fd)
