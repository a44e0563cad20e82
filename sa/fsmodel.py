"""Abstract file system and YAML documents: what is stored where, after every single step of the program."""
import posixpath

from .values import *  # noqa
from .absint import ClassV, AnalysisError  # noqa
from . import aio


class FS:
    """files: path -> list of parts, a part being ("text", str) or ("doc", tree); dirs: existing directories."""

    def __init__(self, ip, dirs=("/", "/data"), fail=None):
        self.ip = ip
        self.files = {}
        self.dirs = set(dirs)
        self.docs = {}
        self.odd = []  # values no plain YAML document can hold
        self.states = []  # files after every step: what a crash would leave behind
        self.ops = []
        self.fail = fail  # fail(op) -> True: that step raises OSError
        self.temp = 0

    def step(self, op):
        self.ops.append(op)
        if self.fail is not None and self.fail(op):
            self.ip.throw(OSError, op)

    def mark(self):
        self.states.append({p: list(c) for p, c in self.files.items()})

    # -- primitives
    def norm(self, p):
        return posixpath.normpath(p)

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs

    def mkdir(self, p, parents=False, exist_ok=False):
        p = self.norm(p)
        self.step("mkdir")
        if p in self.dirs:
            if not exist_ok:
                self.ip.throw(FileExistsError, p)
            return
        up = posixpath.dirname(p)
        if up not in self.dirs:
            if not parents:
                self.ip.throw(FileNotFoundError, p)
            self.mkdir(up, True, True)
        self.dirs.add(p)

    def open(self, p, mode="r"):
        p = self.norm(p)
        self.step("open")
        if p in self.dirs:
            self.ip.throw(IsADirectoryError, p)
        if "r" in mode and "+" not in mode:
            if p not in self.files:
                self.ip.throw(FileNotFoundError, p)
        else:
            if posixpath.dirname(p) not in self.dirs:
                self.ip.throw(FileNotFoundError, p)
            if "x" in mode and p in self.files:
                self.ip.throw(FileExistsError, p)
            if "a" not in mode and "r" not in mode:
                self.files[p] = []
            self.files.setdefault(p, [])
            self.mark()
        return File(self, p, mode)

    def replace(self, a, b):
        a, b = self.norm(a), self.norm(b)
        self.step("replace")
        if a not in self.files:
            self.ip.throw(FileNotFoundError, a)
        self.files[b] = self.files.pop(a)
        self.mark()

    def unlink(self, p, missing_ok=False):
        p = self.norm(p)
        self.step("unlink")
        if p not in self.files:
            if missing_ok:
                return
            self.ip.throw(FileNotFoundError, p)
        del self.files[p]
        self.mark()

    # -- YAML
    def tree(self, v, top=True):
        ip = self.ip
        if isinstance(v, K):
            if type(v.v) not in (str, int, bool, float, type(None)):
                self.odd.append("a %s" % type(v.v).__name__)
            return ("scalar", v)
        if isinstance(v, (BV, S)):
            return ("scalar", v)
        if isinstance(v, T):
            return ("seq", [self.tree(x) for x in v.items], None)
        if isinstance(v, R):
            o = ip.o(v)
            if isinstance(o.cls, ClassV):
                if any(isinstance(b, E) and b.name.startswith("yaml.YAMLObject") for b in o.cls.mro):
                    tag = ip.getattr(v, "yaml_tag")
                    state = ip.call(ip.getattr(v, "__getstate__"), [], {})
                    t = self.tree(state)
                    if t[0] != "map":
                        self.odd.append("a state that is no mapping")
                        return t
                    return ("map", t[1], tag)
                self.odd.append("an object of %s" % o.cls.name)
                return ("map", [], "python")
            if o.kind == "dict":
                keys = ip.iter_elems(v)[0]
                return ("map", [(self.tree(k), self.tree(ip.call(ip.getattr(v, "get"), [k], {}))) for k in keys], None)
            if o.kind == "list":
                return ("seq", [self.tree(x) for x in ip.iter_elems(v)[0]], None)
            if o.kind in ("set", "tuple"):
                return ("seq", [self.tree(x) for x in ip.iter_elems(v)[0]], "python")
        self.odd.append("a %s" % type(v).__name__)
        return ("scalar", K("?"))

    def scalar(self, v, base):
        if not base:
            return v
        if isinstance(v, K):
            if v.v is None:
                return K("null")
            if isinstance(v.v, bool):
                return K("true" if v.v else "false")
            return K(str(v.v))
        return S(("str", v), "str")

    def build(self, t, base):
        ip = self.ip
        if t[0] == "scalar":
            return self.scalar(t[1], base)
        if not base and t[2] is not None:
            ip.throw(ValueError, "could not determine a constructor for the tag")
        if t[0] == "seq":
            return ip.mklist([self.build(x, base) for x in t[1]])
        return ip.mkdict([(self.build(k, base), self.build(x, base)) for k, x in t[1]])

    def dump(self, data, stream, kw):
        t = self.tree(data)
        self.step("dump")
        s = S(("yamltext", len(self.docs)), "str")
        self.docs[s] = t
        if stream is None or isinstance(stream, K):
            return s
        f = aio.get(self.ip, stream)
        f.write(s)
        return NONE

    def load(self, src, base):
        f = aio.get(self.ip, src)
        if f is not None:
            src = f.m_read()
        if isinstance(src, K) and isinstance(src.v, str):
            if not src.v.strip():
                return NONE
            raise AnalysisError("loading literal YAML text")
        if src in self.docs:
            return self.build(self.docs[src], base)
        self.ip.throw(ValueError, "no YAML document")

    # -- what the program sees
    def hooks(self):
        fs = self

        def path(ip, args, kw):
            return Path(fs, posixpath.join(*[fs.text(a) for a in args]) if args else ".").ref

        def is_base(ip, args, kw):
            l = kw.get("Loader", args[1] if len(args) > 1 else None)
            if not isinstance(l, E):
                raise AnalysisError("unknown YAML loader")
            return l.name.split(".")[-1] in ("BaseLoader", "CBaseLoader")

        ext = {
            "open": lambda ip, a, k: fs.open(fs.text(a[0]), (a[1] if len(a) > 1 else k.get("mode", K("r"))).v).ref,
            "io.open": lambda ip, a, k: fs.open(fs.text(a[0]), (a[1] if len(a) > 1 else k.get("mode", K("r"))).v).ref,
            "pathlib.Path": path, "pathlib.PurePath": path, "pathlib.PosixPath": path,
            "yaml.dump": lambda ip, a, k: fs.dump(a[0], a[1] if len(a) > 1 else k.get("stream"), k),
            "yaml.safe_dump": lambda ip, a, k: fs.dump(a[0], a[1] if len(a) > 1 else k.get("stream"), k),
            "yaml.load": lambda ip, a, k: fs.load(a[0], is_base(ip, a, k)),
            "yaml.safe_load": lambda ip, a, k: fs.load(a[0], False),
            "yaml.full_load": lambda ip, a, k: fs.load(a[0], False),
            "os.path.exists": lambda ip, a, k: K(fs.exists(fs.text(a[0]))),
            "os.path.isfile": lambda ip, a, k: K(fs.norm(fs.text(a[0])) in fs.files),
            "os.path.isdir": lambda ip, a, k: K(fs.norm(fs.text(a[0])) in fs.dirs),
            "os.path.join": lambda ip, a, k: K(posixpath.join(*[fs.text(x) for x in a])),
            "os.path.dirname": lambda ip, a, k: K(posixpath.dirname(fs.text(a[0]))),
            "os.path.basename": lambda ip, a, k: K(posixpath.basename(fs.text(a[0]))),
            "os.makedirs": lambda ip, a, k: fs.mkdir(fs.text(a[0]), True, bool(k.get("exist_ok", FALSE).v)) or NONE,
            "os.mkdir": lambda ip, a, k: fs.mkdir(fs.text(a[0])) or NONE,
            "os.replace": lambda ip, a, k: fs.replace(fs.text(a[0]), fs.text(a[1])) or NONE,
            "os.rename": lambda ip, a, k: fs.replace(fs.text(a[0]), fs.text(a[1])) or NONE,
            "os.remove": lambda ip, a, k: fs.unlink(fs.text(a[0])) or NONE,
            "os.unlink": lambda ip, a, k: fs.unlink(fs.text(a[0])) or NONE,
            "os.fsync": lambda ip, a, k: NONE, "os.fspath": lambda ip, a, k: K(fs.text(a[0])), "os.getpid": lambda ip, a, k: K(77),
            "shutil.move": lambda ip, a, k: fs.replace(fs.text(a[0]), fs.text(a[1])) or NONE,
            "tempfile.NamedTemporaryFile": self.tempfile,
        }
        return ext

    def tempfile(self, ip, a, k):
        self.temp += 1
        d = k.get("dir")
        return self.open(posixpath.join(self.text(d) if d is not None and d != NONE else "/", "tmp%d" % self.temp), "w").ref

    def text(self, v):
        x = aio.get(self.ip, v)
        if x is not None and hasattr(x, "text"):
            return x.text()
        if isinstance(v, K) and isinstance(v.v, str):
            return v.v
        raise AnalysisError("unknown path %r" % (v,))


class Path(aio.Aio):
    def __init__(self, fs, p):
        super().__init__(fs.ip)
        self.fs, self.p = fs, p
        aio.obj(fs.ip, self)

    def text(self):
        return self.p

    def sub(self, p):
        return Path(self.fs, p).ref

    def binop(self, op, other):
        if op == "/":
            return self.sub(posixpath.join(self.p, self.fs.text(other)))
        if op == "r/":
            return self.sub(posixpath.join(self.fs.text(other), self.p))
        self.ip.throw(TypeError, "path operand")

    def attr(self, name):
        b = posixpath.basename(self.p)
        stem, dot, suf = b.rpartition(".")
        if name == "parent":
            return self.sub(posixpath.dirname(self.p) or ".")
        if name == "name":
            return K(b)
        if name == "suffix":
            return K(dot + suf if stem else "")
        if name == "stem":
            return K(stem or b)
        return super().attr(name)

    def m_exists(self):
        return K(self.fs.exists(self.p))

    def m_is_file(self):
        return K(self.fs.norm(self.p) in self.fs.files)

    def m_is_dir(self):
        return K(self.fs.norm(self.p) in self.fs.dirs)

    def m_mkdir(self, mode=None, parents=FALSE, exist_ok=FALSE):
        self.fs.mkdir(self.p, bool(parents.v), bool(exist_ok.v))
        return NONE

    def m_open(self, mode=K("r"), *a, **k):
        return self.fs.open(self.p, mode.v).ref

    def m_joinpath(self, *a):
        return self.sub(posixpath.join(self.p, *[self.fs.text(x) for x in a]))

    def m_with_suffix(self, s):
        b = posixpath.basename(self.p)
        stem = b.rpartition(".")[0] or b
        return self.sub(posixpath.join(posixpath.dirname(self.p), stem + s.v))

    def m_with_name(self, s):
        return self.sub(posixpath.join(posixpath.dirname(self.p), s.v))

    def m_write_text(self, data, *a, **k):
        f = self.fs.open(self.p, "w")
        f.write(data)
        f.m_close()
        return NONE

    def m_read_text(self, *a, **k):
        return self.fs.open(self.p, "r").m_read()

    def m_replace(self, other):
        self.fs.replace(self.p, self.fs.text(other))
        return other

    m_rename = m_replace

    def m_unlink(self, missing_ok=FALSE):
        self.fs.unlink(self.p, bool(missing_ok.v))
        return NONE

    def m_resolve(self, *a, **k):
        return self.ref

    m_absolute = m_expanduser = m_resolve

    def m___fspath__(self):
        return K(self.p)

    m_as_posix = m___str__ = m___fspath__


class File(aio.Aio):
    def __init__(self, fs, p, mode):
        super().__init__(fs.ip)
        self.fs, self.p, self.mode, self.closed = fs, p, mode, False
        aio.obj(fs.ip, self)

    def attr(self, name):
        if name == "name":
            return K(self.p)
        return super().attr(name)

    def write(self, s):
        self.fs.step("write")
        if self.closed or "r" in self.mode and "+" not in self.mode:
            self.ip.throw(ValueError, "not writable")
        if self.p not in self.fs.files:
            self.fs.files[self.p] = []
        # a part of the text may have reached the disk when a crash comes
        self.fs.files[self.p].append(("partial",))
        self.fs.mark()
        self.fs.files[self.p][-1] = s
        self.fs.mark()

    def m_write(self, s):
        self.write(s)
        return K(1)

    def m_read(self, *a):
        c = self.fs.files.get(self.p, [])
        if not c:
            return K("")
        if len(c) == 1:
            return c[0]
        return S(("several",) + tuple(c), "str")

    def m_flush(self):
        return NONE

    def m_fileno(self):
        return K(3)

    def m_close(self):
        self.closed = True
        return NONE

    def m___enter__(self):
        return self.ref

    def m___exit__(self, *a):
        self.closed = True
        return FALSE
