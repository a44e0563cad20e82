"""Standard-library helpers as source of the analysed language.

Refactored code may use any of these instead of a loop of its own; they are interpreted like the code
of the program, so nothing about them has to be modelled.  `SRC` defines them as <module>__<name>.
"""

SRC = '''
import asyncio

def itertools__count(start=0, step=1):
    while True:
        yield start
        start = start + step

def itertools__islice(it, *a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0] or 0, a[1]
        step = 1 if len(a) < 3 or a[2] is None else a[2]
    i = 0
    nxt = start
    if stop is not None and nxt >= stop:
        return
    for x in it:
        if i == nxt:
            yield x
            nxt += step
        i += 1
        if stop is not None and (i >= stop or nxt >= stop):
            return

def itertools__takewhile(p, it):
    for x in it:
        if not p(x):
            break
        yield x

def itertools__dropwhile(p, it):
    skip = True
    for x in it:
        if skip and p(x):
            continue
        skip = False
        yield x

def itertools__filterfalse(p, it):
    for x in it:
        if not (p(x) if p is not None else x):
            yield x

def itertools__compress(data, sel):
    for x, s in zip(data, sel):
        if s:
            yield x

def itertools__starmap(f, it):
    for a in it:
        yield f(*a)

def itertools__repeat(x, n=None):
    if n is None:
        while True:
            yield x
    for _ in range(n):
        yield x

def itertools__cycle(it):
    kept = []
    for x in it:
        kept.append(x)
        yield x
    while kept:
        for x in kept:
            yield x

def itertools__pairwise(it):
    first = True
    prev = None
    for x in it:
        if not first:
            yield (prev, x)
        first = False
        prev = x

def itertools__batched(it, n):
    part = []
    for x in it:
        part.append(x)
        if len(part) == n:
            yield tuple(part)
            part = []
    if part:
        yield tuple(part)

def itertools__tee(it, n=2):
    kept = list(it)
    return tuple([iter(kept) for _ in range(n)])

class itertools__chain:
    def __init__(self, *its):
        self._it = itertools__chain._all(its)

    @staticmethod
    def _all(its):
        for it in its:
            for x in it:
                yield x

    @classmethod
    def from_iterable(cls, its):
        return cls._all(its)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

def itertools__product(*its, repeat=1):
    pools = [list(x) for x in its] * repeat
    res = [()]
    for pool in pools:
        res = [x + (y,) for x in res for y in pool]
    return iter(res)

def itertools__combinations(it, r):
    pool = list(it)

    def pick(start, n):
        if n == 0:
            return [()]
        return [(pool[i],) + rest for i in range(start, len(pool)) for rest in pick(i + 1, n - 1)]

    return iter(pick(0, r))

def itertools__permutations(it, r=None):
    pool = list(it)
    r = len(pool) if r is None else r

    def pick(used, n):
        if n == 0:
            return [()]
        return [(pool[i],) + rest for i in range(len(pool)) if i not in used for rest in pick(used + [i], n - 1)]

    return iter(pick([], r))

def itertools__accumulate(it, func=None, *, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in it:
        if first:
            total = x
            first = False
        else:
            total = total + x if func is None else func(total, x)
        yield total

def itertools__zip_longest(*its, fillvalue=None):
    pools = [list(x) for x in its]
    for i in range(max([len(p) for p in pools], default=0)):
        yield tuple([p[i] if i < len(p) else fillvalue for p in pools])

def itertools__groupby(it, key=None):
    group = None
    last = None
    for x in it:
        k = x if key is None else key(x)
        if group is not None and k == last:
            group.append(x)
            continue
        if group is not None:
            yield (last, iter(group))
        group = [x]
        last = k
    if group is not None:
        yield (last, iter(group))

def functools__reduce(f, it, *start):
    it = iter(it)
    if start:
        cur = start[0]
    else:
        try:
            cur = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    for x in it:
        cur = f(cur, x)
    return cur

def functools__total_ordering(cls):
    if hasattr(cls, "__lt__"):
        cls.__le__ = lambda a, b: a < b or a == b
        cls.__gt__ = lambda a, b: not (a < b or a == b)
        cls.__ge__ = lambda a, b: not a < b
    else:
        cls.__lt__ = lambda a, b: not (a > b or a == b)
        cls.__le__ = lambda a, b: not a > b
        cls.__ge__ = lambda a, b: a > b or a == b
    return cls

class functools__cmp_key:
    def __init__(self, f, x):
        self.f = f
        self.x = x

    def __lt__(self, o):
        return self.f(self.x, o.x) < 0

    def __eq__(self, o):
        return self.f(self.x, o.x) == 0

def functools__cmp_to_key(f):
    return lambda x: functools__cmp_key(f, x)

class functools__singledispatch:
    def __init__(self, f):
        self.default = f
        self.registry = []

    def register(self, cls, f=None):
        if f is not None:
            self.registry.append((cls, f))
            return f
        if isinstance(cls, type):
            return lambda g: self.register(cls, g)
        return self.register(list(cls.__annotations__.values())[0], cls)

    def dispatch(self, x):
        found = None
        for cls, f in self.registry:
            if isinstance(x, cls) and (found is None or issubclass(cls, found[0])):
                found = (cls, f)
        return self.default if found is None else found[1]

    def __call__(self, *a, **k):
        return self.dispatch(a[0])(*a, **k)

class functools__singledispatchmethod:
    def __init__(self, f):
        self.d = functools__singledispatch(f)

    def register(self, cls, f=None):
        return self.d.register(cls, f)

    def __get__(self, obj, owner=None):
        return lambda *a, **k: self.d.dispatch(a[0]).__get__(obj, owner)(*a, **k)

def operator__itemgetter(*keys):
    if len(keys) == 1:
        return lambda x: x[keys[0]]
    return lambda x: tuple([x[k] for k in keys])

def operator__attrgetter(*names):
    def one(x, name):
        for part in name.split("."):
            x = getattr(x, part)
        return x

    if len(names) == 1:
        return lambda x: one(x, names[0])
    return lambda x: tuple([one(x, n) for n in names])

def operator__methodcaller(name, *a, **k):
    return lambda x: getattr(x, name)(*a, **k)

def operator__add(a, b): return a + b
def operator__sub(a, b): return a - b
def operator__mul(a, b): return a * b
def operator__truediv(a, b): return a / b
def operator__floordiv(a, b): return a // b
def operator__mod(a, b): return a % b
def operator__pow(a, b): return a ** b
def operator__and_(a, b): return a & b
def operator__or_(a, b): return a | b
def operator__xor(a, b): return a ^ b
def operator__lshift(a, b): return a << b
def operator__rshift(a, b): return a >> b
def operator__neg(a): return -a
def operator__pos(a): return a
def operator__invert(a): return ~a
def operator__inv(a): return ~a
def operator__abs(a): return abs(a)
def operator__index(a): return int(a)
def operator__not_(a): return not a
def operator__truth(a): return bool(a)
def operator__eq(a, b): return a == b
def operator__ne(a, b): return a != b
def operator__lt(a, b): return a < b
def operator__le(a, b): return a <= b
def operator__gt(a, b): return a > b
def operator__ge(a, b): return a >= b
def operator__is_(a, b): return a is b
def operator__is_not(a, b): return a is not b
def operator__contains(a, b): return b in a
def operator__concat(a, b): return a + b
def operator__getitem(a, b): return a[b]
def operator__setitem(a, b, c): a[b] = c
def operator__delitem(a, b): del a[b]
def operator__iadd(a, b):
    a += b
    return a
def operator__ior(a, b):
    a |= b
    return a
def operator__countOf(a, b): return len([x for x in a if x == b])
def operator__length_hint(a, default=0): return len(a)

class collections__deque(list):
    def __init__(self, it=(), maxlen=None):
        super().__init__()
        self.maxlen = maxlen
        self.extend(it)

    def append(self, x):
        super().append(x)
        if self.maxlen is not None and len(self) > self.maxlen:
            del self[0]

    def appendleft(self, x):
        super().insert(0, x)
        if self.maxlen is not None and len(self) > self.maxlen:
            del self[-1]

    def extend(self, it):
        for x in it:
            self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def extendleft(self, it):
        for x in it:
            self.appendleft(x)

    def popleft(self):
        return super().pop(0)

    def pop(self):
        return super().pop()

    def copy(self):
        return collections__deque(self, self.maxlen)

    def rotate(self, n=1):
        for _ in range(n):
            self.appendleft(self.pop())
        for _ in range(-n):
            self.append(self.popleft())

class collections__OrderedDict(dict):
    def move_to_end(self, key, last=True):
        value = self[key]
        if last:
            del self[key]
            self[key] = value
            return
        rest = [(k, v) for k, v in self.items() if k != key]
        self.clear()
        self[key] = value
        for k, v in rest:
            self[k] = v

    def popitem(self, last=True):
        if not self:
            raise KeyError("dictionary is empty")
        keys = list(self)
        key = keys[-1] if last else keys[0]
        return key, self.pop(key)

class collections__Counter(dict):
    def __init__(self, it=(), **kw):
        super().__init__()
        self.update(it, **kw)

    def __missing__(self, key):
        return 0

    def update(self, it=(), **kw):
        if isinstance(it, dict):
            for k, v in it.items():
                self[k] = self[k] + v
        else:
            for x in it:
                self[x] = self[x] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def subtract(self, it=()):
        if isinstance(it, dict):
            for k, v in it.items():
                self[k] = self[k] - v
        else:
            for x in it:
                self[x] = self[x] - 1

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def most_common(self, n=None):
        res = sorted(self.items(), key=lambda kv: -kv[1])
        return res if n is None else res[:n]

class collections__ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __contains__(self, k):
        return any([k in m for m in self.maps])

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __delitem__(self, k):
        del self.maps[0][k]

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))

    def keys(self):
        return list(iter(self))

    def items(self):
        return [(k, self[k]) for k in iter(self)]

    def values(self):
        return [self[k] for k in iter(self)]

class types__SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __eq__(self, o):
        return isinstance(o, types__SimpleNamespace) and vars(self) == vars(o)

def types__MappingProxyType(d):
    return d

def heapq__heappush(h, x):
    h.append(x)
    h.sort()

def heapq__heappop(h):
    h.sort()
    return h.pop(0)

def heapq__heapify(h):
    h.sort()

def heapq__heappushpop(h, x):
    h.append(x)
    h.sort()
    return h.pop(0)

def heapq__heapreplace(h, x):
    h.sort()
    r = h.pop(0)
    h.append(x)
    h.sort()
    return r

def heapq__nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]

def heapq__nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]

def heapq__merge(*its, key=None, reverse=False):
    res = []
    for it in its:
        res.extend(it)
    return iter(sorted(res, key=key, reverse=reverse))

def bisect__bisect_left(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi and (a[lo] if key is None else key(a[lo])) < x:
        lo += 1
    return lo

def bisect__bisect_right(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi and not x < (a[lo] if key is None else key(a[lo])):
        lo += 1
    return lo

bisect__bisect = bisect__bisect_right

def bisect__insort_right(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect__bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)

bisect__insort = bisect__insort_right

def bisect__insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect__bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)

class contextlib__AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return None

class contextlib__AbstractAsyncContextManager:
    async def __aenter__(self):
        return self

    async def __aexit__(self, t, v, tb):
        return None

class contextlib__ContextDecorator:
    def __call__(self, f):
        def inner(*a, **k):
            with self:
                return f(*a, **k)

        return inner

class contextlib__closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, t, v, tb):
        self.thing.close()

class contextlib__aclosing:
    def __init__(self, thing):
        self.thing = thing

    async def __aenter__(self):
        return self.thing

    async def __aexit__(self, t, v, tb):
        await self.thing.aclose()

class contextlib__ExitStack:
    def __init__(self):
        self._exits = []

    def callback(self, f, *a, **k):
        self._exits.append(("call", lambda: f(*a, **k)))
        return f

    def push(self, e):
        if hasattr(e, "__exit__"):
            self._exits.append(("exit", e.__exit__))
        else:
            self._exits.append(("exit", e))
        return e

    def enter_context(self, cm):
        def hold():
            with cm as value:
                yield value

        g = hold()
        value = next(g)
        self._exits.append(("gen", g))
        return value

    def pop_all(self):
        new = type(self)()
        new._exits = self._exits
        self._exits = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        exc = v
        while self._exits:
            kind, e = self._exits.pop()
            try:
                if kind == "call":
                    e()
                elif kind == "exit":
                    if e(None if exc is None else type(exc), exc, None):
                        exc = None
                elif exc is None:
                    next(e, None)
                else:
                    try:
                        e.throw(exc)
                    except StopIteration:
                        exc = None
            except BaseException as error:
                exc = error
        if exc is None:
            return True
        if exc is v:
            return False
        raise exc

class contextlib__AsyncExitStack:
    def __init__(self):
        self._exits = []

    def callback(self, f, *a, **k):
        self._exits.append((False, lambda t, v, tb: f(*a, **k) and False))
        return f

    def push_async_callback(self, f, *a, **k):
        async def run(t, v, tb):
            await f(*a, **k)

        self._exits.append((True, run))
        return f

    def push(self, e):
        self._exits.append((False, e.__exit__ if hasattr(e, "__exit__") else e))
        return e

    def push_async_exit(self, e):
        self._exits.append((True, e.__aexit__ if hasattr(e, "__aexit__") else e))
        return e

    def enter_context(self, cm):
        value = cm.__enter__()
        self._exits.append((False, cm.__exit__))
        return value

    async def enter_async_context(self, cm):
        value = await cm.__aenter__()
        self._exits.append((True, cm.__aexit__))
        return value

    def pop_all(self):
        new = type(self)()
        new._exits = self._exits
        self._exits = []
        return new

    async def aclose(self):
        await self.__aexit__(None, None, None)

    async def __aenter__(self):
        return self

    async def __aexit__(self, t, v, tb):
        exc = v
        while self._exits:
            is_async, e = self._exits.pop()
            try:
                r = e(None if exc is None else type(exc), exc, None)
                if is_async:
                    r = await r
                if r and exc is not None:
                    exc = None
            except BaseException as error:
                exc = error
        if exc is None:
            return True
        if exc is v:
            return False
        raise exc

class struct__error(Exception):
    pass

def struct___parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    big = True
    if fmt and fmt[0] in "<>!=@":
        big = fmt[0] in ">!"
        fmt = fmt[1:]
    else:
        big = False
    res = []
    n = ""
    for c in fmt:
        if c in "0123456789":
            n += c
            continue
        if c == " ":
            continue
        k = int(n) if n else 1
        n = ""
        if c == "s":
            res.append(("s", k, False))
        elif c == "x":
            res.append(("x", k, False))
        else:
            size = {"b": 1, "B": 1, "?": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}[c]
            for _ in range(k):
                res.append((c, size, c in "bhilq"))
    return big, res

def struct__calcsize(fmt):
    return sum([size for _, size, _s in struct___parse(fmt)[1]])

def struct__pack(fmt, *args):
    big, parts = struct___parse(fmt)
    args = list(args)
    if len(args) != len([p for p in parts if p[0] != "x"]):
        raise struct__error("pack expected another number of items")
    res = b""
    for c, size, signed in parts:
        if c == "x":
            res = res + bytes(size)
            continue
        v = args.pop(0)
        if c == "s":
            res = res + v[:size].ljust(size, b"\\0")
        elif c == "c":
            res = res + v
        elif c == "?":
            res = res + (b"\\1" if v else b"\\0")
        else:
            try:
                res = res + int(v).to_bytes(size, "big" if big else "little", signed=signed)
            except OverflowError:
                raise struct__error("argument out of range") from None
    return res

def struct__unpack(fmt, data):
    big, parts = struct___parse(fmt)
    if len(data) != sum([size for _, size, _s in parts]):
        raise struct__error("unpack requires a buffer of another size")
    res = []
    i = 0
    for c, size, signed in parts:
        piece = data[i:i + size]
        i += size
        if c == "x":
            continue
        if c in "sc":
            res.append(bytes(piece))
        elif c == "?":
            res.append(piece[0] != 0)
        else:
            res.append(int.from_bytes(piece, "big" if big else "little", signed=signed))
    return tuple(res)

def struct__unpack_from(fmt, data, offset=0):
    size = struct__calcsize(fmt)
    if len(data) - offset < size:
        raise struct__error("unpack_from requires a larger buffer")
    return struct__unpack(fmt, data[offset:offset + size])

def struct__iter_unpack(fmt, data):
    size = struct__calcsize(fmt)
    if len(data) % size:
        raise struct__error("iterative unpacking requires a multiple of the size")
    for i in range(0, len(data), size):
        yield struct__unpack(fmt, data[i:i + size])

class struct__Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct__calcsize(fmt)

    def pack(self, *a):
        return struct__pack(self.format, *a)

    def unpack(self, data):
        return struct__unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return struct__unpack_from(self.format, data, offset)

    def iter_unpack(self, data):
        return struct__iter_unpack(self.format, data)

class io__BytesIO:
    def __init__(self, data=b""):
        self._data = bytes(data)
        self._pos = 0

    def read(self, n=-1):
        end = len(self._data) if n is None or n < 0 else self._pos + n
        res = self._data[self._pos:end]
        self._pos += len(res)
        return res

    def write(self, data):
        self._data = self._data[:self._pos] + bytes(data) + self._data[self._pos + len(data):]
        self._pos += len(data)
        return len(data)

    def getvalue(self):
        return self._data

    def getbuffer(self):
        return self._data

    def tell(self):
        return self._pos

    def seek(self, pos, whence=0):
        self._pos = pos if whence == 0 else self._pos + pos if whence == 1 else len(self._data) + pos
        return self._pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return None

class io__StringIO:
    def __init__(self, data=""):
        self._data = data

    def write(self, data):
        self._data = self._data + data
        return len(data)

    def getvalue(self):
        return self._data

    def read(self):
        res = self._data
        self._data = ""
        return res

class dataclasses__FrozenInstanceError(AttributeError):
    pass

class dataclasses___Field:
    def __init__(self, name, kw):
        self.name = name
        self.kw = kw

def dataclasses__field(**kw):
    return dataclasses___Field(None, kw)

dataclasses__MISSING = object()

def dataclasses__fields(x):
    return tuple(x.__dataclass_fields__.values())

def dataclasses__is_dataclass(x):
    return hasattr(x, "__dataclass_fields__")

def dataclasses___plain(x):
    if hasattr(x, "__dataclass_fields__"):
        return dataclasses__asdict(x)
    if isinstance(x, (list, tuple)):
        return type(x)([dataclasses___plain(y) for y in x])
    if isinstance(x, dict):
        return {k: dataclasses___plain(v) for k, v in x.items()}
    return x

def dataclasses__asdict(x):
    return {n: dataclasses___plain(getattr(x, n)) for n in x.__dataclass_fields__}

def dataclasses__astuple(x):
    return tuple([dataclasses___plain(getattr(x, n)) for n in x.__dataclass_fields__])

def dataclasses__replace(x, **kw):
    args = {n: getattr(x, n) for n, f in x.__dataclass_fields__.items() if f.kw.get("init", True)}
    args.update(kw)
    return type(x)(**args)

class asyncio__Condition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else asyncio.Lock()
        self._waiters = []
        self.locked = self._lock.locked
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, et, e, tb):
        self.release()

    async def wait(self):
        self.release()
        fut = asyncio.get_event_loop().create_future()
        self._waiters.append(fut)
        try:
            await fut
            return True
        finally:
            if fut in self._waiters:
                self._waiters.remove(fut)
            await self.acquire()

    async def wait_for(self, predicate):
        while not predicate():
            await self.wait()
        return predicate()

    def notify(self, n=1):
        for fut in list(self._waiters):
            if n <= 0:
                break
            if not fut.done():
                n -= 1
                fut.set_result(False)

    def notify_all(self):
        self.notify(len(self._waiters))

class asyncio__TaskGroup:
    def __init__(self):
        self._tasks = []

    async def __aenter__(self):
        return self

    def create_task(self, coro, *, name=None, context=None):
        task = asyncio.create_task(coro)
        self._tasks.append(task)
        return task

    async def __aexit__(self, et, e, tb):
        if e is not None:
            for task in self._tasks:
                task.cancel()
        try:
            while [t for t in self._tasks if not t.done()]:
                await asyncio.wait(list(self._tasks), return_when=asyncio.FIRST_EXCEPTION)
                if [t for t in self._tasks if t.done() and not t.cancelled() and t.exception() is not None]:
                    for task in self._tasks:
                        task.cancel()
        except asyncio.CancelledError:
            for task in self._tasks:
                task.cancel()
            raise
        errors = [t.exception() for t in self._tasks if not t.cancelled() and t.exception() is not None]
        if e is not None and not isinstance(e, asyncio.CancelledError):
            errors.append(e)
        if errors:
            raise ExceptionGroup("unhandled errors in a TaskGroup", errors)

def asyncio__as_completed(fs, *, timeout=None):
    todo = [asyncio.ensure_future(f) for f in fs]
    async def one():
        while not [t for t in todo if t.done()]:
            await asyncio.wait(list(todo), return_when=asyncio.FIRST_COMPLETED)
        t = [t for t in todo if t.done()][0]
        todo.remove(t)
        return t.result()
    return iter([one() for _ in list(todo)])
'''
