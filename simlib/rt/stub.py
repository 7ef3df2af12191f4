"""The oracle's side of generated sources: plain Python objects with the documented meaning, no compiler involved.

A generated engine source is executed twice: compiled by the real library, and here by CPython itself against these
classes.  Everything a callback does to the world goes through `W`, the simulated world of the oracle.
"""

from __future__ import annotations

import math
from enum import Enum, IntEnum
from types import SimpleNamespace
from typing import Any


class Terminate(Exception):
    """The callback ends here; `message` is set for the failures a user gives a text for."""

    def __init__(self, kind, message=None):
        super().__init__(kind, message)
        self.kind, self.message = kind, message


class Invalid(Exception):
    """The program does something the contract leaves open: not a case."""


class NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, float)) and not isinstance(x, Enum) or isinstance(x, IntEnum)

    def __pos__(cls):
        return 0


class Num(metaclass=NumMeta):
    __match_args__ = ("real",)

    def __new__(cls, x=0):
        return x


NUMS = (Num, int, float, bool)


def is_num_type(t):
    return t in NUMS or isinstance(t, type) and issubclass(t, (int, float))


def zero(t):
    if is_num_type(t):
        return 0
    return t._zero_()


def clone(v):
    return v._copy_() if hasattr(v, "_copy_") else v


def put(dst, src):
    dst._assign_(src)


def flat(v):
    return v._flat_() if hasattr(v, "_flat_") else [v]


class CompoundMeta(type):
    def __pos__(cls):
        return cls._zero_()


_INPLACE = ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "or", "xor", "and")


class RecordMeta(CompoundMeta):
    def __new__(mcs, name, bases, ns, **kw):
        cls = super().__new__(mcs, name, bases, ns, **kw)
        for op in _INPLACE:
            d, i = f"__{op}__", f"__i{op}__"
            if d in ns and not any(i in b.__dict__ for b in cls.__mro__):
                setattr(cls, i, (lambda d: lambda self, o: (self._assign_(getattr(self, d)(o)), self)[1])(d))
        own = {k: v for k, v in ns.get("__annotations__", {}).items()}
        fields = dict(getattr(cls, "_f_", {}))
        fields.update(own)
        cls._f_ = fields
        if own:
            cls.__match_args__ = tuple(fields)
        return cls

    def __getitem__(cls, args):
        args = args if isinstance(args, tuple) else (args,)
        cache = cls.__dict__.get("_cache_")
        if cache is None:
            cache = {}
            type.__setattr__(cls, "_cache_", cache)
        if args not in cache:
            params = cls.__type_params__
            sub = type(cls)(cls.__name__, (cls,), {"_targs_": dict(zip((p.__name__ for p in params), args)), "__module__": cls.__module__})
            cache[args] = sub
        return cache[args]


def resolve(t, cls):
    """Field annotation -> type, with the type arguments of `cls` put in."""
    if isinstance(t, str):
        t = eval(t, __import__("sys").modules[cls.__module__].__dict__, {k: v for k, v in getattr(cls, "_targs_", {}).items()})  # noqa: S307
    name = getattr(t, "__name__", None)
    if type(t).__name__ == "TypeVar":
        return cls._targs_[name]
    return t


class Record(metaclass=RecordMeta):
    _f_ = {}

    def __init__(self, *args, **kwargs):
        names = list(self._f_)
        vals = dict(zip(names, args))
        vals.update(kwargs)
        if len(args) > len(names) or set(vals) != set(names):
            raise TypeError("record fields")
        for n in names:
            v = vals[n]
            object.__setattr__(self, n, cast(v, resolve(type(self)._f_[n], type(self))) if isinstance(v, EntityRef) else clone(v))

    @classmethod
    def _zero_(cls):
        return cls(**{n: zero(resolve(t, cls)) for n, t in cls._f_.items()})

    def _copy_(self):
        r = object.__new__(type(self))
        for n in self._f_:
            object.__setattr__(r, n, clone(getattr(self, n)))
        return r

    def _assign_(self, o):
        # as if the right side had been read completely first
        o = o._copy_()
        for n in self._f_:
            setattr(self, n, getattr(o, n))

    def __setattr__(self, n, v):
        if n in self._f_:
            cur = getattr(self, n)
            if hasattr(cur, "_assign_"):
                if cur is not v:
                    cur._assign_(v)
                return
            object.__setattr__(self, n, v)
            return
        p = getattr(type(self), n, None)
        if isinstance(p, property):
            p.__set__(self, v)
            return
        raise AttributeError(n)

    def _flat_(self):
        return [x for n in self._f_ for x in flat(getattr(self, n))]

    def __pos__(self):
        return self._copy_()

    def __imatmul__(self, o):
        self._assign_(o)
        return self

    def __eq__(self, o):
        if type(self)._base_() is not type(o)._base_() if isinstance(o, Record) else True:
            return False
        return all(getattr(self, n) == getattr(o, n) for n in self._f_)

    @classmethod
    def _base_(cls):
        return cls.__mro__[1] if "_targs_" in cls.__dict__ else cls

    def __ne__(self, o):
        if type(self)._base_() is not type(o)._base_() if isinstance(o, Record) else True:
            return True
        return any(getattr(self, n) != getattr(o, n) for n in self._f_)

    __hash__ = None


def fail(kind, message=None):
    raise Terminate(kind, message)


def pos(i, n, end=False):
    if not (-n <= i <= n if end else -n <= i < n) or i != int(i):
        if not CHECKS[0]:
            raise Invalid("unchecked index")
        fail("index")
    return int(i + n if i < 0 else i)


def ppos(i, n, end=False):
    if not (0 <= i <= n if end else 0 <= i < n) or i != int(i):
        if not CHECKS[0]:
            raise Invalid("unchecked index")
        fail("index")
    return int(i)


def get_positive_index(i, n, *, include_end=False, check=True):
    if check:
        return pos(i, n, include_end)
    return i + (n if i < 0 else 0)


def check_positive_index(i, n, include_end=False):
    return ppos(i, n, include_end)


CHECKS = [True]
LOOPS = [0]


def loop():
    LOOPS[0] += 1
    if LOOPS[0] > 20_000:
        raise Invalid("endless loop")


def check(c, kind):
    if not c:
        if not CHECKS[0]:
            raise Invalid(kind)
        fail(kind)


class Seq:
    """List behaviour shared by the array-like types; `_n`, `_get`, `_set` are given."""

    def __len__(self):
        return self._n()

    def __getitem__(self, i):
        return self._get(pos(i, self._n()))

    def __setitem__(self, i, v):
        self._set(pos(i, self._n()), v)

    def __iter__(self):
        i = 0
        while i < self._n():
            yield self._get(i)
            i += 1

    def __reversed__(self):
        return Rev(self)

    def __contains__(self, v):
        return any(self._get(i) == v for i in range(self._n()))

    def index(self, v, start=0, stop=None):
        n = self._n()
        if stop is None:
            stop = n
        elif stop < 0:
            stop += n
        if start < 0:
            start += n
        for i in range(max(start, 0), min(stop, n)):
            if self._get(i) == v:
                return i
        return -1

    def last_index(self, v):
        for i in range(self._n() - 1, -1, -1):
            if self._get(i) == v:
                return i
        return -1

    def count(self, v):
        return sum(1 for i in range(self._n()) if self._get(i) == v)

    def index_of_max(self, *, key=None):
        if not self._n():
            return -1
        ks = [key(self._get(i)) if key else self._get(i) for i in range(self._n())]
        return ks.index(max(ks))

    def index_of_min(self, *, key=None):
        if not self._n():
            return -1
        ks = [key(self._get(i)) if key else self._get(i) for i in range(self._n())]
        return ks.index(min(ks))

    def swap(self, i, j):
        i, j = ppos(i, self._n()), ppos(j, self._n())
        a, b = clone(self._get(i)), clone(self._get(j))
        self._set(i, b)
        self._set(j, a)

    def _in(self, i):
        if not 0 <= i < self._n() or i != int(i):
            raise Invalid("unchecked index")
        return int(i)

    def get_unchecked(self, i):
        return self._get(self._in(i))

    def set_unchecked(self, i, v):
        self._set(self._in(i), v)

    def swap_unchecked(self, i, j):
        self.swap(self._in(i), self._in(j))

    def unchecked(self):
        return Loose(self)

    def sort(self, *, key=None, reverse=False):
        vs = [clone(self._get(i)) for i in range(self._n())]
        vs.sort(key=key, reverse=bool(reverse))
        for i, v in enumerate(vs):
            self._set(i, v)

    def reverse(self):
        vs = [clone(self._get(i)) for i in range(self._n())]
        for i, v in enumerate(reversed(vs)):
            self._set(i, v)

    def shuffle(self):
        random.shuffle(self)

    def __eq__(self, o):
        if not isinstance(o, Seq):
            return False
        return self._n() == o._n() and all(self._get(i) == o._get(i) for i in range(self._n()))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Rev(Seq):
    def __init__(self, a):
        self.a = a

    def _n(self):
        return self.a._n()

    def _get(self, i):
        return self.a._get(self._n() - 1 - i)

    def _set(self, i, v):
        self.a._set(self._n() - 1 - i, v)


class Loose(Seq):
    """What unchecked() returns."""

    def __init__(self, a):
        self.a = a

    def _n(self):
        return self.a._n()

    def _get(self, i):
        return self.a._get(i)

    def _set(self, i, v):
        self.a._set(i, v)

    def __getitem__(self, i):
        return self._get(self._in(i))

    def __setitem__(self, i, v):
        self._set(self._in(i), v)


class ArrayMeta(CompoundMeta):
    def __getitem__(cls, args):
        t, n = args
        n = getattr(n, "__args__", (n,))[0]
        key = (t if not is_num_type(t) else Num, n)
        if key not in _ARRAYS:
            _ARRAYS[key] = ArrayMeta("Array", (Array,), {"_t_": t, "_s_": n})
        return _ARRAYS[key]


_ARRAYS = {}


class Array(Seq, metaclass=ArrayMeta):
    _t_ = None

    def __init__(self, *vs):
        if self._t_ is not None and len(vs) != self._s_:
            raise ValueError("array size")
        self._v = [clone(v) if self._t_ is None else cast(v, self._t_) for v in vs]

    @classmethod
    def _zero_(cls):
        return cls(*[zero(cls._t_) for _ in range(cls._s_)])

    def _copy_(self):
        r = object.__new__(type(self))
        r._v = [clone(v) for v in self._v]
        return r

    def _assign_(self, o):
        if len(o._v) != len(self._v):
            raise TypeError("array size")
        for i, v in enumerate([clone(v) for v in o._v]):
            self._set(i, v)

    def _flat_(self):
        return [x for v in self._v for x in flat(v)]

    @classmethod
    def size(cls):
        return cls._s_

    def _n(self):
        return len(self._v)

    def _get(self, i):
        return self._v[i]

    def _set(self, i, v):
        cur = self._v[i]
        if hasattr(cur, "_assign_"):
            if cur is not v:
                cur._assign_(v)
        else:
            self._v[i] = v

    def __pos__(self):
        return self._copy_()

    def __imatmul__(self, o):
        self._assign_(o)
        return self

    def __bool__(self):
        return len(self) > 0


class Dim:
    def __class_getitem__(cls, n):
        return n


class VarArrayMeta(CompoundMeta):
    def __getitem__(cls, args):
        key = (cls, args)
        if key not in _ARRAYS:
            _ARRAYS[key] = type(cls)(cls.__name__, (cls,), {"_a_": args})
        return _ARRAYS[key]


class VarArray(Seq, metaclass=VarArrayMeta):
    """A list with a capacity; elements keep their identity per slot, as references into the array do."""

    def __init__(self):
        t, n = self._a_
        self._t, self._cap = t, getattr(n, "__args__", (n,))[0]
        self._slots = [zero(t) for _ in range(self._cap)]
        self._len = 0

    @classmethod
    def new(cls):
        return cls()

    _zero_ = new

    def _copy_(self):
        r = type(self)()
        r._assign_(self)
        return r

    def _assign_(self, o):
        for i in range(self._cap):
            self._slots[i] = clone(o._slots[i])
        self._len = o._len

    def _flat_(self):
        return [self._len] + [x for v in self._slots for x in flat(v)]

    def __pos__(self):
        return self._copy_()

    def __imatmul__(self, o):
        self._assign_(o)
        return self

    @classmethod
    def capacity(cls):
        return cls._a_[1]

    def is_full(self):
        return self._len == self._cap

    def _n(self):
        return self._len

    def _get(self, i):
        return self._slots[i]

    def _set(self, i, v):
        cur = self._slots[i]
        if hasattr(cur, "_assign_"):
            if cur is not v:
                cur._assign_(v)
        else:
            self._slots[i] = v

    def _load(self, vs):
        for i, v in enumerate(vs):
            self._set(i, v)
        self._len = len(vs)

    def _list(self):
        return [clone(self._slots[i]) for i in range(self._len)]

    def append(self, v):
        check(self._len < self._cap, "full")
        self._set(self._len, v)
        self._len += 1

    def append_unchecked(self, v):
        self.append(v)

    def extend(self, vs):
        check(self._len + len(vs) <= self._cap, "full")
        for v in [clone(x) for x in vs]:
            self._set(self._len, v)
            self._len += 1

    def __iadd__(self, o):
        self.extend(o)
        return self

    def pop(self, i=None):
        i = pos(self._len - 1 if i is None else i, self._len)
        vs = self._list()
        r = vs.pop(i)
        self._load(vs)
        return r

    def __delitem__(self, i):
        self.pop(i)

    def insert(self, i, v):
        i = pos(i, self._len, end=True)
        check(self._len < self._cap, "full")
        vs = self._list()
        vs.insert(i, clone(v))
        self._load(vs)

    def remove(self, v):
        i = self.index(v)
        if i < 0:
            return False
        self.pop(i)
        return True

    def clear(self):
        self._len = 0

    def set_add(self, v):
        if self._len >= self._cap or v in self:
            return False
        self.append(v)
        return True

    def set_remove(self, v):
        i = self.index(v)
        if i < 0:
            return False
        vs = self._list()
        last = vs.pop()
        if i < len(vs):
            vs[i] = last
        self._load(vs)
        return True

    def __bool__(self):
        return len(self) > 0


class ArraySet(metaclass=VarArrayMeta):
    def __init__(self):
        self._v = VarArray[self._a_]()

    @classmethod
    def new(cls):
        return cls()

    _zero_ = new

    def _copy_(self):
        r = type(self)()
        r._v._assign_(self._v)
        return r

    def _assign_(self, o):
        self._v._assign_(o._v)

    def _flat_(self):
        return self._v._flat_()

    def __imatmul__(self, o):
        self._assign_(o)
        return self

    def __pos__(self):
        return self._copy_()

    def __len__(self):
        return len(self._v)

    def __contains__(self, v):
        return v in self._v

    def __iter__(self):
        return iter(self._v)

    def add(self, v):
        return self._v.set_add(v)

    def remove(self, v):
        return self._v.set_remove(v)

    def clear(self):
        self._v.clear()


class ArrayMap(metaclass=VarArrayMeta):
    def __init__(self):
        k, v, n = self._a_
        self._k, self._t, self._cap = k, v, getattr(n, "__args__", (n,))[0]
        self._keys = [zero(k) for _ in range(self._cap)]
        self._vals = [zero(v) for _ in range(self._cap)]
        self._len = 0

    @classmethod
    def new(cls):
        return cls()

    _zero_ = new

    def _copy_(self):
        r = type(self)()
        r._assign_(self)
        return r

    def _assign_(self, o):
        self._keys = [clone(k) for k in o._keys]
        self._vals = [clone(k) for k in o._vals]
        self._len = o._len

    def _flat_(self):
        return [self._len] + [x for k, v in zip(self._keys, self._vals) for x in flat(k) + flat(v)]

    def __imatmul__(self, o):
        self._assign_(o)
        return self

    def __pos__(self):
        return self._copy_()

    @classmethod
    def capacity(cls):
        return cls._a_[2]

    def is_full(self):
        return self._len == self._cap

    def __len__(self):
        return self._len

    def _find(self, k):
        for i in range(self._len):
            if self._keys[i] == k:
                return i
        return -1

    def __contains__(self, k):
        return self._find(k) >= 0

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            fail("key")
        return self._vals[i]

    @staticmethod
    def _store(lst, i, v):
        if hasattr(lst[i], "_assign_"):
            if lst[i] is not v:
                lst[i]._assign_(v)
        else:
            lst[i] = v

    def __setitem__(self, k, v):
        i = self._find(k)
        if i < 0:
            check(self._len < self._cap, "full")
            i = self._len
            k, v = clone(k), clone(v)
            self._store(self._keys, i, k)
            self._store(self._vals, i, v)
            self._len += 1
        else:
            self._store(self._vals, i, v)

    def pop(self, k):
        i = self._find(k)
        if i < 0:
            fail("key")
        r = clone(self._vals[i])
        self._len -= 1
        if i < self._len:
            self._store(self._keys, i, self._keys[self._len])
            self._store(self._vals, i, self._vals[self._len])
        return r

    def __delitem__(self, k):
        self.pop(k)

    def clear(self):
        self._len = 0

    def keys(self):
        i = 0
        while i < self._len:
            yield self._keys[i]
            i += 1

    __iter__ = keys

    def values(self):
        i = 0
        while i < self._len:
            yield self._vals[i]
            i += 1

    def items(self):
        i = 0
        while i < self._len:
            yield self._keys[i], self._vals[i]
            i += 1


class FrozenNumSet(metaclass=VarArrayMeta):
    @classmethod
    def of(cls, *vs):
        r = object.__new__(cls)
        r._v = sorted(vs)
        return r

    def __len__(self):
        return len(self._v)

    def __contains__(self, v):
        return v in self._v

    def __iter__(self):
        return iter(self._v)


class Box[T](Record):
    value: T


class Pair[T, U](Record):
    first: T
    second: U

    def __lt__(self, o):
        return self.second < o.second if self.first == o.first else self.first < o.first

    def __le__(self, o):
        return self.second <= o.second if self.first == o.first else self.first <= o.first

    def __gt__(self, o):
        return self.second > o.second if self.first == o.first else self.first > o.first

    def __ge__(self, o):
        return self.second >= o.second if self.first == o.first else self.first >= o.first

    @property
    def tuple(self):
        return self.first, self.second


class Vec2(Record):
    x: float
    y: float

    def __add__(self, o):
        return Vec2(self.x + o.x, self.y + o.y)

    def __sub__(self, o):
        return Vec2(self.x - o.x, self.y - o.y)

    def __mul__(self, o):
        return Vec2(self.x * o.x, self.y * o.y) if isinstance(o, Vec2) else Vec2(self.x * o, self.y * o)

    def __neg__(self):
        return Vec2(-self.x, -self.y)

    def dot(self, o):
        return self.x * o.x + self.y * o.y


class Maybe:
    def __init__(self, present, value):
        self.is_some, self._value = present, value

    @property
    def is_nothing(self):
        return not self.is_some

    def get(self, *, error_message=None):
        if not self.is_some:
            if not CHECKS[0]:
                raise Invalid("empty")
            fail("empty", error_message)
        return self._value

    def get_unsafe(self):
        if not self.is_some:
            raise Invalid("empty")
        return self._value

    def map(self, fn):
        return Maybe(True, fn(self._value)) if self.is_some else Nothing

    def flat_map(self, fn):
        return fn(self._value) if self.is_some else Nothing

    def or_default(self, d):
        return clone(self._value) if self.is_some else clone(d)

    def or_else(self, fn):
        return clone(self._value) if self.is_some else clone(fn())


Nothing = Maybe(False, None)


def Some(v):  # noqa: N802
    return Maybe(True, v)


class SonolusIterator:
    def __iter__(self):
        return self

    def __next__(self):
        r = self.next()
        if r.is_some:
            return r._value
        raise StopIteration


def copy(v):
    return clone(v)


def zeros(t):
    return zero(t)


def swap(a, b):
    t = clone(a)
    a._assign_(b)
    b._assign_(t)


def clamp(x, a, b):
    return max(a, min(b, x))


def lerp(a, b, x):
    return a + (b - a) * x


def unlerp(a, b, x):
    return (x - a) / (b - a)


def remap(a, b, c, d, x):
    return c + (d - c) * (x - a) / (b - a)


# ---- the world ---------------------------------------------------------------------------------------------------


class World:
    """One level in play (or watch...) as the oracle sees it."""

    def __init__(self, mode, draws, streams):
        self.mode, self.draws, self.streams = mode, draws, streams
        self.calls = []
        self.entities = []  # SimpleNamespace(cls, f: {(storage, name): value}, despawn, state)
        self.time = self.delta = 0.0
        self.touches = []
        self.skip = 0
        self.navigation = 0
        self.archetypes = []
        self.memory = {}
        self.cb = None
        self.next_id = 1.0
        self.spawned = []
        self.notify = False
        self.extras = {}  # (entity or archetype, what) -> value

    def call(self, name, *a):
        self.calls.append((name, a))


W: World = None


def set_world(w):
    global W
    W = w


def debug_log(x):
    W.call("DebugLog", float(x))


def debug_pause():
    W.call("DebugPause")


def notify(message):
    if W.notify:
        W.call("Message", message)
        W.call("DebugPause")


def error(message=None):
    fail("error", message or "Error")


def require(c, message=None):
    if not c:
        fail("require", message or "Assertion failed")


def assert_true(c, message=None):
    if not c:
        check(False, "assert") if not CHECKS[0] else fail("assert", message or "Assertion failed")


def terminate():
    fail("terminate")


class _Random:
    @staticmethod
    def _int(a, b):
        u = W.draws.next()
        if a != int(a) or b != int(b) or b <= a:
            raise Invalid("empty random range")
        W.call("RandomInteger", float(a), float(b))
        return min(int(a) + int(u * (b - a)), int(b) - 1)

    @staticmethod
    def _float(a, b):
        u = W.draws.next()
        W.call("Random", float(a), float(b))
        return max(min(a, b), min(max(a, b), a + (b - a) * u))

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = len(range(int(start), int(stop), int(step)))
        return start + step * self._int(0, n)

    def randint(self, a, b):
        return self._int(a, b + 1)

    def random(self):
        return self._float(0.0, 0.99999994)

    def uniform(self, a, b):
        return self._float(a, b)

    def choice(self, s):
        return s[self._int(0, len(s))]

    def shuffle(self, s):
        for i in range(len(s) - 1, 0, -1):
            j = self._int(0, i + 1)
            a, b = clone(s[i]), clone(s[j])
            s[i] = b
            s[j] = a


random = _Random()


def time():
    return W.time


def delta_time():
    return W.delta


def prev_time():
    return W.time - W.delta


def touches():
    return W.touches


def is_skip():
    return W.skip


def navigation_direction():
    return W.navigation


class Level:
    """@level_memory / @level_data: one instance whose attributes are the storage."""

    def __init__(self, cls):
        object.__setattr__(self, "_f_", dict(cls.__annotations__))
        object.__setattr__(self, "_c_", cls)

    def _store(self):
        s = W.memory.get(self._c_)
        if s is None:
            s = W.memory[self._c_] = {n: zero(resolve(t, self._c_)) for n, t in self._f_.items()}
        return s

    def __getattr__(self, n):
        return self._store()[n]

    def __setattr__(self, n, v):
        s = self._store()
        if hasattr(s[n], "_assign_"):
            if s[n] is not v:
                s[n]._assign_(v)
        else:
            s[n] = v


def level_memory(cls):
    return Level(cls)


level_data = level_memory


class Spec:
    def __init__(self, storage, name=None, default=None):
        self.storage, self.name, self.default = storage, name, default


def imported(*, name=None, default=None):
    return Spec("imported", name, default)


def entity_data():
    return Spec("imported")


def exported(*, name=None):
    return Spec("exported", name)


def entity_memory():
    return Spec("memory")


def shared_memory():
    return Spec("shared")


def callback(*, order=0):
    def deco(f):
        f._order_ = order
        return f
    return deco


def flat_keys(t, prefix):
    if is_num_type(t):
        return [prefix]
    if isinstance(t, type) and issubclass(t, Array):
        return [k for i in range(t._s_) for k in flat_keys(t._t_, f"{prefix}[{i}]")]
    if isinstance(t, type) and issubclass(t, EntityRef):
        return [prefix]
    keys = [k for n, ft in t._f_.items() for k in flat_keys(resolve(ft, t), f"{prefix}.{n}")]
    return [prefix] if len(keys) == 1 else keys


class LifeInfo(Record):
    perfect_increment: int
    great_increment: int
    good_increment: int
    miss_increment: int

    def update(self, perfect_increment=None, great_increment=None, good_increment=None, miss_increment=None):
        for n, v in (("perfect_increment", perfect_increment), ("great_increment", great_increment), ("good_increment", good_increment), ("miss_increment", miss_increment)):
            if v is not None:
                setattr(self, n, v)


class Judgment(IntEnum):
    MISS = 0
    PERFECT = 1
    GREAT = 2
    GOOD = 3


class HapticType(IntEnum):
    NONE = 0
    LIGHT = 1
    MEDIUM = 2
    HEAVY = 3
    LONG = 4


class Bucket(Record):
    id: int


class PlayInput(Record):
    judgment: int
    accuracy: float
    bucket: Bucket
    bucket_value: float
    haptic: int


class WatchInput(Record):
    target_time: float
    bucket: Bucket
    bucket_value: float


def extra(key, make):
    """What the engine keeps for an archetype or an entity beside its fields."""
    if key not in W.extras:
        W.extras[key] = make()
    return W.extras[key]


def scored_mode():
    if W.mode not in ("play", "watch"):
        raise Invalid("life and score in this mode")


class ArchMeta(type):
    def __new__(mcs, cname, bases, ns, **kw):
        specs = {n: v for n, v in ns.items() if isinstance(v, Spec)}
        for n in specs:
            del ns[n]
        ns["_specs_"] = specs
        cls = super().__new__(mcs, cname, bases, ns, **kw)
        if "name" not in ns:
            cls.name = cname
        # an archetype's own fields follow those of the archetype it extends; mixins come before it
        parents = [b for b in bases if isinstance(b, ArchMeta)]
        seen = {m for b in parents for m in b.__mro__}
        cls._fields_ = dict(parents[0]._fields_) if parents and hasattr(parents[0], "_fields_") else {}
        for b in reversed(cls.__mro__):
            if b in seen or b is object:
                continue
            own = b.__dict__["_specs_"] if isinstance(b, ArchMeta) else {n: v for n, v in vars(b).items() if isinstance(v, Spec)}
            for n, sp in own.items():
                cls._fields_[n] = (sp.storage, b.__annotations__[n], sp.name or n, sp.default, b)
        return cls

    def __hash__(cls):
        return id(cls)

    @property
    def id(cls):
        if cls not in W.archetypes:
            raise Invalid("id of an archetype that is not registered")
        return W.archetypes.index(cls)

    @property
    def archetype_life(cls):
        scored_mode()
        cls.id
        return extra((cls, "life"), LifeInfo._zero_)

    life = archetype_life

    @property
    def archetype_score_multiplier(cls):
        scored_mode()
        cls.id
        return extra((cls, "score"), lambda: 0)

    @archetype_score_multiplier.setter
    def archetype_score_multiplier(cls, v):
        scored_mode()
        cls.id
        W.extras[cls, "score"] = v


class ExportProxy:
    """Write access to the parts of an exported field."""

    def __init__(self, t, prefix):
        object.__setattr__(self, "_t", t)
        object.__setattr__(self, "_p", prefix)

    def _sub(self, n):
        t = self._t
        if isinstance(t, type) and issubclass(t, Array):
            i = int(pos(n, t._s_))
            return t._t_, f"{self._p}[{i}]"
        ft = resolve(t._f_[n], t)
        one = len(flat_keys(t, self._p)) == 1
        return ft, self._p if one else f"{self._p}.{n}"

    def _put(self, n, v):
        t, k = self._sub(n)
        for key, x in zip(flat_keys(t, k), flat(v)):
            W.call("Export", key, float(x))

    def __getattr__(self, n):
        t, k = self._sub(n)
        if is_num_type(t):
            raise Invalid("read of exported field")
        return ExportProxy(t, k)

    def __getitem__(self, n):
        return self.__getattr__(n)

    def __setattr__(self, n, v):
        self._put(n, v)

    def __setitem__(self, n, v):
        self._put(n, v)


RUNTIME = {"key", "is_scored", "id", "life", "archetype_life", "archetype_score_multiplier"}


class Archetype(metaclass=ArchMeta):
    key = -1
    is_scored = False

    def __init__(self, *args, **kwargs):
        names = [n for n, f in type(self)._fields_.items() if f[0] == "imported"]
        vals = dict(zip(names, args)) | kwargs
        object.__setattr__(self, "_level_", {n: cast(vals[n], self._type(n)) if n in vals else zero(self._type(n)) for n in names})

    @classmethod
    def _type(cls, n):
        return resolve(cls._fields_[n][1], cls._fields_[n][4])

    @classmethod
    def _view(cls, i, own):
        v = object.__new__(cls)
        object.__setattr__(v, "_i_", i)
        object.__setattr__(v, "_own_", own)
        return v

    def __getattribute__(self, n):
        cls = type(self)
        f = cls._fields_.get(n)
        if f is None:
            if n in RUNTIME:
                # those of the entity's own archetype, however it is looked at
                return getattr(W.entities[int(object.__getattribute__(self, "_i_"))].cls, n)
            return object.__getattribute__(self, n)
        lv = object.__getattribute__(self, "__dict__").get("_level_")
        if lv is not None:
            return lv[n]
        if f[0] == "memory" and not self._own_:
            raise Invalid(f"read of {f[0]} field")
        if f[0] == "exported":
            t = cls._type(n)
            if not self._own_ or is_num_type(t):
                raise Invalid(f"read of {f[0]} field")
            return ExportProxy(t, f[2])
        e = W.entities[int(self._i_)]
        return e.f[n]

    def __setattr__(self, n, v):
        cls = type(self)
        e = W.entities[int(self._i_)]
        if n == "despawn":
            e.despawn = v
            return
        if n == "archetype_score_multiplier":
            e.cls.archetype_score_multiplier = v
            return
        if n == "entity_score_multiplier":
            scored_mode()
            W.extras[int(self._i_), "score"] = v
            return
        f = cls._fields_[n]
        if f[0] == "exported":
            for k, x in zip(flat_keys(cls._type(n), f[2]), flat(v)):
                W.call("Export", k, float(x))
            return
        cur = e.f[n]
        if hasattr(cur, "_assign_"):
            if cur is not v:
                cur._assign_(v)
        else:
            e.f[n] = v

    @property
    def index(self):
        return self._i_

    @property
    def entity_life(self):
        scored_mode()
        return extra((int(self._i_), "life"), LifeInfo._zero_)

    @property
    def entity_score_multiplier(self):
        scored_mode()
        return extra((int(self._i_), "score"), lambda: 0)

    @property
    def result(self):
        scored_mode()
        if not self._own_:
            raise Invalid("result of another entity")
        return extra((int(self._i_), "input"), (PlayInput if W.mode == "play" else WatchInput)._zero_)

    @property
    def despawn(self):
        return W.entities[int(self._i_)].despawn

    def _state(self):
        return W.entities[int(self._i_)].state

    @property
    def is_waiting(self):
        return self._state() == 0

    @property
    def is_active(self):
        return self._state() == 1

    @property
    def is_despawned(self):
        return self._state() == 2

    def ref(self):
        if "_level_" in self.__dict__:
            r = EntityRef[type(self)](0)
            object.__setattr__(r, "_ref_", self)
            return r
        return EntityRef[type(self)](self._i_)

    @classmethod
    def at(cls, i, check=True):
        if not 0 <= i < len(W.entities) or i != int(i):
            raise Invalid("entity index")
        if not issubclass(W.entities[int(i)].cls, cls):
            if check and CHECKS[0]:
                fail("archetype")
            if check:
                raise Invalid("entity of another archetype")
        return cls._view(int(i), False)

    @classmethod
    def is_at(cls, i, strict=False):
        if i < 0:
            return False
        if i >= len(W.entities) or i != int(i):
            raise Invalid("entity index")
        c = W.entities[int(i)].cls
        return c is cls if strict else issubclass(c, cls)

    @classmethod
    def spawn(cls, **kw):
        names = [n for n, f in cls._fields_.items() if f[0] == "memory"]
        vals = {n: clone(kw[n]) if n in kw else zero(cls._type(n)) for n in names}
        W.call("Spawn", cls.name, tuple(float(x) for n in names for x in flat(vals[n])))
        W.spawned.append((cls, vals))

    @classmethod
    def derive(cls, name, is_scored, key=None):
        ns = {"name": name, "is_scored": is_scored, "__module__": cls.__module__}
        if key is not None:
            ns["key"] = key
        return ArchMeta(name, (cls,), ns)

    @classmethod
    def _cb(cls, name):
        """The callback an entity of this archetype has, if any."""
        for b in cls.__mro__:
            f = b.__dict__.get(name)
            if f is not None and not hasattr(f, "_default_"):
                return f
        return None


def _default(name, value=None):
    """A callback nobody overrides: what mixins further on say, or nothing."""

    def f(self):
        nxt = getattr(super(Archetype, self), name, None)
        return value if nxt is None else nxt()

    f._default_ = True
    return f


class PlayArchetype(Archetype):
    preprocess, initialize, update_sequential, update_parallel, touch, terminate = map(_default, ("preprocess", "initialize", "update_sequential", "update_parallel", "touch", "terminate"))
    spawn_order, should_spawn = _default("spawn_order", 0.0), _default("should_spawn", True)


class WatchArchetype(Archetype):
    preprocess, initialize, update_sequential, update_parallel, terminate = map(_default, ("preprocess", "initialize", "update_sequential", "update_parallel", "terminate"))
    spawn_time, despawn_time = _default("spawn_time", 0.0), _default("despawn_time", 0.0)


class PreviewArchetype(Archetype):
    preprocess, render = _default("preprocess"), _default("render")


class RefMeta(RecordMeta):
    pass


class EntityRef[A](Record, metaclass=RefMeta):
    index: int

    @classmethod
    def archetype(cls):
        return resolve(cls._targs_["A"], cls) if hasattr(cls, "_targs_") else Any

    def _assign_(self, o):
        object.__setattr__(self, "index", o.index)

    def _copy_(self):
        r = type(self)(self.index)
        if "_ref_" in self.__dict__:
            object.__setattr__(r, "_ref_", self._ref_)
        return r

    def with_archetype(self, a):
        return EntityRef[a](self.index)

    def get(self, *, check=True):
        return self.archetype().at(self.index, check=check)

    def get_as(self, a):
        return a.at(self.index)

    def archetype_matches(self, strict=False):
        return self.archetype().is_at(self.index, strict=strict)

    def __eq__(self, o):
        return type(o) is type(self) and self.index == o.index

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise Invalid("truth of reference")

    __hash__ = None


def get_archetype_by_name(name):
    return next(a for a in W.archetypes if a.name == name)


def entity_info_at(i):
    if not 0 <= i < len(W.entities):
        raise Invalid("entity index")
    e = W.entities[int(i)]
    return SimpleNamespace(index=i, archetype_id=W.archetypes.index(e.cls), state=e.state)


def sort_linked_entities(head, /, *, get_value, get_next_ref, get_prev_ref=None):
    a = head.archetype()
    items, i = [], head.index
    while i > 0:
        if i in items or len(items) > 1000:
            raise Invalid("cyclic list")
        items.append(i)
        i = get_next_ref(a._view(i, False)).index
    items.sort(key=lambda k: get_value(a._view(k, False)))
    for j, k in enumerate(items):
        get_next_ref(a._view(k, False)).index = items[j + 1] if j + 1 < len(items) else 0
        if get_prev_ref is not None:
            get_prev_ref(a._view(k, False)).index = items[j - 1] if j else 0
    return EntityRef[a](items[0] if items else 0)


def cast(v, t):
    """A copy of a value as a field of type t holds it: a reference keeps the entity, not the archetype it was made with."""
    v = clone(v)
    if isinstance(v, EntityRef) and type(v) is not t and isinstance(t, type) and issubclass(t, EntityRef):
        w = t(v.index)
        if "_ref_" in v.__dict__:
            object.__setattr__(w, "_ref_", v._ref_)
        return w
    return v


def resolve_refs(v, pos):
    """References to level entities become their positions in the level."""
    if isinstance(v, EntityRef):
        if "_ref_" in v.__dict__:
            object.__setattr__(v, "index", pos[id(v._ref_)])
    elif isinstance(v, Record):
        for n in v._f_:
            resolve_refs(getattr(v, n), pos)
    elif isinstance(v, Array):
        for x in v._v:
            resolve_refs(x, pos)


def touch_list(rows):
    out = []
    for r in rows:
        out.append(SimpleNamespace(id=r[0], started=r[1], ended=r[2], time=r[3], start_time=r[4], position=Vec2(r[5], r[6]), start_position=Vec2(r[7], r[8]),
                                   delta=Vec2(r[9], r[10]), velocity=Vec2(r[11], r[12]), speed=r[13], angle=r[14]))
    return out


# ---- streams -----------------------------------------------------------------------------------------------------
# Oracle storage: W.streams[(class name, field, group index)] -> {key: value}; data fields -> value


def _tab(k):
    return W.streams.setdefault(k, {})


class StreamView:
    def __init__(self, key, t):
        self.k, self.t = key, t

    def _d(self):
        return _tab(self.k)

    def __setitem__(self, key, v):
        if W.mode != "play":
            raise Invalid("stream write")
        self._d()[float(key)] = clone(v)

    def __contains__(self, key):
        return key in self._d()

    def __getitem__(self, key):
        d = self._d()
        if not d:
            return zero(self.t)
        if key in d:
            return clone(d[key])
        ks = sorted(d)
        if key < ks[0]:
            return clone(d[ks[0]])
        if key > ks[-1]:
            return clone(d[ks[-1]])
        b = next(x for x in ks if x > key)
        a = ks[ks.index(b) - 1]
        return build(self.t, [p + (q - p) * (key - a) / (b - a) for p, q in zip(flat(d[a]), flat(d[b]))])

    def _ks(self):
        return sorted(self._d())

    def next_key(self, key):
        return next((k for k in self._ks() if k > key), key)

    def previous_key(self, key):
        return next((k for k in reversed(self._ks()) if k < key), key)

    def next_key_or_default(self, key, default):
        return next((k for k in self._ks() if k > key), default)

    def previous_key_or_default(self, key, default):
        return next((k for k in reversed(self._ks()) if k < key), default)

    def has_next_key(self, key):
        return any(k > key for k in self._ks())

    def has_previous_key(self, key):
        return any(k < key for k in self._ks())

    def next_key_inclusive(self, key):
        return key if key in self else self.next_key(key)

    def previous_key_inclusive(self, key):
        return key if key in self else self.previous_key(key)

    def get_next(self, key):
        return self[self.next_key(key)]

    def get_previous(self, key):
        return self[self.previous_key(key)]

    def get_next_inclusive(self, key):
        return self[self.next_key_inclusive(key)]

    def get_previous_inclusive(self, key):
        return self[self.previous_key_inclusive(key)]

    def _from(self, s):
        return [k for k in self._ks() if k >= s]

    def _desc(self, s):
        return [k for k in reversed(self._ks()) if k <= s]

    def _since(self):
        return [k for k in self._ks() if prev_time() < k <= time()]

    # a start outside the keys: the iteration starts at the next (previous) key
    def iter_keys_from(self, s):
        return iter(self._from(s))

    def iter_keys_from_desc(self, s):
        return iter(self._desc(s))

    def iter_keys_since_previous_frame(self):
        return iter(self._since())

    def iter_values_from(self, s):
        return iter([self[k] for k in self._from(s)])

    def iter_values_from_desc(self, s):
        return iter([self[k] for k in self._desc(s)])

    def iter_values_since_previous_frame(self):
        return iter([self[k] for k in self._since()])

    def iter_items_from(self, s):
        return iter([(k, self[k]) for k in self._from(s)])

    def iter_items_from_desc(self, s):
        return iter([(k, self[k]) for k in self._desc(s)])

    def iter_items_since_previous_frame(self):
        return iter([(k, self[k]) for k in self._since()])


def build(t, vals):
    v = zero(t)
    it = iter(vals)

    def fill(v):
        if isinstance(v, Record):
            for n in v._f_:
                c = getattr(v, n)
                if hasattr(c, "_assign_"):
                    fill(c)
                else:
                    object.__setattr__(v, n, next(it))
        elif isinstance(v, Array):
            for i, c in enumerate(v._v):
                if hasattr(c, "_assign_"):
                    fill(c)
                else:
                    v._v[i] = next(it)
    if not hasattr(v, "_assign_"):
        return vals[0]
    fill(v)
    return v


class Stream:
    def __class_getitem__(cls, t):
        return ("stream", t, None)


class GroupView:
    def __init__(self, key, t, n):
        self.k, self.t, self.n = key, t, n

    def size(self):
        return self.n

    def __contains__(self, i):
        return 0 <= i < self.n

    def __getitem__(self, i):
        i = ppos(i, self.n)
        return StreamView((self.k, i), self.t)


class StreamGroup:
    def __class_getitem__(cls, a):
        return ("group", a[0], getattr(a[1], "__args__", (a[1],))[0])


class StreamsView:
    def __init__(self, cls):
        object.__setattr__(self, "_f_", dict(cls.__annotations__))

    def __getattr__(self, n):
        t = self._f_[n]
        if isinstance(t, tuple):
            return StreamView(n, t[1]) if t[0] == "stream" else GroupView(n, t[1], t[2])
        return clone(W.streams[n]) if n in W.streams else zero(t)

    def __setattr__(self, n, v):
        if W.mode != "play":
            raise Invalid("stream write")
        W.streams[n] = clone(v)


def streams(cls):
    return StreamsView(cls)


_range, _max, _min = range, max, min


def range(*args):  # noqa: A001
    """Numbers are floats on the engine; a range wants whole ones."""
    if any(int(x) != x for x in args):
        raise Invalid("range of fractions")
    return _range(*(int(x) for x in args))


def enumerate(it, start=0):  # noqa: A001
    for x in it:
        yield start, x
        start += 1


def _extreme(fn, args, kw):
    if len(args) == 1 and isinstance(args[0], Seq):
        check(len(args[0]) > 0, "empty")
    return fn(*args, **kw)


def max(*args, **kw):  # noqa: A001
    return _extreme(_max, args, kw)


def min(*args, **kw):  # noqa: A001
    return _extreme(_min, args, kw)


HEADER_NAMES = [n for n in dir() if not n.startswith("_")] + ["math"]
__all__ = HEADER_NAMES
