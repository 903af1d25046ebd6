"""C28: hostile Python programs against the (sanitized) extension module."""

import copy
import ctypes
import gc
import math
import operator
import os
import pickle
import subprocess
import sys
import threading
import weakref

import numpy as np

import lsst.sphgeom as sg
from ops import CALLS, CLASSES, MAKES, OPERATORS, OVERLOADS, Reader, ask, build, invoke, norm
from vh import hostile_double, main, random_unit, section

allocated = getattr(ctypes.CDLL(None), "__sanitizer_get_current_allocated_bytes", None)
if allocated is not None:
    allocated.restype = ctypes.c_size_t
    allocated.argtypes = []


# ---------------------------------------------------------- hostile arguments

class Boom(Exception):
    pass


class Evil:
    """An object whose conversions fail, or answer strangely and have side effects."""

    def __init__(self, r, pool=None):
        self.k = r.randrange(6)
        self.r = r
        self.pool = pool

    def answer(self, *good):
        if self.pool is not None and self.r.random() < 0.3:
            # drop references that the caller may be relying on
            del self.pool[len(self.pool) // 2 :]
            gc.collect()
        if self.k == 0:
            raise Boom
        if self.k == 1:
            return self.r.choice((None, "x", self, [], object()))
        return self.r.choice(good)

    def __index__(self):
        return self.answer(0, 1, -1, 2**64, 2**200, 3)

    def __int__(self):
        return self.answer(0, 5, 2**64)

    def __float__(self):
        return self.answer(0.0, math.nan, 1.5)

    def __len__(self):
        return self.answer(0, 1, 3, 2**16, -1)

    def __getitem__(self, i):
        if isinstance(i, int) and i > 5:
            raise IndexError
        return self.answer(0, 1, (1, 2), "x", 2**65, None)

    def __iter__(self):
        return self.answer(iter(()), iter([1, 2, 3]), iter([self]), (x for x in (1, Boom)), self.generate())

    def generate(self):
        yield 1
        yield (2, 3)
        if self.k % 2:
            raise Boom
        yield 4

    def __array__(self, *args, **kwargs):
        return self.answer(np.zeros(3), np.zeros((2, 2)), np.array(["x"]))

    def __bool__(self):
        return self.answer(True, False)

    def __str__(self):
        return self.answer("x", "")

    def __hash__(self):
        return self.answer(0, 1, 2**100)

    def __eq__(self, other):
        return self.answer(True, False)

    def __repr__(self):
        return "Evil()"


def hostile(r, pool=None):
    k = r.randrange(26)
    if k == 0:
        return None
    if k == 1:
        return object()
    if k == 2:
        return r.choice((0, 1, -1, 2**31, -(2**31) - 1, 2**32, 2**63, 2**64 - 1, 2**64, -(2**63) - 1, 10**40))
    if k < 6:
        return hostile_double(r)
    if k == 6:
        return r.choice(("", "x", "12", "N33", "0", "\0", "\ud800", "x" * 1000, "B", "nan", "CIRCLE 1 2 3", "é"))
    if k == 7:
        return r.choice((b"", b"c", bytes(25), b"u" + bytes(8), r.randbytes(r.randrange(60)), bytearray(25), memoryview(bytes(33))))
    if k == 8:
        return r.choice(([], (), {}, set(), [1, 2], (3, 1), [None], [[]], {"x": 1}, [(1, 2), (3, 4)], (1, 2, 3), [1.5], ["x"], range(5), frozenset((1,))))
    if k == 9:
        return r.choice((np.zeros(3), np.zeros((2, 2)), np.array([]), np.arange(4, dtype=np.uint64), np.array([None, 1]), np.array("x"), np.float32(1), np.int8(-1),
                         np.array([1 + 2j]), np.zeros((0, 3)), np.array([math.nan, 1e300]), np.broadcast_to(np.float64(1), (4, 4)), np.bool_(True), np.zeros(2, dtype=[("a", float)])))
    if k == 10:
        return r.choice((True, False, 1 + 2j, Ellipsis, NotImplemented, slice(None), slice(0, 3, 2), type, int, sg.Circle, sg.Region, sg, len, lambda *a: 1))
    if k < 13:
        return Evil(r, pool)
    if k == 13:
        return (x for x in (1, (2, 3), r.choice((4, "x", None, (1, 2, 3)))))
    if k == 14:
        return weakref.ref(Evil)
    op = r.choice(MAKES)
    try:
        return build(op.args[0], Reader(ask(op, r.getrandbits(64))).value(op.args[0]))
    except ValueError:
        return None


ACCEPTABLE = (TypeError, ValueError, IndexError, OverflowError, RuntimeError, NotImplementedError, AttributeError, KeyError, Boom, UnicodeError, StopIteration, ZeroDivisionError, ArithmeticError, LookupError)


def harmless(c, key, what, f):
    """Calls f and checks that it returns or raises an ordinary exception."""
    try:
        return True, f()
    except ACCEPTABLE as e:
        return False, e
    except MemoryError as e:
        return False, e
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        c.fail(key, f"{what()} raised {type(e).__name__}: {e}")
        return False, e


def arguments(r, op):
    rd = Reader(ask(op, r.getrandbits(64)))
    values = [rd.value(a) for a in op.args]
    return [build(a, v) for a, v in zip(op.args, values)]


def short(o):
    try:
        return repr(o)[:120]
    except BaseException as e:  # noqa: BLE001
        return f"<{type(o).__name__}, whose repr raises {type(e).__name__}>"


MOST = {}
for _name, _ops in OVERLOADS.items():
    MOST[_name] = max(len(o.args) for o in _ops)


@section(40000)
def badcalls(c):
    """Calls with an argument of another type, or with a wrong number of them."""
    r = c.rng
    op = CALLS[c.index % len(CALLS)]
    args = arguments(r, op)
    c.eval(op.name + str(c.index))
    vectorised = "contains" in op.name
    receiver = "." in op.name or ("#" in op.name and args)
    forced = None
    k = r.randrange(8)
    positions = list(range(1 if receiver and r.random() < 0.9 else 0, len(args)))
    if k == 0:
        args += [hostile(r) for _ in range(r.randrange(1, 6))]
        if len(args) > max(MOST[op.name], 4) + (1 if receiver else 0) and "#" not in op.name:
            forced = "too many arguments"
    elif k == 1 and args:
        del args[r.randrange(1 if receiver else 0, len(args) + 0) if len(args) > (1 if receiver else 0) else 0 :]
    elif k == 2 and positions:
        i = r.choice(positions)
        args[i] = object()
        if not vectorised and not op.name.endswith(("__eq__", "__ne__")):
            forced = f"an object() as argument {i}"
    elif k == 3 and positions:
        i = r.choice(positions)
        args[i] = None
        if not vectorised and not op.name.endswith(("__eq__", "__ne__")):
            forced = f"None as argument {i}"
    elif k == 4 and positions:
        i = r.choice(positions)
        args[i] = r.choice(("x", "", "12"))
        if op.args[i] != "s" and not vectorised and not op.name.endswith(("__eq__", "__ne__", "RangeSet()")):
            forced = f"text as argument {i}"
    elif k == 5 and len(positions) > 1:
        i, j = r.sample(positions, 2)
        args[i], args[j] = args[j], args[i]
    else:
        for i in positions:
            if r.random() < 0.6:
                args[i] = hostile(r)
    kw = {}
    if r.random() < 0.1:
        kw = {r.choice(("x", "self", "lon", "region", "vector", "iterable", "angle", "", "é")): hostile(r)}
        forced = None
    what = lambda: f"{op.name}({', '.join(map(short, args))}{', ' + short(kw) if kw else ''})"  # noqa: E731
    refs = [sys.getrefcount(a) for a in args]
    ok, got = harmless(c, f"exception:{op.name}", what, lambda: plain_call(r, op, args, kw))
    c.count("calls that returned" if ok else "calls that raised")
    c.sample(lambda: f"{what()} -> {short(got)}")
    if forced and ok and got is not NotImplemented:
        c.fail(f"accepted:{op.name}", f"{what()}, with {forced}, returned {short(got)} instead of raising an exception")
    if not ok:
        got.__traceback__ = None
        got.__context__ = None
        del got
        now = [sys.getrefcount(a) for a in args]
        if refs != now:
            gc.collect()
            now = [sys.getrefcount(a) for a in args]
        # small integers, None and types have references from everywhere
        grown = [(short(a), m - n) for a, n, m in zip(args, refs, now) if m > n and type(a) in LEAKABLE]
        c.check(not grown, f"references:{op.name}", lambda: f"{what()} keeps references: {grown}")


LEAKABLE = set(CLASSES.values()) | {Evil, object}


CURVES = {"mortonToHilbert", "hilbertToMorton", "hilbertIndex", "hilbertIndexInverse"}


def outside(name, args):
    """Whether the number of bits given to a function on Hilbert curves is not one."""
    return name.strip("!") in CURVES and any(not isinstance(a, float) and hasattr(a, "__index__") and not (isinstance(a, (int, np.integer)) and 0 <= a <= 32) for a in args[-1:])


def plain_call(r, op, args, kw):
    name = op.name
    if outside(name, args) or (args and args[0] is None and ("." in name or "#" in name)):
        # see known_findings.jsonl for None as the receiver of an unbound method
        raise TypeError("not called")
    if name.startswith("!"):
        return getattr(sg, name[1:])(*args, **kw)
    if name.startswith("#"):
        return getattr(sg, name[1:])
    if "#" in name:
        cls, attr = name.split("#")
        return getattr(args[0] if args else getattr(sg, cls), attr)
    if name.endswith("()"):
        return getattr(sg, name[:-2])(*args, **kw)
    if "::" in name:
        cls, m = name.split("::")
        return getattr(getattr(sg, cls), m)(*args, **kw)
    cls, m = name.split(".")
    if m in OPERATORS and len(args) == (1 if m in ("__neg__", "__invert__", "__len__") else 2) and not kw and r.random() < 0.7 and m not in ("__len__",):
        return getattr(operator, OPERATORS[m])(*args)
    return getattr(getattr(sg, cls), m)(*args, **kw)


# ------------------------------------------------------------------ lifetimes

def snapshot(o):
    if isinstance(o, sg.Region):
        return o.encode()
    if isinstance(o, (list, tuple)):
        return [snapshot(x) for x in o]
    if isinstance(o, np.ndarray):
        return (o.dtype, o.shape, o.tobytes())
    return (type(o), repr(o))


def churn(r):
    """Reuses freed memory."""
    return [bytes(r.choice((16, 24, 32, 40, 48, 64, 96, 128, 256))) for _ in range(40)]


@section(25000)
def lifetimes(c):
    """Results stay valid when everything they were made from is gone or modified."""
    r = c.rng
    op = CALLS[c.index % len(CALLS)]
    args = arguments(r, op)
    try:
        got = invoke(r, op, args)
    except ACCEPTABLE:
        return
    if any(got is a for a in args):
        return
    c.eval(op.name + str(c.index))
    before = snapshot(got)
    # modify what can be modified in place
    for a in args:
        try:
            if isinstance(a, sg.RangeSet):
                a.clear()
                a.insert(7, 9)
            elif isinstance(a, (sg.Circle, sg.Box)):
                a.dilateBy(sg.Angle(0.1))
            elif isinstance(a, sg.Vector3d):
                a *= 3.0
            elif isinstance(a, sg.Angle):
                a += sg.Angle(1.0)
            elif isinstance(a, sg.Interval1d):
                a.expandTo(3.0)
        except ACCEPTABLE:
            pass
    c.check(snapshot(got) == before, f"modified:{op.name}", lambda: f"the result of {op.name} changes when its arguments are modified, from {before!r} to {snapshot(got)!r}")
    a = None
    args.clear()
    if r.random() < 0.02:
        gc.collect()
    refs = churn(r)
    after = snapshot(got)
    c.check(after == before, f"dangling:{op.name}", lambda: f"the result of {op.name} changes when its arguments are deleted, from {before!r} to {after!r}")
    # parts of the result outlive it
    parts = list(got) if isinstance(got, (list, tuple, sg.Vector3d, sg.UnitVector3d, sg.LonLat, sg.Box3d, sg.Matrix3d, sg.RangeSet)) else []
    if isinstance(got, sg.CompoundRegion):
        parts = [got.cloneOperand(0), got.cloneOperand(1)]
    if parts:
        it = iter(got) if hasattr(type(got), "__iter__") or hasattr(type(got), "__getitem__") else None
        before = [snapshot(p) for p in parts]
        del got
        refs += churn(r)
        c.check([snapshot(p) for p in parts] == before, f"dangling-part:{op.name}", lambda: f"the parts of the result of {op.name} change when it is deleted")
        if it is not None:
            rest = [snapshot(p) for p in it]
            c.check(rest == before, f"dangling-iterator:{op.name}", lambda: f"iterating over the deleted result of {op.name} gives {rest!r} instead of {before!r}")
    c.count("results examined after their sources were deleted")


@section(6000)
def iteration(c):
    """Iterators over sets and regions that are modified or deleted on the way."""
    r = c.rng
    s = sg.RangeSet()
    for _ in range(r.randrange(1, 30)):
        a = r.randrange(1000)
        s.insert(a, a + 1 + r.randrange(20))
    items = s.ranges()
    c.eval(repr(items))
    it = iter(s)
    n = r.randrange(len(items) + 1)
    got = [next(it) for _ in range(n)]
    c.check(got == items[:n], "iterator", lambda: f"{got} {items}")
    k = r.randrange(6)
    if k == 0:
        s.clear()
    elif k == 1:
        s.fill()
    elif k == 2:
        for _ in range(100):
            s.insert(r.getrandbits(40))
    elif k == 3:
        s.complement()
    elif k == 4:
        del s
        churn(r)
    else:
        s.erase(0, 2**63)
    rest = harmless(c, "iteration", lambda: "continuing an iteration", lambda: list(it))
    if k == 4:
        c.check(rest == (True, items[n:]), "iterator-deleted", lambda: f"{rest} instead of {items[n:]}")
    elif rest[0]:
        c.check(all(isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, int) and 0 <= y < 2**64 for y in x) for x in rest[1]), "iterator-modified", lambda: repr(rest))
    # a set made from an iterable that modifies a set
    t = sg.RangeSet(1, 5)

    def source():
        for i in range(5):
            t.insert(100 * i)
            t.complement()
            yield (i * 10, i * 10 + 5)

    u = sg.RangeSet(source())
    c.check(u.ranges() == [(i * 10, i * 10 + 5) for i in range(5)], "iterable", repr(u))
    e = Evil(r)
    harmless(c, "iterable", lambda: "RangeSet(Evil())", lambda: sg.RangeSet(e))
    harmless(c, "iterable", lambda: "RangeSet([Evil()])", lambda: sg.RangeSet([1, e, 2]))
    harmless(c, "iterable", lambda: "ConvexPolygon([Evil()])", lambda: sg.ConvexPolygon([sg.UnitVector3d.X(), e]))


# ---------------------------------------------------------------- leaks

def settle():
    """Collects garbage, and what the interpreter's cache of attribute lookups keeps."""
    gc.collect()
    getattr(sys, "_clear_type_cache", int)()


@section(len(CALLS), "leaks_all")
def leaks(c):
    op = CALLS[c.index]
    growth = leak(c, op, False)
    c.eval(op.name + str(c.index))
    c.count("operations repeated")
    c.sample(lambda: f"repeating {op.name} 60 times allocates {growth} bytes")


@section(len(CALLS), "leaks_raising_all")
def leaks_raising(c):
    op = CALLS[c.index]
    leak(c, op, True)
    c.eval(op.name + str(c.index))
    c.count("operations repeated")


def leak(c, op, bad):
    """The bytes kept by repeated calls."""
    r = c.rng
    if allocated is None:
        return None
    rd = Reader(ask(op, r.getrandbits(64)))
    values = [rd.value(a) for a in op.args]
    which = r.randrange(1 if len(values) > 1 and "." in op.name else 0, len(values)) if values else 0
    wrong = r.choice((None, "x", object(), 2**70, [object()], (1, "x")))
    state = r.getstate()

    def once():
        r.setstate(state)
        args = [build(a, v) for a, v in zip(op.args, values)]
        if bad and args:
            args[which] = wrong
        try:
            plain_call(r, op, args, {}) if bad else invoke(r, op, args)
        except ACCEPTABLE:
            pass

    for _ in range(30):
        once()
    n = 60
    grown = []
    # caches of the interpreter fill up for a while
    for _ in range(40):
        settle()
        start = allocated()
        for _ in range(n):
            once()
        settle()
        grown.append(allocated() - start)
        if grown[-1] < 8 * n:
            return grown[-1]
    c.fail(f"leak:{op.name}", f"repeating {op.name} {n} times allocates {grown} bytes{' with a wrong argument' if bad else ''}")
    return grown[-1]


def big(r):
    """An integer that is a counted object of its own."""
    return r.getrandbits(40) + (1 << 41)


def pair(r):
    a = big(r)
    return (a, a + 3 + r.randrange(100))


def some_region(r):
    v = random_unit(r)
    c = sg.UnitVector3d(*v) if isinstance(v, tuple) else v
    k = r.randrange(5)
    if k == 0:
        return sg.Circle(c, sg.Angle(0.3))
    if k == 1:
        return sg.Box(sg.LonLat(c), sg.Angle(0.2), sg.Angle(0.1))
    if k == 2:
        return sg.Ellipse(c, sg.Angle(0.2), sg.Angle(0.1), sg.Angle(0.3))
    if k == 3:
        return sg.Box(sg.LonLat.fromDegrees(10, 10), sg.LonLat.fromDegrees(20, 20))
    return sg.UnionRegion(sg.Circle(c, sg.Angle(0.1)), sg.Circle(sg.UnitVector3d.X(), sg.Angle(0.2)))


def triangle(r):
    return [sg.UnitVector3d(sg.LonLat.fromDegrees(10 + r.random(), 1)), sg.UnitVector3d(sg.LonLat.fromDegrees(50, 2)), sg.UnitVector3d(sg.LonLat.fromDegrees(30, 40 + r.random()))]


class Sequence:
    """A sequence that makes its items on demand."""

    def __init__(self, *items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(self.items[i], BaseException):
            raise type(self.items[i])
        return self.items[i] + 0 if isinstance(self.items[i], int) else self.items[i]


class Shapeless(Sequence):
    """A number that is a sequence whose length is not known."""

    def __len__(self):
        raise KeyError

    def __index__(self):
        return self.items[0]


def inplace(name):
    def f(a, b):
        return getattr(operator, name)(a, b)
    return f


def several(r, f, n=6):
    return [f(r) for _ in range(n)]


# name, maker of fresh arguments, operation
PYTHON_OPS = [
    ("RangeSet(pairs)", lambda r: [several(r, pair)], sg.RangeSet),
    ("RangeSet(integers)", lambda r: [several(r, big)], sg.RangeSet),
    ("RangeSet(generator)", lambda r: [several(r, pair)], lambda x: sg.RangeSet(y for y in x)),
    ("RangeSet(lists)", lambda r: [[list(pair(r)) for _ in range(4)]], sg.RangeSet),
    ("RangeSet(sequences)", lambda r: [[Sequence(*pair(r)) for _ in range(4)]], sg.RangeSet),
    ("RangeSet(failing sequences)", lambda r: [[pair(r), Sequence(big(r), KeyError()), Sequence(big(r), 2)]], sg.RangeSet),
    ("RangeSet(failing first)", lambda r: [[pair(r), Sequence(KeyError(), big(r))]], sg.RangeSet),
    ("RangeSet(failing length)", lambda r: [[pair(r), Shapeless(big(r))]], sg.RangeSet),
    ("RangeSet(bad pairs)", lambda r: [[pair(r), (big(r), "x")]], sg.RangeSet),
    ("RangeSet(bad first)", lambda r: [[pair(r), (-big(r), big(r))]], sg.RangeSet),
    ("RangeSet(bad item)", lambda r: [[pair(r), object(), big(r)]], sg.RangeSet),
    ("RangeSet(triples)", lambda r: [[(big(r), big(r), big(r))]], sg.RangeSet),
    ("RangeSet(array)", lambda r: [np.array(several(r, big), dtype=np.uint64)], sg.RangeSet),
    ("RangeSet(array of pairs)", lambda r: [np.array(several(r, pair), dtype=np.uint64)], sg.RangeSet),
    ("RangeSet(first, last)", lambda r: list(pair(r)), sg.RangeSet),
    ("RangeSet.ranges", lambda r: [sg.RangeSet(several(r, pair))], lambda s: s.ranges()),
    ("RangeSet.str", lambda r: [sg.RangeSet(several(r, pair))], lambda s: (str(s), repr(s))),
    ("RangeSet.pickle", lambda r: [sg.RangeSet(several(r, pair))], lambda s: pickle.loads(pickle.dumps(s))),
    ("RangeSet.reduce", lambda r: [sg.RangeSet(several(r, pair))], lambda s: s.__reduce__()),
    ("RangeSet.index", lambda r: [sg.RangeSet(several(r, pair)), -1], lambda s, i: s[i]),
    ("RangeSet.index outside", lambda r: [sg.RangeSet(several(r, pair)), big(r)], lambda s, i: s[i]),
    ("RangeSet.index huge", lambda r: [sg.RangeSet(several(r, pair)), big(r) ** 4], lambda s, i: s[i]),
    ("RangeSet.index wrong", lambda r: [sg.RangeSet(several(r, pair)), "x"], lambda s, i: s[i]),
    ("RangeSet.iterate", lambda r: [sg.RangeSet(several(r, pair))], list),
    ("RangeSet.iterate part", lambda r: [sg.RangeSet(several(r, pair))], lambda s: next(iter(s))),
    ("RangeSet.insert", lambda r: [sg.RangeSet(several(r, pair)), *pair(r)], lambda s, a, b: s.insert(a, b)),
    ("RangeSet.contains", lambda r: [sg.RangeSet(several(r, pair)), big(r)], lambda s, a: (a in s, s.contains(a), s.intersects(a, a + 1))),
    ("RangeSet.contains pair", lambda r: [sg.RangeSet(several(r, pair)), pair(r)], lambda s, a: a in s),
    ("RangeSet.eq", lambda r: [sg.RangeSet(several(r, pair)), object()], lambda s, a: (s == a, s != a)),
    ("RangeSet.copy", lambda r: [sg.RangeSet(several(r, pair))], lambda s: (copy.copy(s), copy.deepcopy(s))),
    *((f"RangeSet.{n}", lambda r: [sg.RangeSet(several(r, pair)), sg.RangeSet(several(r, pair))], inplace(n)) for n in ("iand", "ior", "isub", "ixor", "and_", "or_", "sub", "xor")),
    ("RangeSet.iand wrong", lambda r: [sg.RangeSet(several(r, pair)), big(r)], inplace("iand")),
    ("ConvexPolygon(list)", lambda r: [triangle(r)], sg.ConvexPolygon),
    ("ConvexPolygon(tuple)", lambda r: [tuple(triangle(r))], sg.ConvexPolygon),
    ("ConvexPolygon(bad)", lambda r: [triangle(r)[::-1][:2]], sg.ConvexPolygon),
    ("ConvexPolygon(wrong)", lambda r: [[*triangle(r), big(r)]], sg.ConvexPolygon),
    ("ConvexPolygon(iterator)", lambda r: [triangle(r)], lambda x: sg.ConvexPolygon(iter(x))),
    ("convexHull", lambda r: [triangle(r) + triangle(r)], sg.ConvexPolygon.convexHull),
    ("convexHull wrong", lambda r: [triangle(r) + [None]], sg.ConvexPolygon.convexHull),
    ("getVertices", lambda r: [sg.ConvexPolygon(triangle(r))], lambda p: p.getVertices()),
    ("polygon repr", lambda r: [sg.ConvexPolygon(triangle(r))], lambda p: (str(p), repr(p), eval(repr(p), vars(sg)))),
    ("getRegions", lambda r: [some_region(r)], sg.Region.getRegions),
    ("clone", lambda r: [some_region(r)], lambda x: x.clone()),
    ("repr", lambda r: [some_region(r)], lambda x: (str(x), repr(x))),
    ("pickle", lambda r: [some_region(r)], lambda x: [pickle.loads(pickle.dumps(x, i)) for i in range(6)]),
    ("copy", lambda r: [some_region(r)], lambda x: (copy.copy(x), copy.deepcopy(x))),
    ("encode", lambda r: [some_region(r)], lambda x: sg.Region.decode(x.encode())),
    ("decode bad", lambda r: [some_region(r).encode()[:-1]], sg.Region.decode),
    ("decode trailing", lambda r: [some_region(r).encode() + b"xx"], sg.Region.decode),
    ("decode compound bad", lambda r: [sg.UnionRegion(some_region(r), some_region(r)).encode()[:-3]], sg.Region.decode),
    ("decode wrong", lambda r: [bytearray(some_region(r).encode())], sg.Region.decode),
    ("setstate", lambda r: [sg.Circle.__new__(sg.Circle), sg.Circle().encode()], lambda x, b: x.__setstate__(b)),
    ("setstate bad", lambda r: [sg.Circle.__new__(sg.Circle), b"xyz"], lambda x, b: x.__setstate__(b)),
    ("setstate twice", lambda r: [sg.Circle(sg.UnitVector3d.X()), sg.Circle().encode()], lambda x, b: (x.__setstate__(b), x.__setstate__(b))),
    ("init twice", lambda r: [sg.ConvexPolygon(triangle(r)), triangle(r)], lambda x, b: x.__init__(b)),
    ("init again bad", lambda r: [sg.ConvexPolygon(triangle(r)), triangle(r)[:2]], lambda x, b: x.__init__(b)),
    ("UnionRegion", lambda r: [some_region(r), some_region(r)], sg.UnionRegion),
    ("UnionRegion wrong", lambda r: [some_region(r), big(r)], sg.UnionRegion),
    ("IntersectionRegion", lambda r: [some_region(r), some_region(r)], lambda a, b: repr(sg.IntersectionRegion(a, b))),
    ("cloneOperand", lambda r: [sg.UnionRegion(some_region(r), some_region(r)), -1], lambda x, i: x.cloneOperand(i)),
    ("cloneOperand outside", lambda r: [sg.UnionRegion(some_region(r), some_region(r)), big(r)], lambda x, i: x.cloneOperand(i)),
    ("bounds", lambda r: [some_region(r)], lambda x: (x.getBoundingBox(), x.getBoundingCircle(), x.getBoundingBox3d())),
    ("relate", lambda r: [some_region(r), sg.Circle(sg.UnitVector3d.X(), sg.Angle(0.4))], lambda x, y: (x.relate(y), y.relate(x))),
    ("contains arrays", lambda r: [some_region(r), np.linspace(-1, 1, 50), np.linspace(0, 1, 50)], lambda x, a, b: x.contains(a, b)),
    ("contains list", lambda r: [some_region(r), [r.random() for _ in range(9)], 0.5], lambda x, a, b: x.contains(a, b)),
    ("contains mismatch", lambda r: [some_region(r), np.zeros(3), np.zeros(4)], lambda x, a, b: x.contains(a, b)),
    ("contains strided", lambda r: [some_region(r), np.zeros((6, 6))[::2, ::3], np.zeros((3, 1))], lambda x, a, b: x.contains(a, b)),
    ("contains wrong", lambda r: [some_region(r), "abc" * 5, object()], lambda x, a, b: x.contains(a, b)),
    ("in wrong", lambda r: [some_region(r), object()], lambda x, a: a in x),
    ("LonLat.index", lambda r: [sg.LonLat.fromDegrees(r.random(), 2), -1], lambda x, i: (x[i], x[:], x[::-1])),
    ("LonLat.index outside", lambda r: [sg.LonLat.fromDegrees(r.random(), 2), big(r)], lambda x, i: x[i]),
    ("LonLat.unpack", lambda r: [sg.LonLat.fromDegrees(r.random(), 2)], lambda x: (lambda a, b: (a, b))(*x)),
    ("LonLat.pickle", lambda r: [sg.LonLat.fromDegrees(r.random(), 2)], lambda x: pickle.loads(pickle.dumps(x))),
    ("Vector3d.index", lambda r: [sg.Vector3d(1.5, r.random(), 3), -1], lambda x, i: (x[i], list(x))),
    ("Vector3d.index outside", lambda r: [sg.Vector3d(1.5, r.random(), 3), big(r)], lambda x, i: x[i]),
    ("Vector3d.repr", lambda r: [sg.Vector3d(1.5, r.random(), 3)], lambda x: (str(x), repr(x), pickle.loads(pickle.dumps(x)), hash(str(x)))),
    ("UnitVector3d.index", lambda r: [sg.UnitVector3d(1.5, r.random(), 3), 2], lambda x, i: (x[i], list(x), repr(x), pickle.loads(pickle.dumps(x)))),
    ("UnitVector3d zero", lambda r: [0.0, 0.0, 0.0], sg.UnitVector3d),
    ("Matrix3d.index", lambda r: [sg.Matrix3d(2.5)], lambda m: (m[0, 1], m[-1], m.getRow(1), str(m), repr(m), pickle.loads(pickle.dumps(m)))),
    ("Matrix3d.index outside", lambda r: [sg.Matrix3d(2.5), (big(r), big(r))], lambda m, i: m[i]),
    ("Matrix3d.index wrong", lambda r: [sg.Matrix3d(2.5), (big(r), big(r), big(r))], lambda m, i: m[i]),
    ("Matrix3d.index string", lambda r: [sg.Matrix3d(2.5), "x"], lambda m, i: m[i]),
    ("Interval1d", lambda r: [sg.Interval1d(r.random(), 2)], lambda x: (repr(x), pickle.loads(pickle.dumps(x)), x.clippedTo(x), x == 3)),
    ("AngleInterval", lambda r: [sg.AngleInterval.fromDegrees(r.random(), 2)], lambda x: (repr(x), pickle.loads(pickle.dumps(x)), x.expandTo(x))),
    ("NormalizedAngleInterval", lambda r: [sg.NormalizedAngleInterval.fromDegrees(r.random(), 2)], lambda x: (repr(x), pickle.loads(pickle.dumps(x)), x.expandTo(x), x.getSize())),
    ("Box3d", lambda r: [some_region(r).getBoundingBox3d()], lambda x: (repr(x), pickle.loads(pickle.dumps(x)), x.x(), x.clipTo(x))),
    ("Box3d.index", lambda r: [some_region(r).getBoundingBox3d()], lambda x: (x[0], x[-1], list(x))),
    ("Box3d.index outside", lambda r: [some_region(r).getBoundingBox3d(), big(r)], lambda x, i: x[i]),
    ("Box.parts", lambda r: [some_region(r).getBoundingBox()], lambda x: (x.getLon(), x.getLat(), x.clipTo(x), x.expandTo(x), x.getCenter())),
    ("Angle", lambda r: [sg.Angle(r.random())], lambda x: (repr(x), pickle.loads(pickle.dumps(x)), x + x, x * 2.0, x / x, -x, x == 1)),
    ("NormalizedAngle", lambda r: [sg.NormalizedAngle(r.random())], lambda x: (repr(x), pickle.loads(pickle.dumps(x)), x + x, x * 2.0, x / x, -x)),
    ("Angle inplace", lambda r: [sg.Angle(r.random()), sg.Angle(r.random())], lambda x, y: (operator.iadd(x, y), operator.isub(x, y), operator.imul(x, 2.0), operator.itruediv(x, 2.0))),
    ("implicit conversion", lambda r: [sg.NormalizedAngle(r.random()), sg.UnitVector3d(1, r.random(), 3)], lambda a, v: (sg.Angle(a), sg.Circle(v, a), sg.LonLat(v), sg.LonLat(a, a))),
    ("Chunker.all", lambda r: [sg.Chunker(5, 2)], lambda k: (k.getAllChunks(), k.getAllSubChunks(3), repr(k), pickle.loads(pickle.dumps(k)))),
    ("Chunker.subchunks", lambda r: [sg.Chunker(5, 2), some_region(r)], lambda k, x: (k.getSubChunksIntersecting(x), k.getChunksIntersecting(x))),
    ("Chunker.wrong", lambda r: [sg.Chunker(5, 2), object()], lambda k, x: k.getSubChunksIntersecting(x)),
    ("Chunker.bad", lambda r: [0, big(r)], sg.Chunker),
    *((f"{p.__name__}.{w}", lambda r, p=p: [p(3), some_region(r)], lambda p, x, w=w: (getattr(p, w)(x), getattr(p, w)(x, 4), getattr(p, w)(region=x, maxRanges=1)))
      for p in (sg.HtmPixelization, sg.Q3cPixelization, sg.Mq3cPixelization) for w in ("envelope", "interior")),
    *((f"{p.__name__}.pixel", lambda r, p=p: [p(3), p(3).index(some_region(r).getBoundingCircle().getCenter())], lambda p, i: (p.pixel(i), p.toString(i), p.universe(), repr(p), pickle.loads(pickle.dumps(p))))
      for p in (sg.HtmPixelization, sg.Q3cPixelization, sg.Mq3cPixelization)),
    *((f"{p.__name__}.pixel outside", lambda r, p=p: [p(3), big(r) << 10], lambda p, i: p.pixel(i)) for p in (sg.HtmPixelization, sg.Q3cPixelization, sg.Mq3cPixelization)),
    *((f"{p.__name__} bad level", lambda r: [99], p) for p in (sg.HtmPixelization, sg.Q3cPixelization, sg.Mq3cPixelization)),
    ("Healpix.envelope", lambda r: [sg.HealpixPixelization(2), sg.Circle(sg.UnitVector3d(1, r.random(), 1), sg.Angle(0.3))], lambda p, x: (p.envelope(x), p.interior(x))),
    ("Healpix.pixel", lambda r: [sg.HealpixPixelization(2)], lambda p: (p.pixel(3), p.universe(), repr(p), pickle.loads(pickle.dumps(p)))),
    ("Healpix.compound", lambda r: [sg.HealpixPixelization(2), sg.UnionRegion(some_region(r), some_region(r))], lambda p, x: p.envelope(x)),
    ("from_ivoa_pos", lambda r: [f"CIRCLE {r.random()} 2 3"], sg.Region.from_ivoa_pos),
    ("from_ivoa_pos polygon", lambda r: [f"POLYGON 1 {r.random()} 20 3 10 40"], lambda s: sg.Region.from_ivoa_pos(s).to_ivoa_pos()),
    ("from_ivoa_pos bad", lambda r: [f"CIRCLE {r.random()} x"], sg.Region.from_ivoa_pos),
    ("to_ivoa_pos", lambda r: [some_region(r)], lambda x: x.to_ivoa_pos()),
    ("Relationship", lambda r: [some_region(r)], lambda x: (repr(x.relate(x)), x.relate(x) & sg.CONTAINS, sg.invert(x.relate(x)))),
    ("functions", lambda r: [sg.UnitVector3d(1, r.random(), 3), sg.UnitVector3d(r.random(), 1, 3)], lambda a, b: (sg.orientation(a, b, a), sg.getWeightedCentroid(a, b, sg.UnitVector3d.Z()))),
    ("curves", lambda r: [r.randrange(2**31), r.randrange(2**31)], lambda a, b: (sg.mortonIndex(a, b), sg.mortonIndexInverse(a), sg.hilbertIndex(a, b, 31), sg.hilbertIndexInverse(a, 20), sg.log2(a))),
]


def counts(args):
    """The reference counts of arguments and of the items of their containers."""
    out = []
    for a in args:
        out.append((type(a).__name__, sys.getrefcount(a)))
        items = a if isinstance(a, (list, tuple)) else a.items if isinstance(a, Sequence) else ()
        for x in items:
            out.append((type(x).__name__, sys.getrefcount(x)))
            if isinstance(x, (list, tuple, Sequence)):
                for y in x if not isinstance(x, Sequence) else x.items:
                    out.append((type(y).__name__, sys.getrefcount(y)))
    return out


@section(len(PYTHON_OPS), "references_all")
def references(c):
    """Calls leave the reference counts of their arguments as they were, and keep no memory."""
    name, make, f = PYTHON_OPS[c.index]
    r = c.rng
    c.eval(name)
    # objects such as small integers and constants are counted elsewhere too: judge by repetition
    rounds = 5
    outcome = None

    def call(args):
        nonlocal outcome
        try:
            f(*args)
            outcome = "returns"
        except Exception as e:
            outcome = type(e).__name__

    for _ in range(3):
        call(make(r))
    gc.collect()
    args = make(r)
    before = counts(args)
    for _ in range(rounds):
        call(args)
    gc.collect()
    after = counts(args)
    off = [(x, n, m) for (x, n), (_, m) in zip(before, after) if abs(m - n) >= rounds and n < 2**28]
    c.check(not off, f"references:{name}", lambda: f"{rounds} calls of {name} change the reference counts of {off}")
    c.count(f"calls that {'return' if outcome == 'returns' else 'raise'}")
    c.count("reference counts compared", len(before))
    if allocated is None:
        return
    state = r.getstate()
    growths = []
    n = 60
    for _ in range(30):
        settle()
        start = allocated()
        for _ in range(n):
            r.setstate(state)
            call(make(r))
        settle()
        growths.append(allocated() - start)
        if growths[-1] < 8 * n:
            break
    else:
        c.fail(f"leak:{name}", f"repeating {name} {n} times allocates {growths} bytes")
    c.sample(lambda: f"{name} {outcome}; repeating it {n} times allocates {growths[-1]} bytes")


# --------------------------------------------------------------- programs

SKIP = {"__new__", "__class__", "__init_subclass__", "__subclasshook__", "__setattr__", "__delattr__", "__getattribute__", "__dict__", "__doc__", "__module__", "__abstractmethods__",
        "__setstate__", "__del__", "_abc_impl", "__reduce__", "__reduce_ex__", "__weakref__", "__annotations__", "__init__"}
TYPES = [getattr(sg, n) for n in dir(sg) if isinstance(getattr(sg, n), type)]
FUNCTIONS = [getattr(sg, n) for n in dir(sg) if callable(getattr(sg, n)) and not isinstance(getattr(sg, n), type) and not n.startswith("_")]


def admissible(o, depth=0):
    """Whether work on an object stays small."""
    if isinstance(o, (sg.HtmPixelization, sg.Q3cPixelization, sg.Mq3cPixelization, sg.HealpixPixelization)):
        return o.getLevel() <= 3
    if isinstance(o, sg.Chunker):
        return o.numStripes * o.numSubStripesPerStripe <= 60
    if isinstance(o, sg.CompoundRegion):
        return len(o.encode()) < 1500
    if isinstance(o, sg.RangeSet):
        return len(o) < 2000
    if isinstance(o, (str, bytes)):
        return len(o) < 5000
    if isinstance(o, (list, tuple)):
        return len(o) < 200 and depth < 3 and all(admissible(x, depth + 1) for x in o)
    return isinstance(o, (*TYPES, int, float, np.ndarray)) and not isinstance(o, type)


@section(1500)
def programs(c):
    """Random programs over a pool of objects."""
    r = c.rng
    pool = []
    history = []

    def any_object():
        while True:
            op = r.choice(MAKES)
            o = build(op.args[0], Reader(ask(op, r.getrandbits(64))).value(op.args[0]))
            if admissible(o):
                return o

    def pick():
        if pool and r.random() < 0.85:
            return r.choice(pool)[0]
        return hostile(r) if r.random() < 0.5 else any_object()

    for step in range(120):
        if len(pool) < 5 or r.random() < 0.1:
            o = any_object()
            pool.append([o, snapshot(o)])
            continue
        k = r.random()
        if k < 0.08:
            del pool[r.randrange(len(pool))]
            continue
        if k < 0.1:
            gc.collect()
            continue
        if k < 0.2:
            target = r.choice(TYPES + FUNCTIONS)
            name = "()"
            f = target
            if target.__name__ == "pybind11_object":
                continue
        else:
            target = r.choice(pool)[0] if r.random() < 0.9 else r.choice(TYPES)
            if not isinstance(target, (type, *TYPES)):
                continue
            names = [n for n in dir(target) if n not in SKIP]
            name = r.choice(names)
            ok, f = harmless(c, "attribute", lambda: f"{short(target)}.{name}", lambda: getattr(target, name))
            if not ok:
                continue
        args = [pick() for _ in range(r.choice((0, 0, 1, 1, 1, 2, 2, 3, 4)))]
        if isinstance(target, type) and issubclass(target, (sg.HtmPixelization, sg.Q3cPixelization, sg.Mq3cPixelization, sg.HealpixPixelization)) and r.random() < 0.7:
            args = [r.randrange(4)]
        what = lambda: f"{short(target)}.{name}({', '.join(map(short, args))})"  # noqa: E731
        if outside(getattr(f, "__name__", ""), args) or (isinstance(target, type) and args and args[0] is None and name != "()"):
            continue
        if callable(f):
            if isinstance(target, (type, *TYPES)) and name in ("mro", "__subclasses__", "__call__", "register", "__prepare__", "__instancecheck__", "__subclasscheck__", "__sizeof__", "__dir__"):
                continue
            ok, got = harmless(c, f"program:{name}", what, lambda: f(*args))
        else:
            ok, got = True, f
        c.count("steps that returned" if ok else "steps that raised")
        history.append(name)
        # only the receiver of a call may have changed
        owner = target if not isinstance(target, type) else args[0] if args else None
        evil = any(isinstance(a, Evil) for a in args)
        for entry in pool:
            if entry[0] is owner or evil:
                entry[1] = snapshot(entry[0])
        if step % 8 == 0:
            churn(r)
            for entry in pool:
                now = snapshot(entry[0])
                c.check(now == entry[1], "changed", lambda: f"{entry[1]!r} became {now!r} after {what()}; history {history}")
                entry[1] = now
        if ok and got is not None and admissible(got) and not any(got is e[0] for e in pool):
            pool.append([got, snapshot(got)])
            if len(pool) > 25:
                del pool[r.randrange(len(pool))]
    c.eval(" ".join(history))
    r.shuffle(pool)
    while pool:
        o = pool.pop()
        c.check(snapshot(o[0]) == o[1] or isinstance(o[0], list), "changed-late", lambda: f"{o[1]!r} became {snapshot(o[0])!r}")


# ---------------------------------------------- construction and serialisation

@section(6000)
def states(c):
    """Hostile states, reductions and copies."""
    r = c.rng
    op = MAKES[c.index % len(MAKES)]
    o = build(op.args[0], Reader(ask(op, r.getrandbits(64))).value(op.args[0]))
    cls = type(o)
    c.eval(cls.__name__ + str(c.index))
    for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
        data = pickle.dumps(o, protocol)
        # truncated or damaged pickles of the state
        reduced = o.__reduce_ex__(protocol)
        c.check(isinstance(reduced, tuple) and len(reduced) >= 2, "reduce", lambda: repr(reduced))
    if hasattr(cls, "__setstate__"):
        p = cls.__new__(cls)
        bad = hostile(r) if r.random() < 0.5 else tuple(hostile(r) for _ in range(r.randrange(4)))
        ok, e = harmless(c, "setstate", lambda: f"{cls.__name__}.__setstate__({short(bad)})", lambda: p.__setstate__(bad))
        if ok:
            snapshot(p)
        del p
        # a second state is ignored or replaces the first, and must not leave a dangling object
        state = reduced[2] if len(reduced) > 2 else None
        if state is not None:
            p = pickle.loads(data)
            harmless(c, "setstate", lambda: "__setstate__ on an existing object", lambda: p.__setstate__(state))
            snapshot(p)
    # a second initialisation
    q = copy.copy(o)
    args = [hostile(r) for _ in range(r.randrange(3))]
    harmless(c, "reinit", lambda: f"{cls.__name__}.__init__", lambda: q.__init__(*args))
    c.check(snapshot(q) == snapshot(o), "reinit", lambda: f"initialising {o!r} again with {args!r} makes it {q!r}")

    class Derived(cls):
        pass

    class Forgetful(cls):
        def __init__(self):
            pass

    harmless(c, "derived", lambda: f"a class derived from {cls.__name__}", lambda: Derived(*args))
    ok, e = harmless(c, "forgetful", lambda: "a class that does not initialise its base", Forgetful)
    if not isinstance(o, sg.HealpixPixelization):
        c.check(not ok and isinstance(e, TypeError), "forgetful", lambda: repr(e))
    d = None
    if cls in (sg.Circle, sg.Box, sg.RangeSet, sg.Vector3d, sg.Angle, sg.Interval1d, sg.LonLat):
        d = Derived()
        d.extra = [d]
        w = weakref.ref(d)
        snapshot(d)
        harmless(c, "derived", lambda: "copying", lambda: copy.copy(d))
        del d
        gc.collect()
        c.check(w() is None, "cycle", "a derived object in a reference cycle is not collected")


UNGUARDED = dict(
    none_receiver="sg.Circle.complemented(None)",
    uninitialised="sg.RangeSet.__new__(sg.RangeSet).ranges()",
)


@section(len(UNGUARDED), "unguarded_all")
def unguarded(c):
    """Calls that pybind11 does not guard against, each in a process of its own."""
    key = list(UNGUARDED)[c.index]
    c.eval(key)
    env = {k: v for k, v in os.environ.items()}
    p = subprocess.run([sys.executable, "-c", f"import lsst.sphgeom as sg\ntry:\n    {UNGUARDED[key]}\nexcept Exception:\n    pass"], env=env, capture_output=True, text=True)
    c.check(p.returncode == 0, key, lambda: f"{UNGUARDED[key]} ends the interpreter with status {p.returncode}: {p.stderr[:300]}")


@section(400)
def threads(c):
    """Threads sharing objects."""
    r = c.rng
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        shared = []
        while len(shared) < 6:
            op = r.choice([m for m in MAKES if m.args[0] in "CEBPS"])
            o = build(op.args[0], Reader(ask(op, r.getrandbits(64))).value(op.args[0]))
            if admissible(o):
                shared.append(o)
        regions = [o for o in shared if isinstance(o, sg.Region)]
        h = sg.HtmPixelization(2)
        points = [sg.UnitVector3d(*random_unit(r)) for _ in range(20)]

        def work():
            out = []
            for p in points:
                for o in regions:
                    out.append(o.contains(p))
                    out.append(snapshot(o.getBoundingCircle()))
            for o in regions:
                try:
                    out.append(h.envelope(o).ranges())
                except ACCEPTABLE as e:
                    out.append(str(e))
                out.append([x.encode() for x in sg.Region.getRegions(sg.UnionRegion(o, o))])
            for o in shared:
                if isinstance(o, sg.RangeSet):
                    out.append((~o).ranges())
                    out.append((o | sg.RangeSet(1, 5)).ranges())
            return out

        want = work()
        results = [None] * 4

        def run(i):
            results[i] = work()

        ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        c.eval(c.index)
        c.check(all(x == want for x in results), "threads", lambda: f"threads sharing {shared!r} disagree")
    finally:
        sys.setswitchinterval(old)


assert norm
sys.exit(main())
