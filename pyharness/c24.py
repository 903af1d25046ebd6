"""C24: the Python bindings against the C++ library.

The helper (harness/c24.cc) generates arguments, performs the operation in C++
and reports arguments and outcome; the same call is then made from Python.
"""

import copy
import math
import pickle
import struct
import sys

import numpy as np
import yaml

import lsst.sphgeom as sg
from ops import CALLS, EXCEPTIONS, MAKES, POINTS, REGIONS, D, Mismatch, Reader, ask, build, canon, expected, invoke, norm, show, substitute, undouble
from vh import main, section


def repeat(c, op):
    reply = ask(op, c.rng.getrandbits(64))
    rd = Reader(reply)
    values = [rd.value(a) for a in op.args]
    what = f"{op.name}({', '.join(show(a, v) for a, v in zip(op.args, values))})"
    status = chr(rd.b[rd.at])
    rd.at += 1
    want = rd.value(op.ret) if status == "v" and op.ret != "=" else None
    message = rd.bytes().decode() if status != "v" else None
    after = rd.value(op.args[0]) if op.mutates else None
    args = [build(a, v) for a, v in zip(op.args, values)]
    for a, v, x in zip(op.args, values, args):
        try:
            got = norm(a, x) if a not in "ijuyrbsXd" and a[0] != "[" else None
        except Mismatch as e:
            c.fail(f"argument:{a}", f"building {show(a, v)} gave {e}")
            return
        if got is not None and got != expected(a, v):
            c.fail(f"argument:{a}", f"building {show(a, v)} gave {show(a, got)}")
            return
    passed = [substitute(c.rng, op, i, x) if c.rng.random() < 0.3 else x for i, x in enumerate(args)]
    c.eval(op.name + repr(values))
    c.count("calls that returned" if status == "v" else "calls that raised")
    c.sample(lambda: f"{what} -> {status} {show(op.ret, want) if want is not None else message}")
    try:
        got = invoke(c.rng, op, passed)
    except Exception as e:  # noqa: BLE001
        if status == "v":
            c.fail(f"raises:{op.name}", f"{what} raised {type(e).__name__}: {e}; C++ gives {show(op.ret, want)}")
        elif type(e) is not EXCEPTIONS[status] or str(e) != message:
            c.fail(f"exception:{op.name}", f"{what} raised {type(e).__name__}: {e}, expected {EXCEPTIONS[status].__name__}: {message}")
    else:
        if status != "v":
            c.fail(f"no-exception:{op.name}", f"{what} returned {got!r}, expected {EXCEPTIONS[status].__name__}: {message}")
        elif op.ret == "=":
            c.check(got is passed[0], f"in-place:{op.name}", lambda: f"{what} does not return its receiver")
        else:
            try:
                ok = norm(op.ret, got) == expected(op.ret, want)
                shown = show(op.ret, norm(op.ret, got))
            except Mismatch as e:
                ok, shown = False, str(e)
            c.check(ok, f"result:{op.name}", lambda: f"{what} gives {shown}, C++ gives {show(op.ret, want)}")
            if op.name.endswith(("clone", "()", "cloneOperand")):
                c.check(all(got is not x for x in passed), f"alias:{op.name}", lambda: f"{what} returns its argument")
    for i, (a, v, x) in enumerate(zip(op.args, values, passed)):
        if a[0] == "[" or a in "ijuyrbsXd" or type(x) is not type(args[i]):
            continue
        w = after if op.mutates and i == 0 else v
        got = norm(a, x)
        c.check(got == expected(a, w), f"state:{op.name}", lambda: f"{what} leaves argument {i} as {show(a, got)} instead of {show(a, w)}")


@section(60000)
def calls(c):
    repeat(c, CALLS[c.index % len(CALLS)])


# --------------------------------------------------- serialisation and text

LOADERS = [yaml.Loader, yaml.FullLoader, yaml.SafeLoader, yaml.UnsafeLoader] + ([yaml.CLoader] if hasattr(yaml, "CLoader") else [])
NAMESPACE = {**{k: getattr(sg, k) for k in dir(sg)}, "nan": math.nan, "inf": math.inf}


def close(a, b, tol):
    return (a != a and b != b) or a == b or abs(a - b) <= tol


def close_vectors(a, b, tol=1e-15):
    return all(close(a[i], b[i], tol) for i in range(3))


def equal_to_rounding(a, b):
    """Whether two objects whose text forms round are equal but for that."""
    if type(a) is not type(b):
        return False
    if isinstance(a, sg.UnitVector3d):
        return close_vectors(a, b)
    if isinstance(a, sg.Circle):
        return a.isEmpty() == b.isEmpty() and a.isFull() == b.isFull() and (a.isEmpty() or (
            close_vectors(a.getCenter(), b.getCenter()) and close(a.getOpeningAngle().asRadians(), b.getOpeningAngle().asRadians(), 0)
            and close(a.getSquaredChordLength(), b.getSquaredChordLength(), 4e-15)))
    if isinstance(a, sg.Ellipse):
        if a.isEmpty() or a.isFull():
            return a.isEmpty() == b.isEmpty() and a.isFull() == b.isFull()
        d = [math.sqrt(x.dot(x)) for x in (a.getF1() - a.getF2(), a.getF1() + a.getF2())]
        small, large = a.getBeta().asRadians(), a.getAlpha().asRadians()
        if min(small, large, math.pi - small, math.pi - large) < 1e-5 or abs(small - math.pi / 2) < 1e-5 or d[1] < 1e-5:
            # the foci, which the constructor normalises, decide whether it is degenerate
            return True
        return close(a.getAlpha().asRadians(), b.getAlpha().asRadians(), 1e-15) and close_vectors(a.getF1(), b.getF1(), 1e-7) and close_vectors(a.getF2(), b.getF2(), 1e-7)
    if isinstance(a, sg.Box):
        return canon(a.encode()) == canon(b.encode())
    if isinstance(a, sg.ConvexPolygon):
        v, w = a.getVertices(), b.getVertices()
        return len(v) == len(w) and any(all(close_vectors(v[i], w[(i + k) % len(w)]) for i in range(len(v))) for k in range(len(v)))
    if isinstance(a, sg.CompoundRegion):
        return all(equal_to_rounding(a.cloneOperand(i), b.cloneOperand(i)) for i in (0, 1))
    return None


def exact_text(code, o):
    """Whether repr() gives all of the object's state."""
    return code in "ANLVMIJKBSHQmk3" or (code in "UT" and all(type(o.cloneOperand(i)) is sg.Box for i in (0, 1)))


def sliver(o):
    """Whether rounding may change the vertices of a polygon."""
    if isinstance(o, sg.CompoundRegion):
        return sliver(o.cloneOperand(0)) or sliver(o.cloneOperand(1))
    if not isinstance(o, sg.ConvexPolygon):
        return False
    v = [np.array([x.x(), x.y(), x.z()]) for x in o.getVertices()]
    n = len(v)
    return any(abs(np.dot(np.cross(v[i], v[(i + 1) % n]), v[j])) < 1e-10 for i in range(n) for j in range(n) if j not in (i, (i + 1) % n))


FOREIGN = (None, "x", object(), [], {}, b"ab", sg.RangeSet(3, 7), sg.Chunker(5, 2), sg.HtmPixelization(3), sg.Mq3cPixelization(3), sg.Q3cPixelization(3),
           sg.HealpixPixelization(3), sg.Circle(sg.UnitVector3d.Z(), sg.Angle(1)), sg.Matrix3d(1.0))


def foreign(c, o):
    """An object never equals one of an unrelated type, and asking is not an error."""
    for x in c.rng.sample(FOREIGN, 4):
        if type(x) is type(o):
            continue
        try:
            got = (bool(o == x), bool(x == o), bool(o != x), bool(x != o), o in [x])
        except Exception as e:
            got = e
        c.check(got == (False, False, True, True, False), f"foreign-equality:{type(o).__name__}", lambda: f"comparing {o!r} and {x!r} for equality gives {got!r}")


@section(12000)
def serialise(c):
    op = MAKES[c.index % len(MAKES)]
    code = op.args[0]
    reply = ask(op, c.rng.getrandbits(64))
    v = Reader(reply).value(code)
    o = build(code, v)
    v = norm(code, o)
    what = show(code, v)
    c.eval(code + repr(v))
    c.sample(lambda: f"{what} as {o!r}")

    def same(key, p):
        try:
            ok = norm(code, p) == v
            shown = show(code, norm(code, p))
        except Mismatch as e:
            ok, shown = False, str(e)
        c.check(ok, f"{key}:{type(o).__name__}", lambda: f"{key} of {what} gives {shown}")
        c.check(p is not o, f"{key}-alias:{type(o).__name__}", lambda: f"{key} of {what} gives the same object")
        if "nan" not in repr(o) and code not in "UT":
            c.check((p == o) is True and (p != o) is False, f"{key}-equality:{type(o).__name__}", lambda: f"{key} of {what} does not compare equal: {p!r}")

    foreign(c, o)
    for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
        same("pickle", pickle.loads(pickle.dumps(o, protocol)))
    same("copy", copy.copy(o))
    same("deepcopy", copy.deepcopy(o))
    nested = pickle.loads(pickle.dumps({"a": [o, o], "b": (o,)}))
    same("nested-pickle", nested["a"][0])
    c.check(nested["a"][0] is nested["b"][0], "pickle-identity", lambda: f"pickling a structure that refers to {what} thrice gives distinct objects")
    if type(o) is sg.UnitVector3d:
        # A state of another shape is not read in part.
        size = c.rng.choice([0, 1, 2, 4, 5, 9])
        state = tuple(o[i % 3] for i in range(size))
        blank = sg.UnitVector3d.__new__(sg.UnitVector3d)
        try:
            blank.__setstate__(state)
        except Exception:  # noqa: BLE001
            c.count("malformed states refused")
        else:
            c.fail("malformed-state", f"UnitVector3d.__setstate__({state!r}) is accepted")
    if code in REGIONS:
        same("encode", sg.Region.decode(o.encode()))
        same("encode-own", type(o).decode(o.encode()))
        c.check(list(o.encode()) == list(canon(o.encode())) or "nan" in repr(o), "encode-bytes", what)
    if code in REGIONS or code in "HQm":
        text = yaml.dump(o)
        for loader in LOADERS:
            same(f"yaml-{loader.__name__}", yaml.load(text, Loader=loader))
        same("yaml-nested", yaml.safe_load(yaml.dump([{"x": o}]))[0]["x"])
    text = repr(o)
    try:
        p = eval(text, dict(NAMESPACE))
    except Exception as e:  # noqa: BLE001
        if isinstance(e, ValueError) and sliver(o):
            c.count("slivers whose text is rejected")
            return
        c.fail(f"repr-raises:{type(o).__name__}", f"evaluating {text} raises {type(e).__name__}: {e}")
        return
    if code in "JK" and b"nan" in v:
        c.check(p.isEmpty(), "repr-empty", lambda: f"evaluating {text} gives {p!r}")
    elif exact_text(code, o):
        same("repr", p)
    elif not sliver(o):
        c.check(equal_to_rounding(o, p), f"repr:{type(o).__name__}", lambda: f"evaluating {text}, the text of {what}, gives {show(code, norm(code, p))}")
    c.check(isinstance(str(o), str) and len(str(o)) > 0, "str", what)
    if code in "AN":
        c.check(str(o) == str(o.asRadians()), "str", what)
    elif code in "VW":
        c.check(str(o) == f"[{o.x()}, {o.y()}, {o.z()}]", "str", what)
    elif code in "IJK":
        c.check(str(o) == f"[{o.getA()}, {o.getB()}]", "str", what)


@section(1500)
def healpix(c):
    level = c.rng.randrange(18)
    o = sg.HealpixPixelization(level)
    c.eval(level)
    for p in (pickle.loads(pickle.dumps(o)), copy.copy(o), copy.deepcopy(o), eval(repr(o), dict(NAMESPACE)), yaml.safe_load(yaml.dump(o)), yaml.load(yaml.dump(o), Loader=yaml.FullLoader)):
        c.check(type(p) is type(o) and p == o and not p != o and p.getLevel() == level == p.level and p.nside == 2**level, "healpix", lambda: f"a copy of {o!r} is {p!r}")
    q = sg.HealpixPixelization((level + 1) % 18)
    foreign(c, o)
    c.check(o != q and not o == q, "healpix-equality", lambda: f"{o!r} and {q!r} compare equal")
    c.check(o.universe().ranges() == [(0, 12 * 4**level)], "healpix-universe", lambda: f"the universe of {o!r} is {o.universe()!r}")


# -------------------------------------------------------------- vectorised

def arrange(r, a):
    """The array `a` in another memory layout or type."""
    k = r.randrange(7)
    if k == 0:
        return a.tolist()
    if k == 1:
        b = np.zeros(a.shape + (2,))
        b[..., 0] = a
        return b[..., 0]
    if k == 2:
        return np.asfortranarray(a)
    if k == 3:
        return a[::-1].copy()[::-1]
    if k == 4:
        b = a.copy()
        b.setflags(write=False)
        return b
    if k == 5:
        return a.astype(np.longdouble)
    return a


@section(6000)
def vectorized(c):
    op = POINTS[c.index % len(POINTS)]
    r = c.rng
    rd = Reader(ask(op, r.getrandbits(64)))
    values = [rd.value(a) for a in op.args]
    status = chr(rd.b[rd.at])
    rd.at += 1
    region = build(op.args[0], values[0])
    cls = type(region)
    if status != "v":
        x, y, z = (np.array([undouble(v[i]) for v in values[1:5]] + [undouble(values[5 + i])]) for i in range(3))
        c.raises(EXCEPTIONS[status], "bad-point", "contains of an array with the origin", lambda: region.contains(x, y, z))
        return
    mask = rd.value("j")
    points = [tuple(undouble(x) for x in v) for v in values[1:5]] + [tuple(undouble(v) for v in values[5:8])]
    want = [bool(mask >> i & 1) for i in range(5)]
    what = show(op.args[0], values[0])
    c.eval(repr(values))
    xyz = np.array(points).T

    def compare(key, got, want, shape, args):
        ok = isinstance(got, np.ndarray) and got.dtype == bool and got.shape == shape and np.array_equal(got.ravel(), np.array(want, dtype=bool).ravel())
        c.check(ok, f"{key}:{cls.__name__}", lambda: f"{what}.contains({args!r}) gives {got!r} instead of {want!r}")

    f = region.contains if r.random() < 0.7 or cls is sg.Box3d else lambda *a: sg.Region.contains(region, *a)
    for p, w in zip(points, want):
        got = f(*p)
        c.check(got is w or (type(got) is np.bool_ and bool(got) == w), f"scalar:{cls.__name__}", lambda: f"{what}.contains{p!r} gives {got!r} instead of {w}")
    args = [arrange(r, a) for a in xyz]
    compare("vector", f(*args), want, (5,), args)
    order = [r.randrange(5) for _ in range(12)]
    shape = r.choice([(12,), (3, 4), (2, 3, 2), (1, 12), (12, 1)])
    args = [arrange(r, a[order].reshape(shape)) for a in xyz]
    compare("matrix", f(*args), [want[i] for i in order], shape, args)
    compare("keywords", region.contains(z=xyz[2], x=xyz[0], y=xyz[1]), want, (5,), xyz)
    # broadcasting against scalars and other shapes: every combination of components
    i, j, k = (r.randrange(5) for _ in range(3))
    x, y, z = xyz
    args = r.choice([(x, float(y[j]), float(z[k])), (float(x[i]), y, float(z[k])), (float(x[i]), float(y[j]), z), (x[:, None], y, float(z[k])),
                     (x[:, None, None], y[:, None], z), (x, y[:1], z), (x[:, None], float(y[j]), z[None, :])])
    b = np.broadcast(*args)
    try:
        want2 = [bool(f(float(p), float(q), float(s))) for p, q, s in b]
    except RuntimeError:
        # one of the points is the origin
        c.raises(RuntimeError, "bad-point", "an array with the origin", lambda: f(*args))
    else:
        compare("broadcast", f(*args), want2, b.shape, args)
    compare("empty", f(x[:0], y[:0], z[:0]), [], (0,), ())
    compare("integers", f(np.array([1, 0, 0, -1]), np.array([0, 1, 0, 0]), np.array([0, 0, 1, 0])),
            [bool(f(1.0, 0.0, 0.0)), bool(f(0.0, 1.0, 0.0)), bool(f(0.0, 0.0, 1.0)), bool(f(-1.0, 0.0, 0.0))], (4,), "axes")
    c.raises((ValueError, RuntimeError), "bad-shapes", "arrays that cannot be broadcast", lambda: f(x, y[:3], z))
    if cls is sg.Box3d:
        return
    lon = np.array([math.atan2(p[1], p[0]) if r.random() < 0.5 else math.atan2(p[1], p[0]) % (2 * math.pi) for p in points[:4]])
    lat = np.array([math.asin(max(-1.0, min(1.0, p[2]))) for p in points[:4]])
    want = [bool(f(float(a), float(b))) for a, b in zip(lon, lat)]
    compare("lonlat", f(arrange(r, lon), arrange(r, lat)), want, (4,), (lon, lat))
    compare("lonlat-keywords", region.contains(lat=lat, lon=lon), want, (4,), (lon, lat))
    compare("lonlat-broadcast", f(lon[:, None], lat[None, :]), [bool(f(float(a), float(b))) for a in lon for b in lat], (4, 4), (lon, lat))
    compare("lonlat-broadcast", f(lon, float(lat[0])), [bool(f(float(a), float(lat[0]))) for a in lon], (4,), (lon, lat))
    bad = lat.copy()
    bad[r.randrange(4)] = r.choice((2.0, -1.6, 90.0))
    c.raises(ValueError, "bad-latitude", f"{what}.contains of a latitude beyond the poles", lambda: f(lon, bad))


# ------------------------------------------------------------------ sequences

def index_checks(c, o, items, key, same):
    n = len(items)
    what = repr(o)
    c.check(len(o) == n, key, lambda: f"len({what}) is {len(o)} instead of {n}")
    for i in range(-n, n):
        got = o[i]
        c.check(same(got, items[i]), key, lambda: f"{what}[{i}] is {got!r} instead of {items[i]!r}")
    for i in (n, -n - 1, n + 1, -n - 2, 2**31, -(2**31) - 1, 2**32, 2**63 - 1, -(2**63), 2**63, 2**64, 2**64 + 1, -(2**64), 10**30, n + c.rng.getrandbits(20)):
        c.raises(IndexError, key + "-range", f"{what}[{i}]", lambda i=i: o[i])
    for i in ("x", None, 1.5, [0]):
        c.raises(TypeError, key + "-type", f"{what}[{i!r}]", lambda i=i: o[i])
    got = list(o)
    c.check(len(got) == n and all(same(a, b) for a, b in zip(got, items)), key + "-iteration", lambda: f"list({what}) is {got!r}")
    got = list(reversed(got))
    c.check(all(same(a, b) for a, b in zip(got, items[::-1])), key + "-reversed", lambda: f"reversed({what}) is {got!r}")


@section(3500)
def sequences(c):
    op = [m for m in MAKES if m.args[0] in "LVWM3SUT"][c.index % 8]
    code = op.args[0]
    v = Reader(ask(op, c.rng.getrandbits(64))).value(code)
    o = build(code, v)
    c.eval(code + repr(v))

    def same_float(a, b):
        return type(a) is float and D(a) == D(b)

    if code in "VW":
        index_checks(c, o, [undouble(x) for x in v], "vector-index", same_float)
        x, y, z = o
        c.check(all(map(same_float, (x, y, z), [undouble(x) for x in v])), "unpacking", lambda: repr(o))
    elif code == "L":
        items = [build("N", v[:1]), build("A", v[1:])]
        same = lambda a, b: type(a) is type(b) and D(a.asRadians()) == D(b.asRadians())  # noqa: E731
        index_checks(c, o, items, "lonlat-index", same)
        lon, lat = o
        c.check(same(lon, items[0]) and same(lat, items[1]), "unpacking", lambda: repr(o))
    elif code == "3":
        items = [build("I", v[i : i + 2]) for i in (0, 2, 4)]
        index_checks(c, o, items, "box3d-index", lambda a, b: norm("I", a) == norm("I", b))
    elif code == "S":
        index_checks(c, o, list(v), "rangeset-index", lambda a, b: type(a) is tuple and a == b)
        c.check(o.ranges() == list(v) and str(o) == str(list(v)) and repr(o) == f"RangeSet({list(v)})", "rangeset-text", lambda: repr(o))
    elif code == "M":
        f = [undouble(x) for x in v]
        rows = [build("V", v[i : i + 3]) for i in (0, 3, 6)]
        index_checks(c, o, rows, "matrix-index", lambda a, b: norm("V", a) == norm("V", b))
        for i in range(-3, 3):
            c.check(norm("V", o.getRow(i)) == v[3 * (i % 3) : 3 * (i % 3) + 3], "matrix-row", lambda: f"row {i} of {o!r} is {o.getRow(i)!r}")
            c.check(norm("V", o.getColumn(i)) == v[i % 3 :: 3], "matrix-column", lambda: f"column {i} of {o!r} is {o.getColumn(i)!r}")
            c.check(norm("V", o[(i,)]) == v[3 * (i % 3) : 3 * (i % 3) + 3], "matrix-row", lambda: f"[({i},)] of {o!r}")
            for j in range(-3, 3):
                c.check(same_float(o[i, j], f[3 * (i % 3) + j % 3]), "matrix-element", lambda: f"[{i}, {j}] of {o!r} is {o[i, j]!r}")
        c.check(norm("M", o[()]) == v, "matrix-element", lambda: f"[()] of {o!r} is {o[()]!r}")
        for k in ((3, 0), (0, 3), (-4, 0), (0, -4), (0, 0, 0), (2**70, 0), (0, -(2**70)), (3,)):
            c.raises(IndexError, "matrix-range", f"Matrix3d{k}", lambda k=k: o[k])
        for k in (3, -4, 2**65):
            c.raises(IndexError, "matrix-range", f"getRow({k})", lambda k=k: o.getRow(k))
            c.raises(IndexError, "matrix-range", f"getColumn({k})", lambda k=k: o.getColumn(k))
    else:
        b = [o.cloneOperand(i).encode() for i in (0, 1)]
        for i in (-2, -1):
            c.check(o.cloneOperand(i).encode() == b[i], "operand", lambda: f"cloneOperand({i}) of {o!r}")
        for i in (2, -3, 100, -(2**40)):
            c.raises(IndexError, "operand-range", f"cloneOperand({i})", lambda i=i: o.cloneOperand(i))
        c.check(o.encode() == (o.encode()[:1] + struct.pack("<Q", len(b[0])) + b[0] + struct.pack("<Q", len(b[1])) + b[1]), "operand-order",
                lambda: f"cloneOperand gives {b} for {o!r}")
        regions = sg.Region.getRegions(o)
        c.check(type(regions) is list and all(isinstance(x, sg.Region) for x in regions), "getRegions", lambda: repr(regions))


@section(5000)
def iterables(c):
    """RangeSets made from iterables."""
    r = c.rng
    big = r.random() < 0.3
    vals = []
    for _ in range(r.randrange(8)):
        v = lambda: r.choice((r.randrange(40), 2**64 - 1 - r.randrange(10), 2**63 + r.randrange(-3, 3), r.getrandbits(64))) if big else r.randrange(60)  # noqa: E731
        vals.append(v() if r.random() < 0.5 else (v(), v()))
    want = sg.RangeSet()
    for x in vals:
        want.insert(*x) if isinstance(x, tuple) else want.insert(x)
    c.eval(repr(vals))
    form = r.randrange(6)
    if form == 0:
        it = vals
    elif form == 1:
        it = tuple(list(x) if isinstance(x, tuple) else x for x in vals)
    elif form == 2:
        it = (x for x in vals)
    elif form == 3:
        it = iter([np.array(x, dtype=np.uint64) if isinstance(x, tuple) else np.uint64(x) for x in vals])
    elif form == 4:
        it = {x: 1 for x in vals}
    else:
        ints = [x for x in vals if isinstance(x, int)]
        want = sg.RangeSet()
        for x in ints:
            want.insert(x)
        it = np.array(ints, dtype=np.uint64)
    got = sg.RangeSet(iterable=it) if r.random() < 0.3 else sg.RangeSet(it)
    c.check(got == want and got.ranges() == want.ranges() and got.isValid(), "iterable", lambda: f"RangeSet of {vals} (form {form}) is {got!r} instead of {want!r}")
    got = sg.RangeSet(want.ranges())
    c.check(got == want, "iterable-ranges", lambda: f"RangeSet({want.ranges()}) is {got!r}")
    bad = list(vals)
    bad.insert(r.randrange(len(bad) + 1), r.choice((-1, 2**64, 1.5, "ab", (0, -1), (2**64, 1), None, (1, 2, 3), (1,), "x", (1, None), ("a", 1))))
    c.raises((ValueError, TypeError), "bad-iterable", f"RangeSet({bad})", lambda: sg.RangeSet(bad))
    for x in (1.5, None, object()):
        c.raises(TypeError, "bad-iterable", f"RangeSet({x!r})", lambda x=x: sg.RangeSet(x))
    n = r.randrange(100)
    got = sg.RangeSet(range(n))
    c.check(got.ranges() == ([(0, n)] if n else []), "iterable-range", lambda: f"RangeSet(range({n})) is {got!r}")
    for x in (-1, 2**64, -(2**70)):
        c.raises((TypeError, ValueError), "bad-integer", f"insert({x})", lambda x=x: want.insert(x))
        c.raises((TypeError, ValueError), "bad-integer", f"contains({x})", lambda x=x: want.contains(x))
    # histories of in-place operations keep the identity of the receiver
    s = sg.RangeSet(want)
    t = sg.RangeSet(r.randrange(60), 60 + r.randrange(60))
    for _ in range(6):
        k = r.randrange(6)
        before = s
        plain = (s | t, s & t, s - t, s ^ t, s.simplified(2), ~s)[k]
        if k == 0:
            s |= t
        elif k == 1:
            s &= t
        elif k == 2:
            s -= t
        elif k == 3:
            s ^= t
        elif k == 4:
            c.check(s.simplify(2) is s, "in-place", lambda: "simplify does not return its receiver")
        else:
            c.check(s.complement() is s, "in-place", lambda: "complement does not return its receiver")
        c.check(s is before, "in-place", lambda: f"operation {k} makes a new object")
        c.check(s == plain and not s != plain, "in-place-value", lambda: f"operation {k} gives {s!r} instead of {plain!r}")


sys.exit(main())
