"""The wrapped operations, with arguments and outcomes from the C++ helper (harness/c24.cc)."""

import math
import operator
import os
import struct
import subprocess

import numpy as np

import lsst.sphgeom as sg

HELPER = os.environ["VH_AUX_C24"]
ENV = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}


class Op:
    def __init__(self, i, line):
        self.i = i
        self.name, self.ret, args, kind, kw = line.split()
        self.args = [] if args == "-" else split(args)
        self.mutates = kind == "!"
        self.kw = [] if kw == "-" else kw.split(",")


def split(codes):
    out, i = [], 0
    while i < len(codes):
        j = i
        while codes[j] == "[":
            j += 1
        out.append(codes[i : j + 1])
        i = j + 1
    return out


OPS = [Op(i, s) for i, s in enumerate(subprocess.run([HELPER, "--sigs"], capture_output=True, text=True, check=True, env=ENV).stdout.splitlines())]
CALLS = [o for o in OPS if o.name not in ("make", "points")]
MAKES = [o for o in OPS if o.name == "make"]
POINTS = [o for o in OPS if o.name == "points"]
OVERLOADS = {}
for o in OPS:
    OVERLOADS.setdefault(o.name, []).append(o)

_proc = None


def ask(op, seed):
    global _proc
    if _proc is None:
        _proc = subprocess.Popen([HELPER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=ENV)
    _proc.stdin.write(struct.pack("<QQ", op.i, seed))
    _proc.stdin.flush()
    head = _proc.stdout.read(8)
    if len(head) != 8:
        code = _proc.wait()
        _proc = None
        raise RuntimeError(f"the C++ helper ended with {code} in {op.name}")
    return _proc.stdout.read(struct.unpack("<Q", head)[0])


# ---------------------------------------------------------------- values
# A value is represented by nested tuples with doubles as their bytes, so that
# comparison is bit for bit (all NaNs being equal).

CLASSES = dict(A="Angle", N="NormalizedAngle", L="LonLat", V="Vector3d", W="UnitVector3d", M="Matrix3d", I="Interval1d", J="AngleInterval",
               K="NormalizedAngleInterval", C="Circle", E="Ellipse", B="Box", P="ConvexPolygon", U="UnionRegion", T="IntersectionRegion",
               S="RangeSet", H="HtmPixelization", Q="Q3cPixelization", m="Mq3cPixelization", k="Chunker")
CLASSES["3"] = "Box3d"
CLASSES = {k: getattr(sg, v) for k, v in CLASSES.items()}
DOUBLES = dict(A=1, N=1, L=2, V=3, W=3, M=9, I=2, J=2, K=2)
DOUBLES["3"] = 6
REGIONS = "RCEBPUTG"
TYPES = {ord("c"): sg.Circle, ord("e"): sg.Ellipse, ord("b"): sg.Box, ord("p"): sg.ConvexPolygon, ord("u"): sg.UnionRegion, ord("i"): sg.IntersectionRegion}


def D(x):
    return b"nan" if x != x else struct.pack("<d", x)


def undouble(b):
    return math.nan if b == b"nan" else struct.unpack("<d", b)[0]


def canon(b):
    """Region bytes with NaNs made equal."""
    if b[:1] in b"cebp" and len(b) % 8 == 1:
        return b[:1] + b"".join(D(x) for (x,) in struct.iter_unpack("<d", b[1:]))
    if b[:1] in b"ui" and len(b) > 9:
        n = struct.unpack("<Q", b[1:9])[0]
        first = b[9 : 9 + n]
        rest = b[9 + n :]
        return b[:9] + canon(first) + rest[:8] + canon(rest[8:])
    return b


class Reader:
    def __init__(self, b):
        self.b, self.at = b, 0

    def unpack(self, f):
        f = "<" + f
        v = struct.unpack_from(f, self.b, self.at)
        self.at += struct.calcsize(f)
        return v

    def bytes(self):
        (n,) = self.unpack("I")
        v = self.b[self.at : self.at + n]
        self.at += n
        return v

    def value(self, code):
        if code[0] == "[":
            (n,) = self.unpack("I")
            return tuple(self.value(code[1:]) for _ in range(n))
        if code == "d":
            return D(self.unpack("d")[0])
        if code in "iju":
            return self.unpack({"i": "i", "j": "I", "u": "Q"}[code])[0]
        if code == "r":
            return self.unpack("Q")[0]
        if code == "y":
            return self.unpack("B")[0]
        if code == "b":
            return self.unpack("?")[0]
        if code == "s":
            return self.bytes().decode()
        if code == "X":
            return self.bytes()
        if code in DOUBLES:
            return tuple(D(x) for x in self.unpack(f"{DOUBLES[code]}d"))
        if code in REGIONS:
            return self.bytes()
        if code == "S":
            (n,) = self.unpack("I")
            return tuple(self.unpack("QQ") for _ in range(n))
        if code in "HQm":
            return self.unpack("i")[0]
        if code == "k":
            return self.unpack("ii")
        if code == "t":
            return self.unpack("II")
        if code == "Z":
            chunk, n = self.unpack("iI")
            return (chunk, tuple(self.unpack(f"{n}i")))
        if code == "n":
            return None
        raise AssertionError(code)


def build(code, v):
    """The Python object for a value."""
    if code[0] == "[":
        return [build(code[1:], x) for x in v]
    if code == "d":
        return undouble(v)
    if code in "ijuyrbsXt":
        return v
    if code == "W":
        u = sg.UnitVector3d.__new__(sg.UnitVector3d)
        u.__setstate__(tuple(undouble(x) for x in v))
        return u
    if code in DOUBLES:
        f = [undouble(x) for x in v]
        if code == "A":
            return sg.Angle(f[0])
        if code == "N":
            return sg.NormalizedAngle(f[0])
        if code == "L":
            return sg.LonLat(sg.NormalizedAngle(f[0]), sg.Angle(f[1]))
        if code == "J":
            return sg.AngleInterval(sg.Angle(f[0]), sg.Angle(f[1]))
        if code == "K":
            return sg.NormalizedAngleInterval(sg.NormalizedAngle(f[0]), sg.NormalizedAngle(f[1]))
        if code == "3":
            return sg.Box3d(*[sg.Interval1d(f[i], f[i + 1]) for i in (0, 2, 4)])
        return CLASSES[code](*f)
    if code in REGIONS:
        return sg.Region.decode(v)
    if code == "S":
        s = sg.RangeSet()
        for a, b in v:
            s.insert(a, b)
        return s
    if code in "HQm":
        return CLASSES[code](v)
    if code == "k":
        return sg.Chunker(*v)
    raise AssertionError(code)


class Mismatch(Exception):
    pass


def typed(obj, cls):
    if type(obj) is not cls:
        raise Mismatch(f"a {type(obj).__name__} instead of a {cls.__name__}")
    return obj


def norm(code, o):
    """The value of a Python object, which must have exactly the expected type."""
    if code[0] == "[":
        return tuple(norm(code[1:], x) for x in typed(o, list))
    if code == "d":
        return D(typed(o, float))
    if code in "ijury":
        return typed(o, int)
    if code == "b":
        return typed(o, bool)
    if code == "s":
        return typed(o, str)
    if code == "X":
        return canon(typed(o, bytes))
    if code in "AN":
        return (D(typed(o, CLASSES[code]).asRadians()),)
    if code == "L":
        typed(o, sg.LonLat)
        return norm("N", o.getLon()) + norm("A", o.getLat())
    if code in "VW":
        typed(o, CLASSES[code])
        return (D(o.x()), D(o.y()), D(o.z()))
    if code == "M":
        typed(o, sg.Matrix3d)
        return tuple(D(o[i, j]) for i in range(3) for j in range(3))
    if code in "IJK":
        typed(o, CLASSES[code])
        a, b = o.getA(), o.getB()
        return (D(a), D(b)) if code == "I" else norm("A" if code == "J" else "N", a) + norm("A" if code == "J" else "N", b)
    if code == "3":
        typed(o, sg.Box3d)
        return norm("I", o.x()) + norm("I", o.y()) + norm("I", o.z())
    if code in REGIONS:
        b = o.encode()
        typed(o, TYPES[b[0]])
        return canon(b)
    if code == "S":
        return tuple(typed(o, sg.RangeSet).ranges())
    if code in "HQm":
        return typed(o, CLASSES[code]).getLevel()
    if code == "k":
        typed(o, sg.Chunker)
        return (o.numStripes, o.numSubStripesPerStripe)
    if code == "t":
        return typed(o, tuple)
    if code == "Z":
        typed(o, tuple)
        return (o[0], tuple(o[1]))
    if code == "n":
        return typed(o, type(None))
    raise AssertionError(code)


def expected(code, v):
    """The value the helper reported, in the form norm() gives."""
    if v is None or not v:
        return v
    if code[0] == "[":
        return tuple(expected(code[1:], x) for x in v)
    return canon(v) if code in REGIONS or code == "X" else v


def show(code, v):
    if code[0] == "[":
        return "[" + ", ".join(show(code[1:], x) for x in v) + "]"
    if code == "d":
        return repr(undouble(v))
    if code in DOUBLES:
        return CLASSES[code].__name__ + repr(tuple(undouble(x) for x in v))
    if isinstance(v, bytes):
        return f"{v[:1]!r}:{v[1:].hex()}"
    return repr(v)


OPERATORS = dict(__eq__="eq", __ne__="ne", __lt__="lt", __gt__="gt", __le__="le", __ge__="ge", __neg__="neg", __add__="add", __sub__="sub",
                 __mul__="mul", __truediv__="truediv", __iadd__="iadd", __isub__="isub", __imul__="imul", __itruediv__="itruediv",
                 __contains__="contains", __invert__="invert", __and__="and_", __or__="or_", __xor__="xor", __iand__="iand",
                 __ior__="ior", __ixor__="ixor", __len__="length_hint")
EXCEPTIONS = dict(V=ValueError, I=IndexError, O=OverflowError, R=RuntimeError)


def substitute(r, op, i, arg):
    """Another object that must be accepted in place of `arg`."""
    code = op.args[i]
    if code == "d" and abs(arg) < 2**52 and arg == int(arg) and math.copysign(1, arg) * arg >= 0 and (arg or math.copysign(1, arg) > 0):
        return r.choice((int, np.float64))(arg)
    if "()" in op.name or any(q is not op and len(q.args) > i and len(q.args) == len(op.args) and q.args[i] in "WN" for q in OVERLOADS[op.name]):
        return arg
    receiver = i == 0 and "." in op.name
    if code == "V" and not receiver and abs(arg.getSquaredNorm() - 1) < 1e-15:
        return build("W", norm("V", arg))
    if code == "A" and not receiver and 0 <= arg.asRadians() < 2 * math.pi and math.copysign(1, arg.asRadians()) > 0:
        return sg.NormalizedAngle(arg.asRadians())
    return arg


def invoke(r, op, args):
    name = op.name
    if name.startswith("!"):
        f, rest = getattr(sg, name[1:]), args
    elif name.startswith("#"):
        return getattr(sg, name[1:])
    elif "#" in name:
        cls, attr = name.split("#")
        return getattr(args[0] if args else getattr(sg, cls), attr)
    elif name.endswith("()"):
        f, rest = getattr(sg, name[:-2]), args
    elif "::" in name:
        cls, m = name.split("::")
        f, rest = getattr(getattr(sg, cls), m), args
    else:
        cls, m = name.split(".")
        if m == "__rmul__":
            return args[1] * args[0]
        if m in OPERATORS and r.random() < 0.7:
            return getattr(operator, OPERATORS[m])(*args)
        if m in OPERATORS and len(args) == 2:
            return getattr(args[0], m)(args[1])
        if m in ("universe", "pixel", "index", "toString", "envelope", "interior") and r.random() < 0.3:
            cls = "Pixelization"
        f = getattr(getattr(sg, cls), m) if r.random() < 0.4 else getattr(args[0], m)
        rest = args[1:]
        if getattr(f, "__self__", None) is not args[0]:
            if op.kw and r.random() < 0.3:
                return f(args[0], **dict(zip(op.kw, rest)))
            return f(*args)
    if op.kw and r.random() < 0.4:
        n = r.randrange(len(rest) + 1)
        return f(*rest[:n], **dict(zip(op.kw[n:], rest[n:])))
    return f(*rest)
