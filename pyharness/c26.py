"""C26: IVOA POS strings.

Membership of points in a parsed region is compared with the degrees in the
string; regions are written and parsed again; malformed strings must raise
ValueError.
"""

import math
import sys

import lsst.sphgeom as sg
from vh import main, random_unit, section

PI = math.pi


def number(r, x):
    """A text for x that parses to exactly x."""
    k = r.randrange(7)
    if k == 0:
        s = f"{x:.17e}"
    elif k == 1 and x == int(x) and abs(x) < 1e9:
        s = str(int(x))
    elif k == 2:
        s = f"{x:.17E}"
    elif k == 3 and 0 < abs(x) < 1 and "e" not in repr(x):
        s = repr(x).replace("0.", ".", 1)
    elif k == 4 and "e" not in repr(x):
        s = ("-" if x < 0 or repr(x)[0] == "-" else "") + "00" + repr(abs(x)) + "00"
    else:
        s = repr(x)
    if s[0] != "-" and r.random() < 0.2:
        s = "+" + s
    assert float(s) == x, s
    return s


def join(r, *parts):
    if r.random() < 0.6:
        return " ".join(parts)
    blank = lambda: r.choice((" ", "  ", "\t", "\n", " \t ", "\r\n"))  # noqa: E731
    return r.choice(("", blank())) + "".join(p + blank() for p in parts[:-1]) + parts[-1] + r.choice(("", blank()))


def some_lon(r):
    return r.choice((0.0, 90.0, 180.0, 270.0, 360.0, 359.99999999999994, 1e-9, 1e-300, 12.5, r.uniform(0, 360), float(r.randrange(361)), r.uniform(0, 360), r.uniform(0, 360)))


def some_lat(r):
    return r.choice((0.0, -0.0, 90.0, -90.0, 89.99999999999999, -89.99999999999999, 1e-9, r.uniform(-90, 90), float(r.randrange(-90, 91)), r.uniform(-90, 90), r.uniform(-90, 90)))


def vec(lon, lat):
    a, b = math.radians(lon), math.radians(lat)
    return (math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b))


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def angle(a, b):
    c = cross(a, b)
    return math.atan2(math.sqrt(dot(c, c)), dot(a, b))


def norm(v):
    n = math.sqrt(dot(v, v))
    return tuple(x / n for x in v)


def around(r, v, d):
    """A point at distance d radians from v."""
    w = random_unit(r)
    t = cross(v, w)
    n = math.sqrt(dot(t, t))
    t = tuple(x / n for x in t)
    return norm(tuple(math.cos(d) * a + math.sin(d) * b for a, b in zip(v, t)))


def unit(v):
    return sg.UnitVector3d(*v)


def parse(c, text):
    cls = c.rng.choice((sg.Region, sg.Region, sg.Region, sg.Circle, sg.Box))
    return cls.from_ivoa_pos(text) if c.rng.random() < 0.8 else cls.from_ivoa_pos(pos=text)


@section(8000)
def circles(c):
    r = c.rng
    lon, lat = some_lon(r), some_lat(r)
    rad = r.choice((0.0, 1.0, 90.0, 180.0, 1e-6, 10 ** r.uniform(-9, 2), r.uniform(0, 180), r.uniform(0, 180)))
    text = join(r, "CIRCLE", number(r, lon), number(r, lat), number(r, rad))
    c.eval(text)
    p = parse(c, text)
    c.sample(lambda: f"{text!r} gives {p!r}")
    if type(p) is not sg.Circle:
        c.fail("circle-type", f"{text!r} gives {p!r}")
        return
    v, a = vec(lon, lat), math.radians(rad)
    o = p.getCenter()
    c.check(angle((o.x(), o.y(), o.z()), v) < 1e-15 and abs(p.getOpeningAngle().asRadians() - a) < 1e-15 * max(a, 1e-9), "circle",
            lambda: f"{text!r} gives {p!r}")
    # membership, at distances at which rounding does not matter
    tol = 3e-15 + 1e-14 * a
    if 0 < PI - a < 1e-6:
        tol = 1e-7
    for k in range(8):
        d = r.choice((a + 10 ** r.uniform(-13, 0), a - 10 ** r.uniform(-13, 0), a * r.random(), r.uniform(0, PI), a * 1.001, a * 0.999))
        d = min(max(d, 0.0), PI)
        w = around(r, v, d)
        d = angle(v, w)
        if abs(d - a) < max(tol, 4e-16 / max(math.sin(min(a, PI - a)), 1e-8)):
            continue
        c.count("points of circles")
        c.check(p.contains(unit(w)) == (d <= a), "circle-membership", lambda: f"{text!r} contains {w}, at {d} radians: {p.contains(unit(w))}")


INF = ("Inf", "inf", "INF", "Infinity", "infinity", "iNf")


@section(12000)
def ranges(c):
    r = c.rng
    lons = sorted((some_lon(r), some_lon(r)), reverse=r.random() < 0.2)
    lats = sorted((some_lat(r), some_lat(r)), reverse=r.random() < 0.1)
    if r.random() < 0.1:
        lons[1] = lons[0]
    if r.random() < 0.1:
        lats[1] = lats[0]
    words = [number(r, x) for x in lons + lats]
    for i in range(4):
        if r.random() < 0.25:
            minus = i % 2 == 0 if r.random() < 0.85 else i % 2 == 1
            words[i] = ("-" if minus else r.choice(("", "+"))) + r.choice(INF)
            (lons if i < 2 else lats)[i % 2] = (0.0 if minus else 360.0) if i < 2 else (-90.0 if minus else 90.0)
    text = join(r, "RANGE", *words)
    c.eval(text)
    p = parse(c, text)
    c.sample(lambda: f"{text!r} gives {p!r}")
    if type(p) is not sg.Box:
        c.fail("range-type", f"{text!r} gives {p!r}")
        return
    a, b = lons
    s, n = lats
    if s > n:
        c.check(p.isEmpty(), "range-empty", lambda: f"{text!r} gives {p!r}")
        return
    i, j = p.getLon(), p.getLat()
    got = (i.getA().asDegrees(), i.getB().asDegrees(), j.getA().asDegrees(), j.getB().asDegrees())
    c.check(not p.isEmpty() and all(abs(x - y) <= 3e-16 * max(1, abs(y)) * 2 for x, y in zip(got, (a, b, s, n))), "range", lambda: f"{text!r} gives {p!r}, {got}")
    c.check(p.isFull() == (a == 0 and b == 360 and s == -90 and n == 90), "range-full", lambda: f"{text!r} gives {p!r}")
    for k in range(8):
        lon = r.choice((r.uniform(0, 360), a + r.random() * ((b - a) % 360.0000001), a - 10 ** r.uniform(-12, 1), a + 10 ** r.uniform(-12, 1), b - 10 ** r.uniform(-12, 1), b + 10 ** r.uniform(-12, 1)))
        lat = r.choice((r.uniform(-90, 90), s + r.random() * (n - s), s - 10 ** r.uniform(-12, 1), n + 10 ** r.uniform(-12, 1), s + 10 ** r.uniform(-12, 1), n - 10 ** r.uniform(-12, 1)))
        lon %= 360.0
        lat = min(max(lat, -90.0), 90.0)
        if min(abs(lon - x) for x in (a, b, a - 360, b - 360, a + 360, b + 360)) < 3e-13 or min(abs(lat - s), abs(lat - n)) < 2e-14:
            continue
        c.count("points of ranges")
        want = (a <= lon <= b if a <= b else lon >= a or lon <= b) and s <= lat <= n
        got = p.contains(sg.LonLat.fromDegrees(lon, lat))
        c.check(got == want, "range-membership", lambda: f"{text!r} contains {lon} {lat}: {got}")
        if min(abs(lon - x) for x in (a, b, a - 360, b - 360, a + 360, b + 360)) > 1e-9 and min(abs(lat - s), abs(lat - n)) > 1e-9 and abs(lat) < 89.9:
            got = p.contains(unit(vec(lon, lat)))
            c.check(got == want, "range-membership", lambda: f"{text!r} contains the vector at {lon} {lat}: {got}")


def polygon_degrees(r):
    """The vertices of a convex polygon in degrees, counter-clockwise."""
    lon, lat = some_lon(r), some_lat(r)
    v = vec(lon, lat)
    n = r.randrange(3, 10)
    size = r.choice((10 ** r.uniform(-4, 0), r.uniform(0.01, 1.4)))
    x = norm(cross(v, min(((1, 0, 0), (0, 1, 0), (0, 0, 1)), key=lambda e: abs(dot(e, v)))))
    y = cross(v, x)
    az = sorted(r.uniform(0, 2 * PI) for _ in range(n))
    if min(az[i + 1] - az[i] for i in range(n - 1)) < 0.05 or max((az[(i + 1) % n] - az[i]) % (2 * PI) for i in range(n)) > 3:
        t = r.uniform(0, 7)
        az = [t + 2 * PI * i / n for i in range(n)]
    out = []
    for a in az:
        w = norm(tuple(math.cos(size) * p + math.sin(size) * (math.cos(a) * q + math.sin(a) * s) for p, q, s in zip(v, x, y)))
        b, a = math.degrees(math.asin(max(-1, min(1, w[2])))), math.degrees(math.atan2(w[1], w[0])) % 360.0
        if r.random() < 0.3:
            a, b = round(a, 6), round(b, 6)
        out.append((a, b))
    return out, size


@section(8000)
def polygons(c):
    r = c.rng
    pts, size = polygon_degrees(r)
    vs = [vec(*p) for p in pts]
    n = len(vs)
    edges = [norm(cross(vs[i], vs[(i + 1) % n])) for i in range(n)]
    if any(dot(edges[i], vs[j]) < 1e-9 for i in range(n) for j in range(n) if j not in (i, (i + 1) % n)):
        c.count("degenerate polygons skipped")
        return
    given = list(pts)
    k = r.randrange(4)
    if k == 1:
        given.reverse()
    elif k == 2:
        r.shuffle(given)
    if r.random() < 0.3:
        # a closed outline, or repeated or interior points
        given.append(given[0])
    text = join(r, "POLYGON", *[number(r, x) for p in given for x in p])
    c.eval(text)
    p = parse(c, text)
    c.sample(lambda: f"{text!r} gives {p!r}")
    if type(p) is not sg.ConvexPolygon:
        c.fail("polygon-type", f"{text!r} gives {p!r}")
        return
    got = [(w.x(), w.y(), w.z()) for w in p.getVertices()]
    c.check(len(got) == n and all(min(angle(g, w) for w in vs) < 1e-15 for g in got) and all(min(angle(g, w) for g in got) < 1e-15 for w in vs), "polygon",
            lambda: f"{text!r} gives {p!r}")
    centre = norm(tuple(map(sum, zip(*vs))))
    for _ in range(8):
        e = r.randrange(n)
        q = r.choice((around(r, centre, size * r.uniform(0, 2)), norm(tuple(r.uniform(0, 1) * a + b for a, b in zip(vs[e], vs[(e + 1) % n])))))
        q = norm(tuple(a + 10 ** r.uniform(-12, -1) * size * r.choice((-1, 1)) * b for a, b in zip(q, edges[e])))
        d = min(dot(g, q) for g in edges)
        if abs(d) < 1e-13:
            continue
        c.count("points of polygons")
        c.check(p.contains(unit(q)) == (d > 0), "polygon-membership", lambda: f"{text!r} contains {q}, {d} inside: {p.contains(unit(q))}")


# ----------------------------------------------------------------- malformed

BAD_WORDS = ("x", "1.2.3", "1e", "--1", "1,2", "0x10", "one", "+-3", "1d0", "1 .", "'1'", "(1)", "10deg", "1;", "e5", "i", "1+2j", "½", "12h", "10:30")
SHAPES = dict(CIRCLE=3, RANGE=4, POLYGON=6)


@section(8000)
def malformed(c):
    r = c.rng
    k = r.randrange(8)
    shape = r.choice(list(SHAPES))
    n = SHAPES[shape]

    def words(m):
        return [number(r, some_lat(r)) for _ in range(m)]

    if k == 0:
        name = r.choice(("circle", "Circle", "BOX", "Range", "POLY", "POLYGONS", "CIRCLE,", "ELLIPSE", "UNION", "CIRCL", "RANGEE", "polygon", "ICRS", "1", "POINT", "CIRCLE1", "_", "ranGe"))
        text = join(r, name, *words(r.choice((0, 3, 4, 6))))
    elif k == 1:
        m = r.choice([i for i in range(14) if i != n and not (shape == "POLYGON" and i % 2 == 0 and i >= 6)])
        text = join(r, shape, *words(m))
    elif k == 2:
        w = words(n + (2 * r.randrange(3) if shape == "POLYGON" else 0))
        w[r.randrange(len(w))] = r.choice(BAD_WORDS)
        text = join(r, shape, *w)
    elif k == 3:
        text = r.choice(("", " ", "\t\n", shape, shape + " ", "1 2 3", ",", shape + ","))
    elif k == 4:
        # a latitude beyond the poles
        bad = r.choice((-1, 1)) * r.choice((90.00001, 90.000000000001, 91.0, 100.0, 180.0, 1e300, r.uniform(90.001, 400)))
        w = [number(r, some_lon(r)) if i % 2 == 0 else number(r, some_lat(r)) for i in range(n)]
        if shape == "RANGE":
            w = [number(r, some_lon(r)), number(r, some_lon(r)), number(r, some_lat(r)), number(r, some_lat(r))]
            w[r.choice((2, 3))] = number(r, bad)
        elif shape == "CIRCLE":
            w[1] = number(r, bad)
        else:
            w[r.choice((1, 3, 5))] = number(r, bad)
        text = join(r, shape, *w)
    elif k == 5:
        # fewer than 3 distinct vertices, or all on one great circle
        if r.random() < 0.6:
            a, b = (number(r, some_lon(r)), number(r, some_lat(r))), (number(r, some_lon(r)), number(r, some_lat(r)))
            pts = [r.choice((a, b)) for _ in range(r.randrange(3, 8))]
        else:
            pts = [(number(r, r.uniform(0, 360)), "0") for _ in range(r.randrange(3, 8))]
        text = join(r, "POLYGON", *[x for p in pts for x in p])
    elif k == 6:
        # the numbers of another separator
        text = shape + " " + r.choice((",", ";", "/")).join(words(n))
    else:
        # vertices that surround the origin
        pts = [("0", "0"), ("120", "0"), ("240", "0"), ("0", "90"), ("0", "-90")]
        r.shuffle(pts)
        text = join(r, "POLYGON", *[x for p in pts for x in p])
    c.eval(text)
    c.sample(lambda: f"{text!r} is malformed")
    c.count(f"malformed strings of kind {k}")
    c.raises(ValueError, f"malformed-{k}", f"parsing {text!r}", lambda: parse(c, text))


@section(60)
def types(c):
    c.eval(c.index)
    for x in (None, 1, 1.5, ["CIRCLE", "1", "2", "3"], object()):
        c.raises((TypeError, AttributeError, ValueError), "types", f"parsing {x!r}", lambda x=x: sg.Region.from_ivoa_pos(x))
    v = unit(random_unit(c.rng))
    e = sg.Ellipse(v, sg.Angle(0.1))
    circle = sg.Circle(v, sg.Angle(0.1))
    for o in (e, sg.UnionRegion(circle, e), sg.IntersectionRegion(circle, circle)):
        c.raises(NotImplementedError, "not-implemented", f"the text of {o!r}", lambda o=o: o.to_ivoa_pos())


# ---------------------------------------------------------------- round trip

def vector(u):
    return (u.x(), u.y(), u.z())


@section(15000)
def roundtrip(c):
    r = c.rng
    k = c.index % 3
    lon, lat = math.radians(some_lon(r)), math.radians(some_lat(r))
    if r.random() < 0.2:
        v = around(r, (0.0, 0.0, r.choice((-1.0, 1.0))), 10 ** r.uniform(-18, -1))
    elif r.random() < 0.3:
        v = norm((1.0, r.choice((-1, 1)) * 10 ** r.uniform(-20, -8), r.uniform(-2, 2)))
    else:
        v = random_unit(r)
    if k == 0:
        a = r.choice((0.0, PI, PI / 2, 10 ** r.uniform(-12, 0), r.uniform(0, PI), r.uniform(0, PI)))
        o = r.choice((sg.Circle(unit(v), sg.Angle(a)),) * 12 + (sg.Circle.empty(), sg.Circle.full(), sg.Circle(), sg.Circle(unit(v))))
    elif k == 1:
        d = r.choice((0.0, 10 ** r.uniform(-9, 0), r.uniform(0, 3)))
        i = sg.NormalizedAngleInterval(sg.NormalizedAngle(lon), sg.NormalizedAngle(lon + d))
        if r.random() < 0.15:
            i = r.choice((sg.NormalizedAngleInterval.full(), sg.NormalizedAngleInterval.empty()))
        j = sg.AngleInterval(sg.Angle(lat), sg.Angle(lat + r.choice((0.0, 10 ** r.uniform(-9, 0), 4.0, -1.0 if r.random() < 0.1 else 1.0))))
        o = r.choice((sg.Box(i, j),) * 12 + (sg.Box.full(), sg.Box.empty(), sg.Box(), sg.Box(sg.Box.allLongitudes(), j), sg.Box(i, sg.Box.allLatitudes())))
    else:
        pts, _ = polygon_degrees(r)
        try:
            o = sg.ConvexPolygon([unit(vec(*p)) for p in pts])
        except ValueError:
            return
        vs = [vector(x) for x in o.getVertices()]
        n = len(vs)
        if any(dot(norm(cross(vs[i], vs[(i + 1) % n])), vs[j]) < 1e-9 for i in range(n) for j in range(n) if j not in (i, (i + 1) % n)):
            c.count("degenerate polygons skipped")
            return
    if k == 1 and o.isEmpty() and not -PI / 2 <= o.getLat().getB().asRadians() <= PI / 2:
        # an empty box that keeps an invalid latitude
        return
    if r.random() < 0.2:
        o = sg.Region.decode(o.encode())
    text = o.to_ivoa_pos()
    c.eval(text)
    words = text.split()
    c.sample(lambda: f"{o!r} as {text!r}")
    c.check(isinstance(text, str) and words[0] == ("CIRCLE", "RANGE", "POLYGON")[k], "text-shape", lambda: f"{o!r} is written as {text!r}")
    p = sg.Region.from_ivoa_pos(text)
    what = f"{o!r} is written as {text!r}, which gives {p!r}"
    if type(p) is not type(o):
        c.fail("round-trip-type", what)
        return
    numbers = [float(w) for w in words[1:]]
    if k == 0:
        if o.isEmpty():
            c.check(p.isEmpty(), "round-trip-empty", what)
        elif o.isFull():
            c.check(p.isFull(), "round-trip-full", what)
        else:
            a, b = o.getOpeningAngle().asRadians(), p.getOpeningAngle().asRadians()
            c.check(abs(a - b) <= 5e-16 * a and angle(vector(o.getCenter()), vector(p.getCenter())) < 1.5e-15, "round-trip", what)
            c.check(len(numbers) == 3 and 0 <= numbers[0] <= 360 and angle(vec(numbers[0], numbers[1]), vector(o.getCenter())) < 1.5e-15
                    and abs(math.radians(numbers[2]) - a) <= 5e-16 * a, "text", what)
    elif k == 1:
        if o.isEmpty():
            c.check(p.isEmpty(), "round-trip-empty", what)
        else:
            f = lambda b: [x.asRadians() for x in (b.getLon().getA(), b.getLon().getB(), b.getLat().getA(), b.getLat().getB())]  # noqa: E731
            c.check(p.isFull() == o.isFull() and p.getLon().isFull() == o.getLon().isFull() and all(abs(a - b) <= 5e-16 * max(abs(a), 1e-300) for a, b in zip(f(o), f(p))), "round-trip", what)
            c.check(len(numbers) == 4 and all(abs(math.radians(a) - b) <= 5e-16 * abs(b) for a, b in zip(numbers, f(o))), "text", what)
    else:
        a, b = [vector(x) for x in o.getVertices()], [vector(x) for x in p.getVertices()]
        c.check(len(a) == len(b) and any(all(angle(a[i], b[(i + s) % n]) < 1.5e-15 for i in range(n)) for s in range(n)), "round-trip", what)
        c.check(len(numbers) == 2 * n and all(angle(vec(numbers[2 * i], numbers[2 * i + 1]), a[i]) < 1.5e-15 for i in range(n)), "text", what)


sys.exit(main())
