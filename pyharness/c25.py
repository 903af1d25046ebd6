"""C25: the HEALPix pixelization.

An independent implementation of the nested scheme says which pixel contains a
point; points sampled from a region, many of them next to its boundary, must be
indexed into its envelope.
"""

import math
import sys

import hpgeom as hpg
import numpy as np

import lsst.sphgeom as sg
from vh import main, random_unit, section

PI = math.pi


def spread(v):
    r = 0
    for i in range(30):
        r |= (v >> i & 1) << (2 * i)
    return r


def nested(level, x, y, z):
    """The nested index of a direction, from the definition of the projection."""
    n = 1 << level
    norm = math.sqrt(x * x + y * y + z * z)
    x, y, z = x / norm, y / norm, z / norm
    t = math.atan2(y, x) / (PI / 2) % 4.0
    if abs(z) <= 2 / 3:
        a, b = n * (0.5 + t), n * 0.75 * z
        down, up = math.floor(a - b), math.floor(a + b)  # edges descending and ascending with longitude
        f, g = down // n, up // n
        face = (f & 3) | 4 if f == g else f & 3 if f < g else (g & 3) + 8
        ix, iy = up & (n - 1), n - (down & (n - 1)) - 1
    else:
        k = min(3, int(t))
        s = math.hypot(x, y)
        w = n * s * math.sqrt(3 / (1 + abs(z)))  # n * sqrt(3 (1 - |z|))
        p = min(n - 1, int((t - k) * w))
        q = min(n - 1, int((1 - (t - k)) * w))
        if z > 0:
            face, ix, iy = k, n - q - 1, n - p - 1
        else:
            face, ix, iy = k + 8, p, q
    return face << 2 * level | spread(ix) | spread(iy) << 1


def direction(v, azimuth):
    """A unit vector orthogonal to v."""
    x, y, z = map(float, v)
    k = min(range(3), key=lambda i: abs((x, y, z)[i]))
    e = ((0.0, z, -y), (-z, 0.0, x), (y, -x, 0.0))[k]
    n = math.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
    e = (e[0] / n, e[1] / n, e[2] / n)
    f = (y * e[2] - z * e[1], z * e[0] - x * e[2], x * e[1] - y * e[0])
    c, s = math.cos(azimuth), math.sin(azimuth)
    return [c * p + s * q for p, q in zip(e, f)]


def along(v, angle, d):
    c, s = math.cos(angle), math.sin(angle)
    x, y, z = c * v[0] + s * d[0], c * v[1] + s * d[1], c * v[2] + s * d[2]
    n = math.sqrt(x * x + y * y + z * z)
    return x / n, y / n, z / n


def move(v, angle, azimuth):
    return np.array(along(v, angle, direction(v, azimuth)))


def boundary_point(r, level):
    """A point on or next to the boundary of a pixel."""
    n = 2**level
    i = r.randrange(12 * n * n)
    step = r.choice((1, 1, 2, 4))
    lon, lat = hpg.boundaries(n, i, step=step, degrees=False)
    k = r.randrange(len(lon))
    v = np.array([math.cos(lat[k]) * math.cos(lon[k]), math.cos(lat[k]) * math.sin(lon[k]), math.sin(lat[k])])
    if r.random() < 0.7:
        v = move(v, 10 ** r.uniform(-16, -2) / n, r.uniform(0, 2 * PI))
    return v


CORNER = math.asin(2 / 3)


def position(r, level):
    """A point at which something may be special."""
    k = r.randrange(10)
    if k < 3:
        return boundary_point(r, r.choice((level, level, min(level + 4, 21), r.randrange(level + 1))))
    if k == 3:
        return np.array([0, 0, r.choice((-1.0, 1.0))])
    if k == 4:
        return move([0, 0, r.choice((-1.0, 1.0))], 10 ** r.uniform(-12, -1), r.uniform(0, 7))
    if k == 5:
        lon, lat = r.randrange(8) * PI / 4, r.choice((0, CORNER, -CORNER, r.uniform(-1.5, 1.5)))
        v = [math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)]
        return move(v, 10 ** r.uniform(-15, -1), r.uniform(0, 7)) if r.random() < 0.7 else np.array(v) / np.linalg.norm(v)
    if k == 6:
        lon, lat = r.choice((0.0, -1e-9, 1e-9, 2 * PI)), r.uniform(-1.57, 1.57)
        return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    return np.array(random_unit(r))


def unit(v):
    return sg.UnitVector3d(*map(float, v))


def upstream(u):
    """Whether hpgeom computes a longitude of 2 pi, which it may place in another face."""
    return u.x() > 0 and -1e-14 < u.y() / u.x() < 0


# ------------------------------------------------------------------- indexes

@section(24000)
def index(c):
    r = c.rng
    level = c.index % 18
    n = 2**level
    h = sg.HealpixPixelization(level)
    u = unit(position(r, level))
    v = (u.x(), u.y(), u.z())
    i = h.index(u)
    c.eval(repr((level, v)))
    c.sample(lambda: f"level {level}: {u!r} is in pixel {i}")
    i = int(i)
    if upstream(u):
        return
    c.check(0 <= i < 12 * n * n and h.universe().contains(i), "universe", lambda: f"index({u!r}) at level {level} is {i}")
    if i != nested(level, *v):
        near = {nested(level, *[x + d * r.uniform(-1, 1) for x in v]) for d in (1e-16, 5e-16, 2e-15) for _ in range(60)}
        c.check(i in near, "index", lambda: f"index({u!r}) at level {level} is {i} instead of one of {near}")
        c.count("points on a pixel boundary")
    # the text, and the parent's index
    c.check(h.toString(i) == str(i), "text", lambda: f"toString({i}) is {h.toString(i)!r}")
    pole = math.hypot(v[0], v[1]) < 1e-7
    if level and not pole and i == nested(level, *v):
        p = int(sg.HealpixPixelization(level - 1).index(u))
        near = {nested(level - 1, *[x + d * r.uniform(-1, 1) for x in v]) for d in (1e-16, 5e-16, 2e-15) for _ in range(20)}
        c.check(p == i >> 2 or len(near) > 1, "hierarchy", lambda: f"{u!r} is in pixel {p} at level {level - 1} and in {i} at level {level}")


@section(6000)
def pixel(c):
    r = c.rng
    level = c.index % 18
    n = 2**level
    h = sg.HealpixPixelization(level)
    u = h.universe()
    i = r.choice((0, 12 * n * n - 1, r.randrange(12 * n * n), r.randrange(12) << 2 * level, ((r.randrange(12) + 1) << 2 * level) - 1, r.randrange(12 * n * n)))
    c.check(u.ranges() == [(0, 12 * n * n)] and u.contains(i), "universe", lambda: repr(u))
    p = h.pixel(i)
    c.check(type(p) is sg.ConvexPolygon, "pixel-type", lambda: repr(p))
    lon, lat = hpg.pixel_to_angle(n, i, degrees=False)
    m = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    c.eval(repr((level, i)))
    c.sample(lambda: f"pixel {i} of level {level} has {len(p.getVertices())} vertices")
    c.check(p.contains(unit(m)), "pixel-centre", lambda: f"pixel {i} of level {level}, {p!r}, does not contain its centre {m}")
    c.check(int(h.index(unit(m))) == i, "index-of-centre", lambda: f"the centre of pixel {i} at level {level} is in {h.index(unit(m))}")
    # points half way to the boundary, in all directions
    lon, lat = hpg.boundaries(n, i, step=4, degrees=False)
    for k in range(len(lon)):
        b = np.array([math.cos(lat[k]) * math.cos(lon[k]), math.cos(lat[k]) * math.sin(lon[k]), math.sin(lat[k])])
        t = r.uniform(0, 0.9)
        v = m + t * (b - m)
        w = unit(v)
        j = int(h.index(w))
        # Near the poles at low levels the segment may leave the pixel
        if j == i:
            c.check(p.contains(w), "pixel-central", lambda: f"pixel {i} of level {level}, {p!r}, does not contain {w!r}")
            c.count("central points")
        w = unit(b + 0.5 * (b - m))
        if j == i and level > 2:
            c.check(not p.contains(w), "pixel-outside", lambda: f"pixel {i} of level {level}, {p!r}, contains {w!r}")
    c.check(p.getBoundingCircle().getOpeningAngle().asRadians() < 2.2 / n, "pixel-size", lambda: f"pixel {i} of level {level}, {p!r}, is too large")


# ------------------------------------------------------------------- regions

def make_region(r, level):
    """A region of positive size, a point inside, its extent and whether it is convex."""
    n = 2**level
    # regions of up to a hemisphere
    roomy = level < 4 or (level < 6 and r.random() < 0.1)
    # At most about 2e5 pixels at the resolution the implementation uses.
    largest = min(1.0, 20.0 / n) if r.random() < 0.85 else 0.5 / n
    v = position(r, level)
    size = largest * 10 ** r.choice((r.uniform(-0.5, 0), r.uniform(-2, 0), r.uniform(-8, 0)))
    size = max(size, 1e-9)
    k = r.randrange(4)
    if k == 0:
        if roomy and r.random() < 0.3:
            size = r.uniform(0.5, 1.57)
        return sg.Circle(unit(v), sg.Angle(size)), v, size
    if k == 1:
        a = r.uniform(0, 2 * PI)
        f = size * r.choice((0, r.random(), 0.99)) * 0.999
        if roomy and r.random() < 0.2:
            size = r.uniform(0.5, 1.5)
            f = size * r.random()
        e = sg.Ellipse(unit(move(v, f, a)), unit(move(v, f, a + PI)), sg.Angle(size))
        return e, v, size
    if k == 2:
        lat = math.atan2(v[2], math.hypot(v[0], v[1]))
        lon = math.atan2(v[1], v[0])
        big = roomy and r.random() < 0.3
        dlat = r.uniform(0.1, PI) if big else size * r.random() + 1e-10
        dlon = r.uniform(0.1, PI) if big else (size * r.random() + 1e-10) / max(math.cos(lat), size)
        dlon = min(dlon, PI)
        if (big or (level < 6 and abs(lat) > 1)) and r.random() < 0.3:
            i = sg.NormalizedAngleInterval.full()
        else:
            i = sg.NormalizedAngleInterval(sg.NormalizedAngle(lon - dlon), sg.NormalizedAngle(lon + dlon))
        b = sg.Box(i, sg.AngleInterval(sg.Angle(lat - dlat), sg.Angle(lat + dlat)))
        inside = b.getCenter()
        inside = sg.UnitVector3d(inside)
        return b, np.array([inside.x(), inside.y(), inside.z()]), max(dlat, dlon)
    m = r.randrange(3, 9)
    flat = r.random() < 0.15
    if roomy and r.random() < 0.3:
        size = r.uniform(0.5, 1.4)
    az = sorted(r.uniform(0, 2 * PI) for _ in range(m))
    if max((az[(i + 1) % m] - az[i]) % (2 * PI) for i in range(m)) > 3:
        az = [2 * PI * i / m + r.uniform(0, 1) for i in range(m)]
    size = max(size, 1e-7)
    vertices = [move(v, size * r.uniform(0.3, 1), a) for a in az]
    if flat:
        # vertices that are almost on the edge between their neighbours
        for i in range(r.randrange(1, 3)):
            e = vertices[i] + vertices[i + 1]
            e /= np.linalg.norm(e)
            vertices.append(e + 10 ** r.uniform(-18, -9) * (e - v) / np.linalg.norm(e - v))
    p = sg.ConvexPolygon([unit(x) for x in vertices])
    w = sum(np.array([x.x(), x.y(), x.z()]) for x in p.getVertices())
    return p, w / np.linalg.norm(w), size


def inside_points(r, region, v, size):
    """Points of a region, most of them next to its boundary."""
    v = tuple(map(float, v))
    points = [v]
    reach = min(PI, 2 * size)
    contains = region.contains
    for _ in range(16):
        d = direction(v, r.uniform(0, 2 * PI))
        lo, hi = 0.0, reach * r.random() if r.random() < 0.2 else reach
        for _ in range(45):
            mid = 0.5 * (lo + hi)
            if contains(sg.UnitVector3d(*along(v, mid, d))):
                lo = mid
            else:
                hi = mid
        points.append(along(v, lo, d))
        points.append(along(v, lo * (1 - 10 ** r.uniform(-8, -1)), d))
        points.append(along(v, lo * math.sqrt(r.random()), d))
    if isinstance(region, sg.ConvexPolygon):
        points += [np.array([x.x(), x.y(), x.z()]) for x in region.getVertices()]
    if isinstance(region, sg.Box):
        for a in (region.getLon().getA(), region.getLon().getB()):
            for b in (region.getLat().getA(), region.getLat().getB()):
                x = sg.UnitVector3d(a, b)
                points.append(np.array([x.x(), x.y(), x.z()]))
    points = [unit(p) for p in points]
    return [u for u in points if region.contains(u) and not upstream(u)]


@section(8000)
def envelope(c):
    r = c.rng
    level = c.index % 18
    h = sg.HealpixPixelization(level)
    try:
        region, v, size = make_region(r, level)
    except ValueError:
        c.count("polygons that could not be made")
        return
    if not region.contains(unit(v)):
        c.count("regions without a sure interior point")
        return
    e = h.envelope(region)
    c.eval(repr((level, repr(region))))
    c.sample(lambda: f"level {level}: envelope of {region!r} is {e!r}")
    c.check(e.isWithin(h.universe()), "envelope-universe", lambda: f"the envelope of {region!r} at level {level}, {e!r}, has invalid pixels")
    kind = type(region).__name__
    points = inside_points(r, region, v, size)
    for u in points:
        i = int(h.index(u))
        c.count("points")
        c.check(e.contains(i), f"envelope:{kind}", lambda: f"the envelope of {region!r} at level {level}, {e!r}, does not have pixel {i} of {u!r}")
    # pixels far away do not belong to it
    if e.cardinality() < 2000:
        b = region.getBoundingCircle()
        reach = b.getOpeningAngle().asRadians() + 6.0 / 2**level
        if not b.isFull() and reach < PI:
            o = b.getCenter()
            far = 0
            for a, z in e.ranges():
                for i in {a, z - 1}:
                    w = h.pixel(i).getCentroid()
                    far += o.dot(w) < math.cos(reach)
            c.check(far == 0, f"envelope-far:{kind}", lambda: f"the envelope of {region!r} at level {level} has {far} pixels that are far away")
    inner = h.interior(region)
    c.check(inner.isWithin(h.universe()), "interior-universe", lambda: f"the interior of {region!r} at level {level} is {inner!r}")
    c.check(inner.isWithin(e), f"interior-envelope:{kind}", lambda: f"the interior of {region!r} at level {level}, {inner!r}, is not in its envelope {e!r}")
    pixels = [i for a, z in inner.ranges() for i in ((a, z - 1) if z - a > 300 else range(a, z))]
    if len(pixels) > 60:
        pixels = r.sample(pixels, 60)
    for i in pixels:
        c.count("interior pixels")
        for u in corners(level, i):
            ok = region.contains(u)
            if not ok:
                # rounding of the corner
                p = np.array([u.x(), u.y(), u.z()])
                ok = any(region.contains(unit(p + 1e-15 * s * np.array(random_unit(r)))) for s in (1, 1, 2, 2, 4, 4, 4, 4)) or region.contains(unit(p + 2e-15 * (v - p) / np.linalg.norm(v - p)))
            c.check(ok, f"interior:{kind}", lambda: f"pixel {i} of the interior of {region!r} at level {level} has a corner {u!r} that is outside")
    # every pixel that is well inside is in the interior
    for p in points[:20]:
        i = int(h.index(p))
        lon, lat = hpg.pixel_to_angle(2**level, i, degrees=False)
        m = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
        outer = [m]
        for q in corners(level, i):
            q = np.array([q.x(), q.y(), q.z()])
            outer.append(q + 0.05 * (q - m))
            outer.append(q)
        if all(region.contains(unit(q)) for q in outer):
            c.count("pixels well inside")
            c.check(inner.contains(i), f"interior-missing:{kind}", lambda: f"the interior of {region!r} at level {level}, {inner!r}, does not have pixel {i}")


def corners(level, i):
    lon, lat = hpg.boundaries(2**level, i, step=1, degrees=False)
    return [sg.UnitVector3d(math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)) for a, b in zip(lon, lat)]


@section(120)
def arguments(c):
    r = c.rng
    level = r.randrange(18)
    h = sg.HealpixPixelization(level)
    c.eval(level)
    for n in (-1, -2, -100):
        c.raises(ValueError, "level", f"HealpixPixelization({n})", lambda n=n: sg.HealpixPixelization(n))
    circle = sg.Circle(sg.UnitVector3d(*random_unit(r)), sg.Angle(min(0.1, 3.0 / 2**level)))
    for f in (h.envelope, h.interior):
        c.check(f(circle) == f(circle, 0) == f(circle, maxRanges=0) == f(region=circle), "arguments", lambda: f"{f}")
        both = sg.UnionRegion(circle, circle)
        c.raises((ValueError, NotImplementedError), "compound", "the pixels of a compound region", lambda f=f, both=both: f(both))
    c.check(isinstance(h, sg.PixelizationABC), "abc", repr(h))
    c.check(h.level == h.getLevel() == level and h.nside == 2**level, "level", repr(h))


sys.exit(main())
