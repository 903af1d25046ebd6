#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that long texts stay readable)."""
import json, pathlib

P = []
INC = "include/lsst/sphgeom/"
SRC = "src/"
PY = "python/lsst/sphgeom/"


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)


p("C01", "Public operations never corrupt memory, overflow or execute undefined behaviour",
  """For any arguments the signatures admit (NaN, infinities, denormals, signed zeros, huge and tiny
  magnitudes, degenerate, empty and full regions), every public C++ operation on angles, vectors, intervals,
  boxes, circles, ellipses, polygons, compound regions, pixelizations, chunkers and range sets either returns
  or throws a std::exception. It never reads or writes outside live objects, never lets uninitialised memory
  influence a result, and never overflows signed integers or converts an unrepresentable floating point value
  to an integer.""",
  ["inputs", "programs"],
  """all argument values and sequences of public calls; excluded are only inputs documented as preconditions
  (iterators outside their sequence, UnitVector3d::fromNormalized given a non-unit vector) and objects that were moved from""",
  """the tests call each operation with a handful of well-formed finite values and are built without
  sanitizers, so an out-of-bounds access or overflow on an unusual value passes silently""",
  ["src", "include/lsst/sphgeom"],
  [("vector normalisation lookup table", SRC + "Vector3d.cc"),
   ("region finder over sub-pixels", SRC + "PixelFinder.h"),
   ("stripe and chunk arithmetic", SRC + "Chunker.cc"),
   ("range merging with sentinel book-ends", SRC + "RangeSet.cc")],
  ["ASan/UBSan/valgrind reports while the calls execute"])

p("C02", "Decoding untrusted bytes is memory safe and yields a region or an exception",
  """Decoding any byte string of any length, through the generic region decoder or the decoder of a specific
  region type, either throws an exception derived from std::exception or returns a non-null usable region.
  It never reads outside the supplied bytes, recurses without bound on short input, leaks, or crashes. Truncating or extending a
  valid encoding is rejected, except that the encoding of a polygon may lose or gain whole vertices.""",
  ["inputs"],
  "all byte strings: random, truncated, extended, spliced, bit-flipped and nested encodings of all six region types",
  """the tests decode only what encode() produced plus very few wrong inputs; the set of malformed strings is unbounded""",
  [SRC + "Region.cc", SRC + "CompoundRegion.cc", SRC + "ConvexPolygon.cc", SRC + "Circle.cc", SRC + "Box.cc",
   SRC + "Ellipse.cc", INC + "codec.h"],
  [("type-code dispatch and size checks", SRC + "Region.cc"),
   ("length-prefixed operand parsing", SRC + "CompoundRegion.cc: _decode"),
   ("vertex count check", SRC + "ConvexPolygon.cc: decode")],
  ["Region::decode", "Box/Circle/Ellipse/ConvexPolygon/CompoundRegion/UnionRegion/IntersectionRegion::decode"])

p("C03", "Encoding then decoding reproduces every region exactly",
  """For every region with finite parameters, including compounds nested to any depth and empty, full and degenerate ones, decoding its
  encoding yields a region of the same type with bit-identical parameters, so all queries answer identically and
  re-encoding gives the same bytes. The byte layout is fixed (type code, then little-endian fields; compound operands length-prefixed),
  so strings persisted earlier still decode to the same region.""",
  ["inputs"],
  "all regions of the six types, all nestings; every persisted encoding of the committed golden set",
  "tests round-trip one or two instances per type; bit-exactness over all doubles and nestings is not sampled",
  [SRC + "Box.cc", SRC + "Circle.cc", SRC + "Ellipse.cc", SRC + "ConvexPolygon.cc", SRC + "CompoundRegion.cc", INC + "codec.h"],
  [("double and length codec", INC + "codec.h"), ("per-type encode/decode", "src/*.cc encode, decode")],
  ["encode()", "decode()"])

p("C04", "Orientation predicates return the exact sign of the triple product",
  """For all triples of unit vectors, however close to coplanar, identical or antipodal, the orientation predicate
  returns the exact sign of the scalar triple product of their double precision components. It is therefore
  antisymmetric under swaps and invariant under rotation of its arguments, and the specialised variants for a
  coordinate axis as first argument agree with the general and the always-exact one.""",
  ["inputs"],
  "all triples of (nearly) unit vectors with arbitrary double components, including denormal components",
  "tests use a few hand-made triples; the fallback to exact arithmetic is hit only for near-degenerate ones",
  [SRC + "orientation.cc", INC + "orientation.h", SRC + "BigInteger.cc"],
  [("floating point filter", SRC + "orientation.cc: orientation"),
   ("exact sign by arbitrary precision products", SRC + "orientation.cc: orientationExact")],
  ["orientation, orientationExact, orientationX/Y/Z"])

p("C05", "Arbitrary precision integers compute exact results",
  """Assignment, negation, addition, subtraction, multiplication and multiplication by powers of two of arbitrary
  precision integers produce exactly the mathematical integer result, including the sign and a canonical size
  without leading zero digits, for all operands whose result fits the supplied digit storage. An operation whose result
  may not fit throws instead of writing beyond the storage.""",
  ["inputs", "histories"],
  "all operand values, signs, sizes, shift counts, digit-buffer capacities, and operation sequences",
  "tests check a few literal values; carry/borrow and shift corner cases depend on digit patterns",
  [SRC + "BigInteger.cc", INC + "BigInteger.h"],
  [("digit array add/sub/mul", SRC + "BigInteger.cc"), ("sign/size invariant", INC + "BigInteger.h")],
  ["BigInteger accessors and digits"])

p("C06", "Spatial relationships reported by relate() are never contradicted by a point",
  """For every pair of regions of any types (box, circle, ellipse, convex polygon, union, intersection; empty and
  full included), a reported 'disjoint' means no point is in both, 'contains' means no point of the second is outside
  the first, and 'within' the converse. This holds for generic and type-specific relation queries in either order, for
  polygon and box predicates derived from them, and inverting a relationship swaps exactly contains and within.""",
  ["inputs"],
  "all ordered pairs of regions; witnesses are points lying clearly (beyond the documented rounding tolerances) inside or outside",
  "tests relate a small number of hand-placed region pairs; each of the 36 type pairs has its own algorithm",
  [SRC + "Box.cc", SRC + "Circle.cc", SRC + "Ellipse.cc", SRC + "ConvexPolygon.cc", SRC + "ConvexPolygonImpl.h",
   SRC + "CompoundRegion.cc", INC + "Relationship.h"],
  [("double-dispatched relate overloads", "src/*.cc relate"),
   ("polygon edge/circle/box relation templates", SRC + "ConvexPolygonImpl.h")],
  ["Region::relate and type-specific relate/contains/isDisjointFrom/isWithin"])

p("C07", "Bounding boxes, bounding 3-D boxes and bounding circles contain the region",
  """Every point contained in a region is contained, up to rounding, in its bounding (longitude/latitude) box, its bounding 3-D box and
  its bounding circle, for every region type including regions covering a pole, crossing longitude zero, or compound.
  Empty regions have empty bounds, and the bounds are proportionate: for small non-compound regions away from the poles their
  angular extent is at most a small constant multiple of the region's own extent.""",
  ["inputs"],
  "all regions, probed at boundary points, extremal points and interior points",
  "tests check a few regions; wrap-around, poles and extremal edge points are special cases of the inputs",
  [SRC + "Box.cc", SRC + "Circle.cc", SRC + "Ellipse.cc", SRC + "ConvexPolygon.cc", SRC + "ConvexPolygonImpl.h", SRC + "CompoundRegion.cc"],
  [("polygon extremal latitude/longitude search", SRC + "ConvexPolygonImpl.h: boundingBox/boundingCircle/boundingBox3d"),
   ("half width for circle", SRC + "Box.cc")],
  ["getBoundingBox/getBoundingBox3d/getBoundingCircle + contains"])

p("C08", "Point membership matches each region's geometric definition in all overloads",
  """Away from a region's boundary by more than rounding tolerance, contains() is true exactly for the points the region
  is defined to consist of: within the opening angle of a circle, with sum of angular distances to the foci at most twice the
  semi-major angle for an ellipse, on the inner side of every edge of a polygon, with longitude and latitude in a box's intervals.
  The overloads taking a unit vector, three components, or longitude and latitude agree, the empty region contains no point and the full region every point. The semi-axis angles, foci, center and transform matrix reported by an ellipse describe the region it contains.""",
  ["inputs"],
  """all regions and all points on the sphere farther than rounding tolerance from the boundary (a few 1e-14 rad, growing to about 1e-7
  rad near the antipode of the centre of a circle or ellipse, where chord lengths determine angles poorly)""",
  "tests probe a few points per region; degenerate axes, poles, antipodes and wrapped longitudes are special inputs",
  [SRC + "Circle.cc", SRC + "Ellipse.cc", SRC + "ConvexPolygon.cc", SRC + "ConvexPolygonImpl.h", SRC + "Box.cc", INC + "Box.h", SRC + "Region.cc"],
  [("squared chord length test", INC + "Circle.h"), ("quadratic form test", SRC + "Ellipse.cc: contains"),
   ("orientation of point against edges", SRC + "ConvexPolygonImpl.h: contains")],
  ["Region::contains overloads"])

p("C09", "Convex hull construction yields the minimal convex polygon or throws",
  """Given any finite set of unit vectors, hull construction either throws or returns a convex polygon whose vertices are
  taken from the input in counter-clockwise order with strictly positive turn at every corner, and which contains every
  input point. The result does not depend on order or repetition of the input points. Point sets that lie strictly inside a hemisphere
  and have a non-degenerate hull are accepted, while sets with no enclosing hemisphere, antipodal pairs, or fewer than three
  non-coplanar points are rejected.""",
  ["inputs"],
  """all finite point sets: random, clustered to rounding distance, collinear runs, duplicates, antipodal, hemisphere-covering, all permutations; distinct
  points whose components differ only below 1e-150 are excluded""",
  "tests use a few point sets; degeneracies (coplanar, nearly equal, antipodal) are measure-zero inputs",
  [SRC + "ConvexPolygon.cc", INC + "ConvexPolygon.h"],
  [("plane search", SRC + "ConvexPolygon.cc: findPlane"), ("Graham-like insertion", SRC + "ConvexPolygon.cc: computeHull")],
  ["ConvexPolygon(points), ConvexPolygon::convexHull, getVertices, contains"])

p("C10", "Pixel index and pixel geometry agree and pixels partition the sphere",
  """For the HTM, Q3C and modified-Q3C pixelizations at every level, indexing a unit vector gives an index in the universe
  whose pixel contains the vector (always for Q3C and modified-Q3C, whose pixels are dilated for this purpose; up to rounding at pixel edges for HTM), and indexing a point in a pixel's interior gives back that pixel. Pixels nest: the index at a
  coarser level is obtained by dropping the corresponding low-order bits, sibling pixels cover exactly their parent, and
  the pixels of the universe have areas that sum to the whole sphere. Neighbourhoods of a quad pixel consist of exactly that pixel and
  the pixels sharing an edge or corner with it.""",
  ["inputs", "configurations"],
  "all unit vectors (including edges, corners, face boundaries, axes, poles), all indexes, all levels 0..MAX_LEVEL",
  "tests cover a few points and low levels; deep levels have up to 2^63 pixels",
  [SRC + "HtmPixelization.cc", SRC + "Q3cPixelization.cc", SRC + "Q3cPixelizationImpl.h", SRC + "Mq3cPixelization.cc", SRC + "Mq3cPixelizationImpl.h"],
  [("trixel descent", SRC + "HtmPixelization.cc: index"), ("cube-face projection and Hilbert curve", SRC + "Q3cPixelizationImpl.h"),
   ("modified (equal-area-like) projection", SRC + "Mq3cPixelizationImpl.h"), ("neighbour tables", "src/*q3cPixelization.cc: neighborhood")],
  ["index, pixel, triangle, quad, universe, neighborhood"])

p("C11", "Envelope is a superset and interior a subset of the pixels of a region",
  """For every region, pixelization, level and range cap, the envelope contains the index of every point of the region,
  and every pixel of the interior lies within the region (points and pixels within about 1e-15 rad of each other's edges may be judged either way). A non-zero cap bounds the number of ranges returned, all
  returned indexes are valid pixels of the universe, and without a cap the envelope consists only of pixels that touch the region
  (up to rounding, and up to its bounding circle for ellipses and its operands for compounds).""",
  ["inputs", "configurations"],
  "all regions of all types, three pixelizations, all levels, all maxRanges",
  "tests check a few circles at low level, uncapped; pruning and range-capping depend on geometry and level",
  [SRC + "PixelFinder.h", SRC + "HtmPixelization.cc", SRC + "Q3cPixelization.cc", SRC + "Mq3cPixelization.cc", SRC + "RangeSet.cc", INC + "Pixelization.h"],
  [("tree descent with level reduction", SRC + "PixelFinder.h"), ("range simplification", SRC + "RangeSet.cc: simplify")],
  ["envelope, interior"])

p("C12", "Pixel levels and labels are faithful and unique",
  """For HTM and modified-Q3C the level derived from an index is the level of the pixelization whose universe contains it, and for
  integers that are no index at any level it is -1 (for HTM possibly a level above the maximum for the indexes such a level would have). The textual label of a pixel is distinct for distinct pixels of
  a level, encodes root and every subdivision step, and extends its parent's label by one character. The label of an index agrees between the pixelization object and the static form.""",
  ["inputs", "configurations"],
  "all 64-bit integers, all levels, all indexes",
  "tests check a few indexes; the integers that are not indexes are almost all of the 2^64",
  [SRC + "HtmPixelization.cc", SRC + "Mq3cPixelization.cc", SRC + "Q3cPixelization.cc"],
  [("level from the position of the top bit", SRC + "HtmPixelization.cc: level"), ("asString", SRC + "HtmPixelization.cc")],
  ["level, asString, toString"])

p("C13", "Morton and Hilbert curve maps are exact inverse bijections",
  """For all coordinates the Morton index interleaves exactly the bits of x and y, and its inverse recovers them.
  For every order m the Hilbert index is a bijection between m-bit coordinate pairs and 2m-bit indexes with consecutive indexes at
  adjacent grid cells and with the order m-1 curve as its coarsening; inverse and Morton conversions agree with it.
  The integer base-2 logarithm is exact for all positive integers.""",
  ["inputs"],
  "all 32-bit coordinate pairs, all 64-bit indexes, all orders 0..32",
  "tests enumerate small orders only",
  [INC + "curve.h"],
  [("bit interleaving, SIMD and scalar", INC + "curve.h: mortonIndex"), ("Hilbert look-up tables", INC + "curve.h: mortonToHilbert"), ("log2", INC + "curve.h")],
  ["log2, mortonIndex*, hilbertIndex*, mortonToHilbert, hilbertToMorton"])

p("C14", "Range sets behave as mathematical sets of 64-bit integers",
  """After any sequence of insertions, erasures, complements, unions, intersections, differences, symmetric differences, simplifications and
  scalings, a range set holds exactly the integers the corresponding set operations define, as sorted, disjoint, non-adjacent ranges, and reports itself valid.
  Membership, containment, intersection and disjointness queries, equality, emptiness, fullness, range count, cardinality
  and forward, reverse and random-access iteration all agree with that set.""",
  ["inputs", "histories"],
  "all operation histories over all 64-bit values including 0, 2^64-1, wrapping ranges (first > last) and full ranges (first == last), self-arguments",
  "tests exercise short scripted histories; book-end handling at 0 and 2^64 depends on the combination of neighbours",
  [SRC + "RangeSet.cc", INC + "RangeSet.h"],
  [("sorted end points with zero book-ends", SRC + "RangeSet.cc"), ("complement by offset toggle", INC + "RangeSet.h")],
  ["all public RangeSet members"], [("ranges", "sorted range end points plus book-ends", "RangeSet")])

p("C15", "Range set updates are strongly exception safe",
  """If memory allocation fails during any range set operation documented as strongly exception safe (insertion and erasure of an
  integer or a range, and the set operations that return or assign a result), the exception propagates and every involved set keeps exactly the
  contents it had before and remains valid and usable. No memory is leaked.""",
  ["fault_sequences", "histories"],
  "every allocation performed by the operation is made to fail once, for all reachable set shapes",
  "tests never inject allocation failures",
  [SRC + "RangeSet.cc", INC + "RangeSet.h"],
  [("reserve before modification", SRC + "RangeSet.cc: insert, erase")],
  ["operator new failure injection, contents before and after"])

p("C16", "One-dimensional and angle intervals obey closed-interval algebra",
  """Closed intervals of numbers or angles contain exactly the values between their end points; containment, intersection, disjointness, within and
  relate agree with that set. Clipping yields exactly the set intersection and expanding the smallest interval containing both,
  with empty intervals (any NaN or reversed end points) acting as the empty set and all empty intervals equal. Dilation moves both ends outward by the radius and erosion inward, empty stays empty.""".replace("radius and erosion inward, empty stays empty.", "radius and erosion inward."),
  ["inputs"],
  "all pairs of doubles as end points including NaN, infinities, signed zero, reversed",
  "tests use a few intervals",
  [INC + "Interval.h", INC + "Interval1d.h", INC + "AngleInterval.h"],
  [("interval CRTP base", INC + "Interval.h")],
  ["Interval1d, AngleInterval members"])

p("C17", "Normalized angle intervals obey circular-arc algebra",
  """A normalized-angle interval represents the counter-clockwise arc of angles in [0, 2 pi] from its first to its second angle, across zero if the first is larger.
  Point and interval containment, intersection, disjointness, within and relate agree with the arcs as sets of such numbers. Clipping yields an interval
  that contains the intersection of the arcs and lies within one of them, expanding yields a smallest-possible arc containing both, and dilating or eroding changes the arc by the radius at
  both ends, becoming full or empty when it covers the circle or vanishes.""",
  ["inputs", "histories"],
  "all pairs of arcs and points on the circle, wrapping and not, full, empty, single points, shared end points",
  "tests check selected pairs; there are many relative placements of two wrapping arcs",
  [SRC + "NormalizedAngleInterval.cc", INC + "NormalizedAngleInterval.h", SRC + "NormalizedAngle.cc"],
  [("case analysis over wrapping", SRC + "NormalizedAngleInterval.cc")],
  ["NormalizedAngleInterval members"])

p("C18", "Clip, expand, dilate and erode of boxes and circles respect set inclusion",
  """For boxes, 3-D boxes and circles, clipping keeps every point common to both operands, yields for 3-D boxes exactly the intersection, for boxes a box within the
  longitudes and the latitudes of an operand, and for circles one no larger than the smaller operand (empty if they are clearly disjoint); expanding keeps every point of both operands.
  Dilating by a positive angle contains every point within that distance, eroding contains only points whose neighbourhood of that radius was inside (in a box, the poles
  do not count as outside), a zero or empty operand is unchanged, and complementing a circle or ellipse swaps inside and outside.
  In-place and copying forms give the same result and the operand of a copying form is unchanged.""",
  ["inputs", "histories"],
  "all operand pairs incl. empty, full, pole-covering and wrapping; all radii including zero, negative and larger than pi",
  "tests check a few pairs",
  [SRC + "Box.cc", INC + "Box.h", INC + "Box3d.h", SRC + "Box3d.cc", SRC + "Circle.cc", INC + "Circle.h", SRC + "Ellipse.cc"],
  [("per-dimension interval ops", INC + "Box.h"), ("chord-length algebra", SRC + "Circle.cc")],
  ["clipTo/clippedTo, expandTo/expandedTo, dilateBy, erodeBy, complement"])

p("C19", "Chunks and sub-chunks tile the sky and intersection queries miss none",
  """For every valid stripe configuration, chunk and sub-chunk identifiers are unique, decode to their stripe and chunk, and every point of the
  sky lies in the bounding box of at least one chunk and of one of its sub-chunks; chunks are at least as wide as their stripe is high and not needlessly wide. The chunks and sub-chunks reported for a region include every one whose nominal (undilated) box contains
  a point of the region, every reported identifier is among the enumerated valid ones with no duplicates, and identifiers are judged valid exactly if enumerated.""",
  ["inputs", "configurations"],
  "all stripe/sub-stripe counts, all regions and points",
  "tests check a couple of configurations and boxes",
  [SRC + "Chunker.cc", INC + "Chunker.h"],
  [("stripe tables", SRC + "Chunker.cc: constructor"), ("overlap with dilated bounding box", SRC + "Chunker.cc: getChunksIntersecting, getSubChunksIntersecting")],
  ["getAllChunks, getAllSubChunks, getChunksIntersecting, getSubChunksIntersecting, bounding boxes, valid"])

p("C20", "Angle, vector, matrix and coordinate arithmetic is accurate",
  """Normalising any finite non-zero vector gives a vector of unit norm to rounding that is parallel to it, whatever its magnitude, and zero vectors are
  rejected. Normalised angles lie in [0, 2 pi] and equal the given angle modulo 2 pi. Conversions between degrees and radians and between longitude/latitude and
  unit vectors are mutually inverse to rounding, and vector products, rotations and matrix operations match exact evaluation to rounding.""",
  ["inputs"],
  """all finite doubles from denormal to near-overflow, all angles, all directions including the poles; the longitude and latitude of vectors that are
  not normalised only for norms between 1e-60 and 1e60""",
  "tests use a few values of ordinary magnitude",
  [SRC + "Vector3d.cc", SRC + "UnitVector3d.cc", SRC + "LonLat.cc", SRC + "NormalizedAngle.cc", INC + "Matrix3d.h", INC + "Angle.h"],
  [("scaled normalisation", SRC + "Vector3d.cc: normalize"), ("range reduction", SRC + "NormalizedAngle.cc"), ("robust cross product", INC + "UnitVector3d.h")],
  ["Vector3d, UnitVector3d, LonLat, Angle, NormalizedAngle, Matrix3d members"])

p("C21", "Compound regions are set unions and intersections with independent operands",
  """A union region contains a point exactly if one of its operands does and an intersection region exactly if both do, to any nesting depth and in every contains overload. Compounds own
  deep copies: changing, moving or destroying the regions used to build one, or a copy or clone of it, never changes it. Listing the regions of a union
  or intersection yields copies of exactly its two operands in order, and of any other region a copy of that region. The bounds of a compound contain it, and no relation it reports with another region is contradicted by a point.""",
  ["inputs", "histories"],
  "all operand types, nestings and construction, copy, move and destruction orders; all points",
  "tests use two fixed operands and depth one",
  [SRC + "CompoundRegion.cc", INC + "CompoundRegion.h", SRC + "Region.cc"],
  [("owned operand pointers", INC + "CompoundRegion.h"), ("getRegions flattening", SRC + "Region.cc")],
  ["contains, relate, clone, getOperand, getRegions, bounds"])

p("C22", "Concurrent use of shared constant objects is race free and deterministic",
  """Any number of threads may concurrently query shared constant regions, pixelizations, chunkers and range sets, and use the library's free functions, without data races,
  including during the first use of any lazily initialised table. Every thread obtains exactly the results a single-threaded execution gives, and repeated queries on an unchanged object give the same answer.""",
  ["schedules", "inputs"],
  "all interleavings of const calls from several threads, including first use",
  "tests are single-threaded",
  ["src", SRC + "HtmPixelization.cc", SRC + "Mq3cPixelization.cc", SRC + "Q3cPixelization.cc"],
  [("function-local static tables", SRC + "HtmPixelization.cc: rootVertex"), ("constant lookup tables", SRC + "Q3cPixelizationImpl.h")],
  ["ThreadSanitizer/helgrind reports; result digests per thread"])

p("C23", "Optimised and portable builds give the same results",
  """The library built with SIMD and platform-specific fast paths and the library built in portable scalar form give the same answers for the same inputs: identical indexes, curve values, orientations,
  range sets, encodings and region relationships, and floating point results equal to rounding. Encodings written by one build decode identically in the other.""",
  ["configurations", "inputs"],
  "default, no-SIMD, and no-optimised-path builds, on all inputs",
  "tests only ever run one build configuration",
  [INC + "codec.h", INC + "curve.h", SRC + "Q3cPixelizationImpl.h", SRC + "Mq3cPixelizationImpl.h", SRC + "Vector3d.cc"],
  [("NO_SIMD alternatives", "src/*Impl.h, include/lsst/sphgeom/curve.h"), ("NO_OPTIMIZED_PATHS alternatives", INC + "codec.h, RangeSet.h")],
  ["digests of results of the same workload in each build"])

p("C24", "Python bindings agree with the C++ library and serialise losslessly",
  """Every wrapped Python operation returns what the C++ operation returns for the same arguments, including vectorised membership over arrays, sequence indexing, default arguments and operators, and in-place operations modify and
  return the receiver. Pickle, YAML, repr evaluation and byte encoding each reproduce an equal object, and sequence access outside the valid range raises IndexError while
  C++ exceptions surface as Python exceptions.""",
  ["inputs", "programs"],
  "all wrapped classes and methods, all argument values and array shapes",
  "Python tests call each binding once or twice",
  ["python/lsst/sphgeom", INC + "python"],
  [("pybind11 class definitions", "python/lsst/sphgeom/_*.cc"), ("YAML representers", PY + "_yaml.py"), ("interval helper template", INC + "python/interval.h")],
  ["Python API against an independent Python model and against the C++ library"])

p("C25", "HEALPix pixelization indexes, envelopes and interiors are consistent",
  """At every level the HEALPix index of a unit vector lies in the universe and is the nested-scheme pixel containing it, and a pixel's polygon contains the pixel's central points. The envelope of a circle, box, ellipse or
  convex polygon of positive size, however small, contains the index of every point of that region. Every pixel of its interior has its corners
  inside the region, and the interior has every pixel whose centre and corners lie well inside it.""",
  ["inputs", "configurations"],
  "all levels 0..17, regions of any size from sub-pixel to hemisphere, all points (except that hpgeom itself may misplace points less than 1e-14 radians west of longitude 0)",
  "tests check a few regions of several pixels",
  [PY + "_healpixPixelization.py", PY + "pixelization_abc.py"],
  [("oversampled query plus neighbour dilation", PY + "_healpixPixelization.py: envelope")],
  ["HealpixPixelization methods"])

p("C26", "IVOA POS strings convert to equivalent regions and back",
  """Parsing an IVOA POS string (CIRCLE, RANGE with infinities, POLYGON) gives the region whose membership matches the string's degrees, writing a circle, box or polygon
  and parsing the text gives the same region to rounding. Malformed strings (an unknown shape, a wrong number of coordinates, words that are not numbers, latitudes beyond the poles,
  vertices that do not form a convex polygon) raise ValueError without producing a region.""",
  ["inputs"],
  "all well-formed POS strings (infinities only in RANGE) and malformed ones; all circles, boxes and polygons, except polygons that are degenerate to rounding and empty boxes with latitudes beyond the poles",
  "tests check a few literal strings",
  [PY + "_continue_class.py"],
  [("string parsing", PY + "_continue_class.py: from_ivoa_pos"), ("string formatting", PY + "_continue_class.py: to_ivoa_pos")],
  ["Region.from_ivoa_pos, to_ivoa_pos"])

p("C27", "Areas, centroids and angle/chord distance helpers are correct",
  """Areas of boxes and circles equal the analytic spherical area, additive over subdivision. Polygon centroids lie in the polygon and do not depend on the starting vertex, and
  the weighted centroid of a non-degenerate triangle matches numerical integration, to rounding relative to the width of the polygon (polygons smaller than 1e-4 rad may be treated as planar). The minimum and maximum squared chord length from a point to a great-circle segment and the
  minimum and maximum angle to a circle bound, and are attained by, distances to points of that segment or circle.""",
  ["inputs"],
  "all boxes, circles, polygons, triangles, segments and points",
  "tests check one or two closed-form cases",
  [SRC + "utils.cc", SRC + "ConvexPolygonImpl.h", SRC + "Box.cc", SRC + "Circle.cc", SRC + "ConvexPolygon.cc"],
  [("segment distance", SRC + "utils.cc"), ("Minkowski-type centroid", SRC + "ConvexPolygonImpl.h: centroid")],
  ["getArea, getCentroid, getMin/MaxSquaredChordLength, getMin/MaxAngleToCircle, getWeightedCentroid"])

p("C28", "Python objects never dangle or crash the interpreter",
  """No sequence of Python-level calls, with arguments of any type or value, object deletions and garbage collections crashes the interpreter or touches freed memory: results obtained from a region, compound, set or
  iterator remain valid after their source is deleted or modified. Wrong argument types or counts raise an exception, and repeated
  use does not leak memory.""",
  ["programs", "histories"],
  "all call sequences, argument types, deletion orders (the number of bits given to the Hilbert curve functions being one, 0 to 32)",
  "Python tests keep every object alive and pass well-typed arguments",
  ["python/lsst/sphgeom", INC + "python"],
  [("cloneOperand returns a copy", PY + "_compoundRegion.cc"), ("index conversion", INC + "python/utils.h: convertIndex"), ("return value policies", "python/lsst/sphgeom/_*.cc")],
  ["AddressSanitizer-instrumented extension module under a hostile Python workload"])

p("C29", "Invalid arguments are rejected with an exception, never silently accepted",
  """Pixelization levels out of range, pixel indexes that are no pixel, non-positive or excessive chunker dimensions, chunk bounding boxes of non-existing stripes, polygons of fewer than three or of non-hemispherical points, zero vectors to be normalised, latitudes outside [-pi/2, pi/2],
  ellipses with contradictory parameters and foreign region classes given to pixelizations raise the documented exception, and chunk identifiers are judged valid exactly if they exist.
  All valid arguments at the edges of these ranges are accepted.""",
  ["inputs", "configurations"],
  """all argument values, valid and not, with emphasis on the limits of each valid range; HTM pixel geometry and labels are available for valid indexes of any level, not only the object's""",
  "tests try one invalid value for some of the checks",
  [SRC + "HtmPixelization.cc", SRC + "Q3cPixelization.cc", SRC + "Mq3cPixelization.cc", SRC + "Chunker.cc", SRC + "ConvexPolygon.cc", SRC + "LonLat.cc", SRC + "Vector3d.cc", SRC + "Ellipse.cc"],
  [("argument checks at entry", "src/*.cc")],
  ["exceptions from constructors and methods"])

p("C30", "Allocation failure anywhere is survived without leaks or corruption",
  """If a memory allocation fails at any point inside encoding, decoding, cloning, hull construction, pixel enumeration, chunk queries or compound construction, the failure surfaces as an exception, all memory acquired so far is released, and the objects involved still answer every query as before.
  Without failures, every operation releases all memory it does not return.""",
  ["fault_sequences", "inputs"],
  "each allocation of each operation failed in turn, over all region types and operations",
  "tests never inject allocation failures or count allocations",
  ["src", SRC + "CompoundRegion.cc", SRC + "PixelFinder.h", SRC + "Chunker.cc", SRC + "ConvexPolygon.cc"],
  [("RAII ownership", "src/*.cc"), ("unique_ptr operands", INC + "CompoundRegion.h")],
  ["operator new/delete accounting with failure injection"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d, ensure_ascii=False) + "\n" for d in P))
for d in P:
    assert len(d["title"]) <= 80, d["id"]
print(len(P))
