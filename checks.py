"""What each check runs: see run.py. The keys of CHECKS are property ids."""

HARNESS_FLAGS = {}

CHECKS = {
    "C04": dict(
        title="orientation",
        configs=[dict(harness="c04", variant="asan")],
        level="exploration",
        technique="runtime oracle: exact integer triple product over hostile vector triples, under ASan+UBSan",
        rule="triples of vectors: random, near-coplanar by construction, ulp-nudged, on coordinate planes and axes, with denormal components; "
             "a case is non-trivial if its nine components differ from every other case's; the exact sign is recomputed with boost::multiprecision",
    ),
    "C05": dict(
        title="bigint",
        configs=[dict(harness="c05", variant="asan")],
        level="exploration",
        technique="differential runtime oracle (boost::multiprecision) over operations, aliasing, capacities and histories, under ASan+UBSan",
        rule="operand values with carry/borrow-provoking digit patterns, storage sized exactly, too small or roomy; distinct by (operands, operation, shift)",
    ),
    "C13": dict(
        title="curves",
        configs=[dict(harness="c13", variant="asan"), dict(harness="c13", variant="portable", scale=0.5)],
        level="exploration",
        technique="runtime oracle: bitwise definitions and curve axioms, small orders enumerated, SIMD and scalar builds",
        rule="coordinates and indexes of every order 0..32 (orders 0..8 enumerated completely); distinct by (order, index)",
    ),
}

CHECKS["C14"] = dict(
    title="rangeset", configs=[dict(harness="c14", variant="asan")], level="exploration",
    technique="online reference-model monitor (sets as 128-bit intervals) over operation histories, under ASan+UBSan",
    rule="histories of inserts, erases, set operations, simplifications, scalings, copies and rebuilds over three sets with values "
         "clustered at 0, 2^63, 2^64 and random anchors, plus all 4096 sets over a 12-element universe at both ends; distinct by resulting set",
)
CHECKS["C15"] = dict(
    title="rangeset strong guarantee", configs=[dict(harness="c15", variant="asan")], level="fault_enumeration",
    technique="allocation failure injected at every allocation of every operation; contents, validity and live-block monitors, under ASan+UBSan",
    rule="one case is an operation on random sets; each allocation it makes fails in turn (k = 0, 1, ... until it completes); distinct by (operation, operands)",
)
CHECKS["C08"] = dict(
    title="membership", configs=[dict(harness="c08", variant="plain"), dict(harness="c08", variant="asan", scale=0.2)], level="exploration",
    technique="runtime oracle: long double geometric definition from constructor arguments, boundary-bisecting probes",
    rule="regions of every type from random, special and tiny/huge parameters; probe points on, next to, inside and outside the boundary found by bisection; "
         "a probe counts if the definition decides it beyond rounding tolerance; distinct by (region, point)",
)
CHECKS["C06"] = dict(
    title="relationships", configs=[dict(harness="c06", variant="plain"), dict(harness="c06", variant="asan", scale=0.1)], level="exploration",
    technique="runtime oracle: adversarial witness search (boundary samples plus hill climbing on long double margins) for points refuting reported relationships",
    rule="pairs of regions of all types, related (shared centres, vertices, tangent, nested, antipodal) or independent; "
         "distinct by encodings of both; each claim reported is attacked with about 200 candidate points",
)
CHECKS["C07"] = dict(
    title="bounds", configs=[dict(harness="c07", variant="plain"), dict(harness="c07", variant="asan", scale=0.1)], level="exploration",
    technique="runtime oracle: points the library itself reports as contained must be in all three bounds; hill climbing towards escaping points; size proportionality monitor",
    rule="regions of all types incl. pole-covering, meridian-crossing, near-degenerate; distinct by construction arguments; "
         "each is probed with about 150 points plus about 120 climbed ones",
)
CHECKS["C02"] = dict(
    title="decoding", configs=[dict(harness="c02", variant="asan"), dict(harness="c02", variant="plain", scale=0.3, skip=("deep_nesting_all",))], level="exploration",
    technique="AddressSanitizer and UBSan over decoders fed generated and mutated strings in exactly sized buffers; acceptance rules and live-block monitors",
    rule="byte strings: mutated, spliced, truncated and extended valid encodings, hostile fields and operand lengths, all strings of up to two bytes; distinct by content",
)
CHECKS["C03"] = dict(
    title="round trip", configs=[dict(harness="c03", variant="plain"), dict(harness="c03", variant="asan", scale=0.15), dict(harness="c03", variant="portable", scale=0.3)], level="exploration",
    technique="round-trip monitor: bit-identical re-encoding, an independent parser of the documented layout, behavioural comparison, strings persisted earlier",
    rule="regions of all types from the hostile generators, degenerate parameters, compound chains up to 300 deep and committed golden strings; distinct by encoding",
)
CHECKS["C10"] = dict(
    title="pixels", configs=[dict(harness="c10", variant="plain"), dict(harness="c10", variant="asan", scale=0.15), dict(harness="c10", variant="portable", scale=0.3)], level="exploration",
    technique="runtime oracle: long double pixel geometry, nesting across levels, neighbours found by walking around corners, area conservation",
    rule="vectors anywhere, on axes, on pixel corners and edges at every level, nudged by ulps; pixels at random and along root corners; distinct by (pixelization, level, index)",
)
CHECKS["C12"] = dict(
    title="levels and labels", configs=[dict(harness="c12", variant="asan")], level="exploration",
    technique="runtime oracle: labels and levels recomputed from base-4 digits and universe bounds, label/geometry consistency",
    rule="all indexes below 70400, all neighbourhoods of powers of two times root numbers, random ones of every level; distinct by index",
)
CHECKS["C11"] = dict(
    title="envelope and interior", configs=[dict(harness="c11", variant="plain"), dict(harness="c11", variant="asan", scale=0.05)], level="exploration",
    technique="runtime oracle: points of the region must be indexed into the envelope, points of interior pixels must be in the region (long double definition); cap and universe monitors",
    rule="regions of all types at sizes and places incl. pixel corners and pixels themselves, levels 0..max, caps 0..100; distinct by (region, pixelization, level, cap)",
)
CHECKS["C09"] = dict(
    title="hulls", configs=[dict(harness="c09", variant="plain"), dict(harness="c09", variant="asan", scale=0.1)], level="exploration",
    technique="runtime oracle: exact integer predicates certify accepted hulls and justify rejections; metamorphic monitors (order, repetition, redundant points)",
    rule="point sets: random in caps, whole sphere, clustered to ulps, exactly coplanar runs, antipodes, perturbed hulls; distinct by coordinates",
)
CHECKS["C16"] = dict(
    title="intervals", configs=[dict(harness="c16", variant="plain"), dict(harness="c16", variant="asan", scale=0.1)], level="exploration",
    technique="runtime oracle: point-set semantics decided at end points, their neighbours and midpoints",
    rule="pairs of intervals with end points from small palettes of hostile doubles, so that coincidences are frequent; all pairs over 8 special values; distinct by end points",
)
CHECKS["C17"] = dict(
    title="arcs", configs=[dict(harness="c17", variant="plain"), dict(harness="c17", variant="asan", scale=0.1)], level="exploration",
    technique="runtime oracle: order-isomorphic set model of arcs with brute-force smallest arcs; long double dilation and construction",
    rule="pairs of arcs whose end points coincide, neighbour by an ulp, or are random, wrapping or not, all 6561 pairs on an 8-step circle; distinct by end points",
)
CHECKS["C18"] = dict(
    title="set operations", configs=[dict(harness="c18", variant="plain"), dict(harness="c18", variant="asan", scale=0.1)], level="exploration",
    technique="runtime oracle: point witnesses against clipped, expanded, dilated, eroded and complemented shapes, long double sizes for minimality",
    rule="pairs of boxes, circles and 3-D boxes that share end points, touch, nest or are independent, dilation amounts around the sizes at which the shape vanishes or fills; distinct by operands",
)
CHECKS["C19"] = dict(
    title="chunks", configs=[dict(harness="c19", variant="plain"), dict(harness="c19", variant="asan", scale=0.1)], level="exploration",
    technique="runtime oracle: nominal grid recomputed in long double, point witnesses of regions, exhaustive identifier enumeration",
    rule="stripe and sub-stripe counts 1..10 enumerated, larger ones log-uniform; points on chunk corners, poles, longitude 0; regions of all types sized relative to chunks; distinct by (configuration, region or point)",
)
CHECKS["C20"] = dict(
    title="arithmetic", configs=[dict(harness="c20", variant="plain"), dict(harness="c20", variant="portable", scale=0.3, only=("normalization", "vectors")), dict(harness="c20", variant="asan", scale=0.05)], level="exploration",
    technique="runtime oracle: long double evaluation with error bounds derived from the magnitudes of the terms; SIMD and scalar builds",
    rule="components from zero and denormal to near overflow, ties among components, (anti)parallel vectors to rounding, near-singular matrices, angles of any magnitude; distinct by operands",
)
CHECKS["C21"] = dict(
    title="compounds", configs=[dict(harness="c21", variant="asan")], level="exploration",
    technique="online reference-model monitor: shadow expression trees over byte snapshots, checked through construction, copy, move, mutation and destruction histories, under ASan+UBSan",
    rule="trees up to 5 deep of all region types incl. empty and full; histories of 10..60 operations over a pool of regions whose leaves are later changed or destroyed; distinct by encoding",
)
CHECKS["C27"] = dict(
    title="measures", configs=[dict(harness="c27", variant="plain", scale=5), dict(harness="c27", variant="asan", scale=0.3)], level="exploration",
    technique="runtime oracle: 113-bit and long double evaluation, numerical integration, sampled distances",
    rule="boxes, circles, polygons and triangles of all sizes and places, segments with query points on, near, beside and opposite them, latitudes incl. equal, opposite and polar; distinct by arguments",
)
CHECKS["C29"] = dict(
    title="rejection", configs=[dict(harness="c29", variant="asan"), dict(harness="c29", variant="portable", scale=0.3, only=("vectors", "indexes"))], level="exploration",
    technique="runtime monitor of outcomes: each call is classified beforehand as valid or not from the documentation, and the exception observed is compared, under ASan+UBSan",
    rule="arguments concentrated at and next to the limits of every documented range, 32 and 64 bit extremes, special floating point values; distinct by (operation, arguments)",
)
CHECKS["C30"] = dict(
    title="allocation failure", configs=[dict(harness="c30", variant="asan")], level="fault_enumeration",
    technique="allocation failure injected at every allocation of every operation; live-block, operand and result monitors, under ASan+UBSan",
    rule="one case is an operation on random operands; each of its allocations fails in turn (a sample beyond the twentieth if there are more than sixty); distinct by (operation, operands)",
)
CHECKS["C23"] = dict(
    title="configurations", configs=[dict(harness="c23", variant="plain", aux=[("c23", "portable"), ("c23", "nosimd"), ("c23", "noopt")])], level="exploration",
    technique="differential runtime oracle: identical inputs fed to four builds of the library over pipes, answers compared bit by bit (real ones to rounding)",
    rule="vectors, curve values, indexes, regions and their pairs, pixel searches, chunk queries, orientations and hulls from the hostile generators; distinct by input",
)
CHECKS["C22"] = dict(
    title="concurrency", configs=[dict(harness="c22", variant="tsan"), dict(harness="c22", variant="plain", only=("histories", "shared"))], level="exploration",
    technique="ThreadSanitizer over concurrent const use, first use in fresh processes, and result digests against single-threaded reference executions",
    rule="one case is a set of 2..8 threads running random permutations of query tasks on shared or private objects with injected yields and sleeps; "
         "a case is distinct if the order in which the threads' tasks started differs, or, for histories of modifications, if task and answer differ",
)
CHECKS["C01"] = dict(
    title="memory and UB", level="exploration",
    configs=[dict(harness="c01", variant="asan"), dict(harness="c01", variant="portable_asan", scale=0.2), dict(harness="c01", variant="plain"),
             dict(harness="c01", variant="debug", name="c01-valgrind", scale=0.01,
                  wrap="valgrind -q --error-exitcode=99 --exit-on-first-error=yes --track-origins=yes --child-silent-after-fork=yes")],
    technique="ASan+UBSan (incl. float-cast-overflow), valgrind memcheck and a differently-filled-memory replay monitor over hostile calls of the public API, SIMD and scalar builds",
    rule="arguments from NaN, infinities, denormals, extremes, multiples of pi/4 with ulp offsets, random bits; objects built from them; decoded mutated encodings; "
         "a case is a batch of some twenty to two hundred public calls and is distinct if the values it returned differ",
)

# ---- Python
CHECKS["C24"] = dict(
    title="python bindings", configs=[dict(harness="c24", variant="plain", python=True, aux=["c24"])], level="exploration",
    technique="differential runtime oracle: each call is made in C++ and through the bindings on the same generated arguments and outcomes compared bit for bit; "
              "round-trip monitors for pickle, YAML, text and byte encodings; sequence and array monitors",
    rule="every wrapped operation with arguments from the C++ generators (related regions, boundary points, hostile numbers), by position and by keyword, bound and unbound; "
         "distinct by (operation, arguments)",
)
CHECKS["C25"] = dict(
    title="HEALPix", configs=[dict(harness="c25", variant="plain", python=True)], level="exploration",
    technique="runtime oracles: an independent implementation of the nested scheme for indexes; points of each region, bisected towards its boundary, must be indexed into the envelope; "
              "corners of interior pixels must be members",
    rule="levels 0 to 17; regions from 1e-9 radians to most of the sphere at pixel corners, edges, poles, face boundaries and longitude 0; distinct by (level, region or point)",
)
CHECKS["C26"] = dict(
    title="IVOA POS", configs=[dict(harness="c26", variant="plain", python=True, scale=3)], level="exploration",
    technique="runtime oracles: membership of points in the parsed region against the degrees in the string, round-trip monitor for written regions, rejection monitor for malformed strings",
    rule="grammar-based strings (number formats, separators, infinities, vertex orders) and mutations that make them malformed; circles, boxes and polygons incl. empty, full, polar and wrapping ones; "
         "distinct by string",
)
CHECKS["C28"] = dict(
    title="Python object lifetimes", configs=[dict(harness="c28", variant="asan", python=True, aux=["c24"])], level="sanitizer",
    technique="AddressSanitizer and UBSan on the extension module under hostile Python programs; monitors of reference counts, allocated bytes, exception kinds and of results after their sources are gone",
    rule="every wrapped operation with wrong types and counts, deleted and modified sources, repeated calls, objects with hostile conversions; random programs over a pool; distinct by operation and case or program",
)

# Checks whose cases are cheap get more of them.
for _id, _factor in {"C03": 8, "C04": 3, "C05": 2, "C12": 3, "C13": 6, "C15": 2, "C16": 8, "C17": 8, "C18": 3, "C20": 4, "C27": 4, "C29": 4, "C30": 2}.items():
    for _c in CHECKS[_id]["configs"]:
        _c["scale"] = _c.get("scale", 1) * _factor
