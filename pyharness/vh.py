"""Workload and monitor support for the Python harnesses: the counterpart of harness/vh.h."""

import ctypes
import json
import math
import mmap
import os
import random
import signal
import struct
import sys
import traceback

M64 = (1 << 64) - 1


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def hash_bytes(b, h=0):
    h = mix(h ^ len(b))
    n = len(b) // 8 * 8
    for (x,) in struct.iter_unpack("<Q", b[:n]):
        h = mix(h ^ x)
    return mix(h ^ int.from_bytes(b[n:], "little"))


SECTIONS = []


def section(cases, name=None):
    def register(f):
        SECTIONS.append((name or f.__name__, cases, f))
        return f
    return register


class StopCase(Exception):
    pass


class Ctx:
    def __init__(self):
        self.evaluations = self.failures = 0
        self.distinct = set()
        self.counts = {}
        self.by_key = {}
        self.samples = []
        self.verbose = False
        self.out = sys.stdout

    def eval(self, h=None):
        """Records one oracle decision on a case identified by `h` (bytes, an integer or text)."""
        self.evaluations += 1
        if h is not None and len(self.distinct) < 400000:
            if isinstance(h, str):
                h = h.encode()
            self.distinct.add(hash_bytes(h) if isinstance(h, bytes) else mix(h))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, f):
        if len(self.samples) < 2 and (self.index % 7 == 0 or self.verbose):
            self.samples.append(f"{self.section}: {f()}"[:600])

    def fail(self, key, msg):
        self.failures += 1
        if self.verbose:
            print(f"FAIL {key}: {msg}", file=sys.stderr)
        self.by_key[key] = self.by_key.get(key, 0) + 1
        if self.by_key[key] <= 3:
            self.out.write(json.dumps(dict(kind="fail", section=self.section, case=self.index, key=key, msg=msg[:3000])) + "\n")
            self.out.flush()

    def check(self, ok, key, msg):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)

    def raises(self, kinds, key, what, f):
        """Checks that f() raises one of `kinds`."""
        try:
            r = f()
        except kinds:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"{what} raised {type(e).__name__} ({e}) instead of {kinds}")
            return False
        self.fail(key, f"{what} returned {r!r} instead of raising {kinds}")
        return False


def main():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if sys.argv[1:] == ["--list"]:
        for n, k, _ in SECTIONS:
            print(n, k)
        return 0
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    c = Ctx()
    c.verbose = "--verbose" in a
    c.seed = int(a.get("--seed", 0))
    if "--out" in a:
        c.out = open(a["--out"], "a")
    crumb = None
    if "--crumb" in a:
        fd = os.open(a["--crumb"], os.O_RDWR | os.O_CREAT, 0o600)
        os.ftruncate(fd, 8)
        crumb = mmap.mmap(fd, 8)
    f = {n: f for n, _, f in SECTIONS}.get(a["--section"])
    if f is None:
        print("no such section", file=sys.stderr)
        return 3
    c.section = a["--section"]
    for i in range(int(a["--from"]), int(a["--to"])):
        if crumb:
            crumb[:8] = struct.pack("<Q", i)
        c.index = i
        c.case_seed = mix(mix((c.seed * 0x51ED27 + 17) & M64) ^ hash_bytes(c.section.encode()) ^ mix(i))
        c.rng = random.Random(c.case_seed)
        try:
            f(c)
        except StopCase:
            pass
        except Exception:  # noqa: BLE001
            c.fail("unexpected-exception", traceback.format_exc()[-2500:])
        if c.failures > 200:
            break
    c.out.write(json.dumps(dict(kind="done", section=c.section, evaluations=c.evaluations, failures=c.failures,
                                counts=c.counts, samples=c.samples)) + "\n")
    c.out.close()
    if "--hashes" in a:
        with open(a["--hashes"], "ab") as h:
            h.write(struct.pack(f"<{len(c.distinct)}Q", *c.distinct))
    sys.stderr.flush()
    return 0


# ------------------------------------------------------------ generators

SPECIAL = (0.0, -0.0, 1.0, -1.0, 0.5, -0.5, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 5e-324, 1e-310,
           1e-17, 1e300, -1e300, math.inf, -math.inf, math.nan)


def hostile_double(r):
    k = r.randrange(5)
    if k == 0:
        return r.choice(SPECIAL)
    if k == 1:
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    if k == 2:
        return r.choice((-1, 1)) * 10 ** r.uniform(-320, 308)
    return r.uniform(-7, 7)


def random_unit(r):
    while True:
        v = [r.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3:
            return tuple(x / n for x in v)
