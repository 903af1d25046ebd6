#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's current sources in the variants
the check needs, drives the workloads over all cores, collects what the monitors
reported, writes the evidence file, and prints the verdict.

    run.py C05                 quick or thorough, by VERIF_TIER (default quick)
    run.py --replay FILE       re-executes one recorded violation, verbosely
    run.py --build C05         only builds
"""
import array
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import pathlib
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
NCPU = min(8, os.cpu_count() or 1)
VENV_PY = "/opt/vp/venv/bin/python"

sys.path.insert(0, str(VERIF))
import checks as registry  # noqa: E402

SAN = "-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR"
# codec.h dereferences unaligned pointers on purpose ("requires ... support for
# unaligned loads"), so the alignment check is off.
UB = "-fsanitize=undefined,float-cast-overflow -fno-sanitize=alignment -fno-sanitize-recover=all"
VARIANTS = {
    "plain": ("g++", "-O2 -DNDEBUG"),
    "asan": ("g++", f"{SAN} -fsanitize=address {UB}"),
    "tsan": ("g++", "-O1 -g1 -fsanitize=thread -DNDEBUG"),
    "portable": ("g++", "-O2 -DNDEBUG -DNO_SIMD -DNO_OPTIMIZED_PATHS"),
    "nosimd": ("g++", "-O2 -DNDEBUG -DNO_SIMD"),
    "noopt": ("g++", "-O2 -DNDEBUG -DNO_OPTIMIZED_PATHS"),
    "portable_asan": ("g++", f"{SAN} -DNO_SIMD -DNO_OPTIMIZED_PATHS -fsanitize=address {UB}"),
    "debug": ("g++", "-O1 -g1 -DNDEBUG"),
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:print_legend=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
}


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- building

_headers_hash = {}


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(str(p).encode())
        h.update(p.read_bytes())
    return h.hexdigest()


def header_hash():
    if "h" not in _headers_hash:
        _headers_hash["h"] = tree_hash(
            [p for p in (REPO / "include").rglob("*.h")] + [p for p in (REPO / "src").glob("*.h")])
    return _headers_hash["h"]


def compile_one(cc, flags, src, extra_hash=""):
    """Compiles src into a content-addressed object file and returns its path."""
    key = hashlib.sha256("\0".join([cc, flags, str(src), src.read_text(errors="replace"), header_hash(),
                                    extra_hash]).encode()).hexdigest()[:32]
    obj = BUILD / "obj" / f"{key}.o"
    if not obj.exists():
        obj.parent.mkdir(parents=True, exist_ok=True)
        tmp = obj.with_suffix(f".{os.getpid()}.{threading.get_ident()}.tmp")
        r = sh([cc, *flags.split(), "-w", "-I", str(REPO / "include"), "-I", str(REPO / "src"), "-c", str(src), "-o", str(tmp)])
        if r.returncode != 0:
            raise HarnessError(f"compiling {src} failed:\n{r.stdout[-4000:]}")
        tmp.rename(obj)
    return obj, key


def lib_sources():
    return sorted((REPO / "src").glob("*.cc"))


def build(pool, variant, harnesses):
    """Builds the library and the given harnesses; returns {harness: executable}."""
    cc, flags = VARIANTS[variant]
    hh = tree_hash((VERIF / "harness").glob("*.h"))
    # Harnesses take longest: start them first.
    hobjs = {h: pool.submit(compile_one, cc, flags + " -I" + str(VERIF / "harness") + registry.HARNESS_FLAGS.get(h, ""),
                            VERIF / "harness" / f"{h}.cc", hh) for h in harnesses}
    lobjs = [pool.submit(compile_one, cc, flags + " -fPIC", s) for s in lib_sources()]
    lobjs = [f.result() for f in lobjs]
    exes = {}
    for h, f in hobjs.items():
        obj, key = f.result()
        k = hashlib.sha256((key + "".join(x[1] for x in lobjs)).encode()).hexdigest()[:24]
        exe = BUILD / "bin" / f"{h}-{variant}-{k}"
        if not exe.exists():
            exe.parent.mkdir(parents=True, exist_ok=True)
            tmp = exe.with_suffix(f".{os.getpid()}.tmp")
            r = sh([cc, *flags.split(), str(obj), *[str(x[0]) for x in lobjs], "-o", str(tmp), "-lpthread", "-lquadmath"])
            if r.returncode != 0:
                raise HarnessError(f"linking {h} failed:\n{r.stdout[-4000:]}")
            tmp.rename(exe)
        exes[h] = exe
    return exes


def build_python(pool, variant):
    """Builds the extension module and lays the package out; returns its root for PYTHONPATH."""
    cc, flags = VARIANTS[variant]
    inc = sh([VENV_PY, "-m", "pybind11", "--includes"]).stdout.strip()
    flags = f"{flags} -fPIC -fvisibility=hidden"
    pydir = REPO / "python" / "lsst" / "sphgeom"
    srcs = sorted(pydir.glob("*.cc"))
    ph = tree_hash(pydir.glob("*.h")) + tree_hash(srcs[:0])
    objs = [pool.submit(compile_one, cc, f"{flags} {inc}", s, ph) for s in srcs]
    objs += [pool.submit(compile_one, cc, flags, s) for s in lib_sources()]
    objs = [f.result() for f in objs]
    pys = sorted(pydir.rglob("*.py"))
    k = hashlib.sha256(("".join(x[1] for x in objs) + tree_hash(pys)).encode()).hexdigest()[:24]
    root = BUILD / "py" / f"{variant}-{k}"
    if not root.exists():
        tmp = root.with_suffix(f".{os.getpid()}.tmp")
        pkg = tmp / "lsst" / "sphgeom"
        pkg.mkdir(parents=True)
        for p in pys:
            d = pkg / p.relative_to(pydir)
            d.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy(p, d)
        if not (pkg / "version.py").exists():
            (pkg / "version.py").write_text('__all__ = ("__version__",)\n__version__ = "verif"\n')
        init = REPO / "python" / "lsst" / "__init__.py"
        if init.exists():
            shutil.copy(init, tmp / "lsst" / "__init__.py")
        suffix = sh([VENV_PY, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"]).stdout.strip()
        r = sh([cc, *flags.split(), "-shared", *[str(x[0]) for x in objs], "-o", str(pkg / f"_sphgeom{suffix}")])
        if r.returncode != 0:
            raise HarnessError(f"linking the extension failed:\n{r.stdout[-4000:]}")
        tmp.rename(root)
    return root


# ---------------------------------------------------------------- running

class Config:
    """One executable form of a check's workload."""

    def __init__(self, name, argv, env=None, only=("*",), skip=(), scale=1.0, timeout=400):
        self.name, self.argv, self.env = name, [str(a) for a in argv], dict(env or {})
        self.only, self.skip, self.scale, self.timeout = only, skip, scale, timeout

    def sections(self):
        r = sh(self.argv + ["--list"], env={**os.environ, **ENV, **self.env})
        if r.returncode != 0:
            raise HarnessError(f"--list of {self.argv} failed ({r.returncode}):\n{r.stdout[-3000:]}")
        out = []
        for line in r.stdout.splitlines():
            parts = line.split()
            if len(parts) != 2:
                continue
            n, k = parts
            if any(fnmatch.fnmatch(n, p) for p in self.only) and not any(fnmatch.fnmatch(n, p) for p in self.skip):
                # A trailing underscore marks a section that is an enumeration, whose size is not scaled.
                cnt = int(k) if n.endswith("_all") else max(1, int(int(k) * self.scale))
                out.append((n, cnt))
        return out


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"run-{pid}-", dir=BUILD))
        self.lock = threading.Lock()
        self.fails, self.done, self.counts, self.samples = [], [], {}, []
        self.evaluations, self.hashes, self.per_section = 0, set(), {}
        self.inconclusive = []
        self.deadline = time.time() + (780 if tier == "quick" else 6 * 3600)
        self.n = 0
        self.crashes = 0
        self.hang_s = 60 if tier == "quick" else 300

    def argv(self, cfg, section, a, b):
        return cfg.argv + ["--section", section, "--from", str(a), "--to", str(b), "--seed", str(self.seed)]

    def worker(self, cfg, section, a, b):
        restarts = 0
        while a < b:
            with self.lock:
                self.n += 1
                n = self.n
                if self.crashes > 40 or time.time() > self.deadline:
                    self.inconclusive.append(f"{cfg.name}/{section}[{a},{b}) not run")
                    return
            out, crumb, hsh, log = (self.tmp / f"{n}.{x}" for x in ("out", "crumb", "hash", "log"))
            limit = max(10, min(cfg.timeout, self.deadline - time.time()))
            status = self.execute(cfg, section, a, b, out, crumb, hsh, log, limit)
            lines = [json.loads(x) for x in out.read_text().splitlines()] if out.exists() else []
            with self.lock:
                for x in lines:
                    if x["kind"] == "fail":
                        self.fails.append(dict(x, config=cfg.name))
                    else:
                        self.evaluations += x["evaluations"]
                        s = self.per_section.setdefault(f"{cfg.name}/{section}", 0)
                        self.per_section[f"{cfg.name}/{section}"] = s + x["evaluations"]
                        for k, v in x["counts"].items():
                            self.counts[k] = self.counts.get(k, 0) + v
                        self.samples += x["samples"][:1]
                if hsh.exists():
                    v = array.array("Q")
                    v.frombytes(hsh.read_bytes())
                    if len(self.hashes) < 5_000_000:
                        self.hashes.update(v)
            if status == 0:
                return
            at = struct.unpack("Q", crumb.read_bytes())[0] if crumb.exists() and crumb.stat().st_size == 8 else a
            text = log.read_text(errors="replace") if log.exists() else ""
            if status == 3:
                raise HarnessError(f"{cfg.name}/{section}: {text[-3000:]}")
            if status == "timeout":
                # Only the case that was executing can hang: run it alone, with a generous limit.
                st = self.execute(cfg, section, at, at + 1, self.tmp / f"{n}.o2", self.tmp / f"{n}.c2",
                                  self.tmp / f"{n}.h2", self.tmp / f"{n}.l2", self.hang_s)
                with self.lock:
                    if st == "timeout":
                        self.fails.append(dict(section=section, case=at, config=cfg.name, key="hang",
                                               msg=f"the case did not terminate within {self.hang_s} s, twice"))
                        self.crashes += 20  # a few of these end the run
                    else:
                        self.inconclusive.append(f"{cfg.name}/{section}: time limit reached at case {at} of [{a},{b})")
            else:
                with self.lock:
                    self.crashes += 1
                    self.fails.append(dict(section=section, case=at, config=cfg.name,
                                           key=crash_key(section, status, text), msg=crash_msg(status, text)))
            a = at + 1
            restarts += 1
            if restarts >= 4:
                with self.lock:
                    self.inconclusive.append(f"{cfg.name}/{section}[{a},{b}) not run after repeated crashes")
                return

    def execute(self, cfg, section, a, b, out, crumb, hsh, log, timeout):
        argv = self.argv(cfg, section, a, b) + ["--out", str(out), "--crumb", str(crumb), "--hashes", str(hsh)]
        with open(log, "wb") as lf:
            p = subprocess.Popen(argv, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env={**os.environ, **ENV, **cfg.env},
                                 cwd=self.tmp, start_new_session=True)
            # The process is stopped at its time limit, or when it has been in one case for too long.
            t0 = seen = time.time()
            last = None
            while True:
                try:
                    return p.wait(timeout=min(2, max(0.1, t0 + timeout - time.time())))
                except subprocess.TimeoutExpired:
                    now = time.time()
                    cur = crumb.read_bytes() if crumb.exists() else b""
                    if cur != last:
                        last, seen = cur, now
                    if now - t0 >= timeout or now - seen >= self.hang_s:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        return "timeout"


def crash_key(section, status, text):
    for line in text.splitlines():
        if "runtime error:" in line:
            msg = line.split("runtime error:", 1)[1].strip()
            loc = line.split(":")[0].rsplit("/", 1)[-1]
            return f"ubsan:{loc}:{' '.join(msg.split()[:4])}"
        if "ERROR: AddressSanitizer:" in line:
            return "asan:" + line.split("AddressSanitizer:", 1)[1].split()[0] + ":" + section
        if "WARNING: ThreadSanitizer:" in line:
            return "tsan:" + line.split("ThreadSanitizer:", 1)[1].split("(")[0].strip()
        if "Assertion" in line and "failed" in line:
            return "assertion:" + line.strip()[-120:]
    return f"crash:{status}:{section}"


def crash_msg(status, text):
    i = max(text.find("runtime error:"), 0)
    for m in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Assertion"):
        j = text.find(m)
        if j >= 0:
            i = j
            break
    return f"the process ended with status {status}\n{text[max(0, i - 200):i + 3500]}"


def known_findings(pid):
    f = VERIF / "known_findings.jsonl"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(pathlib.Path(sys.argv[2]))
    if sys.argv[1] == "--setup":
        # Every check builds what it needs from /repo's current tree; here only the tools are checked.
        for tool in ("g++", "clang++", "ninja", "cmake", "valgrind"):
            print(tool, shutil.which(tool) or "MISSING")
        return 0
    only_build = sys.argv[1] == "--build"
    pid = sys.argv[2 if only_build else 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = registry.CHECKS[pid]
    t0 = time.time()
    BUILD.mkdir(exist_ok=True)
    with cf.ThreadPoolExecutor(NCPU) as pool:
        configs = make_configs(pool, spec, tier)
        if only_build:
            return 0
        run = Run(pid, tier, seed)
        try:
            jobs = []
            for cfg in configs:
                for sec, n in cfg.sections():
                    shards = min(n, NCPU * (1 if tier == "quick" else 4))
                    for i in range(shards):
                        jobs.append((cfg, sec, n * i // shards, n * (i + 1) // shards))
            t1 = time.time()
            futs = [pool.submit(run.worker, *j) for j in jobs]
            for f in futs:
                f.result()
        finally:
            shutil.rmtree(run.tmp, ignore_errors=True)
    return verdict(run, spec, configs, time.time() - t0, t1 - t0)


def make_configs(pool, spec, tier):
    configs = []
    by_variant = {}
    for c in spec["configs"]:
        if c.get("tier", tier) != tier and c.get("tier") is not None:
            continue
        by_variant.setdefault((c["variant"], bool(c.get("python"))), []).append(c)
    for (variant, python), cs in by_variant.items():
        if python:
            root = build_python(pool, variant)
        exes = build(pool, variant, sorted({c["harness"] for c in cs if not c.get("python")}))
        for c in cs:
            env = dict(c.get("env", {}))
            if python:
                env["PYTHONPATH"] = f"{root}:{VERIF / 'pyharness'}"
                argv = [VENV_PY, VERIF / "pyharness" / f"{c['harness']}.py"]
                for h in c.get("aux", []):
                    env[f"VH_AUX_{h.upper()}"] = str(build(pool, c.get("aux_variant", "plain"), [h])[h])
                if "asan" in variant:
                    lib = [sh(["g++", f"-print-file-name={x}"]).stdout.strip() for x in ("libasan.so", "libubsan.so", "libstdc++.so")]
                    env["LD_PRELOAD"] = " ".join(lib)
                    env["PYTHONMALLOC"] = "malloc"
            else:
                argv = [exes[c["harness"]]]
                for h, v in c.get("aux", []):
                    env[f"VH_AUX_{h.upper()}_{v.upper()}"] = str(build(pool, v, [h])[h])
            if c.get("wrap"):
                argv = c["wrap"].split() + argv
            scale = c.get("scale", 1.0) * (c.get("thorough", 12.0) if tier == "thorough" else 1.0)
            configs.append(Config(c.get("name", f"{c['harness']}-{variant}"), argv, env, c.get("only", ("*",)),
                                  c.get("skip", ()), scale, 240 if tier == "quick" else 3600))
    return configs


def verdict(run, spec, configs, wall, build_s):
    pid = run.pid
    known = known_findings(pid)
    reported, seen_known = [], {}
    for f in run.fails:
        k = next((k for k in known if k["key"] == f["key"] and k.get("section", f["section"]) == f["section"]), None)
        if k:
            seen_known.setdefault(k["key"], k)
        else:
            reported.append(f)
    distinct = len(run.hashes)
    nothing = run.evaluations == 0 or distinct == 0
    coverage = dict(
        evaluations=run.evaluations, distinct_nontrivial=distinct, rule=spec["rule"], samples=run.samples[:12],
        monitor_counts=dict(sorted(run.counts.items())), evaluations_by_section=dict(sorted(run.per_section.items())),
        configurations=[c.name for c in configs], inconclusive=run.inconclusive[:20], build_s=round(build_s, 1),
        known_findings_seen=sorted(seen_known))
    ev = dict(property=pid, tier=run.tier, seed=run.seed, level=spec["level"], coverage=coverage,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(reported))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k in known:
        # A listed finding is announced whenever its witness was exercised and still fails.
        if k["key"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid}: {run.evaluations} oracle decisions on {distinct} distinct cases in {wall:.1f} s "
          f"({build_s:.1f} s building), {len(reported)} violations, {len(run.inconclusive)} inconclusive shards")
    if reported:
        d = BUILD / "replays" / pid
        d.mkdir(parents=True, exist_ok=True)
        cfgs = {c.name: c for c in configs}
        seen = {}
        for f in reported:
            if f["key"] in seen:
                continue
            p = d / f"{hashlib.sha256((f['key'] + f['section'] + str(f['case'])).encode()).hexdigest()[:12]}.json"
            c = cfgs[f["config"]]
            p.write_text(json.dumps(dict(property=pid, seed=run.seed, tier=run.tier, argv=c.argv, env=c.env, **f), indent=1))
            seen[f["key"]] = p
            print(f"-- {f['config']}/{f['section']} case {f['case']} [{f['key']}] {f['msg'][:1500]}")
            if len(seen) >= 6:
                break
        for p in seen.values():
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if nothing:
        print(f"{pid}: the monitors observed nothing")
        return 2
    if any("not run" in x for x in run.inconclusive):
        print("inconclusive: " + "; ".join(run.inconclusive[:5]))
        return 2
    return 0


def replay(path):
    d = json.loads(path.read_text())
    cfg = next(c for c in registry.CHECKS[d["property"]]["configs"]
               if c.get("name", f"{c['harness']}-{c['variant']}") == d["config"])
    BUILD.mkdir(exist_ok=True)
    with cf.ThreadPoolExecutor(NCPU) as pool:
        c = make_configs(pool, dict(configs=[cfg]), d["tier"])[0]
    r = subprocess.run(c.argv + ["--section", d["section"], "--from", str(d["case"]), "--to", str(d["case"] + 1),
                                 "--seed", str(d["seed"]), "--verbose", "1"], env={**os.environ, **ENV, **c.env})
    return r.returncode


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError as e:
        print(f"harness error: {e}")
        rc = 2
    sys.exit(rc)
