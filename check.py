#!/usr/bin/env python3
"""Build the harness for one property from /repo's working tree and run it.

usage: check.py PROPERTY quick|thorough [--replay FILE]
       check.py --setup            (only pre-builds everything)

Exit status: 0 the property held on everything explored, 1 violation (with a
VIOLATION line).  Anything else is an error of the check itself.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
HARN = VERIF / "harness"
EVID = VERIF / "evidence"
JOBS = 8

sys.path.insert(0, str(VERIF))
from catalogue import CATALOGUE, IFOPT_SOURCES  # noqa: E402

CXX = "g++"
COMMON = ["-std=c++17", "-g1", "-w", "-fPIC"]
INC = [f"-I{REPO}/include", "-I/usr/include/eigen3"]
VARIANTS = {
    # asserts stay on in both: they are part of what the shipped build does
    "plain": {"lib": ["-O2"], "har": ["-O1"], "link": []},
    "asan": {
        "lib": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,null,alignment",
                "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
        "har": ["-O1", "-fsanitize=address"],
        "link": ["-fsanitize=address,undefined"],
    },
    # races; only for the property about threads
    "tsan": {
        "lib": ["-O1", "-fsanitize=thread"],
        "har": ["-O1", "-fsanitize=thread"],
        "link": ["-fsanitize=thread"],
    },
}


def variants_of(prop):
    return list(CATALOGUE[prop]["cases"])


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(root, exts):
    h = hashlib.sha256()
    for f in sorted(root.rglob("*")):
        if f.is_file() and f.suffix in exts:
            h.update(str(f.relative_to(root)).encode())
            h.update(f.read_bytes())
    return h.hexdigest()


class BuildError(Exception):
    pass


def run_cc(cmd, out):
    tmp = out.with_suffix(out.suffix + f".{os.getpid()}.tmp")
    r = subprocess.run(cmd + ["-o", str(tmp)], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if tmp.exists():
            tmp.unlink()
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    os.replace(tmp, out)


def lib_sources(with_ifopt):
    res = []
    for f in sorted((REPO / "src").rglob("*.cpp")):
        rel = str(f.relative_to(REPO / "src"))
        if rel in IFOPT_SOURCES and not with_ifopt:
            continue
        res.append(f)
    return res


def build(prop, variant):
    """returns the path of the harness binary"""
    cat = CATALOGUE[prop]
    v = VARIANTS[variant]
    objdir = BUILD / "obj"
    objdir.mkdir(parents=True, exist_ok=True)
    with_ifopt = cat.get("ifopt", False)
    inc = INC + ([f"-I{HARN}/ifopt_stub"] if with_ifopt else [])
    hdr = tree_hash(REPO / "include", {".hpp", ".h", ".hh", ".ipp", ".inl", ".tpp"})
    srchdr = tree_hash(REPO / "src", {".hpp", ".h", ".hh", ".ipp", ".inl", ".tpp"})
    stub = tree_hash(HARN / "ifopt_stub", {".h"}) if with_ifopt else ""
    har = tree_hash(HARN, {".hpp"})
    jobs = []
    objs = []
    for f in lib_sources(with_ifopt):
        needs_stub = str(f.relative_to(REPO / "src")) in IFOPT_SOURCES
        flags = COMMON + v["lib"] + INC + ([f"-I{HARN}/ifopt_stub"] if needs_stub else [])
        key = sha(CXX, flags, hdr, srchdr, stub if needs_stub else "", f.relative_to(REPO), f.read_bytes())
        o = objdir / f"lib_{f.stem}_{variant}_{key}.o"
        objs.append(o)
        if not o.exists():
            jobs.append(([CXX, *flags, "-c", str(f)], o))
    for name in ["pbt_main.cpp"] + cat["sources"]:
        f = HARN / name
        flags = COMMON + v["har"] + inc + [f"-I{HARN}"]
        key = sha(CXX, flags, hdr, stub, har, name, f.read_bytes())
        o = objdir / f"har_{f.stem}_{variant}_{key}.o"
        objs.append(o)
        if not o.exists():
            jobs.append(([CXX, *flags, "-c", str(f)], o))
    binkey = sha(*[o.name for o in objs])
    exe = BUILD / f"{prop}_{variant}_{binkey}"
    if exe.exists():
        return exe
    # longest jobs first (harness sources are the biggest translation units)
    jobs.reverse()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for fut in [ex.submit(run_cc, c, o) for c, o in jobs]:
            fut.result()
    for old in BUILD.glob(f"{prop}_{variant}_*"):
        if old.is_file():
            old.unlink()
    run_cc([CXX, *map(str, objs), *v["link"], "-lpthread"], exe)
    return exe


def prune():
    """keep the object cache bounded"""
    d = BUILD / "obj"
    if not d.exists():
        return
    files = sorted(d.glob("*.o"), key=lambda p: p.stat().st_mtime, reverse=True)
    total = 0
    for f in files:
        total += f.stat().st_size
        if total > 1_500_000_000:
            f.unlink(missing_ok=True)


def env_for(variant):
    e = dict(os.environ)
    if variant == "plain":
        e["MALLOC_PERTURB_"] = "165"
    e["ASAN_OPTIONS"] = ("abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:"
                         "allocator_may_return_null=1:malloc_fill_byte=90:max_malloc_fill_size=1048576")
    e["TSAN_OPTIONS"] = ("halt_on_error=1:abort_on_error=1:die_after_fork=0:handle_abort=0:handle_segv=0:"
                         "report_signal_unsafe=0:history_size=4:allocator_may_return_null=1:"
                         f"suppressions={HARN}/tsan.supp:print_suppressions=0")
    e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    return e


def can_run(exe):
    """the race detector needs a memory layout that not every kernel offers"""
    r = subprocess.run([str(exe), "--list"], env=env_for("tsan"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode == 0


def known_findings(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["findings"]
            if k["property"] == prop and k["status"] == "open"]


def run_cpp(prop, tier, seed, evidence_parts):
    cat = CATALOGUE[prop]
    mult = 1.0 if tier == "quick" else cat.get("thorough_factor", 12.0)
    vio = None
    BUILD.mkdir(parents=True, exist_ok=True)
    variants = variants_of(prop)
    exes = {v: build(prop, v) for v in variants}
    replays = VERIF / "replays"
    replays.mkdir(exist_ok=True)
    for k in known_findings(prop):
        r = subprocess.run([str(exes[k.get("variant", "plain")]), "--replay", str(VERIF / k["replay"])],
                           env=env_for(k.get("variant", "plain")), stdout=subprocess.PIPE, text=True)
        if r.returncode == 1:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    # hand-picked regression inputs first (replay tier): shrunk failures seen before
    for rp in sorted((HARN / "regress" / prop).glob("*.replay")) if (HARN / "regress" / prop).exists() else []:
        for v in variants:
            cmd = [str(exes[v]), "--replay", str(rp)]
            rs = [subprocess.run(cmd, env=env_for(v), stdout=subprocess.PIPE, text=True)]
            if rs[0].returncode == 1:
                rs += [subprocess.run(cmd, env=env_for(v), stdout=subprocess.PIPE, text=True) for _ in range(2)]
                if all(r.returncode == 1 for r in rs):
                    print(rs[0].stdout)
                    out = replays / f"{prop}.replay"
                    shutil.copyfile(rp, out)
                    return out
    for v in variants:
        if v == "tsan" and not can_run(exes[v]):
            print(f"[{prop} {v}] the race detector cannot run on this machine, skipped")
            continue
        cases = int(cat["cases"][v] * mult)
        cap = (cat.get("cap", 150) if tier == "quick" else cat.get("thorough_cap", 2400)) * (1.0 if v == "plain" else 0.6)
        outj = BUILD / f"{prop}_{v}_out.json"
        vo = replays / f"{prop}_{v}.replay"
        for f in (outj, vo):
            f.unlink(missing_ok=True)
        cmd = [str(exes[v]), "--seed", str(seed if v == "plain" else seed + 1000003), "--cases", str(cases),
               "--cap", str(cap), "--out", str(outj), "--violation-out", str(vo),
               "--workers", "8", "--case-timeout", "20" if v == "plain" else "40"]
        r = subprocess.run(cmd, env=env_for(v), stdout=subprocess.PIPE, text=True)
        print(f"[{prop} {v}] {r.stdout.strip()[:6000]}")
        if r.returncode not in (0, 1):
            raise RuntimeError(f"harness error, exit {r.returncode}")
        res = json.loads(outj.read_text())
        res["variant"] = v
        evidence_parts.append(res)
        if r.returncode == 1:
            vio = vo
            break
    return vio


def run_py(prop, tier, seed, evidence_parts):
    import pyrunner
    return pyrunner.run(prop, tier, seed, evidence_parts)


def main():
    if sys.argv[1] == "--setup":
        t0 = time.time()
        for p, c in CATALOGUE.items():
            if c.get("kind", "cpp") == "cpp":
                for v in variants_of(p):
                    build(p, v)
            else:
                import pyrunner
                for v in variants_of(p):
                    pyrunner.build_module(v)
        print(f"setup done in {time.time() - t0:.0f} s")
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    if tier not in ("quick", "thorough"):
        raise SystemExit(3)
    cat = CATALOGUE[prop]
    if "--replay" in sys.argv:
        rp = sys.argv[sys.argv.index("--replay") + 1]
        if cat.get("kind", "cpp") == "cpp":
            v = next((x for x in ("asan", "tsan") if f"_{x}" in rp), "plain")
            return subprocess.run([str(build(prop, v)), "--replay", rp], env=env_for(v)).returncode
        import pyrunner
        return pyrunner.replay(prop, rp)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    parts = []
    fn = run_cpp if cat.get("kind", "cpp") == "cpp" else run_py
    vio = fn(prop, tier, seed, parts)
    EVID.mkdir(exist_ok=True)
    labels = {}
    samples = []
    for p in parts:
        for k, n in p["labels"].items():
            labels[f"{p['variant']}:{k}"] = n
        samples += p["samples"][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "rule": cat["rule"],
            "samples": samples[:24],
            "discarded": sum(p["discarded"] for p in parts),
            "flaky_unconfirmed": sum(p["flaky"] for p in parts),
            "time_capped": any(p["capped"] for p in parts),
            "classes": labels,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if vio else 0,
    }
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    prune()
    if vio:
        print(f"VIOLATION property={prop} replay={vio}")
        return 1
    n = ev["coverage"]["distinct_nontrivial"]
    if n < 100:
        print(f"error: only {n} non-trivial cases")
        return 4
    print(f"OK property={prop} evaluations={ev['coverage']['evaluations']} nontrivial={n} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD ERROR\n" + str(e))
        sys.exit(5)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(6)
