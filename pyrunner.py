"""Builds the Python module from /repo and runs the Python harness on it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess

import check as K

PY = "/usr/bin/python3"


def py_query(expr):
    return subprocess.run([PY, "-c", f"import sysconfig; print({expr})"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def build_module(variant):
    """-> directory that holds the module"""
    v = K.VARIANTS[variant]
    objdir = K.BUILD / "obj"
    objdir.mkdir(parents=True, exist_ok=True)
    stubinc = f"-I{K.HARN}/ifopt_stub"
    exts = {".hpp", ".h", ".hh", ".ipp", ".inl", ".tpp"}
    hdr = K.tree_hash(K.REPO / "include", exts)
    srchdr = K.tree_hash(K.REPO / "src", exts)
    stub = K.tree_hash(K.HARN / "ifopt_stub", {".h"})
    bind = K.tree_hash(K.REPO / "bindings", exts)
    jobs, objs = [], []
    flags = K.COMMON + ["-O1"] + v["har"][1:] + ["-fvisibility=hidden"] + K.INC + [stubinc, f"-I{K.REPO}/bindings",
                                                                                "-I" + py_query("sysconfig.get_paths()['include']")]
    for f in sorted((K.REPO / "bindings").rglob("*.cpp")):
        key = K.sha(K.CXX, flags, hdr, stub, bind, f.relative_to(K.REPO), f.read_bytes())
        o = objdir / f"bind_{f.stem}_{variant}_{key}.o"
        objs.append(o)
        jobs.append(([K.CXX, *flags, "-c", str(f)], o))
    for f in K.lib_sources(True):
        needs = str(f.relative_to(K.REPO / "src")) in K.IFOPT_SOURCES
        fl = K.COMMON + v["lib"] + K.INC + ([stubinc] if needs else [])
        key = K.sha(K.CXX, fl, hdr, srchdr, stub if needs else "", f.relative_to(K.REPO), f.read_bytes())
        o = objdir / f"lib_{f.stem}_{variant}_{key}.o"
        objs.append(o)
        jobs.append(([K.CXX, *fl, "-c", str(f)], o))
    d = K.BUILD / f"py_{variant}_{K.sha(*[o.name for o in objs])}"
    mod = d / ("pygsplines" + py_query("sysconfig.get_config_var('EXT_SUFFIX')"))
    if mod.exists():
        return d
    with cf.ThreadPoolExecutor(K.JOBS) as ex:
        for fut in [ex.submit(K.run_cc, c, o) for c, o in jobs if not o.exists()]:
            fut.result()
    for old in K.BUILD.glob(f"py_{variant}_*"):
        shutil.rmtree(old, ignore_errors=True)
    d.mkdir(parents=True)
    K.run_cc([K.CXX, "-shared", *map(str, objs), *v["link"], "-lpthread"], mod)
    return d


def env_for(variant, d):
    e = K.env_for(variant)
    e.update({"PYTHONPATH": f"{K.REPO}/python:{d}", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
              "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "MPLCONFIGDIR": str(K.BUILD / "mpl")})
    e.pop("PYTHONHOME", None)
    if variant == "asan":
        lib = subprocess.run([K.CXX, "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        cxx = subprocess.run([K.CXX, "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        e["LD_PRELOAD"] = f"{lib} {cxx}"
        e["PYTHONMALLOC"] = "malloc"
    return e


def harness(prop):
    return str(K.HARN / "py" / K.CATALOGUE[prop]["sources"][0])


def run(prop, tier, seed, parts):
    cat = K.CATALOGUE[prop]
    mult = 1.0 if tier == "quick" else cat.get("thorough_factor", 12.0)
    replays = K.VERIF / "replays"
    replays.mkdir(exist_ok=True)
    dirs = {v: build_module(v) for v in K.variants_of(prop)}
    reg = K.HARN / "regress" / prop
    for rp in sorted(reg.glob("*.replay")) if reg.exists() else []:
        rs = [subprocess.run([PY, harness(prop), "--replay", str(rp)], env=env_for("plain", dirs["plain"]),
                             stdout=subprocess.PIPE, text=True) for _ in range(1)]
        if rs[0].returncode == 1:
            rs += [subprocess.run([PY, harness(prop), "--replay", str(rp)], env=env_for("plain", dirs["plain"]),
                                  stdout=subprocess.PIPE, text=True) for _ in range(2)]
            if all(r.returncode == 1 for r in rs):
                print(rs[0].stdout)
                out = replays / f"{prop}.replay"
                shutil.copyfile(rp, out)
                return out
    for v in K.variants_of(prop):
        cap = (cat.get("cap", 150) if tier == "quick" else cat.get("thorough_cap", 2400)) * (1.0 if v == "plain" else 0.6)
        outj = K.BUILD / f"{prop}_{v}_out.json"
        vo = replays / f"{prop}_{v}.replay"
        for f in (outj, vo):
            f.unlink(missing_ok=True)
        r = subprocess.run([PY, harness(prop), "--seed", str(seed if v == "plain" else seed + 1000003),
                            "--cases", str(int(cat["cases"][v] * mult)), "--cap", str(cap), "--out", str(outj),
                            "--violation-out", str(vo), "--workers", "8", "--case-timeout", "30" if v == "plain" else "60"],
                           env=env_for(v, dirs[v]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(f"[{prop} {v}] {r.stdout.strip()[:6000]}")
        if r.returncode == 2:  # the module does not import: the interface is gone
            vo.write_text(json.dumps({"property": prop, "choices": [], "message": r.stdout[-3000:]}))
            return vo
        if r.returncode not in (0, 1):
            raise RuntimeError(f"harness error, exit {r.returncode}")
        res = json.loads(outj.read_text())
        res["variant"] = v
        parts.append(res)
        if r.returncode == 1:
            return vo
    return None


def replay(prop, path):
    v = "asan" if "_asan" in path else "plain"
    return subprocess.run([PY, harness(prop), "--replay", path], env=env_for(v, build_module(v))).returncode
