"""Probe phases: programs that are themselves generated or enumerated.

A *shapes* probe compiles one small program per documented form of a declaration
(tools/shapes/<prefix>_*.rs) and runs it.  A *declarations* probe generates a
random set of records, enums and nested types from the seed, compiles the codec
worker with them in place of the committed ones and lets the worker search.

A declaration that the documentation allows but that does not compile breaks the
property, provided that the crate itself compiles.
"""
import json
import os
import re
import shutil
import subprocess

import gentypes

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")
SHAPES = os.path.join(HERE, "tools", "shapes")
MANIFEST = """[package]
name = "tedium-probe"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
tedium = { package = "tezos-data-model", path = "/repo" }

[profile.dev]
debug = 0
"""


def cargo(cwd, env, target, args):
    e = dict(env)
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = "-Awarnings"
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=700)
    return p.returncode, p.stdout


def fail(kind, name, msg, extra=None):
    f = {"target": "%s %s" % (kind, name), "case": 0, "choices": [], "message": msg, "note": name, "how": kind}
    f.update(extra or {})
    return f


def control(env, work):
    """Does a program compile that uses the crate but declares nothing?"""
    d = os.path.join(work, "control")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(MANIFEST.replace("tedium-probe", "tedium-control"))
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), d)
    open(os.path.join(d, "src", "main.rs"), "w").write(
        "use tedium::*;\nfn main() { assert_eq!(258u16.to_bytes(), [1, 2]); }\n")
    rc, out = cargo(d, env, os.path.join(HERE, "target", "probe"), [])
    return rc == 0, out


def shapes(pid, ph, env, work):
    d = os.path.join(work, "shapes")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    open(os.path.join(d, "Cargo.toml"), "w").write(MANIFEST)
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), d)
    names = sorted(f[:-3] for f in os.listdir(SHAPES) if f.startswith(ph["shapes"]) and f.endswith(".rs"))
    if "one" in ph:
        names = [n for n in names if n == ph["one"]]
    for n in names:
        shutil.copy(os.path.join(SHAPES, n + ".rs"), os.path.join(d, "src", "bin"))
    target = os.path.join(HERE, "target", "probe")
    for n in names:
        exe = os.path.join(target, "debug", n)
        if os.path.exists(exe):
            os.unlink(exe)
    _, out = cargo(d, env, target, ["--keep-going"])
    fails, ok = [], 0
    for n in names:
        exe = os.path.join(target, "debug", n)
        if not os.path.exists(exe):
            m = [b for b in re.split(r"\n(?=error)", out) if n + ".rs" in b]
            fails.append(fail("shape", n, "the declaration does not compile: " + (m[0] if m else out)[:700]))
            continue
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            rc, o = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, o = -1, "no end within 60 s"
        if rc != 0:
            fails.append(fail("shape", n, "the program fails: " + o[:500]))
        else:
            ok += 1
    if fails:
        good, o = control(env, work)
        if not good:
            return None, [], "the crate does not compile: " + o[-1500:]
    res = {"evaluations": len(names), "nontrivial": len(names), "distinct_nontrivial": len(names), "targets": len(names),
           "exhaustive_targets": len(names), "classes": {"declaration form compiled and run": len(names)}, "skipped": {},
           "rule": "one program per documented form of a declaration", "samples": names[:6], "failures": fails}
    return res, fails, None


def make_harness(seed, ph, work):
    d = os.path.join(work, "decls")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(HARNESS, d, ignore=shutil.ignore_patterns("target*"))
    t = os.path.join(d, "Cargo.toml")
    s = open(t).read().replace('path = "../core"', 'path = "%s"' % os.path.join(HERE, "core"))
    open(t, "w").write(s.replace('name = "tedium-verif"', 'name = "tedium-decls"'))
    n = ph.get("sizes", (30, 24, 12, 8, 3))
    open(os.path.join(d, "src", "bin", "codec", "types_gen.rs"), "w").write(gentypes.generate(seed, *n, commas=True))
    return d


def declarations(pid, ph, tier, seed, env, work):
    import check
    total, fails = None, []
    for k in range(ph.get("rounds", {}).get(tier, 1)):
        gs = seed * 1000003 + k * 7919 + int(re.sub(r"\D", "", pid))
        d = make_harness(gs, ph, work)
        target = os.path.join(HERE, "target", "probe")
        rc, out = cargo(d, env, target, ["--bin", "codec"])
        if rc != 0:
            try:
                check.build("codec", "dev", [])
            except check.Build as e:
                return total, fails, str(e)
            err = out[out.find("error"):][:900]
            fails.append(fail("declarations", "seed %d" % gs, "the generated declarations do not compile: " + err,
                              {"gen_seed": gs}))
            return total, fails, None
        exe = os.path.join(work, "decls-codec")
        shutil.copy2(os.path.join(target, "debug", "codec"), exe)
        for prop in ph.get("props", [pid]):
            res, fs, prob = check.run_worker(exe, pid, dict(ph, prop=prop, bin="codec"), tier, seed + k, work)
            if prob:
                return total, fails, prob
            for f in fs:
                f.update(gen_seed=gs, prop=prop, inner=f["how"], how="declarations")
                fails.append(f)
            if res:
                if total is None:
                    total = dict(res)
                else:
                    for a in ("evaluations", "nontrivial", "distinct_nontrivial", "targets", "exhaustive_targets"):
                        total[a] = total.get(a, 0) + res.get(a, 0)
                    for a in ("classes", "skipped"):
                        for x, y in res.get(a, {}).items():
                            total.setdefault(a, {})[x] = total.get(a, {}).get(x, 0) + y
        if fails:
            break
    return total, fails, None


def run(pid, ph, tier, seed, env, work):
    if ph["probe"] == "shapes":
        return shapes(pid, ph, env, work)
    return declarations(pid, ph, tier, seed, env, work)


def replay(d):
    import tempfile
    import check
    ph, f = d["phase"], d["failure"]
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        if ph["probe"] == "shapes":
            _, fails, prob = shapes(d["property"], dict(ph, one=f["note"]), check.env(), work)
            print(prob or "\n".join(x["message"] for x in fails) or "holds")
            return 2 if prob else 1 if fails else 0
        h = make_harness(f["gen_seed"], ph, work)
        target = os.path.join(HERE, "target", "probe")
        rc, out = cargo(h, check.env(), target, ["--bin", "codec"])
        if rc != 0:
            print(out[-4000:])
            return 1
        if "inner" not in f:
            print("compiles now")
            return 0
        cmd = [os.path.join(target, "debug", "codec"), "--prop", f["prop"]]
        if f["inner"] == "choices":
            cmd += ["--target", f["target"], "--choices", ",".join(map(str, f["choices"]))]
        else:
            cmd += ["--seed", str(d["seed"]), "--target-index", str(f.get("target_index", 0)), "--case", str(f["case"])]
        rc, out = check.run(cmd, 300)
        print(out)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
