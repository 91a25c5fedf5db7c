#!/usr/bin/env python3
"""Runs the property-based check of one property against /repo's working tree.

  check.py ID [--tier quick|thorough] [--seed N]     decide a property
  check.py --replay FILE                             re-run a saved failing case
  check.py --setup                                   build everything once

Exit 0: the property held on everything explored (listed known findings aside).
Exit 1: violated, with one line `VIOLATION property=<id> replay=<path>` per cause.
Exit 2: no answer (the machinery could not be built or run).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")

sys.path.insert(0, os.path.join(HERE, "tools"))
sys.modules.setdefault("check", sys.modules[__name__])
from plan import PLAN, phases_for  # noqa: E402


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e["RUST_BACKTRACE"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


class Build(Exception):
    pass


def build(bin_, profile, features):
    """Compiles a worker against /repo's current tree; returns a private copy of it."""
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", bin_]
    if profile != "dev":
        cmd += ["--profile", profile]
    if features:
        cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise Build("building %s (%s %s) failed:\n%s" % (bin_, profile, features, p.stdout[-4000:]))
    src = os.path.join(TARGET, "debug" if profile == "dev" else profile, bin_)
    # Another feature set overwrites the binary, so keep one copy per variant.
    dst = os.path.join(TARGET, "workers", "-".join([bin_, profile] + list(features)))
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = dst + ".%d" % os.getpid()
    shutil.copy2(src, tmp)
    os.replace(tmp, dst)
    return dst


def builds_without(ph):
    try:
        build(ph["bin"], "dev", [])
        return True
    except (Build, subprocess.TimeoutExpired):
        return False


def limits():
    import resource
    # A runaway allocation must fail inside the worker, not end other processes.
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout):
    p = subprocess.Popen(cmd, cwd=HERE, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         text=True, errors="replace", preexec_fn=limits, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out or ""


def run_phase(pid, ph, tier, seed, work):
    """Builds and runs one worker phase; returns (result, failures, problem)."""
    return run_worker(build(ph["bin"], ph.get("profile", "dev"), ph.get("features", [])), pid, ph, tier, seed, work)


def run_worker(exe, pid, ph, tier, seed, work):
    out = os.path.join(work, "out.json")
    slots = os.path.join(work, "slots")
    for f in (out, slots):
        if os.path.exists(f):
            os.unlink(f)
    prop = ph.get("prop", pid)
    base = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed)]
    cmd = base + ["--out", out, "--slots", slots, "--scale", str(ph["scale"][tier]), "--budget",
                  str(ph["budget"][tier])]
    for k in ("only", "threads"):
        if k in ph:
            cmd += ["--" + k, str(ph[k])]
    rc, so = run(cmd, ph["budget"][tier] + 260)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    if rc in (0, 1) and res is not None:
        return res, [dict(f, how="choices") for f in res["failures"]], None
    # The worker died or hung.  What it had already found stands; otherwise look
    # at the cases that were in flight and run each of them alone.
    if res is not None and res["failures"]:
        return res, [dict(f, how="choices") for f in res["failures"]], None
    inflight = []
    if os.path.exists(slots):
        b = open(slots, "rb").read()
        for i in range(0, len(b) - 15, 16):
            t = int.from_bytes(b[i:i + 8], "little")
            c = int.from_bytes(b[i + 8:i + 16], "little")
            if t:
                inflight.append((t - 1, c))
    fails = []
    for t, c in inflight[:12]:
        r, o = run(base + ["--target-index", str(t), "--case", str(c)], 90)
        if r == 0:
            continue
        what = "does not terminate within 90 s" if r is None else (
            "fails" if r == 1 else "kills the process (status %s)" % r)
        fails.append({"target": "#%d" % t, "case": c, "choices": [], "message": "case %s" % what, "note": "",
                      "how": "case", "target_index": t})
    if not fails and rc is not None and rc not in (0, 1, 3, 70):
        # It dies, though not on one case alone: repeat the run to tell a flake
        # of the machine from a fault of the code.
        r, _ = run(cmd, ph["budget"][tier] + 260)
        if r is not None and (r < 0 or r in (101, 134, 139)):
            fails.append({"target": "*", "case": 0, "choices": [], "note": "", "how": "run",
                          "message": "the worker dies (status %s) on every run" % r})
        elif r in (0, 1) and os.path.exists(out):
            res = json.load(open(out))
            return res, [dict(f, how="choices") for f in res["failures"]], None
    if fails:
        return res, fails, None
    return res, [], "worker ended with status %s and no case could be blamed\n%s" % (rc, so[-800:])


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)$", line)
            if m:
                out.append(m.groups())
    return out


def save_replay(pid, ph, tier, seed, f):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.]+", "_", ph["name"]),
                              re.sub(r"[^A-Za-z0-9_.]+", "_", f["target"])[:60])
    path = os.path.join(REPLAYS, name)
    json.dump({"property": pid, "phase": ph, "tier": tier, "seed": seed, "failure": f,
               "reproduce": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
    return path


def replay(path):
    d = json.load(open(path))
    ph, f = d["phase"], d["failure"]
    if ph.get("probe"):
        import probe
        return probe.replay(d)
    try:
        exe = build(ph["bin"], ph.get("profile", "dev"), ph.get("features", []))
    except Build as e:
        print(e)
        return 1 if f["how"] == "build" else 2
    if f["how"] == "build":
        return 0
    prop = ph.get("prop", d["property"])
    if f["how"] == "choices":
        cmd = [exe, "--prop", prop, "--target", f["target"], "--choices", ",".join(map(str, f["choices"]))]
    elif f["how"] == "case":
        cmd = [exe, "--prop", prop, "--seed", str(d["seed"]), "--target-index", str(f["target_index"]), "--case",
               str(f["case"])]
    else:
        cmd = [exe, "--prop", prop, "--tier", d["tier"], "--seed", str(d["seed"]), "--scale",
               str(ph["scale"][d["tier"]])]
    rc, out = run(cmd, 300)
    print(out)
    print("exit status:", rc)
    return 0 if rc == 0 else 1


def merge(total, res, ph):
    c = total
    for k in ("evaluations", "nontrivial", "distinct_nontrivial", "targets", "exhaustive_targets"):
        c[k] = c.get(k, 0) + res.get(k, 0)
    for k in ("classes", "skipped"):
        d = c.setdefault(k, {})
        for a, b in res.get(k, {}).items():
            d[a] = d.get(a, 0) + b
    if res.get("rule") and res["rule"] not in c.setdefault("rules", []):
        c["rules"].append(res["rule"])
    c.setdefault("samples", []).extend("[%s] %s" % (ph["name"], s) for s in res.get("samples", [])[:10])
    c.setdefault("phases", []).append({"name": ph["name"], "evaluations": res.get("evaluations", 0),
                                       "distinct_nontrivial": res.get("distinct_nontrivial", 0)})


def decide(pid, tier, seed):
    t0 = time.time()
    plan = PLAN[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    total, violations, knowns, problems = {}, [], [], []
    kf = [k for k in known_findings() if k[0] == pid]
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        for ph in phases_for(pid, tier):
            if violations and time.time() - t0 > 400:
                break  # already decided; do not risk running out of time
            try:
                if ph.get("probe"):
                    import probe
                    res, fails, prob = probe.run(pid, ph, tier, seed, env(), work)
                else:
                    res, fails, prob = run_phase(pid, ph, tier, seed, work)
            except Build as e:
                if ph.get("features") and builds_without(ph):
                    # It compiles, but not with these options of the crate on.
                    f = {"target": "build", "message": "does not compile with features %s: %s" % (
                        ",".join(ph["features"]), str(e)[-1500:]), "note": "", "how": "build"}
                    violations.append((ph, f, save_replay(pid, ph, tier, seed, f)))
                else:
                    problems.append(str(e))
                continue
            if res:
                merge(total, res, ph)
            if prob:
                problems.append("%s: %s" % (ph["name"], prob))
            for f in fails:
                hit = next((k for k in kf if k[1] in "%s %s" % (f["target"], f["message"])), None)
                if hit:
                    knowns.append((hit, f))
                else:
                    violations.append((ph, f, save_replay(pid, ph, tier, seed, f)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for (_, _, what), _f in {k[0][1]: k for k in knowns}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    shown = 0
    for ph, f, path in violations:
        if shown < 5:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  phase %s, target %s: %s" % (ph["name"], f["target"], f["message"][:600]))
            if f.get("note"):
                print("  case: %s" % f["note"][:600])
        shown += 1
    if shown > 5:
        print("  (%d more failing targets)" % (shown - 5))
    cov = {k: v for k, v in total.items() if k != "rules"}
    cov["rule"] = " | ".join(total.get("rules", [])) or plan["rule"]
    cov["samples"] = total.get("samples", [])[:24]
    cov.setdefault("evaluations", 0)
    cov.setdefault("distinct_nontrivial", 0)
    if problems:
        cov["problems"] = problems
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    if violations:
        return 1
    if problems:
        for p in problems:
            print("NO ANSWER: " + p, file=sys.stderr)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # Everything the quick checks need, so that they start warm.
        for profile in ("dev", "unchecked"):
            for b in ("codec", "misc"):
                build(b, profile, [])
        for p in PLAN.values():
            for q in p["phases"]:
                if q.get("features") and "quick" in q.get("tiers", ["quick"]):
                    build(q["bin"], q.get("profile", "dev"), q["features"])
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if tier not in ("quick", "thorough") or pid not in PLAN:
        print("usage: check.py ID [--tier quick|thorough] [--seed N]", file=sys.stderr)
        return 2
    return decide(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
