#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code.

  check.py ID [--tier quick|thorough] [--only HARNESS]
  check.py --replay FILE      run a recorded counterexample natively
  check.py --setup            build the executor

Exit 0: every path within the bounds satisfies the property (listed findings
are printed). Exit 1: VIOLATION, reproduced on the natively compiled code.
Exit 2: no verdict.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
ENGINE = os.path.join(BUILD, "engine", "release", "symex")
sys.path.insert(0, HERE)
from harnesses import PROPS  # noqa: E402

T0 = time.time()


class NoVerdict(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
    )
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise NoVerdict(f"{what} failed ({p.returncode}):\n{p.stdout[-6000:]}")
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            f for f in glob.glob(p + "/**/*", recursive=True) if os.path.isfile(f)
        )
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build_engine():
    src = os.path.join(HERE, "engine")
    stamp = os.path.join(BUILD, "engine.stamp")
    want = tree_hash([src + "/src", src + "/Cargo.toml", src + "/build.rs"])
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    run(
        ["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/engine"],
        "building the executor",
        cwd=src,
        env=env(),
    )
    with open(stamp, "w") as f:
        f.write(want)


def forget(target, profile):
    """Make cargo rebuild what comes from /repo and the harness."""
    for pat in ("librezip", "rezharness"):
        for d in glob.glob(f"{target}/{profile}/.fingerprint/{pat}-*"):
            shutil.rmtree(d)
        for f in glob.glob(f"{target}/{profile}/deps/*{pat}-*"):
            os.remove(f)


def harness_inputs():
    return [
        REPO + "/lib/src", REPO + "/lib/Cargo.toml", REPO + "/rezippers/src", REPO + "/rezippers/Cargo.toml",
        HERE + "/harness/src", HERE + "/harness/Cargo.toml", HERE + "/harness/Cargo.lock",
    ]


def build(pid):
    """IR and native builds of the property's harnesses from the current tree."""
    feat = pid.lower()
    base = os.path.join(BUILD, feat)
    os.makedirs(base, exist_ok=True)
    ll = os.path.join(base, "program.ll")
    native = os.path.join(base, "native", "native", "native")
    want = tree_hash(harness_inputs())
    stamp = os.path.join(base, "stamp")
    if all(os.path.exists(x) for x in (ll, native, stamp)) and open(stamp).read() == want:
        return ll, native
    if os.path.exists(stamp):
        os.remove(stamp)
    cfgs = " ".join("--cfg " + c for c in PROPS[pid].get("cfg", ["rezip_verif"]))
    errs = []

    def ir():
        try:
            t = base + "/ir"
            forget(t, "release")
            run(
                ["cargo", "rustc", "--release", "--lib", "--crate-type", "staticlib", "--offline",
                 "--features", feat, "--target-dir", t],
                "compiling the harness to IR", cwd=HERE + "/harness",
                env=env({"RUSTFLAGS": "-A warnings -C save-temps -C no-vectorize-loops -C no-vectorize-slp " + cfgs}),
            )
            bc = [
                f for f in glob.glob(t + "/release/deps/rezharness-*.rcgu.bc")
                if ".lto." not in f and ".no-opt." not in f
            ]
            if not bc:
                raise NoVerdict("no bitcode was produced")
            bc.sort(key=os.path.getsize)
            root = run(["rustc", "--print", "sysroot"], "rustc", env=env(), cwd=HERE + "/harness").strip()
            dis = root + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis"
            run([dis, bc[-1], "-o", ll], "llvm-dis")
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    def nat():
        try:
            t = base + "/native"
            forget(t, "native")
            run(
                ["cargo", "build", "--profile", "native", "--bin", "native", "--offline",
                 "--features", feat, "--target-dir", t],
                "compiling the harness natively", cwd=HERE + "/harness",
                env=env({"RUSTFLAGS": "-A warnings " + cfgs}),
            )
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    ts = [threading.Thread(target=f) for f in (ir, nat)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise NoVerdict("\n".join(str(e) for e in errs))
    with open(stamp, "w") as f:
        f.write(want)
    return ll, native


def native_run(native, lines, path, timeout=60):
    """One result per line; a crash or a hang ends the run at that line."""
    out = []
    todo = list(lines)
    while todo:
        with open(path, "w") as f:
            f.write("\n".join(todo) + "\n")
        try:
            p = subprocess.run([native, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            got = p.stdout.decode("utf-8", "replace").splitlines()
            end = f"crash status {p.returncode} {p.stderr.decode('utf-8', 'replace')[-300:]!r}"
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b"").decode("utf-8", "replace").splitlines()
            end = f"hang: still running after {timeout} s"
        out += got
        if len(got) >= len(todo):
            break
        out.append(end)
        todo = todo[len(got) + 1:]
    return out


def line(name, inputs, obs=None):
    return f"{name} {','.join(map(str, inputs))};{'-' if obs is None else ','.join(map(str, obs))}"


def replay(path):
    text = open(path).read().splitlines()
    pid = next(x.split(None, 2)[2] for x in text if x.startswith("# property "))
    build_engine()
    _, native = build(pid)
    lines = [x for x in text if x and not x.startswith("#")]
    res = native_run(native, lines, os.path.join(BUILD, pid.lower(), "replay.in"))
    for r in res:
        print(r)
    return 1 if any(r.startswith(("panic", "crash", "hang")) for r in res) else 0


def known_findings(pid):
    try:
        d = json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError:
        return {}
    return {f["id"]: f for f in d.get("findings", []) if f["property"] == pid}


def check(pid, tier, only):
    spec = PROPS[pid]
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, pid + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    build_engine()
    ll, native = build(pid)
    built_s = round(time.time() - T0, 1)
    work = os.path.join(BUILD, pid.lower(), "run")
    os.makedirs(work, exist_ok=True)
    limit = 840 if tier == "quick" else 36000
    listed = known_findings(pid)
    problems, violations, known_seen = [], [], {}
    per, validated, samples_out = [], 0, []
    tot = {}
    functions = {}
    z3v = ""
    for h in spec["harnesses"]:
        if only and h["fn"] != only:
            continue
        if h.get("tier", "quick") == "thorough" and tier != "thorough" and not only:
            continue
        left = limit - (time.time() - T0)
        if left < 10:
            problems.append("out of time before " + h["fn"])
            break
        out = os.path.join(work, h["fn"] + ".json")
        if os.path.exists(out):
            os.remove(out)
        secs = int(min(left - 5, h.get("secs", 36000)))
        cmd = [ENGINE, ll, "--fn", h["fn"], "--out", out, "--secs", str(secs),
               "--procs", os.environ.get("VERIF_PROCS", "8"),
               "--max-steps", str(h.get("max_steps", 100_000_000)), "--prefix", REPO + "/"] + h.get("args", [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left + 20)
            errtext = p.stderr.decode("utf-8", "replace")[-3000:]
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc, errtext = "timeout", ""
        if rc != 0 or not os.path.exists(out):
            problems.append(f"{h['fn']}: the executor ended with {rc} {errtext}")
            continue
        r = json.load(open(out))
        z3v = r["z3"]
        st = r["stats"]
        for k, v in st.items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max_") else tot.get(k, 0) + v
        for k, v in r["coverage"].items():
            functions.setdefault(k, set()).update(v)
        per.append({
            "harness": h["fn"], "bounds": h["bounds"], "paths": st["paths"], "forks": st["forks"],
            "instructions": st["steps"], "queries": st["queries"], "unsat": st["unsat"], "sat": st["sat"],
            "solver_s": round(st["solver_ns"] / 1e9, 2), "wall_s": round(r["wall_ms"] / 1000, 2),
            "cover": r["cover"], "known_paths": st["known_paths"],
        })
        print(f"  {h['fn']}: {st['paths']} paths, {st['queries']} queries, "
              f"solver {st['solver_ns'] / 1e9:.1f}s, wall {r['wall_ms'] / 1000:.1f}s", flush=True)
        for e in r["errors"]:
            problems.append(f"{h['fn']}: {e}")
        if st["unknown"]:
            problems.append(f"{h['fn']}: {st['unknown']} queries without an answer")
        if st["incomplete"]:
            problems.append(f"{h['fn']}: not finished in {secs} s")
        # counterexamples: replay each on the native build
        for rep in r["reports"]:
            res = native_run(native, [line(h["fn"], rep["inputs"])], os.path.join(work, "cex.in"))[0]
            if rep["kind"] == "known":
                k = rep["known"]
                if res != f"known {k}":
                    problems.append(f"{h['fn']}: finding {k} does not replay: {res} inputs {rep['inputs']}")
                elif k in listed:
                    known_seen.setdefault(k, rep["inputs"])
                else:
                    violations.append((h["fn"], f"finding {k}, which is not listed", rep, res))
                continue
            if res.startswith(("panic", "crash", "hang")):
                violations.append((h["fn"], res, rep, res))
            else:
                problems.append(
                    f"{h['fn']}: counterexample does not reproduce natively ({res}): {rep['kind']} {rep['what']}\n"
                    f"{rep['at']} inputs {rep['inputs']}"
                )
        if violations:
            break
        # sampled paths: the native run must observe what the symbolic one did
        smp = r["samples"]
        if smp:
            res = native_run(native, [line(h["fn"], s["inputs"], s["obs"]) for s in smp],
                             os.path.join(work, "samples.in"), timeout=120)
            for s, x in zip(smp, res):
                if x == "ok":
                    validated += 1
                else:
                    problems.append(f"{h['fn']}: native run disagrees with the encoding: {x[:600]} inputs {s['inputs']}")
                    break
            for s in smp[:2]:
                samples_out.append({"harness": h["fn"], "inputs": s["inputs"][:64], "observed": s["obs"][:16]})
        if not st["paths"] and not st["known_paths"]:
            problems.append(f"{h['fn']}: no path completed")
        for c in h.get("covers", []):
            if not r["cover"].get(str(c)):
                problems.append(f"{h['fn']}: reachability witness {c} was not reached")
    wall = round(time.time() - T0, 1)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("forks", 0),
            "transitions": tot.get("steps", 0),
            "traces_validated_against_impl": validated,
            "samples": samples_out[:24],
            "exhaustive": not problems and not violations,
            "explanation": "symbolic execution of the LLVM IR rustc emits for the harness and /repo; states = completed "
                           "symbolic paths plus forks, transitions = IR instructions executed on completed paths; "
                           "every path condition and assertion is decided by z3 over all inputs within the bounds",
            "paths": tot.get("paths", 0),
            "queries_discharged": tot.get("queries", 0),
            "queries_unsat": tot.get("unsat", 0),
            "queries_sat": tot.get("sat", 0),
            "solver_s": round(tot.get("solver_ns", 0) / 1e9, 2),
            "merged_branches": tot.get("merges", 0),
            "longest_path_instructions": tot.get("max_steps", 0),
            "solver": "z3 " + z3v,
            "harnesses": per,
            "functions_encoded": {k: f"{len(v)} lines executed" for k, v in sorted(functions.items())},
            "build_s": built_s,
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": wall,
        "violations": len(violations),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, inp in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={pid} {listed[k]['what']}")
    if violations:
        fn, res, rep, _ = violations[0]
        rp = os.path.join(ev_dir, pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write(f"# property {pid}\n# {rep['kind']}: {rep['what']}\n")
            for x in rep["at"].splitlines():
                f.write("# " + x + "\n")
            f.write(f"# native: {res}\n# replay with: python3 {HERE}/check.py --replay {rp}\n")
            f.write(line(fn, rep["inputs"]) + "\n")
        print(f"{fn}: {rep['what']}; native: {res}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if problems:
        for x in problems:
            print("NO VERDICT:", x)
        return 2
    print(f"{pid}: held on {tot['paths']} paths, {tot['queries']} queries, {wall} s")
    return 0


COMMON = [
    "bounded: the claim covers the inputs, sizes and schedules listed per harness and nothing outside them",
    "the code analysed is what stable rustc emits at opt-level 2 with overflow and debug assertions on; "
    "trusted: rustc/LLVM up to that IR, the executor in /verif/engine, z3; sampled paths and every counterexample "
    "are re-run on a native build",
    "allocation does not fail; error messages built with format! are replaced by empty strings",
]


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build_engine()
            print("executor built:", run([ENGINE, "--version"], "symex").strip())
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        pid = a[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        only = None
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if "--only" in a:
            only = a[a.index("--only") + 1]
        return check(pid, tier, only)
    except NoVerdict as e:
        print("NO VERDICT:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
