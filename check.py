#!/usr/bin/env python3
"""Decide one property on the current source of /repo.

  check.py <property>     exit 0 held, 1 violation (with a VIOLATION line), other: error
  check.py --setup        build everything a check needs
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import itertools
import json
import os
import resource
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
ENGINE_TARGET = os.path.join(BUILD, "engine")
IR_TARGET = os.path.join(BUILD, "ir")
REPLAY_TARGET = os.path.join(BUILD, "replay")
ENGINE = os.path.join(ENGINE_TARGET, "release", "irsym")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
CRATES = ["harness", "mpegts", "core", "alloc", "std"]
CORES = 8
SERIAL = itertools.count()

sys.path.insert(0, VERIF)
from harnesses import PROPERTIES  # noqa: E402


class CheckError(Exception):
    pass


def run(cmd, env=None, cwd=VERIF, timeout=1500):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_BUILD_TARGET", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


def must(cmd, what, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, r.stderr.decode(errors="replace")[-4000:]))
    return r


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def refresh(target, tree):
    """Cargo notices changes by modification time; make sure by content."""
    stamp = os.path.join(target, "tree.sha256")
    try:
        with open(stamp) as fh:
            if fh.read() == tree:
                return
    except OSError:
        pass
    for pat in ("**/.fingerprint/mpegts-*", "**/build/mpegts"):
        for d in glob.glob(os.path.join(target, pat), recursive=True):
            subprocess.run(["rm", "-rf", d], check=True)


def stamp(target, tree):
    with open(os.path.join(target, "tree.sha256"), "w") as fh:
        fh.write(tree)


def build_engine():
    must(["cargo", "+" + STABLE, "build", "--release", "--offline"], "engine build",
         cwd=os.path.join(VERIF, "engine"), env={"CARGO_TARGET_DIR": ENGINE_TARGET})


def build_ir(tree):
    refresh(IR_TARGET, tree)
    r = must(["cargo", "+" + NIGHTLY, "build", "--release", "--lib", "--offline", "-Z", "build-std=std,panic_abort",
              "--target", TRIPLE, "--message-format=json"], "IR build",
             cwd=os.path.join(VERIF, "harness"),
             env={"CARGO_TARGET_DIR": IR_TARGET,
                  "RUSTFLAGS": "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -Z ub-checks=no"})
    found = {}
    for line in r.stdout.decode(errors="replace").splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        name = m["target"]["name"].replace("-", "_")
        if name not in CRATES:
            continue
        for f in m["filenames"]:
            d, b = os.path.split(f)
            stem = b.split(".")[0]
            if stem.startswith("lib"):
                stem = stem[3:]
            ll = os.path.join(d, stem + ".ll")
            if os.path.exists(ll):
                found[name] = ll
    for c in CRATES:
        if c not in found:
            raise CheckError("no IR for crate %s" % c)
    stamp(IR_TARGET, tree)
    return [found[c] for c in CRATES]


def build_replay(profile, tree):
    target = os.path.join(REPLAY_TARGET, profile)
    os.makedirs(target, exist_ok=True)
    refresh(target, tree)
    must(["cargo", "+" + STABLE, "build", "--profile", profile, "--bin", "replay", "--offline"], "replay build",
         cwd=os.path.join(VERIF, "harness"), env={"CARGO_TARGET_DIR": target})
    stamp(target, tree)
    return os.path.join(target, "debug" if profile == "dev" else profile, "replay")


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def replay(binary, entry, tier, params, inputs, work):
    path = os.path.join(work, "in.%d.%d" % (os.getpid(), next(SERIAL)))
    with open(path, "w") as fh:
        fh.write("\n".join(str(x) for x in inputs))
    try:
        r = subprocess.run([binary, entry, str(tier), path] + [str(p) for p in params],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        os.unlink(path)


def known_findings():
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith("known: "):
                out.append(dict(f.split("=", 1) for f in line[7:].split(" | ")))
    return out


def engine_job(lls, h, tier, seed, part, work, deadline):
    entry = h["entry"]
    jobs = h["jobs"]
    out = os.path.join(work, "%s.%d.%d.json" % (entry, os.getpid(), next(SERIAL)))
    budget = max(10, deadline - time.time())
    cmd = [ENGINE]
    for l in lls:
        cmd += ["--ll", l]
    cmd += ["--entry", entry, "--tier", str(tier), "--seed", str(seed), "--out", out, "--split", "%d/%d" % (part, jobs),
            "--time", "%.0f" % min(budget, h["time"]), "--witnesses", str(max(2, 16 // jobs)), "--src-root", REPO + "/",
            "--query-timeout", str(h["query_ms"])]
    for p in h["params"]:
        cmd += ["--param", str(p)]
    if h["raw"]:
        cmd += ["--raw"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit)
    try:
        with open(out) as fh:
            result = json.load(fh)
        os.unlink(out)
        return result
    except (OSError, ValueError):
        return {"entry": entry, "errors": ["engine ended with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-1500:])]}


def check(prop):
    t0 = time.time()
    tier_name = os.environ.get("VERIF_TIER", "quick")
    tier = 1 if tier_name == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "work", prop)
    os.makedirs(work, exist_ok=True)
    tree = tree_hash()
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_engine()
        lls = build_ir(tree)
        native = build_replay("dev", tree)
    t_build = time.time() - t0

    hs = [h for h in PROPERTIES[prop]["harnesses"] if tier >= h["tier"]]
    # a quick check has to answer within 900 s, builds included
    deadline = t0 + (780 if tier == 0 else 6000)
    results = []
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        futs = []
        for h in hs:
            for part in range(h["jobs"]):
                futs.append((h, ex.submit(engine_job, lls, h, tier, seed, part, work, deadline)))
        for h, f in futs:
            results.append((h, f.result()))

    errors, unfinished, violations, known_lines = [], [], [], []
    known = [k for k in known_findings() if k["property"] == prop]
    validated = 0
    samples = []
    agg = dict(paths=0, assumed_away=0, aborted=0, instructions=0, forks=0, terms=0)
    solver = {}
    functions = {}
    conditions = {}
    covers = {}
    candidates = []
    for h, r in results:
        entry = h["entry"]
        for e in r.get("errors", []):
            # a confirmation repeats conditions already decided: it may run out of time
            late = h["confirm"] and (e.startswith("time limit") or e.startswith("solver gave no answer"))
            (unfinished if late else errors).append("%s: %s" % (entry, e))
        for k in agg:
            agg[k] += r.get(k, 0)
        for k, v in r.get("solver", {}).items():
            if k == "version":
                solver[k] = v
            elif k == "max_query_s":
                solver[k] = max(solver.get(k, 0), v)
            else:
                solver[k] = round(solver.get(k, 0) + v, 3)
        for f, n, ls in r.get("sources", []):
            if n.startswith("harness"):
                continue
            functions.setdefault((f[len(REPO) + 1:], n), set()).update(ls)
        for k, v in r.get("checks", {}).items():
            c = conditions.setdefault(entry, {}).setdefault(k, 0)
            conditions[entry][k] = c + v[0] + v[1]
        cv = covers.setdefault(entry, (set(), set()))
        cv[0].update(r.get("covers", []))
        cv[1].update(r.get("expected", []))
        for v in r.get("violations", []):
            candidates.append((h, v))

    # native validation of path witnesses
    jobs = [(h, w) for h, r in results for w in r.get("witnesses", [])]

    def validate(job):
        h, w = job
        code, so, se = replay(native, h["entry"], tier, h["params"], w["inputs"], work)
        obs = [int(l[2:]) for l in so.splitlines() if l.startswith("O ")]
        return h, w, code, obs

    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for h, w, code, obs in ex.map(validate, jobs):
            if code == 0 and obs == w["observed"]:
                validated += 1
                if len(samples) < 3:
                    samples.append({"harness": h["entry"], "inputs": w["inputs"][:64], "observed": w["observed"][:32]})
            elif code == 10 or code == 101:
                # the native run breaks where the symbolic one did not: the encoding would be wrong
                errors.append("%s: native run of a passing path fails (%s) on %s" % (h["entry"], code, w["inputs"][:64]))
            else:
                errors.append("%s: native run disagrees (exit %s): observed %s, encoded %s" % (h["entry"], code, obs[:24], w["observed"][:24]))

    # native replay of counterexamples
    if candidates:
        with open(os.path.join(BUILD, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            plain = build_replay("plain", tree)
        rdir = os.path.join(VERIF, "replays", prop)
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, (h, v) in enumerate(candidates):
            key = (h["entry"], v["kind"], v["label"], v["site"])
            if key in seen:
                continue
            code, so, se = replay(native, h["entry"], tier, h["params"], v["inputs"], work)
            pcode, pso, _ = replay(plain, h["entry"], tier, h["params"], v["inputs"], work)
            broke = code in (10, 101, -6, 134, "timeout") or (isinstance(code, int) and code < 0)
            if not broke:
                errors.append("%s: counterexample for '%s' at %s did not reproduce natively (exit %s)" % (h["entry"], v["label"], v["site"], code))
                continue
            seen.add(key)
            hit = [k for k in known if k["harness"] == h["entry"] and k["label"] == v["label"] and v["kind"] == "check"
                   and ("FAILED " + v["label"]) in so]
            if hit:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
                continue
            path = os.path.join(rdir, "%s.%d.json" % (h["entry"], len(violations)))
            with open(path, "w") as fh:
                json.dump({"property": prop, "harness": h["entry"], "tier": tier, "params": h["params"], "kind": v["kind"],
                           "label": v["label"], "site": v["site"], "stack": v["stack"], "inputs": v["inputs"],
                           "dev_profile": {"exit": code, "stdout": so[-600:], "stderr": se[-600:]},
                           "release_profile": {"exit": pcode, "stdout": pso[-600:]},
                           "command": "replay %s %d <file with inputs, one per line>" % (h["entry"], tier)}, fh, indent=1)
            violations.append((h["entry"], v, path))

    for entry, (got, want) in sorted(covers.items()):
        missing = want - got
        if missing and not violations:
            errors.append("%s: vacuity witness not reached: %s" % (entry, ", ".join(sorted(missing))))
        if not want:
            errors.append("%s: no vacuity witness declared" % entry)

    p = PROPERTIES[prop]
    evidence = {
        "property": prop, "tier": tier_name, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg["forks"] + len(results),
            "transitions": agg["instructions"],
            "traces_validated_against_impl": validated,
            "samples": samples,
            "paths_completed": agg["paths"],
            "paths_outside_assumptions": agg["assumed_away"],
            "paths_ended_in_panic_or_failed_check": agg["aborted"],
            "harnesses": [{"entry": h["entry"], "bound": h["bound"], "conditions": conditions.get(h["entry"], {}),
                           "witnesses_reached": sorted(covers.get(h["entry"], (set(), set()))[0])} for h in hs],
            "functions_encoded": ["%s %s (lines %s)" % (f, n, ",".join(str(x) for x in sorted(ls) if x)) for (f, n), ls in sorted(functions.items())],
            "queries": solver,
            "bounds": [h["entry"] + ": " + h["bound"] for h in hs],
            "outside": p["outside"],
            "violations": [{"harness": e, "label": v["label"], "site": v["site"], "replay": os.path.relpath(path, VERIF)} for e, v, path in violations],
            "known_findings": known_lines,
            "errors": errors[:20],
            "confirmations_unfinished": unfinished[:20],
            "build_s": round(t_build, 1),
        },
        "assumptions": p["assumptions"],
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(work, "evidence.json")
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    for l in sorted(set(known_lines)):
        print(l)
    print("%s %s: %d paths, %d instructions, %d queries (%d to z3, %.1f s), %d traces validated, %.1f s (build %.1f s)" % (
        prop, tier_name, agg["paths"], agg["instructions"], solver.get("queries", 0), solver.get("z3", 0), solver.get("solver_s", 0),
        validated, time.time() - t0, t_build))
    if violations:
        for e, v, path in violations:
            print("  %s: %s: %s at %s" % (e, v["kind"], v["label"], v["site"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:20]:
            print("ERROR " + e[:2000], file=sys.stderr)
        return 2
    return 0


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 3
    try:
        if sys.argv[1] == "--setup":
            os.makedirs(BUILD, exist_ok=True)
            tree = tree_hash()
            with open(os.path.join(BUILD, "lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                build_engine()
                r = run([ENGINE, "--selftest", "5000"])
                if r.returncode != 0:
                    raise CheckError("engine selftest failed: " + r.stderr.decode(errors="replace"))
                os.makedirs(IR_TARGET, exist_ok=True)
                build_ir(tree)
                build_replay("dev", tree)
                build_replay("plain", tree)
            print("ready")
            return 0
        return check(sys.argv[1])
    except CheckError as e:
        print("ERROR " + str(e), file=sys.stderr)
        return 3
    except Exception:  # anything but an answer is an error, never exit status 1
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
