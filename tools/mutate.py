#!/usr/bin/env python3
"""Try the checks on small changes of the library.

mutate.py list                    write all changes to <scratch>/all.json
mutate.py tests <workers>         keep those that compile and pass the tests
mutate.py checks <workers> [n]    run the quick checks of the kept ones

Works on copies below the scratch directory only.  Not part of any check: it
is used to find what the harnesses do not notice.
"""

import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("SCRATCH", "/tmp/mw")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"

CHECKS = [
    ("ts/mod.rs", "C01 C02 C03 C47 C05"),
    ("ts/pcr.rs", "C03 C04"),
    ("ts/debug.rs", "C45"),
    ("psi/mod.rs", "C07 C06 C10 C09 C12 C13 C08 C05 C14 C23 C50"),
    ("psi/pat.rs", "C15 C14 C46 C23"),
    ("psi/pmt.rs", "C16 C41 C14 C46 C23"),
    ("psi/sdt.rs", "C17 C14 C46 C23 C52"),
    ("psi/nit.rs", "C18 C14 C46 C23"),
    ("psi/eit.rs", "C19 C20 C14 C46 C52"),
    ("psi/tdt.rs", "C21 C14"),
    ("psi/tot.rs", "C22 C14"),
    ("descriptors/mod.rs", "C48 C25 C24 C31 C51"),
    ("descriptors/raw.rs", "C25 C24 C31 C48"),
    ("descriptors/x43", "C26 C25 C24 C31 C47 C51"),
    ("descriptors/x44", "C26 C25 C24 C31 C47 C51"),
    ("descriptors/x5a", "C26 C25 C24 C31 C47 C51"),
    ("descriptors/x4", "C27 C28 C25 C24 C31 C51 C52"),
    ("descriptors/x83", "C27 C25 C24 C31 C51"),
    ("descriptors/x58", "C30 C25 C24 C31 C51"),
    ("descriptors/x", "C29 C25 C24 C31 C51"),
    ("utils/bcd.rs", "C37 C38"),
    ("utils/mjd.rs", "C38"),
    ("utils/crc32.rs", "C11"),
    ("textcode/lang.rs", "C36"),
    ("textcode/data.rs", "C33 C34"),
    ("textcode/mod.rs", "C32 C35 C33 C34 C25 C48 C52"),
    ("reader/mod.rs", "C42 C50"),
    ("reader/drain.rs", "C43"),
    ("es/", "C39 C40 C41"),
    ("bytes.rs", "C44"),
    ("bits.rs", "C49 C26"),
    ("constants.rs", "C47"),
]

SWAPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "),
         (" + ", " - "), (" - ", " + "), (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & "), (" * ", " / "),
         (" / ", " * "), (" % ", " / "), ("+=", "-="), ("-=", "+="), ("|=", "&="), ("&=", "|="), ("true", "false"), ("false", "true"),
         (" ..= ", " .. "), (".rev()", ""), ("saturating_sub", "wrapping_sub"), ("break", "continue"), ("continue", "break"),
         (".min(", ".max("), (".max(", ".min(")]


def changes():
    out = []
    root = os.path.join("/repo", "src")
    for d, dirs, names in os.walk(root):
        if "mux" in d:
            continue
        for n in sorted(names):
            rel = os.path.relpath(os.path.join(d, n), "/repo")
            if not n.endswith(".rs") or n == "tests.rs" or n == "lib.rs":
                continue
            with open(os.path.join(d, n)) as fh:
                lines = fh.read().split("\n")
            found = []
            for i, l in enumerate(lines):
                if "#[cfg(test)]" in l:
                    break
                code = l.split("//")[0].rstrip()
                t = code.strip()
                if re.match(r"(0x\w\w, ){8}", t) and i % 6:
                    continue
                if not t or t.startswith(("use ", "#", "mod ", "pub mod ", "pub use ", "*")):
                    continue
                for m in re.finditer(r"(?<![\w.'])(0x[0-9A-Fa-f_]+|0b[01_]+|\d+)(?=(u8|u16|u32|u64|usize|i64)?\b)(?!\w*')", code):
                    s = m.group(1)
                    base = 16 if s.startswith("0x") else 2 if s.startswith("0b") else 10
                    v = int(s.replace("_", "")[2 if base != 10 else 0:], base)
                    vals = {v + 1, v - 1} if base == 10 else {v ^ 1, v ^ (1 << max(0, v.bit_length() - 1))}
                    for w in vals:
                        if w >= 0 and w != v:
                            found.append((i, l[:m.start(1)] + ("0x%X" % w if base == 16 else "0b" + format(w, "b") if base == 2 else str(w)) + l[m.end(1):]))
                for a, b in SWAPS:
                    at = code.find(a)
                    while at >= 0:
                        x = a.strip()
                        if not (a == "true" or a == "false") or re.search(r"\b%s\b" % a, code):
                            if not (x in ("<", ">") and re.search(r"\bfn\b|impl|->|=>", code)) and not (a in ("<=", ">=") and code[at - 1:at] in "<>="):
                                found.append((i, l[:at] + b + l[at + len(a):]))
                        at = code.find(a, at + 1)
                if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "const ", "static ", "type ", "break", "continue")) and t.count("(") == t.count(")"):
                    found.append((i, l[:len(l) - len(l.lstrip())] + "();"))
                m = re.match(r"(\s*(?:\} else )?(?:if|while) )(.*)( \{)$", code)
                if m and "let" not in m.group(2):
                    found.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
            if n in ("data.rs", "lang.rs", "crc32.rs", "constants.rs"):
                random.Random(7).shuffle(found)
                found = found[:30]
            for i, new in found:
                if new != lines[i]:
                    out.append(dict(file=rel, line=i + 1, old=lines[i], new=new))
    seen, uniq = set(), []
    for c in out:
        k = (c["file"], c["line"], c["new"])
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    random.Random(1).shuffle(uniq)
    return uniq


def load(name):
    with open(os.path.join(SCRATCH, name)) as fh:
        return json.load(fh)


def save(name, what):
    with open(os.path.join(SCRATCH, name + ".new"), "w") as fh:
        json.dump(what, fh, indent=1)
    os.rename(os.path.join(SCRATCH, name + ".new"), os.path.join(SCRATCH, name))


def put(repo, c, which):
    p = os.path.join(repo, c["file"])
    with open(p) as fh:
        lines = fh.read().split("\n")
    assert lines[c["line"] - 1] in (c["old"], c["new"])
    lines[c["line"] - 1] = c[which]
    with open(p, "w") as fh:
        fh.write("\n".join(lines))


def copy_repo(k):
    w = os.path.join(SCRATCH, "w%d" % k)
    repo = os.path.join(w, "repo")
    if os.path.exists(repo):
        shutil.rmtree(repo)
    os.makedirs(w, exist_ok=True)
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
    return w, repo


def skip(d, names):
    top = {VERIF: [".git", "seeded", "evidence", "replays"], os.path.join(VERIF, ".build"): ["ir", "replay", "work"]}
    return top.get(d, [])


def pool(workers, todo, work):
    lock = threading.Lock()
    it = iter(todo)

    def loop(k):
        state = None
        while True:
            with lock:
                c = next(it, None)
            if c is None:
                return
            state = work(k, state, c, lock)

    ts = [threading.Thread(target=loop, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def tests(workers):
    todo = load("all.json")
    kept, done = [], [0]

    def work(k, state, c, lock):
        if state is None:
            state = copy_repo(k)
        w, repo = state
        put(repo, c, "new")
        env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=os.path.join(w, "target"), CARGO_NET_OFFLINE="true",
                   CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_BUILD_JOBS="2", RUSTFLAGS="-Awarnings")
        try:
            ok = subprocess.run(["cargo", "test", "-q", "--offline"], cwd=repo, env=env, timeout=150, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        put(repo, c, "old")
        with lock:
            done[0] += 1
            if ok:
                kept.append(c)
            if done[0] % 20 == 0:
                save("kept.json", kept)
                print(done[0], len(todo), len(kept), flush=True)
        return state

    pool(workers, todo, work)
    save("kept.json", kept)


def checks(workers, most):
    try:
        results = load("results.json")
    except OSError:
        results = []
    have = {(r["file"], r["line"], r["new"]) for r in results}
    todo = [c for c in load("kept.json") if (c["file"], c["line"], c["new"]) not in have][:most]

    def work(k, state, c, lock):
        if state is None:
            w, repo = copy_repo(k)
            verif = os.path.join(w, "verif")
            if os.path.exists(verif):
                shutil.rmtree(verif)
            shutil.copytree(VERIF, verif, ignore=skip)
            for f in ("check.py", "harness/Cargo.toml"):
                p = os.path.join(verif, f)
                with open(p) as fh:
                    s = fh.read()
                s = s.replace('"/repo"', '"%s"' % repo).replace("CORES = 8", "CORES = 2")
                s = s.replace('if tier >= h["tier"]]', 'if tier >= h["tier"] and not h["confirm"]]')
                with open(p, "w") as fh:
                    fh.write(s)
            state = (w, repo, verif)
        w, repo, verif = state
        put(repo, c, "new")
        ids = next(v for n, v in CHECKS if n in c["file"]).split()
        c = dict(c, runs=[])
        for i in ids:
            try:
                r = subprocess.run([sys.executable, "check.py", i], cwd=verif, env=dict(os.environ, CARGO_BUILD_JOBS="2"), timeout=1200, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                code, text = r.returncode, r.stdout.decode(errors="replace")[-600:] if r.returncode not in (0, 1) else ""
            except subprocess.TimeoutExpired:
                code, text = "timeout", ""
            c["runs"].append([i, code, text])
            if code == 1:
                break
        put(repo, c, "old")
        with lock:
            results.append(c)
            save("results.json", results)
            last = c["runs"][-1]
            print(len(results), "CAUGHT" if last[1] == 1 else "MISSED", c["file"], c["line"], [r[:2] for r in c["runs"]], "\n  -", c["old"].strip(), "\n  +", c["new"].strip(), flush=True)
        return state

    pool(workers, todo, work)


def main():
    os.makedirs(SCRATCH, exist_ok=True)
    if sys.argv[1] == "list":
        c = changes()
        save("all.json", c)
        print(len(c))
    elif sys.argv[1] == "tests":
        tests(int(sys.argv[2]))
    else:
        checks(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1 << 30)


main()
