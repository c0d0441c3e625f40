"""Extraction and deductive verification: runs vextract and Verus, reads back what failed.

CLI (for development):  contractlib.py [--module ast1]... [--demote FN]... [--demote-module M]... [-v]
"""
import json
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
VEXTRACT = os.path.join(BUILD, "extract", "release", "vextract")


def extract(repo, out, demote=(), demote_modules=(), contracts=None):
    cmd = [VEXTRACT, "--repo", repo, "--contracts", contracts or os.path.join(HERE, "contracts"),
           "--out", out + ".rs", "--map", out + ".map.json"]
    for d in demote:
        cmd += ["--demote", d]
    for d in demote_modules:
        cmd += ["--demote-module", d]
    p = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if p.returncode != 0:
        return None, p.stderr
    with open(out + ".map.json") as f:
        return json.load(f), ""


def verify(out, modules=(), functions=(), threads=8, timeout=600, extra=(), stop=None):
    """Runs Verus on out.rs. Returns dict(ok, errors, results, raw)"""
    cmd = ["verus", "--crate-type=lib", os.path.basename(out) + ".rs", "--output-json", "--time-expanded",
           "--error-format=json", "--multiple-errors", "0", "--no-auto-recommends-check",
           "--smt-option", "timeout=100000", "--rlimit", "40", "--num-threads", str(threads)]
    for m in modules:
        cmd += ["--verify-only-module" if "--verify-function" in extra else "--verify-module", m]
    if modules and "--verify-function" not in extra:
        cmd += ["--verify-root"]
    cmd += list(extra)
    end = time.time() + timeout
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                          cwd=os.path.dirname(out) or ".", start_new_session=True)
    while True:
        try:
            so, se = pr.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if time.time() > end or (stop and stop()):
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except OSError:
                    pass
                pr.communicate()
                return {"timeout": True, "errors": [], "json": {}, "stderr": "", "cmd": cmd}

    class p:
        stdout, stderr, returncode = so, se, pr.returncode
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        js = {}
    errors = []
    notes = []
    for l in p.stderr.splitlines():
        l = l.strip()
        if not l.startswith("{"):
            if l:
                notes.append(l)
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
            errors.append(d)
    return {"timeout": False, "errors": errors, "json": js, "stderr": p.stderr, "notes": notes, "cmd": cmd,
            "rc": p.returncode}


def locate(m, line):
    """function and clause at a line of the generated file"""
    fn = clause = None
    for e in m["lines"]:
        if e["first"] <= line <= e["last"]:
            if e["kind"] in ("fn", "spec"):
                if fn is None or e["first"] >= fn["first"]:
                    fn = e
            else:
                clause = e
    return fn, clause


def classify(m, err):
    """one Verus diagnostic -> dict(fn, kind, message, clauses, tags, line)"""
    msg = err["message"]
    spans = err.get("spans", [])
    prim = [s for s in spans if s.get("is_primary")] or spans
    clauses = []
    fns = []
    for s in spans:
        f, c = locate(m, s["line_start"])
        if c is not None:
            clauses.append(c)
        if f is not None:
            fns.append((f["fn"], s))
    fn = None
    # the function being verified is the one the failing code is in
    if "postcondition" in msg or "invariant" in msg or "decreases" in msg:
        for n, s in fns:
            fn = n
            break
    if fn is None:
        for s in prim:
            f, c = locate(m, s["line_start"])
            if f is not None:
                fn = f["fn"]
                if c is None:
                    break
    if "precondition" in msg:
        # the call site, not the callee's clause
        for n, s in fns:
            f, c = locate(m, s["line_start"])
            if c is None:
                fn = n
    line = prim[0]["line_start"] if prim else 0
    rlimit = "rlimit" in msg or "Resource limit" in msg
    return {"fn": fn, "message": msg, "line": line, "rlimit": rlimit,
            "clauses": [{"fn": c["fn"], "kind": c["kind"], "text": c["text"], "tags": c["tags"], "at": c.get("at", "")} for c in clauses],
            "tags": sorted({t for c in clauses for t in c["tags"]}),
            "source": [t["text"].strip() for s in prim for t in s.get("text", [])][:4],
            "lines": [s["line_start"] for s in spans]}


if __name__ == "__main__":
    a = sys.argv[1:]
    get = lambda k: [a[i + 1] for i in range(len(a) - 1) if a[i] == k]
    subprocess.run("cargo build -q --release --offline --target-dir /verif/build/extract 2>&1 | grep -E '^error' -A8",
                   shell=True, cwd=os.path.join(HERE, "extract"))
    out = (get("--out") or [os.path.join(BUILD, "dev")])[0]
    m, e = extract((get("--repo") or ["/repo"])[0], out, get("--demote"), get("--demote-module"))
    if m is None:
        print(e)
        sys.exit(3)
    if "--baseline" in a:
        with open(os.path.join(HERE, "contracts", "baseline.json"), "w") as f:
            json.dump({f["fn"]: f["hash"] for f in m["fns"]}, f, indent=1, sort_keys=True)
        sys.exit(0)
    for f in m["fns"]:
        if f["lost"]:
            print("LOST", f["fn"], f["lost"])
    if m["contracts_without_function"]:
        print("NOFN", m["contracts_without_function"])
    r = verify(out, get("--module"), extra=sum([["--verify-function", x] for x in get("--function")], []))
    if r["timeout"]:
        print("TIMEOUT")
    for err in r["errors"]:
        c = classify(m, err)
        print(f"{c['fn']}: {c['message'][:110]}  @{c['lines']}  {' | '.join(c['source'])[:160]}")
        for k in c["clauses"]:
            print("       ", k["kind"], k["at"], k["text"][:150].replace("\n", " "))
    for n in r.get("notes", []):
        print(n[:300])
    vr = r["json"].get("verification-results", {})
    print({k: vr.get(k) for k in ("verified", "errors", "success")})
    if "-t" in a:
        fs = []
        for mod in r["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                fs.append((f.get("time", 0), f.get("rlimit", 0), f["function"]))
        for t in sorted(fs, reverse=True)[:12]:
            print(t)
