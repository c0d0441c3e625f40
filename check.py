#!/usr/bin/env python3
"""check.py PROP: decides one property of /repo's current tree (see DESIGN.md).

Exit 0: held on everything explored.  Exit 1 and a line VIOLATION: broken.
Any other exit: the check itself failed."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import contractlib
from cones import ASSUMPTIONS, CONES, level
REPO = "/repo"
MAIN = {"ast1": {"C01", "C02"}, "ast2": {"C06", "C08"}, "ast3": {"C05", "C11"}}
BUILD = os.path.join(VERIF, "build")
SEARCH = os.path.join(BUILD, "search", "debug", "vsearch")


def tool_env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = e.get("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    for k in ("CARGO_RESOLVER_LOCKFILE_PATH", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(kw)
    return e


def build_search():
    p = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--quiet"],
        cwd=os.path.join(VERIF, "search"),
        env=tool_env(CARGO_TARGET_DIR=os.path.join(BUILD, "search"), RUSTFLAGS="--cfg latex_ast_verif -Awarnings"),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit("the search harness does not build against /repo: no answer")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def search(prop, tier, seed, secs, scratch):
    """Bounded search for a failing input against the real code. -> (found, stats)"""
    out = os.path.join(scratch, "search.json")
    jdir = os.path.join(scratch, "journal")
    os.makedirs(jdir, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run(
        [SEARCH, "search", prop, "--tier", tier, "--seed", str(seed), "--secs", str(secs),
         "--repo", REPO, "--journal", jdir, "--out", out],
        env=tool_env(), preexec_fn=limits, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode == 0 and os.path.exists(out):
        d = json.load(open(out))
        return d["found"], d["stats"]
    # it died or hung: find the input that did it
    rout = os.path.join(scratch, "recover.json")
    subprocess.run([SEARCH, "recover", prop, "--repo", REPO, "--journal", jdir, "--out", rout],
                   env=tool_env(), preexec_fn=limits, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    stats = {"evaluations": 0, "distinct_nontrivial": 0, "died": p.returncode}
    if os.path.exists(rout):
        return json.load(open(rout))["found"], stats
    return None, stats


class Prover:
    """Extracts /repo's current source, weaves the contracts in and has Verus discharge every obligation of the
    property's cone."""

    def __init__(self, prop, scratch, seed):
        self.prop, self.scratch, self.seed = prop, scratch, seed
        self.cone = CONES[prop]
        self.out = os.path.join(scratch, "gen")
        self.failed = []      # failed obligations that count against the property
        self.undecided = []   # (function, why): left to the bounded search
        self.stats = {}
        self.found_at = None  # when the search found a failing input: no need to go on for long

    def stop(self):
        return self.found_at is not None and time.time() > self.found_at + 60

    def run(self):
        try:
            self._run()
        except Exception as e:  # the machinery, not the code: the bounded search decides
            self.undecided.append(("*", "the contract checker stopped: %r" % e))

    def _run(self):
        if not self.cone["modules"]:
            return
        with open(os.path.join(VERIF, "contracts", "baseline.json")) as f:
            base = json.load(f)
        others = [m for m in ("ast1", "ast2", "ast3") if m not in self.cone["modules"]]
        skip = list(self.cone.get("skip", ()))
        demoted = []
        deadline = time.time() + 330
        m = None
        for attempt in range(6):
            m, err = contractlib.extract(REPO, self.out, skip + demoted, others)
            if m is None:
                self.undecided.append(("*", "the extraction does not cover the current source: " + err[-600:]))
                return
            if attempt == 0:
                for f in m["fns"]:
                    if f["module"] in self.cone["modules"] and f["lost"] and f["fn"] not in skip:
                        self.undecided.append((f["fn"], "a contract has lost its place: " + ", ".join(f["lost"])))
                        demoted.append(f["fn"])
                if demoted:
                    continue
            mods = [x for mm in self.cone["modules"] for x in (mm, mm + "_spec")]
            r = contractlib.verify(self.out, mods, timeout=max(30, deadline - time.time()), stop=self.stop)
            if r["timeout"]:
                self.undecided.append(("*", "the verifier ran out of time"))
                self.stats = {}
                return
            vr = r["json"].get("verification-results", {})
            errs = [contractlib.classify(m, e) for e in r["errors"]]
            if vr.get("verified") is None or (vr.get("verified") == 0 and vr.get("errors") == 0):
                # not verifiable as it stands: take the functions in question out
                bad = sorted({e["fn"] for e in errs if e["fn"]} - set(demoted) - set(skip))
                if not bad:
                    self.undecided.append(("*", "the verifier refuses the extracted source: " +
                                           "; ".join(e["message"] for e in errs)[:600]))
                    return
                for b in bad:
                    self.undecided.append((b, "beyond the verifier: " + "; ".join(
                        e["message"] for e in errs if e["fn"] == b)[:300]))
                demoted += bad
                continue
            break
        else:
            self.undecided.append(("*", "no verifiable rest"))
            return
        fns = {f["fn"]: f for f in m["fns"]}
        new = {f["fn"].split("::")[-1] for f in m["fns"] if f["fn"] not in base and not f["contract"]}
        with open(self.out + ".rs") as f:
            text = f.read().split("\n")

        def canary(e):
            return any("v_canary" in t for n in e["lines"] for t in text[max(0, n - 3):n + 1])

        canaries = [e for e in errs if canary(e)]
        errs = [e for e in errs if not canary(e)]
        want = len([x for x in mods if x.endswith("_spec")])
        if len(canaries) != want:
            raise RuntimeError("the canary was proved: contradictory axioms")
        # a second and third try with other solver seeds for what failed
        if errs:
            for s in (3, 11):
                if time.time() > deadline - 60 or self.found_at:
                    break
                r2 = contractlib.verify(self.out, mods, timeout=max(30, deadline - time.time()), stop=self.stop,
                                        extra=["--smt-option", "smt.random_seed=%d" % s])
                if r2["timeout"]:
                    break
                e2 = [e for e in (contractlib.classify(m, x) for x in r2["errors"]) if not canary(e)]
                f2 = {e["fn"] for e in e2}
                errs = [e for e in errs if e["fn"] in f2]
                if not errs:
                    break
        bad = sorted({str(e["fn"]) for e in errs})
        for b in bad:
            mine = [e for e in errs if str(e["fn"]) == b]
            f = fns.get(b)
            what = "; ".join(sorted({e["message"] for e in mine}))[:400]
            if f is None:
                self.undecided.append((b, "not proved: " + what))
                continue
            tags = set()
            fn_tags = {t for l in m["lines"] if l["fn"] == b and l["kind"] != "fn" for t in l.get("tags", [])}
            for e in mine:
                # a clause without a tag (accessors, constructors, helpers): what its function's clauses are for
                # or, failing that, what the stage is for; no clause (overflow, a std precondition): also C13
                tags |= set(e["tags"]) or fn_tags | (MAIN.get(f["module"], set()) if e["clauses"] and not fn_tags
                                                     else set() if e["clauses"] else {"C13"})
            changed = base.get(b) != f["hash"]
            toks = f["idents"]
            if b not in base:
                self.undecided.append((b, "a new function, without contract: " + what))
            elif self.prop not in tags:
                self.undecided.append((b, "an obligation of another property is not proved: " + what))
            elif any(e["rlimit"] for e in mine) and all(e["rlimit"] for e in mine):
                self.undecided.append((b, "the solver gave up: " + what))
            elif not changed:
                self.undecided.append((b, "not proved, though its text is as it was: " + what))
            elif new & set(toks):
                self.undecided.append((b, "calls functions that have no contract: " + ", ".join(sorted(new & set(toks)))))
            else:
                self.failed += mine
        fb = []
        for mod in r["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            fb += mod.get("function-breakdown", [])
        under = [f for f in m["fns"] if f["module"] in self.cone["modules"] and f["contract"]
                 and f["fn"] not in skip + demoted]
        clauses = [l for l in m["lines"] if l["kind"] != "fn" and l["fn"] in {f["fn"] for f in under}]
        verified, errors = vr.get("verified", 0), vr.get("errors", 0) - want
        self.stats = {
            "obligations": verified + errors + len(demoted),
            "discharged": verified,
            "functions_under_contract": sorted(f["fn"] for f in under),
            "functions_without_own_contract": sorted(
                f["fn"] for f in m["fns"] if f["module"] in self.cone["modules"] and not f["contract"]),
            "contract_clauses": len(clauses),
            "contract_clauses_tagged_with_this_property": len([l for l in clauses if self.prop in l.get("tags", [])]),
            "backend": "Verus %s, Z3" % r["json"].get("verus", {}).get("version", "?"),
            "solver_time_ms": sum(x.get("time", 0) for x in fb),
            "solver_queries": len(fb),
            "checker_cmd": " ".join(r["cmd"]) + "   # on the file vextract writes from /repo/src and /verif/contracts",
            "canaries_refuted": len(canaries),
            "not_proved": [list(u) for u in self.undecided],
            "failed": self.failed,
            "trusted_base": trusted(self.out + ".rs", self.cone["modules"]),
        }
        self.map = m


def trusted(path, modules):
    """every body the verifier does not look at, and every assumption, in the generated file"""
    out, ext, mod = [], False, None
    cases = 0
    for line in open(path):
        if re.match(r"pub mod (\w+)", line.strip()):
            mod = re.match(r"pub mod (\w+)", line.strip()).group(1)
        if "assume(false)" in line:
            cases += 1
        elif re.search(r"\bassume\(|\badmit\(", line):
            out.append("assumption: " + line.strip()[:160])
        g = re.search(r"assume_specification *\[(.*?)\]", line)
        if g:
            out.append("std %s: contract assumed" % g.group(1).strip())
        if re.match(r"\s*#\[verifier::external_(body|type_specification)", line):
            ext = True
        if ext:
            g = re.search(r"\b(fn|struct|enum) +(\w+)", line)
            if g:
                out.append("%s %s%s: body not verified" % (g.group(1), mod + "::" if mod else "", g.group(2)))
                ext = False
    res = [x for x in out if not any(x.split()[1].startswith(o + "::") for o in
           {"ast1", "ast2", "ast3"} - set(modules))]
    if cases:
        res.append("%d arms closed with assume(false) by the case split: each is open in exactly one other copy" % cases)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="check.", dir=BUILD)
    try:
        code = decide(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    for line in open(path):
        if line.startswith("KNOWN-FINDING: property=%s " % prop):
            out.append(line.strip())
    return out


def decide(prop, tier, seed, t0, scratch):
    secs = 15 if tier == "quick" else 420
    pr = Prover(prop, scratch, seed)
    th = threading.Thread(target=pr.run)
    th.start()
    build_search()
    found, stats = search(prop, tier, seed, secs, scratch)
    if found:
        pr.found_at = time.time()
    th.join()
    if not found and (pr.failed or pr.undecided):
        # what the verifier could not settle is left to a longer search
        found, more = search(prop, tier, seed + 1000, 90 if tier == "quick" else 420, scratch)
        for k in ("evaluations", "distinct_nontrivial"):
            stats[k] = stats.get(k, 0) + more.get(k, 0)
    replay = os.path.join(VERIF, "build", "replay-%s.json" % prop)
    doc = {"property": prop}
    line = None
    if pr.failed:
        doc["failed_obligations"] = pr.failed
        for e in pr.failed:
            print("failed obligation in %s: %s" % (e["fn"], e["message"]))
            for c in e["clauses"]:
                print("    %s %s" % (c["kind"], " ".join(c["text"].split())[:300]))
            for s in e["source"]:
                print("    at: " + s[:200])
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    for fn, why in pr.undecided:
        print("not decided by the verifier (bounded search instead): %s: %s" % (fn, why[:300]))
    if found:
        doc.update({"found": found, "replay_with": "%s replay %s" % (SEARCH, replay)})
        print("failing input: " + json.dumps(found["input"], ensure_ascii=False)[:2000])
        print("what fails: " + found["message"][:3000])
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    if line:
        with open(replay, "w") as f:
            json.dump(doc, f, indent=1)
    cone = CONES[prop]
    coverage = dict(pr.stats)
    coverage.setdefault("obligations", len(pr.undecided))
    coverage.setdefault("discharged", 0)
    coverage.setdefault("checker_cmd", "verus")
    coverage.setdefault("trusted_base", [])
    coverage["proved_part"] = "the whole statement" if cone.get("whole") else cone.get("part") or "none"
    coverage["bounded"] = {"functions_left_to_the_search": [list(u) for u in pr.undecided],
                           "rest": cone.get("bounded", "")}
    coverage.update({
        "evaluations": stats.get("evaluations", 0),
        "distinct_nontrivial": stats.get("distinct_nontrivial", 0),
        "rule": "enumerated token strings and random structured inputs, judged by an independent oracle; non-trivial: the oracle says the input exercises the property",
        "samples": stats.get("samples", []),
        "spaces": stats.get("spaces", []),
    })
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level(prop), "coverage": coverage,
          "assumptions": ASSUMPTIONS + cone.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if line else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in known_findings(prop):
        print(k)
    if line:
        print(line)
        return 1
    print("%s held: %d of %d obligations discharged, %d evaluations" % (
        prop, coverage["discharged"], coverage["obligations"], coverage["evaluations"]))
    return 0


if __name__ == "__main__":
    main()
