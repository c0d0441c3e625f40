#!/usr/bin/env python3
"""Development tool: which places in the extracted code are unreachable under the contracts?

Emits the proof with `if v_case() == 7 { assert(false); }` after every loop, at the start of every
branch and behind what a loop reads (VEXTRACT_SMOKE=1), verifies it, and lists the places at which
`false` was proved.  Each of them has to be explained: a closed arm of a split function, a call of
`v_unreachable`, an error branch of a callee whose contract excludes it.  Anything else means that an
assumption or an invariant is contradictory there and what follows is proved vacuously.
usage: tools/vacuity.py [REPO]"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build", "vacuity")
os.makedirs(B, exist_ok=True)
sys.path.insert(0, V)
import contractlib
os.environ["VEXTRACT_SMOKE"] = "1"
repo = (sys.argv[1:] or ["/repo"])[0]
m, e = contractlib.extract(repo, os.path.join(B, "smoke"))
if m is None:
    sys.exit(e)
def run():
    return subprocess.run(["verus", "--crate-type=lib", "smoke.rs", "--multiple-errors", "400", "--no-auto-recommends-check",
                           "--rlimit", "60", "--num-threads", "8"], cwd=B, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


p = run()
untyped = [int(n) for n in re.findall(r"error\[E0282\].*\n\s*--> smoke.rs:(\d+)", p.stdout)]
if untyped:
    # the statement put before it has taken the type of the branch away
    f = os.path.join(B, "smoke.rs")
    ls = open(f).read().split("\n")
    for n in untyped:
        ls[n - 1] = ls[n - 1].replace("v_unreachable ()", "v_unreachable::<()>()")
    open(f, "w").write("\n".join(ls))
    p = run()
if "verification results" not in p.stdout:
    sys.exit(p.stdout[-3000:])
src = open(os.path.join(B, "smoke.rs")).read().split("\n")
fail = {int(x) for x in re.findall(r"^error: assertion failed\n\s*--> smoke.rs:(\d+)", p.stdout, re.M)}
other = re.findall(r"^error: (?!assertion failed)(.*)\n\s*--> smoke.rs:(\d+)", p.stdout, re.M)


def fn(n):
    for i in range(n - 1, 0, -1):
        g = re.search(r"^\s*(?:pub )?fn (\w+)", src[i])
        if g:
            for j in range(i, 0, -1):
                h = re.match(r"impl (?:.* for )?([\w:]+)", src[j])
                if h:
                    return h.group(1) + "::" + g.group(1)
            return g.group(1)


pts = [i + 1 for i, l in enumerate(src) if "if v_case() == 7 {" in l]
dead = [p for p in pts if p not in fail]
print(len(pts), "places,", len(dead), "unreachable;", "other failures:", other)
for p in dead:
    before = " ".join(l.strip() for l in src[max(0, p - 5):p - 1])[-110:]
    after = " ".join(l.strip() for l in src[p:p + 2])[:80]
    why = "unreachable!" if "v_unreachable" in after else "closed arm" if "assume(false)" in before + after else ""
    print(f"{p:6} {fn(p)} [{why}] {before} || {after}")
