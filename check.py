#!/usr/bin/env python3
"""usage: check.py <property> [quick|thorough]

Decides one property of /repo's current working tree.  See DESIGN.md.
Exit 0: it held on everything explored.  Exit 1: a line VIOLATION on stdout.  Exit 2: no answer.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") + "\n[timed out]"


def build_refuter():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    rc, out = sh(["cargo", "build", "--offline"], 600, cwd=os.path.join(HERE, "refuter"), env=env)
    if rc != 0:
        sys.stdout.write(out[-4000:])
        print("the search harness does not build against this tree")
        return False
    return True


def load_known(prop):
    """Entries `known: property=<id> match=<text>` of known-findings.txt."""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf8"):
            if line.startswith("known: property=%s " % prop) and " match=" in line:
                res.append(line.split(" match=", 1)[1].rstrip("\n"))
    return res


def dictionary(work):
    """The literals of /repo's functions that contracts/literals.txt does not have, for the search to try."""
    from collections import Counter
    rc, out = sh([os.path.join(HERE, "extract/target/debug/extract"), "--repo", REPO, "--literals"], 60)
    if rc != 0: return None
    base = Counter(open(os.path.join(HERE, "contracts/literals.txt"), encoding="utf8").read().splitlines())
    new = Counter(l for l in out.splitlines() if l.count("\t") == 2) - base
    lines = sorted({" ".join(l.split("\t")[1:]) for l in new})
    f = os.path.join(work, "dict.txt")
    open(f, "w").write("".join(l + "\n" for l in lines))
    return f if lines else None


def refute(prop, tier, seed, work, max_secs, scale=1.0):
    exe = os.path.join(HERE, "refuter/target/debug/refuter")
    out = os.path.join(work, prop + ".json")
    if os.path.exists(out):
        os.remove(out)
    base = [exe, prop, "--seed", str(seed), "--tier", tier, "--scale", str(scale), "--max-secs", str(max_secs), "--out", out]
    try:
        d = dictionary(work)
    except Exception:
        d = None
    if d: base += ["--dict", d]
    known = load_known(prop)
    if known:
        kf = os.path.join(work, prop + ".known")
        open(kf, "w").write("\n".join(known) + "\n")
        base += ["--known", kf]
    t0 = time.time()
    rc, log = sh(base, max_secs + 120)
    if rc in (0, 1) and os.path.exists(out):
        r = json.load(open(out))
        r["known"], r["dict"] = known, d
        return r
    # A hang, a blown stack or another abort: find the case, which is written down before it runs.
    trace = os.path.join(work, prop + ".trace")
    rc2, log2 = sh(base + ["--trace", trace], 2 * max_secs + 240)
    if rc2 in (0, 1) and os.path.exists(out):
        r = json.load(open(out))
        r["known"], r["dict"] = known, d
        return r
    case = open(trace, encoding="utf8", errors="replace").read() if os.path.exists(trace) else "(no case)"
    why = [l for l in (log2 + "\n" + log).splitlines() if l.startswith("HANG")]
    if rc2 == 4:
        return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "setup_panic": True, "wall_s": time.time() - t0, "known_hit": [], "known": known,
                "failure": {"case": 0, "input": "(set-up: parsing the fixed proto source of the harness)", "what": "panic while preparing the cases: " + log2[-600:]}}
    return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "wall_s": time.time() - t0, "known_hit": [], "known": known,
            "failure": {"case": 0, "input": case, "what": why[0] if why else "the process ended with status %d: %s" % (rc2, log2[-500:])}}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(HERE, "work")
    replay_dir = os.path.join(HERE, "replay")
    os.makedirs(work, exist_ok=True)
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    import prove
    proof = prove.run(prop, tier, work)

    NONE = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "known_hit": [], "known": []}
    searchable = build_refuter()
    if not searchable and not (proof.get("unit") and proof["unit"]["ok"]):
        print("%s: no answer: neither the verifier nor the search can run on this tree" % prop)
        sys.exit(2)
    r = refute(prop, tier, seed, work, 60 if tier == "quick" else 420) if searchable else dict(NONE)
    failure = r.get("failure")
    rtier = tier
    if proof["alarm"] and not failure and searchable:
        # an obligation fails: look longer for an input that shows it
        r2 = refute(prop, "thorough", seed + 1, work, 120)
        r["evaluations"] += r2["evaluations"]
        r["distinct_nontrivial"] += r2["distinct_nontrivial"]
        if r2.get("failure"):
            r["failure"] = failure = r2["failure"]
            seed, rtier = seed + 1, "thorough"

    violation = None
    suffix = ""
    replay = os.path.join(replay_dir, prop + ".txt")
    if failure:
        violation = "failing input against the real code"
        with open(replay, "w", encoding="utf8") as f:
            f.write("property %s is violated by the code in %s\n\nwhat: %s\n\ninput:\n%s\n\n" % (prop, REPO, failure["what"], failure["input"]))
            f.write("replay: cd %s/refuter && cargo run --offline -- %s --seed %d --tier %s%s\n" % (HERE, prop, seed, rtier, " --dict ../work/dict.txt" if r.get("dict") else ""))
            if proof["failed"]:
                f.write("\nfailed obligations:\n" + prove.describe(proof))
    elif proof["alarm"]:
        # The cause may be in another property's domain: look for it there.
        other = None
        for q in proof["related"] if searchable else []:
            if time.time() - t0 > 780: break
            rq = refute(q, "quick", seed, work, 30)
            if rq.get("failure"):
                other = (q, rq["failure"])
                break
        if other:
            proof["explained_by"] = {"property": other[0], "what": other[1]["what"], "input": other[1]["input"][:2000]}
        else:
            violation = "failed obligation"
            suffix = " no-failing-input-found"
            with open(replay, "w", encoding="utf8") as f:
                f.write("property %s: an obligation that is discharged for the unchanged code fails for the code in %s.\n" % (prop, REPO))
                f.write("No failing input was found by %d cases of the bounded search.\n\n" % r["evaluations"])
                f.write(prove.describe(proof))

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    level, coverage, assumptions = prove.evidence(prop, proof, r)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%s: %s" % (prop, prove.summary(proof)))
    print("%s: bounded search: %d cases, %d distinct, %s" % (prop, r["evaluations"], r["distinct_nontrivial"], "failing: " + failure["what"][:300] if failure else "none fails"))
    if "explained_by" in proof: print("%s: the failed obligations are explained by a violation of %s: %s" % (prop, proof["explained_by"]["property"], proof["explained_by"]["what"][:300]))
    for k in r.get("known_hit", []):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violation:
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, suffix))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
