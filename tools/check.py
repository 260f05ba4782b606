#!/usr/bin/env python3
"""Decides one property: check.py <id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. extracts the functions under contract from /repo/src, and has Verus discharge every obligation;
2. runs the real code (harness/) on generated cases, looking for a failing input;
3. decides: see DESIGN.md, "Decision".
"""
import fcntl, json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
REPO = "/repo"


def log(*a):
    print(*a, flush=True)


def cargo_build(crate, what):
    d = os.path.join(V, crate)
    os.makedirs(os.path.join(d, "target"), exist_ok=True)
    with open(os.path.join(d, "target", ".vlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, capture_output=True, text=True)
    if p.returncode != 0:
        log(p.stderr[-6000:])
        log(f"ERROR: {what} does not build")
        return False
    return True


def run_harness(prop, tier, seed, budget, numbers=(), grace=200):
    exe = os.path.join(V, "harness", "target", "debug", "vharness")
    try:
        p = subprocess.run([exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--dict", ",".join(map(str, numbers))],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=budget + grace)
        return json.loads(p.stdout)
    except Exception as e:  # noqa
        return {"error": f"{type(e).__name__}: {e}"}


def known_findings(prop):
    out = []
    path = os.path.join(V, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.rstrip("\n")
            if l.startswith("finding: ") and f"property={prop} " in l + " ":
                # finding: property=<id> case=<exact harness case id> :: <what fails>
                body = l[len("finding: "):]
                head, _, what = body.partition(" :: ")
                case = head.split("case=", 1)[1] if "case=" in head else ""
                out.append((case, what))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import proof
    have_proof = proof.has(prop)
    if have_proof and not cargo_build("extract", "the extractor"):
        return 2
    pr_job = proof.start(prop, tier) if have_proof else None
    if not cargo_build("harness", "the harness against /repo"):
        if pr_job:
            pr_job.stop()
        return 2
    import source
    changed, numbers = source.changes(REPO)
    used = {"tier": tier, "seed": seed}
    h = run_harness(prop, tier, seed, 100 if tier == "quick" else 420, numbers)
    pr = pr_job.finish() if pr_job else None
    if "error" in h:
        log("ERROR: the harness gave no result:", h["error"])
        return 2
    # the source is not the one the proof was made for, and is not proved: look harder.  A thorough run always does.
    harder = tier == "thorough" or (changed and not (pr and pr.status == "proved"))
    end = t0 + (780 if tier == "quick" else 3000)
    stop = time.time() + (240 if tier == "quick" else 1200)
    rounds = 0
    while harder and not h["violations"] and rounds < 40:
        left = min(end - time.time(), stop - time.time())
        if left < 60:
            break
        rounds += 1
        used = {"tier": "thorough", "seed": seed + 1000 * rounds}
        h2 = run_harness(prop, "thorough", used["seed"], min(300, left - 30), numbers, 60)
        if "error" in h2:
            break
        for k in ("cases", "skipped", "partial", "evaluations"):
            h2[k] += h[k]
        h = h2
    if rounds and not h["violations"]:
        used = {"tier": tier, "seed": seed}

    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{prop}.json")
    if os.path.exists(rpath):
        os.remove(rpath)

    kf = known_findings(prop)
    known = {c for c, _ in kf}
    viol = [v for v in h["violations"] if v["case"] not in known]
    for c, w in kf:
        log(f"KNOWN-FINDING: property={prop} {w}")

    rc = 0
    if viol:
        rc = 1
        json.dump({
            "property": prop,
            "kind": "failing input on the real code",
            "how_to_replay": [f"cd /verif/harness && cargo build --offline && target/debug/vharness --prop {prop} --tier {used['tier']} --seed {used['seed']} --dict '{','.join(map(str, numbers))}' --only '<case>'"],
            "violations": viol[:50],
            "total": len(viol),
            "proof": pr.brief() if pr else None,
        }, open(rpath, "w"), indent=1)
        for v in viol[:3]:
            log(f"  {v['case']}: {v['what']}")
        log(f"VIOLATION property={prop} replay={rpath}")
    elif pr and pr.status == "rejected":
        rc = 1
        json.dump({
            "property": prop,
            "kind": "the verifier rejects an obligation that holds on the unchanged tree",
            "failed": pr.failed,
            "verifier_output": pr.output[-20000:],
        }, open(rpath, "w"), indent=1)
        for f in pr.failed[:5]:
            log(f"  obligation not discharged: {f}")
        log(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")

    expl = {
        "evaluations": h["evaluations"],
        "distinct_nontrivial": h["cases"] - h["partial"],
        "rule": "a case is one call of the real code with given shapes and input values, run honestly and, for constraint systems, "
                "against every assignment the search reaches (exhaustive in small fields); non-trivial: its search was not cut by the node limit",
        "samples": h["samples"],
        "skipped_for_time": h["skipped"],
        "partial_searches": h["partial"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "wall_s": round(time.time() - t0, 2), "violations": len(viol) + (1 if rc and not viol else 0)}
    if pr and pr.status in ("proved", "rejected"):
        ev["level"] = "proof"
        ev["coverage"] = pr.coverage()
        ev["coverage"]["bounded_replay_on_real_code"] = expl
        ev["assumptions"] = pr.assumptions()
    else:
        ev["level"] = "exploration"
        ev["coverage"] = expl
        ev["assumptions"] = ["bounded: only the cases listed were run; nothing is proved in this run"]
        if pr:
            ev["coverage"]["proof_not_available"] = pr.brief()
            log(f"NOTE: the proof could not be redone on this source ({pr.reason}); decided by the bounded stand-in")
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)
    log(f"{prop}: {'violated' if rc else 'held'}; proof: {pr.status if pr else 'none'}; {h['cases']} cases, {h['evaluations']} evaluations, {ev['wall_s']} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
