#!/usr/bin/env python3
"""check.py ID [--record]: decides property ID on /repo's current source.

1. rs2v extracts the functions under contract from /repo/src, Verus discharges every obligation of their contracts.
2. Vacuity probes: no contract may be unsatisfiable, no function may be skipped.
3. The replay crate runs the real code against an independent oracle: it looks for the input behind a failed obligation,
   and stands in (bounded, labelled so) for functions that are trusted or outside the verifier's reach.
Exit 0: held.  Exit 1: a VIOLATION line.
"""
import concurrent.futures, json, os, subprocess, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vlib import vc, verify
from vlib.table import PROPS, TRUST, COMMON_TRUST

SRC = os.environ.get("VP_SRC", "/repo/src")
B = os.path.join(ROOT, ".build")
BUDGET = 420.0


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def build_rs2v():
    p = sh(["cargo", "build", "--offline", "--release"], os.path.join(ROOT, "tools/rs2v"), {"CARGO_TARGET_DIR": os.path.join(B, "rs2v")})
    if p.returncode:
        raise RuntimeError("extractor does not build: " + p.stderr[-1500:])
    return os.path.join(B, "rs2v/release/rs2v")


def build_replay():
    p = sh(["cargo", "build", "--offline"], os.path.join(ROOT, "replay"), {"CARGO_TARGET_DIR": os.path.join(B, "replay")})
    if p.returncode:
        return None, p.stderr[-3000:]
    return os.path.join(B, "replay/debug/replay"), ""


def run_replay(binary, pid, seed, scale, timeout=240):
    try:
        p = subprocess.run([binary, pid, str(seed), str(scale)], capture_output=True, text=True, timeout=timeout, cwd=os.path.join(ROOT, "out"))
    except subprocess.TimeoutExpired:
        return {"error": "timeout", "timeout": True}
    for line in reversed(p.stdout.strip().split("\n")):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return {"error": f"replay ended with {p.returncode}: {p.stderr[-800:]}"}


def groups_of(prop):
    """Modules verified together; the contracts of all others are assumed in that run."""
    v = prop.get("verify")
    return v if v and isinstance(v[0], list) else [v]


def targets_of(prop, only=None):
    mods = vc.closure(prop["mods"])
    skip = set(prop.get("assume", []))
    return [f.key for m in mods for f in m.fns if (only is None or m.name in only or f.key in only) and "inline" not in f.opts and "trusted" not in f.opts and f.key not in skip], mods


def attempt(rs2v, prop, work, hints, log, quick=False):
    gs = groups_of(prop)
    record = "--record" in sys.argv
    one = lambda t: attempt1(rs2v, prop, t[1], os.path.join(work, str(t[0])) if len(gs) > 1 else work, hints, log, quick, BUDGET * (4 if record else 1), t[0] == 0)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, enumerate(gs)))
    return verify.merge(rs)


def attempt1(rs2v, prop, only, work, hints, log, quick, budget, lemmas=True):
    keys, mods = targets_of(prop, only)
    t0 = time.time()
    if quick:
        return verify.verify(rs2v, SRC, prop["mods"], keys, work, log=log, hints=hints, budget=budget, quick_only=True, lemmas=lemmas)
    r = verify.verify(rs2v, SRC, prop["mods"], keys, work, log=log, hints=hints, budget=budget, lemmas=lemmas)
    if r.status == "failed":
        # a helper whose contract no longer fits may still serve its callers: inline it
        opt = {f.key for m in mods for f in m.fns if "optional" in f.opts}
        bad = {f for (f, _, _) in r.failed} & opt
        if bad and time.time() - t0 < budget / 2:
            log(f"  retry with {sorted(bad)} inlined")
            r2 = verify.verify(rs2v, SRC, prop["mods"], [k for k in keys if k not in bad], work, log=log, hints=None, budget=budget / 2, drop0=bad, lemmas=lemmas)
            if r2.status == "proved":
                return r2
    return r


def main():
    t0 = time.time()
    pid = sys.argv[1]
    record = "--record" in sys.argv
    prop = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    out = os.path.join(ROOT, "out", pid)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    log = lambda s: print(s, flush=True)
    pool = concurrent.futures.ThreadPoolExecutor(2)
    frep = pool.submit(build_replay)
    hf = os.path.join(ROOT, "contracts/hints.json")
    allhints = json.load(open(hf)) if os.path.exists(hf) else {}
    base = allhints.get(pid, {})
    r, why = None, ""
    if prop.get("mods"):
        try:
            rs2v = build_rs2v()
            first = None
            if base.get("hints") is not None and not record:
                r = attempt(rs2v, prop, out, base["hints"], log, quick=True)
                if r.status != "proved":
                    # the input first: with one, there is no need to search for other invariants
                    binary, _ = frep.result()
                    if binary and prop.get("replay", True):
                        first = run_replay(binary, pid, seed, prop.get("scale", 1))
            if not (r and r.status == "proved") and not (first and first.get("violation")):
                r = attempt(rs2v, prop, out, base.get("hints") if not record else None, log)
            if r.status == "proved":
                with concurrent.futures.ThreadPoolExecutor(4) as ex:
                    bad = [k for b in ex.map(lambda x: verify.probes(x, os.path.dirname(x.program)), r.parts) for k in b]
                if bad:
                    why = "vacuous contracts: " + ", ".join(bad)
                    r.status = "unsupported"
                elif r.verified == 0:
                    why = "no obligations"
                    r.status = "unsupported"
        except Exception as e:  # the check must end with 0 or 1
            traceback.print_exc(file=sys.stdout)
            why = f"{type(e).__name__}: {e}"
            if r:
                r.status = "unsupported"
    if r:
        log(f"verifier: {r.status}: {r.verified} obligations discharged, {r.errors} failed, {r.runs} runs, {r.time:.1f} s {why}")
        for f in r.failed[:10]:
            log("  FAILED " + " : ".join(f))
        for f in r.unsupported[:10]:
            log("  OUT OF REACH " + " : ".join(f))
    if record and r:
        assert r.status == "proved", "nothing recorded"
        allhints[pid] = {"hints": sorted(set(r.live)), "skeletons": r.skeletons, "inlined": r.inlined}
        with open(hf, "w") as f:
            json.dump(allhints, f, indent=0, sort_keys=True)
            f.write("\n")

    proved = bool(r and r.status == "proved")
    failed = bool(r and r.status == "failed")
    replay, err = frep.result()
    rep = {"error": err[-600:]} if replay is None else None
    seeds = [(seed, prop.get("scale", 1))]
    if tier == "thorough":
        seeds = [(seed + i, prop.get("scale", 1) * 10) for i in range(8)]
    elif not proved:
        seeds = [(seed + i, prop.get("scale", 1) * (5 if i else 1)) for i in range(6)]
    total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "", "known": 0}
    violation = None
    if replay and prop.get("replay", True):
        for (s, sc) in seeds:
            rep = run_replay(replay, pid, s, sc)
            if "error" in rep:
                if rep.get("timeout") and prop.get("hang"):
                    violation = {"violation": f"the code does not terminate on the generated inputs (seed {s}, scale {sc})", "seed": s, "scale": sc}
                break
            for k in ("evaluations", "distinct_nontrivial"):
                total[k] += rep[k]
            total["samples"] = total["samples"] or rep["samples"]
            total["rule"] = rep["rule"]
            total["known"] += rep.get("known", 0)
            if rep["violation"]:
                violation = rep
                break
            if time.time() - t0 > 700:
                break
        log(f"replay: {total['evaluations']} cases, {total['distinct_nontrivial']} distinct non-trivial" + (f", error: {rep['error']}" if rep and "error" in rep else ""))

    rc = 0
    vio = 0
    rp = os.path.join(out, "replay.json")
    rel = os.path.relpath(rp, ROOT)
    if violation:
        rc, vio = 1, 1
        json.dump({"property": pid, "failing_input": violation["violation"], "command": f"{replay} {pid} {violation['seed']} {violation['scale']}",
                   "failed_obligations": r.failed if r else []}, open(rp, "w"), indent=1)
        log(violation["violation"][:3000])
        log(f"VIOLATION property={pid} replay={rel}")
    elif failed:
        same = all(r.skeletons.get(k) == v for k, v in base.get("skeletons", {}).items()) and all(r.inlined.get(k, []) == v for k, v in base.get("inlined", {}).items())
        lemma_only = all(f[0] == "lemma" for f in r.failed)
        if same and not lemma_only:
            rc, vio = 1, 1
            json.dump({"property": pid, "failed_obligations": r.failed, "verifier_cmd": r.cmd, "program": os.path.relpath(r.program, ROOT)}, open(rp, "w"), indent=1)
            log(f"VIOLATION property={pid} replay={rel} no-failing-input-found")
        else:
            why = "an obligation is not discharged, but the code has another shape than the one the invariants were written for: the bounded stand-in decides"
            log(why)
    known = known_findings(pid)
    for k in known:
        log(f"KNOWN-FINDING: property={pid} {k}")

    trusted = COMMON_TRUST + prop.get("trust", [])
    ev = {"property": pid, "tier": tier, "seed": seed, "wall_s": 0, "violations": vio, "assumptions": prop.get("assumptions", []) + [TRUST[m] for m in prop.get("trustmods", [])]}
    if r and (proved or failed):
        fns = []
        by = {f.key: f for m in vc.closure(prop["mods"]) for f in m.fns}
        ev["assumptions"] += [f"{k}: precondition not checked at the callers (inputs outside it may panic): {t}" for k in r.tg if k in by for t in by[k].get("assume")]
        ev["assumptions"] += [f"{k} is a function of the arguments named in: {t}" for k, f in by.items() for t in f.get("pure")]
        for k in r.tg:
            fns.append({"function": r.extracted[k], "contract": k, "loops": len(r.ex["fns"][k]["loops"]), "inlined_helpers": r.inlined[k]})
        mods = vc.closure(prop["mods"])
        stubs = sorted(f.key for m in mods for f in m.fns if f.key not in r.tg and "inline" not in f.opts and f.key not in r.dropset)
        br = [f for m in r.out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) if m.get("module") != "pre" for f in m.get("function-breakdown", [])]
        items = {}
        for f in br:
            items[f["function"]] = items.get(f["function"], True) and f.get("success", True)
        smt = (((r.out or {}).get("times-ms", {}) or {}).get("smt", {}) or {}).get("total", 0)
        ev["level"] = "proof"
        ev["coverage"] = {"obligations": len(items) + len(r.failed), "discharged": sum(1 for v in items.values() if v), "checker_cmd": r.cmd, "trusted_base": trusted,
                          "back_end": "Verus (Z3)" + (f"; {r.nra} goals of real arithmetic by Z3 QF_NRA" if r.nra else ""), "verifier_runs": r.runs, "solver_ms": smt, "verifier_s": round(r.time, 1),
                          "functions_under_contract": fns, "assumed_contracts": stubs, "proof_items": sorted(k.split("::", 1)[-1] for k in items), "accepted_invariants": len(r.live), "failed": r.failed[:10]}
        if total["evaluations"]:
            ev["coverage"]["bounded_replay"] = total
    else:
        ev["level"] = "exploration"
        ev["coverage"] = {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct_nontrivial"], "rule": total["rule"] or "none", "samples": total["samples"] or ["none"],
                          "note": "bounded stand-in: the contract could not be applied to the present form of the code", "reason": (why or (str(r.unsupported[:5]) if r else "no contract"))[:1500]}
    ev["wall_s"] = round(time.time() - t0, 1)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{pid}: exit {rc} after {ev['wall_s']} s")
    sys.exit(rc)


def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.txt")
    v = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={pid} "):
                v.append(line.split(" ", 2)[2].strip())
    return v


if __name__ == "__main__":
    main()
