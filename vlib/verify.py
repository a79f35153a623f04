"""Runs Verus on the extracted program; drops refuted invariant candidates until a fixpoint."""
import json, os, re, subprocess, time
from . import vc, nra

VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic",
              "possible division", "decreases not satisfied", "rlimit", "Resource limit", "possible bit shift", "unreachable", "loop must have a decreases",
              "could not prove", "index out of bounds", "might be out of bounds", "loop ensures", "ensures not satisfied", "termination", "cannot show", "possible overflow", "possible underflow", "fails to satisfy", "recursive", "trait method's", "callee.ensures")


class Result:
    def __init__(self):
        self.status = None       # proved | failed | unsupported
        self.failed = []         # (function, message, text)
        self.unsupported = []
        self.functions = 0
        self.verified = 0
        self.errors = 0
        self.runs = 0
        self.time = 0.0
        self.smt = 0
        self.log = ""
        self.dropped = []
        self.nra = 0
        self.live = []
        self.obligations = {}
        self.program = ""
        self.cmd = ""
        self.skeletons = {}
        self.inlined = {}


def run_verus(path, timeout=300, extra=()):
    cmd = ["verus", path, "--triggers-mode", "silent", "--output-json", "--error-format=json", "--multiple-errors", "40", "--time-expanded", "--num-threads", "8", *extra]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t, cmd
    diags = []
    for line in p.stderr.split("\n"):
        line = line.strip()
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
            elif d.get("level") == "error" and not d.get("message", "").startswith("aborting"):
                diags.append(d)
    try:
        out = json.loads(p.stdout)
    except ValueError:
        out = {}
    if p.returncode != 0 and not diags:
        diags.append({"message": "verus failed: " + p.stderr[-500:], "spans": []})
    return out, diags, time.time() - t, cmd


def all_spans(d):
    s = list(d.get("spans", []))
    for c in d.get("children", []):
        s += c.get("spans", [])
    return s


def verify(rs2v, src, modnames, targets, work, optional=(), log=lambda s: None, hints=None, max_rounds=40, budget=600.0, drop0=(), quick_only=False, lemmas=True):
    """targets: keys to verify.  optional: helper keys among them that may be missing."""
    res = Result()
    t0 = time.time()
    mods = vc.closure(modnames)
    allfns = {f.key: f for m in mods for f in m.fns}
    drop = set(drop0)
    opt = set(optional) | {k for k, f in allfns.items() if "optional" in f.opts}
    for _ in range(8):
        ex = vc.extract(rs2v, src, mods, drop)
        changed = False
        for k, f in allfns.items():
            if k in drop:
                continue
            e = ex["fns"][k]
            sigbad = "params" not in e or (e["errors"] and k not in targets and any("parameters" in x or "candidates" in x for x in e["errors"]))
            if e["errors"] and k in opt and k in targets:
                sigbad = True
            if sigbad and (k in opt or k not in targets):
                drop.add(k)
                changed = True
        if not changed:
            break
    tg = [k for k in targets if k not in drop]
    for k in tg:
        e = ex["fns"][k]
        if e["errors"]:
            res.unsupported.append((k, "; ".join(e["errors"])))
    for m in mods:
        for t in m.types:
            d = ex["types"].get(t["name"], {"error": "missing"})
            if "error" in d:
                res.unsupported.append((t["name"], d["error"]))
            for im in d.get("manual", []):
                # the prelude takes Clone to be the identity and drops to have no effect
                if (im in ("Clone", "Drop", "Deref", "DerefMut") and not (im == "Deref" and t["manual"])) or (im == "PartialEq" and "PartialEq" not in d.get("derives", []) and not t["noeq"]):
                    res.unsupported.append((t["name"], f"hand-written impl {im}"))
    if ex["parse_errors"]:
        res.unsupported.append(("parse", str(ex["parse_errors"])))
    res.skeletons = {k: ex["fns"][k].get("skeleton", "?") for k in tg}
    res.inlined = {k: ex["fns"][k].get("inlined", []) for k in tg}
    res.extracted = {k: ex["fns"][k].get("file", "") + ":" + ex["fns"][k].get("qual", "") for k in tg}
    res.dropped_fns = sorted(drop)
    if res.unsupported:
        res.status = "unsupported"
        res.time = time.time() - t0
        return res
    cands = []
    for k in tg:
        cands += vc.candidates(allfns[k], ex["fns"][k])
    if hints is not None:
        pre = set(hints)
        sel = [c for c in cands if c.ident() in pre]
        plans = ([("accepted", sel)] if sel and (quick_only or len(sel) < len(cands)) else []) + ([("all", cands)] if not quick_only or not sel else [])
    else:
        plans = [("all", cands)]
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "prog.rs")
    for (pname, cs) in plans:
        for c in cs:
            c.live = True
        quick = pname == "accepted"
        dropped = []
        final = False
        for rnd in range(max_rounds):
            if time.time() - t0 > budget and rnd > 0:
                res.unsupported.append(("verus", "time budget used up"))
                break
            # the lemmas do not depend on the candidates: assumed here, proved in the last run
            text, ranges = vc.emit(mods, ex, set(tg), [c for c in cs if c.live], drop)
            if not final:
                text = text.replace("pub proof fn ", "#[verifier::external_body] pub proof fn ")
            with open(path, "w") as f:
                f.write(text)
            out, diags, dt, cmd = run_verus(path)
            res.runs += 1
            res.cmd = " ".join(cmd)
            if out is None:
                diags = [{"message": "Resource limit: verifier timed out", "spans": []}]
                out = {}
            hit, other = [], []
            spans_of = lambda d: [(s["line_start"], s["line_end"], s.get("file_name", "")) for s in all_spans(d)]
            live = [c for c in cs if c.live and c.lines]
            for d in diags:
                got = False
                for (a, b, fn) in spans_of(d):
                    if not fn.endswith("prog.rs"):
                        continue
                    for c in live:
                        if c.lines[0] <= a <= c.lines[1]:
                            if c not in hit:
                                hit.append(c)
                            got = True
                if not got:
                    other.append(d)
                if os.environ.get("VDBG"):
                    print("   ", d.get("message", "")[:100], [(a, b) for (a, b, f) in spans_of(d)], [c.ident()[:90] for c in live if any(c.lines[0] <= a <= c.lines[1] for (a, b, f) in spans_of(d))])
            log(f"  round {rnd} ({pname}): {len(diags)} errors, {len(hit)} candidates dropped, {dt:.1f}s")
            if hit:
                for c in hit:
                    c.live = False
                    dropped.append(c.ident()); os.environ.get("VD") and log("    -", c.ident()[:230].replace("self.config.metrics_params.", ""))
                continue
            if final or diags or not lemmas:  # a property verified in several groups proves its lemmas in one of them
                break
            final = True
        if not diags or not quick:
            break
    res.live = [c.ident() for c in cs if c.live]
    res.dropped = dropped
    res.program = path
    vr = out.get("verification-results", {})
    res.verified, res.errors = vr.get("verified", 0), vr.get("errors", 0)
    res.out = out
    res.nra, open_goals = nra.discharge(mods) if not diags and lemmas else (0, [])
    if open_goals:
        res.unsupported.append(("nra", str(open_goals[:5])))
    if not diags and not open_goals:
        res.status = "proved" if vr.get("success") else "unsupported"
        if res.status == "unsupported":
            res.unsupported.append(("verus", json.dumps(vr)))
    else:
        lines = text.split("\n")
        for d in other or diags or []:
            msg = d.get("message", "")
            sp = [s for s in spans_of(d) if s[2].endswith("prog.rs")]
            fn = None
            for (a, b, _) in sp:
                for k, (x, y) in ranges.items():
                    if x <= a <= y and k in tg:
                        fn = fn or k
            txt = " | ".join(lines[a - 1].strip()[:160] for (a, b, _) in sp[:3])
            if any(m.lower() in msg.lower() for m in VERIF_MSGS) and not d.get("code"):
                if fn is None and sp:
                    # a lemma of the contract file: independent of /repo
                    res.failed.append(("lemma", msg, txt))
                else:
                    res.failed.append((fn or "?", msg, txt))
            else:
                res.unsupported.append((fn or "?", msg + " | " + txt))
        res.status = "unsupported" if res.unsupported else "failed"
    if not res.unsupported and not res.failed and res.status != "proved":
        res.status = "unsupported"
    if any(u == ("verus", "time budget used up") for u in res.unsupported):
        res.status = "unsupported"
    res.time = time.time() - t0
    res.ex, res.mods, res.tg, res.dropset = ex, mods, tg, drop
    return res


def merge(rs):
    """One result for the runs of a property that verifies its modules in several groups."""
    for r in rs:
        r.parts = [r]
    if len(rs) == 1:
        return rs[0]
    m = Result()
    m.parts = rs
    m.status = "proved" if all(r.status == "proved" for r in rs) else "unsupported" if any(r.status == "unsupported" for r in rs) else "failed"
    for k in ("failed", "unsupported", "dropped", "live"):
        setattr(m, k, [x for r in rs for x in getattr(r, k)])
    for k in ("verified", "errors", "runs", "time", "nra"):
        setattr(m, k, sum(getattr(r, k, 0) for r in rs))
    m.skeletons, m.inlined, m.extracted = {}, {}, {}
    m.tg, m.dropset, m.ex = [], set(), {"fns": {}}
    mt, tot = [], 0
    for r in rs:
        m.skeletons.update(r.skeletons)
        m.inlined.update(r.inlined)
        m.extracted.update(getattr(r, "extracted", {}))
        m.tg += getattr(r, "tg", [])
        m.dropset |= getattr(r, "dropset", set())
        m.ex["fns"].update((getattr(r, "ex", None) or {"fns": {}})["fns"])
        smt = ((getattr(r, "out", None) or {}).get("times-ms", {}) or {}).get("smt", {}) or {}
        mt += smt.get("smt-run-module-times", [])
        tot += smt.get("total", 0)
    m.out = {"times-ms": {"smt": {"smt-run-module-times": mt, "total": tot}}}
    bad = [r for r in rs if r.status != "proved"] or rs
    m.program, m.cmd = bad[0].program, " && ".join(getattr(r, "cmd", "") for r in rs)
    return m


def probes(res, work):
    """Every function contract must be satisfiable: `assert(false)` at its start has to fail."""
    text, ranges = vc.emit(res.mods, res.ex, set(res.tg), [], res.dropset, probe=True)
    path = os.path.join(work, "probe.rs")
    with open(path, "w") as f:
        f.write(text)
    out, diags, dt, cmd = run_verus(path, extra=("--rlimit", "2"))
    bad = []
    lines = text.split("\n")
    okset = set()
    for d in diags:
        m = d.get("message", "").lower()
        if "assertion failed" in m or "rlimit" in m or "resource limit" in m:
            for s in d.get("spans", []):
                a = s["line_start"]
                for k, (x, y) in ranges.items():
                    if x <= a <= y:
                        okset.add(k)
    for k in list(res.tg) + ["axioms"]:
        if k not in okset:
            bad.append(k)
    return bad
