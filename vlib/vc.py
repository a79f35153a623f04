"""Contract files: parsing, candidate generation, printing of the Verus program."""
import itertools, json, os, re, subprocess
from . import nra

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(ROOT, "contracts")


class Fn:
    def __init__(self, file, qual, params, ret, opts, module):
        self.file, self.qual, self.params, self.ret, self.opts, self.module = file, qual, params, ret, opts, module
        self.key = opts.get("key", qual)
        self.items = []          # (kind, selector, vars, text)

    def get(self, kind):
        return [t for (k, s, v, t) in self.items if k == kind]


class Module:
    def __init__(self, name):
        self.name, self.needs, self.types, self.fns, self.raw, self.nra = name, [], [], [], [], []
        self.rename_m, self.rename_p, self.rename_t = {}, {}, {}
        self.extends = []


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([{":
            d += 1
        if c in ">)]}":
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


KINDS = "requires ensures inv xinv lens dec pre begin end post clos closreq start finish attr params pure impl assume top aft".split()


def parse(name):
    m = Module(name)
    cur = lem = None
    for line in open(os.path.join(CONTRACTS, name + ".vc")):
        line = line.rstrip("\n")
        if line.startswith("//@"):
            w = line[3:].split()
            if w[0] == "needs":
                m.needs += w[1:]
            elif w[0] == "type":
                m.types.append({"file": w[1], "name": w[2], "noeq": "noeq" in w[3:], "de": "de" in w[3:], "manual": "manual" in w[3:]})
            elif w[0] in ("rename_m", "rename_p", "rename_t"):
                getattr(m, w[0])[w[1]] = w[2]
            elif w[0] == "fn":
                s = line[3:].split(None, 1)[1]
                opts = {}
                mm = re.match(r"(.*?)\s*\{\{(.*)\}\}\s*$", s)
                if mm:
                    s = mm.group(1)
                    for o in mm.group(2).split(";"):
                        k, _, v = o.strip().partition("=")
                        opts[k.strip()] = v.strip() or "1"
                file, rest = s.split(None, 1)
                mm = re.match(r"([\w:]+)\((.*)\)\s*(?:->\s*(.*))?$", rest)
                qual, ps, ret = mm.group(1), mm.group(2), mm.group(3)
                params = []
                for p in split_top(ps):
                    n, _, t = p.partition(":")
                    params.append((n.strip(), t.strip() or None))
                r = None
                if ret:
                    n, _, t = ret.partition(":")
                    r = (n.strip(), t.strip() or None)
                cur = Fn(file, qual, params, r, opts, name)
                m.fns.append(cur)
            elif w[0] == "extend":
                cur = Fn("", w[1], [], None, {}, name)
                m.extends.append(cur)
            elif w[0] == "nra":
                mm = re.match(r"nra\s+(\w+)\(([^()]*)\)$", line[3:].strip())
                lem = nra.Lemma(mm.group(1), [x.strip() for x in mm.group(2).split(",")])
                m.nra.append(lem)
            elif w[0] == "end":
                if lem:
                    m.raw.append(lem.verus())
                cur = lem = None
            else:
                raise SystemExit(f"{name}.vc: unknown directive {line}")
            continue
        if lem:
            k, _, t = line.partition(" ")
            if k in ("requires", "ensures"):
                (lem.req if k == "requires" else lem.ens).append(t)
            elif line.strip():
                raise SystemExit(f"{name}.vc: {line}")
            continue
        if cur is None:
            m.raw.append(line)
            continue
        if not line.strip() or line.strip().startswith("//"):
            continue
        mm = re.match(r"(\w+)((?:[@#]\d+)?)(?:\s+|$)(.*)$", line)
        if mm and mm.group(1) in KINDS and not line[0].isspace():
            t = mm.group(3)
            vs = {}
            v = re.match(r"\(([A-Z]:(?:[^()]|\([^()]*\))*)\)\s*(.*)$", t)
            if v:
                for x in re.split(r",\s*(?=[A-Z]:)", v.group(1)):
                    a, _, b = x.partition(":")
                    vs[a.strip()] = b.strip()
                t = v.group(2)
            cur.items.append((mm.group(1), mm.group(2), vs, t))
        else:
            k, s, v, t = cur.items[-1]
            cur.items[-1] = (k, s, v, t + "\n" + line)
    return m


def closure(names):
    seen, order = {}, []

    def go(n):
        if n in seen:
            return
        seen[n] = None
        m = parse(n)
        for x in m.needs:
            go(x)
        seen[n] = m
        order.append(m)
    for n in names:
        go(n)
    fns = {f.key: f for m in order for f in m.fns}
    for m in order:
        for x in m.extends:
            fns[x.key].items += x.items
    return order


def extract(rs2v, src, mods, known_drop=()):
    """known_drop: keys of functions that are not treated as having a contract."""
    req = {"fns": [], "types": [], "known": [], "rename_m": {}, "rename_p": {}, "rename_t": {}}
    for m in mods:
        for k in ("rename_m", "rename_p", "rename_t"):
            req[k].update(getattr(m, k))
        for t in m.types:
            req["types"].append(t)
        for f in m.fns:
            if f.key in known_drop:
                continue
            r = {"key": f.key, "file": f.file, "qual": f.qual, "params": [p[0] for p in f.params], "ptypes": [p[1] for p in f.params]}
            if f.ret and f.ret[1]:
                r["ret"] = f.ret[1]
            if "trait" in f.opts:
                r["trait"] = f.opts["trait"]
            if "self" in f.opts:
                r["self_ty"] = f.opts["self"]
            if "gen" in f.opts:
                r["gen"] = dict(x.split(":", 1) for x in f.opts["gen"].split(",") if x)
            req["fns"].append(r)
            if "inline" not in f.opts:
                req["known"].append(f.qual)
    p = subprocess.run([rs2v, src], input=json.dumps(req), capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("rs2v: " + p.stderr[-2000:])
    return json.loads(p.stdout)


class Cand:
    __slots__ = ("fn", "kind", "loop", "text", "lines", "live")

    def __init__(self, fn, kind, loop, text):
        self.fn, self.kind, self.loop, self.text, self.live, self.lines = fn, kind, loop, text, True, None

    def ident(self):
        return f"{self.fn}|{self.kind}|{self.loop}|{' '.join(self.text.split())}"


INTS = ("usize", "i64", "u64", "u32", "i32", "u8")


def tymatch(pat, ty):
    """Whether a local of the (light) type `ty` may stand for a template variable of type `pat`."""
    ty = ty.lstrip("&")
    if pat == ty or (pat in INTS and ty == "int"):
        return True
    if pat.startswith("Vec") and ty.startswith("["):
        return pat == "Vec" or ty[1:].startswith(pat[4:])
    if not ty.startswith(pat):
        return False
    return pat.isalpha() or "<" in pat or pat[-1:] in "(["


DEFAULT_INV = [("inv", "", {"A": "usize"}, "$A <= $i"), ("inv", "", {"A": "Vec"}, "$A@.len() <= $i"), ("inv", "", {"A": "Vec"}, "$A@.len() == $i")]


def others(vs, text, l):
    """Whether the loop has locals for the template variables that only occur in the condition of the template."""
    return all(nm == "S" or "$" + nm in text or any((mt or nm in "UVW") and tymatch(p, ty) for (n, mt, ty) in l["vars"]) for nm, p in vs.items())


def pick_dec(f, l):
    """The first instance of a `dec` clause that fits the loop."""
    for (kind, sel, vs, text) in f.items:
        if kind != "dec" or (sel.startswith("@") and len(l["outer"]) != int(sel[1:])) or (sel.startswith("#") and l["id"] != int(sel[1:])):
            continue
        t, ok = text.replace("$i", f"vg{l['id']}"), True
        for nm in sorted(set(re.findall(r"\$([A-HJ-NP-RT-W])\b", t))):
            pool = [n for (n, mt, ty) in l["vars"] if (mt or nm in "UVW") and (vs.get(nm) is None or tymatch(vs[nm], ty))]
            ok = ok and bool(pool)
            t = t.replace("$" + nm, pool[0] if pool else "")
        if ok and others(vs, text, l):
            return t
    return "0int"


SORT = r"^\s*(\w+)\.vsort_by(?:_key)?\(\|"


def candidates(fn, ex):
    """Instances of the templates of `fn` over the loops of its translated body."""
    out, seen = [], set()
    loops = {l["id"]: l for l in ex["loops"]}
    for (kind, sel, vs, text) in fn.items + ([("inv", "", {}, "$n == $s.len()")] if "isolate" in fn.opts else DEFAULT_INV):
        if kind not in ("inv", "xinv", "lens", "pre", "begin", "end", "post"):
            continue
        for l in ex["loops"]:
            if sel.startswith("@") and len(l["outer"]) != int(sel[1:]):
                continue
            if sel.startswith("#") and l["id"] != int(sel[1:]):
                continue
            if ("S" in vs and not tymatch(vs["S"], l.get("sty", ""))) or not others(vs, text, l):
                continue
            t = text
            o = loops[l["outer"][-1]] if l["outer"] else None
            w = l["kind"] != "for"
            sub = {"$i": f"vg{l['id']}" if w else l["i"], "$n": l["n"], "$x": f"vx{l['id']}", "$s1": l["seqs"][1] if len(l["seqs"]) > 1 else None,
                   "$s": l["seqs"][0] if l["seqs"] else None, "$oi": o and (f"vg{o['id']}" if o["kind"] != "for" else o["i"]), "$on": o and o["n"], "$ox": o and f"vx{o['id']}",
                   "$os": o and o["seqs"][0] if o and o["seqs"] else None, "$l": str(l["id"]), "$ol": o and str(o["id"])}
            bad = False
            for k in re.findall(r"\$(?:s1|oi|on|os|ox|ol|i|n|s|x|l)\b", t):
                v = sub[k]
                if v is None or (w and k in ("$n", "$x")):
                    bad = True
                    break
            if bad:
                continue
            # the loop index inside the body has already been advanced
            t = re.sub(r"\$(?:s1|oi|on|os|ox|ol|i|n|s|x|l)\b", lambda mm: str(sub[mm.group(0)]), t)
            names = sorted(set(re.findall(r"\$([A-HJ-NP-RT-W])\b", t)))
            muts = [(n, ty) for (n, mt, ty) in l["vars"] if mt]
            allv = [(n, ty) for (n, mt, ty) in l["vars"]]
            pools = []
            for nm in names:
                pool = allv if nm in "UVW" else muts
                pat = vs.get(nm)
                pools.append([n for (n, ty) in pool if pat is None or tymatch(pat, ty)])
            for combo in itertools.product(*pools):
                if len(set(combo)) != len(combo):
                    continue
                tt = t
                for nm, v in zip(names, combo):
                    tt = re.sub(r"\$%s\b" % nm, v, tt)
                c = Cand(fn.key, kind, l["id"], tt)
                if c.ident() not in seen:
                    seen.add(c.ident())
                    out.append(c)
    for (kind, sel, vs, text) in fn.items:
        if kind in ("start", "finish"):
            names = sorted(set(re.findall(r"\$([A-HJ-NP-RT-W])\b", text)))
            if names:
                continue
            c = Cand(fn.key, kind, -1, text)
            out.append(c)
        if kind == "aft":  # after a sort of a local vector
            for v in sorted(set(re.findall(SORT, ex.get("body") or "", re.M))):
                out.append(Cand(fn.key, "aft:" + v, -1, text.replace("$0", v).replace("$p", "vpre_" + v)))
    return out


def emit(mods, ex, verify, cands, known_drop=(), probe=False):
    """Text of the Verus program; records the line ranges of candidates and functions."""
    out = []

    def put(s):
        out.extend(s.split("\n"))
    put("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unreachable_code, path_statements, unused_must_use, unused_assignments)]")
    put("use vstd::prelude::*; use core::cmp::Ordering;\nverus! {")
    put("pub mod pre { use vstd::prelude::*; use core::cmp::Ordering;")
    put(open(os.path.join(CONTRACTS, "prelude.rs")).read())
    put("}\nuse pre::*;")
    put("broadcast use {pre::grp_f, pre::grp_ops};")
    lits = set()
    for v in ex["fns"].values():
        lits |= set(v.get("lits", []))
    for m in mods:
        for l in re.findall(r"\bfl_(\d+)_(\d*)\b", "\n".join(m.raw)):
            lits.add(f"{l[0]}.{l[1]}")
    for l in sorted(lits):
        a, b = l.split(".")
        nm = f"fl_{a}_{b}"
        den = "1" + "0" * len(b)
        val = f"{int(a + b)}real / {den}real" if b else f"{int(a)}real"
        put(f"pub uninterp spec fn s_{nm}() -> F;\n#[verifier::external_body] pub fn {nm}() -> (r: F) ensures r == s_{nm}(), r.ok(), r.rv() == {val} {{ unimplemented!() }}")
    ranges = {}
    bycand = {}
    for c in cands:
        c.lines = None
        bycand.setdefault((c.fn, c.loop, c.kind), []).append(c)

    def putc(c, s):
        a = len(out) + 1
        put(s)
        c.lines = (a, len(out))
    for m in mods:
        put(f"// ===== contracts/{m.name}.vc")
        for t in m.types:
            d = ex["types"].get(t["name"], {})
            if "text" in d:
                a = len(out) + 1
                put(d["text"])
        put("\n".join(m.raw))
        opened = None
        for f in m.fns:
            if f.key in known_drop or "inline" in f.opts:
                continue
            e = ex["fns"][f.key]
            if (e["errors"] and f.key in verify) or "params" not in e:
                continue
            ver = f.key in verify
            name = f.opts.get("as", e["name"])
            ps = ([e["self"]] if e["self"] else []) + [f"{n}: {t}" for n, t in e["params"]]
            rt = (f.ret[1] if f.ret and f.ret[1] else e["ret"])
            rn = f.ret[0] if f.ret else "vret"
            imp = f.opts.get("impl")
            vis = "" if imp and " for " in imp else "pub "
            sig = f"{vis}fn {name}{f.opts.get('generics', e['generics'])}({', '.join(ps)})" + (f" -> ({rn}: {rt})" if rt else "")
            head = None
            if imp:
                head = imp
            elif e["self_ty"]:
                head = f"impl{e['impl_generics']} {e['self_ty']}"
            # the methods of one trait impl go into one block
            if opened and head != opened:  # also when this one is a free function
                put("}")
                opened = None
            if head and head != opened:
                put(head + " {")
                opened = head
                for t in f.get("impl"):
                    put(t)
            a = len(out) + 1
            if ver:
                attrs = ["#[verifier::loop_isolation(true)]"] if "isolate" in f.opts else ["#[verifier::loop_isolation(false)]", "#[verifier::allow_complex_invariants]"]
                if any(l["kind"] != "for" for l in e["loops"]) and not f.get("dec"):
                    attrs.append("#[verifier::exec_allows_no_decreases_clause]")
                for t in f.get("attr"):
                    attrs.append(t)
                put("\n".join(attrs))
            else:
                put("#[verifier::external_body]")
            put(sig)
            for kw in ("requires", "ensures"):
                ts = f.get(kw) + (f.get("pure") if kw == "ensures" and not ver else [])
                if ts:
                    put(f"  {kw}")
                for t in ts:
                    put(f"    {t.rstrip().rstrip(',')},")
            body = e["body"]
            if not ver:
                put("{ unimplemented!() }")
            else:
                put("{")
                for t in f.get("top"):
                    put(t)
                if probe:
                    put("assert(false); // vacuity probe")
                for t in f.get("assume"):
                    put("proof { assume(" + t + "); }")
                for c in bycand.get((f.key, -1, "start"), []):
                    if c.live:
                        putc(c, "proof { " + c.text + " }")
                fin = [c for c in bycand.get((f.key, -1, "finish"), []) if c.live]
                if fin:
                    put(f"let {rn} = {{" if rt else "{")
                aft = None
                for line in body.split("\n"):
                    ms = re.match(SORT, line)
                    aft = ms.group(1) if ms else aft
                    if ms and any("vpre_" in c.text for c in bycand.get((f.key, -1, "aft:" + aft), [])):
                        put(f"let ghost vpre_{aft} = {aft}@;")
                    if aft and line == "});":
                        put(line)
                        for c in bycand.get((f.key, -1, "aft:" + aft), []):
                            if c.live:
                                putc(c, "proof { " + c.text + " }")
                        aft = None
                        continue
                    mm = re.match(r"\s*__(PRE|INV|HINT|END|POST|CLOS|KEY)(\d+)__\s*$", line)
                    if not mm:
                        kk = re.search(r"__KEY(\d+)__", line)
                        if kk:
                            line = line.replace(kk.group(0), "Time")
                        put(line)
                        continue
                    k, i = mm.group(1), int(mm.group(2))
                    if k == "CLOS":
                        mc = e["clos"][i]
                        for ck, kw in (("closreq", "requires "), ("clos", "ensures ")):
                            for (kind, sel, vs, t) in f.items:
                                if kind == ck and (not sel or sel == f"#{i}"):
                                    for j, pn in enumerate(mc["params"]):
                                        t = t.replace(f"${j}", pn)
                                    put(kw + t + ",")
                        continue
                    if k == "INV":
                        l = e["loops"][i]
                        inv = [c for c in bycand.get((f.key, i, "inv"), []) if c.live]
                        x = [c for c in bycand.get((f.key, i, "xinv"), []) if c.live]
                        if x:
                            put("  invariant_except_break")
                            for c in x:
                                putc(c, "    " + c.text + ",")
                        put("  invariant")
                        if l["kind"] == "for":
                            put(f"    {l['i']} <= {l['n']},")
                        else:
                            put(f"    vg{i} >= 0,")
                        for c in inv:
                            putc(c, "    " + c.text + ",")
                        x = [c for c in bycand.get((f.key, i, "lens"), []) if c.live]
                        if x:
                            put("  ensures")
                            for c in x:
                                putc(c, "    " + c.text + ",")
                        if l["kind"] == "for":
                            put(f"  decreases {l['n']} - {l['i']}")
                        elif f.get("dec"):
                            put("  decreases " + pick_dec(f, l))
                        continue
                    kind = {"PRE": "pre", "HINT": "begin", "END": "end", "POST": "post"}[k]
                    cs = [c for c in bycand.get((f.key, i, kind), []) if c.live]
                    for c in cs:
                        if c.text.startswith("let ghost"):
                            putc(c, c.text)
                        else:
                            putc(c, "proof { " + c.text + " }")
                if fin:
                    put("};")
                    for c in fin:
                        putc(c, "proof { " + c.text + " }")
                    put(rn if rt else "")
                put("}")
            ranges[f.key] = (a, len(out))
        if opened:
            put("}")
            opened = None
    if probe:
        put("proof fn vacuity_probe_axioms() { assert(false); }")
        ranges["axioms"] = (len(out), len(out))
    put("fn main() {}\n}")
    return "\n".join(out), ranges
