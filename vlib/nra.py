"""Lemmas of real arithmetic (no reference to the code): stated in the contract files, assumed by Verus, discharged by Z3's QF_NRA procedure on every run."""
import re, subprocess, concurrent.futures

TOK = re.compile(r"\s*(==>|<=|>=|==|!=|&&|\|\||\d+real|[A-Za-z_]\w*|[-+*/<>(){}!,])")


class P:
    def __init__(self, s):
        self.t = []
        s = s.strip()
        i = 0
        while i < len(s):
            m = TOK.match(s, i)
            if not m:
                if not s[i:].strip():
                    break
                raise ValueError("nra: " + s[i:i + 30])
            self.t.append(m.group(1))
            i = m.end()
        self.i = 0

    def pk(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def nx(self):
        self.i += 1
        return self.t[self.i - 1]

    def ex(self, x):
        y = self.nx()
        assert y == x, (x, y, self.t[self.i - 5:self.i + 3])

    def imp(self):
        a = self.orr()
        if self.pk() == "==>":
            self.nx()
            return f"(=> {a} {self.imp()})"
        return a

    def orr(self):
        a = self.andd()
        while self.pk() == "||":
            self.nx()
            a = f"(or {a} {self.andd()})"
        return a

    def andd(self):
        a = self.cmp()
        while self.pk() == "&&":
            self.nx()
            a = f"(and {a} {self.cmp()})"
        return a

    def cmp(self):
        a = self.add()
        out = []
        while self.pk() in ("<", "<=", ">", ">=", "==", "!="):
            o = self.nx()
            b = self.add()
            out.append(f"(not (= {a} {b}))" if o == "!=" else f"({'=' if o == '==' else o} {a} {b})")
            a = b
        return a if not out else out[0] if len(out) == 1 else "(and " + " ".join(out) + ")"

    def add(self):
        a = self.mul()
        while self.pk() in ("+", "-"):
            a = f"({self.nx()} {a} {self.mul()})"
        return a

    def mul(self):
        a = self.un()
        while self.pk() in ("*", "/"):
            a = f"({self.nx()} {a} {self.un()})"
        return a

    def un(self):
        t = self.nx()
        if t == "-":
            return f"(- {self.un()})"
        if t == "!":
            return f"(not {self.un()})"
        if t == "(":
            a = self.imp()
            self.ex(")")
            return a
        if t == "if":
            c = self.imp()
            self.ex("{")
            a = self.imp()
            self.ex("}")
            self.ex("else")
            self.ex("{")
            b = self.imp()
            self.ex("}")
            return f"(ite {c} {a} {b})"
        m = re.match(r"(\d+)real$", t)
        if m:
            return m.group(1) + ".0"
        assert re.match(r"[A-Za-z_]", t), t
        return t

    def list(self):
        out = [self.imp()]
        while self.pk() == ",":
            self.nx()
            if self.pk() is None:
                break
            out.append(self.imp())
        assert self.pk() is None, self.t[self.i:]
        return out


class Lemma:
    def __init__(self, name, params):
        self.name, self.params, self.req, self.ens = name, params, [], []

    def verus(self):
        r = ", ".join(x.rstrip(",") for x in self.req)
        return (f"#[verifier::external_body] pub  proof fn {self.name}({', '.join(p + ': real' for p in self.params)})" + (f" requires {r}" if r else "")
                + f" ensures {', '.join(x.rstrip(',') for x in self.ens)} {{ }} // discharged by Z3 QF_NRA")

    def goals(self):
        hyp = [h for r in self.req for h in P(r).list()]
        for e in self.ens:
            for g in P(e).list():
                yield "\n".join([f"(declare-const {p} Real)" for p in self.params] + [f"(assert {h})" for h in hyp] + [f"(assert (not {g}))", "(check-sat)"])


def z3(goal, timeout=40):
    for cmd in (["z3", "-in", f"-T:{timeout}"], ["z3-new", "-in", f"-T:{timeout}"]):
        p = subprocess.run(cmd, input=goal, capture_output=True, text=True)
        v = p.stdout.strip().split("\n")[0]
        if v in ("unsat", "sat"):
            return v
    return "unknown " + p.stdout.strip()[:200]


CACHE = {}


def discharge(mods):
    """(number of goals, list of (lemma, answer) that are not proved)"""
    jobs = [(l.name, g) for m in mods for l in m.nra for g in l.goals()]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: CACHE.get(j[1]) or CACHE.setdefault(j[1], z3(j[1])), jobs))
    return len(jobs), [(n, r) for (n, g), r in zip(jobs, rs) if r != "unsat"]
