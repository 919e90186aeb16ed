"""Equations: random left and right sides over the Calc machine are given to the problem classes, as
operator tuples and as text; acceptance, the parts of accepted equations, and their meaning are
recorded for spec/CalcTrace.tla (spec/Eqn.tla)."""
import random
from numbers import Number
from ded import np, d3
from dedalus.core import operators as ops, future as fut, problems as prb, solvers
import geo, calc
from calc_drive import Drive, Stop

CLASSES = ["IVP", "IVP", "IVP", "LBVP", "EVP", "EVP", "NLBVP"]
BUILTIN = prb.parseables
OUTER = ["grad", "div", "curl", "lap", "skew", "trans", "trace", "dot", "cross", "mul", "interp", "surf", "radial", "azim", "angular", "d", "scale", "comp", "sub_", "mul", "dot", "cross", "comp"]
INNER = ["curl", "surf", "grad", "none", "curl", "skew", "trace", "div", "dot", "mul", "cross", "lap", "interp", "surf", "radial", "angular", "trans", "azim", "d", "comp", "none"]
SHADOW = ["lap", "curl", "square", "ave", "trace", "skew", "exp", "lift"]     # built-in names users may take


class EqDrive(Drive):
    def __init__(self, rng, G, cap, text, mats=False):
        super().__init__(rng, G, cap, "eq")
        self.text = text
        self.mats = mats
        self.kinds = {}
        self.aim = None

    def opnames(self):
        if self.aim:
            return self.aim
        base = super(Drive, self).opnames()
        return [f for f in base if f not in ("rmean", "surf", "radial", "azim", "angular")] + ["mul"] * 3 + (["poly"] if self.cls != "NLBVP" else [])

    # -- problem ------------------------------------------------------------------------------
    def radialkind(self):
        """Constant along all axes but the last."""
        for _ in range(300):
            k = self.domains()
            if any(k[1]) and not any(k[1][:-1]) and not k[2]:
                return k

    def start(self, cls=None, ncc=False):
        rng, G = self.rng, self.G
        self.cls = cls or rng.choice(CLASSES)
        self.vars = []
        for i in range(rng.choice([1, 1, 2])):
            r = self.leaf() if rng.random() < .3 and not G.curv else self.leaf(kind=self.fullkind(rng.random() < .3))
            self.vars.append(r)
        self.params = [self.leaf(kind=self.fullkind() if rng.random() < .5 else None) for _ in range(2)]
        if ncc and G.curv:                         # coefficients along the radius
            self.params = [self.leaf(sig=s, kind=self.radialkind()) for s in (None, self.vars[0].sig[:1] or None)]
        self.aux = None
        if self.cls in ("IVP", "EVP"):
            self.aux = self.leaf(sig=(), kind=((), [False] * G.nax, 0, "const"))
        self.one = None
        names = ["u", "v", "w1", "T_x"]
        rng.shuffle(names)
        for r, n in zip(self.vars, names):
            r.obj.name = n
        self.local = {r.obj.name: r for r in self.vars}
        self.user = {}
        pn = ["f", "g2", "nu", "a_b"]
        rng.shuffle(pn)
        for r in self.params:
            n = rng.choice(SHADOW) if rng.random() < .35 else pn.pop()
            if n in self.user:
                n = pn.pop()
            r.obj.name = n
            self.user[n] = r
        if self.aux:
            n = {"IVP": "t", "EVP": "om"}[self.cls]
            self.aux.obj.name = n
            self.user[n] = self.aux
        if rng.random() < .3:                          # a user's name hidden by a variable
            self.user[self.vars[0].obj.name] = rng.choice(self.params)
        self.ns = {n: r.obj for n, r in self.user.items()}
        self.sysname = {}
        for i, s in enumerate(G.systems):
            self.ns["cs%d" % i] = s[0]
            self.sysname[i + 1] = "cs%d" % i
        self.coname = {}
        for i, co in enumerate(G.coords):
            if co is not None:
                self.ns["co%d" % i] = co
                self.coname[i] = "co%d" % i
        v = [r.obj for r in self.vars]
        kw = {"namespace": self.ns} if rng.random() < .9 or self.text else {}
        if self.cls == "IVP":
            self.P = d3.IVP(v, time=self.aux.obj, **kw)
        elif self.cls == "EVP":
            self.P = d3.EVP(v, eigenvalue=self.aux.obj, **kw)
        else:
            self.P = getattr(d3, self.cls)(v, **kw)
        if self.cls == "NLBVP":
            self.perts = []
            for x, obj in zip(self.vars, self.P.perturbations):
                self.perts.append(self.twin(x, obj))

    def fullkind(self, edge=False):
        c = self.curv()
        for _ in range(200):
            k = self.domains()
            if edge and c and k[2] and all(k[1][a] for a in c.axes[:-1]):
                return k
            if all(k[1]) and not k[2] or self.G.surf and len(k[0]) == len(self.G.bases):
                return k
        return k

    def twin(self, x, obj=None):
        if obj is None:
            return super().twin(x)
        y = calc.Reg(len(self.regs) + 1, obj, "leaf")
        y.sig, y.dom, y.s, y.style = x.sig, x.dom, x.s, x.style
        y.final = True
        self.regs.append(y)
        self.fill(y, "leaf", list(x.deg), dens=(1, x.D))
        return y

    # -- sides --------------------------------------------------------------------------------
    def has(self, r, what):
        w = set(x.idx for x in what)
        return any(x.idx in w for x in self.under(r))

    def hasdt(self, r):
        return any(x.f == "dt" for x in self.under(r))

    def grow(self):
        rng = self.rng
        k = rng.random()
        if k < .2 and self.cls == "IVP":
            cand = [r for r in self.regs if r.safe and not r.num and not r.final and not r.pi and not r.s and self.has(r, self.vars)]
            cand = [r for r in cand if not self.hasdt(r) or rng.random() < .2]
            if cand:
                x = rng.choice(cand)
                if ("dt", x.idx) in self.keys:
                    return
                d = self.raw("dt", [x], [], dict(sig=x.sig, deg=list(x.deg), B=x.B, D=x.D, safe=True, final=False, nd=x.nd), lambda: ops.TimeDerivative(x.obj))
                self.keys[("dt", x.idx)] = d
            return
        if k < .35 and self.cls == "EVP":
            x = rng.choice([r for r in self.regs if r.safe and not r.num and not r.final and r is not self.aux and (self.has(r, self.vars) or rng.random() < .2)])
            a = self.aux
            new = dict(sig=x.sig, dom=list(x.dom), deg=list(x.deg), B=a.B * x.B, D=a.D * x.D, pi=x.pi, s=x.s, nd=x.nd)
            if new["B"] > 1e5 or new["D"] > 100 or ("mul", (a.idx, x.idx), ()) in self.keys:
                return
            if rng.random() < .5:
                return self.define("mul", [a, x], [], [], new, lambda: a.obj * x.obj, ("mul", (a.idx, x.idx), ()))
            return self.define("mul", [x, a], [], [], new, lambda: x.obj * a.obj, ("mul", (x.idx, a.idx), ()))
        return self.node(r_ok=lambda r: (r.safe or rng.random() < .3) and (r is not self.aux or rng.random() < .3))

    def combine(self, terms):
        r = terms[0]
        for y in terms[1:]:
            if y is r and self.rng.random() < .9:
                continue
            f = self.rng.choice(["add", "subt"])
            a, b = r, y
            new = dict(sig=a.sig, dom=[i or j for i, j in zip(a.dom, b.dom)], deg=[max(i, j) for i, j in zip(a.deg, b.deg)], B=a.B + b.B, D=calc.lcm(a.D, b.D), pi=a.pi, s=a.s, nd=max(a.nd, b.nd))
            if new["B"] * new["D"] > 1e8:
                continue
            key = (f, (a.idx, b.idx), ())
            if key in self.keys:
                r = self.keys[key]
                continue
            z = self.define(f, [a, b], [], [], new, (lambda: a.obj + b.obj) if f == "add" else (lambda: a.obj - b.obj), key)
            if z is None:
                continue
            r = z
        return r

    def ok_side(self, r):
        return not r.num and not isinstance(r.obj, Number) and r.chk and r.f not in ("integ", "ave") or r.leaf

    def pick_lhs(self):
        rng = self.rng
        cand = [r for r in self.regs if self.ok_side(r) and not r.final and not r.num and (r.safe or self.has(r, self.vars) and self.cls != "NLBVP")]
        V = [r for r in cand if self.has(r, self.vars)]
        if self.cls == "NLBVP" or rng.random() < .9:
            cand = V
        good = [r for r in cand if self.linear(r)]
        pool = good if good and rng.random() < .65 else cand
        a = rng.choice(pool[-8:] if rng.random() < .5 else pool)
        same = [r for r in (good if rng.random() < .8 else cand) if r.sig == a.sig and r.pi == a.pi and r.s == a.s and self.addable(a, r) and r.safe]
        k = rng.choice([0, 1, 1, 2])
        return self.combine([a] + [rng.choice(same) for _ in range(k)] if same and a.safe else [a])

    def linear(self, r):
        """A guess, only to steer the choice of sides."""
        try:
            r.obj.require_linearity(*[x.obj for x in self.vars], allow_affine=False, error=ValueError)
            return True
        except Exception:
            return False

    def pick_rhs(self, lhs):
        rng = self.rng
        if self.cls == "EVP" and rng.random() < .8 or rng.random() < .2:
            return 0
        if rng.random() < .12 and not (lhs.sig and self.G.curv) and not lhs.pi:
            return rng.choice([-3, 2, 5])
        bad = rng.random() < .1
        cand = [r for r in self.regs if self.ok_side(r) and not r.num and (bad or r.sig == lhs.sig) and r.pi == lhs.pi and (r.s == lhs.s and self.addable(lhs, r) or r.sig != lhs.sig)
                and (r.safe or self.cls in ("IVP", "LBVP")) and not (r.final and not r.leaf)]
        if self.cls != "IVP" and rng.random() < .8 and self.cls != "NLBVP":
            cand = [r for r in cand if not self.has(r, self.vars)] or cand
        if self.cls == "IVP" and rng.random() < .8:
            cand = [r for r in cand if not self.hasdt(r)] or cand
        if rng.random() < .7:
            cand = [r for r in cand if all(i <= j for i, j in zip(r.dom, lhs.dom))] or cand
        return rng.choice(cand) if cand else 0

    # -- every operator on the results of one ------------------------------------------------------
    def pairs(self, inner):
        rng = self.rng
        self.start(rng.choice(["LBVP", "LBVP", "IVP", "EVP"]), rng.random() < .7)
        mine = lambda r: self.has(r, self.vars)
        two = ("mul", "dot", "cross", "add", "subt")
        from_ = self.vars
        if rng.random() < .5:
            top = max(len(v.sig) for v in from_)
            from_ = [v for v in from_ if len(v.sig) == top]
        r1 = rng.choice(from_)
        if inner != "none":
            self.aim = [inner]
            r1 = self.node(r_ok=lambda r: r in from_ or inner in two and r in self.params)
            if r1 is None or not mine(r1) or r1.num or r1.final:
                return False
        for outer in OUTER:
            self.aim = [outer]
            r2 = self.node(tries=20, r_ok=lambda r: r is r1 or outer in two and r in self.params)
            if r2 is None or r2.num or not mine(r2) or r1 not in r2.a or not self.linear(r2):
                continue
            self.count("pair_" + outer)
            self.offer(r2, 0)
        self.aim = None
        return True

    # -- text ---------------------------------------------------------------------------------
    def sp(self):
        return self.rng.choice(["", "", " ", "  ", "\t"])

    def op(self, *names):
        """A built-in operator's name that the user has not taken."""
        ok = [n for n in names if n in BUILTIN and n not in self.user and n not in self.local]
        if not ok:
            return None
        n = self.rng.choice(ok)
        self.names.append([n, -1 - sorted(BUILTIN).index(n)])
        return n

    def bind(self, r):
        """The name of a register in the user's namespace."""
        if r.leaf:
            n = r.obj.name
            if self.resolve(n) == r.idx:
                self.names.append([n, r.idx])
                return n
        n = "s%d" % r.idx
        self.user[n] = r
        self.ns[n] = r.obj
        self.names.append([n, r.idx])
        return n

    def resolve(self, n):
        for sc in (self.local, self.user):
            if n in sc:
                return sc[n].idx
        return -1 - sorted(BUILTIN).index(n) if n in BUILTIN else 0

    def render(self, r, depth=0):
        rng, G = self.rng, self.G
        if r.leaf or rng.random() < .12 * depth or depth > 6:
            return self.bind(r)
        t = self.compose(r, depth + 1)
        return t if t is not None else self.bind(r)

    def compose(self, r, depth):
        rng, G = self.rng, self.G
        sp = self.sp
        A = lambda i=0: self.render(r.a[i], depth)
        f, p = r.f, r.p
        paren = lambda t: "(" + sp() + t + sp() + ")"
        bare = lambda t: t if depth == 1 and not rng.random() < .3 else paren(t)
        kwd = lambda n: n + sp() + "=" + sp()
        if f == "add":
            return bare(A(0) + sp() + "+" + sp() + A(1))
        if f == "subt":
            return bare(A(0) + sp() + "-" + sp() + paren(A(1)))
        if f == "neg":
            return bare("-" + A())
        if f == "addnum":
            return paren(rng.choice([A() + sp() + "+" + sp() + paren(str(p[0])), str(p[0]) + sp() + "+" + A()]))
        if f == "scale":
            z = str(p[0]) if not p[1] else "(%d%+dj)" % (p[0], p[1])
            if p[2] != 1:
                z = rng.choice(["(%s/%d)" % (z, p[2]), "(%s%s/%s%d)" % (z, sp(), sp(), p[2])])
            return paren(rng.choice([z + sp() + "*" + sp() + A(), A() + sp() + "*" + sp() + z]))
        if f == "mul":
            n = None
            return (paren(A(0) + sp() + "*" + sp() + A(1)))
        if f == "dot":
            i, j = p
            if (i, j) == (len(r.a[0].sig), 1):
                n = rng.random() < .5 and self.op("dot", "DotProduct")
                if not n:
                    return paren(A(0) + sp() + "@" + sp() + A(1))
                return n + sp() + "(" + A(0) + sp() + "," + sp() + A(1) + ")"
            n = self.op("dot", "DotProduct")
            return n and n + "(%s, %s, %s(%d,%d))" % (A(0), A(1), kwd("indices"), i - 1, j - 1)
        if f == "cross":
            n = self.op("cross", "CrossProduct")
            return n and n + "(" + A(0) + sp() + "," + sp() + A(1) + ")"
        if f == "pow":
            return paren(A() + sp() + "**" + sp() + str(p[0]))
        if f in ("grad", "lap"):
            n = self.op(f, {"grad": "Gradient", "lap": "Laplacian"}[f])
            return n and n + sp() + "(" + A() + sp() + "," + sp() + self.sysname[p[0]] + sp() + ")"
        if f in ("div", "curl", "skew"):
            n = self.op(f, {"div": "Divergence", "curl": "Curl", "skew": "Skew"}[f])
            return n and n + sp() + "(" + A() + ("," + sp() + kwd("index") + str(p[0] - 1) if p[0] != 1 or rng.random() < .3 else "") + ")"
        if f == "trans":
            n = self.op("trans", "transpose", "TransposeComponents")
            return n and n + "(" + A() + sp() + "," + kwd("indices") + "(%d,%s%d)" % (p[0] - 1, sp(), p[1] - 1) + sp() + ")"
        if f == "trace":
            n = self.op("trace", "Trace")
            return n and n + "(" + A() + ")"
        if f == "dt":
            n = self.op("dt", "TimeDerivative")
            return n and n + sp() + "(" + A() + sp() + ")"
        if f == "d":
            i = [k for k in range(len(G.factors)) if G.var0[k] + 1 == p[0]][0]
            n = self.op("Differentiate")
            return n and n + "(" + A() + "," + sp() + self.coname[i] + ")"
        if f == "interp":
            i = [k for k in range(len(G.factors)) if G.var0[k] + 1 == p[0]][0]
            ff, co = G.factors[i], self.G.coords[i]
            pos = repr(p[1] * (2 * np.pi / ff.kap) / 4) if isinstance(ff, geo.Four) else "%d/%d" % (p[1], p[2])
            if not isinstance(ff, geo.Four) and p[1] == ff.hi * p[2] and rng.random() < .6:
                pos = "'right'"
            return A() + sp() + "(" + sp() + kwd(co.name) + pos + sp() + ")"
        if f == "integ" and len(p) == 1 and p[0] > 0:
            i = [k for k in range(len(G.factors)) if G.var0[k] + 1 == p[0]][0]
            n = self.op("integ", "Integrate")
            return n and n + "(" + A() + "," + sp() + self.coname[i] + ")"
        return None

    def equation_text(self, lhs, rhs, alias=None):
        """Text of the equation, and whether it is grammatical."""
        rng = self.rng
        self.names = []
        a = self.render(lhs)
        b = str(rhs) if isinstance(rhs, int) else alias or self.render(rhs)
        if alias:
            self.names.append([alias, rhs.idx])
        eq = self.sp() + "=" + self.sp()
        grammar, bad = True, rng.random()
        if bad < .03:
            eq = " - "
        elif bad < .05:
            eq = "=="
        elif bad < .08:
            b = b + self.sp() + "=" + self.sp() + rng.choice(["0", a])
        elif bad < .12:
            n = "u_nknown%d" % rng.randint(1, 9)
            self.names.append([n, 0])
            if rng.random() < .5:
                a = a + " + " + n
            else:
                b = "%s(%s)" % (n, b) if rng.random() < .5 else b + "*" + n
        elif bad < .14:
            a, grammar = "(" + a, False
        elif bad < .16:
            b, grammar = b + ")", False
        elif bad < .18:
            a, b = "(" + a, b + ")"
        text = self.sp() + a + eq + b + self.sp()
        return text, grammar

    # -- an equation --------------------------------------------------------------------------
    def eq_step(self):
        rng, G, P = self.rng, self.G, self.P
        if rng.random() < .6:
            for _ in range(2):
                self.grow()
            return
        lhs = self.pick_lhs()
        if lhs is None:
            return
        rhs = self.pick_rhs(lhs)
        if self.cls == "NLBVP" and not self.has(lhs, self.vars):
            return
        if isinstance(rhs, calc.Reg) and (rhs.B + lhs.B) * lhs.D * rhs.D > 1e8:
            return
        if self.text and isinstance(rhs, calc.Reg) and rng.random() < .3:
            # the same name for one thing after another
            rhs2 = self.pick_rhs(lhs)
            if isinstance(rhs2, calc.Reg) and (rhs2.B + lhs.B) * lhs.D * rhs2.D <= 1e8:
                for x in (rhs, rhs2):
                    self.user["al"] = x
                    self.ns["al"] = x.obj
                    self.offer(lhs, x, alias="al")
                return
        self.offer(lhs, rhs)

    def offer(self, lhs, rhs, alias=None, **kw):
        """Add an equation to the problem; its parts if it is accepted."""
        rng, G, P = self.rng, self.G, self.P
        text, grammar = ("", True)
        self.names = []
        if self.text:
            text, grammar = self.equation_text(lhs, rhs, alias)
        before = list(P.equations)
        arg = text if self.text else (lhs.obj, rhs if isinstance(rhs, int) else rhs.obj)
        for l in self.leaves():
            if rng.random() < .2:
                self.jostle(l)
        msg, unsup = "", False
        try:
            eqn = P.add_equation(arg, **kw)
            res = True
        except Exception as e:
            unsup = isinstance(e, NotImplementedError) or "not yet supported" in str(e)
            res, msg = False, "%s: %s" % (type(e).__name__, str(e)[:200])
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            msg += " at %s:%s" % (tb.filename.rsplit("/", 1)[-1], tb.name)
        kept = len(P.equations) == len(before) + res and all(a is b for a, b in zip(P.equations, before)) and P.eqs is P.equations and [v is r.obj for v, r in zip(P.variables, self.vars)] == [True] * len(self.vars)
        dom = []
        if res:
            kept = kept and P.equations[-1] is eqn
            dom = self.flags(eqn["domain"])
        scopes = []
        if self.text:
            used = set(n for n, _ in self.names)
            scopes = [[[n, r.idx] for n, r in sc.items() if n in used] for sc in (self.local, self.user)] + [[[n, -1 - sorted(BUILTIN).index(n)] for n in sorted(used) if n in BUILTIN]]
            self.names = [list(x) for x in sorted(set(tuple(n) for n in self.names))]
        self.ev.append({"op": "eqn", "cls": self.cls, "lhs": lhs.idx, "rhs": 0 if isinstance(rhs, int) else rhs.idx, "num": rhs if isinstance(rhs, int) else 0, "vars": [v.idx for v in self.vars],
                        "aux": self.aux.idx if self.aux else -1, "res": res, "msg": msg, "kept": kept, "unsup": unsup, "dom": dom, "text": list(text), "scopes": scopes, "names": self.names if self.text else [], "grammar": grammar})
        self.count("eqn_%s_%s" % (self.cls, "accepted" if res else "unsupported" if unsup else "refused"))
        if res:
            eqn["regs"] = {}
            self.parts(eqn, lhs, rhs)
            return eqn

    def flags(self, domain):
        """Nonconstant axes as the specification counts them."""
        out = [bool(x) for x in domain.nonconstant]
        return out

    def parts(self, eqn, lhs, rhs):
        base = dict(sig=lhs.sig, dom=list(lhs.dom), deg=list(lhs.deg), B=2 * lhs.B, D=lhs.D, pi=lhs.pi, s=lhs.s, chk=False, safe=False, final=True)
        if isinstance(rhs, calc.Reg):
            both = dict(base, deg=[max(i, j) for i, j in zip(lhs.deg, rhs.deg)], B=lhs.B + rhs.B, D=calc.lcm(lhs.D, rhs.D))
        else:
            both = dict(base, B=lhs.B + abs(rhs) * lhs.D)
        todo = []
        if self.cls in ("IVP", "EVP"):
            mark = 0 if self.cls == "IVP" else self.aux.idx
            M = self.transformed("with", [lhs], [mark], [], dict(base), eqn["M"])
            L = self.transformed("without", [lhs], [mark], [], dict(base), eqn["L"])
            if self.cls == "EVP":
                if self.one is None:
                    self.one = self.leaf(sig=(), kind=((), [False] * self.G.nax, 0, "const"))
                    self.one.final = True
                    one = self.one
                    one.obj["g"] = 1
                    self.ev[-1].update(v=[[[[0] * self.G.n, 1, 0]]], den=1)
                    one.D = one.B = 1
                M.obj = None
                M = self.transformed("repl", [M, self.aux, self.one], [], [], dict(base, D=lhs.D * self.aux.D), eqn["M"])
            todo += [M, L]
            eqn["regs"].update(M=M, L=L)
            what = [ops.TimeDerivative] if self.cls == "IVP" else [self.aux.obj]
            for x in (eqn["M"], eqn["L"]):
                if isinstance(x, fut.Operand):
                    self.same("part free of time derivatives or the eigenvalue", False, bool(x.has(*what)))
        elif self.cls == "LBVP":
            todo.append(self.transformed("same", [lhs], [], [], dict(base), eqn["L"]))
            eqn["regs"].update(L=todo[-1])
        if self.cls in ("IVP", "LBVP"):
            if isinstance(rhs, calc.Reg):
                todo.append(self.transformed("same", [rhs], [], [], dict(base, deg=list(rhs.deg), B=rhs.B, D=rhs.D), eqn["F"]))
            else:
                z = self.transformed("scale", [lhs], [0, 0, 1], [], dict(base), None)
                if rhs:
                    z = self.transformed("addnum", [z], [rhs], [], dict(both), None)
                z.obj = eqn["F"]
                todo.append(z)
            eqn["regs"].update(F=todo[-1])
        if self.cls == "NLBVP":
            if isinstance(rhs, calc.Reg):
                F = self.transformed("subt", [lhs, rhs], [], [], dict(both), None)
            elif rhs:
                F = self.transformed("addnum", [lhs], [-rhs], [], dict(both), None)
            else:
                F = self.transformed("same", [lhs], [], [], dict(base), None)
            dF = self.transformed("frechet", [F], [v.idx for v in self.vars], [p.idx for p in self.perts], dict(both, B=both["B"] * 12), eqn["dF"])
            F.obj = eqn["F"]
            todo += [F, dF]
            eqn["regs"].update(F=F, dF=dF)
        for r in todo:
            if isinstance(r.obj, Number):
                r.num = True
                self.obs([(r, r.obj)])
                continue
            self.same("domain of the parts", self.flags(eqn["domain"]), self.flags(r.obj.domain))
            if not self.resolved(r.obj, {"deg": r.deg}) or any(x.f == "lift" for x in self.under(r)):
                continue
            if self.rng.random() < .3:
                self.jostle(self.rng.choice(self.leaves()))
            self.obs([(r, self.evaluate(r))])
        if self.mats:
            self.matrices(eqn, todo)

    # -- matrices -----------------------------------------------------------------------------
    def matrices(self, eqn, todo):
        """The matrices of the parts, applied to the coefficients of the variables."""
        rng, P, G = self.rng, self.P, self.G
        kw = self.solver_options()
        todo = [r for r in todo if r.obj is not eqn["F"] and not r.num] if "F" in eqn else [r for r in todo if not r.num]
        todo = [r for r in todo if self.resolved(r.obj, {"deg": r.deg})]
        if not todo:
            return
        if not all(self.plainncc(q["regs"][n]) for q in P.equations for n in q["regs"] if n != "F"):
            return self.count("mat_unsupported")
        try:
            solver = Bare(P, **kw)
        except NotImplementedError:
            return self.count("mat_unsupported")
        except Exception:
            self.act("building a solver", lambda: Bare(P, **kw))
            raise
        if len(solver.subproblems) > 80:
            return
        vs = P.LHS_variables
        for v in vs:
            v.change_layout("c")
        for r in todo:
            def apply():
                r.obj.gather_ncc_coeffs()
                out = G.dist.Field(bases=tuple(b for b in eqn["domain"].bases if b is not None), tensorsig=eqn["tensorsig"])
                out.preset_layout("c")
                out.data[...] = 0
                bad = self.assemble(solver, r.obj, vs, eqn, out)
                return out, bad
            try:
                out, bad = apply()
            except NotImplementedError as e:
                self.count("mat_unsupported")
                continue
            except Exception as e:
                if "not yet supported" in str(e):
                    self.count("mat_unsupported")
                    continue
                return self.act("building matrices of " + str(r.obj)[:80], apply)
            self.count("mat")
            self.obs([(r, out)])

    def plainncc(self, r):
        """Coefficients which the matrix construction covers: of one Cartesian system, or along the
        last axis with indices over the distributor's own systems."""
        G, dist = self.G, self.G.dist
        if dist.single_coordsys and not dist.single_coordsys.curvilinear:
            return True
        V = self.vars + (self.perts if self.cls == "NLBVP" else [])
        for x in self.under(r):
            if x.f == "lift" and any(G.systems[k - 1][0] not in dist.coordsystems for k in x.sig):
                return False
            if x.f in ("mul", "dot", "cross") or x.f == "pow" and self.cls == "NLBVP":
                args = x.a
                for a in args:
                    ncc = not self.has(a, V) or self.cls == "NLBVP"
                    if ncc and any(d for d in a.dom[:-1]):
                        return False
        return True

    def solver_options(self):
        rng = self.rng
        kw = {}
        for k in ("bc_top", "tau_left", "interleave_components", "store_expanded_matrices"):
            if rng.random() < .5:
                kw[k] = rng.random() < .5
        if rng.random() < .35:
            want = [bool(x) or rng.random() < .4 for x in self.P.matrix_coupling]
            c = self.curv()
            if c is not None:
                for a in c.axes[:-1]:
                    want[a] = bool(self.P.matrix_coupling[a])
            if any(want):
                kw["matrix_coupling"] = tuple(want)
        c = self.curv()
        if c is not None and not self.P.matrix_coupling[c.axes[-1]] and c.axes[-1] < self.G.nax - 1:
            # groups of single radial modes are not nested
            want = list(kw.get("matrix_coupling", [bool(x) for x in self.P.matrix_coupling]))
            want[c.axes[-1]] = True
            kw["matrix_coupling"] = tuple(want)
        return kw

    def assemble(self, solver, expr, vs, eqn, out):
        for sp in solver.subproblems:
            if not sp.field_size(out):
                continue
            blocks = expr.expression_matrices(subproblem=sp, vars=vs, ncc_cutoff=solver.ncc_cutoff, max_ncc_terms=None)
            for ss in sp.subsystems:
                tot = np.zeros(sp.field_size(out), dtype=out.dtype)
                for v in vs:
                    if v in blocks and sp.field_size(v):
                        x = (v.data[ss.field_slices(v)] * v.valid_modes[ss.field_slices(v)]).ravel()
                        tot = tot + blocks[v] @ x
                sl = ss.field_slices(out)
                out.data[sl] = tot.reshape(out.data[sl].shape) * eqn["valid_modes"][sl]


class Bare(solvers.SolverBase):
    """A solver with subproblems, but no matrices built."""
    matsolver_default = "MATRIX_SOLVER"
    matrices = []


def drive(seed, n, kind, mode, steps):
    traces, stats = [], {}
    for t in range(n):
        for tries in range(8 if mode == "pairs" else 1):
            rng = random.Random("eq/%s/%s/%s/%d" % (seed, kind, mode, t) + "/%d" % tries * (tries > 0))
            if kind == "cart":
                G, cap = geo.cartesian(rng, d3)
            else:
                G, cap = geo.curvilinear(rng, d3, kind=kind)
            w = EqDrive(rng, G, cap, mode == "text", mode in ("mat", "pairs"))
            w.rich = rng.random() < {"pairs": .7, "mat": .4}.get(mode, 0)
            try:
                if mode == "pairs":
                    if not w.pairs(INNER[(n * seed + t) % len(INNER)]):
                        continue
                    w.count("pairs")
                else:
                    w.start()
                    for _ in range(steps):
                        w.eq_step()
            except Stop:
                pass
            break
        tr = w.trace
        tr["kind"] = kind
        traces.append(tr)
        for k, v in w.stats.items():
            stats[k] = stats.get(k, 0) + v
    return {"traces": traces, "stats": stats}
