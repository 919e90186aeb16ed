"""Square systems of equations: their assembled matrices applied to the variables, and solutions of
linear and nonlinear boundary value problems, recorded for spec/CalcTrace.tla."""
import math, random
from numbers import Number
from ded import np, d3
from dedalus.core import operators as ops, subsystems
from dedalus.libraries import matsolvers
import geo, calc
from calc_drive import Stop
from eqn_drive import EqDrive, Bare

MATSOLVERS = ["SuperluColamdFactorizedTranspose", "SuperluColamdFactorized", "SuperluNaturalFactorized", "SuperluNaturalFactorizedTranspose", "SuperluColamdSpsolve", "SuperluNaturalSpsolve",
              "ScipyBanded", "DenseInverse", "ScipyDenseLU", "SparseInverse"]
COND = 1e7


class SolveDrive(EqDrive):
    def __init__(self, rng, G, cap, mode):
        super().__init__(rng, G, cap, False)
        self.smode = mode

    # -- square systems of random equations -----------------------------------------------------
    def pick_lhs(self):
        rng = self.rng
        x = rng.choice(self.todo)
        cand = [r for r in self.regs if self.ok_side(r) and not r.final and not r.num and r.safe and r.sig == x.sig and r.dom == x.dom and r.s == x.s and not r.pi]
        V = [r for r in cand if self.has(r, self.vars)]
        good = [r for r in V if self.linear(r)] if self.cls != "NLBVP" else V
        if not good:
            return None
        a = rng.choice(good[-8:] if rng.random() < .5 else good)
        same = [r for r in good if self.addable(a, r)] + ([x] * 2 if self.addable(a, x) else [])
        z = self.combine([a] + [rng.choice(same) for _ in range(rng.choice([0, 1, 1, 2]))] if same else [a])
        return z if z.dom == x.dom and z.s == x.s else None

    def pick_rhs(self, lhs):
        r = super().pick_rhs(lhs)
        if isinstance(r, calc.Reg) and (r.sig != lhs.sig or not all(i <= j for i, j in zip(r.dom, lhs.dom))):
            return 0
        return r

    def sq_step(self):
        rng = self.rng
        for _ in range(rng.randint(0, 3)):
            self.grow()
        lhs = self.pick_lhs()
        if lhs is None:
            return
        rhs = self.pick_rhs(lhs)
        if isinstance(rhs, calc.Reg) and (rhs.B + lhs.B) * lhs.D * rhs.D > 1e8:
            return
        x = [v for v in self.todo if v.sig == lhs.sig and v.dom == lhs.dom and v.s == lhs.s][0]
        # one equation, or two for the groups without and with variation along a separable axis
        i = self.filterable(x)
        if i is None or rng.random() < .6:
            if self.put(lhs, rhs, None):
                self.todo.remove(x)
            return
        lhs2 = lhs
        for _ in range(10):
            y = self.pick_lhs()
            if y is not None and y.sig == x.sig and y.dom == x.dom and y.s == x.s:
                lhs2 = y
        name = self.G.coords[i].name
        pair = [(lhs, rhs, (i, True)), (lhs2, 0, (i, False))]
        rng.shuffle(pair)
        ok = 0
        for l, r, (j, zero) in pair:
            if not self.coupled_along(l, j):
                ok += 1
        if ok < 2:
            return
        n = len(self.P.equations)
        for l, r, (j, zero) in pair:
            if not self.put(l, r, (j, zero), condition="n%s %s 0" % (name, "==" if zero else "!=")):
                break
        if len(self.P.equations) == n + 2:
            self.todo.remove(x)
            self.filtered.add(self.G.factors[i].axes[0])
        elif len(self.P.equations) != n:
            raise Stop()

    def filterable(self, x):
        """A Fourier axis that nothing is coupled along."""
        idx = [i for i, f in enumerate(self.G.factors) if isinstance(f, geo.Four) and x.dom[f.axes[0]]]
        return self.rng.choice(idx) if idx else None

    def coupled_along(self, r, i):
        a = self.G.factors[i].axes[0]
        return any(x.f in ("mul", "dot", "cross", "pow") and any(y.dom[a] for y in x.a if not self.has(y, self.vars)) for x in self.under(r)) or self.cls == "NLBVP"

    def put(self, lhs, rhs, cond, **kw):
        eqn = self.offer(lhs, rhs, **kw)
        if eqn is None:
            return False
        eqn["cond"] = cond
        return True

    def restricted(self, r, cond, obj):
        """The register of the part of r in the groups satisfying the equation's condition."""
        if cond is None:
            return r
        i, zero = cond
        f = self.G.factors[i]
        new = dict(sig=r.sig, dom=list(r.dom), deg=list(r.deg), B=2 * r.B, D=r.D, pi=r.pi, s=r.s, chk=False, safe=False, final=True)
        m = self.transformed("ave", [r], [self.G.var0[i] + 1], [], dict(new), None)
        if not zero:
            m = self.transformed("subt", [r, m], [], [], dict(new), None)
        m.obj = obj
        return m

    def assembled(self):
        """Assembled matrices, applied to the gathered variables."""
        rng, P, G = self.rng, self.P, self.G
        kw = self.solver_options()
        if self.filtered:
            want = [bool(x) for x in P.matrix_coupling]
            if any(want[a] for a in self.filtered):
                return self.count("sq_coupled")
            if self.curv() is not None:
                want[self.curv().axes[-1]] = True
            rest = [a for a in range(G.nax) if a not in self.filtered]
            if not any(want):
                if not rest:
                    return self.count("sq_coupled")
                want[rest[-1]] = True
            kw["matrix_coupling"] = tuple(want)
        names = {"IVP": ["M", "L"], "EVP": ["M", "L"], "LBVP": ["L"], "NLBVP": ["dF"]}[self.cls]
        if not all(self.plainncc(e["regs"][n]) for e in P.equations for n in names):
            return self.count("sq_unsupported")
        try:
            solver = Bare(P, **kw)
        except NotImplementedError:
            return self.count("sq_unsupported")
        except Exception:
            self.act("building a solver", lambda: Bare(P, **kw))
            raise
        if len(solver.subproblems) > 80:
            return self.count("sq_big")
        if not self.build(solver, names):
            return
        vs = P.LHS_variables
        if rng.random() < .5:
            for l in self.leaves():
                self.jostle(l)
        for v in vs:
            v.change_layout("c")
        for n in names:
            outs = self.act("applying matrices", lambda: self.apply(solver, n, vs))
            for eqn, out in zip(P.equations, outs):
                r = eqn["regs"][n]
                if r.num:
                    if np.any(out.data):
                        self.same("rows of a part that is zero", "zero", "nonzero")
                    continue
                if self.resolved(r.obj, {"deg": r.deg}):
                    self.obs([(self.restricted(r, eqn.get("cond"), r.obj), out)])
        self.count("sq_" + self.cls)
        if self.cls in ("IVP", "LBVP"):
            self.roundtrip(solver)
        return solver

    def build(self, solver, names):
        try:
            subsystems.build_subproblem_matrices(solver, solver.subproblems, names)
            return True
        except Exception as e:
            if isinstance(e, NotImplementedError) or "not yet supported" in str(e):
                self.count("sq_unsupported")
                return False
            self.act("building matrices of " + str([str(q["eqn"]) for q in self.P.equations])[:160], lambda: subsystems.build_subproblem_matrices(solver, solver.subproblems, names))
            raise

    def apply(self, solver, name, vs):
        P, G = self.P, self.G
        outs = []
        for eqn in P.equations:
            out = G.dist.Field(bases=tuple(b for b in eqn["domain"].bases if b is not None), tensorsig=eqn["tensorsig"])
            out.preset_layout("c")
            out.data[...] = 0
            outs.append(out)
        for sp in solver.subproblems:
            mats = [getattr(sp, name + "_min")]
            if hasattr(sp, name + "_exp"):
                mats.append(getattr(sp, name + "_exp"))
                if mats[1].shape != sp.LHS.shape:
                    self.same("shape of the expanded matrix", str(sp.LHS.shape), str(mats[1].shape))
            mat = self.rng.choice(mats)
            if self.cls == "EVP":
                X = np.stack([sp.pre_right_pinv @ ss.gather(vs) for ss in sp.subsystems], axis=1)
            else:
                X = sp.gather_inputs(vs).copy()
            y = sp.pre_left_pinv @ (mat @ X)
            i0 = 0
            for out in outs:
                n = sp.field_size(out)
                if n:
                    for j, ss in enumerate(sp.subsystems):
                        sl = ss.field_slices(out)
                        out.data[sl] = y[i0:i0 + n, j].reshape(out.data[sl].shape)
                i0 += n
        return outs

    def roundtrip(self, solver):
        """Gathering and scattering keep every valid coefficient."""
        P, G, rng = self.P, self.G, self.rng
        def go():
            back = []
            for f in P.LHS_variables:
                g = f.copy()
                g.preset_layout("c")
                g.data[...] = 7
                back.append(g)
            for f in P.LHS_variables:
                f.change_layout("c")
            for sp in solver.subproblems:
                sp.scatter_inputs(sp.gather_inputs(P.LHS_variables).copy(), back)
            return back
        back = self.act("gathering and scattering variables", go)
        self.obs([(r, f) for r, f in zip(self.vars, back)])
        F = []
        for eqn in P.equations:
            r = eqn["regs"]["F"]
            if isinstance(r.obj, Number) or not self.resolved(r.obj, {"deg": r.deg}) or isinstance(r.obj, Number):
                return
            f = self.evaluate(r).copy()
            F.append(f)

        def go2():
            back = []
            for f in F:
                f.change_layout("c")
                g = f.copy()
                g.data[...] = 7
                back.append(g)
            for sp in solver.subproblems:
                sp.scatter_outputs(sp.gather_outputs(F).copy(), back)
            return back
        back = self.act("gathering and scattering right sides", go2)
        for eqn, f in zip(P.equations, back):
            r = eqn["regs"]["F"]
            self.obs([(self.restricted(r, eqn.get("cond"), r.obj), f)])

    # -- solving -----------------------------------------------------------------------------------
    def manufacture(self, lhs, subs):
        """The left side with the variables replaced by given fields."""
        r = lhs
        for old, new in subs:
            if not (self.has(lhs, [old]) or lhs.f == "frechet" and old.idx in lhs.q and not isinstance(lhs.obj, Number) and lhs.obj.has(old.obj)) or isinstance(r.obj, Number):
                continue
            a, n = r, new
            obj = self.act("replacing", lambda: a.obj.replace(old.obj, n.obj))
            r = self.transformed("repl", [a, old, n], [], [], dict(sig=a.sig, dom=list(a.dom), deg=list(a.deg), B=a.B, D=a.D, pi=a.pi, s=a.s, chk=False, safe=False, final=True), obj)
        return r

    def condition_number(self, solver, name):
        worst = 1
        for sp in solver.subproblems:
            A = getattr(sp, name + "_min").toarray()
            if not A.size:
                continue
            if A.shape[0] > 700 or not np.any(A):
                return math.inf
            A = A / (np.max(np.abs(A), axis=1, keepdims=True) + 1e-300)
            c = np.linalg.cond(A)
            if not np.isfinite(c):
                return math.inf
            worst = max(worst, c)
        return worst

    def solve_options(self):
        kw = self.solver_options()
        kw.pop("matrix_coupling", None) if self.rng.random() < .5 else None
        if self.rng.random() < .7:
            kw["matsolver"] = self.rng.choice(MATSOLVERS)
            if self.rng.random() < .2:
                # a matsolver that overrides solver options
                base = matsolvers.matsolvers[kw["matsolver"].lower()]
                own = {k: self.rng.random() < .5 for k in ("bc_top", "tau_left", "interleave_components", "store_expanded_matrices") if self.rng.random() < .5}
                kw["matsolver"] = type("Config" + base.__name__, (base,), {"config": own})
        return kw

    def value_of(self, r, like, slack=1):
        """The new value of a leaf, as exact numbers."""
        G = self.G
        D = like.D * slack
        x = r.obj.copy()
        flags, comps, exact = G.read(x, r.s, like.deg, D)
        sig = [G.spec_sys(cs) for cs in x.tensorsig]
        return {"r": r.idx, "sig": sig, "dom": r.dom, "den": D, "v": comps, "pi": 0, "s": r.s, "exact": bool(exact)}

    def solve(self, eqs, likes, taus):
        """eqs: [(lhs, rhs register or number)] already in the problem; likes: {variable: register whose degrees and denominator its solution has}."""
        rng, P = self.rng, self.P
        kw = self.solve_options()
        try:
            solver = P.build_solver(**kw)
        except NotImplementedError:
            return self.count("solve_unsupported")
        except Exception:
            self.act("building a solver", lambda: P.build_solver(**kw))
            raise
        if len(solver.subproblems) > 120:
            return self.count("solve_big")
        if not self.build(solver, ["L"]):
            return
        if self.condition_number(solver, "L") > COND:
            return self.count("solve_singular")
        for l in self.leaves():
            if rng.random() < .4:
                self.jostle(l)
        for rep in range(rng.choice([1, 1, 2])):
            if rep:
                for v in self.vars:
                    self.jostle(v, above=True)
            self.act("solving", solver.solve)
            self.ev.append({"op": "solve", "vals": [self.value_of(v, likes[v]) for v in self.vars], "eqs": [[l.idx, 0, r] if isinstance(r, int) else [l.idx, r.idx, 0] for l, r in eqs], "taus": [t.idx for t in taus]})
            self.count("solve")
            if rep == 0 and rng.random() < .5:
                self.obs([(r, self.evaluate(r)) for r, _ in eqs[:1] if self.resolved(r.obj, {"deg": r.deg}) and not any(x.f == "lift" for x in self.under(r))] or [(self.vars[0], self.vars[0].obj)])
        return solver

    def sol_fields(self):
        """A given solution: a parameter of the kind of each variable."""
        return [self.twin(v) for v in self.vars]

    # -- building blocks: registers made by hand ------------------------------------------------------
    def make(self, f, args, p, new, build):
        """A node; the same one if it was made before."""
        key = (f, tuple(a.idx for a in args), tuple(p))
        if key in self.keys:
            return self.keys[key]
        a = args[0]
        base = dict(sig=a.sig, dom=list(a.dom), deg=list(a.deg), B=a.B, D=a.D, pi=a.pi, s=a.s, safe=True, nd=max(x.nd for x in args))
        r = self.raw(f, args, p, dict(base, **new), build)
        r.final = r.num
        self.keys[key] = r
        return r

    def m_add(self, a, b, f="add"):
        return self.make(f, [a, b], [], dict(dom=[i or j for i, j in zip(a.dom, b.dom)], deg=[max(i, j) for i, j in zip(a.deg, b.deg)], B=a.B + b.B, D=calc.lcm(a.D, b.D)),
                         (lambda: a.obj + b.obj) if f == "add" else (lambda: a.obj - b.obj))

    def m_sum(self, terms):
        r = terms[0]
        for t in terms[1:]:
            r = self.m_add(r, t, self.rng.choice(["add", "add", "subt"])) if t is not r else r
        return r

    def m_scale(self, a, n):
        return self.make("scale", [a], [n, 0, 1], dict(B=abs(n) * a.B), lambda: n * a.obj)

    def m_lap(self, a, k):
        m, g = len(self.G.systems[k - 1][1]), self.growth(a)
        return self.make("lap", [a], [k], dict(B=a.B * m * g * g * (144 if self.G.surf else 1), nd=a.nd + 2), lambda: d3.lap(a.obj, self.G.systems[k - 1][0]))

    def m_grad(self, a, k):
        return self.make("grad", [a], [k], dict(sig=(k,) + a.sig, B=a.B * self.growth(a), nd=a.nd + 1), lambda: d3.grad(a.obj, self.G.systems[k - 1][0]))

    def m_div(self, a):
        m = len(self.G.systems[a.sig[0] - 1][1])
        return self.make("div", [a], [1], dict(sig=a.sig[1:], B=a.B * m * self.growth(a), nd=a.nd + 1), lambda: d3.div(a.obj))

    def m_trace(self, a):
        return self.make("trace", [a], [], dict(sig=a.sig[2:], B=a.B * self.dims(a.sig)[0]), lambda: d3.trace(a.obj))

    def m_mul(self, a, b):
        return self.make("mul", [a, b], [], dict(sig=a.sig + b.sig, dom=[i or j for i, j in zip(a.dom, b.dom)], deg=[i + j for i, j in zip(a.deg, b.deg)], B=a.B * b.B, D=a.D * b.D), lambda: a.obj * b.obj)

    def m_d(self, a, i):
        f = self.G.factors[i]
        return self.make("d", [a], [self.G.var0[i] + 1], dict(B=a.B * max(1, a.deg[i]) * getattr(f, "kap", 1), nd=a.nd + 1), lambda: d3.Differentiate(a.obj, self.G.coords[i]))

    def m_at(self, a, i, right):
        f = self.G.factors[i]
        x = f.hi if right else f.lo
        dom, deg = list(a.dom), list(a.deg)
        dom[f.axes[0]], deg[i] = False, 0
        c = self.G.coords[i].name
        return self.make("interp", [a], [self.G.var0[i] + 1, x, 1], dict(dom=dom, deg=deg, B=a.B * max(abs(x), 1) ** a.deg[i]), lambda: a.obj(**{c: self.rng.choice([x, "right" if right else "left"])}))

    def m_surf(self, a, R):
        c = self.curv()
        dom = list(a.dom)
        dom[c.axes[-1]] = False
        return self.make("surf", [a], [R * R], dict(dom=dom, s=R * R, B=a.B * self.nfgrow(R * R, self.curvdeg(a))), lambda: a.obj(**{self.G.curvsys.coords[-1].name: R}))

    def m_integ(self, a):
        got = self.integral_all(a)
        return got

    def m_lift(self, t, basis, n, axis):
        dom = list(t.dom)
        dom[axis] = True
        return self.make("lift", [t], [axis + 1], dict(dom=dom, s=0, chk=False), lambda: d3.Lift(t.obj, basis, n))

    # -- boundary value problems --------------------------------------------------------------------
    def setup(self, cls):
        self.cls, self.vars, self.aux, self.one, self.user = cls, [], None, None, {}

    def named(self, r, name):
        r.obj.name = name
        return r

    def begin(self):
        """The problem, once its variables exist."""
        v = [r.obj for r in self.vars]
        self.P = getattr(d3, self.cls)(v)
        if self.cls == "NLBVP":
            self.perts = [self.twin(x, obj) for x, obj in zip(self.vars, self.P.perturbations)]

    def newton(self):
        self.bvp("NLBVP")

    def bvp(self, cls="LBVP"):
        """Equations that determine their variables, with a given solution or Newton step."""
        rng, G = self.rng, self.G
        self.setup(cls)
        c = self.curv()
        jac = [i for i, f in enumerate(G.factors) if isinstance(f, geo.Poly)]
        self.params = [self.leaf(kind=self.fullkind() if rng.random() < .5 else None) for _ in range(2)]
        taus = []
        eqs = []
        if c is not None and c.kind != "sphere":
            i = G.curv[0]
            if jac:
                return self.count("bvp_skip")
            style = {"full": [0], "edges": []}
            usable = [k + 1 for k, s in enumerate(G.systems) if s[3]]
            k = usable[0]                                    # the distributor's own system
            sig = rng.choice([(), (), (k,)])
            edges = [e for e in ("edge", "inner", "surface") if e in G.bases[i]]
            full = self.kind_of(i, "full")
            u = self.named(self.leaf(sig=sig, kind=full), "u")
            ts = [self.named(self.leaf(sig=sig, kind=self.kind_of(i, e)), "t%d" % j) for j, e in enumerate(edges)]
            self.vars = [u] + ts
            self.begin()
            basis = G.bases[i]["full"][0]
            terms = [self.m_lap(u, k)]
            if rng.random() < .6:
                terms.append(self.m_scale(u, rng.choice([-3, -1, 2])))
            terms += self.extras(u)
            kb = rng.choice([0, 1, 2])
            lb = basis.derivative_basis(kb) if kb else basis
            terms += [self.m_lift(t, lb, -1 - j, c.axes[-1]) for j, t in enumerate(ts)]
            eqs.append(self.m_sum(terms))
            radii = {"edge": c.radii[1], "surface": c.radii[1], "inner": c.radii[0]}
            for e in edges:
                b = self.m_surf(u, radii[e])
                eqs.append(b)
            taus = ts
        else:
            if len(jac) > 1:
                return self.count("bvp_skip")
            usable = [k + 1 for k, s in enumerate(G.systems) if s[3]]
            k = usable[0]
            # a system over all the coordinates
            whole = [k for k in usable if len(G.systems[k - 1][1]) == G.n]
            sig = rng.choice([(), (), (rng.choice(usable),)])
            full = self.fullkind()
            u = self.named(self.leaf(sig=sig, kind=full), "u")
            if not jac:
                self.vars = [u]
                if rng.random() < .5:
                    self.vars.append(self.named(self.leaf(sig=rng.choice([sig, ()]), kind=full), "v"))
                self.begin()
                for x in self.vars:
                    if whole and rng.random() < .7:
                        terms = [self.m_lap(x, whole[0]), self.m_scale(x, rng.choice([-3, -2, 5]))]
                    else:
                        terms = [self.m_scale(x, rng.choice([2, 3, 7]))]
                    terms += self.extras(x)
                    rng.shuffle(terms)
                    eqs.append(self.m_sum(terms))
            else:
                i = jac[0]
                order = rng.choice([1, 2, 2])
                ax = G.factors[i].axes[0]
                low = [list(full[0]), list(full[1]), 0, full[3]]
                low[0] = [b for b in low[0] if b is not G.bases[i]]
                low[1][ax] = False
                ts = [self.named(self.leaf(sig=sig, kind=tuple(low)), "t%d" % j) for j in range(order)]
                self.vars = [u] + ts
                rng.shuffle(self.vars)
                self.begin()
                basis = G.bases[i]
                if order == 2:
                    terms = [self.m_lap(u, whole[0]) if whole and rng.random() < .6 else self.m_d(self.m_d(u, i), i)]
                else:
                    terms = [self.m_d(u, i)]
                if rng.random() < .6:
                    terms.append(self.m_scale(u, rng.choice([-3, -1, 2])))
                terms += self.extras(u)
                lb = basis.derivative_basis(rng.choice([order, order, 0, 1])) if rng.random() < .8 else basis
                terms += [self.m_lift(t, lb, -1 - j, ax) for j, t in enumerate(ts)]
                eqs.append(self.m_sum(terms))
                bcs = [self.m_at(u, i, False), self.m_at(u, i, True), self.m_at(self.m_d(u, i), i, rng.random() < .5)]
                bcs.append(self.m_sum([bcs[rng.randrange(2)], self.m_scale(bcs[2], 2)]))
                for b in rng.sample(bcs, order):
                    eqs.append(b)
                taus = ts
        order = list(range(len(eqs)))
        rng.shuffle(order)
        eqs = [eqs[j] for j in order]
        sols = []
        subs, dsubs = [], []
        for j, x in enumerate(self.vars):
            if x in taus:
                subs.append((x, self.zero_like(x)))
                sols.append((x, x))
                if cls == "NLBVP":
                    dsubs.append((self.perts[j], self.zero_like(x)))
            else:
                y = self.twin(x)
                y.obj.name = "s%d" % y.idx
                subs.append((x, y))
                sols.append((x, y))
                if cls == "NLBVP":
                    y = self.twin(x)
                    y.obj.name = "d%d" % y.idx
                    dsubs.append((self.perts[j], y))
        subs.sort(key=lambda q: q[0] in taus)
        done = []
        self.lefts = eqs
        for lhs in eqs:
            rhs = self.manufacture(lhs, subs)
            if rhs.num or isinstance(rhs.obj, Number):
                return self.count("bvp_skip")
            if cls == "NLBVP":
                rhs = self.with_step(lhs, rhs, subs, dsubs)
                if rhs is None:
                    return self.count("bvp_skip")
                if rng.random() < .35 and lhs.f == "add" and self.has(lhs.a[0], self.vars) and lhs.a[0].sig == lhs.sig and lhs.a[0].dom == lhs.dom and lhs.a[0].s == lhs.s:
                    # the last term on the right
                    rhs = self.m_add(rhs, lhs.a[1], "subt")
                    lhs = lhs.a[0]
            e = self.offer(lhs, rhs)
            if e is None:
                return self.count("bvp_refused")
            done.append((lhs, rhs))
        if not all(self.plainncc(l) for l, _ in done):
            return self.count("bvp_unsupported")
        if cls == "NLBVP":
            self.iterate(subs, dsubs, taus)
        else:
            self.solve(done, {x: y for x, y in sols}, taus)

    # -- Newton iterations --------------------------------------------------------------------------
    def with_step(self, lhs, rhs, subs, dsubs):
        """A right side for which the iteration from the fields of subs moves by those of dsubs."""
        V, P = [v.obj for v in self.vars], [p.obj for p in self.perts]
        obj = self.act("differentiating", lambda: lhs.obj.frechet_differential(V, P))
        if isinstance(obj, Number):
            return None
        base = dict(sig=lhs.sig, dom=list(lhs.dom), deg=list(lhs.deg), B=12 * lhs.B, D=lhs.D, pi=lhs.pi, s=lhs.s, chk=False, safe=False, final=True)
        d = self.transformed("frechet", [lhs], [v.idx for v in self.vars], [p.idx for p in self.perts], base, obj)
        d = self.manufacture(d, subs + dsubs)
        if d.num or isinstance(d.obj, Number) or d.B + rhs.B > 1e7:
            return None
        # parts of the left side may move to the right
        return self.m_add(rhs, d)

    def assign(self, x, y):
        """Give variable x the data of the field y."""
        ev = [e for e in self.ev if e["op"] == "set" and e["r"] == y.idx]
        if not ev:
            leaves = [e for e in self.ev if e["op"] in ("leaf", "def")]
            ev = [leaves[y.idx - 1]]
        self.ev.append(dict(ev[-1], op="set", r=x.idx))
        if self.rng.random() < .5:
            self.jostle(x)
        x.obj["c"] = y.obj.copy()["c"]
        if self.rng.random() < .5:
            self.jostle(x)
        x.D, x.B, x.deg = y.D, y.B, list(y.deg)

    def iterate(self, subs, dsubs, taus):
        rng, P = self.rng, self.P
        kw = self.solve_options()
        try:
            solver = P.build_solver(**kw)
        except NotImplementedError:
            return self.count("solve_unsupported")
        except Exception:
            self.act("building a solver", lambda: P.build_solver(**kw))
            raise
        if len(solver.subproblems) > 120:
            return self.count("solve_big")
        for rep in range(rng.choice([1, 2, 3, 3])):
            if rep:
                # other data, within the degrees of the first
                for old, y in subs + dsubs:
                    if old not in taus and not any(old is self.perts[self.vars.index(t)] for t in taus) and rng.random() < .7:
                        self.fill(y, "set", list(self.first[y.idx]), dens=(1, y.D))
                        if rng.random() < .3:
                            self.jostle(y)
                if rng.random() < .3:
                    for _, y in dsubs:
                        self.clear(y)
            else:
                self.first = {y.idx: list(y.deg) for _, y in subs + dsubs}
            for x, y in subs:
                self.assign(x, y)
            # later iterations start from the matrices the earlier ones left
            ready = not rep or rng.random() < .3
            if ready:
                if not self.build(solver, ["dF"]):
                    return
                if self.condition_number(solver, "dF") > COND:
                    return self.count("newton_singular")
            for l in self.leaves():
                if rng.random() < .3:
                    self.jostle(l)
            damp = rng.choice([(1, 1), (1, 1), (1, 2), (3, 2), (2, 1)])
            n = solver.iteration
            if damp == (1, 1) and rng.random() < .7:
                it = solver.newton_iteration
            else:
                it = lambda: solver.newton_iteration(damping=damp[0] / damp[1])
            try:
                it()
            except Exception as e:
                if not ready and (not self.build(solver, ["dF"]) or self.condition_number(solver, "dF") > COND):
                    return self.count("newton_singular")

                def again():
                    raise e
                self.act("iterating", again)
            if not ready and self.condition_number(solver, "dF") > COND:
                return self.count("newton_singular")
            vals = []
            for j, (x, y) in enumerate(subs):
                d = dsubs[[p for p, _ in dsubs].index(self.perts[self.vars.index(x)])][1]
                like = calc.Reg(0, None, "leaf")
                like.deg = [max(a, b) for a, b in zip(y.deg, d.deg)]
                like.D = calc.lcm(y.D, d.D) * damp[1]
                vals.append(self.value_of(x, like))
            self.ev.append({"op": "newton", "vals": vals, "eqs": [[e["regs"]["F"].idx] for e in P.equations], "taus": [t.idx for t in taus], "damp": list(damp), "iter": int(solver.iteration), "iter0": int(n)})
            self.count("newton")
            self.count("newton_nonlinear" if not all(self.linear(r) for r in self.lefts) else "newton_linear")

    def clear(self, y):
        """Give a field the value zero."""
        n = int(np.prod(self.dims(y.sig)))
        y.obj["c"] = 0
        self.ev.append({"op": "set", "r": y.idx, "sig": list(y.sig), "dom": y.dom, "den": 1, "v": [[] for _ in range(n)], "pi": 0, "s": y.s})
        y.D = 1

    def zero_like(self, x):
        obj = self.G.dist.Field(bases=tuple(b for b in x.obj.domain.bases if b is not None), tensorsig=x.obj.tensorsig, name="z%d" % (len(self.regs) + 1))
        y = calc.Reg(len(self.regs) + 1, obj, "leaf")
        y.sig, y.dom, y.s, y.style, y.deg, y.D, y.B = x.sig, x.dom, x.s, x.style, list(x.deg), 1, 1
        y.final = True
        self.regs.append(y)
        n = int(np.prod(self.dims(x.sig)))
        self.ev.append({"op": "leaf", "sig": list(x.sig), "dom": x.dom, "den": 1, "v": [[] for _ in range(n)], "pi": 0, "s": x.s})
        return y

    def kind_of(self, i, style):
        G = self.G
        bases, dom = [], [False] * G.nax
        for j, (f, b) in enumerate(zip(G.factors, G.bases)):
            if j == i:
                bases.append(b[style][0])
                for a, x in zip(f.axes, b[style][1]):
                    dom[a] = x
                s = b[style][3]
            else:
                bases.append(b)
                dom[f.axes[0]] = True
        return bases, dom, s, style

    def nonlinear_term(self, x):
        rng = self.rng
        if rng.random() < .5:
            # products and powers grown at random
            ok = [r for r in self.regs if self.ok_side(r) and r.safe and not r.final and not r.num and not r.pi and not r.s and r.nd <= 2 and r.sig == x.sig and r.dom == x.dom and r.f != "leaf"
                  and self.has(r, self.vars) and self.addable(r, x) and not any(y.f == "lift" for y in self.under(r))]
            ok = [r for r in ok if not self.linear(r)]
            if ok:
                return rng.choice(ok)
        ok = [r for r in self.regs if self.ok_side(r) and r.safe and not r.final and not r.num and not r.pi and not r.s and r.nd <= 1 and self.has(r, self.vars) and not any(y.f == "lift" for y in self.under(r))]
        pairs = [(a, b) for a in ok for b in ok if a.sig + b.sig == x.sig and self.fits(x.sig, [i + j for i, j in zip(a.deg, b.deg)]) and a.B * b.B < 2e3]
        rng.shuffle(pairs)
        for a, b in pairs[:6]:
            t = self.m_mul(a, b)
            if t.dom == x.dom and self.addable(t, x):
                return t
        return None

    def extras(self, x):
        """Further terms: combinations of registers linear in the variables, or products with parameters."""
        rng = self.rng
        out = []
        nl = self.cls == "NLBVP" and self.curv() is None
        for _ in range(rng.choice([1, 1, 2, 3] if nl else [0, 0, 1, 1, 2])):
            for _ in range(rng.randint(0, 5)):
                self.grow()
            if rng.random() < (.2 if nl else .5):
                a = rng.choice([r for r in self.params if not r.sig and not r.s] or [None])
                if a is not None and self.addable(a, x) and not x.s and a.B * x.B < 1e5 and self.fits(x.sig, [i + j for i, j in zip(a.deg, x.deg)]):
                    t = self.m_mul(a, x)
                    if t.dom == x.dom:
                        out.append(t)
                continue
            if nl and rng.random() < .8:
                t = self.nonlinear_term(x)
                if t is not None:
                    out.append(t)
                    continue
            cand = [r for r in self.regs if self.ok_side(r) and r.safe and not r.final and not r.num and r.sig == x.sig and r.dom == x.dom and r.s == x.s and not r.pi and r.nd <= 2 and self.addable(r, x)
                    and self.has(r, self.vars) and (nl or self.linear(r))]
            if cand:
                out.append(rng.choice(cand[-4:]))
        return out


def drive(seed, n, kind, mode, steps):
    traces, stats = [], {}
    for t in range(n):
        rng = random.Random("solve/%s/%s/%s/%d" % (seed, kind, mode, t))
        if kind == "cart":
            G, cap = geo.cartesian(rng, d3)
        else:
            G, cap = geo.curvilinear(rng, d3, kind=kind)
        w = SolveDrive(rng, G, cap, mode)
        try:
            if mode == "sq":
                w.start()
                w.todo, w.filtered = list(w.vars), set()
                for _ in range(rng.randint(2, 14)):
                    w.grow()
                for _ in range(steps):
                    w.sq_step()
                    if not w.todo:
                        w.assembled()
                        break
            else:
                getattr(w, mode)()
        except Stop:
            pass
        tr = w.trace
        tr["kind"] = kind
        traces.append(tr)
        for k, v in w.stats.items():
            stats[k] = stats.get(k, 0) + v
    return {"traces": traces, "stats": stats}
