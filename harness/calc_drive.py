"""Drivers of the Calc machine: histories of definitions, evaluations, handlers, user functions and
symbolic transformations on real expressions, recorded for spec/CalcTrace.tla."""
import math, random, traceback
from numbers import Number
from ded import np, d3
from dedalus.core import operators as ops, field as fld, evaluator as evm
import geo, calc

PLAIN_UNSAFE = {"id", "bip"}     # operators without symbolic transformations


class Drive(calc.World):
    def __init__(self, rng, G, cap, mode):
        super().__init__(rng, G, cap)
        self.mode = mode
        self.E = evm.Evaluator(G.dist, {})
        self.handlers = []
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- guarded actions ----------------------------------------------------------------------
    def act(self, what, fn):
        try:
            return fn()
        except Exception as e:
            if type(e).__name__ == "Refused":
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ev.append({"op": "err", "what": what, "type": type(e).__name__, "msg": str(e)[:200], "at": "%s:%s" % (tb.filename.rsplit("/", 1)[-1], tb.name)})
            raise Stop()

    def same(self, what, want, got):
        self.ev.append({"op": "same", "what": what, "want": want, "got": got})

    def define(self, f, args, p, q, new, build, key=None):
        new["safe"] = new.get("safe", True) and f not in PLAIN_UNSAFE and all(a.safe for a in args)
        if f in ("integ", "ave", "rmean"):   # parts of the operand that are constant along the coordinate cannot be integrated
            gone = [a for a in range(self.G.nax) if args[0].dom[a] and not new["dom"][a]]
            new["safe"] = new["safe"] and all(x.dom[a] and x.f != "addnum" for x in self.under(args[0]) for a in gone)
        r = super().define(f, args, p, q, new, lambda: self.act("defining " + f, build), key)
        if r is not None:
            self.count(f)
        return r

    def evaluate(self, r):
        v = self.act("evaluating " + r.f, lambda: self.value(r))
        return v

    def obs(self, pairs):
        self.act("reading", lambda: self.observe(pairs))

    def leaves(self):
        return [r for r in self.regs if r.leaf]

    def nodes(self):
        return [r for r in self.regs if not r.leaf]

    # -- plain --------------------------------------------------------------------------------
    def plain_step(self):
        r = self.node()
        if r is None:
            return
        if self.rng.random() < .3:
            self.jostle(self.rng.choice(self.leaves()))
        self.obs([(r, self.evaluate(r))])

    # -- evaluation in any order, state and grouping ----------------------------------------------
    def refill(self):
        """New data for a leaf, within the bounds the expressions using it were built for."""
        rng = self.rng
        r = rng.choice(self.leaves())
        deg, D, B = list(r.deg), r.D, r.B
        for _ in range(12):
            n = len(self.ev)
            mark = rng.getstate()
            tmp = r.obj.copy()
            keep, r.obj = r.obj, tmp
            self.fill(r, "set", deg)
            r.obj = keep
            ok = r.B <= B and D % r.D == 0 and all(i <= j for i, j in zip(r.deg, deg))
            r.deg, r.D, r.B = deg, D, B
            if not ok:
                del self.ev[n:]
                continue
            how = rng.choice(["g", "c", "copy", "scaled"])
            if how == "g":
                tmp.change_scales(1)
                r.obj.change_scales(1)
                r.obj["g"] = tmp["g"]
            elif how == "c":
                r.obj["c"] = tmp["c"]
            elif how == "copy":
                lay = rng.choice(self.G.dist.layouts)
                tmp.change_scales(1)
                r.obj.preset_scales(1)
                r.obj.preset_layout(lay)
                tmp.change_layout(lay)
                r.obj.data[...] = tmp.data
            else:
                tmp.change_scales(2)
                r.obj.change_scales(2)
                r.obj["g"] = tmp["g"]
            self.count("set_" + how)
            return True

    def eval_step(self):
        rng = self.rng
        k = rng.random()
        if k < .34:
            self.node()
        elif k < .44:
            self.jostle(rng.choice(self.leaves()))
        elif k < .58:
            self.refill()
        elif k < .8:
            r = rng.choice(self.nodes() or self.leaves())
            if r.num:
                return
            if isinstance(r.obj, fld.Field):
                self.obs([(r, r.obj)])
                return
            style = rng.choice(["eval", "eval", "twice", "item", "id"])
            if style == "item":
                lay = rng.choice(["g", "c"])
                data = self.act("indexing " + r.f, lambda: np.array(r.obj[lay]))
                v = self.evaluate(r)
                w = v.copy()
                self.same("indexed data", "equal", "equal" if self.act("layout", lambda: np.allclose(w[lay], data, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(data), initial=0)))) else "different")
            elif style == "id":
                v = self.act("evaluating " + r.f, lambda: r.obj.evaluate(id=rng.randint(1, 3) + 10 * len(self.ev)))
            else:
                v = self.evaluate(r)
                if style == "twice":
                    v = self.evaluate(r)
            pairs = [(r, v)]
            if rng.random() < .5:
                l = rng.choice(self.leaves())
                pairs.append((l, l.obj))
            self.obs(pairs)
            self.count("evaluate")
            if rng.random() < .3:    # the result is the caller's to modify
                v.data[...] = 7
                if rng.random() < .5:
                    v.change_scales(rng.choice([1, 2]))
        else:
            self.handle()

    def handle(self):
        """Add to and evaluate dictionary handlers."""
        rng = self.rng
        lay = lambda: rng.choice(["g", "c", rng.randrange(len(self.G.dist.layouts))])
        if not self.handlers or rng.random() < .25 and len(self.handlers) < 3:
            self.handlers.append((self.E.add_dictionary_handler(), []))
        for h, tasks in self.handlers:
            if not tasks or rng.random() < .3 and len(tasks) < 5:
                cand = [r for r in self.regs if not r.num and (self.mode != "user" or r.f != "id")]
                for _ in range(rng.randint(1, 2)):
                    r = rng.choice(cand)
                    l, s, name = lay(), rng.choice([None, 1, 1.5, 2, "tuple"]), "t%d" % len(tasks)
                    if s == "tuple":
                        s = tuple(rng.choice([1, 1.5]) for _ in range(self.G.nax)) if not self.G.curv else (1.5,) * self.G.nax
                    lobj = self.G.dist.layouts[l] if isinstance(l, int) else l
                    self.act("adding task", lambda: h.add_task(r.obj, layout=lobj, name=name, scales=s))
                    tasks.append((r, lobj, s, name))
        chosen = rng.sample(self.handlers, rng.randint(1, len(self.handlers)))
        self.act("evaluating handlers", lambda: self.E.evaluate_handlers([h for h, _ in chosen], timestep=0.1, wall_time=0., sim_time=0., iteration=0, world_time=0.) if rng.random() < 2 else None)
        pairs = []
        for h, tasks in chosen:
            for r, l, s, name in tasks:
                f = self.act("reading handler", lambda: h[name])
                want = [str(self.G.dist.get_layout_object(l).index), str(tuple(float(x) for x in self.G.dist.remedy_scales(s)))]
                self.same("task layout and scales", want, [str(f.layout.index), str(tuple(float(x) for x in f.scales))])
                pairs.append((r, f))
        pairs = [pairs[i] for i in sorted(rng.sample(range(len(pairs)), min(4, len(pairs))))]
        l = rng.choice(self.leaves())
        pairs.append((l, l.obj))
        self.obs(pairs)
        self.count("handlers")

    # -- user functions and locks -------------------------------------------------------------------
    # -- every operator on the results of chains of derivatives --------------------------------------
    aim = None
    FIRST = ["grad", "lap", "div", "curl", "grad", "dot", "cross", "trace", "skew", "trans", "mul", "d"]
    LAST = ["surf", "surf", "integ", "ave", "rmean", "interp", "radial", "azim", "angular", "grad", "div", "curl", "lap", "trace", "trans", "skew", "dot", "cross", "mul", "comp", "d", "pow"]

    def chain_step(self):
        rng = self.rng
        two = ("mul", "dot", "cross", "add", "subt")
        r = rng.choice(self.leaves())
        try:
            for f in [rng.choice(self.FIRST[:5] if i else self.FIRST) for i in range(rng.choice([1, 2, 2]))]:
                self.aim = [f]
                x = r
                r = self.node(tries=12, r_ok=lambda y: y is x or f in two and y.leaf) or r
            if r.leaf or r.num or r.final:
                return
            todo = [r]
            for f in rng.sample(self.LAST, 7):
                self.aim = [f]
                n = self.node(tries=8, r_ok=lambda y: y is r or f in two and y.leaf)
                if n is not None and r in n.a:
                    todo.append(n)
                    self.count("chain_" + f)
        finally:
            self.aim = None
        for n in todo:
            if self.rng.random() < .3:
                self.jostle(rng.choice(self.leaves()))
            self.obs([(n, self.evaluate(n))])

    def opnames(self):
        if self.aim:
            return self.aim
        base = super().opnames()
        return base + ["poly"] * 5 + ["bip"] * 6 + ["id"] * 6 if self.mode == "user" else base

    def userop(self, f, A, new, regs):
        rng, G, c = self.rng, self.G, self.curv()
        if c is not None and any(G.systems[k - 1][2] for k in A.sig) and f != "id":
            return None
        if f == "poly":
            n = rng.choice([1, 2, 2, 3])
            cs = [rng.randint(-1, 2) for _ in range(n + 1)]
            cs[-1] = cs[-1] or 1
            if A.pi:
                return None
            d = len(cs) - 1
            B = sum(abs(x) * A.B ** i * A.D ** (d - i) * self.nfgrow(A.s, i * self.curvdeg(A)) for i, x in enumerate(cs))
            new.update(deg=[d * x for x in A.deg], B=B, D=A.D ** d, safe=False)

            def func(x, out):
                r = 0 * x + cs[-1]
                for a in reversed(cs[:-1]):
                    r = r * x + a
                out[...] = r
            if cs == [0, 0, 1]:
                return [A], cs, lambda: np.square(A.obj)
            return [A], cs, lambda: d3.UnaryGridFunction(func, A.obj)
        if f == "bip":
            C = [r for r in regs if r.sig == A.sig and r.pi == A.pi == 0 and r.s == A.s and r.dom == A.dom and not (r.f == "id" or A.f == "id")]
            B = rng.choice(C)
            lay = G.dist.grid_layout
            a, b, e = rng.randint(-1, 1), rng.randint(-2, 2), rng.choice([-1, 1, 2])
            if rng.random() < .4 and A.obj.domain == B.obj.domain:
                lay = rng.choice(G.dist.layouts)
                if lay is not G.dist.grid_layout:
                    a = 0
            deg = [i + j if a else max(i, j) for i, j in zip(A.deg, B.deg)]
            new.update(deg=deg, D=A.D * B.D, B=(abs(a) + abs(b) + abs(e)) * max(A.B, A.D) * max(B.B, B.D) * self.nfgrow(A.s, self.curvdeg(A) + self.curvdeg(B)), safe=False)

            def func(x, y, k=0, c=0):
                want = tuple(A.obj.domain.dealias)
                for z in (x, y):
                    if z.layout is not lay or tuple(z.scales) != want:
                        raise RuntimeError("argument not in the declared layout on the dealias grid")
                return a * x.data * y.data + b * x.data + c * y.data

            def build():
                dom = (A.obj * B.obj).domain if a or A.obj.domain != B.obj.domain else A.obj.domain
                if A.obj.domain != B.obj.domain and not a:
                    dom = (A.obj + B.obj).domain
                return d3.GeneralFunction(G.dist, dom, tuple(A.obj.tensorsig), A.obj.dtype, rng.choice([lay] + (["g"] if lay is G.dist.grid_layout else [])), func, args=[A.obj, B.obj], kw={"c": e})
            return [A, B], [a, b, e], build
        if f == "id":
            if A.f == "id":
                return None
            L = G.dist.layouts
            how = rng.choice(["grid", "coeff", "some", "some"])
            some = rng.sample(L, rng.randint(1, len(L)))
            idx = {"grid": [len(L) - 1], "coeff": [0]}.get(how) or [l.index for l in some]
            new.update(safe=False, allowed=idx)
            if how != "grid":
                new.update(final=True)
            return [A], [], {"grid": lambda: d3.Grid(A.obj), "coeff": lambda: d3.Coeff(A.obj), "some": lambda: ops.Lock(A.obj, *some)}[how]
        return None

    def node(self, tries=60, r_ok=None):
        if self.mode == "user" and r_ok is None:
            r_ok = lambda r: r.f != "id" or self.rng.random() < .5
        return super().node(tries, r_ok)

    def user_step(self):
        rng = self.rng
        r = self.node()
        if r is None:
            return
        if rng.random() < .4:
            self.jostle(rng.choice(self.leaves()))
        if rng.random() < .2:
            self.handle()
            return
        v = self.evaluate(r)
        if r.f != "id":
            self.obs([(r, v)])
        else:
            self.locked(r, v)
        if rng.random() < .4:
            self.refill()
            n = rng.choice(self.nodes())
            if n.f != "id" and not n.num and not n.final:
                self.obs([(n, self.evaluate(n))])

    def locked(self, r, L):
        rng, dist = self.rng, self.G.dist
        self.same("locked layout permitted", True, L.layout.index in r.allowed)
        for _ in range(rng.randint(0, 3)):
            frm, to = L.layout.index, rng.randrange(len(dist.layouts))
            try:
                {0: lambda: L.change_layout(dist.layouts[to]), 1: lambda: L[dist.layouts[to]]}[rng.randrange(2)]()
                res = True
            except ValueError:
                res = False
            self.ev.append({"op": "lock", "allowed": sorted(r.allowed), "frm": frm, "to": to, "res": res, "now": L.layout.index})
        if rng.random() < .4:
            now = tuple(L.scales)
            want = rng.choice([now, tuple(2 * x for x in now)])
            try:
                L.change_scales(want)
                res = True
            except ValueError:
                res = False
            self.same("locked scales change only to themselves", want == now, res)
            self.same("locked scales kept", list(map(str, now)), list(map(str, L.scales)))
        U = self.act("unlocking", lambda: L.unlock())
        self.obs([(r, U)])

    # -- symbolic transformations ----------------------------------------------------------------------
    def sym_step(self):
        rng = self.rng
        if rng.random() < .55 or not self.nodes():
            r = self.node(r_ok=lambda r: r.safe or rng.random() < .1)
            if r is not None:
                self.obs([(r, self.evaluate(r))]) if rng.random() < .2 else None
            return
        cand = [r for r in self.nodes() if r.safe and not r.num and not isinstance(r.obj, fld.Field)]
        if not cand:
            return
        r = rng.choice(cand[-4:])
        under = self.under(r)
        lv = [x for x in under if x.leaf]
        anyleaf = self.leaves()
        vs = rng.sample(anyleaf, min(len(anyleaf), rng.randint(1, 2)))
        if rng.random() < .8:
            vs = list({x.idx: x for x in [rng.choice(lv)] + (vs[:1] if rng.random() < .4 else [])}.values())
        olds = list(vs)
        if rng.random() < .3:
            olds = [rng.choice([x for x in under if x.safe and not x.num])]
        leafvs = [x for x in vs if x.leaf]
        kind = rng.choice(["split", "split", "repl", "repl", "frechet", "frechet", "has", "lin", "lin", "same", "same", "dt"])
        if kind == "dt":
            return self.time_derivatives()
        new = dict(sig=r.sig, dom=list(r.dom), deg=list(r.deg), B=r.B, D=r.D, pi=r.pi, s=r.s, chk=False, safe=False, final=True)
        if kind == "has":
            self.ev.append({"op": "has", "r": r.idx, "vars": [x.idx for x in vs], "res": bool(self.act("has", lambda: r.obj.has(*[x.obj for x in vs])))})
        elif kind == "lin":
            aff = rng.random() < .4
            if rng.random() < .7:
                vs = [rng.choice(lv)]
            vs = [x for x in vs if x.leaf] or [rng.choice(lv)]

            class Refused(Exception):
                pass
            try:
                r.obj.require_linearity(*[x.obj for x in vs], allow_affine=aff, error=Refused)
                res = True
            except Refused:
                res = False
            except Exception:
                self.act("require_linearity", lambda: r.obj.require_linearity(*[x.obj for x in vs], allow_affine=aff, error=Refused))
                raise
            self.ev.append({"op": "lin", "r": r.idx, "vars": [x.idx for x in vs], "aff": aff, "res": res})
        elif kind == "split":
            if not leafvs:
                return
            parts = self.act("splitting", lambda: r.obj.split(*[x.obj for x in leafvs]))
            p = [x.idx for x in leafvs]
            w = self.transformed("with", [r], p, [], dict(new, B=2 * r.B), parts[0])
            o = self.transformed("without", [r], p, [], dict(new), parts[1])
            self.see(w)
            self.see(o)
            for part, has in ((parts[0], None), (parts[1], False)):
                if has is False and not isinstance(part, Number):
                    self.same("part without the operands has none of them", False, bool(part.has(*[x.obj for x in leafvs])))
        elif kind == "repl":
            old = rng.choice(olds)
            subs = [x for x in self.regs if not x.num and not x.final and x.sig == old.sig and x.dom == old.dom and x.pi == old.pi and x.s == old.s and x is not old
                    and all(i <= j for i, j in zip(x.deg, old.deg)) and x.B <= old.B and old.D % x.D == 0]
            if not subs:
                return
            sub = rng.choice(subs)
            obj = self.act("replacing", lambda: r.obj.replace(old.obj, sub.obj))
            n = self.transformed("repl", [r, old, sub], [], [], new, obj)
            self.see(n)
        elif kind == "frechet":
            if not leafvs:
                return
            perts = []
            for x in leafvs:
                n0 = len(self.ev)
                y = self.twin(x)
                perts.append(y)
            obj = self.act("differentiating", lambda: r.obj.frechet_differential([x.obj for x in leafvs], [y.obj for y in perts]))
            n = self.transformed("frechet", [r], [x.idx for x in leafvs], [y.idx for y in perts], dict(new, B=r.B * 12), obj)
            self.see(n)
        else:
            how = rng.choice(["reinit", "expand"])
            if how == "reinit":
                obj = self.act("reinitializing", lambda: r.obj.reinitialize())
            else:
                obj = self.act("expanding", lambda: r.obj.expand(*[x.obj for x in leafvs or vs]))
            self.see(self.transformed("same", [r], [], [], new, obj))
        self.count("sym_" + kind)

    def time_derivatives(self):
        """Split, replace, and require first order in time derivatives."""
        rng = self.rng
        dt = ops.TimeDerivative
        cand = [x for x in self.regs if not x.num and x.safe and not x.final and not x.pi and not x.s]
        if not cand:
            return
        k = rng.randint(1, 3)
        cur = []
        for i in range(k):                                  # a combination of nodes below and above derivatives
            x = rng.choice(cand)
            d = self.define_dt(x)
            y = rng.choice([x, d, d])
            if rng.random() < .3:
                y = self.define_dt(y)
            if rng.random() < .4 and not y.sig:
                y = self.raw("pow", [y], [2], dict(sig=(), deg=[2 * v for v in y.deg], B=y.B ** 2, D=y.D ** 2), lambda: y.obj ** 2)
            elif rng.random() < .5:
                n = rng.choice([2, 3])
                y = self.raw("scale", [y], [n, 0, 1], dict(sig=y.sig, deg=list(y.deg), B=n * y.B, D=y.D), lambda: n * y.obj)
            cur.append(y)
            cand2 = [x for x in cand if x.sig == cur[0].sig and x.dom == cur[0].dom]
            cand = cand2 or cand
        r = cur[0]
        for y in cur[1:]:
            if y.sig == r.sig and y.dom == r.dom:
                a, b = r, y
                r = self.raw("add", [a, b], [], dict(sig=a.sig, deg=[max(i, j) for i, j in zip(a.deg, b.deg)], B=a.B + b.B, D=calc.lcm(a.D, b.D)), lambda: a.obj + b.obj)
        if not self.fits(r.sig, r.deg) or r.B * r.D > 1e8 or isinstance(r.obj, fld.Field):
            return
        lv = rng.choice([x for x in self.under(r) if x.leaf] + self.leaves())
        self.ev.append({"op": "has", "r": r.idx, "vars": [0], "res": bool(r.obj.has(dt))})
        self.ev.append({"op": "has", "r": r.idx, "vars": [0, lv.idx], "res": bool(r.obj.has(dt, lv.obj))})

        class Refused(Exception):
            pass
        try:
            self.act("require_first_order", lambda: self._passing(r.obj.require_first_order, dt, Refused))
            res = True
        except Refused:
            res = False
        self.ev.append({"op": "fo", "r": r.idx, "res": res})
        if isinstance(r.obj, calc.fut.Future):
            M, L = self.act("splitting time derivatives", lambda: r.obj.split(dt))
            for part, f in ((M, "with"), (L, "without")):
                if not isinstance(part, Number):
                    part = self.act("replacing time derivatives", lambda: part.replace(dt, lambda x: x))
                n = self.transformed(f, [r], [0], [], dict(sig=r.sig, dom=list(r.dom), deg=list(r.deg), B=2 * r.B, D=r.D, pi=r.pi, s=r.s, chk=False, safe=False, final=True), part)
                self.see(n)
        self.count("sym_dt")

    class _Skip(Exception):
        pass

    def _passing(self, fn, dt, Refused):
        return fn(dt, error=Refused)

    def define_dt(self, x):
        return self.raw("dt", [x], [], dict(sig=x.sig, deg=list(x.deg), B=x.B, D=x.D), lambda: ops.TimeDerivative(x.obj))

    def raw(self, f, args, p, new, build):
        obj = self.act("defining " + f, build)
        return self.transformed(f, args, p, [], dict(dict(dom=list(args[0].dom), pi=args[0].pi, s=args[0].s, safe=False, final=True), **new), obj)

    def transformed(self, f, args, p, q, new, obj):
        r = calc.Reg(len(self.regs) + 1, obj, f, args, p, q)
        for k, v in new.items():
            setattr(r, k, v)
        self.regs.append(r)
        self.ev.append({"op": "def", "f": f, "a": [a.idx for a in args], "p": list(p), "q": list(q)})
        return r

    def see(self, r):
        """Observe a transformed register; its bound must leave room for rounding."""
        self.obs([(r, self.evaluate(r))])

    def twin(self, x):
        """A leaf of the same kind as x with other data, within its bounds."""
        obj = self.G.dist.Field(bases=tuple(b for b in x.obj.domain.bases if b is not None), tensorsig=x.obj.tensorsig, name="p%d" % (len(self.regs) + 1))
        y = calc.Reg(len(self.regs) + 1, obj, "leaf")
        y.sig, y.dom, y.s, y.style = x.sig, x.dom, x.s, x.style
        y.final = True
        self.regs.append(y)
        self.fill(y, "leaf", list(x.deg), dens=(1, x.D))
        return y

    def under(self, r):
        out, todo = {}, [r]
        while todo:
            x = todo.pop()
            if x.idx not in out:
                out[x.idx] = x
                todo.extend(x.a)
        return list(out.values())


class Stop(Exception):
    pass


def drive(seed, n, kind, mode, steps):
    traces, stats = [], {}
    for t in range(n):
        rng = random.Random("%s/%s/%s/%d" % (seed, kind, mode, t))
        if kind == "cart":
            G, cap = geo.cartesian(rng, d3)
        else:
            G, cap = geo.curvilinear(rng, d3, kind=kind)
        w = Drive(rng, G, cap, mode)
        w.rich = mode == "chain" and rng.random() < .8
        try:
            for _ in range(3):
                w.leaf()
            for _ in range(steps):
                getattr(w, mode + "_step")()
        except Stop:
            pass
        tr = w.trace
        tr["kind"] = kind
        traces.append(tr)
        for k, v in w.stats.items():
            stats[k] = stats.get(k, 0) + v
    return {"traces": traces, "stats": stats}
