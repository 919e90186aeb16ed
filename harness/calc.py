"""The Calc machine: random histories of real fields and operator expressions, recorded for
spec/CalcTrace.tla.  A register mirrors one register of the specification; for each the driver
tracks only what it needs to stay inside the exactly representable range (degrees, a bound on the
coefficients, their common denominator), never values."""
import math
import random
from fractions import Fraction
from ded import np, d3
from dedalus.core import operators as ops, arithmetic as ar, field as fld, future as fut
from dedalus.core.evaluator import Evaluator
import geo
from numbers import Number

BMAX, DMAX = 3e6, 4000


def lcm(a, b):
    return a * b // math.gcd(a, b)


class Reg:
    def __init__(self, idx, obj, f, a=(), p=(), q=()):
        self.idx, self.obj, self.f, self.a, self.p, self.q = idx, obj, f, list(a), list(p), list(q)
        self.num = isinstance(obj, Number)
        self.sig, self.dom, self.deg, self.B, self.D, self.pi, self.s = (), [], [], 1, 1, 0, 0
        self.leaf = f == "leaf"
        self.nd = 0            # differentiations it is the result of
        self.chk = True        # compare the recorded constancy exactly
        self.final = False     # not to be used as an argument
        self.safe = True       # inside of the class of nodes symbolic transformations are applied to


class World:
    """A geometry with its pool of registers and the recorded events."""

    def __init__(self, rng, G, cap, feats=()):
        self.rng, self.G, self.cap, self.feats = rng, G, cap, set(feats)
        self.regs, self.ev = [], []
        self.keys = {}
        self.handlers = None
        self.problems = []
        self.refused = []

    @property
    def trace(self):
        return {"cfg": self.G.cfg, "ev": self.ev}

    # -- helpers ------------------------------------------------------------------------------
    def dims(self, sig):
        return [len(self.G.systems[c - 1][1]) for c in sig]

    def kapmax(self):
        return max([f.kap for f in self.G.factors if isinstance(f, geo.Four)], default=1)

    def growth(self, r):
        """Bound of the growth of the coefficients in one differentiation."""
        return max([(f.kap if isinstance(f, geo.Four) else 1) * max(1, d) for f, d in zip(self.G.factors, r.deg)], default=1)

    def full(self, r):
        return all(r.dom)

    def curv(self):
        return self.G.factors[self.G.curv[0]] if self.G.curv else None

    def nfgrow(self, s, deg):
        c = self.curv()
        if c is None or not s:
            return 1
        return (s + c.nvars - 1) ** ((deg + 1) // 2)

    def curvdeg(self, r):
        return r.deg[self.G.curv[0]] if self.G.curv else 0

    # -- leaves -------------------------------------------------------------------------------
    def domains(self):
        """Random choice of nonconstant axes, bases, surface."""
        G, rng = self.G, self.rng
        bases, dom, s, style = [], [False] * G.nax, 0, "full"
        for f, b in zip(G.factors, G.bases):
            if f.curved:
                opts = b
                style = rng.choice([o for o in opts for _ in range(opts[o][2])])
                basis, fl = opts[style][0], opts[style][1]
                s = opts[style][3]
                if basis is not None:
                    bases.append(basis)
                for a, x in zip(f.axes, fl):
                    dom[a] = x
            elif rng.random() < 0.8:
                bases.append(b)
                dom[f.axes[0]] = True
        return bases, dom, s, style

    def random_sig(self, style, maxrank=2):
        rng, G = self.rng, self.G
        if style == "const":
            rank = 0
        else:
            rank = rng.choice([0, 0, 0, 1, 1, 1, 2][:5 + maxrank])
        pool = [i + 1 for i in range(len(G.systems)) if G.systems[i][3]]
        if rank == 2 and rng.random() < 0.75:
            c = rng.choice(pool)
            return (c, c)
        return tuple(rng.choice(pool) for _ in range(rank))

    def leaf(self, sig=None, kind=None):
        bases, dom, s, style = kind or self.domains()
        if sig is None:
            sig = self.random_sig(style)
        # components along curvilinear axes need the curvilinear basis
        G = self.G
        c = self.curv()
        if c is not None and style == "const" and any(G.systems[k - 1][2] for k in sig):
            sig = tuple(k for k in sig if not G.systems[k - 1][2])
        obj = G.dist.Field(bases=tuple(bases), tensorsig=tuple(G.systems[k - 1][0] for k in sig), name="f%d" % (len(self.regs) + 1))
        r = Reg(len(self.regs) + 1, obj, "leaf")
        r.sig, r.dom, r.s, r.style = sig, dom, s, style
        self.regs.append(r)
        self.fill(r, "leaf")
        return r

    rich = False                               # prefer fields whose derivatives do not vanish

    def fill(self, r, op, within=None, dens=(1, 1, 2)):
        rng, G = self.rng, self.G
        den = rng.choice(dens)
        cap = within or self.cap(len(r.sig))
        small = rng.random() < 0.6
        maxdeg = []
        for f, c in zip(G.factors, cap):
            fl = any(r.dom[a] for a in f.axes)
            maxdeg.append(rng.randint(min(c, 2), min(c, 5)) if fl and self.rich else (rng.randint(0, min(c, 2) if small else c) if rng.random() < .8 else min(c, 2)) if fl else 0)
        n = int(np.prod(self.dims(r.sig)))
        ci = G.curv[0] if G.curv else None
        c = self.curv()
        if r.style == "radial" or (c is not None and c.kind == "sphere" and r.sig):
            comps = self.special(r, maxdeg)
        else:
            comps = [self.poly(r, maxdeg) for _ in range(n)]
        scalecomps = [{e: v / den for e, v in p.items()} for p in comps]
        r.deg = maxdeg
        r.D = den
        r.B = max([sum(abs(v) for v in p.values()) for p in comps] + [1]) * self.nfgrow(r.s, maxdeg[ci] if ci is not None else 0) * 1.5
        G.write(r.obj, scalecomps, r.s)
        v = [[[list(e), int(round(z.real)), int(round(z.imag))] for e, z in p.items()] for p in comps]
        ev = {"op": op, "sig": list(r.sig), "dom": r.dom, "den": den, "v": v, "pi": 0, "s": r.s}
        if op == "set":
            ev["r"] = r.idx
        self.ev.append(ev)

    def poly(self, r, maxdeg, nterms=None):
        rng, G = self.rng, self.G
        p = {}
        for _ in range(nterms or rng.randint(1, 4)):
            e = []
            for f, d in zip(G.factors, maxdeg):
                if isinstance(f, geo.Four):
                    e.append(rng.randint(-d, d))
                elif not f.curved:
                    e.append(rng.randint(0, d))
                else:
                    left = rng.choice([d, max(0, d - 1), rng.randint(0, d)]) if self.rich else rng.randint(0, d)
                    k = [0] * f.nvars
                    if not any(r.dom[a] for a in f.axes):
                        left = 0
                    if r.dom[f.axes[0]] is False and any(r.dom[a] for a in f.axes):
                        left = 0
                    for _ in range(left):
                        k[rng.randrange(f.nvars)] += 1
                    e.extend(k)
            c = rng.choice([-2, -1, 1, 2])
            if G.cplx:
                c = rng.choice([c, c * 1j, c + 1j * rng.choice([-1, 1])])
            elif any(G.cfg["per"][a] and e[a] for a in range(G.n)):
                c = rng.choice([c, c * 1j])
            c = complex(c)
            if G.cplx:
                p[tuple(e)] = p.get(tuple(e), 0) + c
            else:
                g = tuple(-x if per else x for x, per in zip(e, G.cfg["per"]))
                if g == tuple(e):
                    c = complex(round(c.real) or 1)
                    p[g] = p.get(g, 0) + c
                else:
                    p[tuple(e)] = p.get(tuple(e), 0) + c
                    p[g] = p.get(g, 0) + c.conjugate()
        return {e: c for e, c in p.items() if c}

    def special(self, r, maxdeg):
        """Radial fields and tangent fields on the sphere."""
        G, rng = self.G, self.rng
        ci, c = G.curv[0], self.curv()
        v0, nv = G.var0[ci], c.nvars

        def lift(p):   # polynomial of the curved variables times a random factor in the others
            q = self.poly(self._flat(r), [0 if i == ci else m for i, m in enumerate(maxdeg)], 1)
            return geo.poly_mul({(0,) * v0 + e + (0,) * (G.n - v0 - nv): x for e, x in p.items()}, q)
        unit = [tuple(1 if i == k else 0 for i in range(nv)) for k in range(nv)]
        if c.kind == "sphere":
            # x cross W (tangent), tensor products of two of them for rank 2
            def tangent(d):
                W = [self.poly(r, [d]) for _ in range(3)]
                out = []
                for i in range(3):
                    j, k = (i + 1) % 3, (i + 2) % 3
                    out.append(geo.poly_add(geo.poly_mul({unit[j]: 1}, W[k]), geo.poly_mul({unit[k]: 1}, W[j]), -1))
                return out
            d = max(0, maxdeg[ci] - len(r.sig))
            if len(r.sig) == 1:
                maxdeg[ci] = d + 1
                return tangent(d)
            a, b = tangent(min(d, 1)), tangent(0)
            maxdeg[ci] = min(d, 1) + 2
            return [geo.poly_mul(x, y) for x in a for y in b]
        rank = sum(1 for k in r.sig if G.systems[k - 1][2])
        kmax = max(0, (maxdeg[ci] - rank) // 2)

        def rad():
            return lift({e: complex(x) for e, x in geo.poly_mul({(0,) * nv: rng.choice([-2, -1, 1, 2])}, geo.radpow(nv, rng.randint(0, kmax))).items()})
        maxdeg[ci] = 2 * kmax + rank
        out = []
        zero = {}
        # components over a product system: off by the position of the curved variables
        lists = [[k for k in range(len(G.systems[s - 1][1]))] for s in r.sig]
        curvpos = [{i: G.systems[s - 1][1][i] - 1 - v0 for i in range(len(G.systems[s - 1][1])) if v0 <= G.systems[s - 1][1][i] - 1 < v0 + nv} for s in r.sig]
        cache = {}
        import itertools
        dl, ep = rad(), rad() if rng.random() < .5 else {}
        # radial and azimuthal directions per index in the plane
        turn = [rng.choice([(1, 0), (1, 0), (0, 1), (1, -1)]) if nv == 2 else (1, 0) for _ in r.sig]
        full = lambda e: (0,) * v0 + e + (0,) * (G.n - v0 - nv)

        def direction(i, x):
            a, b = turn[i]
            p = {full(unit[x]): a}
            if b:
                p = geo.poly_add(p, {full(unit[1 - x]): b if x else -b})
            return p
        for t in itertools.product(*lists):
            pos = [cp.get(i) for cp, i in zip(curvpos, t)]
            key = tuple(None if x is not None else i for x, i in zip(pos, t))
            g = cache.setdefault(key, rad())
            p = g
            for i, x in enumerate(pos):
                if x is not None:
                    p = geo.poly_mul(p, direction(i, x))
            if len(pos) == 2 and None not in pos and pos[0] == pos[1]:
                p = geo.poly_add(p, dl)
            elif len(pos) == 2 and None not in pos and ep:
                a, b = pos
                p = geo.poly_add(p, ep if nv == 2 else geo.poly_mul(ep, {full(unit[3 - a - b]): 1}), 1 if (b - a) % nv == 1 and (nv == 3 or b > a) else -1)
            out.append(p)
        return out

    def _flat(self, r):
        class _R:
            pass
        x = _R()
        x.dom = [False if any(a in self.G.factors[i].axes for i in self.G.curv) else d for a, d in enumerate(r.dom)]
        return x

    # -- nodes --------------------------------------------------------------------------------
    def fits(self, sig, deg):
        return len(sig) <= 3 and all(d <= c for d, c in zip(deg, self.cap(len(sig)))) and int(np.prod(self.dims(sig))) <= 27

    def propose(self, r_ok=None):
        """A random applicable operation: (f, args, p, result attributes, builder) or None."""
        rng, G = self.rng, self.G
        regs = [r for r in self.regs if not r.num and not r.final and (r_ok is None or r_ok(r))]
        A = rng.choice(regs)
        c = self.curv()
        ci = G.curv[0] if G.curv else None
        sysobj = lambda k: G.systems[k - 1][0]
        iscurv = lambda k: G.systems[k - 1][2] is not None
        names = self.opnames()
        f = rng.choice(names)
        new = dict(sig=A.sig, dom=list(A.dom), deg=list(A.deg), B=A.B, D=A.D, pi=A.pi, s=A.s)
        args, p, q = [A], [], []
        x = A.obj
        usable = [i + 1 for i in range(len(G.systems)) if G.systems[i][3]]
        covers = lambda k: c is None or not iscurv(k) or (all(A.dom[a] for a in c.axes))
        if f in ("add", "subt"):
            C = [r for r in regs if r.sig == A.sig and (r.pi == A.pi) and (r.s == A.s) and self.addable(A, r)]
            B = rng.choice(C)
            args = [A, B]
            new.update(B=A.B + B.B, D=lcm(A.D, B.D), deg=[max(i, j) for i, j in zip(A.deg, B.deg)], dom=[i or j for i, j in zip(A.dom, B.dom)])
            build = (lambda: A.obj + B.obj) if f == "add" else (lambda: A.obj - B.obj)
        elif f == "addnum":
            if A.sig or A.pi:
                return None
            n = rng.choice([-3, -1, 2])
            p = [n]
            new.update(B=A.B + abs(n) * A.D)
            build = rng.choice([lambda: A.obj + n, lambda: n + A.obj])
        elif f == "neg":
            build = lambda: -A.obj
        elif f == "scale":
            re, im, d = rng.choice([-2, 2, 3]), 0, rng.choice([1, 2])
            if G.cplx and rng.random() < .5:
                im = rng.choice([-1, 1])
            p = [re, im, d]
            z = (re + 1j * im) / d if im else re / d
            new.update(B=A.B * (abs(re) + abs(im)), D=A.D * d)
            build = rng.choice([lambda: z * A.obj, lambda: A.obj * z] + ([lambda: A.obj / (1 / z)] if not im and re in (-2, 2) else []))
        elif f in ("mul", "dot", "cross", "had"):
            C = [r for r in regs if r.s == A.s or not r.s and not any(r.dom[a] for a in (c.axes if c else [])) or False]
            if c is not None:
                C = [r for r in regs if self.mulable(A, r)]
            B = rng.choice(C)
            args = [A, B]
            deg = [i + j for i, j in zip(A.deg, B.deg)]
            dom = [i or j for i, j in zip(A.dom, B.dom)]
            s = max(A.s, B.s)
            bd = A.B * B.B * self.nfgrow(s, deg[ci] if ci is not None else 0)
            new.update(deg=deg, dom=dom, D=A.D * B.D, pi=A.pi + B.pi, s=s)
            if f == "mul":
                new.update(sig=A.sig + B.sig, B=bd)
                build = lambda: A.obj * B.obj
            elif f == "had":
                return None
            elif f == "dot":
                if not A.sig or not B.sig:
                    return None
                i, j = (len(A.sig), 1) if rng.random() < .6 else (rng.randint(1, len(A.sig)), rng.randint(1, len(B.sig)))
                if A.sig[i - 1] != B.sig[j - 1]:
                    return None
                m = len(G.systems[A.sig[i - 1] - 1][1])
                p = [i, j]
                new.update(sig=A.sig[:i - 1] + A.sig[i:] + B.sig[:j - 1] + B.sig[j:], B=m * bd)
                if (i, j) == (len(A.sig), 1) and rng.random() < .7:
                    build = lambda: A.obj @ B.obj
                else:
                    ii = i - 1 if rng.random() < .5 else i - 1 - len(A.sig)
                    jj = j - 1 if rng.random() < .5 else j - 1 - len(B.sig)
                    build = lambda: d3.DotProduct(A.obj, B.obj, indices=(ii, jj))
            else:
                if len(A.sig) != 1 or A.sig != B.sig or self.dims(A.sig) != [3] or (c is not None and c.kind == "sphere"):
                    return None
                new.update(sig=A.sig, B=2 * bd)
                build = rng.choice([lambda: d3.cross(A.obj, B.obj), lambda: d3.CrossProduct(A.obj, B.obj)])
        elif f == "pow":
            if A.sig:
                return None
            n = rng.choice([2, 2, 3])
            p = [n]
            new.update(deg=[n * d for d in A.deg], B=A.B ** n * self.nfgrow(A.s, n * self.curvdeg(A)), D=A.D ** n, pi=n * A.pi)
            build = lambda: A.obj ** n
        elif f in ("grad", "lap"):
            k = rng.choice(usable)
            const = c is not None and iscurv(k) and not A.sig and not any(A.dom[a] for a in c.axes)
            if not (covers(k) or const) or A.s and iscurv(k) and not G.surf or c is not None and iscurv(k) and not self.curvable(A, k):
                return None
            p = [k]
            g = self.growth(A)
            m = len(G.systems[k - 1][1])
            fa = lambda r: [max(d - 1, 0) if not isinstance(ff, geo.Four) and len(G.systems[k - 1][1]) == G.n and False else d for ff, d in zip(G.factors, r.deg)]
            deg = list(A.deg)
            if G.surf:
                deg = [A.deg[0] + 1] if f == "grad" else list(A.deg)
            elif ci is not None and iscurv(k) and sum(1 for v in G.systems[k - 1][1]) == c.nvars:
                deg[ci] = max(0, deg[ci] - (1 if f == "grad" else 2))
            sb = (4 ** (len(A.sig) + 1) * 3 ** 2) if G.surf else 1
            if f == "grad":
                new.update(sig=(k,) + A.sig, B=A.B * g * sb, deg=deg)
                build = rng.choice([lambda: d3.grad(A.obj, sysobj(k)), lambda: d3.Gradient(A.obj, sysobj(k))] + ([lambda: d3.grad(A.obj)] if self.single(k) else []))
            else:
                if G.surf and len(A.sig) > 1:
                    return None
                new.update(B=A.B * m * g * g * sb ** 2, deg=deg)
                build = rng.choice([lambda: d3.lap(A.obj, sysobj(k)), lambda: d3.Laplacian(A.obj, sysobj(k))] + ([lambda: d3.lap(A.obj)] if self.single(k) else []))
        elif f in ("div", "curl", "skew", "trans", "trace"):
            if not A.sig:
                return None
            j = 1 if rng.random() < .6 else rng.randint(1, len(A.sig))
            k = A.sig[j - 1]
            jj = j - 1 if rng.random() < .8 else j - 1 - len(A.sig)
            m = len(G.systems[k - 1][1])
            if f == "div":
                if j != 1 and (iscurv(k)) or not covers(k) or A.s and iscurv(k) and not G.surf or iscurv(k) and not self.curvable(A, k):
                    return None
                if iscurv(k):
                    jj = 0
                p = [j]
                deg = list(A.deg)
                if G.surf:
                    deg = [A.deg[0] + 1]
                elif ci is not None and m == c.nvars and iscurv(k):
                    deg[ci] = max(0, deg[ci] - 1)
                new.update(sig=A.sig[:j - 1] + A.sig[j:], B=A.B * m * self.growth(A) * (4 ** (len(A.sig) + 1) * 9 if G.surf else 1), deg=deg)
                build = (lambda: d3.div(A.obj, index=jj)) if jj else rng.choice([lambda: d3.div(A.obj), lambda: d3.Divergence(A.obj, index=0)])
            elif f == "curl":
                if m != 3 or G.surf or iscurv(k) and (j != 1 or not covers(k) or A.s or not self.curvable(A, k)):
                    return None
                if iscurv(k) and c.nvars == 2 and len(A.sig) > 1 or 1 < j < len(A.sig):
                    return None
                if (type(sysobj(k)) is d3.DirectProduct) and len(A.sig) > 1:
                    return None
                if iscurv(k) or type(sysobj(k)) is d3.DirectProduct:
                    jj = 0
                    if j != 1:
                        return None
                p = [j]
                new.update(B=A.B * 2 * self.growth(A))
                build = (lambda: d3.curl(A.obj, index=jj)) if jj else rng.choice([lambda: d3.curl(A.obj), lambda: d3.Curl(A.obj)])
            elif f == "skew":
                if G.surf:
                    new.update(B=A.B * 2 * 9, deg=[A.deg[0] + 1])
                elif m != 2 or isinstance(sysobj(k), d3.DirectProduct):
                    return None
                p = [j]
                build = lambda: d3.skew(A.obj, index=jj)
            elif f == "trans":
                if len(A.sig) < 2 or self.sphsurf(A):
                    return None
                i = rng.choice([x + 1 for x in range(len(A.sig)) if x + 1 != j])
                if A.sig[i - 1] != k or m == 1:
                    return None
                p = [j, i]
                ii = i - 1 if rng.random() < .8 else i - 1 - len(A.sig)
                build = (lambda: d3.trans(A.obj)) if (jj, ii) == (0, 1) and rng.random() < .5 else (lambda: d3.TransposeComponents(A.obj, indices=(jj, ii)))
            else:
                if len(A.sig) < 2 or A.sig[0] != A.sig[1] or G.surf or self.sphsurf(A):   # no trace on the sphere
                    return None
                new.update(sig=A.sig[2:], B=A.B * self.dims(A.sig)[0] * self.nfgrow(A.s, self.curvdeg(A)))
                build = rng.choice([lambda: d3.trace(A.obj), lambda: d3.Trace(A.obj)])
        elif f == "d":
            i = rng.randrange(len(G.factors))
            ff = G.factors[i]
            if ff.curved:
                return None
            v = G.var0[i] + 1
            p = [v]
            co = self.coord(i)
            deg = list(A.deg)
            new.update(B=A.B * max(1, deg[i]) * getattr(ff, "kap", 1))
            build = rng.choice([lambda: d3.Differentiate(A.obj, co)] + ([lambda: self.diffname(A.obj, co)] if hasattr(d3, "d" + co.name) else []))
        elif f == "comp":
            if not A.sig:
                return None
            j = rng.randint(1, len(A.sig))
            cs = sysobj(A.sig[j - 1])
            if not isinstance(cs, (d3.CartesianCoordinates, d3.Coordinate)):
                return None
            k = rng.randint(1, len(cs.coords))
            p = [j, k]
            new.update(sig=A.sig[:j - 1] + A.sig[j:])
            build = lambda: ops.CartesianComponent(A.obj, j - 1, cs.coords[k - 1])
        elif f == "sub_":
            if not A.sig:
                return None
            j = rng.randint(1, len(A.sig))
            cs = sysobj(A.sig[j - 1])
            if not isinstance(cs, d3.DirectProduct):
                return None
            k0 = 0
            opts = []
            for sub in cs.coordsystems:
                opts.append((sub, k0))
                k0 += sub.dim
            sub, k0 = rng.choice(opts)
            k = [i + 1 for i in range(len(G.systems)) if G.systems[i][0] is sub][0]
            p = [j, k, k0]
            new.update(sig=A.sig[:j - 1] + (k,) + A.sig[j:])
            build = lambda: ops.DirectProductComponent(A.obj, j - 1, sub)
        elif f == "interp":
            i = rng.randrange(len(G.factors))
            ff = G.factors[i]
            if ff.curved or not A.dom[ff.axes[0]]:
                return None
            co = self.coord(i)
            if isinstance(ff, geo.Four):
                j = rng.randrange(4)
                p = [G.var0[i] + 1, j, 1]
                pos = j * (2 * np.pi / ff.kap) / 4 + rng.choice([0, 0, 2 * np.pi / ff.kap])
                if abs(pos - ff.x0) < 1e-9 and rng.random() < .5:
                    pos = "left"
            else:
                d = rng.choice([1, 2])
                num = rng.randint(ff.lo * d, ff.hi * d)
                pos = num / d
                g = max(abs(num), d) ** A.deg[i]
                new.update(B=A.B * g, D=A.D * d ** A.deg[i])
                p = [G.var0[i] + 1, num, d]
                if num == ff.lo * d and rng.random() < .5:
                    pos = "left"
                if num == ff.hi * d and rng.random() < .5:
                    pos = "right"
                if 2 * num == (ff.lo + ff.hi) * d and rng.random() < .5:
                    pos = "center"
            new["dom"][ff.axes[0]] = False
            new["deg"][i] = 0
            build = rng.choice([lambda: A.obj(**{co.name: pos}), lambda: d3.Interpolate(A.obj, co, pos), lambda: d3.Interpolate(A.obj, co.name, pos)])
        elif f == "hilb":
            i = rng.randrange(len(G.factors))
            ff = G.factors[i]
            if not isinstance(ff, geo.Four):
                return None
            p = [G.var0[i] + 1]
            build = lambda: ops.HilbertTransform(A.obj, self.coord(i))
        elif f in ("integ", "ave"):
            got = self.integral(A, f, new)
            if got is None:
                return None
            p, build = got
        elif f == "rmean":
            if c is None or A.sig or A.s or not all(A.dom[a] for a in c.axes):
                return None
            m = rng.choice([2, 3] if c.nvars == 3 and c.kind != "sphere" else [2])
            p = [m]
            k = self.curvdeg(A)
            den = math.lcm(*[self.momden(j, m) for j in range(0, k + 1, 2)])
            new.update(B=A.B * 15 * 3 ** ((k + 1) // 2), D=A.D * den)
            cs = self.curvsys()
            new["dom"][c.axes[0]] = False
            if m == 3:
                new["dom"][c.axes[1]] = False
            new["final"] = True
            build = (lambda: d3.Average(A.obj, cs.S2coordsys)) if m == 3 else (lambda: d3.Average(A.obj, cs.coords[0]))
        elif f == "surf":
            if c is None or A.s or c.kind == "sphere" or not all(A.dom[a] for a in c.axes):
                return None
            R = rng.choice([r for r in c.radii if r])
            p = [R * R]
            cs = self.curvsys()
            new.update(s=R * R, B=A.B * self.nfgrow(R * R, self.curvdeg(A)))
            new["dom"][c.axes[-1]] = False
            build = lambda: A.obj(**{cs.coords[-1].name: R})
        elif f in ("radial", "azim", "angular"):
            if c is None or not A.s or G.surf or not A.sig or f == "azim" and c.nvars == 3 or f == "angular" and c.nvars == 2:
                return None
            j = rng.randint(1, len(A.sig))
            k = A.sig[j - 1]
            if len(G.systems[k - 1][1]) != c.nvars or not iscurv(k):
                return None
            jj = j - 1 if rng.random() < .8 else j - 1 - len(A.sig)
            p = [j]
            R = int(math.isqrt(A.s))
            new["deg"][ci] += 1 if f != "angular" else 2
            if f != "angular":
                new.update(sig=A.sig[:j - 1] + A.sig[j:], B=A.B * c.nvars * (A.s + 2) * 2, D=A.D * R)
            else:
                new.update(B=A.B * 4 * (A.s + 2) ** 2 * 2, D=A.D * A.s, final=True)
            build = {"radial": lambda: d3.radial(A.obj, index=jj), "azim": rng.choice([lambda: d3.azimuthal(A.obj, index=jj), lambda: d3.AzimuthalComponent(A.obj, index=jj)]), "angular": lambda: d3.angular(A.obj, index=jj)}[f]
        elif f in ("poly", "bip", "id"):
            got = self.userop(f, A, new, regs)
            if got is None:
                return None
            args, p, build = got
        else:
            return None
        if any(a.f == "id" for a in args) and f not in ("mul", "dot", "cross", "pow", "add", "subt", "poly", "neg") or any(a.f == "id" for a in args) and f in ("add", "subt") and (c is not None or args[1].f == "id" or args[0].obj.domain != args[1].obj.domain):
            return None                                # the others need coefficients, which grid locks refuse
        new["nd"] = max(a.nd for a in args) + {"grad": 1, "div": 1, "curl": 1, "d": 1, "lap": 2}.get(f, 0)
        if new["nd"] > (4 if self.G.curv else 6):       # differentiation amplifies rounding errors
            return None
        if not self.fits(new["sig"], new["deg"]) or new["B"] > BMAX or new["D"] > DMAX or new["B"] * new["D"] > 2e8 or abs(new["pi"]) > 2:
            return None
        return f, args, p, q, new, build

    def resolved(self, obj, new):
        """Annulus and shell functions are stored as (1/r)^k times polynomials."""
        c = self.curv()
        if c is None or c.kind not in ("annulus", "shell") or isinstance(obj, Number):
            return True
        for b in obj.domain.bases:
            k = getattr(b, "k", None)
            if isinstance(k, (int, np.integer)) and k and new["deg"][self.G.curv[0]] + k > b.shape[-1] - 1:
                return False
        return True

    def sphsurf(self, A):
        c = self.curv()
        return c is not None and c.nvars == 3 and c.kind != "sphere" and bool(A.s)

    def curvable(self, A, k):
        """Curvilinear derivatives are taken of fields over the whole curved basis."""
        return True

    def addable(self, A, B):
        c = self.curv()
        if c is None:
            return True
        # same curved domain, or a constant scalar
        fa, fb = [A.dom[a] for a in c.axes], [B.dom[a] for a in c.axes]
        return fa == fb or (not A.sig and (not any(fa) or not any(fb)))

    def mulable(self, A, B):
        c = self.curv()
        fa, fb = [A.dom[a] for a in c.axes], [B.dom[a] for a in c.axes]
        return A.s == B.s or not any(fa) and not A.s or not any(fb) and not B.s

    def momden(self, k, m):
        df = lambda n: 1 if n <= 0 else n * df(n - 2)
        return df(k) if m == 2 else df(k + 1)

    def single(self, k):
        return self.G.dist.single_coordsys is self.G.systems[k - 1][0]

    def coord(self, i):
        return self.G.coords[i]

    def curvsys(self):
        return self.G.curvsys

    def diffname(self, obj, co):
        return getattr(d3, "d" + co.name)(obj)

    def integral(self, A, f, new):
        """Integrals and averages over a random set of factors."""
        rng, G = self.rng, self.G
        if A.sig:
            return None
        idx = [i for i, ff in enumerate(G.factors) if all(A.dom[a] for a in ff.axes) or ff.curved and A.s and all(A.dom[a] for a in ff.axes[:-1])]
        c = self.curv()
        if c is not None and c.nvars == 2 and A.s:
            idx = [i for i in idx if not G.factors[i].curved]   # the circle has its own coordinate
        if not idx:
            return None
        k = rng.randint(1, len(idx))
        sel = sorted(rng.sample(idx, k))
        p, cos = [], []
        for i in sel:
            ff = G.factors[i]
            d = A.deg[i]
            if ff.curved:
                if f == "ave" and not A.s and ff.nvars == 3:
                    return None           # no averages over balls and shells
                if A.s and ff.nvars == 3:
                    if f == "integ":      # no integrals over the sphere alone
                        return None
                    new.update(final=True, chk=False)
                p.append(0)
                m = ff.nvars
                Ri, Ro = (0, math.isqrt(A.s)) if A.s else ff.radii
                den = math.lcm(*[self.momden(j, m) * (1 if A.s else j + m) for j in range(0, d + 1, 2)])
                # the factors of the specification are not in lowest terms
                g = 4 * Ro ** (d + m) * 15
                if f == "ave":
                    w = (2 if m == 2 else 4) * (Ro ** (m - 1) if A.s else Ro ** m - Ri ** m) * (1 if A.s else 1)
                    new.update(B=new["B"] * g * (1 if A.s else m), D=new["D"] * den * w)
                else:
                    new.update(B=new["B"] * g, D=new["D"] * den, pi=new["pi"] + 1)
                cos.append(self.curvsys() if not A.s else (self.curvsys().S2coordsys if c.kind != "sphere" else self.curvsys()))
                new["s"] = 0
                for a in ff.axes:
                    new["dom"][a] = False
            elif isinstance(ff, geo.Four):
                p.append(G.var0[i] + 1)
                cos.append(self.coord(i))
                if f == "integ":
                    new.update(B=new["B"] * 2, D=new["D"] * ff.kap, pi=new["pi"] + 1)
                new["dom"][ff.axes[0]] = False
            else:
                p.append(G.var0[i] + 1)
                cos.append(self.coord(i))
                L = math.lcm(*range(1, d + 2))
                new.update(B=new["B"] * 2 * max(abs(ff.lo), abs(ff.hi), 1) ** (d + 1), D=new["D"] * L * ((ff.hi - ff.lo) if f == "ave" else 1))
                new["dom"][ff.axes[0]] = False
            new["deg"][i] = 0
        rng.shuffle(p) if False else None
        F = {"integ": rng.choice([d3.Integrate, d3.integ]), "ave": rng.choice([d3.Average, d3.ave])}[f]
        build = [lambda: F(A.obj, tuple(cos) if len(cos) > 1 else cos[0])]
        if len(cos) == 1 and isinstance(cos[0], d3.Coordinate):
            build.append(lambda: F(A.obj, cos[0].name))
        if not (A.s and self.sphsurf(A)) and sel == idx and len(idx) == sum(1 for b in A.obj.domain.bases if b is not None):
            build.append(lambda: F(A.obj))
        return p, rng.choice(build)

    def userop(self, f, A, new, regs):
        """User functions and layout locks."""
        return None

    def opnames(self):
        base = ["add", "add", "subt", "addnum", "neg", "scale", "mul", "mul", "dot", "dot", "cross", "pow", "grad", "grad", "lap", "div", "div", "curl", "curl",
                "skew", "trans", "trace", "d", "comp", "sub_", "interp", "integ", "ave", "rmean", "surf", "surf", "radial", "azim", "angular"]
        return base

    def node(self, tries=60, r_ok=None):
        for _ in range(tries):
            try:
                got = self.propose(r_ok)
            except IndexError:
                continue
            if got is None:
                continue
            f, args, p, q, new, build = got
            key = (f, tuple(a.idx for a in args), tuple(p))
            if key in self.keys:
                continue
            return self.define(f, args, p, q, new, build, key)
        return None

    def define(self, f, args, p, q, new, build, key=None):
        final = new.pop("final", False)
        obj = build()
        if not self.resolved(obj, new):
            return None
        r = Reg(len(self.regs) + 1, obj, f, args, p, q)
        for k, v in new.items():
            setattr(r, k, v)
        r.final = final
        self.keys[key] = r
        self.regs.append(r)
        self.ev.append({"op": "def", "f": f, "a": [a.idx for a in args], "p": list(p), "q": list(q)})
        return r

    # -- observation --------------------------------------------------------------------------
    def observe(self, pairs):
        """pairs: [(register, field or number)]"""
        G = self.G
        obs = []
        for r, x in pairs:
            scale = r.D / math.pi ** r.pi
            o = {"r": r.idx, "num": isinstance(x, Number), "pi": r.pi, "s": r.s, "den": r.D, "chk": bool(r.chk)}
            if isinstance(x, Number):
                z = complex(x) * scale
                o.update(exact=abs(z - complex(round(z.real), round(z.imag))) < 0.05, v=[[[[0] * G.n, round(z.real), round(z.imag)]]], sig=[], dom=[])
                if not any(o["v"][0][0][1:]):
                    o["v"] = [[]]
            else:
                x = x.copy() if not isinstance(x, fld.LockedField) else x
                flags, comps, exact = G.read(x, r.s, r.deg, scale)
                o.update(sig=[G.spec_sys(cs) for cs in x.tensorsig], dom=flags, v=comps, exact=exact)
                if len(comps) != int(np.prod([len(G.systems[k - 1][1]) for k in o["sig"]], dtype=int)):
                    o.update(v=[[]] * int(np.prod([len(G.systems[k - 1][1]) for k in o["sig"]], dtype=int)), exact=False)
            obs.append(o)
        self.ev.append({"op": "obs", "o": obs})

    def value(self, r):
        """Evaluate one register directly."""
        if r.num:
            return r.obj
        if r.leaf:
            return r.obj
        return r.obj.evaluate()

    def jostle(self, r, above=False):
        """Move a leaf to a random layout and scales that keep its content."""
        rng, f = self.rng, r.obj
        if rng.random() < .5:
            f.change_scales(rng.choice([1, 1.5, 2] + [3] * 3 * above))
        f.change_layout(rng.choice(self.G.dist.layouts))
