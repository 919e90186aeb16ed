"""Geometries for the Calc conformance checks: building distributors and bases, writing exact
Laurent functions into fields, and reading fields back as exact Laurent functions.

Functions are dicts {exponent tuple: complex}; the variables are the Cartesian coordinates (or the
periodic coordinates, through exp(i kappa k x)).  Reading is by linear fits against the monomials
on the physical grid points, independent of dedalus' own transforms."""
import itertools
import math
import numpy as np

PI = np.pi


def nodes_jacobi(n, a, b):
    from scipy.special import roots_jacobi
    return np.sort(roots_jacobi(n, a, b)[0])


def poly_mul(p, q):
    r = {}
    for e, c in p.items():
        for f, d in q.items():
            g = tuple(x + y for x, y in zip(e, f))
            r[g] = r.get(g, 0) + c * d
    return {e: c for e, c in r.items() if c}


def poly_add(p, q, s=1):
    r = dict(p)
    for e, c in q.items():
        r[e] = r.get(e, 0) + s * c
    return {e: c for e, c in r.items() if c}


class Factor:
    """Some distributor axes carrying some variables."""
    curved = False

    def __init__(self, axes, nvars):
        self.axes, self.nvars = axes, nvars


class Four(Factor):
    def __init__(self, axis, n, kap, x0, const=False):
        super().__init__([axis], 1)
        self.n, self.kap, self.x0 = n, kap, x0
        self.cap = (n - 1) // 2

    def points(self, flags, sizes):
        L = 2 * PI / self.kap
        return [self.x0 + L * np.arange(sizes[0]) / sizes[0]]

    def design(self, flags, sizes, s, deg):
        if not flags[0]:
            return np.ones((1, 1)), [{(0,): 1}]
        K = min((sizes[0] - 1) // 2, deg + 1)
        x = self.points(flags, sizes)[0]
        ks = list(range(-K, K + 1))
        return np.stack([np.exp(1j * self.kap * k * x) for k in ks], axis=1), [{(k,): 1} for k in ks]


class Poly(Factor):
    def __init__(self, axis, n, lo, hi, ab, ab0):
        super().__init__([axis], 1)
        self.n, self.lo, self.hi, self.ab, self.ab0 = n, lo, hi, ab, ab0
        self.cap = n - 1

    def points(self, flags, sizes):
        z = nodes_jacobi(sizes[0], *self.ab0)
        return [self.lo + (self.hi - self.lo) * (z + 1) / 2]

    def design(self, flags, sizes, s, deg):
        if not flags[0]:
            return np.ones((1, 1)), [{(0,): 1}]
        d = min(sizes[0] - 1, deg + 1)
        z = (self.points(flags, sizes)[0] - (self.lo + self.hi) / 2) / ((self.hi - self.lo) / 2)
        M = np.stack([z ** k for k in range(d + 1)], axis=1)
        # z^k in powers of x
        h, m = (self.hi - self.lo) / 2, (self.lo + self.hi) / 2
        exp = []
        for k in range(d + 1):
            exp.append({(j,): math.comb(k, j) * (-m) ** (k - j) / h ** k for j in range(k + 1)})
        return M, exp


def monomials(nv, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=nv) if sum(e) <= deg]


def radpow(nv, k):
    p = {(0,) * nv: 1}
    r2 = {tuple(2 if i == j else 0 for i in range(nv)): 1 for j in range(nv)}
    for _ in range(k):
        p = poly_mul(p, r2)
    return p


class Curv(Factor):
    """disk/annulus (phi, r), ball/shell (phi, theta, r), sphere (phi, theta)."""
    curved = True

    def __init__(self, axes, kind, basis, radii, cap):
        super().__init__(axes, 2 if kind in ("disk", "annulus") else 3)
        self.kind, self.basis, self.radii, self.cap = kind, basis, radii, cap

    def grids(self, sizes):
        b = self.basis
        phi = 2 * PI * np.arange(sizes[0]) / sizes[0]
        out = [phi]
        if self.kind in ("sphere", "ball", "shell"):
            c = nodes_jacobi(sizes[1], 0, 0)
            out.append(np.arccos(c[::-1])[::-1] if False else np.arccos(c))
        if self.kind == "disk":
            z = nodes_jacobi(sizes[1], 0, 0)
            out.append(self.radii[1] * np.sqrt((1 + z) / 2))
        if self.kind == "annulus":
            z = nodes_jacobi(sizes[1], -.5, -.5)
            out.append(self.radii[0] + (self.radii[1] - self.radii[0]) * (1 + z) / 2)
        if self.kind == "ball":
            z = nodes_jacobi(sizes[2], 0, .5)
            out.append(self.radii[1] * np.sqrt((1 + z) / 2))
        if self.kind == "shell":
            z = nodes_jacobi(sizes[2], -.5, -.5)
            out.append(self.radii[0] + (self.radii[1] - self.radii[0]) * (1 + z) / 2)
        return out

    def angles(self, flags, sizes, s):
        """phi, (theta,) r as broadcast arrays; arbitrary values on constant axes."""
        g = self.grids([m if f else 4 for m, f in zip(sizes, flags)])
        nd = len(self.axes)
        out = []
        for i in range(nd):
            x = g[i] if flags[i] else np.array([0.4])
            out.append(x.reshape([-1 if j == i else 1 for j in range(nd)]))
        if self.kind == "sphere":
            out.append(np.full((1, 1), float(self.radii[1])))
        elif s:
            out[-1] = np.full((1,) * nd, math.sqrt(s))
        return out

    def cartesian(self, flags, sizes, s):
        a = self.angles(flags, sizes, s)
        if self.nvars == 2:
            phi, r = a
            X = [r * np.cos(phi), r * np.sin(phi)]
        else:
            phi, th, r = a
            X = [r * np.sin(th) * np.cos(phi), r * np.sin(th) * np.sin(phi), r * np.cos(th) + 0 * phi]
        return [x + np.zeros(np.broadcast_shapes(*[b.shape for b in X])) for x in X]

    def frame(self, flags, sizes, s, kind):
        """E[local, cart, grid...] for the coordinate system kind: polar, spherical, s2."""
        a = self.angles(flags, sizes, s)
        z = np.zeros(np.broadcast_shapes(*[b.shape for b in a]))
        if kind == "polar":
            phi, r = a
            rows = [[-np.sin(phi), np.cos(phi)], [np.cos(phi), np.sin(phi)]]
        else:
            phi, th, r = a
            rows = [[-np.sin(phi), np.cos(phi), 0],
                    [np.cos(th) * np.cos(phi), np.cos(th) * np.sin(phi), -np.sin(th)],
                    [np.sin(th) * np.cos(phi), np.sin(th) * np.sin(phi), np.cos(th)]]
            if kind == "s2":
                rows = rows[:2]
        return np.array([[c + z for c in row] for row in rows])

    def resolved(self, flags, sizes):
        """Largest degrees which the points determine, per nonconstant axis."""
        top = []
        if flags[0]:
            top.append((sizes[0] - 1) // 2)
        if len(flags) == 3 or self.kind == "sphere":
            if flags[1]:
                top.append(sizes[1] - 1)
        if self.kind != "sphere" and flags[-1]:
            top.append(2 * sizes[-1] - 2 if self.kind in ("disk", "ball") else sizes[-1] - 1)
        return top

    def design(self, flags, sizes, s, deg):
        nv = self.nvars
        if not any(flags):
            return np.ones((1, 1)), [{(0,) * nv: 1}]
        X = [x.ravel() for x in self.cartesian(flags, sizes, s)]
        d = max(deg, min([deg + 1] + self.resolved(flags, sizes)))
        if nv == 3 and not flags[0] and flags[1]:
            # functions of z and rho^2
            zk = lambda k: {(0, 0, k): 1}
            rho = {(0, 0, 0): 1}
            rhos = [rho]
            for _ in range(d // 2):
                rho = poly_mul(rho, {(2, 0, 0): 1, (0, 2, 0): 1})
                rhos.append(rho)
            zmax = 1 if s or self.kind == "sphere" else d
            exp = [poly_mul(zk(k), rhos[j]) for j in range(d // 2 + 1) for k in range(zmax + 1) if k + 2 * j <= d]
        elif s or self.kind == "sphere":
            ex = [e for e in monomials(nv, d) if e[-1] <= 1]
            exp = [{e: 1} for e in ex]
        elif not any(flags[:-1]):
            exp = [radpow(nv, k) for k in range(d // 2 + 1)]
        else:
            exp = [{e: 1} for e in monomials(nv, d)]
        M = np.stack([sum(c * np.prod([x ** k for x, k in zip(X, e)], axis=0) for e, c in p.items()) for p in exp], axis=1)
        return M, exp


class Geo:
    """cfg: the geometry as the specification sees it."""

    def __init__(self, d3, dist, dtype, factors, bases, systems, hand=1, surf=False, dealias=1):
        self.d3, self.dist, self.dtype, self.factors, self.bases = d3, dist, dtype, factors, bases
        self.cplx = dtype == np.complex128
        self.systems = systems          # list of (python coordsys, spec variable list, frame kind, usable in leaves)
        self.alias = {}                 # other coordinate systems: index of the system, frame kind
        self.curvsys = None
        self.coords = []                # coordinate of each one-dimensional factor
        self.n = sum(f.nvars for f in factors)
        self.nax = sum(len(f.axes) for f in factors)
        self.surf = surf
        self.hand = hand
        self.var0 = []
        v = 0
        for f in factors:
            self.var0.append(v)
            v += f.nvars
        self.curv = [i for i, f in enumerate(factors) if f.curved]
        per, kap, lo, hi, axis = [], [], [], [], []
        for f in factors:
            for _ in range(f.nvars):
                per.append(isinstance(f, Four))
                kap.append(getattr(f, "kap", 1))
                lo.append(getattr(f, "lo", 0))
                hi.append(getattr(f, "hi", 0))
                axis.append(f.axes[0] + 1)
        self.cfg = dict(n=self.n, nax=self.nax, per=per, kap=kap, lo=lo, hi=hi, axis=axis, cs=[s[1] for s in systems], hand=hand, surf=surf,
                        crv=[], crvax=[], rax=0, Ri=0, Ro=0, rt=[])
        if self.curv:
            i = self.curv[0]
            f = factors[i]
            self.cfg.update(crv=[self.var0[i] + k + 1 for k in range(f.nvars)], crvax=[a + 1 for a in f.axes],
                            rax=0 if f.kind == "sphere" else f.axes[-1] + 1, Ri=f.radii[0], Ro=f.radii[1],
                            rt=[[r * r, r] for r in f.radii if r])

    # -- writing ------------------------------------------------------------------------------
    def flags(self, field):
        return [bool(x) for x in field.domain.nonconstant]

    def sysidx(self, cs):
        for i, s in enumerate(self.systems):
            if s[0] is cs or (type(s[0]) is type(cs) and s[0] == cs):
                return i
        raise KeyError(str(cs))

    def spec_sys(self, cs):
        return (self.alias[cs][0] if cs in self.alias else self.sysidx(cs)) + 1

    def frame_kind(self, cs):
        return self.alias[cs][1] if cs in self.alias else self.systems[self.sysidx(cs)][2]

    def _frame(self, cs, flags, sizes, s):
        """E[local, cart, grid...] on all axes, or None."""
        kind = self.frame_kind(cs)
        if kind is None:
            return None
        i = self.curv[0]
        f = self.factors[i]
        k = kind.replace("z+", "").replace("+z", "")
        E = f.frame([flags[a] for a in f.axes], [sizes[a] for a in f.axes], s, k)
        shape = [1] * self.nax
        for j, a in enumerate(f.axes):
            shape[a] = E.shape[2 + j]
        E = E.reshape(E.shape[:2] + tuple(shape))
        if kind.startswith("z+"):
            F = np.zeros((3, 3) + E.shape[2:])
            F[0, 0] = 1
            F[1:, 1:] = E
            return F
        if kind.endswith("+z"):
            F = np.zeros((3, 3) + E.shape[2:])
            F[2, 2] = 1
            F[:2, :2] = E
            return F
        return E

    def sample(self, terms, flags, sizes, s):
        """Values of a function on the (global) grid."""
        out = 0
        per_factor = []
        for f in self.factors:
            fl, sz = [flags[a] for a in f.axes], [sizes[a] for a in f.axes]
            if f.curved:
                per_factor.append(f.cartesian(fl, sz, s))
            else:
                per_factor.append(f.points(fl, sz) if fl[0] else [np.zeros(1)])
        for e, c in terms.items():
            t = np.array(c, dtype=complex).reshape((1,) * self.nax)
            for f, v0, X in zip(self.factors, self.var0, per_factor):
                if isinstance(f, Four):
                    g = np.exp(1j * f.kap * e[v0] * X[0])
                else:
                    g = 1.0
                    for k in range(f.nvars):
                        g = g * X[k] ** e[v0 + k]
                g = np.asarray(g)
                shape = [1] * self.nax
                for j, a in enumerate(f.axes):
                    shape[a] = g.shape[j]
                t = t * g.reshape(shape)
            out = out + t
        shape = [m if fl else 1 for m, fl in zip(sizes, flags)]
        return np.broadcast_to(out, shape) if not isinstance(out, int) else np.zeros(shape)

    def write(self, field, comps, s, scales=None):
        """comps: list of {exps: complex}, row-major over Cartesian components."""
        field.preset_scales(scales or 1)
        layout = self.dist.grid_layout
        field.preset_layout(layout)
        flags = self.flags(field)
        sizes = list(layout.global_shape(field.domain, field.scales))
        dims = [len(self.systems[self.sysidx(cs)][1]) for cs in field.tensorsig]
        data = np.array([self.sample(c, flags, sizes, s) for c in comps]).reshape(tuple(dims) + tuple(m if fl else 1 for m, fl in zip(sizes, flags)))
        for i, cs in enumerate(field.tensorsig):
            E = self._frame(cs, flags, sizes, s)
            if E is not None:
                data = np.moveaxis(data, i, 0)
                extra = data.ndim - 1 - self.nax
                data = np.stack([sum(E[l, c].reshape((1,) * extra + E.shape[2:]) * data[c] for c in range(E.shape[1])) for l in range(E.shape[0])])
                data = np.moveaxis(data, 0, i)
        if not self.cplx:
            data = data.real
        sl = tuple(slice(None) for _ in field.tensorsig) + layout.slices(field.domain, field.scales)
        field.data[...] = data[sl]

    # -- reading ------------------------------------------------------------------------------
    def read(self, field, s, deg, den, scale_tol=1.0):
        """(flags, comps as integer terms, exact) of a field; den: multiply coefficients by this
        before rounding.  deg: expected degree per factor."""
        data = np.asarray(field.allgather_data("g")).astype(complex)
        flags = self.flags(field)
        rank = len(field.tensorsig)
        sizes = list(data.shape[rank:])
        for f in self.factors:
            if f.curved and f.nvars == 3 and sizes[f.axes[1]] == 1:   # spherical means keep a one-point colatitude
                flags[f.axes[1]] = False
        expected = [m if fl else 1 for m, fl in zip(self.dist.grid_layout.global_shape(field.domain, field.scales), flags)]
        if sizes != expected or not np.all(np.isfinite(data)):
            return flags, [], False
        real_flags = flags
        if self.curv and any(self.frame_kind(cs) for cs in field.tensorsig):
            # axisymmetric components: the Cartesian ones vary along the angles
            f, fd = self.factors[self.curv[0]], deg[self.curv[0]]
            flags = list(flags)
            if any(flags[a] for a in f.axes):
                for a in f.axes[:1 if f.nvars == 2 else 2]:
                    if not flags[a]:
                        flags[a], sizes[a] = True, 2 * fd + 6
                        data = np.repeat(data, sizes[a], axis=rank + a)
        for i, cs in enumerate(field.tensorsig):
            E = self._frame(cs, flags, sizes, s)
            if E is not None:
                data = np.moveaxis(data, i, 0)
                extra = data.ndim - 1 - self.nax
                data = np.stack([sum(E[l, c].reshape((1,) * extra + E.shape[2:]) * data[l] for l in range(E.shape[0])) for c in range(E.shape[1])])
                data = np.moveaxis(data, 0, i)
        cdims = data.shape[:rank]
        sp = data.shape[rank:]
        data = data.reshape((-1,) + sp)
        # flatten each factor's axes, then fit factor by factor
        order = [0] + [1 + a for f in self.factors for a in f.axes]
        data = data.transpose(order)
        data = data.reshape((data.shape[0],) + tuple(int(np.prod([sp[a] for a in f.axes])) for f in self.factors))
        size = np.max(np.abs(data)) if data.size else 0
        resid = 0.0
        exps = []
        for j, f in enumerate(self.factors):
            M, ex = f.design([flags[a] for a in f.axes], [sizes[a] for a in f.axes], s, deg[j])
            d = np.moveaxis(data, 1 + j, 0)
            shp = d.shape
            flat = d.reshape(shp[0], -1)
            if M.shape[0] < M.shape[1]:
                return real_flags, [], False
            colscale = np.sqrt(np.sum(np.abs(M) ** 2, axis=0))
            c, *_ = np.linalg.lstsq(M / colscale, flat, rcond=1e-14)
            resid = max(resid, np.max(np.abs((M / colscale) @ c - flat), initial=0))
            c = c / colscale[:, None]
            data = np.moveaxis(c.reshape((M.shape[1],) + shp[1:]), 0, 1 + j)
            exps.append(ex)
        out, exact = [], bool(resid <= 1e-5 * scale_tol * (1 + size))
        for comp in data:
            terms = {}
            for ix in np.ndindex(*comp.shape):
                v = comp[ix]
                if v == 0:
                    continue
                acc = {(): v}
                for j, i in enumerate(ix):
                    acc = {e + f: c * k for e, c in acc.items() for f, k in exps[j][i].items()}
                for e, c in acc.items():
                    terms[e] = terms.get(e, 0) + c
            ints = []
            for e, c in sorted(terms.items()):
                z = c * den
                re, im = round(z.real), round(z.imag)
                if max(abs(z.real - re), abs(z.imag - im)) > 0.1:
                    exact = False
                if max(abs(re), abs(im)) > 2 ** 30:
                    exact = False
                    re = im = 2 ** 30
                if re or im:
                    ints.append([list(e), re, im])
            out.append(ints)
        return real_flags, out, exact


# -- random geometries --------------------------------------------------------------------------
def _axis(rng, d3, coord, dtype, ax, n=None, dealias=1, poly=None):
    """A Fourier or Jacobi basis on a coordinate, with its factor."""
    cplx = dtype == np.complex128
    if poly is None:
        poly = rng.random() < .5
    if not poly:
        n = n or rng.choice([4, 6, 8, 10] + ([5, 7] if cplx else []))
        kap = rng.choice([1, 1, 2])
        x0 = rng.choice([0, 0, 1, -1]) * 2 * PI / kap / 4
        cls = rng.choice([d3.ComplexFourier if cplx else d3.RealFourier] + [d3.Fourier])
        kw = {"dtype": dtype} if cls is d3.Fourier else {}
        return Four(ax, n, kap, x0), cls(coord, n, bounds=(x0, x0 + 2 * PI / kap), dealias=dealias, **kw)
    n = n or rng.randint(3, 9)
    lo, hi = rng.choice([(-1, 1), (-1, 1), (0, 1), (0, 2), (1, 3), (-2, 0)])
    which = rng.choice(["T", "T", "U", "L", "J", "J0"])
    if which == "T":
        return Poly(ax, n, lo, hi, (-.5, -.5), (-.5, -.5)), rng.choice([d3.ChebyshevT, d3.Chebyshev])(coord, n, bounds=(lo, hi), dealias=dealias)
    if which == "U":
        return Poly(ax, n, lo, hi, (.5, .5), (.5, .5)), d3.ChebyshevU(coord, n, bounds=(lo, hi), dealias=dealias)
    if which == "L":
        return Poly(ax, n, lo, hi, (0, 0), (0, 0)), d3.Legendre(coord, n, bounds=(lo, hi), dealias=dealias)
    a0, b0 = rng.choice([(-.5, -.5), (0, 0), (.5, 0), (1, 2)])
    da, db = (0, 0) if which == "J" else rng.choice([(1, 1), (2, 2), (0, 1)])
    return Poly(ax, n, lo, hi, (a0 + da, b0 + db), (a0, b0)), d3.Jacobi(coord, n, bounds=(lo, hi), a=a0 + da, b=b0 + db, a0=a0, b0=b0, dealias=dealias)


def cartesian(rng, d3, dim=None, comm=None, mesh=None, dealias=None, style=None, sizes=None, cplx=None, poly=None):
    dim = dim or rng.choice([1, 2, 2, 3])
    cplx = rng.random() < .4 if cplx is None else cplx
    dtype = np.complex128 if cplx else np.float64
    names = ["x", "y", "z"][:dim]
    style = style or rng.choice({1: ["coord", "cart"], 2: ["cart", "cart", "coords"], 3: ["cart", "cart", "left", "dp", "dp2"]}[dim])
    hand = 1
    systems = []
    if style == "coord":
        cs = d3.Coordinate("x")
        coords = [cs]
        systems = [(cs, [1], None, True)]
        distcs = cs
    elif style == "coords":
        coords = [d3.Coordinate(n) for n in names]
        systems = [(c, [i + 1], None, True) for i, c in enumerate(coords)]
        dp = d3.DirectProduct(*coords)
        systems.append((dp, [1, 2], None, True))
        distcs = tuple(coords)
    elif style in ("cart", "left"):
        if dim == 3 and style == "left":
            cs = d3.CartesianCoordinates(*names, right_handed=False)
            hand = -1
        else:
            cs = d3.CartesianCoordinates(*names)
        coords = list(cs.coords)
        systems = [(cs, list(range(1, dim + 1)), None, True)]
        distcs = cs
    else:
        a, b = d3.Coordinate("x"), d3.CartesianCoordinates("y", "z")
        va, vb = [1], [2, 3]
        if style == "dp2":
            b, a = d3.CartesianCoordinates("x", "y"), d3.Coordinate("z")
            va, vb = [3], [1, 2]
        order = [a, b] if style == "dp" else [b, a]
        right = rng.choice([None, True, False])
        hand = -1 if right is False else 1
        dp = d3.DirectProduct(*order, right_handed=right)
        coords = list(dp.coords)
        systems = [(dp, [1, 2, 3], None, True), (a, va, None, True), (b, vb, None, True)]
        distcs = rng.choice([dp, tuple(order)])
    dist = d3.Distributor(distcs, dtype=dtype, comm=comm, mesh=mesh)
    dealias = dealias or rng.choice([1, 1, 1.5])
    factors, bases = [], []
    for i, c in enumerate(coords):
        n = None
        if sizes:
            n = rng.choice(sizes)
        elif dim == 3:
            n = rng.choice([4, 6])
        f, b = _axis(rng, d3, c, dtype, i, n=n, dealias=dealias, poly=poly[i] if poly else None)
        factors.append(f)
        bases.append(b)
    G = Geo(d3, dist, dtype, factors, bases, systems, hand=hand)
    G.coords = coords
    G.style = style
    return G, (lambda rank: [f.cap for f in factors])


def curvilinear(rng, d3, kind=None, comm=None, mesh=None, dealias=None, size=None, cplx=None, zpoly=None):
    kind = kind or rng.choice(["disk", "annulus", "sphere", "ball", "shell", "cylinder", "cylinder"])
    cplx = rng.random() < .4 if cplx is None else cplx
    dtype = np.complex128 if cplx else np.float64
    dealias = dealias or rng.choice([1, 1, 1.5])
    hand, surf = 1, False
    if kind in ("disk", "annulus", "cylinder"):
        cs = d3.PolarCoordinates("phi", "r")
        shape = size or rng.choice([(16, 8), (12, 8), (12, 6)] if kind != "cylinder" else [(12, 6), (8, 6)])
        inner = rng.choice(["disk", "annulus"]) if kind == "cylinder" else kind
        first = kind == "cylinder" and rng.random() < .6
        ax = [1, 2] if kind == "cylinder" and first else [0, 1]
        if kind == "cylinder":
            z = d3.Coordinate("z")
            right = rng.choice([None, None, False, True])
            dp = d3.DirectProduct(*([z, cs] if first else [cs, z]), right_handed=right)
            hand = -1 if right else 1
            dist = d3.Distributor(dp, dtype=dtype, comm=comm, mesh=mesh)
        else:
            dist = d3.Distributor(cs, dtype=dtype, comm=comm, mesh=mesh)
        if inner == "disk":
            R = rng.choice([1, 2])
            radii = (0, R)
            kw = {}
            if rng.random() < .3:
                kw = {"alpha": rng.choice([0, 1])}
            b = d3.DiskBasis(cs, shape, dtype=dtype, radius=R, dealias=dealias)
            styles = {"full": (b, (True, True), 6, 0), "edge": (b.edge, (True, False), 1, R * R), "radial": (b.radial_basis, (False, True), 1, 0)}
        else:
            radii = (1, 2)
            b = d3.AnnulusBasis(cs, shape, dtype=dtype, radii=radii, dealias=dealias)
            styles = {"full": (b, (True, True), 6, 0), "edge": (b.outer_edge, (True, False), 1, 4), "inner": (b.inner_edge, (True, False), 1, 1),
                      "radial": (b.radial_basis, (False, True), 1, 0)}
        styles["const"] = (None, (False, False), 1, 0)
        fc = Curv(ax, inner, b, radii, shape[0] // 2 - 1)
        ccap = lambda rank: max(0, min(shape[0] // 2 - 1 - rank, 7 if inner == "disk" else shape[1] - 2))
        if kind == "cylinder":
            fz, bz = _axis(rng, d3, z, dtype, 0 if first else 2, n=rng.choice([4, 5] if cplx else [4]), dealias=dealias, poly=zpoly)
            zv, pv = ([1], [2, 3]) if first else ([3], [1, 2])
            systems = [(dp, [1, 2, 3], "z+polar" if first else "polar+z", True), (cs, pv, "polar", True), (z, zv, None, True)]
            factors, bases = ([fz, fc], [bz, styles]) if first else ([fc, fz], [styles, bz])
            G = Geo(d3, dist, dtype, factors, bases, systems, hand=hand)
            G.coords = [z, None] if first else [None, z]
            cap = (lambda rank: [fz.cap, ccap(rank)]) if first else (lambda rank: [ccap(rank), fz.cap])
        else:
            systems = [(cs, [1, 2], "polar", True)]
            G = Geo(d3, dist, dtype, [fc], [styles], systems, hand=hand)
            G.coords = [None]
            cap = lambda rank: [ccap(rank)]
    elif kind == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        shape = size or rng.choice([(16, 8), (12, 8), (12, 6)])
        dist = d3.Distributor(cs, dtype=dtype, comm=comm, mesh=mesh)
        b = d3.SphereBasis(cs, shape, dtype=dtype, radius=1, dealias=dealias)
        styles = {"full": (b, (True, True), 6, 1), "const": (None, (False, False), 1, 1)}
        fc = Curv([0, 1], "sphere", b, (0, 1), 0)
        top = min(shape[1] - (1 if cplx else 2), shape[0] // 2 - 1)
        cap = lambda rank: [max(0, top - rank)]
        G = Geo(d3, dist, dtype, [fc], [styles], [(cs, [1, 2, 3], "s2", True)], surf=True)
        G.coords = [None]
    else:
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        shape = size or rng.choice([(12, 8, 6), (12, 6, 6), (12, 8, 5), (8, 6, 5)])
        dist = d3.Distributor(cs, dtype=dtype, comm=comm, mesh=mesh)
        if kind == "ball":
            R = rng.choice([1, 2])
            radii = (0, R)
            b = d3.BallBasis(cs, shape, dtype=dtype, radius=R, dealias=dealias)
            styles = {"full": (b, (True,) * 3, 6, 0), "surface": (b.surface, (True, True, False), 1, R * R), "radial": (b.radial_basis, (False, False, True), 1, 0)}
        else:
            radii = (1, 2)
            b = d3.ShellBasis(cs, shape, dtype=dtype, radii=radii, dealias=dealias)
            styles = {"full": (b, (True,) * 3, 6, 0), "surface": (b.outer_surface, (True, True, False), 1, 4), "inner": (b.inner_surface, (True, True, False), 1, 1),
                      "radial": (b.radial_basis, (False, False, True), 1, 0)}
        styles["const"] = (None, (False,) * 3, 1, 0)
        fc = Curv([0, 1, 2], kind, b, radii, 0)
        top = min(shape[1] - (1 if cplx else 2), shape[0] // 2 - 1, shape[2] - 1)
        cap = lambda rank: [max(0, top - rank)]
        G = Geo(d3, dist, dtype, [fc], [styles], [(cs, [1, 2, 3], "spherical", True)])
        G.alias = {cs.S2coordsys: (0, "s2")}
        G.coords = [None]
    G.curvsys = cs
    G.style = kind
    return G, cap
