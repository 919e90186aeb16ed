"""Closed-form modal synthesis/analysis for Cartesian bases, independent of dedalus' transforms.

This is the observation function of the conformance checks: field data in any layout and scales is
read back as the integer mode amplitudes it represents (plus a flag for anything that is not an
integer amplitude of a mode that the grid can represent)."""
import functools
import math
import numpy as np
from scipy.special import eval_jacobi, gammaln, roots_jacobi


class Ax:
    """One axis: kind RF/CF/J/C, size n, Jacobi parameters, bounds."""

    def __init__(self, kind, n, bounds=(0, 1), ab=(-.5, -.5), ab0=None, dealias=1):
        self.kind, self.n, self.bounds = kind, n, bounds
        self.ab, self.ab0, self.dealias = ab, ab0 or ab, dealias

    def spec(self):
        return {"kind": self.kind, "n": self.n}

    def basis(self, d3, coord, library=None):
        kw = dict(size=self.n, bounds=self.bounds, dealias=self.dealias, **({"library": library} if library else {}))
        if self.kind == "RF":
            return d3.RealFourier(coord, **kw)
        if self.kind == "CF":
            return d3.ComplexFourier(coord, **kw)
        if self.kind == "J":
            return d3.Jacobi(coord, a=self.ab[0], b=self.ab[1], a0=self.ab0[0], b0=self.ab0[1], **kw)

    def size(self, scale):
        """Grid size; scale = (num, den)."""
        return 1 if self.n == 1 else -((-scale[0] * self.n) // scale[1])

    def wavenumber(self, i):
        k = (self.n - 1) // 2
        if self.kind == "RF":
            return i // 2
        return i if i <= self.n // 2 else i - self.n

    def keep(self, m):
        if self.kind in ("RF", "CF"):
            K = min((m - 1) // 2, (self.n - 1) // 2)
            return [abs(self.wavenumber(i)) <= K for i in range(self.n)]
        if self.kind == "J":
            return [i < m for i in range(self.n)]
        return [True]

    def valid(self):
        v = self.keep(2 * self.n + 2)
        if self.kind == "RF":
            v[1] = False
        if self.kind == "CF" and self.n % 2 == 0:
            v[self.n // 2] = False
        return v

    def grid(self, m):
        a, b = self.bounds
        if self.kind in ("RF", "CF"):
            return a + (b - a) * np.arange(m) / m
        if self.kind == "J":
            z = np.sort(roots_jacobi(m, *self.ab0)[0])
            return a + (b - a) * (z + 1) / 2
        return np.zeros(1)

    def modes_at(self, x):
        """Values of the basis functions at points x: array (len(x), n)."""
        x = np.asarray(x, dtype=float)
        if self.kind == "C":
            return np.ones((x.size, 1))
        a, b = self.bounds
        th = 2 * np.pi * (x - a) / (b - a)
        if self.kind == "RF":
            return np.stack([np.cos(i // 2 * th) if i % 2 == 0 else -np.sin(i // 2 * th) for i in range(self.n)], axis=1)
        if self.kind == "CF":
            return np.stack([np.exp(1j * self.wavenumber(i) * th) for i in range(self.n)], axis=1)
        z = 2 * (x - a) / (b - a) - 1
        return np.stack([jacobi_poly(i, *self.ab, z) for i in range(self.n)], axis=1)

    @functools.lru_cache(None)
    def synth(self, m):
        if self.n == 1 and self.kind != "J":
            return np.ones((1, 1))
        return self.modes_at(self.grid(m))

    @functools.lru_cache(None)
    def analysis(self, m):
        """(kept indices, left inverse on the kept modes)"""
        idx = [i for i in range(self.n) if self.keep(m)[i] and self.valid()[i]]
        return idx, np.linalg.pinv(self.synth(m)[:, idx])


def jacobi_poly(n, a, b, z):
    """Orthonormal Jacobi polynomial."""
    if n == 0:
        lh = (a + b + 1) * math.log(2) + gammaln(a + 1) + gammaln(b + 1) - gammaln(a + b + 2)
    else:
        lh = (a + b + 1) * math.log(2) - math.log(2 * n + a + b + 1) + gammaln(n + a + 1) + gammaln(n + b + 1) \
            - gammaln(n + a + b + 1) - gammaln(n + 1)
    return eval_jacobi(n, a, b, z) / math.exp(lh / 2)


def apply(M, data, axis):
    return np.moveaxis(np.tensordot(M, data, axes=(1, axis)), 0, axis)


def to_layout(coefs, axes, grid, scales):
    """Data of the field with mode amplitudes coefs (tensor axes first) with the axes flagged in grid on the grid."""
    r = coefs.ndim - len(axes)
    out = coefs
    for a, ax in enumerate(axes):
        if grid[a] and ax.kind != "C":
            m = ax.size(scales[a])
            k = np.array(ax.keep(m), dtype=float)
            out = apply(ax.synth(m) * k, out, r + a)
    return out


def from_layout(data, axes, grid, scales):
    """(amplitudes, residual): amplitudes of the representable modes, and the part that is none."""
    r = data.ndim - len(axes)
    out = data
    for a, ax in enumerate(axes):
        if grid[a] and ax.kind != "C":
            m = ax.size(scales[a])
            if out.shape[r + a] != m:
                return None, np.inf
            idx, P = ax.analysis(m)
            full = np.zeros((ax.n, m), dtype=P.dtype)
            full[idx] = P
            new = apply(full, out, r + a)
            out = new
        elif out.shape[r + a] != ax.n:
            return None, np.inf
    back = to_layout(out, axes, grid, scales)
    return out, float(np.max(np.abs(back - data), initial=0))


def ints(c, cplx, tol=1e-6):
    """Flatten amplitudes to integers (re, im interleaved when complex); second value: they are integers."""
    v = np.asarray(c)
    if cplx:
        v = np.stack([v.real, v.imag], axis=-1)
    elif np.iscomplexobj(v):
        if np.max(np.abs(v.imag), initial=0) > tol:
            return [], False
        v = v.real
    q = np.rint(v)
    if not np.all(np.isfinite(v)):
        return [-99999] * v.size, False
    ok = bool(np.max(np.abs(v - q), initial=0) < tol * (1 + np.max(np.abs(v), initial=0)))
    return [int(max(-10**9, min(10**9, x))) for x in q.ravel()], ok


def random_coefs(rng, axes, tshape, cplx, lo=1, hi=9, valid_only=True):
    """Non-zero integer amplitudes on all valid modes."""
    shape = tuple(tshape) + tuple(ax.n for ax in axes)
    c = np.zeros(shape, dtype=complex if cplx else float)
    mask = np.ones(shape, dtype=bool)
    for a, ax in enumerate(axes):
        sh = [1] * len(shape)
        sh[len(tshape) + a] = ax.n
        mask &= np.reshape(ax.valid(), sh)
    flat = c.reshape(-1)
    for i in range(flat.size):
        flat[i] = rng.choice([-1, 1]) * rng.randint(lo, hi)
        if cplx:
            flat[i] += 1j * rng.choice([-1, 1]) * rng.randint(lo, hi)
    return c * mask


def random_axis(rng, d3, cplx, sizes=None, const=0.15, kinds=None):
    kind = rng.choice(kinds or (["CF"] if cplx else ["RF"]) + ["J"])
    if rng.random() < const:
        return Ax("C", 1)
    dealias = rng.choice([1, 1.5, 2])
    a = rng.choice([0, -1, 2.5])
    bounds = (a, a + rng.choice([1, 2, 3.5]))
    if kind == "RF":
        n = rng.choice(sizes or [2, 4, 6, 8])
        n += n % 2
        return Ax(kind, n, bounds, dealias=dealias)
    if kind == "CF":
        return Ax(kind, rng.choice(sizes or [2, 3, 4, 5, 6, 8]), bounds, dealias=dealias)
    p = rng.choice([(-.5, -.5), (-.5, -.5), (0, 0), (.5, .5), (0, 1)])
    k = rng.choice([0, 0, 1, 2])
    return Ax(kind, rng.choice(sizes or [1, 2, 3, 4, 5, 8]), bounds, ab=(p[0] + k, p[1] + k), ab0=p, dealias=dealias)


def coordsys(d3, dim):
    """A Cartesian coordinate system of any dimension and its coordinates."""
    cs = d3.CartesianCoordinates(*["x", "y", "z", "w"][:dim])
    return cs, [cs[n] for n in ["x", "y", "z", "w"][:dim]]
