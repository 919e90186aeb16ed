"""Closed-form mode synthesis/analysis on curvilinear bases, independent of dedalus' transforms.

A mode is (comp, m, l, n): comp a tuple of spins (disk, annulus, sphere) or regularities (ball, shell).
Every azimuthal order m has complex amplitudes; real fields are Re(sum c_m exp(i m phi))."""
import functools
import itertools
import math
import numpy as np
from scipy.special import roots_jacobi
from modal import jacobi_poly

SPINS = {"polar": (-1, 1), "s2": (-1, 1), "sph": (-1, 1, 0), "cyl": (0, -1, 1)}
S = 1 / math.sqrt(2)
# spin components from coordinate components: u[+-] = (u[second] +- i u[azimuth]) / sqrt 2
U = {"polar": np.array([[-1j * S, S], [1j * S, S]]), "s2": np.array([[-1j * S, S], [1j * S, S]]),
     "sph": np.array([[-1j * S, S, 0], [1j * S, S, 0], [0, 0, 1]]),
     "cyl": np.array([[1, 0, 0], [0, -1j * S, S], [0, 1j * S, S]])}


def sylm(l, m, s, x):
    """Spin-weighted spherical harmonic (without the azimuthal factor), unit norm in cos(theta)."""
    a, b = abs(m + s), abs(m - s)
    n = l - max(abs(m), abs(s))
    if n < 0:
        return np.zeros_like(x)
    return (-1) ** max(m, -s) * (1 - x) ** (a / 2) * (1 + x) ** (b / 2) * jacobi_poly(n, a, b, x)


def zernike(dim, n, k, l, z):
    """Generalized Zernike function of degree l + 2n in r, z = 2r^2 - 1."""
    if n < 0 or l < 0:
        return np.zeros_like(z)
    return (1 + z) ** (l / 2) * jacobi_poly(n, k, l + dim / 2 - 1, z) * 2 ** ((k + dim / 2 + 1) / 2)


@functools.lru_cache(None)
def cg1(L, s, lam, J):
    """<L s; 1 lam | J s+lam> (Clebsch-Gordan coefficients for coupling with a vector)."""
    M = s + lam
    if abs(s) > L or abs(M) > J or abs(J - L) > 1 or (L == 0 and J == 0):
        return 0.0
    f = {(1, 1): (L + M) * (L + M + 1) / ((2 * L + 1) * (2 * L + 2)),
         (1, 0): (L - M + 1) * (L + M + 1) / ((2 * L + 1) * (L + 1)),
         (1, -1): (L - M) * (L - M + 1) / ((2 * L + 1) * (2 * L + 2))}
    if J == L + 1:
        return math.sqrt(f[1, lam])
    if J == L:
        if L == 0:
            return 0.0
        if lam == 1:
            return -math.sqrt((L + M) * (L - M + 1) / (2 * L * (L + 1)))
        if lam == 0:
            return M / math.sqrt(L * (L + 1))
        return math.sqrt((L - M) * (L + M + 1) / (2 * L * (L + 1)))
    if lam == 1:
        return math.sqrt((L - M) * (L - M + 1) / (2 * L * (2 * L + 1)))
    if lam == 0:
        return -math.sqrt((L - M) * (L + M) / (L * (2 * L + 1)))
    return math.sqrt((L + M + 1) * (L + M) / (2 * L * (2 * L + 1)))


def walk(l, reg):
    """Degrees passed through when coupling from the scalar degree down to l; None if one does not exist."""
    w = [l]
    for a in reversed(reg):
        w.append(w[-1] + a)
        if w[-1] < 0 or (a == 0 and w[-1] == 0):
            return None
    return w[::-1]


@functools.lru_cache(None)
def q(l, spin, reg):
    """Spin component of the tensor harmonic of total degree l with regularity reg."""
    w = walk(l, reg)
    if w is None or abs(sum(spin)) > l:
        return 0.0
    v, s = (-1.0) ** (spin.count(1) + reg.count(1)), 0  # phases of the spin basis and of the regularity classes
    for i, lam in enumerate(spin):
        L, J = w[i], w[i + 1]
        v *= math.sqrt((2 * L + 1) / (2 * J + 1)) * cg1(L, s, lam, J)
        s += lam
    return v


class Curv:
    """kind: disk annulus sphere shell ball rshell rball; tens: tensor index spaces."""

    def __init__(self, kind, shape, real, tens=(), k=0, alpha=None, radii=(1, 2), radius=1):
        self.kind, self.shape, self.real, self.tens = kind, tuple(shape), real, tuple(tens)
        self.k, self.radii, self.radius = k, radii, radius
        self.alpha = alpha if alpha is not None else ((-.5, -.5) if "shell" in kind or kind == "annulus" else 0)
        self.axial = kind in ("rshell", "rball")
        self.comps = list(itertools.product(*[SPINS[t] for t in tens]))
        self.regs = "shell" in kind or "ball" in kind

    # grids -------------------------------------------------------------------------------------
    def colat(self, n):
        return np.sort(roots_jacobi(n, 0, 0)[0])

    def native(self, n):
        if self.kind in ("disk", "ball", "rball"):
            return np.sort(roots_jacobi(n, self.alpha, {"disk": 0, "ball": .5, "rball": .5}[self.kind])[0])
        if self.kind == "sphere":
            return None
        return np.sort(roots_jacobi(n, *self.alpha)[0])

    def radial(self, z, l, n, tau):
        if self.kind == "disk":
            return zernike(2, n, self.k + self.alpha, l, z)
        if self.kind in ("ball", "rball"):
            return zernike(3, n, self.k + self.alpha, l, z)
        r0, r1 = self.radii
        r = r0 + (r1 - r0) * (z + 1) / 2
        return jacobi_poly(n, self.alpha[0] + self.k, self.alpha[1] + self.k, z) * ((r1 - r0) / r) ** self.k

    def mode(self, comp, m, l, n, gs):
        """Coordinate components of a mode on the grid without azimuth: (3 or 2)^rank + grid."""
        rank = len(self.tens)
        if self.kind in ("disk", "annulus"):
            z = self.native(gs[1])
            s = sum(comp)
            f = self.radial(z, abs(m + s), n - abs(m) // 2, 0) if self.kind == "disk" else self.radial(z, 0, n, 0)
            out = {comp: f}
        elif self.kind == "sphere":
            out = {comp: sylm(l, m, sum(comp), self.colat(gs[1]))}
        else:
            z = self.native(gs[2])
            tau = sum(comp)
            nn = n - l // 2 if "ball" in self.kind else n
            f = self.radial(z, l + tau, nn, tau)
            out = {}
            for sp in self.comps:
                Y = np.ones(1) if self.axial else sylm(l, m, sum(sp), self.colat(gs[1]))
                out[sp] = q(l, sp, comp) * Y[:, None] * f[None, :]
        shp = next(iter(out.values())).shape
        T = np.zeros(tuple(len(SPINS[t]) for t in self.tens) + shp, dtype=complex)
        for sp, v in out.items():
            T[tuple(SPINS[t].index(x) for t, x in zip(self.tens, sp))] += v
        for i, t in enumerate(self.tens):
            T = np.moveaxis(np.tensordot(U[t].conj().T, T, axes=(1, i)), 0, i)
        return T

    @functools.lru_cache(None)
    def column(self, comp, m, l, n, gs):
        return self.mode(comp, m, l, n, gs)

    def kept(self, comp, m, l, n, gs):
        """Modes that a grid of shape gs represents (in a basis of this shape)."""
        N = self.shape
        if not self.axial and not (abs(m) <= (N[0] - 1) // 2 and abs(m) <= (gs[0] - 1) // 2):
            return False
        if self.kind == "disk":
            j = n - abs(m) // 2
            return j >= 0 and n < N[1] and j + abs(m + sum(comp)) // 2 < gs[1]
        if self.kind == "annulus":
            return n < min(N[1], gs[1])
        Lmax = 0 if self.axial else (max(0, N[1] - 2) if self.real else N[1] - 1)
        if not (abs(m) <= l <= Lmax and (self.axial or l < gs[1])):
            return False
        if self.kind == "sphere":
            return l >= abs(sum(comp))
        if walk(l, comp) is None:
            return False
        if "shell" in self.kind:
            return n < min(N[2], gs[2])
        j = n - l // 2
        return j >= 0 and n < N[2] and j + (l + sum(comp)) // 2 < gs[2]

    # synthesis / analysis ------------------------------------------------------------------------
    def synth(self, amps, gs):
        """amps: {(comp, m, l, n): complex}."""
        tshape = tuple(len(SPINS[t]) for t in self.tens)
        out = np.zeros(tshape + tuple(gs), dtype=complex)
        ph = 2 * np.pi * np.arange(gs[0]) / gs[0]
        r = len(self.tens)
        for (comp, m, l, n), v in amps.items():
            if v:
                c = self.column(comp, m, l, n, tuple(gs))
                e = np.exp(1j * m * ph).reshape((-1,) + (1,) * (len(gs) - 1))
                if self.real:
                    out += np.real(v * np.expand_dims(c, r) * e)
                else:
                    out += v * np.expand_dims(c, r) * e
        return out.real if self.real else out

    def analyze(self, data, modes, gs):
        """(amplitudes of the kept modes, residual)"""
        r = len(self.tens)
        F = np.fft.fft(data, axis=r) / gs[0]
        amps, fit = {}, np.zeros(data.shape, dtype=complex)
        ph = 2 * np.pi * np.arange(gs[0]) / gs[0]
        for m in sorted({x[1] for x in modes}):
            sel = [x for x in modes if x[1] == m and self.kept(*x, gs)]
            if not sel:
                continue
            c = np.take(F, m % gs[0], axis=r) * (2 if self.real and m else 1)
            A, P = self.inverse(tuple(sel), tuple(gs))
            x = P @ c.reshape(-1)
            back = (A @ x).reshape(c.shape)
            e = np.exp(1j * m * ph).reshape((-1,) + (1,) * (len(gs) - 1))
            f = np.expand_dims(back, r) * e
            fit += f.real if self.real else f
            amps.update(zip(sel, x))
        return amps, float(np.max(np.abs(fit - data), initial=0))

    @functools.lru_cache(None)
    def inverse(self, sel, gs):
        A = np.stack([self.column(*x, gs).reshape(-1) for x in sel], axis=1)
        return A, np.linalg.pinv(A)
