"""Expressions of functions outside polynomials: their values and their symbolic derivatives along directions (C16)."""
import random, numbers
from ded import np, d3
import scipy.special as scp
H = 400          # one over the step of the difference quotients
FV, FD = 10**8, 10**5
DOMAINS = {"absolute": (.3, 1), "sign": (.3, 1), "exp": (-1, 1), "exp2": (-1, 1.5), "log": (.4, 3), "log2": (.4, 3), "log10": (.2, 3), "sqrt": (.3, 3),
           "square": (-1.5, 1.5), "sin": (-3, 3), "cos": (-3, 3), "tan": (-1, 1), "arcsin": (-.7, .7), "arccos": (-.7, .7), "arctan": (-2, 2),
           "sinh": (-1.5, 1.5), "cosh": (-1.5, 1.5), "tanh": (-1.5, 1.5), "arcsinh": (-2, 2), "arccosh": (1.4, 3), "arctanh": (-.7, .7), "erf": (-1.2, 1.2)}
POWERS = [-2, -1, -.5, .5, 1.5, 2, 3]


def affine(rng, x, lo, hi):
    """Numbers a, b with a*x + b within (lo, hi)."""
    mid, half = (x.max() + x.min()) / 2, max((x.max() - x.min()) / 2, .5)
    a = round(rng.choice([-1, 1]) * (hi - lo) / 2 * .9 / half * rng.uniform(.5, 1), 3)
    return a, round((hi + lo) / 2 - a * mid, 3)


def tree(rng, depth, first, leaves):
    """A function of data or of operands, by the names of its leaves; and its text."""
    if depth == 0:
        k = rng.randrange(len(leaves))
        return (lambda e: e[k]), "uw"[k]
    kind = rng.choice(["fn"] * 5 + ["pow", "prod", "sum", "scale"]) if first is None else "fn"
    t, s = tree(rng, depth - 1, None, leaves)
    x = t(leaves)
    if kind == "fn":
        name = first or rng.choice(sorted(DOMAINS))
        a, b = affine(rng, x, *DOMAINS[name])
        f = scp.erf if name == "erf" else getattr(np, name)
        return (lambda e: f(a * t(e) + b)), "%s(%g*%s%+g)" % (name, a, s, b)
    if kind == "pow":
        a, b = affine(rng, x, .5, 2)
        p = rng.choice(POWERS)
        return (lambda e: (a * t(e) + b)**p), "(%g*%s%+g)**%g" % (a, s, b, p)
    if kind == "scale":
        return (lambda e: -2 * t(e)), "-2*" + s
    t2, s2 = tree(rng, rng.randrange(depth), None, leaves)
    if kind == "prod":
        return (lambda e: t(e) * t2(e)), "(%s)*(%s)" % (s, s2)
    return (lambda e: t(e) + t2(e)), "(%s + %s)" % (s, s2)


def ints(x, scale):
    return [int(round(float(v) * scale)) for v in np.ravel(x)]


def drive(seed, n):
    rng = random.Random("deriv/%s" % seed)
    c = d3.Coordinate("x")
    dist = d3.Distributor(c, dtype=np.float64)
    basis = d3.ChebyshevT(c, 4, bounds=(0, 1))
    names = sorted(DOMAINS)
    traces, skipped = [], 0
    while len(traces) < n:
        dom = rng.choice([None, basis])
        u, w = dist.Field(name="u", bases=dom), dist.Field(name="w", bases=dom)
        v, z = dist.Field(name="v", bases=dom), dist.Field(name="z", bases=dom)
        shape = u["g"].shape
        draw = lambda: np.array([round(rng.uniform(-1, 1), 3) for _ in range(int(np.prod(shape)))]).reshape(shape)
        data = [draw(), draw()]
        dirs = [draw(), draw()]
        along = rng.choice([[0], [1], [0, 1]])
        f, text = tree(rng, rng.choice([1, 1, 2, 3]), names[(seed + len(traces) + skipped) % len(names)], data)
        at = lambda k: [d + (k / H * p if i in along else 0) for i, (d, p) in enumerate(zip(data, dirs))]
        if any(not np.all(np.isfinite(y)) or np.abs(y).max() > 15 for y in [f(at(k)) for k in (-2, 0, 2)]):
            skipped += 1
            continue
        for p, d in zip((v, z), dirs):
            p["g"] = d
        expr = f([u, w])

        def put(k):
            for x, d in zip((u, w), at(k)):
                x.preset_layout("g"); x["g"] = d
        vals = []
        for k in (-2, -1, 1, 2, 0):
            put(k)
            vals.append(ints(expr.evaluate()["g"], FV))
        D = expr.frechet_differential([[u, w][i] for i in along], [[v, z][i] for i in along])
        if isinstance(D, numbers.Number):
            dv = np.full(shape, float(D))
        else:
            dv = np.broadcast_to(D.evaluate()["g"], shape)
        if not np.all(np.isfinite(dv)) or np.abs(dv).max() > 600:
            dv = np.full(shape, 600.)          # no slope of these functions is so large
        if max(abs(a - b) for a, b in zip(vals[0], vals[3])) > 10**8:
            skipped += 1
            continue
        traces.append({"cfg": {"expr": text, "along": along, "basis": dom is not None},
                       "ev": [{"op": "value", "got": vals[4], "want": ints(np.broadcast_to(f(data), shape), FV)},
                              {"op": "deriv", "vals": vals[:4], "got": ints(dv, FD)}]})
    return {"traces": traces}
