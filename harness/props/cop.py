"""
C21, C22: copulas against their defining formulas (50-digit arithmetic, an
independent bivariate normal integral) and metamorphic relations.
"""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr, ndtri
import refmodel as R
from core import Prop, Target

TOL = 1e-9
FAMILIES = ["Gaussian", "Clayton", "Gumbel", "Frank", "AkiMikhailHaq"]
_X, _W = np.polynomial.legendre.leggauss(200)


# -- independent formulas ---------------------------------------------------
def phi2(h, k, r):
    """bivariate normal distribution function (Sheppard's integral)"""
    if h == -np.inf or k == -np.inf:
        return 0.0
    if h == np.inf or k == np.inf:
        return float(ndtr(min(h, k)))
    t = np.arcsin(r)
    s = t * (_X + 1) / 2
    f = np.exp(-(h * h + k * k - 2 * h * k * np.sin(s)) / (2 * np.cos(s)**2))
    return float(ndtr(h) * ndtr(k) + (f * _W).sum() * t / (4 * np.pi))


def formula(fam, a, u, v):
    """C(u, v) of floats in [0, 1]"""
    if u <= 0 or v <= 0:
        return 0.0
    if u >= 1 or v >= 1:
        return float(min(u, v))
    if fam == "Gaussian":
        return phi2(ndtri(u), ndtri(v), a)
    with mp.workdps(50 + (int(abs(a)) if fam == "Frank" else 0)):
        u, v, a = mp.mpf(u), mp.mpf(v), mp.mpf(a)
        if fam == "Clayton":
            c = (u**-a + v**-a - 1)**(-1 / a)
        elif fam == "Gumbel":
            c = mp.exp(-((-mp.log(u))**a + (-mp.log(v))**a)**(1 / a))
        elif fam == "Frank":
            c = -mp.log(1 + mp.expm1(-a * u) * mp.expm1(-a * v)
                        / mp.expm1(-a)) / a
        else:
            c = u * v / (1 - a * (1 - u) * (1 - v))
        return float(c)


def cumulative(w):
    """cumulative probabilities of weights, correctly rounded"""
    tot = mp.mpf(0)
    c = []
    for x in w:
        tot += mp.mpf(float(x))
        c.append(tot)
    return [float(x / tot) for x in c]


# -- generators -------------------------------------------------------------
def logfloat(lo, hi):
    return st.floats(np.log(lo), np.log(hi)).map(
        lambda x: float(np.round(np.exp(x), 6)))


def parameter(fam):
    r = lambda lo, hi: st.floats(lo, hi).map(lambda x: round(x, 4))
    return {
        "Gaussian": r(-.98, .98),
        "Clayton": st.one_of(r(.05, 6), logfloat(1e-3, 400)),
        "Gumbel": st.one_of(st.just(1.0), r(1, 6), logfloat(1, 400)),
        "Frank": st.one_of(r(.1, 8), r(-8, -.1), logfloat(1e-3, 300),
                           logfloat(1e-3, 300).map(lambda x: -x)),
        "AkiMikhailHaq": st.one_of(
            r(-.99, .99), logfloat(1e-3, .3).map(lambda x: 1 - x),
            st.sampled_from([-1., 0.])),
    }[fam]


WEIGHT = st.one_of(
    st.floats(.01, 5).map(lambda x: round(x, 3)),
    st.floats(-8, 0).map(lambda x: float("%.3g" % 10**x)),
    st.integers(1, 9).map(float),
    st.just(0.0))


@st.composite
def marginal(draw, batch, n):
    size = int(np.prod(batch, dtype=int))
    rows = []
    for _ in range(size):
        w = draw(st.lists(WEIGHT, min_size=n, max_size=n))
        if sum(w) < 1e-3:
            w[draw(st.integers(0, n - 1))] = 1.0
        rows.append(w)
    return np.array(rows).reshape(list(batch) + [n]).tolist()


@st.composite
def problem(draw, tier, pair=False):
    fam = draw(st.sampled_from(FAMILIES))
    batch = [draw(st.integers(1, 3))
             for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    # batch axes broadcast
    bx = [1 if draw(st.integers(0, 5)) == 0 else b for b in batch]
    by = [1 if draw(st.integers(0, 5)) == 0 else b for b in batch]
    spec = {"family": fam, "a": draw(parameter(fam)),
            "x": draw(marginal(bx, draw(st.sampled_from(
                [2, 3, 4, 5, 6, 1])))),
            "y": draw(marginal(by, draw(st.sampled_from(
                [2, 3, 4, 5, 6, 1])))),
            "form": draw(st.sampled_from(
                ["array", "list", "int", "tensor", "tuple", "transposed",
                 "strided", "readonly"]))}
    if pair:
        spec["b"] = draw(parameter(fam))
        spec["k"] = draw(logfloat(1e-3, 1e4))
        spec["l"] = draw(logfloat(1e-3, 1e4))
    return spec


def marginals(spec):
    x, y = np.array(spec["x"]), np.array(spec["y"])
    if spec["form"] == "int":
        x, y = np.ceil(x).astype(int), np.ceil(y).astype(int)
    return x, y


def as_args(form, x, y):
    from maxlike import Tensor
    if form == "list":
        return [x.tolist(), y.tolist()]
    if form == "tensor":
        return [Tensor(x), Tensor(y)]
    if form == "tuple":
        return (x, y)
    return [R.stored(x, form), R.stored(y, form)]


def joint(ctx, fam, a, x, y, form="array"):
    from maxlike import copula
    c = ctx.call(fam, getattr(copula, fam), a)
    r = ctx.call(fam, c, as_args(form, x, y))
    with ctx.lib(fam):
        out = np.asarray(r.toarray(), dtype=float)
    want = np.broadcast_shapes(x.shape[:-1], y.shape[:-1]) + \
        (x.shape[-1], y.shape[-1])
    ctx.require(out.shape == want, "%s: shape %s instead of %s",
                fam, out.shape, want)
    ctx.require(bool(np.isfinite(out).all()), "%s: not finite", fam)
    return out


def nontrivial(spec, x, y):
    return x.shape[-1] > 1 and y.shape[-1] > 1 and \
        spec["a"] != (1 if spec["family"] == "Gumbel" else 0)


# -- C21 --------------------------------------------------------------------
def c21_check(spec, ctx):
    fam, a = spec["family"], spec["a"]
    x, y = marginals(spec)
    out = joint(ctx, fam, a, x, y, spec["form"])
    batch = out.shape[:-2]
    X = np.broadcast_to(x, batch + x.shape[-1:])
    Y = np.broadcast_to(y, batch + y.shape[-1:])
    ctx.require(bool((out > -1e-11).all()), "%s(%r): negative probability %r",
                fam, a, float(out.min()))
    ctx.close("%s: total" % fam, out.sum((-1, -2)), np.ones(batch), TOL)
    ctx.close("%s: row sums" % fam, out.sum(-1),
              X / X.sum(-1, keepdims=True), TOL)
    ctx.close("%s: column sums" % fam, out.sum(-2),
              Y / Y.sum(-1, keepdims=True), TOL)
    cdf = out.cumsum(-1).cumsum(-2)
    for k in np.ndindex(*batch):
        u, v = cumulative(X[k]), cumulative(Y[k])
        want = np.array([[formula(fam, a, p, q) for q in v] for p in u])
        ctx.close("%s(%r): cumulative distribution" % (fam, a), cdf[k], want,
                  TOL)
        pad = np.pad(want, ((1, 0), (1, 0)))
        ctx.close("%s(%r): probabilities" % (fam, a), out[k],
                  np.diff(np.diff(pad, axis=0), axis=1), TOL)
    ctx.label(fam, "batch axes %d" % len(batch), spec["form"])
    if (x == 0).any() or (y == 0).any():
        ctx.label("zero mass")
    ctx.nontrivial = nontrivial(spec, x, y)


# -- C22 --------------------------------------------------------------------
# (parameter, bound of the distance to independence)
INDEPENDENT = {"Gaussian": [(0, 1e-9)], "Gumbel": [(1, 1e-9), (1.0, 1e-9)],
               "AkiMikhailHaq": [(0, 1e-9)],
               "Clayton": [(1e-4, 1e-4), (1e-6, 1e-6)],
               "Frank": [(1e-4, 1e-4), (-1e-4, 1e-4), (1e-6, 1e-6),
                         (-1e-6, 1e-6)]}


def c22_check(spec, ctx):
    fam, a, b = spec["family"], spec["a"], spec["b"]
    x, y = marginals(spec)
    form = spec["form"]
    out = joint(ctx, fam, a, x, y, form)
    batch = out.shape[:-2]
    X = np.broadcast_to(x, batch + x.shape[-1:])
    Y = np.broadcast_to(y, batch + y.shape[-1:])
    X = X / X.sum(-1, keepdims=True)
    Y = Y / Y.sum(-1, keepdims=True)
    indep = X[..., None] * Y[..., None, :]
    for r, tol in INDEPENDENT[fam]:
        ctx.close("%s(%r): product of the marginals" % (fam, r),
                  joint(ctx, fam, r, x, y, form), indep, atol=tol)
    ctx.close("%s(%r): exchanged marginals" % (fam, a),
              joint(ctx, fam, a, y, x, form).swapaxes(-1, -2), out, TOL)
    ctx.close("%s(%r): marginals scaled by %r and %r"
              % (fam, a, spec["k"], spec["l"]),
              joint(ctx, fam, a, spec["k"] * x, spec["l"] * y), out, TOL)
    lo, hi = (a, b) if a <= b else (b, a)
    cum = lambda r: joint(ctx, fam, r, x, y).cumsum(-1).cumsum(-2)
    cl, ch = cum(lo), cum(hi)
    ctx.require(bool((ch - cl > -TOL).all()), "%s: the joint cumulative "
                "distribution at %r is below the one at %r (by %r)",
                fam, hi, lo, float((cl - ch).max()))
    u, v = X.cumsum(-1)[..., None], Y.cumsum(-1)[..., None, :]
    ctx.require(bool((ch - np.minimum(u, v) < TOL).all()),
                "%s(%r): above the upper bound", fam, hi)
    ctx.require(bool((cl - (u + v - 1) > -TOL).all() and (cl > -TOL).all()),
                "%s(%r): below the lower bound", fam, lo)
    ctx.label(fam, "batch axes %d" % len(batch), form)
    ctx.nontrivial = nontrivial(spec, x, y) and a != b


PROPS = {
    "C21": Prop("C21", [Target("formula", problem, c21_check, 12000)],
                "both marginals have several outcomes and the parameter is "
                "not the independence one",
                ["parameters away from the degenerate limits: Gaussian "
                 "|rho| <= 0.98, AMH rho < 1, Clayton and Gumbel up to 400, "
                 "Frank up to 300 in absolute value",
                 "marginals have a positive total; agreement to 1e-9"]),
    "C22": Prop("C22", [Target("relations",
                               lambda tier: problem(tier, pair=True),
                               c22_check, 16000)],
                "both marginals have several outcomes and the two parameters "
                "differ",
                ["as C21; independence limits of Clayton and Frank are "
                 "checked at 1e-4 and 1e-6 with a bound of that order"]),
}
