"""
C08, C09: objective against scipy's log-probabilities, derivatives against
jets of an independent objective.
"""
import numpy as np
from hypothesis import strategies as st
from core import Prop, Target
import estim as E
import refmodel as R


def reference(ctx, p, vals):
    try:
        r = E.Reference(p, vals)
    except R.OutOfDomain as e:
        ctx.skip(str(e))
    if not r.ok:
        ctx.skip("model values outside the domain of the distribution")
    return r


def shift(p, d):
    """second parameter vector: every entry moved by its own amount"""
    out, k = [], 0
    for a in E.arrays(p):
        n = a.size
        out.append(a + np.resize(d[k % len(d):] + d, n).reshape(a.shape))
        k += n
    return out


def wrap(vals, form, ms=None):
    from maxlike import Param
    if form == "param":
        return tuple(Param(v) for v in vals)
    if form == "list":
        return [v.tolist() for v in vals]
    if form == "tuple":
        return tuple(v if v.ndim else float(v) for v in vals)
    return [v if v.ndim else float(v) for v in vals]


def labels(ctx, p):
    ctx.label(p["dist"], "constraints %d" % len(p["cons"]),
              "penalties %d" % len(p["reg"]), "features %d" % len(p["feat"]))
    if any(m.any() for m in E.masks(p)):
        ctx.label("fixed entries")
    if E.data(p)["N"].min() == 0:
        ctx.label("empty cells")


def raised(draw, p):
    """rates, or numbers of observations, of another order of magnitude"""
    if draw(st.integers(0, 7)) == 0:
        p["w"] = p.get("w", 1) * draw(st.sampled_from([40, 1000, 1 / 64.0]))
    # next to no zeros are expected, but the rate is low
    odd = p["dist"] == "ZeroInflatedPoisson" and (p["s"] or 1) < 0.5
    if p["dist"] not in E.LOGLINK or p.get("bad") or \
            draw(st.integers(0, 2 if odd else 4)):
        return p
    b = draw(st.sampled_from([-6.0, -3.0, -4.0, 6.0] if odd else
                             [6.75, 6.0, 4.0, 7.25, -6.0]))
    p["model"] = {"t": "Affine", "f": p["model"], "a": 1, "b": b,
                  "via": "ctor"}
    if p["dist"] != "Logistic" and b > 0:
        k = draw(st.sampled_from([10, 100, 150]))
        p["obs"] = [[x * k for x in o] for o in p["obs"]]
    return p


# -- C08 --------------------------------------------------------------------
@st.composite
def c08_strategy(draw, tier):
    p = raised(draw, draw(E.generic(depth=1, cons=1)))
    return {"p": p, "d": draw(st.lists(st.integers(-8, 8).map(
        lambda k: k / 16.0), min_size=1, max_size=4)),
        "form": draw(st.sampled_from(["param", "list", "array", "tuple"])),
        "giveny": draw(st.booleans())}


def c08_check(spec, ctx):
    p = spec["p"]
    a = E.arrays(p)
    b = shift(p, spec["d"])
    ra, rb = reference(ctx, p, a), reference(ctx, p, b)
    e = ctx.call("estimator", E.estimator, p)
    ctx.call("loading the data", E.load, e, p)
    n = E.data(p)["N"].sum()

    def objective(vals, r):
        P = wrap(vals, spec["form"])
        if spec["giveny"]:
            y = ctx.call("model", e.model, P)
            g = ctx.call("g", e.g, P, y)
        else:
            g = ctx.call("g", e.g, P)
        ctx.require(isinstance(g, float), "g returns %s instead of a number",
                    type(g).__name__)
        pen = r.like - r.L              # penalties
        return g * n, E.logpmf(p, r.y) - pen
    ga, la = objective(a, ra)
    gb, lb = objective(b, rb)
    sc = 1e-8 * (1 + abs(la) + abs(lb) + abs(ra.like) + abs(rb.like) + n)
    ctx.require(abs((ga - gb) - (la - lb)) <= sc,
                "%s: the total objective changes by %r instead of %r",
                p["dist"], ga - gb, la - lb)
    # without aggregation there is no constant
    single = p["dist"] in E.FINITE or p["dist"] == "Logistic" or (
        p.get("w", 1) == 1 and all(len(o) == 1 for o in p["obs"]))
    if single:
        ctx.label("absolute")
        ctx.require(abs(ga - la) <= sc, "%s: total objective %r instead of "
                    "the log-probability %r", p["dist"], ga, la)
    # the parameters of the estimator are the default start of a fit
    labels(ctx, p)
    ctx.nontrivial = abs(la - lb) > 1e-6 * (1 + abs(la))


# -- C09 --------------------------------------------------------------------
@st.composite
def c09_strategy(draw, tier):
    return {"p": raised(draw, draw(E.generic())), "onepass": draw(st.booleans())}


def c09_check(spec, ctx):
    p = spec["p"]
    if E.free_count(p) == 0:
        ctx.skip("no free entries")
    r = reference(ctx, p, E.arrays(p))
    e = ctx.call("estimator", E.estimator, p)
    ctx.call("loading the data", E.load, e, p)
    P = e.params
    if spec["onepass"]:
        y, der, hess = ctx.call("model.eval", e.model.eval, P)
    else:
        y = ctx.call("model", e.model, P)
        der = ctx.call("model.grad", e.model.grad, P)
        hess = ctx.call("model.hess", e.model.hess, P)
    g = ctx.call("flat_grad", e.flat_grad, P, y, der)
    H = ctx.call("flat_hess", e.flat_hess, P, y, der, hess)
    want = np.concatenate([r.gf, r.c])
    big = 1 + r.n + abs(r.L)
    ctx.close("%s: flat gradient" % p["dist"], g, want,
              atol=1e-8 * (big + np.abs(want).max(initial=0)))
    W = r.bordered()
    ctx.close("%s: flat Hessian" % p["dist"], H, W,
              atol=1e-8 * (big + np.abs(W).max(initial=0)))
    labels(ctx, p)
    if not np.any(r.gf):
        ctx.label("null gradient")
    ctx.nontrivial = bool(np.count_nonzero(r.Hf) > 0 and np.any(r.gf))


DOMAIN = ["model values within [-20, 20] (Poisson 8, zero-inflated 4); "
          "finite distributions with probabilities above 1e-6",
          "linear constraints; penalties: Linear, Quadratic, scaled and "
          "shifted ones, and collapsed models"]
PROPS = {
    "C08": Prop("C08", [Target("objective", c08_strategy, c08_check, 4000)],
                "the two parameter vectors have different log-probabilities",
                DOMAIN),
    "C09": Prop("C09", [Target("derivatives", c09_strategy, c09_check, 6000)],
                "gradient and Hessian are not null", DOMAIN),
}
