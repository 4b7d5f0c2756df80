"""
C23-C26: distributions and scoring functions against independent recomputation
(scipy probability mass functions, step-by-step recursions on jets).
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from core import Prop, Target
import jet
import modelgen as M
import refmodel as R

RTOL = 1e-8


def shape(draw, max_axes=3):
    return [draw(st.integers(1, 3))
            for _ in range(draw(st.sampled_from(range(max_axes + 1))))]


def wrap_args(form, arrs):
    from maxlike import Param, Tensor
    if form == "param":
        return [Param(a) for a in arrs]
    if form == "tensor":
        return [Tensor(a) for a in arrs]
    if form == "list":
        return [a.tolist() for a in arrs]
    if form == "int":
        return [a.astype(int) for a in arrs]
    if form in R.STORED[3:]:
        return [R.stored(a, form) for a in arrs]
    return [a if a.ndim else float(a) for a in arrs]


def derivatives(ctx, what, f, node, arrs, args, form, scale=1.0, rtol=RTOL):
    """value, gradients and Hessians (separately and in one pass) against the
    reference jets of the elementwise function `node`; returns the value"""
    js = jet.seeds(arrs)
    P = js[0].P
    try:
        j, n, d = R.ev(node, [(x, x.ndim, 0) for x in js], P)
    except R.OutOfDomain as e:
        ctx.skip(str(e))
    v, g, h = j.full()
    if not (np.isfinite(h).all() and np.isfinite(g).all()):
        ctx.skip("reference not finite")
    off = np.cumsum([0] + [a.size for a in arrs])
    val = ctx.call(what, f, args)
    with ctx.lib(what):
        got = val.toarray()
        dims = (val.n, val.dim)
    ctx.require(dims == (n, d), "%s: axis counts (n, dim) are %s instead of "
                "%s", what, dims, (n, d))
    ctx.close(what, got, v, rtol)
    one = ctx.call(what + ".eval", f.eval, args)
    with ctx.lib(what + ".eval"):
        ctx.close(what + ".eval value", one[0].toarray(), v, rtol)
    gs, hs = rtol * (1 + np.abs(g).max()), rtol * (1 + np.abs(h).max())
    for i in range(len(arrs)):
        want = g[off[i]:off[i + 1]].reshape(arrs[i].shape + v.shape)
        t = ctx.call("%s.grad(%d)" % (what, i), f.grad, args, i)
        for nm, x in (("grad", t), ("eval gradient", one[1][i])):
            with ctx.lib(what + "." + nm):
                a = x.toarray()
            ctx.close("%s.%s %d" % (what, nm, i), a, want, atol=gs,
                      bcast=True)
        for k in range(i + 1):
            want = h[off[i]:off[i + 1], off[k]:off[k + 1]].reshape(
                arrs[i].shape + arrs[k].shape + v.shape)
            t = ctx.call("%s.hess(%d, %d)" % (what, i, k), f.hess, args, i, k)
            with ctx.lib(what):
                e = one[2][i][k]
            for nm, x in (("hess", t), ("eval Hessian", e)):
                with ctx.lib(what + "." + nm):
                    a = x.toarray()
                ctx.close("%s.%s %d, %d" % (what, nm, i, k), a, want,
                          atol=hs, bcast=True)
    return got


# -- C23 ------------------------------------------------------------------------
RATES = st.one_of(st.sampled_from([1.0, 0.5, 2.0, 0.125, 3.0, 10.0]),
                  st.floats(-6, 3).map(lambda x: round(float(np.exp(x)), 6)))


@st.composite
def count_case(draw):
    big = draw(st.integers(0, 5)) == 0
    sh = [draw(st.integers(1, 2))] if big else shape(draw)
    n = int(np.prod(sh)) if sh else 1
    t = draw(st.sampled_from(["Poisson", "LogNB", "NB"]))
    form = draw(st.sampled_from(["array", "param", "tensor", "list", "int",
                                 "transposed", "strided"]))
    if form == "int":
        el = st.integers(0 if t == "Poisson" else 1, 120 if big else 9)
        if big:
            el = st.one_of(el, st.integers(121, 400))
    elif big:
        el = st.one_of(RATES, st.sampled_from([25.0, 50.0, 99.5, 170.0]))
        if t != "Poisson":
            el = st.one_of(el, st.sampled_from([3000.0, 2e4]))
    elif t == "Poisson":
        el = st.one_of(RATES, st.just(0.0))
    else:
        el = RATES
    vals = [draw(el) for _ in range(n)]
    s = {"t": t, "shape": sh, "m": vals, "form": form,
         "size": draw(st.one_of(st.integers(13, 60),
                                st.sampled_from([30, 170, 171, 172, 250]))
                      if big else st.one_of(st.integers(1, 12), st.just(10)))}
    if t != "Poisson":
        s["r"] = draw(st.one_of(
            st.sampled_from([1, 2, 0.5, 5]),
            st.floats(-2.5, 3.5).map(lambda x: round(float(np.exp(x)), 5))))
    return s


def check_count(spec, ctx):
    t, size = spec["t"], spec["size"]
    m = np.array(spec["m"], dtype=float).reshape(spec["shape"])
    node = {"t": t, "size": size}
    x = np.arange(size)
    if t == "Poisson":
        pmf = stats.poisson.pmf(x, m[..., None]) * np.exp(m[..., None])
    else:
        r = node["r"] = spec["r"]
        pmf = stats.nbinom.pmf(x, r, r / (r + m[..., None]))
        if t == "LogNB":
            pmf = stats.nbinom.logpmf(x, r, r / (r + m[..., None]))
    f = ctx.call("building " + t, R.build, node)
    args = wrap_args(spec["form"], [m])
    got = derivatives(ctx, t, f, node, [m], args, spec["form"])
    # element by element, relative
    ctx.require(np.all(np.abs(got - pmf) <= 1e-9 + 1e-8 * np.abs(pmf)),
                "%s differs from the probability mass function by %.1e",
                t, np.abs(got - pmf).max())
    if t != "LogNB":
        ctx.require((got >= 0).all(), "negative probability")
    ctx.nontrivial = size > 2 and m.size > 1
    ctx.label(t, "axes:%d" % m.ndim, "form:" + spec["form"])


# -- C24 ------------------------------------------------------------------------
SKEW = st.sampled_from([1.0, 0.5, 0.75, 0.25, 0.9, 0.0, 1.25])


@st.composite
def markov_case(draw, big):
    sh = shape(draw, 2)
    n = int(np.prod(sh)) if sh else 1
    t = draw(st.sampled_from(["MM", "MV"]))
    size = draw(st.integers(1, 5 if big else 4))
    steps = draw(st.integers(1, 9 if big else 6))
    k = draw(st.integers(0, 39))        # the default size, or steps, or both
    if k < 3 and n <= 3:
        size, steps = [(8, 18), (8, steps), (size, 18)][k]
    fr = [(draw(st.integers(1, 40)), draw(st.integers(1, 40)))
          for _ in range(n)]
    if draw(st.integers(0, 4)) == 0:            # rare events
        tiny = st.sampled_from([1, 0.01, 1e-3, 1e-6])
        fr = [(x * draw(tiny), y * draw(tiny)) for x, y in fr]
    # fractions of a step: a + b < 1
    a = [x / 82.0 * steps for x, _ in fr]
    b = [y / 82.0 * steps for _, y in fr]
    sk = None
    if draw(st.integers(0, 3)):
        if t == "MM":
            sk = [[draw(SKEW) for _ in range(size)] for _ in range(size)]
        else:
            sk = [draw(SKEW) for _ in range(2 * size - 1)]
    return {"t": t, "size": size, "steps": steps, "a": a, "b": b, "skew": sk,
            "shape": sh, "form": draw(st.sampled_from(
                ["array", "param", "tensor"]))}


def check_markov(spec, ctx):
    t = spec["t"]
    a = np.array(spec["a"]).reshape(spec["shape"])
    b = np.array(spec["b"]).reshape(spec["shape"])
    node = {k: spec[k] for k in ("t", "size", "steps", "skew")}
    f = ctx.call("building " + t, R.build, node)
    args = wrap_args(spec["form"], [a, b])
    got = derivatives(ctx, t, f, node, [a, b], args, spec["form"], rtol=1e-9)
    ax = (-1, -2) if t == "MM" else -1
    tot = got.sum(ax)
    ctx.close("total probability", tot, np.ones(tot.shape), 1e-10)
    sk = np.ones(1) if spec["skew"] is None else np.array(spec["skew"])
    if sk.max() * ((a + b).max() / spec["steps"]) <= 1:
        ctx.require((got >= -1e-12).all(), "negative probability %r",
                    float(got.min()))
    for i in range(2):
        g = ctx.call("grad", f.grad, args, i).toarray()
        ctx.close("sum of the derivatives", g.sum(ax),
                  np.zeros(a.shape + a.shape), 1e-9)
    # batch entries are independent
    if a.size > 1:
        k = np.unravel_index(a.size - 1, a.shape)
        one = ctx.call(t, f, [float(a[k]), float(b[k])]).toarray()
        ctx.close("single entry vs the batch", got[k], one, 1e-10)
    ctx.nontrivial = spec["size"] > 1 and spec["skew"] is not None
    ctx.label(t, "axes:%d" % a.ndim)


# -- C25 ------------------------------------------------------------------------
PROB = st.one_of(
    st.integers(1, 15).map(lambda k: k / 16.0),
    st.integers(1, 9999).map(lambda k: k / 10000.0),
    st.sampled_from([1e-6, 1 - 1e-6, 0.002, 0.998]))


@st.composite
def tennis_case(draw):
    axes = draw(st.sampled_from([1, 0, 1, 2]))
    sh = [draw(st.integers(1, 4)) for _ in range(axes)]
    n = int(np.prod(sh)) if sh else 1
    t = draw(st.sampled_from(["Game", "TieBreak", "Set"]))
    return {"t": t, "shape": sh, "p": [draw(PROB) for _ in range(n)],
            "q": [draw(PROB) for _ in range(n)] if t == "Set" else None,
            "form": draw(st.sampled_from(["array", "param", "tensor",
                                          "transposed", "readonly"]))}


def check_tennis(spec, ctx):
    t = spec["t"]
    arrs = [np.array(spec["p"]).reshape(spec["shape"])]
    if t == "Set":
        arrs.append(np.array(spec["q"]).reshape(spec["shape"]))
    f = ctx.call("building " + t, R.build, {"t": t})
    args = wrap_args(spec["form"], arrs)
    js = jet.seeds(arrs)
    if t == "Set":
        j = jet.stack_last(R.set_probs(js[0], js[1]))
    else:
        j = jet.stack_last(R.race(js[0], 4 if t == "Game" else 7))
    v, g, h = j.full()
    nax = arrs[0].ndim
    size = arrs[0].size

    def align(a):
        return a

    with ctx.lib(t):
        val = f(args)
        got = val.toarray()
        dims = (val.n, val.dim)
    ctx.require(dims == (nax, 1), "%s: axis counts (n, dim) are %s", t, dims)
    if nax == 2 and not spec.get("strict"):
        # known finding: the two feature axes come out swapped.  Any other
        # difference is still reported.
        with ctx.lib(t + " of a 2x1 array"):
            probe = f([np.array([[0.25], [0.75]])] * len(arrs)).toarray()
        if probe.shape[:2] == (1, 2):
            ctx.label("swapped feature axes (known finding)")
            got = np.swapaxes(got, 0, 1)

            def align(a):
                return np.swapaxes(a, -3, -2)
    ctx.close(t, got, v, 1e-9)
    ctx.require((got >= 0).all(), "%s: negative probability", t)
    # with the opponent's probabilities: one
    with ctx.lib(t + " (opponent)"):
        opp = f([1 - a for a in arrs]).toarray()
    if nax == 2:
        opp = align(opp)
    ctx.close("%s: total with the opponent" % t, (got + opp).sum(-1),
              np.ones(got.shape[:-1]), 1e-9)
    # derivatives, from the stored values along the diagonal
    off = np.cumsum([0] + [a.size for a in arrs])
    for i in range(len(arrs)):
        want = g[off[i]:off[i + 1]].reshape(arrs[i].shape + v.shape)
        diag(ctx, "%s.grad(%d)" % (t, i), lambda: f.grad(args, i), want,
             nax, 1, align)
        for k in range(i + 1):
            want = h[off[i]:off[i + 1], off[k]:off[k + 1]].reshape(
                arrs[i].shape + arrs[k].shape + v.shape)
            diag(ctx, "%s.hess(%d, %d)" % (t, i, k),
                 lambda: f.hess(args, i, k), want, nax, 2, align)
    ctx.nontrivial = size > 1
    ctx.label(t, "axes:%d" % nax)


def diag(ctx, what, fn, want, nax, times, align):
    x = ctx.call(what, fn)
    with ctx.lib(what):
        a = np.asarray(x.toarray())
    if nax < 2:
        ctx.close(what, a, want, 1e-7, bcast=True)
        return
    # two feature axes (see the known finding): compare the entries that are
    # not zero by the diagonal structure
    with ctx.lib(what):
        vals = np.asarray(x.values)
    if vals.ndim == 0:
        ctx.close(what, vals, 0.0)
        return
    lead = nax * times
    with ctx.lib(what):
        vals = vals.reshape(vals.shape[lead:])
    n1, n2 = want.shape[:2]
    d = np.empty((n1, n2, want.shape[-1]))
    for i in range(n1):
        for k in range(n2):
            d[i, k] = want[(i, k) * (times + 1)]
    ctx.close(what, align(vals), d, 1e-7)


# -- C26 ------------------------------------------------------------------------
@st.composite
def region_case(draw):
    sh = shape(draw, 3)
    sx, sy = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    c = draw(st.sampled_from(["default", "one", "list", "list"]))
    co = st.sampled_from([1, -1, 0, 2, -2, 3, 0.5])
    cond = st.tuples(co, co, st.sampled_from([0, 1, -1, 2, -3, 0.5]),
                     st.sampled_from([1, 0, -1])).map(list)
    conds = None if c == "default" else draw(cond) if c == "one" else \
        draw(st.lists(cond, min_size=1, max_size=4))
    return {"shape": sh, "sx": sx, "sy": sy, "conds": conds,
            "a": draw(st.integers(1, 96)), "b": draw(st.integers(0, 96)),
            "form": draw(st.sampled_from(["array", "tensor", "tensor",
                                          "param", "int", "transposed",
                                          "reversed"]))}


def check_region(spec, ctx):
    from maxlike import Tensor, Param
    from maxlike.func import CollapseMatrix
    sh = tuple(spec["shape"]) + (spec["sx"], spec["sy"])
    n = int(np.prod(sh))
    i = np.arange(n)
    M_ = (((spec["a"] * (i + 1) + spec["b"] * (i + 1) ** 2) % 97) /
          97.0).reshape(sh)
    form = spec["form"]
    if form == "int":
        M_ = np.round(M_ * 97)
        arg = M_.astype(int)
    elif form == "tensor":
        arg = Tensor(M_, dim=2)
    elif form == "param":
        arg = Param(M_)
    else:
        arg = R.stored(M_, form)
    conds = spec["conds"]
    if conds is None:
        f = ctx.call("CollapseMatrix()", CollapseMatrix)
        cl = [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)]
    elif isinstance(conds[0], list):
        cl = [tuple(c) for c in conds]
        f = ctx.call("CollapseMatrix(list)", CollapseMatrix, list(cl))
    else:
        cl = [tuple(conds)]
        f = ctx.call("CollapseMatrix(tuple)", CollapseMatrix, tuple(conds))
    k = len(cl)
    want = np.zeros(sh[:-2] + (k,))
    gr = np.zeros((spec["sx"], spec["sy"], k))
    for c, (A, B, C, s) in enumerate(cl):
        for x in range(spec["sx"]):
            for y in range(spec["sy"]):
                z = A * x + B * y + C
                if (z > 0) - (z < 0) == s:
                    want[..., c] += M_[..., x, y]
                    gr[x, y, c] = 1
    val = ctx.call("CollapseMatrix", f, [arg])
    with ctx.lib("CollapseMatrix"):
        got = val.toarray()
        dims = (val.n, val.dim)
    ctx.require(dims == (len(sh) - 2, 1), "axis counts (n, dim) are %s", dims)
    ctx.close("region sums", got, want, 1e-11)
    if conds is None:
        ctx.close("total over the default regions", got.sum(-1),
                  M_.sum((-1, -2)), 1e-11)
    # derivative: entry [f.., x, y | f'.., c] is 1 if f == f' and (x, y) in c
    feats = sh[:-2]
    m = int(np.prod(feats)) if feats else 1
    eye = np.eye(m)
    wg = np.einsum("ab,xyc->axybc", eye, gr).reshape(
        feats + (spec["sx"], spec["sy"]) + feats + (k,))
    t = ctx.call("CollapseMatrix.grad", f.grad, [arg], 0)
    with ctx.lib("CollapseMatrix.grad"):
        a = t.toarray()
    ctx.close("derivatives", a, wg, 1e-12, bcast=True)
    with ctx.lib("CollapseMatrix.hess"):
        hz = np.asarray(f.hess([arg], 0, 0).toarray())
    ctx.require(not hz.any(), "second derivatives aren't zero")
    ctx.nontrivial = 0 < gr.sum() < gr.size or conds is None and n > 4
    ctx.label("axes:%d" % len(feats), "conditions:%d" % k)


PROPS = {
    "C23": Prop("C23", [Target("count", lambda tier: count_case(),
                               check_count, 12000)],
                "random arrays of rates (0-3 axes), sizes and scales; oracle: "
                "scipy.stats pmfs and second-order jets; non-trivial = more "
                "than one rate and more than two outcomes"),
    "C24": Prop("C24", [Target("markov", lambda tier: markov_case(
        tier == "thorough"), check_markov, 2400, thorough=10)],
                "random intensities (0-2 axes), steps, sizes and skew tables; "
                "oracle: propagation of the distribution of the chain step by "
                "step on jets; non-trivial = size above one and a skew table",
                ["non-negativity is required when the skewed step "
                 "probabilities stay in [0, 1]"]),
    "C25": Prop("C25", [Target("tennis", lambda tier: tennis_case(),
                               check_tennis, 8000)],
                "random arrays of probabilities (0-2 axes); oracle: "
                "point-by-point / game-by-game recursion on jets; "
                "non-trivial = more than one probability",
                ["with two feature axes the result may have them swapped "
                 "(known finding)"]),
    "C26": Prop("C26", [Target("region", lambda tier: region_case(),
                               check_region, 16000)],
                "random matrices (0-3 feature axes, any shape) and sign "
                "conditions; oracle: loop over the outcome pairs; "
                "non-trivial = a region that is neither empty nor full, or "
                "the default regions on more than four entries"),
}
