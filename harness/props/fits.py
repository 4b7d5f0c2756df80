"""
C10, C11, C12, C14, C15: fits of generated estimation problems against the
optimality conditions, an independent optimiser and the documented formulas.
"""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from core import Prop, Target
import estim as E
import refmodel as R

STEP = st.integers(-6, 6).map(lambda k: k / 16)
DELTA = st.lists(STEP, min_size=3, max_size=7)
METHODS = st.sampled_from(["Newton", "newton", "Broyden", "broyden"])
# gain still to be had at a fit's result, as a multiple of tol * |objective|
# (largest seen in 10^4 fits: 1e-6 and 0.2)
GAIN = {"newton": 0.01, "broyden": 20.0}


# -- shared -----------------------------------------------------------------
def problem(ctx, p, delta, contract=False):
    """-> optimum, Reference at it, feasible start; contract: so close to the
    optimum that a full Newton step makes up for nine tenths of the gap"""
    try:
        s = E.solve(p)
    except R.OutOfDomain as e:
        ctx.skip(str(e))
    if isinstance(s, str):
        ctx.skip(s)
    vals, r = s
    delta = np.array(delta, dtype=float)
    for _ in range(6):
        start = E.displaced(p, vals, r, delta)
        q = E.Reference(p, start)
        if q.ok and (not contract or contracts(p, start, q, r)):
            return vals, r, start
        if not contract:
            break
        delta = delta / 2
    ctx.skip("start outside the domain")


def contracts(p, start, q, r):
    Z = q.null()
    H = Z.T @ q.Hf @ Z
    try:
        s = np.linalg.solve(H, Z.T @ q.gf)
    except np.linalg.LinAlgError:
        return False
    th = E.flatten(start)
    th[q.free] -= Z @ s
    n = E.Reference(p, E.split(p, th))
    return n.ok and r.L - n.L <= 0.1 * (r.L - q.L) + rounding(r)


def labels(ctx, p, method=None):
    ctx.label(p["dist"], "constraints %d" % len(p["cons"]),
              "penalties %d" % len(p["reg"]))
    if method:
        ctx.label(method.lower())
    if any(m.any() for m in E.masks(p)):
        ctx.label("fixed entries")


def make(ctx, p, start):
    e = ctx.call("estimator", E.estimator, p, False)
    ctx.call("add_param", E.add_params, e, p, [v.tolist() for v in start])
    return e


def values(ctx, e, p):
    """parameters of the estimator: right shapes, masks and fixed entries"""
    with ctx.lib("params"):
        vals = [np.array(v.values, dtype=float) for v in e.params]
        got = [np.ma.array(v) for v in e.get_params()]
    want = E.arrays(p)
    ctx.require(len(vals) == len(want), "%d parameters instead of %d",
                len(vals), len(want))
    for k, (v, g, w, m) in enumerate(zip(vals, got, want, E.masks(p))):
        ctx.require(v.shape == w.shape, "parameter %d has shape %s instead "
                    "of %s", k, v.shape, w.shape)
        ctx.require(np.array_equal(np.ma.getmaskarray(g), m),
                    "get_params: mask %s instead of %s", g.mask, m)
        ctx.require(np.array_equal(g.data, v),
                    "get_params: %s instead of %s", g.data, v)
    return vals


def fixed_kept(ctx, p, start, vals):
    for k, (a, v, m) in enumerate(zip(start, vals, E.masks(p))):
        ctx.require(np.array_equal(a[m], v[m]), "fixed entries of parameter "
                    "%d moved from %s to %s", k, a[m], v[m])


def gain_of(r):
    """improvement of a quadratic model of the objective within the
    constraints, and its curvature"""
    Z = r.null()
    if Z.shape[1] == 0:
        return 0.0, np.ones(0)
    g = Z.T @ r.gf
    H = Z.T @ r.Hf @ Z
    w = np.linalg.eigvalsh(H)
    return float(abs(0.5 * g @ np.linalg.lstsq(H, g, rcond=1e-12)[0])), -w


def rounding(r):
    """gain that can't be told from rounding errors"""
    return 1e-13 * (1 + abs(r.L) + r.n)


def close_start(p, r0):
    """a full Newton step from here contracts the gap"""
    if np.abs(r0.c).max(initial=0) > 1e-8:
        return False
    try:
        o = E.optimum(p, E.arrays(p))
    except (R.OutOfDomain, np.linalg.LinAlgError):
        return False
    return o is not None and E.curvature(o[1]).min(initial=1) > 1e-4 * \
        max(1, E.curvature(o[1]).max(initial=1)) and \
        contracts(p, E.arrays(p), r0, o[1])


# -- C10 --------------------------------------------------------------------
@st.composite
def c10_strategy(draw, tier):
    kind = draw(st.sampled_from(["concave", "generic"]))
    if kind == "concave":
        p = draw(E.concave(wide=True))
    else:
        p = draw(E.generic(depth=draw(st.sampled_from([1, 1, 2])),
                           max_feat=2, cons=draw(st.sampled_from([0, 1])),
                           reg=draw(st.sampled_from([1, 2]))))
        p["s"] = p["s"] or None
    far = draw(st.sampled_from([1, 1, 1, 3, 6]))
    if far > 1:
        p = dict(p, params=[(far * np.array(v)).tolist()
                            for v in p["params"]])
    return {"p": p, "kind": kind, "method": draw(METHODS),
            "tol": draw(st.sampled_from([1e-6, 1e-8, 1e-8, 1e-10, None,
                                         1e-4, 1e-2])),
            "steps": draw(st.sampled_from([100, 30, None])),
            "verbose": draw(st.sampled_from([None, None, 0, 1, 2])),
            "feasible": draw(st.integers(0, 3)) > 0}


def c10_check(spec, ctx):
    from maxlike import ConvergenceError
    p = spec["p"]
    if E.free_count(p) == 0:
        ctx.skip("no free entries")
    try:
        if spec["feasible"] and not p.get("bad"):
            p = E.feasible(p)
            if p is None:
                ctx.skip("constraints can't hold")
        r0 = E.Reference(p, E.arrays(p))
    except (R.OutOfDomain, np.linalg.LinAlgError) as e:
        ctx.skip("constraints can't hold")
    if not r0.ok:
        ctx.skip("start outside the domain")
    if not E.independent_constraints(r0):
        ctx.skip("dependent constraints")
    m = spec["method"].lower()
    start = E.arrays(p)
    e = make(ctx, p, start)
    kw = {k: spec[k] for k in ("tol",) if spec[k] is not None}
    if spec["steps"] is not None:
        kw["max_steps"] = spec["steps"]
    if spec.get("verbose") is not None:
        kw["verbose"] = spec["verbose"]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ok = e.fit(method=spec["method"], **kw, **E.data(p))
    except ConvergenceError:
        ctx.skip("no convergence")
    except (np.linalg.LinAlgError, ValueError, ZeroDivisionError,
            AssertionError) as x:
        # singular Hessian, numbers too large, or a step out of the domain
        # of the model: not a success
        ctx.skip("fit stopped by %s" % type(x).__name__)
    except Exception as x:
        ctx.fail("fit raised %s: %s" % (type(x).__name__, x))
    ctx.require(ok is True, "fit returned %r", ok)
    ctx.require(e.converged is True, "converged is %r after a successful fit",
                e.converged)
    vals = values(ctx, e, p)
    fixed_kept(ctx, p, start, vals)
    try:
        r = E.Reference(p, vals)
    except R.OutOfDomain:
        ctx.skip("result outside the domain")
    if not r.ok:
        ctx.skip("result outside the domain")
    tol = spec["tol"] or 1e-8
    if tol > 1e-6 and m == "broyden":
        ctx.skip("rough fit")
    scale = 1 + max(np.abs(v).max(initial=0) for v in vals)
    ctx.require(np.abs(r.c).max(initial=0) <= scale * (
        1e-8 if m == "newton" else max(1e-6, np.sqrt(tol))),
                "%s: constraints are %s at the result", m, r.c)
    if abs(r.L) < 1e-2 * r.n:
        ctx.skip("objective almost zero")
    gain, w = gain_of(r)
    concave = w.size == 0 or w.min() > 1e-4 * max(1, w.max())
    # without a line search, a far start can leave the other method stuck
    near = m == "newton" or close_start(p, r0)
    if not near:
        ctx.label("broyden from far away")
    if tol > 1e-6:
        # by chance, the objective at two points may be this close
        ctx.label("rough fit")
    elif near and (concave or m == "newton"):
        # other objectives may be concave here but flat at the step before
        lim = {"newton": 10 if concave and spec.get("kind") == "concave"
               else 300,
               "broyden": 2e4}[m] * tol * abs(r.L)
        if w.size and np.abs(w).min() > 1e-6 * max(1, np.abs(w).max()):
            ctx.require(gain <= lim + rounding(r), "%s: the objective can "
                        "still gain %.3g of %.6g (tolerance %g)",
                        m, gain, r.L, tol)
        else:
            ctx.label("degenerate")
    if m == "newton" and np.abs(r0.c).max(initial=0) < 1e-10:
        ctx.label("monotone")
        ctx.require(r.L >= r0.L - 1e-9 * (abs(r0.L) + 1),
                    "newton: objective %.12g at the start, %.12g at the "
                    "result", r0.L, r.L)
    labels(ctx, p, m)
    if concave:
        ctx.label("concave")
    moved = max(np.abs(a - b).max(initial=0) for a, b in zip(start, vals))
    ctx.nontrivial = moved > 1e-6 and len(r.gf) > 1


# -- C11 --------------------------------------------------------------------
@st.composite
def c11_strategy(draw, tier):
    m = draw(METHODS)
    # the steps of Broyden are not invariant to the scale of the objective
    # where there are constraints
    return {"p": draw(E.concave(wide=m.lower() == "newton")),
            "delta": draw(DELTA), "method": m,
            "tol": draw(st.sampled_from([1e-8, 1e-10, 1e-11]))}


def error_bound(r, m, tol):
    """distance to the optimum that the gain left accounts for"""
    w = E.curvature(r)
    return np.sqrt(2 * (GAIN[m] * tol * abs(r.L) + rounding(r)) / w.min()) \
        + 1e-9


def c11_check(spec, ctx):
    p, m, tol = spec["p"], spec["method"].lower(), spec["tol"]
    vals, r, start = problem(ctx, p, spec["delta"], m == "broyden")
    e = make(ctx, p, start)
    ok = ctx.call("fit(%s)" % m, e.fit, tol=tol, max_steps=100,
                  method=spec["method"], **E.data(p))
    ctx.require(ok is True, "fit returned %r", ok)
    got = values(ctx, e, p)
    fixed_kept(ctx, p, start, got)
    b = error_bound(r, m, tol)
    d = E.flatten(got) - E.flatten(vals)
    k = int(np.argmax(np.abs(d)))
    ctx.require(np.abs(d).max() <= b, "%s, %s: estimate %.12g instead of "
                "%.12g (entry %d, tolerance %.1e)", p["dist"], m,
                E.flatten(got)[k], E.flatten(vals)[k], k, b)
    labels(ctx, p, m)
    d0 = np.abs(E.flatten(start) - E.flatten(vals)).max()
    ctx.nontrivial = bool(d0 > 1e-3 and len(r.gf) > 1)


# closed forms: one parameter per cell
@st.composite
def closed_strategy(draw, tier):
    dist = draw(st.sampled_from(E.LOGLINK + ("Finite", "NormalizedFinite")))
    feat = draw(st.lists(st.integers(1, 4), min_size=1, max_size=2))
    cells = int(np.prod(feat))
    if dist in E.FINITE:
        obs = draw(st.lists(st.integers(1, 30), min_size=cells * 2,
                            max_size=cells * 2))
    else:
        hi = 1 if dist == "Logistic" else 8
        obs = [draw(st.lists(st.integers(0, hi), max_size=4)) +
               ([1, 0] if draw(st.booleans()) else [0, 1])
               for _ in range(cells)]
    s = None
    if dist == "NegativeBinomial":
        s = draw(st.sampled_from([1, 0.5, 3]))
    elif dist == "ZeroInflatedPoisson":
        s = draw(st.sampled_from([1, 2, 4]))
    return {"dist": dist, "feat": feat, "obs": obs, "s": s,
            "delta": draw(DELTA), "method": draw(METHODS),
            "w": draw(st.sampled_from([1, 3, 0.5])),
            "perm": draw(st.booleans())}


def zip_root(mean, s):
    # e^y / (1 + (s - 1) e^(-e^y)) = mean
    from scipy.optimize import brentq
    return brentq(lambda t: t / (1 + (s - 1) * np.exp(-t)) - mean,
                  1e-12, mean * s + 50, xtol=1e-14, rtol=1e-14)


def closed_check(spec, ctx):
    import maxlike
    from maxlike import func as F
    m, dist = spec["method"].lower(), spec["dist"]
    feat = tuple(spec["feat"])
    p = {"dist": dist, "feat": list(feat), "out": [2] if dist in E.FINITE
         else [], "obs": spec["obs"], "w": spec["w"]}
    d = E.data(p)
    if dist in E.FINITE:
        q = d["N"] / d["N"].sum(-1, keepdims=True)
        # probabilities (1, e^y) up to scale
        want = np.log(q[..., 1] / q[..., 0])
        model = None
        e = getattr(maxlike, dist)()
        if dist == "NormalizedFinite":
            # (1, l) e^-l with l = e^y
            want = np.log(q[..., 1])
            ex = {"t": "Comp", "f": {"t": "Exp"}, "g": [{"t": "X"}]}
            no = {"t": "Comp", "f": {"t": "Exp"}, "g": [
                {"t": "Affine", "f": ex, "a": -1, "b": 0, "via": "neg"}]}
            x = list(range(len(feat)))
            model = R.build({"t": "Prod", "n": len(feat), "d": 1, "atoms": [
                {"f": {"t": "Comp", "f": {"t": "Poisson", "size": 2},
                       "g": [ex]}, "p": [0], "x": x, "d": 0},
                {"f": no, "p": [0], "x": x, "d": []}]})
    else:
        mean = d["X"] / d["N"]
        if dist == "Logistic":
            want = np.log(mean / (1 - mean))
        elif dist == "ZeroInflatedPoisson":
            want = np.log(np.vectorize(zip_root)(mean, spec["s"]))
        else:
            want = np.log(mean)
        model = None
        e = getattr(maxlike, dist)(spec["s"]) if spec["s"] else \
            getattr(maxlike, dist)()
    n = len(feat)
    base = F.X()
    if spec["perm"] and n == 2 and dist != "NormalizedFinite":
        base = F.Sum(2)
        base.add(F.X(), 0, [1, 0])
        want = want.T
    if dist == "Finite":
        model = F.Compose(F.Poisson(2), F.Compose(F.Exp(), base))
    elif dist != "NormalizedFinite":
        model = base
    e.model = model
    start = want + np.resize(spec["delta"], want.shape)
    e.add_param(start)
    tol = 1e-11
    with ctx.lib("%s fit(%s)" % (dist, m)):
        e.fit(tol=tol, max_steps=100, method=spec["method"], **d)
        got = np.array(e.params[0].values)
    ctx.close("%s, %s: estimates" % (dist, m), got, want,
              atol=1e-4 if m == "broyden" else 1e-6)
    ctx.label(dist, m)
    ctx.nontrivial = want.size > 1


# -- C12 --------------------------------------------------------------------
class Broken(RuntimeError):
    pass


class Faulty(object):
    """a model that raises at its k-th evaluation"""

    def __init__(self, f, k):
        self.f, self.k = f, k

    def _tick(self):
        self.k -= 1
        if self.k < 0:
            raise Broken("model failure")

    def __call__(self, params):
        self._tick()
        return self.f(params)

    def grad(self, params):
        self._tick()
        return self.f.grad(params)

    def hess(self, params):
        self._tick()
        return self.f.hess(params)

    def eval(self, params):
        self._tick()
        return self.f.eval(params)


@st.composite
def c12_strategy(draw, tier):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["ok", "tol0", "steps", "method", "nan",
                                  "fault", "far"]))
        op = {"op": k, "method": draw(METHODS)}
        if k in ("tol0", "steps"):
            op["steps"] = draw(st.sampled_from([0, 1, 2, 3, 6]))
        if k == "method":
            op["method"] = draw(st.sampled_from(
                ["bfgs", "", "newton ", "gradient", "broyden2"]))
        if k == "fault":
            op["at"] = draw(st.integers(0, 12))
        if k == "far":
            op["by"] = draw(st.sampled_from([30.0, -30.0, 300.0]))
        op["data"] = draw(st.booleans())
        ops.append(op)
    return {"p": draw(E.concave(max_feat=draw(st.sampled_from([2, 2, 3])))),
            "delta": draw(DELTA),
            "first": draw(st.sampled_from(["Newton", "Broyden", None])),
            "ops": ops, "last": draw(METHODS)}


def state(e):
    """everything the estimator reports about its estimates"""
    out = [("params", [np.array(v.values) for v in e.params]),
           ("masks", [np.array(v.mask) for v in e.params])]
    for k in ("get_params", "std_error", "fisher_matrix", "error_matrix"):
        try:
            v = getattr(e, k)()
        except Exception as x:
            v = [type(x).__name__]
        out.append((k, _copy(v)))
    return out


def _copy(v):
    if isinstance(v, (list, tuple)):
        return [_copy(x) for x in v]
    if isinstance(v, np.ma.MaskedArray):
        return [v.data.copy(), np.ma.getmaskarray(v).copy()]
    return np.array(v)


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if a.dtype.kind in "fc":
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def c12_check(spec, ctx):
    from maxlike import ConvergenceError
    p = spec["p"]
    vals, r, start = problem(ctx, p, spec["delta"], True)
    d = E.data(p)
    e = make(ctx, p, start)
    twin = make(ctx, p, start)
    tol = 1e-11
    if spec["first"]:
        for x in (e, twin):
            ctx.call("fit", x.fit, tol=tol, max_steps=100,
                     method=spec["first"], **d)
    fails, fitted = 0, bool(spec["first"])
    last = (spec["first"] or "").lower()
    for op in spec["ops"]:
        k, m = op["op"], op["method"]
        if k == "ok":
            for x in (e, twin):
                ctx.call("fit after %d failures" % (0 if x is twin else
                         fails), x.fit, tol=tol, max_steps=100, method=m, **d)
            fitted, last = True, m.lower()
            continue
        before = state(e)
        dd = d
        if op["data"]:              # other data in the failing fit
            dd = {n: v * (2 if n == "N" else 1) for n, v in d.items()}
        args = {"tol": 1e-8, "max_steps": 100, "method": m}
        exc = Exception
        if k == "tol0":             # can't be reached
            args.update(tol=0, max_steps=op["steps"])
            exc = ConvergenceError
        elif k == "steps":
            args.update(tol=0.0, max_steps=min(op["steps"], 1))
            exc = ConvergenceError
        elif k == "method":
            exc = ValueError
        elif k == "nan":
            dd = {n: np.array(v, dtype=float) for n, v in dd.items()}
            dd["N"].flat[0] = np.nan
        obj = e
        if k == "far":
            # parameters far away: the fit usually fails
            obj = make(ctx, p, [v + np.where(mm, 0, op["by"])
                                for v, mm in zip(start, E.masks(p))])
            before = state(obj)
        model = obj.model
        if k == "fault":
            obj.model = Faulty(model, op["at"])
            exc = Broken
        try:
            obj.fit(**args, **dd)
        except exc as x:
            if isinstance(x, ConvergenceError):
                ctx.require(not obj.converged, "converged is set after %r", x)
        except Exception as x:
            # a singular Hessian may come first
            if not (k in ("tol0", "steps") and isinstance(
                    x, (np.linalg.LinAlgError, ZeroDivisionError))):
                ctx.fail("%s fit raised %s(%s) instead of %s" % (
                    k, type(x).__name__, x, exc.__name__))
        else:
            if k == "far":
                continue
            if k == "fault":
                ctx.skip("the fault came too late")
            ctx.fail("%s fit succeeded" % k)
        finally:
            obj.model = model
        after = state(obj)
        for (name, a), (_, b) in zip(before, after):
            ctx.require(same(a, b), "a failed fit (%s, %s) changed %s: %s "
                        "became %s", k, m, name, a, b)
        fails += 1
        ctx.label(k)
    if not fails:
        ctx.skip("no failure")
    m = spec["last"].lower()
    for x in (e, twin):
        ctx.call("fit after failures" if x is e else "fit", x.fit, tol=tol,
                 max_steps=100, method=m, **d)
    b = 2 * error_bound(r, m, tol)
    va, vb = values(ctx, e, p), values(ctx, twin, p)
    fixed_kept(ctx, p, start, va)
    ctx.close("estimates after %d failed fits" % fails, E.flatten(va),
              E.flatten(vb), atol=b)
    if m == "newton":
        sa, sb = [E.flatten([np.ma.filled(s, 0) for s in ctx.call(
            "std_error", x.std_error)]) for x in (e, twin)]
        sa, sb = np.nan_to_num(sa) ** 2, np.nan_to_num(sb) ** 2
        ctx.close("squared standard errors after %d failed fits" % fails,
                  sa, sb, atol=1e-3 * (sb.max() + 1e-9))
    labels(ctx, p)
    ctx.nontrivial = fitted or fails > 1


# -- C14 --------------------------------------------------------------------
@st.composite
def c14_strategy(draw, tier):
    return {"p": draw(E.concave()), "delta": draw(DELTA),
            "method": draw(st.sampled_from(["Newton", "Newton", "Broyden"])),
            "again": draw(st.booleans())}


def blocks(p, flat, fill):
    """matrix of the free entries -> blocks in the shape of the parameters,
    with fill where an entry is fixed"""
    ms = E.masks(p)
    free = np.concatenate([~m.ravel() for m in ms])
    n = free.size
    full = np.full((n, n), fill)
    k = int(free.sum())
    full[np.ix_(free, free)] = flat[:k, :k]
    cut = np.cumsum([0] + [m.size for m in ms])
    return [[full[cut[i]:cut[i + 1], cut[j]:cut[j + 1]].reshape(
        ms[i].shape + ms[j].shape) for j in range(len(ms))]
        for i in range(len(ms))]


def c14_check(spec, ctx):
    p, m = spec["p"], spec["method"].lower()
    vals, r, start = problem(ctx, p, spec["delta"], m == "broyden")
    e = make(ctx, p, start)
    d = E.data(p)
    fit = lambda: ctx.call("fit", e.fit, tol=1e-12, max_steps=100,
                           method=m, **d)
    fit()
    tol = 1e-3
    if spec["again"] and m == "newton":
        fit()               # the Hessian is now the one at the optimum
        tol = 1e-6
    got = values(ctx, e, p)
    r = E.Reference(p, got)
    B = r.bordered()
    n = len(r.gf)
    inv = -np.linalg.inv(B)
    cov = inv[:n, :n]
    ms = E.masks(p)
    se = ctx.call("std_error", e.std_error)
    ctx.require(len(se) == len(ms), "std_error has %d arrays", len(se))
    for k, (s, mk) in enumerate(zip(se, ms)):
        ctx.require(np.shape(s) == mk.shape, "std_error %d has shape %s "
                    "instead of %s", k, np.shape(s), mk.shape)
        ctx.require(np.array_equal(np.ma.getmaskarray(s), mk),
                    "std_error %d: mask %s instead of %s", k,
                    np.ma.getmaskarray(s), mk)
    flat = np.concatenate([np.ma.getdata(s).ravel() for s in se])[r.free]
    want = np.sqrt(np.maximum(np.diag(cov), 0))
    sc = want.max() + 1e-9
    FM = ctx.call("fisher_matrix", e.fisher_matrix)
    EM = ctx.call("error_matrix", e.error_matrix)
    if m == "newton":
        # squared: entries that the constraints determine have no variance
        var = np.where(np.isnan(flat), 0, flat) ** 2
        ctx.close("squared standard errors", var, want ** 2,
                  atol=tol * sc ** 2)
        F = r.Hf
        sF = np.abs(F).max()
        wantC, sC = cov, np.abs(cov).max()
    else:
        # the method's own approximation
        ctx.require(np.all(np.nan_to_num(flat) <= 10 * sc),
                    "broyden: standard errors %s, exact %s", flat, want)
        Fl = np.ma.getdata(e.flat_hess_)
        inv = -np.linalg.pinv(Fl)
        ctx.close("broyden: squared standard errors",
                  np.nan_to_num(flat) ** 2,
                  np.maximum(np.diag(inv)[:n], 0), atol=1e-6 * (
                      1 + np.abs(inv).max()))
        F, sF = Fl[:n, :n], np.abs(Fl).max()
        wantC, sC = inv[:n, :n], np.abs(inv).max()
        tol = 1e-6
    for name, M, w, s, fill in (("fisher_matrix", FM, F, sF, 0.0),
                                ("error_matrix", EM, wantC, sC, np.nan)):
        want = blocks(p, w, fill)
        ctx.require(len(M) == len(ms) and all(len(x) == len(ms) for x in M),
                    "%s has the wrong number of blocks", name)
        for i in range(len(ms)):
            for j in range(len(ms)):
                b = np.array(np.ma.getdata(M[i][j]), dtype=float)
                w = want[i][j]
                if np.isnan(fill) and b.shape == w.shape:
                    fx = np.isnan(w)
                    ctx.require(np.all(np.isnan(b[fx]) | (b[fx] == 0)),
                                "%s[%d][%d] has entries for fixed "
                                "parameters", name, i, j)
                    b[fx], w = 0, np.where(fx, 0, w)
                ctx.close("%s[%d][%d]" % (name, i, j), b, w, atol=tol * s)
    labels(ctx, p, m)
    if spec["again"]:
        ctx.label("tight")
    ctx.nontrivial = n > 1 and len(ms) > 1


# -- C15 --------------------------------------------------------------------
@st.composite
def c15_strategy(draw, tier):
    return {"p": draw(E.generic(depth=1, cons=3)),
            "extra": draw(st.sampled_from([0, None, 1, 2, 5, -1]))}


def criteria(ctx, e, extra):
    a = () if extra is None else (extra,)
    return [float(np.asarray(ctx.call(f, getattr(e, f), *a))) for f in (
        "akaine_information_criterion", "bayesian_information_criterion")]


def c15_check(spec, ctx):
    p, x = spec["p"], spec["extra"]
    try:
        r = E.Reference(p, E.arrays(p))
    except R.OutOfDomain as e:
        ctx.skip(str(e))
    if not r.ok:
        ctx.skip("model values outside the domain of the distribution")
    if E.free_count(p) == 0:
        ctx.skip("no free entries")
    e = ctx.call("estimator", E.estimator, p)
    ctx.call("loading the data", E.load, e, p)
    n = r.n
    l = ctx.call("g", e.g, e.params)

    def expect(k):
        return [2 * k / (n - k - 1) - 2 * l, k * np.log(n) / n - 2 * l]
    k = entries(p) + (x or 0) - len(p["cons"])
    if abs(n - k - 1) < 1e-9 or abs(n - k) < 1e-9:
        ctx.skip("n = k + 1 or n = k")
    for name, g, w in zip(("AIC", "BIC"), criteria(ctx, e, x), expect(k)):
        ctx.close("%s (k = %d, n = %g)" % (name, k, n), g, w)
    # the objective in it is the mean log-probability, to a constant
    if p["dist"] in E.FINITE:
        ctx.close("mean objective", l, (E.logpmf(p, r.y) - (r.like - r.L)) /
                  n, rtol=1e-7)
    # one more constraint: one less; one more entry: one more
    import maxlike.func as F
    ctx.call("add_constraint", e.add_constraint, 0, F.Linear(1))
    for name, g, w in zip(("AIC", "BIC"), criteria(ctx, e, x),
                          expect(k - 1)):
        ctx.close("%s with one more constraint" % name, g, w)
    ctx.call("add_param", e.add_param, 0.5)
    for name, g, w in zip(("AIC", "BIC"), criteria(ctx, e, x), expect(k)):
        ctx.close("%s with one more parameter" % name, g, w)
    labels(ctx, p)
    ctx.nontrivial = entries(p) > 1


def entries(p):
    return sum(m.size for m in E.masks(p))


def fixed_check(spec, ctx):
    """known finding: fixing an entry does not lower the count"""
    import maxlike
    import maxlike.func as F
    got = []
    for mask in (None, [True, False, False]):
        e = maxlike.Poisson()
        e.model = F.X()
        e.add_param([0.0, 0.5, 1.0], mask)
        E.load(e, {"dist": "Poisson", "feat": [3], "out": [],
                   "obs": spec["obs"]})
        got.append(criteria(ctx, e, 0))
    n = float(sum(len(o) for o in spec["obs"]))
    want = [2 * 2 / (n - 3) - 2 * 3 / (n - 4), -np.log(n) / n]
    ctx.close("change of AIC and BIC when an entry is fixed",
              np.subtract(got[1], got[0]), want)


CONCAVE = ("identifiable concave problems: ratio of the extreme curvatures "
           "within the constraints above 1e-3, independent linear "
           "constraints, finite optimum, start within 3/8 of the optimum")
PROPS = {
    "C10": Prop("C10", [Target("stationary", c10_strategy, c10_check, 4000)],
                "the fit moved and there are two or more free entries",
                ["fits that do not succeed are not judged here (C11, C12)",
                 "objective not almost zero (relative stopping rule)"]),
    "C11": Prop("C11", [Target("optimum", c11_strategy, c11_check, 4000),
                        Target("closed", closed_strategy, closed_check,
                               1500)],
                "two or more free entries and a start away from the optimum",
                [CONCAVE]),
    "C12": Prop("C12", [Target("failures", c12_strategy, c12_check, 3000)],
                "a fit was made before, or several failures", [CONCAVE]),
    "C14": Prop("C14", [Target("errors", c14_strategy, c14_check, 4000)],
                "two or more free entries and parameters",
                [CONCAVE, "Broyden fits: consistency with the method's own "
                 "approximation of the Hessian, and size"]),
    "C15": Prop("C15", [Target("criteria", c15_strategy, c15_check, 3000),
                        Target("fixed", None, fixed_check, 0)],
                "two or more entries", []),
}
