"""
C27: evaluations leave their inputs and earlier results alone and repeat.
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Target
import estim as E
import modelgen as M
import refmodel as R
from props import fits as F
from props import models as MD
from props import tens as T
from props import cop as CP

SAME = 1e-12


# -- snapshots ----------------------------------------------------------------
def freeze(x):
    """the numbers in an object, as plain copies"""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if isinstance(x, dict):
        return {str(k): freeze(v) for k, v in x.items()}
    if isinstance(x, np.ma.MaskedArray):
        return [x.data.copy(), np.ma.getmaskarray(x).copy()]
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, pd.Series):
        return [x.values.copy(), list(x.index), x.name, str(x.dtype)]
    if isinstance(x, pd.DataFrame):
        return [[freeze(x[c]) for c in x.columns], list(x.columns)]
    if isinstance(x, (pd.Index,)):
        return list(x)
    if hasattr(x, "toarray"):
        return [np.array(x.toarray()), x.x_dim, x.y_dim, x.n, x.dim]
    if hasattr(x, "as_masked"):
        return [np.array(x.values), np.array(x.mask)]
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "eval"):              # a function: the same object
        return id(x)
    raise TypeError(type(x))


def equal(a, b, tol=0.0):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            equal(u, v, tol) for u, v in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(
            equal(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(a, float):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind not in "fc" or tol == 0:
            return a.shape == b.shape and np.array_equal(
                a, b, equal_nan=a.dtype.kind in "fc")
        with np.errstate(all="ignore"):
            return a.shape == b.shape and bool(np.all(
                (np.abs(a - b) <= tol * (1 + np.abs(a))) | (a == b) |
                (np.isnan(a) & np.isnan(b))))
    return a == b or (a != a and b != b)


class Watch(object):
    """inputs and results that must keep their numbers"""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, what, x):
        try:
            self.items.append((what, x, freeze(x)))
        except Exception as e:
            self.ctx.fail("%s can't be read: %s" % (what, e))
        return x

    def check(self, when):
        for what, x, s in self.items:
            with self.ctx.lib(what):
                now = freeze(x)
            self.ctx.require(equal(s, now), "%s changed %s from %s to %s",
                             when, what, s, now)


def again(ctx, what, a, b, tol=SAME):
    ctx.require(equal(freeze(a), freeze(b), tol),
                "%s evaluated again gives %s instead of %s", what,
                freeze(b), freeze(a))


# -- models -------------------------------------------------------------------
OPS = ["call", "grad", "hess", "eval", "grad_i", "hess_ij"]


@st.composite
def model_strategy(draw, tier):
    kind = draw(st.sampled_from(["real", "real", "vec", "vec", "mat", "mix",
                                 "act", "coll", "pos", "single",
                                 "comp"]))
    s = draw(M.model_case(kind, 2))
    s["shift"] = draw(st.lists(st.integers(-4, 4).map(lambda k: k / 16),
                               min_size=2, max_size=5))
    s["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(OPS), st.integers(0, 1), st.integers(0, 3),
        st.integers(0, 3)).map(list), min_size=3, max_size=7))
    return s


def evaluate(f, op, args, n, i, k):
    if op == "call":
        return f(args)
    if op == "grad":
        return f.grad(args)
    if op == "hess":
        return f.hess(args)
    if op == "grad_i":
        return f.grad(args, i % n)
    if op == "hess_ij":
        i = i % n
        return f.hess(args, i, k % (i + 1))
    return f.eval(args)


def lower(x):
    """blocks at or below the diagonal: the others are not defined"""
    if isinstance(x, list) and x and all(
            isinstance(r, list) for r in x):
        return [r[:i + 1] for i, r in enumerate(x)]
    if isinstance(x, tuple):
        return [lower(v) for v in x]
    return x


def model_check(spec, ctx):
    ref = MD.reference(spec, ctx)
    params = ref[0]
    d = spec["shift"]
    other = [p + np.resize(d, p.size).reshape(p.shape) for p in params]
    try:
        MD.reference(dict(spec, params=[p.tolist() for p in other]), ctx)
    except Exception:
        other = params
    n = len(params)
    f = ctx.call("building the model", R.build, spec["model"],
                 {} if spec.get("share") else None)
    vecs = [MD.arguments(spec, [p.copy() for p in v])
            for v in (params, other)]
    w = Watch(ctx)
    for k, v in enumerate(vecs):
        w.add("parameters %d" % k, list(v) if isinstance(v, tuple) else v)
    done = []
    for op, k, i, j in spec["ops"]:
        r = lower(ctx.call(op, evaluate, f, op, vecs[k], n, i, j))
        w.add("the result of %s" % op, r)
        w.check(op)
        done.append((op, k, i, j, r))
    g = ctx.call("building the model", R.build, spec["model"],
                 {} if spec.get("share") else None)
    for op, k, i, j, r in reversed(done):
        fresh = MD.arguments(spec, [p.copy() for p in (params, other)[k]])
        for h, what in ((f, op), (g, op + " of an equal model")):
            q = lower(ctx.call(what, evaluate, h, op, fresh, n, i, j))
            again(ctx, what, r, q)
    w.check("repeating the evaluations")
    ctx.nontrivial = len({o[0] for o in spec["ops"]}) > 1
    for o in spec["ops"]:
        ctx.label(o[0])


# -- building -----------------------------------------------------------------
COMBINE = ["affine", "neg", "sum", "prod", "sums", "prods", "exp",
           "collapse", "two"]


@st.composite
def building_strategy(draw, tier):
    kind = draw(st.sampled_from(["real", "real", "vec", "mat", "mix", "act",
                                 "coll", "pos", "comp"]))
    s = draw(M.model_case(kind, 2))
    s["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(COMBINE), st.sampled_from([2, -1, 0.5, 1]),
        st.booleans()).map(list), min_size=2, max_size=5))
    return s


def building_check(spec, ctx):
    """a model stays as it is while others are built from it"""
    from maxlike import func as F
    params = MD.reference(spec, ctx)[0]
    R.GIVEN = []
    try:
        f = ctx.call("building the model", R.build, spec["model"],
                     {} if spec.get("share") else None)
        inputs = R.GIVEN
    finally:
        R.GIVEN = None
    w = Watch(ctx)
    # what was given last is watched from before the evaluations on
    for k, (x, before) in enumerate(inputs):
        ctx.require(equal(freeze(x), freeze(before)), "the constructors "
                    "changed argument %d of the model from %s to %s", k,
                    before, x)
        w.add("argument %d of the model" % k, x)
    g = ctx.call("building the model", R.build, spec["model"])
    args = [p.copy() for p in params]
    ref = ctx.call("value", g, args)
    with ctx.lib("value"):
        v, n, d = np.array(ref.toarray()), ref.n, ref.dim
    first = freeze(lower(ctx.call("eval", f.eval, args)))
    pm, fm, dm = [list(range(k)) for k in (len(params), n, d)]
    w.add("maps", [pm, fm, dm])
    w.add("parameters", args)
    old = []
    for op, a, more in spec["ops"]:
        if n == 0 and op not in ("affine", "neg", "collapse"):
            op = "affine"
        if op == "exp" and (d or np.abs(v).max(initial=0) > 20):
            op = "neg"
        if op in ("affine", "neg"):
            h = ctx.call(op, lambda: a * f + 1 if op == "affine" else 1 - f)
            want = a * v + 1 if op == "affine" else 1 - v
        elif op in ("sum", "sums"):
            def make():
                s = F.Sum(n, d)
                s.add(f, pm, fm, dm, a)
                s.add(f, pm, fm, dm, 3)
                if op == "sums":
                    t = F.Sum(n, d)
                    t.add(s, pm, fm, dm, 2)
                    t.add(s + 1, pm, fm, dm, 1)
                    old.append((s, (a + 3) * v))
                    return t
                return s
            h = ctx.call(op, make)
            want = (3 * (a + 3)) * v + 1 if op == "sums" else (a + 3) * v
        elif op in ("prod", "prods"):
            def make():
                s = F.Product(n, d)
                s.add(f, pm, fm, dm)
                s.add(a * f, pm, fm, dm)
                if op == "prods":
                    t = F.Product(n, d)
                    t.add(s, pm, fm, dm)
                    t.add(f, pm, fm, dm)
                    old.append((s, a * v * v))
                    return t
                return s
            h = ctx.call(op, make)
            want = a * v * v * (v if op == "prods" else 1)
        elif op == "exp":
            h, want = ctx.call(op, lambda: F.Exp() @ f), np.exp(v)
        elif op == "collapse":
            h, want = ctx.call(op, F.Collapse, f), v.sum()
        else:
            def make():
                s = F.Sum(n, d)
                for _ in range(3):
                    s.add(f, pm, fm, dm)
                q = s - 2
                s.add(f, pm, fm, dm)    # not part of q any more, or it is
                return s
            h, want = ctx.call(op, make), 4 * v
        old.append((h, want))
        if more:
            ctx.call("eval of " + op, h.eval, args)
        for k, (x, y) in enumerate(old):
            with ctx.lib("value of " + op):
                z = np.asarray(x(args).toarray())
            ctx.close("value of model %d after building %s" % (k, op), z, y,
                      1e-9, bcast=True)
        w.check("building " + op)
        ctx.label(op)
    again(ctx, "eval", first, lower(ctx.call("eval", f.eval, args)), 1e-9)
    h = ctx.call("building the model", R.build, spec["model"])
    again(ctx, "eval of an equal model", first,
          lower(ctx.call("eval", h.eval, args)), 1e-9)
    ctx.nontrivial = len({o[0] for o in spec["ops"]}) > 1


# -- estimators ---------------------------------------------------------------
EOPS = ["g", "g_other", "flat_grad", "flat_hess", "newton_step", "get_params",
        "aic", "bic", "std_error", "error_matrix", "fisher_matrix", "like",
        "eval", "fail", "model"]


@st.composite
def estimator_strategy(draw, tier):
    return {"p": draw(E.concave()), "delta": draw(F.DELTA),
            "method": draw(F.METHODS), "spoil": draw(st.booleans()),
            "ops": draw(st.lists(st.sampled_from(EOPS), min_size=3,
                                 max_size=8))}


def scribble(r):
    """the user writes into a result"""
    if isinstance(r, (list, tuple)):
        for x in r:
            scribble(x)
    elif isinstance(r, np.ndarray) and r.size:
        for v in (123.0, np.ma.masked):
            try:
                if v is np.ma.masked and not isinstance(
                        r, np.ma.MaskedArray):
                    continue
                r[(0,) * r.ndim] = v
            except (ValueError, TypeError):
                pass                # write-protected


def estimator_check(spec, ctx):
    from maxlike import ConvergenceError
    p, m = spec["p"], spec["method"].lower()
    vals, r, start = F.problem(ctx, p, spec["delta"], m == "broyden")
    d = E.data(p)
    w = Watch(ctx)
    for k in d:
        w.add("data %s" % k, d[k])
    e = ctx.call("estimator", E.estimator, p, False)
    given = [np.array(v) for v in start]
    ms = [None if q is None else np.array(q) for q in p["masks"]]
    for v, q in zip(given, ms):
        ctx.call("add_param", e.add_param, v, q if q is None or q.ndim
                 else bool(q))
    w.check("add_param")
    for v, q in zip(given, ms):         # the user goes on with their arrays
        v[...] = -77.0
        if q is not None:
            q[...] = ~q
    now = F.values(ctx, e, p)
    for a, b in zip(now, start):
        ctx.require(np.array_equal(a, b), "parameters follow the user's "
                    "array: %s instead of %s", a, b)
    ctx.call("fit", e.fit, tol=1e-10, max_steps=100, method=spec["method"],
             **d)
    w.check("fit")
    est = F.values(ctx, e, p)
    F.fixed_kept(ctx, p, start, est)
    P, Q = e.params, [np.array(v) for v in start]
    w.add("parameters", list(P))
    w.add("other parameters", Q)
    w.add("flat_hess_", np.ma.getdata(e.flat_hess_))
    ncons = (len(e.constraint), len(e.reg))

    def do(op):
        if op == "g":
            return e.g(P)
        if op == "g_other":
            return e.g(Q)
        if op == "like":
            return e.like(P, e.model(P))
        if op == "model":
            return e.model(Q)
        if op == "eval":
            return lower(e.model.eval(P))
        if op in ("flat_grad", "flat_hess"):
            y, der, hess = e.model.eval(P)
            v = Watch(ctx)
            v.add("model value", y)
            v.add("model gradient", der)
            v.add("model Hessian", lower(hess))
            r = e.flat_grad(P, y, der) if op == "flat_grad" else \
                e.flat_hess(P, y, der, hess)
            v.check(op)
            return r
        if op == "newton_step":
            return e.newton_step(P)
        if op == "aic":
            return float(np.asarray(e.akaine_information_criterion()))
        if op == "bic":
            return float(np.asarray(e.bayesian_information_criterion(1)))
        if op == "fail":
            try:
                e.fit(tol=0.0, max_steps=1, method=spec["method"], **d)
            except (ConvergenceError, np.linalg.LinAlgError,
                    ZeroDivisionError):
                pass
            return None
        return getattr(e, op)()
    done = []
    for op in spec["ops"]:
        x = ctx.call(op, do, op)
        s = freeze(x)
        if spec["spoil"] and op in ("get_params", "std_error",
                                    "error_matrix", "fisher_matrix"):
            scribble(x)
            ctx.label("spoiled")
        else:
            w.add("the result of %s" % op, x)
        w.check(op)
        done.append((op, s))
        ctx.require((len(e.constraint), len(e.reg)) == ncons,
                    "%s changed the constraints", op)
        ctx.require(len(e.params) == len(P) and all(
            a is b or np.array_equal(a.values, b.values)
            for a, b in zip(e.params, P)), "%s changed the parameters", op)
    for op, s in reversed(done):
        x = ctx.call(op, do, op)
        ctx.require(equal(s, freeze(x), 1e-9), "%s evaluated again gives %s "
                    "instead of %s", op, freeze(x), s)
    now = F.values(ctx, e, p)
    for a, b in zip(now, est):
        ctx.require(np.array_equal(a, b), "estimates changed from %s to %s",
                    b, a)
    w.check("the sequence")
    F.labels(ctx, p, m)
    for o in spec["ops"]:
        ctx.label(o)
    ctx.nontrivial = len(set(spec["ops"])) > 2


# -- tensors --------------------------------------------------------------------
@st.composite
def tensor_strategy(draw, tier):
    u = draw(T.universe())
    has = {s: True for s in "xynd"}
    leaves = [T.a_leaf(draw, u, has=has) for _ in range(draw(
        st.integers(2, 3)))]
    ops = draw(st.lists(st.tuples(
        st.sampled_from(["add", "sub", "mul", "neg", "sum", "sum_d", "iadd",
                         "imul", "isub", "transpose", "num", "flip",
                         "array", "exp"]),
        st.integers(0, 9), st.integers(0, 9)).map(list),
        min_size=3, max_size=8))
    return {"leaves": leaves, "ops": ops}


def tensor_check(spec, ctx):
    pool = [ctx.call("Tensor", T.lib_tensor, l) for l in spec["leaves"]]
    w = Watch(ctx)
    for k, t in enumerate(pool):
        w.add("tensor %d" % k, t)
    full = len(pool)
    done = []

    def do(op, a, b):
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "neg":
            return -a
        if op == "num":
            return 2.0 * a
        if op == "sum":
            return a.sum()
        if op == "sum_d":
            return a.sum(False, True)
        if op == "transpose":
            return a.transpose()
        if op == "iadd":
            r = a
            r += b
            return r
        if op == "isub":
            r = a
            r -= b
            return r
        if op == "imul":
            r = a
            r *= b
            return r
        if op == "exp":
            # functions of one argument: constants without parameter axes
            if type(a).__name__ == "Tensor" and a.x_dim == a.y_dim == 0:
                return np.exp(a)
            return -a
        if op == "flip":
            try:
                return a.flip([0], True) if a.dim else -a
            except NotImplementedError:
                return -a
        x = a.toarray()
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x = x.copy()
        return x
    same = list(pool)                   # same layout as the leaves
    for op, i, j in spec["ops"]:
        a, b = same[i % len(same)], same[j % len(same)]
        r = ctx.call(op, do, op, a, b)
        done.append((op, a, b, freeze(r)))
        w.add("the result of %s" % op, r)
        w.check(op)
        if op in ("add", "sub", "neg", "num", "iadd", "isub") or (
                op in ("mul", "imul") and type(r).__name__ == "Tensor"):
            if max(np.abs(np.asarray(r.toarray())).max(initial=0), 1) < 1e6:
                same.append(r)
        ctx.label(op)
    for op, a, b, s in reversed(done):
        r = ctx.call(op, do, op, a, b)
        ctx.require(equal(s, freeze(r), SAME),
                    "%s evaluated again gives %s instead of %s", op,
                    freeze(r), s)
    w.check("repeating the operations")
    ctx.nontrivial = len({o[0] for o in spec["ops"]}) > 2


# -- copulas, tables ------------------------------------------------------------
@st.composite
def other_strategy(draw, tier):
    n = draw(st.integers(1, 8))
    return {"c": draw(CP.problem("quick", pair=True)),
            "rows": draw(st.lists(st.tuples(
                st.sampled_from("abc"), st.integers(0, 2),
                st.integers(0, 5), st.integers(0, 3)).map(list),
                min_size=n, max_size=n)),
            "extra": [draw(st.lists(st.sampled_from("abcdz"), max_size=3)),
                      draw(st.lists(st.integers(0, 5), max_size=3))],
            "size": draw(st.integers(2, 6)),
            "conds": draw(st.lists(st.tuples(
                *[st.integers(-2, 2)] * 3 + [st.integers(-1, 1)]).map(list),
                min_size=1, max_size=5)),
            "ops": draw(st.lists(st.sampled_from(
                ["copula", "copula_b", "series", "flat", "frame", "count",
                 "regions"]), min_size=2, max_size=6))}


def other_check(spec, ctx):
    from maxlike import copula
    from maxlike.preprocessing import (prepare_series, prepare_dataframe,
                                       df_count)
    from maxlike.func import CollapseMatrix
    c = spec["c"]
    x, y = CP.marginals(c)
    args = CP.as_args(c["form"], x.copy(), y.copy())
    w = Watch(ctx)
    w.add("marginals", list(args))
    cops = [ctx.call(c["family"], getattr(copula, c["family"]), c[k])
            for k in "ab"]
    idx = pd.MultiIndex.from_tuples([(r[0], r[1]) for r in spec["rows"]],
                                    names=["t", "k"])
    df = pd.DataFrame({"y": [r[2] for r in spec["rows"]],
                       "w": [r[3] for r in spec["rows"]]}, index=idx)
    s, flat = df["y"], pd.Series([r[2] for r in spec["rows"]],
                                 index=[r[0] for r in spec["rows"]])
    w.add("table", df)
    w.add("table index", list(df.index))
    w.add("levels", [list(l) for l in df.index.levels])
    w.add("series", s)
    w.add("flat series", flat)
    tr = {"X": np.sum, "M": np.max}
    names = sorted(tr)
    add = {"t": list(spec["extra"][0]), "k": list(spec["extra"][1])}
    w.add("extra labels", add)
    conds = [tuple(k) for k in spec.get("conds") or [(1, -1, 0, 1)]]
    w.add("conditions", conds)
    pair = np.arange(12.0).reshape(4, 3)
    w.add("joint distribution", pair)

    def do(op):
        if op == "copula":
            return cops[0](args)
        if op == "copula_b":
            return cops[1](args)
        if op == "series":
            r, a = prepare_series(s, tr, add)
            return [r, [list(k) for k in a]]
        if op == "flat":
            r, a = prepare_series(flat, tr, add["t"])
            return [r, list(a)]
        if op == "frame":
            r, a = prepare_dataframe(df, "w", "y", tr, add)
            return [r, [list(k) for k in a]]
        if op == "regions":
            f = CollapseMatrix(conds)
            return [lower(r) for r in (f([pair]), f.grad([pair], 0))]
        return df_count(s, spec["size"])
    done = []
    for op in spec["ops"]:
        r = ctx.call(op, do, op)
        done.append((op, freeze(r)))
        w.add("the result of %s" % op, r)
        w.check(op)
        ctx.require(sorted(tr) == names, "%s changed the transformations",
                    op)
        ctx.label(op)
    for op, f in reversed(done):
        r = ctx.call(op, do, op)
        ctx.require(equal(f, freeze(r), SAME),
                    "%s evaluated again gives %s instead of %s", op,
                    freeze(r), f)
    w.check("repeating the calls")
    ctx.nontrivial = len(set(spec["ops"])) > 1


PROPS = {
    "C27": Prop("C27", [
        Target("models", model_strategy, model_check, 1600),
        Target("building", building_strategy, building_check, 2000),
        Target("estimators", estimator_strategy, estimator_check, 1600),
        Target("tensors", tensor_strategy, tensor_check, 1600),
        Target("others", other_strategy, other_check, 1600)],
        "two or more (estimators, tensors: three) kinds of evaluations",
        [F.CONCAVE]),
}
