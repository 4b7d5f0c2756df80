"""
C29: arguments outside the domain are rejected.  Every case is a call that is
accepted and the same call with one argument moved out of the domain.
"""
import numpy as np
from hypothesis import strategies as st
from core import Prop, Target
import refmodel as R
from props import tens as T


def rejects(ctx, what, fn):
    try:
        with np.errstate(all="ignore"):
            r = fn()
    except Exception:
        return
    ctx.fail("%s is accepted (result %s)" % (what, repr(r)[:80]))


# -- constructors and functions -------------------------------------------------
POS = st.floats(-6, 6).map(lambda x: float("%.4g" % np.exp(x)))
BADRHO = {
    "Gaussian": st.one_of(
        POS.map(lambda x: 1 + x), POS.map(lambda x: -1 - x),
        st.sampled_from([1 + 1e-9, -1 - 1e-9, 2, -2, float("inf")])),
    "AkiMikhailHaq": st.one_of(
        POS.map(lambda x: 1 + x), POS.map(lambda x: -1 - x),
        st.sampled_from([1 + 1e-9, -1 - 1e-9, 2, -2])),
    "Clayton": st.one_of(st.sampled_from([0, 0.0, -1e-12, -1]),
                         POS.map(lambda x: -x)),
    "Gumbel": st.one_of(st.sampled_from([0, 0.5, 0.999, 0.9999, 1 - 1e-9]),
                        POS.map(lambda x: 1 - x)),
    "Frank": st.sampled_from([0, 0.0, -0.0])}
GOODRHO = {"Gaussian": 0.5, "AkiMikhailHaq": -0.5, "Clayton": 0.5,
           "Gumbel": 1.5, "Frank": -2}
ENTRY = st.sampled_from(["call", "eval", "grad", "hess", "grad1", "hess1"])


@st.composite
def argument_case(draw):
    k = draw(st.sampled_from(["copula", "markov", "markov", "markov", "mask",
                              "sigmoid", "zip", "nofunc", "noseries",
                              "threshold", "zero", "weights", "size",
                              "index"]))
    s = {"kind": k}
    if k == "copula":
        s["fam"] = draw(st.sampled_from(sorted(BADRHO)))
        s["a"] = draw(BADRHO[s["fam"]])
    elif k == "markov":
        sh = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 2)))]
        n = int(np.prod(sh, dtype=int))
        s.update(t=draw(st.sampled_from(["MM", "MV"])), shape=sh,
                 size=draw(st.integers(1, 3)), steps=draw(st.integers(1, 4)))
        s["a"], s["b"] = [[draw(st.integers(1, 15)) / 32 * s["steps"]
                           for _ in range(n)] for _ in range(2)]
        s["entry"] = draw(ENTRY)
        s["at"] = draw(st.integers(0, n - 1))
        s["how"] = draw(st.sampled_from(["a", "b", "sum", "even", "shape",
                                         "nan"]))
        s["by"] = draw(st.one_of(st.sampled_from([0.0, 0.5]), POS))
    elif k == "mask":
        sh = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 2)))]
        ms = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 2)))]
        if ms == sh:
            ms = ms + [2]
        s.update(shape=sh, mask=ms, own=draw(st.booleans()),
                 list=draw(st.booleans()))
    elif k == "sigmoid":
        s["name"] = draw(st.one_of(
            st.sampled_from(["", "logit", "arctan2", "tanh", "logistics",
                             "probit", "atan", "LOGIT"]),
            st.text("aeilgot", max_size=8)))
    elif k == "zip":
        s["s"] = -draw(POS)
    elif k == "nofunc":
        s["what"] = draw(st.sampled_from(["lambda", "number", "none", "text",
                                          "class", "array"]))
        s["via"] = draw(st.sampled_from(["wrap", "sum", "prod"]))
    elif k == "noseries":
        s["what"] = draw(st.sampled_from(["list", "frame", "array", "dict",
                                          "none"]))
    elif k == "weights":
        s["what"] = draw(st.sampled_from(["none", "text", "dict"]))
    elif k == "size":
        s["size"] = draw(st.integers(-5, 0))
        s["steps"] = draw(st.integers(1, 5))
    elif k == "index":
        s["which"] = draw(st.sampled_from(["param", "feat", "dim"]))
        s["what"] = draw(st.sampled_from([0.5, 1.5, 0.0, 1.0]))
        s["via"] = draw(st.sampled_from(["wrap", "sum", "prod"]))
    elif k == "threshold":
        s["a"], s["b"] = draw(POS), draw(POS)
        s["n"] = draw(st.integers(-5, 5)) + draw(st.sampled_from(
            [0.5, 0.25, 0.75]))
    else:
        s["by"] = draw(st.sampled_from(["int", "float", "tensor"]))
        u = draw(T.universe())
        s["leaf"] = T.a_leaf(draw, u)
    return s


def check_argument(spec, ctx):
    import maxlike
    from maxlike import Tensor, copula
    from maxlike import func as F
    from maxlike.func.func_op import FuncWrap
    k = spec["kind"]
    ctx.label(k)
    ctx.nontrivial = True
    if k == "copula":
        c = getattr(copula, spec["fam"])
        ctx.call(spec["fam"], c, GOODRHO[spec["fam"]])
        if spec["fam"] == "Gumbel" and spec["a"] >= 1:
            ctx.skip("rounding")
        rejects(ctx, "%s(%r)" % (spec["fam"], spec["a"]),
                lambda: c(spec["a"]))
    elif k == "markov":
        f = ctx.call("Markov function", R.build, {
            "t": spec["t"], "size": spec["size"], "steps": spec["steps"],
            "skew": None})
        a, b = [np.array(spec[n]).reshape(spec["shape"]) for n in "ab"]
        run = {"call": lambda p: f(p), "eval": lambda p: f.eval(p),
               "grad": lambda p: f.grad(p, 0), "hess": lambda p: f.hess(p, 0, 0),
               "grad1": lambda p: f.grad(p, 1),
               "hess1": lambda p: f.hess(p, 1, 0)}[spec["entry"]]
        ctx.call("valid intensities", run, [a, b])
        how, at, by = spec["how"], spec["at"], spec["by"]
        a, b = a.copy(), b.copy()
        if how in "ab":
            (a if how == "a" else b).flat[at] = -by
        elif how == "sum":
            a.flat[at] += spec["steps"] * (1 + by) - b.flat[at]
        elif how == "even":                     # adding up to one exactly
            a.flat[at] = b.flat[at] = spec["steps"] / 2
        elif how == "nan":
            (a if by > 1 else b).flat[at] = np.nan
        else:
            b = np.repeat(b[None], 2, 0) if by > 1 or b.ndim == 0 else \
                np.concatenate([b, b])
        ctx.label(how)
        rejects(ctx, "%s of the intensities %s and %s in %d steps" % (
            spec["entry"], a.tolist(), b.tolist(), spec["steps"]),
            lambda: run([a, b]))
    elif k == "mask":
        v, m = np.ones(spec["shape"]), np.ones(spec["mask"], dtype=bool)
        if spec["list"]:
            m = m.tolist()
        if not spec["mask"]:
            ctx.skip("a single flag")
        if spec["own"]:
            ctx.call("Param", maxlike.Param, v, np.zeros(v.shape, dtype=bool))
            rejects(ctx, "a mask of shape %s of a parameter of shape %s" % (
                spec["mask"], spec["shape"]), lambda: maxlike.Param(v, m))
            return
        e = maxlike.Poisson()
        ctx.call("add_param", e.add_param, v)
        rejects(ctx, "a mask of shape %s of a parameter of shape %s" % (
            spec["mask"], spec["shape"]), lambda: e.add_param(v, m))
        ctx.require(len(e.params) == 1 and not e.params[0].mask.any(),
                    "the rejected parameter is kept: %d parameters",
                    len(e.params))
    elif k == "sigmoid":
        if spec["name"].lower() in ("logistic", "arctan"):
            ctx.skip("a name")
        rejects(ctx, "Sigmoid(%r)" % spec["name"],
                lambda: F.Sigmoid(spec["name"]))
    elif k == "zip":
        rejects(ctx, "zero-inflated Poisson with weight %r" % spec["s"],
                lambda: maxlike.ZeroInflatedPoisson(spec["s"]))
    elif k == "nofunc":
        x = {"lambda": lambda p: p, "number": 3, "none": None, "text": "X",
             "class": F.X, "array": np.ones(2)}[spec["what"]]
        if spec["via"] == "wrap":
            ctx.call("FuncWrap", FuncWrap, F.X(), 0, 0, 1)
            rejects(ctx, "FuncWrap of a %s" % spec["what"],
                    lambda: FuncWrap(x, 0, 0, 1))
            return
        s = F.Sum(1) if spec["via"] == "sum" else F.Product(1)
        v = np.array([1.0, 2.0])
        s.add(F.X(), 0, 0)
        rejects(ctx, "adding a %s to a %s" % (spec["what"], spec["via"]),
                lambda: s.add(x, 0, 0))
        ctx.close("value after the rejection",
                  ctx.call("value", lambda: s([v]).toarray()), v, 1e-12)
    elif k == "noseries":
        import pandas as pd
        from maxlike.preprocessing import prepare_series
        x = {"list": [1, 2], "frame": pd.DataFrame({"a": [1, 2]}),
             "array": np.ones(2), "dict": {0: 1}, "none": None}[spec["what"]]
        ctx.call("prepare_series", prepare_series, pd.Series([1, 2]))
        rejects(ctx, "prepare_series of a %s" % spec["what"],
                lambda: prepare_series(x))
    elif k == "weights":
        x = {"none": None, "text": "12", "dict": {0: 1}}[spec["what"]]
        ctx.call("Linear", F.Linear, [1, 2])
        rejects(ctx, "Linear(%r)" % (x,), lambda: F.Linear(x))
    elif k == "size":
        ctx.call("MarkovVector", F.MarkovVector, 1, spec["steps"])
        rejects(ctx, "MarkovVector(%d)" % spec["size"],
                lambda: F.MarkovVector(spec["size"], spec["steps"]))
    elif k == "index":
        def term(bad):
            m = {"param": 0, "feat": 0, "dim": 0}
            if bad:
                m[spec["which"]] = spec["what"]
            if spec["via"] == "wrap":
                return FuncWrap(F.Poisson(3), m["param"], m["feat"], 1,
                                m["dim"], 1)
            s = (F.Sum if spec["via"] == "sum" else F.Product)(1, 1)
            s.add(F.Poisson(3), m["param"], m["feat"], m["dim"])
            return s
        ctx.call("term", lambda: term(False)([np.ones(2)]))
        rejects(ctx, "index %r of a %s" % (spec["what"], spec["which"]),
                lambda: term(True)([np.ones(2)]))
    elif k == "threshold":
        from maxlike import skellam as S
        rejects(ctx, "skellam_cdf_pair at %r" % spec["n"],
                lambda: S.skellam_cdf_pair(spec["a"], spec["b"], spec["n"]))
    else:
        t = ctx.call("Tensor", T.lib_tensor, spec["leaf"])
        z = {"int": 0, "float": 0.0, "tensor": Tensor(0)}[spec["by"]]
        rejects(ctx, "tensor / 0", lambda: t / z)
        T.compare(ctx, "operand", t, T.dense(spec["leaf"]))


# -- index maps -----------------------------------------------------------------
@st.composite
def map_case(draw):
    nf = draw(st.integers(1, 3))
    k = draw(st.integers(1, nf))
    feat = [draw(st.integers(2, 3)) for _ in range(nf)]
    x = list(draw(st.permutations(range(nf))))[:k]
    nd = draw(st.integers(0, 2))
    how = draw(st.sampled_from(["feat high", "feat short", "feat long",
                                "param high", "size"] +
                               ["dim high", "dim short", "dim long"] *
                               (1 if nd else 0)))
    return {"feat": feat, "x": x, "nd": nd, "how": how,
            "size": draw(st.integers(2, 3)),
            "at": draw(st.integers(0, 5)), "by": draw(st.integers(0, 2)),
            "via": draw(st.sampled_from(["sum", "prod", "wrap"])),
            "entry": draw(st.sampled_from(["call", "eval", "grad"])),
            "more": draw(st.booleans())}


def check_map(spec, ctx):
    from maxlike import func as F
    from maxlike.func.func_op import FuncWrap
    feat, x, nd = spec["feat"], list(spec["x"]), spec["nd"]
    p = np.ones([feat[i] for i in x]) + 0.25 * np.arange(
        int(np.prod([feat[i] for i in x]))).reshape([feat[i] for i in x])
    foo = F.Poisson(spec["size"]) if nd else F.X()
    via = spec["via"]

    def model(pm, xm, dm):
        if via == "wrap":
            return FuncWrap(foo, pm, xm, len(feat), dm, nd)
        s = (F.Sum if via == "sum" else F.Product)(len(feat), nd)
        if spec["more"]:
            s.add(F.X(), 1, [])
        s.add(foo, pm, xm, dm)
        return s

    def run(m, q):
        args = [q, 0.5]
        r = m(args) if spec["entry"] == "call" else m.eval(args)[0] \
            if spec["entry"] == "eval" else m.grad(args, 0)
        return r.toarray()
    d = [spec["at"] % nd] if nd else []
    ctx.call("valid maps", lambda: run(model([0], x, d), p))
    pm, xm, dm, q = [0], list(x), list(d), p
    how, at = spec["how"], spec["at"]
    if how == "feat high":
        xm[at % len(xm)] = len(feat) + spec["by"]
    elif how == "feat short":
        xm.pop(at % len(xm))
    elif how == "feat long":
        rest = [i for i in range(len(feat)) if i not in xm]
        if not rest:
            ctx.skip("no feature left")
        xm.append(rest[0])
    elif how == "param high":
        pm = [2 + spec["by"]]
    elif how == "dim high":
        dm = [nd + spec["by"]]
    elif how == "dim short":
        dm = []
    elif how == "dim long":
        if nd < 2:
            ctx.skip("no outcome axis left")
        dm = [0, 1]
    else:
        # another parameter of another size along one of the features
        if via == "wrap":
            ctx.skip("a single term")
        sh = [feat[i] for i in x]
        sh[at % len(sh)] += 1
        q = np.ones(sh)

        def model(pm, xm, dm):
            s = (F.Sum if via == "sum" else F.Product)(len(feat), nd)
            s.add(F.Constant(np.ones(feat)), [], list(range(len(feat))))
            s.add(foo, pm, xm, dm)
            return s
        if spec["entry"] != "call" and via == "sum":
            spec["entry"] = "call"
    if how == "param high" and spec["entry"] == "grad":
        spec["entry"] = "call"
    ctx.label(how, via)
    ctx.nontrivial = True
    rejects(ctx, "%s of a %s with parameter map %s, feature map %s of %d, "
            "outcome map %s of %d" % (spec["entry"], via, pm, xm, len(feat),
                                      dm, nd),
            lambda: run(model(pm, xm, dm), q))


def a_map_without(x, n, i):
    """map of a parameter space that leaves out the feature axis i"""
    m = [-1] * len(x)
    for k in range(len(n)):
        if k != i and n[k] == x[0]:
            m[0] = k
    return m


# -- tensors --------------------------------------------------------------------
@st.composite
def tensor_case(draw):
    kind = draw(st.sampled_from(["axes", "axes", "sizes", "function", "flip",
                                 "set", "divide"]))
    u = {s: [draw(st.integers(2, 3)) for _ in range(draw(
        st.integers(0 if s != "n" else 1, 2)))] for s in "xynd"}
    has = {s: bool(u[s]) for s in "xynd"}
    s = {"kind": kind, "by": draw(st.sampled_from(["operator", "numpy"])),
         "op": draw(st.sampled_from(["add", "sub", "mul", "div"])),
         "a": T.a_leaf(draw, u, has=has, bcast=False)}
    at = draw(st.integers(0, 5))
    if kind == "axes":
        c = [k for k in "xynd" if u[k]]
        k = c[at % len(c)]
        v = {i: list(u[i]) for i in u}
        v[k] = v[k] + [2] if len(v[k]) == 1 or draw(st.booleans()) \
            else v[k][:1]
        s["space"] = k
        s["b"] = T.a_leaf(draw, v, has={i: i == k or has[i] and draw(
            st.booleans()) for i in u}, maps=s["op"] != "div", pos=True)
    elif kind == "sizes":
        c = [(k, i) for k in "xynd" for i in range(len(u[k]))]
        k, i = c[at % len(c)]
        v = {j: list(u[j]) for j in u}
        v[k][i] = 5
        s["space"] = k
        s["b"] = T.a_leaf(draw, v, has={j: j == k or has[j] and draw(
            st.booleans()) for j in u}, maps=False, pos=True, bcast=False)
        s["a"]["xm"] = s["a"]["ym"] = None
    elif kind == "function":
        s["fn"] = draw(st.sampled_from(sorted(T.FUNCTIONS) + [
            "maximum", "minimum"]))
        s["swap"] = draw(st.booleans())
        if not (u["x"] or u["y"]):
            u["x"] = [2]
        s["a"] = T.a_leaf(draw, u, has={k: bool(u[k]) for k in u}, pos=True)
    elif kind == "flip":
        # an axis that the first, the second or both parameter spaces share
        k = draw(st.sampled_from(["x", "y", "xy"]))
        i = draw(st.integers(0, len(u["n"]) - 1))
        for c in k:
            u[c] = [draw(st.integers(2, 3)) for _ in range(draw(
                st.integers(1, 2)))]
            u[c][-1] = u["n"][i]
        s["a"] = T.a_leaf(draw, u, has={c: bool(u[c]) for c in u},
                          bcast=False)
        for c in "xy":
            s["a"][c + "m"] = None
            if c in k:
                s["a"][c + "m"] = [-1] * (len(u[c]) - 1) + [i]
            elif u[c] and draw(st.booleans()):
                s["a"][c + "m"] = a_map_without(u[c], u["n"], i)
        s["axis"] = i
        s["list"] = draw(st.booleans())
    elif kind == "set":
        s["attr"] = at
        s["del"] = draw(st.booleans())
    elif kind == "divide":
        s["b"] = T.a_leaf(draw, u, has=has, pos=True)
    s["sum"] = draw(st.booleans())
    return s


def check_tensor(spec, ctx):
    from maxlike import Param
    k = spec["kind"]
    a = ctx.call("Tensor", T.lib_tensor, spec["a"])
    da = T.dense(spec["a"])
    ctx.label(k)
    ctx.nontrivial = True
    left, dl = a, da
    if spec["sum"] and da.nx and not spec["a"]["xm"] and \
            spec["a"]["n"] and k not in ("function", "flip"):
        c = dict(spec["a"], xm=T_map(spec["a"]))
        if c["xm"]:
            left = ctx.call("a + b", lambda: a + T.lib_tensor(c))
            dl = T.Dense(da.arr + T.dense(c).arr, *da.lay)
    if k in ("axes", "sizes"):
        b = ctx.call("Tensor", T.lib_tensor, spec["b"])
        ctx.label(spec["space"])
        for x, y in ((left, b), (b, left)):
            if type(y).__name__ != "Tensor" and spec["op"] == "div":
                continue
            rejects(ctx, "%s of tensors of layouts %s and %s" % (
                spec["op"], lay(x), lay(y)),
                lambda: T.spelled(spec["op"], spec["by"], x, y).toarray())
        T.compare(ctx, "operand", b, T.dense(spec["b"]))
    elif k == "function":
        f = T.FUNCTIONS.get(spec["fn"])
        if f is None:
            g = getattr(np, spec["fn"])
            f = (lambda t: g(0.5, t)) if spec["swap"] else (
                lambda t: g(t, 0.5))
        rejects(ctx, "%s of a tensor with parameter axes" % spec["fn"],
                lambda: f(a))
    elif k == "flip":
        rejects(ctx, "flip of a mapped axis",
                lambda: a.flip([spec["axis"]] if spec["list"]
                               else spec["axis"]))
    elif k == "set":
        p = Param(da.arr)
        for obj in (left, p):
            names = ["values", "mask", "shape"] if obj is p else \
                [n for n in ("values", "x_dim", "y_dim", "n", "dim", "x_map",
                             "y_map", "elements") if hasattr(obj, n)]
            n = names[spec["attr"] % len(names)]
            if spec["del"]:
                rejects(ctx, "del %s.%s" % (type(obj).__name__, n),
                        lambda: delattr(obj, n))
            else:
                rejects(ctx, "setting %s.%s" % (type(obj).__name__, n),
                        lambda: setattr(obj, n, 1))
        if p.values.ndim:
            rejects(ctx, "writing into Param.values",
                    lambda: p.values.__setitem__(0, 7.0))
            rejects(ctx, "writing into Tensor.values",
                    lambda: a.values.__setitem__(0, 7.0))
        ctx.close("parameter", p.values, da.arr, 1e-12)
    else:
        s = ctx.call("a + b", lambda: T.lib_tensor(spec["b"]) + a)
        if type(s).__name__ == "Tensor":
            ctx.skip("not a sum of structures")
        rejects(ctx, "division by a sum of structures", lambda: (a / s))
    T.compare(ctx, "operand", left, dl)


def T_map(leaf):
    """maps the first x axis to a feature axis of the same size"""
    for f, n in enumerate(leaf["n"]):
        if n == leaf["x"][0] and n > 1:
            return [f] + [-1] * (len(leaf["x"]) - 1)
    return None


def lay(t):
    return (t.x_dim, t.y_dim, t.n, t.dim)


PROPS = {
    "C29": Prop("C29", [
        Target("arguments", lambda tier: argument_case(), check_argument,
               12000),
        Target("maps", lambda tier: map_case(), check_map, 8000),
        Target("tensors", lambda tier: tensor_case(), check_tensor, 8000)],
        "a valid call and the same call with one argument moved out of the "
        "domain; oracle: the first is accepted, the second raises and leaves "
        "the objects as they were; every decided case is non-trivial",
        ["only what the library itself checks or documents as not supported; "
         "any exception counts as a rejection"]),
}
