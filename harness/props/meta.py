"""
C13: fits of transformed data against the transformed fit.
"""
import copy
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Target
import estim as E
import refmodel as R
from props import fits as F

TOL = 1e-11


# -- transformations of a problem --------------------------------------------
def _inner(f):
    """functions that see the same parameters and features as f"""
    if f["t"] == "Comp":
        return f["g"]
    if f["t"] == "Affine":
        return [f["f"]]
    return []


def relabel(f, perms, params, out):
    """permutes the labels of the features (new position k is old perms[k]);
    out[q]: the permutations of the axes of parameter q"""
    f = dict(f)
    t = f["t"]
    if t in ("Sum", "Prod"):
        f["atoms"] = [dict(a, f=relabel(
            a["f"], [perms[i] for i in R._list(a["x"])],
            [params[q] for q in R._list(a["p"])], out))
            for a in f["atoms"]]
    elif t == "Comp":
        f["g"] = [relabel(g, perms, params, out) for g in f["g"]]
    elif t == "Affine":
        f["f"] = relabel(f["f"], perms, params, out)
    elif t == "X":
        out[params[0]] = list(perms)
    elif t == "Vector":
        f["v"] = [f["v"][k] for k in perms[0]]
    elif t == "Const":
        v = np.array(f["v"])
        if v.ndim:
            f["v"] = v[np.ix_(*perms)].tolist()
    return f


def by_label(p, start, perms):
    q = copy.deepcopy(p)
    ax = [[] for _ in p["params"]]
    q["model"] = relabel(p["model"], perms, list(range(len(ax))), ax)
    take = lambda a, k: np.array(a)[np.ix_(*ax[k])] if ax[k] else np.array(a)
    q["masks"] = [m if m is None or isinstance(m, bool) else
                  take(m, k).tolist() for k, m in enumerate(p["masks"])]
    sh = list(p["feat"])
    if p["dist"] in E.FINITE:
        n = np.array(p["obs"]).reshape(sh + [-1])
        q["obs"] = n[np.ix_(*perms)].ravel().tolist()
    else:
        idx = np.arange(len(p["obs"])).reshape(sh)[np.ix_(*perms)]
        q["obs"] = [p["obs"][i] for i in idx.ravel()]
    start = [take(a, k) for k, a in enumerate(start)]

    def back(vals):
        out = []
        for k, v in enumerate(vals):
            w = np.empty_like(v)
            w[np.ix_(*ax[k]) if ax[k] else ()] = v
            out.append(w)
        return out
    return q, start, back


def map_features(f, inv):
    f = dict(f)
    if f["t"] in ("Sum", "Prod"):
        f["atoms"] = [dict(a, x=[inv[i] for i in R._list(a["x"])])
                      for a in f["atoms"]]
    elif f["t"] == "Comp":
        f["g"] = [map_features(g, inv) for g in f["g"]]
    elif f["t"] == "Affine":
        f["f"] = map_features(f["f"], inv)
    return f


def by_axis(p, start, sigma):
    """new feature axis k is the old sigma[k]"""
    q = copy.deepcopy(p)
    inv = [list(sigma).index(i) for i in range(len(sigma))]
    q["model"] = map_features(p["model"], inv)
    sh = list(p["feat"])
    q["feat"] = [sh[i] for i in sigma]
    if p["dist"] in E.FINITE:
        n = np.array(p["obs"]).reshape(sh + [-1])
        q["obs"] = n.transpose(list(sigma) + [n.ndim - 1]).ravel().tolist()
    else:
        idx = np.arange(len(p["obs"])).reshape(sh).transpose(sigma)
        q["obs"] = [p["obs"][i] for i in idx.ravel()]
    return q, start, lambda vals: vals


def map_params(f, inv, order):
    f = dict(f)
    if f["t"] in ("Sum", "Prod"):
        a = [dict(a, p=[inv[i] for i in R._list(a["p"])]) for a in f["atoms"]]
        f["atoms"] = [a[i] for i in np.argsort(np.resize(order, len(a)),
                                               kind="stable")]
    elif f["t"] == "Comp":
        f["g"] = [map_params(g, inv, order) for g in f["g"]]
    elif f["t"] == "Affine":
        f["f"] = map_params(f["f"], inv, order)
    return f


def by_order(p, start, tau, order):
    """parameter k is the old tau[k]; terms, constraints and penalties in
    another order"""
    q = copy.deepcopy(p)
    tau = list(tau)
    inv = [tau.index(i) for i in range(len(tau))]
    # a model that is not a sum hands the parameters on by position
    q["model"] = map_params(p["model"], inv, order)
    q["params"] = [p["params"][i] for i in tau]
    q["masks"] = [p["masks"][i] for i in tau]
    for k in ("cons", "reg"):
        q[k] = [dict(c, p=[inv[i] for i in R._list(c["p"])])
                for c in reversed(p[k])]
    back = lambda vals: [vals[inv[i]] for i in range(len(tau))]
    return q, [start[i] for i in tau], back


def by_weight(p, start, c):
    q = copy.deepcopy(p)
    q["w"] = p["w"] * c
    q["reg"] = [dict(r, f={"t": "Affine", "f": r["f"], "a": c, "b": 0,
                           "via": "ctor"}) for r in p["reg"]]
    return q, start, lambda vals: vals


def usable(f):
    """parameters named in terms (not handed on by position to a leaf)"""
    return f["t"] in ("Sum", "Prod") or (
        bool(_inner(f)) and all(usable(g) for g in _inner(f)))


# -- fits -------------------------------------------------------------------
def run(ctx, what, p, start, method, data=None):
    e = F.make(ctx, p, start)
    ctx.call("%s: fit(%s)" % (what, method), e.fit, tol=TOL, max_steps=100,
             method=method, **(E.data(p) if data is None else data))
    vals = [np.array(v.values) for v in e.params]
    se = [np.nan_to_num(np.ma.filled(s, 0)) ** 2
          for s in ctx.call("std_error", e.std_error)]
    return e, vals, se


def compare(ctx, what, p, r, m, a, b):
    """(estimates, variances) of two fits"""
    tol = 2 * F.error_bound(r, m, TOL)
    for k, (u, v) in enumerate(zip(a[0], b[0])):
        ctx.close("%s, %s: estimates of parameter %d" % (p["dist"], what, k),
                  u, v, atol=tol)
    if m == "newton":
        s = max(x.max(initial=0) for x in b[1]) + 1e-12
        for k, (u, v) in enumerate(zip(a[1], b[1])):
            ctx.close("%s, %s: variances of parameter %d" % (
                p["dist"], what, k), u, v, atol=2e-3 * s)


@st.composite
def perm_of(draw, n):
    return list(draw(st.permutations(range(n))))


@st.composite
def c13_strategy(draw, tier):
    p = draw(E.concave())
    kinds = draw(st.lists(st.sampled_from(
        ["label", "axis", "order", "weight"]), min_size=1, max_size=3))
    ts = []
    feat = list(p["feat"])
    for k in kinds:
        if k == "label":
            ts.append([k, [draw(perm_of(n)) for n in feat]])
        elif k == "axis":
            sigma = draw(perm_of(len(feat)))
            feat = [feat[i] for i in sigma]
            ts.append([k, sigma])
        elif k == "order":
            ts.append([k, draw(perm_of(len(p["params"]))),
                       draw(perm_of(4))])
        else:
            ts.append([k, draw(st.sampled_from([2, 3, 0.5, 10, 0.1]))])
    return {"p": p, "delta": draw(F.DELTA), "method": draw(F.METHODS),
            "ts": ts}


def c13_check(spec, ctx):
    p, m = spec["p"], spec["method"].lower()
    vals, r, start = F.problem(ctx, p, spec["delta"], m == "broyden")
    e, v0, s0 = run(ctx, "fit", p, start, spec["method"])
    q, s1, backs, c = p, start, [], 1.0
    for t in spec["ts"]:
        k = t[0]
        if k == "label":
            q, s1, b = by_label(q, s1, t[1])
        elif k == "axis":
            if not usable(q["model"]):
                continue
            q, s1, b = by_axis(q, s1, t[1])
        elif k == "order":
            if not usable(q["model"]):
                continue
            q, s1, b = by_order(q, s1, t[1], t[2])
        else:
            q, s1, b = by_weight(q, s1, t[1])
            c *= t[1]
        ctx.label(k)
        backs.append(b)
    if not backs:
        ctx.skip("no transformation")
    what = "+".join(t[0] for t in spec["ts"])
    e, v1, s1 = run(ctx, what, q, s1, spec["method"])
    for b in reversed(backs):
        v1, s1 = b(v1), b(s1)
    compare(ctx, what, p, r, m, (v1, [x * c for x in s1]), (v0, s0))
    F.labels(ctx, p, m)
    ctx.nontrivial = q != p and len(r.gf) > 1


# -- from the table to the estimates ------------------------------------------
NAMES = [["ann", "bob", "cid", "dan"], ["E", "F", "G", "H"],
         [10, 20, 30, 100]]


@st.composite
def table_strategy(draw, tier):
    p = draw(E.concave(dists=E.LOGLINK))
    p["w"] = 1
    n = sum(len(o) for o in p["obs"])
    return {"p": p, "delta": draw(F.DELTA), "method": draw(F.METHODS),
            "perms": [draw(perm_of(k)) for k in p["feat"]],
            "rows": draw(perm_of(n)),
            "split": draw(st.lists(st.integers(1, 3), min_size=1,
                                   max_size=5)),
            "weights": draw(st.lists(st.sampled_from([1, 1, 2, 3]),
                                     min_size=1, max_size=5)),
            "kind": draw(st.sampled_from(["series", "frame", "frame"]))}


def rows_of(p):
    out = []
    for pos, o in zip(np.ndindex(*p["feat"]), p["obs"]):
        out.extend((pos, x) for x in o)
    return out


def zeros(x):
    return (x == 0).sum()


def table_check(spec, ctx):
    from maxlike.preprocessing import prepare_series, prepare_dataframe
    p, m = spec["p"], spec["method"].lower()
    nf = len(p["feat"])
    frame = spec["kind"] == "frame" and nf > 1 and \
        p["dist"] != "ZeroInflatedPoisson"
    rows = rows_of(p)
    ws = [1] * len(rows)
    if frame:
        # a row of weight w stands for w rows
        ws = [spec["weights"][k % len(spec["weights"])]
              for k in range(len(rows))]
        obs = [[] for _ in p["obs"]]
        cells = {pos: k for k, pos in enumerate(np.ndindex(*p["feat"]))}
        for (pos, x), w in zip(rows, ws):
            obs[cells[pos]].extend([x] * w)
        p = dict(p, obs=obs)
    p = dict(p, intdata=False)
    vals, r, start = F.problem(ctx, p, spec["delta"], m == "broyden")
    e, v0, s0 = run(ctx, "arrays", p, start, spec["method"])
    # the category in position k of the sorted labels
    perms = spec["perms"]
    name = [{cat: NAMES[a][pos] for pos, cat in enumerate(pm)}
            for a, pm in enumerate(perms)]
    q, s1, back = by_label(p, start, perms)
    table = []
    for i, ((pos, x), w) in enumerate(zip(rows, ws)):
        lab = tuple(name[a][k] for a, k in enumerate(pos))
        parts = min(spec["split"][i % len(spec["split"])], w)
        for j in range(parts):
            share = w - (parts - 1) if j == 0 else 1
            table.append((i, lab, x, share))
    order = {i: k for k, i in enumerate(spec["rows"])}
    table.sort(key=lambda t: (order[t[0]], t[1]))
    if nf > 1:
        index = pd.MultiIndex.from_tuples([t[1] for t in table],
                                          names=["f%d" % a for a in
                                                 range(nf)])
    else:
        index = pd.Index([t[1][0] for t in table], name="f0")
    x = np.array([t[2] for t in table])
    if frame:
        df = pd.DataFrame({"y": x, "w": [t[3] for t in table]}, index=index)
        res, axis = ctx.call("prepare_dataframe", prepare_dataframe, df,
                             "w", "y", {"X": np.sum})
    else:
        tr = {"N": np.size, "X": np.sum}
        if p["dist"] == "ZeroInflatedPoisson":
            tr["Z"] = zeros
        res, axis = ctx.call("prepare_series", prepare_series,
                             pd.Series(x, index=index), tr)
    axis = [list(a) for a in (axis if nf > 1 else [axis])]
    ctx.require(axis == [NAMES[a][:n] for a, n in enumerate(p["feat"])],
                "axes %s", axis)
    e, v1, s1 = run(ctx, spec["kind"], q, s1, spec["method"], dict(res))
    compare(ctx, spec["kind"], p, r, m, (back(v1), back(s1)), (v0, s0))
    F.labels(ctx, p, m)
    ctx.label("frame" if frame else "series")
    ctx.nontrivial = len(r.gf) > 1 and any(
        pm != sorted(pm) for pm in perms)


PROPS = {
    "C13": Prop("C13", [Target("transform", c13_strategy, c13_check, 2400),
                        Target("table", table_strategy, table_check, 1600)],
                "the transformation changes the problem; two or more free "
                "entries", [F.CONCAVE]),
}
