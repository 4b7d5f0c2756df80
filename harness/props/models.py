"""
C01-C04: models against an independent interpreter with exact second-order
automatic differentiation (jet.py, refmodel.py).
"""
import numpy as np
from core import Prop, Target
import jet
import modelgen as M
import refmodel as R

RTOL = 1e-8


def reference(spec, ctx):
    params = [np.array(p, dtype=float) for p in spec["params"]]
    js = jet.seeds(params)
    try:
        j, n, d = R.ev(spec["model"], [(x, x.ndim, 0) for x in js], js[0].P)
    except R.OutOfDomain as e:
        ctx.skip(str(e))
    v, g, h = j.full()
    if not np.isfinite(v).all() or not np.isfinite(h).all():
        ctx.skip("reference not finite")
    if np.abs(v).max() > 1e4 or np.abs(h).max() > 1e5:
        ctx.skip("values too large for the tolerance")
    off = np.cumsum([0] + [p.size for p in params])
    S = v.shape

    def G(i):
        return g[off[i]:off[i + 1]].reshape(params[i].shape + S)

    def H(i, k):
        return h[off[i]:off[i + 1], off[k]:off[k + 1]].reshape(
            params[i].shape + params[k].shape + S)
    # scale of a derivative block: all the derivatives together
    gs, hs = 1 + np.abs(g).max(), 1 + np.abs(h).max()
    return params, v, n, d, G, H, gs, hs


def arguments(spec, params):
    form = spec.get("form", "array")
    params = [R.stored(p, spec.get("mem")) for p in params]
    if spec.get("share"):
        # equal parameters are the same object
        params = [next(q for q in params if np.array_equal(p, q))
                  for p in params]
    if form == "param":
        from maxlike import Param
        made = {id(p): Param(p) for p in params}
        return [made[id(p)] for p in params]
    if form == "list":
        return [p.tolist() for p in params]
    if form == "tuple" and all((p == np.round(p)).all() for p in params):
        params = [p.astype(int) for p in params]
    args = [p if p.ndim else p.item() for p in params]
    if form == "tuple":
        return tuple(args)
    if form == "bare" and len(args) == 1:
        return args[0]
    return args


def dense(x):
    """Linear by itself returns a number"""
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def axes(x):
    return (getattr(x, "n", 0), getattr(x, "dim", 0),
            getattr(x, "x_dim", 0), getattr(x, "y_dim", 0))


def walk(s):
    yield s
    for k in ("f",):
        if isinstance(s.get(k), dict):
            yield from walk(s[k])
    for x in s.get("g", []):
        yield from walk(x)
    for a in s.get("atoms", []):
        yield from walk(a["f"])


def depth(s):
    sub = [s["f"]] if isinstance(s.get("f"), dict) else []
    sub += s.get("g", []) + [a["f"] for a in s.get("atoms", [])]
    return 1 + max([depth(x) for x in sub], default=0)


def classify(spec, ctx):
    m = spec["model"]
    types = {x["t"] for x in walk(m)}
    for t in types:
        ctx.label("node:" + t)
    ctx.label("features:%d" % len(spec["feat"]),
              "params:%d" % len(spec["params"]),
              "depth:%d" % min(depth(m), 7), "form:" + spec["form"])
    if any(isinstance(a["p"], list) and len(set(a["p"])) < len(a["p"])
           for x in walk(m) for a in x.get("atoms", [])):
        ctx.label("repeated parameter")
    if any(np.ndim(p) == 2 for p in spec["params"]):
        ctx.label("matrix parameter")
    return types


def start(spec, ctx):
    ref = reference(spec, ctx)
    types = classify(spec, ctx)
    f = ctx.call("building the model", R.build, spec["model"],
                 {} if spec.get("share") else None)
    return ref, types, f


def enough(spec, types):
    return len(types) >= 2 or spec["model"]["t"] not in ("Sum", "Prod", "Comp")


def one_pass(f, args, ctx, get):
    with ctx.lib("eval(params)"):
        return get(*f.eval(args))


def check_value(spec, ctx):
    (params, v, n, d, G, H, gs, hs), types, f = start(spec, ctx)
    args = arguments(spec, params)
    val = ctx.call("model(params)", f, args)
    with ctx.lib("model value"):
        dims = axes(val)
        arr = dense(val)
    ctx.require(dims == (n, d, 0, 0), "axis counts (n, dim, x, y) are %s "
                "instead of %s", dims, (n, d, 0, 0))
    ctx.close("model value", arr, v, RTOL, bcast=True)
    arr = one_pass(f, args, ctx, lambda val, grad, hess: dense(val))
    ctx.close("value of the one-pass evaluation", arr, v, RTOL, bcast=True)
    ctx.nontrivial = enough(spec, types) and np.ptp(v) > 1e-6


def check_grad(spec, ctx):
    (params, v, n, d, G, H, gs, hs), types, f = start(spec, ctx)
    args = arguments(spec, params)
    nz = 0
    for i in range(len(params)):
        t = ctx.call("grad(params, %d)" % i, f.grad, args, i)
        with ctx.lib("gradient"):
            a = np.asarray(t.toarray())
        want = G(i)
        ctx.close("gradient w.r.t. parameter %d" % i, a, want,
                  atol=RTOL * gs, bcast=True)
        nz += np.abs(want).max(initial=0) > 1e-6
    got = one_pass(f, args, ctx, lambda val, grad, hess: [
        np.asarray(d.toarray()) for d in grad])
    for i in range(len(params)):
        ctx.close("one-pass gradient w.r.t. parameter %d" % i, got[i], G(i),
                  atol=RTOL * gs, bcast=True)
    ctx.nontrivial = enough(spec, types) and nz > 0


def check_hess(spec, ctx):
    (params, v, n, d, G, H, gs, hs), types, f = start(spec, ctx)
    args = arguments(spec, params)
    nz = 0
    for i in range(len(params)):
        for k in range(len(params)):
            t = ctx.call("hess(params, %d, %d)" % (i, k), f.hess, args, i, k)
            with ctx.lib("Hessian"):
                a = np.asarray(t.toarray())
            want = H(i, k)
            ctx.close("Hessian block %d, %d" % (i, k), a, want,
                      atol=RTOL * hs, bcast=True)
            nz += np.abs(want).max(initial=0) > 1e-6
    got = one_pass(f, args, ctx, lambda val, grad, hess: [
        [np.asarray(hess[i][k].toarray()) for k in range(i + 1)]
        for i in range(len(params))])
    for i in range(len(params)):
        for k in range(i + 1):
            ctx.close("one-pass Hessian block %d, %d" % (i, k), got[i][k],
                      H(i, k), atol=RTOL * hs, bcast=True)
    ctx.nontrivial = enough(spec, types) and nz > 0


def check_eval(spec, ctx):
    (params, v, n, d, G, H, gs, hs), types, f = start(spec, ctx)
    args = arguments(spec, params)
    with ctx.lib("eval(params)"):
        val, grad, hess = f.eval(args)
        lens = (len(grad), [len(r) for r in hess])
    N = len(params)
    ctx.require(lens[0] == N and len(lens[1]) == N and
                all(l >= i + 1 for i, l in enumerate(lens[1])),
                "eval returned %s blocks for %d parameters", lens, N)
    with ctx.lib("separate evaluation"):
        sv = f(args)
        svd, vd = dense(sv), dense(val)
        dims, sdims = axes(val), axes(sv)
        sg = f.grad(args)
        sh = f.hess(args)
        ns = (len(sg), len(sh))
    ctx.require(dims == sdims, "axis counts of eval %s, of the value %s",
                dims, sdims)
    ctx.require(ns == (N, N), "separate evaluation returned %s blocks", ns)
    ctx.close("eval value vs value", np.broadcast_to(vd, v.shape),
              np.broadcast_to(svd, v.shape), RTOL)
    S = v.shape
    for i in range(N):
        with ctx.lib("gradients"):
            full = params[i].shape + S
            a = np.broadcast_to(grad[i].toarray(), full)
            b = np.broadcast_to(sg[i].toarray(), full)
            c = np.broadcast_to(f.grad(args, i).toarray(), full)
        ctx.close("eval gradient %d vs grad" % i, a, b, atol=RTOL * gs)
        ctx.close("grad(params)[%d] vs grad(params, %d)" % (i, i), b, c,
                  atol=1e-11 * gs)
        for k in range(i + 1):
            with ctx.lib("Hessians"):
                full = params[i].shape + params[k].shape + S
                a = np.broadcast_to(hess[i][k].toarray(), full)
                b = np.broadcast_to(sh[i][k].toarray(), full)
                c = np.broadcast_to(f.hess(args, i, k).toarray(), full)
            ctx.close("eval Hessian %d, %d vs hess" % (i, k), a, b,
                      atol=RTOL * hs)
            ctx.close("hess(params)[%d][%d] vs hess(params, %d, %d)" % (
                i, k, i, k), b, c, atol=1e-11 * hs)
    ctx.nontrivial = enough(spec, types)


def targets(check, n, kinds):
    out = []
    for kind, w in kinds:
        for depth_, frac in ((1, 0.4), (2, 0.6)):
            out.append(Target(
                "%s%d" % (kind, depth_),
                lambda tier, kind=kind, depth_=depth_: M.model_case(
                    kind, depth_ + (tier == "thorough")),
                check, max(8, int(n * w * frac))))
    return out


KINDS = [("real", 2), ("comp", 1.2), ("pos", 1), ("vec", 2), ("mat", 1), ("mix", 1), ("nest", 1.2),
         ("act", 1), ("coll", 1.5), ("collsum", .7), ("flip", .5),
         ("single", .5)]
RULE = ("random model expressions (Hypothesis grammar over all the supplied "
        "functions, Sum/Product/Compose/Affine/FuncWrap/Collapse, any index "
        "maps) with random parameters; non-trivial = at least two kinds of "
        "nodes (or a supplied function by itself) and a %s; cases whose reference is not finite or exceeds 1e4 "
        "(value) / 1e5 (derivatives) are outside the domain")
ASSUME = ["tennis functions get at most one feature axis (known finding), "
          "no term has weight zero",
          "relative tolerance 1e-8 of the largest entry"]
PROPS = {
    "C01": Prop("C01", targets(check_value, 1500, KINDS),
                RULE % "value that varies", ASSUME),
    "C02": Prop("C02", targets(check_grad, 1000, KINDS),
                RULE % "non-zero gradient", ASSUME),
    "C03": Prop("C03", targets(check_hess, 750, KINDS),
                RULE % "non-zero Hessian", ASSUME),
    "C04": Prop("C04", targets(check_eval, 700, KINDS),
                RULE % "model evaluated in both ways", ASSUME),
}
