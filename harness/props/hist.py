"""
C28: histories of one estimator against freshly built ones.
"""
import copy
import numpy as np
from hypothesis import strategies as st
from core import Prop, Target
import estim as E
import refmodel as R
from props import fits as F

TOL = 1e-11


@st.composite
def c28_strategy(draw, tier):
    p = draw(E.concave(max_feat=draw(st.sampled_from([2, 2, 3])),
                       max_size=3))
    other = [E.draw_obs(draw, p["dist"], p["feat"], p["out"],
                        full_cells=True) for _ in range(2)]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["fit", "fit", "fit", "fail", "reset",
                                  "pen", "con", "eval"]))
        op = {"op": k, "method": draw(F.METHODS),
              "data": draw(st.sampled_from([0, 0, 1, 2])),
              "delta": draw(F.DELTA),
              "tol": draw(st.sampled_from([TOL, TOL, 1e-8, 1e-6]))}
        if k == "fail":
            op["kind"] = draw(st.sampled_from(["tol", "method", "nan"]))
        if k == "pen":
            op["u"] = draw(st.sampled_from([0, 0.25]))
            op["s"] = draw(st.sampled_from([0.5, 1, 2]))
            op["p"] = draw(st.integers(0, len(p["params"]) - 1))
            # the function of the last one, as an object, once more
            op["same"] = draw(st.booleans())
        if k == "con":
            op["p"] = draw(st.integers(0, len(p["params"]) - 1))
        ops.append(op)
    ops.append({"op": "fit", "method": draw(F.METHODS), "data": 0,
                "tol": draw(st.sampled_from([TOL, 1e-8, 1e-6])),
                "delta": draw(F.DELTA)})
    return {"p": p, "other": other, "ops": ops}


def report(ctx, e, p):
    """estimates, variances, criteria"""
    vals = F.values(ctx, e, p)
    se = [np.nan_to_num(np.ma.filled(s, 0)) ** 2
          for s in ctx.call("std_error", e.std_error)]
    cr = F.criteria(ctx, e, 1)
    return vals, se, cr


def c28_check(spec, ctx):
    cur = copy.deepcopy(spec["p"])
    obs = [cur["obs"]] + spec["other"]

    def solved(q):
        try:
            s = E.solve(q)
        except (R.OutOfDomain, np.linalg.LinAlgError):
            return None
        return None if isinstance(s, str) else s

    def near(q, s, start):
        """start from which both methods converge"""
        r = E.Reference(q, start)
        return r.ok and np.abs(r.c).max(initial=0) < 1e-9 and \
            F.contracts(q, start, r, s[1])

    def pick(q, s, delta):
        d = np.array(delta, dtype=float)
        for _ in range(6):
            start = E.displaced(q, s[0], s[1], d)
            if near(q, s, start):
                return start
            d = d / 2
        return None
    s = solved(cur)
    if s is None:
        ctx.skip("not an identifiable problem")
    start = pick(cur, s, spec["ops"][0]["delta"])
    if start is None:
        ctx.skip("no start near the optimum")
    e = F.make(ctx, cur, start)
    fits, events, stale, pens = 0, [], False, []

    def restart(q, s, delta):
        start = pick(q, s, delta)
        if start is None:
            return False
        ctx.call("reset_params", e.reset_params)
        ctx.call("add_param", E.add_params, e, q, [v.tolist() for v in start])
        return True

    for op in spec["ops"]:
        k, m = op["op"], op["method"].lower()
        if k in ("pen", "con"):
            q = copy.deepcopy(cur)
            if k == "pen":
                c = {"p": op["p"], "f": {"t": "Quadratic", "u": op["u"],
                                         "s": op["s"]}}
                if pens and op.get("same"):
                    c["f"] = pens[-1][0]
                q["reg"].append(c)
            else:
                c = {"p": [op["p"]], "f": {"t": "Linear", "w": [1]}}
                q["cons"].append(c)
            s = solved(q)
            if s is None or pick(q, s, op["delta"]) is None:
                continue
            if k == "pen" and pens and op.get("same"):
                f = pens[-1][1]
                events.append("same")
            else:
                f = ctx.call("function", R.build, c["f"])
            if k == "pen":
                pens.append((c["f"], f))
                ctx.call("add_regularization", e.add_regularization,
                         c["p"], f)
            else:
                ctx.call("add_constraint", e.add_constraint, c["p"], f)
            cur, stale = q, True
            if k == "con":          # the estimates may not meet it
                restart(q, s, op["delta"])
            events.append(k)
            continue
        q = dict(cur, obs=obs[op["data"]])
        s = solved(q)
        if s is None:
            continue
        if k == "reset":
            if restart(q, s, op["delta"]):
                events.append(k)
        elif k == "eval":
            if fits and not stale:
                for f in ("get_params", "std_error", "fisher_matrix",
                          "error_matrix"):
                    ctx.call(f, getattr(e, f))
                F.criteria(ctx, e, None)
                ctx.call("g", e.g, e.params)
                events.append(k)
        elif k == "fail":
            d = E.data(q)
            args = {"method": op["method"], "tol": TOL, "max_steps": 50}
            if op["kind"] == "tol":
                args.update(tol=0.0, max_steps=2)
            elif op["kind"] == "method":
                args["method"] = "simplex"
            else:
                d = {n: np.array(v, dtype=float) for n, v in d.items()}
                d["N"].flat[-1] = np.nan
            try:
                e.fit(**args, **d)
            except Exception:
                events.append("fail")
            else:
                ctx.fail("fit (%s) succeeded" % op["kind"])
        else:
            now = [np.array(v.values) for v in e.params]
            if not near(q, s, now):
                if not restart(q, s, op["delta"]):
                    continue
                events.append("reset")
                now = [np.array(v.values) for v in e.params]
            d = E.data(q)
            fresh = F.make(ctx, q, now)
            what = "fit(%s) after %s" % (m, "+".join(events) or "nothing")
            for x in (fresh, e):
                ctx.call(what if x is e else "fit(%s) of a fresh estimator"
                         % m, x.fit, tol=op.get("tol", TOL), max_steps=100,
                         method=op["method"], **d)
            a, b = report(ctx, e, q), report(ctx, fresh, q)
            # both take the same steps, up to rounding
            tol = 2 * F.error_bound(s[1], m, 1e-13)
            for j, (u, v) in enumerate(zip(a[0], b[0])):
                ctx.close("%s: parameter %d" % (what, j), u, v, atol=tol)
            if np.isfinite(b[2]).all():         # AIC: n != k + 1
                ctx.close("%s: criteria" % what, a[2], b[2],
                          atol=1e-8 * (1 + max(np.abs(b[2]))))
            if m == "newton":
                sc = max(x.max(initial=0) for x in b[1]) + 1e-12
                for j, (u, v) in enumerate(zip(a[1], b[1])):
                    ctx.close("%s: variances of parameter %d" % (what, j),
                              u, v, atol=2e-3 * sc)
            fits += 1
            stale = False
            events.append(m)
    for x in set(events):
        ctx.label(x)
    ctx.label(cur["dist"])
    ctx.nontrivial = fits > 1 and len(set(events)) > 1


PROPS = {
    "C28": Prop("C28", [Target("history", c28_strategy, c28_check, 1600)],
                "two or more fits and two or more kinds of events",
                [F.CONCAVE]),
}
