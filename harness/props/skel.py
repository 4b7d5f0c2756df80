"""
C19, C20: Poisson and Skellam distribution functions and their inverses,
against sums of scipy's Poisson probabilities.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from core import Prop, Target

RATE = st.one_of(
    st.sampled_from([0.5, 1.0, 2.0, 0.125, 5.0, 10.0]),
    st.integers(1, 12),
    st.floats(-5, 3.7).map(lambda x: round(float(np.exp(x)), 6)))
BIG = st.one_of(RATE, st.sampled_from([80.0, 150, 250.5, 400.0]))


def pmf(a, size):
    return stats.poisson.pmf(np.arange(size), a)


def dpmf(a, size):
    p = pmf(a, size)
    return np.append(0, p[:-1]) - p


def grid(a, b):
    N = int(max(a, b) + 12 * max(a, b) ** .5 + 30)
    f = (pmf(a, N)[:, None] * pmf(b, N)[None, :],
         dpmf(a, N)[:, None] * pmf(b, N)[None, :],
         pmf(a, N)[:, None] * dpmf(b, N)[None, :])
    d = np.arange(N)[None, :] - np.arange(N)[:, None]
    return f, d


def _default(x, default):
    return () if x == default else (x,)


# -- C19 ------------------------------------------------------------------------
@st.composite
def cdf_case(draw):
    fn = draw(st.sampled_from(["vector", "cdf", "mid", "frame", "skellam",
                               "skellam", "pair", "pair"]))
    big = fn in ("vector", "cdf", "mid")
    s = {"fn": fn, "a": draw(BIG if big else RATE)}
    if draw(st.integers(0, 24)) == 0:
        s["a"] = draw(st.sampled_from([0.0, 0]))
    if fn == "vector":
        s["n"] = draw(st.integers(1, 40))
    elif fn in ("cdf", "mid"):
        s["n"] = draw(st.one_of(
            st.integers(0, 12),
            st.integers(-4, 4).map(lambda k: max(
                0, int(s["a"] + k * s["a"] ** .5)))))
    else:
        s["b"] = draw(RATE)
        if draw(st.integers(0, 11)) == 0:       # far more than ten goals
            big = st.sampled_from([45.0, 80, 120.25, 200, 300.0])
            s["a"] = draw(big)
            s["b"] = draw(st.one_of(big, RATE))
            if draw(st.booleans()):
                s["a"], s["b"] = s["b"], s["a"]
        if fn == "frame":
            s["n"] = draw(st.integers(1, 12))
        else:
            s["n"] = draw(st.one_of(
                st.integers(-6, 6), st.integers(-40, 40),
                st.integers(-3, 3).map(lambda k: int(
                    s["b"] - s["a"] + k * (s["a"] + s["b"]) ** .5))))
            s["tol"] = draw(st.sampled_from([None, 1e-8, 1e-10, 1e-5]))
            s["inverse"] = draw(st.booleans())
    return s


def check_cdf(spec, ctx):
    from maxlike import skellam as S
    fn, a, n = spec["fn"], spec["a"], spec["n"]
    ctx.label(fn)
    if fn == "vector":
        got = np.asarray(ctx.call("poisson_vector", S.poisson_vector, a,
                                  *_default(n, 10)))
        ctx.close("Poisson probabilities", got[0], pmf(a, n), 1e-10)
        ctx.close("their derivatives", got[1], dpmf(a, n), 1e-10)
        ctx.nontrivial = n > 1
    elif fn in ("cdf", "mid"):
        f = S.poisson_cdf if fn == "cdf" else S.poisson_mid_cdf
        got = ctx.call(f.__name__, f, a, n)
        p, d = pmf(a, n + 1), dpmf(a, n + 1)
        if fn == "mid":
            p[-1] *= .5
            d[-1] *= .5
        ctx.close(f.__name__, got, [p.sum(), d.sum()], 1e-9)
        if fn == "cdf":
            ctx.close("poisson_cdf vs scipy", got[0],
                      stats.poisson.cdf(n, a), 1e-9)
        v = ctx.call(f.__name__, f, a, n + 1)[0]
        ctx.require(v >= got[0] - 1e-12, "%s decreases from %r to %r",
                    fn, got[0], v)
        ctx.require(-1e-12 <= got[0] <= 1 + 1e-12, "outside [0, 1]: %r",
                    got[0])
        ctx.nontrivial = True
    elif fn == "frame":
        got = ctx.call("skellam_frame", S.skellam_frame, a, spec["b"],
                       *_default(n, 10))
        ctx.require(len(got) == 3, "%d arrays", len(got))
        b = spec["b"]
        want = (np.outer(pmf(a, n), pmf(b, n)), np.outer(dpmf(a, n),
                pmf(b, n)), np.outer(pmf(a, n), dpmf(b, n)))
        for k, nm in enumerate(("joint probabilities", "derivative in a",
                                "derivative in b")):
            ctx.close(nm, got[k], want[k], 1e-10)
        ctx.nontrivial = n > 1
    else:
        b = spec["b"]
        kw = {} if spec["tol"] is None else {"tol": spec["tol"]}
        tol = spec["tol"] or 1e-8
        f, d = grid(a, b)
        if fn == "skellam":
            inv = spec["inverse"]
            if inv:
                kw["inverse"] = True
            got = ctx.call("skellam_cdf", S.skellam_cdf, a, b,
                           *_default(n, 0), **kw)
            m = d >= n if inv else d <= n
            want = [x[m].sum() for x in f]
            ctx.close("skellam_cdf", got, want, atol=2 * tol + 1e-11)
            nxt = ctx.call("skellam_cdf", S.skellam_cdf, a, b, n + 1, **kw)
            up = (got[0] - nxt[0]) if inv else (nxt[0] - got[0])
            ctx.require(up >= -1e-12, "not monotone in n: %r", up)
            ctx.require(-1e-12 <= got[0] <= 1 + 1e-12, "outside [0, 1]: %r",
                        got[0])
        else:
            got = np.asarray(ctx.call("skellam_cdf_pair", S.skellam_cdf_pair,
                                      a, b, *_default(n, 0), **kw))
            want = [[x[d < n].sum() for x in f], [x[d > n].sum() for x in f]]
            ctx.close("skellam_cdf_pair", got, want, atol=2 * tol + 1e-11)
            # below, at and above
            le = ctx.call("skellam_cdf", S.skellam_cdf, a, b, n, **kw)
            ge = ctx.call("skellam_cdf", S.skellam_cdf, a, b, n,
                          inverse=True, **kw)
            tie = ge - got[1]
            ctx.close("P(< n) + P(= n) + P(> n)", (got[0] + tie + got[1])[0],
                      1.0, atol=3 * tol)
            ctx.close("P(<= n) - P(< n)", le - got[0], tie, atol=1e-11)
        ctx.nontrivial = n != 0
        ctx.label("n:%d" % n)


# -- C20 ------------------------------------------------------------------------
@st.composite
def root_case(draw):
    fn = draw(st.sampled_from(["poisson", "skellam", "conditional"]))
    kind = draw(st.sampled_from(["rate", "rate", "rate", "free", "bad"]))
    tol = draw(st.sampled_from([None, None, 1e-6, 1e-10]))
    P = st.one_of(st.integers(1, 99).map(lambda k: k / 100.0),
                  st.floats(1e-4, 1 - 1e-4).map(lambda x: round(x, 6)))
    BAD = st.sampled_from([0.0, 1.0, -0.25, 1.5, -1e-9, 1 + 1e-9, 0, 1, 2])
    if kind != "bad" and draw(st.integers(0, 9)) == 0:
        tol = draw(st.sampled_from([0.0, 1e-18, 1e-25]))    # out of reach
    s = {"fn": fn, "kind": kind, "tol": tol}
    if fn == "poisson":
        s["n"] = draw(st.one_of(st.none(), st.integers(0, 15),
                                st.integers(0, 80)))
        if kind == "rate" and s["n"]:
            # a number of standard deviations away
            z = draw(st.integers(-370, 370)) / 100.0
            s["a"] = round(max(s["n"] + .5 + z * (s["n"] + .5) ** .5, .01), 6)
        elif kind == "rate":
            lo, hi = (-4, 3.5) if s["n"] is None or draw(st.booleans()) \
                else (-9.2, -2)
            s["a"] = draw(st.floats(lo, hi).map(
                lambda x: round(float(np.exp(x)), 6)))
        else:
            s["t"] = draw(BAD if kind == "bad" else P)
    elif fn == "skellam":
        s["n"] = draw(st.one_of(st.none(), st.integers(-4, 4),
                                st.integers(-15, 15)))
        if kind == "rate":
            R = st.floats(-3, 4.2).map(lambda x: round(float(np.exp(x)), 6))
            s["a"], s["b"] = draw(R), draw(R)
        elif kind == "bad":
            t = [draw(BAD), draw(P)]
            if draw(st.booleans()):
                t.reverse()
            if draw(st.integers(0, 2)) == 0:
                x = draw(st.integers(1, 99)) / 100.0
                t = [x, 1 - x + draw(st.sampled_from([0.0, 0.125, 0.5, 1e-3,
                                                      0.004, 1e-6]))]
            s["t"] = t
        else:
            x, y = draw(P), draw(P)
            s["t"] = [x * .97, (1 - x) * y * .97]
    else:
        s["b"] = draw(st.floats(-3, 4.2).map(
            lambda x: round(float(np.exp(x)), 6)))
        if kind == "rate":
            s["a"] = draw(st.floats(-3, 4.2).map(
                lambda x: round(float(np.exp(x)), 6)))
        else:
            s["t"] = draw(BAD if kind == "bad" else P)
    return s


def cond(a, b):
    """P(X_a > Y_b) + P(X_a = Y_b) / 2"""
    f, d = grid(a, b)
    return f[0][d < 0].sum() + .5 * f[0][d == 0].sum()


def pair(a, b, n):
    f, d = grid(a, b)
    return np.array([f[0][d < n].sum(), f[0][d > n].sum()])


def check_root(spec, ctx):
    from maxlike import skellam as S
    from maxlike.maxlike_base import ConvergenceError
    fn, kind = spec["fn"], spec["kind"]
    kw = {} if spec["tol"] is None else {"tol": spec["tol"]}
    tol = 1e-8 if spec["tol"] is None else spec["tol"]
    hard = tol < 1e-17
    n = spec.get("n")
    ctx.label(fn + ":" + kind)
    if fn == "poisson":
        f = S.poisson_cdf_root
        if n is not None:
            kw["n"] = n
        n = 2 if n is None else n
        args = (float(stats.poisson.cdf(n, spec["a"]))
                if kind == "rate" else spec["t"],)
        if kind != "bad" and not 1e-4 <= args[0] <= 1 - 1e-4:
            ctx.skip("extreme target")
        must = True

        def err(a):
            return abs(stats.poisson.cdf(n, a) - args[0])
    elif fn == "skellam":
        f = S.skellam_cdf_root
        if n is not None:
            kw["n"] = n
        n = 0 if n is None else n
        if kind == "rate":
            args = tuple(float(x) for x in pair(spec["a"], spec["b"], n))
        else:
            args = tuple(spec["t"])
        if kind != "bad" and 1 - sum(args) < 0.025:
            ctx.skip("extreme target")
        # reached by some rates, and not extreme
        must = kind == "rate" and min(args) >= (0.002 if n == 0 else 0.02)
        if kind == "rate" and min(args) < 1e-4:
            ctx.skip("extreme target")

        def err(r):
            if max(r) > 300:
                return tol
            return np.abs(pair(r[0], r[1], n) - args).max()
    else:
        f = S.conditional_skellam_cdf_root
        b = spec["b"]
        if kind == "rate":
            args = (b, cond(spec["a"], b))
        else:
            args = (b, spec["t"])
        low = .5 * np.exp(-b)
        if kind != "bad" and (abs(args[1] - low) < 0.02 * low + 1e-4 or
                              args[1] > 1 - 1e-3 or args[1] < 1e-3):
            ctx.skip("extreme target")
        must = kind == "rate" or kind != "bad" and args[1] > low

        def err(a):
            if a > 300:
                return tol
            return abs(cond(a, b) - args[1])
        if kind != "bad" and args[1] < low:
            # not attained by any rate
            ctx.expect_raise("%s%r" % (f.__name__, args), ConvergenceError,
                             f, *args, **kw)
            ctx.label("unattainable")
            ctx.nontrivial = True
            return
    if kind == "bad":
        ctx.expect_raise("%s%r" % (f.__name__, args), ValueError, f, *args,
                         **kw)
        ctx.nontrivial = True
        return
    try:
        with np.errstate(all="ignore"):
            r = f(*args, **kw)
    except ConvergenceError as e:
        ctx.require(not must or hard, "%s%r: attainable target rejected with %s",
                    f.__name__, args, e)
        ctx.label("no convergence")
        ctx.nontrivial = hard
        return
    except Exception as e:
        ctx.fail("%s%r raised %s: %s" % (f.__name__, args, type(e).__name__,
                                         str(e)[:100]))
    ctx.require(np.all(np.isfinite(r)) and np.all(np.asarray(r) > 0),
                "%s%r returned %r", f.__name__, args, r)
    e = err(r)
    ctx.require(e <= 4 * tol + 1e-11, "%s%r = %r misses the target by %.2e",
                f.__name__, args, r, e)
    ctx.nontrivial = True


PROPS = {
    "C19": Prop("C19", [Target("cdf", lambda tier: cdf_case(), check_cdf,
                               12000)],
                "random rates (to 40; to 400 for a single Poisson), "
                "thresholds and tolerances; oracle: sums of scipy's Poisson "
                "probabilities and of their analytic derivatives over a grid "
                "12 deviations wide; non-trivial = more than one outcome, "
                "threshold not zero",
                ["the difference is second minus first count, as the tests "
                 "fix it"]),
    "C20": Prop("C20", [Target("root", lambda tier: root_case(), check_root,
                               10000, thorough=10)],
                "random targets: reached by random rates, free, or invalid; "
                "oracle: the distribution function recomputed at the rates "
                "that were found; every decided case is non-trivial",
                ["attainable targets have to be found if all probabilities "
                 "are at least 2% (0.2% for n=0); beyond, the convergence "
                 "error is accepted"]),
}
