"""
Estimation problems: generators, the library objects they describe, and an
independent objective with exact derivatives (jets).

A problem is plain JSON:
  dist, s       distribution and its setting (zero weight / scale)
  feat, out     sizes of the feature and outcome axes
  model         model specification (refmodel.py)
  params        initial values;  masks: None / True / False / nested booleans
  cons, reg     lists of {"p": int | list, "f": spec}
  obs           flat list over the cells of lists of observations; for the
                finite distributions a flat list of counts over cell outcomes
  w             weight of every observation
"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.special import gammaln
import jet
import modelgen as M
import refmodel as R

LOGLINK = ("Poisson", "ZeroInflatedPoisson", "NegativeBinomial", "Logistic")
FINITE = ("Finite", "NormalizedFinite")


# -- data -------------------------------------------------------------------
def data(p):
    """arrays N, X, Z aggregated from the observations by a plain loop"""
    w = p.get("w", 1)
    if p["dist"] in FINITE:
        return {"N": R.stored(w * np.array(p["obs"], dtype=float).reshape(
            list(p["feat"]) + list(p["out"])), in_memory(p))}
    sh = tuple(p["feat"])
    N, X, Z = np.zeros(sh), np.zeros(sh), np.zeros(sh)
    for pos, o in zip(np.ndindex(*sh), p["obs"]):
        for x in o:
            N[pos] += w
            X[pos] += w * x
            Z[pos] += w * (x == 0)
    d = {"N": N, "X": X}
    if p["dist"] == "ZeroInflatedPoisson":
        d["Z"] = Z
    if p.get("intdata") and w == 1:
        d = {k: v.astype(int) for k, v in d.items()}
    return {k: R.stored(v, in_memory(p)) for k, v in d.items()}


def in_memory(p):
    """how arrays are stored (data is never a list)"""
    return p.get("mem", "list").replace("list", "c")


def arrays(p):
    return [np.array(x, dtype=float) for x in p["params"]]


def masks(p):
    out = []
    for a, m in zip(arrays(p), p["masks"]):
        m = False if m is None else m
        out.append(np.broadcast_to(np.array(m, dtype=bool), a.shape))
    return out


# -- library side -----------------------------------------------------------
def estimator(p, params=True):
    import maxlike
    if p["dist"] == "ZeroInflatedPoisson":
        e = maxlike.ZeroInflatedPoisson(*R._args((p["s"], 1)))
    elif p["dist"] == "NegativeBinomial":
        e = maxlike.NegativeBinomial(*R._args((p["s"], 1)))
    elif p["dist"] in FINITE:
        e = getattr(maxlike, p["dist"])(*R._args((len(p["out"]), 1)))
    else:
        e = getattr(maxlike, p["dist"])()
    e.model = R.build(p["model"])
    if params:
        add_params(e, p)
    for c in p["cons"]:
        e.add_constraint(c["p"], R.build(c["f"]))
    for c in p["reg"]:
        e.add_regularization(c["p"], R.build(c["f"]))
    return e


def add_params(e, p, values=None):
    how = p.get("mem", "list")
    for v, m in zip(p["params"] if values is None else values, p["masks"]):
        v = R.stored(v, how)
        m = m if m is None or np.ndim(m) == 0 else R.stored(m, how)
        if m is None:
            e.add_param(v)
        else:
            e.add_param(v, m)


def load(e, p):
    """gives the data to the estimator without moving it"""
    from maxlike import ConvergenceError
    try:
        e.fit(max_steps=0, **data(p))
    except ConvergenceError:
        pass
    return e


# -- reference side ---------------------------------------------------------
def model_jet(p, vals):
    js = jet.seeds(vals)
    j, n, d = R.ev(p["model"], [(x, x.ndim, 0) for x in js], js[0].P)
    return j, js


def full(p, a):
    return np.broadcast_to(a, tuple(p["feat"]) + tuple(p["out"]))


def in_domain(p, y):
    """values of the model for which the objective is well conditioned"""
    if not np.isfinite(y).all():
        return False
    if p["dist"] in FINITE:
        return y.min() > 1e-6 and y.max() < 1e6
    hi = {"ZeroInflatedPoisson": 8, "Poisson": 8}.get(p["dist"], 20)
    return y.max() <= hi and y.min() >= -20


def like_jet(p, y):
    """aggregated log-probability of the data, up to a data-only constant"""
    P = y.P
    d = data(p)
    # the model may not vary along some axis
    y = y + np.zeros(tuple(p["feat"]) + tuple(p["out"]))
    N = d["N"]
    nf = len(p["feat"])
    if p["dist"] in FINITE:
        l = y.log()
        if p["dist"] == "Finite":
            z = y.sum(range(nf, nf + len(p["out"])))
            z = z.log().lay(lambda a: a.reshape(a.shape + (1,) * len(p["out"])))
            l = l - z
        return (l * N).sum(range(l.ndim))
    X = d["X"]
    if p["dist"] == "Poisson":
        t = y * X - y.exp() * N
    elif p["dist"] == "ZeroInflatedPoisson":
        t = y * X + float(np.log(p["s"])) * d["Z"] \
            - (y.exp() + _excess(y.exp(), p["s"] - 1.0)) * N
    elif p["dist"] == "Logistic":
        # x log p + (1 - x) log(1 - p)
        t = _logistic(y, X, N)
    else:
        r = float(p["s"])
        t = y * X - (y.exp() + r).log() * (X + r * N) \
            + r * float(np.log(r)) * N
    return t.sum(range(t.ndim))


def _excess(m, c):
    """log(exp(m) + c) - m"""
    e = lambda v: c * np.exp(-v)
    return m.unary(lambda v: np.log1p(e(v)), lambda v: -e(v) / (1 + e(v)),
                   lambda v: e(v) / (1 + e(v)) ** 2)


def _logistic(y, X, N):
    ls = lambda v: -np.logaddexp(0, -v)             # log sigmoid
    s = lambda v: 1 / (1 + np.exp(-v))
    lp = y.unary(ls, lambda v: s(-v), lambda v: -s(v) * s(-v))
    lq = y.unary(lambda v: ls(-v), lambda v: -s(v), lambda v: -s(v) * s(-v))
    return lp * X + lq * (N - X)


def scalar(p, c, js):
    idx = [c["p"]] if isinstance(c["p"], int) else list(c["p"])
    j, n, d = R.ev(c["f"], [(js[k], js[k].ndim, 0) for k in idx], js[0].P)
    assert n == 0 and d == 0
    return j.lay(lambda a: a.reshape(())) if j.ndim else j


class Reference(object):
    """total objective L (likelihood minus penalties), with derivatives with
    respect to all parameter entries, and the constraints"""

    def __init__(self, p, vals):
        vals = [np.asarray(v, dtype=float) for v in vals]
        self.ok = False
        if p.get("bad"):
            return
        j, js = model_jet(p, vals)
        self.y = full(p, j.v)
        self.ok = in_domain(p, self.y)
        if not self.ok:
            return
        with np.errstate(all="ignore"):
            L = like_jet(p, j)
            self.like = float(L.v)
            for c in p["reg"]:
                L = L - scalar(p, c, js)
        v, g, h = L.full()
        self.L, self.g, self.h = float(v), g, h
        self.c = np.zeros(len(p["cons"]))
        self.A = np.zeros((len(p["cons"]), js[0].P))
        for k, c in enumerate(p["cons"]):
            v, g, _ = scalar(p, c, js).full()
            self.c[k], self.A[k] = float(v), g
        self.n = float(data(p)["N"].sum())
        free = np.concatenate([~m.ravel() for m in masks(p)])
        self.free = free
        self.gf = self.g[free]
        self.Hf = self.h[np.ix_(free, free)]
        self.Af = self.A[:, free]
        self.ok = bool(np.isfinite(self.h).all() and np.isfinite(self.L))

    def bordered(self):
        k = len(self.c)
        return np.block([[self.Hf, self.Af.T],
                         [self.Af, np.zeros((k, k))]]) if k else self.Hf

    def step(self):
        """Newton step and multipliers"""
        r = -np.concatenate([self.gf, self.c])
        s = np.linalg.solve(self.bordered(), r)
        return s[:len(self.gf)], s[len(self.gf):]

    def null(self):
        """orthonormal basis of the free directions that keep constraints"""
        if len(self.c) == 0:
            return np.eye(len(self.gf))
        u, s, vt = np.linalg.svd(self.Af)
        rank = int((s > 1e-10 * max(s.max(), 1)).sum())
        return vt[rank:].T


def split(p, flat):
    out, k = [], 0
    for a in arrays(p):
        out.append(np.asarray(flat[k:k + a.size]).reshape(a.shape))
        k += a.size
    return out


def flatten(vals):
    return np.concatenate([np.asarray(v, dtype=float).ravel() for v in vals])


def optimum(p, start, steps=100, tol=1e-11):
    """independent maximiser: damped Newton inside the null space of the
    constraints; -> values, Reference or None"""
    th = flatten(start)
    free = np.concatenate([~m.ravel() for m in masks(p)])
    r = Reference(p, split(p, th))
    if not r.ok:
        return None
    if len(r.c):        # feasible first
        d = np.linalg.lstsq(r.Af, -r.c, rcond=None)[0]
        th[free] += d
        r = Reference(p, split(p, th))
        if not r.ok or np.abs(r.c).max() > 1e-9:
            return None
    Z = r.null()
    for _ in range(steps):
        g = Z.T @ r.gf
        if np.abs(g).max(initial=0) < tol * (1 + abs(r.L)):
            return split(p, th), r
        H = Z.T @ r.Hf @ Z
        w, V = np.linalg.eigh(H)
        w = np.minimum(w, -1e-8 * max(1, np.abs(w).max()))
        d = Z @ (-V @ ((V.T @ g) / w))
        t = 1.0
        for _ in range(40):
            new = th.copy()
            new[free] += t * d
            q = Reference(p, split(p, new))
            if q.ok and q.L >= r.L - 1e-13 * abs(r.L):
                break
            t /= 2
        else:
            return None
        th, r = new, q
    return None


# -- log-probability of single observations (scipy) --------------------------
def logpmf(p, y):
    """sum over the observations of the log-probability at model values y"""
    w = p.get("w", 1)
    if p["dist"] in FINITE:
        q = y
        if p["dist"] == "Finite":
            ax = tuple(range(len(p["feat"]), y.ndim))
            q = y / y.sum(ax, keepdims=True)
        return float((data(p)["N"] * np.log(q)).sum())
    tot = 0.0
    for pos, o in zip(np.ndindex(*p["feat"]), p["obs"]):
        if not o:
            continue
        x, v = np.array(o), y[pos]
        if p["dist"] == "Poisson":
            l = stats.poisson.logpmf(x, np.exp(v))
        elif p["dist"] == "ZeroInflatedPoisson":
            # zeros weigh s times what they do in the Poisson distribution
            q = stats.poisson.logpmf(x, np.exp(v))
            c = np.log1p((p["s"] - 1.0) * np.exp(-np.exp(v)))
            l = q + np.where(x == 0, np.log(p["s"]), 0.0) - c
        elif p["dist"] == "Logistic":
            l = stats.bernoulli.logpmf(x, 1 / (1 + np.exp(-v)))
        else:
            r = float(p["s"])
            l = stats.nbinom.logpmf(x, r, r / (r + np.exp(v)))
        tot += w * float(l.sum())
    return tot


# -- generators -------------------------------------------------------------
def draw_obs(draw, dist, feat, out, full_cells=False):
    """observations of every cell; full_cells: enough for the maximum
    likelihood estimate of every cell to be finite"""
    cells = int(np.prod(feat, dtype=int))
    if dist in FINITE:
        k = int(np.prod(out, dtype=int))
        lo = 1 if full_cells else 0
        o = draw(st.lists(st.one_of(st.integers(lo, 6), st.integers(lo, 30)),
                          min_size=cells * k, max_size=cells * k))
        if sum(o) == 0:
            o[0] = 1
        return o
    hi = 1 if dist == "Logistic" else draw(st.sampled_from([2, 6, 12]))
    one = st.integers(0, hi)
    mode = draw(st.sampled_from(["any", "any", "single"]))
    obs = []
    for _ in range(cells):
        if full_cells:
            o = draw(st.lists(one, min_size=0, max_size=3)) + [1]
            if dist == "Logistic" or draw(st.booleans()):
                o.append(0)
        elif mode == "single":
            o = [draw(one)]
        else:
            o = draw(st.lists(one, min_size=0, max_size=4))
        obs.append(o)
    if not any(obs):
        obs[0] = [1]
    return obs


def draw_setting(draw, dist):
    if dist == "ZeroInflatedPoisson":
        return draw(st.sampled_from([1, 2, 0.5, 1.5, 4, 0.1, 10, 0.01, 0.002]))
    if dist == "NegativeBinomial":
        return draw(st.sampled_from([1, 0.5, 2, 3.5, 10, 30, 100, 0.05]))
    return None


def draw_mask(draw, shape, some=4):
    """None, a boolean or nested booleans"""
    c = draw(st.integers(0, some + 2))
    if c <= some:
        return None if c % 2 else False
    if c == some + 1 and draw(st.integers(0, 3)) == 0:
        return True
    return _bools(draw, shape)


def _bools(draw, shape):
    if not shape:
        return draw(st.booleans())
    return [_bools(draw, shape[1:]) for _ in range(shape[0])]


def linear(draw, k):
    w = [draw(st.sampled_from([1, 1, -1, 0.5, 2])) for _ in range(k)]
    f = {"t": "Linear", "w": w[0] if k == 1 and draw(st.booleans()) else w}
    c = draw(st.integers(0, 5))
    if c == 0:
        return {"t": "Affine", "f": f, "a": draw(st.sampled_from([2, -1.5])),
                "b": draw(st.sampled_from([0, 0.5, -1])), "via": "ctor"}
    if c == 1:
        return {"t": "Affine", "f": f, "a": 1,
                "b": draw(st.sampled_from([0.5, -1, 2])), "via": "sub"}
    return f


def repeated(draw, idx):
    """sometimes with one of the parameters given twice"""
    if draw(st.integers(0, 7)):
        return idx
    at = draw(st.integers(0, len(idx)))
    return idx[:at] + [draw(st.sampled_from(idx))] + idx[at:]


def penalty(draw, plist, opt):
    """{"p", "f"}: a penalty on some parameters, in any order"""
    idx = list(draw(st.permutations(range(len(plist)))))[
        :draw(st.integers(1, len(plist)))]
    idx = repeated(draw, idx)
    t = draw(st.sampled_from(["Q", "Q", "Q", "L", "M"]))
    if t == "M":
        feat = ()
        f = M.real(draw, feat, [plist[i] for i in idx], 1, opt) \
            if all(plist[i] == () for i in idx) else None
        if f is None:
            sz = draw(st.integers(1, 3))
            sub = [plist[i] for i in idx]
            shapes = [s for s in sub if len(s) == 1]
            feat = shapes[0] if shapes else (sz,)
            f = {"t": "Coll", "f": M.real(draw, feat, sub, 1, opt),
                 "sv": True, "sd": True}
    elif t == "L":
        f = linear(draw, len(idx))
    else:
        f = {"t": "Quadratic", "u": draw(st.sampled_from([0, 0.5, -1])),
             "s": draw(st.sampled_from([1, 2, 0.5, 10]))}
        if draw(st.integers(0, 2)) == 0:
            f = {"t": "Affine", "f": f, "a": draw(st.sampled_from([.5, 3])),
                 "b": draw(st.sampled_from([0, 1.0])), "via": "ctor"}
    if len(idx) == 1 and draw(st.booleans()):
        idx = idx[0]
    return {"p": idx, "f": f}


def out_of(spec, plist, params):
    """outcome sizes of a model specification (None: never in its domain)"""
    for v in (0.5, 0.1, 0.0, -0.5, None):
        vals = [np.array(x, dtype=float) if v is None else np.full(s, v)
                for s, x in zip(plist, params)]
        js = jet.seeds(vals)
        try:
            with np.errstate(all="ignore"):
                j, n, d = R.ev(spec, [(x, x.ndim, 0) for x in js], js[0].P)
        except R.OutOfDomain:
            continue
        return list(j.v.shape[n:n + d])
    return None


@st.composite
def generic(draw, dists=LOGLINK + FINITE, depth=2, max_feat=3, cons=3,
            reg=3, convex=False):
    """any model, any masks, penalties and linear constraints"""
    opt = M.Opt(positive=draw(st.sampled_from([False, False, True])))
    feat, plist = draw(M.layout(opt, max_feat=max_feat))
    dist = draw(st.sampled_from(dists))
    if dist in FINITE:
        kind = draw(st.sampled_from(["vec", "vec", "mat", "mix"]))
        if kind == "vec":
            model = M.vec(draw, feat, plist, depth, opt, kinds=[
                "Poisson", "Poisson", "NB", "MV", "CM", "Coll", "Game",
                "TieBreak"] if len(feat) == 1 else [
                "Poisson", "NB", "MV", "CM", "Coll"])
        else:
            model = M.KINDS[kind](draw, feat, plist, depth, opt)
    else:
        model = M.real(draw, feat, plist, depth, opt)
    lo, hi = (0.1, 0.9) if opt.positive else (-1, 1)
    params = [M.arr(draw, sh, lo, hi) for sh in plist]
    if opt.positive:
        params = [M.clip(q) for q in params]
    out = out_of(model, plist, params)
    bad = out is None
    if bad:
        out = [1]
    ms = [draw_mask(draw, sh) for sh in plist]
    nc = draw(st.integers(0, cons))
    cs = []
    for _ in range(nc):
        idx = list(draw(st.permutations(range(len(plist)))))[
            :draw(st.integers(1, len(plist)))]
        idx = repeated(draw, idx)
        f = linear(draw, len(idx))
        if len(idx) == 1 and draw(st.booleans()):
            idx = idx[0]
        cs.append({"p": idx, "f": f})
    rs = [penalty(draw, plist, opt) for _ in range(draw(st.integers(0, reg)))]
    p = {"dist": dist, "s": draw_setting(draw, dist), "feat": list(feat),
         "out": out, "model": model, "params": params, "masks": ms,
         "cons": cs, "reg": rs, "obs": draw_obs(draw, dist, feat, out),
         "w": draw(st.sampled_from([1, 1, 1, 0.5, 2.5])),
         "intdata": draw(st.booleans()),
         "mem": draw(st.sampled_from(R.STORED))}
    if bad:
        p["bad"] = True
    return p


def free_count(p):
    return int(sum((~m).sum() for m in masks(p)))


# -- identifiable concave problems -------------------------------------------
def _eta(draw, feat, plist, kinds):
    """linear predictor: a Sum of effects; appends the shapes of its
    parameters to plist; -> spec, parameter indices"""
    nf = len(feat)
    atoms, used = [], []

    def new(shape):
        plist.append(shape)
        used.append(len(plist) - 1)
        return len(plist) - 1

    def scaled(f):
        c = draw(st.integers(0, 5))
        if c == 0:
            return {"t": "Affine", "f": f, "a": -1, "b": 0, "via": "neg"}
        if c == 1:
            return {"t": "Affine", "f": f, "a": draw(st.sampled_from([2, .5])),
                    "b": draw(st.sampled_from([0, 0.25])), "via": "ctor"}
        return f
    axes = list(draw(st.permutations(range(nf))))[:draw(
        st.integers(0 if kinds == "any" else 1, nf))]
    full = []
    if nf >= 2 and draw(st.integers(0, 3)) == 0:
        # a table of effects in place of the effects of two axes
        full = list(draw(st.permutations(range(nf))))[:2]
        atoms.append({"f": scaled({"t": "X"}),
                      "p": new(tuple(feat[i] for i in full)), "x": full})
    for x in axes:
        if x in full:
            continue
        atoms.append({"f": scaled({"t": "X"}), "p": new((feat[x],)),
                      "x": x if draw(st.booleans()) else [x]})
    if not atoms or draw(st.integers(0, 3 if full else 1)) == 0:
        atoms.append({"f": scaled({"t": draw(st.sampled_from(
            ["Scalar", "Scalar", "X"]))}), "p": new(()), "x": []})
    if draw(st.integers(0, 2)) == 0:
        x = draw(st.integers(0, nf - 1))
        v = [draw(st.sampled_from([-1, -0.5, 0, 0.5, 1])) for _ in
             range(feat[x])]
        atoms.append({"f": {"t": "Vector", "v": v}, "p": new(()), "x": x})
    if not full and nf >= 2 and draw(st.integers(0, 4)) == 0:
        x = list(draw(st.permutations(range(nf))))[:2]
        atoms.append({"f": scaled({"t": "X"}),
                      "p": new(tuple(feat[i] for i in x)), "x": x})
    if draw(st.integers(0, 3)) == 0:
        atoms.append({"f": {"t": "Const", "v": M.arr(draw, feat, -.5, .5)},
                      "p": [], "x": list(range(nf))})
    atoms = [atoms[i] for i in draw(st.permutations(range(len(atoms))))]
    if draw(st.integers(0, 3)) == 0 and len(atoms) > 1:
        # nested sum
        k = draw(st.integers(1, len(atoms) - 1))
        sub = {"t": "Sum", "n": nf, "d": 0, "atoms": atoms[:k]}
        pm = sorted({q for a in atoms[:k] for q in R._list(a["p"])})
        for a in sub["atoms"]:
            a["p"] = [pm.index(q) for q in R._list(a["p"])]
        if pm:
            atoms = [{"f": sub, "p": pm, "x": list(range(nf))}] + atoms[k:]
    # every feature is spanned
    return {"t": "Sum", "n": nf, "d": 0, "atoms": atoms}, used


def _exp(f):
    return {"t": "Comp", "f": {"t": "Exp"}, "g": [f]}


@st.composite
def concave(draw, dists=LOGLINK + FINITE, max_feat=3, max_size=4,
            penalties=True, wide=False):
    """problems with a concave likelihood and anchors for their redundant
    directions (checked afterwards: identifiable())"""
    nf = draw(st.integers(1, max_feat))
    cap = max_size if nf < 3 else 3
    feat = [draw(st.integers(1 if nf > 1 else 2, cap)) for _ in range(nf)]
    dist = draw(st.sampled_from(dists))
    plist = []
    allx = list(range(nf))
    if dist in FINITE:
        out, atoms = [], []
        d = draw(st.sampled_from([1, 1, 2]))
        for k in range(d):
            eta, used = _eta(draw, feat, plist, "any")
            for a in eta["atoms"]:
                a["p"] = _remap(a["p"], used)
            size = draw(st.integers(2, 5))
            out.append(size)
            if dist == "Finite" or draw(st.booleans()) is False:
                f = {"t": "Comp", "f": {"t": "Poisson", "size": size},
                     "g": [_exp(eta)]}
            else:
                f = {"t": "Comp", "f": {"t": "NB", "size": size,
                     "r": draw(st.sampled_from([1, 2, 0.5]))},
                     "g": [_exp(eta)]}
            atoms.append({"f": f, "p": used, "x": allx, "d": k})
            if dist == "NormalizedFinite" and f["f"]["t"] == "Poisson":
                e = {"t": "Affine", "f": _exp(eta), "a": -1, "b": 0,
                     "via": "neg"}
                atoms.append({"f": _exp(e), "p": used, "x": allx, "d": []})
        if len(atoms) == 1 and used == list(range(len(plist))):
            model = atoms[0]["f"]
        else:
            model = {"t": "Prod", "n": nf, "d": d, "atoms": atoms}
    else:
        out = []
        model, used = _eta(draw, feat, plist, "any")
    params = [M.arr(draw, sh, -.5, .5) for sh in plist]
    ms = [None] * len(plist)
    cons, reg = [], []
    ax = [k for k, s in enumerate(plist) if s]
    pen = penalties and draw(st.integers(0, 3)) == 0
    loose = list(ax)
    if pen:
        reg.append({"p": list(draw(st.permutations(range(len(plist))))),
                    "f": {"t": "Quadratic",
                          "u": draw(st.sampled_from([0, 0.25])),
                          "s": draw(st.sampled_from([1, 2, 3]))}})
        loose = []
    elif len(ax) >= 2 and draw(st.integers(0, 2)) == 0:
        k = list(draw(st.permutations(ax)))[:2]
        cons.append({"p": k, "f": {"t": "Linear", "w": [1, draw(
            st.sampled_from([1, -1, 2]))]}})
        loose.remove(k[0])
    allcon = draw(st.integers(0, 4)) == 0
    for k in loose:
        if len(plist[k]) == 2 and draw(st.booleans()):
            continue                    # perhaps nothing is redundant
        t = "con" if allcon else draw(st.sampled_from(
            ["con", "fix", "con", "pen", "no"]))
        if t == "pen" and not penalties:
            t = "fix"
        if t == "con":
            f = {"t": "Linear", "w": [draw(st.sampled_from([1, 1, 2]))]}
            if draw(st.integers(0, 2)) == 0:
                f = {"t": "Affine", "f": f, "a": 1,
                     "b": draw(st.sampled_from([0.5, -1])), "via": "add"}
            cons.append({"p": k if draw(st.booleans()) else [k], "f": f})
        elif t == "fix":
            m = np.zeros(plist[k], dtype=bool)
            m.flat[draw(st.integers(0, m.size - 1))] = True
            ms[k] = m.tolist()
        elif t == "pen":
            reg.append({"p": k, "f": {"t": "Quadratic", "u": 0,
                                      "s": draw(st.sampled_from([1, 2]))}})
    if draw(st.integers(0, 2)) == 0:
        # further constraints
        for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
            k = list(draw(st.permutations(range(len(plist)))))[
                :draw(st.sampled_from([1, 2, 2, 3, 3, 4]))]
            cons.append({"p": k, "f": linear(draw, len(k))})
    # extra fixed entries
    for k, s in enumerate(plist):
        if ms[k] is None and draw(st.integers(0, 9)) < (
                5 if len(s) == 2 else 1):
            ms[k] = draw_mask(draw, s, some=0)
    p = {"dist": dist, "s": draw_setting(draw, dist), "feat": list(feat),
         "out": out, "model": model, "params": params, "masks": ms,
         "cons": cons, "reg": reg,
         "obs": draw_obs(draw, dist, feat, out, full_cells=True),
         "w": draw(st.sampled_from([1, 1, 1, 0.5, 2.5] + [1 / 64, 40] * wide)),
         "intdata": draw(st.booleans()),
         "mem": draw(st.sampled_from(R.STORED))}
    if dist == "ZeroInflatedPoisson" and p["s"] < 1:
        p["s"] = 1.0 / p["s"]           # concave for weights of at least one
    return p


def _remap(pm, used):
    # parameter indices relative to the list of parameters of the term
    return [used.index(q) for q in R._list(pm)]


def feasible(p):
    """moves the free initial values onto the constraints"""
    if not p["cons"]:
        return p
    r = Reference(p, arrays(p))
    if not r.ok:
        return None
    th = flatten(arrays(p))
    th[r.free] += np.linalg.lstsq(r.Af, -r.c, rcond=None)[0]
    q = dict(p, params=[v.tolist() for v in split(p, th)])
    r = Reference(q, arrays(q))
    return q if r.ok and np.abs(r.c).max() < 1e-10 else None


def curvature(r):
    """eigenvalues of minus the Hessian along the feasible directions"""
    Z = r.null()
    return np.linalg.eigvalsh(-(Z.T @ r.Hf @ Z)) if Z.shape[1] else \
        np.ones(0)


def independent_constraints(r):
    return len(r.c) == 0 or np.linalg.matrix_rank(r.Af, 1e-8) == len(r.c)


def solve(p):
    """optimum of an identifiable concave problem: (values, Reference) or a
    reason to skip"""
    if free_count(p) == 0:
        return "no free entries"
    r = Reference(p, arrays(p))
    if not r.ok:
        return "start outside the domain"
    if not independent_constraints(r):
        return "dependent constraints"
    o = optimum(p, arrays(p))
    if o is None:
        return "no finite optimum"
    vals, r = o
    w = curvature(r)
    if w.size == 0:
        return "no free directions"
    if w.min() < 1e-3 * max(1, w.max()):
        return "not identifiable"
    if abs(r.L) < 1e-2 * r.n:
        return "objective almost zero"
    return vals, r


def displaced(p, vals, r, delta):
    """a feasible start near the optimum"""
    th = flatten(vals)
    Z = r.null()
    d = np.resize(np.array(delta, dtype=float), len(r.gf))
    th[r.free] += Z @ (Z.T @ d)
    return split(p, th)
