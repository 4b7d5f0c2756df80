"""
Model specifications (plain JSON data), the library object they describe, and
an independent reference interpreter evaluating them on Jets.

A *typed value* in the reference is (Jet, n, dim): n feature axes followed by
dim "outcome" axes, both possibly of size 1 where the model does not vary.
"""
import json
import numpy as np
from scipy.special import gammaln
from jet import Jet, stack_last


# --------------------------------------------------------------------------
# library side
# --------------------------------------------------------------------------
GIVEN = None                    # when a list: the containers given to the library


def given(x):
    if GIVEN is not None and isinstance(x, (list, np.ndarray)):
        GIVEN.append((x, x.copy()))
    return x


def build(spec, pool=None):
    """with a pool, equal sub-expressions are one and the same object"""
    if pool is None:
        return _build(spec, build)
    key = json.dumps(spec, sort_keys=True)
    if key not in pool:
        pool[key] = _build(spec, lambda s: build(s, pool))
    return pool[key]


def _build(spec, build):
    from maxlike import func as F
    from maxlike.func import tennis
    from maxlike.func.func_op import FuncWrap
    t = spec["t"]
    if t == "X":
        return F.X()
    if t == "Vector":
        return F.Vector(given(np.array(spec["v"], dtype=float)))
    if t == "Const":
        return F.Constant(given(np.array(spec["v"], dtype=float)))
    if t == "Scalar":
        return F.Scalar()
    if t == "Exp":
        return F.Exp()
    if t == "Log":
        return F.Log()
    if t == "Logistic":
        return F.Logistic()
    if t == "ArcTan":
        return F.ArcTan()
    if t == "Sigmoid":
        return F.Sigmoid(spec["name"])
    if t == "Poisson":
        return F.Poisson(*_args((spec["size"], 10)))
    if t == "LogNB":
        return F.LogNegativeBinomial(*_args((spec["size"], 10),
                                            (spec["r"], 1)))
    if t == "NB":
        return F.NegativeBinomial(*_args((spec["size"], 10),
                                         (spec["r"], 1)))
    if t == "Game":
        return tennis.Game()
    if t == "TieBreak":
        return tennis.TieBreak()
    if t == "Set":
        return tennis.Set()
    if t == "MM":
        return F.MarkovMatrix(*_args((spec["size"], 8), (spec["steps"], 18),
                                     (_arr(spec.get("skew")), None)))
    if t == "MV":
        return F.MarkovVector(*_args((spec["size"], 8), (spec["steps"], 18),
                                     (_arr(spec.get("skew")), None)))
    if t == "CM":
        c = spec.get("conds")
        if c is None:
            return F.CollapseMatrix()
        return F.CollapseMatrix(given([tuple(x) for x in c]))
    if t == "Linear":
        w = spec["w"]            # a number, a list or a tuple
        if isinstance(w, list) and len(w) == 1 and w[0] > 0:
            w = w[0]
        elif isinstance(w, list) and w[0] > 0:
            w = tuple(w)
        return F.Linear(given(list(w) if isinstance(w, list) else w))
    if t == "Quadratic":
        return F.Quadratic(*_args((spec["u"], 0), (spec["s"], 1)))
    if t == "Affine":
        f = build(spec["f"])
        via = spec.get("via", "ctor")
        a, b = spec["a"], spec["b"]
        if via == "ctor":
            return F.Affine(f, *_args((a, 1), (b, 0)))
        if via == "neg":         # a == -1, b == 0
            return -f
        if via == "add":         # a == 1
            return f + b
        if via == "radd":
            return b + f
        if via == "sub":
            return f - (-b)
        if via == "rsub":        # a == -1
            return b - f
        if via == "mul":         # b == 0
            return f * a
        if via == "rmul":
            return a * f
        if via == "div":         # b == 0
            # a whole number stays one
            return f / (int(1 / a) if 1 / a == int(1 / a) else 1 / a)
        raise AssertionError(via)
    if t == "Sum":
        s = F.Sum(spec["n"], *_args((spec["d"], 0)))
        for a in spec["atoms"]:
            kw = {}
            if a.get("w") is not None:
                kw["weight"] = a["w"]
            if a.get("d") is not None:
                kw["dim_map"] = _map(a["d"])
            s.add(build(a["f"]), _map(a["p"]), _map(a["x"]), **kw)
        return s
    if t == "Prod":
        s = F.Product(spec["n"], *_args((spec["d"], 0)))
        for a in spec["atoms"]:
            kw = {}
            if a.get("d") is not None:
                kw["dim_map"] = _map(a["d"])
            s.add(build(a["f"]), _map(a["p"]), _map(a["x"]), **kw)
        return s
    if t == "Wrap":
        return FuncWrap(build(spec["f"]), _map(spec["p"]), _map(spec["x"]),
                        spec["n"], _map(spec["d"]), spec["nd"],
                        feat_flip=spec["flip"])
    if t == "Comp":
        f = build(spec["f"])
        g = given([build(x) for x in spec["g"]])
        if len(g) == 1 and spec.get("single", True):
            return f @ g[0]
        return f @ g
    if t == "Coll":
        return F.Collapse(build(spec["f"]),
                          *_args((spec["sv"], True), (spec["sd"], True)))
    raise AssertionError("unknown node %r" % t)


def _args(*pairs):
    """the arguments, without the last ones that equal their default"""
    pairs = list(pairs)
    while pairs and _same(*pairs[-1]):
        pairs.pop()
    return [a for a, _ in pairs]


def _same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    return not isinstance(a, np.ndarray) and a == b


def _arr(x):
    return None if x is None else given(np.array(x, dtype=float))


def _map(x):
    """int, None and list are all accepted spellings; keep what the spec says"""
    return x if (x is None or isinstance(x, int)) else given(list(x))


def _list(x):
    return [] if x is None else [x] if isinstance(x, int) else list(x)


# --------------------------------------------------------------------------
# reference side
# --------------------------------------------------------------------------
def place(j, n, dim, feat_map, n_feat, dim_map, n_dim):
    """put feature axis i of a typed value at feat_map[i], etc."""
    fm, dm = _list(feat_map), _list(dim_map)
    assert len(fm) == n and len(dm) == dim, (fm, n, dm, dim)

    def fn(a):
        out = [1] * (n_feat + n_dim)
        src = list(fm) + [n_feat + d for d in dm]
        for i, s in enumerate(src):
            out[s] = a.shape[i]
        order = np.argsort(src, kind="stable")
        return a.transpose(order).reshape(out)
    return j.lay(fn)


class OutOfDomain(Exception):
    """the expression is not defined at these parameters"""


def _domain(ok, why):
    if not np.all(ok):
        raise OutOfDomain(why)


def ev(spec, args, P):
    t = spec["t"]
    if t in ("X", "Scalar"):
        return args[0]
    if t == "Vector":
        j, n, d = args[0]
        assert n == 0 and d == 0
        v = np.array(spec["v"], dtype=float)
        return j.lay(lambda a: a.reshape((1,) * v.ndim)) * v, v.ndim, 0
    if t == "Const":
        v = np.array(spec["v"], dtype=float)
        return Jet.const(v, P), v.ndim, 0
    if t == "Exp":
        j, n, d = args[0]
        return j.exp(), n, d
    if t == "Log":
        j, n, d = args[0]
        _domain(j.v > 0, "logarithm of a non-positive number")
        return j.log(), n, d
    if t == "Logistic":
        j, n, d = args[0]
        return j.logistic(), n, d
    if t == "ArcTan":
        j, n, d = args[0]
        return j.arctan(), n, d
    if t == "Sigmoid":
        j, n, d = args[0]
        if spec["name"].lower() == "logistic":
            return j.logistic(), n, d
        return j.arctan() * (1 / np.pi) + 0.5, n, d
    if t == "Poisson":
        j, n, d = args[0]
        assert d == 0
        out = [j.ipow(0)]
        for k in range(1, spec["size"]):    # neither factor overflows
            out.append(out[-1] * j * (1.0 / k))
        return stack_last(out), n, 1
    if t in ("LogNB", "NB"):
        j, n, d = args[0]
        assert d == 0
        r = float(spec["r"])
        out = []
        lm, lrm = j.log(), (j + r).log()
        for k in range(spec["size"]):
            c = gammaln(r + k) - gammaln(r) - gammaln(k + 1) + r * np.log(r)
            out.append(lm * float(k) - lrm * (k + r) + c)
        res = stack_last(out)
        return (res.exp() if t == "NB" else res), n, 1
    if t in ("Game", "TieBreak", "Set"):
        for j, n, d in args:
            _domain((j.v > 1e-3) & (j.v < 1 - 1e-3), "extreme probability")
    if t in ("MM", "MV"):
        for j, n, d in args:
            _domain(j.v > 1e-6, "intensity not positive")
        _domain((args[0][0].v + args[1][0].v) / spec["steps"] < 0.999,
                "intensities too large")
    if t in ("Game", "TieBreak"):
        j, n, d = args[0]
        assert d == 0
        return stack_last(race(j, 4 if t == "Game" else 7)), n, 1
    if t == "Set":
        p, n, d = args[0]
        tb, n2, d2 = args[1]
        assert n == n2 and d == 0 and d2 == 0
        return stack_last(set_probs(p, tb)), n, 1
    if t == "MM":
        (a, n, d), (b, _, _) = args
        assert d == 0
        S, K = spec["size"], spec["steps"]
        sk = np.ones((S, S)) if spec.get("skew") is None \
            else np.array(spec["skew"], dtype=float)
        rows = markov_matrix(a, b, S, K, sk)
        return stack_last([stack_last(r) for r in zip(*rows)]), n, 2
    if t == "MV":
        (a, n, d), (b, _, _) = args
        assert d == 0
        S, K = spec["size"], spec["steps"]
        sk = np.ones(2 * S - 1) if spec.get("skew") is None \
            else np.array(spec["skew"], dtype=float)
        return stack_last(markov_vector(a, b, S, K, sk)), n, 1
    if t == "CM":
        j, n, d = args[0]
        assert d == 2
        conds = spec.get("conds") or [(1, -1, 0, 1), (1, -1, 0, 0),
                                      (1, -1, 0, -1)]
        sx, sy = j.full()[0].shape[-2:]
        out = []
        for A, B, C, s in conds:
            m = np.array([[1.0 if np.sign(A * x + B * y + C) == s else 0.0
                           for y in range(sy)] for x in range(sx)])
            out.append((j * m.reshape((1,) * n + m.shape)).sum((n, n + 1)))
        return stack_last(out), n, 1
    if t == "Linear":
        tot = None
        for w, (j, n, d) in zip(_wl(spec["w"]), args):
            x = (j * float(w)).sum(range(n))
            tot = x if tot is None else tot + x
        return tot, 0, 0
    if t == "Quadratic":
        tot = None
        for j, n, d in args:
            x = ((j - float(spec["u"])) * (1.0 / spec["s"])).ipow(2)
            x = x.sum(range(n))
            tot = x if tot is None else tot + x
        return tot, 0, 0
    if t == "Affine":
        j, n, d = ev(spec["f"], args, P)
        return j * float(spec["a"]) + float(spec["b"]), n, d
    if t == "Sum":
        tot = None
        for a in spec["atoms"]:
            j, n, d = ev(a["f"], [args[k] for k in _list(a["p"])], P)
            x = place(j, n, d, a["x"], spec["n"], a.get("d"), spec["d"])
            if a.get("w") is not None:
                x = x * float(a["w"])
            tot = x if tot is None else tot + x
        return tot, spec["n"], spec["d"]
    if t == "Prod":
        tot = None
        for a in spec["atoms"]:
            j, n, d = ev(a["f"], [args[k] for k in _list(a["p"])], P)
            x = place(j, n, d, a["x"], spec["n"], a.get("d"), spec["d"])
            tot = x if tot is None else tot * x
        return tot, spec["n"], spec["d"]
    if t == "Wrap":
        j, n, d = ev(spec["f"], [args[k] for k in _list(spec["p"])], P)
        dm = list(range(spec["nd"])) if spec["d"] is None else spec["d"]
        x = place(j, n, d, spec["x"], spec["n"], dm, spec["nd"])
        if spec["flip"] is not None:
            fl = tuple(_list(spec["flip"]))
            x = x.lay(lambda a: np.flip(a, fl))
        return x, spec["n"], spec["nd"]
    if t == "Comp":
        g = [ev(x, args, P) for x in spec["g"]]
        return ev(spec["f"], g, P)
    if t == "Coll":
        j, n, d = ev(spec["f"], args, P)
        sv = spec["sv"]
        fa = list(range(n)) if sv is True else [] if sv is False \
            else _list(sv)
        axes = fa + (list(range(n, n + d)) if spec["sd"] else [])
        return j.sum(axes), n - len(fa), 0 if spec["sd"] else d
    raise AssertionError("unknown node %r" % t)


def _wl(w):
    return [w] if isinstance(w, (int, float)) else list(w)


# -- brute-force probability models used by the reference ---------------------
def race(p, target):
    """
    Win probabilities, by final opponent score, of a race to `target` points
    with a two point lead, point-by-point (no closed forms).  The last entry
    is the probability of winning after reaching target-1 all.
    """
    q = 1.0 - p
    m = target - 1
    dist = {(0, 0): p.ipow(0)}
    wins = {}
    for tot in range(2 * m):
        nxt = {}
        for (a, b), pr in dist.items():
            for (c, d), w in (((a + 1, b), p), ((a, b + 1), q)):
                x = pr * w
                if c == target:
                    wins[d] = x if d not in wins else wins[d] + x
                elif d == target:
                    pass
                else:
                    nxt[(c, d)] = x if (c, d) not in nxt else nxt[(c, d)] + x
        dist = nxt
    deuce = dist[(m, m)]
    # from level score: win = p^2 + 2pq * win
    w = p * p / (1.0 - 2.0 * p * q)
    return [wins[k] for k in range(m)] + [deuce * w]


def set_probs(p, tb):
    """set score distribution (6-0 .. 6-4, 7-5, 7-6), game-by-game"""
    q = 1.0 - p
    dist = {(0, 0): p.ipow(0)}
    wins = {}
    for tot in range(12):
        nxt = {}
        for (a, b), pr in dist.items():
            for (c, d), w in (((a + 1, b), p), ((a, b + 1), q)):
                x = pr * w
                if (c == 6 and d <= 4) or c == 7:
                    wins[(c, d)] = wins[(c, d)] + x if (c, d) in wins else x
                elif (d == 6 and c <= 4) or d == 7:
                    pass
                else:
                    nxt[(c, d)] = nxt[(c, d)] + x if (c, d) in nxt else x
        dist = nxt
    res = [wins[(6, k)] for k in range(5)]
    res.append(wins[(7, 5)])
    res.append(dist[(6, 6)] * tb)
    return res


def markov_matrix(a, b, size, steps, skew):
    """
    `steps` rounds of a two-counter chain: in each round the first counter
    goes up with probability a/steps*skew[x,y], the second with
    b/steps*skew[y,x]; counters saturate at size-1.
    """
    s1, s2 = a * (1.0 / steps), b * (1.0 / steps)
    zero = s1 * 0.0 + s2 * 0.0
    M = [[zero for _ in range(size)] for _ in range(size)]
    M[0][0] = zero + 1.0
    for _ in range(steps):
        N = [[zero for _ in range(size)] for _ in range(size)]
        for x in range(size):
            for y in range(size):
                u = s1 * float(skew[x][y]) * M[x][y]
                w = s2 * float(skew[y][x]) * M[x][y]
                x1, y1 = min(x + 1, size - 1), min(y + 1, size - 1)
                N[x1][y] = N[x1][y] + u
                N[x][y1] = N[x][y1] + w
                N[x][y] = N[x][y] + M[x][y] - u - w
        M = N
    return M


def markov_vector(a, b, size, steps, skew):
    """the score difference chain, saturating at +-(size-1)"""
    s1, s2 = a * (1.0 / steps), b * (1.0 / steps)
    zero = s1 * 0.0 + s2 * 0.0
    K = 2 * size - 1
    M = [zero] * K
    M[size - 1] = zero + 1.0
    for _ in range(steps):
        N = [zero] * K
        for x in range(K):
            u = s1 * float(skew[x]) * M[x]
            w = s2 * float(skew[K - 1 - x]) * M[x]
            N[min(x + 1, K - 1)] = N[min(x + 1, K - 1)] + u
            N[max(x - 1, 0)] = N[max(x - 1, 0)] + w
            N[x] = N[x] + M[x] - u - w
        M = N
    return M


# -- the same numbers, stored differently -------------------------------------
STORED = ["list", "list", "c", "fortran", "transposed", "strided", "reversed",
          "readonly"]


def stored(a, how):
    """equal to the array a, with another layout in memory"""
    a = np.array(a)
    if how == "list":
        return a.tolist()
    if a.ndim == 0 or how in (None, "c"):
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "transposed":     # a view with the axes in the opposite order
        return np.ascontiguousarray(a.T).T
    if how == "strided":        # every second entry of a bigger array
        b = np.repeat(a, 2, axis=-1)
        b[..., 1::2] = 0
        return b[..., ::2]
    if how == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    a.setflags(write=False)
    return a
