"""Hypothesis strategies producing model specifications (see refmodel.py)."""
import math
from functools import lru_cache
from hypothesis import strategies as st
import refmodel as R

# "round" floats shrink well and keep specs readable; the wide ones catch
# rounding-dependent code.
@lru_cache(None)
def num(lo, hi):
    return st.one_of(
        st.integers(math.ceil(lo * 8), math.floor(hi * 8)).map(
            lambda k: k / 8.0),
        st.integers(math.ceil(lo * 10000), math.floor(hi * 10000)).map(
            lambda k: k / 10000.0))


def arr(draw, shape, lo, hi):
    if len(shape) == 0:
        return draw(num(lo, hi))
    return [arr(draw, shape[1:], lo, hi) for _ in range(shape[0])]


def shape_of(v):
    return () if not isinstance(v, list) else (len(v),) + shape_of(v[0])


class Opt(object):
    """what the generator is allowed to produce"""
    def __init__(self, **kw):
        self.perm_params = True      # param_map in any order
        self.dup_params = True       # a parameter repeated inside a param_map
        self.matrix_params = True    # 2-d parameters
        self.affine_b = True         # offsets
        self.game_max_feat = 1       # tennis functions: number of features
        self.cm_max_feat = 3
        self.positive = False        # parameters are in [0.1, 0.9]
        self.__dict__.update(kw)


def sub_map(draw, plist, opt, need=None):
    """a param_map: distinct indices into plist, in any order"""
    idx = list(range(len(plist)))
    k = draw(st.integers(1, len(idx)))
    perm = draw(st.permutations(idx))[:k]
    if not opt.perm_params:
        perm = sorted(perm)
    if opt.dup_params and draw(st.integers(0, 3)) == 0 and len(perm) < 4:
        perm.append(draw(st.sampled_from(perm)))
        if len(perm) < 4 and draw(st.integers(0, 2)) == 0:
            perm.append(perm[-1])
    return list(perm)


def leaf(draw, fx, plist, opt):
    """(spec, param_map) for a leaf function with feature sizes fx"""
    fx = tuple(fx)
    cand = []
    same = [k for k, s in enumerate(plist) if s == fx]
    if same and fx:
        cand += ["X", "X"]
    if fx == () and same:
        cand += ["Scalar", "Scalar"]
        cand += ["Xs"]
    if len(fx) >= 1 and () in plist:
        cand += ["Vector"] * len(fx)
    cand.append("Const")
    if fx == () and plist:
        cand.append("Quad")
    if same:
        cand.append("Act")
    t = draw(st.sampled_from(cand))
    if t == "Quad":
        k = draw(st.integers(1, min(2, len(plist))))
        return {"t": "Quadratic", "u": draw(st.sampled_from([0, 0.5, -1])),
                "s": draw(st.sampled_from([1, 2, 0.5, -1, -2]))}, \
            list(draw(st.permutations(range(len(plist)))))[:k]
    if t == "Act":
        acts = ["Exp", "Logistic", "ArcTan", "Sig"]
        if opt.positive:
            acts += ["Log", "Log"]
        f = draw(st.sampled_from(acts))
        return ({"t": "Sigmoid", "name": "ArcTan"} if f == "Sig"
                else {"t": f}), [draw(st.sampled_from(same))]
    if t in ("X", "Scalar", "Xs"):
        k = draw(st.sampled_from(same))
        return {"t": {"Xs": "X"}.get(t, t)}, [k]
    if t == "Vector":
        k = draw(st.sampled_from([i for i, s in enumerate(plist) if s == ()]))
        return {"t": "Vector", "v": arr(draw, fx, -1, 1)}, [k]
    return {"t": "Const", "v": arr(draw, fx, -1, 1)}, []


def maybe_affine(draw, spec, opt, pos=False):
    c = draw(st.integers(0, 7))
    if c < 3:
        return spec
    if pos:
        a = draw(st.sampled_from([0.5, 1.0, 2.0, 0.25]))
        b = draw(st.sampled_from([0, 0, 0.5, 1.0])) if opt.affine_b else 0
        return {"t": "Affine", "f": spec, "a": a, "b": b, "via": "ctor"}
    if c == 3:
        return {"t": "Affine", "f": spec, "a": -1, "b": 0, "via": "neg"}
    if c == 4 and opt.affine_b:
        return {"t": "Affine", "f": spec, "a": 1,
                "b": draw(st.sampled_from([1, -0.5, 0.25, 2.0, 0])),
                "via": draw(st.sampled_from(["add", "radd", "sub"]))}
    if c == 5 and opt.affine_b:
        return {"t": "Affine", "f": spec, "a": -1,
                "b": draw(st.sampled_from([1, -0.5, 0.25, 2.0, 0])),
                "via": "rsub"}
    if c == 6:
        return {"t": "Affine", "f": spec,
                "a": draw(st.sampled_from([2, -0.5, 0.25, -1.5, 1, -1,
                                           0.125])),
                "b": 0, "via": draw(st.sampled_from(["mul", "rmul", "div"]))}
    return {"t": "Affine", "f": spec,
            "a": draw(st.sampled_from([2, -0.5, 0.25, 1])),
            "b": draw(st.sampled_from([0, 0.5, -1])) if opt.affine_b else 0,
            "via": "ctor"}


def spell(draw, m, allow_none=True):
    """a list map may be spelled as an int (singleton) or None (empty)"""
    if len(m) == 1 and draw(st.booleans()):
        return m[0]
    if len(m) == 0 and allow_none and draw(st.booleans()):
        return None
    return list(m)


def real(draw, feat, plist, depth, opt):
    """a real-valued function of all of plist with feature sizes feat, dim 0.
    Every feature axis is covered."""
    feat = tuple(feat)
    kinds = ["Sum", "Sum", "Sum", "Prod"]
    if depth > 0:
        kinds += ["Act", "Comp2", "Wrap"]
    t = draw(st.sampled_from(kinds))
    if t == "Act":
        g = real(draw, feat, plist, depth - 1, opt)
        f = draw(st.sampled_from(["Logistic", "ArcTan", "Exp", "X",
                                  "LogExp", "Sig"]))
        if f == "LogExp":
            c = draw(st.sampled_from([0.5, 1.0]))
            inner = {"t": "Comp", "f": {"t": "Exp"}, "g": [g]}
            if opt.affine_b:
                inner = {"t": "Affine", "f": inner, "a": 1, "b": c,
                         "via": "ctor"}
            s = {"t": "Comp", "f": {"t": "Log"}, "g": [inner]}
        elif f == "Sig":
            s = {"t": "Comp", "f": {"t": "Sigmoid",
                 "name": draw(st.sampled_from(["Logistic", "ArcTan"]))},
                 "g": [g]}
        else:
            s = {"t": "Comp", "f": {"t": f}, "g": [g]}
        return maybe_affine(draw, s, opt)
    if t == "Comp2":
        k = draw(st.integers(1, 3))
        gs = [real(draw, feat, plist, depth - 1, opt) for _ in range(k)]
        if k > 1 and draw(st.integers(0, 3)) == 0:
            gs[draw(st.integers(1, k - 1))] = gs[0]
        f = real(draw, feat, [feat] * k, depth - 1, opt)
        return {"t": "Comp", "f": f, "g": gs}
    if t == "Wrap":
        pm = sub_map(draw, plist, opt)
        perm = draw(st.permutations(range(len(feat))))
        f = real(draw, [feat[i] for i in perm], [plist[k] for k in pm],
                 depth - 1, opt)
        return {"t": "Wrap", "f": f, "p": spell(draw, pm, False),
                "x": spell(draw, list(perm)),
                "n": len(feat), "d": None, "nd": 0, "flip": None}
    return node(draw, t, feat, plist, depth, opt)


def node(draw, t, feat, plist, depth, opt):
    nmax = 3
    k = draw(st.integers(1, nmax))
    atoms = []
    todo = set(range(len(feat)))
    for a in range(k):
        r = draw(st.integers(0, len(feat)))
        x = list(draw(st.permutations(range(len(feat)))))[:r]
        if a == k - 1:
            x = x + sorted(todo - set(x))
        todo -= set(x)
        atoms.append(atom(draw, t, x, feat, plist, depth, opt))
    if draw(st.integers(0, 4)) == 0:
        # the same function again, elsewhere where that is possible
        a = dict(draw(st.sampled_from(atoms)))
        if isinstance(a["x"], list) and len({feat[i] for i in a["x"]}) == 1:
            a["x"] = list(draw(st.permutations(a["x"])))
        if isinstance(a["p"], list) and len({plist[i] for i in a["p"]}) == 1:
            a["p"] = list(draw(st.permutations(a["p"])))
        atoms.append(a)
    return {"t": t, "n": len(feat), "d": 0, "atoms": atoms}


def atom(draw, t, x, feat, plist, depth, opt):
    fx = tuple(feat[i] for i in x)
    if depth > 0 and len(plist) > 0 and draw(st.integers(0, 2)) == 0:
        pm = sub_map(draw, plist, opt)
        f = real(draw, fx, [plist[i] for i in pm], depth - 1, opt)
        f = maybe_affine(draw, f, opt)
        a = {"f": f, "p": spell(draw, pm, False), "x": list(x)}
    else:
        f, pm = leaf(draw, fx, plist, opt)
        if f["t"] not in ("Const",):
            f = maybe_affine(draw, f, opt)
        a = {"f": f, "p": spell(draw, pm, False), "x": spell(draw, x)}
    if t == "Sum" and draw(st.integers(0, 2)) == 0:
        a["w"] = draw(st.sampled_from([0.5, 2, -1.0, 1.5]))
    return a


def pos(draw, feat, plist, depth, opt):
    g = real(draw, feat, plist, depth, opt)
    f = draw(st.sampled_from(["Exp", "Exp", "Prob"]))
    if f == "Prob":
        s = {"t": "Comp", "f": {"t": "Sigmoid",
             "name": draw(st.sampled_from(["logistic", "arctan"]))},
             "g": [g]}
        return maybe_affine(draw, s, opt, pos=True)
    s = {"t": "Comp", "f": {"t": "Exp"}, "g": [g]}
    return maybe_affine(draw, s, opt, pos=True)


def prob(draw, feat, plist, depth, opt, scale=1.0):
    g = real(draw, feat, plist, depth, opt)
    s = {"t": "Comp", "f": {"t": draw(st.sampled_from(["Logistic"]))},
         "g": [g]}
    if draw(st.integers(0, 2)) == 0:
        s = {"t": "Comp", "f": {"t": "Sigmoid", "name": "arctan"}, "g": [g]}
    if scale != 1.0:
        s = {"t": "Affine", "f": s, "a": scale, "b": 0, "via": "ctor"}
    return s


def skew1(draw, k):
    return draw(st.one_of(st.none(), st.just(0))) if False else \
        (None if draw(st.booleans()) else
         [draw(st.sampled_from([0.5, 1.0, 0.8, 1.1])) for _ in range(k)])


def vec(draw, feat, plist, depth, opt, size=None, kinds=None):
    """dim == 1 and strictly positive (probability-like) outputs"""
    feat = tuple(feat)
    if kinds is None:
        kinds = ["Poisson", "Poisson", "NB", "LogNBExp", "MV", "CM", "Coll"]
        if len(feat) <= opt.game_max_feat:
            kinds += ["Game", "TieBreak", "Set"]
        if size is not None:
            kinds = ["Poisson", "Poisson", "NB"]
    if opt.positive and feat in plist and draw(st.booleans()):
        d = direct(draw, feat, plist, opt, size, kinds)
        if d is not None:
            return d
    t = draw(st.sampled_from(kinds))
    D = size if size is not None else draw(st.integers(2, 4))
    if t in ("Poisson",):
        return {"t": "Comp", "f": {"t": "Poisson", "size": D},
                "g": [pos(draw, feat, plist, depth, opt)]}
    if t in ("NB", "LogNBExp"):
        r = draw(st.sampled_from([1, 0.5, 2, 3.5]))
        g = pos(draw, feat, plist, depth, opt)
        if t == "NB":
            return {"t": "Comp", "f": {"t": "NB", "size": D, "r": r},
                    "g": [g]}
        return {"t": "Comp", "f": {"t": "LogNB", "size": D, "r": r},
                "g": [g]}
    if t in ("Game", "TieBreak"):
        return {"t": "Comp", "f": {"t": t},
                "g": [prob(draw, feat, plist, depth, opt)]}
    if t == "Set":
        return {"t": "Comp", "f": {"t": "Set"},
                "g": [prob(draw, feat, plist, depth, opt),
                      prob(draw, feat, plist, depth, opt)]}
    if t == "MV":
        S = draw(st.integers(1, 3))
        steps = draw(st.integers(1, 4))
        g = [prob(draw, feat, plist, depth, opt, scale=0.45)
             for _ in range(2)]
        return {"t": "Comp", "f": {"t": "MV", "size": S, "steps": steps,
                                   "skew": skew1(draw, 2 * S - 1)}, "g": g}
    if t == "Coll":
        # collapse one... the outcome axes of a matrix distribution
        m = mat(draw, feat, plist, depth, opt)
        return {"t": "Comp", "f": {"t": "CM"}, "g": [m]}
    if t == "CM":
        m = mat(draw, feat, plist, depth, opt)
        return {"t": "Comp", "f": {"t": "CM", "conds": conds(draw, opt)},
                "g": [m]}
    raise AssertionError(t)


def direct(draw, feat, plist, opt, size, kinds):
    """a distribution applied directly to parameters (all in [0.1, 0.9])"""
    same = [k for k, s in enumerate(plist) if s == feat]
    D = size if size is not None else draw(st.integers(2, 4))
    t = draw(st.sampled_from(kinds))
    one = [draw(st.sampled_from(same))]
    two = one + [draw(st.sampled_from(same))]
    if t == "Poisson":
        f, p = {"t": t, "size": D}, one
    elif t in ("NB", "LogNBExp"):
        r = draw(st.sampled_from([1, 0.5, 2, 3.5]))
        f, p = {"t": "NB" if t == "NB" else "LogNB", "size": D, "r": r}, one
    elif t in ("Game", "TieBreak"):
        f, p = {"t": t}, one
    elif t == "Set":
        f, p = {"t": t}, two
    elif t == "MV":
        S = draw(st.integers(1, 3))
        f, p = {"t": "MV", "size": S, "steps": draw(st.integers(2, 4)),
                "skew": skew1(draw, 2 * S - 1)}, two
    else:
        return None
    if size is not None and t not in ("Poisson", "NB", "LogNBExp"):
        return None
    x = list(draw(st.permutations(range(len(feat))))) \
        if len(set(feat)) <= 1 else list(range(len(feat)))
    return {"t": "Sum", "n": len(feat), "d": 1,
            "atoms": [{"f": f, "p": spell(draw, p, False), "x": x,
                       "d": spell(draw, [0], False)}]}


def conds(draw, opt):
    if draw(st.booleans()):
        return None
    return draw(st.lists(st.tuples(
        st.sampled_from([1, -1, 0, 2]), st.sampled_from([1, -1, 0]),
        st.sampled_from([0, 1, -1, -2]),
        st.sampled_from([1, 0, -1])).map(list), min_size=1,
        max_size=draw(st.sampled_from([3, 3, 5]))))


def mat(draw, feat, plist, depth, opt):
    feat = tuple(feat)
    t = draw(st.sampled_from(["MM", "PP", "PP"]))
    if t == "MM":
        S = draw(st.integers(1, 3))
        steps = draw(st.integers(1, 4))
        g = [prob(draw, feat, plist, depth, opt, scale=0.45)
             for _ in range(2)]
        sk = None
        if draw(st.booleans()):
            sk = [skew1(draw, S) or [1.0] * S for _ in range(S)]
        return {"t": "Comp", "f": {"t": "MM", "size": S, "steps": steps,
                                   "skew": sk}, "g": g}
    D = [draw(st.integers(2, 3)), draw(st.integers(2, 3))]
    atoms = []
    for i in range(2):
        pm = sub_map(draw, plist, opt)
        x = list(draw(st.permutations(range(len(feat)))))
        f = vec(draw, [feat[k] for k in x], [plist[k] for k in pm],
                max(depth - 1, 0), opt, size=D[i])
        atoms.append({"f": f, "p": spell(draw, pm, False), "x": x, "d": i})
    if draw(st.booleans()):
        atoms.reverse()
    return {"t": "Prod", "n": len(feat), "d": 2, "atoms": atoms}


def mix(draw, feat, plist, depth, opt):
    """Sum/Product with one outcome axis mixing terms with and without it"""
    feat = tuple(feat)
    D = draw(st.integers(2, 3))
    t = draw(st.sampled_from(["Sum", "Prod"]))
    atoms = []
    k = draw(st.integers(1, 3))
    first = draw(st.integers(0, k - 1))
    for a in range(k):
        pm = sub_map(draw, plist, opt)
        sub = [plist[i] for i in pm]
        x = list(draw(st.permutations(range(len(feat)))))
        if a == first or draw(st.booleans()):
            f = vec(draw, [feat[i] for i in x], sub, max(depth - 1, 0), opt,
                    size=D)
            atoms.append({"f": f, "p": spell(draw, pm, False), "x": x,
                          "d": spell(draw, [0], False)})
        else:
            f = pos(draw, [feat[i] for i in x], sub, max(depth - 1, 0), opt)
            atoms.append({"f": f, "p": spell(draw, pm, False), "x": x,
                          "d": spell(draw, [])})
    return {"t": t, "n": len(feat), "d": 1, "atoms": atoms}


def sized(draw, feat, plist, sizes, depth, opt, parent=None):
    """a positive function with the outcome axes of the given sizes"""
    if len(sizes) == 0:
        return pos(draw, feat, plist, depth, opt)
    if len(sizes) == 1 and draw(st.integers(0, 3)):
        return vec(draw, feat, plist, depth, opt, size=sizes[0])
    if parent and draw(st.integers(0, 2)) == 0:
        return outer(draw, feat, plist, sizes, depth - 1, opt, parent)
    if draw(st.integers(0, 2)) == 0:
        # axis k of the wrapped function becomes axis o[k]
        o = list(draw(st.permutations(range(len(sizes)))))
        x = list(draw(st.permutations(range(len(feat)))))
        pm = sub_map(draw, plist, opt)
        f = sized(draw, [feat[i] for i in x], [plist[k] for k in pm],
                  [sizes[k] for k in o], depth, opt)
        return {"t": "Wrap", "f": f, "p": spell(draw, pm, False), "x": x,
                "n": len(feat), "d": o, "nd": len(sizes), "flip": None}
    return outer(draw, feat, plist, sizes, depth - 1, opt)


def outer(draw, feat, plist, sizes, depth, opt, t=None):
    """a sum or product over several features and outcome axes, of terms over
    some of them in any order"""
    t = t or draw(st.sampled_from(["Sum", "Prod", "Prod"]))
    todo = list(draw(st.permutations(range(len(sizes)))))
    atoms = []
    while todo or not atoms:
        k = draw(st.integers(1, len(todo))) if todo else 0
        if depth > 0 and todo and draw(st.integers(0, 3)) == 0:
            k = len(todo)
        ds, todo = todo[:k], todo[k:]
        if depth <= 0 and k > 1:
            ds, todo = ds[:1], todo + ds[1:]
        x = list(draw(st.permutations(range(len(feat)))))
        if atoms:
            x = x[:draw(st.integers(0, len(x)))]
        pm = sub_map(draw, plist, opt)
        f = sized(draw, [feat[i] for i in x], [plist[i] for i in pm],
                  [sizes[d] for d in ds], depth, opt, t) \
            if depth > 0 or len(ds) != 1 else \
            vec(draw, [feat[i] for i in x], [plist[i] for i in pm], 0, opt,
                size=sizes[ds[0]])
        a = {"f": maybe_affine(draw, f, opt, pos=True),
             "p": spell(draw, pm, False), "x": x,
             "d": spell(draw, ds)}
        if t == "Sum" and draw(st.integers(0, 2)) == 0:
            a["w"] = draw(st.sampled_from([0.5, 2, 1.5]))
        atoms.append(a)
        if not todo and len(atoms) < 3 and draw(st.integers(0, 3)) == 0:
            todo = list(draw(st.permutations(range(len(sizes)))))[:1]
    if draw(st.integers(0, 4)) == 0:        # a term without outcome axes
        pm = sub_map(draw, plist, opt)
        x = list(draw(st.permutations(range(len(feat)))))
        x = x[:draw(st.integers(0, len(x)))]
        atoms.insert(draw(st.integers(0, len(atoms))), {
            "f": pos(draw, [feat[i] for i in x], [plist[i] for i in pm],
                     max(depth - 1, 0), opt),
            "p": spell(draw, pm, False), "x": x, "d": spell(draw, [])})
    return {"t": t, "n": len(feat), "d": len(sizes), "atoms": atoms}


def nest(draw, feat, plist, depth, opt):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3]))
    sizes = [draw(st.integers(2, 3)) for _ in range(nd)]
    return outer(draw, tuple(feat), plist, sizes, depth, opt)


def act(draw, feat, plist, depth, opt):
    """an activation applied to a function with outcome axes"""
    if draw(st.integers(0, 2)):
        v = vec(draw, feat, plist, depth, opt,
                kinds=["Poisson", "NB", "MV", "Coll"])
    else:                           # two outcome axes
        v = mat(draw, feat, plist, depth, opt)
    f = draw(st.sampled_from(["Exp", "Log1", "Logistic", "ArcTan", "X",
                              "Sig"]))
    if f == "Log1":
        return {"t": "Comp", "f": {"t": "Log"}, "g": [
            {"t": "Affine", "f": v, "a": 1, "b": 0.5, "via": "add"}]}
    if f == "Sig":
        return {"t": "Comp", "f": {"t": "Sigmoid", "name": "arctan"},
                "g": [v]}
    return {"t": "Comp", "f": {"t": f}, "g": [v]}


def coll(draw, feat, plist, depth, opt):
    """Collapse of any model, possibly placed back inside a Sum/Product"""
    feat = tuple(feat)
    kind = draw(st.sampled_from(["real", "vec", "mat", "mix", "act"]))
    f = {"real": real, "vec": vec, "mat": mat, "mix": mix,
         "act": act}[kind](draw, feat, plist, depth, opt)
    nf = len(feat)
    c = draw(st.sampled_from(["all", "none", "part", "part"]))
    sd = draw(st.booleans())
    if c == "all" or nf == 0:
        sv = True
    elif c == "none":
        sv = False
        sd = draw(st.sampled_from([True, True, False]))
    else:
        k = draw(st.integers(1, nf))
        sv = list(draw(st.permutations(range(nf))))[:k]
        if len(sv) == 1 and draw(st.booleans()):
            sv = sv[0]
    return {"t": "Coll", "f": f, "sv": sv, "sd": sd}


def flipw(draw, feat, plist, depth, opt):
    """a model of scalar parameters with some feature axes flipped"""
    f = draw(st.sampled_from([real, pos, vec]))(draw, feat, plist, depth, opt)
    nd = 0 if f is real else None
    k = draw(st.integers(1, len(feat)))
    fl = list(draw(st.permutations(range(len(feat)))))[:k]
    perm = list(draw(st.permutations(range(len(feat))))) \
        if len(set(feat)) == 1 else list(range(len(feat)))
    return {"t": "Wrap", "f": f, "p": list(range(len(plist))), "x": perm,
            "n": len(feat), "d": None, "nd": dims(f),
            "flip": fl[0] if k == 1 and draw(st.booleans()) else fl}


def dims(spec):
    """outcome axes of a spec"""
    t = spec["t"]
    if t in ("Sum", "Prod"):
        return spec["d"]
    if t == "Wrap":
        return spec["nd"]
    if t in ("Poisson", "LogNB", "NB", "Game", "TieBreak", "Set", "MV", "CM"):
        return 1
    if t == "MM":
        return 2
    if t == "Affine":
        return dims(spec["f"])
    if t == "Comp":
        if spec["f"]["t"] in ("Exp", "Log", "Logistic", "ArcTan", "Sigmoid",
                              "X"):
            return dims(spec["g"][0])
        return dims(spec["f"])
    if t == "Coll":
        return 0 if spec["sd"] else dims(spec["f"])
    return 0


def collsum(draw, feat, plist, depth, opt):
    """Collapse used as a term of a Sum or Product over fewer features"""
    feat = tuple(feat)
    kind = draw(st.sampled_from([real, vec, mix]))
    k = draw(st.integers(1, 2))
    atoms = []
    for _ in range(k):
        extra = draw(st.integers(1, 3))
        big = feat + (extra,)
        f = kind(draw, big, plist, depth, opt)
        sd = True
        atoms.append({"f": {"t": "Coll", "f": f, "sv": [len(feat)],
                            "sd": sd},
                      "p": list(range(len(plist))),
                      "x": list(range(len(feat)))})
    if draw(st.booleans()):
        atoms.append(atom(draw, "Sum0", list(range(len(feat))), feat, plist,
                          0, opt))
    return {"t": draw(st.sampled_from(["Sum", "Prod"])), "n": len(feat),
            "d": 0, "atoms": atoms}


@st.composite
def layout(draw, opt, max_feat=3, max_size=3, min_feat=1, scalar=False):
    """feature sizes and parameter shapes"""
    nf = draw(st.integers(min_feat, max_feat))
    base = draw(st.lists(st.integers(1, max_size), min_size=1, max_size=2))
    feat = [draw(st.sampled_from(base)) for _ in range(nf)]
    shapes = [()] + [(s,) for s in sorted(set(feat))] * 2
    if opt.matrix_params and nf >= 2:
        shapes.append((feat[0], feat[1]))
        shapes.append((feat[1], feat[0]))
        if nf >= 3 and (opt.matrix_params != "2d"):
            if draw(st.booleans()):
                feat = [min(s, 2) for s in feat]
                shapes = [tuple(min(k, 2) for k in s) for s in shapes]
                shapes.append(tuple(feat[i] for i in
                                    draw(st.permutations(range(3)))))
                if max_feat == 3 and draw(st.integers(0, 3)) == 0:
                    feat.append(draw(st.sampled_from([1, 2])))
    if scalar:
        shapes = [()]
    k = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 4]))
    plist = [draw(st.sampled_from(shapes)) for _ in range(k)]
    return tuple(feat), plist


def single(draw, feat, plist, depth, opt):
    """a supplied function by itself, scaled, shifted or re-indexed"""
    idx = list(range(len(plist)))
    c = draw(st.integers(0, 3))
    if c == 0:
        f = {"t": "Linear", "w": [draw(st.sampled_from([1, 2, -0.5]))
                                  for _ in idx]}
    elif c == 1:
        f = {"t": "Quadratic", "u": draw(st.sampled_from([0, 0.5, -1])),
             "s": draw(st.sampled_from([1, 2, 0.5, -1, -2]))}
    else:
        f, pm = leaf(draw, feat, plist, opt)
        if f["t"] == "Const":
            pm = idx
        if draw(st.booleans()):
            x = list(draw(st.permutations(range(len(feat)))))
            f = maybe_affine(draw, f, opt)
            f = {"t": "Wrap", "f": f, "p": spell(draw, pm, False),
                 "x": spell(draw, x), "n": len(feat),
                 "d": None, "nd": 0, "flip": None}
        else:
            plist[:] = [plist[k] for k in pm]
    for _ in range(draw(st.integers(0, 2))):
        f = maybe_affine(draw, f, opt)
    return f


def comp(draw, feat, plist, depth, opt):
    """a function of several functions, each placed on the features in an
    order of its own"""
    feat = tuple(feat)
    nf = len(feat)
    k = draw(st.integers(2, 4))
    gs = [real(draw, feat, plist, max(depth - 1, 0), opt) for _ in range(k)]

    def place(i):
        x = list(draw(st.permutations(range(nf))))
        if tuple(feat[a] for a in x) != feat:
            x = list(range(nf))
        f = {"t": draw(st.sampled_from(["X", "Exp", "Logistic", "ArcTan"]))}
        return {"f": f, "p": i, "x": x}
    atoms = [place(i) for i in draw(st.permutations(range(k)))]
    t = draw(st.sampled_from(["Prod", "Prod", "Sum"]))
    if t == "Sum" and k > 2:
        # a product of some of them inside a sum
        j = draw(st.integers(2, k))
        sub = {"t": "Prod", "n": nf, "d": 0, "atoms": atoms[:j]}
        pm = [a["p"] for a in atoms[:j]]
        for q, a in enumerate(sub["atoms"]):
            a["p"] = q
        x = list(draw(st.permutations(range(nf)))) \
            if len(set(feat)) == 1 else list(range(nf))
        atoms = [{"f": sub, "p": pm, "x": x}] + atoms[j:]
    f = {"t": t, "n": nf, "d": 0, "atoms": atoms}
    return {"t": "Comp", "f": f, "g": gs}


KINDS = {"nest": nest, "comp": comp, "single": single, "real": real, "pos": pos, "vec": vec, "mat": mat, "mix": mix,
         "act": act, "coll": coll, "collsum": collsum, "flip": flipw}


def model_case(kind, depth=2, max_feat=3, **kw):
    @st.composite
    def s(draw):
        opt = Opt(positive=draw(st.sampled_from([False, False, True])), **kw)
        mf = max_feat
        if kind == "collsum":
            mf = min(2, max_feat)
        feat, plist = draw(layout(opt, max_feat=mf, scalar=kind == "flip"))
        spec = KINDS[kind](draw, feat, plist, draw(st.integers(0, depth)),
                           opt)
        lo, hi = (0.1, 0.9) if opt.positive else (-1, 1)
        params = [arr(draw, sh, lo, hi) for sh in plist]
        if opt.positive:
            params = [clip(p) for p in params]
        elif draw(st.integers(0, 9)) == 0:
            params = [whole(p) for p in params]
        if draw(st.integers(0, 5)) == 0:
            # equal parameters (one and the same object, see arguments)
            for i in range(1, len(params)):
                for k in range(i):
                    if plist[i] == plist[k]:
                        params[i] = params[k]
        return {"feat": list(feat), "model": spec, "params": params,
                "share": draw(st.booleans()),
                "form": draw(st.sampled_from(
                    ["array", "param", "list", "tuple", "bare"])),
                "mem": draw(st.sampled_from(R.STORED[2:]))}
    return s()


def whole(p):
    """integer values (and type)"""
    return [whole(x) for x in p] if isinstance(p, list) else int(round(p))


def clip(p):
    if isinstance(p, list):
        return [clip(x) for x in p]
    return min(max(p, 0.1), 0.9)
