"""
C05-C07: structured tensors against dense numpy arrays.

A leaf is described by the sizes of a shared universe (axes of the x, y, n and
outcome spaces), which spaces it has, which axes are broadcast (size one) and
which x / y axes are mapped to feature axes.
"""
from array import array
import numpy as np
from hypothesis import strategies as st
from scipy import special
import refmodel as R
from core import Prop, Target

RTOL = 1e-10


# -- leaves -------------------------------------------------------------------
def values(shape, a, b, positive):
    """a fixed, non-degenerate pattern"""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n)
    v = ((a * (i + 1) + b * (i + 1) ** 2) % 97)
    v = (v + 1) / 16.0 if positive else (v - 40) / 16.0
    return v.reshape(shape)


def shapes(leaf):
    """(stored shape, dense shape) of a leaf, per space"""
    st_, de = {}, {}
    for s in "xynd":
        st_[s] = list(leaf[s])
        de[s] = list(leaf[s])
    for s in "xy":
        for k, f in enumerate(leaf[s + "m"] or []):
            if f >= 0:
                st_[s][k] = 1
                de[s][k] = leaf["n"][f]
    return st_, de


def flat(sh):
    return tuple(sh["x"] + sh["y"] + sh["n"] + sh["d"])


def lib_tensor(leaf):
    from maxlike import Tensor
    stv, _ = shapes(leaf)
    v = values(flat(stv), leaf["a"], leaf["b"], leaf.get("pos", False))
    return Tensor(R.stored(v, leaf.get("mem")),
                  x_dim=len(leaf["x"]), y_dim=len(leaf["y"]),
                  dim=len(leaf["d"]),
                  x_map=array("b", leaf["xm"]) if leaf["xm"] else None,
                  y_map=array("b", leaf["ym"]) if leaf["ym"] else None)


class Dense(object):
    """arr has axes x, y, n, d in this order"""
    def __init__(self, arr, nx, ny, nn, nd):
        self.arr, self.nx, self.ny, self.nn, self.nd = arr, nx, ny, nn, nd
        assert arr.ndim == nx + ny + nn + nd

    @property
    def lay(self):
        return self.nx, self.ny, self.nn, self.nd


def dense(leaf):
    stv, de = shapes(leaf)
    v = values(flat(stv), leaf["a"], leaf["b"], leaf.get("pos", False))
    nx, ny, nn = len(leaf["x"]), len(leaf["y"]), len(leaf["n"])
    out = np.broadcast_to(v, flat(de)).copy()
    idx = np.indices(out.shape) if out.ndim else None
    for s, off in (("x", 0), ("y", nx)):
        for k, f in enumerate(leaf[s + "m"] or []):
            if f >= 0:
                out = out * (idx[off + k] == idx[nx + ny + f])
    return Dense(out, nx, ny, nn, len(leaf["d"]))


def common(ds):
    """broadcast a list of Dense to the union layout"""
    L = tuple(max(d.lay[i] for d in ds) for i in range(4))
    out = []
    for d in ds:
        sh, k = [], 0
        for i in range(4):
            if d.lay[i] == 0:
                sh += [1] * L[i]
            else:
                assert d.lay[i] == L[i], (d.lay, L)
                sh += list(d.arr.shape[k:k + d.lay[i]])
                k += d.lay[i]
        out.append(d.arr.reshape(sh))
    return L, out


def compare(ctx, what, t, want, atol=None):
    """t: tensor of the code under test, want: Dense (maybe of size one along
    broadcast axes)"""
    with ctx.lib(what):
        arr = np.asarray(t.toarray(), dtype=float)
        lay = (t.x_dim, t.y_dim, t.n, t.dim)
    if arr.ndim == 0 and lay == (0, 0, 0, 0):
        # a null (or scalar) tensor stands for any layout
        ctx.close(what, np.broadcast_to(arr, want.arr.shape), want.arr, RTOL)
        return
    ctx.require(arr.ndim == sum(lay), "%s: %d axes in the array, layout %s",
                what, arr.ndim, lay)
    sh, k = [], 0
    for i in range(4):
        if lay[i] == want.lay[i]:
            sh += list(arr.shape[k:k + lay[i]])
        elif lay[i] == 0:
            sh += [1] * want.lay[i]
        else:
            ctx.fail("%s: layout (x, y, n, dim) is %s instead of %s" % (
                what, lay, want.lay))
        k += lay[i]
    arr = arr.reshape(sh)
    with ctx.lib(what + " (shape)"):
        S = np.broadcast_shapes(arr.shape, want.arr.shape)
    # an axis may only be larger than the oracle's if constant there
    ctx.require(all(s == w or w == 1 for s, w in zip(S, want.arr.shape)),
                "%s: shape %s instead of %s", what, arr.shape,
                want.arr.shape)
    ctx.close(what, np.broadcast_to(arr, S),
              np.broadcast_to(want.arr, S), RTOL)


# -- generators -----------------------------------------------------------------
@st.composite
def universe(draw, need_n=False):
    base = draw(st.lists(st.sampled_from([2, 3, 2, 3, 1, 4]), min_size=1,
                         max_size=2))
    def ax(*counts):
        return [draw(st.sampled_from(base))
                for _ in range(draw(st.sampled_from(counts)))]
    u = {"x": ax(1, 2, 1, 2, 0, 3), "y": ax(1, 0, 2, 1, 1, 3),
         "n": ax(2, 1, 2, 1, 3) if need_n else ax(2, 1, 2, 3, 1, 0, 3, 4),
         "d": ax(0, 1, 2, 0, 1, 3)}
    return small(u, 6)


def small(u, axes):
    """keeps layouts with many axes affordable"""
    if sum(map(len, u.values())) > axes:
        for s in u:
            u[s] = [min(k, 2) for k in u[s]]
    return u


def a_map(draw, xs, ns, partial):
    """injective map of axes with sizes xs to axes with sizes ns or None"""
    out = []
    for s in xs:
        c = [k for k in range(len(ns)) if ns[k] == s and k not in out]
        if partial and draw(st.integers(0, 2)) == 0:
            out.append(-1)
        elif not c:
            if not partial:
                return None
            out.append(-1)
        else:
            out.append(draw(st.sampled_from(c)))
    return out if any(k >= 0 for k in out) else None


def a_leaf(draw, u, has=None, maps=True, partial=False, pos=False,
           bcast=True, xm=None, ym=None):
    leaf = {}
    for s in "xynd":
        h = draw(st.integers(0, 5)) < 5 if has is None or s not in has \
            else has[s]
        leaf[s] = list(u[s]) if h else []
    leaf["xm"] = leaf["ym"] = None
    if maps and draw(st.integers(0, 4)) < 4:
        for s in "xy":
            if leaf[s] and leaf["n"] and draw(st.integers(0, 3)) < 3:
                leaf[s + "m"] = a_map(draw, leaf[s], leaf["n"], partial)
    used = set()
    for s in "xy":
        used |= {f for f in leaf[s + "m"] or [] if f >= 0}
    if bcast and draw(st.booleans()):
        for s in "xynd":
            for k in range(len(leaf[s])):
                m = leaf[s + "m"] if s in "xy" else None
                if m and m[k] >= 0 or (s == "n" and k in used):
                    continue
                if draw(st.integers(0, 3)) == 0:
                    leaf[s][k] = 1
    leaf["a"] = draw(st.integers(1, 96))
    leaf["b"] = draw(st.integers(0, 96))
    if draw(st.integers(0, 3)) == 0:
        leaf["mem"] = draw(st.sampled_from(R.STORED[2:]))
    if pos:
        leaf["pos"] = True
    return leaf


# -- C05 ------------------------------------------------------------------------
@st.composite
def arith_case(draw):
    u = draw(universe())
    full = {s: True for s in "xynd"} if draw(st.integers(0, 2)) == 0 else None
    k = draw(st.integers(1, 4))
    part = draw(st.integers(0, 3)) == 0
    first = a_leaf(draw, u, has=full, partial=part)
    prog = []
    for _ in range(k):
        op = draw(st.sampled_from(["add", "add", "sub", "sub", "mul", "mul",
                                   "div", "rsub", "radd", "rmul", "neg",
                                   "addsum", "mulsum", "subsum", "pow"]))
        kind = draw(st.sampled_from(["leaf", "leaf", "leaf", "num", "arr",
                                     "scalar"]))
        if op == "neg":
            prog.append({"op": op})
            continue
        if op == "pow":
            prog.append({"op": op, "k": draw(st.sampled_from([1, 2, 3]))})
            continue
        if op in ("addsum", "mulsum", "subsum"):
            prog.append({"op": op[:3], "kind": "sum",
                         "leaves": [a_leaf(draw, u, has=full, partial=part)
                                    for _ in range(draw(st.sampled_from(
                                        [2, 2, 3, 4])))]})
            continue
        st_ = {"op": op, "kind": kind, "by": draw(st.sampled_from(
            ["operator", "operator", "numpy", "inplace"]))}
        if kind == "num":
            st_["v"] = draw(st.sampled_from(
                [2, 1, 0.5, -1.5, 3, 0, 1.0, -1, 0.0, 1.0001, 1e-6, -1e-3,
                 1 - 1e-6] if op != "div"
                else [2, 0.5, -1.5, 1, -1, 1.0001, -1e-3, 1 - 1e-6]))
            st_["as"] = draw(st.sampled_from(sorted(NUMBERS)))
        elif kind == "scalar":
            st_["v"] = draw(st.sampled_from(
                [2.0, 1.0, -0.5, 0.0] if op != "div" else [2.0, -0.5, 1.0]))
        elif kind == "arr":
            st_["leaf"] = a_leaf(draw, u, has={"x": False, "y": False,
                                               "n": True, "d": False},
                                 maps=False, pos=op == "div")
        else:
            st_["leaf"] = a_leaf(draw, u, has=full, maps=op != "div",
                                 pos=op == "div", partial=part)
        prog.append(st_)
    return {"first": first, "prog": prog}


NUMBERS = {"": lambda v: v, "a numpy number": lambda v: np.array(v)[()],
           "b numpy array": np.array,
           "c 32-bit number": lambda v: np.float32(v)
           if np.float32(v) == v else v}

FUNCTIONS = {
    "exp": np.exp, "log": np.log, "square": np.square, "tanh": np.tanh,
    "arctan": np.arctan, "gammaln": special.gammaln, "gamma": special.gamma,
    "expit": special.expit, "logit": special.logit}


@st.composite
def function_case(draw):
    u = draw(universe())
    none = {"x": False, "y": False, "n": True, "d": draw(st.booleans())}
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        op = draw(st.sampled_from(sorted(FUNCTIONS) + [
            "rdiv", "rdiv", "maximum", "minimum", "div"]))
        kind = draw(st.sampled_from(["num", "arr", "leaf"]))
        s = {"op": op, "kind": kind}
        if op in ("rdiv", "div", "maximum", "minimum"):
            s["by"] = draw(st.sampled_from(["operator", "numpy"]))
            s["swap"] = draw(st.booleans())
            if kind == "num":
                s["v"] = draw(st.sampled_from([2, 1, 0, -1.5, 0.25, 1.0]
                                              if op != "div" else
                                              [2, 1, -1.5, 0.25]))
            elif kind == "arr":
                s["leaf"] = a_leaf(draw, u, has={
                    "x": False, "y": False, "n": True, "d": False},
                    pos=True)
            else:
                s["leaf"] = a_leaf(draw, u, has=none, pos=True)
        steps.append(s)
    return {"first": a_leaf(draw, u, has=none, pos=True), "steps": steps}


def check_function(spec, ctx):
    """numbers / tensors, and numpy's functions of tensors without parameter
    axes"""
    from maxlike import Tensor
    t = ctx.call("Tensor", lib_tensor, spec["first"])
    d = dense(spec["first"])
    kept = [(t, d)]
    nops = 0
    for s in spec["steps"]:
        op = s["op"]
        if op in FUNCTIONS:
            with np.errstate(all="ignore"):
                r = FUNCTIONS[op](d.arr)
            if not np.all(np.isfinite(r)) or np.abs(r).max(initial=0) > 1e6 \
                    or op in ("gamma", "gammaln") and d.arr.min() < 0.05:
                continue
            t = ctx.call(op, FUNCTIONS[op], t)
            d = Dense(r, *d.lay)
        else:
            if s["kind"] == "num":
                o = s["v"]
                od = Dense(np.array(float(o)), 0, 0, 0, 0)
            else:
                od = dense(s["leaf"])
                o = od.arr.copy() if s["kind"] == "arr" else \
                    ctx.call("Tensor", lib_tensor, s["leaf"])
                if s["kind"] == "arr" and o.ndim == 0:
                    o = float(o)
            L, (a, b) = common([d, od])
            if op == "rdiv":
                if np.abs(d.arr).min(initial=1) < 1e-3:
                    continue
                t = ctx.call("%s / tensor" % s["kind"],
                             lambda: spelled("div", s.get("by"), o, t))
                d = Dense(b / a, *L)
            elif op in ("maximum", "minimum"):
                args = (o, t) if s.get("swap") else (t, o)
                t = ctx.call("%s of tensor and %s" % (op, s["kind"]),
                             getattr(np, op), *args)
                d = Dense(getattr(np, op)(a, b), *L)
            else:
                t = ctx.call("tensor / %s" % s["kind"],
                             lambda: spelled("div", s.get("by"), t, o))
                d = Dense(a / b, *L)
        nops += 1
        ctx.label(op)
        compare(ctx, "step %d (%s)" % (nops, op), t, d)
        kept.append((t, d))
    for x, dx in kept:
        compare(ctx, "operand after the operations", x, dx)
    ctx.nontrivial = nops > 1


NUMPY = {"add": np.add, "sub": np.subtract, "mul": np.multiply,
         "div": np.divide}


def spelled(op, by, x, y):
    if by == "numpy":
        if isinstance(x, float):
            x = np.float64(x)
        return NUMPY[op](x, y)
    if by == "inplace" and not isinstance(x, np.ndarray):
        z = x
        if op == "add":
            z += y
        elif op == "sub":
            z -= y
        elif op == "mul":
            z *= y
        else:
            z /= y
        return z
    return (x + y if op == "add" else x - y if op == "sub" else
            x * y if op == "mul" else x / y)


def check_arith(spec, ctx):
    from maxlike import Tensor
    t = ctx.call("Tensor", lib_tensor, spec["first"])
    d = dense(spec["first"])
    compare(ctx, "dense form of a tensor", t, d)
    kept = [(t, d)]
    nops, generic = 0, False
    for step in spec["prog"]:
        op = step["op"]
        if op == "neg":
            t = ctx.call("-t", lambda: -t)
            d = Dense(-d.arr, *d.lay)
        elif op == "pow":
            if type(t).__name__ != "Tensor" or np.abs(d.arr).max(
                    initial=0) > 1e3:
                continue        # not of sums of structures
            t = ctx.call("t ** k", lambda: t ** step["k"])
            d = Dense(d.arr ** step["k"], *d.lay)
        else:
            kind = step["kind"]
            if kind == "num":
                o, od = NUMBERS[step.get("as", "")](step["v"]), Dense(
                    np.array(float(step["v"])), 0, 0, 0, 0)
            elif kind == "scalar":
                o = ctx.call("Tensor(scalar)", Tensor, step["v"])
                od = Dense(np.array(step["v"]), 0, 0, 0, 0)
            elif kind == "sum":
                ls = step["leaves"]
                ts = [ctx.call("Tensor", lib_tensor, l) for l in ls]
                o = ts[0]
                for x in ts[1:]:
                    o = ctx.call("a + b", lambda: o + x)
                L, ds = common([dense(l) for l in ls])
                od = Dense(sum(x.arr if hasattr(x, "arr") else x
                               for x in ds), *L)
                kept += [(x, dense(l)) for x, l in zip(ts, ls)]
            else:
                l = step["leaf"]
                od = dense(l)
                o = ctx.call("Tensor", lib_tensor, l)
                if kind == "arr":
                    o = od.arr.copy()
            L, (a, b) = common([d, od])
            if kind == "arr" and o.ndim == 0:
                o = float(o)
            if op == "add":
                args, r = (t, o), a + b
            elif op == "sub":
                args, r = (t, o), a - b
            elif op == "mul":
                args, r = (t, o), a * b
            elif op == "div":
                if type(o).__name__ != "Tensor" and kind == "sum":
                    continue
                args, r = (t, o), a / b
            elif op == "radd":
                args, r = (o, t), a + b
            elif op == "rsub":
                args, r = (o, t), b - a
            elif op == "rmul":
                args, r = (o, t), a * b
            fn = lambda: spelled(op[-3:], step.get("by"), *args)
            nt = ctx.call(op + " " + kind, fn)
            kept.append((t, d))
            if kind not in ("num", "arr"):
                kept.append((o, od))
            t, d = nt, Dense(r, *L)
        nops += 1
        compare(ctx, "step %d (%s)" % (nops, op), t, d)
        if type(t).__name__ != "Tensor":
            generic = True
    # operands are as they were
    for x, dx in kept:
        compare(ctx, "operand after the operations", x, dx)
    mapped = any(l.get("xm") or l.get("ym") for l in
                 [spec["first"]] + [s["leaf"] for s in spec["prog"]
                                    if "leaf" in s] +
                 [l for s in spec["prog"] for l in s.get("leaves", [])])
    ctx.nontrivial = nops > 0 and mapped
    ctx.label("ops:%d" % nops)
    if mapped:
        ctx.label("mapped")
    if generic:
        ctx.label("sum of structures")


def factor(draw, leaf, u):
    """sometimes the leaf is multiplied by another one"""
    if draw(st.integers(0, 3)) == 0:
        leaf["by"] = a_leaf(draw, u, has={s: bool(leaf[s]) and draw(
            st.booleans()) for s in "xynd"}, pos=True)
    return leaf


def factors(leaves):
    return leaves + [l["by"] for l in leaves if l.get("by")]


def term(ctx, leaf):
    """a leaf, or the product of two"""
    t, d = ctx.call("Tensor", lib_tensor, leaf), dense(leaf)
    if leaf.get("by"):
        t2 = ctx.call("Tensor", lib_tensor, leaf["by"])
        t = ctx.call("a * b", lambda: t * t2)
        L, (a, b) = common([d, dense(leaf["by"])])
        d = Dense(a * b, *L)
        ctx.label("product")
    return t, d


def total(ctx, leaves):
    t, d = term(ctx, leaves[0])
    ds = [d]
    for l in leaves[1:]:
        t2, d = term(ctx, l)
        ds.append(d)
        t = ctx.call("a + b", lambda: t + t2)
    L, arrs = common(ds)
    S = np.broadcast_shapes(*[a.shape for a in arrs])
    return t, Dense(sum(np.broadcast_to(a, S) for a in arrs), *L)


# -- C06 ------------------------------------------------------------------------
@st.composite
def reduce_case(draw):
    u = draw(universe())
    has = {s: True for s in "xynd"}
    k = draw(st.sampled_from([1, 1, 2, 3]))
    if k > 1 and draw(st.integers(0, 2)) == 0:
        has = None
    leaves = [factor(draw, a_leaf(draw, u, has=has, partial=draw(
        st.integers(0, 3)) == 0), u) for _ in range(k)]
    nn = max(len(l["n"]) for l in leaves)
    nd = max(len(l["d"]) for l in leaves)
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        op = draw(st.sampled_from(["sum", "sum", "sum", "expand", "flip",
                                   "transpose", "drop_dim"]))
        if op == "sum":
            c = draw(st.sampled_from(["all", "none", "part", "part"]))
            sd = draw(st.booleans())
            if c == "all" or nn == 0:
                sv = True if nn or draw(st.booleans()) else False
            elif c == "none":
                sv = False
            else:
                m = draw(st.integers(1, nn))
                sv = list(draw(st.permutations(range(nn))))[:m]
                if m == 1 and draw(st.booleans()):
                    sv = sv[0]
            ops.append({"op": op, "sv": sv, "sd": sd})
            if sv is True:
                nn = 0
            elif sv is not False:
                nn -= len(sv) if isinstance(sv, list) else 1
            if sd:
                nd = 0
        elif op == "expand":
            on_d = draw(st.booleans())
            cur = nd if on_d else nn
            new = cur + draw(st.integers(0, 2))
            where = list(draw(st.permutations(range(new))))[:cur]
            ops.append({"op": op, "where": where, "new": new, "dim": on_d})
            if on_d:
                nd = new
            else:
                nn = new
        elif op == "flip":
            on_d = draw(st.booleans())
            cur = nd if on_d else nn
            if cur == 0:
                continue
            w = list(draw(st.permutations(range(cur))))[
                :draw(st.integers(1, cur))]
            if len(w) == 1 and draw(st.booleans()):
                w = w[0]
            ops.append({"op": op, "where": w, "dim": on_d})
        elif op == "drop_dim":
            ops.append({"op": op})
            nn, nd = nn + nd, 0
        else:
            ops.append({"op": op})
    return {"leaves": leaves, "ops": ops}


def check_reduce(spec, ctx):
    leaves, ops = spec["leaves"], spec["ops"]
    t, d = total(ctx, leaves)
    leaves = factors(leaves)
    mapped = any(l["xm"] or l["ym"] for l in leaves)
    # axes a flip isn't supported on (documented: NotImplementedError)
    locked = set()
    for l in leaves:
        for s in "xy":
            locked |= {f for f in l[s + "m"] or [] if f >= 0}
    done = 0
    for o in ops:
        nx, ny, nn, nd = d.lay
        p = nx + ny
        op = o["op"]
        if op == "sum":
            sv = o["sv"]
            if type(t).__name__ == "Tensor" and sv is False and \
                    o["sd"] is False:
                pass
            fa = list(range(nn)) if sv is True else [] if sv is False \
                else [sv] if isinstance(sv, int) else list(sv)
            axes = tuple([p + i for i in fa] +
                         (list(range(p + nn, p + nn + nd)) if o["sd"]
                          else []))
            t = ctx.call("sum(%r, %r)" % (sv, o["sd"]),
                         lambda: t.sum(sv, o["sd"]))
            d = Dense(d.arr.sum(axes), nx, ny, nn - len(fa),
                      0 if o["sd"] else nd)
            left = [i for i in range(nn) if i not in fa]
            locked = {left.index(i) for i in locked if i in left}
        elif op == "expand":
            w, new, on_d = o["where"], o["new"], o["dim"]
            base = p + nn if on_d else p
            cur = nd if on_d else nn
            order = list(range(base)) + \
                [base + i for i in np.argsort(w, kind="stable")] + \
                list(range(base + cur, d.arr.ndim))
            a = d.arr.transpose([int(i) for i in order])
            idx = [slice(None)] * base + \
                [slice(None) if i in w else None for i in range(new)] + \
                [slice(None)] * (d.arr.ndim - base - cur)
            t = ctx.call("expand(%r, %d, dim=%r)" % (w, new, on_d),
                         lambda: t.expand(list(w), new, on_d))
            d = Dense(a[tuple(idx)], nx, ny, nn if on_d else new,
                      new if on_d else nd)
            if not on_d:
                locked = {w[i] for i in locked}
        elif op == "flip":
            w = o["where"]
            ws = [w] if isinstance(w, int) else list(w)
            if not o["dim"] and set(ws) & locked:
                ctx.label("flip of a mapped axis (unsupported)")
                continue
            base = p + nn if o["dim"] else p
            t = ctx.call("flip(%r, dim=%r)" % (w, o["dim"]),
                         lambda: t.flip(w, o["dim"]))
            d = Dense(np.flip(d.arr, [base + i for i in ws]), *d.lay)
        elif op == "transpose":
            t = ctx.call("transpose()", lambda: t.transpose())
            order = list(range(nx, nx + ny)) + list(range(nx)) + \
                list(range(p, d.arr.ndim))
            d = Dense(d.arr.transpose(order), ny, nx, nn, nd)
        elif op == "drop_dim":
            t = ctx.call("drop_dim()", lambda: t.drop_dim())
            d = Dense(d.arr, nx, ny, nn + nd, 0)
        done += 1
        ctx.label("op:" + op)
        compare(ctx, "after %s (step %d)" % (op, done), t, d)
    ctx.nontrivial = done > 0 and (mapped or len(leaves) > 1)
    if mapped:
        ctx.label("mapped")
    if len(leaves) > 1:
        ctx.label("sum of %d terms" % len(leaves))


# -- C07 ------------------------------------------------------------------------
@st.composite
def dot_case(draw):
    """f: derivative of an outer function (inner axes, optional second inner
    axes, features, outcomes); g: derivative of the inner function"""
    base = draw(st.lists(st.sampled_from([2, 3, 2, 3, 1]), min_size=1,
                         max_size=2))
    ax = lambda lo, hi: [draw(st.sampled_from(base))
                         for _ in range(draw(st.integers(lo, hi)))]
    big = draw(st.integers(0, 3)) == 0
    if big:
        base = [min(k, 2) for k in base]
    inner = ax(3, 3) if big else ax(1, 2)
    feats = draw(st.sampled_from(["same", "any"]))
    n = list(inner) if feats == "same" else ax(0, 2)
    side = draw(st.sampled_from(["left", "right", "left", "hess", "dot",
                                 "dotr", "dotv"]))
    fy = list(inner) if side == "hess" else []
    uf = {"x": inner, "y": fy, "n": n, "d": ax(0, 2)}
    full = {s: True for s in "xynd"}
    nf = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    fs = [factor(draw, a_leaf(draw, uf, has=full, bcast=False), uf)
          for _ in range(nf)]
    gx = ax(0, 2 + big) if side in ("left", "right") else ax(1, 2 + big)
    if side == "dotv":
        gx = []
    gy = []
    if side in ("right", "dotr"):
        gy = ax(1, 2)
        gx = gx or ax(1, 1)
    # outcome axes: those of f, or of g, or of both
    gd = []
    if draw(st.integers(0, 3)) == 0:
        gd = uf["d"] or ax(1, 2)
    ug = {"x": gx, "y": gy, "n": inner, "d": gd}
    ng = draw(st.sampled_from([1, 1, 1, 2, 2, 3])) if side in ("left", "right") else 1
    gs = [factor(draw, a_leaf(draw, ug, has=full,
                              partial=draw(st.integers(0, 3)) == 0,
                              bcast=draw(st.booleans())), ug)
          for _ in range(ng)]
    gx2 = ax(0, 2)
    g2 = a_leaf(draw, {"x": gx2, "y": [], "n": inner, "d": []}, has=full) \
        if side == "hess" else None
    null = draw(st.sampled_from([None] * 8 + ["f", "g"]))
    return {"side": side, "f": fs, "g": gs, "g2": g2, "null": null,
            "turn": side in ("dot", "dotr", "dotv") and
            draw(st.integers(0, 3)) == 0}


def contract(g, f):
    """sum over the inner axes: g (x, y, N), f (N, z, n, d)
    -> Dense(x, y + z, n, d) ; only one of y, z non-empty"""
    k = f.nx
    gx, gy = g.nx, g.ny
    assert g.nn == k
    p = gx + gy + k
    nd = max(f.nd, g.nd)
    ga = g.arr.reshape(g.arr.shape[:p] + (1,) * (f.ny + f.nn) +
                       (g.arr.shape[p:] or (1,) * nd))
    fa = f.arr.reshape((1,) * (gx + gy) + f.arr.shape +
                       (1,) * (nd - f.nd))
    r = (ga * fa)
    # the inner axes have their full size in f or g
    r = r.sum(tuple(range(gx + gy, gx + gy + k)))
    return Dense(r, gx, gy + f.ny, f.nn, nd)


def check_dot(spec, ctx):
    from maxlike import Tensor
    side = spec["side"]
    f, df = total(ctx, spec["f"])
    g, dg = total(ctx, spec["g"])
    if spec["null"] == "f":
        f = ctx.call("Tensor(0)", Tensor, 0)
        df = Dense(df.arr * 0, *df.lay)
    if spec["null"] == "g":
        g = ctx.call("Tensor(0)", Tensor, 0)
        dg = Dense(dg.arr * 0, *dg.lay)
    if side == "left":
        t = ctx.call("f.dot_left(g)", lambda: f.dot_left(g))
        want = contract(dg, df)
    elif side == "right":
        t = ctx.call("f.dot_right(g)", lambda: f.dot_right(g))
        want = contract(dg, df)
    elif side in ("dot", "dotr", "dotv"):
        if spec.get("turn"):            # inner axes in the second space
            f = ctx.call("f.transpose()", f.transpose)
            ctx.label("turned")
        t = ctx.call("f.dot(g)", lambda: f.dot(g))
        want = contract(dg, df)
    else:
        # the chain rule's use: both inner axes of a Hessian
        g2, dg2 = total(ctx, [spec["g2"]])
        t = ctx.call("double contraction", lambda: f.dot_left(g).transpose().
                     dot_left(g2).transpose())
        h = contract(dg, df)                   # x, (y inner), n, d
        ht = Dense(np.moveaxis(
            h.arr.transpose(list(range(h.nx, h.nx + h.ny)) +
                            list(range(h.nx)) +
                            list(range(h.nx + h.ny, h.arr.ndim))), 0, 0),
            h.ny, h.nx, h.nn, h.nd)
        w = contract(dg2, ht)                  # x2, x, n, d
        want = Dense(w.arr.transpose(
            list(range(w.nx, w.nx + w.ny)) + list(range(w.nx)) +
            list(range(w.nx + w.ny, w.arr.ndim))), w.ny, w.nx, w.nn, w.nd)
    compare(ctx, "contraction (%s)" % side, t, want)
    if spec["null"]:
        with ctx.lib("null contraction"):
            z = np.asarray(t.toarray())
        ctx.require(not z.any(), "contraction with a null tensor isn't null")
        ctx.label("null")
    ctx.label(side)
    mapped = [any(l["xm"] or l["ym"] for l in ls)
              for ls in (factors(spec["f"]), factors(spec["g"]))]
    ctx.label("mapped f:%d g:%d" % tuple(mapped))
    ctx.nontrivial = any(mapped) and not spec["null"]


RULE = ("random layouts (0-3 axes per space, features to 4, sizes 1-4), diagonal maps, "
        "broadcast axes and values; oracle: the same operation on dense numpy "
        "arrays; non-trivial = %s")
PROPS = {
    "C05": Prop("C05", [Target("arith", lambda tier: arith_case(),
                               check_arith, 32000),
                        Target("functions", lambda tier: function_case(),
                               check_function, 6400)],
                RULE % "at least one operation and one mapped operand "
                "(functions: two or more steps)",
                ["divisors carry no diagonal mapping (the dense form would "
                 "divide by zero)"]),
    "C06": Prop("C06", [Target("reduce", lambda tier: reduce_case(),
                               check_reduce, 32000)],
                RULE % "at least one operation on a mapped tensor or a sum",
                ["flips of mapped axes are documented as not implemented"]),
    "C07": Prop("C07", [Target("dot", lambda tier: dot_case(),
                               check_dot, 32000)],
                RULE % "a mapped, non-null operand"),
}
