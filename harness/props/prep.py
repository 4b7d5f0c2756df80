"""
C16-C18: preparation of labelled data against a plain loop over the rows.
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Target

# -- labels -----------------------------------------------------------------
LABELS = {
    "int": list(range(-3, 9)) + [10, 100, 1000, -50],
    "str": ["a", "b", "B", "aa", "Z", "10", "9", "", "e f", "é", "_", "c"],
    "float": [0.5, -1.25, 3.0, 1e10, -0.1, 2.5, 7.125, 1e-3],
    "date": ["2020-01-01", "2019-12-31", "2020-02-29", "2021-06-15",
             "1999-03-04", "2020-01-02"],
    "cat": ["lo", "mid", "hi", "x", "y"],
}


def decode(kind, labels):
    if kind == "date":
        return [pd.Timestamp(x) for x in labels]
    return list(labels)


# statistics: name -> (transformation given to the library, oracle)
def zeros(x):
    return (x == 0).sum()


def span(x):
    return x.max() - x.min()


STATS = {
    "size": (np.size, lambda v: len(v)),
    "sum": (np.sum, lambda v: sum(v)),
    "zeros": (zeros, lambda v: sum(1 for x in v if x == 0)),
    "span": (span, lambda v: max(v) - min(v)),
    "sum_str": ("sum", lambda v: sum(v)),
    "count_str": ("count", lambda v: len(v)),
    "mean": (np.mean, lambda v: sum(v) / len(v)),
    "max": (np.max, lambda v: max(v)),
    "min": ("min", lambda v: min(v)),
    "sumsq": (lambda x: (x * x).sum(), lambda v: sum(x * x for x in v)),
    "first": ("first", lambda v: v[0]),
}
NAMES = ["N", "X", "Z", "Y", "W2", "total"]


@st.composite
def table(draw, levels, weighted=False):
    nl = draw(st.sampled_from(levels))
    kinds, labels, extra = [], [], []
    big = nl < 3 and draw(st.integers(0, 5)) == 0
    for _ in range(nl):
        k = draw(st.sampled_from(sorted(LABELS)))
        pool = draw(st.permutations(LABELS[k]))
        n = len(pool) - draw(st.integers(0, 2)) if big else \
            draw(st.integers(1, 4))
        kinds.append(k)
        labels.append(list(pool[:n]))
        e = draw(st.integers(-2, 3))
        extra.append(None if e < 0 else list(
            draw(st.permutations(pool[max(n - 1, 0):n + e]))))
    val = draw(st.sampled_from(["int", "float", "count"]))
    value = {"int": st.integers(-5, 9), "count": st.integers(0, 4),
             "float": st.integers(-40, 80).map(lambda k: k / 8.0)}[val]
    weight = st.one_of(st.integers(0, 4),
                       st.integers(0, 32).map(lambda k: k / 8.0))
    if draw(st.integers(0, 5)) == 0:            # corrections
        weight = st.one_of(weight, st.integers(-3, -1))
    elif draw(st.integers(0, 5)) == 0:          # orders of magnitude
        weight = st.one_of(weight, st.integers(5, 300),
                           st.sampled_from([10000, 2**20, 1 / 1024.0]))
    rows = draw(st.lists(st.tuples(
        st.tuples(*[st.integers(0, len(x) - 1) for x in labels]).map(list),
        value, weight if weighted else st.just(1)).map(list),
        min_size=30 if big else draw(st.sampled_from([1, 4, 8])),
        max_size=60 if big else 16))
    names = list(draw(st.permutations(NAMES)))
    if weighted:
        names.remove("N")
    k = draw(st.integers(1, 3))
    stats = sorted(STATS)
    if not weighted and draw(st.integers(0, 11)) == 0:
        # missing values count as observations (and only that is judged)
        for i in draw(st.lists(st.integers(0, len(rows) - 1), min_size=1,
                               max_size=4)):
            rows[i] = [rows[i][0], None, 1]
        stats = ["size"]
    return {"kinds": kinds, "labels": labels, "rows": rows,
            "extra": extra if draw(st.booleans()) else None,
            "stats": [[names[i], draw(st.sampled_from(stats))]
                      for i in range(k)],
            "names": draw(st.booleans()),
            "default": draw(st.integers(0, 9)) == 0 and len(stats) > 1,
            "perm": draw(st.permutations(range(len(rows)))),
            # rows removed after the index is built leave labels declared but
            # not used
            "drop": draw(st.lists(st.integers(0, 99), max_size=2)),
            "build": draw(st.sampled_from(["tuples", "arrays", "levels"]))}


def make_index(spec, keys, order):
    nl = len(spec["kinds"])
    names = ["lev%d" % k if spec["names"] or spec["extra"] else None
             for k in range(nl)]
    if nl == 1 and spec.get("single") != "multi":
        labs = decode(spec["kinds"][0], spec["labels"][0])
        return pd.Index([labs[k[0]] for k in keys], name=names[0])
    labs = [decode(k, l) for k, l in zip(spec["kinds"], spec["labels"])]
    if spec["build"] == "tuples":
        return pd.MultiIndex.from_tuples(
            [tuple(l[i] for l, i in zip(labs, k)) for k in keys], names=names)
    if spec["build"] == "arrays":
        return pd.MultiIndex.from_arrays(
            [[labs[a][k[a]] for k in keys] for a in range(nl)], names=names)
    # unsorted levels, all labels declared
    return pd.MultiIndex(levels=labs, codes=[[k[a] for k in keys]
                                             for a in range(nl)],
                         names=names)


def make_rows(spec):
    rows = list(spec["rows"])
    drop = {d % len(rows) for d in spec["drop"]}
    keep = [i for i in range(len(rows)) if i not in drop]
    if not keep:
        keep = list(range(len(rows)))
    return rows, keep


def cells(spec, rows):
    """{label tuple: list of rows} by a plain loop"""
    labs = [decode(k, l) for k, l in zip(spec["kinds"], spec["labels"])]
    out = {}
    for r in rows:
        key = tuple(l[i] for l, i in zip(labs, r[0]))
        out.setdefault(key, []).append(r)
    return out


def extra_labels(spec, k):
    if not spec["extra"] or spec["extra"][k] is None:
        return []
    return decode(spec["kinds"][k], spec["extra"][k])


def check_axes(ctx, spec, axes, used, declared):
    """sorted, without repetition, with exactly the labels wanted"""
    for k, ax in enumerate(axes):
        ax = list(ax)
        ctx.require(all(a < b for a, b in zip(ax, ax[1:])),
                    "axis %d is not sorted without repetitions: %r", k, ax)
        want = set(used[k]) | set(extra_labels(spec, k))
        ctx.require(want <= set(ax), "axis %d lacks the labels %r", k,
                    sorted(want - set(ax)))
        spare = set(ax) - want - set(declared[k])
        ctx.require(not spare, "axis %d has unknown labels %r", k,
                    sorted(spare))


def compare(ctx, what, arr, axes, cell, oracle):
    with ctx.lib(what):
        arr = np.asarray(arr)
        got = arr.astype(float)
    shape = tuple(len(a) for a in axes)
    ctx.require(got.shape == shape, "%s: shape %s instead of %s", what,
                got.shape, shape)
    want = np.zeros(shape)
    for pos in np.ndindex(*shape):
        rows = cell.get(tuple(list(axes[k])[i] for k, i in enumerate(pos)))
        if rows:
            want[pos] = oracle(rows)
    ctx.close(what, got, want, 1e-9)


# -- C16 --------------------------------------------------------------------
def c16_check(spec, ctx):
    from maxlike.preprocessing import prepare_series
    rows, keep = make_rows(spec)
    idx = make_index(spec, [r[0] for r in rows], None)
    s = pd.Series([np.nan if r[1] is None else r[1] for r in rows],
                  index=idx, name="obs")
    s = s.iloc[keep]
    rows = [rows[i] for i in keep]
    multi = isinstance(idx, pd.MultiIndex)
    cell = cells(spec, rows)
    used = [{k[a] for k in cell} for a in range(len(spec["kinds"]))]
    declared = [decode(k, l) if multi else [] for k, l in
                zip(spec["kinds"], spec["labels"])]
    stats = [["N", "sum"]] if spec["default"] else spec["stats"]
    tr = {n: STATS[k][0] for n, k in stats}
    add = None
    if spec["extra"]:
        if multi:
            add = {"lev%d" % k: extra_labels(spec, k)
                   for k in range(len(used)) if spec["extra"][k] is not None}
        else:
            add = extra_labels(spec, 0)
    before = s.copy()

    def run(s):
        with ctx.lib("prepare_series"):
            args = [s] if spec["default"] else [s, tr]
            return prepare_series(*args, **({} if add is None
                                            else {"add_axis": add}))
    res, axis = run(s)
    ctx.require(s.equals(before) and s.index.equals(before.index),
                "prepare_series changed the observations")
    axes = list(axis) if multi else [axis]
    with ctx.lib("axes"):
        check_axes(ctx, spec, axes, used, declared)
    ctx.require(set(res) == {n for n, _ in stats},
                "results %r instead of %r", sorted(res),
                sorted(n for n, _ in stats))
    for n, k in stats:
        compare(ctx, "%s (%s)" % (n, k), res[n], axes, cell,
                lambda rs: STATS[k][1]([r[1] for r in rs]))
    # the order of the rows does not matter
    perm = [p for p in spec["perm"] if p < len(rows)]
    res2, axis2 = run(s.iloc[perm])
    axes2 = list(axis2) if multi else [axis2]
    ctx.require([list(a) for a in axes2] == [list(a) for a in axes],
                "axes depend on the order of the rows")
    for n, k in stats:
        if k != "first":
            ctx.close("%s (%s) of permuted rows" % (n, k), res2[n],
                      np.asarray(res[n], dtype=float), 1e-9)
    ctx.label("levels %d" % len(used), *["label " + k for k in spec["kinds"]])
    if spec["extra"]:
        ctx.label("extra labels")
    if any(r[1] is None for r in rows):
        ctx.label("missing values")
    if any(len(r) > 1 for r in cell.values()):
        ctx.label("duplicates")
    ctx.nontrivial = len(cell) > 1 and any(len(r) > 1 for r in cell.values())


# -- C17 --------------------------------------------------------------------
def c17_check(spec, ctx):
    from maxlike.preprocessing import prepare_dataframe
    rows, keep = make_rows(spec)
    idx = make_index(dict(spec, single="multi"), [r[0] for r in rows], None)
    df = pd.DataFrame({"w": [r[2] for r in rows], "junk": 7,
                       "res": [r[1] for r in rows]}, index=idx)
    df = df.iloc[keep]
    rows = [rows[i] for i in keep]
    cell = cells(spec, rows)
    used = [{k[a] for k in cell} for a in range(len(spec["kinds"]))]
    declared = [decode(k, l) for k, l in zip(spec["kinds"], spec["labels"])]
    stats = spec["stats"]
    tr = {n: STATS[k][0] for n, k in stats}
    add = None
    if spec["extra"]:
        add = {"lev%d" % k: extra_labels(spec, k)
               for k in range(len(used)) if spec["extra"][k] is not None}
    before = df.copy()

    def run(df):
        with ctx.lib("prepare_dataframe"):
            return prepare_dataframe(df, "w", "res", tr,
                                     **({} if add is None
                                        else {"add_axis": add}))
    res, axis = run(df)
    ctx.require(df.equals(before) and df.index.equals(before.index),
                "prepare_dataframe changed the table")
    axes = list(axis)
    with ctx.lib("axes"):
        check_axes(ctx, spec, axes, used, declared)
    ctx.require(set(res) == {n for n, _ in stats} | {"N"},
                "results %r", sorted(res))
    compare(ctx, "N", res["N"], axes, cell,
            lambda rs: sum(r[2] for r in rs))
    for n, k in stats:
        compare(ctx, "%s (%s)" % (n, k), res[n], axes, cell,
                lambda rs: STATS[k][1]([r[1] * r[2] for r in rs]))
    perm = [p for p in spec["perm"] if p < len(rows)]
    res2, axis2 = run(df.iloc[perm])
    ctx.require([list(a) for a in axis2] == [list(a) for a in axes],
                "axes depend on the order of the rows")
    for n, k in stats + [["N", "sum"]]:
        if k != "first":
            ctx.close("%s (%s) of permuted rows" % (n, k), res2[n],
                      np.asarray(res[n], dtype=float), 1e-9)
    ctx.label("levels %d" % len(used), *["label " + k for k in spec["kinds"]])
    if spec["extra"]:
        ctx.label("extra labels")
    ctx.nontrivial = len(cell) > 1 and any(len(r) > 1 for r in cell.values())


# -- C18 --------------------------------------------------------------------
@st.composite
def counts(draw, tier):
    kind = draw(st.sampled_from(sorted(LABELS)))
    nl = draw(st.integers(1, 2))
    n = draw(st.integers(0, 12))
    size = draw(st.one_of(st.integers(2, 8), st.integers(2, 8),
                          st.integers(2, 40), st.sampled_from([100, 129, 260])))
    n = draw(st.sampled_from([n, n, n, 40]))
    hi = draw(st.sampled_from([size - 2, size - 1, size, size + 4,
                               max(size, 120)]))
    dtype = draw(st.sampled_from(["int64", "int8", "float64", "uint16",
                                  "int32", "uint8", "float32"]))
    top = {"int8": 127, "uint8": 255, "uint16": 65535, "int32": 2**31 - 1,
           "int64": 2**63 - 1, "float64": 2**53, "float32": 2**24}[dtype]
    value = st.integers(0, min(hi, top))
    if draw(st.integers(0, 3)) == 0:
        # remainders of powers of two land in small buckets
        value = st.one_of(value, st.builds(
            lambda k, j: min(top, 2**k + j),
            st.sampled_from([7, 8, 15, 16, 31, 32, 40]),
            st.integers(-1, size)))
    return {"kind": kind, "nl": nl, "size": size,
            "values": draw(st.lists(value, min_size=n, max_size=n)),
            "labels": draw(st.lists(st.integers(0, 99), min_size=n,
                                    max_size=n)),
            "name": draw(st.sampled_from([None, "count", "goals", "k"])),
            "own": draw(st.sampled_from([None, None, "x", 0])),
            "dtype": dtype,
            "strict": False}


def overflow_column(ctx, size):
    """the bucket of overflows (a fixed probe): known finding, see DESIGN"""
    from maxlike.preprocessing import df_count
    with ctx.lib("df_count"):
        x = df_count(pd.Series([size + 10]), size).values.astype(int)
    ctx.require(x.shape == (1, size) and x.sum() == 1,
                "an overflow does not mark one of %d buckets", size)
    k = int(x.argmax())
    ctx.require(k in (size - 2, size - 1), "overflow marks bucket %d of %d",
                k, size)
    return k


def c18_check(spec, ctx):
    from maxlike.preprocessing import df_count
    size, values = spec["size"], spec["values"]
    pool = decode(spec["kind"], LABELS[spec["kind"]])
    labs = [pool[i % len(pool)] for i in spec["labels"]]
    if spec["nl"] == 1:
        idx = pd.Index(labs, name="f")
    elif labs:
        idx = pd.MultiIndex.from_arrays([labs, range(len(labs))])
    else:
        idx = pd.MultiIndex.from_tuples([], names=["a", "b"])
    s = pd.Series(np.array(values, dtype=spec["dtype"]), index=idx,
                  name=spec.get("own"))
    before = s.copy()
    with ctx.lib("df_count"):
        r = df_count(s, size, spec["name"]) if spec["name"] else \
            df_count(s, size)
    ctx.require(s.equals(before), "df_count changed the series")
    with ctx.lib("df_count result"):
        ctx.require(r.index.equals(idx), "row labels changed")
        ctx.require(list(r.columns) == list(range(size)),
                    "buckets %r", list(r.columns))
        ctx.require(r.columns.name == (spec["name"] or "count"),
                    "name of the buckets is %r", r.columns.name)
        got = r.values.astype(int)
    over = size - 1 if spec["strict"] else overflow_column(ctx, size)
    last = 2 * size - 3 - over          # the other one of the last two
    want = np.zeros((len(values), size), dtype=int)
    for i, v in enumerate(values):
        want[i, v if v < size - 2 else last if v == size - 2 else over] = 1
    ctx.require(got.shape == want.shape, "shape %s", got.shape)
    bad = np.argwhere(got != want)
    if len(bad):
        i = int(bad[0][0])
        ctx.fail("value %d with %d buckets: marks %s instead of %s"
                 % (values[i], size, got[i].tolist(), want[i].tolist()))
    ctx.require((r.sum().values == want.sum(0)).all(), "column totals")
    ctx.label("size %d" % size, "label " + spec["kind"])
    b = {min(v, size - 1) for v in values}
    if size - 1 in b:
        ctx.label("overflow")
    ctx.nontrivial = len(b) > 1


ASSUME = ["labels of one level are of one type; no missing labels or values"]
PROPS = {
    "C16": Prop("C16", [Target("series", lambda tier: table([1, 1, 2, 2, 3]),
                               c16_check, 9600)],
                "several cells, one of them with several observations",
                ASSUME + ["labels declared by the index without being used "
                          "may or may not be listed"]),
    "C17": Prop("C17", [Target("table",
                               lambda tier: table([2, 2, 3, 1],
                                                  weighted=True),
                               c17_check, 8000)],
                "several cells, one of them with several rows",
                ASSUME + ["the statistic named N is the total weight"]),
    "C18": Prop("C18", [Target("buckets", counts, c18_check, 16000)],
                "observations in several buckets",
                ["which of the last two buckets collects the overflow is "
                 "taken from a probe: that it is the wrong one is a known "
                 "finding"]),
}
