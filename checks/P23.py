"""However a query is executed, every expression of the package gives the same values."""
from checks import catalog as K
from checks.common import *

by_kind = lambda *kinds: [k for k in K.NAMES if K.C[k][0] in kinds]
name_st = st.sampled_from(K.NAMES)


def value(df, e):
    return df.select(e.alias("o"))["o"]


def attempt(f):
    try:
        return f()
    except (Violation, Skip, KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        return type(e)


def split(df, r, cuts):
    """The same frame with another chunk layout for every column; columns may also be slices of longer ones."""
    out = []
    for s in df.get_columns():
        how = int(r.integers(0, 4))
        if how == 0 or not df.height:
            out.append(s)
        elif how == 1:
            pad = s.gather([int(v) for v in r.integers(0, len(s), int(r.integers(1, 9)))])
            x = pl.concat([pad, s, pad], rechunk=bool(r.integers(0, 2)))
            out.append(x.slice(len(pad), len(s)))
        else:
            at = sorted({0, len(s)} | {int(v) for v in r.integers(0, len(s) + 1, int(r.integers(1, 5)))})
            out.append(pl.concat([s.slice(a, b - a) for a, b in zip(at, at[1:])], rechunk=False) if len(at) > 2 else s)
    return pl.DataFrame(out)


def junk(s, r):
    """The same numeric column, but with arbitrary values stored under its nulls."""
    if not s.null_count() or not s.dtype.is_numeric():
        return s
    m = s.is_null()
    fill = pl.Series(r.integers(1, 100, len(s))).cast(s.dtype)
    zero = pl.DataFrame({"m": m}).select(pl.when("m").then(None).otherwise(pl.lit(0, dtype=s.dtype)).alias("z"))["z"]
    return (s.zip_with(~m, fill) + zero).alias(s.name)


@law(st.fixed_dictionaries(dict(name=name_st, n=sized((40, 90), (40, 90), (40, 90), (300, 3000)), vs=seeds, how=st.sampled_from(["chunks", "slice", "lazy", "streaming", "parallel", "together", "collect_all", "no_opt", "sorted", "junk"]))), n=2600, rule="by expression")
def layouts_and_engines(c):
    n = c["name"]
    df = K.frame(c["n"], c["vs"])
    r = rng(c["vs"] + 1)
    e = K.make(n).alias("o")
    want = value(df, e)
    h = c["how"]
    lz = df.lazy().select(e)
    if h == "chunks":
        got = value(split(df, r, 0), e)
    elif h == "slice":
        big = pl.concat([K.frame(7, c["vs"] + 2), df, K.frame(5, c["vs"] + 3)], rechunk=True)
        got = value(big.slice(7, df.height), e)
        K.agree(big.lazy().slice(7, df.height).select(e).collect()["o"], want, f"{n}: lazy slice", name=n)
    elif h == "lazy":
        got = lz.collect()["o"]
        check_eq(lz.collect_schema()["o"], want.dtype, f"{n}: declared type")
        check_eq(df.lazy().with_columns(o2=pl.lit(1)).select(e, "o2").collect_schema()["o"], want.dtype, f"{n}: declared type")
    elif h == "streaming":
        got = lz.collect(engine="streaming")["o"]
    elif h == "parallel":
        if not K.C[n][2]:
            raise Skip
        got = value(split(df, r, 0), K.make(n, True))
    elif h == "sorted":  # columns that Polars knows to be sorted
        by = df.columns[int(r.integers(0, df.width))]
        if isinstance(df[by].dtype, (pl.List, pl.Array, pl.Struct)):
            raise Skip
        df = df.sort(by, descending=bool(r.integers(0, 2)), nulls_last=bool(r.integers(0, 2)))
        want = value(pl.DataFrame([pl.Series(x.name, x.to_list(), dtype=x.dtype) for x in df.get_columns()]), e)
        got = value(df, e)
    elif h == "junk":
        got = value(pl.DataFrame([junk(x, r) for x in df.get_columns()]), e)
    elif h == "together":
        others = [K.make(k).alias(f"x{j}") for j, k in enumerate(K.NAMES[int(v)] for v in r.integers(0, len(K.NAMES), 6)) if K.C[k][0] == K.C[n][0] != "len"]
        got = df.select([e] + others)["o"]
    elif h == "collect_all":
        got = pl.collect_all([lz, df.lazy().select(K.make(K.NAMES[int(r.integers(0, len(K.NAMES)))]).alias("z")), lz])
        K.agree(got[2]["o"], want, f"{n}: the third of three queries at once", name=n)
        got = got[0]["o"]
    else:
        got = lz.collect(no_optimization=True)["o"]
    K.agree(got, want, f"{n}: {h}", name=n)
    K.agree(value(df, e), want, f"{n}: evaluated again", name=n)
    return n


@law(st.fixed_dictionaries(dict(name=name_st, sizes=st.lists(st.integers(31, 44), min_size=1, max_size=4), vs=seeds, how=st.sampled_from(["agg", "agg_lazy", "agg_split", "over", "over_split", "agg_stream"]))), n=2200, rule="by expression")
def groups(c):
    """group_by and over: each group's result is the expression on that group's rows alone."""
    n = c["name"]
    kind, _, _, rand = K.C[n]
    if rand:
        raise Skip
    N = sum(c["sizes"])
    r = rng(c["vs"] + 1)
    g = [k for k, m in enumerate(c["sizes"]) for _ in range(m)]
    g = [g[int(v)] for v in r.permutation(N)]
    df = K.frame(N, c["vs"]).with_columns(grp=pl.Series(g, dtype=pl.Int64))
    e = K.make(n).alias("o")
    parts = {k: df.filter(pl.col("grp") == k) for k in sorted(set(g))}
    want = {k: value(f, e) for k, f in parts.items()}
    h = c["how"]
    src = split(df, r, 0) if "split" in h else df
    if h.startswith("agg"):
        q = src.lazy().group_by("grp").agg(e) if h in ("agg_lazy", "agg_stream") else src.group_by("grp").agg(e)
        o = q.collect(engine="streaming") if h == "agg_stream" else q.collect() if h == "agg_lazy" else q
        check_eq(sorted(o["grp"].to_list()), sorted(want), f"{n}: groups")
        for k, x in want.items():
            got = o.filter(pl.col("grp") == k)["o"]
            if kind != "agg":
                check_eq(type(got.dtype), pl.List, f"{n}: type of an aggregated column")
                got = got[0]
            check_eq(len(got), len(x), f"{n}: length for a group")
            if h == "agg":
                check_eq(got.dtype, x.dtype, f"{n}: type in a group_by")
            K.agree(got, x, f"{n}: group {k} by {h}", name=n)
        return n
    if kind == "len":
        raise Skip
    o = src.with_columns(e.over("grp"))
    for k, x in want.items():
        got = o.filter(pl.col("grp") == k)["o"]
        if kind == "agg":
            x = pl.concat([x] * len(got)) if x.dtype != pl.Null else x
        K.agree(got, x, f"{n}: group {k} of {h}", name=n)
    if not o.drop("o").equals(df, null_equal=True):
        fail(f"{n}: other columns change")
    return n


@law(st.fixed_dictionaries(dict(name=st.sampled_from(by_kind("row")), n=sized((0, 6), (0, 40)), vs=seeds, nulls=st.sampled_from([0.0, 0.2, 0.6]), how=st.sampled_from(["filter", "filter_after", "head", "rows", "reverse", "concat", "par", "when", "stream", "chunks", "schema"]))), n=2600, rule="by expression")
def row_functions(c):
    """Functions of single rows: any selection, order or division of the rows commutes with them, also with nulls."""
    n = c["name"]
    df = K.frame(c["n"], c["vs"], c["nulls"])
    r = rng(c["vs"] + 1)
    e = K.make(n).alias("o")
    if df.height == 0 and c["how"] in ("rows", "concat", "reverse"):  # Polars forgets the inner type of a reversed empty list column
        raise Skip
    want = value(df, e)
    check_eq(len(want), df.height, f"{n}: rows")
    full = df.with_columns(want)
    h = c["how"]
    lz = df.lazy().with_columns(e)
    pred = pl.col("id") % 3 != 1
    if h == "filter":
        got, exp = lz.filter(pred).collect()["o"], full.filter(pred)["o"]
        K.agree(df.lazy().filter(pred).with_columns(e).collect()["o"], exp, f"{n}: filter before", name=n)
    elif h == "filter_after":
        p2 = pl.col("o").is_not_null()
        got, exp = lz.filter(p2).collect()["o"], full.filter(p2)["o"]
        o2 = lz.filter(p2).select("id").collect()["id"].to_list()
        check_eq(o2, full.filter(p2)["id"].to_list(), f"{n}: rows kept by a filter on the result")
    elif h == "head":
        got, exp = lz.slice(1, 3).collect()["o"], want.slice(1, 3)
    elif h == "rows":
        got, exp = pl.concat([value(df.slice(k, 1), e) for k in range(df.height)]), want
    elif h == "reverse":
        got, exp = df.sort("id", descending=True).with_columns(e).sort("id")["o"], want
    elif h == "concat":
        k = int(r.integers(0, df.height + 1))
        got, exp = pl.concat([df.slice(0, k).lazy(), df.slice(k).lazy()]).select(e).collect()["o"], want
    elif h == "par":
        if not K.C[n][2]:
            raise Skip
        got, exp = value(df, K.make(n, True)), want
    elif h == "when":
        got, exp = df.select(pl.when(pred).then(e).otherwise(None).alias("o"))["o"], full.select(pl.when(pred).then("o").otherwise(None).alias("o"))["o"]
    elif h == "stream":
        got, exp = lz.filter(pred).collect(engine="streaming")["o"], full.filter(pred)["o"]
    elif h == "schema":
        got, exp = want, want
        check_eq(lz.collect_schema()["o"], want.dtype, f"{n}: declared type")
    else:
        got, exp = value(split(df, r, 0), e), want
    K.agree(got, exp, f"{n}: {h}", name=n)
    return n if df.height > 1 else None


@law(st.fixed_dictionaries(dict(name=name_st, n=st.integers(40, 60), vs=seeds)), n=900, rule="by expression")
def nothing_else_changes(c):
    """The columns an expression reads, and the expression itself, are left as they are."""
    n = c["name"]
    kind = K.C[n][0]
    df = K.frame(c["n"], c["vs"])
    keep = df.clone()
    raw = {k: df[k].to_list() for k in df.columns}
    e = K.make(n).alias("o")
    txt = str(e)
    want = value(df, e)
    if kind != "len":
        o = df.with_columns(e)
        check_eq(o.columns, df.columns + ["o"], f"{n}: columns")
        got = o["o"] if kind != "agg" else o["o"].head(1)
        K.agree(got, want, f"{n}: with_columns", name=n)
        if kind == "agg":
            K.agree(o["o"].tail(1), want, f"{n}: broadcast", name=n)
        if not o.drop("o").equals(keep, null_equal=True):
            fail(f"{n}: with_columns changes another column")
    if not df.equals(keep, null_equal=True) or raw != {k: df[k].to_list() for k in df.columns}:
        fail(f"{n} changes its input")
    check_eq(str(e), txt, f"{n}: the expression")
    return n


def renamed(n, f):
    """The expression over renamed columns, by way of its JSON form; None where Polars cannot write it."""
    import io
    import json

    def walk(d):
        if isinstance(d, dict):
            return {k: (f(v) if k == "Column" and isinstance(v, str) else walk(v)) for k, v in d.items()}
        return [walk(v) for v in d] if isinstance(d, list) else d

    try:
        doc = json.loads(K.make(n).meta.serialize(format="json"))
        return pl.Expr.deserialize(io.StringIO(json.dumps(walk(doc))), format="json")
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return None


NAMINGS = ["{} x", "é{}", "x{}", "{}.{}", "coeffs_{}", "{}_y", "__{}__", "{}\n", "[{}]", "^{}$x", "A{}B", "0{}"]
FIXED = ["", "literal", "idx", "dist", "pred", "resid", "count", "cnt", "len", "index", "y", "x0", "target", "weights", "const", "__bias__", "values", "o", "0", "neighbors", "struct", "features"]


@law(st.fixed_dictionaries(dict(name=name_st, n=st.integers(40, 60), vs=seeds, style=st.one_of(st.integers(0, len(NAMINGS) - 1), st.just(len(NAMINGS))))), n=1500, rule="by expression")
def column_names(c):
    """The names of the columns do not matter to the values."""
    n = c["name"]
    df = K.frame(c["n"], c["vs"])
    if c["style"] < len(NAMINGS):
        to = {k: NAMINGS[c["style"]].replace("{}", k) for k in df.columns}
    else:  # names the package itself uses
        r = rng(c["vs"])
        to = dict(zip(df.columns, [FIXED[int(v)] if v < len(FIXED) else f"c{v}" for v in r.permutation(max(len(FIXED), df.width))]))
    e, e0 = renamed(n, lambda k: to[k]), renamed(n, lambda k: k)
    if e is None or e0 is None:
        raise Skip
    try:
        want = value(df, e0)
        K.agree(want, value(df, K.make(n)), n, name=n)
    except BaseException as ex:  # Polars does not write every expression faithfully
        if isinstance(ex, (KeyboardInterrupt, MemoryError)):
            raise
        raise Skip
    got = value(df.rename(to), e)
    inv = {v: k for k, v in to.items()}

    def back(s):  # fields named after the columns, and the names of the features
        if s.dtype != pl.Struct:
            return s
        d = s.struct.unnest()
        if n.startswith("s_chi2"):
            d = d.rename({k: v for k, v in inv.items() if k in d.columns})
        return d.with_columns(pl.col(pl.String).replace(inv)).to_struct("o")

    if n.startswith(("lr_report", "pca_", "s_chi2")) or "report" in n:
        want, got = back(want), back(got)
    K.agree(got, want, f"{n}: columns renamed {to}", name=n)
    return n


@law(st.fixed_dictionaries(dict(name=name_st, n=st.integers(45, 75), every=st.integers(7, 20), period=st.integers(33, 42), vs=seeds, how=st.sampled_from(["dynamic", "rolling", "by_sorted", "first_of"]))), n=900, rule="by expression")
def windows(c):
    """Overlapping or adjacent windows: each window's result is the expression on the rows of the window alone."""
    n = c["name"]
    kind, _, _, rand = K.C[n]
    if rand:
        raise Skip
    h = c["how"]
    df = K.frame(c["n"], c["vs"]).with_columns(ix=pl.int_range(c["n"], dtype=pl.Int64))
    r = rng(c["vs"] + 1)
    src = split(df, r, 0).with_columns(pl.col("ix").set_sorted()) if c["vs"] % 3 == 0 else df.with_columns(pl.col("ix").set_sorted())
    e = K.make(n).alias("o")
    if h == "rolling":
        ends = [int(v) for v in sorted(set(r.integers(c["period"], c["n"], 3)))]
        want = {k: attempt(lambda: value(df.slice(k - c["period"] + 1, c["period"]), e)) for k in ends}
        f = lambda: src.rolling("ix", period=f"{c['period']}i").agg(e)
        # the first windows are short, which some expressions refuse
        short = [attempt(lambda: value(df.slice(0, k), e)) for k in (1, 2, 3, 5, 9, 20, 29)]
    elif h == "dynamic":
        starts = list(range(0, c["n"] - c["period"] + 1, c["every"]))
        want = {k: attempt(lambda: value(df.slice(k, c["period"]), e)) for k in starts}
        last = max(starts) + c["period"]
        f = lambda: src.group_by_dynamic("ix", every=f"{c['every']}i", period=f"{c['period']}i", start_by="window", offset="0i").agg(e).filter(pl.col("ix") >= 0)
        short = [attempt(lambda: value(df.slice(k, c["n"] - k), e)) for k in range(0, c["n"], c["every"])]
    else:
        cut = 33 if h == "first_of" else c["n"] // 2
        g = pl.Series("grp", [0] * cut + [1] * (c["n"] - cut)).set_sorted()
        want = {0: attempt(lambda: value(df.head(cut), e)), 1: attempt(lambda: value(df.slice(cut), e))}
        f = lambda: src.with_columns(g).group_by("grp", maintain_order=h == "first_of").agg(e).rename({"grp": "ix"})
        short = []
    refused = [x for x in [*want.values(), *short] if isinstance(x, type)]
    o = attempt(f)
    if isinstance(o, type):
        if refused:
            raise Skip
        fail(f"{n}: {h} ends in {o.__name__}, the windows alone do not")
    if any(isinstance(x, type) for x in want.values()):
        raise Skip
    for k, x in want.items():
        got = o.filter(pl.col("ix") == k)["o"]
        check_eq(len(got), 1 if kind == "agg" or isinstance(got.dtype, pl.List) else len(x), f"{n}: rows of window {k}")
        if kind != "agg":
            got = got[0]
        K.agree(got, x, f"{n}: window {k} of {h}", name=n)
    return n


@law(st.fixed_dictionaries(dict(name=name_st, n=sized((40, 60), (200, 900)), vs=seeds, how=st.sampled_from(["threads", "threads", "serialize", "pickle", "again_in_thread"]))), n=500, rule="by expression")
def elsewhere(c):
    """Queries running at the same time in several threads, and queries that were written out and read back."""
    import io
    import pickle
    import threading

    n = c["name"]
    if K.C[n][3]:
        raise Skip
    df = K.frame(c["n"], c["vs"])
    e = K.make(n).alias("o")
    want = value(df, e)
    h = c["how"]
    if h in ("serialize", "pickle"):
        if n == "detrend":
            raise Skip  # Polars does not write out that its covariance casts to a common type
        try:
            e.meta.serialize()
        except pl.exceptions.PolarsError:
            raise Skip  # made of functions that Polars cannot write out
        except BaseException as x:
            if "serializ" in str(x):
                raise Skip
            raise
    if h == "serialize":
        got = [pl.LazyFrame.deserialize(io.BytesIO(df.lazy().select(e).serialize())).collect()["o"]]
    elif h == "pickle":
        got = [value(df, pickle.loads(pickle.dumps(e)))]
    else:
        res = {}

        def work(k):
            d = df if k % 2 == 0 else K.frame(c["n"], c["vs"] + k)
            res[k] = attempt(lambda: d.select(K.make(n).alias("o"))["o"])

        ts = [threading.Thread(target=work, args=(k,)) for k in range(1 if h == "again_in_thread" else 6)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for k in range(1, len(ts), 2):
            x = attempt(lambda: value(K.frame(c["n"], c["vs"] + k), e))
            if isinstance(x, type) or isinstance(res[k], type):
                check_eq(res[k] if isinstance(res[k], type) else None, x if isinstance(x, type) else None, f"{n}: in a thread")
            else:
                K.agree(res[k], x, f"{n}: in thread {k}", name=n)
        got = [res[k] for k in range(0, len(ts), 2)]
    for x in got:
        if isinstance(x, type):
            fail(f"{n}: {h} ends in {x.__name__}")
        K.agree(x, want, f"{n}: {h}", name=n)
    return n
