"""DIA: reports equal direct counting over the rows in plain Python."""
import warnings
from collections import Counter
from itertools import combinations
from datetime import date, timedelta

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from polars_ds.eda.diagnosis import DIA
from checks.common import *

warnings.filterwarnings("ignore", category=pl.exceptions.PerformanceWarning)
TYPES = {"i64": pl.Int64, "i32": pl.Int32, "i8": pl.Int8, "u8": pl.UInt8, "u32": pl.UInt32, "f64": pl.Float64, "f32": pl.Float32, "prob": pl.Float64, "prob32": pl.Float32, "str": pl.String, "bool": pl.Boolean, "cat": pl.Categorical, "date": pl.Date,
         "lf": pl.List(pl.Float64), "lp": pl.List(pl.Float64), "lp32": pl.List(pl.Float32), "li": pl.List(pl.Int32), "lb": pl.List(pl.Boolean), "ls": pl.List(pl.String)}
NUM = {"i64", "i32", "i8", "u8", "u32", "f64", "f32", "prob", "prob32"}
INT = {"i64", "i32", "i8", "u8", "u32"}
words = ["", "a", "b", "ab", "é", "日本", "long word", "x\ty", "A"]


def column(g, kind, n, spread, nulls, odd):
    if kind in INT:
        lo = 0 if kind[0] == "u" else -spread
        v = g.integers(lo, spread + 1, n).tolist()
    elif kind in ("f64", "f32"):
        v = (g.integers(-4 * spread, 4 * spread + 1, n) / 4).tolist() if g.random() < 0.7 else np.float32(g.normal(size=n) * spread).tolist()
        for k in range(n):
            if odd and g.random() < odd:
                v[k] = [NAN, math.inf, -math.inf][g.integers(3)]
    elif kind in ("prob", "prob32"):
        v = (g.integers(0, 5, n) / 4).tolist()
        if n and g.random() < 0.5:
            v[g.integers(n)] = [1.25, -0.25, 2.0, NAN, 1.0][g.integers(5)]
    elif kind in ("str", "cat"):
        v = [words[k] for k in g.integers(0, min(len(words), spread + 1), n)]
    elif kind == "bool":
        v = (g.random(n) < 0.5).tolist()
    elif kind == "date":
        v = [date(2020, 1, 1) + timedelta(days=int(k)) for k in g.integers(0, spread + 1, n)]
    elif kind == "lf":
        v = [(g.integers(0, 3, int(g.integers(1, 3))) / 2).tolist() for _ in range(n)]
    elif kind in ("lp", "lp32"):
        v = []
        for _ in range(n):
            a = int(g.integers(0, 5))
            b = int(g.integers(0, 5 - a))
            v.append([a / 4, b / 4, (4 - a - b) / 4])
        if n and g.random() < 0.6:
            v[g.integers(n)] = [[1.25, -0.25, 0.0], [0.5, 0.25, 0.0], [0.5, 0.5], [0.5, 0.25, 0.25], [0.25, 0.25, 0.25, 0.25], [0.5, 0.75, -0.25], [0.5, 0.25, 0.25 + 6e-7], [0.5, 0.25, 0.25 - 2e-6], [1.0, 0.0, 0.0]][g.integers(9)]
    else:
        v = [{"li": [[1], [1, 2], []], "lb": [[True], [False, True]], "ls": [["a"], ["b", "a"]]}[kind][g.integers(2)] for _ in range(n)]
    if nulls:
        v = [None if g.random() < nulls else x for x in v]
    return pl.Series(v, dtype=TYPES[kind]) if kind not in ("f32", "prob32") else pl.Series(v, dtype=pl.Float64).cast(pl.Float32)


def frames(kinds, lo=1, odd=(0,), big=80):
    col = st.tuples(st.sampled_from(sorted(kinds)), st.sampled_from([0, 1, 1, 2, 4, 9, 60]), st.sampled_from([0, 0, 0.2, 0.8]))
    return st.fixed_dictionaries(dict(cols=st.lists(col, min_size=1, max_size=6), n=sized((max(lo, 1), 8), (lo, big)), vs=seeds, odd=st.sampled_from(odd), lazy=st.booleans(), cuts=cuts_st, prefix=st.sampled_from(["c", "c", "c", "col ", "count", "ü", "@"])))


def make(c):
    g = rng(c["vs"])
    if c["prefix"] == "@":  # names the package itself uses, or close to them
        names = [str(v) for v in rng(c["vs"] + 1).permutation(["count", "null_count", "value", "len", "min", "max", "x", "y", "literal", "index", "brk", "category", "name", "0", "field_0"])]
    else:
        names = [f"{c['prefix']}{i}" for i in range(len(c["cols"]))]
    df = pl.DataFrame({names[i]: column(g, k, c["n"], sp, nu, c["odd"]) for i, (k, sp, nu) in enumerate(c["cols"])})
    df = chunk_df(df, c["cuts"])
    return df, {name: k for name, (k, _, _) in zip(df.columns, c["cols"])}, {n: df[n].to_list() for n in df.columns}


def dia(c, df):
    return DIA(df.lazy() if c["lazy"] else df)


def same_frame(df, data):
    for k, v in data.items():
        if repr(df[k].to_list()) != repr(v):
            fail(f"the inspected frame has changed in {k!r}")


def key(x):
    return "nan" if isinstance(x, float) and math.isnan(x) else tuple(x) if isinstance(x, list) else 0.0 if isinstance(x, float) and x == 0 else x


def distinct(v):
    return len({key(x) for x in v})


@law(frames(NUM | {"str", "bool", "date"}, odd=(0, 0.1, 0.4)), n=350, rule="by number of numeric columns")
def special_values(c):
    df, kinds, data = make(c)
    num = [k for k in kinds if kinds[k] in NUM]
    if not num:
        raise Skip
    r = dia(c, df).special_values_report()
    check_eq(r.columns, ["column", "null_count", "null%", "NaN_count", "NaN%", "inf_count", "Inf%"], "columns of the report")
    check_eq(r["column"].to_list(), num, "columns reported")
    n = c["n"]
    for row in r.rows(named=True):
        v = data[row["column"]]
        cnt = dict(null=sum(x is None for x in v), NaN=sum(isinstance(x, float) and math.isnan(x) for x in v), inf=sum(isinstance(x, float) and math.isinf(x) for x in v))
        for k, x in cnt.items():
            check_eq(row[k + "_count"], x, f"{k}_count of {v[:10]}")
            check_close(row[("Inf" if k == "inf" else k) + "%"], x / n, f"{k}% of {v[:10]}", 1e-12)
    same_frame(df, data)
    return f"{len(num)} columns"


@law(st.tuples(frames(NUM), st.one_of(st.none(), st.integers(3, 25), st.sampled_from([4, 8, 16])), st.sampled_from([None, 1.5, 0.0, 0.5, 1.0, 3.0]), st.sampled_from([None, True, False]), st.sampled_from([None, True, False])), n=600, rule="with or without histogram, constants")
def numeric_profile(t):
    c, bins, mult, hist, gt = t
    df, kinds, data = make(c)
    num = [k for k in kinds if kinds[k] in NUM]
    if any(isinstance(x, float) and not math.isfinite(x) for v in data.values() for x in v):
        raise Skip
    kw = {k: v for k, v in dict(n_bins=bins, iqr_multiplier=mult, histogram=hist, gt=gt).items() if v is not None}
    bins, mult, hist, gt = (b if a is None else a for a, b in zip(t[1:], (20, 1.5, True, True)))
    r = dia(c, df).numeric_profile(**kw)
    check_eq(isinstance(r, pl.DataFrame), not gt, "a plain frame unless gt")
    if gt:
        r = r._tbl_data
    check_eq([r.schema[k] for k in ("null%", "mean", "std", "min", "q1", "median", "q3", "max", "IQR")], [pl.Float64] * 9, "types of the statistics")
    check_eq(r["column"].to_list(), num, "columns reported")
    check_eq("histogram" in r.columns, hist, "histogram column")
    lab = set()
    for row in r.rows(named=True):
        name = row["column"]
        v = sorted(x for x in data[name] if x is not None)
        m = len(v)
        what = f"profile of {data[name][:20]}: "
        check_eq(row["non_null_cnt"], m, what + "non_null_cnt")
        check_close(row["null%"], 1 - m / c["n"], what + "null%", 1e-12)
        if m == 0:
            for k in ("mean", "std", "min", "q1", "median", "q3", "max", "IQR"):
                check_eq(row[k], None, what + k)
            check_eq(row["outlier_cnt"], 0, what + "outlier_cnt")
            continue
        tol = 2e-5 if kinds[name].endswith("32") and kinds[name][0] in "fp" else 1e-9
        sc = max(abs(v[0]), abs(v[-1]), 1.0)
        check_close(row["mean"], sum(v) / m, what + "mean", tol, tol * sc)
        mu = sum(v) / m
        check_close(row["std"], math.sqrt(sum((x - mu) ** 2 for x in v) / (m - 1)) if m > 1 else None, what + "std", tol, tol * sc)
        check_close(row["min"], v[0], what + "min", 1e-12)
        check_close(row["max"], v[-1], what + "max", 1e-12)
        med = (v[(m - 1) // 2] + v[m // 2]) / 2
        check_close(row["median"], med, what + "median", 0, 0.005001)
        for q, p in ((row["q1"], 0.25), (row["q3"], 0.75)):
            h = p * (m - 1)
            if not v[math.floor(h)] - 1e-9 <= q <= v[math.ceil(h)] + 1e-9:
                fail(what + f"quantile {p}", got=q)
        check_close(row["IQR"], row["q3"] - row["q1"], what + "IQR", tol, tol * sc)
        lo, hi = row["q1"] - mult * row["IQR"], row["q3"] + mult * row["IQR"]
        if all(abs(x - b) > tol * 10 * sc for x in v for b in (lo, hi)) or kinds[name] in INT | {"prob"}:
            check_eq(row["outlier_cnt"], sum(x < lo or x > hi for x in v), what + "outlier_cnt")
            lab.add("outliers" if row["outlier_cnt"] else "none")
        if hist:
            counts = row["histogram"]
            counts = list(counts.values())[0] if isinstance(counts, dict) else counts
            check_eq(sum(counts), m, what + "histogram total")
            if v[0] == v[-1]:
                check_eq([k for k in counts if k], [m], what + "histogram of a constant")
                lab.add("constant")
                continue
            z = [(x - v[0]) / (v[-1] - v[0]) for x in v]
            edges = [i / bins for i in range(1, bins)]
            exact = kinds[name] not in ("f32", "prob32") and bins in (4, 8, 16) and math.log2(v[-1] - v[0]) % 1 == 0  # a value on an edge belongs to the bin on its right, but for the last edge
            if all(abs(x - e) > 1e-4 or exact and e != edges[-1] for x in z for e in edges):
                w = Counter(sum(x >= e for e in edges) for x in z)
                check_eq([k for k in counts if k], [w[k] for k in sorted(w)], what + f"histogram with {bins} bins")
                lab.add("hist")
    same_frame(df, data)
    return ",".join(sorted(lab))


def rule(draw_i, kinds, data):
    """A rule about one column: (aggregating expression, row expression, value by plain Python for all rows, per row)."""
    g = rng(draw_i)
    name = list(kinds)[g.integers(len(kinds))]
    v, k, e = data[name], kinds[name], pl.col(name)
    t = int(g.integers(-3, 4))
    some = [x for x in v if x is not None]
    opts = [lambda: (e.null_count() <= len(v) // 3, e.is_not_null(), len(v) - len(some) <= len(v) // 3, [x is not None for x in v])]
    if k in NUM:
        opts += [lambda: (e.max() < t, e < t, (max(some) < t) if some else None, [None if x is None else x < t for x in v]),
                 lambda: (e.sum() >= t, e * 2 >= t, sum(some) >= t, [None if x is None else x * 2 >= t for x in v])]
    if k == "str":
        opts += [lambda: (e.str.len_chars().max() <= 1, e.str.len_chars() <= 1, max(map(len, some)) <= 1 if some else None, [None if x is None else len(x) <= 1 for x in v])]
    if k == "bool":
        opts += [lambda: (e.any(), e, any(some), v)]
    return (name, *opts[g.integers(len(opts))]())


@law(st.tuples(frames(INT | {"f64", "str", "bool"}), st.lists(st.tuples(seeds, st.integers(0, 5)), min_size=1, max_size=5), st.booleans()), n=400, rule="by violations")
def col_validation(t):
    c, rs, wide = t
    df, kinds, data = make(c)
    rules, want = [], []
    for i, k in rs:
        name, agg, _, ok, _ = rule(i, kinds, data)
        rules.append((agg, f"reason {k}"))
        if ok is False:
            want.append((name, f"reason {k}"))
    if wide:
        num = [k for k in kinds if kinds[k] in NUM]
        if num:
            rules.append((pl.col(num).min() >= 0, "negative"))
            want += [(k, "negative") for k in num if min((x for x in data[k] if x is not None), default=0) < 0]
        rules.append((pl.all().null_count() == 0, "has nulls"))
        want += [(k, "has nulls") for k in kinds if None in data[k]]
    r = dia(c, df).col_validation(*rules)
    check_eq(r.columns, ["column", "__reason__"], "columns of the report")
    check_eq(sorted(r.rows()), sorted(want), f"violations of {[str(x) for x, _ in rules]}", data=data)
    same_frame(df, data)
    if c["n"] > 1:
        try:
            dia(c, df).col_validation((pl.col(df.columns[0]).is_null(), "by row"))
        except ValueError:
            pass
        else:
            fail("a rule with a value per row is accepted")
    return f"{min(len(want), 4)} violations" + (" wide" if wide else "")


@law(st.tuples(frames(INT | {"f64", "str", "bool"}), st.lists(seeds, min_size=1, max_size=5), st.booleans(), st.booleans(), st.booleans()), n=500, rule="by options, null results")
def row_validation(t):
    c, rs, with_id, keep, every = t
    df, kinds, data = make(c)
    df = df.with_columns(pl.Series("id", [1000 - 3 * k for k in range(c["n"])]))
    rules, names = [], [f"rule {7 * k % 5}" for k in range(len(rs))]
    per = []
    for i, nm in zip(rs, names):
        _, _, e, _, oks = rule(i, kinds, data)
        rules.append((e, nm))
        per.append(oks)
    kc = df.columns[: 1 + c["vs"] % 2] if keep else None
    if kc and "id" in kc:
        raise Skip
    r = dia(c, df).row_validation(*rules, id_col="id" if with_id else None, columns_to_keep=list(kc) if kc else None, **({} if not every and c["vs"] % 3 else dict(all_reasons=every)))
    bad = [k for k in range(c["n"]) if any(oks[k] is False for oks in per)]
    idc = "id" if with_id else "__index__"
    check_eq(r.columns, [idc, *(kc or []), "__reason__"], "columns of the report")
    check_eq(r[idc].to_list(), [1000 - 3 * k if with_id else k for k in bad], f"violating rows for {[str(e) for e, _ in rules]}", data=data)
    nul = False
    for row, k in zip(r.rows(named=True), bad):
        why = sorted(nm for nm, oks in zip(names, per) if oks[k] is False)
        nul |= any(oks[k] is None for oks in per)
        if every:
            check_eq(sorted(row["__reason__"]), why, f"reasons for the row {k}", data=data)
        elif row["__reason__"] not in why:
            fail(f"reason for the row {k}", got=row["__reason__"], violated=why)
        for q in kc or []:
            check_eq(key(row[q]), key(data[q][k]), f"column {q!r} kept beside the row {k}")
    same_frame(df, data)
    if len(rules) > 1:
        try:
            dia(c, df).row_validation(rules[0], (rules[1][0], names[0]))
        except ValueError:
            pass
        else:
            fail("two rules of one name are accepted")
    return ("every" if every else "one") + (" id" if with_id else "") + (" null" if nul else "") + ("" if bad else " none")


@law(st.tuples(frames(set(TYPES) - {"lp32"}), st.sampled_from(["all", "some", "filter", "filter with nulls"])), n=300, rule="by number of pairs")
def null_corr(t):
    c, how = t
    df, kinds, data = make(c)
    cols = df.columns
    rows = list(range(c["n"]))
    kw = {}
    if how == "some":
        cols = kw["subset"] = df.columns[:: 2]
    if how == "filter":
        df = df.with_row_index("id_")
        data["id_"] = rows
        kw["filter_by"] = pl.col("id_") % 3 != 1
        rows = [k for k in rows if k % 3 != 1]
        cols = df.columns
    if how == "filter with nulls" and df.width > 1:  # by one of the columns, where it is not missing
        by = df.columns[0]
        cols = df.columns[1:]
        hit = [None if x is None else str(x) > "1" for x in data[by]]
        df = df.with_columns(by_=pl.Series(hit, dtype=pl.Boolean))
        data["by_"], kw["filter_by"], kw["subset"] = hit, pl.col("by_"), cols
        rows = [k for k in rows if hit[k]]
    r = dia(c, df).null_corr(**kw)
    check_eq(r.columns, ["column_1", "column_2", "null_corr"], "columns of the report")
    ok = [k for k in cols if 0 < sum(data[k][i] is None for i in rows) < len(rows)]
    got = {(a, b): x for a, b, x in r.rows()}
    check_eq(len(got), r.height, "pairs reported once")
    check_eq(sorted(map(sorted, got)), sorted(map(sorted, combinations(ok, 2))), "pairs of columns", data=data)
    for (a, b), x in got.items():
        u, w = (np.array([data[k][i] is None for i in rows], float) for k in (a, b))
        check_close(x, np.mean((u - u.mean()) * (w - w.mean())) / u.std() / w.std(), f"null correlation of {a!r} and {b!r}", 1e-9, 1e-9)
    xs = [abs(x) for x in r["null_corr"]]
    if any(a < b - 1e-12 for a, b in zip(xs, xs[1:])):
        fail("null correlations are not in order", got=xs)
    same_frame(df, data)
    return f"{min(len(got), 5)} pairs {how}"


@law(frames({"str", "str2", "i64"} - {"str2"}), n=300, rule="by columns")
def str_stats(c):
    df, kinds, data = make(c)
    ss = [k for k in kinds if kinds[k] == "str"]
    if not ss or c["prefix"] == "count":
        raise Skip
    r = dia(c, df).str_stats()
    check_eq(r["column"].to_list(), ss, "columns reported")
    for row in r.rows(named=True):
        v = data[row["column"]]
        what = f"str_stats of {v[:20]}: "
        some = [x for x in v if x is not None]
        check_eq(row["null_count"], len(v) - len(some), what + "null_count")
        check_eq(row["n_unique"], len(set(v)), what + "n_unique")
        cnt = Counter(v)
        check_eq(row["most_freq_cnt"], cnt[row["most_freq"]], what + "most_freq_cnt")
        if row["most_freq_cnt"] < max(Counter(some).values(), default=0):
            fail(what + "most_freq", got=row["most_freq"])
        for k, f in (("byte", lambda x: len(x.encode())), ("char", len)):
            ls = sorted(map(f, some))
            check_eq(row[f"min_{k}_len"], min(ls, default=None), what + f"min_{k}_len")
            check_eq(row[f"max_{k}_len"], max(ls, default=None), what + f"max_{k}_len")
            check_close(row[f"avg_{k}_len"], sum(ls) / len(ls) if ls else None, what + f"avg_{k}_len", 1e-9)
            if k == "byte":
                for p in (5, 95):
                    q, h = row[f"{p}p_byte_len"], p / 100 * (len(ls) - 1)
                    if (not ls and q is not None) or (ls and not ls[math.floor(h)] - 1e-9 <= q <= ls[math.ceil(h)] + 1e-9):
                        fail(what + f"{p}p_byte_len", got=q)
    same_frame(df, data)
    return f"{len(ss)} columns"


def pearson(u, v):
    u, v = np.array(u, float), np.array(v, float)
    u, v = u - u.mean(), v - v.mean()
    d = math.sqrt((u @ u) * (v @ v))
    return u @ v / d if d > 0 else NAN


@law(st.tuples(frames({"i64", "i32", "f64", "f32", "bool", "str", "u32"}, lo=5), st.sampled_from(["pearson", "spearman", "kendall", "bicor", "xi"]), seeds), n=350, rule="by method")
def correlations(t):
    c, method, pick = t
    df, kinds, data = make(c)
    df = df.select(pl.when(pl.all().is_null().any()).then(pl.all().fill_null(strategy="forward").fill_null(strategy="backward")).otherwise(pl.all())).select(pl.all())
    data = {n: df[n].to_list() for n in df.columns}
    if any(x is None for v in data.values() for x in v):
        raise Skip
    num = [k for k in kinds if kinds[k] in NUM]
    d = dia(c, df)
    sub = [k for k in num if pick >> num.index(k) & 1] or num[:1]
    if not num:
        raise Skip

    def agree(x, a, b, frame, what):
        w = frame.select(pds.corr(a, b, method=method).alias("o"))["o"][0]
        if a == b and method == "xi":  # ties at random
            return
        f32 = "f32" in (kinds[a], kinds[b])
        if method != "xi" or (distinct(data[a]) == len(data[a])):
            check_close(x, w, what, 1e-6, 1e-6)
        if method == "pearson":
            p = pearson(data[a], data[b])
            if not math.isnan(p) and not f32:
                check_close(x, p, what, 1e-6, 1e-6)

    r = d.corr(sub, method=method)
    check_eq(r.columns, ["column", *num], "columns of corr")
    check_eq(r["column"].to_list(), sub, "rows of corr")
    for row in r.rows(named=True):
        for y in num:
            agree(row[y], row["column"], y, df, f"{method} correlation of {row['column']!r} with {y!r}")
    if method == "pearson":
        check_eq(d.plot_corr(sub)._tbl_data.equals(r, null_equal=True), True, "frame of plot_corr")
    r = d.infer_corr(method=method)
    names = num + [k for k in kinds if kinds[k] == "bool"]
    check_eq(sorted(map(sorted, zip(r["x"], r["y"]))), sorted(map(sorted, combinations(names, 2))), "pairs of infer_corr")
    cast = df.with_columns(pl.col(k).cast(pl.UInt8) for k in kinds if kinds[k] == "bool")
    for a, b, x in r.rows():
        agree(x, a, b, cast, f"infer_corr of {a!r} and {b!r} by {method}")
    xs = [abs(x) for x in r["corr"] if x is not None and not math.isnan(x)]
    if any(a < b for a, b in zip(xs, xs[1:])):
        fail("correlations are not in order", got=xs)
    same_frame(df, data)
    return method


@law(st.tuples(frames({k for k in TYPES if k not in ("lb", "ls")}, lo=2, odd=(0, 0, 0.3), big=160), st.integers(1, 5), st.sampled_from([0.1, 0.33, 0.5, 0.77]), st.sampled_from([2, 3, 5, 100])), n=700, rule="by inferred kinds")
def inference(t):
    c, k, thr, cap = t
    df, kinds, data = make(c)
    d = dia(c, df)
    n = c["n"]
    uniq = {x: distinct(v) for x, v in data.items()}
    nul = {x: sum(y is None for y in v) for x, v in data.items()}
    lab = set()

    def check(name, got, want, sure=None):
        sure = set(kinds) if sure is None else sure
        check_eq(len(got), len(set(got)), f"{name}: no column twice")
        check_eq([x for x in got if x in sure], [x for x in got if x in sure and x in want], name, data=data)
        check_eq(sorted(x for x in got if x in sure), sorted(x for x in want if x in sure), name, data=data)
        if want:
            lab.add(name)

    for again in range(2):  # results are cached
        check("infer_const", d.infer_const(), {x for x in kinds if uniq[x] == 1})
        check("infer_const with nulls", d.infer_const(include_null=True), {x for x in kinds if uniq[x] - (nul[x] > 0) <= 1})
        check("infer_binary", d.infer_binary(), {x for x in kinds if uniq[x] == 2})
        check("infer_binary with nulls", d.infer_binary(True), {x for x in kinds if uniq[x] == 2 or (nul[x] and uniq[x] == 3)})
        check(f"infer_k_distinct({k})", d.infer_k_distinct(k), {x for x in kinds if uniq[x] == k})
        check(f"infer_k_distinct({k}) with nulls", d.infer_k_distinct(k, include_null=True), {x for x in kinds if uniq[x] == k or (nul[x] and uniq[x] == k + 1)})
        check(f"infer_high_null({thr})", d.infer_high_null(thr), {x for x in kinds if nul[x] > n * thr}, {x for x in kinds if abs(nul[x] - n * thr) > 1e-9})
    check("infer_high_null", d.infer_high_null(), {x for x in kinds if nul[x] > n * 0.75}, {x for x in kinds if nul[x] != n * 0.75})
    a, b = {x for x in kinds if uniq[x] < cap}, {x for x in kinds if uniq[x] < thr * n}
    always = {x for x in kinds if kinds[x] in ("bool", "cat")}
    near = {x for x in kinds if abs(uniq[x] - thr * n) < 1e-9 and uniq[x] >= cap}
    check("infer_discrete", d.infer_discrete(threshold=thr, max_val_cnt=cap), a | b | always, set(kinds) - near | always)
    check("infer_discrete by default", d.infer_discrete(), {x for x in kinds if uniq[x] < 100 or uniq[x] < 0.1 * n} | always, {x for x in kinds if uniq[x] < 100 or abs(uniq[x] - 0.1 * n) > 1e-9} | always)

    def prob(x):
        v, kd = [y for y in data[x] if y is not None], kinds[x]
        if kd in ("f64", "f32", "prob", "prob32"):
            return all(0 <= y <= 1 for y in v)
        if kd in ("lf", "lp", "lp32"):
            return all(all(e >= 0 for e in y) and abs(sum(y) - 1) < 1e-6 for y in v) and len({len(y) for y in v}) <= 1
        return False

    check("infer_prob", d.infer_prob(), {x for x in kinds if prob(x)}, {x for x in kinds if nul[x] < n})
    for bad in (0, -1):
        try:
            d.infer_k_distinct(bad)
        except ValueError:
            continue
        fail("infer_k_distinct accepts", k=bad)
    same_frame(df, data)
    return ",".join(sorted(x.split("(")[0] for x in lab))[:60]


@law(st.tuples(frames(set(TYPES)), ), n=200, rule="by types")
def meta(t):
    c, = t
    df, kinds, data = make(c)
    m = dia(c, df).meta()
    of = lambda *ks: [x for x in kinds if kinds[x] in ks]
    want = dict(numerics=of(*NUM), ints=of(*INT), floats=of("f64", "f32", "prob", "prob32"), strs=of("str"), bools=of("bool"), cats=of("cat"), list_floats=of("lf", "lp", "lp32"), list_bool=of("lb"), list_str=of("ls"), list_ints=of("li"), other_types=of("date"))
    for k, v in want.items():
        check_eq(m[k], v, f"meta: {k}")
    check_eq(sorted(m["simple_types"]), sorted(x for x in kinds if kinds[x] != "date"), "meta: simple_types")
    return ",".join(sorted(k for k, v in want.items() if v))[:50]


def cond_entropy(x, y):
    n = len(x)
    return sum(-m / n * math.log(m / k) for m, k in ((m, Counter(y)[b]) for (a, b), m in Counter(zip(x, y)).items()))


@law(st.tuples(frames({"i64", "i8", "u32", "str", "bool", "cat", "f64", "date", "lf"}, lo=2, big=40), st.sampled_from([None, 0.0, 0.01, 0.3, 0.6, 1.5]), st.booleans(), st.booleans()), n=400, rule="by pairs, edges")
def dependency(t):
    c, thr, some, derived = t
    df, kinds, data = make(c)
    if derived:  # columns that do determine each other
        for i, k in enumerate(list(kinds)[:2]):
            if kinds[k] in ("i64", "i8"):
                df = df.with_columns((pl.col(k) // 2).alias(f"half{i}"), (pl.col(k) * 3).alias(f"times{i}"))
                kinds[f"half{i}"] = kinds[f"times{i}"] = "i64"
        data = {n: df[n].to_list() for n in df.columns}
    sub = df.columns[: 1 + len(df.columns) // 2] if some else df.columns
    valid = [k for k in sub if kinds[k] in INT | {"str", "bool", "cat"} and distinct(data[k]) > 1]
    d = dia(c, df)
    subset = {"subset": [sub, pl.col(sub), [pl.col(k) for k in sub]][c["vs"] % 3]} if some else {}
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        r = d.infer_dependency(**subset)
    check_eq(len(told) > 0, len(valid) < max(len(sub), 2), "a warning when columns are left out", told=[str(x.message) for x in told])
    if told and len(valid) > 1:
        for k in sub:
            if (repr(k) in str(told[0].message)) != (k not in valid) and not any(repr(k) in repr(q) and k != q for q in sub):
                fail(f"the warning about columns left out, at {k!r}", got=str(told[0].message))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dot = d.plot_dependency(**subset, **({} if thr is None else dict(threshold=thr)))
    thr = 0.01 if thr is None else thr
    check_eq(r.columns, ["column", "by", "cond_entropy"], "columns of the report")
    check_eq(sorted(map(sorted, zip(r["column"], r["by"]))), sorted(map(sorted, combinations(valid, 2))) if len(valid) > 1 else [], "pairs of columns", data=data)
    dep = set()
    near = False
    for a, b, e in r.rows():
        w = cond_entropy(data[a], data[b])
        check_close(e, w, f"entropy of {a!r} given {b!r}", 1e-9, 1e-9, data=[data[a], data[b]])
        if distinct(data[a]) > distinct(data[b]):
            fail("the column has more values than the one it may depend on", pair=(a, b))
        near |= abs(w - thr) < 1e-6 and thr > 0
        if w < thr - 1e-9:
            dep.add((b, a))
    if list(r["cond_entropy"]) != sorted(r["cond_entropy"]):
        fail("entropies are not in order", got=r["cond_entropy"].to_list())
    same_frame(df, data)
    if near or c["prefix"] == "col ":
        return "near"
    edges = {tuple(x.strip().split(" -> ")) for x in dot.body if " -> " in x}
    edges = {(a.strip('"'), b.strip('"')) for a, b in edges}
    if not edges <= dep:
        fail("an edge that is no dependency below the threshold", edges=sorted(edges), dependencies=sorted(dep))
    check_eq(closure(edges), closure(dep), f"what the edges of the plot imply, threshold {thr}", edges=sorted(edges))
    return f"{min(len(dep), 5)} dependencies" + (" reduced" if len(edges) < len(dep) else "")


def closure(e):
    e = set(e)
    while True:
        more = {(a, d) for a, b in e for c, d in e if b == c} - e
        if not more:
            return sorted(e)
        e |= more
