"""Time-series features: streaks, lags, autocorrelation, autoregression, first digits, Lempel-Ziv, similar subsequences."""
import warnings
from decimal import Decimal
from itertools import groupby
from checks.common import *
from polars_ds.exprs.ts_features import query_benford

warnings.filterwarnings("ignore")
INTS = {"i8": pl.Int8, "i16": pl.Int16, "i32": pl.Int32, "i64": pl.Int64, "u8": pl.UInt8, "u16": pl.UInt16, "u32": pl.UInt32, "u64": pl.UInt64}
CTX = st.sampled_from(["select", "lazy", "group", "over"])


@st.composite
def ts(draw, lo=1, hi=30, nulls=False, dts=("f64", "f64", "i64", "f32", "i32", "u8", "u64")):
    dt = draw(st.sampled_from(dts))
    kind = draw(st.sampled_from(["grid", "tied", "walk", "norm"]))
    if kind in ("grid", "tied"):
        el = grid(-8, 8) if kind == "grid" else st.integers(0, 3).map(float)
        v = draw(st.lists(el, min_size=lo, max_size=hi))
    else:
        r = rng(draw(seeds))
        n = draw(sized((lo, hi), (lo, 6 * hi)))
        v = r.normal(size=n) * draw(st.sampled_from([1.0, 5.0])) + draw(st.sampled_from([0.0, 0.0, 10.0]))
        v = list(np.cumsum(v) if kind == "walk" else v)
    if dt in INTS:
        v = [float(round(x)) for x in v]
        if dt.startswith("u"):
            v = [abs(x) for x in v]
        if dt == "u8":
            v = [x % 256 for x in v]
    elif dt == "f32":
        v = [float(np.float32(x)) for x in v]
    v = [float(x) for x in v]
    nl = nulls and draw(st.sampled_from([False, True]))
    if nl:
        r = rng(draw(seeds))
        v = [None if r.random() < 0.2 else x for x in v]
    return dict(dt=dt, kind=kind, v=v, cuts=draw(cuts_st), ctx=draw(CTX))


def frame(c):
    T = {"f64": pl.Float64, "f32": pl.Float32, **INTS}[c["dt"]]
    return pl.DataFrame({"x": chunk(pl.Series("x", c["v"], dtype=pl.Float64).cast(T), c["cuts"])})


def lab(c):
    return c["dt"] + ("+null" if None in c["v"] else "") + "," + c["ctx"]


def tol(c, scale=1.0):
    return dict(rtol=1e-4 if c["dt"] == "f32" else 1e-9, atol=(1e-4 if c["dt"] == "f32" else 1e-10) * (1 + scale))


@law(ts(nulls=True), n=500, rule="by dtype, nulls, context", thorough=10)
def simple_features(c):
    df = frame(c)
    v = np.array([x for x in c["v"] if x is not None])
    if not len(v):
        raise Skip
    t = tol(c, abs(v).max() ** 2)
    g = lambda e: one(c["ctx"], df, e)
    check_close(g(pds.query_mid_range("x")), (v.max() - v.min()) / 2, "mid_range", **t)
    if c["dt"] not in ("u8", "i8", "i32", "f32"):
        check_close(g(pds.query_abs_energy("x")), float((v * v).sum()), "abs_energy", 1e-9)
    if v.max() > v.min():
        check_close(g(pds.query_symm_ratio("x")), abs(v.mean() - np.median(v)) / (v.max() - v.min()), "symm_ratio", **t)
    d = [abs(b - a) for a, b in zip(c["v"], c["v"][1:]) if a is not None and b is not None]
    if d:
        check_close(g(pds.query_mean_abs_change("x")), float(np.mean(d)), "mean_abs_change", **t)
    for k in (1, 3):
        check_close(g(pds.query_mean_n_abs_max("x", k)), float(np.sort(abs(v))[::-1][:k].mean()), f"mean_n_abs_max {k}", **t)
    if len(v) > 1 and abs(v.mean()) > 1e-3 * (1 + abs(v).max()):
        for ddof in (0, 1):
            check_close(g(pds.query_cv("x", ddof)), v.std(ddof=ddof) / v.mean(), "cv", 1e-3 if c["dt"] == "f32" else 1e-8, 1e-3 if c["dt"] == "f32" else 1e-10)
    lo, hi = (float(q) for q in np.sort(rng(len(v)).choice(v, 2)))
    check_eq(g(pds.query_range_count("x", lo, hi)), int(((v >= lo) & (v <= hi)).sum()), "range_count", lo=lo, hi=hi)
    if None not in c["v"]:
        check_eq(g(pds.query_count_uniques("x")), int((np.unique(v, return_counts=True)[1] == 1).sum()), "values that occur once")
    return lab(c)


@law(ts(nulls=True, lo=1, hi=6), n=500, rule="by outcome", thorough=10)
def monotonicity(c):
    v = [x for x in c["v"]]
    how = len(v) % 4
    clean = [x for x in v if x is not None]
    if how == 1:
        clean.sort()
    if how == 2:
        clean.sort(reverse=True)
    it = iter(clean)
    v = [next(it) if x is not None else None for x in v]
    c = dict(c, v=v)
    df = frame(c)
    P = [(a, b) for a, b in zip(v, v[1:]) if a is not None and b is not None]
    out = []
    for e, f, w in ((pds.is_increasing("x"), lambda a, b: a <= b, "is_increasing"), (pds.is_increasing("x", strict=True), lambda a, b: a < b, "strictly increasing"),
                    (pds.is_decreasing("x"), lambda a, b: a >= b, "is_decreasing"), (pds.is_decreasing("x", strict=True), lambda a, b: a > b, "strictly decreasing")):
        want = all(f(a, b) for a, b in P)
        check_eq(one(c["ctx"], df, e), want, w, v=v)
        out.append(int(want))
    return "".join(map(str, out))


conds = st.lists(st.one_of(st.booleans(), st.booleans(), st.none()), min_size=1, max_size=25)


@law(st.fixed_dictionaries(dict(w=st.one_of(conds, st.lists(st.tuples(st.booleans(), st.integers(1, 9)), min_size=1, max_size=6).map(lambda L: [b for b, k in L for _ in range(k)])), cuts=cuts_st, ctx=CTX, expr=st.booleans())), n=500,
     rule="number of true runs", thorough=10)
def streaks(c):
    w = c["w"]
    df = pl.DataFrame({"w": chunk(pl.Series(w, dtype=pl.Boolean), c["cuts"]), "x": pl.Series([None if b is None else (2.0 if b else 0.0) for b in w], dtype=pl.Float64)})
    arg = pl.col("x") > 1 if c["expr"] else "w"
    runs = [(k, len(list(g))) for k, g in groupby(w)]
    true = [n for k, n in runs if k is True]
    other = df.reverse()
    g = lambda e: one(c["ctx"], df, e, other)
    check_eq(g(pds.query_longest_streak(arg)), max(true, default=0), "longest streak", w=w)
    check_close(g(pds.query_avg_streak(arg)), sum(true) / len(true) if true else 0.0, "average streak", 1e-12)
    check_eq(df.select(pds.query_streak(arg))["streak_len"].to_list(), [n for _, n in runs], "streak lengths")
    return str(min(len(true), 4)) + c["ctx"]


digits = st.one_of(st.integers(-(2**63), 2**63 - 1), st.integers(-200, 200), st.integers(0, 63).map(lambda k: 2**k - (1 if k == 63 else 0)), st.none())
flt = st.one_of(floats(-100, 100), st.floats(allow_nan=True, allow_infinity=True), st.integers(-30, 30).map(lambda k: 10.0**k), st.sampled_from([0.0, -0.0, 5e-324, 1.7e308, 0.1, 0.3, 9.999, 1e-7]), st.none())


@law(st.fixed_dictionaries(dict(dt=st.sampled_from(["f64", "f64", "f32"] + list(INTS)), i=st.lists(digits, min_size=1, max_size=20), f=st.lists(flt, min_size=1, max_size=20), mask=st.booleans(), cuts=cuts_st, ctx=CTX, alias=st.booleans())), n=500,
     rule="by dtype, nulls", thorough=10)
def first_digits(c):
    if c["dt"] in INTS:
        bits = int(c["dt"][1:])
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if c["dt"][0] == "i" else (0, 2**bits - 1)
        v = [None if x is None else (x if lo <= x <= hi else lo + (x - lo) % (hi - lo + 1)) for x in c["i"]]
        s = pl.Series("x", v, dtype=INTS[c["dt"]])
        dig = [int(str(abs(x))[0]) for x in v if x is not None]
    else:
        s = pl.Series("x", c["f"], dtype=pl.Float64)
        if c["dt"] == "f32":
            with np.errstate(all="ignore"):
                s = s.cast(pl.Float32)
        v = s.to_list()
        num = lambda x: format(Decimal(repr(float(np.float32(x)) if False else x)) if c["dt"] == "f64" else Decimal(str(np.float32(x))), "f")
        dig = [int(next((ch for ch in num(abs(x)) if ch not in "0."), "0")) for x in v if x is not None and math.isfinite(x)]
    want = [dig.count(d) for d in range(1, 10)]
    f = query_benford if c["alias"] else pds.query_first_digit_cnt
    df = pl.DataFrame({"x": chunk(s, c["cuts"])})
    got = one(c["ctx"], df, f("x"))
    check_eq(list(got), want, "first digits", v=v)
    if c["mask"]:
        # nulls over real values
        m = [i % 3 == 0 for i in range(len(v))]
        df = df.with_columns(z=pl.Series([None if b else 0 for b in m], dtype=s.dtype))
        got = df.select(f(pl.col("x") + pl.col("z")).alias("o"))["o"][0]
        check_eq(list(got), list(pl.DataFrame({"x": s}).with_columns(m=pl.Series(m)).filter(~pl.col("m")).select(f("x").alias("o"))["o"][0]) if not all(m) else [0] * 9, "first digits of a masked column")
    return c["dt"] + ("+null" if None in v else "")


def lz(b):
    seen, i, k = set(), 0, 1
    while i + k <= len(b):
        w = tuple(b[i : i + k])
        if w in seen:
            k += 1
        else:
            seen.add(w)
            i, k = i + k, 1
    return len(seen)


@law(st.fixed_dictionaries(dict(b=st.lists(st.one_of(st.booleans(), st.booleans(), st.none()), min_size=1, max_size=60), rep=st.one_of(st.integers(1, 4), st.sampled_from([20, 100])), cuts=cuts_st, ctx=CTX)), n=400, rule="by complexity", thorough=10)
def lempel_ziv(c):
    b = (c["b"] * c["rep"])[:2000]
    df = pl.DataFrame({"x": chunk(pl.Series("x", b, dtype=pl.Boolean), c["cuts"])})
    w = lz([bool(x) for x in b])
    check_eq(one(c["ctx"], df, pds.query_lempel_ziv("x", as_ratio=False)), w, "lempel_ziv", b=b)
    check_close(one(c["ctx"], df, pds.query_lempel_ziv("x")), w / len(b), "lempel_ziv ratio", 1e-12)
    # the first phrases of a longer word are those of the word
    if lz([bool(x) for x in b + [True]]) < w:
        fail("reference error")
    return str(w // 4)


@law(st.tuples(ts(lo=3), st.integers(1, 4), st.integers(0, 1)), n=600, rule="by dtype, lag, context", thorough=10)
def lagged_statistics(c):
    c, lag, ddof = c
    v = np.array(c["v"])
    n = len(v)
    df = frame(c)
    g = lambda e: one(c["ctx"], df, e)
    m = abs(v).max()
    big = c["dt"] in ("i8", "u8", "i32", "i64", "u64") and False
    t3 = tol(c, m**3)
    if n > 2 * lag:
        check_close(g(pds.query_c3_stats("x", lag)), float((v[2 * lag :] * v[lag:-lag] * v[: -2 * lag]).sum() / (n - 2 * lag)), "c3", **t3)
        check_close(g(pds.query_time_reversal_asymmetry_stats("x", lag)), float((v[lag:-lag] * (v[2 * lag :] ** 2 - v[: -2 * lag] ** 2)).mean()), "time reversal asymmetry", **t3)
    if not c["dt"].startswith("u"):
        check_close(g(pds.query_cid_ce("x")), float(np.sqrt((np.diff(v) ** 2).sum())), "cid_ce", **tol(c, m))
    if v.std() > 1e-3 * (1 + m):
        check_close(g(pds.query_cid_ce("x", normalize=True)), float(np.sqrt((np.diff((v - v.mean()) / v.std(ddof=1)) ** 2).sum())), "cid_ce normalized", 1e-3 if c["dt"] == "f32" else 1e-8)
        if lag < n:
            d = v - v.mean()
            w = float((d[:-lag] * d[lag:]).sum() / ((n - lag) * v.var(ddof=ddof)))
            check_close(g(pds.query_auto_corr("x", lag, ddof)), w, "auto_corr", 1e-3 if c["dt"] == "f32" else 1e-8, 1e-3 if c["dt"] == "f32" else 1e-9)
            nl = pl.DataFrame({"x": [None if i % 3 == 1 else x for i, x in enumerate(np.repeat(v, 1))]}, schema={"x": pl.Float64})
            k = nl["x"].drop_nulls().to_numpy()
            if len(k) > lag and k.std() > 1e-3 * (1 + m):
                d = k - k.mean()
                check_close(nl.select(pds.query_auto_corr(pl.col("x").drop_nulls(), lag, ddof).alias("o"))["o"][0], float((d[:-lag] * d[lag:]).sum() / ((len(k) - lag) * k.var(ddof=ddof))), "auto_corr of a shorter expression", 1e-8, 1e-9)
    if lag < n and c["dt"] not in ("u8", "i8", "i32", "i16"):
        check_close(g(pds.query_auto_corr("x", lag, normalize=False)), float((v[:-lag] * v[lag:]).mean()), "auto_corr, not normalized", **tol(c, m * m))
    return f"{c['dt']},{lag},{c['ctx']}"


@law(st.tuples(ts(lo=8, hi=40, dts=("f64", "f64", "i64")), st.integers(1, 4), st.booleans(), st.sampled_from(["raise", "one", "zero", "2.5"])), n=400, rule="by lag, bias, null policy", thorough=10)
def autoregression(c):
    c, lag, bias, pol = c
    v = list(c["v"])
    if pol != "raise":
        r = rng(len(v))
        v = [None if r.random() < 0.15 else x for x in v]
    c = dict(c, v=v)
    df = frame(c)
    e = pds.query_ar_coeffs("x", lag, add_bias=bias, null_policy=pol)
    if None in v and pol == "raise":
        raise Skip
    # nulls in the regressors are filled, rows with a null target dropped
    fill = {"raise": 0.0, "one": 1.0, "zero": 0.0, "2.5": 2.5}[pol]
    n = len(v)
    rows = [([v[i - j] for j in range(1, lag + 1)], v[i]) for i in range(lag, n)]
    X = np.array([[fill if q is None else q for q in a] + ([1.0] if bias else []) for a, y in rows if y is not None], dtype=float)
    y = np.array([y for _, y in rows if y is not None], dtype=float)
    if X.ndim < 2 or X.shape[0] < X.shape[1] + 1:
        raise Skip
    s = np.linalg.svd(X, compute_uv=False)
    if s[-1] < 1e-5 * s[0] or s[-1] < 1e-6:
        raise Skip
    w = np.linalg.lstsq(X, y, rcond=None)[0]
    got = one(c["ctx"] if c["ctx"] in ("select", "lazy", "group") else "select", df, e)
    check_seq(list(got), list(w), "ar_coeffs", 1e-6, 1e-6 * (1 + abs(w).max()))
    return f"{lag}{bias}{pol}"


@st.composite
def subseq(draw):
    t = draw(ts(lo=4, hi=30, dts=("f64", "f64", "f32", "i64")))
    v = t["v"]
    m = draw(st.one_of(st.integers(2, 6), st.integers(2, 40)))
    m = min(m, len(v))
    if draw(st.booleans()):
        i = draw(st.integers(0, len(v) - m))
        q = [x * 2 + 1 if draw(st.booleans()) else x for x in v[i : i + m]]
    else:
        q = [float(x) for x in rng(draw(seeds)).normal(size=m) * 3]
    if t["dt"] == "f64" and None not in v and (off := draw(st.sampled_from([0.0, 0.0, 0.0, 1e5, -3e8, 1e9]))):  # far from zero
        t, q = dict(t, v=[float(x) + off for x in v]), [float(x) + off for x in q]
    return dict(t, q=q, frac=draw(st.one_of(st.floats(0.01, 0.99), st.sampled_from([1e-9, 0.05]))), par=draw(st.booleans()), metric=draw(st.sampled_from(["sql2", "sqzl2"])))


@law(subseq(), n=700, rule="some windows within the threshold and some not, by metric", thorough=10)
def similar_subsequences(c):
    v, q = np.array(c["v"]), np.array(c["q"])
    m = len(q)
    if c["metric"] == "sqzl2" and q.std() < 1e-3:
        raise Skip
    W = np.lib.stride_tricks.sliding_window_view(v, m)
    if c["metric"] == "sql2":
        D = ((W - q) ** 2).sum(1)
        err = 1e-11 * D + 1e-300 if c["dt"] != "f32" else 1e-9 * (1 + (W**2).sum(1) + (q**2).sum())
    else:
        var = np.maximum(W.var(axis=1, ddof=1), 1e-10)
        z = (q - q.mean()) / q.std(ddof=1)
        D = (((W - W.mean(1, keepdims=True)) / np.sqrt(var)[:, None] - z) ** 2).sum(1)
        # rolling variances lose digits on large values; windows of (nearly) no variance have no reliable distance
        scale = abs(v).max() ** 2 + 1
        rel = 1e-11 * scale / var
        err = (1e-9 + rel) * (1 + D + m)
        err = np.where(var < 1e-7 * scale, np.inf, err)
    fin = np.sort(D)
    thr = float(fin[int(c["frac"] * (len(fin) - 1))] * 1.01 + 1e-3 + 0.3 * c["frac"])
    lo, hi = int((D + err < thr).sum()), int((D - err < thr).sum())
    df = frame(c)
    e = pds.query_similar_count(c["q"] if c["par"] else pl.Series(c["q"]), "x", thr, metric=c["metric"], parallel=c["par"])
    got = one(c["ctx"], df, e)
    if not lo <= got <= hi:
        fail(f"similar_count {c['metric']}: got {got}, want {lo}..{hi}", threshold=thr, distances=D.tolist()[:30])
    other = one(c["ctx"], df, pds.query_similar_count(c["q"], "x", thr, metric=c["metric"], parallel=not c["par"]))
    if lo == hi:
        check_eq(other, got, "similar_count in parallel or not")
    ratio = df.select(pds.query_similar_count(c["q"], "x", thr, metric=c["metric"], parallel=c["par"], return_ratio=True).alias("o"))["o"][0]
    if lo == hi:
        check_close(ratio, got / len(W), "similar_count ratio", 1e-12)
    return c["metric"] + c["dt"] + ("+par" if c["par"] else "") + ("wide" if m >= 16 else "") if 0 < got < len(W) else None


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((8, 40), (40, 120)), e=POW2, kind=st.sampled_from(["normal", "walk", "grid"]), lag=st.integers(1, 3), ctx=st.sampled_from(["eager"]))), n=200, rule="by scale", thorough=10)
def scales(c):
    """Features scale with the series, to the power of their degree."""
    r = rng(c["seed"])
    n, f, k = c["n"], 2.0 ** c["e"], c["lag"]
    x = {"normal": lambda: r.normal(size=n), "walk": lambda: np.cumsum(r.normal(size=n)), "grid": lambda: r.integers(-6, 7, n) / 2}[c["kind"]]()
    if x.std() < 0.1 or abs(x.mean()) < 1e-3:
        raise Skip
    q = x[2:6] + r.normal(size=4) * 0.3
    df, sc = pl.DataFrame({"x": x}), pl.DataFrame({"x": x * f})
    F = {name: (e, e, f**d) for name, e, d in (
        ("abs_energy", pds.query_abs_energy("x"), 2), ("mean_abs_change", pds.query_mean_abs_change("x"), 1), ("mean_n_abs_max", pds.query_mean_n_abs_max("x", 3), 1), ("mid_range", pds.query_mid_range("x"), 1),
        ("symm_ratio", pds.query_symm_ratio("x"), 0), ("cv", pds.query_cv("x"), 0), ("c3", pds.query_c3_stats("x", k), 3), ("time reversal asymmetry", pds.query_time_reversal_asymmetry_stats("x", k), 3),
        ("cid_ce", pds.query_cid_ce("x"), 1), ("cid_ce, normalized", pds.query_cid_ce("x", normalize=True), 0), ("auto_corr", pds.query_auto_corr("x", k), 0),
        ("auto_corr, not normalized", pds.query_auto_corr("x", k, normalize=False), 2), ("ar_coeffs", pds.query_ar_coeffs("x", k, add_bias=False), 0),
        ("increasing", pds.is_increasing("x").cast(pl.Float64), 0), ("strictly decreasing", pds.is_decreasing("x", strict=True).cast(pl.Float64), 0),
        ("lempel_ziv", pds.query_lempel_ziv(pl.col("x") > pl.col("x").median()), 0), ("streak", pds.query_longest_streak(pl.col("x") > 0), 0))}
    F["range_count"] = (pds.query_range_count("x", -0.7, 1.1), pds.query_range_count("x", -0.7 * f, 1.1 * f), 1.0)
    g = lambda s: pds.query_similar_count(list(map(float, q * s)), "x", metric="sql2", threshold=1.7 * s * s)
    F["similar_count"] = (g(1.0), g(f), 1.0)
    homogeneous(df, sc, F)
    return f"{c['kind']} {c['e']}"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 140000)), share=st.sampled_from([0.5, 0.99, 0.99999]), dt=st.sampled_from(["f64", "i64", "i32"]), lag=st.sampled_from([1, 7, 300, 65537]), ctx=CTX)), n=6, rule="by share of true values", thorough=8)
def many_rows(c):
    """More rows than 16 bits count, and whose pairs are more than 32 bits count."""
    r = rng(c["seed"])
    n, lag = c["n"], c["lag"]
    x = np.round(r.normal(size=n) * 3 + 1, 3 if c["dt"] == "f64" else 0)
    w = r.random(n) < c["share"]
    df = pl.DataFrame({"x": x, "w": w}).with_columns(pl.col("x").cast({"f64": pl.Float64, "i64": pl.Int64, "i32": pl.Int32}[c["dt"]]))
    g = lambda e: one(c["ctx"], df, e)
    cut = np.flatnonzero(np.diff(w.astype(int))) + 1
    lens = np.diff(np.r_[0, cut, n])
    true = lens[w[np.r_[0, cut]]]
    check_eq(g(pds.query_longest_streak("w")), int(true.max(initial=0)), "longest streak")
    check_close(g(pds.query_avg_streak("w")), float(true.mean()), "average streak", 1e-12)
    check_eq(df.select(pds.query_streak("w"))["streak_len"].to_list(), lens.tolist(), "streak lengths")
    check_eq(g(pds.query_range_count("x", -1.0, 2.0)), int(((x >= -1) & (x <= 2)).sum()), "range_count")
    dig = [int(next((ch for ch in repr(abs(float(v))) if ch not in "0."), "0")) for v in x]
    check_eq(list(g(pds.query_first_digit_cnt("x"))), [dig.count(d) for d in range(1, 10)], "first digits")
    check_close(g(pds.query_abs_energy("x")), float((x * x).sum()), "abs_energy", 1e-9)
    check_close(g(pds.query_mean_abs_change("x")), float(np.abs(np.diff(x)).mean()), "mean_abs_change", 1e-9)
    check_close(g(pds.query_mean_n_abs_max("x", 65600)), float(np.sort(np.abs(x))[::-1][:65600].mean()), "mean_n_abs_max", 1e-9)
    m, s = x.mean(), x.std()
    check_close(g(pds.query_auto_corr("x", lag, 0)), float(((x[:-lag] - m) * (x[lag:] - m)).sum() / ((n - lag) * s * s)), "auto_corr", 1e-7, 1e-9)
    if 2 * lag < n:
        check_close(g(pds.query_c3_stats("x", lag)), float((x[2 * lag :] * x[lag:-lag] * x[: -2 * lag]).sum() / (n - 2 * lag)), "c3", 1e-7, 1e-9)
    b = list(map(bool, w))
    check_close(g(pds.query_lempel_ziv("w", as_ratio=False)), lz_fast(b), "lempel_ziv")
    q = x[:3].tolist()
    d = sum((x[k : n - 2 + k] - q[k]) ** 2 for k in range(3))
    t = float(np.quantile(d, 0.4)) + 1e-4
    if np.abs(d - t).min() > 1e-9:
        check_eq(g(pds.query_similar_count(q, "x", t, metric="sql2")), int((d < t).sum()), "similar subsequences")
    return str(c["share"])


def lz_fast(b):
    """lz without slicing: the phrases form a trie."""
    root, node, cnt = {}, None, 0
    node = root
    for v in b:
        if v in node:
            node = node[v]
        else:
            node[v] = {}
            cnt += 1
            node = root
    return cnt
