"""Regression and ranking metrics equal their definitions."""
from checks.common import *
from polars_ds.exprs.metrics import calculate_ndcg

REL, ABS = 1e-9, 1e-11
base = dict(seed=seeds, n=sized((2, 12), (13, 80), (81, 300)), kind=st.sampled_from(["normal", "near", "perfect", "grid", "big", "shifted"]),
            dt=st.sampled_from(["f64", "f64", "i64", "f32", "mixed"]), nulls=st.sampled_from([0, 0, 0.2]), ctx=st.sampled_from(["select", "group", "over"]),
            cuts=cuts_st)


def data(c, positive=False, nulls=True):
    r = rng(c["seed"])
    n, k = c["n"], c["kind"]
    a = r.normal(size=n) * 3
    p = r.normal(size=n) * 3
    if k == "near":
        p = a + r.normal(size=n) * 0.1
    if k == "perfect":
        p = a.copy()
    if k == "grid":
        a, p = r.integers(-4, 5, n) / 2, r.integers(-4, 5, n) / 2
    if k == "big":
        a, p = a * 1e3, p * 1e3
    if k == "shifted":
        a, p = a + 100, p + 101
    if positive:
        a, p = np.abs(a), np.abs(p)
    if c["dt"] == "i64":
        a, p = np.round(a), np.round(p)
    if c["dt"] == "mixed":
        a = np.round(a)
    if c["dt"] == "f32":
        a, p = a.astype(np.float32).astype(float), p.astype(np.float32).astype(float)
    ta = {"i64": pl.Int64, "f32": pl.Float32, "mixed": pl.Int32}.get(c["dt"], pl.Float64)
    tp = {"i64": pl.Int64, "f32": pl.Float32}.get(c["dt"], pl.Float64)
    df = pl.DataFrame({"a": pl.Series(a).cast(ta), "p": pl.Series(p).cast(tp)})
    ok = np.ones(n, bool)
    if nulls and c["nulls"]:
        ok = r.random(n) >= c["nulls"]
        m = pl.Series(ok)
        df = df.with_columns(pl.when(m).then(pl.col("a")).alias("a"), pl.when(m).then(pl.col("p")).alias("p"))
        if ok.sum() < 2:
            raise Skip
    df = df.with_columns(chunk(df["a"], c["cuts"]), chunk(df["p"], c["cuts"][::-1]))
    return r, df, a[ok], p[ok]


def evaluate(c, df, e):
    """One value, from a select, a group_by (beside another group) or an over."""
    e = e.alias("o")
    if c["ctx"] == "select":
        s = df.select(e)["o"]
        check_eq(len(s), 1, "length")
        return s[0]
    other = df.head(3).with_columns(g=pl.lit(1))
    d = pl.concat([other, df.with_columns(g=pl.lit(0))])
    if c["ctx"] == "group":
        return d.group_by("g").agg(e).filter(pl.col("g") == 0)["o"][0]
    s = d.select("g", e.over("g")).filter(pl.col("g") == 0)["o"]
    if s.n_unique() != 1:
        fail("several values in one group")
    return s[0]


def expect(c, df, e, want, what, scale=1.0):
    rel = 3e-5 if c["dt"] == "f32" else REL
    got = evaluate(c, df, e)
    check_close(got, want, what, rel, rel * scale + ABS * scale)
    s = df.sample(fraction=1.0, shuffle=True, seed=c["seed"] % 1000)  # joint row order does not matter
    g2 = evaluate(dict(c, ctx="select"), s, e)
    check_close(g2, want, what + ", rows reordered", rel, rel * scale + ABS * scale)


def lab(c):
    return f"{c['kind']}" + ("+nulls" if c["nulls"] else "")


@law(st.fixed_dictionaries(dict(base, mean=st.booleans())), n=300, rule="by data kind")
def mad(c):
    r, df, a, p = data(c)
    w = np.mean(np.abs(a - a.mean())) if c["mean"] else np.median(np.abs(a - np.median(a)))
    expect(c, df, pds.query_mad("a", use_mean=c["mean"]), w, "mad", np.abs(a).max())
    return lab(c)


@law(st.fixed_dictionaries(dict(base, k=sized((1, 6), (1, 6), (1, 60)))), n=400, rule="by data kind; fewer rows than variables")
def r_squared(c):
    r, df, a, p = data(c, nulls=False)
    tot = np.sum((a - a.mean()) ** 2)
    if tot < 1e-6 or len(a) < 3:
        raise Skip
    r2 = 1 - np.sum((a - p) ** 2) / tot
    sc = (1 + abs(1 - r2)) * (1 + (1e4 if c["kind"] == "shifted" else 0))
    expect(c, df, pds.query_r2("a", "p"), r2, "r2", sc)
    if c["kind"] == "perfect" and c["dt"] not in ("mixed",):
        check_eq(evaluate(c, df, pds.query_r2("a", "p")), 1.0, "r2 of a perfect prediction")
    n, k = len(a), c["k"]
    if n - k - 1 != 0:
        expect(c, df, pds.query_adj_r2("a", "p", k), 1 - (1 - r2) * (n - 1) / (n - k - 1), "adjusted r2", sc * (n - 1) / abs(n - k - 1))
    return c["kind"] + (" few rows" if n - k - 1 < 0 else "")


@law(st.fixed_dictionaries(dict(base, norm=st.booleans(), delta=st.sampled_from([0.5, 1.0, 2.0, 1.5, 100.0]))), n=900, rule="by data kind")
def losses(c):
    r, df, a, p = data(c)
    d, n = np.abs(a - p), len(a)
    k = n if c["norm"] else 1
    sc = 1 + np.abs(a).max() + np.abs(p).max()
    expect(c, df, pds.query_l1("a", "p", normalize=c["norm"]), d.sum() / k, "l1", sc * (1 if c["norm"] else n))
    expect(c, df, pds.query_l2("a", "p", normalize=c["norm"]), (d**2).sum() / k, "l2", sc**2 * (1 if c["norm"] else n))
    expect(c, df, pds.query_l_inf("a", "p"), d.max(), "l_inf", sc)
    t = c["delta"]
    h = np.where(d <= t, d**2 / 2, t * (d - t / 2)).sum() / n
    expect(c, df, pds.query_hubor_loss("a", "p", delta=t), h, "huber", sc**2)
    if d.max() < 300:
        lc = np.sum(np.logaddexp(d, -d) - np.log(2.0)) / k
        dd = df if c["dt"] != "f32" else df.cast(pl.Float64)
        expect(dict(c, dt="f64"), dd, pds.query_log_cosh("a", "p", normalize=c["norm"]), lc, "log cosh", 1 + np.abs(lc))
    return lab(c)


@law(st.fixed_dictionaries(base), n=500, rule="by data kind")
def percentages(c):
    r, df, a, p = data(c)
    if np.any(np.abs(a) < 0.2):
        df = df.with_columns(pl.when(pl.col("a").abs() < 0.2).then(1).otherwise(pl.col("a")).cast(df["a"].dtype).alias("a"))
        a = np.where(np.abs(a) < 0.2, 1.0, a)
    m = np.abs(1 - p / a)
    expect(c, df, pds.query_mape("a", "p"), m.mean(), "mape", 1 + m.max())
    expect(c, df, pds.query_mape("a", "p", weighted=True), np.abs(a - p).sum() / np.abs(a).sum(), "weighted mape", 1 + m.max() + np.abs(a).max())
    s = np.abs(a - p) / (np.abs(a) + np.abs(p))
    expect(c, df, pds.query_smape("a", "p"), s.mean(), "smape", 1 + np.abs(a).max())
    return lab(c)


@law(st.fixed_dictionaries(dict(base, norm=st.booleans())), n=300, rule="by data kind")
def log_errors(c):
    r, df, a, p = data(c, positive=True)
    d = (np.log1p(a) - np.log1p(p)) ** 2
    dd = df if c["dt"] != "f32" else df.cast(pl.Float64)
    expect(dict(c, dt="f64"), dd, pds.query_msle("a", "p", normalize=c["norm"]), d.sum() / (len(a) if c["norm"] else 1), "msle", 1 + d.sum())
    return lab(c)


@law(st.fixed_dictionaries(dict(base, freq=st.integers(1, 6), mean=st.booleans(), train=st.sampled_from(["expr", "float", "name"]), split=st.floats(0.3, 0.8))), n=600,
     rule="by season length, mean or median")
def scaled_error(c):
    r, df, a, p = data(dict(c, n=max(c["n"], 8)), nulls=False)
    n = len(a)
    f = np.mean if c["mean"] else np.median
    cut = max(c["freq"] + 1, int(n * c["split"]))
    if cut >= n:
        raise Skip
    df = df.with_columns(t=pl.arange(0, n))
    if c["train"] == "float":
        sc = float(r.uniform(0.1, 5))
        got = df.select(pds.query_mase("a", "p", train=sc, use_mean=c["mean"]).alias("o"))["o"][0]
        w = f(np.abs(a - p)) / sc
    elif c["train"] == "name":
        den = f(np.abs(a[c["freq"] :] - a[: -c["freq"]]))
        if den < 1e-6:
            raise Skip
        got = df.select(pds.query_mase("a", "p", train="a", freq=c["freq"], use_mean=c["mean"]).alias("o"))["o"][0]
        w = f(np.abs(a - p)) / den
    else:
        tr = a[:cut]
        den = f(np.abs(tr[c["freq"] :] - tr[: -c["freq"]]))
        if den < 1e-6:
            raise Skip
        t = pl.col("t")
        got = df.select(pds.query_mase(pl.col("a").filter(t >= cut), pl.col("p").filter(t >= cut), pl.col("a").filter(t < cut), freq=c["freq"],
                                       use_mean=c["mean"]).alias("o"))["o"][0]
        w = f(np.abs(a[cut:] - p[cut:])) / den
    rel = 1e-3 if c["dt"] == "f32" else 1e-8
    check_close(got, w, "mase", rel, rel * (1 + abs(w)))
    return f"freq{c['freq']}-{'mean' if c['mean'] else 'median'}" if c["freq"] > 1 else c["train"]


@law(st.fixed_dictionaries(dict(base, q=st.sampled_from([0.5, 0.2]))), n=300, rule="both groups present")
def fairness(c):
    r, df, a, p = data(c, nulls=False)
    n = len(a)
    z = r.random(n) < c["q"]
    if len(set(z)) < 2:
        raise Skip
    df = df.with_columns(z=pl.Series(z), s=pl.Series(np.where(z, 3, 7)))
    w = abs(p[z].mean() - p[~z].mean())
    for cond in (pl.col("z"), pl.col("s") == 3, ~pl.col("z"), pl.col("s") > 3):
        expect(dict(c, ctx="select"), df, pds.query_fairness("p", cond), w, "fairness", 1 + np.abs(p).max())
    return True


# ------------------------------------------------------------------------------------------------------- ranking
def dcg(gain, k):
    d = 1 / np.log2(np.arange(len(gain)) + 2)
    if k:
        d[k:] = 0
    return gain @ d


def ndcg_ref(rel, score, k, ties):
    """Expected DCG over random orders of the tied rows, over the ideal DCG."""
    o = np.argsort(-score, kind="stable")
    rr, ss = rel[o].astype(float), score[o]
    if ties:
        for v in np.unique(ss):
            rr[ss == v] = rr[ss == v].mean()
    ideal = dcg(np.sort(rel)[::-1].astype(float), k)
    return dcg(rr, k) / ideal if ideal else 0.0


@law(st.fixed_dictionaries(dict(seed=seeds, groups=st.integers(1, 6), size=st.integers(1, 9), k=st.one_of(st.none(), st.integers(1, 10)), tied=st.booleans(),
                                name=st.sampled_from(["query", "example_id", "user"]), zero=st.booleans(), shuffled=st.booleans(), frel=st.booleans())), n=800,
     rule="by ties, truncated or not")
def ranking(c):
    r = rng(c["seed"])
    rows = []
    for g in range(c["groups"]):
        m = 1 + int(r.integers(0, c["size"]))
        s = r.integers(0, 3, m) / 2.0 if c["tied"] else r.permutation(20)[:m] / 2.0
        rel = r.integers(0, 5, m)
        if c["zero"] and g == 0:
            rel = np.zeros(m, int)
        if c["frel"]:
            rel = rel / 2
        rows += [(10 - g, s[i], rel[i]) for i in range(m)]
    if c["shuffled"]:
        rows = [rows[i] for i in r.permutation(len(rows))]
    df = pl.DataFrame(rows, schema={c["name"]: pl.Int64, "score": pl.Float64, "relevance": pl.Float64 if c["frel"] else pl.Int64}, orient="row")
    vals = []
    for _, d in df.group_by(c["name"]):
        if d.height > 1:
            vals.append(ndcg_ref(d["relevance"].to_numpy(), d["score"].to_numpy(), c["k"], c["tied"]))
    if not vals:
        raise Skip
    keep = df.clone()
    out = calculate_ndcg(df, "relevance", "score", c["name"], k=c["k"], ignore_ties=c["tied"])
    check_eq(out.shape, (1, 1), "shape")
    if not df.equals(keep):
        fail("the input changed")
    check_close(out.item(), np.mean(vals), "ndcg", 1e-9, 1e-9)
    if not -1e-12 <= out.item() <= 1 + 1e-12:
        fail("ndcg outside [0, 1]", got=out.item())
    return ("ties" if c["tied"] else "distinct") + ("@k" if c["k"] else "")


@law(st.fixed_dictionaries(dict(base, a=POW2)), n=250, rule="by scale")
def scales(c):
    """Absolute errors scale with the data, relative ones do not."""
    r, df, a, p = data(dict(c, dt="f64"), nulls=False)
    f = 2.0 ** c["a"]
    sc = df.select(pl.all() * f)
    F = {k: (e, e, f**d) for k, e, d in (
        ("mad", pds.query_mad("a", use_mean=False), 1), ("mean mad", pds.query_mad("a", use_mean=True), 1), ("l1", pds.query_l1("a", "p"), 1), ("l2", pds.query_l2("a", "p"), 2),
        ("l_inf", pds.query_l_inf("a", "p"), 1), ("r2", pds.query_r2("a", "p"), 0), ("adjusted r2", pds.query_adj_r2("a", "p", 2), 0), ("mase", pds.query_mase("a", "p", train="a"), 0),
        ("weighted mape", pds.query_mape("a", "p", weighted=True), 0), ("fairness", pds.query_fairness("p", pl.col("a") > 0), 1))}
    if np.abs(a).min() > 0:
        F.update(mape=(pds.query_mape("a", "p"),) * 2 + (1.0,), smape=(pds.query_smape("a", "p"),) * 2 + (1.0,))
    F["huber"] = (pds.query_hubor_loss("a", "p", delta=1.5), pds.query_hubor_loss("a", "p", delta=1.5 * f), f * f)
    homogeneous(df, sc, F)
    return f"{c['kind']} {c['a']}"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 140000)), k=st.integers(1, 70000), freq=st.sampled_from([1, 12, 65600]), norm=st.booleans(), q=st.sampled_from([0.5, 0.001]))), n=4, rule="any")
def many_rows(c):
    """More rows than 16 bits count."""
    r = rng(c["seed"])
    n = c["n"]
    a = np.round(r.normal(size=n) * 3 + 4, 4)
    p = np.round(a + r.normal(size=n), 4)
    g = r.random(n) < c["q"]
    df = pl.DataFrame({"a": a, "p": p, "g": g, "u": np.abs(a) + 0.5, "v": np.abs(p) + 0.5})
    d, m = np.abs(a - p), n if c["norm"] else 1
    u, v = np.abs(a) + 0.5, np.abs(p) + 0.5
    r2 = 1 - (d**2).sum() / ((a - a.mean()) ** 2).sum()
    want = dict(mad=(pds.query_mad("a", use_mean=True), np.abs(a - a.mean()).mean()), median=(pds.query_mad("a", use_mean=False), np.median(np.abs(a - np.median(a)))),
                r2=(pds.query_r2("a", "p"), r2), l1=(pds.query_l1("a", "p", normalize=c["norm"]), d.sum() / m), l2=(pds.query_l2("a", "p", normalize=c["norm"]), (d * d).sum() / m), linf=(pds.query_l_inf("a", "p"), d.max()),
                huber=(pds.query_hubor_loss("a", "p", delta=1.0), np.where(d <= 1, d * d / 2, d - 0.5).mean()), cosh=(pds.query_log_cosh("a", "p", normalize=c["norm"]), np.log(np.cosh(a - p)).sum() / m),
                msle=(pds.query_msle("u", "v", normalize=c["norm"]), ((np.log1p(u) - np.log1p(v)) ** 2).sum() / m), mase=(pds.query_mase("a", "p", train="a", freq=c["freq"]), d.mean() / np.abs(a[c["freq"] :] - a[: -c["freq"]]).mean()))
    if n - c["k"] - 1:
        want["adjusted r2"] = (pds.query_adj_r2("a", "p", c["k"]), 1 - (1 - r2) * (n - 1) / (n - c["k"] - 1))
    got = df.select(**{k: e for k, (e, _) in want.items()}).row(0, named=True)
    for k, (_, w) in want.items():
        check_close(got[k], float(w), k, 1e-8, 1e-9)
    return True
