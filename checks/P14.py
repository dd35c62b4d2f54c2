"""Correlations, weighted statistics, cosine similarities and winsorising against their definitions."""
import itertools
import warnings
from scipy import stats as S
from scipy.stats import norm
from checks.common import *
from polars_ds.exprs.stats import winsorize as wins

warnings.filterwarnings("ignore")
CTX = st.sampled_from(["select", "group", "over", "lazy"])
RANKS = st.sampled_from(["normal", "ties", "few", "mono", "anti", "heavy", "offset", "onetie", "outlier", "close"])
base = dict(seed=seeds, n=sized((2, 10), (11, 60), (61, 400)), kind=st.sampled_from(["normal", "ties", "few", "mono", "anti", "heavy", "offset", "onetie", "outlier"]),
            dt=st.sampled_from(["f64", "f64", "i64", "f32"]), ctx=CTX, cuts=cuts_st)


def pair(c, positive=False):
    r = rng(c["seed"])
    n, k = c["n"], c["kind"]
    x = r.normal(size=n)
    y = r.normal(size=n) + r.choice([0, 0.8, -0.8]) * x
    if k == "ties":
        x, y = r.integers(-4, 5, n) / 2, r.integers(-4, 5, n) / 2
    if k == "few":
        x, y = r.integers(0, 2, n) * 1.0, r.integers(0, 3, n) * 1.0
    if k == "close":  # distinct values that differ in the last digits only
        x, y = 1 + r.integers(-6, 7, n) * 2.0**-48, 1 + r.integers(-6, 7, n) * 2.0**-48
    if k == "mono":
        y = np.round(x, 1)
    if k == "anti":
        y = -(x**3)
    if k == "heavy":
        x, y = r.standard_t(1.3, n), r.standard_t(1.3, n)
    if k == "offset":
        x, y = x + 50, y - 50
    if k == "onetie":  # a single tie, at the extreme of one side
        y[np.argsort(y)[-2:]] = y.max()
        x[np.argsort(x)[:2]] = x.min()
    if k == "outlier":
        y[r.integers(n)] = 1e4
    if positive:
        x, y = np.abs(x) + 0.1, np.abs(y) + 0.1
    if c["dt"] == "i64":
        x, y = np.round(x * 3) + (1 if positive else 0), np.round(y * 3) + (1 if positive else 0)
    if c["dt"] == "f32":
        x, y = x.astype(np.float32).astype(float), y.astype(np.float32).astype(float)
    T = {"i64": pl.Int64, "f32": pl.Float32}.get(c["dt"], pl.Float64)
    df = pl.DataFrame({"x": pl.Series(x).cast(T), "y": pl.Series(y).cast(T)})
    df = df.with_columns(chunk(df["x"], c["cuts"]), chunk(df["y"], c["cuts"][::-1]))
    return r, df, x, y


def tau_b(x, y):
    """From the definition, over all pairs."""
    n = len(x)
    i, j = np.triu_indices(n, 1)
    with np.errstate(invalid="ignore"):
        sx = np.sign((x[i] > x[j]).astype(int) - (x[i] < x[j]).astype(int))
        sy = np.sign((y[i] > y[j]).astype(int) - (y[i] < y[j]).astype(int))
    a, b = np.count_nonzero(sx), np.count_nonzero(sy)
    return NAN if a == 0 or b == 0 else float((sx * sy).sum() / np.sqrt(float(a) * float(b)))


@law(st.fixed_dictionaries(dict(base, kind=RANKS, dirt=st.sampled_from([0, 0.1, 0.3]))), n=900, rule="by data kind, with or without dirt", thorough=10)
def kendall(c):
    r, df, x, y = pair(c)
    n = len(x)
    if c["dirt"] and c["dt"] != "i64":
        X, Y = list(map(float, x)), list(map(float, y))
        for L in (X, Y):
            for i in range(n):
                if r.random() < c["dirt"]:
                    L[i] = [None, NAN, float("inf"), -float("inf")][r.integers(4)]
        T = df["x"].dtype
        df = pl.DataFrame({"x": pl.Series(X, dtype=T), "y": pl.Series(Y, dtype=T)})
        df = df.with_columns(chunk(df["x"], c["cuts"]), chunk(df["y"], c["cuts"][::-1]))
        ok = [i for i in range(n) if all(v is not None and not math.isnan(v) for v in (X[i], Y[i]))]
        x, y = np.array([X[i] for i in ok]), np.array([Y[i] for i in ok])
    want = tau_b(x, y) if len(x) > 1 else NAN
    got = one(c["ctx"], df, pds.kendall_tau("x", "y"))
    check_close(got, want, "kendall", 1e-12, 1e-13)
    check_close(one("select", df, pds.kendall_tau("y", "x")), want, "kendall, swapped", 1e-12, 1e-13)
    sh = df.sample(fraction=1.0, shuffle=True, seed=c["seed"] % 997)
    check_close(one("select", sh, pds.corr("x", "y", method="kendall")), want, "kendall, rows reordered", 1e-12, 1e-13)
    if c["dt"] != "i64" or True:
        check_close(one("select", df, pds.kendall_tau("x", -pl.col("y"))), -want, "kendall, y negated", 1e-12, 1e-13)
    return f"{c['kind']}{'+dirt' if c['dirt'] else ''}"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((1000, 4000)), levels=st.sampled_from([2, 30, 10**6]), rho=st.floats(-1, 1))), n=40, rule="large samples", thorough=10)
def kendall_large(c):
    r = rng(c["seed"])
    x = r.normal(size=c["n"])
    y = c["rho"] * x + (1 - abs(c["rho"])) * r.normal(size=c["n"])
    x, y = np.round(x * c["levels"] / 3), np.round(y * c["levels"] / 3)
    o = S.kendalltau(x, y).statistic
    got = pl.DataFrame({"x": x, "y": y}).select(pds.kendall_tau("x", "y").alias("o"))["o"][0]
    check_close(got, o, "kendall", 1e-12, 1e-13)
    return f"{c['levels']}"


@law(st.fixed_dictionaries(dict(base, c=st.sampled_from([9.0, 6.0, 3.0, 1.0]))), n=400, rule="by data kind", thorough=10)
def biweight(c):
    r, df, x, y = pair(c)

    def w(v):
        m = np.median(v)
        mad = np.median(np.abs(v - m))
        if mad < 1e-9 * (1 + np.abs(v).max()):
            raise Skip
        u = (v - m) / (c["c"] * mad)
        if np.any(np.abs(np.abs(u) - 1) < 1e-5):
            raise Skip
        z = (v - m) * np.where(np.abs(u) < 1, (1 - u**2) ** 2, 0)
        return z

    a, b = w(x), w(y)
    if a @ a < 1e-12 or b @ b < 1e-12:
        raise Skip
    want = a @ b / np.sqrt((a @ a) * (b @ b))
    tol = 2e-4 if c["dt"] == "f32" else 1e-9
    if c["dt"] == "f32" and c["kind"] == "offset":
        tol = 2e-2
    check_close(one(c["ctx"], df, pds.bicor("x", "y", c=c["c"])), want, "bicor", tol, tol)
    check_close(one("select", df, pds.bicor("y", "x", c=c["c"])), want, "bicor, swapped", tol, tol)
    if c["c"] == 9.0:
        check_close(one("select", df, pds.corr("x", "y", method="bicor")), want, "corr bicor", tol, tol)
    return c["kind"]


def xi_def(x, y):
    """x distinct."""
    n = len(y)
    y = y[np.argsort(x, kind="stable")]
    rk = np.array([(y <= v).sum() for v in y], float)
    l = np.array([(y >= v).sum() for v in y], float)
    d = 2 * (l * (n - l)).sum()
    return 1 - n * np.abs(np.diff(rk)).sum() / d if d else NAN


@law(st.fixed_dictionaries(dict(base, kind=RANKS, s=st.one_of(st.none(), st.integers(0, 99)), ydt=st.sampled_from(["f64", "f64", "u8", "i8", "u32"]))), n=500, rule="by data kind", thorough=10)
def xi(c):
    r, df, x, y = pair(dict(c, dt="f64"))
    x = r.permutation(len(y)) * 0.5 - 3 if c["kind"] in ("ties", "few", "onetie", "close") or len(set(x)) < len(x) else x
    df = df.with_columns(x=pl.Series(x))
    if c["ydt"] != "f64":  # integers, up to the ends of the type
        lo, hi = {"u8": (0, 255), "i8": (-128, 127), "u32": (0, 2**32 - 1)}[c["ydt"]]
        y = np.where(r.random(len(y)) < 0.2, np.where(r.random(len(y)) < 0.5, lo, hi), np.clip(np.round(y), lo, hi)).astype(np.int64)
        df = df.with_columns(y=pl.Series(y, dtype={"u8": pl.UInt8, "i8": pl.Int8, "u32": pl.UInt32}[c["ydt"]]))
        y = y.astype(float)
    df = df.with_columns(chunk(df["x"], c["cuts"]))
    want = xi_def(x, y)
    if math.isnan(want):
        raise Skip
    got = one(c["ctx"], df, pds.xi_corr("x", "y", seed=c["s"]))
    check_close(got, want, "xi", 1e-10, 1e-11)
    check_close(one("select", df, pds.corr("x", "y", method="xi")), want, "corr xi", 1e-10, 1e-11)
    g = one(c["ctx"], df, pds.xi_corr("x", "y", seed=c["s"], return_p=True))
    check_close(g["statistic"], want, "xi with p", 1e-10, 1e-11)
    n = len(y)
    p = NAN if n < 30 else 2 * norm.sf(np.sqrt(n) * abs(want) / np.sqrt(0.4))
    check_close(g["pvalue"], p, "xi p-value", 1e-7, 1e-15)
    return c["kind"]


@law(st.fixed_dictionaries(dict(seed=seeds, n=st.integers(2, 7), s=st.integers(0, 999))), n=300, rule="tied x", thorough=10)
def xi_ties(c):
    """Ties in x are broken at random: the result is one of those of a tie-breaking order, and a seed fixes it."""
    r = rng(c["seed"])
    x, y = r.integers(0, 3, c["n"]).astype(float), r.integers(0, 5, c["n"]).astype(float)
    if len(set(y)) < 2:
        raise Skip
    df = pl.DataFrame({"x": x, "y": y})
    got = one("select", df, pds.xi_corr("x", "y", seed=c["s"]))
    check_close(one("select", df, pds.xi_corr("x", "y", seed=c["s"])), got, "xi with the same seed", 0, 0)
    poss = {round(xi_def(x + 1e-3 * np.array(p), y), 9) for p in itertools.permutations(range(c["n"]))} if c["n"] <= 6 else None
    if poss is not None and not any(abs(got - p) < 1e-8 for p in poss):
        fail("xi is not the value of any order of the tied rows", got=got, possible=sorted(poss))
    return len(set(x)) < c["n"]


@law(st.fixed_dictionaries(dict(base)), n=300, rule="by data kind", thorough=10)
def classic(c):
    r, df, x, y = pair(c)
    if x.std() < 1e-9 or y.std() < 1e-9:
        raise Skip
    tol = 1e-4 if c["dt"] == "f32" else 1e-9
    if c["kind"] == "offset":
        tol *= 100
    check_close(one(c["ctx"], df, pds.corr("x", "y")), S.pearsonr(x, y).statistic, "pearson", tol, tol)
    check_close(one(c["ctx"], df, pds.corr("x", "y", method="spearman")), S.spearmanr(x, y).statistic, "spearman", tol, tol)
    return c["kind"]


def weights(c, r, n):
    k = c["w"]
    w = {"unit": np.ones(n), "int": r.integers(1, 9, n) * 1.0, "real": r.random(n) + 0.05, "one": np.where(np.arange(n) == r.integers(n), 1.0, 1e-3), "skew": np.exp(2 * r.normal(size=n)),
         "big": r.integers(1, 6, n) * 1e4}[k]
    return w


@law(st.fixed_dictionaries(dict(base, w=st.sampled_from(["unit", "int", "real", "one", "skew", "big"]), norm=st.booleans(), asname=st.booleans(), wint=st.booleans())), n=900,
     rule="by data kind and weights", thorough=10)
def weighted(c):
    pos = c["seed"] % 2 == 0
    r, df, x, y = pair(c, positive=pos)
    n = len(x)
    w = weights(c, r, n)
    if c["norm"]:
        w = w / w.sum()
    W = pl.Series("w", w)
    if c["wint"] and not c["norm"] and c["w"] in ("unit", "int", "big"):
        W = W.cast(pl.Int64)
    df = df.with_columns(chunk(W, c["cuts"]))
    X, Y = ("x", "y") if c["asname"] else (pl.col("x"), pl.col("y"))
    f32 = c["dt"] == "f32"
    tol = 3e-5 if f32 else 1e-9
    N = c["norm"]
    sw = w.sum()
    sx, sy = 1 + np.abs(x).max(), 1 + np.abs(y).max()
    E = lambda e: one(c["ctx"], df, e)
    mx, my = (w * x).sum() / sw, (w * y).sum() / sw
    vx, vy = (w * (x - mx) ** 2).sum(), (w * (y - my) ** 2).sum()
    cxy = (w * (x - mx) * (y - my)).sum()
    check_close(E(pds.weighted_mean(X, "w", is_normalized=N)), mx, "weighted mean", tol, tol * sx)
    check_close(E(pds.weighted_var(X, "w")), vx / sw, "weighted variance", tol, tol * sx * sx)
    if abs(sw - 1) > 1e-3:
        check_close(E(pds.weighted_var(X, pl.col("w"), freq_weights=True)), vx / (sw - 1), "weighted variance (frequencies)", tol, tol * sx * sx * abs(sw / (sw - 1)))
    check_close(E(pds.weighted_cov(X, Y, pl.col("w"))), cxy / sw, "weighted covariance", tol, tol * sx * sy)
    if vx / sw > 1e-7 * sx * sx and vy / sw > 1e-7 * sy * sy:
        rel = sx * sy * sw / np.sqrt(vx * vy) * (1 + max(sx**2 * sw / vx, sy**2 * sw / vy) * 0.01)
        check_close(E(pds.weighted_corr(X, Y, "w")), cxy / np.sqrt(vx * vy), "weighted correlation", tol, tol * rel)
        check_close(E(pds.weighted_corr(X, Y, pl.col("w") * 8)), cxy / np.sqrt(vx * vy), "weighted correlation, weights scaled", tol, tol * rel)
    nx, ny = (w * x * x).sum(), (w * y * y).sum()
    if nx > 1e-9 and ny > 1e-9:
        cs = (w * x * y).sum() / np.sqrt(nx * ny)
        check_close(E(pds.weighted_cosine_sim(X, Y, "w")), cs, "weighted cosine similarity", tol, tol)
    if (x @ x) > 1e-9 and (y @ y) > 1e-9:
        check_close(E(pds.cosine_sim(X, Y)), x @ y / np.sqrt((x @ x) * (y @ y)), "cosine similarity", tol, tol)
    if pos:
        check_close(E(pds.hmean(X)), n / (1 / x).sum(), "harmonic mean", tol, tol * sx)
        check_close(E(pds.gmean(X)), np.exp(np.log(x).mean()), "geometric mean", tol, tol * sx)
        check_close(E(pds.weighted_hmean(X, "w", is_normalized=N)), sw / (w / x).sum(), "weighted harmonic mean", tol, tol * sx)
        check_close(E(pds.weighted_gmean(X, pl.col("w"), is_normalized=N)), np.exp((w * np.log(x)).sum() / sw), "weighted geometric mean", tol, tol * sx)
    return f"{c['kind']} {c['w']} {'pos' if pos else ''}"


POW2 = st.sampled_from([0, 0, -24, -60, -100, 27, 60, 100])


@law(st.fixed_dictionaries(dict(base, a=POW2, b=POW2, d=st.sampled_from([0, -30, 20]), freq=st.booleans())), n=250, rule="by scale", thorough=10)
def scales(c):
    """Every statistic is homogeneous: multiplying a column or the weights by a power of two multiplies the result by a known one."""
    r, df, x, y = pair(dict(c, dt="f64"), positive=c["seed"] % 2 == 0)
    if len(set(x)) < 2 or len(set(y)) < 2:
        raise Skip
    n = len(x)
    w = r.random(n) + 0.05
    a, b, d = 2.0 ** c["a"], 2.0 ** c["b"], 2.0 ** c["d"]
    df = pl.DataFrame({"x": x, "y": y, "w": w})
    sc = pl.DataFrame({"x": x * a, "y": y * b, "w": w * d})
    sc = sc.with_columns(*[chunk(sc[k], c["cuts"]) for k in "xyw"])
    F = {
        "weighted_mean": (pds.weighted_mean("x", "w"), a), "weighted_var": (pds.weighted_var("x", "w"), a * a), "weighted_cov": (pds.weighted_cov("x", "y", "w"), a * b),
        "weighted_corr": (pds.weighted_corr("x", "y", "w"), 1), "weighted_cosine_sim": (pds.weighted_cosine_sim("x", "y", "w"), 1), "cosine_sim": (pds.cosine_sim("x", "y"), 1),
        "kendall": (pds.kendall_tau("x", "y"), 1), "bicor": (pds.bicor("x", "y"), 1), "pearson": (pds.corr("x", "y"), 1), "spearman": (pds.corr("x", "y", method="spearman"), 1),
        "winsorize": (wins("x", q_low=0.1, q_high=0.8).max(), a),
    }
    if len(set(x)) == n:
        F["xi"] = (pds.xi_corr("x", "y", seed=1), 1)
    if (x > 0).all():
        F.update(hmean=(pds.hmean("x"), a), weighted_hmean=(pds.weighted_hmean("x", "w"), a), gmean=(pds.gmean("x"), a), weighted_gmean=(pds.weighted_gmean("x", "w"), a))
    for k, (e, f) in F.items():
        u = one("select", df, e)
        if u is None or not math.isfinite(u) or (k == "bicor" and abs(u) < 1e-9):
            continue
        check_close(one(c["ctx"], sc, e), u * f, k + " of scaled columns", 1e-9, 1e-12 * f)
    return f"{min(c['a'], c['b'])}..{max(c['a'], c['b'])}"


@law(st.fixed_dictionaries(dict(base, lo=st.sampled_from([0.05, 0.01, 0.3, 0.5, 0.9]), d=st.sampled_from([0.9, 0.5, 0.1]), m=st.sampled_from(["nearest", "lower", "higher", "midpoint", "linear"]),
                                nulls=st.sampled_from([0, 0.2]))), n=500, rule="something clipped", thorough=10)
def winsorise(c):
    r, df, x, y = pair(c)
    hi = c["lo"] + (1 - c["lo"]) * c["d"]
    if c["dt"] == "i64" and c["m"] in ("midpoint", "linear"):
        c = dict(c, m="nearest")
    s = df["x"]
    if c["nulls"]:
        s = pl.select(pl.when(pl.Series(r.random(len(x)) > c["nulls"])).then(s).otherwise(None).alias("x"))["x"]
        df = df.with_columns(chunk(s, c["cuts"]))
    vals = np.sort([v for v in s.to_list() if v is not None])
    if len(vals) == 0:
        raise Skip
    got = df.select(wins("x", q_low=c["lo"], q_high=hi, method=c["m"]).alias("o"))["o"]
    check_eq(got.dtype, df["x"].dtype, "winsorised dtype")

    def cand(q):
        i = q * (len(vals) - 1)
        k = int(round(i))
        if abs(i - k) < 1e-7 and c["m"] != "linear":  # the position is a whole number up to rounding
            near = {"lower": [k - 1, k], "higher": [k, k + 1], "nearest": [k], "midpoint": [k]}[c["m"]]
            v = [vals[j] for j in near if 0 <= j < len(vals)]
            return v + ([(vals[k] + vals[j]) / 2 for j in (k - 1, k + 1) if 0 <= j < len(vals)] if c["m"] == "midpoint" else [])
        a, b = vals[math.floor(i + 1e-9)], vals[min(math.ceil(i - 1e-9), len(vals) - 1)]
        if c["m"] == "lower":
            return [a]
        if c["m"] == "higher":
            return [b]
        if c["m"] == "linear":
            return [a + (i - math.floor(i + 1e-9)) * (b - a)]
        if c["m"] == "midpoint":
            return [(a + b) / 2]
        f = i - math.floor(i)
        return [a, b] if abs(f - 0.5) < 1e-6 else [vals[int(round(i))]]

    tol = 1e-5 if c["dt"] == "f32" else 1e-11
    g = got.to_list()
    for lo, h in itertools.product(cand(c["lo"]), cand(hi)):
        want = [None if v is None else min(max(v, lo), h) for v in s.to_list()]
        if all(close(a, b, tol, tol) for a, b in zip(g, want)):
            break
    else:
        fail("winsorised values", got=g[:30], x=s.to_list()[:30], low=cand(c["lo"]), high=cand(hi))
    for bad in ((0.0, 0.5), (0.5, 1.0), (0.6, 0.4), (0.5, 0.5), (-0.1, 0.5)):
        if not raises(lambda: wins("x", *bad)):
            fail("quantiles that are not 0 < low < high < 1 were accepted", q=bad)
    return any(a != b for a, b in zip(g, s.to_list()))


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 140000)), levels=st.sampled_from([2, 30, 10**6]), rho=st.sampled_from([-0.9, -0.2, 0.01, 0.6]), ctx=CTX)), n=6, rule="by number of distinct values", thorough=8)
def many_rows(c):
    """Numbers of rows whose pairs are more than 32 bits count."""
    r = rng(c["seed"])
    n = c["n"]
    x = r.normal(size=n)
    y = c["rho"] * x + (1 - abs(c["rho"])) * r.normal(size=n)
    x, y = np.round(x * c["levels"] / 3), np.round(y * c["levels"] / 3)
    w = r.integers(1, 5, n).astype(float)
    df = pl.DataFrame({"x": x, "y": y, "w": w, "k": r.permutation(n) * 1.0})
    g = lambda e: one(c["ctx"], df, e)
    check_close(g(pds.kendall_tau("x", "y")), S.kendalltau(x, y).statistic, "kendall", 1e-9, 1e-10)
    check_close(g(pds.corr("x", "y", method="kendall")), S.kendalltau(x, y).statistic, "corr kendall", 1e-9, 1e-10)
    check_close(g(pds.corr("x", "y", method="spearman")), S.spearmanr(x, y).statistic, "spearman", 1e-8, 1e-9)
    k = df["k"].to_numpy()
    o = y[np.argsort(k)]
    rk, l = S.rankdata(o, method="max"), S.rankdata(-o, method="max")
    check_close(g(pds.xi_corr("k", "y")), 1 - n * np.abs(np.diff(rk)).sum() / (2 * (l * (n - l)).sum()), "xi", 1e-8, 1e-9)
    m = np.average(x, weights=w)
    check_close(g(pds.weighted_mean("x", "w")), m, "weighted mean", 1e-8, 1e-9)
    check_close(g(pds.weighted_var("x", "w", freq_weights=True)), (w * (x - m) ** 2).sum() / (w.sum() - 1), "weighted variance", 1e-8, 1e-9)
    return str(c["levels"])
