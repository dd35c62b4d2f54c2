"""Entropies: Shannon, conditional, sample, approximate, nearest-neighbour, copula, transfer, permutation; against exhaustive evaluation."""
import warnings
from collections import Counter
from scipy import special as SP, stats as SS
from scipy.spatial.distance import cdist
from checks.common import *

warnings.filterwarnings("ignore")
CTX = st.sampled_from(["select", "lazy", "group", "over"])
el = {"str": st.sampled_from(["a", "b", "c", "", "é"]), "i64": st.integers(-2, 5), "bool": st.booleans(), "f64": st.integers(-3, 3).map(lambda v: v / 2)}
T = {"str": pl.String, "i64": pl.Int64, "bool": pl.Boolean, "f64": pl.Float64}


@st.composite
def discrete(draw):
    n = draw(sized((1, 25), (1, 80)))
    k = [draw(st.sampled_from(list(el))) for _ in range(2)]
    nl = draw(st.booleans())
    cols = [draw(st.lists(st.one_of(el[q], el[q], st.none()) if nl else el[q], min_size=n, max_size=n)) for q in k]
    return dict(k=k, cols=cols, cuts=draw(cuts_st), ctx=draw(CTX), base=draw(st.sampled_from([math.e, 2.0, 10.0])), perm=draw(seeds))


def H(counts, base=math.e):
    n = sum(counts)
    return -sum(c / n * math.log(c / n) for c in counts) / math.log(base)


@law(discrete(), n=600, rule="by dtypes, nulls", thorough=10)
def shannon_and_conditional(c):
    x, y = c["cols"]
    df = chunk_df(pl.DataFrame({"x": pl.Series(x, dtype=T[c["k"][0]]), "y": pl.Series(y, dtype=T[c["k"][1]])}), c["cuts"])
    g = lambda e: one(c["ctx"], df, e)
    hx, hy, hxy = H(Counter(x).values()), H(Counter(y).values()), H(Counter(zip(x, y)).values())
    shannon = c["k"][0] != "bool"  # polars has no unique_counts for booleans
    if shannon:
        check_close(g(pds.query_entropy("x", base=c["base"])), H(Counter(x).values(), c["base"]), "entropy", 1e-9, 1e-12)
    a, b = g(pds.query_cond_entropy("x", "y")), g(pds.query_cond_entropy(pl.col("y"), "x"))
    check_close(a, hxy - hy, "conditional entropy", 1e-9, 1e-9, x=x, y=y)
    check_close(b, hxy - hx, "conditional entropy, swapped", 1e-9, 1e-9, x=x, y=y)
    check_close(g(pds.query_cond_entropy("x", pl.col("x"))), 0.0, "entropy of x given x", 0, 1e-9)
    sh = df.sample(fraction=1.0, shuffle=True, seed=c["perm"])
    check_close(sh.select(pds.query_cond_entropy("x", "y").alias("o"))["o"][0], a, "conditional entropy of shuffled rows", 1e-9, 1e-12)
    if shannon:
        check_close(sh.select(pds.query_entropy("x").alias("o"))["o"][0], hx, "entropy of shuffled rows", 1e-9, 1e-12)
    return ",".join(c["k"]) + ("+null" if None in x + y else "")


@st.composite
def series(draw, lo=3, hi=40, big=120):
    dt = draw(st.sampled_from(["f64", "f64", "f32", "i64", "u8"]))
    kind = draw(st.sampled_from(["grid", "tied", "norm", "walk", "sine", "const"]))
    r = rng(draw(seeds))
    n = draw(sized((lo, hi), (lo, big)))
    v = {"grid": lambda: r.integers(-8, 9, n) / 2, "tied": lambda: r.integers(0, 3, n) * 1.0, "norm": lambda: r.normal(size=n) * 3, "walk": lambda: np.cumsum(r.normal(size=n)),
         "sine": lambda: np.sin(np.arange(n) * 0.7) + 0.1 * r.normal(size=n), "const": lambda: np.where(r.random(n) < 0.1, 2.0, 1.0)}[kind]()
    if dt in ("i64", "u8"):
        v = np.round(v * 2)
    if dt == "u8":
        v = np.abs(v) % 256
    if dt == "f32":
        v = v.astype(np.float32).astype(float)
    return dict(dt=dt, kind=kind, v=[float(x) for x in v], cuts=draw(cuts_st), ctx=draw(CTX))


def frame(c, name="x"):
    D = {"f64": pl.Float64, "f32": pl.Float32, "i64": pl.Int64, "u8": pl.UInt8}[c["dt"]]
    return pl.DataFrame({name: chunk(pl.Series(name, c["v"], dtype=pl.Float64).cast(D), c["cuts"])})


def counts(v, m, r, rows):
    W = np.array([v[i : i + m] for i in range(rows)])
    D = cdist(W, W, "chebyshev")
    eps = 1e-9 * (1 + abs(v).max())
    if (abs(D - r) < eps).any():
        raise Skip  # a distance on the radius
    return (D <= r).sum(1)


@law(st.tuples(series(lo=1), st.integers(2, 4), st.sampled_from([0.2, 0.1, 0.5, 1.0, 0.37]), st.booleans()), n=500, rule="by dtype, m, parallel; with matches", thorough=10)
def sample_entropy(c):
    c, m, ratio, par = c
    v = np.array(c["v"])
    n = len(v)
    r = ratio * v.std() if n else 0.0
    df = frame(c)
    got = one(c["ctx"], df, pds.query_sample_entropy("x", ratio=ratio, m=m, parallel=par))
    check_close(one(c["ctx"], df, pds.query_sample_entropy("x", ratio=ratio, m=m, parallel=not par)), got, "sample entropy, parallel or not", 1e-12)
    if n - m + 1 < m + 1 or r < 1e-9:
        if n - m + 1 < m + 1 and not math.isnan(got):
            fail("sample entropy of a short series is not NaN", n=n, m=m, got=got)
        return None
    B = int(counts(v, m, r, n - m + 1).sum()) - (n - m + 1)
    A = int(counts(v, m + 1, r, n - m).sum()) - (n - m)
    w = math.log(B / A) if A and B else (math.inf if B else NAN)
    check_close(got, w, "sample entropy", 1e-9, 1e-12, A=A, B=B)
    return f"{c['dt']},{m},{par}" if A else None


@law(st.tuples(series(lo=1), st.integers(2, 4), st.sampled_from([0.2, 0.1, 0.5, 1.3]), st.booleans(), st.booleans()), n=500, rule="by dtype, m, scale, parallel", thorough=10)
def approximate_entropy(c):
    c, m, lev, scale, par = c
    v = np.array(c["v"])
    n = len(v)
    r = lev * (v.std(ddof=1) if n > 1 else 0.0) if scale else lev
    df = frame(c)
    got = one(c["ctx"], df, pds.query_approx_entropy("x", m, lev, scale_by_std=scale, parallel=par))
    check_close(one(c["ctx"], df, pds.query_approx_entropy("x", m, lev, scale_by_std=scale, parallel=not par)), got, "approximate entropy, parallel or not", 1e-9, 1e-12)
    if n - m + 1 < m + 1 or r < 1e-9:
        if n - m + 1 < m + 1 and not math.isnan(got):
            fail("approximate entropy of a short series is not NaN", n=n, m=m, got=got)
        return None
    f = lambda k: float(np.log(counts(v, k, r, n - k + 1) / (n - k + 1)).mean())
    check_close(got, abs(f(m) - f(m + 1)), "approximate entropy", 1e-8, 1e-10)
    return f"{c['dt']},{m},{scale},{par}"


def knn_h(X, k, metric):
    n, d = X.shape
    if n <= k:
        return NAN
    D = np.sort(cdist(X, X, {"l2": "euclidean", "inf": "chebyshev"}[metric]), axis=1)[:, k]
    cd = math.pi ** (d / 2) / 2**d / math.gamma(1 + d / 2) if metric == "l2" else 1.0
    with np.errstate(all="ignore"):
        return float(SP.digamma(n) - SP.digamma(k) + math.log(cd) + d / n * np.log(2 * D).sum())


@st.composite
def cloud(draw, d=None):
    n = draw(sized((1, 30), (1, 200)))
    d = d or draw(st.integers(1, 5))
    r = rng(draw(seeds))
    X = r.normal(size=(n, d)) @ r.normal(size=(d, d)) * draw(st.sampled_from([1.0, 100.0, 0.01]))
    tied = draw(st.integers(0, 4)) == 0
    if tied:
        X = np.round(X, 1)
    return dict(X=X.tolist(), k=draw(st.integers(1, 5)), metric=draw(st.sampled_from(["l2", "inf"])), par=draw(st.booleans()), cuts=draw(cuts_st), ctx=draw(CTX), tied=tied)


def cols(c):
    X = np.array(c["X"])
    return X, pl.DataFrame({f"x{i}": chunk(pl.Series(X[:, i]), c["cuts"]) for i in range(X.shape[1])})


@law(cloud(), n=500, rule="by dimension, metric, parallel", thorough=10)
def nearest_neighbour_entropy(c):
    X, df = cols(c)
    names = [f"x{i}" if i % 2 else pl.col(f"x{i}") for i in range(X.shape[1])]
    got = one(c["ctx"], df, pds.query_knn_entropy(*names, k=c["k"], dist=c["metric"], parallel=c["par"]))
    check_close(got, knn_h(X, c["k"], c["metric"]), "knn entropy", 1e-8, 1e-8, n=len(X), d=X.shape[1], k=c["k"])
    check_close(one(c["ctx"], df, pds.query_knn_entropy(*names, k=c["k"], dist=c["metric"], parallel=not c["par"])), got, "knn entropy, parallel or not", 1e-9, 1e-9)
    if len(X) > c["k"] and not c["tied"]:
        sh = df.reverse().select(pds.query_knn_entropy(*names[::-1], k=c["k"], dist=c["metric"]).alias("o"))["o"][0]
        check_close(sh, got, "knn entropy of permuted rows and columns", 1e-8, 1e-8)
        return f"{X.shape[1]},{c['metric']},{c['par']}"


def copula(k, *a):
    R = np.column_stack([SS.rankdata(x) / len(x) for x in a])
    return -knn_h(R, k, "l2")


@law(cloud(d=3), n=500, rule="by k, parallel, context", thorough=10)
def copula_entropies(c):
    X, df = cols(c)
    x, y, z = X.T
    k, par = c["k"], c["par"]
    t = dict(rtol=1e-7, atol=1e-7)
    g = lambda e: one(c["ctx"], df, e)
    check_close(g(pds.query_copula_entropy("x0", pl.col("x1"), k=k, parallel=par)), copula(k, x, y), "copula entropy", **t)
    check_close(g(pds.query_copula_entropy("x0", "x1", "x2", k=k, parallel=par)), copula(k, x, y, z), "copula entropy of three", **t)
    w = copula(k, x, y, z) - copula(k, y, z) - copula(k, x, z)
    check_close(g(pds.query_cond_indep("x0", "x1", "x2", k=k, parallel=par)), w, "conditional independence", **t)
    if c["tied"]:
        return None
    for lag in (1, 2):
        if len(x) > lag + 1:
            a, b, s = x[lag:], x[:-lag], y[:-lag]
            w = copula(k, a, s, b) - copula(k, s, b) - copula(k, a, b)
            check_close(g(pds.query_transfer_entropy("x0", "x1", lag=lag, k=k, parallel=par)), w, "transfer entropy", **t)
    return f"{k},{par},{c['ctx']}" if len(x) > k else None


@law(st.tuples(series(lo=6), st.integers(1, 4), st.integers(2, 5), st.sampled_from([math.e, 2.0])), n=500, rule="by tau, dimension; ties", thorough=10)
def permutation_entropy(c):
    c, tau, d, base = c
    v = np.array(c["v"])
    n = len(v) - (d - 1) * tau
    if n < 1:
        raise Skip
    W = np.array([[v[i + j * tau] for j in range(d)] for i in range(n)])
    pat = Counter(tuple(np.argsort(w, kind="stable")) for w in W)
    df = frame(c)
    got = one(c["ctx"], df, pds.query_permute_entropy("x", tau=tau, n_dims=d, base=base))
    check_close(got, H(pat.values(), base), "permutation entropy", 1e-9, 1e-12, v=c["v"])
    return f"{tau},{d}" + c["kind"]


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((8, 40), (8, 120)), a=POW2, m=st.integers(2, 3), k=st.integers(1, 4), dist=st.sampled_from(["l2", "inf"]))), n=250, rule="by scale", thorough=10)
def scales(c):
    """Entropies of scaled data: the same, plus the logarithm of the scale where the entropy is a differential one."""
    r = rng(c["seed"])
    f, n = 2.0 ** c["a"], c["n"]
    df = pl.DataFrame({"x": r.normal(size=n), "y": r.normal(size=n), "z": r.integers(-3, 4, n) / 2})
    sc = df.select(pl.all() * f)
    F = {k: (e, e, 1.0) for k, e in (
        ("sample entropy", pds.query_sample_entropy("x", m=c["m"], ratio=0.5)), ("sample entropy, ties", pds.query_sample_entropy("z", m=c["m"], ratio=0.31)),
        ("approximate entropy", pds.query_approx_entropy("x", c["m"], 0.5, scale_by_std=True)), ("permutation entropy", pds.query_permute_entropy("x", tau=1, n_dims=c["m"])),
        ("copula entropy", pds.query_copula_entropy("x", "y", k=c["k"])), ("entropy", pds.query_entropy("z")), ("conditional entropy", pds.query_cond_entropy("z", "x")))}
    F["approximate entropy, own tolerance"] = (pds.query_approx_entropy("x", c["m"], 0.6, scale_by_std=False), pds.query_approx_entropy("x", c["m"], 0.6 * f, scale_by_std=False), 1.0)
    homogeneous(df, sc, F)
    for cols in (("x",), ("x", "y")):
        e = pds.query_knn_entropy(*cols, k=c["k"], dist=c["dist"])
        check_close(sc.select(e.alias("o"))["o"][0], df.select(e.alias("o"))["o"][0] + len(cols) * math.log(f), "knn entropy of scaled data", 1e-9, 1e-9)
    return str(c["a"])
