"""Transforms of signals and matrices equal their definitions."""
from checks.common import *

lens = sized((1, 8), (9, 40), (41, 200))


def signal(r, n, kind):
    if kind == "grid":
        return r.integers(-6, 7, n).astype(float) / 2
    if kind == "const":
        return np.full(n, float(r.integers(-5, 6)))
    if kind == "zero":
        return np.zeros(n)
    if kind == "trend":
        return r.normal() * 10 + np.arange(n) * r.normal() + r.normal(size=n) * 0.1
    if kind == "big":
        return r.normal(size=n) * 1e6
    if kind == "small":
        return r.normal(size=n) * 1e-6
    return r.normal(size=n)


kinds = st.sampled_from(["normal", "grid", "const", "zero", "trend", "big", "small", "impulse"])
sig = dict(seed=seeds, n=lens, kind=kinds, cuts=cuts_st)


def make_signal(c, n=None):
    r = rng(c["seed"])
    n = n or c["n"]
    x = signal(r, n, c["kind"])
    if c["kind"] == "impulse":
        x = np.zeros(n)
        x[r.integers(0, n)] = 3.0
    return r, x


def S(x, cuts, name="x", dtype=None):
    return chunk(pl.Series(name, x, dtype=dtype), cuts)


def tolerance(x, *more):
    t = np.abs(x).sum() + 1e-12
    for m in more:
        t *= np.abs(m).max() + 1e-12
    return 1e-11 * t


# ------------------------------------------------------------------------------------------------------ Fourier
@law(st.fixed_dictionaries(dict(sig, full=st.booleans(), pad=st.one_of(st.none(), st.integers(2, 12), st.integers(2, 300)),
                                ints=st.booleans(), ctx=st.sampled_from(["select", "slice", "group"]))),
     n=800, rule="padded, cropped, full, or not a power of two")
def fourier(c):
    r, x = make_signal(c)
    if c["ints"]:
        x = np.round(np.clip(x, -1e9, 1e9))
    s = S(x, c["cuts"], dtype=pl.Float64)
    if c["ints"]:
        s = s.cast(pl.Int64)
    n = c["pad"]
    e = pds.rfft("x", n=n, return_full=c["full"])
    df = pl.DataFrame({"x": s})
    if c["ctx"] == "slice":
        df = pl.concat([pl.DataFrame({"x": s[:3]}), df, pl.DataFrame({"x": s[:2]})], rechunk=False).slice(min(3, len(s)), len(s))
    if c["ctx"] == "group":
        got = df.group_by(pl.lit(1).alias("g")).agg(e.alias("o")).get_column("o").explode().to_list()
    else:
        got = df.select(e.alias("o"))["o"].to_list()
    want = np.fft.fft(x, n=n) if c["full"] else np.fft.rfft(x, n=n)
    check_eq(len(got), len(want), "length of the transform")
    g = np.array([complex(a, b) for a, b in got])
    tol = tolerance(x)
    if not np.all(np.abs(g - want) <= tol):
        fail("rfft differs", got=g[:8], want=want[:8], tol=tol)
    return "pad" if n and n > len(x) else "crop" if n and n < len(x) else "full" if c["full"] else len(x) & (len(x) - 1) != 0


# -------------------------------------------------------------------------------------------------- convolution
def modes(full, n, m, mode):
    if mode == "full":
        return full
    if mode == "same":
        k = (m - 1) // 2
        return full[k : k + n]
    if mode == "left":
        return full[:n]
    if mode == "right":
        return full[m - 1 :]
    return full[m - 1 : n]


def direct_convolution(x, k):
    out = np.zeros(len(x) + len(k) - 1)
    for i, v in enumerate(k):
        out[i : i + len(x)] += v * x
    return out


@law(st.fixed_dictionaries(dict(sig, m=sized((2, 9), (10, 60)), kkind=st.sampled_from(["normal", "grid", "asym", "one"]),
                                mode=st.sampled_from(["full", "same", "left", "right", "valid"]),
                                method=st.sampled_from(["direct", "fft"]), par=st.booleans(),
                                cont=st.sampled_from(["list", "numpy", "series", "expr"]), nulls=st.sampled_from([0, 0, 0.2]),
                                fill=st.sampled_from([0.0, 0.0, 2.5]), bad=st.booleans(), dt=st.sampled_from(["f64", "f64", "f32", "i64"]))),
     n=1500, rule="any kernel that is not symmetric, by mode")
def convolution(c):
    r, x = make_signal(c, max(c["n"], c["m"]))
    m = c["m"]
    k = {"normal": lambda: r.normal(size=m), "grid": lambda: r.integers(-4, 5, m) / 2.0,
         "asym": lambda: np.arange(1.0, m + 1), "one": lambda: np.ones(m)}[c["kkind"]]()
    dt = c["dt"]
    s = pl.Series("x", np.round(np.clip(x, -1e6, 1e6)) if dt == "i64" else x)
    if dt != "f64":
        s = s.cast({"f32": pl.Float32, "i64": pl.Int64}[dt])
    x = s.cast(pl.Float64).to_numpy().copy()
    fill = float(int(c["fill"])) if dt == "i64" else c["fill"]
    if c["nulls"]:
        mask = r.random(len(x)) < c["nulls"]
        s = pl.select(pl.when(~pl.Series(mask)).then(s).alias("x")).to_series()
        x[mask] = fill
    kk = list(map(float, k))
    if c["bad"]:  # non-finite kernel entries are dropped
        for v in (NAN, float("inf")):
            kk.insert(int(r.integers(0, len(kk) + 1)), v)
    kern = {"list": lambda: kk, "numpy": lambda: np.array(kk), "series": lambda: pl.Series(kk),
            "expr": lambda: pl.lit(pl.Series("k", kk))}[c["cont"]]()
    df = pl.DataFrame({"x": chunk(s, c["cuts"])})
    got = df.select(pds.convolve("x", kern, fill_value=fill, method=c["method"], mode=c["mode"], parallel=c["par"]).alias("o"))["o"]
    want = modes(direct_convolution(x, k), len(x), m, c["mode"])
    check_eq(got.dtype, pl.Float64, "type")
    check_eq(len(got), len(want), f"length ({c['mode']})")
    tol = tolerance(x, np.append(k, 1.0))
    if not np.all(np.abs(got.to_numpy() - want) <= tol):
        fail("convolution differs", got=got.to_list()[:10], want=want[:10], tol=tol)
    return c["mode"] if not np.array_equal(k, k[::-1]) else None


@law(st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 6), m=st.integers(0, 8), mode=st.sampled_from(["full", "valid"]),
                                method=st.sampled_from(["direct", "fft"]))), n=60, rule="a kernel that is too long or too short")
def convolution_rejects(c):
    if 2 <= c["m"] <= c["n"]:
        raise Skip
    r = rng(c["seed"])
    df = pl.DataFrame({"x": r.normal(size=c["n"])})
    try:
        df.select(pds.convolve("x", list(r.normal(size=c["m"])), mode=c["mode"], method=c["method"]))
    except Exception:
        return True
    fail("a kernel of this length was accepted")


# -------------------------------------------------------------------------------------------------- integration
@law(st.fixed_dictionaries(dict(sig, xs=st.sampled_from(["dx", "negdx", "uniform", "random", "repeat"]), dt=st.sampled_from(["f64", "i32", "f32"]))),
     n=600, rule="at least three points")
def trapezoid(c):
    r, y = make_signal(c, max(2, c["n"]))
    if c["dt"] == "i32":
        y = np.round(y)
    y = S(y, c["cuts"], "y").cast({"f64": pl.Float64, "i32": pl.Int32, "f32": pl.Float32}[c["dt"]])
    n = len(y)
    yf = y.cast(pl.Float64).to_numpy()
    df = pl.DataFrame({"y": y})
    if c["xs"] in ("dx", "negdx"):
        dx = float(r.uniform(0.01, 5)) * (1 if c["xs"] == "dx" else -1)
        e = pds.integrate_trapz("y", dx)
        xs = np.arange(n) * abs(dx)
    else:
        xs = np.sort(r.uniform(-50, 50, n))
        if c["xs"] == "uniform":
            xs = np.arange(n) * 0.25 - 3
        if c["xs"] == "repeat":
            xs = np.sort(r.integers(0, 5, n)).astype(float)
        df = df.with_columns(S(xs, c["cuts"][::-1], "t"))
        e = pds.integrate_trapz("y", pl.col("t"))
    got = df.select(e.alias("o"))["o"]
    check_eq(len(got), 1, "length")
    want = sum((xs[i + 1] - xs[i]) * (yf[i + 1] + yf[i]) / 2 for i in range(n - 1))
    check_close(got[0], want, "integral", 1e-10, 1e-11 * (np.abs(yf).sum() + 1e-9) * (np.ptp(xs) + 1))
    return n >= 3


# ------------------------------------------------------------------------------------------------------ detrend
@law(st.fixed_dictionaries(dict(sig, method=st.sampled_from(["linear", "mean"]), groups=st.booleans())), n=400, rule="at least three points")
def detrending(c):
    r, x = make_signal(c, max(2, c["n"]))
    n = len(x)
    df = pl.DataFrame({"x": S(x, c["cuts"])})
    if c["groups"]:
        g = r.integers(0, 2, n)
        if min(np.bincount(g, minlength=2)) < 2:
            raise Skip
        df = df.with_columns(g=pl.Series(g))
        got = df.select(pds.detrend("x", c["method"]).over("g").alias("o"))["o"].to_numpy()
        parts = [(g == v) for v in (0, 1)]
    else:
        got = df.select(pds.detrend("x", c["method"]).alias("o"))["o"].to_numpy()
        parts = [np.ones(n, bool)]
    for p in parts:
        y = x[p]
        t = np.arange(len(y)) - (len(y) - 1) / 2
        want = y - y.mean()
        if c["method"] == "linear":
            want = want - t * ((t @ (y - y.mean())) / (t @ t))
        check_seq(got[p], want, "detrended", 0, 1e-9 * (np.abs(y).max() + 1e-9))
    return n >= 3


# ---------------------------------------------------------------------------------------------------- SVD / PCA
mat = dict(seed=seeds, n=sized((1, 12), (13, 60), (61, 300)), p=sized((1, 4), (5, 9)), kind=st.sampled_from(["normal", "scaled", "corr", "grid", "const", "dup"]),
           center=st.booleans(), cuts=cuts_st)


def matrix(c, tall=True):
    r = rng(c["seed"])
    n, p = c["n"], c["p"]
    if tall:
        n = max(n, p)
    X = r.normal(size=(n, p)) + r.normal(size=p) * 2
    k = c["kind"]
    if k == "scaled":
        X = X * 10.0 ** r.integers(-3, 4, p)
    if k == "corr" and p > 1:
        X[:, 1] = X[:, 0] * 2 + X[:, 1] * 0.01
    if k == "grid":
        X = r.integers(-3, 4, (n, p)) / 2.0
    if k == "const":
        X[:, r.integers(0, p)] = 2.0
    if k == "dup" and p > 1:
        X[:, 1] = X[:, 0]
    return r, X


def mat_df(X, cuts):
    return chunk_df(pl.DataFrame({f"f{i}": X[:, i] for i in range(X.shape[1])}), cuts)


@law(st.fixed_dictionaries(dict(mat, ev=st.booleans(), ratio=st.booleans(), nulls=st.booleans(), ctx=st.sampled_from(["select", "group"]))), n=700,
     rule="at least two features")
def singular(c):
    r, X = matrix(c, tall=False)
    n, p = X.shape
    df = mat_df(X, c["cuts"])
    if c["nulls"] and not c["center"] and n > p + 3:  # rows with a null are dropped
        mask = r.random((n, p)) < 0.1
        df = df.with_columns([pl.when(~pl.Series(mask[:, i])).then(pl.col(f"f{i}")).alias(f"f{i}") for i in range(p)])
        X = X[~mask.any(axis=1)]
    n = len(X)
    if n == 0 or (c["ev"] and n < 2):
        raise Skip
    A = X - X.mean(axis=0) if c["center"] else X
    want = np.linalg.svd(A, compute_uv=False)
    atol = 1e-10 * want.max() + 1e-300
    if c["ev"]:
        atol = atol * want.max() * 2
        want = want**2 / (n - 1)
    if c["ratio"]:
        if want.sum() < 1e-12:
            raise Skip
        atol = atol / want.sum()
        want = want / want.sum()
    e = pds.singular_values(*df.columns, center=c["center"], as_explained_var=c["ev"], as_ratio=c["ratio"]).alias("o")
    if c["ctx"] == "group":
        got = df.group_by(pl.lit(1).alias("g")).agg(e)["o"].to_list()
    else:
        got = df.select(e)["o"].to_list()
    check_eq(len(got), 1, "rows")
    got = got[0]
    check_seq(got, want, "singular values", 1e-9, max(atol, 1e-12 * (1 + np.abs(X).max())))
    return ("var-" if c["ev"] else "") + ("ratio" if c["ratio"] else "values") if p > 1 else None


@law(st.fixed_dictionaries(mat), n=500, rule="at least two features")
def pca_vectors(c):
    r, X = matrix(c, tall=False)
    n, p = X.shape
    q = min(n, p)
    df = mat_df(X, c["cuts"])
    A = X - X.mean(axis=0) if c["center"] else X
    out = df.select(pds.pca(*df.columns, center=c["center"]).alias("o")).unnest("o")
    check_eq(out.columns, ["singular_value", "weight_vector"], "fields")
    s = out["singular_value"].to_numpy()
    V = np.array(out["weight_vector"].to_list())
    check_eq(V.shape, (q, p), "shape of the vectors")
    want = np.linalg.svd(A, compute_uv=False)
    sc = want.max() + 1e-12
    check_seq(s, want, "singular values", 1e-9, 1e-10 * sc + 1e-12 * np.abs(X).max())
    if not np.abs(V @ V.T - np.eye(q)).max() <= 1e-8:
        fail("weight vectors are not orthonormal", V=V)
    for i in range(q):
        e = np.abs(A.T @ (A @ V[i]) - s[i] ** 2 * V[i]).max()
        if not e <= 1e-8 * (sc * sc + np.abs(X).max() ** 2 * 1e-3):
            fail(f"weight vector {i} is not a right singular vector", err=e, V=V, s=s)
    return p > 1


@law(st.fixed_dictionaries(dict(mat, k=st.integers(1, 9))), n=500, rule="at least two features")
def components(c):
    r, X = matrix(c, tall=False)
    n, p = X.shape
    k = min(c["k"], p, n)
    df = mat_df(X, c["cuts"])
    A = X - X.mean(axis=0) if c["center"] else X
    out = df.select(pds.principal_components(*df.columns, k=k, center=c["center"]).alias("o")).unnest("o")
    check_eq(out.columns, [f"pc{i+1}" for i in range(k)], "names")
    check_eq(out.height, n, "rows")
    C = out.to_numpy()
    U, s, Vt = np.linalg.svd(A, full_matrices=False)
    sc = s.max() + 1e-12
    G = C.T @ C  # components are orthogonal with squared norm s^2
    if not np.abs(G - np.diag(s[:k] ** 2)).max() <= 1e-8 * (sc * sc + np.abs(X).max() ** 2 * 1e-3):
        fail("components are not orthogonal with the singular values as norms", G=G, s=s)
    gaps = np.abs(np.diff(np.append(s, 0 if n <= p else -1)))
    for i in range(k):  # unique (up to sign) where the singular value is separated
        lo = gaps[i - 1] if i else np.inf
        if min(lo, gaps[i]) > 1e-4 * sc:
            w = A @ Vt[i]
            sg = np.sign(w @ C[:, i]) or 1
            if not np.abs(C[:, i] - sg * w).max() <= 1e-6 * sc:
                fail(f"component {i+1} differs", got=C[:5, i], want=sg * w[:5])
    return p > 1


# ----------------------------------------------------------------------------------------------------- isotonic
def isotonic_ref(y, w):
    """Min-max formula: the fit at i is max over j<=i of min over k>=i of the weighted mean of y[j..k]."""
    n = len(y)
    cw, cy = np.concatenate([[0], np.cumsum(w)]), np.concatenate([[0], np.cumsum(w * y)])
    out = np.empty(n)
    for i in range(n):
        best = -np.inf
        for j in range(i + 1):
            ks = np.arange(i + 1, n + 1)
            best = max(best, np.min((cy[ks] - cy[j]) / (cw[ks] - cw[j])))
        out[i] = best
    return out


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((1, 8), (9, 60)), kind=st.sampled_from(["normal", "grid", "ties", "trend", "down", "blocks"]),
                                weights=st.sampled_from(["none", "random", "ones", "int"]), inc=st.booleans(), cuts=cuts_st, groups=st.booleans())),
     n=1200, rule="by direction and weights, when at least two values are pooled")
def isotonic(c):
    r = rng(c["seed"])
    n, k = c["n"], c["kind"]
    y = {"normal": lambda: r.normal(size=n), "grid": lambda: r.integers(-4, 5, n) / 2.0, "ties": lambda: r.integers(0, 2, n) * 1.0,
         "trend": lambda: np.arange(n) * 0.3 + r.normal(size=n), "down": lambda: -np.arange(n) * 0.3 + r.normal(size=n),
         "blocks": lambda: np.repeat(r.integers(-3, 4, n), r.integers(1, 5, n))[:n] * 1.0}[k]()
    w = {"none": lambda: None, "random": lambda: r.uniform(0.1, 5, n), "ones": lambda: np.ones(n), "int": lambda: r.integers(1, 6, n)}[c["weights"]]()
    df = pl.DataFrame({"y": S(y, c["cuts"], "y")})
    if w is not None:
        df = df.with_columns(S(w, c["cuts"][::-1], "w"))
    e = pds.isotonic_regression("y", "w" if w is not None else None, increasing=c["inc"]).alias("o")
    g = r.integers(0, 3, n) if c["groups"] else np.zeros(n, int)
    if c["groups"]:
        e = e.over("g")
        df = df.with_columns(g=pl.Series(g))
    got = df.select(e)["o"].to_numpy()
    check_eq(len(got), n, "length")
    ww = np.ones(n) if w is None else w.astype(float)
    pooled = False
    for v in np.unique(g):
        m = g == v
        a, b = y[m], ww[m]
        want = isotonic_ref(a, b) if c["inc"] else -isotonic_ref(-a, b)
        check_seq(got[m], want, "isotonic fit", 1e-9, 1e-9, y=list(a)[:20], w=list(b)[:20])
        pooled |= bool(np.any(want != a))
    return f"{'inc' if c['inc'] else 'dec'}-{c['weights']}" if pooled else None


# ------------------------------------------------------------------------------------------------------- scales
@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((2, 12), (13, 60)), kind=st.sampled_from(["normal", "grid", "trend"]), a=POW2, b=POW2, m=st.integers(2, 5), d=st.integers(1, 4))), n=200, rule="by scale")
def scales(c):
    """Every transform is homogeneous: no constant hidden in it has a scale of its own."""
    r = rng(c["seed"])
    n = max(c["n"], c["m"], c["d"] + 1)
    a, b = 2.0 ** c["a"], 2.0 ** c["b"]
    x, y = signal(r, n, c["kind"]), r.normal(size=n)
    k = r.normal(size=c["m"])
    M = {f"m{i}": r.normal(size=n) for i in range(c["d"])}
    df = pl.DataFrame({"x": x, "y": y, "t": np.cumsum(r.random(n) + 0.1), **M})
    sc = pl.DataFrame({"x": x * a, "y": y * b, "t": df["t"] * b, **{i: v * a for i, v in M.items()}})
    F = {"rfft": (pds.rfft("x"), pds.rfft("x"), a)}
    for mode in ("full", "same", "left", "right", "valid"):
        for method in ("direct", "fft"):
            f = lambda ker: pds.convolve("x", list(map(float, ker)), mode=mode, method=method)
            F[f"convolution {mode} {method}"] = (f(k), f(k * b), a * b)
    F["trapezoid"] = (pds.integrate_trapz("x", "t"), pds.integrate_trapz("x", "t"), a * b)
    F["trapezoid, fixed step"] = (pds.integrate_trapz("x", 0.75), pds.integrate_trapz("x", 0.75 * b), a * b)
    for m in ("linear", "mean"):
        F["detrend " + m] = (pds.detrend("x", method=m), pds.detrend("x", method=m), a)
    F["singular values"] = (pds.singular_values(*M), pds.singular_values(*M), a)
    F["centred singular values"] = (pds.singular_values(*M, center=True), pds.singular_values(*M, center=True), a)
    for inc in (True, False):
        F["isotonic"] = (pds.isotonic_regression("x", increasing=inc), pds.isotonic_regression("x", increasing=inc), a)
    homogeneous(df, sc, F)
    return f"{min(c['a'], c['b'])}..{max(c['a'], c['b'])}"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 140000)), e=st.integers(-1, 1), mode=st.sampled_from(["full", "same", "valid", "left", "right"]), m=st.integers(2, 12), inc=st.booleans(), par=st.booleans())), n=4, rule="by mode", thorough=8)
def many_rows(c):
    """Signals longer than 16 bits count (also just beside a power of two)."""
    from scipy.optimize import isotonic_regression

    r = rng(c["seed"])
    n = c["n"] if c["seed"] % 2 else 2**17 + c["e"]
    x = np.round(r.normal(size=n) + np.arange(n) * 1e-5, 4)
    t = np.cumsum(r.integers(1, 9, n) / 8)
    k = r.integers(-4, 5, c["m"]) / 2
    df = pl.DataFrame({"x": x, "t": t})
    f = lambda e: df.select(e.alias("o"))["o"]
    got, want = f(pds.rfft("x")).to_numpy(), np.fft.rfft(x)
    check_eq(len(got), len(want), "length of the transform")
    if not np.all(np.abs(got[:, 0] + 1j * got[:, 1] - want) <= 1e-9 * n):
        fail("rfft of a long signal differs")
    full = np.convolve(x, k, "full")
    for method in ("fft", "direct"):
        got = f(pds.convolve("x", k.tolist(), mode=c["mode"], method=method, parallel=c["par"])).to_numpy()
        want = full if c["mode"] == "full" else np.convolve(x, k, c["mode"]) if c["mode"] in ("same", "valid") else full[:n] if c["mode"] == "left" else full[c["m"] - 1 :]
        if len(got) != len(want) or not np.all(np.abs(got - want) <= 1e-8):
            fail(f"convolution ({method}, {c['mode']}) of a long signal differs", got=(len(got), got[:4].tolist()), want=(len(want), want[:4].tolist()))
    check_close(f(pds.integrate_trapz("x", "t"))[0], float(np.trapezoid(x, t)), "trapezoid", 1e-8, 1e-8)
    s = np.arange(n) - (n - 1) / 2
    y = x - x.mean()
    check_seq(f(pds.detrend("x", "linear")).to_numpy(), y - s * ((s @ y) / (s @ s)), "detrended", 0, 1e-7)
    check_seq(f(pds.detrend("x", "mean")).to_numpy(), y, "detrended by the mean", 0, 1e-9)
    check_seq(f(pds.isotonic_regression("x", increasing=c["inc"])).to_numpy(), isotonic_regression(x, increasing=c["inc"]).x, "isotonic", 1e-9, 1e-9)
    return c["mode"]
