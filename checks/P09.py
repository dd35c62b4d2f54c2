"""Regression reports state the correct inference."""
from checks.linref import *
from checks.P06 import with_nulls, obj_frame, treat, vec
from scipy import stats as ss

COLS = ["t", "p>|t|", "0.025", "0.975"]


def reference(X, y, bias, se, w=None):
    """Textbook ordinary/weighted least squares inference."""
    A = aug(X, bias)
    n, k = A.shape
    beta = ridge(X, y, bias, 0.0, w)
    res = y - A @ beta
    W = np.ones(n) if w is None else w
    XtX = np.linalg.inv((A * W[:, None]).T @ A)
    dof = n - k
    if w is not None or se == "se":
        err = np.sqrt(np.diag(XtX) * (W @ res**2) / dof)
    else:
        h = np.einsum("ij,jk,ik->i", A, XtX, A)
        u = res**2 * {"hc0": np.ones(n), "hc1": np.full(n, n / dof), "hc2": 1 / (1 - h), "hc3": 1 / (1 - h) ** 2}[se]
        err = np.sqrt(np.diag(XtX @ (A.T * u) @ A @ XtX))
    t = beta / err
    q = ss.t.ppf(0.975, dof)
    sst = np.sum((y - y.mean()) ** 2)
    ratio = res @ res / sst
    return dict(beta=beta, se=err, t=t, p=2 * ss.t.sf(np.abs(t), dof), lo=beta - q * err, hi=beta + q * err, r2=1 - ratio,
                adj=1 - ratio * (n - 1) / (n - X.shape[1] - 1), dof=dof)


def compare(rep, ref, X, bias, name, rel, nm=None):
    k = X.shape[1] + bias
    check_eq(rep.height, k, "rows of the report")
    check_eq(rep.columns, ["features", "beta", name, "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2"], "columns of the report")
    check_eq(rep["features"].to_list(), (nm or names(X)) + ["__bias__"] * bias, "feature names")
    sc = 1 + np.abs(ref["beta"]) + ref["se"]
    vec(rep["beta"].to_numpy(), ref["beta"], "beta", rel * sc.max())
    vec(rep[name].to_numpy() / ref["se"], np.ones(k), "standard error", rel)
    vec(rep["t"].to_numpy() / (1 + np.abs(ref["t"])), ref["t"] / (1 + np.abs(ref["t"])), "t", rel * sc.max() / min(1.0, ref["se"].min()))
    dt = rel * (1 + np.abs(ref["t"])) * sc.max() / min(1.0, ref["se"].min())
    lo = 2 * ss.t.sf(np.abs(ref["t"]) + dt, ref["dof"])
    hi = 2 * ss.t.sf(np.maximum(0, np.abs(ref["t"]) - dt), ref["dof"])
    g = rep["p>|t|"].to_numpy()
    if not np.all((g >= lo - 1e-8 - rel * lo) & (g <= hi + 1e-8 + rel * hi)):
        fail(f"p-values {g} not in [{lo}, {hi}]")
    vec(rep["0.025"].to_numpy(), ref["lo"], "lower limit", rel * 10 * (sc + 20 * ref["se"]).max())
    vec(rep["0.975"].to_numpy(), ref["hi"], "upper limit", rel * 10 * (sc + 20 * ref["se"]).max())
    for c, v in (("r2", ref["r2"]), ("adj_r2", ref["adj"])):
        vec(rep[c].to_numpy(), np.full(k, v), c, rel * (1 + abs(v) * 10))


rep_st = dict(base, se=st.sampled_from(["se", "hc0", "hc1", "hc2", "hc3", "HC3"]), f64=st.sampled_from([True, True, True, False]))


def noisy(c, min_extra=3, maxcond=300):
    r, X, y = make(c, min_extra=min_extra, maxcond=maxcond if c["f64"] else 10)
    y = y + r.normal(size=len(y)) * 0.5  # a residual variance that is not rounding error
    return r, X, y


@law(st.fixed_dictionaries(rep_st), n=800, rule="bias, robust standard error or single precision")
def ordinary(c):
    r, X, y = noisy(c)
    df = frame(X, y, c["cuts"])
    se = c["se"].lower()
    A = aug(X, c["bias"])
    h = np.einsum("ij,jk,ik->i", A, np.linalg.inv(A.T @ A), A)
    if np.any(1 - h < 1e-3):
        raise Skip
    with precision(c["f64"]):
        e = pds.lin_reg_report(*names(X), target="y", add_bias=c["bias"], std_err=c["se"])
        rep = df.select(r=e).unnest("r")
    compare(rep, reference(X, y, c["bias"], se), X, c["bias"], "std_err" if se == "se" else se + "_se", 1e-6 if c["f64"] else 2e-2)
    return se if c["bias"] or se != "se" or not c["f64"] else None


@law(st.fixed_dictionaries(dict(rep_st, ws=st.sampled_from([1.0, 1.0, 2.0**-12, 2.0**14]))), n=500, rule="any")
def weighted(c):
    r, X, y = noisy(c)
    w = (r.random(len(y)) * 3 + 0.1) * c["ws"]
    if cond(X, c["bias"], w) > (300 if c["f64"] else 10):
        raise Skip
    df = frame(X, y, c["cuts"], w=w)
    with precision(c["f64"]):
        rep = df.select(r=pds.lin_reg_report(*names(X), target="y", weights="w", add_bias=c["bias"], std_err=c["se"])).unnest("r")
    compare(rep, reference(X, y, c["bias"], "se", w), X, c["bias"], "std_err", 1e-6 if c["f64"] else 2e-2)
    return True


@law(st.fixed_dictionaries(dict(rep_st, k=st.integers(0, 6), policy=st.sampled_from(["skip", "zero", "one", "2.5", "raise"]))), n=500, rule="there are nulls")
def null_policies(c):
    c = dict(c, f64=True)
    r, X, y = noisy(c, min_extra=10)
    Xo, yo = with_nulls(r, X, y, c["k"], True)
    anynull = any(v is None for v in Xo.ravel()) or any(v is None for v in yo)
    df = obj_frame(Xo, yo, c["cuts"])
    f = lambda: df.select(r=pds.lin_reg_report(*names(X), target="y", add_bias=c["bias"], std_err=c["se"], null_policy=c["policy"])).unnest("r")
    if c["policy"] == "raise" and anynull:
        if not raises(f):
            fail("policy 'raise' with nulls is not rejected")
        return "raise"
    keep, Xk, yk = treat(Xo, yo, "skip" if c["policy"] == "raise" else c["policy"])
    if len(yk) < X.shape[1] + c["bias"] + 2 or cond(Xk, c["bias"]) > 300:
        raise Skip
    A = aug(Xk, c["bias"])
    h = np.einsum("ij,jk,ik->i", A, np.linalg.inv(A.T @ A), A)
    if np.any(1 - h < 1e-3):
        raise Skip
    se = c["se"].lower()
    compare(f(), reference(Xk, yk, c["bias"], se), Xk, c["bias"], "std_err" if se == "se" else se + "_se", 1e-6)
    return c["policy"] if anynull else None


@law(st.fixed_dictionaries(dict(rep_st, w=st.booleans())), n=200, rule="any")
def against_statsmodels(c):
    import statsmodels.api as sm

    c = dict(c, f64=True)
    r, X, y = noisy(c)
    w = r.random(len(y)) * 3 + 0.1
    A = aug(X, c["bias"])
    h = np.einsum("ij,jk,ik->i", A, np.linalg.inv(A.T @ A), A)
    if np.any(1 - h < 1e-3) or cond(X, c["bias"], w) > 300:
        raise Skip
    se = c["se"].lower()
    m = (sm.WLS(y, A, weights=w) if c["w"] else sm.OLS(y, A)).fit()
    df = frame(X, y, c["cuts"], w=w)
    rep = df.select(r=pds.lin_reg_report(*names(X), target="y", weights="w" if c["w"] else None, add_bias=c["bias"], std_err=c["se"])).unnest("r")
    col = rep.columns[2]
    bse = m.bse if c["w"] or se == "se" else getattr(m, se.upper() + "_se")
    vec(rep["beta"].to_numpy(), m.params, "beta", 1e-6 * (1 + np.abs(m.params).max()))
    vec(rep[col].to_numpy() / bse, np.ones(len(bse)), "standard error", 1e-6)
    if c["w"] or se == "se":
        vec(rep["p>|t|"].to_numpy(), m.pvalues, "p", 1e-6)
        ci = m.conf_int()
        vec(rep["0.025"].to_numpy(), ci[:, 0], "lower", 1e-5 * (1 + np.abs(ci).max()))
        vec(rep["0.975"].to_numpy(), ci[:, 1], "upper", 1e-5 * (1 + np.abs(ci).max()))
    if c["bias"] and not c["w"]:
        vec(rep["r2"].to_numpy(), [m.rsquared] * rep.height, "r2", 1e-7 * (1 + abs(m.rsquared)))
        vec(rep["adj_r2"].to_numpy(), [m.rsquared_adj] * rep.height, "adj_r2", 1e-7 * (1 + abs(m.rsquared_adj) * 10))
    return "wls" if c["w"] else se


@law(st.fixed_dictionaries(dict(rep_st, g=st.integers(2, 3))), n=100, rule="any")
def groups(c):
    c = dict(c, f64=True)
    r = rng(c["seed"])
    parts = []
    for i in range(c["g"]):
        X, y = design(r, c["p"] + 8 + c["extra"] % 20, c["p"], "normal")
        parts.append((X, y + r.normal(size=len(y))))
    df = pl.concat([frame(X, y).with_columns(g=pl.lit(i)) for i, (X, y) in enumerate(parts)])
    df = df.sample(fraction=1.0, shuffle=True, seed=c["seed"] % 1000)
    se = c["se"].lower()
    out = df.group_by("g").agg(r=pds.lin_reg_report(*names(parts[0][0]), target="y", add_bias=c["bias"], std_err=c["se"]))
    for k, rows in zip(out["g"], out["r"]):
        d = df.filter(pl.col("g") == k)
        X, y = d.select(names(parts[0][0])).to_numpy(), d["y"].to_numpy()
        if cond(X, c["bias"]) > 300:
            raise Skip
        compare(rows.struct.unnest(), reference(X, y, c["bias"], se), X, c["bias"], "std_err" if se == "se" else se + "_se", 1e-6)
    return True


@law(st.fixed_dictionaries(dict(rep_st, ex=st.sampled_from([1e-3, 1.0, 1e3]))), n=150, rule="any")
def scaling(c):
    """Rescaling the target rescales the estimates and leaves t, p and R-squared alone; renamed and computed features keep their names."""
    c = dict(c, f64=True)
    r, X, y = noisy(c)
    A = aug(X, c["bias"])
    h = np.einsum("ij,jk,ik->i", A, np.linalg.inv(A.T @ A), A)
    if np.any(1 - h < 1e-3):
        raise Skip
    se = c["se"].lower()
    df = frame(X, y * c["ex"], c["cuts"])
    fs = [pl.col(z).alias("f_" + z) for z in names(X)]
    rep = df.select(r=pds.lin_reg_report(*fs, target=pl.col("y") / c["ex"], add_bias=c["bias"], std_err=c["se"])).unnest("r")
    compare(rep, reference(X, y, c["bias"], se), X, c["bias"], "std_err" if se == "se" else se + "_se", 1e-6, ["f_" + z for z in names(X)])
    return True


@law(st.fixed_dictionaries(dict(base, k=st.integers(0, 4), policy=st.sampled_from(["skip", "zero", "one", "2.5"]), lam=st.sampled_from([0.0, 0.0, 0.0, 0.5]), lazy=st.booleans())), n=150, rule="nulls, a bias or a penalty")
def printed_reports(c):
    """fit_df(show_report=True) prints the report of the model that it fits; a ridge model has none."""
    import builtins
    from polars_ds.linear_models import LR

    c = dict(c, f64=True)
    r, X, y = noisy(c, min_extra=10)
    Xo, yo = with_nulls(r, X, y, c["k"], True)
    keep, Xk, yk = treat(Xo, yo, c["policy"])
    if len(yk) < X.shape[1] + c["bias"] + 2 or cond(Xk, c["bias"]) > 300:
        raise Skip
    df = obj_frame(Xo, yo, c["cuts"])
    m = LR(has_bias=c["bias"], lambda_=c["lam"])
    said, real = [], builtins.print
    builtins.print = lambda *a, **k: said.extend(a)
    try:
        m.fit_df(df.lazy() if c["lazy"] else df, names(X), "y", null_policy=c["policy"], show_report=True)
    finally:
        builtins.print = real
    vec(np.append(m.coeffs(), [m.bias()] * c["bias"]), ridge(Xk, yk, c["bias"], c["lam"]), "the model", 1e-6 * (1 + np.abs(ridge(Xk, yk, c["bias"], c["lam"])).max()) * 10)
    frames = [x for x in said if isinstance(x, pl.DataFrame)]
    if c["lam"] > 0:
        check_eq(len(frames), 0, "reports printed for a ridge model")
        return "ridge"
    check_eq(len(frames), 1, "reports printed")
    compare(frames[0], reference(Xk, yk, c["bias"], "se"), Xk, c["bias"], "std_err", 1e-6)
    return True if c["bias"] or c["k"] else None


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 120000)), p=st.integers(1, 4), bias=st.booleans(), se=st.sampled_from(["se", "hc0", "hc1", "hc2", "hc3"]), w=st.booleans())), n=3, rule="by standard error")
def many_rows(c):
    """More rows than 16 bits count."""
    r = rng(c["seed"])
    n, p = c["n"], c["p"]
    X = r.normal(size=(n, p))
    y = X @ r.normal(size=p) * 0.02 + r.normal(size=n) * (1 + np.abs(X[:, 0])) + 0.3
    w = r.random(n) * 3 + 0.1 if c["w"] else None
    df = frame(X, y, [], **({"w": w} if c["w"] else {}))
    rep = df.select(r=pds.lin_reg_report(*names(X), target="y", weights="w" if c["w"] else None, add_bias=c["bias"], std_err=c["se"])).unnest("r")
    se = "se" if c["w"] else c["se"]
    compare(rep, reference(X, y, c["bias"], se, w), X, c["bias"], "std_err" if se == "se" else se + "_se", 1e-6)
    return "weighted" if c["w"] else se
