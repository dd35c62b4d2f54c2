"""Incremental regressions equal refitting on the rows they cover."""
from checks.linref import *
from checks.P06 import with_nulls, obj_frame, treat, vec
from polars_ds.linear_models import OnlineLR

L2 = st.sampled_from([0.0, 0.0, 0.0, 0.1, 3.0])
inc = dict(seed=seeds, p=st.integers(1, 4), n=sized((3, 14), (3, 40)), kind=st.sampled_from(["normal", "normal", "shifted", "ints"]), bias=st.booleans(),
           l2=L2, k=st.sampled_from([0, 0, 1, 3, 8]), in_y=st.booleans(), policy=st.sampled_from(["skip", "skip", "zero", "one", "0.75", "raise"]), cuts=cuts_st)


def full_cond(X, bias, l2):
    """Condition number of the (penalised) problem."""
    A = aug(X, bias)
    if l2:
        R = np.zeros((X.shape[1], A.shape[1]))
        R[:, : X.shape[1]] = np.sqrt(l2) * np.eye(X.shape[1])
        A = np.vstack([A, R])
    if len(A) < A.shape[1]:
        return np.inf
    s = np.linalg.svd(A, compute_uv=False)
    return np.inf if s[-1] <= 0 else s[0] / s[-1]


def prepare(c):
    r = rng(c["seed"])
    X, y = design(r, c["n"], c["p"], c["kind"])
    Xo, yo = with_nulls(r, X, y, c["k"], c["in_y"])
    anynull = any(v is None for v in Xo.ravel()) or any(v is None for v in yo)
    return r, X, y, Xo, yo, anynull


def compare(i, row, want, x, what, tol):
    if want is None:
        if row["coeffs"] is not None or row["pred"] is not None:
            fail(f"{what}: row {i} must have no output", got=row)
        return
    if row["coeffs"] is None:
        fail(f"{what}: row {i} has no coefficients", want=want.tolist())
    vec(row["coeffs"], want, f"{what}: coefficients at row {i}", tol * (1 + np.abs(want).max()))
    if x is None:
        if row["pred"] is not None and not np.isnan(row["pred"]):
            fail(f"{what}: row {i} has a missing feature but a prediction", got=row)
    else:
        vec([row["pred"]], [x @ want], f"{what}: prediction at row {i}", tol * (1 + np.abs(want).max()) * (1 + np.abs(x).sum()))


@law(st.fixed_dictionaries(dict(inc, start=st.integers(1, 12), f64=st.sampled_from([True, True, True, False]))), n=900, rule="at least two fits; labelled when rows are dropped")
def recursive(c):
    r, X, y, Xo, yo, anynull = prepare(c)
    df = obj_frame(Xo, yo, c["cuts"])
    e = pds.recursive_lin_reg(*names(X), target="y", start_with=c["start"], add_bias=c["bias"], l2_reg=c["l2"], null_policy=c["policy"])
    if not c["f64"]:
        with precision(False):
            e = pds.recursive_lin_reg(*names(X), target="y", start_with=c["start"], add_bias=c["bias"], l2_reg=c["l2"], null_policy=c["policy"])
    if c["policy"] == "raise" and anynull:
        if not raises(lambda: df.select(e)):
            fail("policy 'raise' with nulls is not rejected")
        return "raise"
    keep, Xk, yk = treat(Xo, yo, "skip" if c["policy"] == "raise" else c["policy"])
    s = c["start"]
    if s > len(yk) or len(yk) < c["p"] or len(yk) < 2:
        raise Skip
    limit = 300 if c["f64"] else 8
    k0 = max(full_cond(Xk[:m], c["bias"], c["l2"]) for m in range(s, len(yk) + 1))
    if k0 > limit:
        raise Skip
    out = df.select(o=e)["o"]
    check_eq(len(out), c["n"], "length")
    tol = (1e-7 if c["f64"] else 5e-3) * (1 + np.abs(yk).max()) * (1 + np.abs(Xk).max())
    m = 0
    A = aug(Xk, c["bias"])
    for i, row in enumerate(out.to_list()):
        if keep[i]:
            m += 1
            if m >= s:
                compare(i, row, ridge(Xk[:m], yk[:m], c["bias"], c["l2"]), A[m - 1], "recursive", tol)
                continue
        compare(i, row, None, None, "recursive", tol)
    return None if m - s < 1 else ("dropped rows" if not keep.all() else True)


@law(st.fixed_dictionaries(dict(inc, win=st.integers(2, 12), minv=st.one_of(st.none(), st.integers(1, 12)), f64=st.sampled_from([True, True, True, False]))), n=1400,
     rule="at least two fits; labelled when rows are skipped and when windows have too few valid rows")
def rolling(c):
    r, X, y, Xo, yo, anynull = prepare(c)
    n, p, W = c["n"], c["p"], c["win"]
    df = obj_frame(Xo, yo, c["cuts"])
    if W < p or W > n:
        raise Skip
    import warnings
    with warnings.catch_warnings(), precision(c["f64"]):
        warnings.simplefilter("ignore")
        e = pds.rolling_lin_reg(*names(X), target="y", window_size=W, add_bias=c["bias"], l2_reg=c["l2"], min_valid_rows=c["minv"], null_policy=c["policy"])
    if c["policy"] == "raise" and anynull:
        if not raises(lambda: df.select(e)):
            fail("policy 'raise' with nulls is not rejected")
        return "raise"
    minv = min(p, W) if c["minv"] is None else c["minv"]
    miss_x = np.array([any(v is None for v in row) for row in Xo])
    miss_y = np.array([v is None for v in yo])
    if c["policy"] in ("skip", "raise"):
        ok, Xf = ~(miss_x | miss_y), np.array([[np.nan if v is None else v for v in row] for row in Xo], float)
    else:
        fill = {"zero": 0.0, "one": 1.0}.get(c["policy"], 0.75)
        ok, Xf = ~miss_y, np.array([[fill if v is None else v for v in row] for row in Xo], float)
    ys = np.array([np.nan if v is None else v for v in yo], float)
    limit = 300 if c["f64"] else 8
    plain = ok.all()
    wants, gaps = [], False
    for i in range(n):
        if i < W - 1:
            wants.append(None)
            continue
        m = np.arange(i - W + 1, i + 1)
        m = m[ok[m]]
        if len(m) < minv and not plain:
            wants.append(None)
            gaps = True
            continue
        if full_cond(Xf[m], c["bias"], c["l2"]) > limit:
            raise Skip
        wants.append(ridge(Xf[m], ys[m], c["bias"], c["l2"]))
    # windows too short to be reported pass through the running inverse as well; keep those that exist well conditioned
    for i in range(W - 1, n):
        m = np.arange(i - W + 1, i + 1)
        m = m[ok[m]]
        if len(m) >= p + c["bias"] and full_cond(Xf[m], c["bias"], c["l2"]) > limit or (c["l2"] and len(m) and full_cond(Xf[m], c["bias"], c["l2"]) > limit):
            raise Skip
    out = df.select(o=e)["o"]
    check_eq(len(out), n, "length")
    tol = (1e-6 if c["f64"] else 2e-2) * (1 + np.nanmax(np.abs(ys))) * (1 + np.nanmax(np.abs(Xf)))
    A = aug(Xf, c["bias"])
    for i, row in enumerate(out.to_list()):
        x = A[i] if np.isfinite(A[i]).all() else None
        compare(i, row, wants[i], x, "rolling", tol)
    if sum(w is not None for w in wants) < 2:
        return None
    return "too few valid" if gaps else "rows skipped" if not plain else ("window = coefficients" if W == p + c["bias"] else True)


@law(st.fixed_dictionaries(dict(inc, g=st.integers(2, 3), win=st.integers(5, 8), which=st.sampled_from(["rolling", "recursive"]))), n=150, rule="any")
def groups(c):
    """Within over each group is its own sequence."""
    r = rng(c["seed"])
    n = c["n"] + 12
    X, y = design(r, n * c["g"], c["p"], "normal")
    g = r.permutation(np.repeat(np.arange(c["g"]), n))
    df = frame(X, y, c["cuts"], g=g)
    w = c["win"] + c["p"]
    if c["which"] == "rolling":
        e = pds.rolling_lin_reg(*names(X), target="y", window_size=w, add_bias=c["bias"], l2_reg=c["l2"])
    else:
        e = pds.recursive_lin_reg(*names(X), target="y", start_with=w, add_bias=c["bias"], l2_reg=c["l2"])
    out = df.select("g", o=e.over("g"))
    for k in range(c["g"]):
        Xg, yg = X[g == k], y[g == k]
        A = aug(Xg, c["bias"])
        tol = 1e-6 * (1 + np.abs(y).max()) * (1 + np.abs(X).max())
        for i, row in enumerate(out.filter(pl.col("g") == k)["o"].to_list()):
            if i < w - 1:
                compare(i, row, None, None, c["which"], tol)
            else:
                s = slice(i - w + 1 if c["which"] == "rolling" else 0, i + 1)
                if full_cond(Xg[s], c["bias"], c["l2"]) > 300:
                    raise Skip
                compare(i, row, ridge(Xg[s], yg[s], c["bias"], c["l2"]), A[i], c["which"], tol)
    return c["which"]


op = st.one_of(st.just("add"), st.tuples(st.just("weigh"), st.sampled_from([0.25, 0.5, 2.0, 3.0, 0.0])),  st.just("add"), st.tuples(st.just("drop"), st.integers(0, 99)), st.tuples(st.just("nan"), st.integers(0, 9)), st.just("rebuild"), st.just("predict"), st.tuples(st.just("refit"), st.integers(0, 20)))


@law(st.fixed_dictionaries(dict(seed=seeds, p=st.integers(1, 4), n0=st.integers(0, 10), bias=st.booleans(), l2=L2, kind=st.sampled_from(["normal", "shifted", "ints", "scaled"]),
                                ops=st.lists(op, max_size=30))), n=900, rule="a history with at least one addition and one removal, NaN row, rebuild or refit")
def online_history(c):
    r = rng(c["seed"])
    p, bias, l2 = c["p"], c["bias"], c["l2"]
    n0 = p + bias + c["n0"] + 1
    true = r.normal(size=p)
    mk = lambda n: (lambda X: (X, X @ true + r.normal(size=n)))(design(r, n, p, c["kind"])[0])
    X, y = mk(n0)
    rows = [(X[i], y[i], 1.0) for i in range(n0)]
    plain = lambda rs: (np.array([a for a, _, _ in rs]), np.array([b for _, b, _ in rs]))
    shape = lambda v: v.reshape([(-1, 1), (-1,), (1, -1)][r.integers(3)])

    def cur(rs):
        """The rows with their weights worked in."""
        g = np.sqrt([g for _, _, g in rs])
        A = aug(plain(rs)[0], bias)
        return A * g[:, None], plain(rs)[1] * g
    limit = 200
    if full_cond(X, bias, l2) > limit:
        raise Skip
    m = OnlineLR(lambda_=l2, has_bias=bias)
    check_eq(m.is_fit(), False, "is_fit before fit")
    if not raises(lambda: m.update(X[0], float(y[0]))):
        fail("an update before the first fit is not rejected")
    m.fit(X, shape(y))
    rebuilt = False
    done = set()

    def check(what):
        A, yc = cur(rows)
        G = A.T @ A
        G[:p, :p] += l2 * np.eye(p)
        want = np.linalg.solve(G, A.T @ yc)
        tol = 1e-6 * (1 + np.abs(want).max()) * (1 + np.abs(yc).max()) * (20 if c["kind"] == "scaled" else 1)
        vec(m.coeffs(), want[:p], f"coefficients after {what}", tol)
        vec([m.bias()], [want[p] if bias else 0.0], f"bias after {what}", tol)
        vec(m.inv() @ G, np.eye(p + bias), f"inverse after {what}", 1e-5)
        return want, tol

    check("fit")
    for o in c["ops"]:
        name, arg = (o, None) if isinstance(o, str) else o
        if name == "add":
            Xn, yn = mk(1)
            m.update(Xn[0] if r.random() < 0.5 else Xn, float(yn[0]) if r.random() < 0.5 else shape(yn))
            rows.append((Xn[0], yn[0], 1.0))
        elif name == "weigh":
            Xn, yn = mk(1)
            m.update(Xn[0], float(yn[0]), arg)
            rows.append((Xn[0], yn[0], arg))
        elif name == "drop":
            i = arg % len(rows)
            rest = rows[:i] + rows[i + 1 :]
            if len(rest) < p + bias or full_cond(cur(rest)[0], False, l2) > limit or not rows[i][2]:
                continue
            m.update(rows[i][0], float(rows[i][1]), -rows[i][2])
            rows = rest
        elif name == "nan":
            Xn, yn = mk(1)
            if arg % (p + 1) == p:
                yn[0] = np.nan
            else:
                Xn[0, arg % (p + 1)] = np.nan
            m.update(Xn, float(yn[0]), 1.0 if arg < 5 else -1.0)
        elif name == "rebuild":
            m = OnlineLR.from_coeffs_bias_inverse(m.coeffs().tolist(), m.bias(), m.inv())
            rebuilt = True
        elif name == "refit":
            if rebuilt:
                continue  # a rebuilt model does not know the penalty
            Xn, yn = mk(p + bias + 2 + arg)
            if full_cond(Xn, bias, l2) > limit:
                continue
            m.fit(Xn, shape(yn))
            rows = [(Xn[i], yn[i], 1.0) for i in range(len(yn))]
        want, tol = check(name)
        if name == "predict":
            Xn, _ = mk(5)
            vec(m.predict(Xn).ravel(), aug(Xn, bias) @ want, "predict", tol * (1 + np.abs(Xn).sum()))
            if not raises(lambda: m.predict(np.ones((2, p + 1)))):
                fail("predict with a wrong number of features is not rejected")
        done.add(name)
    if not raises(lambda: OnlineLR.from_coeffs_bias_inverse(m.coeffs().tolist() + [1.0, 2.0], m.bias(), m.inv())):
        fail("coefficients that do not match the inverse are not rejected")
    other = sorted(done - {"add", "predict"})
    return "+".join(other) if "add" in done and other else None


@law(st.fixed_dictionaries(dict(seed=seeds, p=st.integers(1, 3), where=st.integers(0, 30))), n=40, rule="any")
def initial_nan_rejected(c):
    r = rng(c["seed"])
    X, y = design(r, 8, c["p"], "normal")
    y = y.reshape(-1, 1)
    k = c["where"] % (c["p"] + 1)
    if k == c["p"]:
        y[c["where"] % 8] = np.nan
    else:
        X[c["where"] % 8, k] = np.nan
    m = OnlineLR()
    if not raises(lambda: m.fit(X, y)) or m.is_fit():
        fail("an initial fit with NaN is not rejected")
    return True


@law(st.fixed_dictionaries(dict(seed=seeds, p=st.integers(1, 3), n=sized((8, 14), (10, 40)), bias=st.booleans(), e=POW2, win=st.integers(0, 6), skip=st.booleans())), n=200, rule="by scale")
def scales(c):
    """Scaling the target scales every fit along the way, the online model included."""
    r = rng(c["seed"])
    X, y = design(r, c["n"], c["p"], "normal")
    f = 2.0 ** c["e"]
    k = c["p"] + int(c["bias"]) + 3 + c["win"]
    if k > c["n"]:
        raise Skip
    # every window must be well conditioned
    if max(full_cond(X[i : i + k], c["bias"], 0) for i in range(c["n"] - k + 1)) > 60:
        raise Skip
    df, sc = frame(X, y), frame(X, y * f)
    kw = dict(target="y", add_bias=c["bias"], null_policy="skip" if c["skip"] else "raise")
    for what, e in (("recursive", pds.recursive_lin_reg(*names(X), start_with=k, **kw)), ("rolling", pds.rolling_lin_reg(*names(X), window_size=k, **kw))):
        a, b = df.select(e.alias("o")).unnest("o"), sc.select(e.alias("o")).unnest("o")
        for col in ("coeffs", "pred"):
            u, v = flat(a[col]), flat(b[col]) / f
            check_eq(len(v), len(u), f"{what}: numbers in {col}")
            if (np.isnan(u) != np.isnan(v)).any() or np.nanmax(np.abs(u - v), initial=0) > 1e-7 * (1 + np.nanmax(np.abs(u), initial=0)):
                fail(f"{what}: {col} of a scaled target", got=v[:12], want=u[:12], factor=f)
    m, s = OnlineLR(has_bias=c["bias"]), OnlineLR(has_bias=c["bias"])
    m.fit(X[:k], y[:k].reshape(-1, 1)), s.fit(X[:k], y[:k].reshape(-1, 1) * f)
    for i in range(k, c["n"]):
        m.update(X[i], float(y[i])), s.update(X[i], float(y[i] * f))
    s2 = OnlineLR.from_coeffs_bias_inverse(s.coeffs().tolist(), s.bias(), s.inv())
    for z in (s, s2):
        vec(z.coeffs() / f, m.coeffs(), "online: coefficients of a scaled target", 1e-7 * (1 + np.abs(m.coeffs()).max()))
        vec([z.bias() / f], [m.bias()], "online: bias of a scaled target", 1e-7 * (1 + np.abs(m.coeffs()).max()))
        vec(z.predict(X).ravel() / f, m.predict(X).ravel(), "online: predictions of a scaled target", 1e-6 * (1 + np.abs(X).sum(1).max()))
    return str(c["e"])


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((20000, 70000)), p=st.integers(1, 4), win=st.integers(12, 60), bias=st.booleans(), l2=st.sampled_from([0.0, 0.0, 0.5]), skip=st.booleans())), n=6, rule="any")
def many_rows(c):
    """Long histories: rounding does not build up."""
    r = rng(c["seed"])
    n, p, W = c["n"], c["p"], c["win"]
    X = r.normal(size=(n, p))
    y = X @ r.normal(size=p) + r.normal(size=n) + 1
    df = frame(X, y, [])
    keep = np.ones(n, bool)
    if c["skip"]:
        keep = r.random(n) >= 0.02
        df = df.with_columns(x0=pl.when(pl.Series(keep)).then(pl.col("x0")))
    kw = dict(target="y", add_bias=c["bias"], l2_reg=c["l2"], null_policy="skip" if c["skip"] else "raise")
    A = aug(X, c["bias"])
    at = [W, W + 1, *map(int, r.integers(W, n, 12)), n - 2, n - 1]
    o = df.select(o=pds.rolling_lin_reg(*names(X), window_size=W, **({"min_valid_rows": W // 2} if c["skip"] else {}), **kw))["o"]
    q = df.select(o=pds.recursive_lin_reg(*names(X), start_with=W, **kw))["o"]
    check_eq((len(o), len(q)), (n, n), "lengths")
    for what, res, lo in (("rolling", o, lambda i: i - W + 1), ("recursive", q, lambda i: 0)):
        for i in at:
            k = np.arange(lo(i), i + 1)
            k = k[keep[k]]
            row = res[i]
            if not keep[i] and what == "recursive":
                compare(i, row, None, None, what, 1e-7)
                continue
            if len(k) < W // 2 or (what == "rolling" and cond(X[k], c["bias"]) > 100) or not keep[i]:
                continue
            if what == "recursive" and len(k) < W:
                continue
            compare(i, row, ridge(X[k], y[k], c["bias"], c["l2"]), A[i], what, 1e-7 * (1 + np.abs(y).max()))
    return "nulls" if c["skip"] else True
