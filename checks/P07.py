"""Lasso and elastic-net fits satisfy their optimality conditions."""
from checks.linref import *
from checks.P06 import with_nulls, obj_frame, treat, vec
from polars_ds.linear_models import ElasticNet

L1 = st.sampled_from([0.001, 0.01, 0.1, 0.5, 2.0])
L2E = st.sampled_from([0.0, 0.0, 0.01, 0.3, 2.0])


def well(X, bias, l2):
    """Condition number of the quadratic part, intercept included: coordinate descent converges fast when it is small."""
    n, p = X.shape
    A = aug(X, bias)
    G = A.T @ A / n
    G[:p, :p] += l2 * np.eye(p)
    d = np.sqrt(np.diag(G))
    nz = d > 0
    G = G[nz][:, nz] / np.outer(d[nz], d[nz])
    if G.size == 0:
        return 1.0
    ev = np.linalg.eigvalsh(G)
    return np.inf if ev[0] <= 0 else ev[-1] / ev[0]


def kkt(X, y, w, b, l1, l2, bias, tol, f32=False):
    """Distance from the optimality conditions must be explained by the stopping rule alone."""
    n, p = X.shape
    res = y - X @ w - b
    g = X.T @ res / n - l2 * w
    Gabs = np.abs(X.T @ X) / n + l2 * np.eye(p)
    mx = np.abs(X.mean(axis=0))
    # last sweep: every coordinate moved by less than tol, and the intercept by less than sum |mean x| tol
    moved = tol * (1 + (mx.sum() if bias else 0))
    eps = tol * Gabs.sum(axis=1) + (mx * moved if bias else 0)
    sc = 1 + np.abs(y).max() * (1 + np.abs(X).max()) + np.abs(X).max() * (np.abs(X).max() * np.abs(w).sum())
    eps = eps * 1.01 + (1e-11 if not f32 else 2e-5) * sc
    for j in range(p):
        if not np.isfinite(w[j]):
            fail(f"coefficient {j} is {w[j]}")
        if w[j] != 0:
            if not abs(g[j] - l1 * np.sign(w[j])) <= eps[j]:
                fail(f"coefficient {j} = {w[j]}: gradient {g[j]} is not l1*sign = {l1 * np.sign(w[j])}", eps=eps[j], w=w, b=b)
        elif not abs(g[j]) <= l1 + eps[j]:
            fail(f"coefficient {j} is zero but the gradient {g[j]} exceeds l1 = {l1}", eps=eps[j], w=w, b=b)
    if bias and not abs(res.mean()) <= (1e-10 if not f32 else 2e-5) * sc:
        fail(f"intercept is not optimal: mean residual {res.mean()}")


en = dict(seed=seeds, p=st.integers(1, 5), extra=sized((2, 10), (5, 60)), kind=st.sampled_from(["normal", "shifted", "ints", "dummies", "anti", "zerocol"]),
          bias=st.booleans(), cuts=cuts_st, l1=L1, l2=L2E, tol=st.sampled_from([1e-5, 1e-8, 1e-10]))


def data(c, wide=False):
    r = rng(c["seed"])
    n, p = c["p"] + c["extra"], c["p"]
    kind = c["kind"] if c["kind"] not in ("anti", "zerocol") else "shifted"
    X, y = design(r, n, p, kind)
    if c["kind"] == "anti":  # x'y = 0 although x and y are correlated: the intercept decides
        y = y - y.mean() + r.normal() * 2
        for j in range(p):
            d = X[:, j].sum()
            if abs(d) > 1e-3:
                X[:, j] -= (X[:, j] @ y) / (y.sum() if abs(y.sum()) > 1e-3 else 1)
    if c["kind"] == "zerocol":
        X[:, r.integers(0, p)] = 0
    if not np.isfinite(X).all() or np.abs(X).max() > 100:
        raise Skip
    return r, X, y


@law(st.fixed_dictionaries(dict(en, f64=st.sampled_from([True, True, True, False]), k=st.sampled_from([0, 0, 0, 1, 4]), policy=st.sampled_from(["skip", "zero", "one", "0.5"]))),
     n=1200, rule="some coefficient is zero, or the intercept or a null is present")
def expression(c):
    r, X, y = data(c)
    Xo, yo = with_nulls(r, X, y, c["k"], True)
    df = obj_frame(Xo, yo, c["cuts"])
    keep, Xk, yk = treat(Xo, yo, c["policy"])
    if len(yk) < X.shape[1] + 1 or well(Xk, c["bias"], c["l2"]) > 40:
        raise Skip
    kw = dict(target="y", add_bias=c["bias"], l1_reg=c["l1"], l2_reg=c["l2"], tol=c["tol"], null_policy=c["policy"])
    with precision(c["f64"]):
        out = df.select(c=pds.lin_reg(*names(X), **kw))["c"]
        pr = df.select(c=pds.lin_reg(*names(X), return_pred=True, **kw))["c"]
    check_eq(len(out), 1, "rows")
    b = out[0].to_numpy().astype(float)
    p = X.shape[1]
    check_eq(len(b), p + c["bias"], "number of coefficients")
    kkt(Xk, yk, b[:p], b[p] if c["bias"] else 0.0, c["l1"], c["l2"], c["bias"], max(c["tol"], 0 if c["f64"] else 1e-5), not c["f64"])
    pred = np.full(len(keep), np.nan)
    pred[keep] = aug(Xk, c["bias"]) @ b
    res = np.full(len(keep), np.nan)
    res[keep] = yk - pred[keep]
    t = (1e-9 if c["f64"] else 1e-4) * (1 + np.abs(yk).max() + np.abs(Xk).max() * np.abs(b).sum())
    check_seq(pr.struct.field("pred").fill_null(float("inf")), pred, "pred", 0, t)
    check_seq(pr.struct.field("resid").fill_null(float("inf")), res, "resid", 0, t)
    z = int((b[:p] == 0).sum())
    return "all zero" if z == p else "sparse" if z else ("bias" if c["bias"] else (c["k"] > 0))


@law(st.fixed_dictionaries(dict(en, df=st.booleans(), wide=st.booleans(), l1z=st.sampled_from([False, False, True]))), n=800, rule="some coefficient is zero, or there are fewer rows than features, or no l1 penalty")
def estimator(c):
    r, X, y = data(c)
    if c["wide"]:
        X, y = X[: max(2, c["p"] - 1)], y[: max(2, c["p"] - 1)]
    l1, l2 = c["l1"], c["l2"]
    if c["l1z"]:
        l1, l2 = 0.0, l2 or 0.3
    if well(X, c["bias"], l2) > 40:
        raise Skip
    m = ElasticNet(l1, l2, has_bias=c["bias"], tol=c["tol"])
    check_eq(m.is_fit(), False, "is_fit before fit")
    if c["df"]:
        m.fit_df(frame(X, y, c["cuts"]), names(X), "y")
    else:
        m.fit(X, y)
        m.set_input_features(names(X))
    check_eq(m.is_fit(), True, "is_fit")
    check_eq(m.has_bias(), c["bias"], "has_bias")
    w, b = m.coeffs(), m.bias()
    check_eq(len(w), X.shape[1], "number of coefficients")
    if not c["bias"]:
        check_eq(b, 0.0, "bias of a model without one")
    kkt(X, y, w, b, l1, l2, c["bias"], c["tol"])
    P = X @ w + b
    t = 1e-9 * (1 + np.abs(P).max())
    vec(m.predict(X).ravel(), P, "predict", t)
    vec(m.predict_df(frame(X, y))["prediction"].to_numpy(), P, "predict_df", t)
    m2 = ElasticNet.from_values(w.tolist(), b)
    vec(m2.predict(X).ravel(), P, "from_values", t)
    if not c["df"] and not c["l1z"] and len(y) >= X.shape[1] and not c["wide"]:
        e = frame(X, y, c["cuts"]).select(c=pds.lin_reg(*names(X), target="y", add_bias=c["bias"], l1_reg=l1, l2_reg=l2, tol=c["tol"]))["c"][0].to_numpy()
        vec(e, np.append(w, [b] * c["bias"]), "expression and estimator agree", 1e-9 * (1 + np.abs(w).max()))
    z = int((w == 0).sum())
    return "no l1" if c["l1z"] else "wide" if len(y) < X.shape[1] else "sparse" if z else None


@law(st.fixed_dictionaries(en), n=300, rule="scikit-learn's solution has a non-zero coefficient")
def against_sklearn(c):
    from sklearn.linear_model import ElasticNet as SK

    r, X, y = data(c)
    if well(X, c["bias"], c["l2"]) > 40 or c["kind"] == "zerocol":
        raise Skip
    a = c["l1"] + c["l2"]
    sk = SK(alpha=a, l1_ratio=c["l1"] / a, fit_intercept=c["bias"], tol=1e-14, max_iter=100000).fit(X, y)
    m = ElasticNet(c["l1"], c["l2"], has_bias=c["bias"], tol=1e-10).fit(X, y)
    t = 1e-6 * (1 + np.abs(sk.coef_).max() + abs(sk.intercept_))
    vec(m.coeffs(), sk.coef_, "coefficients", t)
    vec([m.bias()], [sk.intercept_], "intercept", t)
    return bool((sk.coef_ != 0).any())


@law(st.fixed_dictionaries(dict(en, g=st.integers(2, 4))), n=150, rule="any")
def groups(c):
    r = rng(c["seed"])
    parts = []
    for g in range(c["g"]):
        _, X, y = data(dict(c, seed=c["seed"] + g))
        if well(X, c["bias"], c["l2"]) > 40:
            raise Skip
        parts.append((X, y))
    X, y = np.vstack([a for a, _ in parts]), np.concatenate([b for _, b in parts])
    g = np.concatenate([np.full(len(b), i) for i, (_, b) in enumerate(parts)])
    perm = r.permutation(len(y))
    X, y, g = X[perm], y[perm], g[perm]
    df = frame(X, y, c["cuts"], g=g)
    e = pds.lin_reg(*names(X), target="y", add_bias=c["bias"], l1_reg=c["l1"], l2_reg=c["l2"], tol=c["tol"])
    out = df.group_by("g").agg(o=e)
    ov = df.select("g", o=e.over("g"))
    for k, o in list(zip(out["g"], out["o"])) + list(zip(ov["g"], ov["o"])):
        b = np.asarray(o.to_list() if isinstance(o, pl.Series) else o, float)
        p = X.shape[1]
        kkt(X[g == k], y[g == k], b[:p], b[p] if c["bias"] else 0.0, c["l1"], c["l2"], c["bias"], c["tol"])
    return True


@law(st.fixed_dictionaries(dict(l1=st.sampled_from([0.0, -1.0]), l2=st.sampled_from([0.0, -0.5]))), n=10, rule="any")
def no_penalty_rejected(c):
    if not raises(lambda: ElasticNet(c["l1"], c["l2"])):
        fail("an elastic net without any penalty is not rejected")
    return True
