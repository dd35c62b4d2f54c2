"""Least-squares expressions return the optimum, its predictions and residuals."""
from checks.linref import *
from polars_ds.linear_models import LR

SOLVERS = st.sampled_from(["qr", "svd", "choleskey", "cholesky"])
L2 = st.sampled_from([0.0, 0.0, 0.01, 1.0, 25.0])


def coeffs(df, *x, **kw):
    out = df.select(c=pds.lin_reg(*x, **kw))
    check_eq(out.height, 1, "rows of the coefficients")
    return out["c"][0].to_numpy()

WS = st.sampled_from([1.0, 1.0, 2.0**-12, 2.0**14])  # scale of the weights: it cancels


def vec(got, want, what, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        fail(f"{what}: shape {got.shape} != {want.shape}")
    if not np.all(np.abs(got - want) <= tol):
        fail(f"{what}: got {got[:12]}, want {want[:12]}")


@law(st.fixed_dictionaries(dict(base, l2=L2, solver=SOLVERS, w=st.booleans(), ws=WS, f64=st.sampled_from([True, True, False]), dtype=st.sampled_from(["f64", "f32", "mixed"]), lazy=st.booleans())),
     n=900, rule="l2 penalty, weights, bias or single precision in use")
def optimum(c):
    r, X, y = make(c, maxcond=1e3 if c["f64"] else 15)
    n, p = X.shape
    w = None
    if c["w"]:
        w = r.random(n) * 3 + 0.1
        if r.random() < 0.3:
            w[r.integers(0, n)] = 0.0
        w *= c["ws"]
        if cond(X, c["bias"], w) > (1e3 if c["f64"] else 15):
            raise Skip
    if c["dtype"] == "f32":
        X, y = X.astype(np.float32), y.astype(np.float32)
    df = frame(X, y, c["cuts"], **({"w": w} if c["w"] else {}))
    if c["dtype"] == "mixed" and c["kind"] in ("ints", "dummies"):
        df = df.with_columns(pl.col("x0").cast(pl.Int16))
    X, y = X.astype(float), y.astype(float)
    l2 = 0.0 if c["w"] else c["l2"]  # documented: weights make it ignore the penalties
    want = ridge(X, y, c["bias"], l2, w)
    f = df.lazy() if c["lazy"] else df
    kw = dict(target="y", add_bias=c["bias"], l2_reg=c["l2"], solver=c["solver"], weights="w" if c["w"] else None)
    with precision(c["f64"]):
        a = f.select(c=pds.lin_reg(*names(X), **kw))
        b = f.select(c=pds.lin_reg(*names(X), return_pred=True, **kw))
    if c["lazy"]:
        a, b = a.collect(), b.collect()
    check_eq(a.height, 1, "rows of the coefficients")
    rel = 1e-7 if c["f64"] else 4e-3
    big = scale_tol(want, X, y, rel) * (1 + 1 / max(1e-3, np.min(np.abs(X[X != 0])) if (X != 0).any() else 1) * (c["kind"] == "scaled"))
    vec(a["c"][0].to_numpy(), want, "coefficients", big)
    pred = aug(X, c["bias"]) @ want
    tol = rel * 10 * (1 + np.max(np.abs(y)) + np.max(np.abs(pred)) + np.max(np.abs(X)) * np.max(np.abs(want)))
    s = b["c"].struct
    vec(s.field("pred").to_numpy(), pred, "pred", tol)
    vec(s.field("resid").to_numpy(), y - pred, "resid", tol)
    # normal equations on what was returned
    res = y - aug(X, c["bias"]) @ a["c"][0].to_numpy()
    g = aug(X, c["bias"]).T @ (res if w is None else res * w)
    pen = np.append(l2 * a["c"][0].to_numpy()[:p], [0.0] * c["bias"])
    vec(g, pen, "normal equations", rel * 100 * n * (1 + np.max(np.abs(X)) * (np.max(np.abs(y)) + np.max(np.abs(want)) * np.max(np.abs(X)) + 1)))
    return c["l2"] > 0 or c["w"] or c["bias"] or not c["f64"]


def with_nulls(r, X, y, k, in_y):
    X, y = X.astype(object).copy(), y.astype(object).copy()
    n, p = X.shape
    for _ in range(k):
        i, j = r.integers(0, n), r.integers(0, p + 1)
        if j == p:
            if in_y:
                y[i] = None
        else:
            X[i, j] = None
    return X, y


def obj_frame(X, y, cuts):
    d = {f"x{i}": pl.Series(X[:, i].tolist(), dtype=pl.Float64) for i in range(X.shape[1])}
    d["y"] = pl.Series(y.tolist(), dtype=pl.Float64)
    return chunk_df(pl.DataFrame(d), cuts)


def treat(Xo, yo, policy):
    """-> (rows kept, X, y) under the documented policy."""
    has_x = np.array([any(v is None for v in row) for row in Xo])
    has_y = np.array([v is None for v in yo])
    if policy == "skip":
        keep = ~(has_x | has_y)
        fill = 0.0
    else:
        fill = {"zero": 0.0, "one": 1.0}.get(policy)
        fill = float(policy) if fill is None else fill
        keep = ~has_y
    X = np.array([[fill if v is None else v for v in row] for row in Xo], float).reshape(Xo.shape)[keep]
    return keep, X, np.array([v for v, k in zip(yo, keep) if k], float)


@law(st.fixed_dictionaries(dict(base, l2=L2, solver=SOLVERS, k=st.integers(0, 6), in_y=st.booleans(), policy=st.sampled_from(["skip", "zero", "one", "1.25", "-2", "raise"]))),
     n=700, rule="there are nulls")
def null_policies(c):
    r, X, y = make(c, min_extra=3)
    Xo, yo = with_nulls(r, X, y, c["k"], c["in_y"])
    df = obj_frame(Xo, yo, c["cuts"])
    anynull = any(v is None for v in Xo.ravel()) or any(v is None for v in yo)
    kw = dict(target="y", add_bias=c["bias"], l2_reg=c["l2"], solver=c["solver"], null_policy=c["policy"])
    if c["policy"] == "raise":
        f = lambda rp: df.select(pds.lin_reg(*names(X), return_pred=rp, **kw))
        for rp in (False, True):
            if raises(lambda: f(rp)) != anynull:
                fail("policy 'raise': error must occur exactly when there are nulls", nulls=anynull)
        return "raise" if anynull else None
    keep, Xk, yk = treat(Xo, yo, c["policy"])
    if cond(Xk, c["bias"]) > 1e3:
        raise Skip
    want = ridge(Xk, yk, c["bias"], c["l2"])
    tol = scale_tol(want, Xk, yk, 1e-6) * 10
    vec(coeffs(df, *names(X), **kw), want, f"coefficients, policy {c['policy']}", tol)
    s = df.select(c=pds.lin_reg(*names(X), return_pred=True, **kw))["c"].struct
    pred = np.full(len(keep), np.nan)
    pred[keep] = aug(Xk, c["bias"]) @ want
    res = np.full(len(keep), np.nan)
    res[keep] = yk - pred[keep]
    t = 1e-6 * (1 + np.max(np.abs(yk)) + np.max(np.abs(Xk)) * np.max(np.abs(want)))
    check_seq(s.field("pred").fill_null(float("inf")), pred, "pred", 1e-6, t)
    check_seq(s.field("resid").fill_null(float("inf")), res, "resid", 1e-6, t)
    return c["policy"] if anynull else None


@law(st.fixed_dictionaries(dict(base, l2=L2, solver=SOLVERS, t=st.integers(1, 4), k=st.integers(0, 3), yn=st.sampled_from([-1, -1, -1, 0, 1, 2, 3]), policy=st.sampled_from(["zero", "one", "0.5", "raise", "skip"]), f64=st.sampled_from([True, True, False]))),
     n=400, rule="two or more targets")
def multi_target(c):
    r, X, y = make(c, min_extra=2, maxcond=1e3 if c["f64"] else 15)
    Y = np.column_stack([y] + [r.normal(size=len(y)) * 2 for _ in range(c["t"] - 1)])
    Xo, _ = with_nulls(r, X, y, c["k"], False)
    anynull = any(v is None for v in Xo.ravel())
    df = obj_frame(Xo, Y[:, 0].astype(object), c["cuts"]).drop("y").with_columns(**{f"t{i}": Y[:, i] for i in range(c["t"])})
    ynull = 0 <= c.get("yn", -1) < c["t"]
    if ynull:
        # one null in one of the targets: no policy can handle it when there are several
        at = int(r.integers(0, len(y)))
        df = df.with_columns(pl.when(pl.int_range(pl.len()) == at).then(None).otherwise(pl.col(f"t{c['yn']}")).alias(f"t{c['yn']}"))
        anynull = True
    kw = dict(target=[f"t{i}" for i in range(c["t"])], add_bias=c["bias"], l2_reg=c["l2"], solver=c["solver"], null_policy=c["policy"])
    if (ynull or c["policy"] in ("raise", "skip") and anynull) and c["t"] > 1:
        with precision(c["f64"]):
            if not raises(lambda: df.select(pds.lin_reg(*names(X), **kw))) or not raises(lambda: df.select(pds.lin_reg(*names(X), return_pred=True, **kw))):
                fail("nulls with a policy that multi-target regression does not support are not rejected")
        return "rejected"
    if c["t"] == 1:
        if anynull:
            raise Skip
        with precision(c["f64"]):
            a = df.select(c=pds.lin_reg(*names(X), **kw))["c"][0].to_list()
            b = df.select(c=pds.lin_reg(*names(X), **dict(kw, target="t0")))["c"][0].to_list()
        check_eq(a, b, "a list of one target")
        return None
    if c["policy"] in ("raise", "skip"):
        Xk = X
    else:
        _, Xk, _ = treat(Xo, y.astype(object), c["policy"])
    if cond(Xk, c["bias"]) > (1e3 if c["f64"] else 15):
        raise Skip
    want = ridge(Xk, Y, c["bias"], c["l2"])
    with precision(c["f64"]):
        a = df.select(c=pds.lin_reg(*names(X), **kw))
        b = df.select(c=pds.lin_reg(*names(X), return_pred=True, **kw)).unnest("c")
    check_eq(a.height, 1, "rows")
    a = a.unnest("c")
    rel = 1e-6 if c["f64"] else 1e-2
    tol = scale_tol(want, Xk, Y, rel) * (10 if c["f64"] else 3)
    if c["kind"] == "scaled":
        tol *= 20
    P = aug(Xk, c["bias"]) @ want
    t = rel * 3 * (1 + np.max(np.abs(Y)) + np.max(np.abs(Xk)) * np.max(np.abs(want)))
    for i in range(c["t"]):
        vec(a[a.columns[i]][0].to_numpy(), want[:, i], f"coefficients of target {i}", tol)
        vec(b[b.columns[2 * i]].to_numpy(), P[:, i], f"pred of target {i}", t)
        vec(b[b.columns[2 * i + 1]].to_numpy(), Y[:, i] - P[:, i], f"resid of target {i}", t)
    return True


@law(st.fixed_dictionaries(dict(base, l2=L2, rcond=st.sampled_from([0.0, 1e-8, 0.05, 0.3, 0.6, 0.95]), k=st.integers(0, 3), policy=st.sampled_from(["skip", "zero", "1.5", "raise"]), f64=st.sampled_from([True, True, True, False]))),
     n=500, rule="some singular value is cut off, or there are nulls or a penalty")
def rcond_variant(c):
    r, X, y = make(c, min_extra=3)
    Xo, yo = with_nulls(r, X, y, c["k"], True)
    df = obj_frame(Xo, yo, c["cuts"])
    anynull = any(v is None for v in Xo.ravel()) or any(v is None for v in yo)
    rel = 1e-6 if c["f64"] else 3e-3

    def f():
        with precision(c["f64"]):
            return df.select(c=pds.lin_reg_w_rcond(*names(X), target="y", add_bias=c["bias"], rcond=c["rcond"], l2_reg=c["l2"], null_policy=c["policy"])).unnest("c")

    if c["policy"] == "raise" and anynull:
        if not raises(f):
            fail("policy 'raise' with nulls is not rejected")
        return "raise"
    keep, Xk, yk = treat(Xo, yo, "skip" if c["policy"] == "raise" else c["policy"])
    A = aug(Xk, c["bias"])
    if cond(Xk, c["bias"]) > (1e3 if c["f64"] else 15):
        raise Skip
    G = A.T @ A
    G[: X.shape[1], : X.shape[1]] += c["l2"] * np.eye(X.shape[1])
    ev, V = np.linalg.eigh(G)
    sv = np.sqrt(ev)
    thr = c["rcond"] * sv.max()
    if np.any(np.abs(sv - thr) < rel * sv.max()):
        raise Skip
    # distinct values only where the cut passes between them
    inv = np.where(sv >= thr, 1 / ev, 0.0)
    want = V @ (inv * (V.T @ (A.T @ yk)))
    out = f()
    got = out["coeffs"][0].to_numpy()
    vec(np.sort(out["singular_values"][0].to_numpy())[::-1], np.sort(sv)[::-1], "singular values", rel * sv.max())
    vec(got, want, "coefficients", scale_tol(want, Xk, yk, rel) * (1 + 1 / sv.min()))
    if not np.any(sv < thr):
        vec(got, ridge(Xk, yk, c["bias"], c["l2"]), "nothing cut off: plain least squares", scale_tol(want, Xk, yk, rel) * (1 + 1 / sv.min()))
    return "cut" if np.any(sv < thr) else ("nulls" if anynull else c["l2"] > 0)


@law(st.fixed_dictionaries(dict(base, w=st.booleans(), ws=WS, rp=st.booleans())), n=300, rule="weights or bias")
def simple(c):
    c = dict(c, p=1)
    r, X, y = make(c, maxcond=1e3)
    w = (r.random(len(y)) * 2 + 0.05) * c["ws"]
    df = frame(X, y, c["cuts"], w=w)
    want = ridge(X, y, c["bias"], 0.0, w if c["w"] else None)
    out = df.select(c=pds.simple_lin_reg("x0", "y", add_bias=c["bias"], weights="w" if c["w"] else None, return_pred=c["rp"]))["c"]
    tol = scale_tol(want, X, y, 1e-7) * (20 if c["kind"] == "scaled" else 1)
    if c["rp"]:
        p = aug(X, c["bias"]) @ want
        vec(out.struct.field("pred").to_numpy(), p, "pred", tol * (1 + np.abs(X).max()))
        vec(out.struct.field("resid").to_numpy(), y - p, "resid", tol * (1 + np.abs(X).max()))
    else:
        check_eq(len(out), 1, "rows")
        vec(out[0].to_numpy(), want, "coefficients", tol)
    return c["w"] or c["bias"]


@law(st.fixed_dictionaries(dict(base, l2=L2, g=st.integers(1, 4), w=st.booleans(), what=st.sampled_from(["agg", "over", "over_pred", "agg_pred", "simple", "multi"]))), n=400, rule="two or more groups")
def groups(c):
    """In group_by and over each group's result is the fit of that group's rows."""
    r = rng(c["seed"])
    Xs, ys, gs = [], [], []
    for g in range(c["g"]):
        n = c["p"] + 4 + int(r.integers(0, 12))
        X, y = design(r, n, c["p"], c["kind"])
        if cond(X, c["bias"]) > 1e3:
            raise Skip
        Xs.append(X), ys.append(y), gs.append(np.full(n, g))
    X, y, g = np.vstack(Xs), np.concatenate(ys), np.concatenate(gs)
    perm = r.permutation(len(y))
    X, y, g = X[perm], y[perm], g[perm]
    w = r.random(len(y)) + 0.2
    df = frame(X, y, c["cuts"], g=g, w=w, y2=y[::-1].copy())
    use_w = c["w"] and c["what"] not in ("multi",)
    kw = dict(target="y", add_bias=c["bias"], weights="w" if use_w else None, l2_reg=c["l2"])
    l2 = 0.0 if use_w else c["l2"]
    fit = lambda m, yy: ridge(X[m], yy[m], c["bias"], l2, w[m] if use_w else None)
    if c["what"] == "simple":
        e = pds.simple_lin_reg("x0", "y", add_bias=c["bias"], weights=kw["weights"])
        fit = lambda m, yy: ridge(X[m][:, :1], yy[m], c["bias"], 0.0, w[m] if use_w else None)
        for k in range(c["g"]):
            if cond(X[g == k][:, :1], c["bias"]) > 1e3:
                raise Skip
    elif c["what"] == "multi":
        e = pds.lin_reg(*names(X), target=["y", "y2"], add_bias=c["bias"], l2_reg=c["l2"])
    else:
        e = pds.lin_reg(*names(X), return_pred="pred" in c["what"], **kw)
    tolf = lambda want, m: scale_tol(want, X[m], y[m], 1e-6) * (50 if c["kind"] == "scaled" else 1) * 10
    if c["what"].startswith("over"):
        out = df.with_columns(o=e.over("g"))
        check_eq(out.drop("o").equals(df), True, "columns unchanged")
        for k in range(c["g"]):
            m = g == k
            want = fit(m, y)
            if c["what"] == "over":
                for row in out.filter(pl.col("g") == k)["o"]:
                    vec(row.to_numpy(), want, f"over, group {k}", tolf(want, m))
            else:
                p = aug(X[m], c["bias"]) @ want
                vec(out.filter(pl.col("g") == k)["o"].struct.field("pred").to_numpy(), p, f"over pred, group {k}", tolf(want, m) * (1 + np.abs(X).max()))
    else:
        out = df.group_by("g", maintain_order=True).agg(o=e)
        check_eq(out.height, c["g"], "groups")
        for k, o in zip(out["g"], out["o"]):
            m = g == k
            want = fit(m, y)
            if c["what"] == "multi":
                vec(o["target_0"], want, f"agg multi, group {k}", tolf(want, m))
                w2 = fit(m, y[::-1])
                vec(o["target_1"], w2, f"agg multi, group {k}", tolf(w2, m))
            elif c["what"] == "agg_pred":
                p = aug(X[m], c["bias"]) @ want
                vec([z["pred"] for z in o], p, f"agg pred, group {k}", tolf(want, m) * (1 + np.abs(X).max()))
            else:
                o = o.to_numpy() if isinstance(o, pl.Series) else o
                vec(o, want, f"agg, group {k}", tolf(want, m))
    return c["what"] if c["g"] > 1 else None


@law(st.fixed_dictionaries(dict(base, l2=L2)), n=200, rule="any")
def metamorphic(c):
    """Row order is irrelevant, doubling a row is weight two, formulas and arrays are accepted as features."""
    r, X, y = make(c, min_extra=2)
    n, p = X.shape
    df = frame(X, y, c["cuts"])
    kw = dict(target="y", add_bias=c["bias"])
    a = coeffs(df, *names(X), l2_reg=c["l2"], **kw)
    tol = scale_tol(a, X, y, 1e-6) * (50 if c["kind"] == "scaled" else 1)
    perm = r.permutation(n)
    vec(coeffs(df[perm.tolist()], *names(X), l2_reg=c["l2"], **kw), a, "row order", tol)
    k = int(r.integers(0, n))
    w = np.ones(n)
    w[k] = 2
    d2 = pl.concat([df, df.slice(k, 1)])
    vec(coeffs(d2, *names(X), **kw), coeffs(df.with_columns(w=w), *names(X), weights="w", **kw), "doubled row", tol * 5)
    v = coeffs(df.with_columns(pl.Series("x0", X[:, 0] / 2)), "x0 * 2", *names(X)[1:], l2_reg=c["l2"], **kw)
    vec(v, a, "formula", tol)
    v = coeffs(df, X[:, 0].copy(), *[pl.col(z) for z in names(X)[1:]], l2_reg=c["l2"], **dict(kw, target=pl.Series("yy", y)))
    vec(v, a, "array and series", tol)
    return True


@law(st.fixed_dictionaries(dict(base, l2=L2, solver=SOLVERS, k=st.integers(0, 5), in_y=st.booleans(), df=st.booleans(), policy=st.sampled_from(["skip", "zero", "one", "-0.5", "raise"]), values=st.booleans(), order=st.sampled_from("CF"))),
     n=500, rule="bias, penalty or missing values")
def estimator(c):
    """The array-based estimator: fit, predict, attributes; missing values by policy (null in frames, NaN in arrays)."""
    r, X, y = make(c, min_extra=3)
    Xo, yo = with_nulls(r, X, y, c["k"], c["in_y"])
    anynull = any(v is None for v in Xo.ravel()) or any(v is None for v in yo)
    m = LR(has_bias=c["bias"], lambda_=c["l2"], solver=c["solver"])
    check_eq(m.is_fit(), False, "is_fit before fit")
    nan = lambda a: np.array([[np.nan if v is None else v for v in row] for row in a], float)
    Xn, yn = np.array(nan(Xo), order=c["order"]), nan(yo.reshape(-1, 1))
    if c["df"]:
        df = obj_frame(Xo, yo, c["cuts"])
        f = lambda: m.fit_df(df.lazy() if c["seed"] % 2 else df, names(X), "y", null_policy=c["policy"])
    else:
        f = lambda: m.fit(Xn, yn if c["seed"] % 2 else yn.ravel(), null_policy=c["policy"])
    if c["policy"] == "raise" and anynull:
        if not raises(f):
            fail("policy 'raise' with missing values is not rejected")
        check_eq(m.is_fit(), False, "is_fit after a rejected fit")
        return "raise"
    keep, Xk, yk = treat(Xo, yo, "skip" if c["policy"] == "raise" else c["policy"])
    if cond(Xk, c["bias"]) > 1e3:
        raise Skip
    f()
    want = ridge(Xk, yk, c["bias"], c["l2"])
    tol = scale_tol(want, Xk, yk, 1e-6) * (20 if c["kind"] == "scaled" else 2)
    check_eq(m.is_fit(), True, "is_fit")
    p = X.shape[1]
    vec(m.coeffs(), want[:p], "coeffs", tol)
    vec([m.bias()], [want[p] if c["bias"] else 0.0], "bias", tol)
    if c["values"]:
        m = LR.from_values(m.coeffs().tolist(), m.bias(), feature_names_in_=names(X))
        vec(m.coeffs(), want[:p], "from_values coeffs", tol)
        vec([m.bias()], [want[p] if c["bias"] else 0.0], "from_values bias", tol)
    P = aug(X, c["bias"]) @ want
    t = tol * (1 + np.abs(X).max()) * p
    got = m.predict(np.array(X, order=c["order"]))
    check_eq(got.shape, (len(y), 1), "shape of predict")
    vec(got.ravel(), P, "predict", t)
    if not c["df"]:
        m.set_input_features(names(X))
    d = frame(X, y, c["cuts"])
    o = m.predict_df(d, name="q")
    check_eq(o.drop("q").equals(d), True, "predict_df keeps the columns")
    vec(o["q"].to_numpy(), P, "predict_df", t)
    if not raises(lambda: m.predict(X[:, :-1])):
        fail("predict with a missing feature is not rejected")
    return c["policy"] if anynull else (c["bias"] or c["l2"] > 0)


@law(st.fixed_dictionaries(dict(seed=seeds, p=st.integers(2, 6), short=st.integers(1, 3), bias=st.booleans())), n=60, rule="any")
def too_few_rows(c):
    """Fewer rows than features is an error, not an answer."""
    r = rng(c["seed"])
    n = max(1, c["p"] - c["short"])
    X, y = r.normal(size=(n, c["p"])), r.normal(size=n)
    df = frame(X, y)
    for rp in (False, True):
        if not raises(lambda: df.select(pds.lin_reg(*names(X), target="y", add_bias=c["bias"], return_pred=rp))):
            fail("fewer rows than features is not rejected")
    if not raises(lambda: LR(has_bias=c["bias"]).fit(X, y)):
        fail("LR.fit: fewer rows than features is not rejected")
    if not raises(lambda: LR(has_bias=c["bias"]).fit(r.normal(size=(9, 2)), r.normal(size=8))):
        fail("LR.fit: mismatched rows are not rejected")
    return True


@law(st.fixed_dictionaries(dict(base, a=POW2, b=POW2, l2=st.booleans(), solver=SOLVERS, values=st.booleans())), n=250, rule="by scale")
def scales(c):
    """Scaling the target or the features scales the coefficients; predictions follow, in expressions and estimators."""
    r, X, y = make(c, min_extra=3)
    if c["bias"]:  # a feature's scale against the constant column changes the conditioning, so only the target is scaled
        c = dict(c, b=0)
    a, b = 2.0 ** c["a"], 2.0 ** c["b"]
    l2 = 0.5 if c["l2"] and c["b"] == 0 else 0.0
    df, sc = frame(X, y, c["cuts"]), frame(X * b, y * a, c["cuts"])
    p, q = X.shape[1], X.shape[1] + int(c["bias"])
    kw = dict(target="y", add_bias=c["bias"], l2_reg=l2, solver=c["solver"])
    u, v = coeffs(df, *names(X), **kw), coeffs(sc, *names(X), **kw)
    tol = scale_tol(u, X, y, 1e-7) * (50 if c["kind"] == "scaled" else 1)
    vec(np.asarray(v) * (b / a), u, "coefficients of scaled data", tol)
    pr = lambda d, s: d.select(pds.lin_reg(*names(X), return_pred=True, **kw).alias("o")).unnest("o")["pred"].to_numpy() / s
    t2 = tol * (1 + np.abs(X).max()) * p
    vec(pr(sc, a), pr(df, 1.0), "predictions of scaled data", t2)
    m, k = [LR(has_bias=c["bias"], lambda_=l2, solver=c["solver"]) for _ in range(2)]
    m.fit(X.copy(), y.copy()), k.fit(X * b, y * a)
    if c["values"]:
        m, k = [LR.from_values(z.coeffs().tolist(), z.bias()) for z in (m, k)]
    vec(k.coeffs() * (b / a), m.coeffs(), "estimator: coefficients of scaled data", tol)
    vec([k.bias() / a], [m.bias()], "estimator: bias of scaled data", tol)
    vec(k.predict(X * b).ravel() / a, m.predict(X.copy()).ravel(), "estimator: predictions of scaled data", t2)
    return f"{c['a']} {c['b']}"


@law(st.fixed_dictionaries(dict(base, l2=st.sampled_from([0.0, 0.5]), which=st.sampled_from(["LR", "ElasticNet", "OnlineLR"]))), n=150, rule="by class")
def printed_models(c):
    """What a model prints: that it is not fitted, or its coefficients to five digits and its intercept."""
    import re
    from polars_ds.linear_models import ElasticNet, OnlineLR

    r, X, y = make(c, min_extra=3)
    m = {"LR": lambda: LR(has_bias=c["bias"], lambda_=c["l2"]), "ElasticNet": lambda: ElasticNet(l1_reg=0.01, l2_reg=c["l2"], has_bias=c["bias"]), "OnlineLR": lambda: OnlineLR(has_bias=c["bias"], lambda_=c["l2"])}[c["which"]]()
    s = repr(m)
    if "not fit" not in s.lower() or "coef" in s.lower():
        fail(f"a model without a fit prints {s!r}")
    m.fit(X, y.reshape(-1, 1))
    s = repr(m)
    if "not fit" in s.lower():
        fail(f"a fitted model prints {s!r}")
    if c["which"] != "ElasticNet":
        check_eq("ridge" in s.lower(), c["l2"] > 0, f"named a ridge in {s!r}")
    num = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)"
    a, b = s.split("Coefficients:")[1].split("Bias/Intercept:")
    got = [float(x) for x in re.findall(num, a.replace("float64", "").replace("np.", ""))]
    w = m.coeffs()
    check_eq(len(got), len(w), f"coefficients in {s!r}")
    vec(got, w, f"coefficients in {s!r}", 0.51e-5 + 1e-12 * np.abs(w).max())
    vec([float(re.findall(num, b)[0])], [m.bias()], "intercept printed", 1e-9 * (1 + abs(m.bias())))
    return c["which"]


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 120000)), p=st.integers(1, 6), bias=st.booleans(), l2=L2, solver=SOLVERS, w=st.booleans(), f64=st.sampled_from([True, True, False]), nulls=st.booleans())), n=6, thorough=20, rule="by solver")
def many_rows(c):
    """More rows than 16 bits count."""
    r = rng(c["seed"])
    n, p = c["n"], c["p"]
    X = r.normal(size=(n, p)) + np.linspace(-1, 1, p)
    y = X @ r.normal(size=p) + r.normal(size=n) + 0.4
    if not c["f64"]:
        X, y = X.astype(np.float32).astype(float), y.astype(np.float32).astype(float)
    w = r.random(n) * 3 + 0.1 if c["w"] else None
    df = frame(X, y, [], **({"w": w} if c["w"] else {}))
    keep = np.ones(n, bool)
    if c["nulls"] and not c["w"]:
        keep = r.random(n) > 0.3
        df = df.with_columns(x0=pl.when(pl.Series(keep)).then(pl.col("x0")))
    want = ridge(X[keep], y[keep], c["bias"], 0.0 if c["w"] else c["l2"], w)
    kw = dict(target="y", add_bias=c["bias"], l2_reg=c["l2"], solver=c["solver"], weights="w" if c["w"] else None)
    tol = 1e-8 if c["f64"] else 2e-3
    with precision(c["f64"]):
        vec(coeffs(df, *names(X), **kw), want, "coefficients of many rows", tol * (1 + np.abs(want)))
        o = df.select(o=pds.lin_reg(*names(X), **kw, return_pred=True))["o"].struct.unnest()
    P = aug(X, c["bias"]) @ want
    if o.height == n:
        got = o["pred"].to_numpy()[keep]
        vec(got, P[keep], "predictions of many rows", tol * 50)
        vec(o["resid"].to_numpy()[keep], (y - P)[keep], "residuals of many rows", tol * 50)
        if not keep.all() and o["pred"].filter(pl.Series(~keep)).null_count() + int(o["pred"].filter(pl.Series(~keep)).is_nan().sum() or 0) != int((~keep).sum()):
            fail("predictions for rows with nulls")
    else:
        fail("rows of the predictions", got=o.height, want=n)
    return c["solver"]
