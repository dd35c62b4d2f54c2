"""Nearest-neighbour expressions agree with exhaustive search."""
from checks.common import *

METRICS = ["l1", "l2", "sql2", "inf"]


def dmat(A, B, m):
    diff = A[:, None, :] - B[None, :, :]
    if m == "l1":
        return np.abs(diff).sum(-1)
    if m == "l2":
        return np.sqrt((diff**2).sum(-1))
    if m == "sql2":
        return (diff**2).sum(-1)
    if m == "inf":
        return np.abs(diff).max(-1)


dims = st.sampled_from([1, 2, 3, 2, 3, 4, 5, 7, 9, 11, 14, 15, 16, 17, 19, 20, 23])
data_st = st.fixed_dictionaries(
    dict(
        seed=seeds,
        n=sized((1, 12), (10, 70), (50, 220)),
        d=dims,
        kind=st.sampled_from(["grid", "gauss", "dup", "const", "line", "scale", "cluster", "mono", "gauss"]),
        nulls=st.sampled_from([0, 0, 0, 1, 2]),
        metric=st.sampled_from(METRICS),
        parallel=st.booleans(),
        cuts=cuts_st,
        f32=st.sampled_from([0, 0, 0, 1]),
    )
)


def make(c):
    """-> (data with NaN where missing, frame, ids)"""
    g = rng(c["seed"])
    n, d, kind = c["n"], c["d"], c["kind"]
    if kind == "grid":
        X = g.integers(-4, 5, (n, d)).astype(float)
    elif kind == "dup":
        base = g.integers(-3, 4, (max(1, n // 4), d)).astype(float)
        X = base[g.integers(0, len(base), n)]
    elif kind == "const":
        X = g.normal(size=(n, d))
        X[:, g.integers(0, d)] = 1.5
        if g.random() < 0.3:
            X[:] = X[0]
    elif kind == "line":
        t = g.normal(size=(n, 1))
        X = t * np.ones((1, d)) + 0.001 * g.normal(size=(n, d))
    elif kind == "scale":
        X = g.normal(size=(n, d)) * (10.0 ** g.integers(-3, 2, d))
    elif kind == "cluster":
        cs = g.normal(size=(3, d)) * 8
        X = cs[g.integers(0, 3, n)] + 0.05 * g.normal(size=(n, d))
    elif kind == "mono":
        X = np.sort(g.normal(size=(n, d)), axis=0) * g.choice([-1, 1], d)
    else:
        X = g.normal(size=(n, d)) * 3
    if c.get("f32"):
        X = X.astype(np.float32).astype(float)
    miss = np.zeros((n, d), bool)
    isnan = np.zeros((n, d), bool)
    if c["nulls"]:
        m = g.random((n, d)) < 0.25 / d
        if c["nulls"] == 2:
            isnan = m & (g.random((n, d)) < 0.5)
        miss = m
    if miss.any(axis=1).all():
        miss[0] = False
        isnan[0] = False
    ids = (g.permutation(n) * 3 + 7).astype(np.int64)
    cols = {"id": pl.Series("id", ids)}
    for j in range(d):
        v = [(NAN if isnan[i, j] else None) if miss[i, j] else float(X[i, j]) for i in range(n)]
        cols[f"x{j}"] = pl.Series(f"x{j}", v, dtype=pl.Float32 if c.get("f32") else pl.Float64)
    Xn = X.copy()
    Xn[miss] = NAN
    return Xn, chunk_df(pl.DataFrame(cols), c["cuts"]), ids, g


def feats(c):
    return [f"x{j}" for j in range(c["d"])]


def bound_for(D, q, g):
    """A bound that does not coincide with (nor come within rounding of) any distance."""
    v = D[np.isfinite(D)]
    if len(v) == 0:
        return 1.0
    b = float(np.quantile(v, q))
    u = np.unique(v)
    for _ in range(50):
        b2 = b * (1 + 0.01 * g.random()) + 1e-3 * g.random()
        if np.min(np.abs(u - b2)) > 1e-7 * (1 + b2):
            return b2
    return None


def clip_bound(c, D):
    """default max_bound is 99999: stay clear of it"""
    v = D[np.isfinite(D)]
    assume(len(v) == 0 or v.max() < 9e4)


def check_knn(idx, dist, D_row, cand, ids, k, bound, what):
    """idx/dist: returned lists for one row. D_row: true distance to every row."""
    pos = {int(v): i for i, v in enumerate(ids)}
    d = np.sort(D_row[cand])
    d = d[d <= bound][: k + 1]
    if len(idx) != len(d):
        fail(f"{what}: {len(idx)} neighbours, want {len(d)}", idx=idx, want=list(d))
    if len(set(idx)) != len(idx):
        fail(f"{what}: repeated neighbour", idx=idx)
    for j, i in enumerate(idx):
        if i not in pos:
            fail(f"{what}: unknown id {i}")
        r = pos[i]
        if not cand[r]:
            fail(f"{what}: excluded row returned", id=i)
        check_close(D_row[r], d[j], f"{what}: distance of neighbour {j}", 1e-9, 1e-9)
        if dist is not None:
            check_close(dist[j], D_row[r], f"{what}: reported distance {j}", 1e-9, 1e-9)


mask_st = st.sampled_from([None, None, 0.3, 0.7])


@law(
    st.tuples(data_st, st.integers(1, 12), mask_st, mask_st, st.sampled_from([None, None, 0.05, 0.3, 0.7]), st.booleans()),
    n=1100,
    rule="knn_ptwise: more candidates than k+1 and the tree has several leaves, or masks/nulls/bound active",
)
def knn_ptwise(case):
    c, k, em, dm, bq, wd = case
    X, df, ids, g = make(c)
    n = c["n"]
    D = dmat(X, X, c["metric"])
    valid = ~np.isnan(X).any(1)
    clip_bound(c, D)
    kw = {}
    cand = valid.copy()
    ev = np.ones(n, bool)
    if em is not None:
        ev = g.random(n) < em
        emn = [None if (not v and g.random() < 0.3) else bool(v) for v in ev]
        df = df.with_columns(pl.Series("em", emn, dtype=pl.Boolean))
        kw["eval_mask"] = "em" if g.random() < 0.5 else pl.col("em")
    if dm is not None:
        m = g.random(n) < dm
        m[np.argmax(valid)] = True
        cand &= m
        df = df.with_columns(pl.Series("dm", m))
        kw["data_mask"] = "dm" if g.random() < 0.5 else pl.col("dm")
    bound = 99999.0
    if bq is not None:
        bound = bound_for(D, bq, g)
        assume(bound is not None)
        kw["max_bound"] = bound
    out = df.select(
        o=pds.query_knn_ptwise(*feats(c), index="id", k=k, dist=c["metric"], parallel=c["parallel"], return_dist=wd, **kw)
    )["o"]
    check_eq(len(out), n, "output length")
    rows = out.to_list()
    for i, r in enumerate(rows):
        idx, dist = (r["idx"], r["dist"]) if wd else (r, None)
        if not ev[i] or not valid[i]:
            if idx is not None or dist is not None:
                fail("row that is masked or has missing features got neighbours", i=i, got=r)
            continue
        if idx is None:
            fail("null neighbours for a valid row", i=i)
        if wd and len(dist) != len(idx):
            fail("idx and dist lengths differ", i=i, r=r)
        check_knn(idx, dist, D[i], cand, ids, k, bound, f"row {i}")
    return f"n{'>' if cand.sum() > 10 else '<='}cap/{'masked' if kw else 'plain'}" if cand.sum() > k + 1 or kw else None


@law(st.tuples(data_st, st.integers(1, 8), st.sampled_from([None, 0.3]), st.sampled_from([None, 0.2])), n=300,
     rule="knn_freq_cnt: counts agree with the pointwise query (itself checked against exhaustive search)")
def knn_freq_cnt(case):
    c, k, dm, bq = case
    X, df, ids, g = make(c)
    D = dmat(X, X, c["metric"])
    clip_bound(c, D)
    kw = {}
    if dm:
        m = g.random(c["n"]) < dm
        m[np.argmax(~np.isnan(X).any(1))] = True
        df = df.with_columns(pl.Series("dm", m))
        kw["data_mask"] = "dm"
    if bq:
        b = bound_for(D, bq, g)
        assume(b is not None)
        kw["max_bound"] = b
    a = df.select(pds.query_knn_ptwise(*feats(c), index="id", k=k, dist=c["metric"], **kw).alias("o"))["o"].to_list()
    want = {}
    for r in a:
        for i in r or []:
            want[i] = want.get(i, 0) + 1
    out = df.select(
        pds.query_knn_freq_cnt(*feats(c), index="id", k=k, dist=c["metric"], parallel=c["parallel"], **kw).alias("o")
    )["o"].to_list()
    got = {list(r.values())[0]: list(r.values())[1] for r in out}
    check_eq(got, want, "frequency counts")
    cnts = [list(r.values())[1] for r in out]
    check_eq(cnts, sorted(cnts, reverse=True), "counts are listed from the most frequent")
    return len(want) > 3


@law(st.tuples(data_st, st.integers(1, 10), st.booleans(), st.sampled_from([1e-9, 0.0, 1e-12, 0.3, 1.0]),
               st.sampled_from([None, None, 0.3])), n=600,
     rule="knn_avg: at least one row averages over two or more neighbours")
def knn_avg(case):
    c, k, weighted, mb, bq = case
    X, df, ids, g = make(c)
    n = c["n"]
    D = dmat(X, X, c["metric"])
    clip_bound(c, D)
    if mb > 1e-8:
        v = D[np.isfinite(D)]
        assume(np.min(np.abs(v - mb)) > 1e-6)
    y = g.normal(size=n) * 5
    df = df.with_columns(y=pl.Series(y))
    kw = {}
    bound = 99999.0
    if bq:
        bound = bound_for(D, bq, g)
        assume(bound is not None)
        kw["max_bound"] = bound
    out = df.select(
        pds.query_knn_avg(*feats(c), target="y", k=k, dist=c["metric"], weighted=weighted, parallel=c["parallel"], min_bound=mb, **kw).alias("o")
    )["o"].to_list()
    valid = ~np.isnan(X).any(1)
    big = False
    for i in range(n):
        if not valid[i]:
            if out[i] is not None:
                fail("row with missing features got an average", i=i, got=out[i])
            continue
        order = np.argsort(np.where(valid, D[i], np.inf), kind="stable")
        order = [j for j in order if valid[j] and D[i][j] <= bound]
        # a tie at the k+1-th place leaves the answer open
        if len(order) > k + 1 and D[i][order[k + 1]] - D[i][order[k]] <= 1e-9 * (1 + D[i][order[k]]):
            continue
        nb = [j for j in order[: k + 1] if D[i][j] >= mb]
        if any(abs(D[i][j] - mb) < 1e-12 and mb > 0 and D[i][j] > 0 for j in order[: k + 1]):
            continue
        if not nb:
            if out[i] is not None:
                fail("average of no neighbours", i=i, got=out[i])
            continue
        dd = D[i][nb]
        if weighted:
            if mb <= np.finfo(float).eps:
                w = 1 / (1 + dd)
            else:
                w = 1 / dd
            if np.max(w) > 1e7:
                continue
        else:
            w = np.ones(len(nb))
        want = float((w * y[nb]).sum() / w.sum())
        check_close(out[i], want, f"average of row {i}", 1e-6, 1e-6)
        big = big or len(nb) > 1
    return ("weighted" if weighted else "plain") if big else None


@law(st.tuples(data_st, st.sampled_from([0.0, 0.05, 0.2, 0.5, 1.0]), st.booleans()), n=700,
     rule="radius_ptwise: some row has a neighbour besides itself and some row lies outside its radius")
def radius_ptwise(case):
    c, q, sort = case
    X, df, ids, g = make(c)
    n = c["n"]
    D = dmat(X, X, c["metric"])
    r = bound_for(D, q, g)
    assume(r is not None and r > 0)
    out = df.select(
        pds.query_radius_ptwise(*feats(c), index="id", r=r, dist=c["metric"], sort=sort, parallel=c["parallel"]).alias("o")
    )["o"].to_list()
    check_eq(len(out), n, "output length")
    valid = ~np.isnan(X).any(1)
    pos = {int(v): i for i, v in enumerate(ids)}
    some = False
    for i in range(n):
        if not valid[i]:
            if out[i]:
                fail("row with missing features got neighbours", i=i, got=out[i])
            continue
        want = {int(ids[j]) for j in range(n) if valid[j] and D[i][j] <= r}
        if out[i] is None or len(out[i]) != len(set(out[i])) or set(out[i]) != want:
            fail("neighbours within radius", i=i, got=out[i], want=sorted(want), r=r)
        if sort:
            dd = [D[i][pos[t]] for t in out[i]]
            if any(b < a - 1e-9 * (1 + a) for a, b in zip(dd, dd[1:])):
                fail("not sorted by distance", i=i, dd=dd)
        some = some or 1 < len(want) < n
    if g.random() < 0.3:
        f = df.select(pds.query_radius_freq_cnt(*feats(c), index="id", r=r, dist=c["metric"], parallel=c["parallel"]).alias("o"))["o"].to_list()
        w = {}
        for o in out:
            for t in o or []:
                w[t] = w.get(t, 0) + 1
        check_eq({list(t.values())[0]: list(t.values())[1] for t in f}, w, "radius frequency counts")
    return some


@law(st.tuples(data_st, st.sampled_from(["scalar", "int", "list", "expr", "name", "null"]), st.sampled_from([0.02, 0.2, 0.6, 0.95])),
     n=700, rule="nb_cnt: some count strictly between 1 and n")
def nb_cnt(case):
    c, mode, q = case
    X, df, ids, g = make(c)
    n = c["n"]
    D = dmat(X, X, c["metric"])
    valid = ~np.isnan(X).any(1)
    r0 = bound_for(D, q, g)
    assume(r0 is not None)
    nullr = np.zeros(n, bool)
    if mode == "scalar":
        rr, arg = np.full(n, r0), r0
    elif mode == "int":
        r = max(1, int(round(r0)))
        assume(np.nanmin(np.abs(np.where(np.isfinite(D), D, 1e9) - r)) > 1e-7)
        rr, arg = np.full(n, float(r)), r
    else:
        rr = np.array([bound_for(D, float(g.random()), g) or -1 for _ in range(n)])
        assume((rr > 0).all())
        if mode == "null":
            nullr = g.random(n) < 0.3
        s = pl.Series("rad", [None if nullr[i] else float(rr[i]) for i in range(n)], dtype=pl.Float64)
        df = df.with_columns(s)
        if mode == "list":
            arg = [float(v) for v in rr]
        elif mode == "expr":
            arg = pl.col("rad") * 1.0
        else:
            arg = "rad"
    if n == 1 and nullr.any():
        raise Skip
    out = df.select(pds.query_nb_cnt(*feats(c), r=arg, dist=c["metric"], parallel=c["parallel"]).alias("o"))["o"].to_list()
    check_eq(len(out), n, "output length")
    some = False
    for i in range(n):
        if nullr[i]:
            check_eq(out[i], None, "null radius gives null")
        elif not valid[i]:
            if out[i] not in (None, 0):
                fail("row with missing features has neighbours", got=out[i])
        else:
            want = int(sum(1 for j in range(n) if valid[j] and D[i][j] <= rr[i]))
            if out[i] != want:
                fail("neighbour count", i=i, got=out[i], want=want, r=rr[i])
            some = some or 1 < want < n
    return mode if some else None


@law(st.tuples(data_st, st.integers(1, 10), st.sampled_from([None, None, 0.6])), n=400,
     rule="kth distance: more than k+1 valid rows")
def kth_dist(case):
    c, k, bq = case
    X, df, ids, g = make(c)
    n = c["n"]
    D = dmat(X, X, c["metric"])
    clip_bound(c, D)
    kw, bound = {}, 99999.0
    if bq:
        bound = bound_for(D, bq, g)
        assume(bound is not None)
        kw["max_bound"] = bound
    valid = ~np.isnan(X).any(1)
    out = df.select(pds.query_dist_from_kth_nb(*feats(c), k=k, dist=c["metric"], parallel=c["parallel"], **kw).alias("o"))["o"].to_list()
    check_eq(len(out), n, "output length")
    hit = False
    for i in range(n):
        if not valid[i]:
            check_eq(out[i], None, "row with missing features")
            continue
        d = np.sort(D[i][valid])
        d = d[d <= bound]
        if len(d) > k:
            check_close(out[i], d[k], f"distance to the {k}-th neighbour of row {i}", 1e-9, 1e-9)
            hit = True
    return hit


@law(st.tuples(data_st, st.integers(1, 10), st.booleans()), n=400,
     rule="point queries: the result contains both true and false")
def from_point(case):
    c, k, on_row = case
    c = dict(c, nulls=0)
    X, df, ids, g = make(c)
    n, m = c["n"], c["metric"]
    p = X[g.integers(0, n)] if on_row else g.normal(size=c["d"]) * 2
    if c["f32"]:
        p = p.astype(np.float32).astype(float)
    d = dmat(p[None, :], X, m)[0]
    r = bound_for(d, float(g.random()), g)
    assume(r is not None)
    e = 1e-5 if c["f32"] else 1e-9
    assume(np.min(np.abs(d - r)) > e * (1 + r) * 10)
    out = df.select(
        w=pds.within_dist_from(*feats(c), pt=[float(v) for v in p], r=r, dist=m),
        w2=pds.within_dist_from(*feats(c), pt=[float(v) for v in p], r=pl.lit(r), dist=m),
        k=pds.is_knn_from(*feats(c), pt=[float(v) for v in p], k=k, dist=m),
    )
    if m != "l2":  # examples/basics.ipynb documents that "l2" means squared l2 here, the docstring suggests it does not
        check_eq(out["w"].to_list(), [bool(v <= r) for v in d], "within distance of a point")
        check_eq(out["w2"].to_list(), [bool(v <= r) for v in d], "within distance of a point (expression radius)")
    s = np.sort(d)
    kth = s[min(k, n) - 1]
    for i, v in enumerate(out["k"].to_list()):
        if d[i] < kth * (1 - e) - e and not v:
            fail("a nearest point is not marked", i=i, d=d[i], kth=kth)
        if d[i] > kth * (1 + e) + e and v:
            fail("a far point is marked as nearest", i=i, d=d[i], kth=kth)
    if sum(out["k"].to_list()) < min(k, n):
        fail("fewer than k points are marked")
    return len(set(out["w"].to_list())) == 2


@law(st.tuples(seeds, st.integers(1, 40), st.booleans()), n=150, rule="haversine/cosine point queries: result has both values")
def from_point_geo(case):
    seed, n, cosine = case
    g = rng(seed)
    if cosine:
        X, p = g.normal(size=(n, 3)), g.normal(size=3)
        d = 1 - X @ p / np.sqrt((X**2).sum(1) * (p**2).sum())
        m = "cosine"
    else:
        X = np.c_[g.uniform(-80, 80, n), g.uniform(-170, 170, n)]
        p = np.array([g.uniform(-80, 80), g.uniform(-170, 170)])
        la, lo, lb, lp = *np.radians(X.T), *np.radians(p)
        h = np.sin((la - lb) / 2) ** 2 + np.cos(la) * np.cos(lb) * np.sin((lo - lp) / 2) ** 2
        d = 2 * 6371.0 * np.arcsin(np.sqrt(h))
        m = "haversine" if g.random() < 0.5 else "h"
    r = float(np.quantile(d, g.random())) * 1.001 + 1e-4
    e = 1e-3
    if not cosine:
        assume(np.min(np.abs(d - r) / r) > e)
    else:
        assume(np.min(np.abs(d - r)) > 1e-9)
    df = pl.DataFrame({f"x{j}": X[:, j] for j in range(X.shape[1])})
    f = df.columns
    out = df.select(w=pds.within_dist_from(*f, pt=list(map(float, p)), r=r, dist=m), k=pds.is_knn_from(*f, pt=list(map(float, p)), k=3, dist=m))
    check_eq(out["w"].to_list(), [bool(v <= r) for v in d], f"within {m} distance")
    if not cosine:  # exactly at the distance of some row
        D = df.select(o=pds.haversine(*f, *(pl.lit(float(v)) for v in p)))["o"].to_list()
        b = D[seed % n]
        check_eq(df.select(w=pds.within_dist_from(*f, pt=list(map(float, p)), r=b, dist=m))["w"].to_list(), [v <= b for v in D], "within a distance that is a row's")
    else:  # orthogonal and parallel to an axis: distances are exactly 1 and 0, whatever the lengths
        A_ = np.zeros((n, 3))
        ax = g.integers(0, 3, n)
        A_[np.arange(n), ax] = 2.0 ** g.integers(-3, 4, n)
        e0 = np.zeros(3)
        e0[seed % 3] = 4.0
        D = [0.0 if a == seed % 3 else 1.0 for a in ax]
        out2 = pl.DataFrame(A_, schema=f, orient="row").select(z=pds.within_dist_from(*f, pt=list(e0), r=0.0, dist=m), o=pds.within_dist_from(*f, pt=list(e0), r=1.0, dist=m))
        check_eq(out2["z"].to_list(), [v <= 0.0 for v in D], "within cosine distance 0")
        check_eq(out2["o"].to_list(), [v <= 1.0 for v in D], "within cosine distance 1")
    kth = np.sort(d)[min(3, n) - 1]
    for i, v in enumerate(out["k"].to_list()):
        if (d[i] <= kth * (1 - 1e-9) and not v) or (d[i] > kth * (1 + 1e-9) + 1e-12 and v):
            fail("nearest points", i=i)
    return len(set(out["w"].to_list())) == 2


@law(
    st.tuples(
        st.fixed_dictionaries(dict(seed=seeds, n=sized((2, 14), (20, 120)),
                                   d=st.sampled_from([1, 2, 3, 4, 6, 16, 18]), kind=st.sampled_from(["grid", "dup"]),
                                   nulls=st.sampled_from([0, 0, 1]), metric=st.sampled_from(["l1", "sql2", "inf"]),
                                   parallel=st.booleans(), cuts=cuts_st)),
        st.integers(1, 25), st.integers(1, 12)),
    n=500, rule="boundary: some distance is exactly the bound (integer coordinates, so distances are exact)",
)
def at_the_bound(case):
    """Neighbours at exactly the radius or bound are within it, wherever they are stored."""
    c, k, b = case
    X, df, ids, g = make(dict(c, f32=0))
    n = c["n"]
    D = dmat(X, X, c["metric"])
    valid = ~np.isnan(X).any(1)
    v = np.unique(D[np.isfinite(D) & (D > 0)])
    if len(v) == 0:
        raise Skip
    b = float(v[b % len(v)])
    out = df.select(
        k=pds.query_knn_ptwise(*feats(c), index="id", k=k, dist=c["metric"], parallel=c["parallel"], return_dist=True, max_bound=b),
        r=pds.query_radius_ptwise(*feats(c), index="id", r=b, dist=c["metric"], sort=True, parallel=c["parallel"]),
        n=pds.query_nb_cnt(*feats(c), r=b, dist=c["metric"], parallel=c["parallel"]),
        e=pds.query_nb_cnt(*feats(c), r=pl.lit(b) + pl.col("id") * 0, dist=c["metric"], parallel=c["parallel"]),
        w=pds.within_dist_from(*feats(c), pt=[float(t) for t in X[np.argmax(valid)]], r=b, dist=c["metric"]),
        w2=pds.within_dist_from(*feats(c), pt=[float(t) for t in X[np.argmax(valid)]], r=b, dist="l2" if c["metric"] == "sql2" else c["metric"]),
        k2=pds.is_knn_from(*feats(c), pt=[float(t) for t in X[np.argmax(valid)]], k=k, dist="l2" if c["metric"] == "sql2" else c["metric"]),
        k3=pds.is_knn_from(*feats(c), pt=[float(t) for t in X[np.argmax(valid)]], k=k, dist=c["metric"]),
    ).to_dict(as_series=False)
    i0 = int(np.argmax(valid))
    for i in range(n):
        if not valid[i]:
            continue
        want = {int(ids[j]) for j in range(n) if valid[j] and D[i][j] <= b}
        check_knn(out["k"][i]["idx"], out["k"][i]["dist"], D[i], valid, ids, k, b, f"bounded row {i}")
        if len(out["r"][i]) != len(want) or set(out["r"][i]) != want:
            fail("within the radius", i=i, got=out["r"][i], want=sorted(want), r=b)
        if out["n"][i] != len(want) or out["e"][i] != len(want):
            fail("count within the radius", i=i, got=(out["n"][i], out["e"][i]), want=len(want), r=b)
        if out["k2"][i] != out["k3"][i]:
            fail("is_knn_from with l2 and with sql2", i=i)
        if out["w"][i] != bool(D[i0][i] <= b) or out["w2"][i] != out["w"][i]:
            fail("within_dist_from at the radius", i=i, got=out["w"][i], d=D[i0][i], r=b)
    return bool((D == b).any())


@law(st.tuples(data_st, st.sampled_from([-24, -60, -100, 60, 100]), st.integers(1, 6), st.sampled_from([0.1, 0.4, 0.8])), n=250, rule="more rows than a leaf holds")
def scales(case):
    """Scaled coordinates and bounds: the same neighbours, at scaled distances."""
    c, e, k, q = case
    c = dict(c, f32=0)
    X, df, ids, g = make(c)
    D = dmat(X, X, c["metric"])
    r = bound_for(D, q, g)
    if r is None or r <= 0:
        raise Skip
    f = 2.0**e
    fd = f * f if c["metric"] == "sql2" else f
    sc = df.with_columns(pl.col(*feats(c)) * f)
    kw = dict(dist=c["metric"], parallel=c["parallel"])
    X0 = np.where(np.isnan(X), 0, X)
    pt = X0[int(g.integers(0, len(X)))]
    top = float(np.nanmax(D)) * 2 + 1
    E = {
        "knn_ptwise": lambda s, t: pds.query_knn_ptwise(*feats(c), index="id", k=k, max_bound=top * t, **kw), "knn_ptwise, bounded": lambda s, t: pds.query_knn_ptwise(*feats(c), index="id", k=k, max_bound=r * t, **kw),
        "radius_ptwise": lambda s, t: pds.query_radius_ptwise(*feats(c), index="id", r=r * t, sort=True, **kw),
        "nb_cnt": lambda s, t: pds.query_nb_cnt(*feats(c), r=r * t, **kw), "nb_cnt, column": lambda s, t: pds.query_nb_cnt(*feats(c), r=pl.lit(r * t) + pl.col("id") * 0, **kw),
        "is_knn_from": lambda s, t: pds.is_knn_from(*feats(c), pt=[float(v) for v in pt * s], k=k, dist=c["metric"]),
        "within_dist_from": lambda s, t: pds.within_dist_from(*feats(c), pt=[float(v) for v in pt * s], r=r * (t if c["metric"] != "l2" else t * t), dist=c["metric"]),  # "l2" is squared here
    }
    untied = c["kind"] in ("gauss", "cluster") and c["n"] > 1
    for name, mk in E.items():
        if name.startswith(("knn", "is_knn")) and not untied:
            continue
        a, b = df.select(mk(1.0, 1.0).alias("o"))["o"].to_list(), sc.select(mk(f, fd).alias("o"))["o"].to_list()
        if name == "radius_ptwise" and not untied:
            a, b = [[None if v is None else sorted(v) for v in z] for z in (a, b)]
        if a != b:
            fail(name + " of scaled points", got=b[:10], want=a[:10], r=r)
    return c["metric"] if c["n"] > 10 else None


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 90000)), d=st.integers(1, 4), metric=st.sampled_from(METRICS), k=st.integers(1, 9), tied=st.booleans(), parallel=st.booleans())), n=4, thorough=8, rule="by metric; ties")
def many_rows(c):
    """More points than 16 bits count; a few of them ask."""
    g = rng(c["seed"])
    n, d, m, k = c["n"], c["d"], c["metric"], c["k"]
    X = g.normal(size=(n, d))
    if c["tied"]:
        X = np.round(X * 16) / 16
    ids = g.permutation(n).astype(np.int64) + 2**31
    q = np.sort(g.choice(n, 25, replace=False))
    ask = np.zeros(n, bool)
    ask[q] = True
    df = pl.DataFrame({"id": ids, "ask": ask, **{f"x{j}": X[:, j] for j in range(d)}})
    xs = [f"x{j}" for j in range(d)]
    D = dmat(X[q], X, m)
    out = df.select(o=pds.query_knn_ptwise(*xs, index="id", k=k, dist=m, parallel=c["parallel"], return_dist=True, eval_mask="ask"))["o"].filter(pl.Series(ask))
    pos = {int(v): i for i, v in enumerate(ids)}
    srt = np.sort(D, axis=1)[:, : k + 1]
    for i, o in enumerate(out.to_list()):
        idx, dist = [pos[v] for v in o["idx"]], o["dist"]
        if len(idx) != k + 1 or len(set(idx)) != k + 1 or not np.allclose(dist, srt[i], rtol=1e-9, atol=1e-12) or not np.allclose(D[i, idx], dist, rtol=1e-9, atol=1e-12):
            fail("knn among many points", got=(idx, dist), want=srt[i].tolist())
    kth = df.with_columns(pl.lit(1)).select(o=pds.query_dist_from_kth_nb(*xs, k=k, dist=m, parallel=True))["o"].to_numpy()[q] if d <= 2 else srt[:, k]
    if not np.allclose(kth, srt[:, k], rtol=1e-9, atol=1e-12):
        fail("distance of the k-th neighbour among many points", got=kth.tolist(), want=srt[:, k].tolist())
    r = float(np.quantile(D[0], 0.01 if d == 1 else 0.3 / 2**d))
    if np.abs(D - r).min() > 1e-12:
        w = int((D[0] <= r).sum())
        p0 = df.filter(pds.within_dist_from(*xs, pt=X[q[0]].tolist(), r=r, dist=m))["id"].to_list() if m != "l2" else None
        if p0 is not None and sorted(p0) != sorted(ids[D[0] <= r].tolist()):
            fail("points within the distance, among many", got=len(p0), want=w)
        if d <= 2 and w < 3000:
            cnt = df.select(o=pds.query_nb_cnt(*xs, r=r, dist=m, parallel=True))["o"].to_numpy()[q]
            if cnt.tolist() != (D <= r).sum(1).tolist():
                fail("numbers of neighbours among many points", got=cnt.tolist(), want=(D <= r).sum(1).tolist())
    return f"{m}{' ties' if c['tied'] else ''}"
