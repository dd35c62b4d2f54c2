"""Binary and multi-class classification metrics equal their definitions over the counts."""
from checks.common import *
from polars_ds.exprs.metrics import query_gini

kinds = st.sampled_from(["continuous", "grid", "few", "const", "separated", "reversed", "tied-top", "close"])
base = dict(seed=seeds, n=sized((1, 12), (13, 80), (81, 400)), kind=kinds, pos=st.sampled_from([0.5, 0.5, 0.2, 0.05, 0.9]),
            cuts=cuts_st, ydt=st.sampled_from(["i64", "bool", "u8", "f64", "i32"]), pdt=st.sampled_from(["f64", "f64", "f32", "i64"]))
YD = {"i64": pl.Int64, "bool": pl.Boolean, "u8": pl.UInt8, "f64": pl.Float64, "i32": pl.Int32}


def labels_scores(c, both=False):
    r = rng(c["seed"])
    n = max(c["n"], 2) if both else c["n"]
    y = (r.random(n) < c["pos"]).astype(int)
    if both:
        y[0], y[1] = 1, 0
        y = r.permutation(y)
    k = c["kind"]
    p = r.random(n)
    if k == "grid":
        p = r.integers(0, 9, n) / 8
    if k == "few":
        p = r.integers(0, 3, n) / 2
    if k == "const":
        p = np.full(n, 0.5)
    if k == "close":  # distinct scores that differ in the last digits only
        p = 0.5 + r.integers(-4, 5, n) * 2.0**-46
    if k == "separated":
        p = np.where(y == 1, 0.5 + p / 2, p / 2)
    if k == "reversed":
        p = np.where(y == 1, p / 2, 0.5 + p / 2)
    if k == "tied-top":
        p = np.minimum(p, 0.6)
    pdt = c["pdt"]
    if pdt == "i64":
        ps = pl.Series("p", np.round(p * 8).astype(int))
    else:
        ps = pl.Series("p", p, dtype=pl.Float64).cast(pl.Float32 if pdt == "f32" else pl.Float64)
    df = pl.DataFrame({"y": chunk(pl.Series("y", y).cast(YD[c["ydt"]]), c["cuts"]), "p": chunk(ps, c["cuts"][::-1])})
    return r, df, y, ps.cast(pl.Float64).to_numpy()


def auc_ref(y, p):
    a, b = p[y == 1], p[y == 0]
    if len(a) == 0 or len(b) == 0:
        return NAN
    d = a[:, None] - b[None, :]
    return ((d > 0).sum() + 0.5 * (d == 0).sum()) / (len(a) * len(b))


def has_ties(y, p):
    return len(np.intersect1d(p[y == 1], p[y == 0])) > 0


@law(st.fixed_dictionaries(dict(base, groups=st.booleans())), n=1200, rule="both classes present, with a score shared by the classes or not")
def auc(c):
    r, df, y, p = labels_scores(c)
    n = len(y)
    if c["groups"]:
        g = r.integers(0, 3, n)
        d = df.with_columns(g=pl.Series(g))
        out = dict(d.group_by("g").agg(pds.query_roc_auc("y", "p").alias("o")).iter_rows())
        ov = d.select(pds.query_roc_auc("y", "p").over("g").alias("o"))["o"].to_list()
        for k in np.unique(g):
            w = auc_ref(y[g == k], p[g == k])
            check_close(out[k], w, "AUC of a group", 1e-9, 1e-12)
            for i in np.flatnonzero(g == k):
                check_close(ov[i], w, "AUC over a group", 1e-9, 1e-12)
    want = auc_ref(y, p)
    got = df.select(pds.query_roc_auc("y", "p").alias("o"), query_gini("y", "p").alias("g"))
    check_close(got["o"][0], want, "AUC", 1e-9, 1e-12, y=y[:20], p=p[:20])
    check_close(got["g"][0], 2 * want - 1, "Gini", 1e-9, 1e-12)
    if math.isnan(want):
        return None
    return "ties" if has_ties(y, p) else "no-ties"


@law(st.fixed_dictionaries(base), n=600, rule="both classes and at least two thresholds")
def curve(c):
    """TPR and FPR at every distinct score, predicting positive at scores >= the threshold."""
    r, df, y, p = labels_scores(c, both=True)
    out = df.select(pds.query_tpr_fpr("y", "p").alias("o")).unnest("o")
    check_eq(out.columns, ["threshold", "tpr", "fpr"], "fields")
    check_eq(out.schema, df.lazy().select(pds.query_tpr_fpr("y", "p").alias("o")).unnest("o").collect_schema(), "schema")
    th = np.unique(p)
    check_seq(out["threshold"], th, "thresholds", 0, 0)
    for i, t in enumerate(th):
        check_close(out["tpr"][i], np.mean(p[y == 1] >= t), "tpr", 1e-12, 0, t=t)
        check_close(out["fpr"][i], np.mean(p[y == 0] >= t), "fpr", 1e-12, 0, t=t)
    return len(th) > 1


def nd(a, b):
    return a / b if b else NAN


@law(st.fixed_dictionaries(dict(base, thr=st.sampled_from(["data", "data", "mid", "low", "high"]), ctx=st.sampled_from(["select", "group"]))), n=1000,
     rule="both classes; where the threshold lies")
def combined(c):
    r, df, y, p = labels_scores(c)
    if y.sum() == 0:
        o = df.select(pds.query_binary_metrics("y", "p", threshold=0.5).alias("o")).unnest("o").row(0)
        check_seq(o, [NAN] * 5, "metrics without positives")
        return "no-positives"
    th = {"data": lambda: float(r.choice(p)), "mid": lambda: float(r.uniform(0, 1)), "low": lambda: float(p.min() - 1), "high": lambda: float(p.max() + 1)}[c["thr"]]()
    e = pds.query_binary_metrics("y", "p", threshold=th).alias("o")
    o = df.group_by(pl.lit(1).alias("k")).agg(e).select("o").unnest("o") if c["ctx"] == "group" else df.select(e).unnest("o")
    check_eq(o.columns, ["precision", "recall", "f", "average_precision", "roc_auc"], "fields")
    o = o.row(0, named=True)
    pr = p >= th
    tp, fp, fn = int((pr & (y == 1)).sum()), int((pr & (y == 0)).sum()), int((~pr & (y == 1)).sum())
    P, R = nd(tp, tp + fp), nd(tp, tp + fn)
    check_close(o["precision"], P, "precision", 1e-12, 0, th=th)
    check_close(o["recall"], R, "recall", 1e-12, 0, th=th)
    if P + R == P + R and P + R > 0:
        check_close(o["f"], 2 * tp / (2 * tp + fp + fn), "f", 1e-10, 0)
    ap, prev = 0.0, 0.0
    for t in np.unique(p)[::-1]:
        m = p >= t
        rec = (y[m] == 1).sum() / y.sum()
        ap += (rec - prev) * np.mean(y[m] == 1)
        prev = rec
    check_close(o["average_precision"], ap, "average precision", 1e-9, 1e-12, y=y[:20], p=p[:20])
    check_close(o["roc_auc"], auc_ref(y, p), "AUC", 1e-9, 1e-12)
    return c["thr"] if 0 < y.sum() < len(y) else "all-positive"


ALL = ["tp", "tn", "fp", "fn", "tpr", "tnr", "fpr", "fnr", "prevalence", "prevalence_threshold", "informedness", "precision",
       "false_omission_rate", "plr", "nlr", "acc", "balanced_accuracy", "f1", "folkes_mallows_index", "mcc", "threat_score",
       "markedness", "fdr", "npv", "dor"]


def confusion_ref(tp, tn, fp, fn):
    p, n = tp + fn, tn + fp
    tpr, tnr, fpr, fnr = nd(tp, p), nd(tn, n), nd(fp, n), nd(fn, p)
    ppv, npv, fdr, fomr = nd(tp, tp + fp), nd(tn, tn + fn), nd(fp, tp + fp), nd(fn, tn + fn)
    plr, nlr = nd(tpr, fpr), nd(fnr, tnr)
    den = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    return dict(tp=tp, tn=tn, fp=fp, fn=fn, tpr=tpr, tnr=tnr, fpr=fpr, fnr=fnr, prevalence=nd(p, p + n),
                prevalence_threshold=nd(math.sqrt(tpr * fpr) - fpr, tpr - fpr) if tpr == tpr and fpr == fpr else NAN,
                informedness=tpr + tnr - 1, precision=ppv, false_omission_rate=fomr, plr=plr, nlr=nlr, acc=nd(tp + tn, p + n),
                balanced_accuracy=(tpr + tnr) / 2, f1=nd(2 * ppv * tpr, ppv + tpr), folkes_mallows_index=math.sqrt(ppv * tpr) if ppv * tpr == ppv * tpr else NAN,
                mcc=(tp * tn - fp * fn) / math.sqrt(den) if den else NAN, threat_score=nd(tp, tp + fn + fp), markedness=ppv + npv - 1,
                fdr=fdr, npv=npv, dor=nd(plr, nlr))


LENIENT = {"f1", "dor", "plr", "nlr", "mcc", "prevalence_threshold"}  # 0/0 or x/0 of derived rates: also 0 or infinite


@law(st.fixed_dictionaries(dict(base, thr=st.sampled_from(["data", "data", "mid", "default", "low", "high", "below"]), ctx=st.sampled_from(["select", "group", "over"]))), n=1200,
     rule="no empty cell / some empty cell")
def confusion(c):
    """Positive prediction: score > threshold."""
    r, df, y, p = labels_scores(c)
    th = {"data": lambda: float(r.choice(p)), "below": lambda: float(np.nextafter(r.choice(p), -1)), "mid": lambda: float(r.uniform(0, 1)), "low": lambda: float(p.min() - 1), "high": lambda: float(p.max() + 1), "default": lambda: 0.5}[c["thr"]]()
    e = pds.query_confusion_matrix("y", "p", threshold=th, all_metrics=True).alias("o")
    e4 = pds.query_confusion_matrix("y", "p", threshold=th).alias("q")
    if c["ctx"] == "group":
        o = df.group_by(pl.lit(1).alias("k")).agg(e, e4)
    elif c["ctx"] == "over":
        o = df.with_columns(k=pl.lit(1)).select(e.over("k"), e4.over("k")).head(1)
    else:
        o = df.select(e, e4)
    q = o["q"].struct.unnest()
    check_eq(q.columns, ["tn", "fp", "fn", "tp"], "fields of the short form")
    o = o["o"].struct.unnest()
    check_eq(sorted(o.columns), sorted(ALL), "fields")
    o, q = o.row(0, named=True), q.row(0, named=True)
    pr = (df["p"] > th).to_numpy()
    tp, tn, fp, fn = [int(v) for v in ((pr & (y == 1)).sum(), (~pr & (y == 0)).sum(), (pr & (y == 0)).sum(), (~pr & (y == 1)).sum())]
    want = confusion_ref(tp, tn, fp, fn)
    for k in q:
        check_eq(q[k], want[k], f"count {k}", th=th)
    for k in ALL:
        if k in LENIENT and math.isnan(want[k]):
            if not (math.isnan(o[k]) or o[k] == 0 or math.isinf(o[k])):
                fail(f"{k}: undefined, got {o[k]}")
            continue
        check_close(o[k], want[k], k, 1e-9, 1e-12, counts=(tp, tn, fp, fn))
    return "full" if min(tp, tn, fp, fn) else "empty-cell"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((1, 20), (21, 300)), acc=st.sampled_from([0.5, 0.9, 0.1, 1.0]), pos=st.sampled_from([0.5, 0.1]), dt=st.sampled_from(["i64", "u8", "f64", "u32"]),
                                cuts=cuts_st)), n=400, rule="the coefficient is defined")
def matthews(c):
    r = rng(c["seed"])
    y = (r.random(c["n"]) < c["pos"]).astype(int)
    p = np.where(r.random(c["n"]) < c["acc"], y, 1 - y)
    T = {"i64": pl.Int64, "u8": pl.UInt8, "f64": pl.Float64, "u32": pl.UInt32}[c["dt"]]
    df = pl.DataFrame({"y": chunk(pl.Series(y).cast(T), c["cuts"]), "p": chunk(pl.Series(p).cast(T), c["cuts"][::-1])})
    got = df.select(pds.query_mcc("y", "p").alias("o"))["o"]
    check_eq(len(got), 1, "length")
    if len(set(y)) < 2 or len(set(p)) < 2:
        return None
    check_close(got[0], np.corrcoef(y, p)[0, 1], "mcc", 1e-9, 1e-12)
    check_close(df.select(pds.query_mcc("p", "y").alias("o"))["o"][0], got[0], "mcc swapped", 1e-9, 1e-12)
    return True


@law(st.fixed_dictionaries(dict(cells=st.lists(st.sampled_from([0, 1, 3, 70000, 200000, 100001]), min_size=4, max_size=4))), n=24, thorough=96, rule="counts whose products exceed 32 bits")
def matthews_large(c):
    tp, tn, fp, fn = c["cells"]
    den = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    if den == 0:
        raise Skip
    y = np.repeat([1, 0, 0, 1], c["cells"])
    p = np.repeat([1, 0, 1, 0], c["cells"])
    df = pl.DataFrame({"y": y, "p": p})
    got = df.select(pds.query_mcc("y", "p").alias("m"), pds.query_confusion_matrix("y", "p", all_metrics=True).alias("o"), pds.query_roc_auc("y", "p").alias("a")).row(0, named=True)
    check_close(got["m"], (tp * tn - fp * fn) / math.sqrt(den), "mcc", 1e-9, 1e-12, cells=c["cells"])
    for k, v in confusion_ref(tp, tn, fp, fn).items():
        if not math.isnan(v):
            check_close(got["o"][k], v, k, 1e-9, 1e-12, cells=c["cells"])
    check_close(got["a"], (tp / (tp + fn) + tn / (tn + fp)) / 2, "AUC of 0/1 scores", 1e-9)
    return max(tp * tn, fp * fn) > 2**32


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((1, 20), (21, 200)), soft=st.booleans(), norm=st.booleans(), edge=st.sampled_from(["no", "right", "wrong"]), cuts=cuts_st)), n=400,
     rule="scores at 0 or 1 or soft labels")
def log_loss(c):
    r = rng(c["seed"])
    n = c["n"]
    y = r.random(n) if c["soft"] else (r.random(n) < 0.5) * 1.0
    p = r.uniform(0.01, 0.99, n)
    if c["edge"] == "right" and not c["soft"]:
        p[0] = y[0]
    if c["edge"] == "wrong" and not c["soft"]:
        p[0] = 1 - y[0]
    ys = pl.Series("y", y) if c["soft"] else pl.Series("y", y.astype(int))
    df = pl.DataFrame({"y": chunk(ys, c["cuts"]), "p": chunk(pl.Series("p", p), c["cuts"][::-1])})
    tot = 0.0
    for a, b in zip(y, p):
        tot -= (a * math.log(b) if b > 0 else 0.0 if a == 0 else -math.inf) + ((1 - a) * math.log(1 - b) if b < 1 else 0.0 if a == 1 else -math.inf)
    got = df.select(pds.query_log_loss("y", "p", normalize=c["norm"]).alias("o"))["o"][0]
    check_close(got, tot / n if c["norm"] else tot, "log loss", 1e-9, 1e-12)
    return "soft" if c["soft"] else c["edge"] if c["edge"] != "no" else None


multi = dict(seed=seeds, n=sized((3, 20), (21, 200)), k=st.integers(2, 5), grid=st.booleans(), cuts=cuts_st)


@law(st.fixed_dictionaries(dict(multi, strategy=st.sampled_from(["weighted", "macro"]), groups=st.booleans())), n=500, rule="at least three classes, by strategy")
def multi_auc(c):
    r = rng(c["seed"])
    k, n = c["k"], max(c["n"], c["k"])
    y = np.concatenate([np.arange(k), r.choice(k, n - k, p=r.dirichlet(np.ones(k)))])
    y = r.permutation(y)
    s = r.integers(0, 5, (n, k)) / 4 if c["grid"] else r.dirichlet(np.ones(k), n)
    df = pl.DataFrame({"y": chunk(pl.Series(y), c["cuts"]), "p": chunk(pl.Series(s.tolist(), dtype=pl.List(pl.Float64)), c["cuts"][::-1])})
    a = np.array([auc_ref((y == i).astype(int), s[:, i]) for i in range(k)])
    want = a.mean() if c["strategy"] == "macro" else (np.bincount(y, minlength=k) @ a) / n
    e = pds.query_multi_roc_auc("y", "p", k, c["strategy"]).alias("o")
    got = df.group_by(pl.lit(1).alias("g")).agg(e)["o"][0] if c["groups"] else df.select(e)["o"][0]
    check_close(got, want, f"multi-class AUC ({c['strategy']})", 1e-9, 1e-12)
    return c["strategy"] if k > 2 else None


@law(st.fixed_dictionaries(dict(multi, dense=st.booleans(), norm=st.booleans())), n=400, rule="dense or one-hot, normalised or not")
def cross_entropy(c):
    r = rng(c["seed"])
    k, n = c["k"], c["n"]
    y = r.integers(0, k, n)
    s = r.dirichlet(np.ones(k), n) + 1e-3
    ys = pl.Series(y) if c["dense"] else pl.Series(np.eye(k, dtype=int)[y].tolist())
    df = pl.DataFrame({"y": chunk(ys, c["cuts"]), "p": chunk(pl.Series(s.tolist()), c["cuts"][::-1])})
    want = -np.log(s[np.arange(n), y]).sum() / (n if c["norm"] else 1)
    got = df.select(pds.query_cat_cross_entropy("y", "p", normalize=c["norm"], dense=c["dense"]).alias("o"))["o"]
    check_eq(len(got), 1, "length")
    check_close(got[0], want, "cross entropy", 1e-9, 1e-12)
    return ("dense" if c["dense"] else "one-hot") + ("-mean" if c["norm"] else "-sum")


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((2, 20), (21, 200)), q=st.sampled_from([0.5, 0.1, 0.9]), cuts=cuts_st)), n=300, rule="both ratios are defined and not 1")
def p_percent(c):
    r = rng(c["seed"])
    n = c["n"]
    z = r.random(n) < c["q"]
    y = (r.random(n) < r.random()).astype(int)
    if len(set(z)) < 2 or not y[z].any() or not y[~z].any():
        raise Skip
    df = pl.DataFrame({"y": chunk(pl.Series(y), c["cuts"]), "z": chunk(pl.Series(z), c["cuts"][::-1]), "s": np.where(z, "a", "b")})
    a, b = y[z].mean(), y[~z].mean()
    for cond in (pl.col("z"), pl.col("s") == "a"):
        check_close(df.select(pds.query_p_pct_score("y", cond).alias("o"))["o"][0], min(a / b, b / a), "p-percent score", 1e-12)
    check_close(df.select(pds.query_p_pct_score("y", ~pl.col("z")).alias("o"))["o"][0], min(a / b, b / a), "p-percent score, mirrored", 1e-12)
    return a != b


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 140000)), pos=st.sampled_from([0.5, 0.97, 0.01]), grid=st.sampled_from([0, 8, 5000]), ydt=st.sampled_from(["i64", "bool", "u8"]))), n=6, rule="by share of positives and number of scores", thorough=8)
def many_rows(c):
    """Counts of which the products exceed 32 bits."""
    r = rng(c["seed"])
    n = c["n"]
    y = (r.random(n) < c["pos"]).astype(int)
    p = r.random(n) * 0.7 + 0.3 * y
    if c["grid"]:
        p = np.round(p * c["grid"]) / c["grid"]
    df = pl.DataFrame({"y": pl.Series(y).cast(YD[c["ydt"]]), "p": p})
    o = np.sort(p[y == 0])
    a = p[y == 1]
    np_, nn = len(a), len(o)
    want = float((np.searchsorted(o, a, "left").astype(float) + np.searchsorted(o, a, "right")).sum() / 2 / np_ / nn)
    got = df.select(pds.query_roc_auc("y", "p").alias("a"), pds.query_binary_metrics("y", "p", threshold=0.6).alias("b"), pds.query_confusion_matrix("y", "p", threshold=0.6, all_metrics=True).alias("c"), pds.query_log_loss("y", pl.col("p").clip(0.01, 0.99)).alias("l")).row(0, named=True)
    check_close(got["a"], want, "AUC", 1e-9, 1e-12)
    check_close(got["b"]["roc_auc"], want, "AUC of binary_metrics", 1e-9, 1e-12)
    h = p >= 0.6
    tp, fp = int((h & (y == 1)).sum()), int((h & (y == 0)).sum())
    check_close(got["b"]["precision"], tp / (tp + fp), "precision", 1e-9)
    check_close(got["b"]["recall"], tp / np_, "recall", 1e-9)
    th, inv = np.unique(-p, return_inverse=True)
    ctp, call = np.cumsum(np.bincount(inv, y)), np.cumsum(np.bincount(inv))
    check_close(got["b"]["average_precision"], float((np.diff(np.r_[0, ctp]) / np_ * ctp / call).sum()), "average precision", 1e-8)
    h = p > 0.6
    tp, fp = int((h & (y == 1)).sum()), int((h & (y == 0)).sum())
    for k, v in confusion_ref(tp, nn - fp, fp, np_ - tp).items():
        if not math.isnan(v) and not math.isinf(v):
            check_close(got["c"][k], v, k, 1e-9, 1e-12)
    q = np.clip(p, 0.01, 0.99)
    check_close(got["l"], float(-np.log(np.where(y == 1, q, 1 - q)).mean()), "log loss", 1e-8)
    out = df.select(pds.query_tpr_fpr("y", "p").alias("o")).unnest("o")
    check_seq(out["tpr"], ctp[::-1] / np_, "tpr", 1e-12, 1e-15)
    check_seq(out["fpr"], (call - ctp)[::-1] / nn, "fpr", 1e-12, 1e-15)
    return f"{c['pos']} {c['grid']}"
