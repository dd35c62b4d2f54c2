"""Plots: the data, marks and captions of the chart specification against direct calculation."""
import re
import warnings
from collections import Counter, defaultdict

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import altair as alt
    from polars_ds.eda import plots as P
    from polars_ds.eda.diagnosis import DIA
from checks.common import *

warnings.filterwarnings("ignore")


def views(chart):
    """The elementary views of a chart: dicts with mark, encoding (channel -> field), titles, rows, transform."""
    with alt.data_transformers.enable("default", max_rows=None):
        spec = chart.to_dict()
    sets = spec.get("datasets", {})
    out = []

    def go(s, data, enc):
        d = s.get("data", data)
        e = {**enc, **s.get("encoding", {})}
        kids = [k for key in ("layer", "vconcat", "hconcat", "concat") for k in s.get(key, [])]
        for k in kids:
            go(k, d, e)
        if not kids:
            rows = d["values"] if "values" in d else sets[d["name"]]
            m = s["mark"]
            out.append(dict(mark=m if isinstance(m, str) else m["type"], f={k: v.get("field", v.get("aggregate")) for k, v in e.items() if isinstance(v, dict)}, enc=e, rows=rows, transform=s.get("transform", [])))

    go(spec, None, {})
    return out


def pick(vs, what, **fields):
    """The view with these fields in its channels."""
    r = [v for v in vs if all(v["f"].get(k) == x for k, x in fields.items())]
    if len(r) != 1:
        fail(f"{what}: {len(r)} views with {fields}", views=[(v["mark"], v["f"]) for v in vs])
    return r[0]


def some(draw, defaults, **kw):
    """The keyword arguments, leaving out some of those that have their default value."""
    return {k: v for i, (k, v) in enumerate(kw.items()) if v != defaults.get(k, kw) or draw >> i & 1}


def diagonal(vs, x, y, what):
    r = [v for v in vs if v["f"].get("x") == x and v["f"].get("y") == y and len(v["rows"]) > 1 and all(p[x] == p[y] for p in v["rows"])]
    if not r or any(not 0 <= p[x] <= 1 for p in r[0]["rows"]) or max(p[x] for p in r[0]["rows"]) - min(p[x] for p in r[0]["rows"]) < 0.5:
        fail(what + ": the line y = x", views=[(v["mark"], v["f"]) for v in vs])


def fin(x):
    return None if x is None or not math.isfinite(x) else float(x)


def skey(r):
    return tuple((x is not None, x if x is not None else 0) if not isinstance(x, str) else (True, x) for x in r)


def same_rows(got, want, what, rtol=1e-9):
    """Multisets of rows (tuples of strings, numbers, None)."""
    if len(got) != len(want):
        fail(f"{what}: {len(got)} rows, want {len(want)}")
    for g, w in zip(sorted(got, key=skey), sorted(want, key=skey)):
        for a, b in zip(g, w):
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                check_eq(a, b, what, row=g, expected=w)
            else:
                check_close(a, b, what, rtol, 1e-12, row=g, expected=w)


distr_st = st.fixed_dictionaries(dict(n=sized((1, 6), (2, 60)), vs=seeds, kind=st.sampled_from(["norm", "grid", "int", "ties", "f32"]), odd=st.sampled_from([0, 0, 0.2]), nulls=st.sampled_from([0, 0, 0.3]), bins=st.one_of(st.just(10), st.integers(3, 30)), over=st.booleans(), density=st.booleans(),
                                      bad=st.booleans(), how=st.sampled_from(["plot", "series", "dia", "dia", "lazy"]), lo=st.sampled_from([None, None, -0.5, 0.0]), hi=st.sampled_from([None, None, 0.75, 2.0]), expr=st.booleans(), filt=st.booleans()))


@law(distr_st, n=350, rule="by entry point, grouping, bad values")
def feature_distr(c):
    g = rng(c["vs"])
    n = c["n"]
    v = {"norm": lambda: g.normal(size=n), "grid": lambda: g.integers(-8, 9, n) / 4, "int": lambda: g.integers(-5, 6, n), "ties": lambda: g.integers(0, 2, n) * 1.5, "f32": lambda: np.float32(g.normal(size=n)).astype(float)}[c["kind"]]().tolist()
    if c["kind"] != "int":
        v = [[NAN, math.inf, -math.inf][g.integers(3)] if g.random() < c["odd"] else x for x in v]
    v = [None if g.random() < c["nulls"] else x for x in v]
    D = pl.Int32 if c["kind"] == "int" else pl.Float32 if c["kind"] == "f32" else pl.Float64
    grp = [["a", "b", "c"][k] for k in g.integers(0, 3, n)]
    flag = (g.random(n) < 0.6).tolist()
    df = pl.DataFrame({"seg": grp, "x": pl.Series(v, dtype=D if D != pl.Float32 else pl.Float64).cast(D), "flag": flag})
    over = "seg" if c["over"] and c["how"] != "series" else None
    rows = list(zip(v, grp, flag))
    kw = some(c["vs"] >> 3, dict(n_bins=10, density=False, show_bad_values=True), n_bins=c["bins"], density=c["density"], show_bad_values=c["bad"])
    if c["how"] in ("dia", "lazy") and c["how"] == "dia":
        lo, hi = c["lo"], c["hi"]
        ok = lambda x, b, s: True if b is None else x is not None and (math.isnan(x) and s > 0 or (x - b) * s >= 0)
        rows = [r for r in rows if ok(r[0], lo, 1) and ok(r[0], hi, -1) and (not c["filt"] or r[2])]
        ex = (lambda b: None if b is None else pl.lit(b) if c["expr"] else b)
        if not rows:
            raise Skip
        chart = DIA(df.lazy() if c["vs"] % 2 else df).plot_feature_distr("x", over=over, min_=ex(lo), max_=ex(hi), filter_by=pl.col("flag") if c["filt"] else None, **kw)
    elif c["how"] == "series":
        chart = P.plot_feature_distr(feature=df["x"] if c["vs"] % 2 else v, **kw)
    else:
        chart = P.plot_feature_distr(df=df.lazy() if c["how"] == "lazy" else df, feature="x", over=over, **kw)
    feat = "feature" if c["how"] == "series" else "x"
    vs = views(chart)
    what = f"plot_feature_distr of {[r[0] for r in rows][:20]}"
    main = pick(vs, what, x=feat)
    same_rows([(fin(r[feat]),) + ((r["seg"],) if over else ()) for r in main["rows"]], [(fin(r[0]),) + ((r[1],) if over else ()) for r in rows], what + ": data", 1e-6 if D == pl.Float32 else 1e-12)
    if c["density"]:
        t = [t for t in main["transform"] if "density" in t]
        check_eq(len(t), 1, what + ": density transforms")
        check_eq((t[0]["density"], t[0].get("groupby")), (feat, [over] if over else None), what + ": density")
        check_eq(main["f"]["y"], t[0]["as"][1], what + ": density channel")
    else:
        check_eq(main["enc"]["x"]["bin"], {"maxbins": c["bins"]}, what + ": bins")
        check_eq(main["f"]["y"], "count", what + ": y channel")
    check_eq(main["f"].get("color"), over, what + ": colour")
    check_eq(main["enc"]["y"].get("stack", "default"), None, what + ": bars and areas start at zero, on the same axis")
    check_eq(main["enc"]["x"].get("title") or feat, feat, what + ": title of the axis")
    bads = [v_ for v_ in vs if v_["f"].get("x") == "pcts"]
    check_eq(len(bads), int(c["bad"]), what + ": bad value views")
    for v_ in bads:
        check_eq((v_["enc"]["x"].get("scale", {}).get("domain"), v_["enc"]["x"].get("axis", {}).get("format")), ([0, 1], ".0%"), what + ": axis of the share of bad values")
    isbad = lambda x: x is None or not math.isfinite(x)
    if over:
        seg = defaultdict(list)
        for r in rows:
            seg[r[1]].append(isbad(r[0]))
        if bads:
            same_rows([(r["seg"], r["pcts"]) for r in bads[0]["rows"]], [(k, sum(b) / len(b)) for k, b in seg.items()], what + ": share of bad values")
    else:
        if bads and rows:
            same_rows([(r["pcts"],) for r in bads[0]["rows"]], [(sum(isbad(r[0]) for r in rows) / len(rows),)], what + ": share of bad values")
        stats = pick(vs, what, x="stats")
        s = sorted(r[0] for r in rows if r[0] is not None)
        if s and all(map(math.isfinite, s)):
            m = {r["names"]: r["stats"] for r in stats["rows"]}
            check_eq(sorted(m), ["avg", "median", "p5", "p95"], what + ": statistics")
            check_close(m["avg"], sum(s) / len(s), what + ": avg", 1e-6, 1e-7)
            check_close(m["median"], float(np.median(s)), what + ": median", 1e-6, 1e-9)
            for k, p in (("p5", 0.05), ("p95", 0.95)):
                h = p * (len(s) - 1)
                if not s[math.floor(h)] - 1e-6 <= m[k] <= s[math.ceil(h)] + 1e-6:
                    fail(what + f": {k}", got=m[k])
    return c["how"] + (" over" if over else "") + (" density" if c["density"] else "") + (" bad" if any(isbad(r[0]) for r in rows) else "")


@law(st.fixed_dictionaries(dict(n=sized((3, 8), (5, 60)), vs=seeds, bias=st.booleans(), weights=st.booleans(), lazy=st.booleans(), eq=st.booleans(), zero=st.sampled_from([False, False, False, True]), cap=st.sampled_from([None, None, 1, 4, 1000]), slope=st.sampled_from([0.5, -3.0, 0.0, 20.0]), at=st.sampled_from([0.0, 5.0, -7.0]))), n=300, rule="by options")
def lin_reg(c):
    g = rng(c["vs"])
    n = c["n"]
    x = g.normal(size=n) + c["at"]
    y = c["slope"] * x + g.normal(size=n) - 2
    w = g.random(n) + 0.1 if c["weights"] else np.ones(n)
    if c["zero"]:  # symmetric about the origin: the constant is 0
        x = np.round(x * 4) / 4
        x, y = np.r_[x, -x], np.r_[np.round(y * 4) / 4, -np.round(y * 4) / 4]
        n, w = 2 * n, np.ones(2 * n)
    df = pl.DataFrame(dict(w=w, tgt=y, inp=x))
    kw = {} if c["cap"] is None else dict(max_points=c["cap"])
    kw |= some(c["vs"] >> 3, dict(add_bias=False, weights=None, show_lin_reg_eq=True), add_bias=c["bias"], weights="w" if c["weights"] else None, show_lin_reg_eq=c["eq"])
    chart = P.plot_lin_reg(df.lazy() if c["lazy"] else df, "inp", "tgt", **kw)
    X = np.column_stack([x, np.ones(n)]) if c["bias"] else x[:, None]
    sw = np.sqrt(w)
    b, *_ = np.linalg.lstsq(X * sw[:, None], y * sw, rcond=None)
    a = b[1] if c["bias"] else 0.0
    b = b[0]
    vs = views(chart)
    what = f"plot_lin_reg({ {k: v for k, v in c.items() if k != 'vs'} })"
    pts, line = pick(vs, what, x="inp", y="tgt"), pick(vs, what, x="inp", y="y_pred")
    check_eq((pts["mark"], line["mark"]), ("point", "line"), what + ": marks")
    pairs = list(zip(x.tolist(), y.tolist()))
    for v in (pts, line):
        check_eq(len(v["rows"]), min(n, c["cap"] or n), what + ": points shown")
        seen = Counter((r["inp"], r["tgt"]) for r in v["rows"])
        if seen - Counter(pairs):
            fail(what + ": points that are not in the frame", got=list(seen - Counter(pairs)))
        for r in v["rows"]:
            check_close(r["y_pred"], b * r["inp"] + a, what + ": prediction", 1e-7, 1e-8)
    title = line["enc"]["x"].get("title") or pts["enc"]["x"].get("title")
    title = title if isinstance(title, list) else [title]
    check_eq(title[0], "inp", what + ": title")
    if not c["eq"]:
        check_eq(len(title), 1, what + ": title without the equation")
        return "plain"
    num = r"(\d+\.?\d*(?:e-?\d+)?)"
    m = re.fullmatch(rf"y = (-?){num} \* x(?: ([+-]) {num})?, r2 = (-?{num[1:-1]})", title[1])
    if not m:
        fail(what + ": equation", got=title[1])
    check_close(float(m[1] + m[2]), b, what + ": slope of the equation", 1e-9, 6e-5)
    check_close(float(m[3] + m[4]) if m[3] else 0.0, a, what + ": constant of the equation", 1e-9, 6e-5)
    if not c["weights"]:
        res = y - b * x - a
        check_close(float(m[5]), 1 - res @ res / ((y - y.mean()) @ (y - y.mean())), what + ": r2 of the equation", 1e-9, 6e-5)
    return ("bias" if c["bias"] else "none") + (" weights" if c["weights"] else "") + (" sampled" if c["cap"] and c["cap"] < n else "")


@law(st.fixed_dictionaries(dict(n=sized((5, 9), (6, 50)), d=st.integers(2, 5), vs=seeds, center=st.booleans(), filt=st.booleans(), lazy=st.booleans(), cap=st.sampled_from([None, None, 3, 1000]))), n=250, rule="by options")
def pca(c):
    g = rng(c["vs"])
    n, d = c["n"], c["d"]
    if n < d + 2:
        raise Skip
    Q, _ = np.linalg.qr(g.normal(size=(d, d)))
    X = (g.normal(size=(n, d)) * (4.0 ** -np.arange(d))) @ Q + g.normal(size=d)
    grp = [["a", "b", "c"][k] for k in g.integers(0, 3, n)]
    keep = g.random(n) < 0.8 if c["filt"] else np.ones(n, bool)
    if keep.sum() < d + 2:
        raise Skip
    df = pl.DataFrame({"g": grp, **{f"f{i}": X[:, i] for i in range(d)}, "keep": keep})
    feats = [f"f{i}" for i in range(d)]
    kw = {} if c["cap"] is None else dict(max_points=c["cap"])
    chart = P.plot_pca(df.lazy() if c["lazy"] else df, feats, "g", **some(c["vs"] >> 3, dict(center=True, dim=2), center=c["center"], dim=2), filter_by=pl.col("keep") if c["filt"] else None, **kw)
    A = X[keep]
    A = A - A.mean(axis=0) if c["center"] else A
    U, S, Vt = np.linalg.svd(A, full_matrices=False)
    if len(S) > 2 and S[1] - S[2] < 1e-3 * S[0] or S[0] - S[1] < 1e-3 * S[0]:
        raise Skip
    what = f"plot_pca({ {k: v for k, v in c.items() if k != 'vs'} })"
    v = pick(views(chart), what, x="pc1", y="pc2", color="g")
    Z = A @ Vt.T[:, :2]
    kg = [k for k, u in zip(grp, keep) if u]
    m = min(len(Z), c["cap"] or len(Z))
    check_eq(len(v["rows"]), m, what + ": points shown")
    best = None
    for s1 in (1, -1):
        for s2 in (1, -1):
            left = list(zip((Z[:, 0] * s1).tolist(), (Z[:, 1] * s2).tolist(), kg))
            for r in v["rows"]:
                hit = [t for t in left if t[2] == r["g"] and close(t[0], r["pc1"], 1e-6, 1e-7) and close(t[1], r["pc2"], 1e-6, 1e-7)]
                if not hit:
                    break
                left.remove(hit[0])
            else:
                best = (s1, s2)
    if best is None:
        fail(what + ": points", got=v["rows"][:5], want=Z[:5].tolist())
    return ("filter" if c["filt"] else "all") + (" sampled" if m < len(Z) else "") + (" centred" if c["center"] else "")


def scores(g, n, kind):
    return {"distinct": lambda: g.permutation(n) / n + 1 / (2 * n), "ties": lambda: g.integers(0, 4, n) / 4 + 0.125, "hard": lambda: g.integers(0, 2, n) * 1.0, "good": lambda: g.random(n)}[kind]()


@law(st.fixed_dictionaries(dict(n=sized((2, 6), (4, 50)), vs=seeds, kinds=st.lists(st.sampled_from(["distinct", "ties", "hard", "good"]), min_size=1, max_size=3), single=st.booleans(), show=st.booleans(), dec=st.sampled_from([4, 4, 2, 6]), dt=st.sampled_from(["int", "float", "bool"]))), n=350, rule="by score kinds")
def roc_auc(c):
    g = rng(c["vs"])
    n = c["n"]
    y = g.integers(0, 2, n)
    y[0], y[-1] = 0, 1
    kinds = c["kinds"][:1] if c["single"] else c["kinds"]
    ps = [scores(g, n, k) for k in kinds]
    names = [f"model {'abc'[i]}" for i in range(len(ps))]
    tgt = {"int": y, "float": y.astype(float), "bool": y.astype(bool)}[c["dt"]]
    if c["dt"] != "int":
        tgt = y
    ser = [pl.Series("score", p) for p in ps]
    kw = some(c["vs"] >> 3, dict(show_auc=True, n_decimals=4), show_auc=c["show"], n_decimals=c["dec"])
    chart = P.plot_roc_auc(target=pl.Series(tgt), pred=ser[0], name=names[0], **kw) if c["single"] else P.plot_roc_auc(target=tgt, preds=ser, names=names, **kw)
    what = f"plot_roc_auc of {kinds}"
    cand = [v for v in views(chart) if v["f"].get("x") == "fpr" and v["f"].get("y") == "tpr"]
    curve = [v for v in cand if any(r.get("name", "").startswith("model") for r in v["rows"])]
    check_eq(len(curve), 1, what + ": views with curves")
    diagonal(cand, "fpr", "tpr", what)
    check_eq((curve[0]["enc"]["x"].get("title"), curve[0]["enc"]["y"].get("title")), ("False Positive Rate", "True Positive Rate"), what + ": titles of the axes")
    by = defaultdict(list)
    for r in curve[0]["rows"]:
        by[r["name"]].append((r["fpr"], r["tpr"]))
    check_eq(len(by), len(ps), what + ": curves")
    pos, neg = int(y.sum()), int((1 - y).sum())
    for p, nm in zip(ps, names):
        key = [k for k in by if k.startswith(nm)]
        check_eq(len(key), 1, what + f": curves of {nm}")
        want = {(0.0, 0.0)} | {(((p >= t) & (y == 0)).sum() / neg, ((p >= t) & (y == 1)).sum() / pos) for t in set(p.tolist())}
        got = sorted(set((round(a, 12), round(b, 12)) for a, b in by[key[0]]))
        want = sorted(set((round(a, 12), round(b, 12)) for a, b in want))
        check_eq(got, want, what + f": points of the curve of {nm}", y=y.tolist(), p=p.tolist())
        seq = by[key[0]]
        if any(a[0] > b[0] + 1e-12 or a[1] > b[1] + 1e-12 for a, b in zip(seq, seq[1:])):
            fail(what + ": the curve goes back", got=seq)
        d = p[y == 1][:, None] - p[y == 0][None, :]
        auc = ((d > 0).sum() + 0.5 * (d == 0).sum()) / d.size
        if c["show"]:
            m = re.fullmatch(re.escape(nm) + r" \(AUC = (\d+\.?\d*(?:e-?\d+)?)\)", key[0])
            if not m:
                fail(what + ": caption", got=key[0])
            check_close(float(m[1]), auc, what + ": AUC of the caption", 0, 0.5001 * 10 ** -c["dec"] + 1e-9, y=y.tolist(), p=p.tolist())
        else:
            check_eq(key[0], nm, what + ": caption without AUC")
    return ",".join(sorted(set(kinds)))


@law(st.fixed_dictionaries(dict(n=sized((6, 12), (10, 60)), vs=seeds, m=st.integers(1, 3), bins=st.integers(2, 12), single=st.booleans(), default=st.booleans())), n=250, rule="by bins")
def calibration(c):
    g = rng(c["vs"])
    n, B = c["n"], c["bins"]
    if c["default"]:
        B = 10
        n = max(n, 20) | 1
    while n < 2 * B or any((n - 1) * i % B == 0 for i in range(1, B)):
        n += 1
    y = g.integers(0, 2, n)
    m = 1 if c["single"] else c["m"]
    ps = [np.sort(g.permutation(1000)[:n])[g.permutation(n)] / 1000 for _ in range(m)]
    names = [f"model {'abc'[i]}" for i in range(m)]
    ser = [pl.Series("s", p) for p in ps]
    kw = {} if c["default"] else dict(n_bins=B)
    chart = P.plot_prob_calibration(target=y, score=ser[0], name=names[0], **kw) if c["single"] else P.plot_prob_calibration(target=pl.Series(y), scores=ser, names=names, **kw)
    what = f"plot_prob_calibration with {B} bins of {n} scores"
    cand = [v for v in views(chart) if v["f"].get("x") == "mean_predicted_prob" and v["f"].get("y") == "fraction_of_positives" and v["f"].get("color") == "score" and any(r["score"].startswith("model") for r in v["rows"])]
    check_eq(len(cand), 1, what + ": views with curves")
    diagonal(views(chart), "mean_predicted_prob", "fraction_of_positives", what)
    for p, nm in zip(ps, names):
        got = sorted((r["mean_predicted_prob"], r["fraction_of_positives"]) for r in cand[0]["rows"] if r["score"] == nm)
        br = np.quantile(p, [i / B for i in range(1, B)])
        k = np.searchsorted(br, p, side="left")
        want = sorted((p[k == i].mean(), y[k == i].mean()) for i in set(k.tolist()))
        same_rows(got, want, what + f": points of {nm}")
    return f"{B} bins"


@law(st.fixed_dictionaries(dict(plot=st.sampled_from(["lin_reg", "pca"]), extra=st.sampled_from([-1, 0, 1, 40]), vs=seeds)), n=6, rule="by plot and size")
def large(c):
    """Without max_points, a plot has up to 20,000 (regression) or 10,000 (PCA) of the points."""
    cap = {"lin_reg": 20_000, "pca": 10_000}[c["plot"]]
    n = cap + c["extra"]
    g = rng(c["vs"])
    df = pl.DataFrame({"x": g.normal(size=n), "y": g.normal(size=n), "g": "a"})
    v = views(P.plot_lin_reg(df, "x", "y") if c["plot"] == "lin_reg" else P.plot_pca(df, ["x", "y"], "g"))
    check_eq([len(q["rows"]) for q in v], [min(n, cap)] * len(v), f"points of the plot of {n} rows")
    return c["plot"]


@law(st.fixed_dictionaries(dict(n=st.integers(3, 9), how=st.sampled_from(["bins", "over", "str", "overseries", "dia", "pca1", "pcadim", "roc_noname", "roc_none", "roc_len", "roc_rows", "cal_noname", "cal_none", "cal_len", "cal_rows"]))), n=60, rule="by misuse")
def misuse(c):
    n = c["n"]
    df = pl.DataFrame(dict(x=np.arange(n) / n, g=["a"] * n, y=np.arange(n) % 2))
    s, h = df["x"], c["how"]
    f = dict(bins=lambda: P.plot_feature_distr(feature="x", df=df, n_bins=2), over=lambda: P.plot_feature_distr(feature="x", over="g"), str=lambda: P.plot_feature_distr(feature="x"), overseries=lambda: P.plot_feature_distr(feature=[1.0, 2.0], df=df, over="g"), dia=lambda: DIA(df).plot_feature_distr("g"),
             pca1=lambda: P.plot_pca(df, ["x"], "g"), pcadim=lambda: P.plot_pca(df, ["x", "y"], "g", dim=4), roc_noname=lambda: P.plot_roc_auc(target=df["y"], pred=s), roc_none=lambda: P.plot_roc_auc(target=df["y"], names=["a"]), roc_len=lambda: P.plot_roc_auc(target=df["y"], preds=[s, s], names=["a"]),
             roc_rows=lambda: P.plot_roc_auc(target=df["y"], pred=s.head(n - 1), name="a"), cal_noname=lambda: P.plot_prob_calibration(target=df["y"], score=s), cal_none=lambda: P.plot_prob_calibration(target=df["y"], scores=[s]), cal_len=lambda: P.plot_prob_calibration(target=df["y"], scores=[s, s], names=["a"]),
             cal_rows=lambda: P.plot_prob_calibration(target=df["y"], score=s.head(n - 1), name="a"))[h]
    try:
        f()
    except ValueError:
        return h
    fail(f"no ValueError: {h}")
