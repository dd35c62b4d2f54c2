"""Transforms and pipelines against a row-by-row model of every step."""
import polars_ds.modeling.transforms as T
from checks.pipemodel import *


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(1, 6), lazy=st.booleans(), asdict=st.booleans())), n=1500, rule="by number of steps in effect")
def pipelines(c):
    b = build(c)
    if not b.steps:
        raise Skip
    tr, nw = b.train_df, b.new_df
    tr0, nw0 = tr.clone(), nw.clone()
    what = " > ".join(f"{s.name}{s.args}{s.kwargs}" for s in b.steps)[:1500]
    bp = blueprint(c, b, tr.lazy() if c["lazy"] else tr, c["asdict"])
    p = bp.materialize()
    compare(p.transform(tr), b.m_train, "training frame through " + what, b.tol)
    compare(p.transform(nw), b.m_new, "new frame through " + what, b.tol)
    check_eq(p.feature_names_out_, list(b.m_train.cols), "feature_names_out_")
    check_eq(sorted(x.lower() for x in p.feature_names_in_), sorted(x.lower() for x in tr.columns), "feature_names_in_")
    if not (same(tr, tr0) and same(nw, nw0)):
        fail("an input frame changed", steps=what)
    return str(len(b.steps))


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(1, 5), at=st.lists(st.integers(0, 30), max_size=3))), n=600, rule="at least two rows of new data")
def a_row_is_transformed_on_its_own(c):
    """New data through the pipeline in pieces, reordered, lazily, separated, by another pipeline of the same blueprint."""
    b = build(c)
    if not b.steps:
        raise Skip
    nw = b.new_df
    bp = blueprint(c, b, b.train_df)
    p = bp.materialize()
    o = p.transform(nw)
    for w, x in {"lazy frame": lambda: p.transform(nw.lazy()), "lazy result": lambda: p.transform(nw, return_lazy=True).collect(), "one chunk": lambda: p.transform(nw.rechunk()), "fit": lambda: bp.fit(None, None).transform(nw),
                 "blueprint.transform": lambda: bp.transform(nw), "refit": lambda: bp.materialize().transform(nw), "reordered columns": lambda: p.transform(nw.select(nw.columns[::-1])).select(o.columns)}.items():
        x = x()
        check_eq(type(x), pl.DataFrame, f"type of the result ({w})")
        if not same(x, o):
            fail(f"the result differs: {w}", got=x, want=o)
    check_eq(type(p.transform(nw, return_lazy=True)), pl.LazyFrame, "type of a lazy result")
    cuts = sorted({k % (nw.height + 1) for k in c["at"]} | {0, nw.height})
    parts = [p.transform(nw.slice(i, j - i)) for i, j in zip(cuts, cuts[1:])]
    if parts:
        got = pl.concat(parts)
        if not same(got, o):
            fail("transforming pieces differs from transforming the whole", cuts=cuts, got=got, want=o)
    if nw.height:
        rev = p.transform(nw.reverse()).reverse()
        if not same(rev, o):
            fail("transforming the rows in another order gives other rows", got=rev, want=o)
    y = b.ctx.target
    if y in o.columns:
        for lz in (False, True):
            X, Y = p.transform(nw, separate=True, return_lazy=lz)
            if lz:
                X, Y = X.collect(), Y.collect()
            if not (same(X, o.drop(y)) and same(Y, o.select(y))):
                fail("separate=True is not the features and the target", X=X.columns, Y=Y.columns)
    return True if nw.height > 1 else None


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(0, 4), miss=st.integers(0, 30))), n=300, rule="by pipeline length")
def input_checks(c):
    b = build(c)
    tr, nw = b.train_df, b.new_df
    p = blueprint(c, b, tr).materialize()
    o = p.transform(nw)
    extra = nw.with_columns(pl.lit(1).alias("zzz"))
    less = nw.drop(nw.columns[c["miss"] % len(nw.columns)])
    # by default extra columns are dropped
    if not same(p.transform(extra), o):
        fail("an extra column changes the result")
    r = p.ensure_features_io(True, True)
    if r is not p:
        fail("ensure_features_io does not return the pipeline")
    check_eq(list(p.transform(tr).columns), p.feature_names_out_, "output columns")
    if not same(p.transform(nw), o):
        fail("ensure_features_io changes the result")
    for bad, w in ((extra, "an extra column"), (less, "a missing column"), (less.with_columns(pl.lit(1).alias("zzz")), "a replaced column")):
        for f in (bad, bad.lazy()):
            try:
                p.transform(f)
            except ValueError:
                continue
            fail(f"the pipeline accepts a frame with {w}")
    p.ensure_features_io(False, True)
    if not same(p.transform(extra), o):
        fail("ensure_features_io(False, True): an extra column changes the result")
    p.ensure_features_io(False, False)
    x = p.transform(extra)
    if not set(o.columns) <= set(x.columns) or not same(x.select(o.columns), o):
        fail("ensure_features_io(False, False): the pipeline's own columns changed")
    return str(len(b.steps))


@law(st.fixed_dictionaries(dict(base_st, kind=st.sampled_from(["impute", "center", "scale", "robust_scale", "winsorize", "one_hot_encode", "rank_hot_encode", "target_encode", "woe_encode", "iv_encode", "polynomial_features", "conditional_impute", "linear_impute"]), z=st.lists(st.integers(0, 59), min_size=6, max_size=14), lazy=st.booleans())), n=1500,
     rule="by transform")
def single_transforms(c):
    """The functions of polars_ds.modeling.transforms themselves."""
    b = build(dict(c, steps=[], case="", nan=False, excl=[]))
    m = b.m_train
    ctx = b.ctx
    ctx.now = []
    try:
        s = KINDS[c["kind"]](Z(c["z"]), m, ctx)
        for col, t in ctx.now:
            need(all(x is None or abs(x - t) > 1e-6 for f in (m, b.m_new) for x in f.cols[col]))
        want, want_new = s.apply(m), s.apply(b.m_new)
    except NotHere:
        raise Skip
    df = b.train_df.lazy() if c["lazy"] else b.train_df
    args, kw = list(s.args), dict(s.kwargs)
    if c["kind"] not in ("conditional_impute", "rank_hot_encode", "polynomial_features"):
        args[0] = [k for k in b.train_df.select(args[0]).columns if k != ctx.target or c["kind"] not in ("x",)]
        if ctx.target in args[0]:
            raise Skip
    if c["kind"].endswith("encode") and c["kind"] not in ("one_hot_encode", "rank_hot_encode"):
        kw["target"] = [ctx.target, pl.col(ctx.target), b.train_df[ctx.target]][c["z"][0] % 3]
    if c["kind"] in ("one_hot_encode", "rank_hot_encode"):
        kw.pop("drop_cols")
        want, want_new = [M({**f.cols, **{k: v for k, v in w.cols.items() if k not in f.cols}}, {**f.dt, **w.dt}) for f, w in ((m, want), (b.m_new, want_new))]
    F = getattr(T, c["kind"])
    e = F(*args, **kw) if c["kind"] in ("rank_hot_encode", "polynomial_features") else F(df, *args, **kw)
    compare(b.train_df.with_columns(e), want, f"{c['kind']} {args} {kw} of the training frame", 1e-9)
    compare(b.new_df.lazy().with_columns(e).collect(), want_new, f"{c['kind']} {args} {kw} of new data", 1e-9)
    return c["kind"]


@law(st.fixed_dictionaries(dict(v=st.one_of(st.integers(-128, 127), st.floats(-100, 100)), n=st.integers(1, 5), how=st.sampled_from(["min_max", "robust", "rank1", "quant", "nocat", "degree", "unknown"]))), n=60, rule="by case")
def degenerate_arguments(c):
    df = pl.DataFrame({"x": [c["v"]] * c["n"], "s": ["a"] * c["n"]})
    h = c["how"]
    if h in ("min_max", "robust"):
        o = df.select(T.scale(df, ["x"], "min_max") if h == "min_max" else T.robust_scale(df, ["x"]))["x"].to_list()
        if not all(math.isnan(x) for x in o):
            fail("scaling a constant column does not give NaN", got=o)
        return h
    bad = {"rank1": lambda: T.rank_hot_encode("s", ["a"]), "quant": lambda: T.robust_scale(df, ["x"], 0.75, 0.25), "nocat": lambda: T.one_hot_encode(df, ["x"]), "degree": lambda: T.polynomial_features(["x"], degree=1), "unknown": lambda: T.impute(df, ["x"], "nope")}[h]
    try:
        bad()
    except ValueError:
        return h
    fail(f"no ValueError for {h}")


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(1, 6))), n=400, rule="target or an excluded column survives the pipeline")
def target_and_excluded_stay(c):
    """Fitted steps given selectors leave the target and the excluded columns as they came."""
    fitted = {"impute", "center", "scale", "robust_scale", "winsorize", "one_hot_encode", "target_encode", "woe_encode", "iv_encode", "append_fit_func"}
    c = dict(c, nan=False, steps=[[k, [0] + list(v)] for k, v in c["steps"] if k in fitted], excl=c["excl"] or ["b", "s"])
    b = build(c)
    if not b.steps:
        raise Skip
    p = blueprint(c, b, b.train_df).materialize()
    for f in (b.train_df, b.new_df):
        o = p.transform(f)
        ren = {k: k.lower() if c["case"] == "lower" else k.upper() if c["case"] == "upper" else k for k in f.columns}
        g = f.rename(ren)
        for k in b.ctx.exclude:
            if k not in o.columns or not o[k].equals(g[k], null_equal=True) or o[k].dtype != g[k].dtype:
                fail("a fitted step changed the target or an excluded column", column=k, steps=[s.name for s in b.steps])
    return True


MODE_DT = dict(int=(pl.Int64, [3, -1, 7, 0]), small=(pl.Int8, [-128, 5, 0]), float=(pl.Float64, [0.5, -2.25, 8.0]), str=(pl.String, ["b", "a", "c c", ""]), cat=(pl.Categorical, ["v", "u", "w"]), bool=(pl.Boolean, [True, False]))


@law(st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(MODE_DT)), counts=st.lists(st.integers(0, 5), min_size=2, max_size=4), null=st.integers(0, 12), vs=seeds, lazy=st.booleans(), how=st.sampled_from(["impute", "conditional", "blueprint", "blueprint conditional"]), cuts=cuts_st)), n=600,
     rule="the mode is not the first value, or most values are missing")
def modes(c):
    """The most frequent value that is not null fills in, however many nulls there are and wherever it stands."""
    dt, pool = MODE_DT[c["kind"]]
    cnt = list(zip(pool, c["counts"]))
    best = max(k for _, k in cnt)
    win = [v for v, k in cnt if k == best]
    need_one(best > 0 and len(win) == 1)
    r = rng(c["vs"])
    v = [x for x, k in cnt for _ in range(k)] + [None] * c["null"]
    v = [v[i] for i in r.permutation(len(v))]
    g = [bool(x) for x in r.integers(0, 2, len(v))] if "conditional" in c["how"] else [False] * len(v)
    # rows where the rule holds take no part in the learning
    other = [x for x in pool if x != win[0]][0]
    v, g = v + [other] * (best + 1) * ("conditional" in c["how"]), [False] * len(v) + [True] * (best + 1) * ("conditional" in c["how"])
    df = chunk_df(pl.DataFrame({"x": pl.Series(v, dtype=dt), "g": g, "y": [i % 2 for i in range(len(v))]}), c["cuts"])
    fit = df.lazy() if c["lazy"] else df
    bp = Blueprint(fit, target="y")
    e = {"impute": lambda: T.impute(fit, ["x"], "mode"), "conditional": lambda: T.conditional_impute(fit, {"x": "g" if c["vs"] % 2 else pl.col("g")}, "mode"), "blueprint": lambda: bp.impute(["x"], method="mode"), "blueprint conditional": lambda: bp.conditional_impute({"x": pl.col("g")}, method="mode")}[c["how"]]()
    for part in (df, df.reverse(), df.head(1), df.clear()):
        o = bp.materialize().transform(part) if "blueprint" in c["how"] else part.with_columns(e)
        want = [win[0] if (x is None if "conditional" not in c["how"] else k) else x for x, k in zip(part["x"].to_list(), part["g"].to_list())]
        check_eq(o["x"].to_list(), want, f"{c['how']} by the mode of {v}")
        check_eq(o.schema["x"], df.schema["x"], "type")
    return True if v[0] != win[0] or c["null"] > best else None


def need_one(ok):
    if not ok:
        raise Skip


@law(st.fixed_dictionaries(dict(n=st.integers(4, 25), vs=seeds, enc=st.sampled_from(["target_encode", "woe_encode", "iv_encode"]), default=st.sampled_from(["null", "zero", "mean", None, 0.25, -3, 2]), t=st.integers(0, 3), null=st.sampled_from([0, 0.3]), lazy=st.booleans(), cat=st.booleans(), bp=st.booleans())), n=500, rule="by encoder and default")
def unseen_categories(c):
    """Null and categories that the fit has not seen become the default, whatever form the target has."""
    r = rng(c["vs"])
    n = c["n"]
    y = [int(v) for v in r.integers(0, 2, n)]
    s = [None if r.random() < c["null"] else ["p", "q", "r"][v] for v in r.integers(0, 3, n)]
    need_one(0 < sum(y) < n and any(x is not None for x in s))
    dt = pl.Categorical if c["cat"] else pl.String
    df = pl.DataFrame({"s": pl.Series(s, dtype=dt), "y": y})
    fit = df.lazy() if c["lazy"] else df
    target = ["y", pl.col("y"), df["y"], pl.col("y").cast(pl.Float64)][c["t"]]
    if c["bp"] and not isinstance(target, str):
        target = pl.col("y")
    new = pl.DataFrame({"s": pl.Series(["p", "zz", None, "q", "", "r", "P"], dtype=dt), "y": [0, 1] * 3 + [0]})
    if c["bp"]:
        o = getattr(Blueprint(fit, target="y"), c["enc"])(["s"], target=target, default=c["default"]).materialize().transform(new)
    else:
        o = new.with_columns(getattr(T, c["enc"])(fit, ["s"], target=target, default=c["default"]))
    d = {"null": None, "zero": 0.0, "mean": sum(y) / n}.get(c["default"], c["default"])
    got = o["s"].to_list()
    for v, x in zip(new["s"].to_list(), got):
        if v not in s or v is None:
            if (x is None) != (d is None) or (d is not None and not close(x, d, 1e-12)):
                fail(f"{c['enc']} of {v!r} with default {c['default']!r}", got=x, want=d)
        elif x is None:
            fail(f"{c['enc']} of a category that the fit has seen is null", category=v)
    return f"{c['enc']} {c['default']}"


@law(st.fixed_dictionaries(dict(dt=st.sampled_from(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32"]), how=st.sampled_from(["standard", "min_max", "abs_max", "center", "robust", "winsorize"]), n=st.integers(3, 20), vs=seeds, wide=st.booleans(), lazy=st.booleans())), n=500, rule="by type and transform")
def whole_range_of_a_type(c):
    """Scaling columns that span the whole range of their type."""
    r = rng(c["vs"])
    dt = {"u8": pl.UInt8, "u16": pl.UInt16, "u32": pl.UInt32, "u64": pl.UInt64, "i8": pl.Int8, "i16": pl.Int16, "i32": pl.Int32, "i64": pl.Int64, "f32": pl.Float32}[c["dt"]]
    if c["dt"] == "f32":
        lo, hi = -1000, 1000
    else:
        b = int(c["dt"][1:])
        lo, hi = (0, 2**b - 1) if c["dt"][0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        if c["how"] in ("min_max",) and b == 64:  # differences that fit in 64 bits
            lo, hi = (2**63 - 2**40, 2**63 + 2**40) if lo == 0 else (-2**61, 2**61)
            if c["wide"] and c["dt"] == "u64":
                lo, hi = 2**63, 2**64 - 1
        elif b == 64:
            lo, hi = lo // 4, hi // 4
    v = [lo, hi] + [int(lo + (hi - lo) * float(x)) for x in r.random(c["n"])]
    if c["dt"] == "f32":
        v = [float(np.float32(x)) for x in v]
    v = [v[i] for i in r.permutation(len(v))]
    df = pl.DataFrame({"x": pl.Series(v, dtype=dt)})
    fit = df.lazy() if c["lazy"] else df
    mean = math.fsum(v) / len(v)
    h = c["how"]
    if h == "center":
        e, w = T.center(fit, ["x"]), [x - mean for x in v]
    elif h == "standard":
        sd = math.sqrt(math.fsum((x - mean) ** 2 for x in v) / len(v))
        e, w = T.scale(fit, ["x"], "standard"), [(x - mean) / sd for x in v]
    elif h == "min_max":
        e, w = T.scale(fit, ["x"], "min_max"), [(x - min(v)) / (max(v) - min(v)) for x in v]
    elif h == "abs_max":
        e, w = T.scale(fit, ["x"], "abs_max"), [x / max(map(abs, v)) for x in v]
    elif h == "robust":
        f = pl.Series(v, dtype=pl.Float64)
        a, b = (f.quantile(p, interpolation="midpoint") for p in (0.25, 0.75))
        need_one(a < b)
        e, w = T.robust_scale(fit, ["x"], 0.25, 0.75), [(x - a) / (b - a) for x in v]
    else:
        f = pl.Series(v, dtype=pl.Float64)
        a, b = f.quantile(0.1, interpolation="nearest"), f.quantile(0.9, interpolation="nearest")
        e, w = T.winsorize(fit, ["x"], 0.1, 0.9, "nearest"), [min(max(x, a), b) for x in v]
    got = df.select(e)["x"].to_list()
    scale = max(1.0, max(map(abs, w)))
    check_seq(got, w, f"{h} of {c['dt']} {v}", 1e-6 if c["dt"] != "f32" else 1e-4, scale * (1e-9 if c["dt"] != "f32" else 1e-5))
    return f"{c['dt']} {h}"


def times(df, cols, by=(1.0,), target=None):
    return [pl.col(k) * by[0] for k in cols]


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(1, 3), more=steps_st(1, 2))), n=150, rule="a later step changes the blueprint's own output")
def what_the_caller_passes_in(c):
    """Arguments are left as they came; a pipeline does not follow its blueprint's later steps; what is printed tells the steps."""
    b = build(c)
    if not b.steps:
        raise Skip
    excl = list(b.excl)
    kw, d = {"by": [2.0]}, {"name": "int_to_float", "args": [], "kwargs": {}}
    df = b.train_df
    ex2 = list(excl)
    bp = Blueprint(df, name="my blueprint", target=b.ctx.target, exclude=ex2, lowercase=c["case"] == "lower", uppercase=c["case"] == "upper")
    for s in b.steps:
        before = repr((s.args, s.kwargs))
        getattr(bp, s.name)(*s.args, **s.kwargs)
        check_eq(repr((s.args, s.kwargs)), before, f"arguments of {s.name} after the call")
    p = bp.materialize()
    first = p.transform(b.new_df)
    text = repr(p)
    check_eq(text.count("Step "), len(p.transforms), "steps that the pipeline prints")
    if "my blueprint" not in str(bp) or any(repr(k)[1:-1] not in str(bp) for k in bp.feature_names_in_):
        fail("the blueprint does not print its name and features", text=str(bp))
    check_eq(ex2, excl, "the list of excluded columns")
    num = [k for k in first.columns if first.schema[k] == pl.Float64 and k not in b.ctx.exclude and k in p.transform(b.train_df).columns]
    changed = None
    if num:
        bp.append_fit_func(times, num[:1], **kw)
        check_eq(kw, {"by": [2.0]}, "keyword arguments of append_fit_func")
        second = bp.materialize().transform(b.new_df)
        w = [None if x is None else x * 2.0 for x in first[num[0]].to_list()]
        check_seq(second[num[0]].to_list(), w, "a step appended later", 1e-9, 1e-9)
        if not same(second.drop(num[0]), first.drop(num[0])):
            fail("a step appended later changed other columns")
        changed = True if first.height else None
    bp.append_step_from_dict(d)
    check_eq(d, {"name": "int_to_float", "args": [], "kwargs": {}}, "the dictionary of a step")
    if not same(p.transform(b.new_df), first):
        fail("a pipeline changed with the steps appended to its blueprint later")
    return changed
