"""Population stability index, weight of evidence, information value, target encoding."""
from collections import Counter
from checks.common import *
from polars_ds.exprs.num import target_encode

INTS = {"i8": pl.Int8, "i32": pl.Int32, "i64": pl.Int64, "u8": pl.UInt8, "u32": pl.UInt32}
bad = st.sampled_from([NAN, math.inf, -math.inf, None])


@st.composite
def numbers(draw, lo=1, hi=40, special=True, dt=None):
    """Few distinct values (ties), a grid, or spread floats; some non-finite or null."""
    kind = draw(st.sampled_from(["tied", "grid", "float", "large"]))
    d = dt or draw(st.sampled_from(["f64", "f64", "f32", "i64", "i32"]))
    if kind == "large":
        s = draw(seeds)
        n = draw(st.integers(50, 400))
        v = [float(x) for x in np.round(rng(s).normal(size=n) * draw(st.sampled_from([3, 30])), draw(st.sampled_from([0, 1, 6])))]
    else:
        el = {"tied": st.integers(0, 3).map(float), "grid": grid(-6, 6), "float": floats(-10, 10)}[kind]
        v = draw(st.lists(el, min_size=lo, max_size=hi))
    if d.startswith("i"):
        v = [float(round(x)) for x in v]
    sp = draw(st.sampled_from([0, 0, 0.15])) if special else 0
    if sp:
        r = rng(draw(seeds))
        b = [None] if d.startswith("i") else [NAN, math.inf, -math.inf, None]
        v = [b[r.integers(len(b))] if r.random() < sp else x for x in v]
    return dict(v=v, dt=d, kind=kind, sp=bool(sp), cuts=draw(cuts_st))


def series(c, name="x"):
    s = pl.Series(name, c["v"], dtype=pl.Float64)
    T = {"f32": pl.Float32, "i64": pl.Int64, "i32": pl.Int32}.get(c["dt"])
    return chunk(s.cast(T) if T is not None else s, c["cuts"])


def finite(s):
    return [float(x) for x in s.to_list() if x is not None and math.isfinite(x)]


def bins(v, brk):
    """Right-closed counts; the last break is infinite."""
    c = [0] * len(brk)
    for x in v:
        c[next(i for i, b in enumerate(brk) if x <= b)] += 1
    return c


def parts(cb, ca):
    B, A = sum(cb), sum(ca)
    pb, pa = [max(x / B, 1e-4) for x in cb], [max(x / A, 1e-4) for x in ca]
    return pb, pa, [(p - q) * math.log(p / q) for p, q in zip(pb, pa)]


def check_breaks(brk, v, nb, what):
    """Quantiles of v (linear interpolation), without repetition and without those of bins that hold no value."""
    q = [float(np.quantile(v, i / nb)) for i in range(1, nb)]
    tol = 1e-9 * (1 + max(abs(x) for x in v))
    if brk[-1] != math.inf or any(a >= b for a, b in zip(brk, brk[1:])):
        fail(what + ": breaks are not increasing up to infinity", brk=brk)
    for b in brk[:-1]:
        if not min(abs(b - x) for x in q) <= tol:
            fail(what + ": a break is not a quantile", brk=brk, quantiles=q)
    prev = -math.inf
    for x in q:
        if any(prev + tol < y < x - tol for y in v) and min(abs(b - x) for b in brk) > tol:
            fail(what + ": a quantile is missing", brk=brk, quantiles=q, missing=x)
        prev = x


def report(df, e, how):
    f = df.lazy() if how else df
    r = f.select(e.alias("r"))
    return (r.collect() if how else r)["r"].struct.unnest()


def arg(s, how):
    return {"name": s.name, "expr": pl.col(s.name), "list": s.to_list(), "series": s, "np": s.to_numpy()}[how]


ways = st.sampled_from(["name", "expr", "list", "series"])


def frame_for(a, b):
    """Both as columns of one frame: the shorter one is filled with nulls."""
    n = max(len(a), len(b))
    f = lambda s: s if len(s) == n else s.extend(pl.Series(s.name, [None] * (n - len(s)), dtype=s.dtype)) if False else pl.concat([s, pl.Series(s.name, [None] * (n - len(s)), dtype=s.dtype)], rechunk=False)
    return pl.DataFrame([f(a), f(b)])


@law(st.fixed_dictionaries(dict(a=numbers(), b=numbers(), nb=st.one_of(st.integers(2, 12), st.just(10)), wa=ways, wb=ways, lazy=st.booleans())), n=600,
     rule="ties, special values, ways to pass the data", thorough=10)
def psi_continuous(c):
    a, b = series(c["a"], "a"), series(c["b"], "b")
    va, vb = finite(a), finite(b)
    if not va or not vb:
        raise Skip
    df = frame_for(a, b)
    wa, wb = c["wa"], c["wb"]
    A, B = arg(a, wa), arg(b, wb)
    rep = report(df, pds.psi(A, B, n_bins=c["nb"], return_report=True), c["lazy"])
    check_eq(rep.columns, ["<=", "baseline_pct", "actual_pct", "psi_bin"], "fields")
    brk = rep["<="].to_list()
    check_breaks(brk, vb, c["nb"], "psi")
    cb, ca = bins(vb, brk), bins(va, brk)
    if 0 in cb[:-1]:
        # a quantile may be rounded just below its value
        fail("psi: a bin without baseline values is reported", brk=brk, counts=cb)
    pb, pa, pc = parts(cb, ca)
    check_seq(rep["baseline_pct"], pb, "baseline_pct", 1e-12, brk=brk)
    check_seq(rep["actual_pct"], pa, "actual_pct", 1e-12, brk=brk)
    check_seq(rep["psi_bin"], pc, "psi_bin", 1e-9, 1e-14)
    got = df.select(pds.psi(A, B, n_bins=c["nb"]).alias("o"))["o"]
    check_eq(len(got), 1, "rows of psi")
    check_close(got[0], sum(pc), "psi", 1e-9, 1e-13)
    same = pl.DataFrame([b]).select(pds.psi("b", "b", n_bins=c["nb"]).alias("o"))["o"][0]
    check_close(same, 0.0, "psi of a column with itself", 0, 1e-15)
    return c["b"]["kind"] + c["b"]["dt"] + ("+sp" if c["a"]["sp"] or c["b"]["sp"] else "") + f",{wa},{wb}"


@law(st.fixed_dictionaries(dict(a=numbers(), b=numbers(), bp=st.lists(grid(-6, 6), min_size=1, max_size=6, unique=True), ib=st.booleans(), wa=ways, wb=ways, lazy=st.booleans())), n=600,
     rule="ties, special values, ways to pass the data", thorough=10)
def psi_with_breakpoints(c):
    a, b = series(c["a"], "a"), series(c["b"], "b")
    va, vb = finite(a), finite(b)
    if not va or not vb:
        raise Skip
    bp = sorted({int(x) for x in c["bp"]}) if c["ib"] else sorted(c["bp"])
    df = frame_for(a, b)
    A, B = arg(a, c["wa"]), arg(b, c["wb"])
    rep = report(df, pds.psi_w_breakpoints(A, B, bp), c["lazy"])
    check_eq(rep["<="].to_list(), [float(x) for x in bp] + [math.inf], "breakpoints")
    brk = rep["<="].to_list()
    pb, pa, pc = parts(bins(vb, brk), bins(va, brk))
    check_seq(rep["baseline_pct"], pb, "baseline_pct", 1e-12, brk=brk)
    check_seq(rep["actual_pct"], pa, "actual_pct", 1e-12, brk=brk)
    check_seq(rep["psi_bin"], pc, "psi_bin", 1e-9, 1e-14)
    sw = report(df, pds.psi_w_breakpoints(B, A, bp), c["lazy"])
    check_close(sw["psi_bin"].sum(), sum(pc), "psi with the arguments swapped", 1e-9, 1e-13)
    return c["b"]["kind"] + c["b"]["dt"] + ("+sp" if c["a"]["sp"] or c["b"]["sp"] else "") + f",{c['wa']},{c['wb']}"


cat_el = {"str": st.one_of(st.sampled_from(["a", "b", "c", "", "é", "zz", "a b"]), st.none()), "i64": st.one_of(st.integers(-2, 4), st.none()), "u8": st.one_of(st.integers(0, 5), st.none()),
          "bool": st.one_of(st.booleans(), st.none()), "f64": st.one_of(st.integers(-3, 3).map(lambda v: v / 2), st.none())}
CT = {"str": pl.String, "i64": pl.Int64, "u8": pl.UInt8, "bool": pl.Boolean, "f64": pl.Float64}


@st.composite
def cats(draw, k=2):
    kind = draw(st.sampled_from(["str", "str", "i64", "u8", "bool"]))
    out = [draw(st.lists(cat_el[kind], min_size=1, max_size=30)) for _ in range(k)]
    return dict(kind=kind, v=out, cuts=draw(cuts_st), lazy=draw(st.booleans()), wa=draw(ways), wb=draw(ways))


@law(cats(), n=500, rule="by dtype, nulls, ways to pass the data", thorough=10)
def psi_of_categories(c):
    T = CT[c["kind"]]
    va, vb = c["v"]
    n = min(len(va), len(vb)) if c["wa"] in ("name", "expr") or c["wb"] in ("name", "expr") else None
    if n:
        va, vb = va[:n], vb[:n]
    for w, v in ((c["wa"], va), (c["wb"], vb)):
        if w == "list" and all(x is None for x in v):
            raise Skip  # a list of nulls has no type
    wa, wb = c["wa"], c["wb"]
    if c["kind"] == "u8":  # a list becomes Int64, which is another type
        wa, wb = (w if w != "list" else "series" for w in (wa, wb))
    a, b = chunk(pl.Series("a", va, dtype=T), c["cuts"]), chunk(pl.Series("b", vb, dtype=T), c["cuts"][::-1])
    df = pl.DataFrame([a, b]) if len(va) == len(vb) else pl.DataFrame({"z": [1]})
    A, B = arg(a, wa), arg(b, wb)
    rep = report(df, pds.psi_discrete(A, B, return_report=True), c["lazy"])
    check_eq(rep.columns, ["baseline_category", "actual_category", "baseline_pct", "actual_pct", "psi_bin"], "fields")
    ca, cb = Counter(va), Counter(vb)
    rows = {}
    for bc, ac, pb, pa, pc in rep.rows():
        if bc is not None and ac is not None and bc != ac:
            fail("psi_discrete: two categories in one row", row=(bc, ac))
        k = bc if bc is not None else ac
        if k in rows:
            fail("psi_discrete: a category is in two rows", category=k, report=rep.rows())
        if k is not None:
            if (bc is not None) != (k in cb) or (ac is not None) != (k in ca):
                fail("psi_discrete: wrong side of a category", row=(bc, ac), a=va, b=vb)
        rows[k] = (pb, pa, pc)
    check_eq(sorted(rows, key=str), sorted(set(ca) | set(cb), key=str), "categories", a=va, b=vb)
    keys = list(rows)
    pb, pa, pc = parts([cb[k] for k in keys], [ca[k] for k in keys])
    for k, x, y, z in zip(keys, pb, pa, pc):
        check_seq(rows[k], (x, y, z), f"psi_discrete of {k!r}", 1e-9, 1e-14)
    got = df.select(pds.psi_discrete(A, B).alias("o"))["o"]
    check_eq(len(got), 1, "rows of psi_discrete")
    check_close(got[0], sum(pc), "psi_discrete", 1e-9, 1e-13)
    check_close(df.select(pds.psi_discrete(B, A).alias("o"))["o"][0], sum(pc), "psi_discrete, swapped", 1e-9, 1e-13)
    return c["kind"] + ("+null" if None in va + vb else "") + f",{wa},{wb}"


def woe_ref(groups, t):
    """groups: label per row; None rows are left out."""
    rows = [(g, y) for g, y in zip(groups, t) if g is not None and y is not None]
    G, Bd = sum(y for _, y in rows), sum(1 - y for _, y in rows)
    out = {}
    for k in {g for g, _ in rows}:
        g = sum(y for h, y in rows if h == k)
        b = sum(1 - y for h, y in rows if h == k)
        p, q = (g + 1) / (G + 2), (b + 1) / (Bd + 2)
        out[k] = (math.log(p / q), (p - q) * math.log(p / q))
    return out


TT = st.sampled_from(["i64", "i32", "u8", "f64", "bool"])
TD = dict(CT, i32=pl.Int32)


def tser(t, dt):
    return pl.Series("t", [None if y is None else (bool(y) if dt == "bool" else y) for y in t], dtype=TD[dt] if dt != "u8" else pl.UInt8)


@law(st.fixed_dictionaries(dict(x=numbers(), ts=seeds, nb=st.one_of(st.integers(1, 12), st.just(10)), tdt=TT, tnull=st.sampled_from([0, 0, 0.2]), tw=st.sampled_from(["name", "expr", "list"]), lazy=st.booleans(),
                                ctx=st.sampled_from(["select", "lazy", "group"]))), n=500, rule="ties, special values, null targets", thorough=10)
def woe_of_bins(c):
    x = series(c["x"])
    n = len(x)
    r = rng(c["ts"])
    t = [None if r.random() < c["tnull"] else int(v) for v in r.random(n) < r.random()]
    s = tser(t, c["tdt"])
    T = {"name": "t", "expr": pl.col("t"), "list": s.to_list()}[c["tw"]]
    if c["tw"] == "list" and all(y is None for y in t):
        raise Skip
    df = pl.DataFrame([x, s])
    keep = [i for i, v in enumerate(x.to_list()) if v is not None and math.isfinite(v)]
    if not keep:
        raise Skip
    vx = [float(x[i]) for i in keep]
    rep = report(df, pds.woe("x", T, n_bins=c["nb"]), c["lazy"])
    ivr = report(df, pds.info_value("x", T, n_bins=c["nb"], return_sum=False), c["lazy"])
    check_eq(rep.columns, ["value", "woe"], "woe fields")
    check_eq(ivr.columns, ["value", "iv"], "iv fields")
    edges = {}
    for lab in rep["value"].to_list():
        if lab[0] != "(" or lab[-1] != "]":
            fail("a bin is not right-closed", label=lab)
        lo, hi = (float(q) for q in lab[1:-1].split(","))
        edges[lab] = (lo, hi)
    check_eq(len(edges), rep.height, "distinct bins")
    full = [(l, y) for l, y in zip(vx, (t[i] for i in keep)) if y is not None]
    if not full:
        check_eq(rep.height, 0, "bins without rows")
        return "empty"
    lab_of = []
    for v in vx:
        m = [l for l, (lo, hi) in edges.items() if lo < v <= hi]
        if len(m) > 1:
            fail("a value is in two bins", value=v, bins=m)
        lab_of.append(m[0] if m else None)
    for v, m, i in zip(vx, lab_of, keep):
        if m is None and t[i] is not None:
            fail("a value is in no bin", value=v, bins=list(edges))
    q = [float(np.quantile(vx, i / c["nb"])) for i in range(1, c["nb"])] + [math.inf, -math.inf]
    tol = 1e-9 * (1 + max(abs(v) for v in vx))
    for e in edges.values():
        for b in e:
            if min((abs(b - z) if math.isfinite(b) and math.isfinite(z) else (0 if b == z else math.inf)) for z in q) > tol:
                fail("a bin edge is not a quantile", edge=b, quantiles=q)
    want = woe_ref(lab_of, [t[i] for i in keep])
    check_eq(set(rep["value"]), set(want), "bins")
    for l, w in rep.rows():
        check_close(w, want[l][0], f"woe of {l}", 1e-9, 1e-12)
    check_eq(sorted(ivr["value"]), sorted(rep["value"]), "bins of info_value")
    for l, w in ivr.rows():
        check_close(w, want[l][1], f"info value of {l}", 1e-9, 1e-12)
    if c["tw"] != "list" or c["ctx"] != "group":
        check_close(one(c["ctx"], df, pds.info_value("x", T, n_bins=c["nb"])), sum(v[1] for v in want.values()), "info_value", 1e-9, 1e-12)
    return c["x"]["kind"] + c["x"]["dt"] + ("+sp" if c["x"]["sp"] else "") + ("+tnull" if c["tnull"] else "") + c["tw"]


@st.composite
def cat_target(draw):
    kind = draw(st.sampled_from(["str", "str", "i64", "u8", "bool"]))
    n = draw(st.integers(1, 40))
    r = draw(st.sampled_from([0.5, 0.5, 0.1, 1.0, 0.0]))
    g = rng(draw(seeds))
    tn = draw(st.sampled_from([0, 0, 0.2]))
    return dict(kind=kind, x=draw(st.lists(cat_el[kind], min_size=n, max_size=n)), t=[None if g.random() < tn else int(g.random() < r) for _ in range(n)], tdt=draw(TT), tw=draw(st.sampled_from(["name", "expr", "list"])),
                cuts=draw(cuts_st), lazy=draw(st.booleans()), perm=draw(seeds), ctx=draw(st.sampled_from(["select", "lazy", "group"])))


def as_str(v, kind):
    return None if v is None else (str(v).lower() if kind == "bool" else str(v))


def cat_frame(c):
    x = pl.Series("x", c["x"], dtype=CT[c["kind"]])
    s = tser(c["t"], c["tdt"])
    if c["tw"] == "list" and all(y is None for y in c["t"]):
        raise Skip
    df = chunk_df(pl.DataFrame([x, s]), c["cuts"])
    return df, {"name": "t", "expr": pl.col("t"), "list": s.to_list()}[c["tw"]]


@law(cat_target(), n=500, rule="by dtype, nulls", thorough=10)
def woe_of_categories(c):
    df, T = cat_frame(c)
    rep = report(df, pds.woe_discrete("x", T), c["lazy"])
    ivr = report(df, pds.info_value_discrete("x", T, return_sum=False), c["lazy"])
    want = woe_ref([as_str(v, c["kind"]) for v in c["x"]], c["t"])
    for what, f, j in (("woe", rep, 0), ("iv", ivr, 1)):
        check_eq(f.columns, ["value", what], "fields")
        check_eq(sorted(f["value"]), sorted(want), "categories of " + what)
        for l, w in f.rows():
            check_close(w, want[l][j], f"{what} of {l!r}", 1e-9, 1e-12)
    if c["tw"] != "list" or c["ctx"] != "group":
        check_close(one(c["ctx"], df, pds.info_value_discrete("x", T)), sum(v[1] for v in want.values()), "info_value_discrete", 1e-9, 1e-12)
    if c["tw"] != "list":
        sh = df.sample(fraction=1.0, shuffle=True, seed=c["perm"])
        a, b = (dict(report(d, pds.woe_discrete("x", T), False).rows()) for d in (df, sh))
        check_eq(set(a), set(b), "categories after a shuffle")
        for k in a:
            check_close(a[k], b[k], "woe after a shuffle", 1e-12, 1e-14)
    return c["kind"] + ("+null" if None in c["x"] else "") + ("+tnull" if None in c["t"] else "") + c["tw"]


@law(st.tuples(cat_target(), st.sampled_from([(20, 10.0), (1, 1.0), (5, 0.5), (0, 2.0), (3, 100.0), (350, 60.0), (1000, 200.0)]), st.sampled_from([1, 1, 1, 50, 300])), n=500, rule="by dtype, nulls", thorough=10)
def target_encoding(c):
    (c, (leaf, smooth), rep) = c
    c = dict(c, x=c["x"] * rep, t=c["t"] * rep)
    df, T = cat_frame(c)
    tv = [y for y in c["t"] if y is not None]
    if not tv:
        raise Skip
    rep = report(df, target_encode("x", T, min_samples_leaf=leaf, smoothing=smooth), c["lazy"])
    check_eq(rep.columns, ["value", "to"], "fields")
    prior = sum(tv) / len(tv)
    want = {}
    rows = [(as_str(v, c["kind"]), y) for v, y in zip(c["x"], c["t"]) if y is not None]
    for k in {g for g, _ in rows}:
        ys = [y for g, y in rows if g == k]
        al = 1 / (1 + math.exp(min(-(len(ys) - leaf) / smooth, 700)))
        want[k] = al * sum(ys) / len(ys) + (1 - al) * prior
    # whether null is encoded as a category of its own is left open: the expression's and the transform's documentation disagree
    got = {k: v for k, v in rep.rows() if k is not None}
    want.pop(None, None)
    check_eq(set(got), set(want), "encoded categories")
    check_eq(len(got) + rep["value"].null_count(), rep.height, "distinct categories")
    for k, v in got.items():
        check_close(v, want[k], f"encoding of {k!r}", 1e-9, 1e-12)
        if not -1e-12 <= v <= 1 + 1e-12:
            fail("an encoding outside the range of the target", value=k, to=v)
    return c["kind"] + ("+null" if None in c["x"] else "") + ("+tnull" if None in c["t"] else "") + c["tw"]


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((4, 40), (40, 200)), e=POW2, nb=st.integers(2, 10), kind=st.sampled_from(["normal", "grid", "tied"]))), n=150, rule="by scale", thorough=8)
def scales(c):
    """The unit of measurement moves the break points only."""
    r = rng(c["seed"])
    n, f, nb = c["n"], 2.0 ** c["e"], c["nb"]
    gen = {"normal": lambda: r.normal(size=n), "grid": lambda: r.integers(-9, 10, n) / 4, "tied": lambda: r.integers(0, 4, n) * 1.0}[c["kind"]]
    df = pl.DataFrame({"a": gen(), "b": gen(), "t": r.integers(0, 2, n)})
    if df["t"].n_unique() < 2 or df["a"].n_unique() < 3 or df["b"].n_unique() < 3:
        raise Skip
    sc = df.with_columns(pl.col("a", "b") * f)
    bp = [-0.6, 0.1, 1.3]
    P = lambda k: {
        "psi": pds.psi("a", "b", n_bins=nb), "psi report": pds.psi("a", "b", n_bins=nb, return_report=True),
        "psi, break points": pds.psi_w_breakpoints("a", "b", breakpoints=[x * k for x in bp]),
        "woe": pds.woe("a", "t", n_bins=nb).struct.field("woe").sum(), "info_value": pds.info_value("a", "t", n_bins=nb),
    }
    u, v = P(1.0), P(f)
    num = lambda s: flat(s.struct.unnest().drop("<=").to_struct() if s.dtype == pl.Struct else s)
    for k in u:
        check_seq(num(sc.select(v[k].alias("o"))["o"]), num(df.select(u[k].alias("o"))["o"]), f"{k} of scaled data", 1e-9, 1e-12)
    brk = lambda d: d.select(pds.psi("a", "b", n_bins=nb, return_report=True).alias("r"))["r"].struct.field("<=").to_list()
    check_seq([x / f for x in brk(sc)], brk(df), "break points of scaled data", 1e-9, 1e-12)
    return f"{c['kind']} {c['e']}"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 140000)), nb=st.integers(2, 12), ties=st.booleans(), pos=st.sampled_from([0.5, 0.02]))), n=3, thorough=24, rule="by ties")
def many_rows(c):
    """More rows than 16 bits count."""
    r = rng(c["seed"])
    n = c["n"]
    b = np.round(r.normal(size=n), 1 if c["ties"] else 6)
    a = np.round(r.normal(size=n) * 1.2 + 0.1, 1 if c["ties"] else 6)
    t = (r.random(n) < c["pos"]).astype(int)
    df = pl.DataFrame({"a": a, "b": b, "t": t, "s": [f"c{v}" for v in np.minimum(r.geometric(0.3, n), 9)]})
    rep = report(df, pds.psi("a", "b", n_bins=c["nb"], return_report=True), False)
    brk = np.array(rep["<="].to_list())
    cnt = lambda v: np.bincount(np.searchsorted(brk, v, "left"), minlength=len(brk)).tolist()
    pb, pa, pc = parts(cnt(b), cnt(a))
    check_seq(rep["baseline_pct"], pb, "baseline_pct", 1e-12)
    check_seq(rep["actual_pct"], pa, "actual_pct", 1e-12)
    check_close(df.select(pds.psi("a", "b", n_bins=c["nb"]).alias("o"))["o"][0], sum(pc), "psi", 1e-9, 1e-13)
    if not c["ties"] and max(abs(p - 1 / c["nb"]) for p in pb) > 2 / n + 1e-9:
        fail("psi: bins of the baseline are not equally full", got=pb)
    s = df["s"].to_list()
    tot = Counter(t.tolist())
    cell = Counter(zip(s, t.tolist()))
    out = df.select(pds.woe_discrete("s", "t").alias("o")).unnest("o")
    check_eq(sorted(out.get_column(out.columns[0]).to_list()), sorted(set(s)), "categories of woe")
    for k, v in out.iter_rows():
        # log of the ratio of the shares; the exact pseudo-count is checked by the law of categories
        e = (cell[k, 1] / tot[1]) / (cell[k, 0] / tot[0])
        if min(cell[k, 1], cell[k, 0]) > 200 and not abs(abs(v) - abs(math.log(e))) < 0.02:
            fail("woe of a category", category=k, got=v, want=math.log(e))
    return "ties" if c["ties"] else "distinct"
