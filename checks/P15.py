"""Elementwise numerics, normalisations, horizontal norms, Jaccard similarity, combinations and products."""
import itertools
import warnings
from scipy import special as SP
from checks.common import *
from polars_ds.exprs.num import sinc

warnings.filterwarnings("ignore")
INTS = {"i8": pl.Int8, "i16": pl.Int16, "i32": pl.Int32, "i64": pl.Int64, "u8": pl.UInt8, "u16": pl.UInt16, "u32": pl.UInt32, "u64": pl.UInt64}
DT = st.sampled_from(["f64", "f64", "f32"] + list(INTS))
special_f = st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-10, -1e-10, 1e300, -1e300, 5e-324, 1e-308, 171.0, 172.0, 1 - 2**-53, 1 + 2**-52, 0.1, 1023.0, 1024.0, -1074.0,
                             NAN, float("inf"), -float("inf")])
fvals = st.one_of(st.floats(-30, 30, allow_nan=False), st.floats(0, 1), st.integers(-10, 30).map(float), special_f, st.floats(allow_nan=True, allow_infinity=True), st.none())
ivals = st.one_of(st.integers(0, 20), st.integers(0, 127), st.integers(-128, 127), st.none())


@st.composite
def column(draw, lo=1, hi=12, dt=None):
    d = draw(dt if dt is not None else DT)
    if d in INTS:
        v = draw(st.lists(ivals, min_size=lo, max_size=hi))
        if d.startswith("u"):
            v = [None if x is None else abs(x) for x in v]
    else:
        v = draw(st.lists(fvals, min_size=lo, max_size=hi))
    return dict(dt=d, v=v, cuts=draw(cuts_st))


def series(c, name="x"):
    if c["dt"] in INTS:
        s = pl.Series(name, c["v"], dtype=INTS[c["dt"]])
    else:
        s = pl.Series(name, c["v"], dtype=pl.Float64)
        if c["dt"] == "f32":
            with np.errstate(all="ignore"):
                s = s.cast(pl.Float32)
    return chunk(s, c["cuts"])


def elementwise(c, expr, f, what, rtol=1e-12, atol=1e-300, skip=lambda x: False, out64=False):
    """Row by row against f, computed in double precision; integers are computed in single precision."""
    s = series(c)
    df = pl.DataFrame({"x": s})
    got = df.select(expr.alias("o"))["o"]
    f32 = not out64 and c["dt"] != "f64"
    check_eq(got.dtype, pl.Float32 if f32 else pl.Float64, f"{what}: dtype for {c['dt']}")
    check_eq(len(got), len(s), what + ": length")
    rt, at = (3e-6, 1e-40) if f32 else (rtol, atol)
    for x, g in zip(s.to_list(), got.to_list()):
        if x is None:
            if g is not None:
                fail(f"{what} of null is {g!r}")
            continue
        if g is None:
            fail(f"{what} of {x!r} is null")
        if skip(x):
            continue
        with np.errstate(all="ignore"):
            w = float(f(float(x)))
            if f32:
                w = float(np.float32(w)) if np.isfinite(w) else w
        if f32 and (abs(w) > 3e38 or abs(w) < 1e-36):
            ok = abs(g) > 2.9e38 if abs(w) > 3e38 else abs(g) < 1e-35
            if not ok and not math.isnan(w):
                fail(f"{what} of {x!r}: got {g!r}, want {w!r}")
            continue
        check_close(g, w, f"{what} of {x!r}", rt, at)
    # each row stands alone
    parts = pl.concat([df.slice(i, 1).select(expr.alias("o"))["o"] for i in range(len(s))]) if len(s) else got
    if not got.equals(parts, null_equal=True) and str(got.to_list()) != str(parts.to_list()):
        fail(what + ": a row depends on the others", together=got.to_list(), alone=parts.to_list())
    return c["dt"] + ("+null" if None in c["v"] else "")


@law(column(), n=400, rule="by dtype", thorough=10)
def gamma_function(c):
    def f(x):
        return math.inf if x == 0 else (NAN if x == -math.inf else (math.inf if x == math.inf else SP.gamma(x)))

    # negative arguments and -0.0 have no documented value
    return elementwise(c, pds.gamma("x"), f, "gamma", 1e-12, skip=lambda x: x < 0 or (x == 0 and math.copysign(1, x) < 0) or (0 < x < 1e-307))


@law(column(), n=300, rule="by dtype", thorough=10)
def expit_function(c):
    return elementwise(c, pds.expit("x"), lambda x: SP.expit(x), "expit", 1e-14, skip=lambda x: x < -700)


@law(column(), n=400, rule="by dtype", thorough=10)
def logit_function(c):
    return elementwise(c, pds.logit("x"), lambda x: -math.inf if x == 0 else math.inf if x == 1 else NAN if not 0 <= x <= 1 else math.log(x) - math.log1p(-x), "logit", 1e-9, 1e-15)


@law(column(), n=300, rule="by dtype", thorough=10)
def exp2_function(c):
    return elementwise(c, pds.exp2("x"), lambda x: np.exp2(x), "exp2", 1e-14)


@law(column(), n=300, rule="by dtype", thorough=10)
def fract_and_trunc(c):
    s = series(c)
    df = pl.DataFrame({"x": s})
    got = df.select(pds.trunc("x").alias("o"))["o"]
    check_eq(got.dtype, s.dtype, "trunc dtype")
    check_seq([None if x is None else float(x) for x in got.to_list()], [None if x is None else float(np.trunc(x)) for x in s.to_list()], "trunc", 0, 0)
    lab = elementwise(c, pds.fract("x"), lambda x: x - np.trunc(x), "fract", 0, 0)
    for x, t, f in zip(s.to_list(), got.to_list(), df.select(pds.fract("x").alias("o"))["o"].to_list()):
        if x is not None and math.isfinite(x) and (t + f != x or (f and (f > 0) != (x > 0))):
            fail("trunc + fract is not the number", x=x, trunc=t, fract=f)
    return lab


@law(column(), n=400, rule="by dtype", thorough=10)
def digamma_function(c):
    c = dict(c)
    bad = lambda x: not math.isfinite(x) or (x <= 0 and abs(x - round(x)) < 1e-6) or abs(x) > 1e15 or (x < 0 and abs(x) > 1e6) or abs(x) < 1e-15
    elementwise(c, pds.digamma("x"), lambda x: SP.digamma(x), "digamma", 1e-12, 5e-13, skip=lambda x: bad(x) or x <= 0, out64=True)
    return elementwise(c, pds.digamma("x"), lambda x: SP.digamma(x), "digamma", 1e-9, 1e-11, skip=bad, out64=True)


@law(st.lists(st.one_of(st.floats(1e-3, 20), st.floats(0.5, 200)), min_size=1, max_size=20), n=100, rule="any", thorough=10)
def digamma_positive(c):
    got = pl.DataFrame({"x": c}, schema={"x": pl.Float64}).select(pds.digamma("x").alias("o"))["o"]
    check_seq(got, [float(SP.digamma(v)) for v in c], "digamma", 1e-12, 5e-13, x=c)
    return True


@law(column(), n=300, rule="by dtype", thorough=10)
def sinc_function(c):
    if c["dt"] in ("i64", "u64") or c["dt"] in INTS:
        pass
    s = series(c)
    got = pl.DataFrame({"x": s}).select(sinc("x").alias("o"))["o"].to_list()
    for x, g in zip(s.to_list(), got):
        if x is None:
            check_eq(g, None, "sinc of null")
        elif math.isfinite(x) and abs(x) < 1e6 and not (0 < abs(x) < 1e-30):
            check_close(g, float(np.sinc(float(x))), f"sinc of {x!r}", 1e-6 if c["dt"] == "f32" else 1e-9, 1e-6 if c["dt"] == "f32" else 1e-12 * (1 + abs(x)))
    return c["dt"]


@law(column(), n=300, rule="by dtype", thorough=10)
def neighbours(c):
    s = series(c)
    T = np.float64 if c["dt"] == "f64" else np.float32
    for e, d in ((pds.next_up("x"), math.inf), (pds.next_down("x"), -math.inf)):
        got = pl.DataFrame({"x": s}).select(e.alias("o"))["o"]
        check_eq(got.dtype, pl.Float64 if T is np.float64 else pl.Float32, "next float dtype")
        want = [None if x is None else float(np.nextafter(T(x), T(d))) if x != -d else float(np.nextafter(T(x), T(d))) for x in s.to_list()]
        check_seq(got.to_list(), want, "next float " + ("up" if d > 0 else "down"), 0, 0)
    return c["dt"]


@law(st.tuples(column(8, 8), column(8, 8)), n=300, rule="by dtypes", thorough=10)
def x_log_y(c):
    a, b = series(c[0], "a"), series(c[1], "b")
    got = pl.DataFrame({"a": a, "b": b}).select(pds.xlogy("a", "b").alias("o"))["o"].to_list()
    for x, y, g in zip(a.to_list(), b.to_list(), got):
        if x is None or y is None:
            check_eq(g, None, f"xlogy({x}, {y})")
            continue
        with np.errstate(all="ignore"):
            w = float(SP.xlogy(float(x), float(y)))
        check_close(g, w, f"xlogy({x!r}, {y!r})", 1e-12, 1e-300)
    return c[0]["dt"] + "," + c[1]["dt"]


ints32 = st.one_of(st.integers(-60, 60), st.integers(-46340, 46340), st.integers(-(2**31) + 1, 2**31 - 1), st.none())


@law(st.fixed_dictionaries(dict(a=st.lists(ints32, min_size=1, max_size=12), b=st.lists(ints32, min_size=1, max_size=12), dt=st.sampled_from(["i32", "i64", "i16", "u8"]),
                                mode=st.sampled_from(["col", "int", "lit", "expr"]), cuts=cuts_st)), n=500, rule="by operand kind", thorough=10)
def gcd_lcm(c):
    n = min(len(c["a"]), len(c["b"]))
    a, b = c["a"][:n], c["b"][:n]
    lim = {"i16": 2**15 - 1, "u8": 255}.get(c["dt"], 2**31 - 1)
    fit = lambda v: None if v is None else (abs(v) % (lim + 1) if c["dt"] == "u8" else int(math.fmod(v, lim + 1)))
    a, b = [fit(v) for v in a], [fit(v) for v in b]
    if c["mode"] != "col":
        k = next((v for v in b if v is not None), 4)
        b = [k] * n
    df = pl.DataFrame({"a": pl.Series(a, dtype=INTS[c["dt"]]), "b": pl.Series(b, dtype=INTS[c["dt"]])})
    df = df.with_columns(chunk(df["a"], c["cuts"]), chunk(df["b"], c["cuts"][::-1]))
    y = {"col": "b", "int": b[0], "lit": pl.lit(b[0]) if b[0] is not None else "b", "expr": pl.col("b") + 0}[c["mode"]]
    g = df.select(pds.gcd("a", y).alias("o"))["o"]
    check_eq(g.dtype, pl.Int32, "gcd dtype")
    check_eq(g.to_list(), [None if p is None or q is None else math.gcd(p, q) for p, q in zip(a, b)], "gcd", a=a, b=b)
    L = [None if p is None or q is None else math.lcm(p, q) for p, q in zip(a, b)]
    keep = [i for i, v in enumerate(L) if v is None or v < 2**31]
    if keep and (c["mode"] == "col" or c["mode"] == "expr" or len(keep) == n):
        d2 = df[keep]
        check_eq(d2.select(pds.lcm("a", y).alias("o"))["o"].to_list(), [L[i] for i in keep], "lcm", a=a, b=b)
    return c["mode"]


lat = st.one_of(st.floats(-90, 90), st.sampled_from([0.0, 90.0, -90.0, 45.0]))
lon = st.one_of(st.floats(-180, 180), st.sampled_from([0.0, 180.0, -180.0, 90.0]))


@law(st.fixed_dictionaries(dict(p=st.lists(st.tuples(lat, lon, lat, lon, st.integers(0, 12)), min_size=1, max_size=10), fixed=st.sampled_from(["", "", "cd", "cd", "c", "d", "ab", "ad"]), f32=st.booleans(), cuts=cuts_st)), n=600,
     rule="by operand kind, antipodal or near pairs", thorough=10)
def haversine_distance(c):
    P = [list(p) for p in c["p"]]
    lab = set()
    for p in P:
        k = p.pop()
        if k == 0 and not c["fixed"]:  # antipodal
            p[2], p[3] = -p[0], p[1] - 180 if p[1] > 0 else p[1] + 180
            lab.add("antipodal")
        if k == 1 and not c["fixed"]:
            p[2], p[3] = p[0], p[1]
        if k == 2 and not c["fixed"]:
            p[2], p[3] = p[0] + 1e-7, p[1]
            lab.add("near")
        if k == 3:
            p[1 + 2 * (len(P) % 2)] = None
            lab.add("null")
    if c["fixed"]:
        at = {k: P[0]["abcd".index(k)] for k in c["fixed"]}
        if None in at.values():
            raise Skip
        for p in P:
            for k, v in at.items():
                p["abcd".index(k)] = v
    D = pl.Float32 if c["f32"] else pl.Float64
    df = pl.DataFrame({k: pl.Series([p[i] for p in P], dtype=pl.Float64).cast(D) for i, k in enumerate("abcd")})
    df = df.with_columns(*(chunk(df[k], c["cuts"]) for k in "abcd"))
    e = pds.haversine(*((at[k] if k in "cd" else pl.lit(at[k])) if k in c["fixed"] else pl.col(k) if k == "d" else k for k in "abcd"))
    got = df.select(e.alias("o"))["o"].to_list()
    for row, g in zip(df.rows(), got):
        if None in row:
            check_eq(g, None, "haversine of a null")
            continue
        u = [np.array([math.cos(math.radians(x)) * math.cos(math.radians(y)), math.cos(math.radians(x)) * math.sin(math.radians(y)), math.sin(math.radians(x))]) for x, y in (row[:2], row[2:])]
        w = 6371.0 * 2 * math.atan2(np.linalg.norm(u[0] - u[1]), np.linalg.norm(u[0] + u[1]))
        single = c["f32"] and not c["fixed"]
        tol = 12.0 if c["f32"] else 2e-3
        if w > 19000:
            tol = 25.0 if c["f32"] else 1e-3
        check_close(g, w, f"haversine{row}", 2e-5 if c["f32"] else 1e-9, tol if w > 19000 else (0.05 if c["f32"] else 1e-7))
    if not c["fixed"]:
        back = df.select(pds.haversine("c", "d", "a", "b").alias("o"))["o"].to_list()
        check_seq(back, got, "haversine of the swapped points", 1e-5 if c["f32"] else 1e-10, 0.01 if c["f32"] else 1e-7)
    return "fixed " + c["fixed"] + ",".join(sorted(lab))


base = dict(seed=seeds, n=sized((2, 10), (11, 200)), dt=st.sampled_from(["f64", "f64", "i64", "f32"]), off=st.sampled_from([0, 0, 100, -300, 600]), nulls=st.sampled_from([0, 0.2]),
            ctx=st.sampled_from(["select", "over"]), cuts=cuts_st)


@law(st.fixed_dictionaries(base), n=500, rule="by dtype, nulls", thorough=10)
def normalisations(c):
    r = rng(c["seed"])
    n = c["n"]
    x = r.normal(size=n) * r.choice([1.0, 10.0, 0.1])
    if c["dt"] == "i64":
        x = np.round(x * 5)
    if c["dt"] != "f32":
        x = x + c["off"]
    T = {"i64": pl.Int64, "f32": pl.Float32}.get(c["dt"], pl.Float64)
    ok = r.random(n) >= c["nulls"] if c["nulls"] else np.ones(n, bool)
    if ok.sum() < 2:
        raise Skip
    s = pl.Series([float(v) if k else None for v, k in zip(x, ok)], dtype=pl.Float64).cast(T)
    df = pl.DataFrame({"x": chunk(s, c["cuts"])})
    v = np.array([float(q) for q in s.to_list() if q is not None])
    tol = 1e-4 if c["dt"] == "f32" else 1e-9

    def want(f):
        it = iter(f)
        return [next(it) if k else None for k in ok]

    def ev(e):
        if c["ctx"] == "select":
            return df.select(e.alias("o"))["o"].to_list()
        d = pl.concat([df.head(1).with_columns(g=pl.lit(0)), df.reverse().with_columns(g=pl.lit(1)), df.slice(1).with_columns(g=pl.lit(0))])
        return d.select("g", e.over("g").alias("o")).filter(pl.col("g") == 0)["o"].to_list()

    check_seq(ev(pds.center("x")), want(v - v.mean()), "center", tol, tol * (1 + abs(v).max()))
    if v.std() > 1e-6:
        check_seq(ev(pds.z_normalize("x")), want((v - v.mean()) / v.std(ddof=1)), "z_normalize", tol, tol * (1 + abs(v).max() / v.std()))
    if v.max() < 690 and v.max() > -700:
        e = np.exp(v - v.max())
        got = ev(pds.softmax("x"))
        sub = v.max() < -650  # close to underflow
        if not sub and not (c["dt"] == "f32" and abs(v).max() > 80):
            check_seq(got, want(e / e.sum()), "softmax", 1e-3 if c["dt"] == "f32" else 1e-9, 1e-6 if c["dt"] == "f32" else 1e-12)
            check_close(sum(g for g in got if g is not None), 1.0, "sum of the softmax", 1e-4 if c["dt"] == "f32" else 1e-9)
    return c["dt"] + ("+null" if c["nulls"] else "") + c["ctx"]


@law(st.fixed_dictionaries(dict(cols=st.lists(st.lists(st.one_of(st.integers(-50, 50).map(lambda v: v / 4), st.none()), min_size=5, max_size=5), min_size=1, max_size=5), norm=st.booleans(), kind=st.sampled_from(["f64", "i64", "mixed"]))),
     n=300, rule="by number of columns", thorough=10)
def horizontal_norms(c):
    cols = c["cols"]
    if c["kind"] != "f64":
        cols = [[None if v is None else float(int(v)) for v in q] for q in cols]
    df = pl.DataFrame({f"c{i}": pl.Series(q, dtype=pl.Float64).cast(pl.Int64 if c["kind"] == "i64" or (c["kind"] == "mixed" and i % 2) else pl.Float64) for i, q in enumerate(cols)})
    names = [f"c{i}" if i % 2 else pl.col(f"c{i}") for i in range(len(cols))]
    k = len(cols) if c["norm"] else 1
    l1 = df.select(pds.l1_horizontal(*names, normalize=c["norm"]).alias("o"))["o"].to_list()
    l2 = df.select(pds.l2_sq_horizontal(*names, normalize=c["norm"]).alias("o"))["o"].to_list()
    li = df.select(pds.l_inf_horizontal(*names, normalize=c["norm"]).alias("o"))["o"].to_list()
    for i in range(5):
        v = [abs(q[i]) for q in cols if q[i] is not None]
        full = len(v) == len(cols)
        if full or len(v) > 0:  # null entries are left out, as by polars' horizontal functions
            check_close(l1[i], sum(v) / k, "l1_horizontal", 1e-12)
            check_close(l2[i], sum(x * x for x in v) / k, "l2_sq_horizontal", 1e-12)
            check_close(li[i], max(v) / k, "l_inf_horizontal", 1e-12)
    return f"{len(cols)}" + ("n" if c["norm"] else "")


@law(st.fixed_dictionaries(dict(v=st.lists(st.one_of(st.none(), st.lists(st.one_of(st.integers(-5, 5).map(float), st.floats(-1, 1)), min_size=0, max_size=6)), min_size=1, max_size=8))), n=200,
     rule="not all null or empty", thorough=10)
def list_argmax(c):
    df = pl.DataFrame({"x": pl.Series(c["v"], dtype=pl.List(pl.Float64))})
    got = df.select(pds.list_amax("x").alias("o"))["o"].to_list()
    for v, g in zip(c["v"], got):
        if v is None:
            check_eq(g, None, "list_amax of null")
        elif v:
            if len(g) != 1 or v[g[0]] != max(v) or g[0] != v.index(max(v)):
                fail("list_amax", list=v, got=g)
    return any(c["v"])


@st.composite
def jac(draw):
    kind = draw(st.sampled_from(["i64", "i8", "u16", "u64", "str", "f64", "mixed"]))
    el = st.one_of(st.integers(0, 6), st.integers(0, 100), st.none()) if kind != "str" else st.one_of(st.sampled_from(["", "a", "b", "aa", "é"]), st.none())
    n = draw(st.integers(1, 14))
    L = st.lists(el, min_size=n, max_size=n)
    return dict(kind=kind, a=draw(L), b=draw(L), null=draw(st.booleans()), cuts=draw(cuts_st))


@law(jac(), n=500, rule="by dtype, nulls", thorough=10)
def jaccard_columns(c):
    k = c["kind"]
    if k == "str":
        A, B = pl.Series(c["a"], dtype=pl.String), pl.Series(c["b"], dtype=pl.String)
    elif k == "f64":
        A, B = (pl.Series([None if x is None else x / 2 for x in v], dtype=pl.Float64) for v in (c["a"], c["b"]))
    elif k == "mixed":
        A, B = pl.Series(c["a"], dtype=pl.Int64), pl.Series(c["b"], dtype=pl.UInt8)
    else:
        A, B = pl.Series(c["a"], dtype=INTS[k]), pl.Series(c["b"], dtype=INTS[k])
    df = pl.DataFrame({"a": chunk(A, c["cuts"]), "b": chunk(B, c["cuts"][::-1])})
    f = lambda v: set(v) if c["null"] else {x for x in v if x is not None}
    sa, sb = f(c["a"]), f(c["b"])
    if not sa | sb:
        raise Skip
    w = len(sa & sb) / len(sa | sb)
    check_close(df.select(pds.jaccard_col("a", "b", count_null=c["null"]).alias("o"))["o"][0], w, "jaccard_col", 1e-12, a=c["a"], b=c["b"])
    check_close(df.select(pds.jaccard_col("b", "a", count_null=c["null"]).alias("o"))["o"][0], w, "jaccard_col, swapped", 1e-12, a=c["a"], b=c["b"])
    return k + ("+null" if None in c["a"] + c["b"] else "")


@st.composite
def jacl(draw):
    kind = draw(st.sampled_from(["i64", "i32", "u32", "str"]))
    el = st.one_of(st.integers(0, 6), st.integers(0, 120), st.none()) if kind != "str" else st.one_of(st.sampled_from(["", "a", "b", "aa", "é"]), st.none())
    n = draw(st.integers(1, 8))
    L = st.lists(st.one_of(st.none(), st.lists(el, max_size=6), st.lists(el, max_size=6)), min_size=n, max_size=n)
    return dict(kind=kind, a=draw(L), b=draw(L), cuts=draw(cuts_st))


@law(jacl(), n=400, rule="by dtype, nulls", thorough=10)
def jaccard_rows(c):
    T = pl.List(pl.String if c["kind"] == "str" else INTS[c["kind"]])
    df = pl.DataFrame({"a": chunk(pl.Series(c["a"], dtype=T), c["cuts"]), "b": chunk(pl.Series(c["b"], dtype=T), c["cuts"][::-1])})
    got = df.select(pds.jaccard_row("a", "b").alias("o"))["o"].to_list()
    sw = df.select(pds.jaccard_row("b", "a").alias("o"))["o"].to_list()
    check_eq(len(got), df.height, "rows")
    for a, b, g, h in zip(c["a"], c["b"], got, sw):
        if a is None or b is None:
            check_eq(g, None, "jaccard_row of null")
        elif a or b:
            check_close(g, len(set(a) & set(b)) / len(set(a) | set(b)), f"jaccard_row({a}, {b})", 1e-12)
            check_close(h, g, f"jaccard_row({b}, {a})", 1e-12)
    return c["kind"] + ("+null" if None in c["a"] + c["b"] else "")


@st.composite
def combs(draw):
    kind = draw(st.sampled_from(["i64", "i8", "u64", "f64", "f32", "str"]))
    el = st.one_of(st.integers(0, 9), st.none()) if kind != "str" else st.one_of(st.sampled_from(["", "a", "b", "cc", "é"]), st.none())
    return dict(kind=kind, a=draw(st.lists(el, min_size=1, max_size=8)), b=draw(st.lists(el, min_size=1, max_size=8)), k=draw(st.integers(1, 4)), unique=draw(st.booleans()), cuts=draw(cuts_st))


@law(combs(), n=400, rule="by dtype", thorough=10)
def combinations_and_products(c):
    T = {"f64": pl.Float64, "f32": pl.Float32, "str": pl.String, **INTS}[c["kind"]]
    cv = lambda L: [None if v is None else (v / 2 if c["kind"].startswith("f") else v) for v in L]
    a, b = cv(c["a"]), cv(c["b"])
    A = chunk(pl.Series("a", a, dtype=T), c["cuts"])
    src = [v for v in a if v is not None]
    if c["unique"]:
        src = sorted(set(src))
    e = pds.combinations("a", c["k"], unique=c["unique"])
    if len(src) < c["k"]:
        if not raises(lambda: pl.DataFrame({"a": A}).select(e)):
            fail("combinations of too few values", values=src, k=c["k"])
        return "too few"
    got = pl.DataFrame({"a": A}).select(e.alias("o"))["o"]
    check_eq(got.dtype, pl.List(T), "combinations dtype")
    want = [list(t) for t in itertools.combinations(src, c["k"])]
    if c["unique"]:
        check_eq(sorted(tuple(sorted(t)) for t in got.to_list()), sorted(tuple(t) for t in want), "combinations of the unique values", a=a)
    else:
        check_eq(got.to_list(), want, "combinations", a=a, k=c["k"])
    n = min(len(a), len(b))
    df = pl.DataFrame({"a": a[:n], "b": b[:n]}, schema={"a": T, "b": T})
    got = df.select(pds.product("a", pl.col("b")).alias("o"))["o"].to_list()
    check_eq(got, [[x, y] for x in a[:n] for y in b[:n] if x is not None and y is not None], "product")
    return c["kind"]


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((2, 30), (30, 100)), e=POW2)), n=100, rule="by scale", thorough=10)
def scales(c):
    """Centring, normalising and norms follow the scale of the data."""
    r = rng(c["seed"])
    f = 2.0 ** c["e"]
    df = pl.DataFrame({"x": r.normal(size=c["n"]), "y": r.normal(size=c["n"])})
    sc = df.select(pl.all() * f)
    F = {k: (e, e, f**d) for k, e, d in (("center", pds.center("x"), 1), ("z_normalize", pds.z_normalize("x"), 0), ("l1", pds.l1_horizontal("x", "y"), 1), ("l2", pds.l2_sq_horizontal("x", "y"), 2),
                                         ("l_inf", pds.l_inf_horizontal("x", "y"), 1))}
    homogeneous(df, sc, F)
    return str(c["e"])
