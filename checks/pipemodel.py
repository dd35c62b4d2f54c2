"""A row-by-row Python model of the blueprint steps, and a generator of blueprints (used by P21 and P22)."""
import collections
import itertools
import polars.selectors as cs
from checks.common import *
from polars_ds.modeling.pipeline import Blueprint, Pipeline

PL = {"int": pl.Int64, "small": pl.Int8, "u8": pl.UInt8, "float": pl.Float64, "f32": pl.Float32, "str": pl.String, "cat": pl.Categorical, "bool": pl.Boolean}
NUM = ("int", "small", "u8", "float", "f32")
INT = ("int", "small", "u8")
WIDE = ("int", "float")


class M:
    """A frame of the model: ordered columns as Python lists, with a type class each."""

    def __init__(self, cols, dt):
        self.cols, self.dt = dict(cols), dict(dt)

    def copy(self):
        return M(self.cols, self.dt)

    @property
    def n(self):
        return len(next(iter(self.cols.values()), []))

    def put(self, name, values, dt):
        self.cols[name], self.dt[name] = values, dt

    def keep(self, names):
        return M({k: self.cols[k] for k in names}, {k: self.dt[k] for k in names})

    def rows(self, idx):
        return M({k: [v[i] for i in idx] for k, v in self.cols.items()}, self.dt)

    def of(self, *dts):
        return [k for k in self.cols if self.dt[k] in dts]

    def vals(self, k):
        return [x for x in self.cols[k] if x is not None]

    def frame(self):
        return pl.DataFrame([pl.Series(k, v, dtype=PL[self.dt[k]]) for k, v in self.cols.items()])


def same(a, b):
    """Equal frames: categories by their names, floats up to the last digits (Polars divides a single value and a column differently)."""
    if a.schema != b.schema or a.height != b.height:
        return False
    for k, t in a.schema.items():
        x, y = a[k].to_list(), b[k].to_list()
        tol = 1e-9 if t == pl.Float64 else 1e-4 if t == pl.Float32 else None
        if x != y and not (tol and all(close(u, v, tol, tol) for u, v in zip(x, y))):
            return False
    return True


def kind_of(dtype):
    if dtype == pl.Boolean:
        return "bool"
    if dtype == pl.String:
        return "str"
    if isinstance(dtype, pl.Categorical) or dtype == pl.Categorical:
        return "cat"
    return "int" if dtype.is_integer() else "float" if dtype.is_float() else str(dtype)


KIND = {"int": "int", "small": "int", "u8": "int", "float": "float", "f32": "float", "str": "str", "cat": "cat", "bool": "bool"}


def compare(out, m, what, tol=1e-7):
    check_eq(out.columns, list(m.cols), what + ": columns")
    for k in m.cols:
        check_eq(kind_of(out.schema[k]), KIND[m.dt[k]], f"{what}: type of {k}")
        g, w = out[k].to_list(), m.cols[k]
        check_eq(len(g), len(w), f"{what}: rows")
        if KIND[m.dt[k]] in ("str", "cat", "bool"):
            check_eq(g, w, f"{what}: column {k}")
        else:
            check_seq(g, w, f"{what}: column {k}", tol, tol)


def div(a, b):
    if a is None or b is None:
        return None
    if b == 0:
        return NAN if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def fn(f):
    return lambda v: [None if x is None else f(x) for x in v]


FL = lambda m, k: "f32" if m.dt[k] == "f32" else "float"


def learned(m, k, how):
    v = m.vals(k)
    if how == "mean":
        return math.fsum(v) / len(v)
    if how == "median":
        return float(np.median(v))
    c = collections.Counter(v).most_common(2)
    if len(c) > 1 and c[0][1] == c[1][1]:
        raise Skip
    return c[0][0]


def quantile(m, k, q, method):
    return pl.Series(m.vals(k), dtype=pl.Float64).quantile(q, interpolation=method)


class NotHere(Exception):
    """The step cannot be used on this frame."""


def need(c):
    if not c:
        raise NotHere


class Step:
    """name/args/kwargs of the blueprint call; apply: what it does to any frame of the model."""

    def __init__(self, name, args, kwargs, apply, plain=False, rowwise=True):
        self.name, self.args, self.kwargs, self.apply, self.plain = name, args, kwargs, apply, plain


SEL = {"float": lambda: cs.float(), "int": lambda: cs.integer(), "num": lambda: cs.numeric(), "str": lambda: cs.string(), "cat": lambda: cs.categorical(), "any": lambda: cs.string() | cs.categorical()}


def choose(z, m, dts, exclude, most=3):
    """-> (columns argument, names the step works on)."""
    names = [k for k in m.of(*dts)]
    free = [k for k in names if k not in exclude]
    need(free)
    style = z.draw(6)
    if style == 0:
        groups = {"float": ("float", "f32"), "int": INT, "num": NUM, "str": ("str",), "cat": ("cat",), "any": ("str", "cat")}
        ok = [g for g, d in groups.items() if set(d) <= set(dts) and any(m.dt[k] in d for k in free)]
        if ok:
            g = ok[z.draw(len(ok))]
            return SEL[g](), [k for k in free if m.dt[k] in groups[g]]
    k = 1 + z.draw(min(most, len(free)))
    pick = []
    pool = list(free)
    for _ in range(k):
        pick.append(pool.pop(z.draw(len(pool))))
    if style == 1:
        return pick[0], pick[:1]
    if style == 2:
        return pl.col(pick), pick
    if style == 3:
        return cs.by_name(*pick), pick
    if style == 4 and any(k in exclude for k in names):  # an excluded column named in the list stays as it is
        return pick + [k for k in names if k in exclude][:1], pick
    return pick, pick


class Z:
    """Draws from a list of integers that came with the case."""

    def __init__(self, ints):
        self.i, self.v = 0, ints

    def draw(self, n):
        x = self.v[self.i % len(self.v)] if self.v else 0
        self.i += 1
        return x % max(n, 1)


def spread(m, k):
    v = m.vals(k)
    return max(v) - min(v) if v else 0.0


def well(m, names):
    """Numeric columns with finite values that are not (nearly) constant."""
    for k in names:
        v = m.vals(k)
        need(len(v) >= 2 and all(math.isfinite(x) for x in v) and max(map(abs, v)) < 1e9 and spread(m, k) > 1e-3 * (1 + max(map(abs, v))))


def finite(m, names, limit=1e6):
    for k in names:
        v = m.vals(k)
        need(v and all(math.isfinite(x) and abs(x) < limit for x in v))


def replace(names, per_column):
    """A step that overwrites columns: per_column(name) -> (function of a list, new type or None)."""
    made = {k: per_column(k) for k in names}

    def apply(m):
        m = m.copy()
        for k, (f, dt) in made.items():
            m.put(k, f(m.cols[k]), dt or m.dt[k])
        return m

    return apply


def impute(z, m, ctx):
    how = ["mean", "median", "mode"][z.draw(3)]
    arg, names = choose(z, m, NUM if how != "mode" else tuple(PL), ctx.exclude)
    for k in names:
        need(m.vals(k))
        if m.dt[k] in NUM:
            finite(m, [k])
    fill = {k: learned(m, k, how) for k in names}
    dt = lambda k: None if how == "mode" else FL(m, k)
    return Step("impute", [arg], dict(method=how), replace(names, lambda k: (lambda v: [fill[k] if x is None else x for x in v], dt(k))))


def rule(z, m, ctx):
    """A condition: (SQL or expression, function of (frame, row) -> True/False/None)."""
    k = z.draw(3)
    num = [c for c in m.of(*WIDE)]
    if k < 2 and num:
        c = num[z.draw(len(num))]
        finite(m, [c])
        t = round([-3.5, 0.25, 1.75, 4.3, 11.6][z.draw(5)], 3)
        ctx.margin(c, t)
        e = f'"{c}" > {t}' if k == 0 else pl.col(c) > t
        return e, lambda f, i: None if f.cols[c][i] is None else f.cols[c][i] > t
    if k == 2 and m.of("str") and z.draw(2):
        c, w = m.of("str")[z.draw(len(m.of("str")))], ["a  b", "x", " x", "Ü", "it''s"][z.draw(5)]
        v = w.replace("''", "'")
        return (f"\"{c}\" = '{w}'" if z.draw(2) else pl.col(c) == v), lambda f, i: None if f.cols[c][i] is None else f.cols[c][i] == v
    c = list(m.cols)[z.draw(len(m.cols))]
    return (pl.col(c).is_null() if z.draw(2) else f'"{c}" is null'), lambda f, i: f.cols[c][i] is None


def conditional_impute(z, m, ctx):
    how = ["mean", "median", "mode"][z.draw(3)]
    pool = [k for k in m.of(*(NUM if how != "mode" else NUM + ("str", "bool", "cat"))) if k not in ctx.exclude]
    need(pool)
    rules, fns, fill = {}, {}, {}
    for _ in range(1 + z.draw(2)):
        k = pool[z.draw(len(pool))]
        if k in rules:
            continue
        e, f = rule(z, m, ctx)
        base = m.rows([i for i in range(m.n) if f(m, i) is False])
        need(base.vals(k))
        if m.dt[k] in NUM:
            finite(m, [k])
        rules[k], fns[k], fill[k] = e, f, learned(base, k, how)
    dts = {k: (m.dt[k] if how == "mode" else FL(m, k)) for k in rules}

    def apply(f):
        o = f.copy()
        for k in rules:
            o.put(k, [fill[k] if fns[k](f, i) is True else f.cols[k][i] for i in range(f.n)], dts[k])
        return o

    return Step("conditional_impute", [rules], dict(method=how), apply)


def linear_impute(z, m, ctx):
    feats = [k for k in m.of(*WIDE) if k not in ctx.exclude and None not in m.cols[k]]
    tg = [k for k in m.of(*NUM) if None in m.cols[k]]
    need(len(feats) >= 1 and tg)
    t = tg[z.draw(len(tg))]
    fs = [k for k in feats if k != t][: 1 + z.draw(3)]
    need(fs)
    finite(m, fs + [t])
    bias = bool(z.draw(2))
    rows = [i for i in range(m.n) if m.cols[t][i] is not None]
    X = np.array([[m.cols[k][i] for k in fs] + ([1.0] if bias else []) for i in rows], float)
    need(len(rows) >= X.shape[1] + 1)
    need(np.linalg.cond(X) < 1e4)
    b = np.linalg.lstsq(X, np.array([m.cols[t][i] for i in rows], float), rcond=None)[0].tolist()

    def apply(f):
        o = f.copy()
        if any(x is None for k in fs for x, y in zip(f.cols[k], f.cols[t]) if y is None):
            raise Skip  # a null to fill beside a null feature: undefined
        o.put(t, [sum(w * f.cols[k][i] for w, k in zip(b, fs)) + (b[-1] if bias else 0) if x is None else x for i, x in enumerate(f.cols[t])], "float")
        return o

    args = [[fs, cs.by_name(*fs), pl.col(fs)][z.draw(3)]]
    return Step("linear_impute", args, dict(target=t, add_bias=bias), apply)


def center(z, m, ctx):
    arg, names = choose(z, m, NUM, ctx.exclude)
    finite(m, names)
    mu = {k: learned(m, k, "mean") for k in names}
    return Step("center", [arg], {}, replace(names, lambda k: (fn(lambda x: x - mu[k]), FL(m, k))))


def scale(z, m, ctx):
    how = ["standard", "min_max", "abs_max"][z.draw(3)]
    arg, names = choose(z, m, NUM, ctx.exclude)
    well(m, names)
    ab = {}
    for k in names:
        v = m.vals(k)
        if how == "standard":
            mu = math.fsum(v) / len(v)
            ab[k] = (mu, math.sqrt(math.fsum((x - mu) ** 2 for x in v) / len(v)))
        elif how == "min_max":
            ab[k] = (min(v), max(v) - min(v))
        else:
            ab[k] = (0.0, max(abs(x) for x in v))
    return Step("scale", [arg], dict(method=how), replace(names, lambda k: (fn(lambda x: div(x - ab[k][0], ab[k][1])), FL(m, k))))


QM = ["nearest", "higher", "lower", "midpoint", "linear"]


def quantiles(z):
    lo = [0.25, 0.1, 0.0, 0.05, 0.5, 0.3, 0.6, 0.01][z.draw(8)]
    hi = [h for h in (0.75, 0.9, 1.0, 0.95, 0.6, 0.5, 0.4, 0.3, 0.2, 0.99) if h > lo]
    return lo, hi[z.draw(len(hi))]


def robust_scale(z, m, ctx):
    arg, names = choose(z, m, NUM, ctx.exclude)
    well(m, names)
    lo, hi = quantiles(z)
    ab = {}
    for k in names:
        a, b = quantile(m, k, lo, "midpoint"), quantile(m, k, hi, "midpoint")
        need(b - a > 1e-3 * (1 + abs(a)))
        ab[k] = (a, b - a)
    return Step("robust_scale", [arg, lo, hi], {}, replace(names, lambda k: (fn(lambda x: div(x - ab[k][0], ab[k][1])), FL(m, k))))


def winsorize(z, m, ctx):
    meth = QM[z.draw(5)]
    arg, names = choose(z, m, NUM if meth in QM[:3] else ("float", "f32"), ctx.exclude)
    finite(m, names)
    lo, hi = quantiles(z)
    typ = {k: (float if m.dt[k] in ("float", "f32") else int) for k in names}
    ab = {k: (typ[k](quantile(m, k, lo, meth)), typ[k](quantile(m, k, hi, meth))) for k in names}
    return Step("winsorize", [arg], dict(q_low=lo, q_high=hi, method=meth), replace(names, lambda k: (fn(lambda x: min(max(x, ab[k][0]), ab[k][1])), None)))


def one_hot_encode(z, m, ctx):
    arg, names = choose(z, m, ("str", "cat"), ctx.exclude)
    first, drop, sep = bool(z.draw(2)), bool(z.draw(2)), ["_", "=", ""][z.draw(3)]
    lev = {k: sorted(set(m.vals(k)), key=lambda s: s.encode()) for k in names}
    need(any(len(v) > 1 for v in lev.values()))
    new = [(k, v, k + sep + v) for k in names for v in (lev[k][int(first):] if len(lev[k]) > 1 else [])]
    need(new)
    need(len({x[2] for x in new}) == len(new) and not {x[2] for x in new} & set(m.cols))

    def apply(f):
        o = f.copy()
        for k, v, nm in new:
            o.put(nm, [int(x == v) for x in f.cols[k]], "u8")
        return o.keep([c for c in o.cols if c not in names]) if drop else o

    return Step("one_hot_encode", [arg], dict(separator=sep, drop_first=first, drop_cols=drop), apply)


def rank_hot_encode(z, m, ctx):
    pool = [k for k in m.of("str") if k not in ctx.exclude]
    need(pool)
    k = pool[z.draw(len(pool))]
    lev = sorted(set(m.vals(k)))
    rank = [lev[i] for i in np.random.default_rng(z.draw(1000)).permutation(len(lev))][: 2 + z.draw(3)]
    need(len(rank) >= 2 and not any(f"{k}>={r}" in m.cols for r in rank))
    drop = bool(z.draw(2))

    def apply(f):
        o = f.copy()
        for j, r in enumerate(rank[1:], 1):
            o.put(f"{k}>={r}", [int(rank.index(x) >= j) if x in rank else -1 for x in f.cols[k]], "small")
        return o.keep([c for c in o.cols if c != k]) if drop else o

    return Step("rank_hot_encode", [k, rank], dict(drop_cols=drop), apply, plain=True)


def default_value(z, m, ctx):
    d = [None, "null", "zero", "mean", 0.25, -3.0][z.draw(6)]
    return d, {None: None, "null": None, "zero": 0.0, "mean": None}.get(d, d) if d != "mean" else learned(m, ctx.target, "mean")


def encoder(which):
    def make(z, m, ctx):
        y = ctx.target
        need(y in m.cols and m.dt[y] in NUM and None not in m.cols[y] and set(m.cols[y]) <= {0, 1})
        arg, names = choose(z, m, ("str", "cat"), ctx.exclude)
        d, dv = default_value(z, m, ctx)
        kw = dict(default=d)
        if z.draw(2):
            kw["target"] = y
        if which == "target_encode":
            leaf, sm = [20, 1, 5][z.draw(3)], [10.0, 1.0, 3.5][z.draw(3)]
            kw.update(min_samples_leaf=leaf, smoothing=sm)
        table = {}
        for k in names:
            g = collections.defaultdict(list)
            for x, t in zip(m.cols[k], m.cols[y]):
                if x is not None:
                    g[x].append(t)
            need(g)
            ny, T = sum(sum(v) for v in g.values()), sum(len(v) for v in g.values())
            prior = sum(m.cols[y]) / m.n
            table[k] = {}
            for x, v in g.items():
                if which == "target_encode":
                    a = 1 / (1 + math.exp(-(len(v) - leaf) / sm))
                    table[k][x] = a * sum(v) / len(v) + (1 - a) * prior
                else:
                    gp, bp = (sum(v) + 1) / (ny + 2), (len(v) - sum(v) + 1) / (T - ny + 2)
                    table[k][x] = math.log(gp / bp) * (1 if which == "woe_encode" else gp - bp)
        return Step(which, [arg], kw, replace(names, lambda k: (lambda v: [table[k].get(x, dv) if x is not None else dv for x in v], "float")))

    return make


def polynomial_features(z, m, ctx):
    pool = [k for k in m.of(*WIDE) if all(abs(x) < 1e3 for x in m.vals(k))]
    need(pool)
    pick = pool[z.draw(len(pool)):][: 1 + z.draw(3)]
    deg, only = 2 + z.draw(2), bool(z.draw(2))
    combs = [c for c in itertools.combinations_with_replacement(pick, deg) if not only or len(set(c)) > 1]
    need(combs)
    need(not {"*".join(c) for c in combs} & set(m.cols))

    def apply(f):
        o = f.copy()
        for c in combs:
            o.put("*".join(c), [None if any(f.cols[k][i] is None for k in c) else math.prod(f.cols[k][i] for k in c) for i in range(f.n)], "float" if any(f.dt[k] == "float" for k in c) else "int")
        return o

    return Step("polynomial_features", [pick, deg], dict(interaction_only=only), apply, plain=True)


def drop(z, m, ctx):
    arg, names = choose(z, m, tuple(PL), ctx.exclude, most=2)
    need(len(m.cols) - len(names) >= 3 and (not isinstance(arg, list) or arg == names))
    if isinstance(arg, pl.Expr) and cs.is_selector(arg):  # a selector names the excluded columns as well
        names = m.frame().select(arg).columns
        need(len(m.cols) - len(names) >= 3 and ctx.target not in names)
    return Step("drop", [arg], {}, lambda f: f.keep([k for k in f.cols if k not in names]), plain=True)


def rename(z, m, ctx):
    names = [k for k in m.cols if k not in ctx.exclude]
    need(names)
    a = names[z.draw(len(names))]
    b = names[z.draw(len(names))]
    how = z.draw(4)
    mp = {a: f"{a}~"} if how == 0 or a == b else {a: b, b: a} if how == 1 else {a: b} if how == 2 else {a: b, b: f"{b}~"}
    need(not set(v for v in mp.values() if v.endswith("~")) & set(m.cols))

    def apply(f):
        o = f.copy()
        for k, v in mp.items():
            o.put(v, f.cols[k], f.dt[k])
        return o.keep([k for k in o.cols if k not in mp or k in mp.values()])

    return Step("rename", [mp], {}, apply, plain=True)


def select(z, m, ctx):
    drop = {k for j, k in enumerate(m.cols) if z.draw(4) == 0 and k not in ctx.exclude}
    names = [k for k in m.cols if k not in drop]
    need(len(names) >= 3)
    how = z.draw(4)
    arg = names if how == 0 else cs.by_name(*names) if how == 1 else pl.col(names) if how == 2 else [pl.col(k) for k in names]
    return Step("select", [arg], {}, lambda f: f.keep(names), plain=(how == 0))


def filter_(z, m, ctx):
    e, f = rule(z, m, ctx)
    need(sum(f(m, i) is True for i in range(m.n)) >= 6)
    return Step("filter", [e], {}, lambda g: g.rows([i for i in range(g.n) if f(g, i) is True]), plain=isinstance(e, str))


def sql_transform(z, m, ctx):
    how = z.draw(5)
    if how > 2:
        need("zz" not in m.cols and m.of("str"))
        s, w = m.of("str")[z.draw(len(m.of("str")))], ["a  b", "x", "x\ty", "Ü", "it''s", " "][z.draw(6)]

        def apply(f):
            o = f.copy()
            o.put("zz", fn(lambda x: x == w.replace("''", "'") if how == 3 else x + w.replace("''", "'"))(f.cols[s]), "bool" if how == 3 else "str")
            return o

        op = f"= '{w}'" if how == 3 else f"|| '{w}'"
        return Step("sql_transform", [["select *, ", "SELECT *,\n  "][z.draw(2)] + f'"{s}" {op} as zz\nfrom df'], {}, apply, plain=True)
    num = [k for k in m.of(*WIDE) if all(abs(x) < 1e4 for x in m.vals(k))]
    need(num)
    c = num[z.draw(len(num))]
    if how == 0:
        names = [k for k in m.cols if k in ctx.exclude or z.draw(4)]
        need(len(names) >= 3)
        return Step("sql_transform", ["select " + ", ".join(f'"{k}"' for k in names) + " from df"], {}, lambda f: f.keep(names), plain=True)
    if how == 1:
        need("zz" not in m.cols)

        def apply(f):
            o = f.copy()
            o.put("zz", fn(lambda x: x * 2 + 1)(f.cols[c]), f.dt[c])
            return o

        return Step("sql_transform", [f'select *, "{c}" * 2 + 1 as zz from df'], {}, apply, plain=True)
    ctx.margin(c, 0.25)
    need(sum(x > 0.25 for x in m.vals(c)) >= 6)
    return Step("sql_transform", [f'SELECT * FROM df WHERE "{c}" > 0.25'], {}, lambda f: f.rows([i for i in range(f.n) if f.cols[c][i] is not None and f.cols[c][i] > 0.25]), plain=True)


def cast_bools(z, m, ctx):
    need(m.of("bool"))
    to = [None, pl.Int32, pl.Float64][z.draw(3)]

    def apply(f):
        o = f.copy()
        for k in f.of("bool"):
            o.put(k, fn(lambda x: int(x))(f.cols[k]), "float" if to == pl.Float64 else "u8")
        return o

    return Step("cast_bools", [] if to is None else [to], {}, apply)


def nan_to_null(z, m, ctx):
    def apply(f):
        o = f.copy()
        for k in f.of("float", "f32"):
            o.put(k, [None if x is None or math.isnan(x) else x for x in f.cols[k]], f.dt[k])
        return o

    return Step("nan_to_null", [], {}, apply, plain=True)


def int_to_float(z, m, ctx):
    need(not any(m.dt[k] in INT and any(abs(x) > 2**20 for x in m.vals(k)) for k in m.cols))
    f32 = bool(z.draw(2))

    def apply(f):
        o = f.copy()
        for k in f.of(*INT):
            o.put(k, fn(float)(f.cols[k]), "f32" if f32 else "float")
        return o

    if f32:
        ctx.tol = 2e-3
    return Step("int_to_float", [] if f32 and z.draw(2) else [f32], {}, apply, plain=True)


def append_expr(z, m, ctx):
    how = z.draw(5)
    if how == 4:
        names = [k for k in m.cols if k in ctx.exclude or z.draw(3)]
        need(len(names) >= 3)
        return Step("append_expr", [pl.col(k) for k in names], dict(is_select=True), lambda f: f.keep(names))
    c = (m.of("str") if how == 3 else [k for k in m.of(*WIDE) if all(abs(x) < 1e4 for x in m.vals(k))])
    need(c)
    c = c[z.draw(len(c))]
    need("ap" not in m.cols and c not in ctx.exclude)
    e, f, nm, dt = [(pl.col(c) * 3 - 1, fn(lambda x: x * 3 - 1), c, m.dt[c]), (pl.col(c).is_null().cast(pl.UInt8).alias("ap"), lambda v: [int(x is None) for x in v], "ap", "u8"),
                    ((pl.col(c) / 2.0).alias("ap"), fn(lambda x: x / 2.0), "ap", "float"), (pl.col(c).str.to_uppercase().alias("ap"), fn(str.upper), "ap", "str")][how]

    def apply(g):
        o = g.copy()
        o.put(nm, f(g.cols[c]), dt)
        return o

    return Step("append_expr", [e], {}, apply)


def minus_min(df, cols, factor=1.0):
    lo = df.lazy().select(pl.col(cols).min()).collect().row(0)
    return [(pl.col(c) - v) * factor for c, v in zip(cols, lo)]


def minus_class_mean(df, cols, target):
    mu = df.lazy().filter(pl.col(target) == 1).select(pl.col(cols).mean()).collect().row(0)
    return [pl.col(c) - v for c, v in zip(cols, mu)]


def append_fit_func(z, m, ctx):
    arg, names = choose(z, m, WIDE, ctx.exclude)
    finite(m, names)
    if z.draw(2):
        k = [1.0, 0.5][z.draw(2)]
        lo = {c: min(m.vals(c)) for c in names}
        return Step("append_fit_func", [minus_min, arg], dict(factor=k), replace(names, lambda c: (fn(lambda x: (x - lo[c]) * k), "float")))
    need(ctx.target in m.cols and m.dt[ctx.target] in NUM)
    ones = m.rows([i for i, t in enumerate(m.cols[ctx.target]) if t == 1])
    need(all(ones.vals(c) for c in names))
    mu = {c: learned(ones, c, "mean") for c in names}
    return Step("append_fit_func", [minus_class_mean, arg], {}, replace(names, lambda c: (fn(lambda x: x - mu[c]), "float")))


KINDS = dict(impute=impute, conditional_impute=conditional_impute, linear_impute=linear_impute, center=center, scale=scale, robust_scale=robust_scale, winsorize=winsorize, one_hot_encode=one_hot_encode, rank_hot_encode=rank_hot_encode,
             target_encode=encoder("target_encode"), woe_encode=encoder("woe_encode"), iv_encode=encoder("iv_encode"), polynomial_features=polynomial_features, drop=drop, rename=rename, select=select, filter=filter_,
             sql_transform=sql_transform, cast_bools=cast_bools, nan_to_null=nan_to_null, int_to_float=int_to_float, append_expr=append_expr, append_fit_func=append_fit_func)

steps_st = lambda lo, hi: st.lists(st.tuples(st.sampled_from(sorted(KINDS)), st.lists(st.integers(0, 59), min_size=6, max_size=14)), min_size=lo, max_size=hi)
SUFFIX = ["", "", "", " ", "é", ".b c", "_1", "Ab", "aB ", "Ä-x"]
base_st = dict(suffix=st.sampled_from(SUFFIX), n=sized((8, 14), (8, 60)), vs=seeds, m=sized((0, 3), (0, 30)), null=st.sampled_from([0, 0.15, 0.3]), nan=st.booleans(), excl=st.lists(st.sampled_from(["a", "b", "s", "k"]), max_size=2, unique=True), case=st.sampled_from(["", "", "lower", "upper"]), cuts=cuts_st)


class Ctx:
    def __init__(self):
        self.tol, self.margins = 1e-7, []

    def margin(self, c, t):
        self.now.append((c, t))


def data(c, n, r, new=False):
    nul = c["null"]
    hole = lambda v: [None if r.random() < nul else x for x in v]
    s = lambda k: [["x", "y", "a  b", "ab", "Ü", "new"][min(int(v), 5 if new else 4)] for v in r.geometric(0.45, n) - 1]
    sc = 2.0 if new else 1.0
    cols = {"a": hole([int(v) for v in r.integers(-12 * sc, 12 * sc + 1, n)]), "b": hole([float(v) * sc for v in np.round(r.normal(size=n) * 4, 3)]), "p": [float(v) * sc for v in np.round(r.normal(size=n) * 3 + 1, 3)],
            "q": [float(v) for v in r.uniform(-5, 5, n)], "k": hole([int(v) for v in r.integers(-128, 128, n)]), "u": hole([int(v) for v in r.integers(0 if new else 40, 256 if new else 200, n)]), "s": hole(s(0)), "t": hole(s(1)), "c": hole(s(2)),
            "o": hole([bool(v) for v in r.integers(0, 2, n)]), "y": [int(v) for v in r.integers(0, 2, n)]}
    if n and c["nan"]:
        cols["b"] = [NAN if x is not None and r.random() < 0.1 else x for x in cols["b"]]
    dt = dict(a="int", b="float", p="float", q="float", k="small", u="u8", s="str", t="str", c="cat", o="bool", y="int")
    return M(cols, dt)


class Built:
    """The blueprint's calls and the model's prediction."""


def build(c):
    ctx = Ctx()
    b = Built()
    suf = c.get("suffix", "")
    up = lambda k: {"upper": str.upper, "lower": str.lower, "": str}[c["case"]](k + suf)  # the name in the model
    ctx.target = up("y")
    ctx.exclude = [ctx.target] + [up(v) for v in c["excl"]]
    r = rng(c["vs"])
    train, new = data(c, c["n"], r), data(c, c["m"], r, True)
    if c["case"]:  # the incoming names are of mixed case
        mix = lambda k: (k.upper() if (k in "apsyo") == (c["case"] == "lower") else k) + suf
    else:
        mix = lambda k: k + suf
    b.train_df, b.new_df = train.frame().rename(mix), new.frame().rename(mix)
    train, new = (M({up(k): v for k, v in f.cols.items()}, {up(k): v for k, v in f.dt.items()}) for f in (train, new))
    b.train_df, b.new_df = chunk_df(b.train_df, c["cuts"]), chunk_df(b.new_df, c["cuts"])
    b.extra, b.excl = {}, [up(v) for v in c["excl"]]
    b.steps = []
    todo = ([("nan_to_null", [0])] if c["nan"] else []) + list(c["steps"])
    b.m_train, b.m_new = train, new
    b.snap = []
    for kind, ints in todo:
        ctx.now = []
        tol0 = ctx.tol
        try:
            s = KINDS[kind](Z(ints), b.m_train, ctx)
            for col, t in ctx.now:  # a threshold that rounding might cross decides nothing
                for f in (b.m_train, b.m_new):
                    need(all(x is None or abs(x - t) > 1e-2 * (1 + abs(t)) for x in f.cols[col]))
            tr = s.apply(b.m_train)
            need(tr.n >= 5)
            nw = s.apply(b.m_new)
        except NotHere:
            ctx.tol = tol0
            continue
        except Skip:
            ctx.tol = tol0
            continue
        b.m_train, b.m_new = tr, nw
        b.steps.append(s)
    b.ctx = ctx
    b.tol = ctx.tol
    return b


def blueprint(c, b, df, via_dict=False):
    bp = Blueprint(df, name="bp", target=b.ctx.target, exclude=list(b.excl) or None, lowercase=c["case"] == "lower", uppercase=c["case"] == "upper")
    for s in b.steps:
        if via_dict and s.plain:
            r = bp.append_step_from_dict({"name": s.name, "args": list(s.args), "kwargs": dict(s.kwargs)})
        else:
            r = getattr(bp, s.name)(*s.args, **s.kwargs)
        if r is not bp:
            fail("a step does not return the blueprint", step=s.name)
    return bp
