"""polars_ds.compat: arrays and series of other libraries in, the values of the expression out."""
import warnings
import pandas as pd

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from polars_ds.compat import compat
from checks import catalog as K
from checks.common import *


class Col:
    def __init__(self, k):
        self.k = k


p, q, r, w, y, u, f, i, j, z, s, t, cls, idx, b = (Col(k) for k in ("p", "q", "r", "w", "y", "u", "f", "i", "j", "z", "s", "t", "cls", "id", "b"))
CALLS = {}


def call(name, *args, **kw):
    k = name
    n = 2
    while k in CALLS:
        k = f"{name}#{n}"
        n += 1
    CALLS[k] = (name, args, kw)


for nm in ("exp2", "expit", "fract", "trunc", "next_up", "next_down", "digamma", "softmax", "center", "z_normalize", "is_increasing", "detrend", "rfft", "isotonic_regression", "query_abs_energy", "query_mean_abs_change", "query_cv", "query_symm_ratio", "query_mid_range", "query_cid_ce", "normal_test", "query_mad", "query_count_uniques"):
    call(nm, p)
    if nm in ("exp2", "trunc", "next_up", "query_abs_energy"):
        call(nm, f)
for nm in ("gmean", "hmean", "gamma"):
    call(nm, w)
call("logit", u)
call("xlogy", w, u)
call("gcd", i, j)
call("gcd", i, 12)
call("lcm", i, y=j)
call("haversine", p, q, q, r)
call("haversine", p, x_long=q, y_lat=10.0, y_long=r)
call("haversine", p, q, 10.0, 20.0)
call("l1_horizontal", p, q, r, normalize=True)
call("l2_sq_horizontal", p, q)
call("integrate_trapz", y, 0.5)
call("convolve", p, kernel=[0.5, 0.25], mode="valid")
call("convolve", p, [0.5, 0.25], method="fft", mode="same")
call("convolve", p, kernel=Col("ker"), mode="full")
call("detrend", y, method="mean")
call("rfft", p, n=16, return_full=True)
call("isotonic_regression", y, weights=w, increasing=False)
call("jaccard_col", i, j)
call("jaccard_col", s, t, count_null=True)
call("singular_values", p, q, r)
call("principal_components", p, q, r, k=2)
call("psi", p, q, n_bins=3)
call("psi", p, baseline=q, return_report=True)
call("info_value", p, z, n_bins=4)
call("info_value_discrete", s, target=z)
for nm in ("str_leven", "str_osa", "str_d_leven", "str_lcs_seq"):
    call(nm, s, t)
    call(nm, s, other=t, return_sim=True, parallel=True)
for nm in ("str_jaro", "str_jw", "str_fuzz", "str_hamming", "str_jaccard", "str_sorensen_dice"):
    call(nm, s, t)
call("str_jw", s, t, weight=0.2)
call("str_jaccard", s, t, 3)
call("str_tversky_sim", s, t, alpha=0.3, beta=0.7)
call("filter_by_levenshtein", s, t, 2)
for nm in ("to_camel_case", "to_snake_case", "to_pascal_case", "to_constant_case", "is_stopword", "remove_diacritics", "normalize_whitespace", "str_snowball"):
    call(nm, s)
call("replace_non_ascii", s, "?")
call("normalize_string", s, form="NFD")
call("similar_to_vocab", s, ["ab", "ba"], threshold=0.4)
call("query_knn_ptwise", p, q, index=idx, k=3)
call("query_knn_ptwise", p, q, index=idx, k=2, return_dist=True, dist="l1", data_mask=b)
call("query_radius_ptwise", p, q, index=idx, r=0.7)
call("query_nb_cnt", p, q, r=0.6, dist="l2")
call("query_nb_cnt", p, q, r=w)
call("query_knn_avg", p, q, target=y, k=3, weighted=True)
call("query_dist_from_kth_nb", p, q, k=2)
call("is_knn_from", p, q, pt=[0.1, 0.2], k=3)
call("within_dist_from", p, q, pt=[0.1, 0.2], r=0.9, dist="l1")
call("query_knn_freq_cnt", p, q, index=idx, k=2)
call("lin_reg", p, q, target=y)
call("lin_reg", p, q, target=y, add_bias=True, return_pred=True)
call("lin_reg", p, q, target=y, weights=w, l2_reg=0.1)
call("simple_lin_reg", p, target=y, add_bias=True)
call("lin_reg_report", p, q, target=y, add_bias=True)
call("lin_reg_w_rcond", p, q, target=y)
call("rolling_lin_reg", p, q, target=y, window_size=5)
call("recursive_lin_reg", p, q, target=y, start_with=4)
for nm in ("query_r2", "query_l1", "query_l2", "query_l_inf", "query_log_cosh", "query_mape", "query_smape", "query_msle"):
    call(nm, w, u)
call("query_adj_r2", y, p, p=2)
call("query_hubor_loss", y, p, delta=0.4)
call("query_mase", y, p, train=r, freq=2)
call("query_log_loss", z, u, normalize=False)
call("query_roc_auc", z, u)
call("query_binary_metrics", z, pred=u, threshold=0.3)
call("query_confusion_matrix", z, u, threshold=0.6, all_metrics=True)
call("query_tpr_fpr", z, u)
call("query_mcc", z, b)
call("bicor", p, q)
for m in ("pearson", "spearman", "kendall", "bicor"):
    call("corr", p, q, method=m)
call("xi_corr", p, q, seed=3, return_p=True)
call("kendall_tau", i, j)
call("cosine_sim", p, q)
call("weighted_cosine_sim", p, q, w)
call("weighted_corr", p, y=q, weights=w)
call("weighted_cov", p, q, w)
call("weighted_mean", p, w, is_normalized=True)
call("weighted_var", p, weights=w)
call("weighted_gmean", w, u)
call("chi2", cls, z)
call("chi2", s, z, return_full=True)
call("f_test", p, group=cls)
call("ks_2samp", p, q)
call("ks_2samp", z, p, is_binary=True)
call("mann_whitney_u", p, q, alternative="less")
call("ttest_ind", p, q, equal_var=True)
call("ttest_1samp", p, 0.1)
call("ttest_ind_from_stats", p, 0.3, 1.2, 40)
call("jitter", p, std=0.3, seed=4)
call("perturb", p, 0.5, seed=6)
call("query_approx_entropy", p, m=2, filtering_level=0.3)
call("query_sample_entropy", p, ratio=0.4)
call("query_ar_coeffs", p, lag=2)
call("query_auto_corr", p, 2)
call("query_c3_stats", p, lag=1)
call("query_cond_entropy", s, z)
call("query_cond_indep", p, q, z=r, k=2)
call("query_copula_entropy", p, q, k=2)
call("query_knn_entropy", p, q, k=2, dist="inf")
call("query_transfer_entropy", p, q, lag=1, k=2)
call("query_permute_entropy", p, tau=1, n_dims=3)
call("query_entropy", i)
call("query_lempel_ziv", b)
call("query_longest_streak", b)
call("query_avg_streak", b)
call("query_streak", cls)
call("query_mean_n_abs_max", p, n_maxima=3)
call("query_range_count", p, -0.5, 0.7)
call("query_similar_count", [0.3, -0.1, 0.5], p, 1.5)
call("query_first_digit_cnt", i)
call("woe", p, z, n_bins=4)
call("woe_discrete", s, z)
UNORDERED = {"woe", "woe_discrete", "chi2"}


class Foreign:
    """A series of some other library: nothing but the array protocol."""

    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


KINDS = ["numpy", "strided", "pandas", "polars", "foreign", "chunked", "unnamed"]


def box(s_, kind, n):
    a = s_.to_numpy() if s_.dtype != pl.String else np.array(s_.to_list(), dtype=object)
    if kind == "strided":
        big = np.empty((len(a), 3), dtype=a.dtype)
        big[:, 1] = a
        return big[:, 1]
    if kind == "pandas":
        return pd.Series(a, index=[7 * k % 11 - 3 for k in range(len(a))], name="some name")
    if kind == "polars":
        return s_
    if kind == "chunked":
        k = len(s_) // 3
        return pl.concat([s_.slice(0, k), s_.slice(k)], rechunk=False)
    if kind == "unnamed":
        return s_.alias("")
    return Foreign(a) if kind == "foreign" else a


def content(x):
    return x.to_list() if isinstance(x, pl.Series) else np.asarray(x).tolist()


@law(st.fixed_dictionaries(dict(call=st.sampled_from(sorted(CALLS)), n=st.integers(36, 60), vs=seeds, kinds=st.lists(st.sampled_from(KINDS), min_size=1, max_size=4))), n=2000, rule="by function")
def same_as_the_expression(c):
    name, args, kw = CALLS[c["call"]]
    n = c["n"]
    df = K.frame(n, c["vs"]).with_columns(b=pl.col("p") > 0.2)
    ker = [0.5, 0.25, -0.25]
    ks = c["kinds"]
    boxes = []

    def arg(x):
        if not isinstance(x, Col):
            return x
        kind = ks[len(boxes) % len(ks)]
        o = box(pl.Series("ker", ker) if x.k == "ker" else df[x.k], kind, n)
        boxes.append((o, content(o)))
        return o

    def ref(x):
        return x if not isinstance(x, Col) else pl.Series("ker", ker) if x.k == "ker" else pl.col(x.k)

    got = getattr(compat, name)(*[arg(x) for x in args], **{k: arg(v) for k, v in kw.items()})
    want = df.select(getattr(pds, name)(*[ref(x) for x in args], **{k: ref(v) for k, v in kw.items()}).alias("o"))["o"]
    what = f"compat.{c['call']} of {ks}"
    check_eq(type(got), pl.Series, what)
    check_eq(got.name, name.replace("query_", ""), f"{what}: name")
    check_eq(kinds(got.dtype), kinds(want.dtype), f"{what}: type")
    g, h = plain(got), plain(want.alias(got.name))
    if name in UNORDERED and isinstance(g[0], list):
        g, h = sorted(g, key=lambda d: str([v for v in d if not isinstance(v, float)])), sorted(h, key=lambda d: str([v for v in d if not isinstance(v, float)]))
    if name == "lin_reg_report":  # inputs have no names but their positions, unless they are Polars series
        for k, (rg, rh) in enumerate(zip(g, h)):
            if rg[0] == str(k) and ks[k % len(ks)] not in ("polars", "chunked"):
                rg[0] = rh[0]
    if not K.eqv(g, h, 1e-6 if "f" in [a.k for a in args if isinstance(a, Col)] else 1e-9, 1e-9):
        fail(what, got=g[:6], want=h[:6])
    for o, before in boxes:
        if content(o) != before:
            fail(f"{what} changes an input")
    return name


def kinds(t):
    """The type, without the names of struct fields (which are those of the inputs)."""
    if isinstance(t, pl.Struct):
        return ("struct", [kinds(k.dtype) for k in t.fields])
    if isinstance(t, pl.List):
        return ("list", kinds(t.inner))
    return t


def plain(s_):
    """Struct values as lists."""
    def go(v):
        return [go(k) for k in v.values()] if isinstance(v, dict) else [go(k) for k in v] if isinstance(v, list) else abs(v) if isinstance(v, float) and s_.name == "principal_components" else v

    return [go(v) for v in s_.to_list()]


TYPES = {t.__name__: t for t in (pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64, pl.Float32, pl.Float64, pl.Boolean, pl.String)}
NUMERIC = ["query_abs_energy", "is_increasing", "is_decreasing", "query_mid_range", "query_range_count", "trunc", "query_mean_abs_change", "query_first_digit_cnt", "query_longest_streak"]


@law(st.fixed_dictionaries(dict(t=st.sampled_from(sorted(TYPES)), n=sized((1, 6), (1, 60)), vs=seeds, kind=st.sampled_from(KINDS), top=st.booleans(), fun=st.sampled_from(["query_count_uniques", "gcd", "query_entropy", *NUMERIC]))), n=900, rule="by type and function")
def types_pass_through(c):
    """Values of every type, up to the ends of its range, arrive as they are."""
    t, r, n, fun = TYPES[c["t"]], rng(c["vs"]), c["n"], c["fun"]
    if t.is_integer():
        info = np.iinfo(c["t"].lower())
        k = min(9, info.max)
        v = [int(info.max) - int(x) if c["top"] else int(x) + max(int(info.min), -4) for x in r.integers(0, k, n)]
    elif t.is_float():
        v = np.asarray(r.integers(-9, 9, n) / 4 * (1e30 if c["top"] else 1), np.float32 if t == pl.Float32 else float).tolist()
    else:
        v = [["", "é", "x  y", "z\0"][x] if t == pl.String else bool(x % 2) for x in r.integers(0, 4, n)]
    s_ = pl.Series("p", v, dtype=t)
    if (fun in NUMERIC and not t.is_numeric()) or (fun == "gcd" and not t.is_integer()) or (fun == "query_longest_streak" and t != pl.Boolean):
        raise Skip
    args = {"gcd": (6,), "query_range_count": (-3, 3)}.get(fun, ())
    what = f"compat.{fun} of a {c['kind']} series of type {t}"

    def go(f):
        try:
            return f()
        except (pl.exceptions.PolarsError, TypeError, ValueError, OverflowError) as e:
            return type(e).__name__

    want = go(lambda: pl.DataFrame([s_]).select(getattr(pds, fun)("p", *args).alias("o"))["o"])
    got = go(lambda: getattr(compat, fun)(box(s_, c["kind"], n), *args))
    if isinstance(want, str) or isinstance(got, str):
        if not isinstance(want, str):
            fail(f"{what}: {got}, not {want}", values=v[:9])
        return None
    check_eq(kinds(got.dtype), kinds(want.dtype), f"{what}: type")
    if not K.eqv(plain(got), plain(want), 1e-12, 0):
        fail(what, got=got.to_list()[:6], want=want.to_list()[:6], values=v[:9])
    return f"{t} {fun}"


@law(st.fixed_dictionaries(dict(which=st.sampled_from(["nb_cnt", "ks_2samp", "ttest", "gcd", "hubor", "range", "threshold", "knn_k", "weight", "n_bins"]), v=st.integers(1, 9), kind=st.sampled_from(["f64", "f32", "i64", "i32", "py"]), vs=seeds)), n=250, rule="by option")
def scalars_stay_scalars(c):
    """Options may be scalars of NumPy as well."""
    df = K.frame(40, c["vs"])
    a, bb, zz, uu = (df[k].to_numpy() for k in ("p", "q", "z", "u"))
    v = c["v"]
    mk = dict(f64=np.float64, f32=np.float32, i64=np.int64, i32=np.int32, py=float)[c["kind"]]
    fl, it = (mk(v / 8) if "f" in c["kind"] else v / 8), (mk(v + 1) if "i" in c["kind"] else v + 1)
    P, Q, Z, U = pl.col("p"), pl.col("q"), pl.col("z"), pl.col("u")
    runs = {"nb_cnt": (lambda m: m.query_nb_cnt, (a, bb), (P, Q), dict(r=float(fl))), "ks_2samp": (lambda m: m.ks_2samp, (a, bb), (P, Q), dict(alpha=fl)), "ttest": (lambda m: m.ttest_1samp, (a,), (P,), dict(pop_mean=fl)),
            "gcd": (lambda m: m.gcd, (df["i"].to_numpy(),), (pl.col("i"),), dict(y=int(it))), "hubor": (lambda m: m.query_hubor_loss, (a, bb), (P, Q), dict(delta=fl)), "range": (lambda m: m.query_range_count, (a,), (P,), dict(lower=-fl, upper=fl)),
            "threshold": (lambda m: m.query_binary_metrics, (zz, uu), (Z, U), dict(threshold=fl)), "knn_k": (lambda m: m.query_dist_from_kth_nb, (a, bb), (P, Q), dict(k=it)), "weight": (lambda m: m.query_c3_stats, (a,), (P,), dict(lag=it)), "n_bins": (lambda m: m.psi, (a, bb), (P, Q), dict(n_bins=it))}
    f_, xs, es, kw = runs[c["which"]]
    py = {k: x.item() if hasattr(x, "item") else x for k, x in kw.items()}
    want = df.select(f_(pds)(*es, **py).alias("o"))["o"]
    got = f_(compat)(*xs, **kw)
    if not K.eqv(plain(got), plain(want), 1e-6, 1e-9):
        fail(f"compat with a scalar {kw}", got=got.to_list()[:5], want=want.to_list()[:5])
    return c["which"]


@law(st.fixed_dictionaries(dict(how=st.sampled_from(["none", "frame", "str_to_expr", "pl", "nothere", "bad"]), n=st.integers(1, 5))), n=60, rule="by misuse")
def misuse(c):
    a = np.arange(c["n"], dtype=float)
    h = c["how"]
    want = dict(none=ValueError, frame=ValueError, str_to_expr=ValueError, pl=ValueError, nothere=AttributeError, bad=TypeError)[h]
    try:
        {"none": lambda: compat.exp2(), "frame": lambda: compat.frame(a), "str_to_expr": lambda: compat.str_to_expr(a), "pl": lambda: compat.pl(a), "nothere": lambda: compat.nothere_(a), "bad": lambda: compat.exp2(a, a, a)}[h]()
    except want:
        return h
    fail(f"no {want.__name__} for {h}")
