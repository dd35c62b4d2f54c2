"""Arguments: one outside its range, of an unknown name or of the wrong shape is refused with an error; the nearest ones inside are accepted."""
import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import polars_ds.exprs.stats as PS_
    import polars_ds.exprs.string as PT_
    import polars_ds.linear_models as LM
    import polars_ds.sample_and_split as SS
    from polars_ds.compat import compat
    from polars_ds.eda import plots as PL_
    from polars_ds.eda.diagnosis import DIA
    from polars_ds.modeling import transforms as T
    from polars_ds.modeling.pipeline import Blueprint, Pipeline, StepRepr
    from polars_ds.partition import PartitionHelper
    from polars_ds.spatial import KDTree
from checks.common import *

p, q, r, u, y, i, z, s, t = (pl.col(k) for k in "pqruyizst")
NUL = pl.when(pl.int_range(pl.len()) == 4).then(None).otherwise(p)
R = {}
INF = float("inf")


def case(name, fn, bad, good):
    """fn(frame, value): an expression or anything else; refused for the values of bad, accepted for those of good."""
    k, n = name, 2
    while k in R:
        k, n = f"{name}#{n}", n + 1
    R[k] = (fn, bad, good)


class Far:
    """A value at some distance beyond a bound; the distance is generated."""
    def __init__(self, f):
        self.f = f


def below(x, incl=True):
    """Integers below a bound."""
    return ([x] if incl else []) + [x - 1, Far(lambda g: x - int(g.integers(2, 60)))]


def above(x):
    return [x + 1, Far(lambda g: x + int(g.integers(2, 60)))]


def f_below(x, incl=False):
    """Floats below a bound, the next one among them."""
    return ([x] if incl else []) + [float(np.nextafter(x, -INF)) if x else -1e-9, Far(lambda g: x - float(g.exponential(3.0)) - 1e-3)]


def f_above(x, incl=False):
    return ([x] if incl else []) + [float(np.nextafter(x, INF)), Far(lambda g: x + float(g.exponential(3.0)) + 1e-3)]


def word(*but):
    """Names that are none of the known ones, near misses among them."""
    return ["", "unknown", but[0] + "x", but[-1][:-1] or "?", Far(lambda g: "".join(g.choice(list("abcxyz"), 7)))]


in01 = [0.0, 1.0, *f_below(0.0), *f_above(1.0)]
ok01 = [0.5, 1e-3, 0.999]

# ---- numbers
case("principal_components k", lambda d, v: pds.principal_components(p, q, r, k=v), [0, -1, 4, Far(lambda g: int(g.integers(5, 40)))], [1, 2, 3])
case("psi n_bins", lambda d, v: pds.psi(p, q, n_bins=v), below(1), [2, 3])
case("psi_w_breakpoints", lambda d, v: pds.psi_w_breakpoints(p, q, v), [[]], [[0.0], [-0.5, 0.5]])
case("rfft n", lambda d, v: pds.rfft(p, n=v), below(1), [2, 3, 40, None])
case("detrend method", lambda d, v: pds.detrend(y, method=v), word("linear", "mean"), ["linear", "mean"])
case("convolve mode", lambda d, v: pds.convolve("p", [0.5, 0.25, 1.0], mode=v), word("full", "same"), ["full", "same", "left", "right", "valid"])
case("convolve method", lambda d, v: pds.convolve("p", [0.5, 0.25, 1.0], method=v), word("fft", "direct"), ["fft", "direct"])
case("convolve kernel", lambda d, v: pds.convolve("p", v), [[1.0], [], Far(lambda g: [0.5] * 200)], [[1.0, 2.0], [0.5] * 5])
case("mase freq", lambda d, v: pds.query_mase(y, p, y * y, freq=v), below(0), [1, 2])
case("combinations k", lambda d, v: pds.combinations(s, v, unique=True), [lambda d: d["s"].n_unique() + 1], [1, 2])
case("combinations k of all", lambda d, v: pds.combinations(pl.col("p").head(5), v), [6, Far(lambda g: int(g.integers(7, 30)))], [1, 2, 5])
case("product", lambda d, v: pds.product(pl.col("i"), v), [s, p, pl.col("i").cast(pl.Int32)], [pl.col("i"), pl.col("i") + 1])
case("jaccard_row", lambda d, v: pds.jaccard_row(pl.concat_list("i", "z"), v), [pl.concat_list("p", "q"), pl.concat_list("s", "t"), pl.concat_list(i.cast(pl.Int16))], [pl.concat_list("z", "i"), pl.concat_list("i")])
case("isotonic weights", lambda d, v: pds.isotonic_regression(y, weights=v), [u * 0.0, u * 0.0 - 1.0, pl.when(pl.int_range(pl.len()) == 3).then(-1e-9).otherwise(u + 0.1), pl.when(pl.int_range(pl.len()) == 3).then(None).otherwise(u + 0.1), (u + 0.1).head(4)], [u + 1e-9, u + 1])
case("isotonic nulls", lambda d, v: pds.isotonic_regression(v), [pl.when(pl.int_range(pl.len()) == 2).then(None).otherwise(y)], [y])
case("integrate_trapz x", lambda d, v: pds.integrate_trapz(y, v), [p.head(3), p.head(5), pl.concat([p, p])], [p, 0.5])
case("gcd", lambda d, v: pds.gcd("i", v), [pl.concat([i, i]), i.head(3)], [i, z, 3])
case("roc_auc inputs", lambda d, v: pds.query_roc_auc(*v), [(z, s), (z, pl.when(u < 0.5).then(None).otherwise(u)), (pl.when(u < 0.5).then(None).otherwise(z), u), (z.head(6), u)], [(z, u), (z, p), (z.cast(pl.Boolean), u)])
case("binary metrics inputs", lambda d, v: pds.query_binary_metrics(*v), [(z, s), (z, pl.when(u < 0.5).then(None).otherwise(u)), (pl.when(u < 0.5).then(None).otherwise(z), u)], [(z, u), (z, p)])
for nm in ("expit", "logit", "fract", "trunc", "signum", "gamma", "xlogy", "softmax", "exp2", "list_amax"):
    if hasattr(pds, nm) and nm not in ("softmax", "exp2", "list_amax", "xlogy"):
        case(nm + " of numbers", lambda d, v, fn_=getattr(pds, nm): fn_(v), [s, pl.col("dates")], ["p", "i"])
case("xlogy of numbers", lambda d, v: pds.xlogy(v, u), [s], ["p", "i"])
case("haversine of numbers", lambda d, v: pds.haversine(v, q, q, q), [s], [p, i])
# ---- entropies, series
case("sample_entropy m", lambda d, v: pds.query_sample_entropy(y, m=v), below(1), [2, 3])
case("approx_entropy m", lambda d, v: pds.query_approx_entropy(y, v, 0.3), below(1), [2, 3])
case("approx_entropy filtering_level", lambda d, v: pds.query_approx_entropy(y, 2, v), f_below(0.0, True), [0.1, 1e-9])
case("knn_entropy k", lambda d, v: pds.query_knn_entropy(p, q, k=v), below(0), [1, 2])
case("knn_entropy dist", lambda d, v: pds.query_knn_entropy(p, q, dist=v), word("l2", "inf") + ["l1", "sql2", "cosine"], ["l2", "inf"])
case("transfer_entropy lag", lambda d, v: pds.query_transfer_entropy(p, q, lag=v), below(0), [1, 2])
case("permute_entropy n_dims", lambda d, v: pds.query_permute_entropy(p, n_dims=v), below(1), [2, 3])
case("permute_entropy tau", lambda d, v: pds.query_permute_entropy(p, tau=v), below(0), [1, 2])
case("mean_n_abs_max n_maxima", lambda d, v: pds.query_mean_n_abs_max(p, v), below(0), [1, 2])
case("similar_count query", lambda d, v: pds.query_similar_count(v, p, 0.5), [[1.0], [], [1.0, None], [None, 1.0, 2.0]], [[1.0, 2.0], [0.5, 0.25, 0.0]])
case("similar_count query, not standardized", lambda d, v: pds.query_similar_count(v, p, 0.5, metric="sql2"), [[1.0], [], [0.0], [None], [1.0, None], [None, 1.0, 2.0]], [[1.0, 2.0], [0.5, 0.25, 0.0]])
case("similar_count query longer than the series", lambda d, v: pds.query_similar_count(v, p, 0.5, metric="sql2"), [lambda d: [0.5, 1.0] * d.height, lambda d: [0.1 * k for k in range(d.height + 1)]], [lambda d: [0.1 * k for k in range(d.height)], lambda d: [0.1 * k for k in range(d.height - 1)]])
case("similar_count metric", lambda d, v: pds.query_similar_count([1.0, 2.0, 0.0], p, 0.5, metric=v), word("sql2", "sqzl2") + ["l2", "l1"], ["sql2", "sqzl2"])
case("first_digit is numeric", lambda d, v: pds.query_first_digit_cnt(v), ["s"], ["p", "i"])
case("streak", lambda d, v: pds.query_longest_streak(v), ["s"], [p > 0])
# ---- statistics
case("f_test features", lambda d, v: pds.f_test(*v, group="z"), [()], [("p",), ("p", "q")])
case("f_test one class", lambda d, v: pds.f_test("p", group=v), [z * 0], [z])
case("winsorize q_low", lambda d, v: PS_.winsorize(p, v, 0.9), [*in01, 0.9, 0.95], [0.05, 1e-9, 0.89])
case("winsorize q_high", lambda d, v: PS_.winsorize(p, 0.1, v), [*in01, 0.1, 0.05], [0.95, 0.999, 0.11])
case("perturb epsilon", lambda d, v: pds.perturb(p, v), [INF, -INF, NAN], [0.0, 1e-3, 5.0])
case("jitter std", lambda d, v: pds.jitter(p, v), [-1, -1e-9, INF, NAN, Far(lambda g: -float(g.exponential())), Far(lambda g: -int(g.integers(1, 9)))], [0, 1, 0.0, 0.5])
case("add_noise noise_type", lambda d, v: pds.add_noise(p, v), word("gaussian", "uniform"), ["gaussian", "uniform"])
case("random_null pct", lambda d, v: pds.random_null(p, v), in01, ok01)
case("random_int equal bounds", lambda d, v: pds.random_int(v, v), [0, 5, Far(lambda g: int(g.integers(-99, 99)))], [])
case("random_int bounds", lambda d, v: pds.random_int(0, v), [0], [1, 2, -1])
case("random_str min over max", lambda d, v: pds.random_str(4, v), [], [4, 5])
case("random_binomial n", lambda d, v: pds.random_binomial(v, 0.5), below(0), [1, 2])
case("random_binomial p", lambda d, v: pds.random_binomial(4, v), [*f_below(0.0), *f_above(1.0)], [0.0, 1.0, 0.5])
case("corr method", lambda d, v: pds.corr(p, q, method=v), word("pearson", "kendall"), ["pearson", "spearman", "xi", "kendall", "bicor"])
# ---- strings
case("str_nearest threshold", lambda d, v: pds.str_nearest(s, "abc", threshold=v), below(0), [1, 2])
case("str_nearest metric", lambda d, v: pds.str_nearest(s, "abc", metric=v), word("lv", "hamming") + ["jw"], ["lv", "hamming"])
case("tversky alpha", lambda d, v: pds.str_tversky_sim(s, t, v, 0.5), f_below(0.0), [0.0, 0, 1.5])
case("tversky beta", lambda d, v: pds.str_tversky_sim(s, t, 0.5, v), f_below(0.0), [0.0, 0, 1.5])
case("similar_to_vocab metric", lambda d, v: pds.similar_to_vocab(s, ["ab"], 0.5, metric=v), word("lv", "jw") + ["hamming"], ["lv", "dlv", "osa", "jw"])
case("similar_to_vocab strategy", lambda d, v: pds.similar_to_vocab(s, ["ab"], 0.5, strategy=v), word("avg", "any") + ["mean", "sum"], ["avg", "all", "any"])
case("normalize_string form", lambda d, v: pds.normalize_string(s, form=v), ["nfc", "", "NFX", "NF", "NFKX", "NFKCD"], ["NFC", "NFKC", "NFD", "NFKD"])
for nm in ("str_leven", "str_d_leven", "str_osa", "str_lcs_seq", "str_hamming", "str_jaccard", "str_sorensen_dice", "str_overlap_coeff", "str_jaro", "str_jw", "str_fuzz"):
    fn_ = getattr(pds, nm, None) or getattr(PT_, nm)
    case(nm + " lengths", lambda d, v, fn_=fn_: fn_(s, v), [t.head(2), pl.concat([t, t]), t.head(5)], [t, pl.lit("abc"), t.first()])
    case(nm + " types", lambda d, v, fn_=fn_: fn_(s, v), [p, i], [t])
case("filter_by_levenshtein lengths", lambda d, v: pds.filter_by_levenshtein(s, v, 2), [t.head(2), pl.concat([t, t])], [t, pl.lit("abc")])
case("filter_by_hamming lengths", lambda d, v: pds.filter_by_hamming(s, v, 2), [t.head(2), pl.concat([t, t])], [t, pl.lit("abc")])
# ---- neighbours
for nm, extra in (("query_knn_ptwise", {}), ("query_knn_avg", dict(target=y)), ("query_knn_freq_cnt", dict())):
    fn_ = getattr(pds, nm, None) or getattr(PT_, nm)
    kw_ = extra or dict(index="id")
    if nm != "query_knn_freq_cnt":
        case(nm + " k", lambda d, v, fn_=fn_, kw_=kw_: fn_(p, q, k=v, **kw_), below(0), [1, 2])
    case(nm + " dist", lambda d, v, fn_=fn_, kw_=kw_: fn_(p, q, k=2, dist=v, **kw_), ["cosine", "h", "haversine", "", "unknown", "l3"], ["l1", "l2", "sql2", "inf"])
case("query_radius_ptwise r", lambda d, v: pds.query_radius_ptwise(p, q, index="id", r=v), f_below(0.0, True) + [pl.col("u"), 0], [0.1, 1, 1e-9])
case("query_radius_ptwise dist", lambda d, v: pds.query_radius_ptwise(p, q, index="id", r=0.5, dist=v), ["cosine", "h", "haversine", "", "unknown"], ["l1", "l2", "sql2", "inf"])
case("query_nb_cnt dist", lambda d, v: pds.query_nb_cnt(p, q, r=0.5, dist=v), ["cosine", "h", "haversine", "", "unknown"], ["l1", "l2", "sql2", "inf"])
case("within_dist_from pt", lambda d, v: pds.within_dist_from(p, q, pt=v, r=0.5), [[0.1], [0.1, 0.2, 0.3], []], [[0.1, 0.2], (0.1, 0.2)])
case("within_dist_from dist", lambda d, v: pds.within_dist_from(p, q, pt=[0.1, 0.2], r=0.5, dist=v), word("l1", "sql2"), ["l1", "l2", "sql2", "inf", "cosine", "h", "haversine"])
case("within_dist_from haversine", lambda d, v: pds.within_dist_from(*([p, q, r][:v]), pt=[0.1, 0.2, 0.3][:v], r=0.5, dist="haversine"), [1, 3], [2])
case("is_knn_from pt", lambda d, v: pds.is_knn_from(p, q, pt=v, k=3), [[0.1], [0.1, 0.2, 0.3], []], [[0.1, 0.2], (0.1, 0.2)])
case("is_knn_from dist", lambda d, v: pds.is_knn_from(p, q, pt=[0.1, 0.2], k=2, dist=v), word("l1", "sql2"), ["l1", "l2", "sql2", "inf", "cosine", "h", "haversine"])
case("is_knn_from haversine", lambda d, v: pds.is_knn_from(*([p, q, r][:v]), pt=[0.1, 0.2, 0.3][:v], k=2, dist="haversine"), [1, 3], [2])
case("haversine lengths", lambda d, v: pds.haversine(p, q, v, v), [q.head(3), pl.concat([q, q])], [q, q.first()])
A = lambda d: np.ascontiguousarray(d.select("p", "q").to_numpy())
case("KDTree X", lambda d, v: KDTree(v(d), "l2"), [lambda d: A(d)[:, 0], lambda d: A(d)[None]], [A])
case("KDTree distance", lambda d, v: KDTree(A(d), v), word("l1", "sql2") + ["cosine"], ["l1", "l2", "sql2", "inf"])
case("KDTree knn X", lambda d, v: KDTree(A(d), "l2").knn(v(d), 2), [lambda d: A(d)[:, 0], lambda d: A(d)[None]], [A, lambda d: A(d)[:2]])
case("KDTree add X", lambda d, v: KDTree(A(d), "l2").add(v(d)), [lambda d: A(d)[:, 0], lambda d: A(d)[None]], [A, lambda d: A(d)[:2]])
case("KDTree within X", lambda d, v: KDTree(A(d), "l2").within(v(d), 0.5), [lambda d: A(d)[:, 0], lambda d: A(d)[None]], [A, lambda d: A(d)[:2]])
case("KDTree within r", lambda d, v: KDTree(A(d), "l2").within(A(d), v), ["a", None, {}], [1, 0.5, np.array([0.5])])
case("KDTree within_count X", lambda d, v: KDTree(A(d), "l2").within_count(v(d), 0.5), [lambda d: A(d)[:, 0], lambda d: A(d)[None]], [A, lambda d: A(d)[:2]])
case("KDTree within_count r", lambda d, v: KDTree(A(d), "l2").within_count(A(d), v), ["a", None, {}], [1, 0.5, np.array([0.5])])
# ---- linear models
for nm in ("recursive_lin_reg", "query_recursive_lstsq"):
    case(nm + " start_with", lambda d, v, fn_=getattr(pds, nm): fn_(p, target=y, start_with=v), below(0), [1, 2])
for nm in ("rolling_lin_reg", "query_rolling_lstsq"):
    case(nm + " window_size", lambda d, v, fn_=getattr(pds, nm): fn_(p, target=y, window_size=v), below(1), [2, 3])
    case(nm + " features", lambda d, v, fn_=getattr(pds, nm): fn_(*[p, q, r, u][:v], target=y, window_size=3), [4], [1, 2, 3])
case("lin_reg targets", lambda d, v: pds.lin_reg(p, target=v), [[]], [["y"], ["y", "q"], "y"])
for nm in ("lin_reg", "lin_reg_report", "lin_reg_w_rcond", "recursive_lin_reg"):
    fn_ = getattr(pds, nm, None) or getattr(PT_, nm)
    kw_ = dict(start_with=5) if nm[:3] == "rec" else {}
    case(nm + " nulls under raise", lambda d, v, fn_=fn_, kw_=kw_: fn_(v, q, target=y, null_policy="raise", **kw_), [NUL, q.head(3)], [p])
    case(nm + " unknown null policy", lambda d, v, fn_=fn_, kw_=kw_: fn_(NUL, q, target=y, null_policy=v, **kw_), ["unknown", "", "skipp"], ["skip"] + (["zero", "1.5"] if nm != "lin_reg_w_rcond" else []))
case("lin_reg multi nulls in a target under fill", lambda d, v: pds.lin_reg(p, target=["y", v], null_policy="zero"), [NUL.alias("nn")], [q.alias("nn")])
case("lin_reg more features than rows", lambda d, v: pds.lin_reg(p.head(v), q.head(v), r.head(v), target=y.head(v)), [1, 2, 0], [3, 4])
case("lin_reg weights", lambda d, v: pds.lin_reg(p, q, target=y, weights=v), [u.head(4), pl.concat([u, u])], [u + 0.1])
case("ElasticNet regularisation", lambda d, v: LM.ElasticNet(*v), [(0.0, 0.0), (-1.0, 0.0), (0.0, -1e-9), (-0.5, -0.5)], [(1e-9, 0.0), (0.0, 1e-9), (0.1, 0.2)])
XY = lambda d, h=None: (np.where(np.arange(d.height)[:, None] == (h if h is not None else -1), np.nan, A(d)), d["y"].to_numpy())
for nm, mk in (("LR", lambda: LM.LR()), ("ElasticNet", lambda: LM.ElasticNet(0.01, 0.1))):
    case(nm + " nulls under raise", lambda d, v, mk=mk: mk().fit(*XY(d, v), null_policy="raise"), [0, 3], [None])
    case(nm + " frame nulls under raise", lambda d, v, mk=mk: mk().fit_df(d.select(v.alias("p"), "q", "y"), ["p", "q"], "y", null_policy="raise"), [NUL], [p])
    case(nm + " null policy", lambda d, v, mk=mk: mk().fit(*XY(d, 3), null_policy=v), ["unknown", "", "nan", "inf", "-inf"], ["skip", "zero", "one", "0.5"])
    case(nm + " frame null policy", lambda d, v, mk=mk: mk().fit_df(d.select(NUL.alias("p"), "q", "y"), ["p", "q"], "y", null_policy=v), ["unknown", "", "nan", "inf", "-inf"], ["skip", "zero", "one", "0.5"])
    case(nm + " prediction without names", lambda d, v, mk=mk: (mk().fit(*XY(d)) if v else mk().fit_df(d, ["p", "q"], "y")).predict_df(d), [True], [False])
    case(nm + " prediction before a fit", lambda d, v, mk=mk: (mk() if v else mk().fit(*XY(d))).predict(A(d)), [True], [False])
case("OnlineLR nulls", lambda d, v: LM.OnlineLR().fit(*XY(d, v)), [0, 3], [None])
case("OnlineLR update before a fit", lambda d, v: (LM.OnlineLR() if v else LM.OnlineLR().fit(*XY(d))).update(A(d)[0], d["y"].to_numpy()[0]), [True], [False])
# ---- modelling
Q = dict(
    q_low=([*f_below(0.0), *f_above(1.0), 0.8, float(np.nextafter(0.8, 1.0)), 1.0], [0.0, 0.1, 0.79]),
    q_high=([*f_below(0.0), *f_above(1.0), 0.2, float(np.nextafter(0.2, 0.0)), 0.0], [1.0, 0.9, 0.21]))
for nm in ("robust_scale", "winsorize"):
    case(f"transforms.{nm} q_low", lambda d, v, fn_=getattr(T, nm): fn_(d, ["p"], q_low=v, q_high=0.8), *Q["q_low"])
    case(f"transforms.{nm} q_high", lambda d, v, fn_=getattr(T, nm): fn_(d, ["p"], q_low=0.2, q_high=v), *Q["q_high"])
    case(f"Blueprint.{nm} q_low", lambda d, v, nm=nm: getattr(Blueprint(d, name="x"), nm)(["p"], q_low=v, q_high=0.8).materialize(), *Q["q_low"])
case("transforms.impute method", lambda d, v: T.impute(d, ["p"], method=v), word("mean", "mode") + ["zero"], ["mean", "median", "mode"])
case("transforms.conditional_impute method", lambda d, v: T.conditional_impute(d, rules_dict={"p": p > 0}, method=v), word("mean", "mode"), ["mean", "median", "mode"])
case("transforms.scale method", lambda d, v: T.scale(d, ["p"], method=v), word("standard", "min_max") + ["robust"], ["standard", "min_max", "abs_max"])
case("Blueprint.impute method", lambda d, v: Blueprint(d, name="x").impute(["p"], method=v).materialize(), word("mean", "mode") + ["zero"], ["mean", "median", "mode"])
case("Blueprint.scale method", lambda d, v: Blueprint(d, name="x").scale(["p"], method=v).materialize(), word("standard", "min_max"), ["standard", "min_max", "abs_max"])
case("one_hot_encode columns", lambda d, v: T.one_hot_encode(d, v), [["p"], ["p", "i"]], [["s"], ["s", "t"]])
case("rank_hot_encode ranking", lambda d, v: T.rank_hot_encode("s", v), [[], ["a"]], [["a", "b"], ["a", "b", "c"]])
case("target_encode columns", lambda d, v: T.target_encode(d, v, "z"), [["p"], ["p", "i"]], [["s"], ["s", "t"]])
case("target_encode default", lambda d, v: T.target_encode(d, ["s"], "z", default=v), ["median", "", "unknown", [1], {}], ["null", "zero", "mean", 0.5, 1])
case("woe_encode columns", lambda d, v: T.woe_encode(d, v, "z"), [["p"], ["p", "i"]], [["s"], ["s", "t"]])
case("iv_encode columns", lambda d, v: T.iv_encode(d, v, "z"), [["p"], ["p", "i"]], [["s"], ["s", "t"]])
case("polynomial_features degree", lambda d, v: T.polynomial_features(["p", "q"], v), below(1), [2, 3])
case("Blueprint.polynomial_features columns", lambda d, v: Blueprint(d, name="x").polynomial_features(v, 2), [[p, q], ["p", q]], [["p", "q"]])
case("Blueprint target", lambda d, v: Blueprint(d, name="x", target=v).target_encode(["s"]).materialize(), [None], ["z"])
case("Blueprint step from a dict", lambda d, v: Blueprint(d, name="x").append_step_from_dict(v).materialize(), [{"name": "nothing"}, {"name": "_get_target"}, {"name": "__init__"}, {"name": 3}, {}, {"name": "scale", "args": {}}, {"name": "scale", "args": [["p"]], "kwargs": []}, {"name": "scale", "args": [["p"]], "kwargs": {3: 4}}, {"args": []}], [{"name": "scale", "args": [["p"]]}, {"name": "scale", "args": [["p"]], "kwargs": {"method": "min_max"}}, {"name": "nan_to_null"}])
case("Blueprint.append_expr", lambda d, v: Blueprint(d, name="x").append_expr(v).materialize(), [3, None], [p, q * 2])


def pipe(d, **k):
    return Blueprint(d.select("p", "q"), name="x", **k).scale(["p"]).materialize()


case("Pipeline.transform features", lambda d, v: pipe(d).ensure_features_io().transform(d.select(v)), [["q"], ["p"], ["p", "q", "r"]], [["p", "q"], ["q", "p"]])
case("Pipeline.transform features, lazy", lambda d, v: pipe(d).ensure_features_io().transform(d.select(v).lazy(), return_lazy=True), [["q"], ["p"], ["p", "q", "r"]], [["p", "q"], ["q", "p"]])
case("Pipeline.transform missing features", lambda d, v: pipe(d).ensure_features_io(ensure_in=False).transform(d.select(v)), [["q"], ["p"]], [["p", "q"], ["p", "q", "r"]])
case("Pipeline.transform separate", lambda d, v: pipe(d, target=v).transform(d.select("p", "q"), separate=True), [None], ["q"])
case("Pipeline.from_dict", lambda d, v: Pipeline.from_dict({k: x for k, x in pipe(d).to_dict().items() if k != v}), ["name", "target", "transforms", "ensure_features_in", "ensure_features_out", "feature_names_in_", "feature_names_out_"], ["lowercase", "uppercase", "none"])
# ---- sampling, partitions, diagnosis
case("sample rate", lambda d, v: SS.sample(d, v), in01, ok01)
case("sample count", lambda d, v: SS.sample(d, v), below(0), [1, 2, 10**6])
case("sample type", lambda d, v: SS.sample(d, v), ["a", None, [1]], [3, 0.5])
case("downsample rate", lambda d, v: SS.downsample(d, (z == 1, v)), in01, ok01)
case("downsample count", lambda d, v: SS.downsample(d, (z == 1, v)), below(0), [1, 2, 10**6])
case("split_by_ratio", lambda d, v: SS.split_by_ratio(d, v), [*in01, [0.5, 0.4], [0.5, 0.6], [0.2, 0.3, 0.4], [1.0], [0.0], [0.5, 0.5 + 1e-6]], [0.5, 1e-3, 0.999, [0.5, 0.5], [0.2, 0.3, 0.5], [0.3], [0.1] * 10])
case("random_cols k", lambda d, v: SS.random_cols(list("abcdef"), v), above(6), [1, 5, 6])
case("random_cols k beside keep", lambda d, v: SS.random_cols(list("abcdef"), v, keep=["a", "b"]), above(4), [1, 3, 4])
case("PartitionHelper by", lambda d, v: PartitionHelper(d, by=v), ["p", "i", ["s", "p"]], ["s", ["s", "t"], "bo"])
case("PartitionHelper names", lambda d, v: PartitionHelper(pl.DataFrame(v), by=["a", "b"]), [{"a": ["x|y", "x"], "b": ["z", "y|z"]}], [{"a": ["xy", "x"], "b": ["z", "y|z"]}])
case("DIA infer_k_distinct", lambda d, v: DIA(d).infer_k_distinct(v), below(0), [1, 2])
case("DIA.col_validation", lambda d, v: DIA(d).col_validation((v, "no")), [p > 0, u >= 0], [(p > 0).all(), u.min() >= 0])
case("DIA.row_validation", lambda d, v: DIA(d).row_validation(*((p > k, m) for k, m in enumerate(v))), [["a", "a"], ["a", "b", "a"]], [["a", "b"], ["a"], ["a", "b", "A"]])
case("DIA.plot_feature_distr", lambda d, v: DIA(d).plot_feature_distr(v), ["s", "bo"], ["p", "i"])
case("plot_feature_distr n_bins", lambda d, v: PL_.plot_feature_distr(feature="p", df=d, n_bins=v), below(2), [3, 4])
case("plot_feature_distr feature", lambda d, v: PL_.plot_feature_distr(feature="p" if v[0] else d["p"], df=d if v[1] else None, over="s" if v[2] else None), [(1, 0, 0), (1, 0, 1), (0, 0, 1)], [(1, 1, 0), (1, 1, 1), (0, 0, 0)])
case("plot_pca features", lambda d, v: PL_.plot_pca(d, v, "s"), [["p"], []], [["p", "q"], ["p", "q", "r"]])
case("plot_pca dim", lambda d, v: PL_.plot_pca(d, ["p", "q", "r"], "s", dim=v), [0, 1, 3, 4], [2])
U = lambda d, n=0: d["u"].slice(n)
for nm, o, oo in (("plot_prob_calibration", "score", "scores"), ("plot_roc_auc", "pred", "preds")):
    fn_ = getattr(PL_, nm)
    case(nm + " one score", lambda d, v, fn_=fn_, o=o: fn_(target=d["z"], **{o: U(d, v[0])}, name=v[1]), [(0, None), (1, "a")], [(0, "a")])
    case(nm + " several scores", lambda d, v, fn_=fn_, oo=oo: fn_(target=d["z"], **{oo: None if v[0] is None else [U(d, k) for k in v[0]]}, names=v[1]), [(None, None), ((0,), None), (None, ["a"]), ((0, 0), ["a"]), ((0,), ["a", "b"]), ((0, 1), ["a", "b"])], [((0,), ["a"]), ((0, 0), ["a", "b"])])
case("compat needs an argument", lambda d, v: compat.query_cv(*[d[k] for k in v]) if v else compat.query_cv(), [()], [("p",)])
case("compat names", lambda d, v: getattr(compat, v), ["str_to_expr", "pl", "frame", "warn_len_compare", "__version__"], [])

# ---- warnings: name -> (category, call, values that warn, values that do not)
W = {}
DEP = DeprecationWarning
for nm, kw_ in (("lstsq", {}), ("lstsq_w_rcond", {}), ("lstsq_report", {}), ("recursive_lstsq", dict(start_with=3)), ("rolling_lstsq", dict(window_size=3))):
    new = {"lstsq": "lin_reg", "lstsq_w_rcond": "lin_reg_w_rcond", "lstsq_report": "lin_reg_report", "recursive_lstsq": "recursive_lin_reg", "rolling_lstsq": "rolling_lin_reg"}[nm]
    W["query_" + nm] = (DEP, lambda d, v, kw_=kw_: getattr(pds, v)(p, q, target=y, **kw_), ["query_" + nm], [new])
W["normalize_string"] = (DEP, lambda d, v: pds.normalize_string(s, form="NFC") if v else s.str.normalize("NFC"), [1], [0])
W["recursive_lin_reg start_with"] = (UserWarning, lambda d, v: pds.recursive_lin_reg(p, q, r, target=y, start_with=v), [1, 2], [3, 4, 9])
W["rolling_lin_reg min_valid_rows"] = (UserWarning, lambda d, v: pds.rolling_lin_reg(p, q, r, target=y, window_size=5, min_valid_rows=v), [1, 2], [3, 4, 5, None])
W["within_dist_from pt without a length"] = (UserWarning, lambda d, v: pds.within_dist_from(p, q, pt=iter(v) if isinstance(v, tuple) else v, r=0.5), [(0.1, 0.2)], [[0.1, 0.2]])
W["KDTree memory layout"] = (UserWarning, lambda d, v: KDTree(v(A(d)), "l2"), [np.asfortranarray], [np.ascontiguousarray])


def _part(name, df):
    if name == "ab":
        raise KeyError("part")
    return name


W["PartitionHelper.apply"] = (UserWarning, lambda d, v: PartitionHelper(d.filter(s.is_in(v)), by="s").apply(_part), [["a", "ab"], ["ab"]], [["a", "b"], ["abc"]])
W["DIA.infer_dependency of one column"] = (UserWarning, lambda d, v: DIA(d).infer_dependency(v), [["s"], ["s", "p"], ["s", "t", "p"]], [["s", "t"]])
WNAMES = sorted(W)

for k in [k for k, v in R.items() if not v[1]]:
    del R[k]
NAMES = sorted(R)


def frame(n, seed):
    g = rng(seed)
    W = ["a", "b", "ab", "abc", "ba", "c"]
    z_ = [0, 1, 1, 0] + [int(x) for x in g.integers(0, 2, n - 4)]
    return pl.DataFrame({
        "p": g.normal(size=n).round(3), "q": g.normal(size=n).round(3), "r": g.normal(size=n).round(3), "u": g.random(n).round(3), "y": g.normal(size=n).round(3),
        "i": [int(x) for x in g.integers(1, 12, n)], "z": z_, "s": ["a", "b", "ab", "abc"] + [W[k] for k in g.integers(0, 6, n - 4)], "t": ["b", "ab", "a", "c"] + [W[k] for k in g.integers(0, 6, n - 4)],
        "bo": [bool(x) for x in z_], "dates": pl.Series([int(x) for x in g.integers(0, 9999, n)]).cast(pl.Date)}).with_row_index("id")


def attempt(fn, d, v, ctx):
    """None when a result comes back, else the error."""
    try:
        x = fn(d, v)
        if isinstance(x, pl.Expr):
            x = d.lazy().select(x.alias("o")).collect() if ctx else d.select(x.alias("o"))
        elif isinstance(x, list) and x and all(isinstance(e, pl.Expr) for e in x):
            d.select(x)
        elif x is NotImplemented:
            return TypeError("not implemented")
    except Exception as e:
        return e
    except BaseException as e:
        if type(e).__name__ != "PanicException":
            raise
        return e
    return None


def resolve(v, d, g):
    if isinstance(v, Far):
        v = v.f(g)
    return v


LAMBDAS = ("combinations k", "similar_count query longer than the series")


@law(st.tuples(st.sampled_from(NAMES), st.booleans(), st.integers(0, 40), st.sampled_from([12, 14, 20, 41]), seeds, st.booleans()), n=2500, rule="always: a value is refused or accepted")
def arguments(c):
    name, bad, pick, n, seed, ctx = c
    fn, bads, goods = R[name]
    vals_ = bads if bad or not goods else goods
    bad = vals_ is bads
    d = frame(n, seed)
    v = resolve(vals_[pick % len(vals_)], d, rng(seed + 1))
    if name in LAMBDAS and callable(v):
        v = v(d)
    err = attempt(fn, d, v, ctx)
    if bad and err is None:
        fail(f"{name}: {v!r} is accepted")
    if err is not None and type(err).__name__ == "PanicException":
        fail(f"{name}: {v!r} panics", error=str(err)[:200])
    if not bad and err is not None:
        fail(f"{name}: {v!r} is refused", error=f"{type(err).__name__}: {err}"[:300])
    return name + (": refused" if bad else ": accepted")


@law(st.tuples(st.sampled_from(WNAMES), st.integers(0, 40), st.sampled_from([12, 20]), seeds), n=300, rule="always: a call warns or does not")
def cautions(c):
    name, pick, n, seed = c
    cat, fn, loud, quiet = W[name]
    v = (loud + quiet)[pick % len(loud + quiet)]
    d = frame(n, seed)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        fn(d, v)
    seen = [x for x in seen if issubclass(x.category, cat)]
    want = pick % len(loud + quiet) < len(loud)
    if bool(seen) != want:
        fail(f"{name}: {v!r} " + ("gives no warning" if want else f"gives a warning: {seen[0].message}"))
    return name + (": warns" if want else ": quiet")
