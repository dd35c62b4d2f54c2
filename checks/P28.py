"""Options: left out, an option has its documented default; spelled out or given by position, it has the value given."""
import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import polars_ds.exprs.metrics as PM_
    import polars_ds.exprs.num as PN_
    import polars_ds.exprs.stats as PS_
    import polars_ds.exprs.string as PT_
    import polars_ds.exprs.ts_features as PF_
    import polars_ds.linear_models as LM
    import polars_ds.sample_and_split as SS
    from polars_ds.modeling import transforms as T
    from polars_ds.modeling.pipeline import Blueprint, Pipeline
    from polars_ds.eda.diagnosis import DIA
    from polars_ds.partition import PartitionHelper
    from polars_ds.spatial import KDTree
from checks import catalog as K
from checks.common import *

warnings.filterwarnings("ignore")
p, q, r, w, y, i, j, z, s, t, u, f, cls, b, seg, words, h, v1, v2 = (pl.col(k) for k in ("p", "q", "r", "w", "y", "i", "j", "z", "s", "t", "u", "f", "cls", "b", "seg", "words", "h", "v1", "v2"))
E = {}
NO = object()


def opt(name, fn, args, kw=None, pos=False, **options):
    """An expression; options: name -> (documented default, another value), in the documented order."""
    k = name
    n = 2
    while k in E:
        k, n = f"{name}#{n}", n + 1
    E[k] = ("expr", fn, args, kw or {}, pos, options)


def run(name_, fn_, /, **options):
    """A function of the frame and the options, to plain data; pos: options that can be given by position after the frame."""
    E[name_] = ("frame", fn_, (), {}, False, options)


e = 2.718281828459045
opt("add_noise", lambda x, **k: pds.jitter(x, seed=4, **k), (p,), std=(1.0, 0.25))
opt("bicor", pds.bicor, (p, q), c=(9.0, 2.0), pos=True)
opt("chi2", pds.chi2, ("cls", "z"), return_full=(False, True), pos=True)
opt("combinations", pds.combinations, ("cls", 2), unique=(False, True), pos=True)
opt("convolve", pds.convolve, ("hole", [0.5, 0.25, -0.1]), fill_value=(0.0, 2.0), method=("direct", NO), mode=("full", "left"), pos=True)
opt("convolve", pds.convolve, ("hole", [0.5, 0.25, -0.1]), mode=("full", "same"), fill_value=(0.0, 2.0))
opt("convolve", pds.convolve, ("hole", [0.5, 0.25, -0.1]), dict(mode="left"), fill_value=(0.0, 2.0))
opt("corr", pds.corr, (p, q), method=("pearson", "spearman"), pos=True)
opt("detrend", pds.detrend, (y,), method=("linear", "mean"), pos=True)
opt("extract_numbers", pds.extract_numbers, (words,), ignore_comma=(False, True), join_by=("", "-"), dtype=(pl.String, pl.Int64), pos=True)
opt("filter_by_hamming", pds.filter_by_hamming, (s, t, 2), pad=(False, NO), pos=True)
opt("info_value", pds.info_value, (p, z), n_bins=(10, 3), return_sum=(True, False), pos=True)
opt("info_value_discrete", pds.info_value_discrete, (s, z), return_sum=(True, False), pos=True)
for nm in ("is_increasing", "is_decreasing"):
    opt(nm, getattr(pds, nm), (pl.col("steps") * (1 if nm[3] == "i" else -1),), strict=(False, True), pos=True)
opt("is_knn_from", pds.is_knn_from, (p, q), dict(pt=[0.4, -0.1], k=4), dist=("sql2", "l1"))
opt("within_dist_from", pds.within_dist_from, (p, q), dict(pt=[0.4, -0.1], r=0.8), dist=("sql2", "l1"))
opt("isotonic_regression", pds.isotonic_regression, (y,), weights=(None, w), increasing=(True, False), pos=True)
opt("jaccard_col", pds.jaccard_col, (i, pl.col("i3")), count_null=(False, True), pos=True)
for nm in ("l1_horizontal", "l2_sq_horizontal", "l_inf_horizontal"):
    opt(nm, getattr(pds, nm), (p, q, r), normalize=(False, True))
for nm in ("lin_reg", "query_lstsq"):
    fn = getattr(pds, nm)
    opt(nm, fn, (p, q), dict(target=y), add_bias=(False, True), weights=(None, w), return_pred=(False, True), l1_reg=(0.0, 0.05), l2_reg=(0.0, 0.4))
    opt(nm, fn, (p, q), dict(target=y, l2_reg=0.4), add_bias=(False, True), solver=("qr", NO), return_pred=(False, True))
    opt(nm, fn, (p, q), dict(target=y, l1_reg=0.02), tol=(1e-5, 0.3))
    opt(nm, fn, ("hole", q), dict(target=y), null_policy=("skip", "zero"), return_pred=(False, True))
opt("lin_reg multi", pds.lin_reg, (p, q), dict(target=[y, r]), add_bias=(False, True), return_pred=(False, True), l2_reg=(0.0, 0.4))
for nm in ("lin_reg_report", "query_lstsq_report"):
    opt(nm, getattr(pds, nm), (p, q), dict(target=y), weights=(None, w), add_bias=(False, True))
    opt(nm, getattr(pds, nm), ("hole", q), dict(target=y), null_policy=("raise", "skip"))
opt("lin_reg_report se", pds.lin_reg_report, (p, q), dict(target=y), add_bias=(False, True), std_err=("se", "hc1"))
for nm in ("lin_reg_w_rcond", "query_lstsq_w_rcond"):
    opt(nm, getattr(pds, nm), (p, q, r), dict(target=y), add_bias=(False, True), rcond=(0.0, 0.9), l2_reg=(0.0, 0.4))
    opt(nm, getattr(pds, nm), ("hole", q), dict(target=y), null_policy=("raise", "skip"))
for nm in ("recursive_lin_reg", "query_recursive_lstsq"):
    opt(nm, getattr(pds, nm), (p, q), dict(target=y, start_with=4), add_bias=(False, True), l2_reg=(0.0, 0.4))
    opt(nm, getattr(pds, nm), ("hole", q), dict(target=y, start_with=4), null_policy=("raise", "skip"))
for nm in ("rolling_lin_reg", "query_rolling_lstsq"):
    opt(nm, getattr(pds, nm), (p, q), dict(target=y, window_size=5), add_bias=(False, True), l2_reg=(0.0, 0.4))
    opt(nm, getattr(pds, nm), ("hole", q), dict(target=y, window_size=5), null_policy=("raise", "skip"))
    opt(nm, getattr(pds, nm), ("hole", q), dict(target=y, window_size=6, null_policy="skip"), min_valid_rows=(None, 6))
opt("simple_lin_reg", pds.simple_lin_reg, (p,), dict(target=y), add_bias=(False, True), weights=(None, w), return_pred=(False, True))
opt("simple_lin_reg by position", pds.simple_lin_reg, (p, y), add_bias=(False, True), weights=(None, w), return_pred=(False, True), pos=True)
opt("ks_2samp", pds.ks_2samp, (p, q), alpha=(0.05, 0.4), pos=True)
opt("ks_2samp", pds.ks_2samp, (z, p), is_binary=(False, True))
opt("mann_whitney_u", pds.mann_whitney_u, (p, q), alternative=("two-sided", "less"), pos=True)
opt("normalize_whitespace", pds.normalize_whitespace, (words,), only_spaces=(False, True), pos=True)
opt("pca", pds.pca, (p + 1, q, r), center=(True, False))
opt("principal_components", pds.principal_components, (p + 1, q, r), k=(2, 1), center=(True, False))
opt("singular_values", pds.singular_values, (p + 1, q, r), center=(True, False), as_explained_var=(False, True), as_ratio=(False, True))
opt("perturb", pds.perturb, (p,), dict(seed=3), epsilon=(1e-5, 1.0), positive=(False, True))
opt("psi", pds.psi, (p, q), n_bins=(10, 3), return_report=(False, True), pos=True)
opt("psi_discrete", pds.psi_discrete, (s, t), return_report=(False, True), pos=True)
opt("query_approx_entropy", pds.query_approx_entropy, (p * 3, 2, 0.3), scale_by_std=(True, False), pos=True)
opt("query_ar_coeffs", pds.query_ar_coeffs, (y, 2), add_bias=(True, False), pos=True)
opt("query_ar_coeffs", pds.query_ar_coeffs, ("hole", 2), null_policy=("raise", "skip"))
opt("query_auto_corr", pds.query_auto_corr, (y, 2), ddof=(0, 1), normalize=(True, False), pos=True)
opt("query_binary_metrics", pds.query_binary_metrics, (z, u), threshold=(0.5, 0.3), pos=True)
opt("query_cat_cross_entropy", pds.query_cat_cross_entropy, (cls, "pr"), normalize=(True, False), pos=True)
opt("query_cat_cross_entropy", pds.query_cat_cross_entropy, ("hot", "pr"), dict(dense=False), normalize=(True, False))
opt("query_cat_cross_entropy", pds.query_cat_cross_entropy, (cls, "pr"), normalize=(True, False), dense=(True, NO), pos=True)
opt("query_cid_ce", pds.query_cid_ce, (p * 3,), normalize=(False, True), pos=True)
opt("query_cond_indep", pds.query_cond_indep, (p, q, r), k=(3, 1), pos=True)
opt("query_confusion_matrix", pds.query_confusion_matrix, (z, u), threshold=(0.5, 0.3), all_metrics=(False, True), pos=True)
opt("query_copula_entropy", pds.query_copula_entropy, (p, q), k=(3, 1))
opt("query_cv", pds.query_cv, (w,), ddof=(1, 0), pos=True)
knn = dict(dist=("sql2", "l1"), epsilon=(0.0, 0.5), max_bound=(99999.0, 0.3))
opt("query_dist_from_kth_nb", pds.query_dist_from_kth_nb, (p, q), dict(k=2), dist=("sql2", "l1"), max_bound=(99999.0, 0.3))
opt("query_knn_avg", pds.query_knn_avg, (p, q), dict(target=y, k=3), dist=("sql2", "l1"), weighted=(False, True), max_bound=(99999.0, 0.3))
opt("query_knn_avg", pds.query_knn_avg, (pl.col("cls").cast(pl.Float64), pl.col("z").cast(pl.Float64)), dict(target=y, k=3, weighted=True), min_bound=(1e-9, 2.0))
opt("query_knn_freq_cnt", pds.query_knn_freq_cnt, (p, q), dict(index="id", k=3), dist=("sql2", "l1"), eval_mask=(None, z == 1), data_mask=(None, z == 1), max_bound=(99999.0, 0.3))
opt("query_knn_ptwise", pds.query_knn_ptwise, (p, q), dict(index="id", k=3), dist=("sql2", "l1"), return_dist=(False, True), eval_mask=(None, z == 1), data_mask=(None, z == 1), max_bound=(99999.0, 0.3))
opt("query_knn_entropy", pds.query_knn_entropy, (p, q), k=(3, 1), dist=("l2", "inf"))
opt("query_nb_cnt", pds.query_nb_cnt, (p, q), dict(r=0.6), dist=("sql2", "l1"))
opt("query_radius_freq_cnt", pds.query_radius_freq_cnt, (p, q), dict(index="id", r=0.6), dist=("sql2", "l1"))
opt("query_radius_ptwise", pds.query_radius_ptwise, (p, q), dict(index="id", r=0.9), dist=("sql2", "l1"), sort=(True, NO))
opt("query_entropy", pds.query_entropy, ("cls",), base=(e, 2.0), normalize=(True, False), pos=True)
for nm in ("l1", "l2", "log_cosh", "msle"):
    opt(nm, getattr(PM_, "query_" + nm), (w, w + u), normalize=(True, False), pos=True)
opt("query_log_loss", pds.query_log_loss, (z, u), normalize=(True, False), pos=True)
opt("query_lempel_ziv", pds.query_lempel_ziv, (p > 0,), as_ratio=(True, False), pos=True)
opt("query_mad", pds.query_mad, (w * w,), use_mean=(True, False), pos=True)
opt("query_mape", pds.query_mape, (w, w + u), weighted=(False, True), pos=True)
opt("query_mase", pds.query_mase, (y, p, y * y), freq=(1, 2), use_mean=(True, False), pos=True)
opt("query_multi_roc_auc", pds.query_multi_roc_auc, (cls, "pr", 3), strategy=("weighted", "macro"), pos=True)
opt("query_permute_entropy", pds.query_permute_entropy, (p,), tau=(1, 2), n_dims=(3, 2), base=(e, 2.0), pos=True)
opt("query_sample_entropy", pds.query_sample_entropy, ("wave",), ratio=(0.2, 0.6), m=(2, 1), pos=True)
opt("query_similar_count", pds.query_similar_count, ([0.3, -0.1, 0.5], p, 2.0), metric=("sqzl2", "sql2"), return_ratio=(False, True))
opt("query_transfer_entropy", pds.query_transfer_entropy, (p, q), lag=(1, 2), k=(3, 1), pos=True)
opt("random", pds.random, (), dict(seed=3), lower=(0.0, -2.0), upper=(1.0, 4.0))
for nm, a in (("random", (0.0, 1.0)), ("random_binomial", (9, 0.4)), ("random_exp", (0.7,)), ("random_int", (0, 99)), ("random_normal", (0.0, 1.0)), ("random_str", (1, 4))):
    opt(nm + " length", getattr(pds, nm), a, dict(seed=3), length=(pl.len(), pl.len() - 1))
opt("replace_non_ascii", pds.replace_non_ascii, ("words",), value=("", "?"), pos=True)
opt("rfft", pds.rfft, (p,), n=(None, 9), return_full=(False, True), pos=True)
opt("similar_to_vocab", pds.similar_to_vocab, (s, ["ab", "ba b"], 0.3), metric=("lv", "jw"), strategy=("avg", "any"), pos=True)
for nm, o in (("d_leven", False), ("lcs_seq", True), ("leven", False), ("osa", False)):
    opt("str_" + nm, getattr(pds, "str_" + nm), (s, t), return_sim=(o, not o))
opt("str_hamming", pds.str_hamming, (s, t), pad=(False, True), pos=True)
for nm in ("str_jaccard", "str_sorensen_dice", "str_overlap_coeff"):
    opt(nm, getattr(PT_, nm), (words, pl.col("words").reverse()), substr_size=(2, 1), pos=True)
opt("str_tversky_sim", pds.str_tversky_sim, (words, pl.col("words").reverse(), 0.3, 0.6), substr_size=(2, 1), pos=True)
opt("str_jw", pds.str_jw, (words, pl.col("words") + "x"), weight=(0.1, 0.2), pos=True)
opt("str_nearest", pds.str_nearest, (words, "the cat"), threshold=(100, 1), metric=("lv", "hamming"), pos=True)
opt("str_snowball", pds.str_snowball, ("word",), no_stopwords=(True, False), pos=True)
opt("str_tokenize", lambda *a, **k: pds.str_tokenize(*a, **k).sort(), (words,), pattern=(r"(?u)\b\w\w+\b", "[a-z]"), stem=(False, True), pos=True)
opt("ttest_1samp", pds.ttest_1samp, (p, 0.1), alternative=("two-sided", "less"), pos=True)
opt("ttest_ind", pds.ttest_ind, (p, q * 2), alternative=("two-sided", "less"), equal_var=(False, True), pos=True)
opt("ttest_ind_from_stats", pds.ttest_ind_from_stats, (p, 0.3, 1.2, 40), alternative=("two-sided", "less"), equal_var=(False, True), pos=True)
for nm in ("weighted_mean", "weighted_gmean", "weighted_hmean"):
    opt(nm, getattr(pds, nm), (u, w), is_normalized=(False, True), pos=True)
opt("weighted_var", pds.weighted_var, (p, pl.col("cls") + 1), freq_weights=(False, True), pos=True)
opt("woe", pds.woe, (p, z), n_bins=(10, 3), pos=True)
opt("xi_corr", pds.xi_corr, (p, q), dict(seed=3), return_p=(False, True))
opt("target_encode", PN_.target_encode, (s, z), min_samples_leaf=(20, 3), smoothing=(10.0, 2.0), pos=True)
opt("winsorize", PS_.winsorize, (p,), q_low=(0.05, 0.2), q_high=(0.95, 0.7), method=("nearest", "linear"), pos=True)

X = lambda d: d.select("p", "q").to_numpy()
Y = lambda d: d["y"].to_numpy()


def lr_np(d, null_policy=NO, **k):
    m = LM.LR(**k)
    return m.fit(X(d), Y(d), **({} if null_policy is NO else dict(null_policy=null_policy))).coeffs().tolist() + [m.bias()]


def lr_df(d, name=NO, null_policy=NO, show_report=NO, **k):
    m = LM.LR(**k)
    kw = {a: v for a, v in (("null_policy", null_policy), ("show_report", show_report)) if v is not NO}
    m.fit_df(d.select("hole", "q", "y"), ["hole", "q"], "y", **kw)
    return m.predict_df(d.select("p", hole="p", q="q"), **({} if name is NO else dict(name=name)))


def en_df(d, name=NO, null_policy=NO, **k):
    m = LM.ElasticNet(0.02, 0.05, **k)
    m.fit_df(d.select("hole", "q", "y"), ["hole", "q"], "y", **({} if null_policy is NO else dict(null_policy=null_policy)))
    return m.predict_df(d.select("p", hole="p", q="q"), **({} if name is NO else dict(name=name)))


def en_np(d, null_policy=NO, **k):
    m = LM.ElasticNet(0.02, 0.05, **k)
    return m.fit(X(d), Y(d), **({} if null_policy is NO else dict(null_policy=null_policy))).coeffs().tolist()


def online(d, c=NO, **k):
    m = LM.OnlineLR(**k)
    x, t_ = X(d), Y(d)
    m.fit(x[:6], t_[:6])
    for a, bb in zip(x[6:], t_[6:]):
        m.update(a, bb, **({} if c is NO else dict(c=c)))
    return m.coeffs().tolist() + [m.bias()]


def step(name, *a, at=None, out=None):
    """A step of a blueprint, applied to the frame it was fitted on."""
    def go(d, **k):
        bp = Blueprint(d, name="x", target="z", **{v: k.pop(v) for v in list(k) if v in ("lowercase", "uppercase", "exclude")})
        getattr(bp, name)(*a, **k)
        return (out or (lambda x: x))(bp.materialize().transform(d))
    return go


def pipe(d, **k):
    d = d.with_columns(Old=pl.col("q"))
    bp = Blueprint(d.lazy(), name="x", target="z", exclude=["p"], **{v: k.pop(v) for v in ("lowercase", "uppercase") if v in k})
    bp.append_expr(pl.col("q") * 2).append_expr(pl.col("q").alias("new"))
    res = bp.materialize().transform(d, **k)
    return [res.collect()] + [isinstance(res, pl.LazyFrame)] if not isinstance(res, tuple) else [list(map(lambda q_: q_.collect() if isinstance(q_, pl.LazyFrame) else q_, res))]


def exprs(fn, *a):
    def go(d, **k):
        r_ = fn(d, *a, **k)
        return d.select(r_)
    return go


run("LR", lr_np, has_bias=(False, True), lambda_=(0.0, 0.5), solver=("qr", NO))
run("LR by frame", lr_df, has_bias=(False, True), lambda_=(0.0, 0.5), name=("prediction", "out"), null_policy=("skip", "zero"), show_report=(False, NO))
run("ElasticNet", en_np, has_bias=(False, True), tol=(1e-5, 0.5), max_iter=(2000, 1))
run("ElasticNet by frame", en_df, has_bias=(False, True), name=("prediction", "out"), null_policy=("skip", "zero"))
run("OnlineLR", online, lambda_=(0.0, 0.5), has_bias=(False, True), c=(1.0, 0.25))
run("transforms.impute", exprs(T.impute, ["hole", "i"]), method=("mean", "median"))
run("transforms.robust_scale", exprs(T.robust_scale, ["p", "q"]), q_low=(0.25, 0.1), q_high=(0.75, 0.8), method=("midpoint", "nearest"))
run("transforms.scale", exprs(T.scale, ["p", "q"]), method=("standard", "min_max"))
run("transforms.winsorize", exprs(T.winsorize, ["p", "q"]), q_low=(0.05, 0.2), q_high=(0.95, 0.7), method=("nearest", "linear"))
run("transforms.one_hot_encode", exprs(T.one_hot_encode, ["word"]), separator=("_", "-"), drop_first=(False, True))
run("transforms.target_encode", exprs(T.target_encode, ["word"], "z"), min_samples_leaf=(20, 3), smoothing=(10.0, 2.0), default=("null", NO))
run("bp.impute", step("impute", ["hole", "i"]), method=("mean", "median"))
run("bp.cast_bools", step("cast_bools"), to=(pl.UInt8, pl.Float32))
run("bp.int_to_float", step("int_to_float"), f32=(True, False))
run("bp.linear_impute", step("linear_impute", ["p", "q"], "hole"), add_bias=(False, True))
run("bp.scale", step("scale", ["p", "q"]), method=("standard", "min_max"))
run("bp.polynomial_features", step("polynomial_features", ["p", "q"], 2), interaction_only=(True, False))
run("bp.winsorize", step("winsorize", ["p", "q"]), q_low=(0.05, 0.2), q_high=(0.95, 0.7), method=("nearest", "linear"))
run("bp.one_hot_encode", step("one_hot_encode", ["word"]), separator=("_", "-"), drop_first=(False, True), drop_cols=(True, False))
run("bp.rank_hot_encode", step("rank_hot_encode", "level", ["low", "mid", "high"]), drop_cols=(True, False))
run("bp.target_encode", step("target_encode", ["word"]), target=(None, NO), min_samples_leaf=(20, 3), smoothing=(10.0, 2.0))
run("Pipeline", pipe, return_lazy=(False, True), lowercase=(False, True), uppercase=(False, NO))
run("volume_neutral", lambda d, **k: SS.volume_neutral(d, pl.col("seg"), **k).group_by("seg", "cls").len().select(pl.col("len").sum(), pl.col("seg").n_unique()), control=(None, pl.col("cls")), target_volume=(None, 1))
run("random_cols", lambda d, **k: len(SS.random_cols(list("abcdef"), 4, **k)), keep=(None, ["a", "b"]))
run("PartitionHelper", lambda d, separator=NO, n=NO, **k: (lambda h_: [h_.names(), {a: x.to_dict(as_series=False) for a, x in h_.head(**({} if n is NO else dict(n=n))).items()}])(PartitionHelper(d.select("seg", "cls", "p").with_columns(pl.col("cls").cast(pl.String)), by=["seg", "cls"], **({} if separator is NO else dict(separator=separator)))), separator=("|", "-"), n=(5, 1))
run("PartitionHelper whole", lambda d, **k: PartitionHelper(d.select("p"), by=None, **k).names(), whole_df_name=("df", "all"))
NAMES = sorted(E)
# calls whose floats are no options: for number_types only
opt("query_mase by loss", pds.query_mase, (y, p, 2.0), use_mean=(True, False))
opt("query_hubor_loss", PM_.query_hubor_loss, (y, p, 1.0))
opt("query_range_count", PF_.query_range_count, (p * 3, -1.0, 2.0))
opt("integrate_trapz", pds.integrate_trapz, (y, 2.0))
opt("haversine", pds.haversine, (p, q, 41.0, -1.0))
opt("random_null", pds.random_null, (p, 0.3), dict(seed=3))
opt("jitter by number", lambda x, **k: pds.jitter(x, seed=4, **k), (p,), std=(2.0, 0.25))
opt("random_exp", pds.random_exp, (2.0,), dict(seed=3))
opt("random_normal", pds.random_normal, (1.0, 2.0), dict(seed=3))
opt("random_binomial", pds.random_binomial, (9, 0.4), dict(seed=3))
opt("ttest_1samp by number", pds.ttest_1samp, (p, 1.0))
opt("ttest_ind_from_stats by number", pds.ttest_ind_from_stats, (p, 1.0, 2.0, 40))
opt("within_dist_from by number", pds.within_dist_from, (p, q), dict(pt=[1.0, 0.25], r=2.0))
opt("is_knn_from by number", pds.is_knn_from, (p, q), dict(pt=[1.0, 0.25], k=3))
opt("query_radius_ptwise by number", pds.query_radius_ptwise, (p, q), dict(index="id", r=1.0))
opt("query_nb_cnt by number", pds.query_nb_cnt, (p, q), dict(r=1.0))
opt("query_radius_freq_cnt by number", pds.query_radius_freq_cnt, (p, q), dict(index="id", r=1.0))
opt("query_knn_ptwise by number", pds.query_knn_ptwise, (p, q), dict(index="id", k=3, epsilon=1.0, max_bound=2.0))
opt("query_knn_avg by number", pds.query_knn_avg, (p, q), dict(target=y, k=3, weighted=True, max_bound=2.0, min_bound=1.0))
opt("query_similar_count by number", pds.query_similar_count, ([1.0, 0.0, 2.0], p * 2, 2.0), metric=("sqzl2", "sql2"))
opt("str_tversky_sim by number", pds.str_tversky_sim, (words, pl.col("words").reverse(), 1.0, 2.0))
opt("similar_to_vocab by number", pds.similar_to_vocab, (s, ["ab", "ba b"], 1.0))
opt("psi by numbers", pds.psi, (p, [0.1, -1.0, 2.0, 0.0, 0.7]), n_bins=(3, 2))
opt("psi_w_breakpoints", PN_.psi_w_breakpoints, (p, q), dict(breakpoints=[-1.0, 0.0, 0.5]))
opt("convolve by numbers", pds.convolve, (y, [1.0, 0.5, -2.0]))
opt("winsorize by number", PS_.winsorize, (p,), q_low=(0.1, 0.2), q_high=(0.9, 0.7))
opt("lin_reg by number", pds.lin_reg, (p, q), dict(target=y, l2_reg=1.0))
opt("lin_reg by numbers", pds.lin_reg, (p, q), dict(target=y, l1_reg=0.02, l2_reg=1.0))
run("ElasticNet regs", lambda d, **k: LM.ElasticNet(**k).fit(X(d), Y(d)).coeffs().tolist(), l1_reg=(0.02, 1.0), l2_reg=(1.0, 0.5), tol=(1e-5, 0.5))
run("LR by number", lambda d, **k: LM.LR(**k).fit(X(d), Y(d)).coeffs().tolist(), lambda_=(2.0, 0.5))


def update(d, y=3.0, c=1.0):
    m = LM.OnlineLR().fit(X(d), Y(d))
    return m.update(X(d)[2] + 1, y, c=c).coeffs().tolist()


def restored(d, bias=2.0):
    return LM.OnlineLR.from_coeffs_bias_inverse([1.5, -0.5], bias, np.eye(3)).predict(X(d)).ravel().tolist()


def tree(d, r=1.0, e_=1.0, m=2.0):
    x = np.ascontiguousarray(X(d))
    t_ = KDTree(x)
    return str([t_.within(x, r, sort=True, return_dist=True), list(t_.within_count(x, r)), t_.knn(x, 3, epsilon=e_, max_dist_bound=m)])


run("OnlineLR.update", update, y=(3.0, 0.5), c=(1.0, -1.0))
run("OnlineLR.from_coeffs_bias_inverse", restored, bias=(2.0, 0.5))
run("transforms.robust_scale by number", exprs(T.robust_scale, ["p", "q"]), q_low=(0.0, 0.1), q_high=(1.0, 0.8))
run("bp.robust_scale by number", step("robust_scale", ["p", "q"]), q_low=(0.0, 0.1), q_high=(1.0, 0.8))
run("bp.target_encode by number", step("target_encode", ["word"]), smoothing=(2.0, 0.5), default=(3.0, 0.25))
run("bp.woe_encode", step("woe_encode", ["word"]), default=(3.0, 0.25))
run("bp.iv_encode", step("iv_encode", ["word"]), default=(3.0, 0.25))
run("sample", lambda d, value: SS.sample(d, value, seed=3), value=(0.5, 0.25))
run("downsample", lambda d, value: SS.downsample(d, (pl.col("cls") == 1, value), seed=3), value=(0.5, 0.25))
run("split_by_ratio", lambda d, split_ratio: SS.split_by_ratio(d, split_ratio, seed=3), split_ratio=(0.5, [0.25, 0.5, 0.25]))
run("volume_neutral by number", lambda d, target_volume: SS.volume_neutral(d, pl.col("seg"), target_volume=target_volume, seed=3), target_volume=(2, 3))
run("DIA.infer_high_null", lambda d, threshold: DIA(d.select("p", "hole", "i", "seg")).infer_high_null(threshold), threshold=(0.25, 0.0))
run("DIA.infer_discrete", lambda d, threshold: sorted(DIA(d.select("p", "seg", "cls", "words")).infer_discrete(threshold, max_val_cnt=2)), threshold=(1.0, 0.25))
run("KDTree", tree, r=(1.0, 0.5), e_=(0.0, 1.0), m=(2.0, 0.5))
ALL = sorted(E)


def frame(n, seed):
    g = rng(seed)
    d = K.frame(n, seed).with_columns(p=pl.col("p").sort_by(pl.col("u")))
    V = ["the cat sat", "a  b\tc", "1,234 cats 5", "é1 ü-2", "Hello, Wörld 77", "the cat", "catty cat", " x 12,3 "]
    W = ["running", "the", "cats", "walked", "and", "hopeful"]
    hole = [None if k % 4 == 2 else float(x) for k, x in enumerate(np.round(g.normal(size=n), 3))]
    return d.with_columns(
        y=pl.col("y") + pl.col("p") * 2 - pl.col("q") + 0.7, b=pl.Series((g.random(n) < 0.5).tolist()), seg=pl.Series([["a", "b"][k] for k in (g.random(n) < 0.35).astype(int)]), words=pl.Series([V[k] for k in g.integers(0, len(V), n)]), word=pl.Series([W[k] for k in g.integers(0, len(W), n)]),
        hole=pl.Series(hole, dtype=pl.Float64), i3=pl.Series([None if g.random() < 0.2 else int(x) for x in g.integers(1, 12, n)], dtype=pl.Int64), i=pl.Series([None if g.random() < 0.2 else int(x) for x in g.integers(1, 12, n)], dtype=pl.Int64),
        steps=pl.Series((np.arange(n) // 2).tolist()), level=pl.Series([["low", "mid", "high"][k] for k in g.integers(0, 3, n)]), wave=pl.Series((np.sin(np.arange(n)) + g.normal(size=n) * 0.1).tolist()),
        hot=pl.Series([[1 if k % 3 == c else 0 for c in range(3)] for k in range(n)]))


def plain(x):
    if isinstance(x, pl.DataFrame):
        return [x.columns, [str(v) for v in x.dtypes], [c.to_list() for c in x.get_columns()]]
    if isinstance(x, pl.Series):
        return [str(x.dtype), x.to_list()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def value(name, d, given, by_pos=False):
    """The result, or the error's type, with these options."""
    kind, fn, args, kw, pos, options = E[name]
    try:
        if kind == "frame":
            return plain(fn(d, **given))
        x = fn(*args, *given.values()) if by_pos else fn(*args, **kw, **given)
        r_ = d.select(x.alias("o")).get_column("o") if not isinstance(x, list) else d.select(x)
        if r_.dtype.is_nested() and name.split("#")[0] in ("woe", "info_value", "info_value_discrete", "psi_discrete", "chi2", "target_encode"):
            return [str(r_.dtype), sorted(map(str, ([{a: round(c, 9) if isinstance(c, float) else c for a, c in v.items()} for v in r_.to_list()] if isinstance(r_.dtype, pl.Struct) else r_.to_list())))]
        return plain(r_)
    except Exception as ex:
        if type(ex).__name__ in ("TypeError", "PanicException"):
            raise
        return "error: " + type(ex).__name__


def same(a, b):
    return K.eqv(a, b, 1e-9, 1e-9)


@law(st.tuples(st.sampled_from(NAMES), st.sampled_from([12, 14, 17, 25, 70]), seeds, st.integers(0, 255), st.integers(0, 255)), n=3000, rule="the result depends on some option")
def defaults(c):
    name, n, seed, pick, change = c
    kind, fn, args, kw, pos, options = E[name]
    d = frame(n, seed)
    before = plain(d)
    # some options changed, some of the others spelled out: as if the others were left out
    changed = {k: v[1] for i_, (k, v) in enumerate(options.items()) if change >> i_ & 1 and v[1] is not NO and pick % 3 == 0}
    spelled = {k: changed.get(k, v[0]) for i_, (k, v) in enumerate(options.items()) if k in changed or pick >> i_ & 1}
    a = value(name, d, changed)
    what = f"{name} with " + (", ".join(f"{k}={v}" for k, v in changed.items()) or "no option")
    full = {k: changed.get(k, v[0]) for k, v in options.items()}
    for how, given in (("all", full), ("some", spelled)):
        b_ = value(name, d, given)
        if not same(a, b_):
            fail(f"{what}: another result with {how} the defaults spelled out ({', '.join(f'{k}={v}' for k, v in given.items() if k not in changed)})", got=str(a)[:300], spelled=str(b_)[:300])
    if pos is True:
        b_ = value(name, d, full, by_pos=True) if not kw else a
        if not same(a, b_):
            fail(f"{what}: another result with options by position {tuple(full.values())}", got=str(a)[:300], by_position=str(b_)[:300])
    if plain(d) != before:
        fail(f"{what}: the frame has changed")
    lab = sorted(k for k, v in options.items() if v[1] is not NO and k not in changed and not same(a, value(name, d, {**changed, k: v[1]})))
    return f"{name}: {','.join(lab)}" if lab else None


def other_number(v, how, ints=False):
    """The same number as another type, inside lists too."""
    if isinstance(v, list):
        return [other_number(x, how, ints) for x in v]
    if type(v) is int and how == "numpy" and ints:
        return np.int64(v)
    if type(v) is float:
        if how == "numpy":
            return np.float64(v)
        return int(v) if v == int(v) else v
    return v


@law(st.tuples(st.sampled_from(ALL), st.sampled_from([12, 14, 17, 25, 70]), seeds, st.integers(0, 255), st.sampled_from(["numpy", "int"])), n=1500, rule="a float argument that changes the result is given as another type of number")
def number_types(c):
    name, n, seed, change, how = c
    kind, fn, args, kw, pos, options = E[name]
    d = frame(n, seed)
    full = {k: (v[1] if change >> i_ & 1 and v[1] is not NO else v[0]) for i_, (k, v) in enumerate(options.items())}
    a = value(name, d, full)
    given = {k: other_number(v, how, k == "target_volume") for k, v in full.items()}
    args2, kw2 = tuple(other_number(v, how) for v in args), {k: other_number(v, how) for k, v in kw.items()}
    E[name] = (kind, fn, args2, kw2, pos, options)
    try:
        b_ = value(name, d, given)
    finally:
        E[name] = (kind, fn, args, kw, pos, options)
    if not same(a, b_):
        fail(f"{name}: another result when its float arguments are given as {'NumPy numbers' if how == 'numpy' else 'whole numbers'} of the same value", options=str(full)[:300], got=str(a)[:300], other=str(b_)[:300])
    lab = [k for k, v in full.items() if type(given[k]) is not type(v)] + (["arguments"] if any(type(x) is not type(y_) or isinstance(x, list) for x, y_ in zip(args, args2)) else []) + [k for k, v in kw.items() if type(kw2[k]) is not type(v) or isinstance(v, list)]
    return f"{name}: {how} {','.join(lab)}" if lab else None


POLICY = ["raise", "skip", "zero", "one", "ignore", "0.5"]
OLDER = {  # older name -> present name, options with several values each
    "query_lstsq": ("lin_reg", dict(add_bias=[False, True], weights=[None, "w"], return_pred=[False, True], l1_reg=[0.0, 0.03], l2_reg=[0.0, 0.3], tol=[1e-5, 0.2], solver=["qr", "svd", "cholesky"], null_policy=POLICY)),
    "query_lstsq_w_rcond": ("lin_reg_w_rcond", dict(add_bias=[False, True], rcond=[0.0, 0.5, 0.9], l2_reg=[0.0, 0.3], null_policy=POLICY)),
    "query_recursive_lstsq": ("recursive_lin_reg", dict(add_bias=[False, True], l2_reg=[0.0, 0.3], null_policy=POLICY)),
    "query_rolling_lstsq": ("rolling_lin_reg", dict(add_bias=[False, True], l2_reg=[0.0, 0.3], min_valid_rows=[None, 3, 4, 5], null_policy=POLICY)),
    "query_lstsq_report": ("lin_reg_report", dict(weights=[None, "w"], add_bias=[False, True], null_policy=POLICY)),
}


@law(st.tuples(st.sampled_from(sorted(OLDER)), st.sampled_from([12, 17, 30]), seeds, st.lists(st.integers(0, 60), min_size=8, max_size=8), st.sampled_from([[], [], ["hole"], ["hole", "r"]]), st.integers(4, 7)), n=1200, rule="the present name gives a result")
def older_names(c):
    old, n, seed, pick, more, k = c
    new, options = OLDER[old]
    d = frame(n, seed)
    given = {o: v[x % len(v)] for (o, v), x in zip(options.items(), pick) if x < 45}
    args = (p, "q", *more)
    kw = dict(target="y", **({"start_with": k} if "recursive" in old else {"window_size": k} if "rolling" in old else {}))
    if old == "query_lstsq" and pick[7] % 4 == 0 and not given.get("weights") and not given.get("l1_reg"):
        kw["target"] = ["y", "u"]

    def run_(fn):
        try:
            return plain(d.select(fn(*args, **kw, **given).alias("o")).get_column("o"))
        except Exception as ex:
            if type(ex).__name__ in ("TypeError", "PanicException"):
                raise
            return "error: " + type(ex).__name__

    a, b_ = run_(getattr(pds, new)), run_(getattr(pds, old))
    if not same(a, b_):
        fail(f"{old} is not {new}: another result with {given or 'no options'}", got=str(b_)[:300], want=str(a)[:300], target=str(kw["target"]))
    return None if isinstance(a, str) else f"{old} {','.join(sorted(given))[:60]}{' nulls' if more else ''}"
