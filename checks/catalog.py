"""Every expression of the package over one standard frame, with what shape of result it has.

kind: "row" each row is computed on its own; "col" as many rows as the input, computed from the whole column; "agg" one value;
"len" another number of rows.  Builders take `par`, the parallel option, where the function has one.
"""
import inspect
import polars_ds.exprs.metrics as PM_
import polars_ds.exprs.num as PN_
import polars_ds.exprs.stats as PS_
import polars_ds.exprs.string as PT_
import polars_ds.exprs.ts_features as PF_
from checks.common import *

C = {}


def add(kind, name, f, small=False, rand=False):
    assert name not in C, name
    C[name] = (kind, f, "par" in inspect.signature(f).parameters, rand)


p, q, r, w, y, i, j, z, s, t, u, cls = (pl.col(k) for k in ("p", "q", "r", "w", "y", "i", "j", "z", "s", "t", "u", "cls"))

# --- numbers, each row on its own
for nm in ("exp2", "expit", "fract", "trunc", "next_up", "next_down", "digamma"):
    add("row", nm, lambda f=getattr(pds, nm): f(p))
add("row", "gamma", lambda: pds.gamma(w))
add("row", "logit", lambda: pds.logit(u))
add("row", "sinc", lambda: PN_.sinc(p))
add("row", "exp2_f32", lambda: pds.exp2("f"))
add("row", "expit_f32", lambda: pds.expit("f"))
add("row", "logit_f32", lambda: pds.logit(pl.col("f").abs() / 100))
add("row", "trunc_f32", lambda: pds.trunc("f"))
add("row", "fract_f32", lambda: pds.fract("f"))
add("row", "gamma_f32", lambda: pds.gamma(pl.col("f").abs() + 1))
add("row", "next_up_f32", lambda: pds.next_up("f"))
add("row", "next_down_f32", lambda: pds.next_down("f"))
add("row", "digamma_f32", lambda: pds.digamma(pl.col("f").abs() + 1))
add("row", "exp2_int", lambda: pds.exp2("i"))
add("row", "gamma_int", lambda: pds.gamma("i"))
add("row", "next_up_int", lambda: pds.next_up("i"))
add("row", "xlogy", lambda: pds.xlogy(w, u))
add("row", "xlogy_f32", lambda: pds.xlogy(pl.col("f").abs(), u))
add("row", "gcd", lambda: pds.gcd(i, j))
add("row", "lcm", lambda: pds.lcm(i, j))
add("row", "gcd12", lambda: pds.gcd("i", 12))
add("row", "lcm_i32", lambda: pds.lcm(i.cast(pl.Int32), 4))
add("row", "haversine", lambda: pds.haversine(p, q, q, r))
add("row", "haversine_pt", lambda: pds.haversine(p, q, 10.0, 20.0))
add("row", "jaccard_row", lambda: pds.jaccard_row("l", "l2"))
add("row", "list_amax", lambda: pds.list_amax("l"))
add("row", "l1_h", lambda: pds.l1_horizontal(p, q, r, normalize=True))
add("row", "l2_h", lambda: pds.l2_sq_horizontal(p, q, r))
add("row", "linf_h", lambda: pds.l_inf_horizontal(p, q, r))
add("row", "within", lambda: pds.within_dist_from(p, q, pt=[0.1, 0.2], r=1.5, dist="l1"))
add("row", "within_h", lambda: pds.within_dist_from(p, q, pt=[0.1, 0.2], r=90.0, dist="h"))
# --- numbers, the whole column
add("col", "softmax", lambda: pds.softmax(p))
add("col", "center", lambda: pds.center(p))
add("col", "z_normalize", lambda: pds.z_normalize(p))
add("col", "winsorize", lambda: PS_.winsorize(p, 0.1, 0.8))
add("col", "isotonic", lambda: pds.isotonic_regression(y, weights=w))
add("col", "isotonic_dec", lambda: pds.isotonic_regression(y, increasing=False))
add("col", "detrend", lambda: pds.detrend(y))
add("col", "detrend_mean", lambda: pds.detrend(y, method="mean"))
add("col", "conv_same", lambda par: pds.convolve(p, kernel=[0.5, 0.25, -0.1], mode="same", parallel=par))
add("len", "conv_full", lambda par: pds.convolve(p, kernel=[0.5, 0.25, -0.1], mode="full", parallel=par))
add("len", "conv_valid", lambda par: pds.convolve(p, kernel=[0.5, 0.25, -0.1], mode="valid", parallel=par))
add("len", "conv_left", lambda: pds.convolve(p, kernel=[0.5, 0.25, -0.1], mode="left", fill_value=1.0))
add("len", "conv_fft", lambda: pds.convolve(p, kernel=[0.5, 0.25, -0.1], mode="full", method="fft"))
add("len", "rfft", lambda: pds.rfft(p))
add("len", "rfft_full", lambda: pds.rfft(p, n=16, return_full=True))
add("len", "psi_rep", lambda: pds.psi(p, q, n_bins=3, return_report=True))
add("len", "psi_d_rep", lambda: pds.psi_discrete(s, t, return_report=True))
add("len", "woe", lambda: pds.woe(p, z, n_bins=4))
add("len", "woe_d", lambda: pds.woe_discrete(s, z))
add("len", "target_encode", lambda: PN_.target_encode(s, z, min_samples_leaf=3))
add("len", "iv_rows", lambda: pds.info_value(p, z, n_bins=4, return_sum=False))
add("len", "iv_d_rows", lambda: pds.info_value_discrete(s, z, return_sum=False))
add("agg", "iv", lambda: pds.info_value(p, z, n_bins=4))
add("agg", "iv_d", lambda: pds.info_value_discrete(s, z))
add("agg", "psi", lambda: pds.psi(p, q, n_bins=3))
add("agg", "psi_d", lambda: pds.psi_discrete(s, t))
add("len", "psi_w", lambda: pds.psi_w_breakpoints(p, q, [-0.5, 0.5]))
add("agg", "trapz", lambda: pds.integrate_trapz(y, 0.5))
add("agg", "trapz_x", lambda: pds.integrate_trapz(y, pl.col("id").cast(pl.Float64)))
add("agg", "is_inc", lambda: pds.is_increasing("id", strict=True))
add("agg", "is_dec", lambda: pds.is_decreasing(p))
add("agg", "jaccard_col", lambda: pds.jaccard_col(i, j))
add("agg", "jaccard_col_s", lambda: pds.jaccard_col(s, t, count_null=True))
add("len", "pca", lambda: pds.pca(p, q, r))
add("agg", "sing", lambda: pds.singular_values(p, q, r))
add("agg", "sing_ratio", lambda: pds.singular_values(p, q, r, as_explained_var=True, as_ratio=True))
add("col", "pcs", lambda: pds.principal_components(p, q, r, k=2))
# --- strings
for nm in ("to_camel_case", "to_snake_case", "to_pascal_case", "to_constant_case", "is_stopword", "remove_diacritics", "normalize_whitespace", "str_snowball"):
    add("row", nm, lambda f=getattr(pds, nm): f("s"))
add("row", "normalize_ws_sp", lambda: pds.normalize_whitespace("s", only_spaces=True))
add("row", "snowball_keep", lambda: pds.str_snowball("t", no_stopwords=False))
add("row", "non_ascii", lambda: pds.replace_non_ascii("s"))
add("row", "non_ascii_v", lambda: pds.replace_non_ascii("s", "?"))
add("row", "nfd", lambda: pds.normalize_string("s", "NFD"))
add("row", "map_words", lambda: pds.map_words("s", {"a": "b", "the": "le"}))
add("row", "numbers", lambda: pds.extract_numbers("s", join_by="-"))
add("row", "similar_vocab", lambda: pds.similar_to_vocab("s", ["ab", "ba"], threshold=0.4, strategy="any"))
add("row", "similar_vocab_avg", lambda: pds.similar_to_vocab("s", ["ab", "ba"], threshold=0.4))
add("len", "tokenize", lambda: pds.str_tokenize("s"))
add("agg", "nearest", lambda: pds.str_nearest("s", "ab"))
SIM = dict(leven=pds.str_leven, d_leven=pds.str_d_leven, osa=pds.str_osa, lcs=pds.str_lcs_seq)
for nm, f in SIM.items():
    for sim in (False, True):
        add("row", f"{nm}_{sim:d}", lambda par, f=f, sim=sim: f(s, t, parallel=par, return_sim=sim))
        add("row", f"{nm}_lit_{sim:d}", lambda par, f=f, sim=sim: f(s, pl.lit("ab é"), parallel=par, return_sim=sim))
for nm, f in dict(jaro=pds.str_jaro, jw=pds.str_jw, fuzz=pds.str_fuzz, hamming=pds.str_hamming, jaccard=pds.str_jaccard, dice=pds.str_sorensen_dice, overlap=PT_.str_overlap_coeff).items():
    add("row", nm, lambda par, f=f: f(s, t, parallel=par))
    add("row", nm + "_lit", lambda par, f=f: f(s, pl.lit("ab é"), parallel=par))
add("row", "hamming_pad", lambda par: pds.str_hamming(s, t, pad=True, parallel=par))
add("row", "tversky", lambda par: pds.str_tversky_sim(s, t, 0.3, 0.7, parallel=par))
add("row", "tversky_lit", lambda par: pds.str_tversky_sim(s, pl.lit("ab é"), 0.3, 0.7, parallel=par))
add("row", "f_leven", lambda par: pds.filter_by_levenshtein(s, t, 2, parallel=par))
add("row", "f_leven_lit", lambda par: pds.filter_by_levenshtein(s, pl.lit("ab"), 2, parallel=par))
add("row", "f_hamming", lambda par: pds.filter_by_hamming(s, t, 2, parallel=par))
# --- iteration
add("len", "combinations", lambda: pds.combinations("k6", 2, unique=True))
add("len", "product", lambda: pds.product(pl.col("i").unique(maintain_order=True), pl.col("z").unique(maintain_order=True)))
# --- neighbours
for d in ("l1", "l2", "sql2", "inf"):
    add("col", "knn_pt_" + d, lambda par, d=d: pds.query_knn_ptwise(p, q, index="id", k=3, dist=d, parallel=par))
    add("col", "kth_" + d, lambda par, d=d: pds.query_dist_from_kth_nb(p, q, k=2, dist=d, parallel=par))
for d in ("l1", "l2", "sql2", "inf"):
    add("col", "nb_" + d, lambda par, d=d: pds.query_nb_cnt(p, q, r=0.7, dist=d, parallel=par))
    add("col", "rad_" + d, lambda par, d=d: pds.query_radius_ptwise(p, q, index="id", r=0.7, dist=d, parallel=par))
add("col", "knn_dist", lambda par: pds.query_knn_ptwise(p, q, index="id", k=3, return_dist=True, parallel=par))
add("col", "knn_masks", lambda par: pds.query_knn_ptwise(p, q, index="id", k=2, parallel=par, eval_mask=z == 1, data_mask=p < 1))
add("col", "knn_avg", lambda par: pds.query_knn_avg(p, q, target=y, k=3, parallel=par))
add("col", "knn_avg_w", lambda par: pds.query_knn_avg(p, q, target=y, k=3, weighted=True, dist="l2", parallel=par))
add("col", "nb_each", lambda par: pds.query_nb_cnt(p, q, r=w, parallel=par))
add("col", "is_knn", lambda: pds.is_knn_from(p, q, pt=[0.1, 0.2], k=3))
add("len", "knn_freq", lambda par: pds.query_knn_freq_cnt(p, q, index="id", k=2, parallel=par))
add("len", "rad_freq", lambda par: pds.query_radius_freq_cnt(p, q, index="id", r=0.6, parallel=par))
# --- regression
add("agg", "lr", lambda: pds.lin_reg(p, q, target=y, add_bias=True))
add("agg", "lr_w", lambda: pds.lin_reg(p, q, target=y, weights=w))
add("agg", "lr_ridge", lambda: pds.lin_reg(p, q, target=y, l2_reg=0.5, solver="svd"))
add("agg", "lr_lasso", lambda: pds.lin_reg(p, q, target=y, l1_reg=0.05))
add("agg", "lr_multi", lambda: pds.lin_reg(p, q, target=[y, r]))
add("col", "lr_pred", lambda: pds.lin_reg(p, q, target=y, return_pred=True))
add("col", "lr_multi_pred", lambda: pds.lin_reg(p, q, target=[y, r], return_pred=True))
add("agg", "lr_simple", lambda: pds.simple_lin_reg(p, target=y, add_bias=True))
add("col", "lr_simple_pred", lambda: pds.simple_lin_reg(p, target=y, return_pred=True))
add("agg", "lr_rcond", lambda: pds.lin_reg_w_rcond(p, q, target=y, rcond=0.01))
add("len", "lr_report", lambda: pds.lin_reg_report(p, q, target=y, add_bias=True))
add("len", "lr_report_w", lambda: pds.lin_reg_report(p, q, target=y, weights=w))
add("len", "lr_report_hc3", lambda: pds.lin_reg_report(p, q, target=y, std_err="hc3"))
add("col", "lr_rec", lambda: pds.recursive_lin_reg(p, q, target=y, start_with=3))
add("col", "lr_rec_b", lambda: pds.recursive_lin_reg(p, q, target=y, start_with=4, add_bias=True, l2_reg=0.1))
add("col", "lr_roll", lambda: pds.rolling_lin_reg(p, q, target=y, window_size=5))
add("col", "lr_roll_b", lambda: pds.rolling_lin_reg(p, target=y, window_size=4, add_bias=True))
# --- metrics
for nm in ("r2", "l1", "l2", "l_inf", "log_cosh", "mape", "smape", "msle"):
    add("agg", "m_" + nm, lambda f=getattr(PM_, "query_" + nm): f(w, w + u))
add("agg", "m_adj_r2", lambda: pds.query_adj_r2(y, y + p, 2))
add("agg", "m_hubor", lambda: pds.query_hubor_loss(y, p, 0.5))
add("agg", "m_mase", lambda: pds.query_mase(y, p, y, 2))
add("agg", "m_mad", lambda: pds.query_mad(y))
add("agg", "m_logloss", lambda: pds.query_log_loss(z, u))
add("agg", "m_gini", lambda: PM_.query_gini(z, u))
add("agg", "m_auc", lambda: pds.query_roc_auc(z, u))
add("agg", "m_binary", lambda: pds.query_binary_metrics(z, u))
add("agg", "m_cm", lambda: pds.query_confusion_matrix(z, u, all_metrics=True))
add("agg", "m_mcc", lambda: pds.query_mcc(z, (u > 0.5).cast(pl.UInt8)))
add("agg", "m_cce", lambda: pds.query_cat_cross_entropy(cls, "pr"))
add("agg", "m_mauc", lambda: pds.query_multi_roc_auc(cls, "pr", 3))
add("agg", "m_mauc_m", lambda: pds.query_multi_roc_auc(cls, "pr", 3, "macro"))
add("len", "m_tprfpr", lambda: pds.query_tpr_fpr(z, u))
add("agg", "m_fair", lambda: pds.query_fairness(u, i > 10))
add("agg", "m_ppct", lambda: pds.query_p_pct_score((u > 0.5).cast(pl.UInt8), i > 10))
# --- statistics
add("agg", "s_bicor", lambda: pds.bicor(p, q))
for m in ("pearson", "spearman", "kendall", "xi", "bicor"):
    if m != "xi":
        add("agg", "s_corr_" + m, lambda m=m: pds.corr(p, q, m))
add("agg", "s_xi", lambda: pds.xi_corr(p, q, seed=3))
add("agg", "s_xi_p", lambda: pds.xi_corr(p, q, seed=3, return_p=True))
add("agg", "s_kendall", lambda: pds.kendall_tau(i, j))
add("agg", "s_cos", lambda: pds.cosine_sim(p, q))
add("agg", "s_wcos", lambda: pds.weighted_cosine_sim(p, q, w))
add("agg", "s_wcorr", lambda: pds.weighted_corr(p, q, w))
add("agg", "s_wcov", lambda: pds.weighted_cov(p, q, w))
add("agg", "s_wmean", lambda: pds.weighted_mean(p, w))
add("agg", "s_wvar", lambda: pds.weighted_var(p, w))
add("agg", "s_wgmean", lambda: pds.weighted_gmean(w, u))
add("agg", "s_whmean", lambda: pds.weighted_hmean(w, u))
add("agg", "s_gmean", lambda: pds.gmean(w))
add("agg", "s_hmean", lambda: pds.hmean(w))
add("agg", "s_chi2", lambda: pds.chi2("cls", "z"))
add("len", "s_chi2_full", lambda: pds.chi2("cls", "z", return_full=True))
add("agg", "s_ftest", lambda: pds.f_test(p, group="cls"))
add("len", "s_ftest2", lambda: pds.f_test(p, q, group="cls"))
add("agg", "s_ks", lambda: pds.ks_2samp(p, q))
add("agg", "s_ks_bin", lambda: pds.ks_2samp(z, p, is_binary=True))
add("agg", "s_mwu", lambda: pds.mann_whitney_u(p, q))
add("agg", "s_normal", lambda: pds.normal_test(p))
add("agg", "s_t1", lambda: pds.ttest_1samp(p, 0.1))
add("agg", "s_t2", lambda: pds.ttest_ind(p, q))
add("agg", "s_t2e", lambda: pds.ttest_ind(p, q, equal_var=True, alternative="less"))
add("agg", "s_tstats", lambda: pds.ttest_ind_from_stats(p, 0.3, 1.2, 40))
# --- randomness, seeded
add("col", "x_random", lambda: pds.random(0.5, 2.0, seed=7), rand=True)
add("col", "x_int", lambda: pds.random_int(0, 50, seed=11), rand=True)
add("col", "x_exp", lambda: pds.random_exp(0.5, seed=2), rand=True)
add("col", "x_normal", lambda: pds.random_normal(0.0, 2.0, seed=3), rand=True)
add("col", "x_binomial", lambda: pds.random_binomial(10, 0.3, seed=4), rand=True)
add("col", "x_str", lambda: pds.random_str(2, 4, seed=5), rand=True)
add("col", "x_null", lambda: pds.random_null(p, 0.4, seed=5), rand=True)
add("col", "x_jitter", lambda: pds.jitter(p, 0.3, seed=6), rand=True)
add("col", "x_perturb", lambda: pds.perturb(p, 0.5, seed=6), rand=True)
# --- features
for nm in ("abs_energy", "mean_abs_change", "mid_range", "symm_ratio", "count_uniques", "cv"):
    add("agg", "f_" + nm, lambda f=getattr(PF_, "query_" + nm): f(p))
add("agg", "f_approx", lambda par: pds.query_approx_entropy(p, m=2, filtering_level=0.3, parallel=par))
add("agg", "f_sample", lambda par: pds.query_sample_entropy(p, ratio=0.4, parallel=par))
add("agg", "f_ar", lambda: pds.query_ar_coeffs(p, lag=2))
add("agg", "f_acorr", lambda: pds.query_auto_corr(p, 2))
add("agg", "f_c3", lambda: pds.query_c3_stats(p, 2))
add("agg", "f_cid", lambda: pds.query_cid_ce(p, normalize=True))
add("agg", "f_cond", lambda: pds.query_cond_entropy(s, z))
add("agg", "f_indep", lambda par: pds.query_cond_indep(p, q, r, k=2, parallel=par))
add("agg", "f_copula", lambda par: pds.query_copula_entropy(p, q, k=2, parallel=par))
add("agg", "f_knn_e", lambda par: pds.query_knn_entropy(p, q, k=2, parallel=par))
add("agg", "f_knn_einf", lambda par: pds.query_knn_entropy(p, q, k=2, dist="inf", parallel=par))
add("agg", "f_transfer", lambda par: pds.query_transfer_entropy(p, q, lag=1, k=2, parallel=par))
add("agg", "f_perm", lambda: pds.query_permute_entropy(p, tau=1, n_dims=3))
add("agg", "f_perm3", lambda: pds.query_permute_entropy(p, tau=2, n_dims=3))
add("agg", "f_entropy", lambda: pds.query_entropy("i"))
add("agg", "f_lz", lambda: pds.query_lempel_ziv(p > 0))
add("agg", "f_longest", lambda: pds.query_longest_streak(p > 0))
add("agg", "f_avgstreak", lambda: pds.query_avg_streak(p > 0))
x2 = p * 2 - q
add("agg", "f_approx_x", lambda par: pds.query_approx_entropy(x2, m=2, filtering_level=0.3, parallel=par))
add("agg", "f_sample_x", lambda par: pds.query_sample_entropy(x2, ratio=0.4, parallel=par))
add("agg", "f_ar_x", lambda: pds.query_ar_coeffs(x2, lag=2))
add("agg", "f_acorr_x", lambda: pds.query_auto_corr(x2, 2))
add("agg", "f_transfer_x", lambda par: pds.query_transfer_entropy(x2, p + r, lag=1, k=2, parallel=par))
add("agg", "s_mwu_x", lambda: pds.mann_whitney_u(x2, p + r))
add("agg", "f_cid_x", lambda: pds.query_cid_ce(x2))
add("agg", "f_c3_x", lambda: pds.query_c3_stats(x2, 1))
add("agg", "f_trev_x", lambda: pds.query_time_reversal_asymmetry_stats(x2, 2))
add("agg", "psi_x", lambda: pds.psi(x2, p + r, n_bins=3))
add("agg", "s_ks_x", lambda: pds.ks_2samp(x2, p + r))
add("agg", "f_nmax_x", lambda: pds.query_mean_n_abs_max(x2, 3))
add("agg", "m_mase_x", lambda: pds.query_mase(x2, p + r, x2, 2))
add("col", "lr_roll_x", lambda: pds.rolling_lin_reg(x2, (p + r).alias("pr2"), target=y, window_size=5))
add("len", "f_streak", lambda: pds.query_streak("cls"))
add("agg", "f_nmax", lambda: pds.query_mean_n_abs_max(p, 3))
add("agg", "f_range", lambda: pds.query_range_count(p, -0.5, 0.7))
add("agg", "f_trev", lambda: pds.query_time_reversal_asymmetry_stats(p, 1))
add("agg", "f_similar", lambda par: pds.query_similar_count([0.3, -0.1, 0.5], p, 1.5, parallel=par))
add("agg", "f_similar_sq", lambda par: pds.query_similar_count([0.3, -0.1, 0.5], p, 4.5, metric="sql2", parallel=par))
add("agg", "f_digits", lambda: pds.query_first_digit_cnt("i"))
add("agg", "f_benford", lambda: PF_.query_benford("i"))

NAMES = list(C)
UNORDERED = {"woe", "woe_d", "target_encode", "iv_rows", "iv_d_rows", "psi_d_rep", "s_chi2_full"}  # rows in no particular order, like a group_by


def make(name, par=False):
    kind, f, has_par, _ = C[name]
    return f(par) if has_par else f()


WORDS = ["ab", "abé", "", "Running fast", "the", "a the B", "  x\t y ", "12 to 7", "Émile-ça", "ba", "abba", "snake_case WORD"]


def frame(n, seed, nulls=0.0):
    g = rng(seed)
    f = lambda: [float(v) for v in np.round(g.normal(size=n), 4)]
    hole = lambda v: [None if nulls and g.random() < nulls else x for x in v]
    pr = g.dirichlet([1, 1, 1], n)
    df = pl.DataFrame({
        "id": pl.Series(range(n), dtype=pl.UInt32), "p": f(), "q": f(), "r": f(), "y": f(), "w": [abs(v) + 0.1 for v in f()], "u": [float(v) for v in np.round(g.uniform(0.01, 0.99, n), 4)],
        "f": pl.Series(np.round(g.normal(size=n) * 3, 2), dtype=pl.Float32), "i": hole([int(v) for v in g.integers(1, 30, n)]), "j": hole([int(v) for v in g.integers(1, 30, n)]), "z": [(k + int(g.random() < 0.2)) % 2 for k in range(n)], "cls": [k % 3 for k in range(n)],
        "k6": pl.Series([k % 6 for k in range(n)], dtype=pl.Int32), "s": hole([WORDS[v] for v in g.integers(0, len(WORDS), n)]), "t": hole([WORDS[v] for v in g.integers(0, len(WORDS), n)]),
        "l": [[int(v) for v in g.integers(0, 4, 3)] for _ in range(n)], "l2": [[int(v) for v in g.integers(0, 4, 3)] for _ in range(n)], "pr": [[float(v) for v in x] for x in pr],
    }, schema_overrides={"p": pl.Float64, "q": pl.Float64, "r": pl.Float64, "y": pl.Float64, "w": pl.Float64, "u": pl.Float64, "i": pl.Int64, "j": pl.Int64, "z": pl.Int64, "cls": pl.UInt32, "s": pl.String, "t": pl.String, "l": pl.List(pl.Int64), "l2": pl.List(pl.Int64), "pr": pl.List(pl.Float64)})
    if nulls:
        df = df.with_columns(*(pl.when(pl.Series([g.random() < nulls for _ in range(n)], dtype=pl.Boolean)).then(None).otherwise(pl.col(k)).alias(k) for k in ("p", "q", "w", "u", "f", "l")))
    return df


def vals(x):
    """The values of a Series as nested Python data."""
    return x.to_list()


def eqv(a, b, rt=1e-9, at=1e-9):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(eqv(a[k], b[k], rt, at) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y_, rt, at) for x, y_ in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b, rt, at)
    return a == b and type(a) is type(b)


def unsigned(v):
    return abs(v) if isinstance(v, float) else [unsigned(k) for k in v] if isinstance(v, list) else {k: unsigned(m) for k, m in v.items()} if isinstance(v, dict) else v


def agree(a, b, what, exact=False, name=None, **kw):
    """Equal Series: type and values (those of the expression `name`)."""
    if a.dtype != b.dtype:
        fail(f"{what}: type {a.dtype}, not {b.dtype}", **kw)
    x, y_ = vals(a), vals(b)
    if name in UNORDERED:
        x, y_ = (sorted(v, key=lambda d: str([v for v in d.values() if not isinstance(v, float)])) for v in (x, y_))
    if name in ("pca", "pcs"):  # singular vectors are determined up to their sign
        x, y_ = unsigned(x), unsigned(y_)
    tol = 0 if exact else 1e-9
    if a.dtype == pl.Float32:
        tol = max(tol, 1e-6)
    if not eqv(x, y_, tol, tol):
        k = next((k for k, (m, n) in enumerate(zip(x, y_)) if not eqv(m, n, tol, tol)), None)
        fail(f"{what}: got {x[k] if k is not None else len(x)!r}, want {y_[k] if k is not None else len(y_)!r}" + (f" at {k}" if k is not None else " rows"), **kw)
