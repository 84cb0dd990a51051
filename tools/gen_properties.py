"""Writes /verif/properties.jsonl (kept as a script so that the file stays in step with MANIFEST.json)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["diff_diff/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("P01", "Least squares is exact, with textbook covariance and honest rank handling",
  "For every finite design matrix, outcome and cluster assignment, a linear fit returns the least-squares coefficients, residuals and fitted values, its classical, heteroskedasticity-robust (HC1) and cluster-robust covariance matrices equal their textbook formulas, and R-squared and degrees of freedom follow from the number of identified coefficients. Linearly dependent columns are detected: exactly as many columns as the rank defect get missing coefficients and missing covariance entries (warning, silent or error, as the user asked), everything else equals the fit on the retained columns, and fitted values and predictions remain the projection. Inputs with fewer rows than columns, non-finite values, mismatched shapes, fewer than two clusters, a missing cluster identifier or an unknown policy are refused, and cluster identifiers may be of any type.",
  ["inputs", "configurations"], "all design matrices over a small alphabet up to the bound, all outcome vectors of a basis (the map is linear) plus generic ones, all cluster partitions, every policy, intercept and robust setting",
  "Tests try a few random well-conditioned matrices and a handful of collinear ones; the dependence on which columns coincide, cluster layout, label type and policy is a product space.",
  ["linalg.py"], [("ordinary least squares solver", "linalg.py: solve_ols"), ("sandwich covariance", "linalg.py: compute_robust_vcov"), ("regression wrapper", "linalg.py: LinearRegression")],
  ["coefficients, residuals, fitted values, covariance matrix, inference records, raised errors and warnings"])

p("P02", "Reported inference is coherent everywhere it is reported",
  "Wherever a result reports an effect with analytical inference, the t-statistic is effect divided by standard error, the p-value is the two-sided tail of that t-statistic under the stated reference distribution, and the interval is the effect plus or minus the matching critical value at the configured level times the standard error. Significance verdicts and stars agree with the reported p-value, a missing or unusable standard error never yields a finite test statistic, a finite p-value or a 'significant' verdict, and a zero standard error never yields a finite test statistic. This holds for every estimator, aggregation and dataset shape, and for every significance level.",
  ["inputs", "configurations"], "every estimator and every reported effect record x significance levels x data shapes including saturated and degenerate ones",
  "Tests check single results at one significance level; incoherence shows only for particular combinations of estimator branch, level and degenerate data.",
  ["estimators.py", "twfe.py", "staggered.py", "staggered_aggregation.py", "sun_abraham.py", "synthetic_did.py", "triple_diff.py", "trop.py", "diagnostics.py", "results.py", "utils.py"],
  [("inference helpers", "utils.py: compute_p_value, compute_confidence_interval"), ("result records", "results.py and the *_results classes")],
  ["every effect/se/t/p/interval record of every result object"])

p("P03", "Basic DiD equals the difference of differences of cell means",
  "On any two-group two-period-type dataset, the basic estimator's effect equals the double difference of the four cell means, and with covariates, extra fixed effects or the formula interface it equals the coefficient of the explicit dummy-variable regression, together with the covariance the chosen robust or clustered option prescribes. Formula and column-name calls, and any row order or cell sizes, give the same answer; predictions are refused rather than invented. Invalid data (missing columns, non-binary indicators, missing values, an unparsable formula) is refused; an effect that an empty cell leaves unidentified is reported as missing (flagged) or refused according to the rank policy, never as a number.",
  ["inputs", "configurations"], "all cell-count configurations up to the bound x covariates x robust/cluster/fixed-effect options x call styles",
  "Tests fix one or two datasets; the property is about all cell compositions and option combinations.",
  ["estimators.py", "linalg.py"], [("basic estimator", "estimators.py: DifferenceInDifferences"), ("formula parser", "estimators.py: formula handling")],
  ["effect, standard error, coefficients, fitted values, residuals, R-squared, counts"])

p("P04", "Event-study DiD equals the saturated period regression",
  "For every panel, choice of post periods and reference period, the multi-period estimator's period effects are the period-by-treatment coefficients of the saturated regression, i.e. without covariates each is the treated-control gap in that post period minus the pooled pre-period gap. The average effect is their mean and its standard error comes from the joint covariance of exactly those coefficients. Period labels of any type and order map to the right effects, and the default pre/post split is the earlier/later half of the periods. Absorbed variables give the estimates of the regression with their dummies and cost one degree of freedom per level beyond the first.",
  ["inputs", "configurations"], "all period counts, post subsets, reference periods, label types, cell counts, covariates and covariance options up to the bound",
  "Tests use consecutive integer periods with the last ones post; subsets, label types, unbalanced cells and reference choices interact.",
  ["estimators.py"], [("multi-period estimator", "estimators.py: MultiPeriodDiD")], ["period effects, average effect, standard errors, coefficients"])

p("P05", "Within-transformed TWFE equals the dummy-variable regression",
  "For every panel, balanced or not, the two-way fixed-effects estimate equals the coefficient on the treatment-by-post interaction in the regression with a full set of unit and time dummies (and the same covariates), and its standard error is the cluster-robust one, clustered by unit unless told otherwise, with degrees of freedom reduced by the absorbed effects. Adding an arbitrary constant to any unit or any period changes nothing. Unit and time labels, row order and missing unit-periods do not matter.",
  ["inputs", "configurations"], "all small panels over every missing-cell pattern up to the bound, treatment layouts, covariates, cluster choices",
  "Tests use balanced panels, where approximate demeaning is exact; every missing-cell pattern is a different linear problem.",
  ["twfe.py", "utils.py"], [("two-way within transformation", "utils.py: within_transform"), ("fixed-effects estimator", "twfe.py: TwoWayFixedEffects")], ["effect, standard error, counts"])

p("P06", "Each cohort-time effect is the right 2x2 comparison",
  "For every staggered panel and every control-group, base-period, anticipation and estimation-method setting, each reported cohort-by-period effect without covariates is the mean outcome change of that cohort from its base period minus the mean change of exactly the admissible comparison units, with the standard error of that comparison of means, and the set of reported pairs is exactly the admissible one. Units already treated (at either end of the comparison) are never used as controls; never-treated units may be coded 0 or infinity. With covariates the regression, weighting and doubly-robust estimates and standard errors equal their textbook formulas, and a comparison whose covariates are missing is announced and made without them.",
  ["inputs", "configurations"], "all assignments of up to 5 units/cohort slots to cohorts x base period x control group x anticipation x method, all missing cells up to the bound",
  "Which units are eligible depends jointly on cohort, period, base, anticipation and control settings; tests only check aggregates on simulated data.",
  ["staggered.py"], [("cohort-time estimation", "staggered.py: CallawaySantAnna")], ["cohort-time effects, standard errors, counts, admissible keys"])

p("P07", "Aggregated staggered effects are the documented weighted averages",
  "Overall, event-time and cohort aggregates are the documented weighted averages of the reported cohort-by-period effects: the overall effect weights treated pairs by cohort size, event-time effects weight cohorts by size at that relative time, cohort effects average that cohort's treated periods. Their standard errors come from the aggregated influence functions (the overall one also reflecting the estimated cohort shares), balancing an event study restricts it to cohorts observed at that horizon, and the universal base period adds exactly one zero reference. Anticipation shifts which pairs count as treated.",
  ["inputs", "configurations"], "all small cohort structures x aggregation request x balance horizon x anticipation x base period",
  "Aggregation is checked in tests only through signs and finiteness on one simulated design.",
  ["staggered_aggregation.py", "staggered.py"], [("aggregation", "staggered_aggregation.py")], ["overall, event-study and group effects with standard errors"])

p("P08", "Multiplier-bootstrap inference is a function of the draws alone",
  "For every realisation of the bootstrap multipliers, each bootstrap replicate of a cohort-time or aggregated effect is the estimate perturbed by the multiplier-weighted influence functions, the bootstrap standard error is the standard deviation of the replicates, the interval their percentiles and the p-value the two-sided tail share bounded below by one over the number of replicates plus one. The multiplier laws have the stated support, mean zero and unit variance. Point estimates never depend on the bootstrap.",
  ["inputs", "configurations", "schedules"], "every multiplier matrix over the support up to the bound (random generator replaced by an enumerating one) x weight laws x aggregations",
  "Tests fix a seed and check ranges; the formula must hold for each realisation of the random draws.",
  ["staggered_bootstrap.py"], [("bootstrap", "staggered_bootstrap.py")], ["bootstrap standard errors, intervals, p-values, distribution"])

p("P09", "Interaction-weighted event study equals the saturated cohort regression",
  "For every staggered panel, the interaction-weighted estimator's cohort-by-event-time effects are the coefficients of the regression with unit and time effects and all cohort-by-relative-time interactions against never-treated (or not-yet-treated) units, and its event-study effects are their cohort-share weighted averages with the delta-method standard error. The overall effect averages post-treatment event times by observation share. Never-treated units may be coded 0 or infinity and are never treated as a cohort. Each bootstrap replicate is the same estimate on a resample of whole units, and resamples that do not identify an effect contribute none of their own.",
  ["inputs", "configurations"], "all small cohort structures x anticipation x covariates x never-treated coding x missing cells up to the bound",
  "Tests verify signs and tolerance to simulated truth, not equality with the regression for arbitrary panels.",
  ["sun_abraham.py"], [("interaction-weighted estimator", "sun_abraham.py: SunAbraham")], ["event-study effects, cohort effects, weights, overall effect and standard errors"])

p("P10", "Decomposition lists every 2x2 comparison once with normalised weights",
  "For every staggered panel, the decomposition contains exactly one entry per admissible pair of timing groups (treated versus never-treated, earlier versus later, later versus earlier), each with the double difference of exactly the right groups and time window, non-negative weights summing to one, and type totals and weighted averages consistent with the entries. Its two-way fixed-effects estimate is the fixed-effects coefficient, and the reported error is the gap between that and the weighted sum. Always-treated and never-treated units are classified correctly whichever way never-treated is coded.",
  ["inputs", "configurations"], "all small cohort structures x weighting scheme x never-treated coding",
  "Tests use two or three simulated designs; the set of comparisons depends on the cohort structure.",
  ["bacon.py"], [("decomposition", "bacon.py: BaconDecomposition")], ["comparison list, weights, totals, fixed-effects estimate"])

p("P11", "Synthetic DiD is the doubly-weighted difference with simplex weights",
  "For every panel, synthetic DiD's unit and time weights are non-negative, sum to one and are attached to the right control units and pre-periods, and its effect is exactly the doubly-weighted difference-in-differences of the (covariate-adjusted) outcomes under those reported weights. The unit weights minimise the stated penalised fit criterion over the simplex up to numerical tolerance. Treated units, control units and periods are classified by the data, never by row order or label type.",
  ["inputs", "configurations"], "all small outcome panels over an alphabet x period splits x regularisation settings x label types",
  "Tests check a few random panels for finiteness and a rough effect.",
  ["synthetic_did.py", "utils.py"], [("synthetic DiD", "synthetic_did.py: SyntheticDiD"), ("simplex projection", "utils.py")], ["weights, effect, pre-treatment fit, counts"])

p("P12", "Resampled variance of synthetic DiD is computed from exactly the drawn samples",
  "For every sequence of resampling draws, the placebo standard error of synthetic DiD is the stated function of the placebo effects of exactly the drawn pseudo-treated control sets and the bootstrap standard error is the standard deviation of the effects on exactly the drawn unit samples, and neither changes the point estimate. Too few controls, failed replicates or too few successes are reported honestly instead of as valid inference. The reported p-value and interval follow from the estimate, that standard error and those replicates.",
  ["inputs", "schedules", "configurations"], "every permutation/resample draw up to the bound (random generator replaced by an enumerating one) x variance method",
  "A seeded test sees one draw sequence; the formula must hold for all.",
  ["synthetic_did.py"], [("variance estimation", "synthetic_did.py")], ["standard error, p-value, interval, placebo effects"])

p("P13", "Triple difference equals the eight-cell contrast and its adjusted versions",
  "Without covariates every estimation method's triple-difference effect equals the eight-cell contrast of means for any cell sizes; with covariates the regression method equals the saturated regression coefficient, the weighting method its normalised inverse-propensity formula, and the doubly robust method their augmented combination. Clustered standard errors are the cluster-robust version of the same estimator's. Adding constants to any outcome, group, partition or period level shifts nothing but the means, and reported group means and counts are the data's. Non-binary indicators, missing columns and empty cells are refused.",
  ["inputs", "configurations"], "all eight-cell count configurations and outcome bases up to the bound x methods x covariates x options",
  "Tests use equal-size cells, where several wrong formulas agree.",
  ["triple_diff.py"], [("triple difference", "triple_diff.py: TripleDifference")], ["effect, standard error, group means, counts, R-squared"])

p("P14", "Factor-model panel estimator honours its definition and bookkeeping",
  "For every panel the factor-model estimator's effect is the average of its reported per-observation effects, which exist for exactly the treated observations. In the two-step variant each equals the observed outcome minus the untreated outcome fitted from weighted control observations only; without factor structure that fit is the weighted two-way fixed-effects imputation, and treated outcomes never influence it or the tuning. In the joint variant the common effect solves the stated weighted regression. Tuning values come from the supplied grids and minimise the leave-one-out criterion over control observations (coordinate-wise in the two-step variant). Bootstrap and jackknife standard errors are those of exactly the drawn or left-out unit samples, with inference from the stated t distribution. Staggered starts are handled or refused as documented, and invalid designs are refused.",
  ["inputs", "configurations"], "all small panels and absorbing treatment layouts x tuning grids x both variants",
  "Tests run one simulated factor model and check broad ranges.",
  ["trop.py"], [("factor-model estimator", "trop.py: TROP")], ["effect, per-observation effects, unit and time effects, chosen tuning values, score"])

p("P15", "Sensitivity bounds contain the estimate, grow with M and match their definition",
  "Under relative-magnitude restrictions the identified set is the weighted post-treatment estimate plus or minus M times the largest absolute pre-treatment coefficient (where none is estimated, the reported standard error of the overall effect) times the total absolute weight, the robust interval extends it by the critical value times the estimate's standard error, and M = 0 reproduces the conventional interval. Bounds and intervals are nested as M grows, the breakdown value is the smallest M at which the robust interval stops excluding zero whatever the M grid, and combined restrictions give a set inside each single one. Estimates, standard errors and the pre/post split come from the right coefficients of either kind of event-study result. A negative or missing M is refused.",
  ["inputs", "configurations"], "all pre/post coefficient vectors over an alphabet x weights x M grid x restriction type x result kind",
  "Tests check monotonicity on one mock result.",
  ["honest_did.py"], [("honest bounds", "honest_did.py: HonestDiD")], ["bounds, intervals, breakdown value, sensitivity table"])

p("P16", "Pre-trend power is the noncentral chi-square power and inverts to its MDV",
  "For every pre-period covariance, the reported power of the pre-trends test against a violation of size M is the noncentral chi-square tail with noncentrality from the normalised violation pattern and the inverse covariance; it equals the level at M = 0 and never decreases in M. The minimum detectable violation is the M at which power equals the target, and curves, repeated evaluations and convenience functions all agree. Violation patterns (linear, constant, last-period, custom) have the documented shape along the calendar, whatever the outcome scale and however the pre-periods are listed.",
  ["inputs", "configurations"], "all small pre-period standard-error vectors and covariances x pattern x level x target power x M grid",
  "Tests check one configuration per pattern.",
  ["pretrends.py"], [("pre-trends power", "pretrends.py: PreTrendsPower")], ["power, MDV, noncentrality, critical value, curve"])

p("P17", "Power, detectable effect and sample size are mutually inverse",
  "For every design, power computed at the reported minimum detectable effect equals the requested power, the reported sample size attains the requested power while smaller ones do not, and the convenience functions agree with the analysis object. Power is increasing in effect size and sample size, decreasing in noise, respects the chosen alternative, and matches the closed-form variance of the design. Simulation-based power equals the rejection share, mean, spread and coverage of exactly the simulated fits, for every supported estimator.",
  ["inputs", "configurations"], "full grid of sizes, noise, correlation, periods, level, power, alternative and treated share",
  "Tests check a few textbook numbers; the inverse relations quantify over the whole grid.",
  ["power.py"], [("power analysis", "power.py: PowerAnalysis"), ("simulation", "power.py: simulate_power")], ["power, detectable effect, required sample size, simulated summaries"])

p("P18", "Placebo, permutation and leave-one-out tests use exactly the documented samples",
  "A fake-timing test uses only pre-treatment data with the fake split, a fake-group test uses only never-treated units with the fake group, each equal to the basic estimator on that subset. A permutation test re-estimates with exactly the drawn reassignment of as many units as were treated and reports the share of placebo effects at least as extreme, and leave-one-out reports exactly one estimate per dropped treated unit with their mean and spread; samples that cannot be estimated are left out of every statistic and announced. Invalid fake periods, groups and test names are refused and the input data is untouched.",
  ["inputs", "schedules", "configurations"], "all small panels, fake periods, fake groups, and every permutation draw (random generator replaced by an enumerating one)",
  "Tests only check p-value ranges for one seed.",
  ["diagnostics.py"], [("placebo tests", "diagnostics.py")], ["placebo effect, p-value, distribution, leave-one-out table"])

p("P19", "Wild cluster bootstrap follows its definition for every draw",
  "For every realisation of the cluster weights, the wild bootstrap re-estimates on outcomes rebuilt from the null-imposed fit with residual signs flipped cluster by cluster, the p-value is the share of bootstrap t-statistics at least as extreme as the observed one, and the standard error and interval come from the replicate coefficients. The weight laws (Rademacher, Webb, Mammen) have the stated support, mean zero and unit variance. Fewer than two clusters or an unknown law is refused, and the point estimate is that of the plain fit.",
  ["inputs", "schedules", "configurations"], "every cluster sign vector (full enumeration of the random draws) x weight law x small designs",
  "Seeded tests check finiteness; the wrong centring passes them.",
  ["utils.py", "estimators.py"], [("wild bootstrap", "utils.py: wild_bootstrap_se")], ["standard error, p-value, interval, distribution"])

p("P20", "Parallel-trends diagnostics equal their stated test statistics",
  "For every dataset the trend check reports the group-specific pre-period slopes, their difference and the matching test, the distributional check compares exactly the unit-level outcome changes of treated and control units over pre-periods (distance, permutation share, Kolmogorov-Smirnov, variance ratio), and the equivalence check is the two one-sided test on the same changes with the stated margin. Only pre-treatment data is used, whatever the row order. Verdicts agree with the reported p-values and thresholds.",
  ["inputs", "schedules", "configurations"], "all small panels over an alphabet x pre-period choices x with/without unit ids x permutation draws",
  "Tests check dictionary keys and gross verdicts.",
  ["utils.py"], [("trend checks", "utils.py: check_parallel_trends, check_parallel_trends_robust, equivalence_test_trends")], ["returned dictionaries"])

p("P21", "An estimator object has no memory beyond its parameters",
  "After any sequence of fits (successful or failing), parameter changes and refits, on any datasets, the next fit gives exactly what a fresh object with the same parameters gives, including every inference label, and earlier results are unchanged. Reading parameters and constructing a new object from them gives an equivalent object, setting a parameter has the same effect as constructing with it, and unknown parameters are refused leaving the object unchanged. A failed fit never leaves a half-updated object that looks fitted with the new data.",
  ["histories", "configurations"], "all operation sequences up to the bound over fit on several datasets, failing fit, each parameter change, read parameters, summary",
  "Tests fit once; staleness needs specific histories.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "bacon.py", "synthetic_did.py", "triple_diff.py", "trop.py", "honest_did.py", "pretrends.py", "linalg.py"],
  [("fitted attributes", "estimators: fit/set_params/get_params")], ["results of the last fit, parameters, raised errors"],
  state=[("estimator object", "parameters plus fitted attributes", "each estimator class")])

p("P22", "Results do not depend on how the same data is presented",
  "Every estimator, decomposition and diagnostic gives the same results when rows are reordered, the index is changed (shuffled, duplicated, strings), irrelevant columns are added, columns are renamed (without a leading underscore), units or groups are relabelled (with order preserved where order carries meaning) or numeric and boolean types change without changing values. The caller's data frame and arrays are never modified. Missing columns are refused with a clear error.",
  ["inputs", "configurations"], "every entry point x every presentation of a set of base datasets",
  "Tests always pass freshly generated, sorted, default-indexed frames.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "bacon.py", "synthetic_did.py", "triple_diff.py", "trop.py", "diagnostics.py", "utils.py", "prep.py"],
  [("data preparation in every entry point", "fit methods")], ["all reported numbers, the input frame after the call"])

p("P23", "Randomised procedures are reproducible and leave global random state alone",
  "Every procedure that takes a seed gives bit-identical results when called again with the same seed, whatever was called before and whatever the global random state is, and different seeds change only the resampling-based quantities, never point estimates. No library call reads or modifies the process-wide random state. Equal seeds give equal results for a reused object and a fresh one.",
  ["histories", "configurations"], "every seeded entry point x seeds x interleavings with other calls up to the bound",
  "Tests check same-seed equality for a few functions without interleaved calls.",
  ["staggered_bootstrap.py", "sun_abraham.py", "synthetic_did.py", "trop.py", "diagnostics.py", "utils.py", "power.py", "prep_dgp.py", "datasets.py", "estimators.py"],
  [("generator construction from the seed", "np.random.default_rng(seed) in each procedure")], ["results, global random state before and after"])

p("P24", "Data preparation helpers implement their documented row-level meaning",
  "For every frame, indicator builders mark exactly the rows meeting the condition, reshaping keeps every value at its unit and period, balancing keeps exactly the complete units, adds exactly the missing rows or fills them as documented, event time is period minus treatment time (missing for never treated) and cohort aggregation gives the exact means and counts. Validation reports a problem if and only if one is present and summaries are the data's moments. Control ranking scores are in range, ordered, complete, honour required and excluded units, and inputs are never modified.",
  ["inputs", "configurations"], "all small frames with every missing-row pattern and label type x every option",
  "Tests cover happy paths; patterns of missing rows, label types and option combinations are a product.",
  ["prep.py"], [("preparation helpers", "prep.py")], ["returned frames and dictionaries"])

p("P25", "Data generators produce panels whose truth is what was requested",
  "For every parameter setting, generated data has exactly the requested units, periods, treated share and timing, with indicator columns consistent with each other, a recorded true effect equal to the requested effect path, and noise-free outcomes satisfying the stated data-generating equation exactly. Equal seeds give equal data and changing only the effect changes only treated outcomes by exactly that amount. Invalid settings are refused.",
  ["inputs", "configurations"], "full grid of small sizes, timings, shares, effects and switches for each generator",
  "Tests check shapes for default settings.",
  ["prep_dgp.py"], [("generators", "prep_dgp.py")], ["generated frames"])

p("P26", "Dataset loading survives every download and crash fault",
  "Loading a dataset returns a complete, well-formed frame for every combination of cache state and download fault: a failed, slow or truncated download or an unusable cache falls back to the cache or the built-in construction, never to a partial frame or a crash. A crash at any point of writing the cache never makes later loads return corrupt data. Forcing a download refreshes the cache, clearing removes only the cache's own files, and unknown names are refused.",
  ["fault_sequences", "crash_points", "histories"], "every cache state x every fault kind at every environment call x every crash point of a cache write x operation sequences up to the bound",
  "Tests mock one network failure; torn writes and other fault kinds are never exercised.",
  ["datasets.py"], [("cached download", "datasets.py: download and cache helpers")], ["returned frame, cache directory contents, errors"],
  state=[("cache directory", "downloaded files reused by later loads", "datasets.py")])

p("P27", "Backend selection follows the setting and never changes results",
  "For every value of the backend setting and availability of the accelerated module, the library imports or refuses exactly as documented: automatic uses acceleration only if it loads, the pure setting never uses it, the accelerated setting fails loudly if unavailable. Whichever backend computes, identical inputs give identical results including label types, rank-deficiency policy and fallbacks when the accelerated code reports numerical trouble. In least squares, errors other than numerical trouble are not swallowed; a failing accelerated factor-model computation falls back to the pure one.",
  ["configurations", "fault_sequences"], "all setting values x module availability (absent, broken, partial, present stand-in) x accelerated-call outcomes",
  "Tests run with whatever backend is installed, i.e. one configuration.",
  ["_backend.py", "linalg.py", "utils.py", "staggered_bootstrap.py", "trop.py"], [("backend detection", "_backend.py"), ("dispatch", "linalg.py, utils.py")], ["import outcome, flags, results"])

p("P28", "Exports, summaries and plots show exactly the result's numbers",
  "Dictionaries, data frames, text summaries and plots of every result object show exactly the numbers stored in it: every effect once, with its own standard error, interval and label, in order, and nothing that is not in the result. Plots draw each estimate and interval at the right position, normalise only to an explicitly requested reference, and mark the true reference period. Producing an export changes neither the result nor global plotting state.",
  ["inputs", "configurations"], "every result type x every export/plot option x effect patterns including missing values",
  "Tests check that exports do not crash and contain some key.",
  ["results.py", "staggered_results.py", "visualization.py", "honest_did.py", "power.py", "pretrends.py", "bacon.py", "sun_abraham.py", "triple_diff.py", "trop.py", "diagnostics.py"],
  [("exports", "results.py and result classes"), ("plots", "visualization.py")], ["dictionaries, frames, text, drawn artists"])

p("P29", "Estimates are equivariant to units of measurement and immune to common shocks",
  "For every estimator, multiplying outcomes by a constant multiplies effects and analytical standard errors by it and leaves test statistics unchanged, adding a constant to all outcomes, to all outcomes of one period, or (for panel estimators) to all outcomes of one unit changes no effect, and adding a constant to treated observations' outcomes after treatment adds exactly that constant to the effect. Shifting all time labels changes nothing. Duplicating the whole dataset under new unit names leaves point estimates unchanged. (Synthetic-control and factor-model weights are fitted to outcome levels, so for those two estimators unit and period shocks are covered only with weights switched off, and duplication not at all.)",
  ["inputs", "configurations"], "every estimator and method x every transformation x base panels",
  "Tests check one estimator on one dataset at most; the relation quantifies over transformations and data.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "synthetic_did.py", "triple_diff.py", "trop.py", "bacon.py"],
  [("each estimator's fit", "fit methods")], ["effects, standard errors, t statistics"])

p("P30", "Estimators agree wherever their estimands coincide",
  "On a balanced two-group panel with one adoption date, the basic, fixed-effects, staggered, interaction-weighted, decomposition, triple-difference-reducible and unweighted synthetic or imputation estimates of the same contrast are equal. Every documented shortcut function equals the estimator it wraps with the same arguments, and every alternative way of requesting the same estimate gives the same numbers. Aggregated staggered results with a single cohort equal the corresponding single comparison.",
  ["inputs", "configurations"], "all small balanced panels x adoption date x label choices x estimator pairs",
  "Tests exercise each estimator separately.",
  ["estimators.py", "twfe.py", "staggered.py", "sun_abraham.py", "bacon.py", "triple_diff.py", "trop.py", "honest_did.py", "pretrends.py", "power.py", "diagnostics.py"],
  [("each estimator's fit and convenience wrapper", "fit methods, module-level functions")], ["effects and standard errors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
