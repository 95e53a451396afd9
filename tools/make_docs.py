"""Writes properties.jsonl, MANIFEST.json and known_findings.json (run by hand; the results are committed)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, S, E, D = 'PyAnEn/utils_verify.py', 'PyAnEn/utils_special_boot.py', 'PyAnEn/VerifyEnsemble.py', 'PyAnEn/utils_dist.py'
VB, VP, VD = 'PyAnEn/Verify.py', 'PyAnEn/VerifyProb.py', 'PyAnEn/VerifyDeterm.py'
G, GA, H = 'PyAnEn/VerifyProbGaussian.py', 'PyAnEn/VerifyProbGamma.py', 'PyAnEn/VerifyProbGammaHurdle.py'
AP = 'PyAnEn/utils_approximation.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}), note))


prop('C01', 'Error, absolute error, RMSE, spread and variance equal their definitions',
     'For every deterministic, ensemble or parametric forecast, the reported error, absolute error, squared error and root mean square error equal the plain definitions applied to the deterministic forecast (the value, the collapsed ensemble, or the mean of the distribution) and averaged over the chosen axes. The spread of an ensemble is the range of its members and its variance is the population variance; the variance of a parametric forecast is the square of its standard deviation. All hold for any shape, data type, member axis and average axis, and a later call returns the same as the first.',
     ['inputs', 'configurations'], 'every array shape, value, data type, member axis and average axis',
     'The tests compare a few fixed random arrays with loops; they never vary data type, axis spelling or ties.',
     [VB, VD, E, VP], [('metric functions and averaging', VB + ': boot_or_avg; ' + VD + ', ' + E + ', ' + VP + ': _error, _sq_error, _ab_error, _spread, _variance')],
     ['error(), ab_error(), sq_error(), rmse(), spread(), variance(), f_determ()'], 'differential testing against definitions with exact sums')
prop('C02', 'A metric along axes equals the metric of every slice on its own',
     'For every metric that averages over axes, the value at each kept position equals the metric of the data at that position alone, and the kept dimensions appear in their original order followed by any bins. This holds however the axes are written (one number, tuple or list, any order, negative or not), and metrics that are not averaged keep the shape of the observations. Permuting the dimensions of all arrays only permutes the result.',
     ['inputs', 'configurations'], 'every shape of up to four dimensions, every subset and spelling of the average axes, every metric and forecast type',
     'Tests use one or two fixed axis choices per metric; errors in moving and flattening axes show only for particular orders, subsets or negative numbers.',
     [VB, U, 'PyAnEn/utils_ss.py', S], [('axis moving and flattening', U + ': boot_arr, _reliability_create_split; PyAnEn/utils_ss.py; ' + S + ': _workflow')],
     ['all metric methods'], 'metamorphic testing: whole array against its slices, and under permuted dimensions')
prop('C03', 'The probability of an ensemble is the fraction of its members',
     'The forecast probability of being at or below a threshold is the fraction of members at or below it, and the probability above it is the complement, for scalar thresholds and for one threshold per forecast. It lies in [0, 1], does not decrease with the threshold, does not depend on the order of the members or the place of the member axis, and is 0 below and 1 above all members. With kernel density estimation it equals the integral of the kernel density up to the threshold, within the resolution of its grid.',
     ['inputs', 'configurations'], 'every ensemble, threshold (also equal to members), member axis and method',
     'Tests sample continuous data without ties and one member axis.',
     [U, E], [('counting members', U + ': ens_to_prob, ens_to_prob_moments, ens_to_prob_kde')], ['cdf(), sharpness()'], 'differential testing against counting; kernel densities against the closed form')
prop('C04', 'Probabilities of parametric forecasts equal the analytic distribution',
     'For Gaussian, gamma (shifted) and gamma hurdle forecasts, and for Gaussian and gamma forecasts truncated at zero, the probability of being below or above a threshold (scalar or one per forecast) equals the analytic distribution function or its complement. A truncated forecast has no probability at or below zero and a hurdle forecast has none below zero and the probability of no precipitation at zero. Probabilities lie in [0, 1], do not decrease with the threshold and reach 1.',
     ['inputs'], 'every distribution parameter (also sharp and vague), threshold and shape',
     'Tests compare a handful of parameters with the same library calls the code makes.',
     [D, 'PyAnEn/dist_truncgamma.py', G, GA, H], [('distribution functions', D + ': cdf_gaussian, cdf_gamma, cdf_gamma_hurdle')], ['cdf(), sharpness()'], 'differential testing against special functions')
prop('C05', 'Results do not depend on workers, map axis, chunks, memory mode or order',
     'Probabilities, ranks, PIT values, Brier scores, ROC curves and numerical integrals are the same with any number of workers, map axis, chunk size, memory mode and completion order of the tasks as in a serial run. Members sampled in parallel have the same shape as in a serial run and belong to the forecast of their own cell. Nothing is left behind: no files and no running task system.',
     ['schedules', 'configurations', 'inputs'], 'every number of workers, map axis, chunk size, memory mode and completion order',
     'Tests run one worker setting and cannot force a completion order.',
     [U, D, AP], [('splitting and recombining work', U + ': rank_histogram, ens_to_prob; ' + D + ': _parallel_process; ' + AP)], ['cdf(), rank_hist(), pit(), brier(), roc(), prob_to_ens(), integrals'], 'differential testing serial against parallel; Ray replaced by a stand-in with generated task order')
prop('C06', 'Sampled members follow the forecast distribution',
     'Members sampled from a parametric forecast have the requested number, on the requested axis, and follow the distribution of their own cell (truncated at zero where asked), far into both tails, independently between members, cells and calls, whether sampled serially or in parallel. With clipping, members below the clip value become exactly zero and all others are untouched. Spread and ranks that use sampled members refer to the very members that are returned and saved.',
     ['inputs', 'configurations', 'schedules'], 'every distribution, number of members, axis, clip value and number of workers',
     'A unit test cannot judge a distribution from a few draws, nor independence across cells.',
     [D, VP, G, GA], [('sampling', D + ': sample_dist_gaussian, sample_dist_gamma; ' + G + ', ' + GA + ': _prob_to_ens')], ['prob_to_ens(), spread(), rank_hist()'], 'statistical testing (Kolmogorov-Smirnov, correlations) with bounds no correct sampler reaches')
prop('C07', 'Ranks of observations among members, with ties broken uniformly',
     'The rank of an observation is one plus the number of smaller members when no member equals it, and otherwise is uniformly distributed, independently per sample, over the ranks it could take among its equals. Samples with missing values have missing ranks when missing values are skipped and are refused otherwise. The reliability index is the sum of absolute deviations of the normalised frequencies from uniformity, for counts and frequencies alike.',
     ['inputs', 'schedules'], 'every ensemble, number and place of ties, member axis, missing value and worker setting',
     'Tests compare with one reference run and never look at the distribution of ties.',
     [U, E, VB], [('ranking and ties', U + ': rankdata, rank_histogram'), ('index', VB + ': reliability_index')], ['rank_hist(), reliability_index()'], 'model-based bounds on ranks; binomial tests of ties')
prop('C08', 'PIT values equal the forecast distribution at the observation',
     'The probability integral transform of an observation is the forecast probability of being at or below it, for every parametric forecast; for observations of exactly zero it is drawn uniformly between zero and that probability when randomisation is on. Draws for zero observations are new in every call and independent between places. For observations drawn from the forecasts the values are uniform.',
     ['inputs'], 'every distribution, observation (also zero) and randomisation setting',
     'Tests check a few values without a point mass at zero.',
     [VP], [('PIT', VP + ': _pit')], ['pit(), rank_hist()'], 'differential testing, and uniformity of calibrated forecasts')
prop('C09', 'CRPS equals the integrated squared distance to the observation',
     'The continuous ranked probability score equals the integral of the squared difference between the forecast distribution and the step at the observation: for ensembles exactly (with ties), for Gaussian and truncated Gaussian and shifted gamma forecasts censored at zero to high accuracy, and for gamma hurdle forecasts within the error of the numerical integration. It is finite and not negative for sharp, vague and deeply truncated forecasts, and splitting an ensemble along its first axis changes nothing.',
     ['inputs', 'configurations'], 'every ensemble or distribution and every observation',
     'Tests compare a few parameter values with a closed form copied from the same source.',
     ['PyAnEn/utils_crps.py', E, G, GA, H], [('closed forms', 'PyAnEn/utils_crps.py: crps_truncated_gaussian, crps_gamma'), ('ensembles', E + ': _crps')], ['crps()'], 'differential testing against quadrature and the pairwise formula')
prop('C10', 'Numerical integration converges to the moments and cleans up after faults',
     'Mean and variance by numerical integration differ from the exact moments by no more than the error of the rule for the given bins and range, for every distribution and for given and default ranges. An integration that fails at any evaluation leaves all settings, the working folder and the task system as they were, and the next integration is right.',
     ['inputs', 'fault_sequences', 'configurations'], 'every distribution, range and number of bins; an exception at every evaluation',
     'Tests integrate one distribution and never make an evaluation fail.',
     [AP, H], [('integration', AP + ': Integration')], ['f_determ(), variance(), integrals', 'settings and files'], 'error bounds of the rule; injected exceptions')
prop('C11', 'Brier scores and their decomposition equal the definitions',
     'The Brier score is the mean squared difference between the forecast probability of the event and its occurrence (strictly above or strictly below the threshold), for scalar and array thresholds. Reliability, resolution and uncertainty equal Murphy\'s decomposition over twenty equal probability bins, are not negative, and recombine to the Brier score when probabilities within a bin are equal.',
     ['inputs'], 'every forecast, observation and threshold, with ties',
     'Tests compare one example; bins at their edges and empty bins are not reached.',
     [S, U, E, VP], [('Brier', E + ', ' + VP + ': _brier'), ('decomposition', S + ': _func_brier_decomp')], ['brier(), brier_decomp()'], 'differential testing against definitions; recombination')
prop('C12', 'ROC curves equal hit and false alarm rates; area is the rank statistic',
     'The curve goes from (0, 0) to (1, 1) without decreasing, each of its points is the pair of false alarm and hit rates of some probability threshold, and the reported area equals both the area under these points and the probability that an event has a higher forecast probability than a non-event (ties count half). It does not change under increasing maps of the probabilities.',
     ['inputs'], 'every set of probabilities (with ties) and events',
     'Tests check one example of the area.',
     [U], [('ROC', U + ': calculate_roc, binarize_obs')], ['roc()'], 'differential testing against the Mann-Whitney statistic')
prop('C13', 'Reliability diagrams conserve samples, probabilities and events',
     'Every sample is in exactly one of the equal probability bins, including probabilities of exactly 0 and 1; the reported means and counts of the bins in use equal the definitions, and weighted by the counts give back the totals of forecast probability and of events. The counts of events and non-events equal those of the observations.',
     ['inputs'], 'every set of probabilities and events and every number of bins',
     'Tests compare one diagram with a library function.',
     [U], [('binning', U + ': _reliability_create_split, _reliability_agg_no_boot')], ['reliability()'], 'conservation laws and definitions')
prop('C14', 'Binned spread-skill pairs sorted spread with the errors of the same samples',
     'The samples are sorted by variance and split into bins whose sizes differ by at most one; the spread of a bin is the root of the mean variance and its error is the root of the mean squared error of the same samples. Spread does not decrease over the bins, and the totals of variance and squared error are conserved in every slice.',
     ['inputs', 'configurations'], 'every set of variances and errors, number of bins and average axes',
     'Tests use one axis and many samples per bin; mixing errors between samples shows only in the order.',
     ['PyAnEn/utils_ss.py'], [('sorting and splitting', 'PyAnEn/utils_ss.py: _binned_spread_skill_create_split')], ['binned_spread_skill()'], 'conservation laws and definitions')
prop('C15', 'Intersection over union equals the ratio of the event sets',
     'The deterministic score is the number of cases where both forecast and observation pass the threshold strictly, divided by the number where at least one does, along the chosen axes; the probabilistic one uses the forecast probability of the event compared with the probability threshold. Exchanging forecasts and observations does not change the deterministic score.',
     ['inputs', 'configurations'], 'every forecast, threshold on either side, probability threshold and average axes',
     'Tests check one threshold on one side.',
     [U], [('sets', U + ': _iou, iou_determ, iou_prob')], ['iou_determ(), iou_prob()'], 'differential testing against sets')
prop('C16', 'Bootstrap intervals are those of resampled means at the given confidence',
     'With bootstrapping, a metric is reported as lower end, mean and upper end, with that dimension first (last for binned results), of the requested number of resamples of the requested size drawn with replacement from the samples of each slice; the ends are the linearly interpolated quantiles of the chosen confidence, whatever the number of repetitions. Correlation and Brier decomposition resample forecasts and observations together, and binned results resample within each bin. Turning bootstrapping off gives the plain result again.',
     ['inputs', 'configurations'], 'every metric, average axes, sample size, number of repeats and confidence',
     'The result is random: tests check shapes only.',
     [U, S, 'PyAnEn/utils_ss.py', VB], [('resampling', U + ': boot_vec, boot_arr, _reliability_agg_boot; ' + S + '; PyAnEn/utils_ss.py')], ['all averaged metrics with boot_samples'], 'comparison with a reference bootstrap at 6.5 standard deviations')
prop('C17', 'Saving intermediate data never changes a result',
     'After any history of metric calls, changes of average axis and bootstrap, reopening the folder, replacing the data and enabling or disabling saving, every metric equals that of a verifier which does not save, and sampled members and randomised ranks stay the same while they are saved. Different arguments never share saved data, data saved under a literal name are in the file of that name and are found again, an incomplete file is never used silently, starting from scratch empties only the given folder and reusing it removes nothing.',
     ['histories', 'crash_points', 'inputs'], 'every history of calls and settings; a saved file cut at every byte',
     'Tests save and load once; stale data need a history of calls with different arguments or axes.',
     [VB], [('save and load', VB + ': to_name, _save, _load, _metric_workflow_1/2/3, _validate_saving')], ['all metrics with a working directory', 'the folder'], 'stateful testing against a verifier without saving; cut files')
prop('C18', 'Computing metrics has no side effects on inputs, settings or later results',
     'Computing any metric leaves the forecasts, observations, thresholds and axis arguments of the caller, all environment settings, the current folder and its files unchanged. Its result depends neither on the metrics computed before, nor on what the caller does to results returned earlier, nor on the memory layout of the arrays or on whether whole numbers are stored as integers.',
     ['histories', 'inputs'], 'every sequence of metric calls on one verifier and every memory layout',
     'Tests compute a metric once on new arrays.',
     [VB, U, 'PyAnEn/utils_ss.py', AP], [('copies before in-place work', 'PyAnEn/utils_ss.py; ' + E + ': _f_determ; ' + VP + ': _pit')], ['inputs, environment and files around all metrics'], 'stateful testing against new verifiers; writing into results')
prop('C19', 'Setters give the same verifier as constructing it that way',
     'After any sequence of setters (average axis, bootstrap, collapsing function, ensemble axis, number and axis of sampled members, clipping, truncation, integration bins and range, saving) mixed with metric calls, every metric equals that of a verifier constructed with the final settings, and each setter returns the verifier itself. The printed description of a verifier shows the shapes of its data and its current settings. The member axis of an ensemble is the one given and, when none is given, the last axis where the other dimensions fit the observations, and otherwise the first.',
     ['histories', 'configurations'], 'every sequence of setters and calls',
     'Tests construct verifiers directly or change one setting.',
     [VB, E, VP, H], [('setters', VB + ', ' + E + ', ' + VP + ', ' + H + ': set_*')], ['all metrics after setters'], 'stateful testing against direct construction')
prop('C20', 'Skipping missing values gives the metric of the remaining data',
     'With missing values skipped, errors, correlation, spread, CRPS, Brier score and its decomposition, ROC, reliability and intersection over union equal those of the data without the missing forecasts and observations, in every slice, and a slice without data is missing. Missing members are left out of spread and probability. Without skipping, errors, correlation, CRPS, spread and the binned spread and skill of a slice with missing values are missing, never a number. The PIT of a missing observation is missing.',
     ['inputs', 'configurations'], 'every pattern of missing forecasts, observations and members',
     'Tests have almost no missing values.',
     [VB, U, S, E], [('masks', U + ': calculate_roc, binarize_obs, rank_histogram; ' + S + ': _func_corr'), ('averages', VB + ': boot_or_avg')], ['all metrics with pyanen_skip_nan'], 'metamorphic testing: data with holes against the remaining data')
prop('C21', 'The Diebold-Mariano test equals its definition',
     'Statistic and p-value equal the Diebold-Mariano test with the Harvey small-sample correction and a t distribution for every loss, horizon and power; exchanging the forecasts flips the sign and keeps the p-value, and units or origin do not matter. A larger loss of the first forecast gives a positive statistic; series of different lengths and invalid horizons or losses are rejected.',
     ['inputs', 'configurations'], 'every pair of series, loss, horizon and power',
     'There is no independent reference in the tests.',
     ['PyAnEn/utils_significance.py'], [('statistic', 'PyAnEn/utils_significance.py: diebold_mariano_test')], ['diebold_mariano_test()'], 'differential testing against the formula, and symmetry relations')
prop('C22', 'Grid matrices and NetCDF files come back as written',
     'A written grid matrix parses back to exactly the same numbers and dimensions, and an existing file is neither changed nor replaced unless overwriting is asked for. An opened data set has exactly the stored data, decoded names, and coordinates and times for its dimensions (also from groups), with one name for the time dimension; station coordinates are read unchanged. Files of several ranks are combined in the numeric order of the ranks with the coordinates of each station next to its data.',
     ['inputs', 'configurations'], 'every matrix, data set, group and set of rank numbers',
     'Tests read no files of several ranks and few small ones.',
     ['PyAnEn/Grid.py', 'PyAnEn/IO.py'], [('writing', 'PyAnEn/Grid.py: write_matrix'), ('reading', 'PyAnEn/IO.py: open_dataset, open_mfdataset')], ['write_matrix(), read_station_coordinates(), open_dataset(), open_mfdataset()'], 'round trips through generated files')
prop('C23', 'Inputs that do not fit together are rejected',
     'Forecasts and observations of different shapes (also ones that would broadcast), missing distribution parameters, wrong types, average axes out of range, ensemble axes that are not first or last, both or neither of the two threshold sides, array thresholds of another shape, probabilities outside [0, 1], more bins than samples and sampling without a number of members raise an exception, at construction, through setters or when the metric is computed. No number is returned for them.',
     ['inputs', 'configurations'], 'every kind of invalid input for every forecast type',
     'Tests hardly test rejections.',
     [VB, VD, E, VP, G, GA, H, U], [('validation', 'all _validate methods; ' + U + ' assertions')], ['constructors, setters and metrics'], 'generated invalid inputs')
prop('C24', 'The truncated gamma distribution is a consistent distribution',
     'Density, distribution function, survival function and quantiles of the truncated gamma distribution equal those of a gamma distribution conditioned on lying between the bounds, for scalar and array parameters, location and scale: zero below the lower and one above the upper bound, and inverse to each other. Random members lie between the bounds and follow the distribution.',
     ['inputs'], 'every shape, bounds, location and scale',
     'Tests check a few values.',
     ['PyAnEn/dist_truncgamma.py'], [('distribution', 'PyAnEn/dist_truncgamma.py: truncgamma_gen')], ['truncgamma_gen'], 'differential testing against regularized gamma functions')
prop('C25', 'Correlation is the Pearson correlation of forecasts and observations',
     'The correlation along the chosen axes equals the Pearson coefficient of the deterministic forecasts and observations in each slice, lies in [-1, 1] and is 1 or -1 for linear relations. It does not depend on units, on which series comes first, or on the order of the samples.',
     ['inputs', 'configurations'], 'every data and average axes',
     'Tests check one axis.',
     [S], [('correlation', S + ': corr, _workflow, _func_corr')], ['corr()'], 'differential testing against the definition; invariances')

exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p) + '\n')

checks = [{'property': p['id'], 'quick_cmd': 'bash run.sh ' + p['id'], 'thorough_cmd': 'bash run.sh ' + p['id'] + ' --tier thorough',
           'technique': 'property-based testing: ' + note, 'level': 'exploration',
           'level_note': 'Generated cases (own uniform generator and Hypothesis, both shrinking) against an explicit oracle; holds on what was generated, seed by VERIF_SEED. Assumptions are listed in the evidence file.'}
          for p, note in P]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the checks use the public interface of /repo\'s working tree only. Ray is replaced by a stand-in inside the checks.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
