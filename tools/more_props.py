prop('C26', 'Metrics do not depend on units, origin or the order of samples and members',
     'Changing the units of forecasts, observations and thresholds changes metrics only by the power of the factor they carry: one for error, absolute error, RMSE, CRPS, spread and the deterministic forecast, two for squared error and variance, none for correlation, probabilities, scores, curves, ranks and PIT values. Moving the origin changes nothing but the deterministic forecast (for forecasts not bounded at zero), and turning all signs exchanges above and below. Averages over all samples do not depend on the order, shape or common multiplicity of the samples, and ensemble metrics do not depend on the order or common multiplicity of the members.',
     ['inputs', 'configurations'], 'every forecast type, data, unit, origin, threshold and permutation',
     'Tests use values around one and one order; a hidden constant or a dependence on order shows only under a change of units or order.',
     [VB, U, S, E, D], [('all metrics', VB + '; ' + U + '; ' + S), ('thresholds', U + ': ens_to_prob, binarize_obs; ' + D)], ['all metrics'], 'metamorphic testing: units, origin, sign, order and repetition')
prop('C27', 'Settings in the environment act as documented, at every call',
     'Settings present in the environment when the package is imported are kept, the others get their documented defaults, and the settings are printed as they are. A setting counts at the time a metric is computed, not when the verifier was made, an explicit argument wins over a setting, and a setting and the argument of the same meaning give the same result. Switches accept the usual spellings of on and off and refuse others, an unknown probability method is refused, and with progress bars off nothing is written to the terminal. Memory mapped integrations use the folder given as argument, else as setting, else of the verifier, else the current one, and the default range of an integration extends the observations by the configured multiple of their range.',
     ['configurations', 'histories', 'inputs'], 'every combination and spelling of settings, at import and between calls',
     'Tests set one or two settings once and never change them between calls.',
     ['PyAnEn/__init__.py', U, S, 'PyAnEn/utils_ss.py', AP, E], [('defaults', 'PyAnEn/__init__.py'), ('reading settings', U + '; ' + S + '; PyAnEn/utils_ss.py; ' + AP)], ['os.environ, print_settings() and all metrics'], 'differential testing: settings against arguments, changed against new; generated environments at import')
