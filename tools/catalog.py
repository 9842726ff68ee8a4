"""Writes properties.jsonl and MANIFEST.json from one table: python tools/catalog.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        line=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)),
        check=dict(property=id, quick_cmd=f"/opt/venv/bin/python check.py {id}",
                   thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {id}",
                   technique=technique, level="exploration", level_note=note)))


EST = ["precise/base.py", "precise/empirical.py", "precise/ewa.py", "precise/_state.py"]
ALL = "every public estimator, every accepted parameter setting, every finite data stream, every prefix"

prop("C01", "Every reading, at any moment, is a valid covariance",
     "After every observation, for every estimator and every finite stream of reasonable magnitude "
     "(constant, duplicated, collinear, all-zero, fewer rows than columns, heavy-tailed, far from zero, "
     "tiny or huge), the reported covariance is a finite, symmetric, positive semi-definite matrix of the "
     "right shape up to rounding, and the reported mean is finite and of the right length. The "
     "observation count equals the number of observations delivered (one fewer for difference mode).",
     ["inputs", "histories", "configurations"], ALL,
     "The tests read a few well-behaved Gaussian streams at their end; degenerate streams, early prefixes "
     "and extreme scales are not reached.",
     ["precise/base.py", "precise/_linalg.py", "precise/tyler.py", "precise/geodesic.py", "precise/huber.py",
      "precise/schurcov.py", "precise/schur_conditional.py", "precise/dcc.py"],
     [("symmetrisation on read", "precise/base.py covariance_"), ("eigenvalue floors", "precise/_linalg.py"),
      ("pseudo-inverse fallback", "precise/_linalg.py try_invert")],
     ["covariance_", "location_", "n_samples_"],
     "runtime invariant monitor on every read over generated hostile streams",
     "Held on the executions driven (5 400 streams quick, about six times that thorough, each read at many "
     "prefixes). Trusts LAPACK eigenvalues.")
prop("C02", "Correlations are the covariance normalised, at every scale",
     "The reported correlation matrix has unit diagonal for every variable whose variance is positive, zero "
     "row and column for a variable with zero variance, entries within [-1, 1], is positive semi-definite, and "
     "equals the covariance divided by the product of standard deviations. This holds equally when the "
     "data are of order 1e-7 or 1e6, and for the correlation readings of the keyed (named) views.",
     ["inputs", "configurations"], "every estimator, stream and data scale from 1e-7 to 1e6",
     "Tests normalise unit-scale data only, so absolute floors in the normalisation are invisible to them.",
     ["precise/base.py", "precise/_linalg.py", "precise/keyed.py"],
     [("normalisation", "precise/_linalg.py cov_to_corrcoef")], ["correlation_", "get_corr"],
     "runtime invariant monitor with an independent normalisation oracle",
     "Exploration over estimators x stream kinds x scales.")
prop("C03", "Precision, Mahalanobis distance and score agree with the estimate",
     "Where the covariance is invertible, the precision matrix is its symmetric inverse, the Mahalanobis distance of "
     "any row is the quadratic form of that inverse about the reported mean, and the score is the "
     "average Gaussian log-density of the rows; one row may be given as a vector. Where it is singular (few rows, "
     "constant columns) the pseudo-inverse is used: the precision is finite, no reading raises or is NaN. Scoring changes nothing.",
     ["inputs", "configurations"], "every estimator, stream and set of scored rows",
     "Tests check a few fitted matrices of small dimension; conditioning, batch shapes and purity are not quantified.",
     ["precise/base.py", "precise/_linalg.py"],
     [("inversion with fallback", "precise/_linalg.py try_invert"), ("scoring", "precise/base.py score, mahalanobis")],
     ["precision_", "mahalanobis", "score"],
     "online oracle: SciPy Cholesky solve and Gaussian density on the same reading",
     "Exploration; tolerance scales with the condition number.")
prop("C04", "How a history is delivered does not matter; refitting starts afresh",
     "Feeding a history row by row, as one batch, or in any chunks (empty ones included) leaves an estimator in the same "
     "state. Fitting on a batch discards everything learned before, so a used estimator that is refitted equals "
     "a fresh one. The keyed views equally do not depend on whether observations come one at a time or in bulk.",
     ["histories", "inputs"], "every estimator, history and way to cut it into deliveries",
     "Tests compare one split of one stream for some estimators.",
     ["precise/base.py", "precise/keyed.py"], [("batch loop", "precise/base.py partial_fit, fit")],
     ["every public reading"], "metamorphic twin-execution monitor over random delivery schedules",
     "Exploration; equality up to rounding.")
prop("C05", "A checkpoint at any moment resumes exactly",
     "At any point of a stream, the exported state (through JSON text), a pickle or a deep copy, restored into a fresh "
     "or a previously used instance, gives the same readings immediately and, after the rest of the stream, "
     "bit for bit the same as an estimator that was never interrupted. This includes difference mode and repeated "
     "checkpoints; the exported state carries the learning rate, is strict JSON and is not altered by later learning, and the exporting "
     "instance is unaffected.",
     ["crash_points", "histories", "configurations"], "every estimator, stream, crash point and serialisation path",
     "Tests checkpoint at one point of one stream; most crash points (warm-up edges, difference mode, before data) are untested.",
     ["precise/base.py", "precise/conditional.py"],
     [("state export / import", "precise/base.py get_state, set_state")], ["get_state", "set_state", "pickle", "copy.deepcopy"],
     "crash-point injection with a bitwise twin-execution oracle",
     "Every prefix of short streams is a crash point; exploration over streams and parameters.")
prop("C06", "Caller's arrays are never shared; reading never changes anything",
     "Learning never modifies the caller's data, and a caller who reuses one buffer for successive observations, or "
     "overwrites any array an estimator returned, cannot influence what the estimator has learned or will report. "
     "Any number of readings, scorings or exports between observations leaves all later results bit for bit unchanged.",
     ["histories", "schedules"], "every estimator and keyed view, every interleaving of reads, buffer reuse and result overwriting",
     "Tests never reuse buffers or edit results.",
     ["precise/base.py", "precise/keyed.py", "precise/assessment/base.py"],
     [("copies at the boundary", "precise/base.py"), ("fresh state per update", "precise/_state.py")],
     ["every public reading"], "hostile-caller workload with a bitwise twin-execution oracle",
     "Exploration over random interleavings of reads and writes.")
prop("C07", "Instances are independent, interleaved, threaded or sharing prototypes",
     "Several estimators alive at once, updated in any interleaving or in concurrent threads (one thread per instance), "
     "learn exactly what each would learn alone; and what a process did before (other settings, dimensions, judges, views) changes no reading. Objects handed over as prototypes or component models are never "
     "fitted in place, and two instances built from the same prototype share nothing.",
     ["schedules", "histories"], "every interleaving of updates to several instances, one thread per instance",
     "Tests use one instance at a time.",
     ["precise/base.py", "precise/conditional.py", "precise/keyed.py"],
     [("clone of prototypes", "precise/conditional.py, precise/keyed.py")], ["every public reading"],
     "interleaving and thread-stress workload with a bitwise solo-run oracle",
     "Exploration: random schedules, plus threads at a 1 us switch interval; no claim about sharing one instance between threads.")
prop("C08", "Difference mode equals the plain estimator on first differences",
     "An estimator in difference mode fed levels reports, after every delivery, exactly what the same estimator without that "
     "mode reports after the first differences; the first level alone counts as no observation. Batch "
     "boundaries lose or duplicate no difference, and a refit forgets the last level.",
     ["histories", "configurations"], "every estimator with a difference mode, every stream and delivery schedule",
     "Tests difference one stream in one batch for one estimator.",
     ["precise/base.py"], [("differencing with the kept last level", "precise/base.py partial_fit")],
     ["every public reading"], "metamorphic twin-execution monitor, bitwise",
     "Exploration over delivery schedules.")
prop("C09", "Memory and work per observation do not grow with the history",
     "State size, allocation and work of one update do not depend on how many observations came before, for every estimator "
     "and keyed view, including key sets that keep changing. The diagonal and factor estimators need memory "
     "linear, not quadratic, in the number of variables.",
     ["histories"], "every estimator and keyed view, arbitrarily long streams and key churn",
     "Tests do not measure resources.",
     ["precise/base.py", "precise/keyed.py", "precise/diagonal.py", "precise/factor.py"],
     [("recursive sufficient statistics", "precise/_state.py"), ("eviction", "precise/keyed.py DynamicUniverse")],
     ["reachable object bytes", "allocated bytes", "executed lines"],
     "resource monitor (reachable bytes, tracemalloc, line counting) early versus late in long streams",
     "Bounded progress: thousands of observations; counts lines and bytes, never wall time.")
prop("C10", "Bad input is rejected without a trace; equal data in any form is equal",
     "An observation of the wrong length or dimensionality, non-numeric data, scoring of the wrong width, and readings "
     "before any data raise an error and leave the estimator (or keyed view) exactly as it was, so that later learning is unaffected. "
     "Lists, tuples, integer or Fortran-ordered arrays, views and single rows carrying the same numbers are learned "
     "identically.",
     ["inputs", "fault_sequences"], "every estimator, every moment of a stream, every kind of bad call and representation",
     "Tests reject a few bad shapes on fresh estimators only.",
     ["precise/base.py", "precise/keyed.py"], [("shape validation", "precise/base.py _as_observation / _check")],
     ["exceptions raised", "every public reading"], "fault injection with a bitwise twin-execution oracle",
     "Exploration over random injection points.")
prop("C11", "Parameters describe an instance completely",
     "The parameters read back from an instance rebuild one that behaves identically; so does evaluating its printed form, "
     "or setting them on another instance before fitting. Learning never changes them, and unknown parameter names are refused, setting nothing.",
     ["configurations"], "every estimator and parameter setting",
     "Tests round-trip defaults.",
     ["precise/base.py"], [("signature introspection", "precise/base.py get_params, set_params, __repr__")],
     ["get_params", "set_params", "repr"], "round-trip monitor with bitwise behavioural comparison", "Exploration over random configurations.")
prop("C12", "The empirical estimator is the exact population covariance of all data",
     "After any number of observations the empirical estimator reports the sample mean and the population (divide by n) "
     "covariance of everything seen, with equal weights, including long histories and data far from zero.",
     ["inputs", "histories"], "every finite stream and prefix", "Tests compare one stream at its end.",
     ["precise/empirical.py", "precise/_state.py"], [("Welford recursion", "precise/_state.py emp_update")],
     ["covariance_", "location_"], "online reference-model monitor (two-pass extended precision)", "Exploration; 1e-9 relative tolerance.")
prop("C13", "The EWA and diagonal estimators weight history exactly as documented",
     "For about the first 1/r observations (between 5 and 250) the exponentially weighted estimator is the plain empirical "
     "one; after that every observation moves mean and covariance by exactly the fraction r, deviations being taken from the previous mean. "
     "The diagonal estimator reports exactly the same variances and zero covariances.",
     ["inputs", "histories", "configurations"], "every rate in (0, 1], stream and prefix", "Tests sample one rate.",
     ["precise/ewa.py", "precise/diagonal.py", "precise/_state.py"], [("recursion", "precise/_state.py ewa_update")],
     ["covariance_", "location_"], "online reference-model monitor (extended-precision recursion and explicit weights)", "Exploration.")
prop("C14", "Shrinkage estimators apply their published intensity to the right target",
     "The OAS, Ledoit-Wolf and fixed-intensity estimators equal the running recency-weighted covariance combined convexly with "
     "their target (scaled identity, or constant correlation), with the published intensity formula. The intensity lies in [0, 1]; total "
     "variance is preserved; with the constant-correlation target the variances are untouched.",
     ["inputs", "configurations"], "every stream, prefix and parameter", "Tests check positive-definiteness and one comparison.",
     ["precise/oas.py", "precise/ledoitwolf.py", "precise/shrunk.py", "precise/_linalg.py"],
     [("intensity formulae", "precise/oas.py, precise/ledoitwolf.py, precise/shrunk.py")], ["covariance_"],
     "online reference-model monitor plus structural invariants", "Exploration; the one-variable and rank-one 0/0 corner of the first two observations is left out.")
prop("C15", "The Huber estimator bounds the influence of any outlier",
     "Past the warm-up, an observation within the cutoff Mahalanobis distance moves the estimate exactly as exponential weighting "
     "would, and one beyond it is pulled in along its own direction to the cutoff, so its effect on mean and covariance is "
     "bounded and does not depend on how far away it was.",
     ["inputs", "configurations"], "every stream, cutoff, rate and outlier magnitude", "Tests inject one outlier size.",
     ["precise/huber.py"], [("Mahalanobis weight", "precise/huber.py")], ["covariance_", "location_"],
     "online reference-model monitor and before/after influence oracle with injected outliers", "Exploration.")
prop("C16", "The adaptive estimator's rate stays in range and follows surprise",
     "Past the warm-up every step uses one common rate for mean and covariance, never below the base rate nor above the maximum; the "
     "rate equals the base rate in calm periods, grows with smoothed surprise after a change in regime, and relaxes again.",
     ["inputs", "histories", "configurations"], "every stream and rate pair", "Tests compare end errors on one regime change.",
     ["precise/adaptive.py"], [("smoothed surprise and clamp", "precise/adaptive.py")], ["covariance_", "location_"],
     "online monitor inferring each step's rate, plus a reference model", "Exploration.")
prop("C17", "The Tyler estimator is a unit-diagonal shape blind to radial size",
     "The Tyler estimator's covariance is always a correlation-like matrix with unit diagonal, and an observation's effect on it depends only on its "
     "direction from the current mean, not its distance. Rescaling the whole stream leaves it unchanged, and heavy or degenerate "
     "starts do not freeze it.",
     ["inputs"], "every stream, rate and radial rescaling", "Tests use one elliptical sample.",
     ["precise/tyler.py"], [("Mahalanobis-normalised update", "precise/tyler.py")], ["covariance_"],
     "online reference-model monitor and metamorphic direction oracle", "Exploration; scales at or above 1e-5 of unit.")
prop("C18", "Entrywise Schur estimators damp only between blocks, by exactly gamma",
     "Variables are split into contiguous near-equal blocks; within-block entries are left as tracked, cross-block entries are zero (block estimator), or multiplied by "
     "exactly the fixed or estimated reliability in [0, 1] (Schur estimators; geodesic interpolation ends at the same two matrices). Zero reliability "
     "gives the block-diagonal, full reliability the undamped estimate; the block estimator's precision is block-diagonal too.",
     ["inputs", "configurations"], "every stream, block count, gamma and interpolation", "Tests use one partition.",
     ["precise/block_covariance.py", "precise/schurcov.py", "precise/schur_ledoit_wolf.py", "precise/_linalg.py"],
     [("partition", "precise/_linalg.py / block_covariance.py"), ("damping", "precise/schurcov.py")],
     ["covariance_", "gamma_", "precision_"], "online reference-model monitor plus block-structure invariants", "Exploration.")
prop("C19", "The conditional Schur estimator damps block regressions by reliability",
     "Block by block, the estimator conditions on earlier blocks with a ridged regression damped by an estimated reliability in "
     "[0, 1]: near one for strongly dependent data, near zero for noise; with one block it is the plain tracked covariance, and the first block's "
     "entries are untouched.",
     ["inputs", "configurations"], "every stream, rate and block count", "Tests check positivity and one example.",
     ["precise/schur_conditional.py"], [("reliability and recursion", "precise/schur_conditional.py")],
     ["covariance_", "gamma_"], "online reference-model monitor", "Exploration.")
prop("C20", "The DCC estimator separates volatility from correlation",
     "The covariance is exactly D R D: each variance follows its own exponential recursion at the volatility rate, and R is the normalised "
     "exponential average, at the correlation rate, of residuals standardised by the variances they have just updated. Changing one rate never affects the other part's own recursion, and rescaling a "
     "series never changes R.",
     ["inputs", "configurations"], "every stream and rate pair", "Tests check one stream.",
     ["precise/dcc.py"], [("two recursions", "precise/dcc.py")], ["covariance_", "correlation_"],
     "online reference-model monitor", "Exploration; variances above the absolute floor 1e-12.")
prop("C21", "Composed volatility-correlation models never look ahead",
     "In a composed model each series' volatility model sees only that series, once per observation and in order; each residual given to the correlation "
     "model is standardised by the forecast made before the observation arrived (neutral when there is no forecast yet). The covariance is the correlation model's "
     "correlation scaled by the current forecasts, and nothing reported depends on future data.",
     ["histories", "configurations"], "every pair of component models, stream and prefix", "Tests check two compositions at the end of one stream.",
     ["precise/conditional.py"], [("forecast-then-observe loop", "precise/conditional.py")], ["component model call log", "covariance_"],
     "offline checker over recorded component-call event logs", "Exploration; component stand-ins record every call.")
prop("C22", "The factor estimator is low rank plus diagonal with exact total variances",
     "The covariance is the sum of at most k rank-one components, learned by the published incremental recursion, and a non-negative diagonal that tops every variance "
     "up to the tracked total variance. Its diagonal never falls below the tracked variances, a dominant common factor is found, "
     "and rescaling the data rescales the result.",
     ["inputs", "configurations"], "every stream, k and rate", "Tests check one planted factor at unit scale.",
     ["precise/factor.py"], [("CCIPCA recursion", "precise/factor.py")], ["covariance_"],
     "online reference-model monitor plus rank and diagonal invariants", "Exploration.")
prop("C23", "The partial-moments estimator is the sum of four quadrant scatters, repaired",
     "The covariance equals the sum of the four semi-deviation (up/down) scatter matrices at the documented weights, and where that sum is not "
     "positive definite the nearest positive semi-definite matrix.",
     ["inputs", "configurations"], "every stream, prefix and rate", "Tests compare one stream.",
     ["precise/partialmoments.py", "precise/_linalg.py"], [("four scatters", "precise/partialmoments.py")], ["covariance_"],
     "online reference-model monitor", "Exploration.")
prop("C24", "The geodesic estimator steps along the affine-invariant geodesic",
     "Past the warm-up, every observation moves the covariance exactly the fraction r of the way along the affine-invariant geodesic towards "
     "that observation's regularised outer product, so the log-determinant moves linearly and strict positive definiteness is never lost. The "
     "public geodesic and distance helpers satisfy end points, midpoint symmetry and distance proportionality.",
     ["inputs", "configurations"], "every stream, rate, prefix, and pair of positive definite matrices", "Tests check one pair of matrices.",
     ["precise/geodesic.py", "precise/_linalg.py"], [("geodesic step", "precise/_linalg.py geodesic_step")], ["covariance_"],
     "online step oracle (before/after geodesic identity)", "Exploration; tolerance scales with conditioning.")
prop("C25", "Estimates transform with the data",
     "Translating the data shifts the mean and leaves the covariance alone; permuting variables (within blocks, for blocked estimators), flipping signs or rescaling "
     "units, and, for rotation- or linearly-equivariant estimators, rotating or linearly mapping the data, transforms the estimate "
     "correspondingly. The empirical estimator also ignores the order of observations, and keyed views the order of names in an observation.",
     ["inputs", "histories"], "every estimator, stream and transformation", "Tests contain almost no metamorphic relations.",
     ["precise/*.py"], [("deviations from running means; relative floors", "precise/")], ["covariance_", "location_"],
     "metamorphic twin-execution monitor", "Exploration; estimators with absolute priors or floors are judged only on the transformations they claim.")
prop("C26", "Old history is forgotten at the documented rate",
     "Two estimators with different pasts that then see the same observations converge to the same readings at the documented geometric rate, neither much "
     "slower nor faster; one past observation's weight in the mean is exactly r(1-r)^age, and warm-up observations share equal weights. The empirical estimator never forgets.",
     ["histories", "configurations"], "every recency-weighted estimator, pair of pasts and common suffix", "Tests never compare two histories.",
     ["precise/_state.py", "precise/*.py"], [("geometric weights", "precise/_state.py ewa_update")], ["covariance_", "location_"],
     "twin-history convergence monitor and impulse-response oracle", "Bounded-horizon exploration.")
prop("C28", "Matrix repair and inversion helpers do what their names say on any matrix",
     "For every finite square matrix: symmetrising averages with the transpose; the eigenvalue floor leaves no eigenvalue below the floor and changes nothing above it; the nearest "
     "positive definite matrix is positive definite and no farther than optimal, and leaves definite matrices alone. Inversion returns the inverse, or "
     "the pseudo-inverse when singular; the definiteness test and correlation normalisation are exact; inputs are never changed.",
     ["inputs"], "every finite matrix of any dimension and scale", "Tests try a handful of matrices.",
     ["precise/_linalg.py"], [("helpers", "precise/_linalg.py")], ["return values"], "online spectral-definition oracle on generated matrices", "Exploration.")
KEYED = ["precise/keyed.py"]
prop("C29", "The fixed keyed view is a positional estimator with names",
     "The first observation of a fixed keyed view sets its names and their order (or an explicit list does). Every later observation is learned as "
     "one row, in any key order: new names are ignored, and a missing name is filled with its last value, the running mean, or zero, as configured "
     "(zero before any value is known). Observing complete dicts equals the positional estimator on the columns; queries answer any "
     "subset in the order asked; unknown names are rejected.",
     ["histories", "inputs", "configurations"], "every estimator, imputation mode, sequence of observations with missing and new names, and query",
     "Tests use two or three names and one gap.", KEYED, [("row assembly and imputation", "precise/keyed.py FixedUniverse")],
     ["get_cov", "cov_array", "keys_", "estimator"], "executable-specification monitor with a positional twin", "Exploration.")
prop("C30", "The dynamic keyed view learns each set of names while it is present",
     "Each distinct set of names has its own estimator, which learns exactly the observations restricted to it, from every observation that "
     "contains all of its names. The set just observed is always tracked. Sets not covered for longer than the staleness limit are dropped and the "
     "number tracked never exceeds the capacity, the least useful going first. Whenever a set of names has kept being present, its covariance equals that of a "
     "positional estimator that saw those rows alone.",
     ["histories", "configurations"], "every estimator, churn pattern, capacity, staleness limit and history",
     "Tests run short histories with one or two changes of the key set.", KEYED,
     [("universe tracking and eviction", "precise/keyed.py DynamicUniverse")], ["cov_array", "get_cov", "keys_"],
     "executable-specification monitor over generated churn histories", "Exploration.")
prop("C31", "A dynamic view's answer is assembled by the documented pair rule and is valid",
     "Every pair of names takes its covariance from the longest-lived, least stale of the tracked key sets holding "
     "both (variances likewise), pairs never seen together take the mean of the known off-diagonal entries, and if the assembled matrix is not positive semi-definite the nearest one is "
     "returned. The answer is a valid covariance, in the order asked, independent of the order, and reading it changes nothing.",
     ["histories", "inputs"], "every estimator, churn history and query across key sets",
     "Tests query one union of two key sets.", KEYED, [("assembly and repair", "precise/keyed.py DynamicUniverse, precise/_linalg.py")],
     ["cov_array", "get_cov"], "executable-specification monitor and spectral repair oracle", "Exploration.")
prop("C32", "All readings of a keyed view are one matrix",
     "The nested-dict covariance, the array form, the correlation readings and the data-frame export hold the same numbers under the same names, symmetric, with plain Python "
     "floats in dicts; the default keys are the fixed names or, in a dynamic view, those last observed; one-shot iterables of names are accepted; editing a reading never changes the view.",
     ["inputs", "histories"], "both views, every estimator, moment and query", "Tests compare a few entries.",
     KEYED, [("reading helpers", "precise/keyed.py")], ["get_cov", "get_corr", "cov_array", "to_frame"],
     "online cross-reading consistency monitor", "Exploration.")
ASSESS = ["precise/assessment/*.py"]
prop("C33", "Likelihood judges equal the Gaussian densities they are named after",
     "The full log-likelihood judge is the average zero-mean Gaussian log-density of the held-out rows; the block judge the sum of the diagonal blocks' densities, ignoring cross-block entries; the "
     "Schur judge the density of the covariance with cross-block entries damped by gamma, with the block and full judges as its ends; the Stein judge minus the Stein loss against the held-out sample covariance.",
     ["inputs", "configurations"], "every covariance matrix, held-out sample, block partition and gamma", "Tests evaluate a few small matrices.",
     ASSESS, [("scores", "precise/assessment/")], ["score"], "online oracle: SciPy Gaussian densities on the same inputs", "Exploration.")
prop("C34", "Frobenius, minimum-variance and variogram judges equal their definitions",
     "The Frobenius judge is minus the distance to the truth relative to the truth's norm, the minimum-variance judge minus the mean squared held-out return of the weights C^-1 1 / 1'C^-1 1, the variogram judge minus the documented pairwise "
     "score; each has the invariances its definition implies (scale, permutation, sign).",
     ["inputs"], "every covariance matrix and held-out sample", "Tests evaluate a few small matrices.",
     ASSESS, [("scores", "precise/assessment/")], ["score", "weights"], "online oracle: explicit formulas with loops", "Exploration.")
prop("C35", "Judges reward the truth, only read, and declare what they need",
     "Given held-out data whose second moments are exactly the truth, the likelihood, Stein, minimum-variance and Frobenius judges score the truth at least as high as any rival, and a rival's log-likelihood regret is its Kullback-Leibler divergence. Judges never modify their inputs, accept the uniform "
     "call with whatever is available, ignore what they declare not to need, and the registry lists each exactly once and selects those usable with the information at hand.",
     ["inputs"], "every truth, rival and held-out sample", "Tests rank one good against one bad matrix.",
     ASSESS, [("registry and scores", "precise/assessment/")], ["score", "all_assessors"], "online propriety oracle with exactly whitened samples", "Exploration.")
prop("C36", "Data descriptors equal their definitions and are invariant as they should be",
     "The covariance features of any window (dimension, sample ratio, effective rank, sphericity, condition, mean off-diagonal correlation, kurtosis and the rest) equal their definitions, are finite plain numbers in their "
     "documented ranges even for degenerate windows, do not depend on the order of rows or variables or on the data's level, and leave the window unchanged.",
     ["inputs"], "every window of any shape and kind", "Tests look at two or three generated windows.",
     ["precise/recommend.py"], [("descriptors", "precise/recommend.py covariance_features")], ["covariance_features"],
     "online oracle: each descriptor recomputed by another formula", "Exploration.")
prop("C27", "Calibration: on stationary data estimators settle at the truth",
     "Fed a long stationary stream of any mean, scale and correlation, Gaussian or moderately heavy-tailed, each estimator's reported mean and variances settle around the true ones, its correlations around the true "
     "ones or their documented shrinkage target (identity, average correlation, damped cross-blocks, Tyler's unit diagonal), and an adaptive one does so again after mean, scale and correlation change; those neither robust nor adaptive report the total variance that exponential weights at their rate give the same data. "
     "(Geodesic variances are a recorded finding.)",
     ["histories", "inputs", "configurations"], "every estimator, window, stationary stream and change of regime",
     "Tests check a couple of unit-scale streams with loose bounds.", EST + ["precise/huber.py", "precise/tyler.py", "precise/dcc.py", "precise/factor.py"],
     [("steady state of each recursion", "precise/*.py _update")], ["covariance_", "location_"],
     "long-run statistical monitor against the generating distribution", "Exploration; allowances are about twice the largest sampling error seen over many seeds.")
prop("C37", "The recommender ranks by its tree, then by the documented heuristic",
     "suggest() on any window ranks all registered estimators by the votes at the window's leaf in the frozen tree (at a threshold: left), ties broken by the documented feature heuristic and then registry order; top=k is a prefix of that ranking, "
     "the result is deterministic, ignores row order, leaves the window alone and without a tree the heuristic alone decides. The tree itself is well formed and every leaf votes (mute leaves are a recorded finding).",
     ["inputs", "configurations"], "every window and every well-formed tree", "Tests check the first suggestion for two windows.",
     ["precise/recommend.py", "precise/_recommender_model.py"], [("tree walk and heuristic", "precise/recommend.py suggest")], ["suggest"],
     "online oracle: independent tree walk and ranking, shipped and random trees", "Exploration; leaves reached are counted.")
prop("C38", "Numpy only, a complete public surface, and no ambient effects or influence",
     "With nothing but numpy installed the whole package imports and works (and asks for pandas by name only where a data frame is requested); every exported and documented name exists, the registry lists every exported positional "
     "estimator once, hands out fresh lists and rejects unknown names with KeyError; importing the removed skater interface fails with a pointer to its replacement. Using the package writes no file, starts no process or connection, prints nothing, and "
     "leaves global random state, error handling, warning filters and environment alone; readings are bitwise the same under any hash seed, global random seed, working directory or -O, and pickled estimators continue in another process.",
     ["configurations", "inputs"], "every estimator, view, judge and descriptor, in processes with different hash seeds, random seeds, directories and flags",
     "Tests run in one process with every optional package installed, and never look at side effects.",
     ["precise/__init__.py", "precise/registry.py", "precise/skaters/__init__.py", "precise/keyed.py", "precise/conditional.py", "precise/assessment/registry.py"],
     [("public surface", "precise/__init__.py __all__"), ("registry", "precise/registry.py"), ("shim", "precise/skaters/__init__.py"), ("optional pandas", "precise/keyed.py to_frame")],
     ["import system", "audit events", "readings"], "child processes under an import blocker and an audit-hook monitor; differential digests of all readings",
     "Exploration; bitwise comparison is between processes on one machine with one BLAS thread.")
prop("C39", "Schur theory: every closed form equals the quantity it stands for",
     "In the research modules on Schur damping: the composite likelihood operator is the sum of damped conditional Gaussian densities, its expectation is exact and maximal at the damped truth; the maximiser is found for every block partition and damping; "
     "the damping at which positive definiteness fails is the stated root; canonical correlations, signal-to-noise ratios and the optimal damping equal their eigenvalue definitions and what simulation gives; "
     "quadratic-form moments are exact; nothing modifies its inputs. (A double count in the delta-method gradient is a recorded finding.)",
     ["inputs", "configurations"], "every truth, candidate, block partition and damping", "Tests evaluate the formulas at one or two hand-picked matrices.",
     ["research/schur_likelihood_theory.py", "research/schur_gamma_star.py", "research/schur_godambe.py", "research/schur_spiked.py"],
     [("likelihood operator and maximiser", "research/schur_likelihood_theory.py"), ("optimal damping", "research/schur_gamma_star.py"), ("sandwich variance", "research/schur_godambe.py"),
      ("spiked asymptotics", "research/schur_spiked.py")], ["return values"],
     "online oracle: SciPy conditional densities, eigenvalue formulas, exact moments, random search and simulation", "Exploration; simulated quantities are judged within several standard errors.")
prop("C40", "Out-of-sample benchmarks never judge on what was seen",
     "In the out-of-sample harnesses (leave-one-ensemble-out, leave-one-family-out with retraining, rolling equity windows) the held-out family or later rows never reach the choice of estimator or the training of the tree; within one trial every estimator and "
     "the recommender see the same window and are scored on one fresh test set drawn from the declared covariance and tail; a failing estimator ranks last; the best fixed choice, ranks, volatilities, pick counts and report equal those recomputed from the recorded events; a seed reproduces the run.",
     ["histories", "inputs", "configurations"], "every set of ensembles, estimators, window lengths, steps and seeds", "Tests check that results have the right keys.",
     ["research/oos.py", "research/oos_equity.py"],
     [("leave one ensemble out", "research/oos.py leave_one_ensemble_out"), ("retrained variant", "research/oos.py leave_one_family_out_trained"), ("rolling windows", "research/oos_equity.py rolling_oos")],
     ["fit, score and suggest events", "reports"], "recorded event log of the harness judged by an offline protocol checker",
     "Exploration; estimators, judge and recommender are recording stand-ins in most runs, the real ones in the rest.")
prop("C41", "Freezing the recommender: the exported tree is the trained tree",
     "Training the recommender writes a numpy-only model module whose features, scaling, classes and leaf votes are those of the training data and classifier, so that the package's own walk predicts what the classifier predicts; nothing but that module is "
     "written; training labels name the registered estimator that scored best on each problem, with the features of the window it saw, and a seed reproduces them.",
     ["inputs", "histories"], "every training set and probe window", "Tests use the shipped model only and never train.",
     ["research/train_recommender.py", "precise/recommend.py"],
     [("training set", "research/train_recommender.py generate"), ("export", "research/train_recommender.py freeze"), ("walk", "precise/recommend.py")],
     ["the written module", "suggest"], "differential monitor: training in a scratch copy, frozen walk against the classifier, leaf recount", "Exploration; trained in a scratch copy so the shipped model is untouched.")
prop("C42", "Finite data never cause a floating-point fault or a warning",
     "Fitting and reading any estimator, keyed view, judge or descriptor on finite data of reasonable magnitude, however degenerate, performs no division by zero, no invalid operation and no overflow and issues no warning; readings do not "
     "depend on the caller's floating-point error or warning settings, and these are left as they were. (The Stein loss of a held-out sample with a singular covariance, infinite by definition, and minimum-variance weights and distances under a zero or vanishing covariance, undefined, are exempt.)",
     ["inputs", "histories", "configurations"], "every component, setting, stream kind and prefix", "Tests run with warnings ignored and look at final values, so a transient fault or a warning is invisible.",
     ["precise/*.py", "precise/assessment/*.py"], [("guarded divisions and roots", "precise/_linalg.py, precise/tyler.py, precise/dcc.py"), ("fallback inverses", "precise/_linalg.py try_invert")],
     ["floating-point flags", "warnings", "readings"], "floating-point sanitizer: hardware flags trapped through numpy, warnings as errors, differential against an untrapped run",
     "Exploration; faults inside LAPACK are seen only where numpy reports them.")
prop("C43", "The bake-off: declared truths, fresh test sets, honest leaderboards",
     "Every bake-off scenario draws training and test rows from its declared covariance (heavy-tailed, contaminated, regime-switching or short as declared, the truth being that of the test rows), test rows are fresh, and a seed reproduces it. "
     "Every registered estimator is scored by every usable judge on every scenario with the values an independent fit gives, and leaderboard means, ranks and winners are those of the score table.",
     ["inputs", "configurations"], "every dimension, sample size, seed and score table", "Tests check that the tables have the right keys.",
     ["research/bakeoff.py"], [("scenarios", "research/bakeoff.py build_scenarios"), ("leaderboard", "research/bakeoff.py")],
     ["score tables", "leaderboard text"], "statistical monitor of scenarios; independent rescoring and leaderboard recomputation", "Exploration.")
prop("C44", "Which judge has power: formulas exact, powers honest frequencies",
     "In the metric-power study every candidate judge, the divergence, subspace, block and Schur-damped likelihoods equal their formulas (one block, the whole space or no damping being the full likelihood), and perturbed estimates are positive definite. Each experiment scores both "
     "estimates of a pair on the same rows, skips near-ties, takes as better the one closer to the truth whatever its label, and reports the frequency with which a judge agreed, reproducibly from its seed; the printed tables are those numbers, best judge first.",
     ["inputs", "configurations"], "every covariance, sample, direction set and experiment size", "Tests run two small experiments and check keys and ranges.",
     ["research/metric_power.py"], [("judges", "research/metric_power.py METRICS"), ("power", "research/metric_power.py run"), ("composite judges", "research/metric_power.py block_pseudo_loglik")],
     ["judge values", "judge calls", "powers"], "online oracle per judge; powers recounted from recorded judge calls, and oracle judges planted in the experiment", "Exploration; experiments are run at reduced size.")
prop("C45", "Each estimator is better at what it is for",
     "Against the truth, averaged over paired series: under gross outliers Huber and Tyler beat the EWA at the same rate by a wide margin; when dimension approaches the window, Ledoit-Wolf, OAS and fixed shrinkage do; the constant-correlation target wins where correlations are equal; the "
     "EWA beats the running sample after a change and loses in calm, the adaptive EWA recovers faster after a change in scale and loses little in calm; the factor estimator wins on factor data, block and Schur estimators on block data, DCC and compositions after a "
     "volatility change, difference mode on random walks. The same holds fitted in one batch or behind a keyed view.",
     ["inputs", "configurations"], "every data set of the stated kind, at any scale, dimension and rate in range",
     "Tests check one or two such effects on one seed; an implementation can stay a valid covariance and lose its purpose.",
     ["precise/huber.py", "precise/tyler.py", "precise/ledoitwolf.py", "precise/oas.py", "precise/shrunk.py", "precise/adaptive.py",
      "precise/factor.py", "precise/schurcov.py", "precise/schur_ledoit_wolf.py", "precise/schur_conditional.py",
      "precise/block_covariance.py", "precise/dcc.py", "precise/conditional.py"],
     [("robust weights", "precise/huber.py"), ("shrinkage", "precise/ledoitwolf.py"), ("adaptation", "precise/adaptive.py"), ("factor structure", "precise/factor.py")],
     ["covariance_", "correlation_"], "statistical monitor: paired races against a known truth, judged by the geometric mean of error ratios",
     "Exploration; bounds lie about a third above the largest ratio seen in 224 series per race on the unchanged tree.")
prop("C46", "Web editions of the papers keep the equation numbers",
     "Converting a paper for the web (docs/_webtex.py) numbers every equation environment in order of appearance, labelled or not, turns each into display math, each equation label into a tag with that number and each \\eqref, before or after its equation, into that number "
     "in parentheses; everything else (starred environments, other labels and references, commented-out lines, any language) is untouched. A reference to a label no equation has stops the build with its name and writes nothing; the source is never changed and converting twice gives the same page.",
     ["inputs"], "every document made of prose, equation environments, labels, references and comments, and the repository's own papers",
     "There is no test of the site build.", ["docs/_webtex.py", "docs/build_paper.sh"],
     [("numbering", "docs/_webtex.py process_equation"), ("references", "docs/_webtex.py resolve_eqref")], ["output file", "exit status"],
     "constructive oracle: documents assembled together with their web form; independent scanner on the real papers", "Exploration; align-like environments, which the papers do not use, are not generated.")
prop("C47", "What the documentation shows works; what is shipped is the whole package",
     "Every Python example in the README, the migration guide, the skill file, the home page and the docstrings runs as written on any stream, and the objects it builds are what the text says (observations counted, valid symmetric covariance, unit-diagonal correlation, batch fit equal to streaming, "
     "keyed views holding the names fed); every estimator and judge listed exists, is public and registered; the removed functional API fails with an import error. A wheel built from the tree holds exactly the package, needs only numpy, and away from the tree gives the same results; the "
     "post-publish smoke test passes on it and refuses the source tree.",
     ["inputs", "configurations"], "every documented example and name, every stream it may be run on",
     "Tests never execute the documentation or an installed copy.",
     ["README.md", "SKILL.md", "MIGRATING.md", "docs/index.html", "precise/__init__.py", "precise/conditional.py", ".github/smoke.py", "pyproject.toml"],
     [("public surface", "precise/__init__.py __all__"), ("registry", "precise/registry.py"), ("removed API", "precise/skaters/__init__.py"), ("smoke test", ".github/smoke.py")],
     ["example results", "wheel contents", "smoke output"], "documented examples executed under monitors with independent twins; wheel built offline and probed in a subprocess",
     "Exploration; examples that need the optional skaters package run only where it is installed.")
# --- more properties are added above this line ---


def main():
    assert len({p["line"]["id"] for p in P}) == len(P)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["line"]) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy'",
               checks=[p["check"] for p in P], not_applicable=[],
               notes="Pure-Python package: checks import /repo's working tree directly, no build step. "
                     "Replay a violation with: /opt/venv/bin/python check.py CNN --replay FILE")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


main()
