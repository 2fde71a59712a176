"""The properties, as data: tools/gen.py turns this into properties.jsonl and MANIFEST.json."""

PBT = "property-based testing (Hypothesis, sharded, shrinking): "
SEEDED = ("Bounded exploration: no violation in the generated cases, whose number and classes the "
          "evidence file gives. ")

BASE = "precise/base.py"
ALL = ["precise/base.py", "precise/_state.py", "precise/_linalg.py", "precise/_conventions.py"]
NOT_APPLICABLE = {}
NOTES = ("Every check is generated-input search with an explicit oracle; run.py <id> --replay FILE "
         "replays a violation. VERIF_SEED fixes every random choice; VERIF_TIER picks the depth.")

PROPS = []


def P(id, title, statement, over, forall, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                      files=files, mech=mech, tech=PBT + tech, note=SEEDED + note))


P("C01", "A valid covariance after every observation of every stream",
  "After every observation of any stream of finite values, every shipped estimator (and every "
  "volatility x correlation composition) reports a finite, exactly symmetric, positive semi-definite "
  "covariance (up to rounding) of the right shape, a finite correlation with entries in [-1, 1], a "
  "finite precision and a location inside the range of the data, and the right number of samples. "
  "This includes streams that are constant, repeated, rank-deficient, heavy-tailed, with outliers, "
  "flat or duplicated variables and very different scales; variances do not exceed the squared "
  "spread of the data, the shape-only estimator has a unit diagonal, and no observation makes an "
  "update or a read raise or hang.",
  ["inputs", "histories", "configurations"],
  "all estimators, hyper-parameters, finite streams (p up to 140, n up to 420), at every prefix",
  "The tests look at a handful of well-behaved Gaussian samples, mostly at the end of the stream; "
  "the failures live in degenerate prefixes and configurations.",
  ["precise/base.py", "precise/_linalg.py", "precise/_state.py", "precise/tyler.py",
   "precise/dcc.py", "precise/factor.py", "precise/geodesic.py", "precise/partialmoments.py",
   "precise/schur_conditional.py", "precise/conditional.py"],
  [("fitted attributes", "precise/base.py:covariance_/correlation_/precision_"),
   ("projections to positive-definite", "precise/_linalg.py:nearest_pos_def, make_pos_def"),
   ("inversion fallback", "precise/_linalg.py:try_invert")],
  "structured streams, invariant on every prefix",
  "Assumes |x| <= 1e35 and no underflow below 1e-290.")

P("C02", "How a stream is cut into calls never changes the estimate",
  "Feeding rows one at a time, in batches of any sizes, or all at once through fit gives the same "
  "covariance, location and sample count. Fitting forgets everything seen before, whatever its "
  "length or number of variables, and a fitted estimator continues like any other when more rows "
  "arrive. An empty batch changes nothing, and a fit on too few rows leaves the estimator unfitted, "
  "without a number of features. Both calls return the estimator itself.",
  ["inputs", "histories", "configurations"],
  "all estimators, streams and cuts into 1d rows, 1-row and multi-row batches; all earlier data",
  "Tests compare one split for some estimators; equality must hold for every cut and every history.",
  [BASE, "precise/_conventions.py", "precise/conditional.py"],
  [("row loop", "precise/base.py:partial_fit"), ("reset", "precise/base.py:fit")],
  "metamorphic relation between cuts of one stream",
  "Compared within 1e-9 of the estimate's scale.")

P("C03", "A saved state resumes the stream exactly",
  "At any point of any stream, the saved state is plain JSON (it survives conversion to text and "
  "back), and an estimator of the same configuration that restores it goes on exactly as the one it "
  "was saved from would have, including on first differences and when the restoring estimator had "
  "seen other data. Saving and restoring share nothing with the caller's objects, and restoring "
  "does not alter the state it is given. All this holds for parameters given as numpy numbers too.",
  ["histories", "crash_points", "inputs", "configurations"],
  "all registered estimators, all points of interruption, all sequences of feeding, saving, rolling "
  "back and restoring elsewhere",
  "Tests restore once, after a fixed number of rows, on one stream; interruption can come at every "
  "row, in the burn-in window or past it, and repeatedly.",
  [BASE, "precise/block_covariance.py"],
  [("serialization", "precise/base.py:get_state, set_state"),
   ("nested state", "precise/block_covariance.py:get_state, set_state")],
  "model-based histories of feed/save/restore, against replaying the seen rows",
  "The reference is the same code run without interruption.")

P("C04", "Copies, pickles, clones and parameters reproduce the estimator",
  "A pickled or deep-copied estimator, copied at any point, continues exactly like the original and "
  "independently of it, for every estimator and composition. An estimator built from another's "
  "reported parameters, or by setting those on a blank one, or by evaluating its printed form, is "
  "unfitted and gives the same results on the same data. The reported parameters are the ones given.",
  ["histories", "configurations", "inputs"],
  "all estimators and compositions, all parameters, all points of copying, chains of copies",
  "Tests pickle one composition once; every configuration and every point of a stream must survive.",
  [BASE, "precise/conditional.py"],
  [("pickling", "precise/base.py:__getstate__, __setstate__; precise/conditional.py"),
   ("parameters", "precise/base.py:get_params, set_params, __repr__")],
  "histories with copies at random points, against the uncopied run",
  "Foreign univariate models are represented by a toy model.")

P("C05", "Reading changes nothing and nothing is shared with the caller",
  "Reading any attribute, scoring, saving or printing, in any order and any number of times between "
  "observations, never changes what an estimator reports later. Overwriting an array it returned, "
  "or the buffer an observation was passed in, has no effect on it, and it never modifies what it "
  "is given. Other estimators in the process and the global random state neither influence it nor "
  "are influenced.",
  ["histories", "inputs", "configurations"],
  "all estimators, streams, interleavings of reads, overwrites, reused buffers and other instances",
  "Tests read once at the end and throw the arrays away; aliasing shows only when a caller reuses "
  "or writes to them.",
  [BASE, "precise/_state.py", "precise/conditional.py"],
  [("state updates return fresh dicts", "precise/_state.py"),
   ("copies on read", "precise/base.py:location_, covariance_"),
   ("previous row for differences", "precise/base.py:partial_fit")],
  "interference runs against an undisturbed run",
  "Compared within 1e-9 of the estimate's scale.")

P("C06", "Correlation, precision, distances and scores follow from the covariance",
  "Correlation is the covariance normalised by its own standard deviations (zero for a variable "
  "without variance), precision is its inverse whenever it is well conditioned, squared Mahalanobis "
  "distances and the mean Gaussian log-likelihood are those of the reported location and "
  "covariance, for one row or many. Asking for any of them before the first observation (or after "
  "the state was cleared, or in a clone, or after a single row when differencing) raises the "
  "documented not-fitted error, a ValueError, and the sample count is then 0.",
  ["inputs", "histories", "configurations"],
  "all estimators, streams, prefixes and query points",
  "Tests check these identities for one estimator on one data set.",
  [BASE, "precise/_linalg.py", "precise/block_covariance.py"],
  [("derived attributes", "precise/base.py:correlation_, precision_, mahalanobis, score"),
   ("normalisation and inversion", "precise/_linalg.py:cov_to_corrcoef, try_invert")],
  "recomputation by solves and Cholesky factors",
  "The inverse is compared only where the unit-diagonal condition is below 1e6.")

P("C07", "Estimating on differences is estimating the differenced stream",
  "With differencing on, an estimator fed any stream in any batches reports exactly what the same "
  "estimator without differencing reports for the first differences of that stream, with one sample "
  "fewer than rows. Refitting starts from a new first row, differences are taken across call "
  "boundaries, and adding a constant to every row changes nothing.",
  ["inputs", "histories", "configurations"],
  "all registered estimators, streams, batchings, earlier fits",
  "Tests check one estimator on one array; the seam between calls and refits is where it breaks.",
  [BASE], [("differencing", "precise/base.py:partial_fit, fit")],
  "metamorphic relation with the differenced stream",
  "Compared within 1e-9 of the estimate's scale.")

P("C08", "Every accepted form of an observation means the same; a bad one changes nothing",
  "An observation or batch given as a list, tuple, integer or single-precision array, strided, "
  "transposed, reversed or read-only view, or data frame has the same effect as the plain array of "
  "the same numbers, and the optional target argument is ignored. An observation of the wrong "
  "length, with the wrong number of dimensions, ragged or not numeric raises an error from update, "
  "distance and score, and leaves the estimator exactly as it was; fit refuses anything but a 2d "
  "batch.",
  ["inputs", "histories", "configurations"],
  "all estimators, sequences of forms, and malformed observations at any point of the stream",
  "Tests use float arrays, and one wrong shape on a fresh estimator.",
  [BASE, "precise/_conventions.py", "precise/conditional.py"],
  [("coercion", "precise/_conventions.py:as_rows"), ("validation", "precise/base.py:_rows, fit")],
  "metamorphic relation between input forms, with fault injection",
  "Rejection means ValueError or TypeError.")

STATE = "precise/_state.py"

P("C09", "The running sample covariance is the population covariance of everything seen",
  "After any stream, the empirical estimator reports the arithmetic mean and the population "
  "covariance (divided by n, two-pass) of all rows seen so far, to close to machine accuracy however "
  "long the stream, however large the common offset and however different the scales. The answer "
  "does not depend on the order of the rows and follows any affine map of the data.",
  ["inputs", "histories"],
  "all streams (p up to 8, n up to 1500, offsets up to 1e8 times the spread), all row orders, all "
  "prefixes",
  "Tests compare one Gaussian sample with numpy; accuracy under offsets and length needs the range.",
  ["precise/empirical.py", STATE], [("running update", "precise/_state.py:emp_update")],
  "differential test against extended-precision two-pass statistics, plus permutation and affine maps",
  "Tolerances grow with the offset as the conditioning of the problem does.")

P("C10", "Exponential forgetting: full, diagonal and block-diagonal",
  "With rate r the exponentially weighted estimator is the sample mean and population covariance of "
  "the rows during a window of min(250, max(5, ceil(1/r))) rows, and afterwards moves mean and "
  "covariance a fraction r towards each row and towards the outer product of its deviation from the "
  "previous mean. The diagonal estimator averages squared deviations from the previous mean (the "
  "first row has none) with weight 1/n in the same window and r after it, and has no covariances. "
  "The block estimator is the same exponentially weighted estimate within each of n contiguous "
  "near-equal blocks (the first ones larger, at most one per variable), zero between blocks, its "
  "eigenvalues floored at 1e-8, and its precision inverts block by block.",
  ["inputs", "histories", "configurations"],
  "r in (0, 1] including rates whose window is clamped at 5 and at 250, n_blocks 1 to 5, all streams "
  "and prefixes",
  "Tests look at recency in one example; the formula, the window's end and the block layout need "
  "every r, p and prefix.",
  ["precise/ewa.py", "precise/diagonal.py", "precise/block_covariance.py", STATE],
  [("window", "precise/_state.py:ewa_burn_n"), ("recursion", "precise/_state.py:ewa_update"),
   ("block split", "precise/block_covariance.py")],
  "differential test against an independent model along the stream",
  "Compared within 1e-8 of the estimate's scale; widened where the model itself is sensitive to "
  "rounding-level changes of its input.")

P("C11", "Shrinkage estimators shrink the weighted estimate by the documented intensity",
  "The fixed-intensity estimator reports (1 - delta) S + delta T, with S the exponentially weighted "
  "covariance and T the constant-correlation target (same variances, the mean correlation) or the "
  "scaled identity. The oracle-approximating and Ledoit-Wolf estimators report the segment between S "
  "and its mean variance times the identity, at the published OAS intensity for effective sample "
  "size max(1/r, 2), respectively at the weighted mean dispersion of the scatter about S after "
  "burn-in times r over the squared distance of S from its target; intensities stay in [0, 1], the "
  "trace (or, for constant correlation, every variance) is kept, and zero intensity returns S.",
  ["inputs", "histories", "configurations"],
  "all r, delta in [0, 1], both targets, all streams and prefixes",
  "Tests check that shrinkage helps on one sample, not which matrix is reported.",
  ["precise/ledoitwolf.py", "precise/oas.py", "precise/shrunk.py", STATE],
  [("intensity", "precise/ledoitwolf.py, precise/oas.py"), ("target", "precise/shrunk.py")],
  "differential test against an independent model, plus segment, trace and diagonal invariants",
  "Where the OAS denominator is pure cancellation the intensity is not compared.")

P("C12", "Block damping: fixed, by reliability, and through block conditionals",
  "With S the exponentially weighted covariance and contiguous near-equal blocks, the fixed-gamma "
  "estimator keeps the blocks and multiplies the covariances between blocks by gamma (or moves gamma "
  "along the geodesic from the block-diagonal part to S); the reliability-weighted one does so with "
  "gamma = clip(1 - r times the weighted mean cross-block dispersion since burn-in / sum of squared "
  "cross-block covariances, 0, 1). The conditional one damps ridge-regressed conditionals of each "
  "block on the earlier ones by gamma = sum of max(0, c^2 - (1 + c^2)/m) / sum of c^2 over "
  "cross-block correlations c, with m = max(2, min(n, (2 - r)/r)). The damping is reported and lies "
  "in [0, 1]; full damping gives the block-diagonal estimate, none (or a single block) gives S.",
  ["inputs", "histories", "configurations"],
  "all r, n_blocks, gamma in [0, 1], both interpolations, streams and prefixes",
  "Tests check positive-definiteness and a few orderings on fixed samples.",
  ["precise/schurcov.py", "precise/schur_ledoit_wolf.py", "precise/schur_conditional.py",
   "precise/_linalg.py"],
  [("damping", "precise/schurcov.py"), ("reliability", "precise/schur_ledoit_wolf.py"),
   ("conditionals", "precise/schur_conditional.py"), ("geodesic", "precise/_linalg.py")],
  "differential test against an independent model, plus end-point relations to other estimators",
  "The conditional estimator is compared where the conditioning block's condition is below 1e7 and "
  "no correlation is of rounding noise.")

P("C13", "Robust estimators bound the influence of an outlier",
  "After burn-in the Huber-type estimator measures each row's Mahalanobis distance from the previous "
  "mean and covariance, shrinks the deviation to c times the square root of p when it is farther, and "
  "otherwise updates like the exponentially weighted estimator, so that one observation, however "
  "large, moves mean and covariance no farther than one at the threshold in that direction. The "
  "Tyler-type estimator uses only directions: each deviation from the previous mean moves the "
  "trace-normalised shape by p u u' / (u' inverse-shape u) with weight 1/n in the window and r after, "
  "its covariance is that shape as a correlation, and the lengths of deviations have no effect on it.",
  ["inputs", "histories", "configurations"],
  "all r and c, streams with outliers up to 1e9 standard deviations at any point and direction",
  "Tests add one fixed set of outliers and compare errors.",
  ["precise/huber.py", "precise/tyler.py", STATE],
  [("clipping", "precise/huber.py"), ("direction-only update", "precise/tyler.py")],
  "differential test against an independent model, then an injected outlier of arbitrary size",
  "Compared while the covariance's unit-diagonal condition is below 1e7.")

P("C14", "The adaptive rate follows surprise, between its limits",
  "During the window the adaptive estimator is the exponentially weighted one; then, for each row, "
  "surprise becomes 0.9 of itself (starting from 1) plus 0.1 of the squared Mahalanobis distance of "
  "the row from the previous estimate divided by p, and the row is learned at rate r times surprise "
  "clipped to [r, max_r]. With max_r equal to r it is exactly the exponentially weighted estimator.",
  ["inputs", "histories", "configurations"],
  "all r and max_r, streams with regime changes of scale, level and shape, all prefixes",
  "Tests compare tracking speed once after one regime change.",
  ["precise/adaptive.py", STATE], [("surprise and rate", "precise/adaptive.py")],
  "differential test against an independent model, plus the degenerate-limits relation",
  "Compared while the covariance's unit-diagonal condition is below 1e7.")

P("C15", "Volatility and correlation compose as H = D R D, one step ahead",
  "A composition standardises each value by the mean and standard deviation its own volatility model "
  "forecast before seeing it (0 and 1 before any), feeds the results to its correlation estimator, "
  "then updates the volatility models; it reports the forecast means, and the correlation "
  "estimate scaled by the forecast standard deviations. This holds for volatility models that are "
  "estimators of this package (a fresh unfitted copy per variable, the templates never fed) and for "
  "foreign univariate models, called once per value in order with a float and their own state and "
  "read at the nearest horizon. The dynamic-conditional-correlation estimator keeps per-variable "
  "variances and a quasi-correlation of residuals standardised by the updated variances, each with "
  "weight 1/n during the window of the slower rate and its own rate after it.",
  ["inputs", "histories", "configurations"],
  "all volatility x correlation pairs, foreign models, r and vol_r, streams, batchings, prefixes",
  "Tests run a few compositions and check shapes and validity.",
  ["precise/conditional.py", "precise/dcc.py"],
  [("standardisation", "precise/conditional.py:partial_fit"), ("recombination",
   "precise/conditional.py:_state_to_cov"), ("DCC recursion", "precise/dcc.py:_update_state")],
  "differential test against a hand-made composition and an independent DCC model",
  "Variances are floored at 1e-12, as documented; foreign models are toy models.")

P("C16", "The factor estimate is low-rank plus diagonal and keeps the tracked variances",
  "The factor estimator tracks each variable's variance about the running mean (weight 1/n for the "
  "first k+1 rows, then r) and k component vectors, each updated with weight r by the deviation "
  "projected on it and deflated before the next, and seeded by the first deviations in turn. It "
  "reports the sum of the components' rank-one parts (strength = length) plus the diagonal that "
  "brings each variance up to the tracked one, never below it; so the covariance is a diagonal plus "
  "a matrix of rank at most k.",
  ["inputs", "histories", "configurations"],
  "k from 1 to 4 (also more than p), all r, streams and prefixes",
  "Tests check validity and that a one-factor sample is roughly recovered.",
  ["precise/factor.py"], [("incremental components", "precise/factor.py:_update_state"),
                          ("assembly", "precise/factor.py:_state_to_cov")],
  "differential test against an independent model, plus rank and variance invariants",
  "Not compared after a component was seeded from a remainder of rounding size.")

P("C17", "Partial moments add up; geodesic steps stay on the curve",
  "The partial-moment estimator's four sign quadrants partition each outer product, so the estimate "
  "is the recency-weighted mean of outer products of deviations from the previous mean (first row: "
  "zero; weight 1/n in the window, then r), valid as it stands. After its window the geodesic "
  "estimator moves a fraction r along the affine-invariant geodesic from its estimate to the outer "
  "product of the new deviation (eigenvalues of both ends floored at 1e-8), so log-determinants "
  "interpolate linearly, while its mean decays at rate r.",
  ["inputs", "histories", "configurations"],
  "all r, streams and prefixes",
  "Tests check validity and one comparison with the exponentially weighted estimator.",
  ["precise/partialmoments.py", "precise/geodesic.py", "precise/_linalg.py"],
  [("quadrants", "precise/partialmoments.py"), ("geodesic", "precise/_linalg.py:geodesic_step")],
  "differential test against independent models (generalised eigenvectors for the geodesic)",
  "Tolerance for the geodesic follows an error bound in the affine-invariant metric.")

P("C18", "Estimates follow a change of origin, order, sign and units of the data",
  "Moving the origin of every variable moves the location by as much and leaves the covariance "
  "alone; reordering the variables (within a block, for block estimators) reorders the estimate, "
  "flipping signs flips the covariances (constant-correlation shrinkage excepted), and a common "
  "change of units rescales the estimate (Factor and Geodesic, which have an absolute scale, "
  "excepted; Tyler's is unchanged). The empirical, exponentially weighted, adaptive, Huber, "
  "diagonal, partial-moments, dynamic-correlation, constant-correlation-shrinkage and "
  "Schur-conditional estimators also follow a change of each variable's own units, the first four "
  "any linear map x -> Ax (covariance A C A'), and Ledoit-Wolf, OAS, identity shrinkage and the "
  "geodesic estimator any rotation. Compositions follow reordering and sign flips.",
  ["inputs", "configurations", "histories"],
  "all estimators and hyper-parameters, with and without first differences, streams, maps each "
  "follows, all prefixes",
  "Tests use data at one origin, order and scale; none relates two runs.",
  ALL + ["precise/diagonal.py", "precise/partialmoments.py", "precise/dcc.py", "precise/factor.py",
         "precise/tyler.py", "precise/shrunk.py", "precise/schur_conditional.py"],
  [("running moments", STATE), ("per-estimator updates", "precise/*.py:_update_state"),
   ("numerical floors", "precise/_linalg.py")],
  "metamorphic relation between a stream and its image, along both streams",
  "Scales near the documented absolute floors (1e-8 eigenvalues, 1e-12 variances) are skipped.")

P("C19", "Memory and work per observation do not grow with the stream",
  "However long a stream has run, an estimator, composition or keyed adapter holds no more memory, "
  "saves no larger state and makes no more calls per observation than it did once past its window; "
  "the dynamic keyed adapter keeps no more key-sets than its limits allow, even if every "
  "observation brings new names. A diagonal, factor or block-diagonal estimator never needs a full "
  "matrix to learn: its state and the memory of one update grow with p, k p, or the sum of squared "
  "block sizes.",
  ["histories", "inputs", "configurations"],
  "all estimators, compositions and adapters, streams of many windows, p up to some thousands",
  "Tests run a few hundred rows and never measure.",
  [BASE, "precise/keyed.py", "precise/diagonal.py", "precise/block_covariance.py",
   "precise/factor.py", "precise/conditional.py"],
  [("one-row update", "precise/base.py:partial_fit"), ("eviction", "precise/keyed.py:DynamicUniverse"),
   ("structured state", "precise/diagonal.py, block_covariance.py, factor.py")],
  "resource invariants (allocated bytes, saved state, calls) over consecutive stretches",
  "Measured with the interpreter's own allocation tracing, so allocator noise is bounded, not zero.")

P("C20", "The fixed-universe adapter is the wrapped estimator on named, imputed rows",
  "The universe is the given names, or those of the first observation, in order; each observation "
  "becomes one row in that order, whatever the order of its own names, a missing name being filled "
  "with its last value (0 if none), the estimator's current mean, or 0, as configured, and an unknown "
  "name ignored. The adapter's covariance, correlation, frame and arrays are those of a fresh copy "
  "of the wrapped estimator fed those rows, labelled and selected by name in the order asked for; "
  "unknown names and reads before the first observation raise. It changes neither the wrapped "
  "instance nor the observations, and its verbs (one, many, update) agree. A deep copy goes on alike, "
  "and independently.",
  ["histories", "inputs", "configurations"],
  "all wrapped estimators, imputations, name types, missing patterns, orders, selections, prefixes",
  "Tests feed a few complete observations and one missing name.",
  ["precise/keyed.py"], [("row building", "precise/keyed.py:FixedUniverse.update"),
                         ("selection", "precise/keyed.py:cov_array")],
  "stateful comparison with an imputation model and the bare estimator, after every observation",
  "The first observation has at least one name.")

P("C21", "The dynamic-universe adapter tracks key-sets as names come and go",
  "Each distinct key-set observed gets a fresh copy of the wrapped estimator; an observation feeds "
  "every tracked set all of whose names it has and makes the others one observation staler; sets "
  "staler than the limit are dropped, then a new key-set is tracked, and if there are then too many "
  "the stalest goes, the shortest-lived among equals. A query (the latest names, or any names in any "
  "order, repeated ones too) reads each pair's covariance, and each variance, from the longest-lived set having both "
  "names (least stale among equals), fills pairs no set has with the mean of the off-diagonal "
  "entries known (0 if none), and returns the nearest positive semi-definite matrix, keyed by name. "
  "The wrapped instance and the observations are unchanged, reads before the first observation raise, "
  "and a deep copy goes on alike, and independently.",
  ["histories", "inputs", "configurations"],
  "all wrapped estimators, limits, histories of key-sets entering, leaving, nesting and returning",
  "Tests run two or three histories and look at shapes and validity.",
  ["precise/keyed.py"], [("tracking and eviction", "precise/keyed.py:DynamicUniverse.update"),
                         ("assembly", "precise/keyed.py:DynamicUniverse.cov_array")],
  "model-based histories against an independent model, queries compared pair by pair",
  "Ties between equally old and stale sets are unspecified, and a name no tracked set has.")

P("C22", "Every assessor computes the score it documents",
  "Higher is better: the log score is the mean Gaussian log-density of the held-out rows about zero; "
  "the block score the sum of such scores over consecutive blocks of the given size (default 10, "
  "last one shorter); the Schur score that of the estimate with the covariances between blocks "
  "(n_blocks contiguous ones, as equal as possible, larger first; default 4) multiplied by gamma "
  "(default 0.5) or, for geodesic interpolation, of the point gamma along the affine-invariant "
  "geodesic from its block-diagonal part to it. The Stein score is minus (tr M - log det M - p), M "
  "the inverse estimate times the held-out covariance (about the mean, over n); the truth score "
  "minus the Frobenius distance to the truth relative to its norm; the minimum-variance score minus "
  "the mean squared return of weights proportional to the inverse estimate times ones, summing to "
  "one; the variogram score minus the mean over rows of the sum over all ordered pairs of squared "
  "differences between |x_i - x_j| and its Gaussian expectation. Scores are plain floats, for "
  "estimates given as arrays, lists or frames, and nothing given is modified.",
  ["inputs", "configurations"],
  "all assessors and parameters, positive-definite estimates up to p = 12 and condition 1e4 at any "
  "scale, held-out samples, truths",
  "Tests compare orderings on a few samples, not values.",
  ["precise/assessment/assessors.py", "precise/_linalg.py"],
  [("scores", "precise/assessment/assessors.py:score")],
  "differential test against independent formulas (Cholesky, eigenvalues, explicit loops)",
  "Compared up to the condition of the estimate; positive-definite estimates only.")

P("C23", "Assessors reward the right answer and are consistent with one another",
  "The log, block and minimum-variance scores are largest at the held-out second moments, the Stein "
  "score at the held-out covariance (where it is 0), the truth score at the truth (0, and negative "
  "elsewhere), the variogram score at the observed mean differences. The Schur score at gamma 1 or "
  "with one block, and the block score with one block, are the log score; the Schur score at gamma "
  "0 is the sum over its blocks, and blocks of one the sum of marginals; scores do not depend on the "
  "order of rows or on repeating the sample, follow reordering of variables where no blocks are "
  "involved, and linear maps, rescaling and shifts as their formulas say. An estimator's own score "
  "is the log score of rows centred at its location, and an assessor is usable exactly when what it "
  "needs is available (truth for the truth score, data for the rest).",
  ["inputs", "configurations"],
  "all assessors, competitors near and far, samples, maps, estimators",
  "Tests check one ordering per assessor; optimality is a claim about every competitor.",
  ["precise/assessment/assessors.py", "precise/assessment/base.py", BASE],
  [("scores", "precise/assessment/assessors.py"), ("capabilities", "precise/assessment/base.py:usable"),
   ("own score", "precise/base.py:score")],
  "metamorphic and optimality relations between scores",
  "Relations are compared up to the condition of the matrices.")

P("C24", "The observable features of a data window are what their names say",
  "For any window (a single row, an array, list or frame of any layout) the features are, in this "
  "order: its numbers of rows and variables, their ratio p/n, the effective rank (sum of the "
  "eigenvalues of the sample covariance, about the mean and over n, squared, over the sum of their "
  "squares), that rank over p, the condition number, the mean absolute correlation between "
  "different variables (0 for one variable) and the mean excess kurtosis, with eigenvalues and "
  "variances floored at 1e-12. They are plain ints and floats within their ranges, a function of "
  "the window alone which is not modified, and do not change when rows or variables are reordered, "
  "the origin moves, signs flip, the window is repeated (but for n), or units change (above the "
  "floor).",
  ["inputs"],
  "all finite windows up to 120 x 12: constant, duplicated and rank-deficient ones, units 1e-3..1e3",
  "Tests check the presence of keys and one or two rough magnitudes.",
  ["precise/recommend.py"],
  [("features", "precise/recommend.py:covariance_features")],
  "differential test against explicit loops and singular values, metamorphic relations",
  "Compared up to the rounding of the centring; condition numbers within the interval it allows.")

P("C25", "Suggest ranks by the frozen tree, then by the heuristics",
  "Given a data window, suggest orders all registered estimators by the weight their class has in "
  "the leaf of the frozen tree that the standardised features reach (left when at most the "
  "threshold; absent classes weigh 0), then by the heuristics, then by the order of the registry. "
  "The heuristics favour, by 2, the factor and shrinkage estimators (Factor, LedoitWolf, OAS, "
  "Shrunk, Schur) when p/n > 0.25, sphericity < 0.6 or condition number > 50, and Empirical and Ewa "
  "otherwise; by 1.5 Huber and Tyler when the mean excess kurtosis exceeds 1; by 0.5 LedoitWolf. "
  "Without a frozen tree the heuristics decide alone; the answer is deterministic, leaves the data "
  "unmodified, and its first `top` (default 3) are the beginning of the full ranking.",
  ["inputs", "configurations"],
  "all windows, generated frozen trees (up to 6 levels, 17 classes, any weights), the shipped tree, "
  "no tree",
  "Tests check the first suggestion of two windows.",
  ["precise/recommend.py", "precise/_recommender_model.py", "precise/__init__.py"],
  [("ranking", "precise/recommend.py:suggest"), ("frozen tree", "precise/_recommender_model.py")],
  "differential test against an independent walk of generated trees and reading of the rules",
  "Windows within 1e-9 of a generated split or of a heuristic boundary (other than p/n) are skipped.")

P("C26", "The registries list everything shipped, with its documented defaults",
  "The list of estimators, the list of their names and the lookup by name agree with one another and "
  "with the concrete estimators the package exports, each constructible without arguments with the "
  "parameters documented; likewise the assessors; a name that is not listed is refused with an error "
  "that lists the known ones. Editing a returned list, or reconfiguring or feeding a returned "
  "instance, never changes a later answer. The removed functional API is refused on import with a "
  "message naming what replaces it, and the default-built estimator equals the one built with the "
  "documented values on every stream.",
  ["histories", "inputs", "configurations"],
  "all histories of careless use (up to 14 steps), all shipped names, near-miss and arbitrary text",
  "Tests check one count and one lookup; sharing shows only after somebody edited an answer.",
  ["precise/__init__.py", "precise/registry.py", "precise/assessment/registry.py",
   "precise/skaters/__init__.py"],
  [("registries", "precise/registry.py: all_estimators, estimator_from_name, estimator_names"),
   ("assessors", "precise/assessment/registry.py: all_assessors, assessor_from_name"),
   ("removed API", "precise/skaters/__init__.py")],
  "model-based histories of registry calls against the documented catalogue",
  "The catalogue is transcribed from the documentation.")

P("C27", "Matrix repairs restore validity and change nothing else",
  "The positive-definite test accepts exactly the matrices whose eigenvalues are all positive. The "
  "nearest positive semi-definite repair is symmetric, passes the test on variables that carry "
  "variance, is the matrix itself when that is already valid and otherwise the eigenvalue-clipped "
  "symmetric part, with blank variables left blank; the flooring repair raises eigenvalues below the "
  "floor to it and no others; both follow reordering and units. The inverse is the inverse where one "
  "is determined and finite everywhere, and an observation is one row, a table its rows, and "
  "anything else is refused.",
  ["inputs"],
  "all matrices up to 10 x 10 of any spectrum (indefinite, singular, repeated), basis and scale",
  "Tests repair two fixed matrices.",
  ["precise/_linalg.py", "precise/_conventions.py"],
  [("repairs", "precise/_linalg.py: nearest_pos_def, make_pos_def"),
   ("inverse", "precise/_linalg.py: try_invert"), ("rows", "precise/_conventions.py: as_rows")],
  "differential test against the spectrum the matrix was built from, metamorphic relations",
  "Definiteness is not asserted within rounding of singularity.")

P("C28", "The Schur-likelihood theory code computes what the theory states",
  "The trust coefficient equals signal over signal plus sampling variance of the regression it "
  "damps, rising from 0 to 1 with coupling and sample size. For any true covariance, ordered blocks "
  "and gamma the population Schur likelihood equals the sum of its damped conditional Gaussian "
  "terms, its closed-form maximiser recovers the true regressions and conditional covariances, no "
  "candidate beats it, and it is positive definite for two blocks exactly inside the stated cone; at "
  "gamma 1 all is the full likelihood, at 0 the block one. The signal-to-noise ratios equal the mean "
  "over standard deviation of the score difference they describe, change sign with the order of the "
  "candidates, ignore units, and agree with their own simulations.",
  ["inputs", "configurations"],
  "all two-variable models, all covariances up to 9 variables and 5 blocks, all gammas, candidates",
  "Tests cover a few of these identities for one matrix.",
  ["research/schur_gamma_star.py", "research/schur_likelihood_theory.py",
   "research/schur_godambe.py", "research/schur_spiked.py"],
  [("coefficient", "research/schur_gamma_star.py: gamma_star, residual_R"),
   ("population likelihood", "research/schur_likelihood_theory.py"),
   ("operator and signal", "research/schur_godambe.py: schur_operator, snr"),
   ("sampling noise", "research/schur_spiked.py: snr_delta, snr_montecarlo")],
  "differential test against independent derivations, optimality over generated candidates",
  "Simulations are compared within 6-9 of their own standard errors.")

P("C29", "The rolling comparison trades on the past only and reports what it measured",
  "For any panel of returns and any window, holding and step lengths, each estimator's reported "
  "volatility is the root mean over windows of the mean squared return, on the rows following the "
  "training window, of minimum-variance weights made from its fit to the training window alone; "
  "windows start every step while they fit. The recommended figure uses the first suggestion for the "
  "training window, the hindsight figure the best estimator of each window, and equal weights their "
  "own; rows beyond the last complete window never matter, nor do unused later rows affect the "
  "weights. The printed report lists the estimators in order with the figures given.",
  ["inputs", "configurations", "histories"],
  "all panels (2-6 series), window, holding and step lengths, overlapping or not; all result tables",
  "No test recomputes a window; look-ahead is invisible in aggregate figures.",
  ["research/oos_equity.py"],
  [("windows", "research/oos_equity.py: rolling_oos"), ("report", "research/oos_equity.py: report")],
  "recomputation of the whole table, metamorphic relation under changes of rows not to be seen",
  "Windows on which some estimate has condition above 1e7 are skipped.")

P("C30", "Leave-one-out validation never sees what it is tested on",
  "For any families, sizes, judge and seed: the fixed estimator a held-out family is compared with is "
  "the one of least mean rank on trials from the other families alone, the trained recommender has "
  "learned from the other families alone, and no window shown to a recommender contains rows it is "
  "judged on. The reported ranks are the mean ranks, among all estimators judged on the same fresh "
  "sample, of the estimator recommended for that training window and of the fixed one (ties to the "
  "first listed, failures last), with as many trials as asked; training labels are the best "
  "estimator on fresh data from the same truth, and features those of the window. The same seed "
  "gives the same result, and the printed report shows it.",
  ["inputs", "configurations", "histories"],
  "all sets of 2-4 families (Gaussian, heavy-tailed), sizes, trials, seeds and judges, also failing",
  "Tests run one tiny configuration and look at the keys; leakage does not show in them.",
  ["research/oos.py", "research/train_recommender.py"],
  [("leave-one-out", "research/oos.py: leave_one_ensemble_out, leave_one_family_out_trained"),
   ("training set", "research/train_recommender.py: generate")],
  "recorded runs with generated families and judges, result recomputed from the record",
  "Recording replaces the families, judge and suggestion, which the harnesses look up by name.")

P("C31", "The bake-off scores and ranks what it says",
  "For any size and seed, every scenario is reproducible and what its name promises: training and "
  "test rows follow the reported true covariance (the first half of the regime-change training rows "
  "and the few gross outliers of the contaminated ones apart), heavy-tailed where announced, with "
  "nothing shared between them. The score recorded for an estimator, scenario and assessor is the "
  "assessor's score of the estimator fitted to the training rows, minus infinity when it fails. The "
  "leaderboard is ordered by the mean over scenarios of each estimator's rank by the primary "
  "assessor and prints the means of the finite scores, and each scenario's winner has its best score.",
  ["inputs", "configurations"],
  "all bake-off sizes and seeds; all score tables with ties, failures and any primary assessor",
  "Tests check shapes and keys of one run.",
  ["research/bakeoff.py"],
  [("scenarios", "research/bakeoff.py: build_scenarios"), ("scores", "research/bakeoff.py: run"),
   ("ranking", "research/bakeoff.py: leaderboard, per_scenario_winners")],
  "statistical law of generated scenarios, recomputation of scores and rankings",
  "Scenarios taken from another package's generator are only checked for shape and scores.")

P("C32", "The power experiments judge both estimates on equal terms",
  "In every trial both estimates are judged on the same sample, smaller samples are the beginning of "
  "the larger, and a judge's power is the share of admitted trials in which it scores the estimate "
  "nearer the truth strictly higher; so a judge that cannot tell has power 0, adding judges changes "
  "nothing, the same seed gives the same result, judges that are the same function under two names "
  "have the same power, and with ample data proper judges always recognise clearly better estimates "
  "whichever way round the error is. A budget of directions buys as many whole subspaces as it holds, "
  "one at least. Each judge computes what it is called (log-likelihood, "
  "Frobenius, Stein, random projections, minimum variance, Mahalanobis calibration, block "
  "pseudo-likelihood). The printed reports show these figures in order.",
  ["inputs", "configurations"],
  "all covariances (2-8 variables), samples, directions, sizes, seeds and sets of judges",
  "Tests check that one experiment's powers are between 0 and 1.",
  ["research/metric_power.py"],
  [("judges", "research/metric_power.py: METRICS"), ("experiment", "research/metric_power.py: run"),
   ("other experiments", "research/metric_power.py: projection_power, proof_high_dim, schur_power, "
    "pseudo_likelihood_power")],
  "recording judges in generated experiments, differential test of each judge, symmetric pairs",
  "Experiments that admit no trial at all are not claimed to answer.")

P("C33", "Freezing a trained recommender keeps its decisions",
  "A decision tree exported by the training script is importable as the package's frozen model, and "
  "suggest then ranks the estimators by how many training windows with that label share the "
  "classifier's own leaf (ties as the heuristics say), for every window. In the shipped model every "
  "leaf carries weight.",
  ["inputs", "configurations", "histories"],
  "all classifiers (up to 6 levels, 9 classes), standardisations and windows; the shipped model",
  "No test trains, exports and imports a model; the shipped one was exported by a broken version.",
  ["research/train_recommender.py", "precise/recommend.py", "precise/_recommender_model.py"],
  [("export", "research/train_recommender.py:export"), ("use", "precise/recommend.py:suggest")],
  "round trip through export and import in a scratch package, against the classifier's own leaves",
  "Windows within the rounding of the exported thresholds (6 decimals) are skipped.")

P("C34", "The trust and discrimination experiments measure what they describe",
  "The simulated trust coefficient lies in [0, 1] and has, up to simulation error, the predictive "
  "residual of the closed form. In each training draw of the discrimination experiment (n rows from "
  "the spiked truth) one estimate is the sample covariance (about the mean, over n) moved halfway to "
  "its mean variance times the identity, the other the same sample covariance plus 2% of the mean "
  "true variance on the diagonal; for each gamma the reported mean, standard deviation, ratio and "
  "share of positive values are those, over the draws, of the expected Schur score difference under "
  "the truth, with the mean Kullback-Leibler divergences of both. The structured experiment's power at "
  "each gamma is the share of trials in which the estimate with the smaller within-group error scores "
  "strictly higher on the trial's own sample from the block-diagonal truth, both scored in the true "
  "groups; every result is a function of its arguments and seed alone, whichever other gammas are "
  "asked for.",
  ["inputs", "configurations", "histories"],
  "all sizes (multiples of 4; up to 5 groups of 5), sample sizes, gammas, draws, trials and seeds",
  "The tests run one small experiment and look at the sign of an effect.",
  ["research/schur_godambe.py", "research/schur_gamma_star.py"],
  [("draws", "research/schur_godambe.py:discrimination_power_over_draws"),
   ("groups", "research/schur_godambe.py:structured_power_over_draws"),
   ("trust", "research/schur_gamma_star.py:empirical_gamma_star")],
  "every reported number recomputed from the recorded estimates and samples; distributional bounds",
  "Trials whose estimates had to be projected (so that their error is no longer one number) are only "
  "bounded.")

P("C35", "The web edition of a paper numbers equations as LaTeX does and changes nothing else",
  "Converting a paper for the web turns the k-th numbered equation environment of the source, labelled or "
  "not, into display math; its label, wherever it stands in the equation, becomes the tag k, and "
  "every reference to that label, before, after or inside an equation, becomes (k). Everything else, "
  "starred and other environments and other labels and references included, is kept character by "
  "character, a text without numbered equations is unchanged, and a reference to no labelled equation "
  "makes the conversion fail.",
  ["inputs"],
  "all texts with up to 60 pieces and 17 labels, and the shipped papers",
  "No test runs the converter; the build script needs pandoc.",
  ["docs/_webtex.py"],
  [("numbering", "docs/_webtex.py: process_equation, label_to_tag"),
   ("references", "docs/_webtex.py: resolve_eqref")],
  "texts generated together with their conversion; the shipped papers against a plain scanner",
  "Equations in comments or verbatim text, and labels defined twice, are not generated.")
