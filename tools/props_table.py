P("P01", "LJH files read back exactly what is on disk, torn tails included",
  "Opening an LJH file (version 2.1 or 2.2, any header layout) reports exactly the complete records present: their number, "
  "lengths, trigger position, sample time, row/column/subframe and channel numbers, time stamps, subframe counts and every raw sample, by whichever access path "
  "they are read (one record, range, list, mask, whole file, record with timing, or data segments). A trailing partial record, torn at any "
  "byte, is ignored and never changes the complete records. Asking for inverted data gives the bitwise complement of every sample on every access path, and reading never modifies the file.",
  ["inputs", "crash_points", "configurations"],
  "all header variants x record counts x truncation points x access paths within the bounds",
  "The tests open a few sample files; no test truncates at every byte, or varies header fields, line endings and access paths together.",
  ["mass/core/files.py", "mass/core/channel.py"],
  [("LJHFile._parse_header", "mass/core/files.py"), ("LJHFile2_1._parse_times", "mass/core/files.py"),
   ("LJHFile.__getitem__ / alldata", "mass/core/files.py"), ("MicrocalDataSet.read_segment, PulseRecords", "mass/core/channel.py")],
  ["LJHFile.open(...).*"])

P("P02", "Copying, appending, truncating and modifying LJH files keeps exact records",
  "Writing tools for LJH files (copy chosen records, append records, truncate by count or by time, transform the samples) "
  "produce files that, read back, hold exactly the chosen records in the chosen order with unchanged samples (or the transformed ones), "
  "times and subframe counts and an unchanged trigger position, record length and sample time; truncating by time stops at the first record later than "
  "the time. The source file is never altered, and copying or modifying never overwrites an existing "
  "destination unless that was requested, nor is the source accepted as destination under any name. The programs ljh_merge and ljh_truncate do the same to all records of the matching files, in the order of channel and name, and refuse files that do not fit together.",
  ["histories", "inputs"], "all sequences of copy/append/truncate/modify operations up to a depth over small source files of every version",
  "Tests run each tool once on one file; they never chain tools or vary version, record subset or trigger position.",
  ["mass/core/ljh_modify.py", "mass/core/files.py", "bin/ljh_merge", "bin/ljh_truncate"],
  [("ljh_copy_traces", "mass/core/ljh_modify.py"), ("ljh_append_traces", "mass/core/ljh_modify.py"),
   ("ljh_truncate", "mass/core/ljh_modify.py"), ("LJHModify", "mass/core/ljh_modify.py"), ("make_ljh_header", "mass/core/files.py")])

P("P03", "Per-pulse analysis does not depend on how the file is split in segments",
  "Summaries, average pulses, filtered values and noise analysis of a channel are the same for every permitted segment size, "
  "and each pulse's result depends only on that pulse, the filter and the channel's settings (including the peak time, stated or estimated), never on its neighbours or its position in the file.",
  ["configurations", "inputs"], "all segment sizes and record counts in the bounds x all per-pulse analysis steps, both implementations",
  "Tests use files that fit in a single segment.",
  ["mass/core/channel.py", "mass/core/files.py", "mass/core/analysis_algorithms.pyx"],
  [("set_segment_size", "mass/core/files.py"), ("MicrocalDataSet._compute_average_pulse/summarize_data/filter_data", "mass/core/channel.py")])

P("P04", "Pulse summary quantities equal their definitions in both implementations",
  "For every pulse record the stored pretrigger mean and rms, pulse average and rms, peak value and index, minimum, promptness, rise time, "
  "post-peak derivative, one-sample shift flag, subframe count and time stamp equal the definitions of the implementation used (the fast and the plain one, whose post-trigger windows differ by a sample), "
  "for every sample value, peak position, presample count, inversion, trim (cut_pre, cut_post), ignored pretrigger time and stated peak time; "
  "no record, however degenerate, makes the step fail for the others; the stand-alone rise-time and maximum-derivative functions agree with their definitions, alone or in a batch, and leave their inputs unchanged.",
  ["inputs", "configurations"], "all small records over a sample alphabet x presample counts x window settings",
  "Tests compare a few values on one file and never compare implementations over degenerate records (flat, saturated, peak at an edge).",
  ["mass/core/analysis_algorithms.pyx", "mass/core/channel.py", "mass/core/cython_channel.pyx"],
  [("summarize_data_cython", "mass/core/cython_channel.pyx"), ("MicrocalDataSet.summarize_data/_summarize_data_segment", "mass/core/channel.py"), ("estimateRiseTime", "mass/core/analysis_algorithms.pyx"),
   ("compute_max_deriv", "mass/core/analysis_algorithms.pyx")])

P("P05", "OFF files read, truncate and refresh exactly",
  "Opening an OFF file exposes exactly the complete records on disk (coefficients, time stamps, sample counts, noise estimates, projectors and basis), "
  "for any header and either projector storage; a torn tail is ignored. After more records are appended, refreshing exposes exactly the "
  "old records plus the new complete ones, at any byte boundary, and a reconstructed pulse equals basis times coefficients.",
  ["inputs", "crash_points", "histories"], "all append/refresh histories with every torn byte position, versions, and basis counts in the bounds",
  "Tests open one good file and refresh it never at a torn boundary.",
  ["mass/off/off.py"], [("OffFile._updateMmap", "mass/off/off.py"), ("OffFile.__init__", "mass/off/off.py"),
                        ("readJSON", "mass/off/off.py"), ("OffFile.modeledPulse", "mass/off/off.py")])

P("P06", "Experiment states partition records by time, however they are read",
  "Every record belongs to exactly the latest experiment state that started at or before its time stamp (or to none before the first), "
  "repeated (or commonly aliased) state names mean the union of their periods, and excluded names select nothing; this holds for OFF channels, "
  "LJH data groups and OFF-style views of them. Reading the state file and the records "
  "incrementally, in any order of appends and refreshes, gives the same answer as reading them both once at the end. "
  "(Known finding: OFF-style views of LJH channels use whole-second times.)",
  ["histories", "schedules"], "all interleavings of state-file appends, record appends and refreshes up to a depth, over state names that repeat",
  "Tests read one finished state file with distinct labels.",
  ["mass/off/experiment_state.py", "mass/off/channels.py"],
  [("ExperimentStateFile.parse", "mass/off/experiment_state.py"), ("calcStatesDict", "mass/off/experiment_state.py"),
   ("Channel.statesDict / refreshFromFiles", "mass/off/channels.py")])

P("P07", "Channel attributes, cuts and states select exactly the right records",
  "For an OFF channel, requesting any attribute or list of attributes with any index, states choice and cut returns exactly the records that satisfy the cut (and its inversion) within "
  "exactly those states (state by state as requested, in file order within each), with equal values whether the attribute is stored or derived by a chain of recipes; requesting "
  "derived values never changes stored ones, and saved recipes reload to compute the same values.",
  ["inputs", "programs", "configurations"], "all combinations of states x cut x inversion x attributes, and all recipe dependency orders in bounds",
  "Tests check lengths for a couple of combinations on one file.",
  ["mass/off/channels.py", "mass/off/util.py", "mass/off/recipe_classes.py"],
  [("Channel.getAttr", "mass/off/channels.py"), ("RecipeBook.craft", "mass/off/util.py"), ("Channel.getStatesIndicies", "mass/off/channels.py")])

P("P08", "Marking OFF channels bad or good never disturbs the others",
  "In an OFF channel group, iteration, counts, co-added histograms and group operations act on exactly the channels not marked bad (all of them when bad channels are explicitly included, "
  "also when such requests nest or fail), marking is idempotent and reversible with its reason kept, "
  "and a group operation that fails on one channel marks only that channel bad while leaving every other channel's result the same as if it had been alone.",
  ["histories", "fault_sequences"], "all sequences of mark/unmark/include-bad/iterate/group-call operations with every subset of channels failing",
  "Tests mark a single channel once.",
  ["mass/off/channels.py", "mass/off/util.py"],
  [("ChannelGroup.includeBad", "mass/off/channels.py"), ("Channel.markBad/markGood", "mass/off/channels.py"), ("util.add_group_loop", "mass/off/util.py")])

P("P09", "Cut bookkeeping: fields are independent and persist",
  "Each boolean or categorical cut field behaves as its own array over the pulses: setting one field changes only that field (and a cut only ever adds to "
  "a boolean field's rejected set), selecting by any combination of "
  "fields and categories returns exactly the matching pulses, and names, categories and values survive closing and reopening the file. "
  "A pulse is good exactly when no boolean field rejects it, and registering or unregistering a field never changes any other.",
  ["histories", "programs"], "all sequences of register/unregister/cut/clear/select/reopen operations up to a depth vs a dictionary of arrays",
  "Tests run single hand-written sequences.",
  ["mass/core/cut.py", "mass/core/channel_group.py"],
  [("Cuts.cut/select_category/good/bad", "mass/core/cut.py"), ("CutFieldMixin.*", "mass/core/cut.py")])

P("P10", "A data group holds exactly the right channels, through failures and reopening",
  "A data group contains exactly the channels whose files were requested (noise paired by channel number, exclusion lists and limits applied), channels marked bad stay out of "
  "iteration and group results until marked good, iteration follows the order of the files given, and both the channel set and the bad marks with their reasons survive closing and reopening; "
  "a group step that fails on one channel marks only that channel bad and completes for the rest.",
  ["histories", "configurations", "fault_sequences"], "all file sets, option combinations and mark/unmark/reopen sequences within bounds",
  "Tests open one or two fixed file sets.",
  ["mass/core/channel_group.py", "mass/core/utilities.py"],
  [("TESGroup.__init__/__pulse_files_init", "mass/core/channel_group.py"), ("set_chan_bad/set_chan_good", "mass/core/channel_group.py"),
   ("_add_group_loop/GroupLooper", "mass/core/channel_group.py")])

P("P11", "Saved analysis reloads unchanged, and repeating a step changes nothing",
  "Everything an analysis stores for a channel (summaries, average pulse, noise model, filters, corrections, calibrations, cuts) is found again unchanged when the output file is reopened, "
  "in any order of steps; repeating a completed step without forcing leaves all results as they were, and forcing it gives "
  "the same results as doing it once from scratch.",
  ["histories"], "all orders of analysis steps, with repeat/force/reopen inserted at every point, up to a depth",
  "Tests run one pipeline order and reopen once.",
  ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/phase_correct.py", "mass/calibration/energy_calibration.py"],
  [("MicrocalDataSet.__setup_vectors/_filter_from_hdf5/__load_cals_from_hdf5", "mass/core/channel.py"), ("PhaseCorrector.toHDF5/fromHDF5", "mass/core/phase_correct.py")])

P("P12", "Energy calibration goes through its points, invertibly, in any order",
  "A calibration curve of any style passes through each of its points, is the same whatever order the points were added in or whatever "
  "points were added, replaced, removed or rejected before (a rejected change leaves it unchanged) and whatever styles it had, and converting pulse height to energy and back returns the start wherever it rises; "
  "scalars and arrays agree, its slope is the derivative of the curve, its uncertainty includes those stated for the points, copies are independent, and copies and saved-and-reloaded calibrations give the same energies.",
  ["histories", "configurations", "inputs"], "all add/update/remove/copy/save-load sequences over a small point alphabet x all curve styles x approximation settings",
  "Tests use a few point sets in one order.",
  ["mass/calibration/energy_calibration.py"],
  [("EnergyCalibration.add_cal_point/remove_cal_point_*", "mass/calibration/energy_calibration.py"), ("_update_exactcurves/_update_approximators", "mass/calibration/energy_calibration.py"),
   ("save_to_hdf5/load_from_hdf5", "mass/calibration/energy_calibration.py")])

P("P13", "Optimal filters obey their constraints and are optimal under the noise",
  "Every computed filter (five-lag, arrival-time-safe, Fourier) has the promised length and zero weight on trimmed samples, gives the average pulse its own height, gives zero for a constant "
  "(arrival-time-safe: also zero for the arrival-time term, unless band-limited), reports a variance equal to its response to the given noise covariance and the resolution that follows from it, and "
  "no other filter obeying the same constraints has smaller variance (before smoothing by the requested band limits, which act on the filter exactly as documented); covariance and whitening descriptions "
  "of the same noise give the same filter, and filters survive storing and reopening unchanged.",
  ["inputs", "configurations"], "all small pulse shapes x noise models x trims x band limits x constraint choices in the alphabet",
  "Tests compute a handful of filters and compare one number with a stored one.",
  ["mass/core/optimal_filtering.py", "mass/core/channel.py"],
  [("FilterMaker.compute_5lag", "mass/core/optimal_filtering.py"), ("FilterMaker.compute_ats", "mass/core/optimal_filtering.py"), ("FilterMaker.compute_fourier", "mass/core/optimal_filtering.py"),
   ("band_limit", "mass/core/optimal_filtering.py"), ("MicrocalDataSet.compute_ats_filter", "mass/core/channel.py")])

P("P14", "Applying a filter to records is linear, local and implementation-independent",
  "The filtered value and arrival phase of each record are the documented function of that record, the filter, the transform (if any) and the record's shift flag only "
  "(five-lag: the vertex of the least-squares parabola through the five lagged products; arrival-time-safe: the product and the ratio of the two products), "
  "the same in every implementation (fast, plain, and in OFF coefficient space), for single records or batches of any size, also when other records are degenerate; "
  "scaling a noise-free pulse scales its filtered value, and adding a constant changes nothing.",
  ["inputs", "configurations"], "all small integer records x filters x lags in the alphabet; both code paths",
  "Tests run one filter on one file.",
  ["mass/core/channel.py", "mass/core/analysis_algorithms.pyx", "mass/off/fivelag.py"],
  [("MicrocalDataSet.filter_data", "mass/core/channel.py"), ("filter_data_5lag_cython", "mass/core/analysis_algorithms.pyx"), ("calc_5lag_fit_matrix", "mass/off/fivelag.py")])

P("P15", "Robust statistics equal their definitions on every sample",
  "Weighted medians, median absolute deviations, trimeans, shortest-half range and mean (the shortest interval of floor(n/2)+1 values), Q scale, and biweight/Huber estimates equal their "
  "textbook definitions for every sample order and every pattern of ties, shift and scale with the data, and never modify their inputs.",
  ["inputs"], "all small multisets (with all orders) over a small alphabet, several number types",
  "Tests use a few random samples.",
  ["mass/mathstat/robust.pyx"], [("Qscale", "mass/mathstat/robust.pyx"), ("shorth_range", "mass/mathstat/robust.pyx"), ("_high_median", "mass/mathstat/robust.pyx")])

P("P16", "Entropy and divergence estimates equal the exact integrals",
  "The Laplace-kernel entropy, cross-entropy and Kullback-Leibler values of any sample equal the integrals of the stated kernel density (within the stated approximation for the binned method), are independent of sample order, "
  "and shift with the log of the data scale; ordered merges are exact.",
  ["inputs"], "all small multisets over a grid x kernel widths x methods",
  "Tests compare a few distributions statistically.",
  ["mass/mathstat/entropy.pyx"], [("laplace_entropy", "mass/mathstat/entropy.pyx"), ("laplace_KL_divergence", "mass/mathstat/entropy.pyx"), ("KL_divergence/_merge_orderedlists", "mass/mathstat/entropy.pyx")])

P("P17", "Toeplitz solver and whitener equal dense linear algebra",
  "For every symmetric or general Toeplitz system whose leading minors are non-zero, solutions and products equal dense linear algebra's, for vectors and matrices of any number type, "
  "and a noise whitener's products and inverses are exact inverses and transposes of one another; inputs are never modified.",
  ["inputs"], "all small Toeplitz systems and right-hand sides over an integer alphabet",
  "Tests solve a few random systems.",
  ["mass/mathstat/toeplitz.py", "mass/core/optimal_filtering.py"], [("ToeplitzSolver.__call__", "mass/mathstat/toeplitz.py"), ("ToeplitzWhitener", "mass/core/optimal_filtering.py")])

P("P18", "Splines interpolate and their derivatives are their derivatives",
  "An interpolating spline passes through all its points, is twice continuously differentiable between and across them, has natural or clamped ends as requested and is linear beyond "
  "them (twice continuously differentiable there too with natural ends), its reported first, second and third derivatives are those of the curve, and a smoothing spline has no more curvature than allowed; evaluation "
  "is the same for scalars and arrays and never changes its inputs.",
  ["inputs", "configurations"], "all small knot sets x end conditions x orders x evaluation sites",
  "Tests check a few points.",
  ["mass/mathstat/interpolate.py"], [("CubicSpline", "mass/mathstat/interpolate.py"), ("SmoothingSpline", "mass/mathstat/interpolate.py"), ("GPRSpline", "mass/mathstat/interpolate.py")])

P("P19", "Function objects compose and differentiate exactly",
  "Wherever it is defined, any expression built from constants, powers, exponentials, logarithms, splines, sums, products, quotients and composition evaluates to the ordinary value of that expression, and its "
  "derivative of any order is the ordinary derivative; printing or simplifying never changes the value.",
  ["programs"], "all expression trees up to a size over the operator alphabet",
  "Tests evaluate a few expressions.",
  ["mass/mathstat/derivative.py"], [("Function.derivative, __add__, __mul__, <<", "mass/mathstat/derivative.py")])

P("P20", "Nearest external triggers and flux jumps are resolved exactly",
  "For every pulse, the reported delays are those since the latest external trigger not after the pulse and until the earliest later one (none: the largest integer, standing for infinite), "
  "in both implementations and both data paths, in subframes and in seconds; removing flux jumps yields the unique "
  "sequence with steps smaller than half a quantum differing from the input by whole quanta, given good baselines that are resolvable.",
  ["inputs", "histories"], "all small ordered pulse/trigger sequences, all small jump sequences",
  "Tests use a few sequences.",
  ["mass/core/analysis_algorithms.pyx", "mass/core/channel_group.py", "mass/off/channels.py"], [("nearest_arrivals", "mass/core/analysis_algorithms.pyx"), ("unwrap_n/correct_flux_jumps", "mass/core/analysis_algorithms.pyx")])

P("P21", "Peak finding and peak-to-line assignment are exhaustive and order-preserving",
  "The local maxima of a list of pulse heights are exactly those of the heights smoothed by the stated Gaussian (none missed, none where there are no pulses), largest first; assigning peaks to lines returns an increasing matching that minimises the stated figure of "
  "merit over all choices among the considered peaks, widening the choice exactly as documented and failing only when no choice is good enough; fit ranges around each line have the requested width but reach at most halfway to the neighbouring (also excluded) lines; inputs are unchanged.",
  ["inputs"], "all small peak lists and energy lists in the alphabet",
  "Tests assign one list.",
  ["mass/calibration/algorithms.py"], [("find_optimal_assignment", "mass/calibration/algorithms.py"), ("find_local_maxima", "mass/calibration/algorithms.py"), ("build_fit_ranges", "mass/calibration/algorithms.py")])

P("P22", "Fluorescence line models are normalised and consistent",
  "Every known line's density is non-negative with unit area at any resolution, is the sum of its stated components, and its peak energy is where it is highest; sampling follows the components with the requested resolution, gives no negative energies and is "
  "reproducible given a generator; lines are registered, replaced only on request, and looked up by every spelling of their nicknames; a spectrum model's predicted counts integrate to the requested total (times efficiency, tails and background as documented) in any energy scale, equal the "
  "untailed model when tails are zero, reject bins too wide for the resolution; the maximum-likelihood residual is exactly the Poisson deviance, for composite models too, and exact spectra are fitted back to their own parameters from the model's own guesses. "
  "(Known finding: drawing replacements for negative energies ignores the given generator.)",
  ["configurations", "inputs"], "all lines in the database x resolutions x binnings x scale factors in the alphabet",
  "Tests check a few lines.",
  ["mass/calibration/fluorescence_lines.py", "mass/calibration/line_models.py"], [("SpectralLine", "mass/calibration/fluorescence_lines.py"), ("MLEModel/GenericLineModel", "mass/calibration/line_models.py")])

P("P23", "Compressing records to OFF keeps what the model promises",
  "For every pulse model and LJH file, the OFF file made from it has one record per pulse in order with the same times, coefficients equal to "
  "projectors times the samples, pretrigger mean and slope of the samples used, and the residual equal to what the model cannot represent, in any OFF version and from any number of files in sequence; a pulse model's projectors are dual to its basis, "
  "which keeps the given components, and saving it (inverted or not, repeatedly) leaves it unchanged and reloads it exactly; conversion loops convert exactly the channels that have both a model and data.",
  ["inputs", "configurations"], "all small record sets x basis sizes x inversion x version x batch sizes",
  "Tests convert one file.",
  ["mass/core/pulse_model.py", "mass/core/ljh2off.py"], [("PulseModel", "mass/core/pulse_model.py"), ("ljh2off", "mass/core/ljh2off.py")])

P("P24", "Histograms and exports count each selected record exactly once",
  "A histogram of any attribute counts each selected finite value in the bin containing it and nothing else, co-added histograms are the sums over good channels, and exported "
  "tables contain exactly the selected records of each good channel, state by state in time order, each with its own energy, time and trigger delays.",
  ["inputs", "configurations"], "all small value sets vs bin edges, states, cuts and channel subsets",
  "Tests compare totals.",
  ["mass/off/channels.py", "mass/core/channel.py"], [("Channel.hist", "mass/off/channels.py"), ("ChannelGroup.hist", "mass/off/channels.py"), ("energyTimestampLabelToHDF5", "mass/off/channels.py")])

P("P25", "File discovery picks exactly the right channel files",
  "Given any directory listing, file names are grouped by base name and channel number, sorted by channel number, paired between pulse and noise sets, and limited or "
  "excluded exactly as requested, without dropping, duplicating or misassigning any file.",
  ["inputs", "configurations"], "all small sets of file names over a name alphabet x options",
  "Tests use a few names.",
  ["mass/core/ljh_util.py", "mass/core/channel_group.py", "mass/off/channels.py"], [("ljh_get_channels", "mass/core/ljh_util.py"), ("ljh_sort_filenames_numerically", "mass/core/ljh_util.py"), ("remove_unpaired_channel_files", "mass/core/ljh_util.py"), ("getOffFileListFromOneFile", "mass/off/channels.py")])

P("P26", "Filter-stack efficiencies multiply",
  "The transmission of any stack of filters is the product of its layers' transmissions (each from the elemental tables, with its fill fraction), between 0 and 1 and falling with thickness, the same "
  "in any order or nesting; absorber efficiency is the fill fraction times one minus transmission; adding a layer (film, mesh, oxidised or polymer-backed aluminium, window, another stack) under a new name never changes the others or the stack's own parts, stating a film by area density or by thickness and density is the same, "
  "stated uncertainties propagate to first order without changing the value, and arguments are unchanged. (Known findings: the polymer-backed film's oxide.)",
  ["programs"], "all stacks up to a depth over a layer alphabet x energies",
  "Tests evaluate a couple of stacks.",
  ["mass/materials/efficiency_models.py"], [("FilterStack.get_efficiency", "mass/materials/efficiency_models.py")])

P("P27", "Noise power spectra conserve power and accumulate segment by segment",
  "The estimated power spectrum of any records conserves their mean square (Parseval, with half weight for the first and last bin), is independent of how the data are split over calls or of copying the accumulator, and matches its "
  "definition for every window (function or array), segment length, overlap and rebinning; noise spectra and autocorrelations of files (separate or continuous records, any lags, ranges, and excursion limit) equal their definitions, are stored with the channel, and inputs are unchanged.",
  ["inputs", "histories"], "all small data sequences split in every way over calls x windows x segment settings",
  "Tests check one random data set.",
  ["mass/mathstat/power_spectrum.py", "mass/core/channel.py"], [("PowerSpectrum.addDataSegment", "mass/mathstat/power_spectrum.py"), ("NoiseRecords.compute_autocorrelation", "mass/core/channel.py")])

P("P28", "Statistical fits are unbiased with honest error bars",
  "Fitting a simulated spectrum recovers line positions, resolutions and counts without bias and with uncertainties that cover the truth at the stated rate.",
  ["inputs"], "all random data sets drawn from the model",
  "Tests fit one or two random spectra; bias and coverage are statements about a distribution.",
  ["mass/calibration/line_models.py", "mass/mathstat/fitting.py"], [("MLEModel.fit", "mass/calibration/line_models.py")],
  na="A statement about expectations over continuous random data and a continuous optimiser: no finite set of executions enumerates it; sampling or statistics would be needed, which is another family.")

P("P29", "Crosstalk flags mark exactly the pulses near a neighbour's",
  "For any map of channel positions (any dimension, order or coincidences), each channel's stored neighbour list has every channel's exact squared distance and its rank among the distances possible in the map, one list per map, replaced only when forced; flags mark exactly the pulses with "
  "a chosen neighbour's pulse between the prior and post times around them, for each neighbour category or combined, stay unless forced, are recomputed from nothing when forced, and survive reopening the file; CrosstalkVeto vetoes exactly the times "
  "within its windows of enough pulses, for any number of coincident pulses.",
  ["inputs", "histories"], "all placements of up to four channels on small grids; all arrival times on a small clock x flagging histories; all small sets of pulse times",
  "No test flags crosstalk at all: every relative order of arrival times and every map is a different case.",
  ["mass/core/channel.py", "mass/core/channel_group.py"], [("MicrocalDataSet.flag_crosstalking_pulses, set_nearest_neighbors_list", "mass/core/channel.py"), ("CrosstalkVeto", "mass/core/channel_group.py")])

P("P30", "Gain corrections are exact per pulse, learned from selected pulses only",
  "Drift, arrival-phase and time-drift corrections apply to every pulse exactly the stated function of its own quantities and the learned constants (whatever the other pulses and their order, and after saving); the constants come from selected (uncut, right category or state) pulses "
  "only, with the polynomial degree asked for; steps already done are redone only when forced; learning leaves its inputs unchanged, gives finite corrections that remove a planted smooth dependence for any number of lines, and never keeps a time correction that makes the spectrum worse. Smoothed histograms are exact circular convolutions.",
  ["inputs", "histories"], "all small correction curves x a grid of phases and heights; a grid of planted effects; all sequences of correction steps to a depth on LJH data; selections on OFF data",
  "Tests learn one correction from one random data set, and look at all pulses uncut.",
  ["mass/core/phase_correct.py", "mass/core/channel.py", "mass/off/channels.py", "mass/core/analysis_algorithms.pyx"],
  [("PhaseCorrector.correct / phase_correct", "mass/core/phase_correct.py"), ("drift_correct / HistogramSmoother", "mass/core/analysis_algorithms.pyx"), ("time_drift_correct / MicrocalDataSet.phase_correct", "mass/core/channel.py"), ("Channel.learnDriftCorrection", "mass/off/channels.py")])
P("P31", "OFF calibration plans, line fits and alignment use exactly what was planned",
  "A calibration plan is the ordered list of its points; the rough calibration goes through exactly those points (in any order of adding, and invertibly), and a refused point changes nothing. calibrateFollowingPlan fits, per channel, exactly the histograms of the selected records, and its "
  "calibration has exactly the plan's lines at their known energies, nothing from empty histograms; a failing line marks only its own channel. linefit uses the histogram, the fixed and the updated parameters it is given. Alignment to another channel pairs peaks within its bins (a channel with itself exactly) and carries "
  "over the plan. Learned residual cuts keep ordinary pulses and remove outliers.",
  ["inputs", "histories"], "all orders and subsets of small plans, refused points, iterations; grids of spectra, parameters and selections; alignments of small peak sets; residual outliers in each bin",
  "Tests calibrate one data set with one plan in one order.",
  ["mass/off/channels.py"],
  [("CalibrationPlan / Channel.calibrateFollowingPlan", "mass/off/channels.py"), ("Channel.linefit / ChannelGroup.qualityCheckLinefit", "mass/off/channels.py"), ("AlignBToA / ChannelGroup.alignToReferenceChannel", "mass/off/channels.py"), ("Channel.learnResidualStdDevCut", "mass/off/channels.py")])
P("P32", "Pulse cuts keep exactly the pulses that meet the stated criteria",
  "A criterion (a, b) keeps exactly pulses with a < value < b (None is no limit), a list of ranges keeps pulses within any of them (limits included), 'invert' the others, and a value that is not a number meets no criterion with a limit; malformed criteria are refused and change nothing. apply_cuts uses for each cut the "
  "quantity of its name (times in ms, minimum relative to the baseline, differences to the preceding pulse, departure from the median of pulses still good), adds to earlier cuts unless told to clear or skip, and touches no other cut. Automatic cuts have the limits that all noise records and the common peak time imply, "
  "keep ordinary pulses, and are the same after reopening. Smart cuts remove exactly outliers, in any order of pulses. cut_summary counts exactly.",
  ["inputs", "histories"], "all pairs of limits and lists of ranges over boundary values; all sequences of cut steps to a depth; grids of noise files and options; outliers in each quantity and position",
  "Tests apply a few cuts to one data set and look at the number of pulses left.",
  ["mass/core/cut.py", "mass/core/channel.py", "mass/core/controller.py"],
  [("Cuts.cut_parameter", "mass/core/cut.py"), ("MicrocalDataSet.apply_cuts / auto_cuts / smart_cuts", "mass/core/channel.py")])
P("P33", "LJH averages, rates, filters, calibrations and fits use the selected pulses",
  "An average pulse is the mean of exactly the records of the mask (normal or inverted, baseline subtracted if asked), not redone unless forced or absent; masks hold the good pulses in the range of sizes (with gains), automatic ones the first N good within 5 % of the median. first_n_good_pulses and read_trace give exactly those records. "
  "Counting rates count each selected pulse once per bin. An arrival-time-safe filter is learned from the first N good pulses of the category (aligned, scaled, transformed as asked; cut ends have no weight), a 5-lag filter from the average pulse; excluded records have no influence, too few pulses fail that channel alone, and a filter is kept, stored and found again "
  "after reopening unless a new one is forced. Calibrations use only the selected pulses, go through the lines, apply to every pulse and are found again; line fits use exactly the selected histogram and starting parameters.",
  ["inputs", "histories"], "all masks of a few records; sequences of averaging, cutting, filtering and reopening to a depth; grids of cuts, categories, limits and options, with excluded records replaced by garbage",
  "Tests use all pulses or one selection of one file, so that a wrong selection changes nothing that they look at.",
  ["mass/core/channel.py", "mass/core/channel_group.py"],
  [("MicrocalDataSet.compute_average_pulse / compute_ats_filter / calibrate", "mass/core/channel.py"), ("TESGroup.make_masks / compute_average_pulse", "mass/core/channel_group.py")])
P("P34", "Kinked fits, smoothing, random projections and outlines are exact",
  "A kinked-line model is the continuous pair of half-lines that fits best at its kink, for points in any order, and the kink found lies among the data and is no worse than any other. Savitzky-Golay smoothing reproduces every polynomial up to its order, and gives its derivatives with their sign and scale, away from the ends; it "
  "smooths linearly and keeps the length. Randomized range finders and singular value decompositions give orthonormal bases that reproduce every matrix of that rank. Voigt profiles are the convolution of their Gaussian and Lorentzian (alone, in doublets, in any number), with the approximate width. Stepped outlines of a histogram follow its counts bin by bin. Arguments are unchanged.",
  ["inputs"], "all orders of small data sets x kinks; all polynomials, window sizes, orders and derivatives on a grid; matrices of every small rank and shape; a grid of profiles; all small histograms",
  "Tests evaluate one example of some of these functions and none of the others.",
  ["mass/mathstat/fitting.py", "mass/mathstat/utilities.py", "mass/mathstat/special.py"],
  [("kink_model / fit_kink_model", "mass/mathstat/fitting.py"), ("savitzky_golay / plot_as_stepped_hist", "mass/mathstat/utilities.py"), ("find_range_randomly / find_svd_randomly", "mass/mathstat/utilities.py"), ("voigt", "mass/mathstat/special.py")])
P("P35", "Plots and reports show exactly the data asked for",
  "Plots draw exactly the records, quantities, channels, categories and bins asked for (of the selected pulses, in order; differences, residuals, shifts and baselines as asked; each panel, label and error bar belongs to its own data), on the axes given and nowhere else, on new axes otherwise; plots of several channels or pages show each once. Reports list every "
  "channel with its own pulses, good pulses, rates and predicted resolutions, also if some have none. Calibration curves are drawn with their points, bands and limits in each of the five scales; filters, spectra, noise and transmissions with their own axes. Drawing changes no data; malformed requests are refused.",
  ["inputs"], "all cut masks of five records x requests, options and channels; each plot type x given or new axes",
  "Tests only call a few of these plots and never look at what they drew.",
  ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/utilities.py", "mass/off/channels.py", "mass/calibration/energy_calibration.py"],
  [("MicrocalDataSet.plot_traces / plot_summaries", "mass/core/channel.py"), ("TESGroup.plot_noise / plot_average_pulses / report / plot_summary_pages", "mass/core/channel_group.py"), ("Channel.plotHist / plotAvsB2d", "mass/off/channels.py"), ("EnergyCalibration.plot", "mass/calibration/energy_calibration.py")])
