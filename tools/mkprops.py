#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, pathlib

SS = "src/razorback/signalset.py"
ME = "src/razorback/mestimator.py"
UT = "src/razorback/utils.py"
FT = "src/razorback/fourier_transform.py"
WE = "src/razorback/weights.py"
PF = "src/razorback/prefilters.py"
CA = "src/razorback/calibrations.py"
DA = "src/razorback/data.py"
CLI = "src/razorback/cli.py"
ATS = "src/razorback/io/ats.py"
BFA = "src/razorback/io/binary_file_array.py"

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


p("C01", "Joining signal sets is the exact union of their runs, channel by tag",
  """Joining signal sets that carry the same tag names (a | b, join, or building a signal set from
  several sets and synchronous signals) yields exactly the runs of all operands, sorted by start time,
  where each tag name designates the same samples, calibrations, sampling rate and start time as in the
  operand the run comes from, whatever the channel order of each operand and whatever the order and
  grouping of the joins. Operands whose runs overlap in time, whose numbers of channels differ, or whose
  tags are incompatible (different names or different group sizes) are refused with an exception.""",
  ["inputs", "programs"],
  "all families of signal sets over permuted channel orders, alias and group tags, mixed sampling rates, touching or gapped runs",
  "tests join three hand-written sets and look at one sample row; the claim is over all channel permutations, tag aliases, run layouts and join orders, and over all the ways to be incompatible",
  [SS], [("SignalSet.__init__ / _reorder_data", SS), ("SignalSet.join, |", SS), ("SignalSet.tags setter", SS)],
  ["SignalSet.signals/data/calibrations after join", "exceptions on incompatible operands"])

p("C02", "Merging signal sets keeps exactly their common time, aligned",
  """Merging signal sets with distinct tag names (a & b, merge) yields all their channels over exactly the
  common parts of their run intervals where the sampling rate is the same and at least two sample instants
  are shared: every such sample instant and no other is present, and there every tag designates the sample
  values and calibrations it has in its own set. The result does not depend on operand order or grouping
  (up to channel numbering), is empty if nothing is common, and sample instants are identified up to
  floating-point rounding of times. Operands sharing a tag name, or sharing time at the same rate with
  shifted sampling clocks, are refused with an exception.""",
  ["inputs", "programs"],
  "all families of two or more signal sets with several runs each, at power-of-two and other sampling rates, with starts from 0 to POSIX times",
  "tests merge sets that share the same runs, or one pair of overlapping runs at 1 Hz starting at 0; float rounding at real rates and times, multi-run intersections and misaligned clocks are never reached",
  [SS], [("SignalSet.merge / rec (interval intersection)", SS), ("SyncSignal time/index conversion", SS)],
  ["SignalSet.intervals, sizes, data, calibrations, tags after merge"])

p("C03", "Channel selection returns exactly the designated channels",
  """Selecting channels by tag name, index, slice, array or any sequence mixing names and indices
  (select_channels, s[...], or s.<tag>) keeps exactly the designated channels, in increasing order of their
  original index and on unchanged runs, each with its samples and calibration; and keeps exactly the tags whose
  channels are all kept, still designating the same channels in the same order. Unknown names or indices out of
  range raise ValueError (AttributeError for attribute access).""",
  ["inputs"], "all signal sets (any number of channels, single, alias and ordered group tags, untagged channels) and all channel selectors",
  "the doctest selects from one 3-channel set with five selectors",
  [SS], [("SignalSet.select_channels, __getitem__, __getattr__", SS), ("SyncSignal.select", SS)],
  ["tags, data and calibrations of the selected set", "type of the exceptions"])

p("C04", "Run selection behaves like numpy indexing of the run sequence",
  """Selecting runs with an integer, a slice, an index array or a boolean mask (select_runs or s[channels, runs])
  keeps exactly the runs that the same index picks in a 1d numpy array of the runs, each with all its channels,
  samples, calibrations, rate and start, and leaves the tags unchanged; the result stays sorted by start time.
  Indices numpy refuses are refused.""",
  ["inputs"], "all signal sets with any number of runs and all valid or invalid 1d run indices without duplicates",
  "the doctest uses two boolean masks on one set",
  [SS], [("SignalSet.select_runs, __getitem__", SS)], ["signals and tags of the result"])

p("C05", "Time extraction keeps exactly the samples inside (or outside) the interval",
  """Extracting a time interval from a synchronous signal, a signal set or an inventory keeps exactly the samples
  whose instant lies in the closed interval (with exclude: before or at its start, or after or at its stop), run
  by run, dropping what is left with fewer than two samples in sets, without moving any kept sample in time and
  without touching channels, tags, calibrations or rates. A time that falls on a sample up to floating-point rounding
  counts as that sample, so extracting a set's own run intervals is lossless and repeating an extraction
  changes nothing. In strict mode a synchronous signal refuses bounds outside its own interval (otherwise the interval is supposed to meet its own). Extracting samples i to j of a synchronous signal by their numbers
  keeps exactly these, at their times, and refuses numbers out of range.""",
  ["inputs", "programs"],
  "all signals at power-of-two and other sampling rates with starts from 0 to POSIX times, and all intervals with bounds on, between, before or after samples, including empty and reversed ones",
  "one doctest line extracts one interval at 1 Hz from time 0",
  [SS], [("SyncSignal.extract_t / extract_i", SS), ("SignalSet.extract_t", SS), ("Inventory.extract_t", SS)],
  ["start, size, data of each resulting run"])

p("C06", "Merging consecutive runs loses nothing and merges maximally",
  """Merging consecutive runs yields runs that partition the same (instant, sample) pairs with the same tags: two
  runs are glued exactly when they are neighbours in time, have the same sampling rate and the second starts one sampling period
  after the first stops (up to floating-point rounding of times); any gap, overlap-by-touching or rate change keeps them apart.
  A glued run starts when its first run starts and takes that run's calibrations; applying the operation again changes nothing.""",
  ["inputs"],
  "all run layouts (any number of runs, several rates interleaved, gaps of any size), channel counts, partially tagged sets, POSIX start times",
  "tests check only the interval bounds, for 16 layouts at 2 or 4 Hz; samples, calibrations, other rates and partially tagged sets are never looked at",
  [SS], [("SignalSet.merge_consecutive_runs / _group_indices", SS)], ["runs, data, calibrations before and after"])

p("C07", "Packing an inventory gives the largest synchronous signal set",
  """Packing an inventory yields one signal set of all tagged channels, carrying every tag of the inventory, whose runs cover, for each
  sampling rate, exactly the instants at which all channels are recorded at that rate (in common stretches of at least two samples), with consecutive runs merged;
  every tag designates, instant by instant, the samples and calibrations of the inventory element it comes from. With multi-channel
  tags dropped on request, exactly the single-channel tags remain. If no instant is covered by all channels the
  result has no run; the order in which elements were added does not matter. Complete recordings at different rates that overlap in time, which one signal set cannot hold, are refused.""",
  ["inputs", "histories"],
  "all inventories of one or more elements over several sites, rates and run layouts, with single, group and alias tags, in any insertion order",
  "the doctest looks at merge() intervals of four fixed selections; pack() itself is never run",
  [SS], [("Inventory.pack / _join_merge", SS), ("SignalSet.join, merge, merge_consecutive_runs", SS)],
  ["pack() result: tags, intervals, data"])

p("C08", "Inventories are faithful containers and filters",
  """An inventory is an ordered collection: appending, extending and adding preserve the elements and their order and refuse
  anything but signal sets with ValueError, without altering other inventories. Filtering by shell patterns, selecting
  channels by tags, selecting runs and extracting times apply the operation element by element, keep order, drop exactly the elements left with
  no channel or no run; available tags are the union of the elements' tags; grouping by tags yields one packed set per
  group whose new tag designates the channels of the listed tags in the listed order.""",
  ["inputs", "histories"], "all inventories, patterns, key sets, run masks and group lists, and histories of append/extend/add",
  "three selections of a three-element inventory are checked by tags and intervals only",
  [SS], [("Inventory", SS)], ["len, iteration, tags, elements of the resulting inventory"])

p("C09", "Tags always map legal names to in-range index tuples",
  """A tags object behaves as a dict whose keys are names starting with a letter and whose values are non-empty tuples of
  channel indices within its range: scalars are wrapped, sequences keep their order, attribute access and item access read, write and delete
  the same entries (a tag named like a method of the mapping hides that method as an attribute). Invalid names, empty groups and out-of-range indices are refused and leave the mapping unchanged,
  as does attaching tags that do not fit a signal set's channels. Without an explicit size the range is inferred from the largest
  index; pattern filtering returns exactly the matching names (or the sorted distinct indices they designate).""",
  ["histories", "inputs"], "all histories of set/delete/update/pop through item and attribute access, valid and invalid, on tags of any number of indices",
  "tags are only built with literals in tests; no history of updates, no refusal is tested",
  [SS], [("TagsBase / Tags", SS), ("SignalSet.tags setter", SS)], ["mapping content after each step", "exceptions"])

p("C10", "Operations on signal sets never alter or alias existing objects",
  """Whatever sequence of join, merge, select, extract, merge-consecutive, indexing, inventory and pack operations is performed, every
  signal set obtained so far keeps its tags, runs, samples and calibrations, always has runs sorted and non overlapping with the same number of
  channels in each, and equals what a plain model (a mapping from instants to samples per tag) predicts. Editing the tags of one signal set never
  changes any other signal set, and copies of a signal set are equivalent to the original.""",
  ["histories", "programs"], "all operation histories over a growing pool of signal sets, with tag edits interleaved",
  "each test performs one or two operations on fresh objects and never looks back at the operands",
  [SS], [("immutability of SyncSignal/SignalSet, tags copied on construction", SS)],
  ["all pool members compared with the model after every step"])

p("C11", "Fourier coefficients are the windowed DFT on every full window",
  """The Fourier coefficients of time series at a frequency are, for every window k of length L starting at sample k*shift that fits in
  the data, 2/L times the sum of window weight x sample x exp(-2*pi*i*f/fs*n), n counted from the window start; L is the smallest integer covering
  the requested number of periods and shift the integer part of L*(1-overlap). Values do not depend on how the series are stored (list, numpy array
  of any real type, dask array with any chunking, lazy or computed), on the other series or on previous calls; unequal lengths, frequencies outside (0, Nyquist], and
  series too short for one window are refused with an exception.""",
  ["inputs", "configurations"], "all lengths, real sample types, frequencies, periods, overlaps in [0,1), window arrays/functions and chunk layouts",
  "one doctest compares two splits of the same signal; no value is ever compared with a definition",
  [FT, SS], [("time_to_freq, discrete_window", FT)], ["coefficients and (Nw, Lw, shift)"])

p("C12", "Signal set spectra are calibrated and follow runs in order",
  """The Fourier coefficients of a synchronous signal are those of its raw data divided, channel by channel, by that channel's calibration
  (function evaluated at the frequency, or constant, 1 if none); those of a signal set are, channel by channel, the coefficients of its runs placed one after the other
  in time order, described by one (number of windows, length, shift) triple per run. Calibrations stay attached to their channels through every selection, join, merge and
  extraction, and data read lazily from files give the same coefficients as the same data in memory.""",
  ["inputs", "programs", "configurations"], "all signal sets with any number of runs at different rates, any number of channels, constant or frequency dependent complex calibrations",
  "no test uses any calibration",
  [SS, FT], [("SyncSignal.fourier_coefficients", SS), ("SignalSet.fourier_coefficients", SS)], ["fourier_coefficients()"])

p("C13", "Slepian windows are valid normalised tapers for every length",
  """For every length and bandwidth parameter the Slepian window function returns an array of exactly that length, positive in its main part, rising to its centre and falling after it,
  symmetric, with unit mean (within 1 percent, exactly up to length 1000, where it equals the normalised discrete prolate spheroidal sequence), that depends only on its two
  parameters; a unit-amplitude sinusoid at the analysed frequency then gets a coefficient of modulus one within a few percent.""",
  ["inputs", "histories"], "lengths 8..20000, bandwidth parameters 1..6, interleaved calls with different parameters",
  "the window is only used inside one end-to-end test with ratio outputs, where its normalisation cancels",
  [FT], [("slepian, slepian_window", FT)], ["window arrays", "modulus of the coefficients of a sinusoid"])

p("C14", "The plain transfer function is the least-squares solution per output",
  """With no robust weighting, the estimated transfer function is for each output the complex least-squares solution over the samples not listed as invalid: it satisfies the normal equations, recovers any exact
  linear relation, does not depend on values at invalid samples nor on the other outputs, and follows scaling, linear recombination and permutation of inputs, outputs and samples. Invalid indices may be given once for all outputs or per output, and
  are returned, in original numbering, as the rejected samples; inconsistent shapes, and outputs with no sample left, are refused.""",
  ["inputs"], "all complex or real data with any number of outputs and well-conditioned inputs, from just enough to thousands of samples, any set of invalid indices in any accepted container",
  "one 1x1 noise-free factor is recovered; several inputs, complex relations and invalid indices are never used",
  [ME], [("transfer_function / m_estimate / wlse", ME)], ["returned transfer and invalid indices"])

p("C15", "Robust estimates are equivariant and independent of call history",
  """With any of the provided weight sequences (M-estimator, bounded influence), estimates and rejected samples computed for an output do not depend on the other outputs, on the order of samples (indices are permuted alike), nor on any earlier use of the same weight objects, including uses that failed;
  scaling outputs or inputs scales the estimate accordingly, recombining inputs linearly recombines it, and adding a linear combination of the inputs to an output adds its coefficients.""",
  ["inputs", "histories"], "all noisy complex data with or without outliers and leverage points, all histories of calls sharing weight objects",
  "a single scalar, nearly noise-free problem is solved; the weight objects keep hidden state between calls that no test interleaves",
  [ME, WE], [("chain_m_estimate, m_estimate", ME), ("Huber, Thomson, BoundedInfluenceStep state", WE)],
  ["transfer and rejected indices from repeated / transformed calls"],
  [("scale / previous weights", "per-object state reset at the first iteration", WE)])

p("C16", "Robust estimators resist outliers and leverage points",
  """If a minority of samples is corrupted by arbitrarily large errors in an output, the M-estimator and bounded-influence estimates stay close to the estimate obtained from
  the uncorrupted samples (within a small multiple of the statistical error, however large the corruption), grossly corrupted samples are reported as rejected, and most clean samples are not; with bounded influence this also holds when the few corrupted samples have inputs several times larger than the others (leverage points),
  which do bias least squares.""",
  ["inputs"], "up to 15% (M-estimator), 10% (bounded influence) or 5% (leverage factors 3..8) corrupted samples of magnitude 100 to 1e8 times the noise, 1..2 outputs, 1..2 inputs, 40..200 samples",
  "tests have no outlier at all",
  [ME, WE], [("mest_weights, bi_weights", WE), ("transfer_function", ME)], ["distance to the clean estimate", "rejected indices"])

p("C17", "The reweighting iteration honours its contract with weight functions",
  """Each weighting of a sequence is run in turn on the samples still kept: its weight function is called with iteration numbers 0, 1, 2..., the current residuals (not-a-number at already rejected samples), the kept data and the rejected indices; the next estimate is the least-squares solution weighted by what it returned,
  and iterations stop when the relative change of the weighted residual sum of squares is below the tolerance, else fail with NonConvergence after the allowed number of iterations.
  Samples weighted (near) zero are rejected for all following steps, all rejections are reported once, sorted, in the original numbering, and rejecting everything is an error. In the real-valued formulation the real and imaginary parts of a sample are samples of their own, and a sample is reported as rejected as soon as one of its parts is.""",
  ["inputs", "programs"], "all sequences of weightings built from user-supplied weight functions with arbitrary weights and rejections, tolerances, iteration limits and initial guesses",
  "tests only run the built-in weights to completion and never look at rejected indices in the estimator, custom weights or failures to converge",
  [ME, "src/razorback/errors.py"], [("m_estimate, _eval_weight, chain_m_estimate, merge_invalid_indices", ME)], ["arguments received by the weight functions", "returned estimate and indices", "exceptions"])

p("C18", "Weight functions are bounded, monotone and scale free",
  """The Huber weight min(1, a s/|r|) and the Thomson weight exp(exp(-x^2) - exp(x (|r|/s - x))), x defaulting to sqrt(2 log 2N), lie in [0, 1], do not increase with the residual magnitude, depend on residuals only relatively to their robust scale s (common scaling or sample permutation has no other effect), leave the smallest residuals fully weighted and give zero influence (Thomson) or influence bounded by the threshold
  (Huber) to arbitrarily large ones; Thomson keeps the scale of its first iteration; s is the median absolute deviation of the residual magnitudes divided by 0.44845, rejected entries being ignored. Bounded-influence
  weights are these weights times the product over iterations of two such damping factors of the normalised leverage of each sample (under the previous weights) relative to its upper and lower bounds, one for average leverage and vanishing for extreme leverage; bi_weights chains steps with Huber weights and bounds narrowing by 2 to those of the given rejection probability, then a Thomson step.""",
  ["inputs"], "all residual vectors of 8 or more complex entries (with rejected entries) and thresholds, and input matrices with leverage points",
  "weight values are never looked at by tests",
  [WE], [("Huber, Thomson, BoundedInfluenceStep, bi_weights, mad_scale, expexp", WE)], ["weights returned by the weight functions"])

p("C19", "Reported errors are the standard errors of the estimates",
  """The reported error of each transfer coefficient is positive and, when no sample is rejected, equals the classical least-squares standard error (residual norm over root of degrees of freedom, times root of the diagonal of the inverse Gram matrix); rejecting m of n samples inflates it by n/(n-m). It scales with outputs and inversely with inputs, ignores sample order and output
  order, and for Gaussian noise covers the true coefficients at the expected frequency.""",
  ["inputs"], "all well-conditioned complex problems with 1..3 outputs, 1..3 inputs, 10 or more samples and any rejected sets",
  "no test reads a non-nan error value",
  [ME, UT], [("transfer_error", ME)], ["error arrays"])

p("C20", "Impedance estimation recovers the linear relation in the data",
  """For data whose electric channels are a linear combination (constant or calibrated) of the magnetic channels up to small noise, the estimated impedance equals that relation within the noise level at every processable frequency, with one row per electric and one column per magnetic channel in the order of their tags: for single-site and remote-reference processing
  (with unbiased results when only local channels carry independent noise), for every provided weighting, for complex or real-valued formulation, and whatever the channel numbering, tag names, run splitting and window settings; the returned remote transfer maps remote to local magnetic channels.""",
  ["inputs", "configurations"], "any number of electric, magnetic and remote channels and runs, all weightings, random Fourier options and calibrations",
  "one scalar factor 2 with one channel each and one run; no tensor, no noise, no calibration, no real remote channel",
  [UT, ME, SS], [("impedance, _impedance, transfer_function_real_prob", UT)], ["ImpedanceResult.impedance, transfer_mag"])

p("C21", "Frequencies are processed independently and failures stay contained",
  """Impedance results at a frequency do not depend on which other frequencies are requested, on their order, or on earlier calls; results are returned in request order with shapes (frequencies, electric, magnetic) for impedance and error and (frequencies, magnetic, remote) for the remote transfer.
  A frequency that cannot be processed (outside the sampled band, too few windows, no convergence, everything rejected) yields not-a-number at that frequency only with the same shapes, while with silent failing turned off estimation failures are raised.""",
  ["inputs", "histories", "fault_sequences"], "all mixes of processable and failing frequencies, channel counts, and weight functions or prefilters that fail on chosen calls",
  "two tests request a single failing frequency with one channel each",
  [UT], [("impedance loop, _impedance error handling", UT)], ["shapes and nan pattern of ImpedanceResult"])

p("C22", "Reported invalid times are the centres of exactly the rejected windows",
  """When asked for, the invalid times reported for each electric channel are exactly the centre times of the windows rejected by the prefilter or the estimator, each lying inside its own run and computed with that run's rate and start; windows rejected at the remote stage are included for all channels. Otherwise one empty list per electric channel is reported, and nothing for a failed
  frequency.""",
  ["inputs"], "signal sets with any number of runs at different rates and starts, prefilters or weight functions rejecting arbitrary windows, one or two stages",
  "a test counts invalid times for one run; their values are never looked at",
  [UT], [("keep_invalid_times block of _impedance, prefilter_values, compute_prefilter times", UT)], ["ImpedanceResult.invalid_time"])

p("C23", "The coherency prefilter rejects exactly the windows out of its bounds",
  """The coefficient-of-determination filter attributes to every window a value in [0, 1] equal to the square root of the fraction of output energy explained by the least-squares fit of the inputs over its block of consecutive windows (the last block also takes the remainder), unaffected by scaling the output or invertibly recombining the inputs, and rejects exactly the windows whose value lies outside its bounds.
  Windows rejected by any prefilter have no influence at all on the estimates (local or remote stage), and the value-reporting helpers return those same values with the centre time of each window.""",
  ["inputs"], "all numbers of windows, block sizes, inputs and bounds; any user prefilter",
  "prefilters are never exercised by tests",
  [PF, UT], [("CoefficientOfDeterminationFilter", PF), ("apply_prefilter, prefilter_values, compute_prefilter", UT)], ["filter values and indices", "impedance under a prefilter"])

p("C24", "Mass processing equals the individual processing of each combination",
  """Mass processing over remote combinations, time intervals and frequencies returns, for each combination of remote references (none to all, or only all) in the reported order and each interval, exactly what estimating the impedance on the packed local and remote channels restricted to that interval gives, with the requested options; the inventory and the options passed in are left untouched.""",
  ["inputs", "configurations"], "any number of remotes, intervals, frequencies, with or without combination of remotes",
  "mass processing is never run by tests",
  [UT, SS], [("impedance_mass_proc", UT), ("Inventory.extract_groups", SS)], ["MassProcResult fields"])

p("C25", "ATS files are read back exactly",
  """Every field of an ATS header and every sample is read back as stored: samples are the stored 32-bit integers times the stored least-significant-bit value, starting right after the header length stored in the file, with the stored sampling rate and start time, one channel per file in the given order with the given calibrations. A file shorter than announced
  yields its complete samples with a warning, a longer one only the announced samples; a missing or truncated header, files with different rates, starts or lengths, or a bare file name instead of a list are refused; reading different files, also under the same relative name, never mixes them up.""",
  ["inputs", "histories", "fault_sequences"], "all header contents, header lengths, sample contents, truncations at any byte, several files and working directories",
  "no test reads a file",
  [ATS, BFA], [("read_ats_header, read_ats_sample, load_ats", ATS), ("BinaryFileArray_1D", BFA)], ["SyncSignal data, rate, start, calibrations; header dict"])

p("C26", "File-backed arrays index like the array they store",
  """An array backed by a binary file (any numeric type, any byte offset) has the shape and type of the stored values and returns for every integer (also negative) or slice index (any bounds, any step, empty or reversed) exactly what numpy returns for the same values in memory, directly or through the lazy array built on it with any chunk size;
  out-of-range integers raise IndexError; array proxies of any number of dimensions built on the same base class index likewise. It survives a change of working directory, and a file that shrinks after opening is an error, never silently wrong data.""",
  ["inputs", "configurations", "fault_sequences"], "all types, offsets, sizes, all integer and slice indices, chunk size limits, truncations",
  "one fake proxy is summed by interval bounds only; the file-backed class is never instantiated",
  [BFA], [("BaseArrayProxy.__getitem__, _to_slice", BFA), ("BinaryFileArray_1D.extract", BFA), ("to_dask_array", BFA)], ["indexing results"])

p("C27", "Metronix calibrations follow the tabulated response",
  """A Metronix calibration function returns at each tabulated frequency of the relevant section (chopper on if the sampling rate does not exceed the limit, else off) frequency x modulus x exp(i phase), linear complex interpolation between tabulated frequencies, whatever the order of the rows, and below the lowest tabulated frequency, chopper on only, the modulus at that frequency with the phase of f + i*alpha where
  alpha depends on the sensor version found in the file name; other frequencies are refused. Files without a recognised sensor version, or missing files, are refused; limits, patterns and alphas passed by the caller take precedence over defaults.""",
  ["inputs", "configurations"], "all tables, section orders and spellings, sampling rates around the limit, versions, overriding parameters",
  "calibration code is never run by tests",
  [CA, DA], [("metronix", CA), ("get_data_file", DA)], ["value of the calibration function"])

p("C28", "Phoenix calibrations give each channel's response at its level",
  """Phoenix calibration yields one function per channel announced in the file, in file order, that returns at each tabulated frequency of the requested level the stored complex value and interpolates it linearly in between, using the rows of that level only and in whatever row order; frequencies outside the level's table and levels absent from the file are refused.""",
  ["inputs"], "any number of channels and levels, interleaved rows, one or two heading lines",
  "calibration code is never run by tests",
  [CA], [("phoenix", CA)], ["value of the calibration functions"])

p("C29", "Tags are extracted from paths exactly as the pattern says",
  """Extracting tags from paths yields, in input order, exactly the names whose normalised path matches the whole pattern, where * matches within one directory level, ** across levels, ? one character, [seq] and [!seq] one character in or not in seq, each {field} a non-empty run of letters, digits and underscores, and everything else itself; the labels returned are
  the templates filled with the text matched by the fields. Field names that are not plain identifiers, and templates using unknown fields, are refused with ValueError.""",
  ["inputs"], "all patterns built from literals (with regex-special characters), wildcards, character sets and fields, and all names",
  "the only test prints matches and asserts nothing",
  [UT], [("tags_from_path, _prepare_pattern, _get_fields", UT)], ["yielded (name, labels) pairs"])

p("C30", "Data files and CLI paths resolve local first, then global",
  """A data file is looked up first in the local data directory of the current working directory if that directory exists, then in the data directory shipped with the package, at call time; the first existing file is returned as an absolute path and a file found nowhere raises ValueError. The command line 'rzb path base|metronix' prints the directory so in effect, with --create it creates exactly the missing local
  directory (parents included) and never touches existing content, and 'rzb version' prints the installed version. The help lists these commands and those that installed packages register under 'rzb.commands', which run with their own arguments; other arguments are refused and change nothing.""",
  ["inputs", "histories", "configurations"], "all layouts of local and global directories and files, all sequences of path commands and working directories, all sets of registered commands",
  "cli and data lookup are never run by tests",
  [DA, CLI], [("data_path, local_data_path, default_data_path, get_data_file", DA), ("path_action, path_base, path_metronix, version", CLI)], ["returned paths, CLI output, file system content"])

p("C31", "Summaries show the true content of signal sets",
  """Printing a signal set, a synchronous signal or tags never fails and shows its true content: numbers of channels and runs, every tag with its indices, and one line per run in time order with its sampling rate and UTC start and stop times to the second; the array-like attributes (rates, sizes, starts, stops, intervals, numbers of channels and runs) agree with the runs and with each other.""",
  ["inputs"], "all signal sets with any number of runs and channels, many or few tags, and start times from 1950 to 2100",
  "only the intervals attribute is read by tests",
  [SS], [("SignalSet.__str__/__repr__, SyncSignal.__str__/__repr__, properties", SS)], ["str(), repr(), attributes"])

p("C32", "A survey is processed from its files like the same data in memory",
  """Processing a survey from its files (names turned into tags by a pattern, ATS recordings and sensor calibration files loaded, an inventory of recordings packed, grouped or joined and merged) gives exactly the runs, sample values, times and calibrations that are common to the channels used,
  and impedance estimation on them gives the same impedance, error and invalid times as on the same data built in memory, and recovers the impedance the data were generated with, for single-site, remote-reference and mass processing, whatever the file layout, loading order, chunk size and way of building the set.
  Robust weights may differ by what one more or less step of their iteration changes.""",
  ["inputs", "programs", "configurations"], "all surveys of two sites with one to three recordings per site and rate, starting together or not, file layouts, calibration kinds, dask chunk sizes, weights and ways of building the data set",
  "no test goes from a file to an impedance; ATS files, calibration files and tags from paths are never used together with processing",
  [SS, UT, ATS, BFA, CA, FT, ME], [("load_ats, load_ats_from", ATS), ("metronix, phoenix", CA), ("Inventory.pack, extract_groups; SignalSet.join/merge", SS), ("tags_from_path, impedance, impedance_mass_proc", UT)], ["runs, samples and calibrations of the set", "impedance, error, invalid_time"])

p("C33", "Processing leaves data and options untouched and can be repeated",
  """No processing function (impedance, mass processing, transfer functions and errors, prefilter reports, weight functions, Fourier coefficients) alters the signal sets, inventories, arrays, index lists or option dictionaries it is given, nor the state of the process (error handling and random generator of numpy, print options, filters of warnings, dask options, working directory, environment), whether it succeeds or fails;
  and repeating a call on the same data with the same weights, prefilter and option objects gives the same result whatever was processed in between.""",
  ["inputs", "histories"], "all histories of processing calls, successful or failing, on shared data (arrays, views, lists, lazy, read-only), weights, prefilters and options",
  "tests process each data set once and never look at their inputs again",
  [UT, ME, WE, PF, FT], [("impedance, impedance_mass_proc, prefilter_values*, compute_prefilter, apply_prefilter", UT), ("transfer_function, transfer_error", ME), ("weight functions", WE), ("time_to_freq", FT)], ["arguments, data and state of the process after each call", "results of repeated calls"])

p("C34", "Computations in concurrent threads give what they give alone",
  """Operations that run at the same time in several threads, whatever the schedule, on shared signal sets, inventories, files, window functions and weights (mest_weights is a global object), give exactly the results or failures they give when run alone: impedance and mass processing, transfer functions, Fourier coefficients, selections, extraction, packing, loading and reading files, calibrations.
  Lazy data read from files are the same under any scheduler of dask, number of threads, chunk size and number of simultaneous computations.""",
  ["inputs", "schedules"], "all interleavings, at lines and at bytecodes, of two to four operations of any kind; pools of 2..8 threads",
  "tests run one thing at a time",
  [UT, ME, WE, FT, SS, ATS, BFA], [("Thomson, BoundedInfluenceStep", WE), ("impedance", UT), ("slepian_window", FT), ("BinaryFileArray_1D.extract", BFA)], ["results of each thread"])

p("C35", "Impedance composes its stages, each with the options requested for it",
  """At each frequency impedance estimation is the composition of its stages, each one with the options given for it: the Fourier coefficients of all runs with the requested number of periods, overlap and window (8, 0.71 and a Slepian window of parameter 4 by default, each one on its own); with a remote reference, the prefilter and weights of the remote stage (those of the main stage if not given) and the
  estimation of the transfer from remote to local magnetic channels, whose prediction replaces the local ones; then the prefilter on all windows and, on the windows that neither it nor the remote stage rejected, the weights and the estimation of the transfer from magnetic to electric channels, tolerance, iteration limit and rejection threshold applying to both stages. The error is the standard error of this last estimate, the rejected windows are those of all steps, and the functions given by the user are
  called with the coefficients of their stage, for each output in turn. An exception in any of them fails the frequency.""",
  ["inputs", "configurations", "fault_sequences"], "all sites, Fourier options, sequences of provided and user weight functions and prefilters (some failing or rejecting everything) for either stage, estimation options given in part, complex or real formulation",
  "tests use no remote stage, no option of either stage and never look at what user functions receive",
  [UT, ME], [("_impedance, apply_prefilter, transfer_function_real_prob", UT), ("transfer_function, transfer_error", ME)], ["ImpedanceResult", "arguments received by weight functions and prefilters"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for e in P:
    assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
out.write_text("".join(json.dumps(e) + "\n" for e in P))
print(len(P), "properties")
