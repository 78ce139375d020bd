G = "Evidence from generated cases only (no absence proof). "
TECH = {
 "C01": ("PBT: generated run families and channel permutations against an exact-time reference model; generated incompatible pairs must be refused",
         G + "Trusts the model in rzbv/model.py; samples carry their provenance so that any mix-up is visible."),
 "C02": ("PBT: generated operand families against an exact rational interval-intersection model, all orders and groupings",
         G + "Times compared up to 24 ulp; clocks shifted over less than 3 periods are left unspecified."),
 "C03": ("PBT: generated tagged sets and selectors against a reference model", G + "Empty selections are left unspecified."),
 "C04": ("PBT: differential against numpy indexing of the run sequence", G + "Indices without duplicates."),
 "C05": ("PBT: generated intervals at sample/quarter-sample positions against exact rational arithmetic; idempotence and lossless laws",
         G + "Bounds are on samples or at least a quarter of a period away from them."),
 "C06": ("PBT: generated run layouts against an exact rational grouping model; cut-then-merge round trip", G),
 "C07": ("PBT: generated inventories against a per-site model of common instants; order metamorphic relation",
         G + "Elements that share a tag carry the same tags (precondition of pack)."),
 "C08": ("PBT: generated container histories against a list model; filters against an independent glob matcher and element-wise model", G),
 "C09": ("PBT: generated operation histories against a dict model, with refusals", G),
 "C10": ("PBT: generated programs over a growing pool of signal sets, model and snapshots checked after every step", G),
 "C11": ("PBT: differential against the direct windowed DFT sum; metamorphic over storage and chunking", G + "Window counts compared where the documentation defines them; tolerance 1e-9 relative."),
 "C12": ("PBT: differential against per-run, per-channel calibrated DFT; programs preserving calibrations; file-backed data", G),
 "C13": ("PBT: differential with scipy dpss up to length 1000, validity predicates above; interleaved-call independence", G),
 "C14": ("PBT: normal equations, numpy lstsq differential, metamorphic relations", G + "Well conditioned inputs."),
 "C15": ("PBT: metamorphic relations (permutation, scaling, recombination, other outputs) and call-history independence", G + "Cases whose robust iteration is borderline (a decision within 1e-6 of a threshold) are not judged."),
 "C16": ("PBT: generated contaminated data sets against the clean estimate", G),
 "C17": ("PBT: recorded callbacks of generated weight functions against an independent replay of the iteration", G),
 "C18": ("PBT: weight functions against their formulas and monotonicity/scale invariance predicates", G),
 "C19": ("PBT: differential against the classical standard error; metamorphic relations; Monte-Carlo coverage", G),
 "C20": ("PBT: synthetic signals with a known impedance, all configurations", G),
 "C21": ("PBT: metamorphic over requested frequencies; injected faults in weight functions and prefilters", G),
 "C22": ("PBT: windows rejected by generated prefilters/weights against window centre times computed from the runs", G),
 "C23": ("PBT: differential against block-wise least squares with numpy; metamorphic; helpers compared", G),
 "C24": ("PBT: differential against individual processing of generated combinations", G),
 "C25": ("PBT: generated ATS files, truncations and histories against the written content", G),
 "C26": ("PBT: differential against numpy indexing of the same values in memory; fault injection (truncation)", G),
 "C27": ("PBT: generated calibration tables against an independent evaluation of the documented formula", G),
 "C28": ("PBT: generated calibration tables against an independent interpolation", G),
 "C29": ("PBT: generated patterns and names against an independent backtracking matcher", G),
 "C30": ("PBT: generated directory layouts and command histories in scratch directories against a file-system model", G),
 "C31": ("PBT: generated sets, printed text parsed back and compared with the content", G),
 "C32": ("PBT: generated surveys written to files, differential against the same data in memory and the known impedance", G),
 "C33": ("PBT: generated histories of processing calls on shared objects, snapshots of every argument before and after, last call repeats the first", G),
 "C34": ("PBT: generated tasks under seeded deterministic thread schedules (switches at lines or bytecodes of the package) compared with the same tasks alone; dask thread pools with random pauses",
         G + "Switches happen inside the package only, not inside numpy; tasks edit no shared object."),
 "C35": ("PBT: generated sites, options and user functions for each stage; differential against the stages composed by hand from the library's estimators, and recorded calls", G),
}
