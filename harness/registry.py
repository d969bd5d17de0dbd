MODULES = {
    "check_qs": ["Q01", "Q02", "Q03", "Q04", "Q05", "Q06", "Q07", "Q08", "Q09", "Q10"],
    "check_net": ["P01", "P02", "P03", "N01"],
    "check_fj": ["F01", "F02", "F03", "M01"],
    "check_theory": ["T01", "T02", "T03", "T04", "T05", "T06", "T07",
                     "T08", "T09", "T10", "T11", "T12", "T13", "T14", "T15"],
    "check_report": ["M03", "M04"],
    "check_dist": ["D01", "D02", "D03", "D04", "M02"],
}

TECH = {
    "D": "TLA+ specs Stages, Curve: TLC enumerates the stages of a law (sums, single laws) and walks its curves; the solution of the enumerated stages is compared with the implementation's moments, curves, fits and convolutions",
    "D01": "TLA+ specs Sampler (exhaustive: all histories of draws), SamplerTrace (TLC validation of recorded histories of draws and runs) and Law (sampling law over bins from the enumerated stages)",
    "M02": "TLA+ spec Super: TLC enumerates the joint stages of merged renewal flows and checks invariants; interval moments and count cumulants of that chain are compared with the implementation's",
    "M03": "TLA+ spec Report: TLC exhaustive model checking + TLC validation, row by row, of tables printed by the real code",
    "M04": "TLA+ spec Graph: TLC exhaustive model checking + TLC validation of graphs made by the real code from routing matrices",
    "T": "TLA+ specs Markov, Embedded, Prio, FJChain, Route, Stages: TLC enumerates the labelled chain of the system and checks its invariants; the stationary and first-passage solution of that chain is compared with the implementation's formulas",
    "F": "TLA+ spec FJ.tla: TLC exhaustive model checking + TLC trace validation of recorded fork-join/split-join histories + replay of spec behaviours",
    "M": "TLA+ spec Flow.tla: TLC exhaustive model checking + TLC validation of recorded superposition runs",
    "P": "TLA+ spec Net.tla: TLC exhaustive model checking + TLC trace validation of recorded priority-queue histories + replay of spec behaviours",
    "N": "TLA+ spec Net.tla: TLC exhaustive model checking + TLC trace validation of recorded network histories + replay of spec behaviours; routing law judged by Law.tla",
    "Q": "TLA+ spec QS.tla: TLC exhaustive model checking + TLC trace validation of recorded simulator histories + replay of spec behaviours",
}
NOTE = {
    "D": "Stage structures enumerated exhaustively; numeric comparison at randomly drawn parameters (fixed seed) incl. border cases; laws without stages (Uniform, Pareto, Weibull, non-integer Gamma) by definition and by the curve walk. Trusts scipy/numpy linear algebra.",
    "D01": "Reproducibility exhaustive on the specification for short histories; recorded histories of the real samplers must be histories of the specification; laws judged statistically with fixed seeds (7 sigma per category).",
    "M02": "Chain structure enumerated by TLC; numeric comparison at randomly drawn laws (fixed seed). Trusts numpy linear algebra.",
    "M03": "Exhaustive on short columns; printed tables of the real code (random decimal values that the format shows exactly) parsed and compared row by row with the specification's printing.",
    "M04": "Exhaustive on small matrices; edges, labels, places and colours of graphs made by the real code (both engines) compared with the specification's drawing.",
    "T": "The chain's structure is enumerated exhaustively by TLC within a truncation bound; its numerical solution is compared with the code at randomly drawn parameters (fixed seed) covering every shape. Trusts scipy's sparse solver and the truncation (remaining mass < 1e-9).",
    "F": "Specification exhaustive for n<=2 (3 thorough), up to 3-4 tasks; recorded steps of the real simulator must be steps of the specification. Trusts the scripted samplers and TLC.",
    "M": "Merging specified and checked exhaustively on short sequences; the real simulator's moments on scripted intervals are compared by TLC with those of the specification; folding checked as a pool protocol.",
    "P": "As for the single-class simulators: specification exhaustive within small bounds (2-3 classes, 1-2 servers, every discipline); recorded steps of the real simulator must be steps of the specification. Trusts the scripted sampler and TLC.",
    "N": "Specification exhaustive on small two-node networks; recorded steps of real networks (random topologies, permutations, disciplines) must be steps of the specification; routing frequencies from real runs with a fixed seed within 7 sigma.",
    "Q": "Specification invariants exhaustive within small bounds; every recorded step of the real simulator (scripted integer durations: spec-generated small-scope behaviours plus random long histories) must be a step of the specification, with exact comparison of lines, servers, clock, counters, moments and tallies. Trusts the scripted sampler and TLC.",
}
