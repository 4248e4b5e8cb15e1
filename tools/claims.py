VN = "gated value numbering of the SSA form against a specification"
LN = "Sound over real-number arithmetic for the analysed functions (rounding of float64 is outside); loops are summarised as element-wise maps, filters or fixpoints, and a shape the analysis cannot bring to the same normal form is reported as undecided, i.e. as a violation. Trusts the Go type checker, x/tools SSA, the library models and the specifications in analyzer/spec."
AP = "typestate dataflow: the generator's SSA form is abstractly interpreted together with an abstract printer that parses the emitted text symbolically; loops are closed by guess-and-verify invariants"
EF = "interprocedural region and effect analysis of the SSA form with function summaries"
LE = "Sound for every function, closure and call chain of the repository: flow-insensitive within a function, field-insensitive, two levels of depth per argument; function values are resolved by type. Trusts the Go type checker, x/tools SSA and the documented effects of the standard library."
LG = "Sound over real-number arithmetic for every list of commands, layers, polylines and settings; printed numbers are compared as the generator formats them (%f/%v digits are outside). Command types other than those in the repository are outside. A shape the analysis cannot bring to a normal form is reported as undecided, i.e. as a violation. Trusts the Go type checker, x/tools SSA and the models of fmt/bytes/strconv."
TS = "typestate and effect analysis: path-sensitive walk of the SSA control-flow graph with interprocedural function summaries"
LT = "Sound for the calls the rule names, over every control-flow path of every function of the repository, with facts about nil and boolean values learnt at branches; a function value or library the rule does not know counts as a failure or an effect. Trusts the Go type checker, x/tools SSA and the documented behaviour of the standard library."
CLAIMS = {
 "C09": (TS, LT), "C30": (TS, LT),
 "C32": ("normal-form analysis: every comparison function is reduced to a decision diagram over signs of key differences", "Sound for all elements over real-number keys (NaN excluded), assuming the keys of one ordering vary independently; comparison functions that cannot be resolved are violations."),
 "C01": (AP, LG), "C02": (AP, LG), "C03": (AP, LG), "C04": (AP, LG), "C05": (AP, LG), "C06": (AP, LG), "C07": (AP, LG),
 "C20": (VN + "; a sequential reading of the line sort proves that it is a permutation", LN),
 "C21": (VN, LN),
 "C23": ("value numbering of the composition reader after writer: the text is a list of literal and printed parts which the reader takes apart again", LN),
 "C22": ("value numbering of each slicing mode along every bounded history of failing layers, against a specification", "Bounded in histories: up to 3 cuts in the default and 5-axes modes, the only cut of the bridge and rotation modes, planes lists of 0, 1 and 4, profiles of 0, 1, 2 and 4 points, 3 layers per part; unbounded in models, angles and settings. Each history is one symbolic value, no solver takes part. Sound over real-number arithmetic."),
 "C24": ("value numbering of each slicing mode along every bounded history of failing layers, against a specification", "Bounded in histories as C22. Meshes, cuts and slices are symbols: that a cut's two sides make up the mesh is not shown here. Sound over real-number arithmetic."),
 "C12": (VN, LN), "C13": (VN, LN), "C35": (VN, LN), "C14": (VN, LN), "C15": (VN, LN), "C34": (VN, LN),
 "C27": ("value numbering of each program's calls into the library, with option values as symbols, against the documented list", LN), "C28": ("value numbering of the written content against header + G-code + footer; the template files are parsed", LN),
 "C11": (EF, LE),
 "C18": (EF + "; typestate of wait groups and goroutine starts over the control-flow graph; value numbering of the queues", LE + " Every interleaving and every number of processors: the rules do not depend on them. Index forms other than stride, residue and block are reported as undecided."),
 "C19": ("source audit over the call graph (map ranges, clock, processors, randomness, addresses), taint of worker numbers, value numbering of the queues", LE + " Every function the programs can reach. Uses of nondeterministic sources outside the accepted forms are reported even where their effect might cancel out."),
 "C29": (VN + "; sorting and the search for a joined piece are uninterpreted permutation and fixpoint", LN + " Pieces have at least one point."),
 "C08": (VN + "; a file is its bytes and a position, a written file the list of its parts", LN + " That no product wraps is read off the types."),
 "C25": (VN.replace(" against a specification", "") + "; conditions of every use of a pointer, with summaries of what functions return and induction over loops", "Sound for every use of a pointer in every function the programs reach, under the assumptions the evidence lists (lists of pointers are filled before they are read, pointer fields are set where the struct is built, library results are nil only next to an error). What cannot be shown is reported. Trusts the Go type checker, x/tools SSA and the library models."),
 "C26": (VN.replace(" against a specification", "") + "; conditions of every element taken at a fixed distance from an end of a list, with least lengths of lists by induction and summaries", "Covers elements and pieces at a fixed distance from the start or the end of a list; an index that a loop or a search computes is not covered, nor are crashes of other kinds. Assumes that a contour has a point. What cannot be shown is reported. Trusts the Go type checker, x/tools SSA and the library models."),
 "C16": (VN + "; channels are lists, results an unknown permutation of them", LN),
 "C17": (VN + "; channels are lists, results an unknown permutation of them", LN + " That workers share nothing is C18."),
 "C33": (VN + "; the on-cases for a model of one layer that every triangle reaches", LN + " With supports on, the layer heights are fixed (one layer), everything else is arbitrary."),
 "C10": ("value numbering at every construction, hand-over and exit of a triangle", LN), "C31": (VN + "; dataflow of flags to the triangles they index", LN),
}
NA = {
 "C40": "closedness of contours follows from global mesh topology and floating-point coincidence of separately computed cut points; no static argument in reach bounds these runtime quantities",
 "C41": "a metric property of computed polylines of arbitrary shape (the mitre offset is known to break it at sharp corners); no static argument in reach bounds it",
 "C42": "depends on geometric reasoning over arbitrary meshes and on angles met at run time; no static argument in reach decides it",
 "C43": "depends on the physical extent of machine and part in every bed orientation, which the code does not even represent; nothing in the source can be analysed for it",
 "C44": "the decimation is done by an external library (fogleman/simplify) with a quadric heuristic; its error has no bound derivable from the source",
}
