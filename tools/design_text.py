# id -> (what is specified and how it is decided, bounds and reach)
T = {
"C01": ("Abstract machine. The generator's State (eOff, position …) and the abstract printer (extruder coordinate, tool, coordinate mode, retracted amount) are related by an invariant at every loop head; each emitted line updates the printer.", "Every command list, layer, polyline, retraction setting. Command types other than the repository's are outside; the printed digits (%f, three decimals) are taken as the value."),
"C02": ("Abstract machine: modal feed rate at each extruding move against the documented choice (first layer, walls, otherwise).", "As C01."),
"C03": ("Abstract machine: fan state at each extruding move against layer number and FanOffLayer1; header parsed for its last fan command.", "As C01."),
"C04": ("Abstract machine: nozzle position, with words left out of a line keeping the old coordinate, against the vertices of the polyline walked.", "As C01. Travels need only end at the right point; how high they lift is checked only as 'from where the nozzle is'."),
"C05": ("Abstract machine: tilt/rotation words after each bed command, in the mode in effect.", "As C01."),
"C06": ("Abstract machine: the E advance of each move is a polynomial in settings and vertex distance and must equal the bead volume divided by the filament cross-section; other E words must be retraction, its inverse or a reset.", "As C01."),
"C07": ("Abstract machine: the loops enclosing each extruding move are matched with the layer's lists in the documented order; announcements and counts by invariant.", "As C01."),
"C09": ("Typestate: every error-bearing call, every path on which the error is non-nil; buffered writers flushed, scanners asked for their error.", "All functions of the repository. Terminal output (fmt.Print…) is excluded."),
"C10": ("Normal forms at every construction, hand-over and exit of a Triangle: its normal must be the cross product of its edges as polynomials in its vertices.", "All functions that store into Triangle fields; functions only meant as helpers are inlined."),
"C12": ("Normal forms of the composed rotation/shift operations against rigid motions (angle addition, orthogonality are in the polynomial algebra).", "All vectors, angles, centres, meshes of any size."),
"C13": ("Normal form of CutMesh over arbitrary meshes and planes: one filter/flat-map per half, the cap from the joined cut lines; triangle/plane intersection uninterpreted (C15 decides it).", "All meshes. Relies on the sign convention of PointInFront (checked by C15)."),
"C14": ("Normal forms of vector, point, line, path operations against algebraic specifications.", "All real inputs."),
"C15": ("Normal forms of the plane operations against the plane equation; orientation of the segment across a triangle.", "All planes, points, triangles."),
"C20": ("Normal forms of the infill planes and of FillLayers (which planes, which walls, which layers); pairing of crossings; the ordering function is a permutation because each round appends one unused element and marks that very element.", "All meshes and settings. Crossings themselves are IntersectSegment (C15); even-odd pairing at vertices touching the plane is outside."),
"C21": ("Normal forms of PrepareLayers, SkirtPathes and MakeOffset, and of the helper that makes a chain of offsets (found by its signature), against the walls the settings ask for; the result of MakeOffset is compared step by step: edges moved one line width to the inner side, joined where they cross, turned-round edges dropped and their neighbours joined.", "All layers, contours, thicknesses and line widths. That the joined offset is a simple polygon is outside (C41)."),
"C22": ("Every slicing mode is evaluated along every history of failing layers up to a bound: slicing is a symbol that gives three layers, the test of neighbouring layers (found by its signature) fails where the history says. The resulting job, bed commands and meshes with their rotations, is one term and is compared with that of a specification that turns part and bed together. Planes returned by those tests must lean to the overhang: their normal is compared with the one that follows from the direction the overhang's point was searched in.", "Up to 3 cuts, 3 layers per part, 0/1/4 planes, up to 4 profile points; all models, directions and settings. The sense of the tilt under InclineX is fixed per mode, as found: the planes mode tilts the part by X(-60), the others by X(+60)."),
"C24": ("As C22, keeping only the meshes and layers of the job: the sequence of cuts, slices and filled layers is compared with the specification's, where both sides of each cut are used exactly once.", "Histories as C22. That the sides of a cut make up the mesh belongs to C31; overlaps from rounding are outside."),
"C23": ("Normal form of reader∘writer on an arbitrary plane; the reader takes the symbolic text apart again. One element-wise map over the file's lines; one line per plane in the analyzer's output; at every plane the analysis creates, the normal is a positive multiple of the one read back from its flag and rotation.", "All planes at print precision; an exactly horizontal overhang has no azimuth and is excluded."),
"C27": ("Every program's calls into the library, with option values as symbols named by their flags, against the documented list; unused options.", "All option values. Whether kingpin parses the flags right is outside."),
"C28": ("Normal form of the bytes written; the placeholder table; the template files are parsed.", "All jobs."),
"C30": ("Effect analysis with the debug flag read as false.", "All functions of package debug and their callees."),
"C31": ("Normal forms of colouring and filtering; dataflow from flags to the mesh they index.", "All meshes, angles, directions."),
"C32": ("Comparator functions as decision diagrams over sign vectors of key differences: irreflexive, asymmetric, transitive.", "All comparators passed to package sort; NaN keys excluded."),
"C34": ("Normal form of one level of the recursion, recursive calls being the induction hypothesis.", "All polylines and tolerances."),
"C35": ("Normal form of the conversion to and from the simplification library.", "All meshes and budgets; the library itself is outside."),
"C11": ("analyzer/regions.go divides the memory each function sees into what each argument refers to, what lies below it, globals and one region per allocation; loads follow stores, calls apply summaries, appending to a shortened list counts as writing over what is there. Every exported function and method of primitives, helpers, gcode, slicers and vip may write nothing of its arguments but what the table of documented in-place operations allows (Mesh.Shift, Triangle.Fill, Gcode.Add/AddLayers, walls and infill of a list of layers, output buffers).", "All inputs and call chains, spare capacity included. Joining may use the room behind the end of a piece. Field-insensitive: walls written over contours inside layers in place are seen, but which list of a layer is written is not told apart."),
"C18": ("Every go statement: its helper starts each worker number from 0 to one below runtime.NumCPU exactly once, calls the work exactly once on every path of the goroutine with values that cannot change meanwhile (loop variables captured by reference are refused), counts it before it starts, is done after the work, and cannot return without waiting. Work passed to a waiting helper: each write to memory the closure shares (regions and effects) must be at an element of a captured list whose index is the worker's own (stride, residue or block), and no load may touch what is written elsewhere. Work that is not waited for: no shared effect at all. Each send: no later effect of the sender on memory reachable from what was sent, unless it is allocated anew on the way. SliceByVector evaluated with its queues: sent = received for both, one queue with room for all, closed on every path, and the result does not depend on which worker does a job.", "All schedules and processor counts."),
"C19": ("The functions reachable from the programs' mains (function values, interface methods and methods the standard library calls included) are searched for every source of nondeterminism. A range over a map has to be one of the forms in which order cannot matter (placeholders in braces whose values contain no brace; keys collected and sorted; filling another map); the clock may reach the printed date only; runtime.NumCPU may only bound the start of workers; a worker's number may only choose its elements; no random numbers, environment, temporary names, select or printed addresses; package variables are never written after initialisation. SliceByVector is evaluated with the order of results as an unknown permutation, which must not occur in the returned term.", "All runs, schedules and processor counts; map order in code the programs do not reach (JoinPaths2) is not reported."),
"C29": ("JoinPaths3AndMinimize, JoinPaths3, the function that joins two pieces, MinimizeLines and the tests they rest on (IsClosed, IsCollinear) are each compared with analyzer/spec/joins over all lists and points: sort order of the ends, the search of the piece another one went into (a fixpoint), which neighbours are joined, in which order, and who keeps the result; MinimizeLines as a recurrence over the points.", "That the spec's union loop puts each piece into exactly one result is an argument about the specification (a piece leaves the list only in the step that appends its points to a root), made by reading it."),
"C08": ("LoadSTL, the two loaders it chooses from (found by signature), SaveSTL, NewTriangle and Fill are compared with analyzer/spec/stl. binary.Write is flattened by the type written (a blank array is zeros, a float32 four bytes), so the list of parts written before the last Flush has to be header, count, and per facet of the mesh N, V1, V2, V3, attribute; binary.Read and io.ReadFull give bytes of the file at the current position, and the facet loader has to take its coordinates from positions 12, 24 and 36 of each 50-byte record, low byte first; the decision has to be size == 84 + 50*count with the text loader starting at 0. The text loader may count modulo 3, start its counter over or collect a list (three specifications). Products of 32 bits or less in these functions are refused, since the evaluation does not model wrapping.", "Texts as read by bufio.Scanner, TrimSpace, Fields and ParseFloat are opaque: what makes a vertex line (12 characters, a leading v, three fields) is compared with the code's own rule, and that a line may be at most 64 KiB is not covered. That reading back what was written gives the same mesh follows from both layouts being the same one. A loader reading through another package (bufio, bytes) may be reported."),
"C25": ("Every function the programs reach is evaluated by itself over gated value numbering, the other repository functions left opaque. At every load or field access through a pointer, and at every call that hands a pointer to a function that follows it, the path condition has to exclude nil. What a call returns is summarised from the callee's own evaluation: never nil, or nil only together with an error or a false flag. A pointer carried around a loop is shown non-nil by induction over the loop. Where that is not enough the small callees are evaluated along (60, then 250 instructions), and after that the callers, two levels up.", "The nil checks sit at dozens of call sites, each reached only by special geometry; the check looks at all of them. Out of reach: nil inside lists of pointers and fields (assumed filled, C22 evaluates the one list that is), and panics other than nil."),
"C26": ("As C25, for lists: an index that is a constant or the length minus a constant, and slices with a fixed start or a fixed distance from the end. Known lengths come from the path condition, the induction over loops (least length of a list built in a loop, least value of a counter, an index that stays below a length), summaries of functions (least length of a returned list, given a non-empty argument; lists that a function makes sure are non-empty before it answers true or non-nil), searches (what a loop stopped for holds where it stopped) and strings.Fields.", "An index computed by a loop counter or a search is not covered. That every contour has at least one point is assumed; isRotation, FindCentroid and the walls rely on it, and the functions that build contours are compared with specifications elsewhere (C14, C29, C32)."),
"C16": ("Triangle.MinZ/MaxZ/MinMaxZ and Mesh.MinMaxZ are compared with minimum and maximum over the vertices. SliceByVector is evaluated with its channels: a channel is a list of what was sent, a worker is run once on a symbolic queue when it is closed, what is received is an unknown permutation of what was sent, and sorting by Order undoes it. The layers have to be those of the specification (analyzer/spec/slices), whose planes are ceil(extent/height) in number and at lo + extent/n*(i+1/2).", "Rounding of the running sum of shifts is outside."),
"C17": ("The whole of SliceByVector, worker included, against SSlice (sweep), SSliceAll (every triangle for every plane) or SSliceKeep (no removal): the term for layer i has to cut exactly the triangles with MinZ <= z <= MaxZ, once each, and only empty layers at either end may go.", "Supports off; that the two forms of the sweep are the same is not shown, either may be used. Aliasing of what is sent is C18."),
"C33": ("Supports off: as C17. Supports on: a model of one layer (extents fixed so that n = 1 and every triangle reaches the plane), so that the layer's term shows the whole list: support triangles in order, each under its own test against the model, then the model; with and without offset. Outer edges, feet, obstruction and point-in-triangle are compared with specifications for all inputs.", "The cut of two triangles (Triangle.IntersectTriangle) is taken as it is."),
}
