#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GC = ["gcode/cmds.go", "gcode/gcode.go"]
NOTEST = "No test looks at emitted G-code; the slicer tests only count layers."

p("C01", "Extruder coordinate never drifts from what the printer was told",
  "At every point of the generated G-code where filament is extruded, the extruder coordinate the printer holds (after all coordinate resets, tool changes, retractions and bed moves before it) equals the value the generator's running filament total had after the previous printing move, so a printing move advances the filament by exactly the amount computed for it. Filament retracted before a travel is pushed back before the next printing move, and every bed command hands control back to tool 0 with that tool's coordinate restored.",
  ["inputs", "histories", "configurations"], "every command list, every layer content, retraction on or off, every reset of the extruder counter",
  NOTEST + " The relation must survive arbitrary histories of layers, resets and bed commands.",
  GC, [("running filament total and G92 restores", "gcode/cmds.go"), ("command dispatch", "gcode/gcode.go Gcode.ToOutput")],
  [("eOff", "absolute filament position of tool 0 as the generator believes it", "gcode/cmds.go State")],
  ["text written by Gcode.ToOutput"])
p("C02", "Every printing move runs at the configured speed",
  "Every printing move is executed at the speed configured for it: the first-layer speed on the first layer of the job, otherwise the wall speed in outer, middle and inner walls and the print speed in infill. This holds whatever preceded the move, including retraction and bed commands, which use their own speed.",
  ["inputs", "histories", "configurations"], "every command list, layer content and speed/retraction setting",
  NOTEST, GC, [("speed selection and F word emission", "gcode/cmds.go")],
  [("feedrate", "last F word sent, as the generator believes it", "gcode/cmds.go State")], ["text written by Gcode.ToOutput"])
p("C03", "Fan is on exactly on the layers that ask for it",
  "While the first layer of the job prints, the part fan is off if the user asked for it to be off on the first layer; on every other layer, and on the first one otherwise, it is on. The job starts from the fan being off.",
  ["inputs", "histories", "configurations"], "every command list and layer count, option set or not",
  NOTEST, GC, [("fan switching per layer", "gcode/cmds.go")], [("fan", "fan state as the generator believes it", "gcode/cmds.go State")])
p("C04", "The nozzle follows each polyline vertex by vertex from its start",
  "Before the first printing move of a polyline the nozzle has been moved, without extruding, to the polyline's first point, and the printing moves then visit its remaining points in order; a coordinate word is left out only if the printed value of that coordinate equals the nozzle's current one. Travel to a polyline starts by lifting the nozzle above where it really is and arrives above the start point, also right after a bed command has parked the nozzle elsewhere.",
  ["inputs", "histories"], "every sequence of polylines, layers and bed commands",
  NOTEST + " Errors accumulate over long polylines of short segments, which no test has.",
  GC + ["primitives/point.go"], [("path emission", "gcode/cmds.go"), ("axis omission", "primitives/point.go Point.StringGcode")],
  [("pos", "last nozzle position as the generator believes it", "gcode/cmds.go State")])
p("C05", "Bed tilt and bed rotation axes go where the command says",
  "After a tilt command the bed's tilt axis stands at 60 degrees, after a tilt-back command at 0, and after a rotate command the bed's rotation axis stands at the commanded angle, whatever bed commands came before. Commands that print layers never move these axes, and a simultaneous tilt-and-rotate command names both its angles on the right axes.",
  ["histories", "inputs"], "every sequence of bed and layer commands",
  NOTEST, GC, [("bed commands", "gcode/cmds.go InclineX, InclineXBack, RotateZ, RotateXZ")],
  [("t1/t2", "bed axis positions as the generator believes them", "gcode/cmds.go State")])
p("C06", "Extruded filament equals bead volume over filament cross-section",
  "Each printing move extrudes line width x layer height x segment length x flow, divided by the cross-section area of the filament bar. No other command moves filament, except retraction and its exact inverse.",
  ["inputs", "configurations"], "every segment and every setting of bar diameter, flow, line width and layer height",
  NOTEST, GC, [("filament computation", "gcode/cmds.go")])
p("C07", "Every polyline of every layer is printed once, in the documented order",
  "For each layer, in order, all its outer, then middle, then inner wall polylines and then its infill polylines are printed, each exactly once and completely. Layers are announced with consecutive numbers from 0 across the whole job, and the announced layer count is the number of layers in the job.",
  ["inputs", "histories"], "every command list and layer content",
  NOTEST, GC + ["cmd/goosli/goosli.go"], [("layer emission", "gcode/cmds.go"), ("layer count", "gcode/gcode.go Gcode.LayerCount")],
  [("layerIndex", "number of the next layer", "gcode/cmds.go State")])
p("C08", "STL files are read and written in one agreed layout",
  "A mesh written to a file and read back has the same number of triangles with each vertex coordinate equal to the 32-bit float nearest the original, in the same order and the same vertex order. The written file is standard binary STL (80-byte header, 32-bit count, then normal, three vertices and a 16-bit attribute per facet, little-endian), and text STL files yield one triangle per three consecutive vertex lines in file order.",
  ["inputs"], "every mesh", "The tests only read a few fixed STL files and never write one.",
  ["primitives/stl.go"], [("binary reader/writer", "primitives/stl.go"), ("record layouts", "primitives/stl.go")])
p("C09", "Input and output failures are reported, never swallowed",
  "If opening, reading, creating, writing or flushing a file fails, the program reports failure: library functions that can return an error return it, and the command-line tools and template handling stop with a fatal error. A partially written result is never reported as success; only the optional debug configuration and an absent planes file are tolerated.",
  ["fault_sequences"], "every I/O operation in the library and the five command-line tools failing",
  "No test injects an I/O failure.", ["primitives/stl.go", "primitives/utils.go", "slicers/vip/utils.go", "cmd"],
  [("error returns", "primitives/stl.go"), ("fatal exits", "cmd/*/*.go, primitives/utils.go")])
p("C10", "A triangle's normal always is the cross product of its edges",
  "Whenever a triangle is constructed, loaded, moved, rotated, cut or converted, its stored normal equals the cross product of its first-to-second and first-to-third vertex edges. No code changes a vertex or the normal on its own.",
  ["programs", "inputs"], "every place that creates or changes a triangle",
  "Tests check the constructor on two sample triangles.", ["primitives/triangle.go", "primitives/mesh.go", "helpers", "slicers"],
  [("single recalculation point", "primitives/triangle.go Fill/recalculate")])
p("C11", "Geometry operations never modify their inputs",
  "Operations that return a new mesh, triangle, point, vector, plane, line, polyline or list leave the objects they were given unchanged: rotating, cutting, simplifying, colouring, filtering and slicing a mesh do not alter that mesh, and offsetting, reversing, closing or minimising a polyline does not alter that polyline. Only operations documented as in-place (shifting a mesh, refilling a triangle, appending to a command list, adding walls and infill to layers) change their receiver or argument; joining polylines may use spare capacity behind the end of a piece, but leaves the pieces themselves alone.",
  ["inputs", "programs"], "every exported operation and every input, including slices with spare capacity",
  "Tests compare results, not inputs after the call, and never pass slices with spare capacity.",
  ["primitives", "helpers", "slicers"], [("copying", "primitives/mesh.go CopyTriangles, Rotate; primitives/path.go")])
p("C12", "Rotations and shifts are rigid motions with the right sense",
  "Every rotation maps vectors isometrically by the given angle in degrees about its axis. The rotation matrices turn the coordinate frame, so applying the one for the Z axis turns Y towards X for positive angles and the one for the X axis turns Z towards Y, while rotating a vector about another turns it right-handedly. Rotating a mesh turns every vertex about the given centre by that map and shifting adds the vector to every vertex, both keeping triangle order and vertex order.",
  ["inputs"], "every angle, axis, centre, mesh", "Tests check a few angles of axis-aligned vectors.",
  ["primitives/rotation_matrix.go", "primitives/vector.go", "primitives/mesh.go", "primitives/triangle.go", "primitives/plane.go"],
  [("rotation matrices", "primitives/rotation_matrix.go"), ("mesh rotation", "primitives/mesh.go")])
p("C13", "Cutting a mesh partitions it and closes both halves alike",
  "Cutting by a plane puts every triangle wholly in front into the upper part and every triangle wholly behind into the lower part, unchanged; a crossed triangle is replaced by three pieces that cover it with the same orientation, the lone vertex's piece on that vertex's side and the other two on the other side. The cut is closed with the same cap triangles in both parts, in opposite orientation; an empty or missing mesh gives two empty parts.",
  ["inputs"], "every mesh and plane", "Cutting has no test at all.",
  ["helpers/cut_mesh.go"], [("classification by plane side", "helpers/cut_mesh.go CutMesh"), ("triangle split", "helpers/cut_mesh.go splitOnThree")])
p("C14", "Vector, point and line operations obey their algebraic laws",
  "Addition, subtraction, scaling, dot and cross product, length, normalisation, reversal, distance, midpoint and conversions between points and vectors compute the textbook quantities for all real arguments; projecting on a vector gives a parallel vector, projecting on a plane or a line removes exactly the orthogonal component, and rounding to n places returns the nearest multiple of 10^-n. The angle between two vectors is the arc cosine of their normalised dot product in degrees.",
  ["inputs"], "all real arguments (zero vectors included where an operation defines them)",
  "Tests sample a handful of values per operation.", ["primitives/vector.go", "primitives/point.go", "primitives/line.go", "primitives/utils.go"],
  [("vector algebra", "primitives/vector.go, primitives/point.go, primitives/line.go")])
p("C15", "Plane intersections lie on the plane and keep orientation",
  "Intersecting a segment with a plane gives a point that lies on the plane and on the segment exactly when the end points lie at different heights and the plane's height is between theirs (ends included), and nothing otherwise. Intersecting a triangle gives a segment between two different of these edge points, directed so that its direction crossed with the plane normal points against the triangle's normal; the side test, the overlap test, membership and projection agree with the same plane equation.",
  ["inputs"], "every plane, segment and triangle", "Tests sample a handful of axis-aligned cases.",
  ["primitives/plane.go", "primitives/triangle.go"], [("segment and triangle intersection", "primitives/plane.go")])
p("C16", "Layer planes are evenly spaced and no thicker than asked",
  "Slicing along a direction uses planes perpendicular to it, equally spaced by the model's extent divided by the smallest number of layers for which that spacing does not exceed the layer height, the first half a spacing above the lowest point. The extent of a mesh or triangle along a direction is exactly the minimum and maximum over its vertices.",
  ["inputs", "configurations"], "every mesh, direction and layer height", "Tests count layers for five models at one setting.",
  ["slicers/slice_by_vector.go", "primitives/mesh.go", "primitives/triangle.go"],
  [("plane stepping", "slicers/slice_by_vector.go SliceByVector"), ("extents", "MinMaxZ")])
p("C17", "Every triangle that meets a layer plane contributes to that layer",
  "For each layer plane, every model triangle whose extent along the slicing direction contains the plane's height is intersected with that plane, and no triangle is intersected twice. Exactly one result per plane is collected, results are returned in increasing height, and only results without contours at either end may be dropped.",
  ["inputs", "schedules"], "every mesh; every completion order of the parallel workers", "Tests count layers only.",
  ["slicers/slice_by_vector.go"], [("sweep over sorted triangles", "slicers/slice_by_vector.go SliceByVector"), ("workers", "slicers/slice_by_vector.go slicingWorker")])
p("C18", "Parallel work is race-free, complete and always terminates",
  "Parallel workers never write memory another goroutine reads or writes without synchronisation: each index is handled by exactly one worker, each worker owns the buffers it sends results from, and waiting returns only after all workers finished. No channel operation of the slicing pipeline can block forever, and no worker goroutine outlives its job.",
  ["schedules"], "every interleaving of workers and every number of processors", "Tests see a few schedules and do not run the race detector.",
  ["primitives/utils.go", "primitives/mesh.go", "primitives/stl.go", "slicers/slice_by_vector.go"],
  [("parallel loops", "primitives/utils.go"), ("job and result channels", "slicers/slice_by_vector.go")])
p("C19", "The same input and settings always give the same G-code",
  "The generated G-code and other output files depend only on the input files and settings, apart from the printed date: no result depends on map iteration order, goroutine scheduling, the number of processors, the clock or random numbers. The external mesh simplification used by the profile-less five-axis mode and the simplifier tool is excluded.",
  ["schedules", "programs"], "every run of the same job", "A single test run cannot see nondeterminism.",
  ["slicers", "primitives", "helpers", "gcode", "cmd"], [("ordering of results", "slicers/slice_by_vector.go"), ("sorting", "primitives/path.go")])
p("C20", "Infill lines have the requested pattern, spacing and solid layers",
  "Infill lines are the intersections of the innermost walls with parallel vertical planes spaced line width x 100 / density apart for lines, twice that in two perpendicular directions for squares, and three times that in three directions 60 degrees apart for triangles, on a grid through the origin that covers the whole model. The configured number of bottom and top layers, and only these, are filled solidly with planes one line width apart, and the chosen pattern follows the user's choice with lines as default.",
  ["inputs", "configurations"], "every density, pattern, line width, model extent and layer count", "Tests never inspect infill.",
  ["slicers/fill_layer.go"], [("plane generation", "slicers/fill_layer.go"), ("solid layer choice", "slicers/fill_layer.go FillLayers")])
p("C21", "Walls are as many as the wall thickness asks for, outermost first",
  "Each contour gets as many wall lines in total as whole line widths fit in the wall thickness (a thickness that is a multiple of the line width counts fully), produced by repeatedly offsetting the previous wall inwards by one line width. The last one is the inner wall that bounds the infill, those between are middle walls, the contour itself stays the outer wall; skirt lines are offset outwards from the first layer only and printed outermost first.",
  ["inputs", "configurations"], "every wall thickness and line width, every layer", "Wall generation has no test.",
  ["slicers/vip/utils.go", "slicers/vip/slice_by_planes.go"], [("wall generation", "slicers/vip/utils.go PrepareLayers, offset, SkirtPathes")])
p("C22", "The sliced model part is oriented as the bed is when it prints",
  "Whenever layers are added to the job, the mesh they were sliced from has been turned by exactly the rotations the bed commands issued so far put the bed into, in the same order and about the same centre; when the bed is turned back, the mesh is turned back by the inverse rotations in the opposite order. Azimuths used for these turns keep their sign, so all bed directions are handled. Where the bed is tilted for a plane found from failing layers, that plane leans by the tilt angle to the overhang's direction, so it is horizontal once the part is turned and tilted.",
  ["inputs", "histories"], "every mode, every sequence of cuts, every direction of overhang", "The multi-axis modes have no effective test.",
  ["slicers/vip/slice_by_planes.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go", "slicers/slice_5axes.go", "slicers/slice_by_profile.go"],
  [("mesh turn paired with bed command", "each slicing mode")])
p("C23", "A planes file written by the analyzer is read back as written",
  "Each analysed cutting plane is written as one line and reading that line back yields the same point, tilt flag and bed rotation at print precision, with a normal that follows from tilt flag and rotation alone. Both sides agree on field order, field prefixes and the tilt angle, and every line of the file yields one plane in file order.",
  ["inputs"], "every analysed plane list", "Nothing tests the planes file.",
  ["slicers/vip/analyze.go", "slicers/vip/utils.go", "cmd/goosli_analyzer/goosli_analyzer.go"],
  [("writer", "slicers/vip/analyze.go AnalyzedPlane.String"), ("reader", "slicers/vip/analyze.go ParsePlane")])
p("C24", "Each part of a model cut by several planes is printed exactly once",
  "When a model is cut by a list of planes, the part above the last plane is cut off first and so on down, and the parts are then printed from the lowest to the highest, each once, each with the bed turned and tilted as its own cutting plane says and the lowest on the untouched bed. In the modes that cut repeatedly, every cut-off part is either printed or cut further, never both and never dropped.",
  ["inputs", "histories"], "every list of cutting planes", "The planes mode has no effective test.",
  ["slicers/vip/slice_by_planes.go"], [("cut order and bed planes", "slicers/vip/slice_by_planes.go")])
p("C25", "A missing intersection is never used as if it were there",
  "Wherever an intersection, offset, previous contour or cutting plane can be missing, the code that uses it first makes sure it is there. No input makes the slicer follow such a missing result.",
  ["inputs"], "every use of an operation that may return nothing", "Tests only reach a few of these places with well-behaved models.",
  ["primitives", "helpers", "slicers"], [("nil checks", "callers of IntersectSegment, IntersectTriangle, IntersectLine2, MakeOffset, CalculateFails, ...")])
p("C26", "Empty and degenerate models are handled without crashing",
  "Slicing, cutting, filling, colouring or analysing a model with no triangles, no height, no contours in any layer, or with no overhang to act on returns a result or a reported error: no element at a fixed distance from the start or the end of a list is taken, and no such piece cut off, unless the list is long enough for it. This holds for lists of layers, contours, points, offsets, crossings and words of a line alike; a contour itself has at least one point.",
  ["inputs"], "every mesh, including empty and flat ones", "Tests use five solid models.",
  ["slicers", "helpers"], [("length checks", "slicers/slice_by_vector.go, slicers/vip/*.go, helpers/*.go")])
p("C27", "Every command-line option controls what it says",
  "Each option of the slicer sets the one setting it documents (print speeds converted from per-second to per-minute, the retraction speed passed as it is) and each setting used while slicing comes from its option; the slicing type option selects the corresponding mode and unknown types are refused. The other tools likewise pass each option to the parameter it documents.",
  ["configurations"], "every option value", "The command-line tools have no tests.",
  ["cmd"], [("option declarations and settings construction", "cmd/*/*.go")])
p("C28", "The output file is header, then moves, then footer, fully filled in",
  "The output file consists of the header template, the G-code of the job and the footer template in this order, each once. Every executable line of a template has its placeholders replaced by the matching setting, and the announced layer count is that of the job.",
  ["configurations", "inputs"], "every setting and job", "Nothing tests the templates.",
  ["cmd/goosli/goosli.go", "slicers/settings.go", "primitives/utils.go", "data/header_template.txt", "data/footer_template.txt"],
  [("placeholder map", "slicers/settings.go Settings.ToMap"), ("assembly", "cmd/goosli/goosli.go CommandsWithTemplates")])
p("C29", "Joining contour segments keeps every segment and its direction",
  "Two pieces are joined only if the end of one coincides with the start of the other, by putting the second after the first without its duplicated point, never reversing either. Joining all pieces of a layer keeps each piece in exactly one result, and merging collinear neighbours only drops points between collinear neighbours.",
  ["inputs"], "every set of segments", "Tests join a few hand-written paths.",
  ["primitives/path.go"], [("joining", "primitives/path.go JoinPaths3, tryJoin"), ("merging", "primitives/path.go MinimizeLines")])
p("C30", "With debugging off, debugging has no effect",
  "When the debug option is off or its configuration is missing, no debug function creates, truncates, deletes or writes any file. When it is on, only the configured debug file is touched.",
  ["configurations"], "every debug function, option off", "No test looks for side effects.",
  ["debug/debug.go", "debug/config.go"], [("guards", "debug/debug.go")])
p("C31", "Overhang marking gives one flag per triangle and is used on that mesh",
  "Colouring a mesh yields exactly one flag per triangle in triangle order, set exactly if the angle between the triangle's normal and the reversed build direction is below 90 degrees minus the limit; filtering returns exactly the flagged triangles in order. Flags are only ever combined with the triangles of the mesh they were computed for.",
  ["inputs"], "every mesh, limit and direction; every caller", "Colouring has no test.",
  ["helpers/colorize_triangles.go", "slicers/vip/analyze.go", "slicers/slice_by_vector.go", "cmd/goosli_colorizer/goosli_colorizer.go"],
  [("flag per triangle", "helpers/colorize_triangles.go")])
p("C32", "Every sort uses a consistent ordering",
  "Each ordering handed to a sort is a strict weak ordering for all inputs: irreflexive, asymmetric and transitive, with transitive ties. Each depends only on the two elements compared.",
  ["inputs"], "all element values", "An inconsistent ordering only shows on particular inputs.",
  ["primitives/path.go", "slicers/slice_by_vector.go", "slicers/fill_layer.go"], [("comparators", "arguments of sort.Slice")])
p("C33", "Supports only ever add to the model, and only when asked for",
  "With supports switched off nothing is added to the triangles being sliced; with supports on, the sliced triangles are all model triangles plus support triangles standing between an overhang edge and its projection on the base plane, and only those not blocked by the model. Overhang triangles are moved against the support direction by the configured offset before supports are built.",
  ["inputs", "configurations"], "every mesh, support setting", "No test switches supports on.",
  ["slicers/slice_by_vector.go", "helpers/supports_by_vector.go"], [("support construction", "slicers/slice_by_vector.go SliceByVector")])
p("C34", "Polyline simplification keeps ends, order and tolerance",
  "The simplified polyline starts and ends with the original end points and is a subsequence of the original points. Points are dropped only when they are within the tolerance of the chord that replaces them.",
  ["inputs"], "every polyline and tolerance", "Simplification has no test.",
  ["helpers/simplify_line.go"], [("recursive split at the farthest point", "helpers/simplify_line.go SimplifyLine")])
p("C35", "Mesh conversion for simplification keeps vertices and triangle budget",
  "Simplifying a mesh that is already small enough returns it as it is; otherwise the mesh is handed over with every triangle and vertex in place, with a reduction ratio of wanted to actual triangles, and converted back the same way. A missing mesh is reported as an error.",
  ["inputs"], "every mesh and target size", "Simplification has no test.",
  ["helpers/simplify_mesh.go"], [("conversion both ways", "helpers/simplify_mesh.go")])
# --- not applicable to static analysis, listed for completeness
p("C40", "Layer contours of a watertight model are closed",
  "For every watertight model each layer's contours are closed polylines bounding the cross-section.",
  ["inputs"], "every watertight mesh", "Tests use five models.", ["primitives/path.go", "slicers/slice_by_vector.go"], [("joining with tolerance", "primitives/path.go JoinPaths3")])
p("C41", "Walls stay one line width apart and never cross",
  "Offset walls keep a distance of one line width from their neighbours along their whole length and never intersect themselves or each other.",
  ["inputs"], "every contour", "No test.", ["slicers/vip/offset_path.go"], [("offsetting", "slicers/vip/offset_path.go MakeOffset")])
p("C42", "Every overhang beyond the limit is supported or tilted away",
  "After slicing in a multi-axis mode no printed part overhangs by more than the fail angle without support.",
  ["inputs"], "every mesh", "No test.", ["slicers/vip", "slicers/slice_5axes.go"], [("overhang planning", "slicers/vip/analyze.go")])
p("C43", "The nozzle never collides with the part or the tilted bed",
  "Travel and bed moves keep the nozzle clear of everything printed so far and of the bed in every orientation.",
  ["inputs", "histories"], "every job", "No test.", ["gcode/cmds.go"], [("parking before bed moves", "gcode/cmds.go")])
p("C44", "Simplified meshes approximate the original within a bound",
  "The simplified mesh stays within a bounded distance of the original surface and keeps its volume.",
  ["inputs"], "every mesh", "No test.", ["helpers/simplify_mesh.go"], [("quadric simplification", "github.com/fogleman/simplify")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
