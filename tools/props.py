INP, CFG, HIST, SCH, FAULT, PROG = "inputs", "configurations", "histories", "schedules", "fault_sequences", "programs"
TESTS = "The unit tests check single hand-written values of helpers and only that a handful of fixture models can be processed without an error; "

prop("C01", "Every layer is the horizontal cross-section of the model at its height",
     "For every closed model, layer k (k = 0, 1, ...) is exactly the area that the horizontal plane at first-layer thickness + k x layer thickness cuts out of the placed model: no solid area is missing and no empty area is filled, up to 40 µm at the contours and contours shorter than the snap distance. The area is given as disjoint parts, each one outline with its holes, and it does not depend on how the surface is triangulated, on the order of the triangles or on where a plane meets vertices, edges or horizontal faces.",
     [INP, CFG], "all closed models (any topology, holes, islands, cavities, several bodies), triangulations, triangle orders, layer thicknesses and snap distances",
     TESTS + "the slicer tests look at a few faces. Nothing compares a layer with the section of the model.",
     ["slicer/slicer.go", "slicer/layer.go", "slicer/segment.go", "clip/clip.go", "data/layer.go"],
     [("plane/triangle intersection and segment order", "slicer/slicer.go: Slice, slicer/segment.go: SliceFace"), ("joining the segments to closed contours", "slicer/layer.go: makePolygons"), ("partitioning contours into outlines and holes", "clip/clip.go: GenerateLayerParts")],
     "runtime monitor at the slicer boundary: point-sampled comparison with an independent section of the same mesh",
     "Held on the generated solids and planes (see the evidence); the oracle recomputes the section of the mesh exactly and compares point membership and contour distance.")

prop("C02", "The program prints every layer once, in order, at its own height",
     "The program contains the layers 0 to n-1 exactly once and in ascending order, each announced by its layer marker, where n = floor((model top - first-layer thickness) / layer thickness) + 1. Everything extruded for layer k is extruded at the height first-layer thickness + k x layer thickness, and all travels during layer k happen at that height or raised by exactly the configured hop.",
     [INP, CFG], "all models and all combinations of layer thicknesses, hop, brim, skirt, support and infill",
     TESTS + "no test looks at the heights of a complete program.",
     ["gcode/generator.go", "gcode/builder.go", "gcode/renderer/layer.go", "slicer/slicer.go"],
     [("height per layer", "gcode/generator.go: Generate"), ("layer marker", "gcode/renderer/layer.go: PreLayer"), ("number of layers", "slicer/slicer.go: Slice")],
     "trace monitor over the written G-code (state machine of position, layer and extrusion)",
     "Held on every move of the programs that were generated; the number of layers is computed from the mesh, not from the slicer.")

prop("C03", "Every printed segment gets exactly the filament its volume needs",
     "Each printed segment advances the filament by length x layer thickness x extrusion width x multiplier / filament cross-section, with the first-layer thickness on the first layer, and nothing else but retractions moves the filament. The absolute extruder position is the sum of these amounts: it does not drift over programs of any length.",
     [INP, CFG, HIST], "all models, options, and sequences of printed polygons, however long",
     TESTS + "the builder tests print extrusions of a handful of moves; drift needs long programs.",
     ["gcode/builder.go", "gcode/renderer/layer.go", "data/micrometer.go", "data/2d.go"],
     [("filament per millimeter", "gcode/builder.go: SetExtrusion"), ("length of a segment and accumulated extrusion", "gcode/builder.go: AddPolygon, AddMoveSpeed"), ("layer 0 / layer 1 switch", "gcode/renderer/layer.go: PreLayer")],
     "trace monitor over the G-code: conservation of filament per segment, per layer and accumulated",
     "Held on the observed extrusions; precise to the printed decimals (0.1 µm of filament, 10 µm of position).")

prop("C04", "The filament is retracted exactly for travels that leave the printed part",
     "A travel to the start of a wall, skin, infill or support path that leaves the area of the current layer's parts (crosses a contour) is preceded by pulling the filament back by the configured length at the configured speed, is done raised by the configured hop, and is followed by lowering and pushing back the same amount before anything is extruded. Travels that stay within one part, and the travels before anything else was printed, are made without retraction; with length or speed 0 there is no retraction at all.",
     [INP, CFG], "all models, layers and retraction options",
     TESTS + "the crossing test checks a few lines against one square; no test looks at retractions in a program.",
     ["gcode/builder.go", "clip/clip.go", "gcode/renderer/infill.go", "gcode/renderer/perimeter.go"],
     [("decision whether a travel crosses a contour", "clip/clip.go: IsCrossingPerimeter"), ("retract, hop, travel, lower, unretract", "gcode/builder.go: AddPolygon")],
     "trace monitor over the G-code against the slicer's layer regions (independent crossing oracle)",
     "Held on the observed travels; travels closer than 25 µm to a contour are not judged.")

prop("C05", "Every move is made at the speed configured for its kind",
     "In effect at every move is the configured speed of its kind: travels use the move speed, retractions the retraction speed, every extrusion of the first layer the initial layer speed, outer walls of other layers the outer perimeter speed, and all other extrusions (inner walls, skins, infill, support) the layer speed. This holds for every order in which these kinds follow each other.",
     [INP, CFG], "all models and all values of the speed options, including fractions of a millimeter per second",
     TESTS + "the builder test switches a few speeds by hand; which speed a kind of line gets in a program is never looked at.",
     ["gcode/builder.go", "gcode/renderer/layer.go", "gcode/renderer/perimeter.go", "gcode/renderer/infill.go"],
     [("current and override speeds", "gcode/builder.go: AddMove, AddMoveSpeed"), ("speed per kind", "gcode/renderer/perimeter.go: Render, gcode/renderer/layer.go: PreLayer")],
     "trace monitor over the G-code (feedrate in effect per kind of move)",
     "Held on every move of the observed programs.")

prop("C06", "Custom start and end G-code appears verbatim, with the heaters always handled",
     "The configured start lines appear once, unchanged and in order before the first move, with only the two temperature placeholders replaced by the initial temperatures, and the end lines once, unchanged and in order after the last move. With safe mode on, the program additionally heats up hot end and (if there is one) bed before the start lines, and switches them off before the end lines, exactly when the configured lines do not contain a temperature command for that heater themselves (a comment is no command).",
     [CFG], "all start and end G-code texts (comments, placeholders, percent signs, no spaces), temperatures and printer options",
     TESTS + "one test looks for fixed codes in three short texts.",
     ["gcode/renderer/layer.go", "data/option.go", "gcode/builder.go"],
     [("start and end code", "gcode/renderer/layer.go: PreLayer, PostLayer"), ("search for temperature commands", "data/option.go: DoesInstructionContainCodes")],
     "trace monitor over the G-code header and trailer with an independent reading of the configured lines",
     "Held on the generated texts.")

prop("C07", "Fan and temperatures follow the configured layer schedule",
     "At the start of every layer listed in the fan schedule, and nowhere else between start and end code, the fan is set to the scheduled value (switched off for 0). At the start of the layer given by the initial temperature layer count, and only there, hot end and, only with a heated bed, bed are set to the normal temperatures.",
     [INP, CFG], "all schedules (including layer 0 and layers the model does not reach), temperatures, bed settings and models",
     TESTS + "the option tests parse schedules, no test looks at their effect in a program.",
     ["gcode/renderer/layer.go", "data/option.go"],
     [("fan and temperature commands", "gcode/renderer/layer.go: PreLayer")],
     "trace monitor over the G-code (command schedule against the options)",
     "Held on every layer of the observed programs.")

prop("C08", "Every part gets its walls at the exact distances, printed from the inside out",
     "Wall i (0 is the outer one) of every part of a layer runs (i + 1/2) extrusion widths inside of all contours of the part, outline and holes alike (corners that open towards the inside may be cut straight), for exactly the configured number of walls; it is missing only where the part is too narrow for it, and splits where it has to. Nothing of a wall lies elsewhere or outside of the part. All walls are printed as closed loops, the inner walls of a part from the outermost inner one inwards, its outer wall last.",
     [INP, CFG], "all shapes of parts (holes, islands, necks that close, parts thinner than a wall), extrusion widths and numbers of walls",
     TESTS + "no test looks at the position of any wall.",
     ["modifier/perimeter.go", "clip/clip.go", "gcode/renderer/perimeter.go"],
     [("offsetting", "clip/clip.go: Inset, InsetLayer"), ("walls of every part", "modifier/perimeter.go: Modify"), ("order of the walls", "gcode/renderer/perimeter.go: Render")],
     "runtime monitor behind the modifiers and over the G-code: distance of walls to the contours in both directions, three-valued offset oracle, order monitor",
     "Held on the observed parts; planned walls to 15 µm, printed walls to 60 µm of an independent section of the mesh.")

prop("C09", "Skins and infill cover the inside of every part exactly once",
     "On layer k, the area inside the innermost walls (up to the infill border) is divided into bottom skin, top skin and internal infill without gaps and without overlaps, and nothing of them lies outside. Bottom skin is exactly where at least one of the configured number of layers below lacks the model (or lies below the print bed), widened by the configured additional internal overlap and cut at the infill border; top skin likewise with the layers above, where there is no bottom skin. The skins are printed gap-free in lines of one extrusion width, and all printed lines stay in their area.",
     [INP, CFG], "all models (ledges, overhangs, cavities, several bodies, gaps in height), numbers of top and bottom layers and walls, overlaps and infill percentages",
     TESTS + "no test looks at the position of a skin.",
     ["modifier/infill.go", "modifier/internal_infill.go", "modifier/perimeter.go", "clip/clip.go", "gcode/renderer/infill.go"],
     [("bottom and top areas", "modifier/infill.go: Modify"), ("internal infill", "modifier/internal_infill.go: Modify"), ("infill border", "modifier/perimeter.go: Modify"), ("area differences and unions", "clip/clip.go: runClipper, polyTreeToLayerParts")],
     "runtime monitor behind the modifiers and over the G-code: three-valued classification of grid points by an independent distance-field oracle",
     "Held on the judged points; points whose class depends on less than the grid distance (100 µm) are not judged for skins.")

prop("C19", "The area operations give exactly the set-theoretic result as disjoint parts",
     "Union, difference and intersection of any two lists of parts (with holes, overlapping, touching or sharing edges) contain exactly the points that belong to one or both lists accordingly, as disjoint parts whose holes belong to the outline around them, without changing their operands. Growing and shrinking keeps exactly the points by distance (corners may be cut straight), the hull is the convex hull, the top level polygons are the outlines that lie in no other one, and a line crosses a perimeter exactly if it leaves the parts. All of it up to 4 µm of rounding.",
     [INP, PROG], "all lists of parts, distances and sequences of operations",
     "The clip tests compare a few rectangles. The modifiers chain these operations on arbitrary contours that share edges, where clipping libraries fail only in rare constellations.",
     ["clip/clip.go"],
     [("boolean operations", "clip/clip.go: Difference, Intersection, Union, runClipper"), ("contours to parts", "clip/clip.go: polyTreeToLayerParts, GenerateLayerParts"), ("offsetting", "clip/clip.go: Inset, InsetLayer"), ("hull, top level, crossing", "clip/clip.go: Hull, TopLevelPolygons, IsCrossingPerimeter")],
     "runtime monitor around the real operations: sampled point membership against the operands, contour and immutability assertions",
     "Held on the sampled points; chains of up to three operations with shared edges included.")

prop("C10", "Filled areas are covered by the complete pattern and by nothing else",
     "Every area that is filled (skins, internal infill, support and its interface) is covered by parallel lines on one fixed grid per direction, spaced by exactly the distance of that kind of area (one extrusion width for skins and interface, the distance for the infill percentage, the support spacing), and every part of a grid line inside the area is printed exactly once. The direction follows the configured angle and turns by 90 degrees each layer for skins and infill; support lines always run across their interface. With zigzag the ends of the lines are shortened by half a width, and neighbouring ends are connected exactly where the connection stays inside the area; nothing else is printed, and nothing outside of the area.",
     [INP, CFG], "all shapes of areas, angles, distances, widths, layers, zigzag settings and bounds",
     TESTS + "no test looks at an infill line.",
     ["clip/linear.go", "gcode/renderer/infill.go", "goslice.go", "clip/clip.go"],
     [("lines of the pattern", "clip/linear.go: Fill, getInfill"), ("order and connections", "clip/linear.go: sortInfill"), ("patterns per area and percentage", "goslice.go: NewGoSlice")],
     "runtime monitor over the results of Fill and over the G-code: every segment is attributed to a grid line or a connection, sampled grid line points must be covered exactly once",
     "Held on the areas that were filled; the ends of connections are judged on the direct results of the pattern only, as tiny lines are invisible in a program.")

prop("C11", "Support stands below every overhang and keeps its distance from the model",
     "With support enabled, everything of a layer that overhangs the layer below by more than layer thickness x tan(threshold angle), widened by one and a half spacings, is supported on all layers from the configured number of gap layers below it down to the build plate or to the model, but nothing else is, and no support comes closer to the model of its layer than the configured gap. The topmost configured number of layers of the support at any place, and only these, are its interface; each place belongs to either support or interface, and on the first layer the brim is spared out. Without support nothing of it is generated or printed.",
     [INP, CFG], "all models with overhangs (bridges, tables, ceilings above the model itself, slopes around the threshold, several bodies) and all support options",
     TESTS + "no test looks at any support.",
     ["modifier/support.go", "clip/clip.go", "modifier/brim.go", "goslice.go"],
     [("overhang detection and top gap", "modifier/support.go: supportDetectorModifier.Modify"), ("growing downwards, gap to the model, interface", "modifier/support.go: supportGeneratorModifier.Modify")],
     "runtime monitor behind the modifiers and over the G-code: column oracle that derives the support of all layers at sampled points top down (three-valued)",
     "Held on the judged points; points that depend on less than 12 µm, on how corners are cut or on needles thinner than that are not judged.")

prop("C12", "Brim and skirt surround the first layer at the configured distances",
     "Brim line b (of exactly the configured number) runs b extrusion widths outside of the outer wall of every outermost outline of the first layer, as closed loops and nowhere else; the brim area the support is cut with reaches half a width further. The skirt consists of the configured number of closed loops around the convex hull of everything of the first layer (walls and full support), at the configured distance outside of the brim and one width apart. Both are printed on the first layer only, skirt before brim and both before everything else, and nothing of them is printed when they are not configured.",
     [INP, CFG], "all first layers (several parts, islands in holes, concave outlines, support) and all brim and skirt options",
     TESTS + "no test looks at any brim or skirt.",
     ["modifier/brim.go", "gcode/renderer/brim.go", "gcode/renderer/skirt.go", "clip/clip.go"],
     [("brim area and lines", "modifier/brim.go: Modify"), ("skirt distance and hull", "gcode/renderer/skirt.go: Render"), ("printing the brim", "gcode/renderer/brim.go: Render")],
     "runtime monitor behind the modifiers and over the G-code: distance of brim and skirt loops to the walls in both directions against an independent hull and offset oracle",
     "Held on the observed first layers; outlines that touch themselves are not judged, and brims of different outlines may run over each other.")

prop("C13", "Optimizing keeps every usable face, exact vertices and the connectivity",
     "The optimized model consists of the given faces in order with every corner moved by the one translation that centers the bounding box and puts its bottom on the plate, melded only with other given corners closer than the meld distance; only faces that this makes degenerate or duplicates of another face are dropped, and none of these stay. Every face knows exactly one neighbour per edge, the one that shares the edge, or none if the edge is open; the number of open faces logged, the size and the bounds are those of the faces. Most corners that nearly coincide are melded, the input is left unchanged, and a model without any usable face is an error.",
     [INP, CFG], "all meshes (closed, cracked, soups with duplicate, degenerate and non-manifold faces, huge and tiny coordinates), meld distances and centers",
     TESTS + "the optimizer has no tests of its own.",
     ["optimizer/optimizer.go", "optimizer/model.go", "optimizer/face.go", "optimizer/point.go"],
     [("melding and placement", "optimizer/optimizer.go: Optimize"), ("neighbours", "optimizer/model.go: getFaceIdxWithPoints")],
     "runtime monitor around the real optimizer: reference comparison face by face with the given mesh, adjacency recomputed independently",
     "Held on the generated meshes.")

prop("C14", "The model is read exactly as the file describes it, or refused",
     "For every valid STL file, binary or ASCII (all number formats, white space, line ends and names, several solids), the model consists of exactly the file's triangles in order, every coordinate in micrometers as precise as the file's numbers, with the bounds of these; the same model in both formats reads equally. Truncated, extended or otherwise damaged files, files with unusable coordinates (not a number, infinite, beyond 1 km) or without any triangle, directories and missing files are refused with an error instead of being read in part. Reading never changes the file.",
     [INP, FAULT], "all STL files and all damages of them",
     "No test looks at a coordinate that was read; a damaged file is only noticed by trying the damages.",
     ["reader/reader.go"],
     [("reading and refusing", "reader/reader.go: Read, AppendTriangle, copyFurtherSolids"), ("rounding", "reader/reader.go: stlTriangleToFace; data/data.go: ToMicrometer")],
     "runtime monitor around the real reader: every coordinate against the exact value written into the file, fault injection by damaging files",
     "Held on the generated files; ASCII keywords in upper case and a missing space after solid may be refused.")

prop("C15", "The command succeeds exactly if the complete program is in the output file",
     "The command exits with 0 exactly if the complete program (the one the library produces for these options) is in the output file, which is the given one or the input with .gcode appended, and replaces any former content of it. Unusable input, options or paths, and every failing opening, reading, writing or closing end with a message and another exit code instead. The input and all other files stay as they are, and as long as nothing can be printed the output file is not touched at all.",
     [INP, CFG, FAULT], "all inputs, options, output paths and failing system calls",
     "No test runs the command, and none lets a file operation fail.",
     ["cmd/goslice/main.go", "goslice.go", "writer/writer.go", "reader/reader.go"],
     [("exit code", "cmd/goslice/main.go: main"), ("error propagation", "goslice.go: Process"), ("writing", "writer/writer.go: Write")],
     "fault injection (full devices, size limits, system calls failed by strace) with a monitor of exit code, messages and the complete directory",
     "Every kind of system call on input and output is failed at its first and later occurrences; without a usable strace only the natural faults are tried.", level="fault_enumeration")

prop("C16", "The same input and options always give the same program",
     "Slicing is a function of the model and the options: the program is the same byte by byte in a new process or instance, in one that already sliced other models, and while other instances run at the same time. Every stage can be repeated on its input with the same result. A stage never changes the options or what an earlier stage has produced.",
     [INP, CFG, HIST, SCH], "all models, options, histories of an instance and schedules of concurrent instances",
     "The tests run each thing once; maps, shared options and reused stages only show when runs are repeated, mixed and overlapped.",
     ["goslice.go", "slicer/slicer.go", "modifier/*.go", "gcode/generator.go", "gcode/builder.go", "clip/clip.go", "optimizer/optimizer.go"],
     [("state kept in handlers", "goslice.go: NewGoSlice; gcode/generator.go: Generate, init"), ("copies of layers", "modifier/modifier.go"), ("shared patterns", "clip/linear.go")],
     "race detector over concurrent instances, and a trace comparison of repeated, interleaved and concurrent runs with dumps of every intermediate result",
     "GoSlice itself starts no goroutines, so the race detector watches instances that run side by side in one process.")

prop("C17", "Every flag sets exactly its option",
     "Every option has the documented flag, which sets this option to the given value and no other one, in every spelling and position the flag syntax allows, with the last one winning and documented defaults otherwise. The program of the command is the one the library generates with these options. Unknown flags and values that are not of the flag's type are refused without any output.",
     [CFG, PROG], "all flags, spellings, values and combinations of them",
     "No test parses a command line.",
     ["data/option.go", "cmd/goslice/main.go"],
     [("flags", "data/option.go: ParseFlags"), ("defaults", "data/option.go: DefaultOptions")],
     "runtime monitor around the real parser and command: option by option comparison with an independent table, program by program with the library",
     "Held on the generated command lines.")

prop("C24", "Option texts are read exactly or refused, and survive a round trip",
     "For every option type with a textual form, the text it prints is read back as the same value (millimeters to the three printed decimals, G-code from two lines on). Every valid text is read as exactly the value it denotes, and every other text is refused with an error and without changing the option. Whether given instructions contain a command is decided by the first word of each line only.",
     [INP], "all values and texts of micrometers, millimeters, vectors, fan schedules and G-code hunks",
     "The tests try a handful of texts per type.",
     ["data/option.go", "data/micrometer.go", "data/data.go"],
     [("reading", "data/option.go: Set methods"), ("printing", "data/option.go: String methods"), ("commands in instructions", "data/option.go: GetInstructionCode, DoesInstructionContainCodes")],
     "runtime monitor around the real types: round trips and comparison with an independent reading of generated, mutated and damaged texts",
     "Held on the generated texts.")

prop("C18", "Every input ends in an error or in one well-formed program, never a crash",
     "For every file, mesh and option values (counts, percentages and degrees up to +-1000, lengths up to 1 km, numbers including NaN and infinity), slicing ends without a crash, an endless loop or memory out of proportion to the requested print. It ends with an error and without any output, or with one well-formed program. In that program all numbers are finite, the layers 0 to n-1 are complete, and nothing is printed out of reach of the placed model.",
     [INP, CFG, FAULT], "all files, meshes (also open, self-intersecting, degenerate and random ones) and option values within the stated magnitudes",
     TESTS + "no test uses a broken mesh or an extreme option value.",
     ["goslice.go", "reader/reader.go", "optimizer/*.go", "slicer/*.go", "modifier/*.go", "clip/*.go", "gcode/*.go", "data/option.go"],
     [("validation of options", "data/option.go: Set methods; gcode/builder.go"), ("broken meshes", "slicer/layer.go: makePolygons; optimizer/optimizer.go: Optimize"), ("stages", "goslice.go: Process")],
     "runtime monitor with a crash, time and memory watchdog over hostile meshes and option values, and a syntax and plausibility monitor over the written program",
     "Held on the generated meshes and options; requests for an enormous amount of work (many million lines) are not made.")

prop("C20", "Smoothing lines keeps their ends, order and shape within the tolerance",
     "Smoothing an open path (DouglasPeucker, default tolerance the square root of 70 µm²) keeps both ends and a subsequence of the points, and every dropped point is within the tolerance of the line segment which replaces it. Simplifying a closed contour keeps a subsequence of its points and deviates at most 40 µm from it, for contours of segments longer than 100 µm at most 1.5 times the tolerance. The builder prints every path once, in the order of its points, closed exactly if asked to, nothing for an empty path, and neither changes the path it was given.",
     [INP], "all open and closed lines, tolerances and sequences of lines to print",
     TESTS + "the smoothing tests use two or three short lines.",
     ["data/2d.go", "data/layer.go", "gcode/builder.go", "slicer/layer.go"],
     [("smoothing of printed lines", "data/2d.go: DouglasPeucker, gcode/builder.go: AddPolygon"), ("simplification of contours", "data/2d.go: Simplify")],
     "runtime monitor around the real functions: subsequence and distance oracle in both directions, and a trace comparison of the printed moves with the given path",
     "Held on the generated lines; Simplify drops clusters of tiny segments with more than its own documented tolerance (up to about 20 µm were seen), so 40 µm are claimed for these.")

prop("C21", "The program does not depend on where and how the model is stored",
     "A model without almost coinciding corners (closer than twice the meld distance) that is moved as a whole by any whole number of micrometers in its file gives the same program byte by byte. So does the same model stored in another format (ASCII or binary), with another name, header, attributes or stored normals.",
     [INP, CFG], "all models without almost coinciding corners, translations and encodings",
     TESTS + "no test compares two programs.",
     ["reader/reader.go", "optimizer/optimizer.go", "slicer/slicer.go", "goslice.go"],
     [("placement on the plate", "optimizer/optimizer.go: Optimize"), ("reading", "reader/reader.go: Read")],
     "metamorphic runtime monitor: byte comparison of the programs of moved and re-encoded copies of the same model",
     "Held on the generated models; corners which nearly coincide are melded on a grid that depends on the position, such models are left out.")

prop("C23", "The stages run in order on each other's result and any error ends the run",
     "The reader, optimizer, slicer, every modifier, the generator and the writer run once and in this order, each on the result of the one before; modifiers and renderers are initialized with the model before they are used. An error of any stage ends the run, is reported and nothing is written; the writer gets exactly the generated program and the configured destination (by default the input path with .gcode appended). The generator calls all renderers of a layer in order with the number, the last number, the layer, its height and the options, joins what they produce, starts anew on every run, and attributes of a layer are read as they were set, as missing, or as an error if of another type.",
     [HIST, FAULT, CFG], "all lists of modifiers and renderers, histories of runs, layers, attributes and failing stages",
     "The tests run the default pipeline and let a handler fail at a few fixed places at most.",
     ["goslice.go", "gcode/generator.go", "modifier/modifier.go", "data/layer.go", "handler/*.go"],
     [("pipeline", "goslice.go: Process"), ("renderers", "gcode/generator.go: Generate"), ("attributes", "modifier/*.go: BoolAttribute, PartsAttribute and others")],
     "fault injection at every stage with a trace monitor over recorded calls of stand-in handlers around the real pipeline and generator",
     "Every stage is failed alone at its first and later calls, over random lists of handlers.", level="fault_enumeration")

prop("C25", "Points, vectors and paths compute exactly and never change what they are given",
     "Sums, differences, products, lengths, comparisons, normalizations, bounds, distances and rotations of points and paths are the exact values rounded to whole micrometers (rotations within 0.51 µm), for all coordinates within 1 km. Conversions between micrometers and millimeters are exact to the printed precision. No operation changes its operands, and results do not share memory with them.",
     [INP], "all points, vectors, paths and units within 1 km",
     "The unit tests compare a few hand-written values per function.",
     ["data/2d.go", "data/micrometer.go", "data/layer.go"],
     [("points and vectors", "data/micrometer.go"), ("units", "data/micrometer.go"), ("paths", "data/layer.go: Path methods; data/2d.go")],
     "runtime monitor around the real functions: comparison with exact arithmetic on big integers, operands compared before and after",
     "Held on the generated values.")

prop("C26", "An optimized model is exported completely and exactly, or with an error",
     "Exporting an optimized model (SaveDebugSTL) writes a binary STL file with exactly the model's faces in order, every corner at its placed position as precise as the format allows, and replaces any former content of the file. It can be read again as the same model, which gives the same program unless almost coinciding corners are melded differently. A path that cannot be written is reported as an error, and neither the model nor any other file is changed.",
     [INP, FAULT], "all models, placements, paths and existing files",
     "No test exports a model.",
     ["optimizer/model.go", "data/model.go", "reader/reader.go"],
     [("export", "optimizer/model.go: SaveDebugSTL"), ("reading it again", "reader/reader.go: Read")],
     "runtime monitor around the real export: independent decoder of the written file, round trip through the real reader and pipeline, full and missing destinations",
     "Held on the generated models and destinations.")

prop("C27", "A run leaves nothing behind but its output, its log and its result",
     "Slicing with the library, whether it succeeds or fails at any stage, reports only through the configured logger and the returned error, and writes no file but the output: nothing appears on the standard streams and no other file is created or changed, not even temporarily used ones remain. Afterwards no file is left open and no goroutine is left running, and working directory, environment and other state of the process are as before. A logger that fails changes nothing about the program.",
     [INP, CFG, FAULT], "all inputs, options, failing stages and destinations",
     TESTS + "no test looks at what a run leaves behind.",
     ["goslice.go", "reader/reader.go", "writer/writer.go", "optimizer/*.go", "gcode/generator.go", "data/option.go"],
     [("reading", "reader/reader.go: Read"), ("writing", "writer/writer.go: Write"), ("logging", "goslice.go: Process; data/option.go: GoSliceOptions.Logger")],
     "runtime monitor of the process around real runs with injected failures: open descriptors, goroutines, standard streams, files and process state before and after",
     "Open files are looked for right after a run with garbage collection off, which otherwise closes forgotten files at some time.", level="fault_enumeration")

prop("C28", "Every option changes only its own aspect of the program",
     "Temperatures, fan schedule and custom code change no move, speeds only the speeds, extrusion multiplier and filament diameter only the amounts of filament, and retraction settings no movement in the plane. Infill density and zigzag change only the internal infill, all filling options only filled areas, the number of walls only inner walls and filled areas, brim and skirt options only these and the support of the first layer, and support options only support and the skirt around it. Everything else of the program stays the same, in the same order and with the same points.",
     [INP, CFG], "all models and pairs of option sets that differ in one group",
     TESTS + "no test compares the programs of different options.",
     ["goslice.go", "gcode/renderer/*.go", "gcode/builder.go", "modifier/*.go", "data/option.go"],
     [("use of the options", "goslice.go: NewGoSlice; gcode/renderer/*.go; modifier/*.go"), ("speeds, filament and retraction", "gcode/builder.go")],
     "metamorphic runtime monitor: the programs of two runs that differ in one group of options are compared in everything else",
     "Held on the generated pairs.")

prop("C29", "The log tells what was really read, sliced and done",
     "The configured logger is told the input file before it is read, the number of its triangles and its exact bounds, the number of open edges of the optimized model, the number of layers, every modifier by its name after it was applied, and every layer when it is rendered, each once and in this order. All these numbers agree with the file, the model and the program. A run that fails tells nothing about stages it did not complete.",
     [INP, FAULT], "all models, names, modifiers and failing stages",
     "No test looks at the log.",
     ["goslice.go", "optimizer/optimizer.go", "gcode/generator.go", "handler/*.go"],
     [("stages", "goslice.go: Process"), ("open edges", "optimizer/optimizer.go: Optimize"), ("rendered layers", "gcode/generator.go: Generate")],
     "runtime monitor around the real pipeline: one recorded trace of the begin and end of all stages and the lines of the log, checked against the file, the layers and the program, with injected failures",
     "The facts are found by their leading words, in any case.", level="fault_enumeration")

prop("C30", "Bodies that lie far apart do not influence each other",
     "Two bodies in one file with a gap of at least 45 mm between them (and more than their brim and support need) give on every layer the same slices, walls, borders of the infill, skins, internal infill, support, support interface and brim (each as planned areas, up to 20 µm at their borders) as each of them sliced alone at the same place with the same options. The same holds for their printed walls and brim. This does not depend on the order of the faces in the file, the sizes of the bodies, how high they lie, or whether their surfaces are closed.",
     [INP, CFG], "all pairs of bodies, gaps, orders of the faces and options",
     TESTS + "no test compares the programs of two models.",
     ["optimizer/optimizer.go", "slicer/*.go", "clip/clip.go", "modifier/*.go", "gcode/renderer/*.go"],
     [("joining contours", "slicer/layer.go: makePolygons"), ("walls and skins", "modifier/perimeter.go, modifier/infill.go, modifier/internal_infill.go"), ("support and brim", "modifier/support.go, modifier/brim.go")],
     "metamorphic runtime monitor: what is planned and printed for each body of a common program is compared with the run of this body alone, at points near all borders",
     "Held on the generated pairs; details thinner than 40 µm are not compared.")
