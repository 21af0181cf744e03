"""Writes /verif/properties.jsonl (kept as a program only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=None):
    a = {"files": ["svgio/" + f for f in files],
         "mechanism": [{"name": n, "where": "svgio/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "svgio/" + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Path data parses to the geometry the SVG specification gives it",
 "Every string that the SVG path grammar accepts (absolute and relative commands, implicitly repeated commands, any legal separators and number or flag packing, exponents, smooth shorthands, arcs with out-of-range radii, closing with z in place of the last coordinate) parses into one segment per drawing step, with the kinds, start, end and control points the specification assigns, every segment starting exactly where the one before it ended and each close returning to its subpath's start. Every parsed arc follows the ellipse the specification's implementation notes determine (radii taken positive and scaled up when too small, rotation, large-arc and sweep flags) from its start to its end. The same holds for data appended to a path that already has segments.",
 "All strings of the path grammar, in any layout of whitespace, commas and number packing; finite coordinates.",
 "The tests parse a few dozen fixed strings; command kind x relative x repetition x previous command x number layout is combinatorial.",
 ["path.py", "constants.py"],
 [("PathLexicalParser", "path.py PathLexicalParser.parse"), ("path builder commands", "path.py Path.move .. Path.closed"), ("arc parameterisation", "path.py Arc._svg_parameterize")],
 ["Path(str) and path += str: segments, their start/end/control points, Arc.point(t)"])

prop("C02", "Writing path data and reading it back preserves the path",
 "The path data written for any path (in absolute, relative or as-parsed form, with smooth shorthands on, off or as parsed, with or without the path's transform applied) is well-formed path data which denotes the same sequence of segments with the same geometry, up to the printed precision. Smooth shorthands are written only where they reproduce the control point, including in path data written for a single subpath or segment, and writing never changes the path. Converting the path to a string is that same path data.",
 "All paths reachable by parsing, construction and editing whose coordinates are finite, in every combination of the output options.",
 "The tests round-trip a handful of drawings with default options.",
 ["path.py", "basic.py"],
 [("Path.svg_d", "path.py Path.svg_d"), ("per-segment d()", "path.py Move.d/Line.d/QuadraticBezier.d/CubicBezier.d/Arc.d/Close.d"), ("smooth detection", "path.py is_smooth_from"), ("coordinate formatting", "basic.py Point.__str__")],
 ["Path.d(relative, transformed, smooth), str(path), Subpath.d"])

prop("C03", "Malformed path data is rejected or cut short, never misread",
 "For any string whatsoever, parsing it as path data terminates and either raises ValueError or produces a path holding exactly the segments the specification assigns to the text before the first error. A command letter whose parameters are missing or incomplete raises ValueError rather than inventing or dropping a coordinate. Whatever is produced is connected: each segment starts where the previous one ends.",
 "All strings: random text, and grammatical path data truncated, spliced, or with characters inserted, deleted or replaced.",
 "The tests contain only a few invalid strings; the space of malformed strings is unbounded.",
 ["path.py", "constants.py"],
 [("PathLexicalParser", "path.py PathLexicalParser"), ("ValueError on missing parameters", "path.py PathLexicalParser.parse")],
 ["Path(str): outcome (ValueError or segments)"], over=("inputs", "fault_sequences"))

prop("C04", "Editing a path keeps its segments connected",
 "After any history of appending, inserting, extending, assigning, deleting, slicing, concatenating and drawing commands on a path, every segment starts where the previous segment ends and every close ends at the most recent move (or, lacking one, at the end of the first segment). Where an edit brings a mismatch the end of the earlier segment is kept and the start of the later one follows it; apart from that the edit leaves kinds, end points, controls and curves of all other segments as they were.",
 "All histories of path edit operations with string, segment, list, path and subpath operands.",
 "The tests perform single edits on fixed paths; connectivity depends on the whole history and on where moves and closes lie.",
 ["path.py"],
 [("validate_connections", "path.py Path.validate_connections"), ("edit operations", "path.py Path.__setitem__/__delitem__/insert/append/extend/__iadd__")],
 ["segments of the path after each operation: start, end, control points"], over=("histories", "inputs"),
 state=[("segment list", "ordered drawing steps", "path.py Path._segments")])

prop("C05", "A path behaves as a mutable list of its segments",
 "Indexing, slicing, iteration, length, assignment, deletion, insertion, append, extend, pop, and concatenation of a path with segments, paths, subpaths or path-data strings change the sequence of segments exactly as the same operation changes a Python list (a string operand standing for the segments it parses to), raising IndexError where a list would. A string holding several segments assigned to one index raises ValueError and leaves the path as it was. Equality of paths agrees with equality of their lists of segments, and with a path-data string it compares to the path that string parses to. A segment likewise reads as the list of its defining points, and the points of a path are those of its segments in order.",
 "All paths, indices, slices and operand sequences; all histories of these operations.",
 "Example tests use one or two indices on one path; slices and operand kinds combine freely.",
 ["path.py"],
 [("MutableSequence implementation", "path.py Path.__getitem__/__setitem__/__delitem__/insert/append/extend"), ("operators", "path.py Path.__add__/__radd__/__iadd__/__eq__")],
 ["len(path), path[i], path[i:j:k], list(path), path == other"], over=("histories", "inputs"))

prop("C06", "Subpaths are windows that partition and edit their path",
 "The subpaths of a path, in order, partition its segments, each new one beginning at a move, and their count and indexed access agree. Reading a subpath (length, iteration, indices, slices, path data, bounding box, equality) gives the same as reading those segments of the path, out-of-range indices raising IndexError; assigning, deleting, appending, transforming or reversing through it changes exactly those segments of the backing path, moves the end of the window with its content, and leaves the path connected. Copying a subpath and editing the copy leaves the original path untouched.",
 "All paths with any number of subpaths, every subpath, every index, slice and edit through it.",
 "The tests look at a few subpaths of fixed paths.",
 ["path.py"],
 [("Subpath", "path.py Subpath"), ("as_subpaths", "path.py Path.as_subpaths")],
 ["Path.as_subpaths/subpath/count_subpaths, Subpath indexing, iteration, d, bbox, edits"], over=("inputs", "histories"))

prop("C07", "Reversing a path retraces the same curve backwards",
 "Reversing a segment, subpath or path keeps the traced curve and swaps its direction: the reversed path visits the same points in the opposite order, with the same length and bounding box, its subpaths in the opposite order, closed subpaths staying closed (they may begin at another corner), and every segment connected. Reversing twice restores the drawn geometry. Making closes direct adds only the line segments needed for every close to have zero length, leaving the drawn curve as it was.",
 "All segments of every kind and all paths whose closes each end their subpath.",
 "The tests reverse a few fixed paths; direction errors show only for particular kinds, flags and subpath layouts.",
 ["path.py"],
 [("Path.reverse", "path.py Path.reverse"), ("Subpath.reverse", "path.py Subpath.reverse/_reverse_segments"), ("segment reverse", "path.py PathSegment.reverse/CubicBezier.reverse/Arc.reverse"), ("direct_close", "path.py Path.direct_close")],
 ["segments after reverse(), points sampled along them, length(), bbox()"])

prop("C08", "Path length and points along a path agree with its segments",
 "The length of a path is the sum of the lengths of its segments, and the point at fraction t of a path is the point of the segment reached after t of that length, at the matching fraction of that segment's own parameter; fractions 0 and 1 are the two ends. The array form gives the same points as the single form, with and without numpy. This stays true after any edit, reversal or transformation made following an earlier measurement.",
 "All paths (including zero-length segments and wholly zero-length paths), all fractions in [0, 1], all histories mixing measurements and edits.",
 "Cached lengths go stale only after particular measure-edit-measure histories that fixed tests do not walk.",
 ["path.py"],
 [("_calc_lengths cache", "path.py Path._calc_lengths"), ("Path.point / Path.npoint", "path.py Path.point/npoint/length")],
 ["Path.length(), Path.point(t), Path.npoint(ts)"], over=("inputs", "histories", "configurations"),
 state=[("length cache", "total and relative lengths of the segments", "path.py Path._length/_lengths")])

prop("C09", "Segments evaluate to the curves that define them",
 "The point at t of a line, close, quadratic, cubic or arc segment is the Bezier combination of its control points, or the point of its ellipse at the eccentric angle t of the way along its sweep, for every t in [0, 1]; at 0 and 1 it is exactly the start and end point. Evaluating many positions at once gives the same values as one by one, with and without numpy, and the closest point reported for a line is the nearest point of it. Points of an arc lie on its ellipse, and its center, radii, rotation and start and end angles describe that same ellipse.",
 "All segments of each kind with finite coordinates, all t in [0, 1], numpy present or absent.",
 "Fixed segments at a few t values cannot separate the closed forms from near misses, nor compare both code paths.",
 ["path.py"],
 [("npoint of each segment", "path.py Linear.npoint/QuadraticBezier.npoint/CubicBezier.npoint/Arc.npoint"), ("numpy evaluation", "path.py Arc._points_numpy")],
 ["segment.point(t), segment.npoint(ts), Arc.rx/ry/center/get_rotation/get_start_angle/point_at_t/point_at_angle/t_at_point"], over=("inputs", "configurations"))

prop("C10", "Segment lengths equal the arc length of the curve",
 "The length reported for every segment equals the arc length of the curve it traces, to within the accuracy asked for or seven digits (a few thousandths of the curve's extent where scipy is missing and the curve is subdivided), including degenerate ones (coincident or collinear control points, circles, flat and zero-radius arcs, full turns). A move has length 0, and no length is negative, NaN, or shorter than the straight distance between the ends.",
 "All segments with finite coordinates, scipy and numpy present or absent.",
 "Closed forms fail near degenerate inputs that a few sample curves do not reach.",
 ["path.py"],
 [("QuadraticBezier.length", "path.py QuadraticBezier.length"), ("CubicBezier._length_scipy/_length_default", "path.py CubicBezier.length"), ("Arc lengths", "path.py Arc._exact_length/_integral_length/length"), ("recursive subdivision", "path.py PathSegment.segment_length")],
 ["segment.length(error=...)"], over=("inputs", "configurations"))

prop("C11", "Bounding boxes contain the curve and are tight",
 "The bounding box of any segment contains every point of the curve it traces and touches the curve on each of its four sides; that of a subpath, and of a path element in its own coordinates, is the smallest box around those of its drawn segments (moves draw nothing). A subpath or path drawing nothing has no bounding box.",
 "All segments, subpaths and path elements with finite coordinates.",
 "Extremum tests depend on the signs and sizes of derivative coefficients, which fixed curves cover sparsely.",
 ["path.py", "nodes.py"],
 [("bbox of each segment", "path.py PathSegment.bbox/QuadraticBezier.bbox/CubicBezier.bbox/Arc.bbox"), ("Subpath.bbox", "path.py Subpath.bbox"), ("Shape.bbox", "nodes.py Shape.bbox")],
 ["segment.bbox(), Subpath.bbox(), nodes.Path.bbox()"])

prop("C12", "Transforming a shape transforms every point of it",
 "Multiplying a segment, subpath or path by any invertible affine matrix (or transform string) yields a shape whose point at every parameter is the image of the original's, so arcs become the exact image ellipse arcs under skews, mirrors and uneven scales. Transforms chained on a path compose in order, and the lazily held transform, once applied, gives the same segments and path data as transforming each segment; multiplication leaves its operands unchanged, and in-place multiplication changes the object itself.",
 "All segments and paths, all invertible affine matrices and transform strings, all chains of transforms.",
 "The tests use axis-aligned or single transforms; skew and mirror of rotated arcs are not sampled.",
 ["path.py", "basic.py"],
 [("segment multiplication", "path.py PathSegment.__mul__ and __imul__ of each kind"), ("Arc axes", "path.py Arc.__imul__/_realign_axes"), ("path transform", "path.py Path.__mul__/__imul__/reify/__abs__/__matmul__")],
 ["points of (segment * matrix), abs(path * matrix), path.d()"], over=("inputs", "histories"))

prop("C13", "Every way of specifying an arc yields that arc",
 "An arc built from SVG endpoint parameters, from start, end and center (with direction or sweep), from start, end and a control point on the circle, from start, end and radius, by its bulge or sagitta, as the quarter of an upright ellipse, or from complex endpoints starts and ends at the given points and lies on the described circle or ellipse: through the control point, around the given center, with the given radius, rotation and turning direction. Its sweep is positive exactly when the arc is drawn with the sweep flag set, and larger than half a turn exactly when the large-arc flag is.",
 "All consistent parameter sets for each construction, including rotated, mirrored and near-half-turn cases.",
 "Constructor combinations times geometry quadrants exceed the sampled fixtures.",
 ["path.py"],
 [("Arc constructor", "path.py Arc.__init__"), ("endpoint parameterisation", "path.py Arc._svg_parameterize/_svg_complex_parameterize")],
 ["Arc(...).start/end/center/rx/ry/sweep, Arc.point(t)"])

prop("C14", "Arcs approximated by Bezier curves stay on the arc",
 "Replacing an arc by quadratic or cubic Bezier curves gives exactly the number of pieces requested, connected end to end from the arc's start to its end, meeting the arc at equal steps of its sweep (cubics tangent to it there), and straying from it by no more than the known bound for pieces of that angle. Approximating the arcs of a path leaves every other segment as it was and the path connected.",
 "All arcs (any radii, rotation, direction, sweep) and piece counts; all paths containing arcs.",
 "The tests check a few arcs at one piece count.",
 ["path.py"],
 [("as_cubic_curves / as_quad_curves", "path.py Arc.as_cubic_curves/as_quad_curves"), ("approximate_arcs_with_*", "path.py Path.approximate_arcs_with_cubics/quads")],
 ["the curves yielded by Arc.as_cubic_curves(n)/as_quad_curves(n), the path after approximate_arcs_with_*"])

prop("C15", "Matrices form the affine group acting on points",
 "Matrix multiplication applies the left operand first and then the right, is associative with the identity as unit, and multiplying by the inverse gives the identity; determinants multiply. Mapping a point by a product equals mapping it by the factors in order, vectors ignore the translation, mapping back through the inverse restores the point, and the pre- and post- scale, translate, rotate and skew operations (including about a center point) equal multiplication by the corresponding elementary matrix on that side. Elementary constructors produce the matrices SVG defines for them, and comparison, indexing and copies agree with the six coefficients.",
 "All affine matrices with finite coefficients and all sequences of pre/post operations.",
 "The tests compare a few products; a swapped coefficient shows only for non-commuting inputs.",
 ["basic.py"],
 [("matrix_multiply", "basic.py Matrix.matrix_multiply"), ("inverse", "basic.py Matrix.inverse"), ("post_*/pre_*", "basic.py Matrix.post_cat .. pre_skew_y")],
 ["Matrix coefficients a..f, Matrix.point_in_matrix_space, ~matrix"], over=("inputs", "histories"))

prop("C16", "Transform attribute text means the matrix SVG and CSS define",
 "Every transform list (matrix, translate, scale, rotate, skewX, skewY and the X/Y variants and skew, with optional arguments, rotation and skew centers, angle units, any legal case, separators and number format) parses to the product of its elementary matrices, the last written being applied first. Lengths with units in translations are resolved when rendered, with the resolution or the width and height given. Transform text stands for its matrix wherever a matrix is multiplied, concatenated, compared or applied to a point.",
 "All transform lists over all functions, argument counts, units, separators; all resolutions and sizes.",
 "The tests cover one list per function; order, centers and units combine freely.",
 ["basic.py", "constants.py"],
 [("Matrix.parse", "basic.py Matrix.parse"), ("Matrix.render", "basic.py Matrix.render"), ("regexes", "constants.py REGEX_TRANSFORM_*")],
 ["Matrix(str), str(Matrix), Matrix.render"])

prop("C17", "A viewbox maps to its viewport as preserveAspectRatio says",
 "The transform produced for a viewport and viewBox maps the viewBox onto the viewport per the SVG 2 equivalent-transform rules: with 'none' it stretches exactly onto it, otherwise it scales uniformly, by the smaller factor for 'meet' (the default) or the larger for 'slice', aligning min, mid or max on each axis as named (xMidYMid by default). No viewBox or viewport means no transform.",
 "All positive viewport and viewBox sizes, all origins, all ten alignments times meet/slice/absent.",
 "The tests use a few squares; alignment errors are invisible when aspect ratios coincide.",
 ["basic.py"],
 [("Viewbox.viewbox_transform", "basic.py Viewbox.viewbox_transform"), ("Viewbox.set_viewbox/property_by_*", "basic.py Viewbox")],
 ["Viewbox.viewbox_transform(...), Viewbox(...).transform(element) parsed as a Matrix"])

prop("C18", "Lengths convert, compare and add as physical quantities",
 "A length in any supported unit (px, pt, pc, in, cm, mm, %, em, ex, vw, vh, vmin, vmax) resolves to the pixel value its unit defines for the given resolution, reference length, font size and viewport, stays symbolic when what it depends on is missing, and converts to mm, cm and inches consistently. Sums, differences, products with numbers, quotients, negation, absolute value and comparisons of lengths agree with the same operations on resolved pixels, and never change their operands; adding or ordering lengths which cannot be related raises ValueError. Text form and copies keep amount and unit.",
 "All amounts, units, resolutions and contexts; all pairs of lengths.",
 "Units pair off quadratically and conversions depend on context; tests check a few pairs.",
 ["basic.py"],
 [("Length arithmetic", "basic.py Length.__iadd__/__imul__/__truediv__/__eq__"), ("Length.value", "basic.py Length.value/to_mm/to_cm/to_inch/in_pixels/in_inches")],
 ["Length(...).value(...), operators, str"])

prop("C19", "Colours parse to the red, green, blue and alpha CSS defines",
 "Every CSS colour keyword, hex form (3, 4, 6 or 8 digits), comma-separated rgb/rgba form with numbers or percentages (clamped to range), and hsl/hsla form (any number of degrees as hue, wrapping at 360; within one 8-bit step) parses, in any case and with white space around it, to the channels CSS defines, alpha included; an opacity argument sets the alpha and nothing else. 'none' and the absence of a value give the colour without channels. A colour's hex text, repr, channels and integer value (as rgba) read back as an equal colour.",
 "All keywords, all digit strings, all component values and layouts of whitespace.",
 "148 keywords and 2^32 values: tests check a dozen.",
 ["basic.py", "constants.py"],
 [("Color.parse*", "basic.py Color.parse/parse_color_lookup/parse_color_hex/parse_color_rgb/parse_color_rgbp/parse_color_hsl"), ("packing", "basic.py Color.rgb_to_int/hsl_to_int")],
 ["Color(...).red/green/blue/alpha/opacity/hex/rgb/rgba/argb, Color == str"])

prop("C20", "Colour components read and write independently and consistently",
 "Setting red, green, blue, alpha or opacity changes only that component, clamped to its range, and reading it back gives what was set; packed rgb, rgba and argb forms agree with the components. Setting hue, saturation or lightness changes that quantity, keeps the other two (within 8-bit rounding) and keeps alpha. Compositing one colour over another follows the alpha-over formula, colour distance is symmetric, non-negative, zero for equal colours and satisfies its formula, and none of these alters its operands. The numbered distinct colours are all different.",
 "All 32-bit colours, all component values, all setter histories.",
 "Bit-packing slips show only for particular component values and orders of setters.",
 ["basic.py"],
 [("component properties", "basic.py Color.red .. Color.lightness"), ("over/distance", "basic.py Color.over/distance_sq")],
 ["component getters after setters, Color.over, Color.distance"], over=("inputs", "histories"),
 state=[("packed value", "32-bit rgba integer", "basic.py Color.value")])

prop("C21", "Points obey plane vector algebra and convex hulls are convex hulls",
 "Points built from numbers, pairs, complex numbers or text hold those coordinates, and their sums, differences, scalar and complex products, absolute value, distance, angle, polar and towards operations, reflections and matrix images agree with complex arithmetic, never changing their operands; equality with points and pairs is by coordinates up to the documented tolerance. The convex hull of a set of points is the counter-clockwise list (in y-up axes) of exactly the extreme points, starting from the leftmost one, with every input point inside or on it. Orientation reports the sign of the turn.",
 "All finite points and all point sets, with duplicates and collinear runs.",
 "Degenerate layouts (duplicates, collinear points) are what break hull code and are not sampled.",
 ["basic.py"],
 [("Point operators", "basic.py Point.__mul__ .. Point.towards"), ("convex_hull", "basic.py Point.convex_hull/orientation")],
 ["Point operations, Point.convex_hull(list)"])

prop("C22", "Angles convert between units and compare as directions",
 "An angle given in degrees, radians, gradians or turns, by constructor or text with a unit, reports the same angle in each of the other units. Two angles are equal exactly when they point the same way, whatever whole turns separate them, and unequal otherwise; positive degrees are never negative, the normalised form lies within one turn, and both denote the same direction, and an angle is orthogonal exactly when it is a whole number of quarter turns.",
 "All angle values, units and text layouts.",
 "Wrap-around at whole turns is reached only by particular values.",
 ["basic.py"],
 [("Angle", "basic.py Angle")],
 ["Angle.degrees/radians/gradians/turns/parse, as_*, ==, is_orthogonal"])

prop("C23", "Loading a document builds the tree the XML describes",
 "Loading any well-formed SVG document, from a file name, file object or stream, builds one node per element with the same tag (SVG namespace removed), attributes, text (unless white space only) and order of children, each of the class for its tag and with its parent being the enclosing node. Every id is found by lookup, in plain or url(#id) form, as the node that carries it, and unknown ids are not found.",
 "All XML trees over SVG and foreign elements, any nesting, attributes, text, namespaces and entities.",
 "Tests load a few small documents; nesting, tails, namespaces and ids interact.",
 ["nodes.py"],
 [("parse", "nodes.py parse/Node.parse"), ("Document", "nodes.py Document.read/get_element_by_id")],
 ["Document(source): node classes, values, children, parents, ids"])

prop("C24", "Saving a document and loading it again preserves it",
 "The XML text of any node, and the file written for any document, is well-formed XML which, read by an independent parser, has the same elements, attributes, text and order as the tree in memory (whitespace-only text aside), whatever characters the values contain; of a document with several elements at the top each is written, in order. Loading it again with the library gives an equivalent tree, a second save gives the same content, and saving never alters the tree.",
 "All document trees, loaded or built or edited, with arbitrary legal characters in names, attribute values and text.",
 "Escaping and text/tail placement fail only for particular characters and nestings.",
 ["nodes.py"],
 [("Node.xml", "nodes.py Node.xml"), ("Document.write", "nodes.py Document.write")],
 ["node.xml(), str(node), document.write(file)"], over=("inputs", "histories"))

prop("C25", "Building and navigating a document stay consistent",
 "After any history of creating elements through builder calls, Document.add and loading into nodes, the tree holds exactly the nodes created, in order, with their attributes; each has its parent, document and ancestors set; first, last, next and previous (element) sibling, child counts, connection and ancestor queries all agree with the lists of children, also when siblings look alike. Every id given is registered, and lookup by id returns that very node. Two nodes are the same node only if they are one, and equal nodes exactly when type, tag, attributes, text and children (in order) are equal.",
 "All histories of build, add and load calls on all element kinds, at any depth.",
 "Fixed tests build one tree; sibling identity errors appear only among look-alike nodes.",
 ["nodes.py"],
 [("ElementBuilder", "nodes.py ElementBuilder.__call__"), ("navigation", "nodes.py Node.first_child .. Element.previous_element_sibling"), ("Document.add", "nodes.py Document.add")],
 ["document.svg().g()..., navigation properties, get_element_by_id"], over=("histories", "inputs"),
 state=[("id table", "ids to nodes", "nodes.py Document.objects")])

prop("C26", "Presentation values come from the element or its nearest ancestor",
 "The values in force for an element are its own attributes over those of its parent, over those of its grandparent, and so on up to the document: the nearest one that sets an attribute wins, and siblings or descendants never contribute. Fill, stroke and their opacities, read through the element, are the colour and opacity those values define, none staying none, and attribute values of other elements are left unchanged by reading.",
 "All trees and all placements of attributes along the ancestor chain.",
 "Tests have one or two levels; precedence errors need three levels with overlapping attributes.",
 ["nodes.py"],
 [("get_ancestors/get_values", "nodes.py Document.get_ancestors/get_values"), ("fill/stroke", "nodes.py GraphicalElement.fill/stroke")],
 ["Document.get_values(node), node.fill, node.stroke, node.fill_opacity, node.stroke_opacity"])

prop("C27", "The printed representation of a value evaluates back to that value",
 "Evaluating the repr of any segment, path, point, matrix, colour, length or angle with the library's names in scope yields a value equal to the original, with the same geometry or amounts up to the printed precision. Producing it has no effect on the value.",
 "All constructible values of these kinds with finite components.",
 "Tests evaluate a few reprs with default arguments; optional fields (missing starts, flags, scale, opacity) vary freely.",
 ["path.py", "basic.py"],
 [("__repr__ of each class", "path.py, basic.py")],
 ["eval(repr(value))"])

prop("C28", "Copies are equal and independent, and operators spare their operands",
 "A copy of a path, subpath, segment, point, matrix, colour or length equals the original, and no later change to either one (edits, point moves, transforms, reversals) shows in the other. Binary operators on paths, segments, points, matrices and lengths return new values which share no mutable part with their operands and leave them unchanged.",
 "All values of these kinds, all subsequent mutation histories, all operators.",
 "Aliasing shows only when a mutation follows on one particular shared part.",
 ["path.py", "basic.py"],
 [("__copy__", "path.py, basic.py"), ("operators", "path.py Path.__add__/__mul__/PathSegment.__mul__")],
 ["state of the original after mutating the copy or the result, and the reverse"], over=("histories", "inputs"))

prop("C29", "Drawing a path by calls gives the path its path data would",
 "Every history of the drawing calls of a path (move, line, horizontal, vertical, quad, smooth_quad, cubic, smooth_cubic, arc, closed), on an empty or an existing path, adds exactly the segments the commands of path data of the same names mean: several coordinates in one call are the call repeated (a move going on as lines), 'z' for a point is the start of the current subpath, relative numbers of horizontal and vertical are offsets, and every segment is written in the form (relative or absolute, smooth or not) it was drawn in. What was drawn before stays unchanged, the current, z, first and smooth points are those of the path so far, and the path shares no point with its caller or between its segments.",
 "All histories of drawing calls with all argument counts and forms of points, relative or not, after any parsed path.",
 "The tests draw a few paths with one coordinate per call; state carried from call to call matters only in sequences.",
 ["path.py"],
 [("drawing methods", "path.py Path.move/line/vertical/horizontal/quad/smooth_quad/cubic/smooth_cubic/arc/closed"), ("pen state", "path.py Path.current_point/z_point/first_point/smooth_point")],
 ["segments, d(), current_point, z_point, first_point, smooth_point"], over=("histories", "inputs"),
 state=[("pen", "current point, subpath start, last control", "path.py Path.current_point/z_point/_smooth_point")])

prop("C30", "Elements give the geometry and data their attributes encode",
 "However an element is made (constructed or built with arguments by position or by name, added, or loaded from XML), arguments by position become the attributes documented for them, the properties naming its geometry give these values, a rectangle's position and an ellipse's or circle's center are the points named, and the segments of a path element are those of its path data, read anew each time and independent of it. An image given by PNG, JPEG or SVG base64 data has exactly the bytes encoded as its data, and no other link has data. The viewBox and preserveAspectRatio of an element are its own.",
 "All shape and image elements, all argument counts, values and ancestors; all path data; all byte strings.",
 "Tests construct few elements; defaults, order of arguments and decoding vary independently.",
 ["nodes.py"],
 [("constructors", "nodes.py Rect/Ellipse/Circle/Line/Polyline/Polygon/Path.__init__"), ("Path.segments", "nodes.py Path.segments"), ("Image.data", "nodes.py Image.data")],
 ["element.attributes, geometry properties, Path.segments, Image.data"])

prop("C31", "Segments and paths are made of exactly what they are given",
 "A segment made with points given by position, by name or both, as Point, pair, list, complex number or text, has exactly these points as its parts, a part not given is missing, and its relative and smooth marks are those asked for (absolute and smooth when not). Its parts are points of its own: changing what was given later, or giving one point for several parts, shows nowhere. An arc given by endpoint parameters in any of these forms is that arc. A path made of path data, segments, a list of them, another path, a subpath or a single segment holds just these segments, in order, with their marks, and with the pending transform of the path given or none. Two segments are equal exactly when they are of one kind and all their parts are equal; two paths when all their segments are, in order.",
 "All segment kinds, all forms and ways of naming the arguments, all marks; all paths.",
 "The tests construct with Points or pairs by position; the forms, names, missing parts and marks combine freely.",
 ["path.py"],
 [("segment constructors", "path.py Move/Line/Close/QuadraticBezier/CubicBezier/Arc.__init__"), ("Path.__init__", "path.py Path.__init__")],
 ["parts, relative, smooth of the segment; list(path)"])

prop("C32", "Reading a value never changes it, and always gives the same answer",
 "Measuring, evaluating, printing, comparing, indexing, copying, converting, navigating or saving leaves a path, subpath, segment, matrix, point, length, colour, angle or document as it was, and what is read depends only on what the value now is: it is the answer of a value just made in the same way (by the same construction and the same edits) and never read before, whatever was read earlier, in whatever order and however often, and whatever edits came in between.",
 "All values of these kinds, all histories mixing readings and edits through the value's own operations.",
 "Tests read a new value once; lazy evaluation, caches and normalisation in place show only on a later reading of another kind.",
 ["path.py", "basic.py", "nodes.py"],
 [("cached lengths", "path.py Path._calc_lengths"), ("lazy transform", "path.py Path.segments/reify"), ("readings", "basic.py, nodes.py properties and methods")],
 ["every reading operation, and the complete state after it"], over=("histories", "inputs"),
 state=[("length cache", "total and partial lengths", "path.py Path._length/_lengths")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except (ImportError, OSError):
    pass
print(len(P), "properties")
