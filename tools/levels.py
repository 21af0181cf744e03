"""What decides each property: technique (for the manifest), and oracle, generation and limits (for DESIGN.md)."""
L = {}


def level(i, technique, oracle, generated, limits, why):
    L[i] = dict(technique=technique, oracle=oracle, generated=generated, limits=limits, why=why)


level("C01", "grammar-based generation; differential against an independent reference reader of path data",
 "`oracle/svgpath.py`, a reader written from the grammar of SVG 2 alone (no code shared), gives kinds and points of every segment; `oracle/geom.py` gives the ellipse of an arc by appendix B.2.4-5. Segments are compared point by point within 4e-12 of the extent; arcs at six parameters within the conditioning of their parameters.",
 "Trees of commands laid out as text with every legal freedom: letters repeated or left out, relative or absolute, numbers packed (`1.5.5-3`), flags run together, exponents, all separators and white space, `z` for trailing points. The same text appended to paths which have segments, and texts without a leading move. Long data (up to 120 commands), and coordinates in several styles (integers, grids, tiny, huge) besides.",
 "Coordinates of ordinary size (up to 1e6, exponents up to e+-12). A leading close or line of unknown start is compared by its end only.",
 "Which number belongs to which command depends on packing, repetition and the command before: the product of these is far beyond a table of examples.")
level("C02", "round trip: data written in all 9 forms is read by the independent reader and compared; metamorphic on smooth/relative marks",
 "The reference reader of C01 reads what was written (never svgio's parser); the result is compared with the segments of the path, or their images under the matrix (computed from coefficients). Letters are checked against the form asked for.",
 "Parsed paths, paths with a transform, paths edited so that stored smooth and relative marks no longer fit, reversed ones, subpaths, single segments alone and after their neighbour; explicit curves whose controls are exact reflections, of both kinds in turn, or miss them by little; long paths; paths scaled to sizes between 1e-12 and 1e14.",
 "Arc radii and rotation are written with 6 digits (%G), so arcs are compared within what these digits determine. Smooth letters are not demanded beyond coordinates of 1000, and magnitudes are tried without shorthands: points compare equal within 1e-12.",
 "A shorthand is wrong only if the stored mark, the kind and the end of the previous segment disagree, which needs edits after parsing.")
level("C03", "mutation fuzzing of grammatical text and random strings; differential against a diagnosing reference reader",
 "`oracle/svgpath.diagnose` says, for any string, which segments precede the first error and whether the error is one of missing parameters. svgio must raise ValueError, or give exactly those segments.",
 "Grammatical data cut, deleted from, inserted into, replaced and spliced; strings of the letters and digits of path data; arbitrary text; each command short of parameters, after 0-2 complete repetitions.",
 "Whether a syntax error raises or ends the data is left open, as the code does both; missing parameters must raise. Numbers beyond the range of floats are passed over.",
 "The state of the lexer at an error (repeat loops, pending inline close) decides what is invented or dropped.")
level("C04", "model-based stateful testing: histories of edits against a model list; invariant after every step",
 "After every operation: connectivity over the whole path, and equality with a model list (`vf/histories.py`) which applies the joint rule of the property to tuples.",
 "Histories of up to 8 operations out of some 25 (item and slice assignment and deletion with any indices and steps, insertion, appending, extension, concatenation, drawing calls, reads of text in between) with operands of all kinds, the path itself and its own subpaths among them; loose segments with missing ends. Paths of up to 60 segments with far indices besides.",
 "Segment objects used twice in one path are excluded (the class asks for one use each).",
 "A repair at one joint is easily missed at the second one, or after a second edit; tests look at one edit.")
level("C05", "model-based stateful testing against Python lists; metamorphic on equality",
 "A Python list of the segments' values undergoes the same operation; kinds and points are compared, and so are exceptions. Equality is compared with equality of the lists, with single differences in every part of a segment.",
 "The histories of C04, all indices and slices (negative, out of range, steps of both signs); pairs of paths which differ in one segment, point or kind, or mirror each other (as long, with the same ends), before and after measuring; readers of points interleaved. Paths of up to 60 segments with far indices besides.",
 "Assigning an empty string is excluded. What a close's end is depends on its place and is judged by C04.",
 "Negative steps, clipped ranges and operands which are part of the list combine freely.")
level("C06", "model-based stateful testing of windows against slices of a model list",
 "A subpath is modelled as a range of the list of its path; every read through it is compared with the same read of that range, every edit with the edit of the range, the rest of the path staying as it was. Edits, reversals and transforms mixed through one window are compared with each done on a path made afresh of the same numbers.",
 "Paths of up to five subpaths, with and without closes, after earlier edits; the partition along histories of edits, reversals and readings; histories of edits through one window and reads through it; copies; paths of dozens of subpaths.",
 "Windows are taken anew after edits made elsewhere.",
 "Off-by-one errors at the edges of windows need at least two subpaths and an edit that changes the size.")
level("C07", "metamorphic testing: the reversed curve sampled against the original",
 "Sampled points, lengths, boxes and order of subpaths of the reversed path against those of the original, from the defining points by `oracle/geom.py`; reversing twice restores.",
 "Segments of all kinds and degenerate forms, paths of several subpaths, open and closed, with closes of zero and other lengths, transforms, fragments without a move; subpaths in first, middle and last place. Long ones (up to 60-120 segments) besides.",
 "Paths whose closes do not end their subpath (drawing on after z without a move) are excluded: reversing cannot keep them.",
 "The end of a close and the start after it depend on the neighbours; tests reverse one or two simple figures.")
level("C08", "metamorphic stateful testing: measuring before and after edits against the sum over the segments",
 "Lengths and points of a path are recomputed from the segments, one by one, without any cache, and compared; a freshly parsed path of the same segments gives the same. With and without numpy (an import hook hides it).",
 "Histories which mix measurements with edits of every kind (through the path, its subpaths, transformations, reversals, drawing calls, further data) and accuracies and depths of several sizes, also of curves which wave about their middle. Long ones (up to 60-120 segments) besides.",
 "Editing a segment object directly is not an edit of the path (the cache cannot know).",
 "A stale cache shows only if an edit of one kind follows a measurement of another.")
level("C09", "differential testing against closed forms over complex numbers",
 "`oracle/geom.py` evaluates Bezier polynomials and ellipses directly; single and array evaluation with and without numpy; the nearest point of a line by projection.",
 "Segments of all kinds in general and degenerate position (coincident, collinear, axis aligned, point and mirror symmetric, circles, flat ellipses, nearly half turns), positions in [0, 1] with the ends, one ulp inside, and ends given as numpy arrays, lists and integers. The same at sizes from 1e-9 to 1e9.",
 "Tolerances follow the conditioning of an arc's parameters (half turns determine their center only to the root of the rounding).",
 "Branches for special shapes (circle, zero radius, sweep near a half turn) and for missing numpy are hardly ever sampled.")
level("C10", "differential testing against closed forms and Gauss-Legendre quadrature with an error estimate",
 "Closed forms for lines and quadratics in extended precision, piecewise Gauss-Legendre between the kinks for cubics and ellipses, with an error estimate that enters the tolerance.",
 "As C09, with accuracies from 1e-12 to 0.1, whole turns, several turns, ellipses of aspect up to 1e5; without scipy and numpy for all kinds. The same at sizes from 1e-9 to 1e9.",
 "Seven digits where the quadrature is adaptive; flat ellipses within what their axis points carry (aspect squared times rounding).",
 "Cusps, exact collinearity and degenerate radii are where closed forms divide by zero.")
level("C11", "differential testing: containment at many parameters and tightness at the analytic extrema",
 "Boxes from the roots of the derivative (Bezier) or the axis form (ellipse), plus containment of sampled points, for segments; the union of those for subpaths and path elements.",
 "Segments of all kinds and degenerate forms, arcs of any sweep up to several turns, paths with moves only, closes, transforms; long paths; sizes from 1e-9 to 1e9.",
 "Inherited transforms of nodes are outside (only the element's own coordinates).",
 "An extremum just inside or outside of the parameter range, or a vanishing leading coefficient, takes a special input.")
level("C12", "metamorphic testing: the point of the image is the image of the point",
 "Images of sampled points by the six coefficients; paths: order of chained transforms, lazily held and applied, against each segment transformed.",
 "Invertible matrices of all shapes (mirrors, skews, quarter turns, uneven scales, near-similarities) and as text, on all segments, subpaths and paths, once or several times, in place and not; matrices next to the identity (1e-4 to 1e-8 off); paths read and edited while a transform is pending; long paths; sizes from 1e-9 to 1e9.",
 "Matrices of condition up to about 1e4; arcs under a product of matrices which stretches more than 1e7-fold are not judged.",
 "Arcs need new axes under skews, and sweep signs under mirrors: branches depending on the matrix and the arc together.")
level("C13", "differential testing of arc constructors against the described ellipse",
 "The ellipse is generated first, its description derived from it, and the arc built from the description compared with the ellipse at six parameters, with center, radii, rotation and sweep.",
 "Endpoint parameters in five calling forms (with radii too small, just reaching, zero), center forms (12 ways), control points (also on a coarse grid, where legs are axis aligned; and with legs level or upright but for as little as a rounding), radius, bulge, sagitta, quarters; with and without direction; nearly straight arcs (three points almost on a line, sagittas down to 1e-5 of the chord).",
 "Tolerances follow the conditioning; descriptions that determine no arc (coincident points) are excluded.",
 "Each way of specifying has its own branches for vertical, horizontal, left and right, which examples visit once.")
level("C14", "differential testing against the arc and the analytic error bound of the approximation",
 "Pieces are compared with the arc at the joints, tangents at joints by derivative (cubic), distance to the ellipse in its own frame within the known bound for the angle of a piece.",
 "Arcs in endpoint and center form, 1-12 pieces; paths with arcs, mixed with everything else, with and without an error. Long ones (up to 60-120 segments) besides.",
 "For quadratics tangency holds only for small pieces and is not claimed.",
 "The bound must hold at every parameter for every ellipse, not at the printed digits of one circle.")
level("C15", "algebraic laws and a 3x3 reference model over generated matrices and histories of operations",
 "A reference of six floats with its own multiplication, inverse and elementary matrices.",
 "Matrices from all constructors and from histories of pre-/post- operations with centers, angles with units, vectors, points as pairs, complex numbers and Points; long histories.",
 "Inverses for condition up to 1e6.",
 "Order of composition and center handling only show with two non-commuting operations.")
level("C16", "grammar-based generation of transform lists; reference evaluation of the meaning the text was made from",
 "The generator makes the list of functions first and lays it out as text; the product of elementary matrices by C15's model is the meaning.",
 "Lists of up to five functions of every name and any case, arguments left out, centers, five angle units, lists of up to 20 functions; separators, number formats, length units in translations (deferred until rendered), none.",
 "Deferred lengths only where rotation does not mix axes of different units. Uppercase units are not supported by the library.",
 "Number of arguments x units x order is a product.")
level("C17", "differential testing against SVG 2's equivalent-transform algorithm",
 "The algorithm of the specification (section 8.2), written out, and the images of the corners of the viewBox.",
 "Viewports with positions, viewBoxes with offsets, all 10 alignments x meet/slice and defaults, as objects, elements' attributes and text.",
 "Positive sizes.",
 "9 alignments x meet/slice x which side is limiting x offsets.")
level("C18", "differential testing against a units model in floats; metamorphic on arithmetic",
 "A table of units with their definition; arithmetic and comparison on resolved pixels.",
 "Lengths of all units with contexts partly missing; operations of every operator on same, convertible, unrelated units, numbers and text; histories of operations on one length.",
 "The library's point is 1.3333px (tolerance 3e-5), conversions within 1e-6. Percentages of percentages excluded.",
 "unit x unit x operator x known context.")
level("C19", "exhaustive keywords, generated CSS colour text; round trips; a model of CSS channels",
 "A table of all 148 keywords and the formulas of CSS Color 3/4 for hsl and clamping.",
 "All keywords in random case and spacing; hex of 3, 4, 6 and 8 digits; rgb[a] with numbers and percentages in and out of range; hsl[a] with hues in any turn; opacity arguments; numbers.",
 "hsl within one 8-bit step; rgb() with spaces or slash is not supported by the library.",
 "Clamping, alpha position and rounding at half steps take particular values.")
level("C20", "model-based histories of component writes; formulas for compositing and distance",
 "A model of four channels; colorsys for hsl; the alpha-over formula; the red-mean distance.",
 "Histories of writes of every component in and out of range with reads of all; pairs of colours.",
 "Within 8-bit rounding, which is stated per operation.",
 "Packing and clamping errors show for some values of neighbouring components only.")
level("C21", "differential testing against complex arithmetic; convex hull against exact rational geometry",
 "Python complex numbers; hulls by exact rationals (fractions) with the orientation predicate.",
 "Points from every constructor form, all operators with points, pairs, complex numbers and text; point sets on grids (collinear, duplicate), clustered and general; orientation of triples on grids; hulls of up to 120 points.",
 "Equality up to the documented 1e-12; coordinates of ordinary size.",
 "Collinear and duplicate points, and orders of input, decide whether a hull is right.")
level("C22", "algebraic testing over all units against a model of directions",
 "Angles as turns in floats (and exact fractions of turns for comparisons).",
 "Angles in all units by constructor and text, whole turns apart or not, arithmetic and both orders of comparison.",
 "Equality within 1e-11 of a turn is undecided.",
 "Wrapping: the interesting angles are those next to multiples of a turn.")
level("C23", "generated XML documents, read by an independent parser (xml.etree) and by the library; trees compared",
 "xml.etree (expat) gives the tree. Ids are looked up in all forms.",
 "Documents with all element names and foreign ones, attributes with any characters, entities, CDATA, comments, prefixes, declarations and encodings; from file names, objects and streams; large and deep documents; several documents into one tree.",
 "Ids with parentheses or line breaks are not looked up by url(); documents with duplicate ids are excluded from lookups.",
 "Chunked parsing, namespaces and escapes combine.")
level("C24", "round trip: saved XML against an independent parser and against loading again",
 "xml.etree reads what was saved; compared with the tree in memory before saving, and with the reloaded one.",
 "Loaded documents, and documents built, loaded into and edited, with values of any characters XML allows; trees of 150 nodes; documents of several elements at the top.",
 "Comments and processing instructions are not kept by loading. Image data PNG/JPG/SVG only.",
 "Characters in attribute values and text, and trees which came about in several ways.")
level("C25", "model-based stateful testing of document trees",
 "A model tree with lists of children; every navigation query is recomputed from it.",
 "Histories of builder calls of all element names, add, load into a node, moves of children, attribute changes; rows of identical siblings; trees joined; trees of 120 nodes.",
 "Methods which the library declares as not implemented are left out.",
 "Siblings which look alike, and nodes that were moved, are where queries by equality go wrong.")
level("C26", "model-based testing of inherited values over generated trees",
 "A model which walks the parents; colours by C19's table.",
 "Trees of depth up to six with few attribute names set on many nodes; fills, strokes and opacities of all forms, none included, and attributes set to None in built trees; nodes linked by hand, of no document; chains of up to 60 levels.",
 "fill-opacity together with a translucent colour is excluded; no style sheets.",
 "The nearest ancestor among several setters, siblings and descendants being distractors.")
level("C27", "round trip: eval(repr(x)) compared part by part",
 "The parts of the value before and after; nothing changed by printing.",
 "Values of each kind, missing parts, tiny and large numbers; long paths.",
 "Twelve decimals; Viewbox has no repr.",
 "Formats lose signs, parts or precision for some values only.")
level("C28", "stateful metamorphic testing: snapshots of both sides while one side is changed",
 "Exact snapshots of the observable state of every value involved, before and after each change made to one of them.",
 "Copies made in every way (copy, constructor, slices, + etc.), chains of copies, all operators with all operands; then edits, point moves, transforms and reversals on either side; long paths.",
 "The smooth mark of moves, lines and arcs is not part of the state.",
 "Sharing shows only through a later in-place change to precisely the shared part.")
level("C29", "model-based stateful testing of drawing calls against the commands they name",
 "A model which turns each call into commands in absolute form, and the reference reader on the same commands as text.",
 "Histories of calls with several coordinates, relative marks, 'z' for points, Points and pairs and complex numbers, on empty and parsed paths; a dozen coordinates in one call; long drawings; drawing calls with edits, transformations and readings of all kinds in between.",
 "Points are absolute also with relative=True, which only marks the written form; numbers of horizontal/vertical are offsets when relative.",
 "The current, z and smooth points depend on all that was drawn before.")
level("C30", "model-based testing of element constructors and loading",
 "A table of the documented arguments and the attribute each becomes; path data by the reference reader; bytes before encoding.",
 "All shape elements made in four ways, under ancestors with attributes of the same names; base64 data with white space, padding and percent escapes.",
 "The segments and boxes of Rect, Circle, Ellipse, Line and Polyline elements are not implemented by the library.",
 "Values of ancestors and of other ways of making the element must not leak in.")
level("C31", "model-based testing of constructors: the parts given are the parts found",
 "The numbers the case was made of; identity of the parts; C13's checks of arcs by endpoint parameters.",
 "All segment classes by position, by name and mixed, all forms of points, missing parts, marks; paths of text, segments, lists, paths, subpaths; long paths. Pairs of equal, nearly equal, differing and incomplete segments, of one kind and of two, alone and in paths.",
 "The smooth mark of moves, lines and closes has no meaning and is not checked.",
 "Arguments are sorted out by their number, type and names; few combinations occur in tests.")
level("C32", "metamorphic stateful testing: the same edits with and without readings in between",
 "A value made anew for each reading, given the same edits and read once; complete state before and after. For paths also: after each edit everything is read of the path and its segments, and of a path remade from their plain numbers, and both are edited on.",
 "Histories of readings (about 40 for paths, 30 for segments, 75 for documents) and edits of paths with and without a pending transform, segments, matrices, points, lengths, colours, angles and trees. Edits which move the ends of arcs are included in the remade paths.",
 "Changing a segment object within a path directly is not an edit of the path. The methods documented to work in place (transform_point, polar_to, inverse) count as edits.",
 "A stale or polluted state is only seen by another reading later on.")
