import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
V='src/src/vatti.cpp';R='src/src/rmath.cpp';H='src/include/river.h';PA='src/src/path.cpp'
T="The only test runs intersection/positive on one fixed pair of drawings and compares one SVG byte for byte; "
p("C01","Boolean result region of straight-edged polygons",
 "For subject and clip inputs made of closed contours with straight edges (any number of contours, either orientation, self-intersecting, nested, touching, overlapping or partly coincident), processing with intersection, union, difference or xor under even-odd, non-zero, positive or negative fill yields contours whose non-zero interior is exactly the set of points where the boolean combination of the two filled inputs holds (union, intersection, subject minus clip, exactly one of both); the operation `none` yields nothing. A point counts as filled by an input when the winding number of all of that input's contours (counter-clockwise positive, y up) is odd / non-zero / positive / negative. This holds for inputs whose vertices lie on a common integer grid, however degenerate, and for inputs whose features are clearly separated.",
 ["inputs"],"all contour sets (grid-degenerate or clearly separated), all 4 operations x 4 fill rules",
 T+"correctness is over all polygon pairs, operations and rules, most of which it never executes.",
 [V,"src/src/vatti.h",R,"src/src/segment.h"],
 [("scan-beam sweep",V+": clipper::process"),("winding counts and contribution rule",V+": recalc_windcnt, is_contributing"),("edge splitting at intersections",V+": process_intersect"),("AEL order",V+": insert_into_ael, resort_ael"),("output stitching",V+": update_ouput_bound, close_output, join_output")],
 ["processor::process output contours"])
p("C02","Boolean result region of shapes with cubic Bezier edges",
 "For inputs whose contours mix straight and cubic Bezier edges in general position (crossings transversal and clearly separated, no vertex on another edge, no curve tangent to or partly coincident with another edge, no fold-back at a joint, no vertical extremum a tiny fraction of the curve's length away from one of its ends; a whole curve shared identically by two contours is allowed), processing under every operation and fill rule yields contours of straight and cubic edges whose non-zero interior is the boolean combination of the filled inputs, as for straight edges. Curves may have interior vertical extrema, inflections and loops of their control polygon, and contours may cross themselves and each other.",
 ["inputs"],"all mixed line/cubic contour sets in general position, all 4 operations x 4 fill rules",
 T+"it has no oracle for the curved region other than that one picture.",
 [V,R,"src/src/segment.h"],
 [("monotone split",V+": read_cubicto; "+R+": bezier_cubic::split_y"),("curve intersection",V+": clipper::intersect; "+R),("splitting at several parameters",R+": bezier_cubic::split"),("x of a curve on a scanline","src/src/segment.h: seg_cubicto::curr_x")],
 ["processor::process output contours"])
p("C03","Output contours are closed, oriented and cover the boundary once",
 "Every contour written by process starts with one move, continues with at least two line or cubic edges and explicitly returns to its starting point. Taken together the output contours wind exactly once (+1, counter-clockwise outside, holes clockwise) around every point of the result and zero times around every other point. Each piece of the result's boundary is therefore emitted exactly once, with the result on its left, and no edge lies inside or outside the result.",
 ["inputs"],"all inputs of C01/C02, all operations and fill rules",
 T+"orientation, closure and uniqueness are never asserted and only single-region, hole-free outputs occur.",
 [V],[("left bounds run down, right bounds run up",V+": new_output, update_ouput_bound"),("closing and joining",V+": close_output, join_output"),("emission",V+": build_output")],
 ["processor::process output contours"])
p("C04","Output edges are pieces of input edges and keep their kind",
 "Every straight output edge runs along collinear straight input edges that cover it (up to rounding) and every cubic output edge is a sub-curve (possibly reversed) of one input cubic, so curves are never flattened, straightened or re-fitted and lines never become curves. Every output vertex is an input vertex, a crossing or touching point of two input edges, or a vertical extremum of an input cubic. Output vertices taken over from the input keep their coordinates exactly.",
 ["inputs"],"all inputs of C01/C02, all operations and fill rules",
 T+"geometric provenance is never checked.",
 [V,R,"src/src/segment.h"],[("copy of input segments",V+": copy_seg"),("reversal","src/src/segment.h: seg_lineto::reverse, seg_cubicto::reverse"),("split",R+": bezier_cubic::split")],
 ["processor::process output contours"])
p("C05","Every well-formed use completes without crash, hang or memory error",
 "Any sequence of creating processors, adding paths, processing with any operation and fill rule and destroying processors returns normally in bounded time, without memory errors, undefined behaviour or leaked memory. This includes empty path lists, empty paths, contours of one or two points, repeated points, zero-area and spike contours, flat or collapsed cubics, contours already closed explicitly, missing subject or missing clip, and inputs of hundreds of edges. Straight-edged inputs may be arbitrarily degenerate on a common grid; contours with proper curves are as in general position (C02), apart from the findings listed in known_findings.json.",
 ["inputs","histories"],"all call histories over finite inputs of C01/C02 including all degenerate contours",
 T+"no degenerate contour, sanitizer or repeated call occurs in it.",
 [V,"src/src/processor.cpp","src/src/scan_line.h",R],[("ownership by pools",'src/src/vatti.h: object_pool members'),("progress of the sweep",V+": pop_scanline, do_top_of_scanbeam"),("broad phase lifetime","src/src/scan_line.h")],
 ["return of every public call, sanitizer verdict of the process"])
p("C06","Result does not depend on how the same input is written down",
 "The result region is unchanged when a contour starts at another vertex, is closed explicitly or left to close implicitly, repeats points, has an edge cut at an interior grid point, when contours are added in another order, in one call or several, as several paths or as one path with several moves, or accompanied by paths without elements and moves that draw nothing; reversing every contour of both inputs keeps the even-odd and non-zero results and exchanges positive with negative. Exchanging subject and clip keeps the results of intersection, union and xor.",
 ["inputs","histories"],"all equivalent presentations of all C01 inputs",
 T+"each input is presented in exactly one way.",
 [V,H],[("contour assembly",V+": read_moveto, read_lineto, insert_vertex_list"),("closing",V+": insert_vertex_list"),("local minima order",V+": reset")],
 ["processor::process output contours"])
p("C07","Result follows translation, scaling, reflection and rotation of the input",
 "Translating, uniformly scaling (from thousandths to millions of units per grid step), mirroring or quarter-turning both inputs of straight-edged polygons transforms the result region in the same way (for degenerate grid inputs: as long as the transform keeps the grid points exactly representable; for clearly separated inputs: always), and so it does for curved inputs in general position (from thousandths of a unit on); mirroring also exchanges the positive and negative fill rules. No part of the result may depend on absolute magnitudes or on the position of the origin, including negative coordinates.",
 ["inputs"],"all C01 grid inputs under all such similarity transforms",
 T+"all coordinates of it are positive screen coordinates of one magnitude.",
 [V,R],[("tolerances",V+": zero/one, merge of break points"),("bounding boxes",R+": rect::from"),("initial scanline",V+": process")],
 ["processor::process output contours"])
p("C08","A processor can be processed repeatedly and extended between runs",
 "Process never consumes or changes what was added: calling it again on the same processor, with the same or another operation and fill rule, yields the result of a fresh processor given the same paths. Paths added between two runs take part in later runs only, exactly as if all of them had been added up front. Each call delivers only its own result.",
 ["histories"],"all interleavings of add and process calls on one processor",
 "The test creates one processor, adds twice and processes once; no history with a second process call exists.",
 [V,"src/src/processor.cpp"],[("state cleared per run",V+": reset"),("persistent vertices and minima",V+": paths_start, local_minima_list")],
 ["processor::process output after every call of a history"])
p("C09","Processors are isolated and never touch the caller's input",
 "Any number of processors may be alive at once, be driven in any interleaving (including processing one inside the write callback of another, and on several threads) and be destroyed in any order, and each one's results depend only on its own calls. The paths given to add_path are left unmodified and may be changed or destroyed right after the call. Process into a path list appends after the existing elements and leaves those untouched.",
 ["histories","schedules"],"all interleavings of calls on several processors",
 "The test uses a single processor and an initially empty output list.",
 [V,"src/src/processor.cpp",H],[("private implementation object","src/src/processor.cpp: processor_private"),("copy on add",V+": read_*"),("append",V+": write_moveto")],
 ["processor::process output, input paths, output list prefix"])
p("C10","Path recording and traversal replay the same elements",
 "Traversing a path calls move_to, line_to and cubic_to once per recorded element, in recording order, with exactly the recorded coordinates, with the previous element's end point (the origin before the first) as start point and with the caller's user pointer. A null callback only suppresses the elements of its kind. Traversal leaves the path unchanged, both spellings of moveto and lineto (point or coordinates) record the same element, and moving a path (also inside a path list) hands all its elements over and leaves the source empty and usable.",
 ["inputs","histories"],"all sequences of builder calls, all subsets of callbacks",
 "The test never traverses a path directly.",
 [PA,H],[("element encoding",PA+": moveto, lineto, cubicto"),("decoder",PA+": path::traverse")],
 ["callback arguments"])
p("C11","Path text is parsed faithfully",
 "make_path turns a text of commands `m x y`, `l x y`, `c x1 y1 x2 y2 x y` separated by optional white space into one path per `m`, holding the given numbers in order (to at least twelve significant digits); numbers may carry a sign, a fraction (also without digits before or after the point) and an exponent, and white space before, between and after tokens is free. `a x y x y` is accepted and skipped, segments before the first `m` are ignored, and at the first thing that is not a complete command parsing stops and the commands before it are kept.",
 ["inputs"],"all texts over the command alphabet",
 "The test parses two well-formed fixed strings.",
 ["src/src/river.cpp"],[("grammar","src/src/river.cpp: make_path"),("actions","src/src/river.cpp: writer")],
 ["returned paths"])
p("C12","Segment/segment intersection is sound and complete",
 "For any two non-degenerate segments the reported count is one when they cross or touch in a single point and are not parallel, and zero when they are disjoint; the reported point and both parameters describe that common point on both segments. For parallel segments nothing is reported unless they are collinear, and then the reported points are exactly those end points of either segment that lie on the other segment without coinciding with one of its end points, each once with matching parameters.",
 ["inputs"],"all pairs of segments with integer end points in the bounded range, incl. touching, collinear, nested",
 "No test calls it with an oracle.",
 [R,"src/include/rmath.h"],[("linear solve and collinear branch",R+": intersect(vec2 x4)")],
 ["line_intersect_result"])
p("C13","Segment/cubic intersection is sound and complete",
 "Every reported hit of a segment and a cubic names parameters in [0,1] whose points on the segment and on the curve agree with the reported point, at most three hits are reported and no hit is reported twice. Whenever the curve passes transversally from one side of the segment to the other, clear of the ends of both and separated from other crossings, exactly one hit is reported there.",
 ["inputs"],"all segment/cubic pairs whose crossings are transversal and clear of the ends",
 "No test calls it with an oracle.",
 [R],[("implicit line substituted in the cubic",R+": intersect(line, bezier_cubic)"),("cubic solver",R+": resolv_cubic_equa"),("general form",R+": line::general_from")],
 ["line_cubic_intersect_result"])
p("C14","Cubic/cubic intersection is sound and complete",
 "Every reported hit of two cubics names parameters in [0,1] whose points on both curves agree with the reported point within the requested precision, at most nine hits are reported and none twice. Whenever the two curves cross transversally, clear of their ends and at a parameter of the first curve well separated from its other crossings, exactly one hit is reported at that crossing, and identical or reversed identical curves report none.",
 ["inputs"],"all cubic pairs whose crossings are transversal and separated",
 "No test calls it with an oracle.",
 [R],[("pairwise subdivision",R+": intersect(bezier_cubic x2)"),("duplicate removal",R+": intersect(bezier_cubic x2)")],
 ["cubic_intersect_result"])
p("C15","Cubic evaluation, subdivision, extrema and bounds agree",
 "Splitting a cubic at increasing parameters yields consecutive cubics that join end to end, start and end at the original's end points and trace exactly the corresponding parameter ranges. split_y reports, in increasing order inside (0,1), the interior parameters where the vertical direction turns, so that the pieces between them are y-monotone; get_boundary is the tight bounding box of the curve; point_at evaluates the curve; point_at_y reports each parameter strictly inside (0,1) at which the curve passes through the given height once and none where it has another height; circle yields four joined quarter arcs, counter-clockwise from the right, around the given centre that stay within one part in a thousand of the radius.",
 ["inputs"],"all cubics with control points in the bounded range, all increasing parameter lists",
 "No test calls them with an oracle.",
 [R],[("de Casteljau",R+": bezier_cubic::split"),("derivative roots",R+": split_y, get_boundary"),("cubic roots",R+": point_at_y"),("circle approximation",R+": bezier_cubic::circle")],
 ["return values"])
p("C16","Quadratic and cubic solvers return exactly the real roots",
 "For polynomials with integer coefficients whose real roots are simple and separated, or exactly known multiple roots, the solver returns every real root once and nothing else, within rounding of the true value. A zero leading coefficient degrades to the lower degree equation, and an equation without real roots or a non-zero constant returns none.",
 ["inputs"],"all integer polynomials in the bounded range with separated roots",
 "No test calls them.",
 [R],[("Cardano / trigonometric branches",R+": resolv_cubic_equa"),("quadratic",R+": resolv_quad_equa")],
 ["quad_equa_result, cubic_equa_result"])
p("C17","Broad phase visits every overlapping pair exactly once",
 "For any set of items with bounding boxes each broad-phase scan calls the pair callback exactly once for each unordered pair of distinct items whose closed boxes overlap (touching counts), and for no other pair. This is independent of insertion order, of earlier scans of the same set, of equal coordinates and of boxes of zero width or height.",
 ["inputs","histories"],"all finite box sets, all insertion orders",
 "No test observes the scan.",
 ["src/src/scan_line.h"],[("sweep over x with active set","src/src/scan_line.h: process"),("event points","src/src/scan_line.h: get_point")],
 ["pair callback calls"])
p("C18","Callback interfaces and path lists are interchangeable",
 "Adding through a reader callback has the same effect as adding the path list it describes, and processing into writer callbacks delivers the same contours, in the same order and with the same coordinates up to rounding, as processing into a path list. The writer sees, per contour, one move_to followed by its edges, each edge starting where the previous one ended, and every callback receives the user pointer given to process.",
 ["inputs","histories"],"all inputs of C01/C02 through all combinations of input and output interface",
 "The test uses one interface combination only.",
 [H,"src/src/processor.cpp",V],[("reader",V+": add_path(read_path_func)"),("writer",V+": build_output, write_*")],
 ["callback arguments, output path list"])
p("C19","Areas of the boolean results obey the laws of measure",
 "On the same inputs and fill rule the signed areas enclosed by the results satisfy area(union) = area(intersection) + area(xor), area(xor) = area(subject minus clip) + area(clip minus subject), and area(subject alone) = area(intersection) + area(difference). Every result area is non-negative, intersection is no larger than either input and union no smaller, for straight and curved inputs alike.",
 ["inputs"],"all inputs of C01/C02",
 T+"no two operations are ever run on the same input.",
 [V],[("contribution rule",V+": is_contributing"),("stitching",V+": update_ouput_bound, join_output")],
 ["processor::process output contours"])
p("C20","Vector, rectangle and line helpers compute what they name",
 "On exactly representable arguments the vector operators, dot, cross, dist2 and comparison are exact; rect::from is the smallest rectangle holding all given points, rect::intersect holds exactly when the closed rectangles share a point (touching counts, symmetric), inflated grows all four sides by the given amount, and width, height and center describe the rectangle. line::general_from yields coefficients, not both zero, that vanish at both points of the line, and point_project_in_segment holds exactly when the perpendicular foot of the point lies between the two ends (inclusive; for a degenerate segment when the point equals it).",
 ["inputs"],"all integer arguments in the bounded range incl. touching and degenerate rectangles and segments",
 "No test calls them with an oracle.",
 [R,"src/include/rmath.h"],[("rectangles","src/include/rmath.h: rect, "+R+": rect::intersect"),("general form",R+": line::general_from"),("projection",R+": point_project_in_segment")],
 ["return values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
print(len(P))
