import json
IN="every valid input: one simple outer polyline, any simple and pairwise disjoint holes strictly inside it, any steiner points on no polyline, all points distinct, coordinates exactly representable and of moderate range"
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
SW="src/sweeper.rs"
tests14="the 15 tests run 11 fixed files and one random shape"
props=[
P("C01","Triangulating any valid input completes",
 "For every valid input (a simple outer polyline, simple pairwise disjoint holes strictly inside it, steiner points that lie on no polyline, all points distinct), triangulating it returns a result. It never panics, aborts, overflows the stack, runs out of memory or runs forever.",
 ["inputs"],IN+"; steiner points may lie outside",
 f"The tests triangulate a handful of fixed files ({tests14}); a degenerate order of points, a front shape or a concave chain that no file contains can still make the sweep panic or loop.",
 [SW,"src/points.rs","src/advancing_front/vec_backed.rs","src/triangles.rs","src/utils.rs","src/cdt.rs"],
 [("sweep over points and constraint edges","src/sweeper.rs: sweep_points, point_event, edge_event"),("fill of the front under a constraint edge","src/sweeper.rs: fill_edge_event, fill_*_convex_edge_event, fill_*_concave_edge_event"),("flip of crossed edges","src/sweeper.rs: edge_event_process, flip_edge_event, flip_scan_edge_event"),("explicit work stack of the legalization","src/sweeper.rs: legalize")],
 ["Builder::build","CDT::triangulate"]),
P("C02","The triangles tile the polygon exactly",
 "For every valid input the returned triangles are all counter-clockwise with positive area, do not overlap, and together cover exactly the area inside of the outer polyline and outside of the holes.",
 ["inputs"],IN,
 "Tests compare triangle counts and a verification helper of the library itself; none checks that nothing outside is covered, nothing inside is missing and nothing overlaps, and no count over fixed files settles it for other inputs.",
 [SW,"src/cdt.rs","src/shape.rs","src/triangles.rs"],
 [("removal of the triangles outside","src/sweeper.rs: finalize_polygon, clean_mesh"),("triangle rotation","src/sweeper.rs: rotate_triangle_pair"),("constraint marking","src/sweeper.rs: try_mark_edge_for_triangle")],
 ["Triangles (iterator)","Triangles::triangle_list_indices"]),
P("C03","Every polyline edge is an edge of the result",
 "For every valid input each edge of the outer polyline and of every hole is an edge of the returned triangulation, on exactly one triangle and with the interior on its proper side, and no triangle crosses such an edge.",
 ["inputs"],IN,
 "A missing constraint shows only for edges that need a particular flip sequence or front shape; the files of the tests contain a few of these and no test looks for the edges in the result.",
 [SW,"src/points.rs","src/shape.rs"],
 [("edge events","src/sweeper.rs: edge_event, edge_event_process, flip_edge_event, flip_scan_edge_event, next_flip_point"),("edges sorted to their upper end","src/points.rs: PointsBuilder, src/cdt.rs: parse_polyline"),("constrained flag of triangle edges","src/shape.rs: EdgeAttr")],
 ["Triangles::triangle_list_indices"]),
P("C04","The result is constrained Delaunay",
 "For every valid input each edge shared by two returned triangles is locally Delaunay: the far vertex of either triangle does not lie strictly inside of the circumcircle of the other, decided exactly.",
 ["inputs"],IN,
 "The tests call the library's own verification on the fixed files, with the same predicates that built the result; other inputs and the predicates themselves stay unchecked.",
 [SW,"src/utils.rs"],
 [("legalization","src/sweeper.rs: legalize, is_legalize"),("in-circle predicate","src/utils.rs: in_circle"),("delaunay marks, which stop needless legalization","src/shape.rs: EdgeAttr, src/sweeper.rs: rotate_triangle_pair")],
 ["Triangles::triangle_list_indices"]),
P("C05","Vertices are input points, all interior ones used; the count is Euler's",
 "For every valid input the vertices of the returned triangles are input points and never auxiliary ones; every polyline vertex and every steiner point inside of the domain is a vertex of some triangle, and no other point is. The number of triangles is b + 2i + 2h - 2 for b polyline vertices, i interior steiner points and h holes.",
 ["inputs"],IN,
 "Tests pin the triangle counts of the fixed files; a point that is skipped, used twice or replaced by an auxiliary point for some other input is not seen.",
 [SW,"src/points.rs","src/cdt.rs"],
 [("auxiliary head and tail points","src/points.rs: Points::new, points_without_fake"),("removal of triangles outside","src/sweeper.rs: finalize_polygon, clean_mesh"),("ids handed out in order of insertion","src/cdt.rs: Builder")],
 ["Triangles::triangle_list_indices","Triangles::points"]),
P("C06","Steiner points outside of the domain change nothing",
 "For every valid input with steiner points outside of the outer polyline or inside of a hole, the returned triangles are those of the input without these points (the same triangles wherever the constrained Delaunay triangulation is unique, a correct triangulation of the same domain otherwise), and no such point is a vertex of a returned triangle.",
 ["inputs"],"every valid input with at least one steiner point outside of the domain, at every position relative to the domain",
 "One test file has points outside; where they lie (below the first point, left or right of everything, in a notch, in a hole) decides which part of the sweep they disturb.",
 [SW],
 [("search for the first interior triangle","src/sweeper.rs: finalize_polygon"),("flood fill up to the constrained edges","src/sweeper.rs: clean_mesh")],
 ["CDT::triangulate"]),
P("C07","The result does not depend on how the input is written down",
 "Starting a polyline at another of its points, reversing its direction, reordering the holes or reordering the steiner points gives the same set of triangles wherever the constrained Delaunay triangulation of the input is unique, and a correct one of the same domain otherwise.",
 ["inputs"],IN+"; every start, both directions, reversed hole order, reversed and rotated steiner order",
 "No test triangulates the same figure twice in different notation.",
 ["src/points.rs","src/cdt.rs",SW,"src/shape.rs"],
 [("order of the sweep by (y, x)","src/points.rs: Points::new, Point::cmp"),("edge direction from the lower to the upper end","src/shape.rs: Edge::new"),("ring edges","src/cdt.rs: parse_polyline")],
 ["CDT::triangulate"]),
P("C08","Builder calls map one to one to points, ids and user data",
 "For every sequence of builder calls (steiner points and holes one by one, in batches, with empty batches, clones of the builder in between) the result lists exactly the points given, in the order in which they were given, with the user data given for each at the same position; vertex ids in the triangles are these positions. Batches are equivalent to the single calls, a cloned builder or triangulation gives the same result as the original, and every piece of user data is dropped exactly once.",
 ["histories","inputs"],"all sequences of builder calls up to a depth; data sources with and without user data",
 "The tests use one or two call orders; the association of ids, points and data after interleaved holes, steiner points and clones is never looked at.",
 ["src/cdt.rs","src/lib.rs","src/points.rs"],
 [("ids in order of insertion","src/cdt.rs: Builder"),("data sources","src/lib.rs: PointDataSource, AsPoint"),("auxiliary points appended behind all points","src/points.rs: Points::new")],
 ["Builder","Triangles::points","Triangles::data","Triangles::triangle_list_indices"]),
P("C09","All ways to read a result agree",
 "For every result and every sequence of read calls, iterating the triangles, listing their indices, and reading points and data describe the same triangles: the k-th triangle of the iteration has the coordinates of the k-th index triple, the iterator yields each triangle exactly once and then only None, its size hint is true, and reading indices, points or data neither advances it nor is changed by it.",
 ["histories"],"all sequences of read calls up to a depth, on results of several inputs",
 "The tests collect each result once, in one way.",
 ["src/cdt.rs","src/lib.rs"],
 [("iterator state","src/cdt.rs: Triangles::next"),("index list","src/cdt.rs: Triangles::triangle_list_indices")],
 ["Triangles"]),
P("C10","Observer callbacks follow their protocol and do not interfere",
 "For every valid input an observer sees one enter and one exit event per point except the lowest, in the order of the sweep (by y, then x), each followed by exactly one edge event per polyline edge that ends there (lower end first), legalization events properly bracketed within these, then the end of the sweep with an empty result, then the finalized event with exactly the triangles that are returned. Between two legalization callbacks triangles change only by the announced rotation, which swaps the diagonal of the two named triangles; and the result does not depend on whether, or by whom, the run is observed.",
 ["inputs","histories"],IN+"; every callback of each run",
 "One test counts rotations for one file; the order, the completeness and the truth of the callbacks are untested.",
 ["src/cdt.rs",SW],
 [("callbacks","src/cdt.rs: Observer, src/sweeper.rs: callers"),("blank observer","src/cdt.rs: impl Observer for ()")],
 ["CDT::triangulate_with_observer","Observer"]),
P("C11","Every sweep state an observer sees is a consistent triangulation",
 "At every point event, edge event and legalization callback of every valid input the state of the sweep is consistent: triangles are never clockwise and meet edge to edge, neighbour links are symmetric and complete, constraint marks are exactly the processed polyline edges on both sides, and the advancing front is the x-ordered chain of uncovered edges that links to the triangles below it. At point and edge events all unconstrained edges are locally Delaunay, and at the end the result is the region bounded by constraint edges.",
 ["inputs","histories"],IN+"; every state visible to an observer",
 "The tests look at final results only; a wrong link or mark that happens to be repaired or unused in the test files stays unseen.",
 [SW,"src/triangles.rs","src/shape.rs","src/advancing_front/vec_backed.rs"],
 [("neighbour links","src/triangles.rs: mark_neighbor, src/sweeper.rs: rotate_triangle_pair, map_triangle_to_nodes"),("edge marks","src/shape.rs: EdgeAttr"),("front maintenance","src/advancing_front/vec_backed.rs: insert, update_triangle, update_and_delete_by_index")],
 ["Observer callbacks: Sweeper::triangles, Sweeper::advancing_front, Sweeper::result, Sweeper::points"],
 [("triangle store","triangles with neighbour links and edge marks","src/triangles.rs"),("advancing front","upper boundary of the triangulated region","src/advancing_front/vec_backed.rs")]),
P("C12","Triangulations do not influence each other",
 "The result of a triangulation depends on its own input alone: it is the same after any history of other triangulations in the process (including failed ones and ones ended by a panic), inside of a callback of another one, concurrently with others in other threads under any interleaving, and when it is repeated.",
 ["histories","schedules"],"all histories up to a depth, all nesting positions, all schedules of two threads at callback granularity up to a preemption bound, at instruction granularity for small inputs",
 "Each test runs one triangulation and never compares it with a run in another context.",
 ["src/cdt.rs",SW,"src/advancing_front/vec_backed.rs"],
 [("all state owned by the run","src/cdt.rs: triangulate_with_observer, src/sweeper.rs: Sweeper::new"),("front lookup cache","src/advancing_front/vec_backed.rs")],
 ["CDT::triangulate","CDT::triangulate_with_observer"]),
P("C13","The file loader loads exactly what is written, or reports an error",
 "Loading a well-formed file gives exactly its polyline, holes and steiner points, in file order and with correctly rounded coordinates, whatever the line endings, blank lines and spacing; loading a malformed or unreadable file returns an error and never panics; nothing is carried over from one file to the next.",
 ["inputs","histories"],"all files built from the format's elements up to a size, all single-line corruptions of them, all short byte strings, unreadable paths, all sequences of files on one loader",
 "The tests load the eleven well-formed files of the repository.",
 ["src/loader.rs"],
 [("line parser","src/loader.rs: PlainFileLoader::load, parse_point"),("error type","src/loader.rs: LoaderError")],
 ["loader::Loader::load"]),
P("C14","The result follows the figure when it is moved, scaled, turned or mirrored",
 "Scaling an input by a power of two, moving it, turning it by a multiple of 90 degrees or mirroring it, all exactly in floating point, gives the corresponding triangles wherever the constrained Delaunay triangulation is unique, and a correct triangulation of the transformed domain otherwise.",
 ["inputs"],IN+"; scales from 2^-100 to 2^120, moves up to 2^40 times the extent's unit",
 "Tests use figures of screen size at one position; absolute thresholds, cancellation and direction-dependent code show only for other scales and orientations.",
 ["src/utils.rs","src/points.rs",SW],
 [("predicates without absolute thresholds","src/utils.rs: orient_2d, in_circle, in_scan_area, Angle"),("auxiliary points scaled with the bounding box","src/points.rs: Points::new")],
 ["CDT::triangulate"]),
P("C15","All geometric guarantees hold with 32 bit coordinates",
 "Built with 32 bit coordinates, triangulating every valid input (all coordinates exact in 32 bits) returns a result: counter-clockwise triangles that tile the domain exactly, contain every polyline edge, are constrained Delaunay, and use exactly the polyline vertices and the interior steiner points.",
 ["inputs","configurations"],IN+"; the f32 feature",
 "No test is built with the f32 feature.",
 ["src/utils.rs","src/points.rs","src/shape.rs","src/lib.rs",SW],
 [("coordinate type","src/lib.rs: Float"),("predicates evaluated in 64 bit","src/utils.rs: orient_2d, in_circle")],
 ["CDT::triangulate with feature f32"]),
P("C16","Safe calls never access memory out of bounds",
 "Whatever points, holes and steiner points are handed to the safe API, valid or not (duplicate points, crossing or degenerate polylines, steiner points on edges), triangulating them does not read or write memory out of bounds, read uninitialised memory or break the contract of an unchecked operation: it returns or panics. The same holds for every sequence of the other safe calls: building, reading results in any order and past their end, querying the sweep state from an observer, verification and loading files.",
 ["inputs"],"all sequences of lattice points up to a size as polyline, hole and steiner points, valid or not; all sequences of builder, read and loader calls up to a depth; all front and store queries in every sweep state",
 "The code indexes through raw pointers and unchecked operations; an out-of-bounds access goes unnoticed in a test that passes, and no test uses invalid input.",
 ["src/triangles.rs","src/points.rs",SW,"src/advancing_front/vec_backed.rs"],
 [("unchecked access to triangles and points","src/triangles.rs: get_unchecked, get_mut_two, get_mut_six; src/points.rs: get_point_uncheck"),("front index","src/advancing_front/vec_backed.rs: get_node_with_id")],
 ["Builder","CDT::triangulate","Triangles","Observer","Loader"]),
P("C17","The verification helpers answer exactly",
 "At every state an observer sees, for every valid input, the list of illegal triangle pairs that the sweep context offers is exactly the list of pairs of triangles sharing an unconstrained edge where the far vertex lies strictly inside of the first one's circumcircle, and the yes/no verification is true exactly when that list is empty.",
 ["inputs","histories"],IN+"; every state visible to an observer, including the ones in the middle of a legalization, which are not Delaunay",
 "The tests only ever call the helpers on finished, correct triangulations, for which a helper that always says yes passes.",
 [SW,"src/utils.rs"],
 [("verification","src/sweeper.rs: verify_triangles, illegal_triangles"),("in-circle predicate","src/utils.rs: in_circle")],
 ["Sweeper::verify_triangles","Sweeper::illegal_triangles"]),
P("C18","The guarantees hold for large inputs too",
 "Triangulating a valid input of any size (thousands to tens of thousands of points, thousands of holes, deeply nested notches, long degenerate chains) returns a result: triangles that tile the domain exactly, contain every polyline edge, are constrained Delaunay and use exactly the polyline vertices and interior steiner points; stack use does not grow with the input beyond what a default thread has.",
 ["inputs"],"every size of a range, for each of a set of structured shapes, plus selected sizes up to tens of thousands of points",
 "The largest test file has about a thousand points; recursion depth, caches, capacity estimates and index widths depend on size.",
 [SW,"src/advancing_front/vec_backed.rs","src/triangles.rs","src/points.rs"],
 [("explicit work stacks instead of recursion","src/sweeper.rs: legalize, clean_mesh"),("front lookup by binary search and cache","src/advancing_front/vec_backed.rs"),("capacity estimates","src/triangles.rs: with_capacity")],
 ["CDT::triangulate"]),
P("C19","Queries on the advancing front answer for the state they are asked in",
 "At every state an observer sees, for every valid input and whatever was asked before, the read-only queries of the advancing front agree with a plain left to right listing of its nodes: nth, iteration, next and previous node, lookup by id and lookup by x coordinate find exactly the node the listing has there, or none where it has none; an id remembered from an earlier state finds the node with that point if it is still on the front and none otherwise; and asking never changes the result of the triangulation.",
 ["inputs","histories"],IN+"; every state visible to an observer, ids from the current and from earlier states",
 "No test asks the front anything; the lookups are accelerated by remembered positions and binary search, and whether a remembered position is still right depends on what happened to the front since.",
 ["src/advancing_front/vec_backed.rs","src/advancing_front/mod.rs",SW],
 [("lookup by point and by id","src/advancing_front/vec_backed.rs: search_by_key, locate_node, get_node, get_node_with_id"),("neighbours on the front","src/advancing_front/vec_backed.rs: locate_next_node, locate_prev_node")],
 ["Sweeper::advancing_front","AdvancingFront"]),
P("C20","Queries on the stores of points and triangles tell the truth",
 "At every state an observer sees, for every valid input, the queries on the store of points and on triangles agree with the raw data: points by id, the sweep order (by y, then x, every point exactly once), which points are auxiliary, membership of points and ids; and for each triangle its corners, its neighbours, its edges and their constraint marks by index and by end points, in either direction, with none for what the triangle does not have.",
 ["inputs","histories"],IN+"; every state visible to an observer, all triangles and all points and ids of small states",
 "The unit tests call a few of these accessors on one hand-made triangle; most combinations of corner, neighbour and edge are never asked.",
 ["src/points.rs","src/triangles.rs","src/shape.rs"],
 [("point store","src/points.rs: Points"),("triangle accessors","src/shape.rs: InnerTriangle")],
 ["Sweeper::points","Sweeper::triangles"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p,s)
