import json,sys
def w(id,title,statement,quantifier,why,files,mech,tech,note,over=["inputs"],**k):
    d=dict(id=id,title=title,statement=statement,over=over,quantifier=quantifier,why=why,files=files,mechanism=mech,technique=tech,level_note=note,**k)
    json.dump(d,open(f'/verif/tools/props/{id}.json','w'),indent=1)
RF=["src/planar/triangulator.rs","src/planar/refine_procedures/encroachment.rs","src/planar/refine_procedures/triangle_split.rs","src/planar/triangulation_procedures/vertices.rs"]
RM=[["Triangulator::refine","src/planar/triangulator.rs"],["unencroach, unencroach_segments, split_segment","src/planar/refine_procedures/encroachment.rs"],["split_irregular, try_circumcenter_insertion","src/planar/refine_procedures/triangle_split.rs"]]
Q="all domains whose constraints meet at more than 45 degrees, with a quality ratio of 1.42 or more and any or no area bound; and every hash iteration order"
N="Sampled, not exhaustive: domains of up to about 40 vertices, extent 6 to 64, area bounds down to 1/64 of the domain; computed vertices are rounded, so comparisons allow a relative 1e-9. Sharper corners with smaller ratios are outside the claim (Ruppert refinement need not end there, and this one does not)."
w("C17","Refinement keeps every input vertex and constraint","Refining a triangulated domain (constraints meeting at more than 45 degrees and a quality ratio of 1.42 or more; or corners down to 5 degrees and a ratio of at least 1.42 and 0.71 over the sine of the sharpest one) never removes an input vertex, and every boundary edge, hole edge and segment stays in the mesh as a chain of edges lying on it.",Q,"Refinement repeatedly removes triangles, splits constraints at midpoints and rolls insertions back; whether a constraint is ever lost depends on the order and geometry of all splits, far beyond the three fixed domains of the tests.",RF,RM,"generated domains and bounds, coverage of each constraint by mesh edges, shrinking",N)
w("C18","Refinement keeps a valid mesh of the same domain","Refining a triangulated domain (constraints meeting at more than 45 degrees and a quality ratio of 1.42 or more; or corners down to 5 degrees and a ratio of at least 1.42 and 0.71 over the sine of the sharpest one) terminates without panic, and the resulting solid triangles are counterclockwise, never overlap, and still cover exactly the boundary's interior minus the holes; edge adjacency agrees with the triangles and ghost triangles close the border.",Q,"A single circumcenter inserted behind a segment, one rollback that misses a triangle, or a split that loses a ghost triangle opens gaps or overlaps which only some domains and orders reach.",RF,RM,"generated domains and bounds, area and edge-matching oracle, shrinking",N)
w("C19","Refined triangles meet the quality and area bounds","After refinement of a domain (constraints meeting at more than 45 degrees and a quality ratio of 1.42 or more; or corners down to 5 degrees and a ratio of at least 1.42 and 0.71 over the sine of the sharpest one), every solid triangle's circumradius over shortest edge is at most the quality ratio and its area at most the maximum area, if given.",Q,"The bounds are the purpose of refinement and quantify over every triangle of every refinable domain; tests compare a few triangles of fixed meshes.",RF,RM,"generated domains and bounds, quality and area recomputed from coordinates, shrinking",N)
w("C20","No constraint stays encroached","After refinement of a domain (constraints meeting at more than 45 degrees, quality ratio 1.42 or more), no constrained edge sees the apex of an adjacent triangle inside its diametral circle.",Q,"Every split may encroach other subsegments; whether the propagation reaches all of them depends on the domain and order.",RF,RM,"generated domains and bounds, obtuse-apex oracle over constrained edges, shrinking",N)
w("C21","Refinement acts exactly when bounds are broken","A triangulation already within the bounds and with no encroached constraint is left unchanged by refinement; one with a triangle beyond the bounds gains vertices; and refining again with the same or looser bounds changes nothing.",Q,"Idempotence relates two runs of the refinement over arbitrary meshes, for any bounds; no test runs refine twice.",RF,RM,"generated domains, metamorphic relation between successive refinements, shrinking",N,over=["inputs","histories"])
w("C22","Refinement keeps the constrained Delaunay property","After refinement of a domain (constraints meeting at more than 45 degrees and a quality ratio of 1.42 or more; or corners down to 5 degrees and a ratio of at least 1.42 and 0.71 over the sine of the sharpest one), every unconstrained edge is locally Delaunay, up to the rounding of computed vertices.",Q,"Each inserted vertex replaces a cavity; a cavity one triangle short or long breaks the property only for particular neighbourhoods.",RF,RM,"generated domains and bounds, in-circle oracle over every interior edge, shrinking",N)

TF=["src/planar/triangulator.rs","src/elements/polyline.rs","src/elements/edge.rs"]
w("C16","Insertions are all-or-nothing and keep a planar arrangement","Over any history of insert_vertices, insert_segments and insert_hole (on convex holes; no two segments overlapping along a line), a call is refused exactly when some element conflicts with the boundary, a hole or (for holes) a segment, and then returns exactly the conflicting set and changes nothing; otherwise all elements are kept: segments are cut at every crossing and at every vertex lying on them, vertices on segments are not kept as free vertices, vertices covered by a new hole are dropped, and nothing else changes.",
"all histories of up to 12 insertions on convex and nonconvex boundaries, with crossing, touching and connected segments, vertices on segments and invalid elements anywhere","The tests insert one batch into a fresh triangulator; the outcome depends on everything inserted before, in every order.",TF,[["insert_vertices, insert_segments, insert_hole","src/planar/triangulator.rs"],["split_intersections, Polyline::continence","src/elements/polyline.rs"]],"stateful generation against an exact model of the accepted elements, shrinking","Sampled, not exhaustive: grid coordinates (extent 4 to 32), crossings compared within 1e-9; cases where rounding decides what touches what are left out.",over=["histories","inputs"])
w("C10","Any history of insertions triangulates","After any history of insertions, refused ones and earlier triangulations included, triangulate gives a valid mesh (counterclockwise, without overlaps, covering exactly the boundary minus the holes, consistent adjacency) that contains every kept vertex and has every kept segment as edges.",
"all histories of up to 12 steps of insertions, refusals and triangulations, with segments that cross, touch and share ends","The tests triangulate freshly built domains whose parts do not interact; histories make segments meet at computed points and elements appear between triangulations.",TF+["src/planar/triangulation_procedures/segment.rs","src/planar/triangulation_procedures/vertices.rs"],[["Triangulator::triangulate","src/planar/triangulator.rs"]],"stateful generation, exact mesh oracle, shrinking","Sampled, not exhaustive: grid coordinates (extent 4 to 32).",over=["histories","inputs"])

PR="src/properties/"
EX="Sampled, not exhaustive: "
w("C01","Geometric predicates give the exact sign for every position of the points","orientation, the in-circle test (continence, Triangle::encircles) and the diametral-circle test (encroach) return the class of the exact determinant - strictly one side, strictly the other, or on the line or circle - for all finite coordinates, at every scale from 1e-7 to 1e6, wherever the points lie relative to the origin; rotating the arguments does not change the answer, swapping two of them reverses the orientation. A triangle with a ghost vertex encircles exactly what lies counterclockwise of its solid edge.",
"all triples and quadruples of points whose determinant is exactly representable, collinear, cocircular and right-angled ones included, and all full-precision ones whose determinant exceeds rounding error",
"Every structural decision of the triangulation rests on these signs; a wrong one needs nearly degenerate points or points far from the origin, of which tests hold a handful.",
[PR+"orientation.rs",PR+"continence.rs",PR+"encroachment.rs","src/elements/triangle.rs"],
[["orientation",PR+"orientation.rs"],["continence",PR+"continence.rs"],["encroach",PR+"encroachment.rs"],["Triangle::encircles","src/elements/triangle.rs"]],
"generated points (grids, collinear, cocircular, right angles, at scales from 2^-24 to 2^16, full precision), exact rational arithmetic as oracle, shrinking",EX+"values that are not zero but below 2e-14, or below 3e-14 of the largest coordinate times the extents, are left to the code's tolerance.")
w("C02","Measures of points, segments, triangles and polygons are right","distance, length, midpoint, dot, parallel, center, circumcenter, radius over shortest edge (quality), signed area and orientation of polygons, and counterclockwise angles (0 to 360 degrees, reflex ones included) agree with their definitions; a collinear triple has no circumcenter, a triangle with a ghost vertex has no area, circumcenter, quality or outline, and the midpoint with the ghost is the ghost.",
"all finite coordinates at scales from 1e-7 to 1e6, near and far from the origin","Refinement decides by these numbers; errors show only for particular shapes (reflex, nearly straight, far from the origin) which a few fixed triangles do not have.",
[PR+f for f in ["angle.rs","area.rs","center.rs","circumcenter.rs","distance.rs","dot.rs","midpoint.rs","parallel.rs"]]+["src/elements/triangle.rs","src/elements/edge.rs"],
[["angle",PR+"angle.rs"],["circumcenter",PR+"circumcenter.rs"],["area_segments",PR+"area.rs"],["Triangle::quality","src/elements/triangle.rs"]],
"generated points, independent formulas as oracle (rational for areas), shrinking",EX+"relative tolerance 1e-9; slivers flatter than 1e-4 are left out for circumcenter and quality.")
w("C03","Segment intersection is found exactly when segments meet","intersection of two segments reports a vertex exactly if the closed segments have a point in common; a single common point is reported at its place, an end vertex exactly if the segments meet there, and for overlapping segments the point lies on both; the answer does not depend on the order of the segments or the direction of either.",
"all pairs of segments: crossing, touching at ends or in the middle, parallel, overlapping, apart","Touching and overlapping are boundary cases of continuous inequalities; each combination of directions and orders takes another path.",
[PR+"intersection.rs",PR+"parallel.rs"],[["intersection",PR+"intersection.rs"]],"generated segments (grids, touching, parallel, full precision), exact arithmetic as oracle, shrinking",EX+"crossings compared within 1e-9 relative; full-precision segments only when no end is nearly on the other segment.")
w("C04","Equality and hashing agree, and triangles are oriented cycles","Equal vertices, edges, triangles and polylines have equal hashes (0 and -0 included); a triangle equals its rotations and only them, so sets and maps find it whatever vertex it starts at; an edge equals its opposite only if degenerate; the ghost vertex equals only itself; open and closed polylines differ. inner and outer edges, opposite vertices and opposite edges of a triangle are consistent. An edge is an open polyline of its ends, none with the ghost; into_hashmap lists exactly the edges by first and by second vertex.",
"all values built from generated coordinates, and every rotation and reversal","The triangulation is kept in hash sets: one pair of equal values with different hashes loses a triangle, and which one depends on signs and rotations.",
["src/elements/vertex.rs","src/elements/edge.rs","src/elements/triangle.rs","src/elements/polyline.rs"],
[["Hash and PartialEq for Vertex","src/elements/vertex.rs"],["Hash and PartialEq for Triangle","src/elements/triangle.rs"]],"generated values, laws of equality and hashing, shrinking",EX+"vertices are equal or at least 2^-10 apart: equality within 1e-14 is not followed by the hash (documented limitation).")
w("C05","Sorting, coordinate conversion and bounding boxes are faithful","Vertices sort by x, then y; from_coordinates, from_vertices, into_vertex_pairs, from_vertex_pairs and into_edges keep all vertices in order and close rings exactly when they should; a bounding box is the smallest one around its vertices, contains exactly the points within its closed range, and union and intersection of boxes are those of the point sets, intersection existing exactly if the closed boxes meet.",
"all lists of up to 12 vertices and pairs of boxes, degenerate and touching ones included","Orders and boxes decide the output numbering and every early exit of the polygon operations; ties and touching boxes are the cases tests do not sample.",
["src/elements/vertex.rs","src/elements/edge.rs","src/elements/bounding_box.rs","src/elements/polyline.rs"],
[["Vertex::sort, Ord","src/elements/vertex.rs"],["BoundingBox","src/elements/bounding_box.rs"]],"generated lists, reference model, shrinking",EX+"finite coordinates, no ghost vertex.")
w("C06","Point in polygon is right for every point and every simple polygon","Polyline::contains on a closed polyline says Inside, Boundary or Outside exactly as the point lies, for every simple polygon of either direction, also for points level with vertices or on the extension of edges; an open polyline gives no answer.",
"all simple polygons (convex, nonconvex, with straight vertices and axis-parallel edges) and all points","Ray casting fails for points level with particular vertices and edges, which depend on the polygon.",
["src/elements/polyline.rs"],[["Polyline::contains","src/elements/polyline.rs"]],"generated polygons and probes aligned with their vertices, exact oracle, shrinking",EX+"dyadic coordinates, polygons of up to about 25 vertices; points closer than rounding to the boundary may count as on it.")
w("C07","Relative position of polylines is right, touching included","Polyline::continence of an open or closed polyline in a closed one says Inside, Outside or along the Boundary exactly if all of it (apart from touching points) lies there, none if it crosses to both sides, and Open or Closed exactly if it stays clear of the boundary or touches it; an open container gives no answer.",
"all pairs of simple polygons and open chains: apart, nested, touching at vertices and along edges, crossing","The outcome is decided piece by piece between all meetings of the two polylines; combinations of touching and crossing are unlimited.",
["src/elements/polyline.rs"],[["Polyline::continence","src/elements/polyline.rs"]],"generated pairs of polylines, exact piecewise oracle, shrinking",EX+"grid coordinates; meeting points within rounding of each other are left out.")
w("C08","Union, intersection and subtraction of polygons are those of the regions","union, intersection and subtraction of two simple counterclockwise polygons give outlines whose enclosed region is that of the set operation, with the right area and every sample point on the right side; regions apart have no union and no intersection. Sides may be shared or flush. Where the outlines cross properly, the pieces of them that are not on the result are returned beside it, all of them and nothing else.",
"all pairs of convex polygons, boxes, rectilinear polygons with shared sides, and nonconvex polygons whose boundaries cross properly","The operations stitch pieces of both outlines; each configuration of crossings, shared sides and enclosures takes another path, and tests draw a few.",
["src/elements/polyline.rs"],[["Polyline::union, intersection, subtraction","src/elements/polyline.rs"]],"generated pairs of polygons, area and membership oracle, cell decomposition for shared sides, shrinking",EX+"results that touch themselves at a point, and regions one of which is strictly inside the other (subtraction), are outside the claim; for nonconvex pairs the union of a region with enclosed gaps is its outline.")
w("C09","Splitting segments at their meetings and joining them again loses nothing","split_intersections replaces every segment by its pieces between all points where it meets another one (crossing, touching or overlapping), in its own direction, no piece missing, extra or cut wrongly; pieces that meet share the vertex. Edge::arrange joins collinear runs of edges to maximal edges, Edge::decompose gives back exactly the run of edges an edge consists of or nothing if one is missing, and Edge::contains is exact.",
"all sets of up to 7 segments, several through one point and overlapping ones included; all chains of edges","The number of cuts on a segment and their order vary with all other segments; tests cross two or three.",
["src/elements/polyline.rs","src/elements/edge.rs"],[["split_intersections","src/elements/polyline.rs"],["Edge::arrange, decompose, contains","src/elements/edge.rs"]],"generated segments, reference cuts, round trip of splitting and joining, shrinking",EX+"meetings between 1e-11 and 1e-7 apart on a segment are left out.")
w("C15","Outlines are assembled exactly from loops of edges and triangles","Polyline::arrange turns the edges of one loop, in any order, into that closed polyline and refuses open chains, several loops and nothing; triangles_hull gives the outline of a set of triangles exactly if its border is one simple loop; minified_noncolinear drops exactly the vertices in the middle of straight sides.",
"all simple polygons, all subsets of triangles of lattice patches, and every hash iteration order","Cavities of removed triangles take any shape; the order in which edges come out of a set is random.",
["src/elements/polyline.rs"],[["Polyline::arrange, triangles_hull, minified_noncolinear","src/elements/polyline.rs"]],"generated loops and patches, reference outline, shrinking",EX+"up to about 25 vertices, patches of up to 32 triangles.")

CF=["src/main.rs","src/json_serializar/","src/triangulator_interface/","src/planar/triangulator.rs"]
CM=[["main","src/main.rs"],["parse","src/triangulator_interface/mod.rs"],["action parsers","src/triangulator_interface/interpreter/"],["boundary, holes","src/triangulator_interface/domain_evaluator.rs"],["TriangulationOutput::from_triangulator","src/json_serializar/models/output.rs"]]
w("C23","The command line tool outputs a correct mesh of the domain it is given","For a JSON input that describes a valid domain (an included outline, removals inside it, segments, vertices; constraints meeting at more than 45 degrees, quality ratio 1.42 or more), in whatever order its actions, points and optional fields are given, the tool exits with 0 and writes a JSON file (or prints it, without -o) with the input's id and name, in which the triangles refer by index to coordinates that are all used and all distinct, are counterclockwise, cover exactly the domain, contain every given vertex and constraint, meet the quality and area bounds and leave no constraint encroached.",
"all input files of that form: shuffled actions, indexed or implicit assembly, optional fields and z coordinates given or not, and every hash iteration order","The tests parse a few snippets and never run the tool; the output depends on hash sets being written and indexed in the same order, on every run.",CF,CM,"generated input files run through the built tool under seeded hash keys, mesh oracle on the parsed output, shrinking","Sampled, not exhaustive: domains of up to about 40 vertices; one process per case, 40 s of processor time count as not terminating. The OpenGL window (--show) is not run.")
w("C24","Included and removed solids compose to exactly the region they describe","Given included and removed polylines in any number and order, the tool meshes exactly the union of the included solids minus the removed ones (shared sides merge, removals that cross the border cut it, removals inside become holes and holes that meet are united), and refuses the input exactly when that region is not connected or nothing is included.",
"all arrangements of up to 7 rectilinear solids on a grid, with shared sides, overlaps, containment and removals over the border, and every hash iteration order","How solids meet decides which of union, subtraction or hole applies, and intermediate results depend on the order; the space of arrangements is combinatorial, and no test composes more than two.",CF+["src/elements/polyline.rs"],CM+[["Polyline::union, Polyline::subtraction","src/elements/polyline.rs"]],"generated arrangements, cell decomposition as exact reference, shrinking","Sampled, not exhaustive: arrangements whose pieces meet at a corner only, enclose gaps, or are removed again after being split off, and removals that cover everything, are left out, as the tool documents no meaning for them.")
w("C25","Invalid input is refused without a trace","Any input that is not valid (malformed JSON, missing or wrong fields, too few points, indices out of range, unknown actions or geometries, elements outside of the domain or on holes, domains that are empty, disconnected or split, unreadable or unwritable files, wrong options) makes the tool end with a nonzero status, print nothing on standard output, leave an existing output file untouched and create no file.",
"all valid inputs with one flaw out of 40 kinds put anywhere into them","Each check stands at a different stage and a flaw must be found wherever it is; silently meshing a wrong domain is the worst outcome for a user.",CF,CM,"mutation of generated valid inputs, process status and file system as oracle, shrinking","Sampled, not exhaustive: one flaw at a time.")
w("C26","Circles and their combinations are meshed as asked","For included and removed circles (any position, radius and resolution, 100 corners unless given) and polygons, the tool outputs a mesh that covers exactly the union of the included outlines minus the removed ones, has every outline corner that lies on the region's border as a vertex, and meets the quality and area bounds.",
"all one or two included circles, crossing or one inside the other, with up to two removed circles or polygons inside, resolutions of 3 to 100, quality 1.5 or 2 and area bounds; and every hash iteration order","Corners of circles are rounded, so midpoints and crossings are off their lines by some bits: whether that breaks the mesh depends on the digits of each coordinate.",CF+["src/planar/refine_procedures/encroachment.rs","src/planar/triangulation_procedures/vertices.rs"],CM+[["get_circle_point","src/triangulator_interface/interpreter/circle_parser.rs"]],"generated circle compositions run through the built tool, region and bounds oracle on the output, shrinking","Sampled, not exhaustive: outlines cross clearly or stay apart; 1e-9 relative tolerance.")

w("C27","The triangulation holds exactly its triangles, edges and vertices","Over any history of including and removing triangles (no two on the same side of an edge), a Triangulation holds exactly the triangles included and not removed, whatever vertex they start at; including a present one or removing a missing one answers false and changes nothing; each of its edges is mapped to its triangle and no other edge is; vertices() and edges() are exactly those of the triangles, without the ghost as a vertex.",
"all histories of up to 40 inclusions and removals of triangles and outer triangles between 6 vertices","The tests include two triangles and look once; the agreement of set and adjacency must survive every order of changes, as refinement rolls insertions back.",["src/planar/triangulation.rs","src/elements/triangle.rs","src/elements/edge.rs"],[["include_triangle, remove_triangle","src/planar/triangulation.rs"]],"stateful generation against a model of plain triples, shrinking","Sampled, not exhaustive: 6 vertices in fixed positions.",over=["histories"])
w("C28","Triangulations grow step by step and stay correct","Including vertices, batch by batch and anywhere, into a triangulation without boundary keeps it the Delaunay triangulation of their convex hull; including segments between them makes these edges and keeps it constrained Delaunay; including vertices into the finished triangulation of a domain keeps that one tiling its domain, constrained Delaunay, with all vertices, constraints and outer triangles; and the triangles reported as included and removed account for every change.",
"all sets of points in any batches, repeated points and points on or outside the hull included, any segments between them that do not touch; all domains with vertices added later; every hash iteration order","The tests include a few vertices into one fixed triangulation; the cavity of each vertex depends on all that was included before, and refinement trusts the reported changes.",["src/planar/triangulation_procedures/vertices.rs","src/planar/triangulation_procedures/segment.rs","src/planar/triangulation.rs"],[["vertices::include, solve_conflicts","src/planar/triangulation_procedures/vertices.rs"],["segment::include","src/planar/triangulation_procedures/segment.rs"]],"generated batches and domains, exact mesh oracle after every step, shrinking","Sampled, not exhaustive: up to about 30 points on grids; the second vertex included is not in line with the first two.",over=["inputs","histories"])
w("C29","Encroachment is found, split away and reported exactly","distribute_encroachments lists for each constraint exactly the vertices inside its diametral circle; unencroach leaves no encroached constraint, reports exactly the triangles it included and removed, and reports the new segments with the constraint each is part of, so that these parts are edges and cut that constraint from end to end; split_irregular, given the resulting constraints, reaches the bounds and reports exactly the segments that replace split ones.",
"all domains whose constraints meet at more than 45 degrees, turned ones included, with a quality ratio of 1.42 or more and any or no area bound; and every hash iteration order","The tests split one segment of one triangulation; a lost or extra part of a constraint shows only where splits cascade.",["src/planar/refine_procedures/encroachment.rs","src/planar/refine_procedures/triangle_split.rs"],[["unencroach, unencroach_segments, distribute_encroachments","src/planar/refine_procedures/encroachment.rs"],["split_irregular","src/planar/refine_procedures/triangle_split.rs"]],"generated domains, reported changes compared with the triangulation before and after, shrinking",N)
w("C30","Meeting points of two outlines are all found, and only they","intersection_vertices of two polylines (closed or open) is exactly the set of points they have in common, each once, end vertices exactly as they are; where they share a stretch, points of it are found; it is empty exactly if they do not meet, and does not depend on their order.",
"all pairs of simple polygons, or a polygon and an open polyline, apart, crossing, touching or sharing stretches, turned ones included","Refused insertions report these points, and what is refused depends on whether any is found; the tests look at one pair.",["src/elements/polyline.rs","src/properties/intersection.rs","src/elements/bounding_box.rs"],[["Polyline::intersection_vertices","src/elements/polyline.rs"],["intersection","src/properties/intersection.rs"]],"generated pairs made to touch, exact arithmetic as oracle, shrinking","Sampled, not exhaustive: polygons of up to 10 vertices on grids; crossings compared within 1e-9 of the extent.")
