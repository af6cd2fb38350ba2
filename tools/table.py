prop('P01', 'Orientation is the sign of the signed area',
     'For any three vertices the orientation is counterclockwise, colinear or clockwise exactly when twice their signed area is positive, zero or negative. '
     'It is unchanged by rotating the three vertices or translating them, and flips when two are swapped.',
     ['inputs'], 'every triple of vertices with coordinates within the grid bounds, colinear ones included',
     'The unit tests try a handful of fixed triples; the property is over all coordinates, and a degenerate or almost degenerate triple is exactly what they do not sample.',
     ['src/properties/orientation.rs'], [('cross product with tolerance 1e-14', 'src/properties/orientation.rs: orientation')], ['orientation'])
prop('P02', 'The in-circle test has the sign of the exact determinant',
     'For a counterclockwise triangle and any vertex, the in-circle test answers inside, boundary or outside exactly when the vertex is inside, on or outside the circumscribed circle. '
     'The answer does not depend on which corner of the triangle comes first, and cocircular vertices are on the boundary.',
     ['inputs'], 'every counterclockwise triangle and every vertex with coordinates within the grid bounds',
     'The tests check a few hand-made triangles; cocircular and nearly cocircular vertices, which decide whether a triangulation is Delaunay, are measure zero among samples.',
     ['src/properties/continence.rs'], [('determinant of lifted coordinates', 'src/properties/continence.rs: continence')], ['continence', 'Triangle::encircles'])
prop('P03', 'Segments intersect exactly when they share a point',
     'Two segments of positive length have an intersection exactly when they share a point, and then the returned vertex lies on both of them. '
     'The answer does not depend on the direction or order of the segments.',
     ['inputs'], 'every pair of segments of positive length with coordinates within the grid bounds: crossing, touching, overlapping, colinear, parallel and apart',
     'Tests cover a dozen fixed pairs; the case split over parallel, colinear, touching and crossing positions has far more combinations.',
     ['src/properties/intersection.rs', 'src/properties/parallel.rs'], [('line parameters and interval tests', 'src/properties/intersection.rs: intersection')], ['intersection'])
prop('P04', 'The circumcenter is equidistant, and exists unless colinear',
     'Three vertices have a circumcenter exactly when they are not colinear. It is at the same distance from each of the three.',
     ['inputs'], 'every triple of vertices with coordinates within the grid bounds',
     'Tests compare with precomputed centres of a few triangles.',
     ['src/properties/circumcenter.rs'], [('bisector solution', 'src/properties/circumcenter.rs: circumcenter')], ['circumcenter', 'Triangle::circumcenter'])
prop('P05', 'Areas, distances, angles, encroachment and parallelism are exact',
     'Areas of triangles and closed chains, dot products, midpoints and distances are those of Euclidean geometry, parallel means a vanishing cross product, and an angle is measured counterclockwise between 0 and a full turn. '
     'A vertex encroaches a segment exactly when it lies inside its diametral circle, whatever the direction of the segment.',
     ['inputs'], 'every tuple of vertices with coordinates within the grid bounds',
     'Tests fix a few values each; quadrant and degenerate cases of the angle, and points on the diametral circle, are not sampled.',
     ['src/properties/area.rs', 'src/properties/dot.rs', 'src/properties/distance.rs', 'src/properties/angle.rs', 'src/properties/encroachment.rs', 'src/properties/midpoint.rs', 'src/properties/parallel.rs'],
     [('encroachment by dot product', 'src/properties/encroachment.rs: encroach'), ('angle by dot and cross product', 'src/properties/angle.rs: angle')],
     ['area_triangle', 'area_segments', 'dot', 'distance', 'angle', 'encroach', 'midpoint', 'parallel'])
prop('P06', 'Bounding boxes are tight and combine like point sets',
     'The bounding box of vertices is the smallest axis-parallel box containing them all. The intersection of two boxes contains exactly the points of both (and is absent when there are none), and their union is the smallest box containing both.',
     ['inputs'], 'any vertices and boxes with coordinates in [-1e6,1e6]',
     'Tests use fixed boxes; touching, nested and disjoint configurations in both axes multiply.',
     ['src/elements/bounding_box.rs'], [('min/max folding', 'src/elements/bounding_box.rs')], ['BoundingBox::from_vertices', 'BoundingBox::contains', 'BoundingBox::intersection', 'BoundingBox::union'])
prop('P07', 'Equality, hashing and order of elements agree with geometry',
     'Vertices are equal exactly when their coordinates are, edges when both ends are in order, triangles up to rotation, and polylines when their vertex sequences are; the ghost vertex equals only itself. '
     'Equal values hash equally, and vertices are totally ordered consistently with equality, lexicographically by x then y.',
     ['inputs'], 'any elements over integer coordinates, signed zeros and the ghost vertex',
     'Every set and map of the triangulator relies on it; tests compare a few literals and cannot observe a hash disagreement that only sometimes loses an entry.',
     ['src/elements/vertex.rs', 'src/elements/edge.rs', 'src/elements/triangle.rs', 'src/elements/polyline.rs'],
     [('Hash/Eq/Ord implementations', 'src/elements/vertex.rs, src/elements/triangle.rs, src/elements/edge.rs')], ['HashSet membership', 'Vertex::sort', '==', 'cmp'])
prop('P08', 'Edges: membership, decomposition, joining and chains',
     'An edge contains exactly the points of its closed segment. Decomposing a segment over a set of edges gives the chain of consecutive pieces that covers it, in order, and nothing when a piece is missing; joining merges exactly the consecutive colinear edges. '
     'Chains built from vertices, coordinates or polylines keep every vertex in order.',
     ['inputs'], 'any edges within the grid bounds, up to three pieces per segment, any iteration order of the sets',
     'Tests check fixed chains in one iteration order; direction, gaps, extra edges and the order of hash containers are not varied.',
     ['src/elements/edge.rs', 'src/elements/polyline.rs'], [('projection test', 'src/elements/edge.rs: contains'), ('chain search', 'src/elements/edge.rs: decompose, arrange')],
     ['Edge::contains', 'Edge::decompose', 'Edge::arrange', 'Edge::from_vertices', 'Polyline::into_edges'])
prop('P09', 'Triangle measures and incidence are those of its corners',
     'A counterclockwise triangle reports its true area, barycenter, circumcenter and ratio of circumradius to shortest side; a ghost triangle reports none of them and encircles exactly the half plane beyond its edge. '
     'Its inner edges go around it, its outer edges are those reversed, and opposite vertices and edges match.',
     ['inputs'], 'any counterclockwise or ghost triangle and any vertex within the grid bounds',
     'Tests use few triangles; refinement decisions depend on these values for every triangle that can arise.',
     ['src/elements/triangle.rs'], [('measures and incidence', 'src/elements/triangle.rs')], ['Triangle::area', 'Triangle::quality', 'Triangle::encircles', 'Triangle::inner_edges', 'Triangle::opposite_edge'])
prop('P10', 'A closed polyline tells vertices inside, on and outside',
     'A closed polyline contains a vertex as inside, boundary or outside exactly as the vertex lies relative to the simple polygon it describes. '
     'The answer does not depend on its direction or first vertex, convex or not; an opened polyline contains nothing.',
     ['inputs'], 'every vertex against concave polygons at every offset, every triangle and every simple quadrilateral within the grid bounds',
     'Membership by ray casting fails only where the ray meets corners or runs along sides, which fixed test points do not sample.',
     ['src/elements/polyline.rs'], [('crossing parity', 'src/elements/polyline.rs: contains')], ['Polyline::contains', 'Polyline::new_closed', 'Polyline::new_opened'])
prop('P11', 'Relative position of polylines is decided, contact included',
     'A segment or polyline is told to be inside or outside a closed polyline, open or closed by whether they touch, and nothing is told exactly when it crosses the boundary. '
     'Any contact, even in a single point, is never reported as open.',
     ['inputs'], 'every segment from given places (every segment: thorough) against convex and concave polygons, and a moving triangle against a rectangle, within the grid bounds',
     'Tests use a handful of positions; touching at a corner, running along a side and leaving through a notch are boundary cases of measure zero.',
     ['src/elements/polyline.rs'], [('split at intersections and midpoint tests', 'src/elements/polyline.rs: continence')], ['Polyline::continence'])
prop('P12', 'Intersection, union and subtraction have the right area',
     'The intersection, union and subtraction of two closed polylines are counterclockwise polylines whose area is that of the set operation, and the operations end. '
     'Polylines that share no interior point have no intersection, and those apart have no union.',
     ['inputs'], 'a rectangle against every rectangle, and a triangle against a moving triangle, in every relative position within the grid bounds',
     'Tests use a few overlapping pairs; shared sides, shared corners, nesting and touching multiply.',
     ['src/elements/polyline.rs'], [('split, select and arrange', 'src/elements/polyline.rs: intersection, union, subtraction')], ['Polyline::intersection', 'Polyline::union', 'Polyline::subtraction'])
prop('P13', 'Splitting and arranging keep exactly the given lines',
     'Splitting segments at their intersections gives pieces of positive length that cover them and meet only at ends. '
     'Arranging the edges of a closed chain, or taking the hull of triangles, gives the chain around in order, and nothing when they do not close; minifying removes exactly the colinear vertices.',
     ['inputs', 'histories'], 'every pair of segments, chains of 3 to 5 vertices, triangles of a fan or strip, and any iteration order of their sets within the bounds',
     'Tests check fixed chains in one iteration order.',
     ['src/elements/polyline.rs'], [('split_intersections, arrange, triangles_hull', 'src/elements/polyline.rs')], ['split_intersections', 'Polyline::arrange', 'Polyline::triangles_hull', 'Polyline::minified_noncolinear'])
prop('P14', 'A triangulation keeps triangles and edges consistent',
     'Including and removing triangles in any order keeps the adjacency exactly the inner edges of the triangles included, and tells whether something changed. '
     'Removing a triangle leaves its neighbours as they were.',
     ['inputs', 'histories'], 'two triangles in every relation, ghost ones included, included and removed in any order, any vertices within the grid bounds',
     'Everything built on the triangulation relies on it, and tests follow one history only.',
     ['src/planar/triangulation.rs'], [('triangle set and edge map', 'src/planar/triangulation.rs: include_triangle, remove_triangle')], ['Triangulation::include_triangle', 'Triangulation::remove_triangle', 'Triangulation::edges', 'Triangulation::vertices'])
MESH = [('construction', 'src/planar/triangulation_procedures'), ('driver', 'src/planar/triangulator.rs: triangulate')]
prop('P15', 'Any simple boundary is triangulated exactly and Delaunay',
     'Triangulating a simple counterclockwise boundary, convex or not, gives counterclockwise triangles that cover it without overlap, with each side an edge and a ghost triangle beyond it, and ends. '
     'Every edge that is not a side is Delaunay: the opposite vertices are not inside the circumscribed circles.',
     ['inputs', 'histories'], 'every triangle, quadrilaterals, pentagons with a free corner, and concave shapes at every offset, with deviations of hash iteration order, within the grid bounds',
     'Tests triangulate a few fixed polygons, under whatever iteration order one run happens to have.',
     ['src/planar/triangulator.rs', 'src/planar/triangulation_procedures/boundary.rs'], MESH, ['Triangulator::triangulate', 'Triangulator.triangulation'])
prop('P16', 'Inserted vertices all end up in a Delaunay triangulation',
     'Triangulating a boundary with vertices inside it gives counterclockwise triangles that cover it without overlap and use exactly the given vertices, and ends. '
     'Every edge but the sides is Delaunay, whatever the order the vertices are taken in, cocircular and colinear positions included.',
     ['inputs', 'histories'], 'a vertex anywhere inside convex and concave boundaries, alone or with other vertices, with deviations of hash iteration order, within the grid bounds',
     'A vertex on an edge, on a circumscribed circle or behind a notch is not sampled by tests, nor is the order of the vertex set.',
     ['src/planar/triangulator.rs', 'src/planar/triangulation_procedures/vertices.rs'], MESH + [('vertex insertion', 'src/planar/triangulation_procedures/vertices.rs')], ['Triangulator::insert_vertices', 'Triangulator::triangulate'])
prop('P17', 'Input outside the domain or in conflict is rejected',
     'Vertices and segments are accepted exactly when they lie strictly inside the boundary and out of every hole, and holes exactly when they are inside and apart from other holes and segments. '
     'A rejection names exactly the conflicting elements and leaves the triangulator as it was.',
     ['inputs', 'histories'], 'a vertex, a segment end or a hole corner anywhere around a rectangle with one or two holes, integer coordinates within the bounds',
     'Tests try a few conflicts; touching, containing and surrounding positions are not sampled.',
     ['src/planar/triangulator.rs'], [('input validation', 'src/planar/triangulator.rs: insert_vertices, insert_segments, insert_hole')], ['Triangulator::insert_vertices', 'Triangulator::insert_segments', 'Triangulator::insert_hole'])
prop('P18', 'Holes are left out, and their sides are kept',
     'Triangulating a boundary with holes, convex or not, covers the boundary minus the holes exactly, with each side of each hole an edge and a ghost triangle beyond it, and ends. '
     'Every edge that is not a side is Delaunay.',
     ['inputs', 'histories'], 'triangular holes moving or with a free corner, two holes, a concave hole with a vertex in its notch, a vertex anywhere around a hole, with deviations of hash iteration order, within the grid bounds',
     'Tests triangulate a few fixed holes; the order in which holes and vertices are reached depends on hash iteration.',
     ['src/planar/triangulator.rs', 'src/planar/triangulation_procedures/hole.rs'], MESH + [('hole inclusion', 'src/planar/triangulation_procedures/hole.rs')], ['Triangulator::insert_hole', 'Triangulator::triangulate'])
prop('P19', 'Constraint segments are edges of the triangulation',
     'After triangulating, each inserted segment is a chain of edges, split exactly where vertices lie on it or other segments cross it. '
     'The triangles still cover the domain without overlap, and every edge that is no constraint is Delaunay.',
     ['inputs', 'histories'], 'a segment to anywhere inside convex and concave boundaries, crossing another one, or with a vertex anywhere on or off it, with deviations of hash iteration order, within the grid bounds',
     'Tests insert a few fixed segments; passing through vertices, along edges or across notches is not sampled.',
     ['src/planar/triangulator.rs', 'src/planar/triangulation_procedures/segment.rs'], MESH + [('segment inclusion', 'src/planar/triangulation_procedures/segment.rs')], ['Triangulator::insert_segments', 'Triangulator::triangulate'])
prop('P20', 'Refinement ends and meets the quality and area asked for',
     'Refining a triangulation whose corners have at least 60 degrees ends, and every triangle meets the circumradius to shortest side ratio and the largest area asked for. '
     'The refined triangles still cover the domain exactly, keep every given vertex, and keep each constraint as a chain of edges.',
     ['inputs', 'histories'], 'rectangles of every size, quadrilaterals with a free corner, a vertex, a segment end or a hole anywhere, ratio 1.5, areas given or not, within the grid bounds',
     'Tests refine a few fixed inputs; whether refinement ends and meets its target depends on every position of the input.',
     ['src/planar/triangulator.rs', 'src/planar/refine_procedures/encroachment.rs', 'src/planar/refine_procedures/triangle_split.rs'],
     [('encroached edges are split', 'src/planar/refine_procedures/encroachment.rs'), ('circumcenters are inserted', 'src/planar/refine_procedures/triangle_split.rs')],
     ['Triangulator::refine'],
     note=N + ' Scenarios that are not named exact split the inputs, per symbolic path of the triangulation, into single values that the solver enumerates until none is left, '
     'and refine each of those in floating point: circumcenters leave the grid, so exact arithmetic would not be what the machine computes.')
prop('P21', 'The output is the triangulation that the input describes',
     'For a valid input the written coordinates are the vertices of the triangulation, each once, and the written triangles, through their indices, are its triangles: counterclockwise, not overlapping, covering the inclusions without the removals. '
     'The id, name and date of the input are kept, and the order of the actions does not matter.',
     ['inputs', 'histories'], 'inclusions with a free corner, a vertex, a removal with a segment beside it, two overlapping inclusions with a removal, in any order of the actions, with deviations of hash iteration order, within the grid bounds',
     'No test runs the whole way from input to output; which index a vertex gets depends on hash iteration.',
     ['src/json_serializar/models/output.rs', 'src/triangulator_interface/mod.rs'],
     [('index mapping', 'src/json_serializar/models/output.rs: from_triangulator'), ('composition of the domain', 'src/triangulator_interface/mod.rs: parse')],
     ['triangulator_interface::parse', 'TriangulationOutput::from_triangulator'])
prop('P22', 'Input actions are read as given, or rejected',
     'Reading an input yields exactly the polylines, segments and vertices of its actions, each under its intent, and the refinement parameters. '
     'An action of unknown geometry or intent, a polyline that crosses itself, missing points, or a constraint outside of the domain is rejected without a panic.',
     ['inputs'], 'every geometry with every intent, polylines of up to 6 corners, circles of up to 100, up to 5 points taken by two or by index lists, coordinates within the grid bounds',
     'Tests read one literal per geometry; malformed and self-crossing input is not sampled.',
     ['src/triangulator_interface/interpreter/mod.rs', 'src/triangulator_interface/interpreter/polyline_parser.rs', 'src/triangulator_interface/interpreter/circle_parser.rs', 'src/triangulator_interface/interpreter/segments_parser.rs', 'src/triangulator_interface/interpreter/vertices_parser.rs'],
     [('dispatch by geometry and intent', 'src/triangulator_interface/interpreter/mod.rs: parse')], ['interpreter::parse', 'triangulator_interface::parse'])
prop('P23', 'The domain is the union of inclusions without the removals',
     'Inclusions that meet are composed into one boundary, from which the removals are taken: those that reach its outline by changing it, those strictly inside as holes, united where they meet. '
     'The area covered is exact whatever the order. Inclusions apart, and removals that split the domain or leave nothing of it, are rejected.',
     ['inputs', 'histories'], 'two or three inclusions, one to three removals in every relative position and order, rectangles, triangles and concave shapes, with deviations of hash iteration order, within the grid bounds',
     'Tests compose a few fixed rectangles; relative positions and orders multiply.',
     ['src/triangulator_interface/domain_evaluator.rs', 'src/elements/polyline.rs'],
     [('composition', 'src/triangulator_interface/domain_evaluator.rs: boundary, holes')], ['domain_evaluator::boundary', 'domain_evaluator::holes'])
prop('P24', 'The command line reads and writes the JSON files it is given',
     'The tool reads the input file, writes the refined triangulation as JSON to the output file or to the standard output, and reports unreadable or malformed input instead of writing a result.',
     ['inputs'], 'every file content', 'No test runs the binary.',
     ['src/main.rs', 'src/json_serializar/io.rs'], [('file access and deserialisation', 'src/json_serializar/io.rs')], ['nlsn-delaunay -i IN -o OUT'],
     na='What this code does is done by structopt, serde_json, chrono, uuid and the file system; a symbolic execution of it would decide those libraries and stubs for the system, not this code. '
        'Everything between the deserialised input and the output model is decided by P21, P22 and P23.')
