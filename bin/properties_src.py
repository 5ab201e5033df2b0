I = ['inputs']
H = ['histories']
IH = ['inputs', 'histories']
D = A + 'distance/'
X = A + 'intersection/'
S = A + 'point_sequence/'
U = 'geometrix/utility/utilities.hpp'
prop('C01', 'Orientation, betweenness and lexicographic predicates agree with exact signs',
     'For every triple of points the orientation, side and collinearity answers equal the sign of the exact signed area, reverse when two points are exchanged and survive cyclic rotation. A point is between two different points exactly when it lies on the (open or closed) segment joining them, and the lexicographic orders are strict weak orders that order points by first, then by second, then by third coordinate. Turning-vector, parallelism, slope and oriented-crossing answers are consistent with the same signs, and a point is inside, on or outside the circle through three points as exact geometry says.',
     I, 'all point triples and quadruples, including coincident and collinear ones, at any scale and offset', 'The unit tests evaluate a handful of fixed triples; degenerate and mirrored configurations are infinitely many.',
     [A + 'orientation.hpp', U, A + 'point_in_circumcircle.hpp'], [('sign of the exterior product', A + 'orientation.hpp'), ('is_between, lexicographical comparisons', U)])
prop('C02', 'Segment/segment intersection classifies and locates every contact',
     'For any two non-degenerate segments in the plane or in space the reported kind (none, proper crossing, end-point touch, overlap) is the true relation of the two point sets. The reported points are exactly the meeting point or the two ends of the shared sub-segment, whichever order the segments and their end points are given in.',
     I, 'all pairs of non-degenerate segments in 2D and 3D, all degenerate contacts (shared ends, T, collinear, containment)', 'Tests try fixed pairs; each contact class has many symmetric variants.',
     [X + 'segment_segment_intersection.hpp'], [('parallel_intersection and determinant parameters', X + 'segment_segment_intersection.hpp')])
prop('C03', 'Line, ray and segment intersections are located exactly where they meet',
     'Line/line, line/segment, ray/segment and ray/line queries report an intersection exactly when the two point sets meet, distinguish crossing, end-point contact and overlap, and return the true meeting point, the distance along the ray and the line parameters. A ray overlapping a collinear segment reports the covered part, nearest point first. The forms with and without output arguments agree.',
     I, 'all pairs, including parallel, collinear, behind the origin, through end points', 'The tests sample few configurations and none of the collinear ray cases.',
     [A + 'line_intersection.hpp', X + 'ray_segment_intersection.hpp', X + 'ray_line_intersection.hpp', 'geometrix/primitive/line.hpp'], [('projection on the normal', X + 'ray_segment_intersection.hpp')])
prop('C04', 'Axis-aligned boxes: construction, containment, clipping and hits are exact',
     'The bounding box of any set of points, segments, polygons or polylines is the smallest box containing them, grows by expansion and contains exactly the points between its corners. Box/box, ray/box, segment/box, polygon/box and polyline/box tests, and the test of the bounding boxes of two segments, answer true exactly when the closed sets meet, and entry parameters and clipped end points are the true ones.',
     I, 'all boxes, rays with any direction (also axis parallel and grazing), segments and simple polygons', 'Grazing, containing and axis-parallel cases are not sampled.',
     ['geometrix/primitive/axis_aligned_bounding_box.hpp', X + 'aabb_aabb_intersection.hpp', X + 'ray_aabb_intersection.hpp', X + 'segment_aabb_intersection.hpp', X + 'polygon_aabb_intersection.hpp', X + 'polyline_aabb_intersection.hpp', A + 'cohen_sutherland_line_clipping.hpp'], [('slab test', X + 'ray_aabb_intersection.hpp'), ('outcodes', A + 'cohen_sutherland_line_clipping.hpp')])
prop('C05', 'Point in polygon is decided correctly for every simple polygon and point',
     'For every simple polygon of either orientation, convex or not, and every point, the containment tests agree with the winding number, and the variants that report more tell vertices, borders, interior and exterior apart correctly, for triangles given counter-clockwise too. Of the polygons that partition a region exactly one contains each interior point, whichever lie along the shared borders. The answer does not depend on which vertex the polygon starts with.',
     I, 'all simple polygons and query points, especially points level with vertices and on edges', 'Tests use few polygons and points; ray-casting errors hide in vertex-level coincidences.',
     [A + 'point_in_polygon.hpp', A + 'orientation.hpp'], [('ray crossing parity', A + 'point_in_polygon.hpp')])
prop('C06', 'Triangle and plane intersection tests agree with exact geometry',
     'Segment/triangle (counter-clockwise in the plane), triangle/box and segment/plane tests report an intersection exactly when the point sets meet and return the true intersection points. A triangle in space contains exactly those points of its plane that are in its convex hull. Classifying a segment, triangle, polyline or polygon against a hyperplane tells in front, behind, on and spanning apart.',
     I, 'all non-degenerate triangles, boxes, planes and segments', 'Only single examples are tested.',
     [X + 'segment_triangle_intersection.hpp', A + 'point_in_polygon.hpp', A + 'eberly_triangle_aabb_intersection.hpp', X + 'segment_plane_intersection.hpp', A + 'classify_simplex_to_plane.hpp'], [('separating axes', A + 'eberly_triangle_aabb_intersection.hpp')])
prop('C07', 'Distances and closest points between basic primitives are true minima',
     'The distance between points (of any number of dimensions), lines, segments and axis-aligned or oriented boxes, in the plane and in space, reported by any of the distance functions is the minimum over the two point sets, its square agrees with it, and reported closest points lie on their primitives and realise it. Splitting a segment at given parameters, and its mid point, give the true points in order.',
     I, 'all primitives and query points including those beyond end points, on the primitive and inside boxes', 'A minimum over a continuum cannot be settled by sampled examples.',
     [D + 'point_point_distance.hpp', D + 'point_segment_distance.hpp', D + 'segment_segment_distance.hpp', D + 'eberly_segment_segment_distance.hpp', D + 'point_line_distance.hpp', D + 'point_aabb_distance.hpp', D + 'aabb_aabb_distance.hpp', D + 'point_segment_closest_point.hpp', D + 'segment_segment_closest_point.hpp', D + 'point_obb_distance.hpp', D + 'segment_obb_distance.hpp', 'geometrix/primitive/oriented_bounding_box.hpp', A + 'split_segment.hpp', A + 'segment_mid_point.hpp'], [('clamped projection', D + 'point_segment_closest_point.hpp')])
prop('C08', 'Distances to polygons and polylines are minima over all their edges',
     'Every distance or closest-point query involving a polygon or polyline equals the minimum over all of its edges, the closing edge of polygons included, and the reported closest points, edge indices and vertex indices are on the sequence and realise that minimum. The side of a polyline a point is reported on is the side seen from its nearest edge.',
     I, 'all polylines and simple polygons, any start vertex and direction, any query primitive', 'A forgotten edge only matters for inputs closest to that edge.',
     [D + 'point_polygon_distance.hpp', D + 'point_polygon_closest_point.hpp', D + 'point_polyline_closest_point.hpp', D + 'point_polyline_distance.hpp', D + 'segment_polygon_closest_point.hpp', D + 'segment_polygon_distance.hpp', D + 'segment_polyline_closest_point.hpp', D + 'segment_polyline_distance.hpp', D + 'polygon_polygon_closest_point.hpp', D + 'polygon_polygon_distance.hpp', D + 'polyline_polyline_closest_point.hpp', D + 'polyline_polyline_distance.hpp', S + 'point_polyline_orientation.hpp'], [('minimum over consecutive vertex pairs', D + 'point_polygon_closest_point.hpp')])
prop('C09', 'Grids map every point to one cell and hash grids store cells faithfully',
     'A grid assigns every point inside its extent to exactly one in-range cell, the one whose corners enclose it, cell corners and centroids are consistent with that, and points or indices outside are recognised. Over any history of writes, reads, erasures and clears a grid or hash grid returns for each cell what was last stored there, never another cell\'s data.',
     IH, 'all grid extents and cell sizes, all points, all histories of cell operations', 'History dependent storage errors need particular sequences of operations on particular cells.',
     [A + 'grid_traits.hpp', A + 'grid_2d.hpp', A + 'hash_grid_2d.hpp'], [('floor of the scaled offset', A + 'grid_traits.hpp')])
prop('C10', 'Walking a segment through a grid visits exactly the cells it touches',
     'Walking a segment through a grid visits a connected chain of cells from the cell of its start to the cell of its end, visits every cell whose interior the segment crosses and none it does not touch, and stays in the grid. A line drawn by integer steps is a connected chain of cells, one per step, each within half a cell of the ideal line.',
     I, 'all segments on all grids, also through cell corners and along cell borders', 'Rasterisation faults depend on slopes and corner coincidences which tests sample once.',
     [A + 'fast_voxel_grid_traversal.hpp', A + 'orientation_grid_traversal.hpp', A + 'bresenham_grid_traversal.hpp'], [('tMax/tDelta stepping', A + 'fast_voxel_grid_traversal.hpp')])
prop('C11', 'Flood fill reaches exactly the connected region of its seed',
     'Filling from a seed visits exactly the cells reachable from it through cells satisfying the fill predicate, each such cell at least once, never leaves the grid and always terminates. Rasterising a polygon, with or without holes, fills the cells its interior covers and no cell away from it.',
     IH, 'all grids, obstacle patterns and seeds; all polygons with and without holes on them', 'The number of obstacle patterns is exponential; tests show one.',
     [A + 'floodfill_grid_traversal.hpp', A + 'hash_grid_2d.hpp'], [('work stack of cells', A + 'floodfill_grid_traversal.hpp')])
prop('C12', 'k-d tree range searches return exactly the stored points in range',
     'For any set of points, with duplicates and shared coordinates, a range search visits exactly the stored points in the closed range, each as often as it is stored. The median partition puts every point on its side of the median, and the coordinate orders it uses are strict weak orders.',
     I, 'all point multisets, all query ranges and points', 'Tests compare one random cloud; ties on splitting coordinates are measure zero there.',
     [A + 'kd_tree.hpp', A + 'median_partitioning_strategy.hpp'], [('median partition', A + 'median_partitioning_strategy.hpp')])
prop('C13', 'The segment BSP tree preserves its segments and answers queries consistently',
     'Building the tree from the border of a counter-clockwise polygon or from any set of segments loses and invents nothing: painting from a viewpoint visits pieces that cover exactly the segments not seen edge-on, each once, never a piece before one it hides. Locating a point tells on a segment, inside and outside apart as the polygon does.',
     I, 'all simple polygons and sets of segments, all query points and viewpoints', 'Splitting and coplanar cases depend on the partition order.',
     [A + 'node_bsp_tree_2d.hpp', A + 'hyperplane_partition_policies.hpp'], [('recursive partition', A + 'node_bsp_tree_2d.hpp')])
prop('C14', 'The solid-leaf BSP tree measures distances and hits rays like its polygon',
     'For every simple polygon the tree tells inside, outside and border apart exactly as the polygon does, and its distance queries return the distance to the nearest border piece and name that piece. A ray query reports the first wall the ray meets, where, and which. A ray from empty space that grazes corners stops at a wall it touches and never behind one it crosses.',
     I, 'all simple polygons and query points; all rays that do not start on a wall', 'Only a few polygons are tried by tests.',
     [A + 'solid_leaf_bsp_tree.hpp', A + 'hyperplane_partition_policies.hpp'], [('leaf classification', A + 'solid_leaf_bsp_tree.hpp')])
prop('C15', 'The edge list chains directed edges into rings under every insertion order',
     'After any sequence of insertions of directed edges, with at most one edge into and one out of every point, the edge list holds exactly the given edges joined end to end into the maximal open chains and closed rings they form, whatever order they came in. Every half edge has a twin pointing back at it, next and previous are inverse, and walking a ring returns to its start. Copies, moves and assignments preserve all of it and share nothing with the original.',
     H, 'all insertion histories of directed edges forming chains and rings, with copies, moves, assignments and recomputation in between', 'Linking errors appear only for particular insertion orders.',
     ['geometrix/algorithm/doubly_connected_edge_list.hpp'], [('half edge linking', 'geometrix/algorithm/doubly_connected_edge_list.hpp')])
prop('C16', 'The plane sweep reports exactly the meeting points of a set of segments',
     'For any set of segments the sweep reports every isolated point where two or more of them meet, and every end point that lies on two or more of them, once each and in lexicographic order. With each point come exactly the segments that pass through it, and nothing else is reported.',
     I, 'all segment sets, including multiple crossings, shared ends, verticals and overlaps', 'Event-order faults depend on the interleaving of events.',
     [A + 'bentley_ottmann_segment_intersection.hpp', A + 'bentley_ottmann_sweep.hpp'], [('status structure and event queue', A + 'bentley_ottmann_segment_intersection.hpp')])
prop('C17', 'Polyline operations preserve the curve they work on',
     'Length, point-at-distance, mid point, clipping, splitting, and the parts of a polyline or polygon border between two positions refer to true arc length, and the pieces put together give the original curve. Simplification keeps a subsequence with both end points within its tolerance; removing duplicate or collinear points keeps the same point set. Curvature, turning and inflection follow the exact turns, and the side of a polyline or the nearest border edge reported for a point is the true one.',
     I, 'all polylines, positions and tolerances', 'Positions at vertices and beyond ends and collinear runs are not covered by examples.',
     [S + 'length.hpp', S + 'clip_polyline_ends.hpp', S + 'polyline_split.hpp', S + 'polyline_mid_point.hpp', S + 'remove_collinear_points.hpp', S + 'ramer_douglas_peucker_algorithm.hpp', S + 'curvature.hpp', S + 'find_subsequence.hpp', S + 'point_polyline_orientation.hpp', 'geometrix/primitive/point_sequence_utilities.hpp'], [('arc length accumulation', S + 'clip_polyline_ends.hpp')])
prop('C18', 'Polygon predicates: simplicity, containment, congruence are decided correctly',
     'Self-intersection and simplicity are reported exactly, for rings and for polygons with holes (simple rings whose borders do not meet). Containment of polygons and polylines, the pieces of a segment inside and outside a polygon, and the contacts between polylines agree with the point sets. Congruence compares the vertices one by one from the same start.',
     I, 'all vertex sequences and pairs of polygons and polylines', 'Examples cover one failing edge pair.',
     [S + 'is_polygon_simple.hpp', S + 'self_intersection.hpp', S + 'polygon_polygon_containment.hpp', S + 'polygon_polyline_containment.hpp', S + 'is_congruent.hpp', X + 'segment_polyline_intersection.hpp', X + 'polyline_polyline_intersection.hpp', X + 'segment_polygon_intersection.hpp', X + 'segment_projects_outside_polygon.hpp'], [('pairwise edge tests', S + 'is_polygon_simple.hpp')])
prop('C19', 'Triangle meshes report true adjacency, area and location and sample inside',
     'For any triangulation the mesh reports areas, adjacency and the triangle containing a point truthfully, whichever lookup structure it uses. Random positions drawn from it lie in the mesh and every triangle is drawn according to its share of the area. A search over the mesh visits the connected part of its start once, and exactly the vertices visible from a point inside a triangle are reported visible.',
     I, 'all triangulations, query points and random numbers', 'Tests use one fixed mesh.',
     ['geometrix/algorithm/mesh_2d.hpp', A + 'visible_vertices_mesh_search.hpp', A + 'eberly_triangle_aabb_intersection.hpp'], [('adjacency matrix and area prefix sums', 'geometrix/algorithm/mesh_2d.hpp')])
prop('C20', 'Union and difference of collinear segments are exact set operations',
     'Over any history of insertions, unions and subtractions of non-degenerate segments on a common line the result covers exactly the points the set operation defines, as disjoint maximal pieces: segments that touch are merged. The order of intervals along the line, and the touching test, agree with the positions of their ends.',
     H, 'all histories of collinear segments, touching, nested, equal and disjoint', 'Interval faults depend on combinations of touching ends.',
     [U], [('collinear_segment_union and collinear_segment_difference', U)])
prop('C21', 'Angles: normalisation, sector membership and angular order are consistent',
     'Normalised angles lie in the documented range and differ from the input by whole turns. A vector is in an angular sector exactly when it lies between its bounding directions counter-clockwise, for sectors smaller and larger than a half turn, a segment meets a cone exactly when some of it is in range, and angular sorting orders points and vectors by true polar angle. Rotation, bisection and spherical interpolation give directions at the true angle.',
     I, 'all vectors, sectors and angles', 'Sector edges and reflex sectors are not sampled.',
     [U, 'geometrix/utility/point_angle_compare.hpp', 'geometrix/utility/vector_angle_compare.hpp', A + 'is_segment_in_range.hpp', A + 'rotation.hpp', 'geometrix/arithmetic/vector/bisect.hpp', 'geometrix/arithmetic/vector/slerp.hpp', 'geometrix/arithmetic/vector/lerp.hpp', 'geometrix/arithmetic/vector/is_antiparallel.hpp'], [('orientation tests', U)])
prop('C22', 'Vector, matrix and point expressions compute their mathematical value',
     'Every algebraic expression over points, vectors and matrices, evaluated as a whole lazily or eagerly, assigned or accessed by element, and with operands aliasing the destination, equals the value defined by linear algebra. Determinants, inverses, products, transposes, Kronecker products, factorisations and their solutions, projections, normals and homogeneous transforms satisfy their defining identities.',
     ['inputs', 'programs'], 'all expressions over the supported operators and all operand values', 'Expression templates are exercised by fixed expressions only.',
     ['geometrix/algebra/algebra.hpp', 'geometrix/algebra/expression.hpp', 'geometrix/algebra/lup_decomposition.hpp', 'geometrix/algebra/exterior_product.hpp', 'geometrix/algebra/vector_projection.hpp', 'geometrix/tensor/matrix.hpp', 'geometrix/tensor/vector.hpp', 'geometrix/tensor/homogeneous_adaptor.hpp', 'geometrix/tensor/matrix_minor_adaptor.hpp', 'geometrix/arithmetic/vector/perp.hpp'], [('expression templates', 'geometrix/algebra/expression.hpp')])
prop('C23', 'Comparison policies are coherent orders up to their tolerance',
     'For every policy and every pair of finite numbers exactly one of less, equal and greater holds, the or-equal forms and complements agree with them, equality is symmetric and order antisymmetric, and equality holds exactly within the documented tolerance. Sequences are equal exactly when all their coordinates are, pairs are ordered by the chosen member, and clamping, sign, least and greatest follow the order of the numbers.',
     I, 'all policies, tolerances and pairs of finite numbers', 'Values at the tolerance edge are not tested.',
     ['geometrix/numeric/number_comparison_policy.hpp', 'geometrix/tensor/numeric_sequence_compare.hpp', 'geometrix/tensor/is_null.hpp'], [('tolerance comparisons', 'geometrix/numeric/number_comparison_policy.hpp')])
prop('C24', 'Circle and moving-sphere queries report the true first contact',
     'Circle, sphere and capsule tests against rays, segments, planes, boxes and each other answer true exactly when the closed sets meet, and reported contact times and points are the first at which they do. A sphere meets a polyline in every edge its surface crosses, reported in order until the visitor stops. A moving sphere that already overlaps has contact at time zero; one that touches without approaching has none.',
     I, 'all centres, radii, directions and velocities other than zero', 'Tangential contact and contact at end points are hardly tested.',
     [X + 'ray_sphere_intersection.hpp', X + 'segment_sphere_intersection.hpp', X + 'circle_circle_intersection.hpp', X + 'sphere_sphere_intersection.hpp', X + 'moving_sphere_plane_intersection.hpp', X + 'moving_sphere_segment_intersection.hpp', X + 'moving_sphere_aabb_intersection.hpp', X + 'moving_sphere_obb_intersection.hpp', X + 'moving_sphere_sphere_intersection.hpp', X + 'segment_capsule_intersection.hpp', X + 'sphere_polyline_intersection.hpp', X + 'sphere_aabb_intersection.hpp', X + 'sphere_obb_intersection.hpp'], [('quadratic root selection', X + 'ray_sphere_intersection.hpp')])
prop('C25', 'Oriented boxes and convex polygons intersect exactly when no axis separates them',
     'Oriented-box and convex-polygon intersection tests answer true exactly when the closed sets share interior points or an oriented box touches another, and the corners and sides of an oriented box are where its centre, axes and half widths put them. For moving convex shapes contact is predicted exactly when it happens within the given time, at the first time.',
     I, 'all oriented boxes, counter-clockwise convex polygons and velocities', 'Separation along a single axis is easy to forget and needs that axis as a witness.',
     ['geometrix/primitive/oriented_bounding_box.hpp', X + 'obb_obb_intersection.hpp', X + 'moving_obb_obb_intersection.hpp', X + 'separating_axis_convex_polygons.hpp', X + 'moving_separating_axis_convex_polygons.hpp', X + 'convex_polygon_polygon_intersection.hpp'], [('separating axis test', X + 'obb_obb_intersection.hpp')])
prop('C26', 'Point-sequence measures: area, centroid, orientation, bounds and reversal',
     'Signed area, centroid, orientation, bounds and reversal of a point sequence equal their definitions for every sequence and start vertex, in every kind of container. Two sequences compare equal exactly when they have the same points in the same order.',
     I, 'all point sequences', 'Tests compute single examples.',
     ['geometrix/primitive/point_sequence_utilities.hpp', 'geometrix/primitive/array_point_sequence.hpp', 'geometrix/primitive/deque_point_sequence.hpp'], [('shoelace sums', 'geometrix/primitive/point_sequence_utilities.hpp')])
prop('C27', 'Fixed-point numbers behave as scaled integers in every history of operations',
     'A fixed-point number is an exact multiple of its unit: numbers from outside are rounded as the rounding policy says, sums and differences are exact, products and quotients are off by less than one unit, and comparisons order the values. After any sequence of assignments, arithmetic with each other and with built-in numbers on either side, increments and copies, the value, its conversions to built-in numbers, to other fixed-point kinds and to text are those of the scaled integer, and so are its magnitude, floor, ceiling and roots, in the scale of the number. An amount, product or quotient that does not fit the format is refused with an exception and changes nothing.',
     IH, 'all operation sequences, amounts and kinds (decimal, binary, compile-time and run-time scale, every rounding policy, narrow and wide formats)', 'The repository has no test of it at all.',
     ['geometrix/numeric/fixed_point.hpp', 'geometrix/numeric/fixed_point_traits.hpp', 'geometrix/numeric/detail/fixed_point.hpp'], [('scale up, scale down, rounding policies', 'geometrix/numeric/fixed_point_traits.hpp'), ('operators', 'geometrix/numeric/fixed_point.hpp')])
prop('C28', 'A polyline moved sideways stays parallel to the original at the given distance',
     'Every edge of the copy lies on the line at the given distance on the given side of its original edge, corners are joined where those lines cross, straight corners stay beside their originals, and the copy starts and ends square to the ends of the original. The trimmed copy of a curve that needs no trimming is the copy itself.',
     I, 'all polylines without repeated points or turns straight back, distances and sides', 'No test looks at the resulting points.',
     [S + 'polyline_offset.hpp'], [('offset of two edges and their crossing', S + 'polyline_offset.hpp')])
prop('C29', 'Cartesian and polar coordinates name the same point through any history',
     'After any sequence of setting, assigning and constructing points of cartesian and polar reference frames from one another, in two and three dimensions, every point is where the history says, and its coordinates in either frame are the true ones: distance from the origin, azimuth within a half turn either way, inclination from the positive third axis.',
     H, 'all histories of conversions and assignments between frames, all points, whole turns of the angle', 'Tests convert three points.',
     ['geometrix/space/reference_frame_adaptor.hpp', 'geometrix/space/cartesian_polar_transformation.hpp', 'geometrix/space/polar_cartesian_transformation.hpp', 'geometrix/space/polar_access_traits.hpp', 'geometrix/space/cartesian_access_traits.hpp'], [('coordinate conversion', 'geometrix/space/cartesian_polar_transformation.hpp')])
prop('C30', 'Polygons, polylines and simple shapes hold what they were given',
     'After any sequence of constructions, assignments, copies, moves and changes of points, polygons, polylines and polygons with holes hold exactly the points they were given, in order, whichever way they are read, and nothing given as a named object is changed. Segments, boxes, spheres, capsules, rectangles, lines and planes report the ends, bounds, corners, radius, direction, normal and distance they were made from, and the border segments of a polygon with holes are those of its rings.',
     H, 'all histories of operations on polygons, polylines, polygons with holes, segments, boxes and spheres in two and three dimensions', 'Tests build each container once, in one way.',
     ['geometrix/primitive/polygon.hpp', 'geometrix/primitive/polyline.hpp', 'geometrix/primitive/polygon_with_holes.hpp', 'geometrix/primitive/segment.hpp', 'geometrix/primitive/line.hpp', 'geometrix/primitive/plane.hpp', 'geometrix/primitive/sphere.hpp', 'geometrix/primitive/axis_aligned_bounding_box.hpp', 'geometrix/primitive/vector_point_sequence.hpp', 'geometrix/algorithm/polygon_with_holes_as_segment_range.hpp'], [('value categories of constructors and setters', 'geometrix/primitive/polygon_with_holes.hpp')])
prop('C31', 'Tagged quantities compute what their values compute',
     'After any sequence of assignments, constructions, exchanges and arithmetic between tagged quantities of one or several tags and plain numbers, on either side and in either the compound or the two-operand form, every quantity holds the value the same plain computation gives in its value type (a plain number in a compound operation being converted to that type first), comparisons order the values, and nothing else changes. Functions of a quantity (powers, roots, logarithms, angles, rounding) have the value of the function of the value.',
     IH, 'all operation sequences, amounts, integer and real value types and mixtures of tags', 'The repository has no test of the arithmetic of two quantities.',
     ['geometrix/utility/tagged_quantity.hpp', 'geometrix/utility/tagged_quantity_fwd.hpp'], [('operators', 'geometrix/utility/tagged_quantity.hpp')])
prop('C32', 'Random draws keep their limits and depend on nothing but their history',
     'An index generator draws from [0, limit), a real generator from [0, limit), an integer generator from [0, N) given with each draw, and every number within a small limit is drawn sooner or later. What a generator draws next depends only on its kind, its limit, its seed and how many numbers it has drawn since: reseeding leaves nothing of the past, a copy draws on from where its source was and neither moves the other. A random element of a range is an element of that range. A sequence generator counts up from its start, copies on their own. Colours generated have the saturation and value asked for, and hue, saturation and value convert to red, green and blue by the usual six sectors, hue one like hue zero.',
     IH, 'all histories of constructions, copies, assignments, reseedings and draws, engines, limits, seeds and colours', 'The tests use the generators and never look at what they draw.',
     ['geometrix/utility/random_generator.hpp', 'geometrix/utility/golden_ratio_color_generator.hpp'], [('engine and distribution', 'geometrix/utility/random_generator.hpp'), ('sectors of the hue', 'geometrix/utility/golden_ratio_color_generator.hpp')])
prop('C33', 'A memoized function answers as the function and asks it once for each argument',
     'Through any history of calls, of copies of memoized functions, of functions sharing a table, of recursive functions asking themselves, and of changes to the table by its owner, a memoized function answers with what its table holds for the arguments, and otherwise asks the function once, answers with its answer and keeps it. A call that ends with an exception leaves nothing in the table, and no other entry of the table changes. Any order of the table and any kinds of arguments will do.',
     H, 'all histories of calls, tables and functions', 'One test counts the entries of a table after four calls.',
     ['geometrix/utility/memoize.hpp'], [('look up, call, insert', 'geometrix/utility/memoize.hpp')])
prop('C34', "Points and vectors of the user's own kinds act as the ones they stand for",
     'Types adapted as points or vectors (members behind functions, tuples, plain structs, index operators, one or several number types) and the library\'s own can be mixed freely: after any history of coordinates set, of objects made from each other or from raw coordinates, and of sums, differences, multiples, cross products and mid points across kinds, every object has the coordinates the same history gives on plain triples, only the target changes, copies are independent, and distances, dot products and comparisons across kinds follow the coordinates. Orientation, order, intersection, containment, area, centroid and bounds of adapted planar points answer as for plain points.',
     IH, 'all histories, kinds of types and mixtures of them', 'The tests adapt such types and check a handful of accesses.',
     ['geometrix/utility/member_function_fusion_adaptor', 'geometrix/tensor', 'geometrix/primitive/point_traits.hpp', 'geometrix/utility/construction_policy.hpp'], [('access policies', 'geometrix/tensor/fusion_vector_access_policy.hpp'), ('adaptation of member functions', 'geometrix/utility/member_function_fusion_adaptor/adapt_member_function.hpp'), ('expressions over any kind', 'geometrix/algebra/expression_generator.hpp')])
prop('C35', "Geometry of quantities with units is the geometry of their numbers",
     'For points, vectors, segments, boxes and polygons whose coordinates are quantities with units (boost.units), every result has the amount that the plain geometry of the numbers gives and the dimension that the operation has: sums and differences keep it, dot and exterior products and squared distances multiply it, speeds times times are displacements, normalised vectors have none. This holds whatever the base unit (metres or centimetres, converted in between), and for tests, intersections, distances, closest points, areas, centroids and containment as for arithmetic.',
     IH, 'all histories of quantities, inputs and systems of units', 'No test uses a quantity with units.',
     ['geometrix/numeric/boost_units_quantity.hpp', 'geometrix/arithmetic/boost_units_arithmetic.hpp', 'geometrix/numeric/number_comparison_policy.hpp', 'geometrix/algebra', 'geometrix/algorithm'], [('dimensions of results', 'geometrix/arithmetic/boost_units_arithmetic.hpp'), ('numbers with units', 'geometrix/numeric/boost_units_quantity.hpp'), ('mapped tolerances', 'geometrix/numeric/number_comparison_policy.hpp')])
