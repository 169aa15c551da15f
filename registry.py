"""
The properties, what decides each of them, and what is not claimed.

gen.py writes properties.jsonl and MANIFEST.json from this file; check.py reads it.
"""

from sa import resolve

REFERENCE = ('Value-flow comparison: the current source of every anchored function is abstractly interpreted into '
             'canonical terms (return value, heap effects, external effects, errors), loops become closed folds over '
             'their input sequences, and the terms are compared with those of the reference function which states '
             'the property.  Nothing is executed and no solver is used.')

ASSUMPTIONS = [
    'Arithmetic is compared over the reals: re-associations and other rewritings which only differ in rounding are '
    'taken as equal.',
    'Arguments and fields have the types declared in sa/decl.py; containers reached through different declared '
    'fields of a well-formed grid are not aliases of each other.',
    'numpy, re, os, random, mpi4py and other library calls are uninterpreted functions (with the few laws listed in '
    'sa/builtins_.py); what they do inside is not analysed.',
    'A function which the analysis cannot bring to closed form is reported as undecided in the evidence and raises no '
    'alarm; on the unchanged tree nothing is undecided.',
]


def P(title, statement, text, why, files, mechanism, specs=(), rules=(), over=('inputs',), observe=(), state=(),
      explanation=None, assumptions=(), technique=None, note=None, na=None):
    return dict(title=title, statement=statement, text=text, why=why, files=list(files), mechanism=list(mechanism),
                specs=list(specs), rules=list(rules), over=list(over), observe=list(observe), state=list(state),
                explanation=explanation or REFERENCE, assumptions=list(assumptions),
                technique=technique or 'static value-flow analysis (abstract interpretation of the source to canonical '
                                       'terms, compared with a reference definition)',
                note=note or 'Sound up to the stated assumptions for every input: a difference in returned value, '
                             'heap effect, external effect or error condition is reported with its component.',
                na=na)


PROPS = {}

PROPS['A01'] = P(
    'Vector and segment algebra',
    'Vector sums, differences, scalar and vector products, lengths, distances, normalisation and segment points return '
    'the values defined by Euclidean geometry for every operand.  In-place operations change exactly the receiver, all '
    'others leave their operands unchanged.',
    'all component values of all operands, including zero and parallel vectors',
    'The tests add and subtract two constant vectors; the other operations and the absence of side effects are never '
    'exercised.',
    ['crysgsu/geom/vect.py', 'crysgsu/geom/segment.py'],
    [('vector operations', 'geom.vect:Vect'), ('segment operations', 'geom.segment:Segment')],
    specs=['geom'], observe=['return values and fields of Vect and Segment'])

PROPS['A02'] = P(
    'Triangle measures and swept volumes',
    'Area, perimeter, centroid, normal, angles, shape quality, displaced volume and its inverse of a triangle are the '
    'ones of its three vertices, whatever the vertices are; degenerate triangles are recognised and never silently '
    'measured with a wrong formula.',
    'all triples of vertices and displacement values',
    'The tests sample a handful of triangles for point location and intersection only.',
    ['crysgsu/geom/triangle.py'],
    [('triangle measures', 'geom.triangle:Triangle'), ('displaced triangle volume', 'geom.triangle:Triangle')],
    specs=['geom'])

PROPS['B01'] = P(
    'Bounding boxes enclose exactly their contents',
    'A box built for points, triangles or a list of triangles spans exactly the minimum and maximum coordinates of its '
    'contents, and the containment, overlap and split queries answer according to those bounds, borders included.',
    'all collections of triangles, all query points and boxes',
    'No test builds a box; extremal coordinates and boundary contact need all inputs.',
    ['crysgsu/geom/box.py'], [('box construction and queries', 'geom.box:Box')], specs=['geom'])

PROPS['B02'] = P(
    'The triangle tree loses no triangle and no intersection',
    'Splitting a triangle collection distributes every triangle to exactly one part, recursively, and an intersection '
    'query returns exactly the hits among all the triangles whose enclosing boxes it meets: pruning never hides a hit.',
    'all triangle collections, all tree depths and all query segments and triangles',
    'Tests never build a tree; the property quantifies over all tree shapes.',
    ['crysgsu/geom/triangles_cloud.py', 'crysgsu/geom/triangle.py'],
    [('partition and search', 'geom.triangles_cloud:TrianglesCloud')], specs=['geom'])

PROPS['C02'] = P(
    'Zone adjacency matrix describes inner, interzonal and border edges',
    'For every decomposition, the adjacency data places each edge in exactly one cell given by the zones of its two '
    'faces (or the border list), counts and lists are consistent with each other, and the queries for inner, '
    'interzonal and border faces return those of the cells.',
    'all grids, all decompositions, edges with one or two faces',
    'The single test case writes files for one grid and does not compare them with the grid.',
    ['crysgsu/gsu/zones_adjacency_matrix.py', 'crysgsu/gsu/grid.py'],
    [('adjacency matrix', 'gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix')], specs=['gsu_basic', 'gsu_io'])

PROPS['C03'] = P(
    'Trajectory dumps and computed-data files list every item once',
    'A stored trajectory or computed-data file contains its header and then one record for each point, face or zone '
    'value in order, formatted so that it can be read back.',
    'all trajectories, all grids and variable lists',
    'The test stores and loads one file without comparing contents.',
    ['crysgsu/geom/trajectory.py', 'crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py'],
    [('trajectory', 'geom.trajectory:Trajectory'), ('zone records', 'gsu.zone:Zone')], specs=['geom', 'gsu_basic', 'gsu_io'])

PROPS['E01'] = P(
    'Zones hold exactly the nodes, edges and faces linked to them',
    'After a decomposition every face has a zone, the zones are numbered by their position, and a node or edge is '
    'listed once in each zone that owns one of its faces and in no other.',
    'all grids and all assignments of faces to zones',
    'The tests decompose one grid and only check that nothing is raised.',
    ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py'],
    [('linking', 'gsu.grid:Grid.link_nodes_and_edges_to_zones'), ('numbering', 'gsu.grid:Grid.set_zones_ids')],
    specs=['gsu_decompose'])

PROPS['F01'] = P(
    'Grid objects start empty and are linked symmetrically',
    'New nodes, edges, faces, zones and grids start with the documented empty state, the linking primitives record '
    'each relation on both of its ends exactly once and refuse what would break the grid, and unlinking removes both '
    'ends.',
    'all objects and all states of their link lists',
    'Tests only see links of the bundled grids through higher level calls.',
    ['crysgsu/gsu/node.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/grid.py'],
    [('constructors and link primitives', 'gsu.grid:Grid')], specs=['gsu_basic'])

PROPS['F02'] = P(
    'Incidence queries answer from the incidence lists',
    'Queries for neighbours, common edges, shared and opposite nodes, border elements and counts return exactly the '
    'elements that satisfy the relation in the incidence lists, and none when there is none.',
    'all incidence states, including faces with missing neighbours and edges with one face',
    'Tests reach a few of the queries on the bundled grids.',
    ['crysgsu/gsu/face.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/node.py', 'crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py'],
    [('queries', 'gsu.face:Face'), ('counters', 'gsu.grid:Grid')], specs=['gsu_basic'])

PROPS['P01'] = P(
    'Border and fixed nodes are recognised from one-sided edges',
    'After marking, the fixed nodes are exactly the end points of edges with a single adjacent face, and their number '
    'equals the reported count.',
    'all grids and edge incidence states',
    'No test marks border nodes.',
    ['crysgsu/gsu/grid.py'], [('mark fixed nodes', 'gsu.grid:Grid')], specs=['gsu_basic'])

PROPS['C01'] = P(
    'Stored grid files describe the grid completely',
    'For every grid, the stored file carries the title, the variable list, and for every zone its name, its node and '
    'face counts, every coordinate, every face value, and for every face the 1-based positions of its nodes in the '
    'node list of that zone.',
    'all grids, zones and data sets',
    'The tests store a few grids and never compare the file with the grid; a shifted index or a lost block of a zone '
    'other than the first needs all grids.',
    ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py'],
    [('store', 'gsu.grid:Grid.store'), ('slices', 'gsu.zone:Zone.get_nodes_coord_slice_str')],
    specs=['gsu_io'], observe=['text of the stored file'])

PROPS['D02'] = P(
    'Loading calculated data updates exactly the faces named in the file',
    'Every record of a calculated-data file replaces the data of the face with the global identifier of that record by '
    'the values of the record under the names of the header, and no other face changes.',
    'all grids and all well-formed files, in any record order',
    'The test loads one file written from the same grid.',
    ['crysgsu/gsu/grid.py'], [('load of calculated data', 'gsu.grid:Grid.load_faces_calc_data')], specs=['gsu_io'])

PROPS['E02'] = P(
    'Simple decompositions give every face to exactly one zone',
    'The mono, random and linear decompositions create the requested number of zones, give each face to exactly one of '
    'them (the linear one in equal shares up to one face), and relink nodes and edges; the exploded view moves every '
    'node of a zone by the same vector away from the mean point.',
    'all grids, zone counts and random choices',
    'The tests decompose one grid into fixed counts and only check that nothing is raised.',
    ['crysgsu/gsu/grid.py'],
    [('decompositions', 'gsu.grid:Grid.decompose_linear'), ('exploded view', 'gsu.grid:Grid.move_from_mean_point')],
    specs=['gsu_decompose'])

PROPS['E03'] = P(
    'Hierarchical splitting keeps all faces and refuses illegal splits',
    'Every split of a zone sends each of its faces to exactly one half, chooses the extractor with the best metric, and '
    'the hierarchical decomposition splits until the requested level, leaves fixed zones whole and never leaves a face '
    'without a zone.',
    'all grids, extractors, levels and fixed zones',
    'The test runs one hierarchical decomposition without looking at the zones.',
    ['crysgsu/gsu/grid.py'], [('splitting', 'gsu.grid:Grid.split_zone')], specs=['gsu_decompose'])

PROPS['E04'] = P(
    'Breadth-first paths visit each admissible face once',
    'A breadth-first path over the faces visits exactly the unmarked faces accepted by the predicate, each once, by '
    'connected components, and the Farhat decomposition cuts that path into the requested zones without losing a face.',
    'all grids, predicates and start faces, disconnected grids included',
    'The tests only run connected grids and do not inspect the result.',
    ['crysgsu/gsu/grid.py'], [('paths', 'gsu.grid:Grid.bfs_path'), ('Farhat', 'gsu.grid:Grid.decompose_farhat')],
    specs=['gsu_decompose'])

PROPS['H01'] = P(
    'File names are taken apart and grouped without loss',
    'The stem, process number, timestamp and extension of a file name are exactly the parts of the naming convention, '
    'a name is accepted as a data file of a calculation if and only if all its parts are valid, and grouping by '
    'timestamp puts every file into exactly one group, in order.',
    'all file names, also ones that do not follow the convention, and all lists of names',
    'The tests only look at grid files with fixed names.',
    ['crysgsu/utils.py'], [('file names', 'utils:dummy_split_filename'), ('groups', 'utils:group_txt_files_by_timestamps')],
    specs=['tools'])

PROPS['H02'] = P(
    'Splitting writes the decomposition the options ask for',
    'For every grid and every set of options the split tool refuses missing files, wrong extensions, unknown fixed '
    'zones and impossible zone counts, completes missing recovery factors of the faces only, runs exactly the '
    'requested decomposition with the requested number of zones and fixed zones, and stores the result where asked.',
    'all grids, strategies, fixed zone lists, recovery factors and option files',
    'The test runs the tool once with one strategy; refused combinations and option files are never tried.',
    ['crysgsu/split.py'], [('split tool', 'split:split'), ('options', 'split:extract_strategy_from_json')],
    specs=['tools'], over=('inputs', 'configurations'))

PROPS['H03'] = P(
    'Merging combines every result file of a timestamp',
    'For every timestamp among the result files the merge tool stores one grid that carries the data of all files of '
    'that timestamp and of no other, read into a freshly loaded grid, and adds up the time series of all processes '
    'column by column except the time.',
    'all directories of result files, any number of processes and timestamps',
    'The test merges one directory and does not compare contents; the order of a directory listing is not sampled.',
    ['crysgsu/merge.py'], [('merge tool', 'merge:merge')], specs=['tools'], over=('inputs', 'histories'))

PROPS['I01'] = P(
    'Each remeshing step adds the ice of the step along the smoothed normals',
    'A remeshing run distributes the target ice of every face over the steps, and each step moves every node that is '
    'not fixed along its direction by the area weighted height of its faces, with directions and heights smoothed as '
    'configured, and the face data is corrected by the area ratio afterwards.',
    'all grids, ice volumes, step counts and options',
    'No test runs the remesher.',
    ['crysgsu/remeshing.py'],
    [('run', 'remeshing:TongRemesher.__call__'), ('step', 'remeshing:TongRemesher.remesh_step'),
     ('directions', 'remeshing:TongRemesher.normals_smoothing'), ('shifts', 'remeshing:TongRemesher.define_ice_shifts')],
    specs=['remesh'], over=('inputs', 'histories'))

PROPS['I02'] = P(
    'Remesher options come from the options file or are the documented defaults',
    'Every option of the remesher equals the value given in the options file when there is one and its documented '
    'default otherwise, and no option is taken for another.',
    'all option files, with any subset of the options',
    'No test constructs a remesher.',
    ['crysgsu/remeshing.py'], [('options', 'remeshing:TongRemesher.try_to_read_options')], specs=['remesh'],
    over=('configurations',))

PROPS['I03'] = P(
    'Pseudo two-dimensional grids stay two-dimensional',
    'For a grid of columns along Z the correction gives all nodes of a column the same X and Y and keeps Z, and frozen '
    'coordinates are restored exactly.',
    'all grids with columns of nodes along the Z axis',
    'No test runs the remesher.',
    ['crysgsu/remeshing.py'], [('correction', 'remeshing:TongRemesher.correct_coords_for_pseudo_2d_oz')],
    specs=['remesh'])

PROPS['N01'] = P(
    'Physical laws evaluate their tables and polynomials',
    'Tabulated laws interpolate linearly between the values of their table, fitted laws evaluate their function with '
    'the fitted parameters, polynomials evaluate to their definition for every argument, and the tables and constants '
    'hold the published values.',
    'all tables, parameters and arguments',
    'No test touches the physical laws.',
    ['crysgsu/phys/laws.py'], [('laws', 'phys.laws:FuncLaw')], specs=['phys'])

PROPS['J01'] = P(
    'Processes exchange the border data of their zones',
    'For every zone, the values put into the exchange buffer for a neighbour are those of the real faces at the edges '
    'shared with that neighbour, in the order of the edges of the grid; every message goes to and comes from the right '
    'process with the right length, and received values land on the ghost faces of the same edges.  After the run the '
    'root process gathers the ice of all zones, in zone order, onto the faces before remeshing and storing.',
    'all numbers of processes, zone layouts and data fields; every interleaving of the sends and receives of a run, '
    'because every message is requested before the common wait',
    'No test starts the parallel program: it needs MPI, and deadlocks or swapped buffers depend on the number of '
    'processes.',
    ['crysgsu/crys.py', 'crysgsu/gsu/zone.py'],
    [('borders', 'crys:get_mpi_borders'), ('exchange', 'crys:start_exchanges'), ('buffers', 'crys:put_to_superbuffer'),
     ('gathering', 'crys:remesh')],
    specs=['crys', 'gsu_basic'], over=('inputs', 'schedules', 'configurations'))

PROPS['J02'] = P(
    'Arrays taken from a zone describe the zone',
    'The coordinate, variable and connectivity arrays of a zone have one row per node or face in zone order, with the '
    'columns of the solver and global identifiers as corners, and a named variable is returned for every face.',
    'all zones, variable lists and data',
    'No test compares the arrays of a zone with the zone.',
    ['crysgsu/gsu/zone.py'],
    [('coordinates', 'gsu.zone:Zone.coords_np_array'), ('variables', 'gsu.zone:Zone.variables_np_array'),
     ('connectivity', 'gsu.zone:Zone.connectivity_list_faces_nodes')], specs=['gsu_basic'])

PROPS['T01'] = P(
    'Removing and replacing elements leaves no dangling links',
    'Deleting a face, edge or node removes it from the grid, from every zone and from every element that refers to it, '
    'and removes nothing else; replacing a node by another hands all edges and faces over to the new node.',
    'all grids, histories of deletions, and all positions of the element in its lists',
    'The tests never delete an element.',
    ['crysgsu/gsu/grid.py', 'crysgsu/gsu/node.py'],
    [('face', 'gsu.grid:Grid.del_face'), ('edge', 'gsu.grid:Grid.del_edge'), ('node', 'gsu.grid:Grid.del_node'),
     ('replacement', 'gsu.node:Node.replacing_node')], specs=['gsu_basic'], over=('inputs', 'histories'))

PROPS['T02'] = P(
    'Atomic transformations keep the grid a consistent triangulation',
    'Dividing a face, tightening along a border, cutting an inner or border edge with one or two points and collapsing an '
    'edge replace the touched faces by faces with the orientation, data and zone of their parents, link every node, edge '
    'and face of the result with each other, keep the identifiers in use, and refuse edges without the needed faces.',
    'all grids, faces, edges and points, and all positions of nodes and edges in their lists',
    'The transformations run only inside the unfinished refinement and no test calls them; a wrong link shows only in a '
    'later operation on the neighbour.',
    ['crysgsu/gsu/grid.py'],
    [('division', 'gsu.grid:Grid.divide_face'), ('flip', 'gsu.grid:Grid.collapse_face'),
     ('cut', 'gsu.grid:Grid.cut_edge'), ('border cut', 'gsu.grid:Grid.cut_single_edge'),
     ('double cut', 'gsu.grid:Grid.cut_edge_with_two_nodes'), ('collapse', 'gsu.grid:Grid.collapse_edge')],
    specs=['atomic'], over=('inputs', 'histories'))

PROPS['U01'] = P(
    'Refinement cuts the intersected faces at their own points',
    'For every triangle with intersection points, the points on its border other than corners and inside it decide what '
    'happens: one point on an edge cuts that edge of its face (with or without a neighbour), one inner point divides the '
    'face, two points on one edge cut the edge twice, and an edge the neighbouring face has already cut is left alone.  '
    'The edge of a point is the side with which it spans no area, and the opposite corner is reported with it.',
    'all triangles, numbers and positions of intersection points, faces, edges and states reached by earlier cuts',
    'No test refines a grid; the order of cuts of neighbouring faces only matters on particular intersections.',
    ['crysgsu/refine.py'],
    [('refinement', 'refine:refine_grid.refine'), ('edge of a point', 'refine:refine_grid.point_on_edge_of_triangle')],
    specs=['refine'], over=('inputs', 'histories'))

PROPS['Q01'] = P(
    'Smoothing moves every node along its null space',
    'One smoothing step moves every node simultaneously by the scaled projection of its laplacian on the null space of '
    'the area weighted normals of its faces, keeps border nodes where asked, and repeats for the given number of '
    'iterations.  Intermediate grids are stored under the number of their iteration when asked and the degenerate '
    'cases are errors.',
    'all grids, step sizes, thresholds and numbers of iterations',
    'No test runs the smoothing; in-place updates while iterating or a transposed projection give plausible grids.',
    ['crysgsu/smoothing.py'],
    [('smoothing', 'smoothing:NullSpaceSmoothing.smoothing'), ('laplacian', 'smoothing:NullSpaceSmoothing.get_laplacian'),
     ('normals', 'smoothing:NullSpaceSmoothing.create_matrix_of_normals'),
     ('shifts', 'smoothing:Smoothing.apply_shifts')], specs=['smooth'])

PROPS['G01'] = P(
    'Droplets fly by the drag law until they hit, leave or stop',
    'A step moves the droplet by its velocity and accelerates it by the drag of the air at the nearest point of the air '
    'grid.  The flight ends exactly when the number of points is exhausted, the droplet leaves the box of the air grid, '
    'stops, or its last segment meets the surface, and then the face that was hit is reported with all points flown.',
    'all start points, velocities, air grids and surfaces; any number of steps',
    'No test flies a droplet, and the order of the end conditions only shows on particular trajectories.',
    ['crysgsu/drops.py'],
    [('step', 'drops:Space.fly_step'), ('flight', 'drops:Space.fly'), ('air grid', 'drops:read_vel_field_from_file')],
    specs=['drops'], over=('inputs', 'histories'))

PROPS['G02'] = P(
    'Secondary impingement comes from every stalling face',
    'Every face whose stall value exceeds the threshold sends one droplet from above its centroid along its normal with '
    'its own velocity and size, its trajectory is stored under the number of the face, and a face that is hit gets the '
    'stalled mass per own area.  The grid is then stored as a check point without temperature, water and ice.',
    'all stall grids, air grids and thresholds',
    'No test runs the droplets program; it needs a grid with stalled water.',
    ['crysgsu/drops.py'], [('droplets', 'drops:drops')], specs=['drops'])

PROPS['D01'] = P(
    'Loading a grid file rebuilds the grid it describes',
    'After loading, the grid has the name, variables and modes of the file and one zone per zone block with the nodes, '
    'data and faces of the block; nodes with equal rounded coordinates are one node shared by the zones, and every face '
    'is linked with its three nodes and edges and numbered in file order.  Files that deviate from '
    'the format are refused.',
    'all grid files: any number of zones and variables, any order of lines the format allows, shared borders between '
    'any zones',
    'The tests load fixed files and compare nothing but an immediate round trip.',
    ['crysgsu/gsu/grid.py'],
    [('loading', 'gsu.grid:Grid.load'), ('linking', 'gsu.grid:Grid.complex_link_face_node_node_edge')], specs=['gsu_io'],
    over=('inputs', 'histories'),
    explanation=REFERENCE + '  The reading loop is cut: the part around it and one iteration from arbitrary values of '
    'its variables are compared separately, so the result holds for any number of zones.')

PROPS['L01'] = P(
    'Lazurit meshes are converted block by block without loss',
    'Every pair of a mesh file and a solution file of a Lazurit directory becomes one zone under the name of its block: '
    'with all nodes of the block, two triangles per cell that cover the cell, and the values of the cell on both '
    'triangles (the last three negated).  Odd or mismatched sets of files are refused, and the result is reloaded so '
    'that the zones share their border nodes.',
    'all blocks, sizes and values',
    'No test converts a Lazurit mesh.',
    ['crysgsu/convert/lazurit_to_crystal.py'],
    [('program', 'lazurit_to_crystal:__main__'), ('lists', 'lazurit_to_crystal:double_and_neg_list')], specs=['convert'])

PROPS['L02'] = P(
    'Solver results are filtered and merged line by line',
    'Filtering keeps exactly the zones to extract and exactly the asked variables of every line under the names of this '
    'package, data of nodes is averaged to faces, the results of the two solvers are merged column by column in the '
    'order of the first file, and heat transfer and recovery factors follow their formulas on every line.',
    'all files in the export format with any number of zones, nodes, faces and variables; all lists of names',
    'No test converts a solver result; lost or shifted lines appear only on files with several zones.',
    ['crysgsu/convert/ansys_to_crystal.py'],
    [('zones', 'ansys_to_crystal:filter_zones'), ('variables', 'ansys_to_crystal:filter_variables'),
     ('averaging', 'ansys_to_crystal:data_from_nodes_to_faces'),
     ('merging', 'ansys_to_crystal:merge_fensap_drop3d_adiabatic'),
     ('factors', 'ansys_to_crystal:calculate_htc_recovery_factor')], specs=['convert'], over=('inputs', 'configurations'),
    explanation=REFERENCE + '  Functions which read line by line are cut at their main loop: the part around the loop '
    'and one iteration from arbitrary values of its variables are compared separately.')

PROPS['L03'] = P(
    'Node centred grids become face centred grids without loss',
    'Importing reads every zone with its nodes, faces and values, equal nodes of a zone are merged and renumbered '
    'without losing a face, every face gets the mean of the values of its three nodes, and exporting writes all zones '
    'with all nodes and faces by one based numbers.',
    'all grids with any number of zones and repeated nodes',
    'No test runs the converter.',
    ['crysgsu/convert/gsu_converter.py'],
    [('import', 'gsu_converter:Grid.Import'), ('nodes', 'gsu_converter:Zone.DeleteExtraNodes'),
     ('averaging', 'gsu_converter:Grid.ConvertDataFromNodesToFaces'), ('export', 'gsu_converter:Grid.Export')],
    specs=['convert'])

PROPS['L04'] = P(
    'Interpolated values come from the right faces of the other grid',
    'Every face of the target grid gets the temperature and water of the source face whose centroid is the nearest one '
    'to its own centroid (beta for the beta tool), no other variable or face changes, and the result is stored under '
    'the asked or the derived name.  Missing files and wrong extensions are refused.',
    'all pairs of grids and all command lines',
    'No test runs the interpolation.',
    ['crysgsu/convert/interpolate.py', 'crysgsu/convert/lazurit_add_beta_from_ansys.py'],
    [('interpolation', 'interpolate:face_centered_interpolation'), ('dual mesh', 'interpolate:dual_mesh'),
     ('beta', 'lazurit_add_beta_from_ansys:__main__')], specs=['convert'])

PROPS['B03'] = P(
    'Triangle and segment meet exactly where geometry says',
    'For a triangle and a segment in general position (not both ends in the plane of a degenerate pair) the '
    'intersection is the single common point of the segment and the closed triangle, borders included, and nothing '
    'when there is none.  Triangles are equal only with the same centre and with corners '
    'of each other.',
    'all triangles and segments in general position',
    'The tests intersect a few constant triangles; the inclusive borders and each of the five conditions need all '
    'inputs.',
    ['crysgsu/geom/triangle.py'],
    [('intersection with a segment', 'geom.triangle:Triangle.intersection_with_segment'),
     ('equality', 'geom.triangle:Triangle.__eq__')], specs=['seg'],
    assumptions=['The solution of the linear system is taken by its exact formula (Cramer), whatever library call or '
                 'elimination computes it.'])

PROPS['K01'] = P(
    'The native kernel stays inside its arrays',
    'The C++ kernel adds one, two and three to the elements of its three arrays that all of them have, each exactly '
    'once, and touches nothing behind the end of the shortest array.',
    'all array lengths and contents, pairwise different arrays',
    'The kernel is called with equal lengths only, by an MPI program the tests never start.',
    ['crysgsu/cpp/src/swim.cpp'], [('kernel', 'cpp.swim:hi')], specs=['swim'],
    explanation='The type-checked syntax tree that clang prints for the C++ source is translated statement by statement '
                '(sa/cxx.py) and then compared as every other function.  ' + REFERENCE)

PROPS['M01'] = P(
    'Nothing refers to a name, attribute or argument that does not exist',
    'Every name, imported symbol, module member and attribute used anywhere in the program is defined where it can come '
    'from, every call of the program\'s own functions, constructors and methods passes arguments its definition accepts, '
    'and no local variable is read where nothing has assigned it.',
    'all paths of all functions, including those no test and no input at hand reaches',
    'Most of the code (remesher, smoothing, refinement, MPI, converters) is never run by the tests; a wrong name shows '
    'only when its line is reached.',
    ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py', 'crysgsu/geom/triangle.py', 'crysgsu/remeshing.py', 'crysgsu/smoothing.py',
     'crysgsu/refine.py', 'crysgsu/crys.py', 'crysgsu/drops.py', 'crysgsu/split.py', 'crysgsu/merge.py',
     'crysgsu/convert/gsu_converter.py', 'crysgsu/convert/ansys_to_crystal.py'],
    [('names', 'all modules'), ('calls', 'all modules')], rules=resolve.RULES, over=('programs', 'inputs'),
    explanation='Seven rules over the syntax trees of all modules: scope analysis of every name; members of project modules '
                'and of the standard library, and of numpy, scipy and mpi4py from their installed stubs (parsed); '
                'attributes of self against the class family; attributes of objects whose class follows from '
                'constructors, annotations and declared field types; all other attributes against the union of all '
                'definitions; argument lists of calls against the definitions they can reach; a may-assign analysis of '
                'every local variable; and straight-line reads of a variable which only one branch before them assigns.',
    assumptions=['Attributes are not created by setattr with computed names.'],
    technique='static resolution rules over the syntax trees (scope, attribute, arity and may-assign analyses)',
    note='A report is a use that no definition in the program or the libraries can satisfy.  Uses that are only wrong '
         'on some feasible paths, or for objects whose class is not known statically, are not reported.')

# ---- properties that static analysis cannot decide here

PROPS['R01'] = P(
    'Refinement makes the surface follow the intersection curve',
    'After refining a grid against another body every intersected face is cut so that the intersection curve runs along '
    'edges, and no other face changes.',
    'all pairs of intersecting grids',
    'Only constant pairs can be sampled, and the result depends on the order of the cuts.',
    ['crysgsu/refine.py'], [('refinement', 'refine:refine_grid')],
    na='The cuts depend on floating point intersection points, on merging of near points and on a work list that the '
       'cuts themselves change; refine_grid is unfinished and shares its intersection lists, so there is no closed '
       'statement of its result that an argument on the source could establish.  Its building blocks are decided '
       'under T02, B02 and B03.')

PROPS['R02'] = P(
    'Remeshing puts exactly the requested ice volume on every face',
    'The volume between the old and the new surface over each face equals the requested ice volume up to a tolerance.',
    'all grids and ice distributions', 'Accuracy over all inputs cannot be sampled.',
    ['crysgsu/remeshing.py'], [('run', 'remeshing:TongRemesher.__call__')],
    na='The method is an approximation whose error depends on curvature, step count and smoothing: a bound is a '
       'numerical-analysis statement on run time quantities.  What each step computes is decided under I01 to I03.')

PROPS['R03'] = P(
    'Decompositions are balanced and have short borders',
    'The zones of a decomposition differ little in size, are contiguous, and their common borders are short.',
    'all grids and zone counts', 'Quality on all grids cannot be sampled.',
    ['crysgsu/gsu/grid.py'], [('decomposition', 'gsu.grid:Grid.decompose')],
    na='Balance and contiguity of the hierarchical and the farhat strategies depend on the geometry and connectivity of '
       'the grid and are not guaranteed by the code; what each strategy does is decided under E02 to E04.')

PROPS['R04'] = P(
    'Smoothing and remeshing never fold the surface',
    'After smoothing or remeshing no two faces intersect and no face is inverted.',
    'all grids and options', 'Self intersection over all inputs cannot be sampled.',
    ['crysgsu/smoothing.py', 'crysgsu/remeshing.py'], [('smoothing', 'smoothing:NullSpaceSmoothing')],
    na='Whether surfaces fold depends on coordinates and step sizes at run time; no check in the code excludes it and no '
       'static bound in reach does.')

PROPS['R05'] = P(
    'Geometric predicates are right under rounding',
    'Intersection and location predicates give the exact answer in spite of floating point rounding.',
    'all coordinates', 'Rounding cases are too rare for samples.',
    ['crysgsu/geom/triangle.py'], [('intersection', 'geom.triangle:Triangle.intersection_with_segment')],
    na='The analysis compares real-valued formulas; rounding depends on run time values, and the code uses fixed '
       'tolerances that make no exact claim.')

PROPS['R06'] = P(
    'Processes never deadlock and results do not depend on their number',
    'The MPI program terminates for every number of processes and gives the same result as one process.',
    'all process counts, partitions and message orders', 'No test starts more than one process.',
    ['crysgsu/crys.py'], [('exchange', 'crys:run')], over=('schedules',),
    na='Termination depends on the MPI runtime and on the partition read at run time; the pairing of sends, receives, '
       'counts and offsets in the source is decided under J01.')
