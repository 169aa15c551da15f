"""
Declared types of the fields of the program's classes and of a few results.

The types only steer name resolution (which class a receiver belongs to) and the choice of the
number domain (integers have tighter comparisons than reals).
"""

NUM, INT, STR, BOOL = 'num', 'int', 'str', 'bool'


def O(c):
    return ('obj', c)


def L(t):
    return ('list', t)


def FL(n, t):
    return ('flist', n, t)


def OPT(t):
    return ('opt', t)


VECT = O('Vect')

FIELDS = {
    'Vect': {'Coords': FL(3, NUM)},
    'Segment': {'Points': FL(2, VECT)},
    'Triangle': {'Points': FL(3, VECT), 'BackRef': OPT(O('Face'))},
    'Box': {k: NUM for k in ('MinX', 'MinY', 'MinZ', 'MaxX', 'MaxY', 'MaxZ')},
    'TrianglesCloud': {'Triangles': L(O('Triangle')), 'Subclouds': L(O('TrianglesCloud')), 'Box': O('Box')},
    'Trajectory': {'Points': L(VECT)},
    'Node': {'GloId': INT, 'P': VECT, 'RoundedCoords': ('tuple', NUM, NUM, NUM), 'Edges': L(O('Edge')),
             'Faces': L(O('Face')), 'border': BOOL, 'ice_dir': VECT, 'ice_shift': NUM, 'shift': VECT, 'frozen_z': NUM},
    'Edge': {'GloId': INT, 'Nodes': L(O('Node')), 'Faces': L(O('Face')), 'border': BOOL},
    'Face': {'GloId': INT, 'Data': ('dict', STR, NUM), 'Nodes': L(O('Node')), 'Edges': L(O('Edge')),
             'Zone': OPT(O('Zone')), 'bfs_mark': BOOL, 'target_ice': NUM, 'rest_ice': NUM, 'actual_ice': NUM,
             'ice_chunk': NUM, 'loc_ice_chunk': NUM, 'saved_area': NUM, 'ice_dir': VECT, 'ice_shift': NUM, 'aux_node': VECT},
    'Zone': {'Id': INT, 'Name': STR, 'Nodes': L(O('Node')), 'Edges': L(O('Edge')), 'Faces': L(O('Face')),
             'IsFixed': BOOL},
    'Grid': {'Name': STR, 'Nodes': L(O('Node')), 'Edges': L(O('Edge')), 'Faces': L(O('Face')),
             'Zones': L(O('Zone')), 'RoundedCoordsBag': ('set', ('tuple', NUM, NUM, NUM)),
             'number_of_border_nodes': INT, 'pseudo_2d_oz_columns': L(L(O('Node')))},
    'TongRemesher': {'grid': O('Grid'), 'mesh_filename': STR, 'json_file': OPT(STR), 'outdir': STR, 'export_stl': BOOL,
                     'verbose': BOOL, 'nsteps_min': INT, 'nsteps_max': INT, 'nsteps_hi_side_fact': NUM,
                     'nsteps_ignore_part': NUM, 'nsmooth_steps': INT, 'nsmooth_s': NUM, 'nsmooth_k': NUM,
                     'hsmooth_steps': INT, 'hsmooth_alfa': NUM, 'hsmooth_beta': NUM, 'rest_volume_redistr': BOOL,
                     'nss_steps': INT, 'nss_epsilon': NUM, 'nss_st': NUM, 'nss_fix_nodes': BOOL, 'pseudo_2d_oz': BOOL},
    'Space': {'Ds': L(('tuple', VECT, VECT)), 'Bx': O('Box'), 'PartitionsTuple': 'nd'},
    'Smoothing': {'grid': O('Grid'), 'num_iterations': INT, 'fix_boundary_nodes': BOOL},
    'NullSpaceSmoothing': {'grid': O('Grid'), 'num_iterations': INT, 'fix_boundary_nodes': BOOL, 'st': NUM, 'epsilon': NUM,
                           'print_intermediate_steps': BOOL},
    'Remesher': {'n_rebuild_steps': INT},
    'Vector': {'X': NUM, 'Y': NUM, 'Z': NUM},
    'gsu_converter.Node': {'Id': INT, 'Point': O('Vector'), 'HTC': NUM, 'Beta': NUM, 'Tau': O('Vector'),
                           'RecoveryFactor': NUM},
    'gsu_converter.Face': {'Nodes': FL(3, O('gsu_converter.Node')), 'HTC': NUM, 'Beta': NUM, 'Tau': O('Vector'),
                           'RecoveryFactor': NUM},
    'gsu_converter.Zone': {'Title': STR, 'Nodes': L(O('gsu_converter.Node')), 'Faces': L(O('gsu_converter.Face'))},
    'gsu_converter.Grid': {'Zones': L(O('gsu_converter.Zone'))},
    'ZonesAdjacencyMatrix': {'ZonesCount': INT, 'M': L(L(INT))},
}

# Lists in these fields have no duplicates.
DISTINCT = {('Grid', f) for f in ('Nodes', 'Edges', 'Faces', 'Zones')} | \
           {('Zone', f) for f in ('Nodes', 'Edges', 'Faces')} | \
           {('Node', 'Edges'), ('Node', 'Faces'), ('Face', 'Edges'), ('Face', 'Nodes'), ('Edge', 'Nodes'), ('Edge', 'Faces')}

# Objects in these fields belong to one object only.
OWNED = {('Node', 'P')}

# Fields with lists of separate lists, and those whose lists have no elements in common.
ROWS = {'M', 'pseudo_2d_oz_columns'}
DISJOINT = {'pseudo_2d_oz_columns'}

# Result types of functions that are not followed.
CALLS = {
    'point_on_edge_of_triangle': ('tuple', ('tuple', VECT, VECT), VECT),
    'Vect.__add__': VECT, 'Vect.__mul__': VECT, 'Vect.orth': VECT, 'wsum': VECT, 'Vect.dot_product': NUM, 'Vect.__sub__': VECT, 'Vect.__truediv__': VECT,
    'Grid.faces_count_in_fixed_zones': INT, 'Grid.bfs_path': L(O('Face')), 'Grid.bfs_path_connectivity_component': L(O('Face')),
    'Grid.get_no_bfs_mark_face': OPT(O('Face')), 'Grid.split_zone_metric': NUM, 'Edge.is_connect_zones': BOOL,
    'Face.get_neighbour': OPT(O('Face')), 'Grid.add_node': O('Node'),
    'Zone.get_real_face': O('Face'), 'Zone.get_ghost_face': O('Face'),
    'Grid.find_edge': OPT(O('Edge')), 'Grid.find_near_node': OPT(O('Node')), 'Edge.len_edge': NUM,
    'Face.get_triangle': O('Triangle'), 'ZonesAdjacencyMatrix.zone_cross_edges_array': L(INT),
    'ZonesAdjacencyMatrix.zone_cross_edges_count': INT, 'ZonesAdjacencyMatrix.zone_cross_borders_count': INT,
    'Triangle.centroid': VECT, 'Triangle.area': NUM, 'Triangle.normal_orth': VECT, 'Box.from_points': O('Box'),
    'Box.from_triangles': O('Box'), 'Triangle.point_in_one_plane': BOOL, 'tetrahedron_volume': NUM,
    'Box.is_intersect_with_segment': BOOL, 'Box.is_potential_intersect_with_box': BOOL,
    'Triangle.intersection_with_segment': L(VECT), 'Triangle.intersection_with_triangle': L(VECT),
    'TrianglesCloud.first_intersection_with_segment': OPT(O('Triangle')), 'TrianglesCloud.is_list': BOOL,
    'TrianglesCloud.separate_triangles_list': L(L(O('Triangle'))),
    'TrianglesCloud.intersection_with_triangles_cloud': L('?'),
    'Space.find_nearest': ('tuple', VECT, VECT), 'Space.fly_step': ('tuple', VECT, VECT), 'Space.inside': BOOL,
    'Space.fly': ('tuple', STR, OPT(O('Face')), O('Trajectory')), 'read_vel_field_from_file': O('Space'),
    'Box.is_point_inside': BOOL, 'Vect.is_near': BOOL, 'np.argmin': INT,
    'point_on_edge_of_triangle': ('tuple', ('tuple', VECT, VECT), VECT), 'Triangle.point_in_triangle': INT, 'Vect.__eq__': BOOL,
    'Triangle.min_side': NUM, 'group_txt_files_by_timestamps': ('dict', STR, ('list', STR)), 'json.load': ('dict', STR, '?'), 'TongRemesher.calculate_nsteps': INT, 'displaced_triangle_volume': NUM,
    'prizmatoid_volume_coefs': ('tuple', NUM, NUM, NUM), 'statistics.mean': NUM,
    'leap_lines': ('list', STR), 'double_list': ('list', STR), 'double_and_neg_list': ('list', STR), 'get_block_name': STR,
    'math.isclose': BOOL, 'os.path.isfile': BOOL, 'os.path.isdir': BOOL, 'os.path.exists': BOOL,
    'os.path.join': STR, 'os.path.basename': STR, 'os.path.dirname': STR, 'os.listdir': ('list', STR),
    'os.path.splitext': ('tuple', STR, STR), 'int': INT, 'float': NUM, 'round': NUM, 'hash': INT, 'id': INT,
    'random.random': NUM, 'random.randint': INT, 'time.time': NUM, 'open': ('obj', 'file'),
    'math.log2': NUM, 'math.pi': NUM, 're.search': '?', 'ord': INT, 'np.linalg.det': NUM, 'numpy.linalg.det': NUM,
    'NullSpaceSmoothing.get_laplacian': VECT, 'NullSpaceSmoothing.create_matrix_of_normals': 'nd', 'np.cumprod': 'nd',
    'np.dot': 'nd', 'np.diag': 'nd', 'scipy.linalg.eig': ('tuple', 'nd', 'nd'), 'scipy.linalg.det': NUM,
}

# Parameter types of the functions passed to functions that are not followed.
CLOSURES = {'Grid.decompose_hierarchical': O('Face'), 'Grid.bfs_path': O('Face'), 'Grid.split_zone': O('Face'), 'Grid.split_zone_metric': O('Face')}

# Objects with an identity; the others are compared by value when they are passed to a function that is not followed.
ENTITIES = {'Node', 'Edge', 'Face', 'Zone', 'Grid', 'file'}

# Variables of scripts which their functions use.
GLOBALS = {
    'ansys_to_crystal': {'zones_to_extract': L(STR)},
    'crys': {'g': O('Grid'), 'z': O('Zone'), 'comm': O('comm'), 'root': INT, 'rank': INT, 'size': INT, 'FILENAME': STR, 'JSON': STR,
             'OUTDIR': STR, 'OUT_REMESHED_MESH': STR},
}
