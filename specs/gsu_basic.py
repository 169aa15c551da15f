"""
Reference functions: nodes, edges, faces, zones, counters and the zones adjacency matrix.
"""
import math
import numpy as np
import geom
import gsu
from gsu import Node, Edge, Face, Zone, Grid, ZonesAdjacencyMatrix
from geom import Vect, Triangle


# ---------------------------------------------------------------- incidence queries

@of('gsu.node:Node.__init__', 'F01', self='fresh')
def node_init(self: 'Node', p: 'Vect'):
    self.GloId = -1
    self.P = p
    self.RoundedCoords = (round(p.X, 10), round(p.Y, 10), round(p.Z, 10))
    self.Edges = []
    self.Faces = []
    self.border = False


@of('gsu.node:Node.is_near', 'F01')
def node_is_near(self: 'Node', n: 'Node'):
    return self.RoundedCoords == n.RoundedCoords


@of('gsu.node:Node.__eq__', 'F01')
def node_eq(self: 'Node', n: 'Node'):
    return self.RoundedCoords == n.RoundedCoords


@of('gsu.edge:Edge.__init__', 'F01', self='fresh')
def edge_init(self: 'Edge'):
    self.GloId = -1
    self.Nodes = []
    self.Faces = []


@of('gsu.edge:Edge.is_border', 'F02')
def edge_is_border(self: 'Edge'):
    return len(self.Faces) == 1


@of('gsu.edge:Edge.is_cross', 'F02')
def edge_is_cross(self: 'Edge'):
    n = len(self.Faces)
    if n != 1 and n != 2:
        raise Exception('faces')
    return n == 2 and self.Faces[0].Zone != self.Faces[1].Zone


@of('gsu.edge:Edge.is_inner', 'F02')
def edge_is_inner(self: 'Edge'):
    n = len(self.Faces)
    if n != 1 and n != 2:
        raise Exception('faces')
    return n == 2 and self.Faces[0].Zone == self.Faces[1].Zone


@of('gsu.edge:Edge.is_outer', 'F02')
def edge_is_outer(self: 'Edge'):
    n = len(self.Faces)
    if n != 1 and n != 2:
        raise Exception('faces')
    return n == 1 or self.Faces[0].Zone != self.Faces[1].Zone


@of('gsu.edge:Edge.is_connect_zones', 'F02')
def edge_connects(self: 'Edge', z0: 'Zone', z1: 'Zone'):
    if len(self.Faces) != 2:
        return False
    a, b = self.Faces[0].Zone, self.Faces[1].Zone
    return (a == z0 and b == z1) or (a == z1 and b == z0)


@of('gsu.edge:Edge.len_edge', 'F02')
def edge_len(self: 'Edge'):
    assert len(self.Nodes) == 2
    d = self.Nodes[0].P - self.Nodes[1].P
    return math.sqrt(d.X * d.X + d.Y * d.Y + d.Z * d.Z)


@of('gsu.edge:Edge.is_adjacent_with', 'F02')
def edge_adjacent(self: 'Edge', e: 'Edge'):
    a, b, c, d = self.Nodes[0], self.Nodes[1], e.Nodes[0], e.Nodes[1]
    return a.is_near(c) or a.is_near(d) or b.is_near(c) or b.is_near(d)


@of('gsu.face:Face.__init__', 'F01', self='fresh')
def face_init(self: 'Face', names: '[str]', values: '[num]'):
    self.GloId = -1
    self.Data = dict(zip(names, values))
    self.Nodes = []
    self.Edges = []
    self.Zone = None


@of('gsu.face:Face.__getitem__', 'F01')
def face_get(self: 'Face', name: str):
    return self.Data[name] if name in self.Data else 0.0


@of('gsu.face:Face.__setitem__', 'F01')
def face_set(self: 'Face', name: str, value: num):
    self.Data[name] = value


@of('gsu.face:Face.get_neighbour', 'F02')
def face_neighbour(self: 'Face', edge: 'Edge'):
    fs = edge.Faces
    if len(fs) == 1:
        if fs[0] is not self:
            raise Exception('not incident')
        return None
    if len(fs) == 2:
        if fs[0] is self:
            return fs[1]
        if fs[1] is self:
            return fs[0]
        raise Exception('not incident')
    raise Exception('faces')


@of('gsu.face:Face.unlink_from_zone', 'F01')
def face_unlink(self: 'Face'):
    if self.Zone is not None:
        self.Zone.Faces.remove(self)
        self.Zone = None


@of('gsu.face:Face.get_center', 'F02')
def face_center(self: 'Face'):
    a, b, c = self.Nodes[0].P, self.Nodes[1].P, self.Nodes[2].P
    return ((a.X + b.X + c.X) / 3, (a.Y + b.Y + c.Y) / 3, (a.Z + b.Z + c.Z) / 3)


@of('gsu.face:Face.get_triangle', 'F02')
def face_triangle(self: 'Face'):
    a, b, c = self.Nodes[0].P, self.Nodes[1].P, self.Nodes[2].P
    return NEW('Triangle', Points=[Vect(a.X, a.Y, a.Z), Vect(b.X, b.Y, b.Z), Vect(c.X, c.Y, c.Z)], BackRef=self)


@of('gsu.face:Face.max_edge_from_face', 'F02', pure=('Edge.len_edge',))
def face_max_edge(self: 'Face'):
    best = self.Edges[0]
    m = best.len_edge()
    for e in self.Edges[1:]:
        if e.len_edge() > m:
            best = e
            m = e.len_edge()
    return best


# ---------------------------------------------------------------- zones and grids: containers

@of('gsu.zone:Zone.__init__', 'F01', self='fresh')
def zone_init(self: 'Zone', name: str):
    self.Id = -1
    self.Name = name
    self.Nodes = []
    self.Edges = []
    self.Faces = []
    self.IsFixed = False


@of('gsu.zone:Zone.add_node', 'F01')
def zone_add_node(self: 'Zone', n: 'Node'):
    self.Nodes.append(n)
    return n


@of('gsu.zone:Zone.add_edge', 'F01')
def zone_add_edge(self: 'Zone', e: 'Edge'):
    self.Edges.append(e)
    return e


@of('gsu.zone:Zone.add_face', 'F01')
def zone_add_face(self: 'Zone', f: 'Face'):
    if f.Zone is not None:
        f.Zone.Faces.remove(f)
    f.Zone = self
    self.Faces.append(f)
    return f


@of('gsu.zone:Zone.outer_edges_count', 'F02')
def zone_outer(self: 'Zone'):
    return sum([1 for e in self.Edges if e.is_outer()])


@of('gsu.grid:Grid.__init__', 'F01', self='fresh')
def grid_init(self: 'Grid'):
    self.Name = ''
    self.Nodes = []
    self.Edges = []
    self.Faces = []
    self.Zones = []
    self.RoundedCoordsBag = set()
    self.number_of_border_nodes = 0


@of('gsu.grid:Grid.clear', 'D01')
def grid_clear(self: 'Grid'):
    self.Name = ''
    self.Nodes.clear()
    self.Edges.clear()
    self.Faces.clear()
    self.Zones.clear()
    self.RoundedCoordsBag.clear()
    self.number_of_border_nodes = 0


@of('gsu.grid:Grid.faces_count_in_zones', 'F02')
def grid_faces_in_zones(self: 'Grid'):
    n = 0
    for z in self.Zones:
        n += len(z.Faces)
    return n


@of('gsu.grid:Grid.faces_count_in_fixed_zones', 'F02')
def grid_faces_in_fixed(self: 'Grid'):
    n = 0
    for z in self.Zones:
        if z.IsFixed:
            n += len(z.Faces)
    return n


@of('gsu.grid:Grid.find_near_node', 'F01')
def grid_find_near(self: 'Grid', n: 'Node'):
    if n.RoundedCoords not in self.RoundedCoordsBag:
        return None
    for m in self.Nodes:
        if m.RoundedCoords == n.RoundedCoords:
            return m
    raise Exception('bag')


@of('gsu.grid:Grid.add_node', 'F01', pure=('Grid.find_near_node',))
def grid_add_node(self: 'Grid', n: 'Node', merge: bool):
    found = self.find_near_node(n)
    if merge and found is not None:
        return found
    n.GloId = len(self.Nodes)
    self.Nodes.append(n)
    self.RoundedCoordsBag.add(n.RoundedCoords)
    return n


@of('gsu.grid:Grid.add_edge', 'F01')
def grid_add_edge(self: 'Grid', e: 'Edge', glo_id: 'int?'):
    e.GloId = len(self.Edges) if glo_id is None else glo_id
    self.Edges.append(e)
    return e


@of('gsu.grid:Grid.add_face', 'F01')
def grid_add_face(self: 'Grid', f: 'Face', glo_id: 'int?'):
    f.GloId = len(self.Faces) if glo_id is None else glo_id
    self.Faces.append(f)
    return f


@of('gsu.grid:Grid.set_zones_ids', 'E01')
def grid_zone_ids(self: 'Grid'):
    for i in range(len(self.Zones)):
        self.Zones[i].Id = i


@of('gsu.grid:Grid.reset_zones_ids', 'E01')
def grid_reset_zone_ids(self: 'Grid'):
    for z in self.Zones:
        z.Id = -1


@of('gsu.grid:Grid.link_node_edge', 'F01')
def link_node_edge(n: 'Node', e: 'Edge'):
    n.Edges.append(e)
    e.Nodes.append(n)


@of('gsu.grid:Grid.link_node_face', 'F01')
def link_node_face(n: 'Node', f: 'Face'):
    n.Faces.append(f)
    f.Nodes.append(n)


@of('gsu.grid:Grid.link_edge_face', 'F01')
def link_edge_face(e: 'Edge', f: 'Face'):
    if len(e.Faces) == 2:
        raise Exception('faces')
    e.Faces.append(f)
    f.Edges.append(e)


@of('gsu.grid:Grid.find_edge', 'F01')
def find_edge(a: 'Node', b: 'Node'):
    for e in a.Edges:
        if b in e.Nodes:
            return e
    return None


@of('gsu.grid:Grid.complex_link_face_node_node_edge', 'F01', pure=('Grid.find_edge',))
def complex_link(self: 'Grid', face: 'Face', a: 'Node', b: 'Node'):
    e = Grid.find_edge(a, b)
    if e is None:
        e = Edge()
        e.GloId = len(self.Edges)
        self.Edges.append(e)
        a.Edges.append(e)
        e.Nodes.append(a)
        b.Edges.append(e)
        e.Nodes.append(b)
    if len(e.Faces) == 2:
        raise Exception('faces')
    e.Faces.append(face)
    face.Edges.append(e)


@of('gsu.grid:Grid.get_triangles_list', 'F02', pure=('Face.get_triangle',))
def grid_triangles(self: 'Grid'):
    return [f.get_triangle() for f in self.Faces]


@of('gsu.grid:Grid.mark_all_fixed_nodes', 'P01')
def mark_fixed(self: 'Grid'):
    for e in self.Edges:
        if len(e.Faces) == 1:
            e.border = True
            for n in e.Nodes:
                if not n.border:
                    n.border = True
                    self.number_of_border_nodes += 1


# ---------------------------------------------------------------- zones adjacency matrix

@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.inc', 'C02')
def zam_inc(self: 'ZonesAdjacencyMatrix', i: int, j: int):
    if i == j:
        self.M[i][i] += 1
    else:
        self.M[i][j] += 1
        self.M[j][i] += 1


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.inc_border', 'C02', effects=('ZonesAdjacencyMatrix.inc',))
def zam_inc_border(self: 'ZonesAdjacencyMatrix', i: int):
    self.inc(i, self.ZonesCount)


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.__init__', 'C02', self='fresh',
    effects=('ZonesAdjacencyMatrix.inc', 'ZonesAdjacencyMatrix.inc_border'))
def zam_init(self: 'ZonesAdjacencyMatrix', es: '[Edge]', zs: '[Zone]'):
    self.ZonesCount = len(zs)
    self.M = [[0 for j in range(len(zs) + 1)] for i in range(len(zs) + 1)]
    for e in es:
        fs = e.Faces
        if len(fs) == 1:
            self.inc_border(zs.index(fs[0].Zone))
        elif len(fs) == 2:
            self.inc(zs.index(fs[0].Zone), zs.index(fs[1].Zone))
        else:
            raise Exception('faces')


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.zone_cross_edges_array', 'C02')
def zam_cross(self: 'ZonesAdjacencyMatrix', zi: int):
    line = list(self.M[zi])
    line[zi] = 0
    line[self.ZonesCount] = 0
    return line


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.zone_cross_edges_count', 'C02',
    pure=('ZonesAdjacencyMatrix.zone_cross_edges_array',))
def zam_cross_count(self: 'ZonesAdjacencyMatrix', zi: int):
    return sum(self.zone_cross_edges_array(zi))


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.zone_cross_borders_count', 'C02',
    pure=('ZonesAdjacencyMatrix.zone_cross_edges_array',))
def zam_cross_borders(self: 'ZonesAdjacencyMatrix', zi: int):
    n = 0
    for x in self.zone_cross_edges_array(zi):
        if x > 0:
            n += 1
    return n


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.zone_max_cross_border_len', 'C02',
    pure=('ZonesAdjacencyMatrix.zone_cross_edges_array',))
def zam_max_len(self: 'ZonesAdjacencyMatrix', zi: int):
    return max(self.zone_cross_edges_array(zi))


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.max_cross_border_len', 'C02',
    pure=('ZonesAdjacencyMatrix.zone_cross_edges_array',))
def zam_max_all(self: 'ZonesAdjacencyMatrix'):
    return max([max(self.zone_cross_edges_array(i)) for i in range(self.ZonesCount)])


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.edges_statistics', 'C02')
def zam_statistics(self: 'ZonesAdjacencyMatrix'):
    n = self.ZonesCount
    border = sum([self.M[i][n] for i in range(n)])
    inner = sum([self.M[i][i] for i in range(n)])
    cross = sum([sum(self.M[i][i + 1:n]) for i in range(n)])
    total = border + inner + cross
    return (total, border, inner, cross,
            100 * border / total, 100 * inner / total, 100 * cross / total)


# ---------------------------------------------------------------- counts, text forms, arrays and single deletions

@of('gsu.grid:Grid.zones_count', 'F02')
def grid_zones(self: 'Grid'):
    return len(self.Zones)


@of('gsu.grid:Grid.nodes_count', 'F02')
def grid_nodes(self: 'Grid'):
    return len(self.Nodes)


@of('gsu.grid:Grid.edges_count', 'F02')
def grid_edges(self: 'Grid'):
    return len(self.Edges)


@of('gsu.grid:Grid.faces_count', 'F02')
def grid_faces(self: 'Grid'):
    return len(self.Faces)


@of('gsu.zone:Zone.nodes_count', 'F02')
def zone_nodes(self: 'Zone'):
    return len(self.Nodes)


@of('gsu.zone:Zone.edges_count', 'F02')
def zone_edges(self: 'Zone'):
    return len(self.Edges)


@of('gsu.zone:Zone.faces_count', 'F02')
def zone_faces(self: 'Zone'):
    return len(self.Faces)


@of('gsu.zone:Zone.zone_quality_factor', 'F02', pure=('Zone.outer_edges_count',))
def zone_quality(self: 'Zone'):
    return np.sqrt(len(self.Faces)) / self.outer_edges_count()


@of('gsu.zone:Zone.coords_np_array', 'J02')
def zone_coords(self: 'Zone'):
    return np.array([[n.P.Coords[0] for n in self.Nodes], [n.P.Coords[1] for n in self.Nodes],
                     [n.P.Coords[2] for n in self.Nodes]], dtype=np.double).T


@of('gsu.zone:Zone.variables_np_array', 'J02')
def zone_vars(self: 'Zone'):
    n = len(self.Faces)
    zero = np.zeros(n, dtype=np.double)
    return np.array([[f.GloId for f in self.Faces], [f['T'] for f in self.Faces], [f['Hw'] for f in self.Faces],
                     [f['Hi'] for f in self.Faces], [f['HTC'] for f in self.Faces], [f['Beta'] for f in self.Faces],
                     zero, zero, [f['TauX'] for f in self.Faces], [f['TauY'] for f in self.Faces],
                     [f['TauZ'] for f in self.Faces], zero], dtype=np.double).T


@of('gsu.zone:Zone.connectivity_list_faces_nodes', 'J02')
def zone_links(self: 'Zone'):
    for f in self.Faces:
        a, b, c = f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId
        if a == b and b == c:
            raise Exception('degenerate')
    return np.array([[f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId] for f in self.Faces], dtype=np.double)


@of('gsu.zone:Zone.get_variable', 'J02')
def zone_variable(self: 'Zone', name: str):
    return np.array([f[name] for f in self.Faces])


@of('gsu.zones_adjacency_matrix:ZonesAdjacencyMatrix.edges_statistics_string', 'C02',
    pure=('ZonesAdjacencyMatrix.edges_statistics',))
def zam_string(self: 'ZonesAdjacencyMatrix'):
    s = self.edges_statistics()
    return 'edges stats: {0} border ({1:.2f}%), {2} inner ({3:.2f}%), {4} cross ({5:.2f}%)'.format(
        s[1], s[4], s[2], s[5], s[3], s[6])


@of('gsu.grid:Grid.link_nodes_as_in_face', 'T01', pure=())
def link_as(face: 'Face', parent: 'Face', replaced: '[(Node, Node)]'):
    for n in parent.Nodes:
        m = n
        for r in replaced:
            if n is r[0]:
                m = r[1]
                break
        m.Faces.append(face)
        face.Nodes.append(m)


@of('gsu.grid:Grid.convert_grid_stall_to_check_point', 'D02')
def stall(self: 'Grid'):
    for f in self.Faces:
        f.Data.pop('Stall')
        f.Data.pop('StallD')
        f.Data.pop('StallVX')
        f.Data.pop('StallVY')
        f.Data.pop('StallVZ')


@of('gsu.grid:Grid.clean_t_hw_hi', 'D02')
def clean(self: 'Grid'):
    for f in self.Faces:
        f.Data['T'] = 0.0
        f.Data['Hw'] = 0.0
        f.Data['Hi'] = 0.0


@of('gsu.grid:Grid.del_face', 'T01')
def del_face(self: 'Grid', face: 'Face'):
    for n in face.Nodes:
        if face in n.Faces:
            n.Faces.remove(face)
    for e in face.Edges:
        if face in e.Faces:
            e.Faces.remove(face)
    face.Zone.Faces.remove(face)
    self.Faces.remove(face)


@of('gsu.grid:Grid.del_edge', 'T01')
def del_edge(self: 'Grid', edge: 'Edge'):
    for n in [edge.Nodes[0], edge.Nodes[1]]:
        n.Edges.remove(edge)
    for f in edge.Faces:
        f.Edges.remove(edge)
    for z in self.Zones:
        if edge in z.Edges:
            z.Edges.remove(edge)
    self.Edges.remove(edge)


@of('gsu.grid:Grid.del_node', 'T01')
def del_node(self: 'Grid', node: 'Node'):
    for e in node.Edges:
        if node in e.Nodes:
            e.Nodes.remove(node)
    for f in node.Faces:
        if node in f.Nodes:
            f.Nodes.remove(node)
    for z in self.Zones:
        if node in z.Nodes:
            z.Nodes.remove(node)
    self.Nodes.remove(node)
    self.RoundedCoordsBag.remove(node.RoundedCoords)


@of('gsu.node:Node.replacing_node', 'T01')
def replacing(self: 'Node', n: 'Node'):
    REQUIRE(n is not self)
    n.Edges.extend(self.Edges)
    n.Faces.extend(self.Faces)
    for e in self.Edges:
        e.Nodes = [n if x is self else x for x in e.Nodes]
    for f in self.Faces:
        f.Nodes = [n if x is self else x for x in f.Nodes]


@of('gsu.zone:Zone.get_real_face', 'J01', fields={'Face.Zone': 'int'})
def zone_real(self: 'Zone', e: int):
    fs = self.Edges[e].Faces
    if len(fs) != 2:
        raise Exception('faces')
    if fs[0].Zone == self.Id:
        return fs[0]
    if fs[1].Zone == self.Id:
        return fs[1]
    raise Exception('no own face')


@of('gsu.zone:Zone.get_ghost_face', 'J01', fields={'Face.Zone': 'int'})
def zone_ghost(self: 'Zone', e: int):
    fs = self.Edges[e].Faces
    if len(fs) != 2:
        raise Exception('faces')
    if fs[0].Zone == self.Id:
        return fs[1]
    if fs[1].Zone == self.Id:
        return fs[0]
    raise Exception('no own face')
