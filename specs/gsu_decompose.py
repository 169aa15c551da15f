"""
Reference functions: decompositions of a grid into zones.
"""
import math
import random
import geom
import gsu
from gsu import Node, Edge, Face, Zone, Grid
from geom import Vect


@of('gsu.grid:Grid.unlink_faces_from_zones', 'E01')
def unlink(self: 'Grid'):
    for f in self.Faces:
        if not f.Zone.IsFixed:
            f.Zone = None


@of('gsu.grid:Grid.check_faces_are_linked_to_zones', 'E01')
def check_linked(self: 'Grid'):
    for f in self.Faces:
        if f.Zone is None:
            raise Exception('face')


@of('gsu.grid:Grid.post_decompose', 'E01',
    effects=('Grid.link_nodes_and_edges_to_zones', 'Grid.check_faces_are_linked_to_zones', 'Grid.set_zones_ids'))
def post(self: 'Grid'):
    self.link_nodes_and_edges_to_zones()
    self.check_faces_are_linked_to_zones()
    self.set_zones_ids()


@of('gsu.grid:Grid.decompose_mono', 'E02', effects=('Grid.post_decompose', 'Grid.unlink_faces_from_zones', 'Zone.add_face'))
def mono(self: 'Grid', name: 'str?'):
    if name is not None:
        self.Name = name
    self.Zones.clear()
    self.unlink_faces_from_zones()
    z = Zone('mono')
    self.Zones.append(z)
    for f in self.Faces:
        z.add_face(f)
    self.post_decompose()


@of('gsu.grid:Grid.decompose_random', 'E02', effects=('Grid.post_decompose', 'Grid.unlink_faces_from_zones', 'Zone.add_face'))
def rnd(self: 'Grid', count: int, name: 'str?'):
    if name is not None:
        self.Name = name
    self.Zones.clear()
    self.unlink_faces_from_zones()
    for i in range(count):
        self.Zones.append(Zone('random ' + str(i)))
    for f in self.Faces:
        self.Zones[random.randint(0, count - 1)].add_face(f)
    self.post_decompose()


@of('gsu.grid:Grid.decompose_linear', 'E02', effects=('Grid.post_decompose', 'Grid.unlink_faces_from_zones', 'Zone.add_face'))
def linear(self: 'Grid', count: int, name: 'str?'):
    if name is not None:
        self.Name = name
    n = len(self.Faces)
    q, r = n // count, n % count
    self.Zones.clear()
    self.unlink_faces_from_zones()
    for i in range(count):
        self.Zones.append(Zone('linear ' + str(i)))
    k = 0
    for i in range(len(self.Zones)):
        m = q + 1 if i < r else q
        for j in range(k, k + m):
            self.Zones[i].add_face(self.Faces[j])
        k += m
    if k != n:
        raise Exception('distribution')
    self.post_decompose()


@of('gsu.grid:Grid.split_zone_metric', 'E03')
def metric(self: 'Grid', zone: 'Zone', zl: 'Zone', zr: 'Zone', fun: 'fun'):
    signs = sorted([fun(f) for f in zone.Faces])
    blade = signs[len(signs) // 2]
    nl = 0
    nr = 0
    for f in zone.Faces:
        if fun(f) < blade:
            f.Zone = zl
            nl += 1
        else:
            f.Zone = zr
            nr += 1
    if nl == 0 or nr == 0:
        for f in zone.Faces:
            f.Zone = zone
        return math.inf
    r = 0
    for f in zone.Faces:
        for e in f.Edges:
            if len(e.Faces) == 2:
                a, b = e.Faces[0].Zone, e.Faces[1].Zone
                if (a == zl and b == zr) or (a == zr and b == zl):
                    r += 1
    for f in zone.Faces:
        f.Zone = zone
    return r


@of('gsu.grid:Grid.split_zone', 'E03', pure=('Grid.split_zone_metric',), effects=('Zone.add_face',))
def split_zone(self: 'Grid', zone: 'Zone', funs: '[fun]'):
    if zone.IsFixed or len(zone.Faces) < 2:
        self.Zones.remove(zone)
        self.Zones.append(zone)
        return
    zl = Zone(zone.Name + 'l')
    zr = Zone(zone.Name + 'r')
    self.Zones.remove(zone)
    self.Zones.append(zl)
    self.Zones.append(zr)
    metrics = [self.split_zone_metric(zone, zl, zr, fun) for fun in funs]
    best = min(metrics)
    if best is math.inf:
        self.Zones.remove(zl)
        self.Zones.remove(zr)
        self.Zones.append(zone)
        return
    fun = funs[metrics.index(best)]
    signs = sorted([fun(f) for f in zone.Faces])
    blade = signs[len(signs) // 2]
    left = [f for f in zone.Faces if fun(f) < blade]
    right = [f for f in zone.Faces if fun(f) >= blade]
    for f in left:
        zl.add_face(f)
    for f in right:
        zr.add_face(f)


@of('gsu.grid:Grid.decompose_hierarchical', 'E03',
    effects=('Grid.post_decompose', 'Grid.unlink_faces_from_zones', 'Zone.add_face', 'Grid.split_zone'))
def hierarchical(self: 'Grid', funs: '[fun]', levels: int, name: 'str?', fixed: '[str]'):
    for z in self.Zones:
        z.IsFixed = z.Name in fixed
    if name is not None:
        self.Name = name
    self.Zones = [z for z in self.Zones if z.IsFixed]
    self.unlink_faces_from_zones()
    if levels < 1:
        raise Exception('levels')
    zone = Zone('h')
    self.Zones.append(zone)
    for f in self.Faces:
        if f.Zone is None:
            zone.add_face(f)
    for i in range(levels - 1):
        c = len(self.Zones)
        for k in range(c):
            self.split_zone(self.Zones[0], funs)
    self.post_decompose()


@of('gsu.grid:Grid.decompose_farhat', 'E04',
    effects=('Grid.post_decompose', 'Grid.unlink_faces_from_zones', 'Zone.add_face', 'Grid.bfs_path'),
    pure=('Grid.faces_count_in_fixed_zones',))
def farhat(self: 'Grid', count: int, name: 'str?', fixed: '[str]'):
    for z in self.Zones:
        z.IsFixed = z.Name in fixed
    if name is not None:
        self.Name = name
    self.Zones = [z for z in self.Zones if z.IsFixed]
    nf = len(self.Zones)
    self.unlink_faces_from_zones()
    for i in range(count):
        self.Zones.append(Zone('farhat ' + str(i)))
    n = len(self.Faces) - self.faces_count_in_fixed_zones()
    sizes = [n // count + (1 if n % count > i else 0) for i in range(count)]
    start = self.Faces[0]
    for i in range(count):
        z = self.Zones[i + nf]
        path = self.bfs_path(start, lambda f: f.Zone is None)
        for k in range(sizes[i]):
            z.add_face(path[k])
        if len(path) > sizes[i]:
            start = path[sizes[i]]
    self.post_decompose()


@of('gsu.grid:Grid.get_no_bfs_mark_face', 'E04')
def no_mark(self: 'Grid', pred: any):
    for f in self.Faces:
        if not f.bfs_mark and pred(f):
            return f
    return None


@of('gsu.grid:Grid.bfs_path', 'E04', effects=('Grid.bfs_path_connectivity_component',),
    pure=('Grid.get_no_bfs_mark_face',))
def bfs_path(self: 'Grid', start: 'Face', pred: any):
    for f in self.Faces:
        f.bfs_mark = False
    p = []
    while True:
        p = p + self.bfs_path_connectivity_component(start, pred)
        start = self.get_no_bfs_mark_face(pred)
        if start is None:
            return p


@of('gsu.grid:Grid.bfs_path_connectivity_component', 'E04', pure=('Face.get_neighbour',))
def bfs_component(self: 'Grid', start: 'Face', pred: any):
    if start.bfs_mark or not pred(start):
        return []
    start.bfs_mark = True
    p = [start]
    i = 0
    while i < len(p):
        f = p[i]
        for e in f.Edges:
            if len(e.Faces) != 1:
                g = f.get_neighbour(e)
                if not g.bfs_mark and pred(g):
                    g.bfs_mark = True
                    p.append(g)
        i += 1
    return p


@of('gsu.grid:Grid.move_from_mean_point', 'E02',
    pure=('Vect.__add__', 'Vect.__sub__', 'Vect.__mul__', 'Vect.__truediv__', 'Vect.__init__'))
def explode(self: 'Grid', k: num):
    n = len(self.Nodes)
    c = sum([m.P for m in self.Nodes], start=Vect()) / n
    for z in self.Zones:
        zc = sum([m.P for m in z.Nodes], start=Vect()) / len(z.Nodes)
        s = (zc - c) * k
        for m in z.Nodes:
            m.P = m.P + s
