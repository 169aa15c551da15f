"""
Reference functions: atomic transformations of a grid.
"""
import gsu
from gsu import Grid, Face, Edge, Node
from geom.vect import Vect

# the calls that commute: position of the argument whose calls keep their order, or groups of calls that keep it
LINKS = {'Grid.link_node_edge': '', 'Grid.link_edge_face': '', 'Grid.link_node_face': 1, 'Zone.add_node': '',
         'Zone.add_face': '', 'Zone.add_edge': '', 'Grid.link_nodes_as_in_face': 0, 'Grid.del_face': 'fd',
         'Grid.del_edge': 'ed', 'Grid.add_face': 'f', 'Grid.add_edge': 'e', 'Grid.add_node': 'n', 'Grid.del_node': 'nd',
         'Node.replacing_node': 'nd'}
CALLS = ('Grid.del_face', 'Grid.del_edge', 'Grid.add_node', 'Grid.add_face', 'Grid.add_edge', 'Zone.add_node',
         'Zone.add_face', 'Zone.add_edge', 'Grid.link_node_edge', 'Grid.link_edge_face', 'Grid.link_node_face',
         'Grid.link_nodes_as_in_face')
CALLS2 = ('Grid.del_face', 'Grid.del_edge', 'Grid.link_edge_face', 'Node.replacing_node', 'Grid.del_node')
READS = ('Grid.find_edge', 'Face.max_edge_from_face')


def third(f, a, b):
    return [n for n in f.Nodes if n is not a and n is not b][0]


def side(f, a):
    return [e for e in f.Edges for n in e.Nodes if n is a][0]


def put(g, p, zones):
    n = Node(p)
    m = g.add_node(n, True)
    if m is n:
        zones[0].add_node(n)
        if len(zones) > 1 and zones[1] is not zones[0]:
            zones[1].add_node(n)
    return m


def edge_between(g, a, b, gid):
    e = Edge()
    g.add_edge(e, gid)
    Grid.link_node_edge(a, e)
    Grid.link_node_edge(b, e)
    return e


def bound(f, es):
    for e in es:
        Grid.link_edge_face(e, f)


@of('gsu.grid:Grid.divide_face', 'T02', effects=CALLS, pure=READS, unordered=LINKS, touch={'Grid.del_face': 'Faces'})
def divide_face(self: 'Grid', face: 'Face', p: 'Vect'):
    d = face.Data.copy()
    a, b, c = face.Nodes[0], face.Nodes[1], face.Nodes[2]
    zone = face.Zone
    gid = face.GloId
    self.del_face(face)
    n = Node(p)
    m = self.add_node(n, True)
    if m is n:
        zone.add_node(n)
    ab, bc, ca = Grid.find_edge(a, b), Grid.find_edge(b, c), Grid.find_edge(a, c)
    na, nb, nc = Edge(), Edge(), Edge()
    f1, f2, f3 = Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values()))
    Grid.link_node_edge(a, na)
    Grid.link_node_edge(b, nb)
    Grid.link_node_edge(c, nc)
    Grid.link_node_edge(m, na)
    Grid.link_node_edge(m, nb)
    Grid.link_node_edge(m, nc)
    Grid.link_edge_face(ab, f1)
    Grid.link_edge_face(bc, f2)
    Grid.link_edge_face(ca, f3)
    Grid.link_edge_face(na, f1)
    Grid.link_edge_face(na, f3)
    Grid.link_edge_face(nb, f1)
    Grid.link_edge_face(nb, f2)
    Grid.link_edge_face(nc, f2)
    Grid.link_edge_face(nc, f3)
    Grid.link_node_face(a, f1)
    Grid.link_node_face(b, f1)
    Grid.link_node_face(b, f2)
    Grid.link_node_face(c, f2)
    Grid.link_node_face(c, f3)
    Grid.link_node_face(a, f3)
    Grid.link_node_face(m, f1)
    Grid.link_node_face(m, f2)
    Grid.link_node_face(m, f3)
    self.add_face(f1, gid)
    self.add_face(f2)
    self.add_face(f3)
    self.add_edge(na)
    self.add_edge(nb)
    self.add_edge(nc)
    for f in [f1, f2, f3]:
        zone.add_face(f)
    for e in [na, nb, nc]:
        zone.add_edge(e)


@of('gsu.grid:Grid.collapse_face', 'T02', effects=CALLS, pure=READS, unordered=LINKS, touch={'Grid.del_face': 'Faces'})
def collapse_face(self: 'Grid', face: 'Face'):
    d = face.Data.copy()
    z = face.Zone
    e = face.max_edge_from_face()
    if len(e.Faces) != 2:
        return False
    self.del_face(face)
    self.del_edge(e)
    other = e.Faces[0]
    g2 = other.GloId
    self.del_face(other)
    f1, f2 = Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values()))
    a, b = e.Nodes[0], e.Nodes[1]
    c, x = third(face, a, b), third(other, a, b)
    face.Edges.remove(e)
    n = edge_between(self, c, x, e.GloId)
    Grid.link_nodes_as_in_face(f1, face, [(b, x)])
    Grid.link_nodes_as_in_face(f2, face, [(a, x)])
    bound(f1, [side(face, a), side(other, a), n])
    bound(f2, [side(face, b), side(other, b), n])
    z.add_face(f1)
    z.add_face(f2)
    z.add_edge(n)
    self.add_face(f1, face.GloId)
    self.add_face(f2, g2)
    return True


@of('gsu.grid:Grid.cut_edge', 'T02', effects=CALLS, pure=READS, unordered=LINKS, touch={'Grid.del_face': 'Faces'})
def cut_edge(self: 'Grid', edge: 'Edge', p: 'Vect'):
    if len(edge.Faces) != 2:
        return False
    f, h = edge.Faces[0], edge.Faces[1]
    zf, zh = f.Zone, h.Zone
    gf, gh = f.GloId, h.GloId
    df, dh = f.Data.copy(), h.Data.copy()
    self.del_face(f)
    self.del_face(h)
    self.del_edge(edge)
    fa, fb = Face(list(df.keys()), list(df.values())), Face(list(df.keys()), list(df.values()))
    ha, hb = Face(list(dh.keys()), list(dh.values())), Face(list(dh.keys()), list(dh.values()))
    self.add_face(fb, gf)
    self.add_face(ha, gh)
    self.add_face(fa)
    self.add_face(hb)
    a, b = edge.Nodes[0], edge.Nodes[1]
    c, x = third(f, a, b), third(h, a, b)
    m = put(self, p, [zf, zh])
    f.Edges.remove(edge)
    h.Edges.remove(edge)
    am = edge_between(self, a, m, edge.GloId)
    bm = edge_between(self, b, m, None)
    cm = edge_between(self, c, m, None)
    xm = edge_between(self, x, m, None)
    Grid.link_nodes_as_in_face(fb, f, [(a, m)])
    Grid.link_nodes_as_in_face(fa, f, [(b, m)])
    Grid.link_nodes_as_in_face(ha, h, [(b, m)])
    Grid.link_nodes_as_in_face(hb, h, [(a, m)])
    bound(fa, [am, cm, side(f, a)])
    bound(fb, [bm, cm, side(f, b)])
    bound(ha, [am, xm, side(h, a)])
    bound(hb, [bm, xm, side(h, b)])
    zf.add_face(fa)
    zf.add_face(fb)
    zh.add_face(ha)
    zh.add_face(hb)
    zf.add_edge(am)
    zf.add_edge(bm)
    zf.add_edge(cm)
    zh.add_edge(xm)
    if zh is not zf:
        zh.add_edge(am)
        zh.add_edge(bm)
    return True


@of('gsu.grid:Grid.cut_single_edge', 'T02', effects=CALLS, pure=READS, unordered=LINKS, touch={'Grid.del_face': 'Faces'})
def cut_single_edge(self: 'Grid', edge: 'Edge', p: 'Vect'):
    if len(edge.Faces) != 1:
        return False
    f = edge.Faces[0]
    d = f.Data.copy()
    z = f.Zone
    gid = f.GloId
    self.del_face(f)
    self.del_edge(edge)
    fa, fb = Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values()))
    self.add_face(fa, gid)
    self.add_face(fb)
    a, b = edge.Nodes[0], edge.Nodes[1]
    c = third(f, a, b)
    m = put(self, p, [z])
    f.Edges.remove(edge)
    am = edge_between(self, a, m, edge.GloId)
    bm = edge_between(self, b, m, None)
    cm = edge_between(self, c, m, None)
    Grid.link_nodes_as_in_face(fa, f, [(b, m)])
    Grid.link_nodes_as_in_face(fb, f, [(a, m)])
    bound(fa, [am, cm, side(f, a)])
    bound(fb, [bm, cm, side(f, b)])
    z.add_face(fa)
    z.add_face(fb)
    z.add_edge(am)
    z.add_edge(bm)
    z.add_edge(cm)
    return True


@of('gsu.grid:Grid.cut_edge_with_two_nodes', 'T02', effects=CALLS, pure=READS, unordered=LINKS, touch={'Grid.del_face': 'Faces'})
def cut_edge_2(self: 'Grid', edge: 'Edge', p1: 'Vect', p2: 'Vect'):
    if len(edge.Faces) != 1 and len(edge.Faces) != 2:
        return False
    two = len(edge.Faces) == 2
    f = edge.Faces[0]
    d = f.Data.copy()
    z = f.Zone
    gid = f.GloId
    if two:
        h = edge.Faces[1]
        dh = h.Data.copy()
        zh = h.Zone
        gh = h.GloId
        self.del_face(f)
        self.del_face(h)
        self.del_edge(edge)
        f1, f2, f3 = Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values()))
        h1, h2, h3 = Face(list(dh.keys()), list(dh.values())), Face(list(dh.keys()), list(dh.values())), Face(list(dh.keys()), list(dh.values()))
        self.add_face(f1, gid)
        self.add_face(f2, gh)
        self.add_face(f3)
        self.add_face(h1)
        self.add_face(h2)
        self.add_face(h3)
        zs = [z, zh]
    else:
        self.del_face(f)
        self.del_edge(edge)
        f1, f2, f3 = Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values())), Face(list(d.keys()), list(d.values()))
        self.add_face(f1, gid)
        self.add_face(f2)
        self.add_face(f3)
        zs = [z]
    a, b = edge.Nodes[0], edge.Nodes[1]
    c = third(f, a, b)
    m = put(self, p1, zs)
    n = put(self, p2, zs)
    f.Edges.remove(edge)
    if two:
        h.Edges.remove(edge)
    am = edge_between(self, a, m, edge.GloId)
    bn = edge_between(self, b, n, None)
    mn = edge_between(self, m, n, None)
    cm = edge_between(self, c, m, None)
    cn = edge_between(self, c, n, None)
    Grid.link_nodes_as_in_face(f1, f, [(b, m)])
    Grid.link_nodes_as_in_face(f2, f, [(a, m), (b, n)])
    Grid.link_nodes_as_in_face(f3, f, [(a, n)])
    bound(f1, [am, cm, side(f, a)])
    bound(f2, [mn, cm, cn])
    bound(f3, [bn, cn, side(f, b)])
    z.add_face(f1)
    z.add_face(f2)
    z.add_face(f3)
    z.add_edge(am)
    z.add_edge(bn)
    z.add_edge(mn)
    z.add_edge(cm)
    z.add_edge(cn)
    if two:
        x = third(h, a, b)
        xm = edge_between(self, x, m, None)
        xn = edge_between(self, x, n, None)
        Grid.link_nodes_as_in_face(h1, h, [(b, m)])
        Grid.link_nodes_as_in_face(h2, h, [(a, m), (b, n)])
        Grid.link_nodes_as_in_face(h3, h, [(a, n)])
        bound(h1, [am, xm, side(h, a)])
        bound(h2, [mn, xm, xn])
        bound(h3, [bn, xn, side(h, b)])
        zh.add_face(h1)
        zh.add_face(h2)
        zh.add_face(h3)
        zh.add_edge(xm)
        zh.add_edge(xn)
        if zh is not z:
            zh.add_edge(am)
            zh.add_edge(bn)
            zh.add_edge(mn)
    return True


@of('gsu.grid:Grid.collapse_edge', 'T02', effects=CALLS2, pure=READS, unordered=LINKS, touch={'Grid.del_face': 'Faces'})
def collapse_edge(self: 'Grid', edge: 'Edge'):
    if len(edge.Faces) != 2:
        return False
    f, h = edge.Faces[0], edge.Faces[1]
    self.del_face(f)
    self.del_face(h)
    self.del_edge(edge)
    a, b = edge.Nodes[0], edge.Nodes[1]
    self.RoundedCoordsBag.remove(a.RoundedCoords)
    a.P = Vect.middle_point(a.P, b.P)
    a.RoundedCoords = a.P.rounded_coords_tuple(10)
    self.RoundedCoordsBag.add(a.RoundedCoords)
    f.Edges.remove(edge)
    h.Edges.remove(edge)
    fb, hb = side(f, b), side(h, b)
    if fb.Faces:
        Grid.link_edge_face(side(f, a), fb.Faces[0])
    if hb.Faces:
        Grid.link_edge_face(side(h, a), hb.Faces[0])
    self.del_edge(fb)
    self.del_edge(hb)
    b.replacing_node(a)
    self.del_node(b)
    for k in range(len(self.Faces)):
        self.Faces[k].GloId = k
    for k in range(len(self.Edges)):
        self.Edges[k].GloId = k
    for k in range(len(self.Nodes)):
        self.Nodes[k].GloId = k
    return True
