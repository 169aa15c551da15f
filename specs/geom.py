"""
Reference functions for the geometry package.  They are analysed, never executed.
"""
import math
import numpy as np
import geom
from geom.utils import tetrahedron_volume
from geom import Vect, Segment, Box, Triangle, Trajectory, TrianglesCloud


# ---------------------------------------------------------------- A01 vector algebra

@of('geom.vect:Vect.__init__', 'A01', self='fresh')
def vect_init(self: 'Vect', x: num, y: num, z: num):
    self.Coords = [x, y, z]


@of('geom.vect:Vect.from_iterable', 'A01')
def vect_from(t: '[num]'):
    return NEW('Vect', Coords=[t[0], t[1], t[2]])


@of('geom.vect:Vect.X', 'A01')
def vect_x(self: 'Vect'):
    return self.Coords[0]


@of('geom.vect:Vect.Y', 'A01')
def vect_y(self: 'Vect'):
    return self.Coords[1]


@of('geom.vect:Vect.Z', 'A01')
def vect_z(self: 'Vect'):
    return self.Coords[2]


@of('geom.vect:Vect.X!', 'A01')
def vect_set_x(self: 'Vect', v: num):
    self.Coords[0] = v


@of('geom.vect:Vect.Y!', 'A01')
def vect_set_y(self: 'Vect', v: num):
    self.Coords[1] = v


@of('geom.vect:Vect.Z!', 'A01')
def vect_set_z(self: 'Vect', v: num):
    self.Coords[2] = v


@of('geom.vect:Vect.__getitem__', 'A01')
def vect_get(self: 'Vect', i: int):
    return self.Coords[i]


@of('geom.vect:Vect.__setitem__', 'A01')
def vect_set(self: 'Vect', i: int, v: num):
    self.Coords[i] = v


@of('geom.vect:Vect.coords_tuple', 'A01')
def vect_tuple(self: 'Vect'):
    c = self.Coords
    return c[0], c[1], c[2]


@of('geom.vect:Vect.coords_list', 'A01')
def vect_list(self: 'Vect'):
    c = self.Coords
    return [c[0], c[1], c[2]]


@of('geom.vect:Vect.rounded_coords_tuple', 'A01')
def vect_rounded(self: 'Vect', digits: int):
    c = self.Coords
    return round(c[0], digits), round(c[1], digits), round(c[2], digits)


@of('geom.vect:Vect.round_vect', 'A01')
def vect_round(self: 'Vect', digits: int):
    c = self.Coords
    c[0] = round(c[0], digits)
    c[1] = round(c[1], digits)
    c[2] = round(c[2], digits)


@of('geom.vect:Vect.__add__', 'A01')
def vect_add(self: 'Vect', v: 'Vect'):
    a, b = self.Coords, v.Coords
    return NEW('Vect', Coords=[a[0] + b[0], a[1] + b[1], a[2] + b[2]])


@of('geom.vect:Vect.__sub__', 'A01')
def vect_sub(self: 'Vect', v: 'Vect'):
    a, b = self.Coords, v.Coords
    return NEW('Vect', Coords=[a[0] - b[0], a[1] - b[1], a[2] - b[2]])


@of('geom.vect:Vect.__mul__', 'A01')
def vect_mul(self: 'Vect', k: num):
    a = self.Coords
    return NEW('Vect', Coords=[a[0] * k, a[1] * k, a[2] * k])


@of('geom.vect:Vect.__mul__', 'A01')
def vect_mul_vect(self: 'Vect', v: 'Vect'):
    a, b = self.Coords, v.Coords
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


@of('geom.vect:Vect.__rmul__', 'A01')
def vect_rmul(self: 'Vect', k: num):
    a = self.Coords
    return NEW('Vect', Coords=[a[0] * k, a[1] * k, a[2] * k])


@of('geom.vect:Vect.__truediv__', 'A01')
def vect_div(self: 'Vect', k: num):
    a = self.Coords
    return NEW('Vect', Coords=[a[0] / k, a[1] / k, a[2] / k])


@of('geom.vect:Vect.dot_product', 'A01')
def vect_dot(u: 'Vect', v: 'Vect'):
    a, b = u.Coords, v.Coords
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


@of('geom.vect:Vect.mod2', 'A01')
def vect_mod2(self: 'Vect'):
    a = self.Coords
    return a[0] ** 2 + a[1] ** 2 + a[2] ** 2


@of('geom.vect:Vect.mod', 'A01')
def vect_mod(self: 'Vect'):
    a = self.Coords
    return math.sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2)


@of('geom.vect:Vect.dist_to', 'A01')
def vect_dist(self: 'Vect', v: 'Vect'):
    a, b = self.Coords, v.Coords
    return math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2)


@of('geom.vect:Vect.is_near', 'A01')
def vect_near(self: 'Vect', v: 'Vect', eps: num):
    a, b = self.Coords, v.Coords
    return math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2) < eps


@of('geom.vect:Vect.orth', 'A01')
def vect_orth(self: 'Vect'):
    a = self.Coords
    m = math.sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2)
    return NEW('Vect', Coords=[a[0] / m, a[1] / m, a[2] / m])


@of('geom.vect:Vect.cross_product', 'A01')
def vect_cross(u: 'Vect', v: 'Vect'):
    a, b = u.Coords, v.Coords
    return NEW('Vect', Coords=[a[1] * b[2] - a[2] * b[1],
                               a[2] * b[0] - a[0] * b[2],
                               a[0] * b[1] - a[1] * b[0]])


@of('geom.vect:Vect.angle_cos', 'A01')
def vect_cos(u: 'Vect', v: 'Vect'):
    a, b = u.Coords, v.Coords
    return (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) \
        / (math.sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2) * math.sqrt(b[0] ** 2 + b[1] ** 2 + b[2] ** 2))


@of('geom.vect:Vect.middle_point', 'A01')
def vect_middle(u: 'Vect', v: 'Vect'):
    a, b = u.Coords, v.Coords
    return NEW('Vect', Coords=[(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2])


@of('geom.vect:Vect.__eq__', 'A01')
def vect_eq(self: 'Vect', v: 'Vect'):
    a, b = self.Coords, v.Coords
    return math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2) < 1e-10


@of('geom.segment:Segment.__init__', 'A01', self='fresh')
def segment_init(self: 'Segment', a: 'Vect', b: 'Vect'):
    self.Points = [a, b]


@of('geom.segment:Segment.a', 'A01')
def segment_a(self: 'Segment'):
    return self.Points[0]


@of('geom.segment:Segment.b', 'A01')
def segment_b(self: 'Segment'):
    return self.Points[1]


# ---------------------------------------------------------------- A02 triangle measures and volumes

@of('geom.triangle:Triangle.__init__', 'A02', self='fresh')
def triangle_init(self: 'Triangle', a: 'Vect', b: 'Vect', c: 'Vect'):
    self.Points = [a, b, c]
    self.BackRef = None


@of('geom.triangle:Triangle.area', 'A02')
def triangle_area(self: 'Triangle'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    n = Vect.cross_product(b - a, c - a)
    return math.sqrt(n.X * n.X + n.Y * n.Y + n.Z * n.Z) / 2


@of('geom.triangle:Triangle.normal_orth', 'A02')
def triangle_normal(self: 'Triangle'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    n = Vect.cross_product(b - a, c - a)
    m = math.sqrt(n.X * n.X + n.Y * n.Y + n.Z * n.Z)
    return NEW('Vect', Coords=[n.X / m, n.Y / m, n.Z / m])


@of('geom.triangle:Triangle.centroid', 'A02')
def triangle_centroid(self: 'Triangle'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    return NEW('Vect', Coords=[(a.X + b.X + c.X) / 3, (a.Y + b.Y + c.Y) / 3, (a.Z + b.Z + c.Z) / 3])


@of('geom.triangle:Triangle.min_side', 'A02')
def triangle_min_side(self: 'Triangle'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    return min(a.dist_to(b), b.dist_to(c), c.dist_to(a))


@of('geom.triangle:Triangle.is_good', 'A02')
def triangle_is_good(self: 'Triangle'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    n = Vect.cross_product(b - a, c - a)
    return ((b - a).mod2() + (c - b).mod2() + (a - c).mod2()) / math.sqrt(n.mod() / 2)


@of('geom.triangle:Triangle.point_in_one_plane', 'A02')
def triangle_point_in_plane(self: 'Triangle', p: 'Vect'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    return Vect.dot_product(p - a, Vect.cross_product(b - a, c - a)) == 0


@of('geom.triangle:Triangle.in_one_plane', 'A02', pure=('Triangle.point_in_one_plane',))
def triangle_in_plane(self: 'Triangle', t: 'Triangle'):
    return self.point_in_one_plane(t.Points[0]) and self.point_in_one_plane(t.Points[1]) \
        and self.point_in_one_plane(t.Points[2])


@of('geom.utils:tetrahedron_volume', 'A02')
def tetrahedron(a: 'Vect', b: 'Vect', c: 'Vect', d: 'Vect'):
    return abs(Vect.dot_product(b - a, Vect.cross_product(c - a, d - a))) / 6


@of('geom.utils:displaced_triangle_volume', 'A02', pure=('tetrahedron_volume',))
def displaced_volume(a: 'Vect', b: 'Vect', c: 'Vect', na: 'Vect', nb: 'Vect', nc: 'Vect'):
    return tetrahedron_volume(a, b, c, nc) + tetrahedron_volume(a, b, nb, nc) \
        + tetrahedron_volume(a, na, nb, nc)


@of('geom.utils:prizmatoid_volume_coefs', 'A02')
def prizmatoid(v1: 'Vect', v2: 'Vect', v3: 'Vect', n1: 'Vect', n2: 'Vect', n3: 'Vect', n: 'Vect'):
    k1 = Vect.dot_product(n, n1)
    k2 = Vect.dot_product(n, n2)
    k3 = Vect.dot_product(n, n3)
    p, q = v2 - v1, v3 - v1
    u1 = Vect(n1.X / k1, n1.Y / k1, n1.Z / k1)
    u2 = Vect(n2.X / k2, n2.Y / k2, n2.Z / k2)
    u3 = Vect(n3.X / k3, n3.Y / k3, n3.Z / k3)
    r, s = u2 - u1, u3 - u1
    return (Vect.cross_product(p, q).mod() / 2,
            (Vect.dot_product(Vect.cross_product(p, s), n) + Vect.dot_product(Vect.cross_product(r, q), n)) / 4,
            Vect.dot_product(Vect.cross_product(r, s), n) / 6)


# ---------------------------------------------------------------- B01 boxes

@of('geom.box:Box.__init__', 'B01', self='fresh')
def box_init(self: 'Box', ps: '[Vect]'):
    self.MinX = min([p.X for p in ps])
    self.MinY = min([p.Y for p in ps])
    self.MinZ = min([p.Z for p in ps])
    self.MaxX = max([p.X for p in ps])
    self.MaxY = max([p.Y for p in ps])
    self.MaxZ = max([p.Z for p in ps])


@of('geom.box:Box.from_points', 'B01')
def box_from_points(ps: '[Vect]'):
    return Box(ps)


@of('geom.box:Box.from_triangles', 'B01')
def box_from_triangles(ts: '[Triangle]'):
    return Box([p for t in ts for p in t.Points])


@of('geom.box:Box.is_point_inside', 'B01')
def box_inside(self: 'Box', p: 'Vect'):
    return self.MinX <= p.X <= self.MaxX and self.MinY <= p.Y <= self.MaxY and self.MinZ <= p.Z <= self.MaxZ


@of('geom.box:Box.is_intersect_with_segment', 'B01')
def box_segment(self: 'Box', s: 'Segment'):
    p, q = s.Points[0], s.Points[1]
    return not (min(p.X, q.X) > self.MaxX or max(p.X, q.X) < self.MinX
                or min(p.Y, q.Y) > self.MaxY or max(p.Y, q.Y) < self.MinY
                or min(p.Z, q.Z) > self.MaxZ or max(p.Z, q.Z) < self.MinZ)


@of('geom.box:Box.is_potential_intersect_with_box', 'B01')
def box_box(self: 'Box', other: 'Box'):
    return not (other.MinX > self.MaxX or other.MaxX < self.MinX
                or other.MinY > self.MaxY or other.MaxY < self.MinY
                or other.MinZ > self.MaxZ or other.MaxZ < self.MinZ)


# ---------------------------------------------------------------- B02 the tree of boxes

@of('geom.triangle:Triangle.sorting_by_the_selected_axis', 'B02')
def sort_axis(ts: '[Triangle]', axis: int):
    ts.sort(key=lambda t: t.centroid()[axis])
    return ts


@of('geom.triangles_cloud:TrianglesCloud.__init__', 'B02', self='fresh', pure=('Box.from_triangles',),
    effects=('TrianglesCloud.build_subclouds_tree',))
def cloud_init(self: 'TrianglesCloud', ts: '[Triangle]'):
    self.Triangles = ts
    self.Subclouds = []
    self.Box = Box.from_triangles(ts)
    self.build_subclouds_tree()


@of('geom.triangles_cloud:TrianglesCloud.build_subclouds_tree', 'B02',
    pure=('TrianglesCloud.separate_triangles_list',), new=('TrianglesCloud',))
def cloud_build(self: 'TrianglesCloud'):
    if len(self.Triangles) > TrianglesCloud.MaxListTrianglesCount:
        parts = self.separate_triangles_list(self.Triangles)
        self.Triangles = []
        self.Subclouds = [TrianglesCloud(p) for p in parts]


@of('geom.triangles_cloud:TrianglesCloud.separate_triangles_list', 'B02', pure=('Box.from_points', 'Triangle.centroid'))
def cloud_separate(self: 'TrianglesCloud', ts: '[Triangle]'):
    assert len(ts) > 1
    b = Box.from_points([t.centroid() for t in ts])
    d = [b.MaxX - b.MinX, b.MaxY - b.MinY, b.MaxZ - b.MinZ]
    axis = d.index(max(d))
    ts.sort(key=lambda t: t.centroid()[axis])
    h = len(ts) // 2
    return [ts[:h], ts[h:]]


@of('geom.triangles_cloud:TrianglesCloud.is_list', 'B02')
def cloud_is_list(self: 'TrianglesCloud'):
    a = self.Triangles != []
    b = self.Subclouds != []
    if a and b:
        raise Exception('internal error')
    return a


@of('geom.triangles_cloud:TrianglesCloud.first_intersection_with_segment', 'B02',
    pure=('Box.is_intersect_with_segment', 'Triangle.intersection_with_segment',
          'TrianglesCloud.first_intersection_with_segment', 'TrianglesCloud.is_list'))
def cloud_first(self: 'TrianglesCloud', s: 'Segment'):
    if not self.Box.is_intersect_with_segment(s):
        return None
    if self.is_list():
        for t in self.Triangles:
            if t.intersection_with_segment(s) != []:
                return t
        return None
    for c in self.Subclouds:
        t = c.first_intersection_with_segment(s)
        if t is not None:
            return t
    return None


@of('geom.triangles_cloud:TrianglesCloud.intersection_with_triangles_cloud', 'B02',
    pure=('Box.is_potential_intersect_with_box', 'Triangle.intersection_with_triangle',
          'TrianglesCloud.intersection_with_triangles_cloud'))
def cloud_pairs(self: 'TrianglesCloud', tc: 'TrianglesCloud'):
    if not self.Box.is_potential_intersect_with_box(tc.Box):
        return []
    if self.Subclouds != []:
        return [x for a in self.Subclouds for x in a.intersection_with_triangles_cloud(tc)]
    if tc.Subclouds != []:
        return [x for b in tc.Subclouds for x in self.intersection_with_triangles_cloud(b)]
    res = []
    for t1 in self.Triangles:
        for t2 in tc.Triangles:
            ps = t1.intersection_with_triangle(t2)
            if ps != []:
                res.append([t1, ps])
                res.append([t2, ps])
    return res


# ---------------------------------------------------------------- C03 trajectory files

@of('geom.trajectory:Trajectory.dump', 'C03')
def trajectory_dump(self: 'Trajectory', f: 'file', name: str):
    ps = self.Points
    n = len(ps)
    f.write('ZONE T="' + str(name) + '"\n')
    f.write('NODES=%d\n' % n)
    f.write('ELEMENTS=%d\n' % (n - 1))
    f.write('DATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\nVARLOCATION=([4-3]=CELLCENTERED)\n')
    f.write(' '.join([str(p.X) for p in ps]) + '\n')
    f.write(' '.join([str(p.Y) for p in ps]) + '\n')
    f.write(' '.join([str(p.Z) for p in ps]) + '\n')
    for i in range(n - 1):
        f.write('%d %d %d\n' % (i + 1, i + 2, i + 2))


@of('geom.trajectory:Trajectory.__init__', 'C03', self='fresh')
def trajectory_init(self: 'Trajectory', start: 'Vect'):
    self.Points = [start]


@of('geom.trajectory:Trajectory.add_point', 'C03')
def trajectory_add(self: 'Trajectory', p: 'Vect'):
    self.Points.append(p)


@of('geom.trajectory:Trajectory.points_count', 'C03')
def trajectory_count(self: 'Trajectory'):
    return len(self.Points)


@of('geom.trajectory:Trajectory.segments_count', 'C03')
def trajectory_segments(self: 'Trajectory'):
    return len(self.Points) - 1


@of('geom.trajectory:Trajectory.last_point', 'C03')
def trajectory_last(self: 'Trajectory'):
    return self.Points[-1]


# ---------------------------------------------------------------- the rest of vectors, triangles and text forms

@of('geom.vect:Vect.coords_as_np', 'A01')
def vect_np(self: 'Vect'):
    a = self.Coords
    return np.array([a[0], a[1], a[2]])


@of('geom.vect:Vect.__lt__', 'A01')
def vect_lt(self: 'Vect', other: 'Vect'):
    a, b = self.Coords, other.Coords
    eps = 1e-10
    return a[0] < b[0] or (abs(a[0] - b[0]) < eps and (a[1] < b[1] or (abs(a[1] - b[1]) < eps and a[2] < b[2])))


@of('geom.vect:Vect.point_on_vector', 'A01', pure=('Vect.dist_to',))
def vect_on(v1: 'Vect', v2: 'Vect', p: 'Vect'):
    return math.isclose(v1.dist_to(v2), v1.dist_to(p) + p.dist_to(v2))


@of('geom.vect:Vect.get_angle_in_rad', 'A01')
def vect_rad(u: 'Vect', v: 'Vect'):
    return np.arccos(Vect.dot_product(u, v) / (u.mod() * v.mod()))


@of('geom.vect:Vect.get_angle_in_deg', 'A01')
def vect_deg(u: 'Vect', v: 'Vect'):
    return np.rad2deg(np.arccos(Vect.dot_product(u, v) / (u.mod() * v.mod())))


@of('geom.vect:Vect.__str__', 'A01')
def vect_str(self: 'Vect'):
    return 'Vect ({0}, {1}, {2})'.format(self.Coords[0], self.Coords[1], self.Coords[2])


@of('geom.segment:Segment.__str__', 'A01')
def segment_str(self: 'Segment'):
    return 'Segment [{0} - {1}]'.format(self.Points[0], self.Points[1])


@of('geom.triangle:Triangle.__str__', 'A02')
def triangle_str(self: 'Triangle'):
    return 'Triangle {0}, {1}, {2}'.format(self.Points[0], self.Points[1], self.Points[2])


@of('geom.box:Box.__str__', 'B01')
def box_str(self: 'Box'):
    return 'Box: X({0} - {1}), Y({2} - {3}), Z({4} - {5})'.format(self.MinX, self.MaxX, self.MinY, self.MaxY,
                                                                  self.MinZ, self.MaxZ)


@of('geom.trajectory:Trajectory.__str__', 'C03')
def trajectory_str(self: 'Trajectory'):
    return 'Trajectory [{0} - {1}, {2} points]'.format(self.Points[0], self.Points[-1], len(self.Points))


@of('geom.triangle:Triangle.a', 'A02')
def triangle_a(self: 'Triangle'):
    return self.Points[0]


@of('geom.triangle:Triangle.b', 'A02')
def triangle_b(self: 'Triangle'):
    return self.Points[1]


@of('geom.triangle:Triangle.c', 'A02')
def triangle_c(self: 'Triangle'):
    return self.Points[2]


@of('geom.triangle:Triangle.point_in_triangle', 'A02', pure=('Triangle.area',))
def triangle_point(self: 'Triangle', p: 'Vect'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    s0 = round(Triangle(a, b, p).area(), 10)
    s1 = round(Triangle(a, p, c).area(), 10)
    s2 = round(Triangle(p, b, c).area(), 10)
    if not math.isclose(self.area(), s0 + s1 + s2):
        return 0
    return (1 if s0 else 0) + (1 if s1 else 0) + (1 if s2 else 0)


@of('geom.triangle:Triangle.intersection_with_triangle', 'B02', pure=('Triangle.intersection_with_segment',))
def triangle_cross(self: 'Triangle', t: 'Triangle'):
    if self is t:
        return []
    ps = []
    for x, y in ((self, t), (t, self)):
        a, b, c = y.Points[0], y.Points[1], y.Points[2]
        for u, v in ((a, b), (b, c), (c, a)):
            ps += x.intersection_with_segment(Segment(u, v))
    ps.sort()
    if not ps:
        return []
    return [ps[0]] + [q for p, q in zip(ps, ps[1:]) if q != p]


@of('geom.triangle:Triangle.all_corners_smaller', 'A02', pure=('Vect.get_angle_in_deg',))
def triangle_corners(self: 'Triangle', k: num):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    return Vect.get_angle_in_deg(b - a, c - a) < k and Vect.get_angle_in_deg(a - b, c - b) < k \
        and Vect.get_angle_in_deg(a - c, b - c) < k
