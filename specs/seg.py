"""
Reference functions: intersection of a triangle with a segment.
"""
import numpy as np
from geom.vect import Vect


@of('geom.triangle:Triangle.intersection_with_segment', 'B03', pure=('Triangle.point_in_one_plane',))
def tri_segment(self: 'Triangle', s: 'Segment'):
    a, b, c = self.Points[0], self.Points[1], self.Points[2]
    p, q = s.Points[0], s.Points[1]
    m = np.transpose(np.array([(b - a).Coords, (c - a).Coords, (p - q).Coords]))
    flat = abs(np.linalg.det(m)) < 1e-10
    REQUIRE(not flat or not self.point_in_one_plane(p) or not self.point_in_one_plane(q))
    if flat:
        return []
    w = np.linalg.inv(m).dot(np.array((p - a).Coords))
    if w[0] >= 0 and w[1] >= 0 and w[0] + w[1] <= 1 and w[2] >= 0 and w[2] <= 1:
        return [p + (q - p) * w[2]]
    return []


@of('geom.triangle:Triangle.__eq__', 'B03', 'A02')
def tri_eq(self: 'Triangle', other: 'Triangle'):
    """The same centre and the first two corners are corners of the other one."""
    us, ot = self.Points, other.Points
    return self.centroid() == other.centroid() \
        and any([us[0] == p for p in [ot[0], ot[1], ot[2]]]) \
        and any([us[1] == p for p in [ot[0], ot[1], ot[2]]])
