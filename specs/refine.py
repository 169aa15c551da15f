"""
Reference functions: refinement of a grid along its self-intersections.
"""
import math
import os
from gsu.grid import Grid
from gsu.node import Node
from geom.vect import Vect
from geom.triangle import Triangle
from geom.triangles_cloud import TrianglesCloud

CUTS = ('Grid.cut_edge', 'Grid.cut_single_edge', 'Grid.cut_edge_with_two_nodes', 'Grid.divide_face')


@of('refine:refine_grid.point_on_edge_of_triangle', 'U01', pure=('Triangle.area',))
def side_of_point(point: 'Vect', tri: 'Triangle'):
    a, b, c = tri.Points
    if Triangle(a, b, point).area() == 0:
        return [[a, b], c]
    if Triangle(point, b, c).area() == 0:
        return [[b, c], a]
    return [[c, a], b]


def edges_between(face, a, b):
    return [e for e in face.Edges
            if e.Nodes[0].P == a and e.Nodes[1].P == b or e.Nodes[1].P == a and e.Nodes[0].P == b]


def point_on_edge_of_triangle(point, tri):
    pass


def side(point, tri):
    return point_on_edge_of_triangle(point, tri)[0]


@of('refine:refine_grid.refine', 'U01', cut={'kind': 'for', 'item': '(Triangle,[Vect])', 'vars': {}}, effects=CUTS,
    pure=('Triangle.point_in_triangle', 'point_on_edge_of_triangle', 'Vect.__eq__'))
def refine(g: 'Grid', items: '[(Triangle,[Vect])]'):
    for tri, points in items:
        face = tri.BackRef
        if face is None:
            raise Exception('a triangle of no face')
        inner = [(tri.point_in_triangle(p), p) for p in points if tri.point_in_triangle(p) not in (0, 1)]
        if len(inner) == 1:
            k, p = inner[0]
            if k == 2:
                a, b = side(p, tri)
                es = edges_between(face, a, b)
                if es:
                    if len(es[0].Faces) == 2:
                        g.cut_edge(es[0], p)
                    else:
                        g.cut_single_edge(es[0], p)
            else:
                g.divide_face(face, p)
        elif len(inner) == 2 and inner[0][0] == 2 and inner[1][0] == 2:
            a, b = side(inner[0][1], tri)
            c, d = side(inner[1][1], tri)
            if a == c and b == d:
                es = edges_between(face, a, b)
                if es:
                    g.cut_edge_with_two_nodes(es[0], inner[0][1], inner[1][1])
