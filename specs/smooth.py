"""References for smoothing.py."""
import numpy as np
import geom
import gsu
from geom import Vect
from gsu import Grid, Node, Edge, Face
from smoothing import Smoothing, NullSpaceSmoothing
from scipy.linalg import eig, det


@of('smoothing:Smoothing.__init__', 'Q01')
def init(self: 'Smoothing', grid: 'Grid', num_interations: int = 0, fix_boundary_nodes: bool = False):
    self.grid = grid
    self.num_iterations = num_interations
    self.fix_boundary_nodes = fix_boundary_nodes


@of('smoothing:Smoothing.name_of_iteration', 'Q01')
def name_of(i: int):
    s = str(i)
    return '000'[:-len(s)] + s


@of('smoothing:Smoothing.smoothing', 'Q01', never=True)
def abstract(self: 'Smoothing'):
    raise NotImplementedError


@of('smoothing:Smoothing.move_node', 'Q01')
def move(self: 'Smoothing', node: 'Node', shift: 'Vect'):
    if not (self.fix_boundary_nodes and node.border):
        node.P = node.P + shift


@of('smoothing:Smoothing.write_grid_and_print_info', 'Q01', effects=('Grid.store',))
def write(self: 'Smoothing', iteration: int):
    self.grid.store('{}_smoothing_{}.dat'.format(self.__name__, self.name_of_iteration(iteration)))


@of('smoothing:Smoothing.apply_shifts', 'Q01')
def shifts(self: 'Smoothing', shifts: '[Vect]'):
    if len(self.grid.Nodes) != len(shifts):
        raise Exception('length')
    for i in range(len(self.grid.Nodes)):
        n = self.grid.Nodes[i]
        if not (self.fix_boundary_nodes and n.border):
            n.P = n.P + shifts[i]


@of('smoothing:NullSpaceSmoothing.__init__', 'Q01')
def ns_init(self: 'NullSpaceSmoothing', grid: 'Grid', num_iterations: int = 0, st: float = 0.2, epsilon: float = 1e-2,
            print_intermediate_steps: bool = False, fix_boundary_nodes: bool = False):
    if len(grid.Nodes) == 0 or len(grid.Faces) == 0 or len(grid.Edges) == 0:
        raise Exception('empty')
    self.grid = grid
    self.num_iterations = num_iterations
    self.fix_boundary_nodes = fix_boundary_nodes
    self.st = st
    self.epsilon = epsilon
    self.print_intermediate_steps = print_intermediate_steps


@of('smoothing:NullSpaceSmoothing.create_matrix_of_normals', 'Q01', pure=('Triangle.normal_orth',))
def normals(node: 'Node'):
    REQUIRE(len(node.Faces) > 0)
    return np.array([f.get_triangle().normal_orth().coords_as_np() for f in node.Faces])


@of('smoothing:NullSpaceSmoothing.get_laplacian', 'Q01')
def laplacian(self: 'NullSpaceSmoothing', node: 'Node'):
    if len(node.Faces) == 0:
        raise Exception('faces')
    s = Vect(0.0, 0.0, 0.0)
    for f in node.Faces:
        s = s + f.get_triangle().centroid()
    return s / float(len(node.Faces)) - node.P


@of('smoothing:NullSpaceSmoothing.smoothing', 'Q01', pure=('Triangle.area', 'NullSpaceSmoothing.get_laplacian',
                                                            'NullSpaceSmoothing.create_matrix_of_normals', 'Face.get_triangle'),
    effects=('Smoothing.apply_shifts', 'Smoothing.write_grid_and_print_info'))
def smoothing(self: 'NullSpaceSmoothing'):
    for i in range(self.num_iterations):
        moves = []
        for n in self.grid.Nodes:
            m = len(n.Faces)
            w = [f.get_triangle().area() for f in n.Faces]
            normals = self.create_matrix_of_normals(n)
            lap = self.get_laplacian(n)
            if normals.shape != (m, 3) or len(w) != m:
                raise Exception('shape')
            weights = np.diag(w)
            a = np.dot(np.dot(normals.T, weights), normals)
            if weights.shape != (m, m) or np.dot(normals.T, weights).shape != (3, m) or a.shape != (3, 3):
                raise Exception('shape')
            values, vectors = eig(a)
            order = values.argsort()[::-1]
            values = values[order]
            vectors = vectors[:, order]
            if not np.abs(det(a) - np.cumprod(values)[-1]) < 1e-4:
                raise Exception('determinant')
            k = np.sum(values > self.epsilon * values[0])
            null = vectors[:, k:]
            if null.shape != (3, 3 - k):
                raise Exception('shape')
            v = lap.coords_as_np().reshape(3, 1)
            if v.shape != (3, 1):
                raise Exception('shape')
            if k < 3:
                t = self.st * np.dot(np.dot(null, null.T), v)
                if t.shape != (3, 1):
                    raise Exception('shape')
                moves.append(Vect(np.real(t[0, 0]), np.real(t[1, 0]), np.real(t[2, 0])))
            else:
                moves.append(Vect(0.0, 0.0, 0.0))
        self.apply_shifts(moves)
        if self.print_intermediate_steps:
            self.write_grid_and_print_info(i)
