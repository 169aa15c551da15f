"""
Reference functions: growth of ice on a grid (remeshing).
"""
import math
import os
import statistics
import time
import json
import geom
import gsu
import remeshing
from copy import deepcopy
from gsu import Node, Edge, Face, Zone, Grid
from geom import Vect
from remeshing import TongRemesher, Remesher
from smoothing import NullSpaceSmoothing


@of('remeshing:zipwith', 'I01')
def zipwith(a: '[Vect]', b: '[num]', f: 'fun'):
    REQUIRE(len(a) == len(b))
    return [f(a[i], b[i]) for i in range(len(a))]


@of('remeshing:wsum', 'I01', pure=('Vect.__add__', 'Vect.__mul__', 'Vect.__truediv__', 'Vect.orth'))
def wsum(a: '[Vect]', w: '[num]'):
    REQUIRE(len(a) == len(w))
    s = Vect()
    for i in range(len(a)):
        s = s + a[i] * w[i]
    return s / sum(w)


@of('remeshing:Remesher.__init__', 'I01')
def remesher(self: 'Remesher', n: int = 1):
    if n < 1:
        raise ValueError('steps')
    self.n_rebuild_steps = n


@of('remeshing:TongRemesher.__init__', 'I02', effects=('TongRemesher.set_default_options', 'TongRemesher.try_to_read_options'))
def init(self: 'TongRemesher', mesh: str, js: 'str?', out: str, verbose: bool):
    self.mesh_filename = mesh
    self.json_file = js
    self.outdir = out
    self.set_default_options()
    if js is not None:
        with open(js, 'r') as f:
            d = json.load(f)
            f.close()
        self.try_to_read_options(d)
    if verbose:
        self.verbose = True


@of('remeshing:TongRemesher.set_default_options', 'I02')
def defaults(self: 'TongRemesher'):
    self.export_stl = False
    self.verbose = False
    self.nsteps_min = 0
    self.nsteps_max = 10
    self.nsteps_hi_side_fact = 0.1
    self.nsteps_ignore_part = 0.05
    self.nsmooth_steps = 0
    self.nsmooth_s = 10.0
    self.nsmooth_k = 0.15
    self.hsmooth_steps = 0
    self.hsmooth_alfa = 0.2
    self.hsmooth_beta = 0.1
    self.rest_volume_redistr = True
    self.nss_steps = 0
    self.nss_epsilon = 0.01
    self.nss_st = 0.2
    self.nss_fix_nodes = True
    self.pseudo_2d_oz = False


@of('remeshing:TongRemesher.try_to_read_options', 'I02')
def options(self: 'TongRemesher', data: '{str:any}'):
    if 'export_stl' in data:
        self.export_stl = data['export_stl']
    if 'remesh_verbose' in data:
        self.verbose = data['remesh_verbose']
    if 'remesh_nsteps_min' in data:
        self.nsteps_min = data['remesh_nsteps_min']
    if 'remesh_nsteps_max' in data:
        self.nsteps_max = data['remesh_nsteps_max']
    if 'remesh_nsteps_hi_side_fact' in data:
        self.nsteps_hi_side_fact = data['remesh_nsteps_hi_side_fact']
    if 'remesh_nsteps_ignore_part' in data:
        self.nsteps_ignore_part = data['remesh_nsteps_ignore_part']
    if 'remesh_nsmooth_steps' in data:
        self.nsmooth_steps = data['remesh_nsmooth_steps']
    if 'remesh_nsmooth_s' in data:
        self.nsmooth_s = data['remesh_nsmooth_s']
    if 'remesh_nsmooth_k' in data:
        self.nsmooth_k = data['remesh_nsmooth_k']
    if 'remesh_hsmooth_steps' in data:
        self.hsmooth_steps = data['remesh_hsmooth_steps']
    if 'remesh_hsmooth_alfa' in data:
        self.hsmooth_alfa = data['remesh_hsmooth_alfa']
    if 'remesh_hsmooth_beta' in data:
        self.hsmooth_beta = data['remesh_hsmooth_beta']
    if 'remesh_rest_volume_redistr' in data:
        self.rest_volume_redistr = data['remesh_rest_volume_redistr']
    if 'remesh_nss_steps' in data:
        self.nss_steps = data['remesh_nss_steps']
    if 'remesh_nss_epsilon' in data:
        self.nss_epsilon = data['remesh_nss_epsilon']
    if 'remesh_nss_st' in data:
        self.nss_st = data['remesh_nss_st']
    if 'remesh_nss_fix_nodes' in data:
        self.nss_fix_nodes = data['remesh_nss_fix_nodes']
    if 'remesh_pseudo_2d_oz' in data:
        self.pseudo_2d_oz = data['remesh_pseudo_2d_oz']


@of('remeshing:TongRemesher.__call__', 'I01', pure=('Triangle.area', 'TongRemesher.calculate_nsteps'),
    effects=('Grid.mark_all_fixed_nodes', 'TongRemesher.clusterize_nodes_for_pseudo_2d_oz',
             'TongRemesher.freeze_nodes_z_coord', 'TongRemesher.calc_ice_chunks', 'TongRemesher.remesh_step', 'Grid.store'))
def call(self: 'TongRemesher', grid: 'Grid'):
    self.grid = grid
    for f in grid.Faces:
        f.target_ice = f.get_triangle().area() * f['Hi']
        f.rest_ice = f.target_ice
        f.actual_ice = 0.0
    if self.nss_fix_nodes:
        grid.mark_all_fixed_nodes()
    n = self.calculate_nsteps()
    if self.pseudo_2d_oz:
        self.clusterize_nodes_for_pseudo_2d_oz()
        self.freeze_nodes_z_coord()
    for i in range(n):
        self.calc_ice_chunks(n - i)
        self.remesh_step()
        if self.verbose:
            grid.store(self.outdir + self.mesh_filename.replace('.dat', '_{0:05d}.dat'.format(i)))
    for f in grid.Faces:
        f['Hi'] = 0.0


@of('remeshing:TongRemesher.calculate_nsteps', 'I01', pure=('Triangle.min_side',))
def nsteps(self: 'TongRemesher'):
    if self.nsteps_min > self.nsteps_max:
        raise Exception('steps')
    a = [int(f['Hi'] / (f.get_triangle().min_side() * self.nsteps_hi_side_fact)) + 1 for f in self.grid.Faces]
    a.sort()
    a.reverse()
    k = int(len(a) * self.nsteps_ignore_part)
    n = self.nsteps_max
    if a[k] <= self.nsteps_max:
        for i in range(k):
            if a[i] <= self.nsteps_max:
                n = a[i]
                break
    if n < self.nsteps_min:
        n = self.nsteps_min
    return n


@of('remeshing:TongRemesher.freeze_nodes_z_coord', 'I03')
def freeze(self: 'TongRemesher'):
    for n in self.grid.Nodes:
        n.frozen_z = n.P.Z


@of('remeshing:TongRemesher.correct_coords_for_pseudo_2d_oz', 'I03')
def correct(self: 'TongRemesher'):
    cols = self.grid.pseudo_2d_oz_columns
    mid = len(cols[0]) // 2
    for col in cols:
        for i in range(len(col)):
            if i != mid:
                col[i].P.X = col[mid].P.X
                col[i].P.Y = col[mid].P.Y
                col[i].P.Z = col[i].frozen_z


@of('remeshing:TongRemesher.calc_ice_chunks', 'I01')
def chunks(self: 'TongRemesher', rest: int):
    for f in self.grid.Faces:
        f.ice_chunk = f.rest_ice / rest


@of('remeshing:TongRemesher.remember_current_areas', 'I01', pure=('Triangle.area',))
def remember(self: 'TongRemesher'):
    for f in self.grid.Faces:
        f.saved_area = f.get_triangle().area()


@of('remeshing:TongRemesher.correction_by_area', 'I01', pure=('Triangle.area',))
def correction(self: 'TongRemesher'):
    for f in self.grid.Faces:
        assert f.saved_area != 0.0
        f.rest_ice = f.rest_ice * f.get_triangle().area() / f.saved_area


@of('remeshing:TongRemesher.null_space_smoothing', 'I01', effects=('NullSpaceSmoothing.smoothing', 'NullSpaceSmoothing.__init__'))
def nss(self: 'TongRemesher'):
    NullSpaceSmoothing(self.grid, self.nss_steps, fix_boundary_nodes=self.nss_fix_nodes,
                       epsilon=self.nss_epsilon, st=self.nss_st).smoothing()


@of('remeshing:TongRemesher.remesh_step', 'I01',
    effects=('TongRemesher.init_ice_dirs', 'TongRemesher.normals_smoothing', 'TongRemesher.define_ice_shifts',
             'TongRemesher.heights_smoothing', 'TongRemesher.move_nodes', 'TongRemesher.remember_current_areas',
             'TongRemesher.null_space_smoothing', 'TongRemesher.correction_by_area',
             'TongRemesher.correct_coords_for_pseudo_2d_oz'))
def step(self: 'TongRemesher'):
    self.init_ice_dirs()
    self.normals_smoothing()
    self.define_ice_shifts()
    self.heights_smoothing()
    self.move_nodes()
    self.remember_current_areas()
    self.null_space_smoothing()
    self.correction_by_area()
    if self.pseudo_2d_oz:
        self.correct_coords_for_pseudo_2d_oz()


@of('remeshing:TongRemesher.init_ice_dirs', 'I01', pure=('Face.get_triangle', 'Triangle.normal_orth', 'Vect.__add__', 'Vect.__mul__', 'Vect.__truediv__', 'Vect.orth'))
def dirs(self: 'TongRemesher'):
    for f in self.grid.Faces:
        f.ice_dir = deepcopy(f.get_triangle().normal_orth())
    for n in self.grid.Nodes:
        s = Vect()
        for f in n.Faces:
            s = s + f.ice_dir
        n.ice_dir = s.orth()


@of('remeshing:TongRemesher.normals_smoothing', 'I01', pure=('Face.get_triangle', 'Triangle.area', 'wsum', 'Vect.dot_product'))
def normals(self: 'TongRemesher'):
    for _ in range(self.nsmooth_steps):
        for f in self.grid.Faces:
            ws = [max(self.nsmooth_s * (1.0 - Vect.dot_product(f.ice_dir, n.ice_dir)), self.nsmooth_k) for n in f.Nodes]
            f.ice_dir = remeshing.wsum([n.ice_dir for n in f.Nodes], ws)
        for n in self.grid.Nodes:
            ws = [1.0 / f.get_triangle().area() for f in n.Faces]
            n.ice_dir = remeshing.wsum([f.ice_dir for f in n.Faces], ws)


@of('remeshing:TongRemesher.define_ice_shifts', 'I01',
    pure=('Face.get_triangle', 'Triangle.area', 'Triangle.normal_orth', 'prizmatoid_volume_coefs'))
def shifts(self: 'TongRemesher'):
    for f in self.grid.Faces:
        h = f.ice_chunk / f.get_triangle().area()
        if f.ice_chunk > 1.0e-10:
            p, q, r = f.Nodes[0], f.Nodes[1], f.Nodes[2]
            a, b, _ = geom.utils.prizmatoid_volume_coefs(p.P, q.P, r.P, p.ice_dir, q.ice_dir, r.ice_dir,
                                                         f.get_triangle().normal_orth())
            if abs(b) > 1.0e-10:
                d = a * a + 4.0 * b * f.ice_chunk
                if d >= 0.0:
                    d = math.sqrt(d)
                    h1, h2 = (d - a) / (2.0 * b), (-d - a) / (2.0 * b)
                    if h1 >= 0.0 and h2 >= 0.0:
                        h = min(h1, h2)
                    elif h1 >= 0.0:
                        h = h1
                    elif h2 >= 0.0:
                        h = h2
        f.ice_shift = h
    for n in self.grid.Nodes:
        n.ice_shift = statistics.mean([f.ice_shift for f in n.Faces])
        if n.ice_shift < 0.0:
            raise Exception('shift')


@of('remeshing:TongRemesher.heights_smoothing', 'I01', pure=('Triangle.area',), effects=('TongRemesher.define_ice_shifts',))
def heights(self: 'TongRemesher'):
    for _ in range(self.hsmooth_steps):
        for f in self.grid.Faces:
            f.loc_ice_chunk = f.ice_chunk
        top = max([f.ice_shift for f in self.grid.Faces])
        for e in self.grid.Edges:
            if len(e.Faces) == 2:
                p, q = e.Faces[0], e.Faces[1]
                if p.ice_shift < q.ice_shift:
                    p, q = q, p
                if p.ice_shift == 0.0:
                    a = p.get_triangle().area()
                else:
                    a = p.ice_chunk / p.ice_shift
                d = min(p.ice_shift - q.ice_shift, self.hsmooth_alfa * top) * a
                p.loc_ice_chunk -= self.hsmooth_beta * d
                q.loc_ice_chunk += self.hsmooth_beta * d
        for f in self.grid.Faces:
            f.ice_chunk = f.loc_ice_chunk
        self.define_ice_shifts()


@of('remeshing:TongRemesher.move_nodes', 'I01', pure=('displaced_triangle_volume', 'Vect.__add__', 'Vect.__mul__', 'Vect.__truediv__', 'Vect.orth'))
def move(self: 'TongRemesher'):
    for n in self.grid.Nodes:
        n.shift = n.ice_dir * n.ice_shift
    for f in self.grid.Faces:
        a, b, c = f.Nodes[0], f.Nodes[1], f.Nodes[2]
        v = geom.utils.displaced_triangle_volume(a.P, b.P, c.P, a.P + a.shift, b.P + b.shift, c.P + c.shift)
        if self.rest_volume_redistr:
            f.rest_ice = f.rest_ice - v
        else:
            f.rest_ice = f.rest_ice - f.ice_chunk
        if f.rest_ice < 0.0:
            f.rest_ice = 0.0
        f.actual_ice = f.actual_ice + v
    for n in self.grid.Nodes:
        n.P = n.P + n.shift


@of('remeshing:TongRemesher.clusterize_nodes_for_pseudo_2d_oz', 'I03')
def cluster(self: 'TongRemesher'):
    d = {}
    for n in self.grid.Nodes:
        k = (int(n.P.X * 10 ** 20), int(n.P.Y * 10 ** 20))
        if k in d:
            d[k].append(n)
        else:
            d[k] = [n]
    vs = list(d.values())
    for v in vs:
        if len(v) != len(vs[0]):
            raise Exception('x')
        if len(v) == 1:
            raise Exception('y')
        v.sort(key=lambda n: n.P.Z)
    self.grid.pseudo_2d_oz_columns = vs


@of('remesh:check_argument', 'I01')
def check_argument(name: str):
    if not os.path.isfile(name):
        exit(1)
    if name[-4:] != '.dat':
        exit(1)


@of('remesh:__main__', 'I01', effects=('Grid.load', 'Grid.store', 'TongRemesher.__call__', 'TongRemesher.__init__'))
def main():
    import argparse
    p = argparse.ArgumentParser()
    g = p.add_mutually_exclusive_group(required=True)
    g.add_argument('-g', '--grid')
    g.add_argument('-d', '--dir')
    p.add_argument('-j', '--json')
    p.add_argument('-o', '--outdir', default='.')
    p.add_argument('-v', '--verbosity', action='count', default=0)
    a = p.parse_args()
    if a.grid:
        ms = [a.grid]
    elif a.dir:
        ms = [a.dir + '/' + x for x in os.listdir(a.dir)]
    if a.json is not None and not os.path.isfile(a.json):
        raise Exception('json')
    if a.outdir:
        out = a.outdir
    t0 = time.time()
    try:
        os.makedirs(out)
    except FileExistsError:
        pass
    for m in [x for x in ms if x.endswith('.dat')]:
        g = Grid()
        g.load(m)
        name = m if m.find('/') == -1 else m[m.rfind('/'):]
        r = TongRemesher(name, a.json, out, verbose=a.verbosity > 1)
        r(g)
        g.store(out + '/' + name.replace('_r_', '_'))
    if a.verbosity > 1:
        with open(out + '/report.txt', 'w') as f:
            print('Total time: {} s'.format(time.time() - t0), file=f)


@of('remeshing:Remesher.__call__', 'I01', never=True)
def remesher_call(self: 'Remesher', grid: 'Grid'):
    raise NotImplementedError


@of('remeshing:Remesher.distance', 'I01', never=True)
def remesher_distance(self: 'Remesher', node: 'Node'):
    raise NotImplementedError


@of('remeshing:Remesher.direction', 'I01', never=True)
def remesher_direction(self: 'Remesher', node: 'Node'):
    raise NotImplementedError
