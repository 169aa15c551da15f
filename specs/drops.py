"""
Reference functions: droplets in the air (drops.py).
"""
import os
import time
import math
import numpy as np
import geom
import gsu
import drops as drops_module
from geom import Vect
from drops import Space


@of('drops:Space.__init__', 'G01')
def init(self: 'Space', ds: '[(Vect, Vect)]', coords: '[any]'):
    self.Ds = ds
    self.Bx = geom.Box([d[0] for d in ds])
    self.PartitionsTuple = np.array(coords)


@of('drops:Space.find_nearest', 'G01')
def nearest(self: 'Space', p: 'Vect'):
    d = np.linalg.norm(self.PartitionsTuple - np.array((p.X, p.Y, p.Z)), axis=1)
    return self.Ds[np.argmin(d)]


@of('drops:Space.inside', 'G01', pure=('Box.is_point_inside',))
def inside(self: 'Space', p: 'Vect'):
    return self.Bx.is_point_inside(p)


@of('drops:Space.fly_step', 'G01')
def fly_step(self: 'Space', p: 'Vect', v: 'Vect', v_air: 'Vect', d: 'num', dt: 'num'):
    speed = (v - v_air).mod()
    re = speed * d / 1.736e-5
    if re == 0.0:
        cd = 0.0
    elif re <= 350.0:
        cd = 24.0 / re * (1.0 + 0.166 * math.pow(re, 0.33))
    else:
        cd = 0.178 * math.pow(re, 0.217)
    a = 0.75 * cd * 1.292 * speed / (d * 1000.0)
    return p + v * dt, v + (v_air - v) * (a * dt)


@of('drops:Space.fly', 'G01', pure=('Space.inside', 'Space.find_nearest', 'Space.fly_step', 'Vect.is_near',
                                     'TrianglesCloud.first_intersection_with_segment'))
def fly(self: 'Space', p: 'Vect', vel: 'Vect', d: 'num', dt: 'num', cloud: 'TrianglesCloud', max_steps: int):
    t = geom.Trajectory(p)
    v = vel
    while True:
        last = t.Points[-1]
        if len(t.Points) > max_steps:
            return 'N', None, t
        if not self.inside(last):
            return 'O', None, t
        r = self.fly_step(last, v, self.find_nearest(last)[1], d, dt)
        v = r[1]
        if r[0].is_near(last, 1e-15):
            return 'S', None, t
        t.Points.append(r[0])
        tri = cloud.first_intersection_with_segment(geom.Segment(last, r[0]))
        if tri is not None:
            return 'C', tri.BackRef, t


@of('drops:read_vel_field_from_file', 'G01', new=('Space',))
def read(name: str):
    ds = []
    cs = []
    f = open(name, 'r')
    s = f.readline()
    while s:
        if 'TITLE=' not in s and 'VARIABLES=' not in s and 'ZONE' in s:
            w = s.split()[1:]
            if 'FEBRICK' in w[0]:
                n = int(w[5])
                e = int(w[8])
                for i in range(n):
                    x = f.readline().split()
                    p = Vect(float(x[0]), float(x[1]), float(x[2]))
                    ds.append((p, Vect(float(x[5]), float(x[6]), float(x[7]))))
                    cs.append((p.X, p.Y, p.Z))
                for i in range(e):
                    f.readline()
            else:
                for i in range(int(w[4]) + int(w[7])):
                    f.readline()
        s = f.readline()
    f.close()
    return Space(ds, cs)


@of('drops:drops', 'G02', effects=('Grid.load', 'Grid.store', 'Grid.convert_grid_stall_to_check_point', 'Grid.clean_t_hw_hi',
                                    'Trajectory.dump'), new=('TrianglesCloud',), fills=('Grid.load',),
    pure=('read_vel_field_from_file', 'Space.fly', 'Grid.get_triangles_list', 'Face.get_triangle', 'Triangle.centroid',
          'Triangle.normal_orth', 'Triangle.area'))
def drops(stall: str, air: str, out: str, d: 'num', dt: 'num', thr: 'num', steps: int):
    if not os.path.isfile(stall):
        raise Exception('no file')
    if not os.path.isfile(air):
        raise Exception('no file')
    t0 = time.time()
    g = gsu.Grid()
    g.load(stall)
    cloud = geom.TrianglesCloud(g.get_triangles_list())
    space = drops_module.read_vel_field_from_file(air)
    f = open(out + '.tr.dat', 'w')
    f.write('# Trajectories file.\n')
    f.write('TITLE="Trajectories"\n')
    f.write('VARIABLES="X", "Y", "Z"\n')
    for face in g.Faces:
        m = face.Data.get('Stall', 0.0)
        if m > thr:
            t = face.get_triangle()
            r = space.fly(t.centroid() + t.normal_orth() * d,
                          Vect(face.Data.get('StallVX', 0.0), face.Data.get('StallVY', 0.0), face.Data.get('StallVZ', 0.0)),
                          face.Data.get('StallD', 0.0), dt, cloud, steps)
            r[2].dump(f, 'Trajectory-{0}'.format(face.GloId))
            if r[0] == 'C':
                r[1].Data['MImp2'] = m / r[1].get_triangle().area()
    g.convert_grid_stall_to_check_point()
    g.clean_t_hw_hi()
    g.store(out)
    f.close()
    time.time()


@of('drops:__main__', 'G02', effects=('drops',))
def drops_main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('grid_stall_file')
    p.add_argument('grid_air_file')
    p.add_argument('out_grid_file')
    p.add_argument('-d', '--distance', type=float, default=0.0001)
    p.add_argument('-t', '--time_delta', type=float, default=0.00001)
    p.add_argument('-s', '--stall_threshold', type=float, default=0.000001)
    p.add_argument('-m', '--max_fly_steps', type=int, default=200)
    a = p.parse_args()
    drops(a.grid_stall_file, a.grid_air_file, a.out_grid_file, a.distance, a.time_delta, a.stall_threshold, a.max_fly_steps)
