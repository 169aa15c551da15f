"""
Reference functions: converters from other formats.
"""
import os
import re
import itertools
import pathlib
import numpy as np
from scipy.spatial import KDTree
import gsu
import geom
import gsu_converter
import ansys_to_crystal
import lazurit_to_crystal
import interpolate
from geom import Vect


# ---------------------------------------------------------------- L01 lazurit

@of('lazurit_to_crystal:leap_lines', 'L01')
def leap_lines(lines: '[str]'):
    r = []
    for l in lines:
        for s in l.split():
            r.append(s)
    return r


@of('lazurit_to_crystal:get_block_name', 'L01')
def get_block_name(s: str):
    for i in range(len(s)):
        if s[len(s) - 1 - i] == 'B':
            return s[len(s) - 1 - i:-4]


@of('lazurit_to_crystal:double_list', 'L01')
def double_list(li: '[str]'):
    r = []
    for e in li:
        r.append(e)
        r.append(e)
    return r


@of('lazurit_to_crystal:double_and_neg_list', 'L01')
def double_and_neg_list(li: '[str]'):
    r = []
    for e in li:
        x = str(-float(e))
        r.append(x)
        r.append(x)
    return r


# ---------------------------------------------------------------- L02 ansys

@of('ansys_to_crystal:is_str_title', 'L02')
def is_str_title(s: str):
    return 'TITLE' in s


@of('ansys_to_crystal:is_str_variables', 'L02')
def is_str_variables(s: str):
    return 'VARIABLES' in s


@of('ansys_to_crystal:is_str_zone', 'L02')
def is_str_zone(s: str):
    return 'ZONE' in s


@of('ansys_to_crystal:is_str_meta', 'L02')
def is_str_meta(s: str):
    return 'TITLE' in s or 'VARIABLES' in s or 'ZONE' in s


@of('ansys_to_crystal:is_str_zone_to_extract', 'L02')
def is_str_zone_to_extract(s: str):
    if 'ZONE' in s:
        for z in ansys_to_crystal.zones_to_extract:
            if 'T="' + z + '"' in s:
                return True
    return False


@of('ansys_to_crystal:get_zone_nodes_and_elements_count', 'L02')
def counts(s: str):
    x = re.findall('(\\d+)', s.split('N=')[1])
    return int(x[0]), int(x[1])


@of('ansys_to_crystal:is_variable_names_match', 'L02')
def is_match(fn: str, sn: str):
    if len(sn) == 1:
        return fn == sn
    return sn in fn


@of('ansys_to_crystal:filter_with_mask', 'L02')
def filter_with_mask(a: '[str]', m: '[int]'):
    REQUIRE(len(a) == len(m))
    return [a[i] for i in range(len(a)) if m[i] != 0]


# ---------------------------------------------------------------- L03 nodes to faces

@of('gsu_converter:Vector.__init__', 'L03')
def vector(self: 'Vector', x: num = 0.0, y: num = 0.0, z: num = 0.0):
    self.X = x
    self.Y = y
    self.Z = z


@of('gsu_converter:Node.__init__', 'L03')
def node(self: 'gsu_converter.Node', id: int = 0, x: num = 0.0, y: num = 0.0, z: num = 0.0, htc: num = 0.0, beta: num = 0.0,
         taux: num = 0.0, tauy: num = 0.0, tauz: num = 0.0, rf: num = 0.0):
    self.Id = id
    self.Point = gsu_converter.Vector(x, y, z)
    self.HTC = htc
    self.Beta = beta
    self.Tau = gsu_converter.Vector(taux, tauy, tauz)
    self.RecoveryFactor = rf


@of('gsu_converter:Node.Copy', 'L03')
def copy(self: 'gsu_converter.Node'):
    n = gsu_converter.Node()
    n.Id = self.Id
    n.Point = gsu_converter.Vector(self.Point.X, self.Point.Y, self.Point.Z)
    n.HTC = self.HTC
    n.Beta = self.Beta
    n.Tau = gsu_converter.Vector(self.Tau.X, self.Tau.Y, self.Tau.Z)
    n.RecoveryFactor = self.RecoveryFactor
    return n


@of('gsu_converter:Face.__init__', 'L03')
def face(self: 'gsu_converter.Face', a: 'gsu_converter.Node', b: 'gsu_converter.Node', c: 'gsu_converter.Node', htc: num = 0.0,
         beta: num = 0.0, taux: num = 0.0, tauy: num = 0.0, tauz: num = 0.0, rf: num = 0.0):
    self.Nodes = [a, b, c]
    self.HTC = htc
    self.Beta = beta
    self.Tau = gsu_converter.Vector(taux, tauy, tauz)
    self.RecoveryFactor = rf


@of('gsu_converter:Zone.__init__', 'L03')
def zone(self: 'gsu_converter.Zone', title: str):
    self.Title = title
    self.Nodes = []
    self.Faces = []


@of('gsu_converter:Zone.ReplaceNode', 'L03')
def replace_node(self: 'gsu_converter.Zone', old: 'gsu_converter.Node', new: 'gsu_converter.Node'):
    for i in range(len(self.Nodes)):
        if self.Nodes[i] == old:
            self.Nodes[i] = new
    for f in self.Faces:
        for i in range(len(f.Nodes)):
            if f.Nodes[i] == old:
                f.Nodes[i] = new


@of('gsu_converter:Zone.RestoreNodesIndices', 'L03')
def restore(self: 'gsu_converter.Zone'):
    for i in range(len(self.Nodes)):
        self.Nodes[i].Id = i


@of('gsu_converter:Zone.DeleteExtraNodes', 'L03')
def delete_extra(self: 'gsu_converter.Zone'):
    used = []
    for f in self.Faces:
        for n in f.Nodes:
            used.append(n)
    self.Nodes = [n for n in self.Nodes if n in used]


@of('gsu_converter:Grid.__init__', 'L03')
def grid(self: 'gsu_converter.Grid'):
    self.Zones = []


@of('gsu_converter:Grid.parse_coordinate', 'L03')
def parse_coordinate(s: str):
    try:
        return float(s)
    except ValueError:
        return 0.0


@of('gsu_converter:Grid.ConvertDataFromNodesToFaces', 'L03')
def nodes_to_faces(self: 'gsu_converter.Grid'):
    for z in self.Zones:
        for f in z.Faces:
            a, b, c = f.Nodes[0], f.Nodes[1], f.Nodes[2]
            f.HTC = (a.HTC + b.HTC + c.HTC) / 3
            f.Beta = (a.Beta + b.Beta + c.Beta) / 3
            f.Tau = gsu_converter.Vector((a.Tau.X + b.Tau.X + c.Tau.X) / 3, (a.Tau.Y + b.Tau.Y + c.Tau.Y) / 3,
                                         (a.Tau.Z + b.Tau.Z + c.Tau.Z) / 3)
            f.RecoveryFactor = (a.RecoveryFactor + b.RecoveryFactor + c.RecoveryFactor) / 3


@of('gsu_converter:Grid.Export', 'L03')
def export(self: 'gsu_converter.Grid', filename: str):
    f = open(filename, 'w')
    f.write('VARIABLES="X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"\n')
    for z in self.Zones:
        f.write('ZONE T="' + z.Title + '"\n')
        f.write('NODES=' + str(len(z.Nodes)) + '\n')
        f.write('ELEMENTS=' + str(len(z.Faces)) + '\n')
        f.write('DATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\nVARLOCATION=([4-9]=CELLCENTERED)\n')
        for n in z.Nodes:
            f.write('%.18e ' % n.Point.X)
        f.write('\n')
        for n in z.Nodes:
            f.write('%.18e ' % n.Point.Y)
        f.write('\n')
        for n in z.Nodes:
            f.write('%.18e ' % n.Point.Z)
        f.write('\n')
        for x in z.Faces:
            f.write('%.18e ' % x.HTC)
        f.write('\n')
        for x in z.Faces:
            f.write('%.18e ' % x.Beta)
        f.write('\n')
        for x in z.Faces:
            f.write('%.18e ' % x.Tau.X)
        f.write('\n')
        for x in z.Faces:
            f.write('%.18e ' % x.Tau.Y)
        f.write('\n')
        for x in z.Faces:
            f.write('%.18e ' % x.Tau.Z)
        f.write('\n')
        for x in z.Faces:
            f.write('%.18e ' % x.RecoveryFactor)
        f.write('\n')
        for x in z.Faces:
            f.write('%d %d %d\n' % (x.Nodes[0].Id + 1, x.Nodes[1].Id + 1, x.Nodes[2].Id + 1))
    f.close()


# ---------------------------------------------------------------- L04 interpolation

@of('interpolate:check_argument', 'L04')
def check_argument(name: str):
    if not os.path.isfile(name):
        exit(1)
    if name[-4:] != '.dat':
        exit(1)


@of('interpolate:dual_mesh', 'L04')
def dual_mesh(mesh: 'Grid'):
    for f in mesh.Faces:
        f.aux_node = f.get_triangle().centroid()


@of('interpolate:all_coordinates_of_aux_nodes', 'L04')
def all_coordinates(mesh: 'Grid'):
    return np.array([[f.aux_node.X for f in mesh.Faces], [f.aux_node.Y for f in mesh.Faces],
                     [f.aux_node.Z for f in mesh.Faces]]).T


@of('interpolate:face_centered_interpolation', 'L04', effects=('dual_mesh',), pure=('all_coordinates_of_aux_nodes',))
def interpolation(source: 'Grid', target: 'Grid'):
    interpolate.dual_mesh(source)
    interpolate.dual_mesh(target)
    t = KDTree(interpolate.all_coordinates_of_aux_nodes(source))
    for f in target.Faces:
        i = t.query(f.aux_node.coords_as_np())[1]
        f['T'] = source.Faces[i]['T']
        f['Hw'] = source.Faces[i]['Hw']


# ---------------------------------------------------------------- L04, programs

@of('interpolate:__main__', 'L04', effects=('Grid.load', 'Grid.store', 'face_centered_interpolation'))
def interpolate_main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('source')
    p.add_argument('target')
    p.add_argument('-res', '--result_grid')
    p.add_argument('-v', '--verbosity', action='count', default=0)
    a = p.parse_args()
    interpolate.check_argument(a.source)
    interpolate.check_argument(a.target)
    if a.result_grid and a.result_grid[-4:] != '.dat':
        exit(1)
    s = gsu.Grid()
    t = gsu.Grid()
    s.load(a.source)
    t.load(a.target)
    interpolate.face_centered_interpolation(s, t)
    if a.result_grid:
        t.store(a.result_grid)
    else:
        t.store(a.target[:-4] + '_interpolated.dat')


@of('lazurit_add_beta_from_ansys:__main__', 'L04', effects=('Grid.load', 'Grid.store'), fills=('Grid.load',))
def add_beta_main():
    import argparse
    p = argparse.ArgumentParser(prog='lazurit_add_beta_from_ansys')
    p.add_argument('lazurit')
    p.add_argument('ansys')
    p.add_argument('out')
    a = p.parse_args()
    if not os.path.exists(a.lazurit):
        raise Exception('no file')
    if not os.path.exists(a.ansys):
        raise Exception('no file')
    lg = gsu.Grid()
    lg.load(a.lazurit)
    ag = gsu.Grid()
    ag.load(a.ansys)
    centers = [geom.Vect.from_iterable(f.get_center()) for f in ag.Faces]
    betas = [f['Beta'] for f in ag.Faces]
    for f in lg.Faces:
        c = geom.Vect.from_iterable(f.get_center())
        d = np.array([(c - x).mod2() for x in centers])
        f['Beta'] = betas[d.argmin()]
    lg.store(a.out)


# ---------------------------------------------------------------- L02, files

@of('ansys_to_crystal:variables_names_and_mask', 'L02')
def names_and_mask(fnames: '[str]', snames: '[str]'):
    REQUIRE(fnames is not snames)
    mask = [0] * len(fnames)
    for i, old in enumerate(fnames):
        for s in snames:
            if ansys_to_crystal.is_variable_names_match(old, s):
                fnames[i] = s
                mask[i] = 1
    return fnames, mask


@of('ansys_to_crystal:filter_zones', 'L02', cut={'vars': {'nodes': 'int', 'faces': 'int', 'f': 'file', 'of': 'file', 'line': 'str'}},
    pure=('is_str_title', 'is_str_variables', 'is_str_zone', 'is_str_zone_to_extract', 'get_zone_nodes_and_elements_count'))
def filter_zones(src: str, dst: str):
    f = open(src, 'r')
    of = open(dst, 'w')
    nodes = 0
    faces = 0
    line = f.readline()
    while line:
        if ansys_to_crystal.is_str_title(line) or ansys_to_crystal.is_str_variables(line) or ansys_to_crystal.is_str_zone(line):
            if nodes > 0 or faces > 0:
                raise Exception('reading')
            if ansys_to_crystal.is_str_title(line) or ansys_to_crystal.is_str_variables(line):
                of.write(line)
            else:
                n, m = ansys_to_crystal.get_zone_nodes_and_elements_count(line)
                if ansys_to_crystal.is_str_zone_to_extract(line):
                    of.write(line)
                    nodes = n
                    faces = m
        elif nodes > 0:
            of.write(line)
            nodes -= 1
        elif faces > 0:
            of.write(line)
            faces -= 1
        line = f.readline()
    f.close()
    of.close()


@of('ansys_to_crystal:data_from_nodes_to_faces', 'L02',
    effects=('gsu_converter.Grid.LoadNodesData', 'gsu_converter.Grid.ConvertDataFromNodesToFaces', 'gsu_converter.Grid.Export', 'Grid.load', 'Grid.store'))
def data_from_nodes(src: str, dst: str, reverse: bool):
    g = gsu_converter.Grid()
    g.LoadNodesData(src, reverse)
    g.ConvertDataFromNodesToFaces()
    g.Export(dst)
    g = gsu.Grid()
    g.load(dst)
    g.store(dst)


@of('ansys_to_crystal:filter_variables', 'L02',
    cut={'vars': {'nodes': 'int', 'faces': 'int', 'mask': '[int]', 'f': 'file', 'of': 'file', 'line': 'str'}},
    pure=('is_str_title', 'is_str_variables', 'is_str_zone', 'get_zone_nodes_and_elements_count', 'variables_names_and_mask',
          'filter_with_mask'))
def filter_variables(src: str, dst: str, names: '[str]'):
    f = open(src, 'r')
    of = open(dst, 'w')
    nodes = 0
    faces = 0
    line = f.readline()
    while line:
        if ansys_to_crystal.is_str_title(line) or ansys_to_crystal.is_str_variables(line) or ansys_to_crystal.is_str_zone(line):
            if nodes > 0 or faces > 0:
                raise Exception('reading')
            if ansys_to_crystal.is_str_title(line):
                of.write(line)
            elif ansys_to_crystal.is_str_variables(line):
                ns, mask = ansys_to_crystal.variables_names_and_mask(line.split('=')[1].replace('"', '').split(','), names)
                of.write('VARIABLES=' + ', '.join(['"' + n + '"' for n in ansys_to_crystal.filter_with_mask(ns, mask)]) + '\n')
            else:
                nodes, faces = ansys_to_crystal.get_zone_nodes_and_elements_count(line)
                of.write(line)
        elif nodes > 0:
            of.write(' '.join(ansys_to_crystal.filter_with_mask(line.split(), mask)) + '\n')
            nodes -= 1
        elif faces > 0:
            of.write(line)
            faces -= 1
        line = f.readline()
    f.close()
    of.close()


@of('ansys_to_crystal:merge_fensap_drop3d_adiabatic', 'L02',
    cut={'vars': {'nodes': 'int', 'faces': 'int', 'ff': 'file', 'df': 'file', 'af': 'file', 'of': 'file', 'fl': 'str',
                  'dl': 'str', 'al': 'str'}},
    pure=('is_str_title', 'is_str_variables', 'is_str_zone', 'get_zone_nodes_and_elements_count'))
def merge3(fn: str, dn: str, an: str, dst: str):
    ff = open(fn, 'r')
    df = open(dn, 'r')
    af = open(an, 'r')
    of = open(dst, 'w')
    nodes = 0
    faces = 0
    fl = ff.readline()
    dl = df.readline()
    al = af.readline()
    while fl:
        if ansys_to_crystal.is_str_title(fl) or ansys_to_crystal.is_str_variables(fl) or ansys_to_crystal.is_str_zone(fl):
            if nodes > 0 or faces > 0:
                raise Exception('reading')
            if ansys_to_crystal.is_str_title(fl):
                of.write(fl)
            elif ansys_to_crystal.is_str_variables(fl):
                of.write('VARIABLES = "X", "Y", "Z", "Flux", "Beta", "TauX", "TauY", "TauZ", "Ts", "StatT"\n')
            else:
                nodes, faces = ansys_to_crystal.get_zone_nodes_and_elements_count(fl)
                of.write(fl)
        elif nodes > 0:
            f = fl.split()
            d = dl.split()
            a = al.split()
            of.write(f[0] + ' ' + f[1] + ' ' + f[2] + ' ' + f[7] + ' ' + d[3] + ' ' + f[4] + ' ' + f[5] + ' ' + f[6] + ' '
                     + f[3] + ' ' + a[3] + '\n')
            nodes -= 1
        elif faces > 0:
            of.write(fl)
            faces -= 1
        fl = ff.readline()
        dl = df.readline()
        al = af.readline()
    ff.close()
    df.close()
    af.close()
    of.close()


@of('ansys_to_crystal:calculate_htc_recovery_factor', 'L02',
    cut={'vars': {'nodes': 'int', 'faces': 'int', 'f': 'file', 'of': 'file', 'line': 'str'}},
    pure=('is_str_title', 'is_str_variables', 'is_str_zone', 'get_zone_nodes_and_elements_count'))
def htc(src: str, dst: str, ta: num, va: num, cp: num):
    f = open(src, 'r')
    of = open(dst, 'w')
    nodes = 0
    faces = 0
    line = f.readline()
    while line:
        if ansys_to_crystal.is_str_title(line) or ansys_to_crystal.is_str_variables(line) or ansys_to_crystal.is_str_zone(line):
            if nodes > 0 or faces > 0:
                raise Exception('reading')
            if ansys_to_crystal.is_str_title(line):
                of.write(line)
            elif ansys_to_crystal.is_str_variables(line):
                of.write('VARIABLES = "X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"\n')
            else:
                nodes, faces = ansys_to_crystal.get_zone_nodes_and_elements_count(line)
                of.write(line)
        elif nodes > 0:
            x = line.split()
            k = 2 * cp / va ** 2
            r = (float(x[9]) - ta) * k
            x[3] = str(-float(x[3]) / (float(x[8]) - ta - r / k))
            x = x[:-1]
            x[-1] = str(r)
            of.write(' '.join(x) + '\n')
            nodes -= 1
        elif faces > 0:
            of.write(line)
            faces -= 1
        line = f.readline()
    f.close()
    of.close()


@of('ansys_to_crystal:__main__', 'L02', effects=('filter_zones', 'filter_variables', 'merge_fensap_drop3d_adiabatic',
                                                 'calculate_htc_recovery_factor', 'data_from_nodes_to_faces'))
def ansys_main():
    import argparse
    p = argparse.ArgumentParser(prog='ansys_to_crystal')
    p.add_argument('basename')
    p.add_argument('zones')
    p.add_argument('-t', '--air_termerature', dest='air_temperature', type=float)
    p.add_argument('-v', '--air_velocity', dest='air_velocity', type=float)
    p.add_argument('-cp', '--heat_capacity', dest='heat_capacity', type=float)
    p.add_argument('-n', '--normals', dest='normals', choices=['origin', 'reversed'], default='reversed')
    a = p.parse_args()
    path = pathlib.PurePath(a.basename)
    d = '%s' % path.parent
    b = '%s' % path.name
    ansys_to_crystal.zones_to_extract = a.zones.split(',')
    if not os.path.exists(d + '/' + b + '.fensap.dat'):
        raise Exception('no file')
    if not os.path.exists(d + '/' + b + '.drop3d.dat'):
        raise Exception('no file')
    if not os.path.exists(d + '/' + b + '.adiabatic.dat'):
        raise Exception('no file')
    for s in ('fensap', 'drop3d', 'adiabatic'):
        ansys_to_crystal.filter_zones(d + '/' + b + '.' + s + '.dat', d + '/phase1.' + b + '.' + s + '.dat')
    ansys_to_crystal.filter_variables(d + '/phase1.' + b + '.fensap.dat', d + '/phase2.' + b + '.fensap.dat',
                                      ansys_to_crystal.fensap_variables_to_extract)
    ansys_to_crystal.filter_variables(d + '/phase1.' + b + '.drop3d.dat', d + '/phase2.' + b + '.drop3d.dat',
                                      ansys_to_crystal.drop3d_variables_to_extract)
    ansys_to_crystal.filter_variables(d + '/phase1.' + b + '.adiabatic.dat', d + '/phase2.' + b + '.adiabatic.dat',
                                      ansys_to_crystal.adiabatic_variables_to_extract)
    ansys_to_crystal.merge_fensap_drop3d_adiabatic(d + '/phase2.' + b + '.fensap.dat', d + '/phase2.' + b + '.drop3d.dat',
                                                   d + '/phase2.' + b + '.adiabatic.dat', d + '/phase3.' + b + '.dat')
    ansys_to_crystal.calculate_htc_recovery_factor(d + '/phase3.' + b + '.dat', d + '/phase4.' + b + '.dat',
                                                   a.air_temperature, a.air_velocity, a.heat_capacity)
    ansys_to_crystal.data_from_nodes_to_faces(d + '/phase4.' + b + '.dat', d + '/' + b + '.dat', a.normals == 'reversed')


# ---------------------------------------------------------------- L03, files

@of('gsu_converter:Grid.LoadNodesData', 'L03', pure=('gsu_converter.Grid.parse_coordinate',),
    cut={'vars': {'nodes': 'int', 'faces': 'int', 'f': 'file', 'line': 'str'}})
def load_nodes(self: 'gsu_converter.Grid', filename: str, reverse: bool):
    f = open(filename, 'r')
    nodes = 0
    faces = 0
    line = f.readline()
    while line:
        if 'TITLE' in line or 'VARIABLES' in line:
            pass
        elif 'ZONE' in line:
            x = re.findall('(\\d+)', line.split('N=')[1])
            nodes = int(x[0])
            faces = int(x[1])
            self.Zones.append(gsu_converter.Zone(line.split('T=')[1].split('"')[1]))
        elif nodes > 0:
            x, y, z, htc, beta, tx, ty, tz, rf = line.split()
            zone = self.Zones[-1]
            px = float(self.parse_coordinate(x))
            py = float(self.parse_coordinate(y))
            pz = float(self.parse_coordinate(z))
            zone.Nodes.append(gsu_converter.Node(len(zone.Nodes), px, py, pz, float(htc), float(beta), float(tx), float(ty),
                                                 float(tz), float(rf)))
            nodes -= 1
        elif faces > 0:
            s1, s2, s3, s4 = line.split()
            zone = self.Zones[-1]
            a = zone.Nodes[int(s1) - 1]
            b = zone.Nodes[int(s2) - 1]
            c = zone.Nodes[int(s3) - 1]
            d = zone.Nodes[int(s4) - 1]
            if reverse:
                a, b, c, d = d, c, b, a
            if a == b:
                zone.Faces.append(gsu_converter.Face(a, c, d))
            elif a == c:
                zone.Faces.append(gsu_converter.Face(a, b, d))
            elif a == d:
                zone.Faces.append(gsu_converter.Face(a, b, c))
            elif b == c:
                zone.Faces.append(gsu_converter.Face(a, b, d))
            elif b == d or c == d:
                zone.Faces.append(gsu_converter.Face(a, b, c))
            else:
                zone.Faces.append(gsu_converter.Face(a, b, c))
                zone.Faces.append(gsu_converter.Face(a, c, d))
            faces -= 1
        line = f.readline()
    f.close()


@of('gsu_converter:Grid.Import', 'L03', cut={'vars': {'f': 'file', 'line': 'str'}})
def import_(self: 'gsu_converter.Grid', filename: str):
    f = open(filename, 'r')
    line = f.readline()
    while line:
        if 'EXPORT_MODE' in line or 'TITLE' in line or 'VARIABLES' in line:
            pass
        elif 'ZONE T=' in line:
            z = gsu_converter.Zone(line.split('=')[1][1:-2])
            self.Zones.append(z)
            n = int(f.readline().split('=')[1])
            m = int(f.readline().split('=')[1])
            f.readline()
            f.readline()
            f.readline()
            xs = f.readline().split()
            ys = f.readline().split()
            zs = f.readline().split()
            assert len(xs) == n and len(ys) == n and len(zs) == n
            for i in range(n):
                z.Nodes.append(gsu_converter.Node(i, float(xs[i]), float(ys[i]), float(zs[i])))
            f.readline()
            f.readline()
            f.readline()
            htc = f.readline().split()
            beta = f.readline().split()
            tx = f.readline().split()
            ty = f.readline().split()
            tz = f.readline().split()
            assert len(htc) == m and len(beta) == m and len(tx) == m and len(ty) == m and len(tz) == m
            for i in range(m):
                x = f.readline().split()
                z.Faces.append(gsu_converter.Face(z.Nodes[int(x[0]) - 1], z.Nodes[int(x[1]) - 1], z.Nodes[int(x[2]) - 1],
                                                  float(htc[i]), float(beta[i]), float(tx[i]), float(ty[i]), float(tz[i])))
        line = f.readline()
    f.close()


@of('lazurit_to_crystal:__main__', 'L01', effects=('Grid.load', 'Grid.store'), pure=('leap_lines', 'double_list',
    'double_and_neg_list', 'get_block_name'), cut={'kind': 'for', 'item': 'int', 'vars': {'names': '[str]', 'n': 'int', 'of': 'file', 'a': '?'}})
def lazurit_main():
    import argparse
    p = argparse.ArgumentParser(prog='lazurit_to_crystal')
    p.add_argument('in_dir')
    p.add_argument('out_file')
    a = p.parse_args()
    if not os.path.exists(a.in_dir):
        raise Exception('no directory')
    names = sorted([x for x in os.listdir(a.in_dir) if '.TEC' in x])
    n = len(names)
    if n % 2 != 0:
        raise Exception('odd')
    of = open(a.out_file, 'w')
    of.write('# EXPORT_MODE=CHECK_POINT\nTITLE="FE Surface Data ASCII"\n')
    of.write('VARIABLES="X", "Y", "Z", "T", "Hw", "Hi", "HTC", "Beta", "TauX", "TauY", "TauZ"\n')
    for k in range(n // 2):
        g = names[k]
        s = names[k + n // 2]
        if g[:14] != 'TEC_WALL_Grid_' or s[:18] != 'TEC_WALL_Solution_' or g[14:] != s[18:]:
            raise Exception('pair')
        gf = open('{}/{}'.format(a.in_dir, g), 'r')
        sf = open('{}/{}'.format(a.in_dir, s), 'r')
        gf.readline()
        gf.readline()
        gf.readline()
        x = gf.readline().split()
        ni = int(x[1])
        nj = int(x[3])
        assert int(x[5]) == 1
        nodes = ni * nj * int(x[5])
        cells = (ni - 1) * (nj - 1)
        gf.readline()
        gf.readline()
        for i in range(6):
            sf.readline()
        ge = lazurit_to_crystal.leap_lines(gf.readlines())
        se = lazurit_to_crystal.leap_lines(sf.readlines())
        of.write('ZONE T="' + str(lazurit_to_crystal.get_block_name(g)) + '"\n')
        of.write('NODES=' + str(nodes) + '\nELEMENTS=' + str(2 * cells) + '\n')
        of.write('DATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\nVARLOCATION=([4-11]=CELLCENTERED)\n')
        for i in range(3):
            of.write(' '.join(ge[i * nodes:(i + 1) * nodes]) + '\n')
        for i in range(5):
            of.write(' '.join(lazurit_to_crystal.double_list(se[i * cells:(i + 1) * cells])) + '\n')
        for i in range(5, 8):
            of.write(' '.join(lazurit_to_crystal.double_and_neg_list(se[i * cells:(i + 1) * cells])) + '\n')
        for j in range(nj - 1):
            for i in range(ni - 1):
                b = i + j * ni + 1
                of.write('%d %d %d\n' % (b, b + ni, b + ni + 1))
                of.write('%d %d %d\n' % (b, b + ni + 1, b + 1))
        gf.close()
        sf.close()
    of.close()
    r = gsu.Grid()
    r.load(a.out_file)
    r.store(a.out_file)
