"""
Reference functions: reading and writing of grids.
"""
import random
import geom
import gsu
from gsu import Node, Edge, Face, Zone, Grid, ZonesAdjacencyMatrix
from geom import Vect


# ---------------------------------------------------------------- slices

@of('gsu.zone:Zone.get_nodes_coord_slice_str', 'C01')
def coord_slice(self: 'Zone', i: int):
    return ' '.join(['{0:.18e}'.format(n.P.Coords[i]) for n in self.Nodes])


@of('gsu.zone:Zone.get_faces_data_slice_str', 'C01')
def data_slice(self: 'Zone', name: str):
    return ' '.join(['{0:.18e}'.format(f.Data.get(name, 0.0)) for f in self.Faces])


@of('gsu.zone:Zone.get_faces_global_ids_slice_str', 'C01', 'C02')
def ids_slice(self: 'Zone'):
    return ' '.join([str(f.GloId) for f in self.Faces])


# ---------------------------------------------------------------- C01 grid files

@of('gsu.grid:Grid.store', 'C01')
def store(self: 'Grid', filename: str):
    names = [k for k in self.Faces[0].Data.keys()]
    n = 3 + len(names)
    f = open(filename, 'w', newline='\n')
    f.write('# crys-gsu\n')
    f.write('TITLE="{0}"\n'.format(self.Name))
    f.write('VARIABLES=' + ', '.join(['"' + v + '"' for v in ['X', 'Y', 'Z'] + names]) + '\n')
    loc = [-1] * len(self.Nodes)
    for z in self.Zones:
        f.write('ZONE T="{0}"\n'.format(z.Name))
        f.write('NODES={0}\n'.format(len(z.Nodes)))
        f.write('ELEMENTS={0}\n'.format(len(z.Faces)))
        f.write('DATAPACKING=BLOCK\n')
        f.write('ZONETYPE=FETRIANGLE\n')
        f.write('VARLOCATION=([4-{0}]=CELLCENTERED)\n'.format(n))
        f.write(' '.join(['{0:.18e}'.format(m.P.X) for m in z.Nodes]) + ' \n')
        f.write(' '.join(['{0:.18e}'.format(m.P.Y) for m in z.Nodes]) + ' \n')
        f.write(' '.join(['{0:.18e}'.format(m.P.Z) for m in z.Nodes]) + ' \n')
        for v in names:
            f.write(' '.join(['{0:.18e}'.format(face.Data.get(v, 0.0)) for face in z.Faces]) + ' \n')
        for i in range(len(z.Nodes)):
            loc[z.Nodes[i].GloId] = i
        for face in z.Faces:
            f.write(' '.join([str(loc[m.GloId] + 1) for m in face.Nodes]) + '\n')
    f.close()


# ---------------------------------------------------------------- C02 files of the solver

@of('gsu.grid:Grid.store_mpi', 'C02', 'C01', new=('ZonesAdjacencyMatrix',),
    pure=('ZonesAdjacencyMatrix.zone_cross_edges_count', 'ZonesAdjacencyMatrix.zone_cross_borders_count',
          'ZonesAdjacencyMatrix.zone_cross_edges_array', 'Edge.is_connect_zones'))
def store_mpi(self: 'Grid', base: str, ts: str, sf: str):
    names = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']
    zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
    nloc = [-1] * len(self.Nodes)
    eloc = [-1] * len(self.Edges)
    for zi in range(len(self.Zones)):
        z = self.Zones[zi]
        f = open('{0}_{1:05d}_{2}{3}'.format(base, zi, ts, sf), 'w', newline='\n')
        f.write('TITLE="{0}"\n'.format(z.Name))
        f.write('VARIABLES=' + ', '.join(['"' + v + '"' for v in ['X', 'Y', 'Z', 'GloId'] + names]) + '\n')
        f.write('MPI={0}\n'.format(zi))
        f.write('NODES={0}\n'.format(len(z.Nodes)))
        f.write('EDGES={0}\n'.format(len(z.Edges)))
        f.write('CROSS-EDGES={0}\n'.format(zam.zone_cross_edges_count(zi)))
        f.write('FACES={0}\n'.format(len(z.Faces)))
        f.write('NODES COORDINATES:\n')
        f.write(' '.join(['{0:.18e}'.format(m.P.X) for m in z.Nodes]) + ' \n')
        f.write(' '.join(['{0:.18e}'.format(m.P.Y) for m in z.Nodes]) + ' \n')
        f.write(' '.join(['{0:.18e}'.format(m.P.Z) for m in z.Nodes]) + ' \n')
        f.write('FACES DATA:\n')
        f.write(' '.join([str(face.GloId) for face in z.Faces]) + '\n')
        for v in names:
            f.write(' '.join(['{0:.18e}'.format(face.Data.get(v, 0.0)) for face in z.Faces]) + ' \n')
        for i in range(len(z.Nodes)):
            nloc[z.Nodes[i].GloId] = i
        for i in range(len(z.Edges)):
            eloc[z.Edges[i].GloId] = i
        f.write('FACE-NODE CONNECTIVITY LIST:\n')
        for face in z.Faces:
            f.write(' '.join([str(nloc[n.GloId]) for n in face.Nodes]) + '\n')
        f.write('FACE-EDGE CONNECTIVITY LIST:\n')
        for face in z.Faces:
            f.write(' '.join([str(eloc[e.GloId]) for e in face.Edges]) + '\n')
        f.write('EDGE-NODE CONNECTIVITY LIST:\n')
        for e in z.Edges:
            f.write(' '.join([str(nloc[n.GloId]) for n in e.Nodes]) + '\n')
        f.write('MPI-BORDERS={0}\n'.format(zam.zone_cross_borders_count(zi)))
        line = zam.zone_cross_edges_array(zi)
        for j in range(len(line)):
            if line[j] > 0:
                f.write('[{0}] '.format(j))
                for e in z.Edges:
                    if e.is_connect_zones(z, self.Zones[j]):
                        f.write('{0} '.format(eloc[e.GloId]))
                f.write('\n')
        f.close()


# ---------------------------------------------------------------- C03 calculated data

@of('gsu.face:Face.get_glo_id_t_hw_hi_str', 'C03')
def calc_line(self: 'Face'):
    t = self.Data.get('T', 0.0) + random.random()
    hw = self.Data.get('Hw', 0.0) + random.random()
    hi = self.Data.get('Hi', 0.0) + random.random()
    return '{0} {1:.18e} {2:.18e} {3:.18e}'.format(self.GloId, t, hw, hi)


@of('gsu.grid:Grid.store_faces_calc_data', 'C03', effects=('Face.get_glo_id_t_hw_hi_str',))
def store_calc(self: 'Grid', filename: str):
    f = open(filename, 'w', newline='\n')
    f.write('VARIABLES="GloId", "T", "Hw", "Hi"\n')
    for face in self.Faces:
        f.write(face.get_glo_id_t_hw_hi_str() + '\n')
    f.close()


@of('gsu.grid:Grid.load_faces_calc_data', 'D02')
def load_calc(self: 'Grid', filename: str):
    f = open(filename, 'r')
    line = f.readline()
    names = line.split('=')[-1].replace('"', '').replace(',', '').split()[1:]
    line = f.readline()
    while line:
        ss = line.split()
        self.Faces[int(ss[0])].Data = dict(zip(names, [float(s) for s in ss[1:]]))
        line = f.readline()
    f.close()


# ---------------------------------------------------------------- D01 reading

@of('gsu.grid:Grid.link_nodes_and_edges_to_zones', 'E01')
def link_to_zones(self: 'Grid'):
    for z in self.Zones:
        z.Nodes.clear()
        z.Edges.clear()
    for i in range(len(self.Zones)):
        self.Zones[i].Id = i
    for n in self.Nodes:
        for k in list(set([f.Zone.Id for f in n.Faces])):
            self.Zones[k].Nodes.append(n)
    for e in self.Edges:
        for k in list(set([f.Zone.Id for f in e.Faces])):
            self.Zones[k].Edges.append(e)
    for z in self.Zones:
        z.Id = -1


@of('gsu.grid:Grid.load', 'D01', effects=('Grid.complex_link_face_node_node_edge', 'Grid.link_nodes_and_edges_to_zones',
                                          'Grid.add_node'),
    cut={'vars': {'names': '[str]', 'values': '[str]', 'count': 'int', 'f': 'file', 'line': 'str'}, 'inv': 'count == len(values)'})
def load(self: 'Grid', filename: str, merge: bool):
    names = []
    values = []
    count = 0
    self.clear()
    f = open(filename, 'r')
    line = f.readline()
    while line:
        if line[0] == '#':
            pass
        elif 'TITLE=' in line:
            self.Name = line.split('=', 1)[1][1:-2]
        elif 'VARIABLES=' in line:
            names = line.split('=')[-1][:-1].replace('"', '').replace(',', '').split()
            values = names[3:]
            count = len(values)
        elif 'ZONE T=' in line:
            zone = Zone(line.split('=', 1)[1][1:-2])
            self.Zones.append(zone)
            nodes_line = f.readline()
            faces_line = f.readline()
            packing_line = f.readline()
            type_line = f.readline()
            loc_line = f.readline()
            if 'NODES=' not in nodes_line or 'ELEMENTS=' not in faces_line \
                    or packing_line[:-1] != 'DATAPACKING=BLOCK' or type_line[:-1] != 'ZONETYPE=FETRIANGLE' \
                    or loc_line[:-1] != 'VARLOCATION=([4-{0}]=CELLCENTERED)'.format(len(names)):
                raise Exception('format')
            nn = int(nodes_line.split('=')[-1][:-1])
            nf = int(faces_line.split('=')[-1][:-1])
            c = []
            for i in range(3):
                line = f.readline()
                c.append([float(x) for x in line.split()])
            for i in range(nn):
                node = Node(Vect(c[0][i], c[1][i], c[2][i]))
                zone.Nodes.append(self.add_node(node, merge))
            d = []
            for i in range(count):
                line = f.readline()
                d.append([float(x) for x in line.split()])
            for i in range(nf):
                face = Face(values, [d[j][i] for j in range(count)])
                self.add_face(face)
                zone.add_face(face)
            for i in range(nf):
                line = f.readline()
                face = zone.Faces[i]
                nodes = [zone.Nodes[int(s) - 1] for s in line.split()]
                if len(nodes) != 3:
                    raise Exception('nodes')
                Grid.link_node_face(nodes[0], face)
                Grid.link_node_face(nodes[1], face)
                Grid.link_node_face(nodes[2], face)
        else:
            raise Exception('line')
        line = f.readline()
    f.close()
    for face in self.Faces:
        a, b, c = face.Nodes[0], face.Nodes[1], face.Nodes[2]
        self.complex_link_face_node_node_edge(face, a, b)
        self.complex_link_face_node_node_edge(face, a, c)
        self.complex_link_face_node_node_edge(face, b, c)
    self.link_nodes_and_edges_to_zones()
