"""
Reference functions: the coupled parallel run.
"""
import functools
import multiprocessing as mp
import numpy as np
import crys
import swim
from mpi4py import MPI
from gsu import Node, Edge, Face, Zone, Grid, ZonesAdjacencyMatrix
from remeshing import TongRemesher
from split import split


@of('crys:get_data', 'J01')
def get_data(face: 'Face', name: str):
    return face.Data[name]


@of('crys:get_mpi_borders', 'J01', pure=('ZonesAdjacencyMatrix.zone_cross_edges_array', 'Edge.is_connect_zones'))
def borders(rank: int, zam: 'ZonesAdjacencyMatrix', z: 'Zone', g: 'Grid'):
    loc = [-1] * len(g.Edges)
    for k in range(len(z.Edges)):
        loc[z.Edges[k].GloId] = k
    r = {}
    n = zam.zone_cross_edges_array(rank)
    for k in range(len(n)):
        if n[k] > 0:
            other = g.Zones[k]
            r[k] = [loc[e.GloId] for e in z.Edges if e.is_connect_zones(z, other)]
    return r


@of('crys:exchange', 'J01', fields={'Face.Zone': 'int'}, effects=('put_to_superbuffer', 'start_exchanges', 'get_from_superbuffer'))
def exchange(b: '{int:[int]}', send: 'nd', recv: 'nd', data: str):
    crys.put_to_superbuffer(b, send, data)
    crys.start_exchanges(b, send, recv)
    crys.get_from_superbuffer(b, recv, data)


@of('crys:put_to_superbuffer', 'J01', fields={'Face.Zone': 'int'}, pure=('Zone.get_real_face',))
def put(b: '{int:[int]}', send: '{(int,int):num}', data: str):
    rows = list(b.values())
    for i in range(len(rows)):
        for j in range(len(rows[i])):
            send[i, j] = crys.z.get_real_face(rows[i][j]).Data.get(data, 0)


@of('crys:get_from_superbuffer', 'J01', fields={'Face.Zone': 'int'}, pure=('Zone.get_ghost_face',))
def get(b: '{int:[int]}', recv: '{(int,int):num}', data: str):
    rows = list(b.values())
    for i in range(len(rows)):
        for j in range(len(rows[i])):
            crys.z.get_ghost_face(rows[i][j]).Data[data] = recv[i, j]


@of('crys:start_exchanges', 'J01', alt=('start_receives_first',))
def start(b: '{int:[int]}', send: 'nd', recv: 'nd'):
    ks = list(b.keys())
    rs = []
    for i in range(len(b)):
        rs.append(crys.comm.Isend(send[i][:len(b[ks[i]])], dest=ks[i]))
    for i in range(len(b)):
        rs.append(crys.comm.Irecv(recv[i][:len(b[ks[i]])], source=ks[i]))
    MPI.Request.Waitall(rs)
    crys.comm.Barrier()


@of('crys:start_exchanges', 'J01', variant=True)
def start_receives_first(b: '{int:[int]}', send: 'nd', recv: 'nd'):
    ks = list(b.keys())
    rs = []
    for i in range(len(b)):
        rs.append(crys.comm.Irecv(recv[i][:len(b[ks[i]])], source=ks[i]))
    for i in range(len(b)):
        rs.append(crys.comm.Isend(send[i][:len(b[ks[i]])], dest=ks[i]))
    MPI.Request.Waitall(rs)
    crys.comm.Barrier()


@of('crys:remesh', 'J01', effects=('Grid.store', 'TongRemesher.__call__', 'TongRemesher.__init__'))
def remesh(rank: int, his: 'nd'):
    counts = np.array(crys.comm.gather(his.size, crys.root))
    print(counts)
    if rank == crys.root:
        n = sum(counts)
        print('sendcounts: {}, total: {}'.format(counts, n))
        buf = np.empty(n, dtype=np.float64)
    else:
        buf = None
    crys.comm.Gatherv(sendbuf=his, recvbuf=(buf, counts), root=crys.root)
    if rank == crys.root:
        print('Gathered array: {}'.format(buf.size))
    if rank == 0:
        for i in range(len(crys.g.Zones)):
            fs = crys.g.Zones[i].Faces
            part = buf[sum(counts[:i]):sum(counts[:i + 1])]
            for f, h in zip(fs, part):
                f.Data['Hi'] = h
        r = TongRemesher(mesh_filename=crys.FILENAME, json_file=crys.JSON, outdir=crys.OUTDIR)
        r(crys.g)
        crys.g.store(crys.OUT_REMESHED_MESH)


@of('crys:__main__', 'J01', effects=('Grid.store', 'split', 'get_mpi_borders', 'exchange', 'remesh'),
    new=('ZonesAdjacencyMatrix',))
def main():
    comm = MPI.COMM_WORLD
    crys.comm = comm
    crys.root = 0
    crys.FILENAME = '../cases/grids/bunny.dat'
    crys.JSON = '../cases/grids/bunny.json'
    crys.OUTDIR = '../'
    crys.OUT_REMESHED_MESH = '../remeshed.dat'
    rank = comm.Get_rank()
    size = comm.Get_size()
    g = split('../cases/grids/bunny.dat', cry_dir='.', out_dat_file='../res.dat', split_strategy='n{}'.format(size))
    crys.g = g
    zam = ZonesAdjacencyMatrix(g.Edges, g.Zones)
    z = g.Zones[rank]
    pool = mp.Pool(processes=6)
    his = np.array([pool.map(functools.partial(crys.get_data, name='Hi'), z.Faces)], dtype=np.float64)
    t = np.array([pool.map(functools.partial(crys.get_data, name='T'), z.Faces)], dtype=np.float64)
    hw = np.array([pool.map(functools.partial(crys.get_data, name='Hw'), z.Faces)], dtype=np.float64)
    swim.hi(t[0], his[0], hw[0])
    if size > 1:
        b = crys.get_mpi_borders(rank, zam, z, g)
        m = max([len(v) for v in b.values()])
        send = np.empty((len(b), m))
        recv = np.empty((len(b), m))
        for f in z.Faces:
            f.Zone = z.Id
        crys.exchange(b, send, recv, 'T')
        crys.exchange(b, send, recv, 'Hi')
        crys.exchange(b, send, recv, 'Hw')
    crys.remesh(rank, his)
