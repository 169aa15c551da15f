"""
Reference functions: file names, splitting and merging.
"""
import os
import re
import json
import math
import pathlib
import time
import numpy as np
from numpy import genfromtxt
import geom
import gsu
import utils
import split as split_module
from gsu import Node, Edge, Face, Zone, Grid
from geom import Vect


# ---------------------------------------------------------------- H01 file names

@of('utils:has_filename_timestamp', 'H01')
def has_ts(s: str):
    return re.search(r'_\d\d\d\d\d\d\d\d\d\d\d\d$', s) is not None


@of('utils:get_filename_and_timestamp_pair', 'H01')
def pair(s: str):
    if utils.has_filename_timestamp(s):
        return s[:-13], s[-12:]
    return s, '000000000000'


@of('utils:dummy_split_filename', 'H01')
def parts(s: str):
    m = s[-22:-17]
    t = s[-16:-4]
    return s[:-23], (int(m) if m.isdigit() else None), (int(t) if t.isdigit() else None), s[-3:]


@of('utils:is_filename_correct_crys_cry_file', 'H01')
def is_cry(s: str, stem: str):
    return s[:-23] == stem and s[-22:-17].isdigit() and s[-16:-4].isdigit() and s[-3:] == 'cry'


@of('utils:is_filename_correct_crys_txt_file', 'H01')
def is_txt(s: str, stem: str):
    return s[:-23] == stem and s[-22:-17].isdigit() and s[-16:-4].isdigit() and s[-3:] == 'txt'


@of('utils:group_txt_files_by_timestamps', 'H01')
def groups(fs: '[str]'):
    d = {}
    for f in fs:
        t = f[-16:-4]
        if t in d:
            d[t].append(f)
        else:
            d[t] = [f]
    return d


@of('utils:flatten', 'H01', pure=('flatten',))
def flat(ar: '[any]'):
    r = []
    for e in ar:
        if isinstance(e, list):
            r += utils.flatten(e)
        else:
            r.append(e)
    return r


# ---------------------------------------------------------------- H02 splitting

@of('split:split', 'H02', effects=('Grid.load', 'Grid.store', 'Grid.store_mpi', 'Grid.decompose_mono',
                                   'Grid.decompose_hierarchical', 'Grid.decompose_farhat'),
    pure=('get_filename_and_timestamp_pair',), fills=('Grid.load',))
def do_split(grid_file: str, cry_dir: 'str?', out: 'str?', strategy: str, fixed: '[str]', recovery: 'num'):
    t0 = time.time()
    pp = pathlib.PurePath(grid_file)
    nm, ts = utils.get_filename_and_timestamp_pair(pp.stem)
    if not os.path.isfile(grid_file):
        raise Exception('no file')
    if pp.suffix != '.dat':
        raise Exception('extension')
    g = Grid()
    g.load(grid_file)
    for z in fixed:
        if z not in [x.Name for x in g.Zones]:
            raise Exception('no zone')
    for f in g.Faces:
        if 'RecoveryFactor' not in f.Data:
            f.Data['RecoveryFactor'] = recovery
    if strategy[0] == 'h':
        levels = int(strategy[1:])
        n = 2 ** levels
    elif strategy[0] == 'n':
        n = int(strategy[1:])
    else:
        raise Exception('strategy')
    if n == 1 and fixed == []:
        g.decompose_mono()
    elif strategy[0] == 'h':
        g.decompose_hierarchical(levels=levels + 1, fixed_zones=fixed)
    else:
        if n == 0:
            raise Exception('zero')
        if len(fixed) >= n:
            raise Exception('fixed')
        g.decompose_farhat(count=n - len(fixed), fz_names=fixed)
    if out is not None:
        g.store(out)
    elif cry_dir is not None:
        try:
            os.makedirs(cry_dir)
        except FileExistsError:
            pass
        g.store_mpi('{0}/{1}'.format(cry_dir, nm), ts)
    else:
        raise Exception('nothing')
    s = 'crys-gsu-split : done, {0:.3f} seconds spent'.format(time.time() - t0)
    if cry_dir is not None:
        with open(cry_dir + '/report.txt', 'w') as f:
            print(s, file=f)
    return g


@of('split:extract_strategy_from_json', 'H02')
def strategy(fn: str):
    if not os.path.isfile(fn):
        raise Exception('no file')
    with open(fn, 'r') as f:
        d = json.load(f)
        f.close()
    if 'split_strategy' in d:
        return d['split_strategy']
    return 'n1'


@of('split:extract_recovery_factor_from_json', 'H02')
def recovery(fn: str):
    if not os.path.isfile(fn):
        raise Exception('no file')
    with open(fn, 'r') as f:
        d = json.load(f)
        f.close()
    if 'recovery_factor' in d:
        return d['recovery_factor']
    return 1.0


@of('split:extract_fixed_zones_from_json', 'H02')
def fixed(fn: str):
    if not os.path.isfile(fn):
        raise Exception('no file')
    with open(fn, 'r') as f:
        d = json.load(f)
        f.close()
    try:
        return [e['zone'] for e in d['heating_system']['elements']]
    except KeyError:
        return []


# ---------------------------------------------------------------- H03 merging

@of('merge:merge', 'H03', effects=('Grid.load', 'Grid.store', 'Grid.load_faces_calc_data'),
    pure=('get_filename_and_timestamp_pair', 'group_txt_files_by_timestamps', 'is_filename_correct_crys_txt_file'))
def merge(grid_file: str, src: str, dst: str):
    t0 = time.time()
    pp = pathlib.PurePath(grid_file)
    nm, ts = utils.get_filename_and_timestamp_pair(pp.stem)
    if not os.path.isfile(grid_file):
        raise Exception('no file')
    fs = sorted(os.listdir(src))
    gs = utils.group_txt_files_by_timestamps([f for f in fs if utils.is_filename_correct_crys_txt_file(f, nm)])
    try:
        os.makedirs(dst)
    except FileExistsError:
        pass
    g = Grid()
    for t in gs:
        g.load(grid_file)
        for f in gs[t]:
            g.load_faces_calc_data(src + '/' + f)
        g.store('{0}/{1}_r_{2}.dat'.format(dst, nm, t))

    def read(name):
        data = genfromtxt(name, delimiter=';', skip_header=True)
        if len(data.shape) == 1:
            data = np.array([data])
        return data
    cs = [f for f in fs if f[-4:] == '.csv']
    if len(cs) > 0:
        d = read(src + '/' + cs[0])
        t = d[:, :1]
        d = d[:, 1:]
        for c in cs[1:]:
            d = d + read(src + '/' + c)[:, 1:]
        np.savetxt('{0}/../{1}.csv'.format(dst, nm), np.hstack((t, d)), delimiter=';',
                   header='time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es', comments='')
    s = 'crys-gsu-merge : done ({0} _r_ files generated, {1:.3f} seconds spent)'.format(len(gs.keys()), time.time() - t0)
    with open(dst + '/report.txt', 'w') as f:
        print(s, file=f)


@of('split:__main__', 'H02', effects=('split',), pure=('extract_strategy_from_json', 'extract_fixed_zones_from_json',
                                                       'extract_recovery_factor_from_json'))
def split_main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('grid_file')
    g = p.add_mutually_exclusive_group(required=True)
    g.add_argument('-c', '--cry_dir')
    g.add_argument('-o', '--out_dat_file')
    p.add_argument('-j', '--json_file')
    p.add_argument('-s', '--strategy')
    p.add_argument('-v', '--verbosity', action='count', default=0)
    a = p.parse_args()
    strategy = 'n1'
    zones = []
    factor = 1.0
    if a.json_file is not None:
        if a.strategy is None:
            strategy = split_module.extract_strategy_from_json(a.json_file)
        zones = split_module.extract_fixed_zones_from_json(a.json_file)
        factor = split_module.extract_recovery_factor_from_json(a.json_file)
    if a.strategy is not None:
        strategy = a.strategy
    split_module.split(a.grid_file, a.cry_dir, a.out_dat_file, strategy, zones, factor)


@of('merge:__main__', 'H03', effects=('merge',))
def merge_main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('grid_file')
    p.add_argument('src_dir')
    p.add_argument('dst_dir')
    p.add_argument('-v', '--verbosity', action='count', default=0)
    a = p.parse_args()
    merge(a.grid_file, a.src_dir, a.dst_dir)
