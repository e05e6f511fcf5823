"""Specimen meshes, boundary conditions and histories survive every file conversion"""
import builtins
import itertools
import os
import shutil
import numpy as np
import pandas
import torch
from unittest import mock
from .common import *
from .p22 import disk
from data_generation.spdg.patch import FiniteElementPatch
from simulators.links import links as lk
from simulators.links.models import links_elastic, links_von_mises, links_drucker_prager, links_lou
from simulators.links.utilities import (links_dat_to_inp as di, links_data_to_adimu as da, links_nodedata_to_csv as nc,
                                        links_out_to_dataset as ld, links_specimen_dirichlet as sd)
from user_scripts.global_model_update.material_finder import gen_specimen_data as gs
from user_scripts.global_model_update.utilities import process_specimen_data as ps

OUTSIDE = ('meshes of one or two elements and up to twelve time steps; numbers between 1e-3 and 1e3 in magnitude (files keep five to nine '
           'digits: comparisons on real files use that accuracy); node and element labels are consecutive as written; text is '
           'read and written by the real code, a free number is written as a unique numeral with its sign and read back as itself; '
           'tables (.csv, .nodedata, .out) pass through pandas with free numbers in the cells; the loading incrementation is not read back; '
           'the Links solver is not run; hard-coded Dirichlet node sets are not checked')
TOL = 1e-3


# ---- files with free numbers ----------------------------------------------------------------------
class Text:
    """free numbers in text files: each is written as its own numeral"""
    def __init__(self, c):
        self.c, self.by, self.of = c, {}, {}

    def numeral(self, r):
        from symtorch import expr as X
        e = r.e
        if e.op == 'const':
            return float(e.val)
        if e.id not in self.of:
            v = float(f'{(10003 + 7 * len(self.of)) * 1e-4:.4e}')
            if bool(r < 0):
                v = -v
            self.of[e.id] = v
            self.by[v] = r
        return self.of[e.id]

    def parse(self, x=0.0):
        v = builtins.float(x) if isinstance(x, str) else x
        if isinstance(x, str):
            return self.by.get(v, v)
        return x if not isinstance(x, (int, np.number)) else builtins.float(x)


class Arr(np.ndarray):
    def astype(self, dtype, *a, **k):
        return self if self.dtype == object else np.ndarray.astype(self, dtype, *a, **k)


@contextlib.contextmanager
def files(c):
    """scratch directory; free numbers can be written to and read from files below it"""
    with disk(c) as d, contextlib.ExitStack() as st:
        tree = shutil.rmtree

        def guarded(p, *a, **k):
            if not os.path.realpath(p).startswith(os.path.realpath(d) + os.sep):
                raise AssertionError('removes files it was not asked to')
            return tree(p, *a, **k)
        for m in (da, nc):
            st.enter_context(mock.patch.object(m, 'shutil', mock.Mock(wraps=shutil, rmtree=guarded)))
        if c.symbolic:
            from symtorch.tensor import R, SymTensor
            t = Text(c)
            fmt = lambda self, spec: format(t.numeral(self if isinstance(self, R) else R(self.arr().reshape(-1)[0])), spec)
            for cl in (R, SymTensor):
                st.enter_context(mock.patch.object(cl, '__format__', fmt))
                st.enter_context(mock.patch.object(cl, '__str__', lambda self: fmt(self, ''), create=True))
            st.enter_context(mock.patch.object(R, '__repr__', lambda self: fmt(self, '')))
            tables = {}
            read = pandas.read_csv

            def read_csv(path, *a, **k):
                key = os.path.realpath(path)
                if not os.path.isfile(key):
                    raise FileNotFoundError(path)
                if key in tables:
                    return tables[key].copy()
                df = read(path, *a, **k)
                if df.shape[0] == 0 or df.shape[1] == 1 and k.get('header', 0) == 0:
                    return df
                for col in df.columns:
                    df[col] = pandas.Series([t.by.get(v, v) for v in df[col]], dtype=object)
                return df

            def to_csv(self, path, *a, **k):
                with open(path, 'w') as f:
                    f.write('x\n' + '0\n' * self.shape[0])
                df = self.copy()
                if k.get('index', True):
                    df.insert(0, 'Unnamed: 0', list(self.index))
                tables[os.path.realpath(path)] = df
            st.enter_context(mock.patch.object(pandas, 'read_csv', read_csv))
            st.enter_context(mock.patch.object(pandas.DataFrame, 'to_csv', to_csv))
            for m in (gs, da, di, sd):
                st.enter_context(mock.patch.object(m, 'float', t.parse, create=True))

            def genfromtxt(path, *a, **k):
                with open(path) as f:
                    rows = [[t.parse(x) for x in line.split()] for line in f if line.strip()]
                o = np.array(rows, dtype=object)
                return o[0] if o.shape[0] == 1 else o
            st.enter_context(sym_numpy(c, da, di, sd, lk, genfromtxt=genfromtxt))
            from symtorch.npx import NP
            st.enter_context(sym_numpy(c, ld, array=lambda a, *r, **k: NP().array(a, *r, **k).view(Arr)))
            yield d, t.parse
        else:
            yield d, float


def num(x):
    """text of a (free) number in a file of the test"""
    return f'{x}'


# ---- reference reader of Links files ----------------------------------------------------------------
def links(path, parse, n_dim=3):
    sec, cur = {}, None
    with open(path) as f:
        for line in f:
            w = line.split()
            if not w:
                cur = None
            elif cur is not None:
                cur.append(w)
            elif w[0] in ('ELEMENTS', 'NODE_COORDINATES', 'NODES_WITH_PRESCRIBED_DISPLACEMENTS', 'ELEMENT_TYPES', 'MATERIALS',
                          'ELEMENT_GROUPS', 'NODE_GROUPS'):
                cur = sec[w[0]] = []
                sec[w[0] + '#'] = int(w[1])
    out = {'sec': sec}
    if 'ELEMENTS' in sec:
        out['elems'] = {int(w[0]): [int(x) for x in w[2:]] for w in sec['ELEMENTS']}
        out['phase'] = {int(w[0]): int(w[1]) for w in sec['ELEMENTS']}
        out['n_elem'] = sec['ELEMENTS#']
    if 'NODE_COORDINATES' in sec:
        out['coords'] = {int(w[0]): [parse(x) for x in w[1:]] for w in sec['NODE_COORDINATES']}
        out['n_node'] = sec['NODE_COORDINATES#']
    key = 'NODES_WITH_PRESCRIBED_DISPLACEMENTS'
    if key in sec:
        out['bc'] = {int(w[0]): (w[1], [parse(x) for x in w[2:]]) for w in sec[key]}
        out['n_bc'] = sec[key + '#']
    return out


def same_mesh(c, label, got, coords, elems):
    c.true(f'{label}: numbers of nodes and elements', got['n_node'] == len(coords) == len(got['coords']) and
           got['n_elem'] == len(elems) == len(got['elems']))
    c.true(f'{label}: connectivities', [got['elems'][i + 1] for i in range(len(elems))] == [list(e) for e in elems])
    for i, x in enumerate(coords):
        c.true(f'{label}: coordinates', len(got['coords'][i + 1]) == len(x))
        for a, b in zip(got['coords'][i + 1], x):
            near(c, f'{label}: coordinates', a, b)


def near(c, label, a, b, tol=TOL):
    c.close(label, torch.as_tensor(a), torch.as_tensor(b), tol)


# ---- meshes -------------------------------------------------------------------------------------------
def hexes(n):
    """n hexahedra in a row, nodes numbered along x, y, z"""
    lab = lambda i, j, k: 1 + i + (n + 1) * (j + 2 * k)
    return [[lab(e + a, b, k) for k in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))] for e in range(n)], 4 * (n + 1)


def quads(n):
    lab = lambda i, j: 1 + i + (n + 1) * j
    return [[lab(e, 0), lab(e + 1, 0), lab(e + 1, 1), lab(e, 1)] for e in range(n)], 2 * (n + 1)


def coordinates(c, n, n_dim):
    x = c.npreal('x', (n, n_dim), 1.0, 9.0)
    x[0, 0] = c.npreal('x0', (1,), -9.0, 9.0)[0]
    return x


def codes(c, n, free):
    """which displacements are prescribed: free for the listed nodes"""
    out = {}
    for i in range(1, n + 1):
        if i in free:
            k = tuple(int(c.flag(f'bc{i}.{d}')) for d in range(3))
        else:
            k = (1, 0, 1) if i == 1 else (0, 0, 0)
        if any(k):
            out[i] = k
    return out


def values(c, bc):
    v = {i: c.npreal(f'u{i}', (3,), 1.0, 3.0) for i in bc}
    first = min(bc)
    v[first][0] = c.npreal('u0', (1,), -3.0, 3.0)[0]
    return {i: [v[i][d] if k[d] else 0.0 for d in range(3)] for i, k in bc.items()}


def dat(path, elem_type, n_gauss, coords, elems, bc, val, phase=None):
    L = ['\nTITLE\nspecimen\n', '\nELEMENT_TYPES 1\n', f'1 {elem_type}\n', f'  {n_gauss} GP\n', f'\nELEMENTS {len(elems)}\n']
    L += [f' {i + 1}   1  ' + ' '.join(str(k) for k in e) + '\n' for i, e in enumerate(elems)]
    L += [f'\nNODE_COORDINATES {len(coords)} CARTESIAN\n']
    L += [f' {i + 1}  ' + ' '.join(num(v) for v in x) + '\n' for i, x in enumerate(coords)]
    L += [f'\nNODES_WITH_PRESCRIBED_DISPLACEMENTS {len(bc)}\n']
    L += [f' {i} ' + ''.join(str(b) for b in bc[i]) + ' ' + ' '.join(num(v) for v in val[i]) + '\n' for i in sorted(bc)]
    with open(path, 'w') as f:
        f.writelines(L)


def flags(bc, n, n_dim):
    m = torch.zeros((n, n_dim))
    for i, k in bc.items():
        for d in range(n_dim):
            m[i - 1, d] = k[d]
    return m


ELEM = {'C3D8': (gs.FEHexa8, 8), 'C3D8R': (gs.FEHexa8, 1), 'CPE4': (gs.FEQuad4, 4), 'CPE3': (gs.FETri3, 1), 'C3D4': (gs.FETetra4, 4),
        'C3D20R': (gs.FEHexa20, 8)}


def specimen(c, label, got, coords, elems, n_dim, bc, kind):
    x, types, conn, dirichlet = got
    n = len(coords)
    c.true(f'{label}: shape', tuple(x.shape) == (n, n_dim) and tuple(dirichlet.shape) == (n, n_dim))
    near(c, f'{label}: coordinates', x, coords[:, :n_dim])
    c.true(f'{label}: connectivities', {k: list(v) for k, v in conn.items()} == {str(i + 1): list(e) for i, e in enumerate(elems)})
    c.true(f'{label}: element types', set(types) == set(conn) and all(
        type(t) is ELEM[kind][0] and t.get_n_gauss() == ELEM[kind][1] for t in types.values()))
    c.eq(f'{label}: prescribed degrees of freedom', dirichlet, flags(bc, n, n_dim))


def convert(n_dim, n=2, free=(2, 3)):
    """Links data file -> Abaqus file -> finder mesh; -> Links data file"""
    def body(c):
        elems, nn = hexes(n) if n_dim == 3 else quads(n)
        x = coordinates(c, nn, n_dim)
        bc = codes(c, nn, free)
        u = values(c, bc)
        with files(c) as (d, parse):
            p = os.path.join(d, 'spec.dat')
            kind = 'C3D8' if n_dim == 3 else 'CPE4'
            dat(p, *(('HEXA8', 8) if n_dim == 3 else ('quad_4', 4)), x, elems, bc, u)
            inp = di.links_dat_to_abaqus_inp(p)
            c.true('file name', inp == os.path.join(d, 'spec.inp') and os.path.isfile(inp))
            specimen(c, 'Abaqus', gs.get_specimen_mesh_from_inp_file(inp, n_dim), x, elems, n_dim, bc, kind)
            # the same through the single steps
            et, ng = da.extract_element_type_from_links_data(p)
            c.true('element type', da.links_to_abaqus_elem_type(et, ng) == kind and ng == (8 if n_dim == 3 else 4))
            cx = da.extract_mesh_coordinates_from_links_data(p)
            cn = da.extract_mesh_connectivities_from_links_data(p)
            cb = da.extract_mesh_dirichlet_from_links_data(p)
            near(c, 'coordinates read', cx, x)
            near(c, 'coordinates read again', sd.read_links_nodes_coords_mesh(p), x)
            c.true('connectivities read', np.asarray(cn).tolist() == elems)
            c.true('prescribed displacements', {k: set(v) for k, v in cb.items()} ==
                   {str(i): {str(q + 1) for q in range(3) if k[q]} for i, k in bc.items()})
            for i, k in bc.items():
                for q in range(3):
                    if k[q]:
                        near(c, 'prescribed values', cb[str(i)][str(q + 1)], u[i][q])
            c.eq('pointwise labels', da.generate_pointwise_sets(nn, cb), flags(bc, nn, 3))
            mesh = os.path.join(d, 'mesh.inp')
            da.write_adimu_mesh_data_file(mesh, cx, cn, kind, dirichlet_bcs=cb)
            specimen(c, 'finder', gs.get_specimen_mesh_from_inp_file(mesh, n_dim), x, elems, n_dim, bc, kind)
            da.write_adimu_mesh_data_file(mesh, cx, cn, kind)
            specimen(c, 'finder, unsupported', gs.get_specimen_mesh_from_inp_file(mesh, n_dim), x, elems, n_dim, {}, kind)
            # back to Links
            di.abaqus_inp_to_links_dat(inp, n_dim)
            got = links(os.path.join(d, 'spec_links.dat'), parse)
            same_mesh(c, 'Links', got, x, elems)
            c.true('Links: prescribed nodes', got['n_bc'] == len(bc) and list(got['bc']) == sorted(bc))
            for i, k in bc.items():
                c.true('Links: code', got['bc'][i][0] == ''.join(str(q) for q in k))
                for q in range(3):
                    near(c, 'Links: prescribed values', got['bc'][i][1][q], u[i][q])
    return body


def inp(c):
    """Abaqus file with several element and boundary blocks, other keywords, ranges of degrees of freedom"""
    elems, nn = hexes(2)
    x = coordinates(c, nn, 3)
    lo = c.choice('first', 3) + 1
    hi = lo + c.choice('span', 4 - lo)
    last = c.flag('boundary last')
    with files(c) as (d, parse):
        p = os.path.join(d, 'a.inp')
        B = f'*Boundary\n 4, {lo}, {hi}, 0.5\n 5, 1, 6\n*Material, name=m\n 9., 9.\n*BOUNDARY\n12, 3, 3\n'
        with open(p, 'w') as f:
            f.write('*Heading\n*NODE\n' + ''.join(f'{i + 1}, ' + ', '.join(num(v) for v in r) + '\n' for i, r in enumerate(x)) +
                    ('' if last else B) +
                    '*ELEMENT, TYPE=C3D8R\n 1, ' + ', '.join(map(str, elems[0])) + '\n*Element, type=C3D8, elset=q\n2, ' +
                    ','.join(map(str, elems[1])) + '\n' + (B if last else ''))
        got = gs.get_specimen_mesh_from_inp_file(p, 3)
        near(c, 'coordinates', got[0], x)
        c.true('connectivities', got[2] == {'1': tuple(elems[0]), '2': tuple(elems[1])})
        c.true('element types', [got[1][k].get_n_gauss() for k in '12'] == [1, 8])
        bc = {4: tuple(int(lo <= q + 1 <= hi) for q in range(3)), 5: (1, 1, 1), 12: (0, 0, 1)}
        c.eq('prescribed degrees of freedom', got[3], flags(bc, nn, 3))
        # meshes that do not fit together
        for bad in (1, 2, 3):
            e = [list(q) for q in elems]
            if bad == 1:
                e[1][3] = nn + 1
            if bad == 2:
                e = e[:1]
            with open(p, 'w') as f:
                f.write('' if bad == 3 else '*NODE\n' + ''.join(f'{i + 1}, 0.0, 0.0, 0.0\n' for i in range(nn)))
                f.write('*Element, type=C3D8\n' + ''.join(f'{i + 1}, ' + ', '.join(map(str, q)) + '\n' for i, q in enumerate(e)))
            c.raises('inconsistent mesh', RuntimeError, gs.get_specimen_mesh_from_inp_file, p, 3)
            c.raises('inconsistent mesh (Links)', RuntimeError, di.abaqus_inp_to_links_dat, p, 3)
    for k, (t, g) in ELEM.items():
        e = gs.elem_type_abaqus_to_fetorch(k)
        c.true('Abaqus element types', type(e) is t and e.get_n_gauss() == g)
    c.raises('unknown element', RuntimeError, gs.elem_type_abaqus_to_fetorch, 'S4R')
    for a, b in (('TRI_3', 'CPE3'), ('QUAD_4', 'CPE4'), ('TETRA_4', 'C3D4'), ('HEXA_8', 'C3D8'), ('HEXA_20', 'C3D20R')):
        for s in (a, a.replace('_', '')):
            c.true('Links element types', da.links_to_abaqus_elem_type(s, ELEM[b][1]) == b)
    c.raises('unknown Links element', RuntimeError, da.links_to_abaqus_elem_type, 'HEXA8', 3)


# ---- Links input data ----------------------------------------------------------------------------------
def law(par, e):
    return par['s'] + par['h'] * e, par['h']


def descriptors(c, name):
    d = {'name': name, 'density': c.npreal('rho', (1,), 1, 2)[0], 'young': c.npreal('E', (1,), 10, 90)[0],
         'poisson': c.npreal('nu', (1,), 0.1, 0.4)[0], 'n_hard_point': 3, 'hardening_law': law,
         'hardening_parameters': {'s': c.real('s', (), 1, 5), 'h': c.real('h', (), 1, 5)}}
    d.update({k: c.npreal(k, (1,), 1.0, 40.0)[0] for k in ('friction_angle_deg', 'dilatancy_angle_deg')})
    for k in 'abcd':
        d[f'yield_{k}_init'] = c.npreal(f'y{k}', (1,), *((-2, 2) if k == 'c' else (0.1, 2)))[0]
        d[f'{k}_hard_slope'] = c.npreal(f'h{k}', (1,), 0.1, 2)[0]
    return d


def material_lines(d):
    rows = [[d['density']], [d['young'], d['poisson']]]
    if d['name'] == 'DRUCKER_PRAGER':
        rows[1] += [d['friction_angle_deg'], d['dilatancy_angle_deg'], 3]
    if d['name'] == 'LOU':
        rows += [[d[f'yield_{k}_init'], d[f'{k}_hard_slope']] for k in 'abcd']
    if d['name'] != 'ELASTIC':
        p = d['hardening_parameters']
        rows += [[3]] + [[e, law(p, e)[0]] for e in (0.0, 1.0, 2.0)]
    return rows


def material(name):
    cl = {'ELASTIC': links_elastic.LinksElastic, 'VON_MISES': links_von_mises.LinksVonMises,
          'DRUCKER_PRAGER': links_drucker_prager.LinksDruckerPrager, 'LOU': links_lou.LinksLou}

    def body(c):
        d = descriptors(c, name)
        with files(c) as (dr, parse):
            patch, coords, elems, u = make_patch(c, 2, (1, 1))
            sim = lk.LinksSimulator('none', 'infinitesimal', 'plane_strain')
            p = sim.generate_input_data_file('m', dr, patch, {'mesh_elem_material': np.array([[7]]), 'mat_phases_descriptors': {'7': d}})
            got = links(p, parse)['sec']['MATERIALS']
            want = material_lines(d)
            c.true('material', got[0] == ['7', name] and len(got) == len(want) + 1)
            for g, w in zip(got[1:], want):
                c.true('numbers per line', len(g) == len(w))
                for a, b in zip(g, w):
                    near(c, 'material parameters', parse(a), b)
            need = {k for k in cl[name]._get_required_material_descriptors()} - {'name'}
            k = sorted(need)[c.choice('missing', len(need))]
            c.raises('missing descriptor', RuntimeError, sim.generate_input_data_file, 'q', dr, patch,
                     {'mesh_elem_material': np.array([[7]]), 'mat_phases_descriptors': {'7': {q: v for q, v in d.items() if q != k}}})
    return body


def make_patch(c, n_dim, n):
    """regular patch with free coordinates and boundary displacements"""
    shape = tuple(q + 1 for q in n)
    m = np.zeros(shape, dtype=int)
    lab, coords = 0, {}
    for i in itertools.product(*(range(q) for q in shape[::-1])):
        lab += 1
        m[i[::-1]] = lab
    x = coordinates(c, lab, n_dim)
    coords = {str(k + 1): x[k] for k in range(lab)}
    inner = {int(m[i]) for i in itertools.product(*(range(1, q - 1) for q in shape))}
    u = {}
    for k in range(lab, 0, -1):
        if k not in inner:
            u[str(k)] = c.npreal(f'u{k}', (n_dim,), 1.0, 3.0)
    u['1'][0] = c.npreal('u0', (1,), -3.0, 3.0)[0]
    corner = [(0, 0), (1, 0), (1, 1), (0, 1)] if n_dim == 2 else \
        [(a, b, k) for k in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
    elems, where = [], []
    for e in itertools.product(*(range(q) for q in n[::-1])):
        e = e[::-1]
        where.append(e)
        elems.append([int(m[tuple(a + b for a, b in zip(e, q))]) for q in corner])
    patch = FiniteElementPatch(n_dim, (1.0,) * n_dim, 'SQUAD4' if n_dim == 2 else 'SHEXA8', n, m, coords, u)
    patch._where = where
    return patch, x, elems, u


EL = {'name': 'ELASTIC', 'density': 1.0, 'young': 2.0, 'poisson': 0.25}


def simulate(n_dim, n, times=(0, 9, 10), rest=(0, 1)):
    """patch -> Links input data -> finder data"""
    def body(c):
        with files(c) as (d, parse):
            patch, x, elems, u = make_patch(c, n_dim, n)
            mat = np.zeros(n, dtype=int)
            for k, e in enumerate(patch._where):
                mat[e] = 1 + k % 2
            sim = lk.LinksSimulator('none', 'infinitesimal', 'plane_strain' if n_dim == 2 else 'tridimensional')
            f = sim.generate_input_data_file('run', d, patch, {'mesh_elem_material': mat,
                                                               'mat_phases_descriptors': {'1': EL, '2': EL}})
            c.true('file', f == os.path.join(d, 'run.dat'))
            got = links(f, parse)
            same_mesh(c, 'Links', got, x, elems)
            c.true('phases', [got['phase'][k + 1] for k in range(len(elems))] == [int(mat[e]) for e in patch._where])
            c.true('material phases', got['sec']['MATERIALS#'] == len(set(mat.reshape(-1).tolist())) == got['sec']['ELEMENT_GROUPS#'])
            c.true('prescribed nodes', got['n_bc'] == len(u) and list(got['bc']) == sorted(int(k) for k in u))
            for k, v in u.items():
                code, w = got['bc'][int(k)]
                c.true('codes', code[:n_dim] == '1' * n_dim)
                for q in range(n_dim):
                    near(c, 'prescribed displacements', w[q], v[q])
                if n_dim == 2:
                    near(c, 'no third component', w[2], 0.0)
            # an existing file is kept
            g = sim.generate_input_data_file('run', d, patch, {'mesh_elem_material': mat,
                                                               'mat_phases_descriptors': {'1': EL, '2': EL}})
            c.true('new file', g != f and os.path.isfile(g))
            os.remove(g)
            # output of the solver
            nn = x.shape[0]
            out = os.path.join(d, 'run')
            os.makedirs(os.path.join(out, 'NODE_DATA'))
            hist = []
            for t in times:
                a = c.npreal(f'h{t}', (nn, 17), 1.0, 9.0)
                hist.append(a)
                with open(os.path.join(out, 'NODE_DATA', f'run_{t}.nodedata'), 'w') as h:
                    for i in range(nn):
                        h.write(f' {i + 1} ' + ' '.join(num(v) for v in a[i]) + '\n')
            with open(os.path.join(out, 'NODE_DATA', 'other.txt'), 'w') as h:
                h.write('x')
            save = os.path.join(d, 'adimu')
            os.makedirs(save)
            mesh, hd = da.gen_adimu_data_from_links(f, out, save)
            bc = {int(k): (1, 1, 1) for k in u}
            specimen(c, 'finder', gs.get_specimen_mesh_from_inp_file(mesh, n_dim), x, elems, n_dim, bc,
                     'CPE4' if n_dim == 2 else 'C3D8')
            name = os.path.splitext(os.path.basename(mesh))[0]
            check_history(c, 'finder', gs.get_specimen_history_paths(hd, name), hist, n_dim, nn, flags(bc, nn, n_dim))
            # again: the directory is rebuilt
            with open(os.path.join(hd, 'run_tstep_7.csv'), 'w') as h:
                h.write('x')
            da.gen_adimu_data_from_links(f, out, save)
            c.true('history rebuilt', len(gs.get_specimen_history_paths(hd, name)) == len(times))
            # plain csv conversion
            cd = nc.links_node_output_to_csv(out)
            ps_ = gs.get_specimen_history_paths(cd, 'run')
            c.true('one file per time', len(ps_) == len(times))
            for t, q in enumerate(ps_):
                df = pandas.read_csv(q)
                c.true('columns', list(df.columns) == ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3'])
                near(c, 'node data', vals(df)[:, 1:], np.concatenate((hist[t][:, 2:8], hist[t][:, 14:17]), axis=1))
    return body


def vals(df):
    a = df.values
    return a if a.dtype != object else a


def check_history(c, label, paths, hist, n_dim, nn, labels):
    c.true(f'{label}: one file per time', len(paths) == len(hist))
    u, r, b, t = gs.get_specimen_numerical_data(paths, n_dim, nn)
    c.true(f'{label}: shapes', tuple(u.shape) == tuple(r.shape) == tuple(b.shape) == (nn, n_dim, len(hist)))
    c.eq(f'{label}: time', t, torch.arange(float(len(hist))))
    for k in range(len(hist)):
        near(c, f'{label}: displacements', u[:, :, k], hist[k][:, 5:5 + n_dim])
        near(c, f'{label}: reactions', r[:, :, k], hist[k][:, 14:14 + n_dim])
        c.eq(f'{label}: labels', b[:, :, k].to(torch.float64), labels)


COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3', 'DBC1', 'DBC2', 'DBC3']


def table(path, x, u, r, b):
    n = len(x)
    df = pandas.DataFrame(columns=COLS)
    df['NODE'] = list(range(1, n + 1))
    for q, a in (('X', x), ('U', u), ('RF', r), ('DBC', b)):
        for k in range(3):
            df[f'{q}{k + 1}'] = list(a[:, k])
    df.to_csv(path, encoding='utf-8', index=False)


def histories(n_dim, nn=3, times=(2, 10, 9)):
    """specimen histories: order of times, components, sums of reactions over boundary sets"""
    def body(c):
        with files(c) as (d, parse):
            data = {}
            lab = np.array([[c.choice(f'l{i}', 3) if i < 2 and k == 0 else (i + k) % 2 for k in range(3)] for i in range(nn)])
            hd = os.path.join(d, 'h')
            os.makedirs(hd)
            for t in times:
                data[t] = [c.npreal(f'{q}{t}', (nn, 3), 1.0, 9.0) for q in 'xur']
                table(os.path.join(hd, f'sp_tstep_{t}.csv'), *data[t], lab)
            for junk in ('other_tstep_1.csv', 'sp_tstep_x.csv', 'sp_1.csv', 'sp_tstep_3.csv.bak'):
                with open(os.path.join(hd, junk), 'w') as h:
                    h.write('a,b\n')
            paths = gs.get_specimen_history_paths(hd, 'sp')
            c.true('times in order', [os.path.basename(p) for p in paths] == [f'sp_tstep_{t}.csv' for t in sorted(times)] and
                   isinstance(paths, tuple) and all(os.path.dirname(p) == hd for p in paths))
            u, r, b, t_ = gs.get_specimen_numerical_data(paths, n_dim, nn)
            for k, t in enumerate(sorted(times)):
                c.eq('displacements', u[:, :, k], data[t][1][:, :n_dim], tol=1e-6)
                c.eq('reactions', r[:, :, k], data[t][2][:, :n_dim], tol=1e-6)
                c.eq('labels', b[:, :, k].to(torch.float64), torch.tensor(lab[:, :n_dim], dtype=torch.float64))
            c.true('labels are integers', not b.dtype.is_floating_point)
            c.true('shapes', tuple(u.shape) == tuple(r.shape) == tuple(b.shape) == (nn, n_dim, len(times)))
            c.eq('time', t_, torch.arange(float(len(times))))
            c.raises('number of nodes', RuntimeError, gs.get_specimen_numerical_data, paths, n_dim, nn + 1)
            # sums over sets
            hist, names, uu, nodes = ps.build_dirichlet_sets_reaction_history('sp', hd, n_dim)
            k = 0
            for q in range(n_dim):
                for l in sorted(set(lab[:, q].tolist())):
                    rows = [i for i in range(nn) if lab[i, q] == l]
                    c.true('set labels', names[k] == f'dim_{q + 1}_label_{l}')
                    c.true('set nodes', list(nodes[k]) == [i + 1 for i in rows])
                    for w, t in enumerate(sorted(times)):
                        c.eq('set reactions', hist[k, 0, w], sum(data[t][2][i, q] for i in rows), tol=1e-6)
                    k += 1
            c.true('all sets', len(names) == len(nodes) == k and tuple(hist.shape) == (k, 1, len(times)))
            for w, t in enumerate(sorted(times)):
                c.eq('set displacements', uu[:, :, w], data[t][1][:, :n_dim], tol=1e-6)
            # relabelling
            new = np.array([[c.choice(f'n{i}', 2) if k == 1 and i == 0 else (2 * i + k) % 3 for k in range(3)] for i in range(nn)])
            da.update_adimu_mesh_hist_data_files_dirichlet(paths, new)
            relabelled(c, 'relabelled', paths, data, times, n_dim, nn, new)
            td = os.path.join(d, 't')
            os.makedirs(td)
            for t in times:
                table(os.path.join(td, f'sp_tstep_{t}.csv'), *[a + 1.0 for a in data[t]], lab)
            ps.copy_dbc_labels('sp', hd, td)
            relabelled(c, 'copied', gs.get_specimen_history_paths(td, 'sp'), {t: [a + 1.0 for a in v] for t, v in data.items()},
                       times, n_dim, nn, new)
            relabelled(c, 'source', paths, data, times, n_dim, nn, new)
            os.remove(os.path.join(td, f'sp_tstep_{times[0]}.csv'))
            c.raises('other length', RuntimeError, ps.copy_dbc_labels, 'sp', hd, td)
            ed = os.path.join(d, 'e')
            os.makedirs(ed)
            c.raises('no history', RuntimeError, gs.get_specimen_history_paths, ed, 'sp')
            c.raises('no directory', RuntimeError, gs.get_specimen_history_paths, ed + 'x', 'sp')
    return body


def relabelled(c, label, paths, data, times, n_dim, nn, new):
    u, r, b, _ = gs.get_specimen_numerical_data(paths, n_dim, nn)
    for k, t in enumerate(sorted(times)):
        c.eq(f'{label}: displacements', u[:, :, k], data[t][1][:, :n_dim], tol=1e-6)
        c.eq(f'{label}: reactions', r[:, :, k], data[t][2][:, :n_dim], tol=1e-6)
        c.eq(f'{label}: labels', b[:, :, k].to(torch.float64), torch.tensor(new[:, :n_dim], dtype=torch.float64))


class State:
    """records how the material state of the specimen is set up"""
    def __init__(self, strain_formulation, problem_type, n_elem):
        self.init = (strain_formulation, problem_type, n_elem)
        self.models = []

    def init_elements_model(self, model_name, model_parameters, elements_ids, elements_type, model_kwargs={}):
        self.models.append((model_name, model_parameters, tuple(elements_ids), tuple(sorted(elements_type)), model_kwargs))


def training(c):
    """specimen files -> data of the material model finder"""
    n_dim = 3
    elems, nn = hexes(1)
    x = coordinates(c, nn, 3)
    saved = c.choice('saved', 4)
    with files(c) as (d, parse):
        p = os.path.join(d, 'sp.inp')
        with open(p, 'w') as f:
            f.write('*Node\n' + ''.join(f'{i + 1}, ' + ', '.join(num(v) for v in r) + '\n' for i, r in enumerate(x)) +
                    '*Element, type=C3D8\n1, ' + ', '.join(map(str, elems[0])) + '\n*Boundary\n1, 1, 3, 0.0\n')
        data = {t: [c.npreal(f'{q}{t}', (nn, 3), 1.0, 9.0) for q in 'xur'] for t in (0, 1)}
        lab = np.array([[(i + k) % 3 for k in range(3)] for i in range(nn)])
        paths = []
        for t in data:
            paths.append(os.path.join(d, f'sp_tstep_{t}.csv'))
            table(paths[-1], *data[t], lab)
        with mock.patch.object(gs, 'StructureMaterialState', State):
            a, b = gs.gen_specimen_dataset('sp', d, p, tuple(paths), 'infinitesimal', 4, 3, 'law', {'E': 1.0}, {'q': 2}, d,
                                           is_save_specimen_data=bool(saved & 1), is_save_specimen_material_state=bool(saved & 2))
        files_ = set(os.listdir(d))
        c.true('files', ('specimen_data.pt' in files_) == bool(saved & 1) and ('specimen_material_state.pt' in files_) == bool(saved & 2))
        c.true('paths', a == (os.path.join(d, 'specimen_data.pt') if saved & 1 else None) and
               b == (os.path.join(d, 'specimen_material_state.pt') if saved & 2 else None))
        if saved & 1:
            s = torch.load(a, weights_only=False)
            near(c, 'mesh', s.specimen_mesh.get_mesh_configuration(time='init')[0], x)
            c.eq('prescribed', s.specimen_mesh.get_dirichlet_bool_mesh(), flags({1: (1, 1, 1)}, nn, 3))
            for t in data:
                c.eq('displacements', s.nodes_disps_mesh_hist[:, :, t], data[t][1], tol=1e-6)
                c.eq('reactions', s.reaction_forces_mesh_hist[:, :, t], data[t][2], tol=1e-6)
                c.eq('labels', s.dirichlet_bc_mesh_hist[:, :, t].to(torch.float64), torch.tensor(lab, dtype=torch.float64))
            c.eq('time', s.time_hist, torch.tensor([0.0, 1.0]))
        if saved & 2:
            s = torch.load(b, weights_only=False)
            c.true('material', s.init == ('infinitesimal', 4, 1) and
                   [(m[0], m[1], tuple(int(k) for k in m[2]), m[3], m[4]) for m in s.models] == [('law', {'E': 1.0}, (1,), ('1',), {'q': 2})])


# ---- tensile specimens -----------------------------------------------------------------------------------
def symmetry(label):
    def body(c):
        top = c.npreal('top', (1,), 5, 9)[0]
        disp = c.npreal('disp', (1,), -3, 3)[0]
        c.assume(abs(torch.as_tensor(disp)) >= 0.1)
        on = [bool(c.flag(f'on{k}')) for k in range(3)]
        attop = (not on[1]) and bool(c.flag('top?'))
        tiny = c.npreal('tiny', (3,), -1e-9, 1e-9)
        far = c.npreal('far', (3,), -4, 4)
        for k in range(3):
            c.assume(abs(torch.as_tensor(far[k])) >= 1e-3)
        x = far.copy()
        for k in range(3):
            if on[k]:
                x[k] = tiny[k]
        if attop:
            x[1] = top + tiny[1]
        free = np.array([far[0], far[1], far[2]])
        mesh = np.array([free, x])
        with files(c) as (d, parse):
            a = sd.build_specimen_dbc(label, top, disp, mesh)
            code = [int(on[0]), int(on[1] or attop), int(on[2])]
            c.true('nodes off the symmetry planes are free', len(a) == (1 if any(code) else 0))
            if not any(code):
                return
            c.true('node', int(a[0][0]) == 2)
            c.true('supports', [int(v) for v in a[0][1:4]] == code)
            near(c, 'displacement', np.array(list(a[0][4:7])), np.array([0.0, disp if attop else 0.0, 0.0]))
            sd.write_links_dirichlet_bc_file(d, a)
            f = os.path.join(d, 'specimen_dirichlet_bc.dat')
            got = da.extract_mesh_dirichlet_from_links_data(f)
            c.true('prescribed degrees of freedom', {k: set(v) for k, v in got.items()} ==
                   {'2': {str(k + 1) for k in range(3) if code[k]}})
            for k in range(3):
                if code[k]:
                    near(c, 'prescribed values', got['2'][str(k + 1)], disp if attop and k == 1 else 0.0)
            ref = links(f, parse)
            c.true('number of nodes', ref['n_bc'] == 1)
            g = ref['sec']['NODE_GROUPS']
            c.true('reaction nodes', g == ([['1', '1'], ['2']] if attop else [['1', '0']]))
        c.raises('unknown specimen', RuntimeError, sd.build_specimen_dbc, 'x', top, disp, mesh)
    return body


# ---- solver output -----------------------------------------------------------------------------------------
def results(c):
    with files(c) as (d, parse):
        out = os.path.join(d, 'sim')
        node, glob = {}, {}
        for k, ext, n in (('NODE_DATA', 'nodedata', 2), ('GLOBAL_DATA', 'globaldata', 1)):
            os.makedirs(os.path.join(out, k))
            for t in (10, 2, 9):
                a = c.npreal(f'{ext}{t}', (n, 3), 1.0, 9.0)
                (node if n == 2 else glob)[t] = a
                with open(os.path.join(out, k, f'sim_{t}.{ext}'), 'w') as h:
                    for r in a:
                        h.write(' '.join(num(v) for v in r) + '\n')
        sim = lk.LinksSimulator('none', 'infinitesimal', 'tridimensional')
        which = c.choice('which', 3)
        keys = (('node_data',), ('global_data',), ('node_data', 'global_data'))[which]
        r = sim.read_links_simulation_results(out, keys)
        c.true('requested results', set(r) == set(keys))
        for i, t in enumerate((2, 9, 10)):
            if 'node_data' in r:
                near(c, 'node data', r['node_data'][:, :, i], node[t])
            if 'global_data' in r:
                near(c, 'global data', r['global_data'][:, :, i], glob[t])
        for k, v in r.items():
            c.true('shape', v.shape == (2 if k == 'node_data' else 1, 3, 3))
        c.raises('no output', RuntimeError, sim.read_links_simulation_results, out + 'x', keys)


def remove(c):
    """elements removed from a mesh: geometry, phases and displacements stay"""
    elems, nn = quads(4)
    coords = {str(i + 1): c.npreal(f'x{i}', (2,), -9, 9) for i in range(nn)}
    phase = {str(k + 1): 10 + k for k in range(4)}
    el = {str(k + 1): tuple(e) for k, e in enumerate(elems)}
    gone = tuple(k + 1 for k in range(4) if c.flag(f'gone{k}'))
    used = sorted({n for k, e in el.items() if int(k) not in gone for n in e})
    if not used:
        return
    disp = {str(n): c.npreal(f'u{n}', (2,), -1, 1) for n in used[::2]}
    with_disp = c.flag('disps')
    got = lk.LinksSimulator.remove_mesh_elements(gone, coords, el, phase, node_disps=disp if with_disp else None)
    x, e, p, u = got
    keep = [k for k in range(1, 5) if k not in gone]
    c.true('elements', list(e) == [str(k + 1) for k in range(len(keep))] == list(p))
    c.true('no loose nodes', sorted(int(k) for k in x) == list(range(1, len(used) + 1)) == sorted({n for v in e.values() for n in v}))
    for k, o in enumerate(keep):
        c.true('phase', p[str(k + 1)] == phase[str(o)])
        for a, b in zip(e[str(k + 1)], el[str(o)]):
            c.eq('element geometry', x[str(a)], coords[str(b)])
            if with_disp:
                c.true('displaced nodes', (str(a) in u) == (str(b) in disp))
                if str(b) in disp:
                    c.eq('displacements', u[str(a)], disp[str(b)])
    c.true('number of displacements', len(u) == len(disp) if with_disp else u is None)
    c.true('mesh untouched', el == {str(k + 1): tuple(q) for k, q in enumerate(elems)} and phase == {str(k + 1): 10 + k for k in range(4)})
    lost = sorted(set(range(1, nn + 1)) - set(used))
    run = lambda b: lk.LinksSimulator.remove_mesh_elements(gone, coords, el, phase, boundary_nodes_labels=b)
    if lost:
        c.raises('boundary nodes stay', RuntimeError, run, {lost[-1], used[0]})
    c.true('other boundary nodes', len(run(set(used))[1]) == len(keep))


def removed_patch(c):
    """elements removed when a Links file is written"""
    with files(c) as (d, parse):
        patch, x, elems, u = make_patch(c, 2, (3, 1))
        mat = np.array([[1], [2], [1]])
        k = c.choice('gone', 3)
        sim = lk.LinksSimulator('none', 'infinitesimal', 'plane_stress')
        args = ('r', d, patch, {'mesh_elem_material': mat, 'mat_phases_descriptors': {'1': EL, '2': EL}})
        if k != 1:
            c.raises('boundary nodes stay', RuntimeError, sim.generate_input_data_file, *args, remove_elements_labels=(k + 1,))
            c.raises('material missing', RuntimeError, sim.generate_input_data_file, 'r', d, patch,
                     {'mesh_elem_material': mat, 'mat_phases_descriptors': {'1': EL}})
            return
        got = links(sim.generate_input_data_file(*args, remove_elements_labels=(2,)), parse)
        same_mesh(c, 'Links', got, x, [elems[0], elems[2]])
        c.true('phases', got['phase'] == {1: 1, 2: 1})
        for q, v in u.items():
            for i in range(2):
                near(c, 'displacements', got['bc'][int(q)][1][i], v[i])


def gauss(c):
    """Gauss point output -> response data set"""
    with files(c) as (d, parse):
        n = 2
        rows, f = [], []
        for s in range(2):
            a = c.npreal(f'g{s}', (n, 60), 1.0, 9.0)
            a[0, 53] = c.npreal(f'neg{s}', (1,), -9, 9)[0]
            rows.append(a)
            f.append(os.path.join(d, f'gp{s}.out'))
            with open(f[-1], 'w') as h:
                h.write('title\n' + ' '.join(f'c{k}' for k in range(60)) + '\n')
                for r in a:
                    h.write(' '.join(num(v) for v in r) + '\n')
        ds = ld.build_dataset(tuple(f), 3)
        c.true('samples', len(ds) == 2)
        for s in range(2):
            g, a = ds[s], rows[s]
            c.true('orders', tuple(g['strain_comps_order']) == tuple(g['stress_comps_order']) == S3)
            near(c, 'time', g['time_hist'], a[:, :1])
            near(c, 'stress', g['stress_path'], a[:, 11:17])
            near(c, 'strain', g['strain_path'], np.concatenate((a[:, 53:56], a[:, 56:59] * 0.5), axis=1))
        c.raises('missing file', RuntimeError, ld.extract_sample_path, f[0] + 'x', 3)


def cases(tier):
    T = tier == 'thorough'
    out = [Case('convert 3D', convert(3, 2 if T else 1), {'cost': 3}), Case('convert 2D', convert(2), {'cost': 2}),
           Case('Abaqus file', inp, {'cost': 3}),
           Case('simulate 2D', simulate(2, (2, 1)), {'cost': 4}), Case('simulate 3D', simulate(3, (1, 1, 1), (3, 10)), {'cost': 4}),
           Case('simulate 2D rows', simulate(2, (1, 2), (1, 2)), {'cost': 4}),
           Case('histories 3D', histories(3), {'cost': 4}), Case('histories 2D', histories(2, times=(1, 20)), {'cost': 3}),
           Case('training data', training, {'cost': 3}), Case('results', results, {}), Case('remove elements', remove, {}),
           Case('patch without elements', removed_patch, {}), Case('Gauss points', gauss, {})]
    for n in ('ELASTIC', 'VON_MISES', 'DRUCKER_PRAGER', 'LOU'):
        out.append(Case(f'material {n}', material(n), {'cost': 2}))
    for n in ('3d_tensile_double_notched', '3d_tensile_dogbone'):
        out.append(Case(f'symmetry {n}', symmetry(n), {}))
    if T:
        out += [Case('simulate 3D two', simulate(3, (2, 1, 1), tuple(range(12))), {'cost': 9}),
                Case('histories 4 nodes', histories(3, 4, (0, 1, 2, 11)), {'cost': 9})]
    return out
