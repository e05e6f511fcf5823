"""Mesh assembly, extraction and configurations"""
import torch
from .common import *
from .elements import ELEMENTS
from simulators.fetorch.structure.structure_mesh import StructureMesh

OUTSIDE = 'meshes other than the listed topologies; histories longer than the stated number of updates'

# name: (element types, connectivities, number of nodes)
MESHES = {
    'quads': (['quad4'] * 2, [(1, 2, 5, 4), (2, 3, 6, 5)], 6),
    'quads rotated numbering': (['quad4'] * 3, [(7, 1, 4, 2), (4, 1, 8, 3), (2, 4, 3, 6)], 8),
    'mixed': (['tri3', 'quad4', 'tri3'], [(5, 1, 4), (1, 2, 3, 4), (3, 6, 2)], 6),
    'tri6': (['tri6'] * 2, [(1, 2, 3, 5, 6, 7), (4, 3, 2, 8, 6, 9)], 9),
    'strip of 12': (['tri3'] * 12, [(i + 1, i + 2, i + 3) for i in range(12)], 14),
    'hexa8': (['hexa8'] * 2, [(1, 2, 3, 4, 5, 6, 7, 8), (5, 6, 7, 8, 9, 10, 11, 12)], 12),
}


def build(name, X, order=None, dirichlet=None):
    types, conn, n = MESHES[name]
    ids = list(range(1, len(conn) + 1))
    if order:
        ids = ids[::-1]
    return StructureMesh(X, {str(i): ELEMENTS[types[i - 1]]() for i in ids},
                         {str(i): conn[i - 1] for i in ids},
                         torch.zeros(X.shape, dtype=torch.int) if dirichlet is None else dirichlet)


def dims(name):
    return 3 if 'hexa' in name else 2


def transfer(name, ndof, rev):
    types, conn, n = MESHES[name]
    d = dims(name)

    def body(c):
        mesh = build(name, torch.zeros(n, d), rev)
        V = c.real('v', (n * ndof,))
        arr, refs = {}, torch.zeros(n * ndof)
        ids = list(range(1, len(conn) + 1))
        for i in (ids if not rev else ids[::-1]):
            arr[str(i)] = c.real(f'a{i}', (len(conn[i - 1]) * ndof,))
        glob = mesh.element_assembler(arr)
        c.true('assembled length', tuple(glob.shape) == (n * ndof,))
        for node in range(1, n + 1):
            for k in range(ndof):
                s = torch.zeros(())
                for i in ids:
                    for j, q in enumerate(conn[i - 1]):
                        if q == node:
                            s = s + arr[str(i)][j * ndof + k]
                c.eq('assembled entry', glob[(node - 1) * ndof + k], s)
        w = torch.zeros(())
        for i in ids:
            e = mesh.element_extractor(V, i)
            for j, q in enumerate(conn[i - 1]):
                for k in range(ndof):
                    c.eq('extracted entry', e[j * ndof + k], V[(q - 1) * ndof + k])
            w = w + (e * arr[str(i)]).sum()
        c.eq('assembly is the transpose of extraction', (glob * V).sum(), w)
        if len(set(types)) == 1:
            idx = mesh.build_elements_mesh_indexing(ndof)
            c.true('indexing shape', tuple(idx.shape) == (len(ids), len(conn[0]) * ndof))
            for i in ids:
                e = mesh.element_extractor(V, i)
                c.eq('indexing agrees with extraction', V[idx[i - 1].long()], e)
            ct = mesh.get_connectivities_tensor()
            c.true('connectivity tensor', [tuple(r) for r in ct.tolist()] == [tuple(q) for q in conn])
        c.raises('two-dimensional array rejected', RuntimeError, mesh.element_extractor,
                 V.reshape(n, ndof), 1)
    return body


def elconf(name):
    types, conn, n = MESHES[name]
    d = dims(name)

    def body(c):
        X = c.real('X', (n, d))
        mesh = build(name, X)
        U, L = c.real('U', (n, d)), c.real('L', (n, d))
        mesh.update_mesh_configuration(U, time='current')
        mesh.update_mesh_configuration(L, time='last')
        for i in range(1, len(conn) + 1):
            for t, u in (('init', torch.zeros(n, d)), ('last', L), ('current', U)):
                x, v = mesh.get_element_configuration(i, time=t)
                for j, q in enumerate(conn[i - 1]):
                    c.eq('element coordinates ' + t, x[j], X[q - 1] + u[q - 1])
                    c.eq('element displacements ' + t, v[j], u[q - 1])
        c.true('sizes', mesh.get_n_node_mesh() == n and mesh.get_n_dim() == d
               and mesh.get_n_elem() == len(conn) and mesh.get_n_element_type() == len(set(types)))
        for f in (mesh.get_mesh_configuration, lambda time: mesh.get_element_configuration(1, time=time),
                  lambda time: mesh.update_mesh_configuration(U, time=time)):
            c.raises('unknown time', RuntimeError, f, time='next')
    return body


def history(k):
    """any sequence of k updates: the stored configurations follow a plain model"""
    name = 'quads'
    types, conn, n = MESHES[name]

    def body(c):
        X = c.real('X', (n, 2))
        X0 = X.clone()
        mesh = build(name, X)
        cur = {'current': (X0, torch.zeros(n, 2)), 'last': (X0, torch.zeros(n, 2))}
        for s in range(k):
            op = c.choice(f'op{s}', 5)
            if op < 4:
                t = 'current' if op % 2 == 0 else 'last'
                upd = op < 2
                U = c.real(f'U{s}', (n, 2))
                ref = U.clone()
                mesh.update_mesh_configuration(U, time=t, is_update_coords=upd)
                cur[t] = (X0 + ref if upd else cur[t][0], ref)
                # the caller may go on writing to its own array
                U[0] = U[0] + 1.0
            else:
                for t in ('init', 'last', 'current'):
                    x, u = mesh.get_mesh_configuration(time=t)
                    x[1] = x[1] + 1.0
                    u[2] = u[2] - 1.0
                x, u = mesh.get_element_configuration(1, time='current')
                x[0] = x[0] + 1.0
                u[1] = u[1] + 1.0
            for t in ('last', 'current'):
                x, u = mesh.get_mesh_configuration(time=t)
                c.eq('coordinates ' + t, x, cur[t][0])
                c.eq('displacements ' + t, u, cur[t][1])
            x, u = mesh.get_mesh_configuration(time='init')
            c.eq('initial coordinates', x, X0)
            c.eq('initial displacements', u, torch.zeros(n, 2))
    return body


def copies(c):
    x = c.real('x', ())
    b = torch.tensor([[1, 0], [0, 0], [1, 1], [0, 0], [0, 1], [0, 0]], dtype=torch.int)
    mesh = build('quads', torch.zeros(6, 2) + x, dirichlet=b.clone())
    c.true('number of prescribed dofs', int(mesh.get_n_dirichlet_dof()) == 4)
    g = mesh.get_dirichlet_bool_mesh()
    g[0, 0] = 0
    g[1, 1] = 1
    c.true('constraints not writable through the getter',
           mesh.get_dirichlet_bool_mesh().tolist() == b.tolist() and int(mesh.get_n_dirichlet_dof()) == 4)
    k = mesh.get_connectivities()
    k['1'] = (6, 5, 4, 3)
    k.pop('2')
    c.true('connectivities not writable through the getter',
           mesh.get_connectivities()['1'] == (1, 2, 5, 4) and '2' in mesh.get_connectivities())
    t = mesh.get_elements_type()
    t.pop('1')
    c.true('types not writable through the getter', sorted(mesh.get_elements_type()) == ['1', '2'])


def reject(c):
    x = c.real('x', ())
    X = torch.zeros(6, 2) + x
    B = torch.zeros(6, 2, dtype=torch.int)
    q = ELEMENTS['quad4']()
    ok = {'1': (1, 2, 5, 4), '2': (2, 3, 6, 5)}
    bad = [(X.reshape(-1), {'1': q, '2': q}, ok), (X, {'1': q, '3': q}, ok), (X, {'1': q}, ok),
           (X, {'1': q, '2': 'quad4'}, ok), (X, {'1': q, '2': q}, {'1': (1, 2, 5, 4)}),
           (X, {'1': q, '2': q}, {'1': (1, 2, 5), '2': (2, 3, 6, 5)}),
           ([[0.0, 0.0]], {'1': q, '2': q}, ok)]
    for b in bad:
        c.raises('inconsistent mesh rejected', RuntimeError, StructureMesh, *b, B)


def cases(tier):
    out = [Case('getters return copies', copies), Case('inconsistent meshes', reject)]
    for m in MESHES:
        out.append(Case(f'{m}: element configuration', elconf(m), bounds='all coordinates and displacements'))
        for nd in ((1, 2, 3) if m != 'strip of 12' else (2,)):
            out.append(Case(f'{m}: transfer dof={nd}', transfer(m, nd, nd == 2),
                            bounds='all element and mesh arrays'))
    k = 3 if tier == 'quick' else 4
    out.append(Case('configuration histories', history(k), {'cost': 20, 'max_paths': 3000},
                    bounds=f'all sequences of {k} updates'))
    return out
