"""Force equilibrium loss of the material model finder"""
import os
import torch
from unittest import mock
from .common import *
from .elements import ELEMENTS, DIM, PROBLEM
from . import p18
import material_model_finder.model.material_discovery as md
from material_model_finder.model.material_discovery import MaterialModelFinder
from material_model_finder.data.specimen_data import SpecimenNumericalData
from simulators.fetorch.structure import structure_state
from simulators.fetorch.structure.structure_state import StructureMaterialState
from utilities.data_scalers import TorchStandardScaler

OUTSIDE = ('meshes of two elements with fixed distorted coordinates, two or three time steps, elastic and von Mises '
           'materials; loss values for every displacement history, reaction history, weight and scale')

MESH = {
    'tri3': ([[0., 0.], [2., 0.], [2., 1.], [0.5, 1.]], {'1': [1, 2, 3], '2': [3, 4, 1]}),
    'quad4': ([[0., 0.], [1., 0.], [2.5, 0.], [0., 1.], [1.5, 1.], [2., 2.]], {'1': [1, 2, 5, 4], '2': [2, 3, 6, 5]}),
    'tetra4': ([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1., 1., 1.]], {'1': [1, 2, 3, 4], '2': [2, 3, 4, 5]}),
}
G = 1.0 / 3.0 ** 0.5


def grads(kind, x):
    """(weight * det J, gradients of the shape functions) at the integration points"""
    out = []
    if kind == 'tri3':
        pts = [((1 / 3, 1 / 3), 0.5)]
        loc = lambda p: torch.tensor([[-1., -1.], [1., 0.], [0., 1.]])
    elif kind == 'tetra4':
        pts = [((0.25, 0.25, 0.25), 1.0 / 6.0)]
        loc = lambda p: torch.tensor([[-1., -1., -1.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])
    else:
        pts = [((a * G, b * G), 1.0) for a in (-1, 1) for b in (-1, 1)]
        nodes = ((-1, -1), (1, -1), (1, 1), (-1, 1))
        loc = lambda p: torch.tensor([[0.25 * i * (1 + j * p[1]), 0.25 * j * (1 + i * p[0])] for i, j in nodes])
    for p, w in pts:
        d = loc(p)
        J = d.T @ x
        n = J.shape[0]
        if n == 2:
            det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
            adj = torch.stack((torch.stack((J[1, 1], -J[0, 1])), torch.stack((-J[1, 0], J[0, 0]))))
        else:
            c = torch.stack([torch.linalg.cross(J[(i + 1) % 3], J[(i + 2) % 3]) for i in range(3)])
            det = (J[0] * c[0]).sum()
            adj = c.T
        out.append((w * det, d @ (adj / det).T))
    return out


def hooke(e, E=100.0, v=0.25):
    n = e.shape[0]
    lam, mu = E * v / ((1 + v) * (1 - 2 * v)), E / (2 * (1 + v))
    return 2 * mu * e + lam * tr(e) * torch.eye(n)


def forces(kind, coords, conn, u, law):
    """reference internal forces (nodes, dim, time)"""
    nt = u.shape[2]
    f = [[[torch.zeros(()) for _ in range(nt)] for _ in range(u.shape[1])] for _ in range(u.shape[0])]
    paths = []
    for e in sorted(conn, key=int):
        idx = [k - 1 for k in conn[e]]
        for w, g in grads(kind, coords[idx]):
            eps = []
            for t in range(nt):
                h = u[idx, :, t].T @ g
                eps.append(0.5 * (h + h.T))
            sig = law(eps)
            paths.append((eps, sig))
            for t in range(nt):
                fe = w * (g @ sig[t])
                for a, k in enumerate(idx):
                    for d in range(u.shape[1]):
                        f[k][d][t] = f[k][d][t] + fe[a, d]
    return torch.stack([torch.stack([torch.stack(b) for b in a]) for a in f]), paths


class Law(torch.nn.Module):
    """path-dependent material: the stress depends on this and on the previous strain"""

    def __init__(self, **kw):
        super().__init__()
        self._device_type, self._device, self._data_scalers = 'cpu', torch.device('cpu'), None
        self._n_features_in, self._n_features_out = kw['n_features_in'], kw['n_features_out']
        self.is_model_in_normalized = kw['is_model_in_normalized']
        self.is_model_out_normalized = kw['is_model_out_normalized']

    def forward(self, x):
        A, B = maps(x.shape[-1])
        z = torch.zeros_like(x[:1])
        return x @ A.T + torch.cat((z, x[:-1]), dim=0) @ B.T


class Conv(torch.nn.Module):
    """the same material, integrated point by point from its stored state"""

    def __init__(self, strain_formulation, problem_type, model_parameters, device_type='cpu'):
        super().__init__()
        self.o = S2 if problem_type == 1 else S3

    def get_strain_type(self):
        return 'infinitesimal'

    def vec(self, mf):
        return torch.stack([mf[i] / (1.0 if q[0] == q[1] else 2.0 ** 0.5) for i, q in enumerate(self.o)])

    def mf(self, v):
        return torch.stack([v[i] * (1.0 if q[0] == q[1] else 2.0 ** 0.5) for i, q in enumerate(self.o)])

    def state_init(self):
        k = len(self.o)
        return {'strain_mf': torch.zeros(k), 'stress_mf': torch.zeros(k), 'is_plast': False}

    def state_update(self, inc_strain, state_variables_old):
        A, B = maps(len(self.o))
        old = self.vec(state_variables_old['strain_mf'])
        new = old + torch.stack([inc_strain[int(q[0]) - 1, int(q[1]) - 1] for q in self.o])
        return {'strain_mf': self.mf(new), 'stress_mf': self.mf(A @ new + B @ old), 'is_plast': False}, None


def maps(k):
    A = torch.tensor([[float((3 * i + 5 * j) % 7 - 2 + (8 if i == j else 0)) for j in range(k)] for i in range(k)])
    B = torch.tensor([[float((2 * i + 3 * j) % 5 - 2) for j in range(k)] for i in range(k)])
    return A, B


def lawref(n, sin=None, sout=None):
    o = S2 if n == 2 else S3
    A, B = maps(len(o))

    def law(eps):
        v = [torch.stack([e[int(q[0]) - 1, int(q[1]) - 1] for q in o]) for e in eps]
        if sin is not None:
            v = [(x - sin[0]) / sin[1] for x in v]
        out = []
        for t, x in enumerate(v):
            y = A @ x + (B @ v[t - 1] if t else 0.0)
            if sout is not None:
                y = y * sout[1] + sout[0]
            m = [[None] * n for _ in range(n)]
            for q, w in zip(o, y):
                i, j = int(q[0]) - 1, int(q[1]) - 1
                m[i][j] = m[j][i] = w
            out.append(torch.stack([torch.stack(r) for r in m]))
        return out
    return law


def finder(c, kind, u, react, bc, weights=None, scale=None, loss='pointwise', fmin=None, fmax=None, sin=None, sout=None,
           model=None, **kw):
    coords, conn = MESH[kind]
    n = DIM[kind]
    et = {e: ELEMENTS[kind](n_gauss=1) if kind == 'tetra4' else ELEMENTS[kind]() for e in conn}
    sd = SpecimenNumericalData()
    sd.set_specimen_mesh(torch.tensor(coords), et, conn, torch.where(bc > 0, 1, 0))
    nt = u.shape[2]
    sd.set_specimen_data(u, react, bc.unsqueeze(2).expand(-1, -1, nt).clone(), torch.arange(nt, dtype=torch.float64))
    ms = StructureMaterialState('infinitesimal', PROBLEM[n], len(conn))
    k = 3 if n == 2 else 6
    name = model or 'law'
    opts = {'n_features_in': k, 'n_features_out': k, 'learnable_parameters': {},
            'material_model_name': name, 'state_features_out': {}, 'is_auto_sync_parameters': True,
            'is_check_su_fail': False, 'model_directory': os.environ['SYM_SCRATCH'], 'is_normalized_parameters': False,
            'is_model_in_normalized': sin is not None, 'is_model_out_normalized': sout is not None, 'device_type': 'cpu'}
    if model == 'conventional':
        with mock.patch.object(structure_state, 'Elastic', Conv):
            ms.init_elements_model('elastic', {}, list(conn), et)
    elif model is None:
        with mock.patch.object(structure_state, 'RecurrentConstitutiveModel', Law):
            ms.init_elements_model('rc_law', {}, list(conn), et, model_kwargs=opts)
        law = ms.get_elements_material()['1']
        law._data_scalers = {
            'features_in': None if sin is None else TorchStandardScaler(k, mean=sin[0], std=sin[1]),
            'features_out': None if sout is None else TorchStandardScaler(k, mean=sout[0], std=sout[1])}
    else:
        ms.init_elements_model('rc_' + model, p18.pars(model), list(conn), et, model_kwargs=opts)
    d = os.path.join(os.environ['SYM_SCRATCH'], 'finder')
    os.makedirs(d, exist_ok=True)
    f = MaterialModelFinder(d, force_equilibrium_loss_type=loss, is_force_normalization=fmin is not None, **kw)
    f.set_specimen_data(sd, ms, force_minimum=fmin, force_maximum=fmax, loss_scaling_factor=scale, loss_time_weights=weights)
    return f


def refer(kind, u, **kw):
    return forces(kind, torch.tensor(MESH[kind][0]), MESH[kind][1], u, lawref(DIM[kind], **kw))


def dofs(kind, sets=False):
    """prescribed degrees of freedom (set labels if asked)"""
    nn, n = len(MESH[kind][0]), DIM[kind]
    bc = torch.zeros((nn, n), dtype=torch.int64)
    bc[0, :] = 1
    bc[1, 1] = 1
    bc[nn - 1, 0] = 1
    if sets:
        bc[0, 0], bc[0, 1], bc[1, 1], bc[nn - 1, 0] = 1, 2, 2, 3
        bc[2, 0] = 1
        if n == 3:
            bc[0, 2] = 5
    return bc


def data(c, kind, nt):
    nn, n = len(MESH[kind][0]), DIM[kind]
    u = torch.stack([torch.zeros((nn, n))] + [c.real(f'u{t}', (nn, n), -0.1, 0.1) for t in range(1, nt)], dim=2)
    r = c.real('r', (nn, n, nt), -10, 10)
    return u, r


def pointwise(f, r, bc, w):
    tot = torch.zeros(())
    for t in range(f.shape[2]):
        for i in range(f.shape[0]):
            for j in range(f.shape[1]):
                v = f[i, j, t] - r[i, j, t] if int(bc[i, j]) else f[i, j, t]
                tot = tot + w[t] * v * v
    return tot


def setwise(f, r, bc, w):
    tot = torch.zeros(())
    for t in range(f.shape[2]):
        s = {}
        for i in range(f.shape[0]):
            for j in range(f.shape[1]):
                k = int(bc[i, j])
                if k:
                    s[k] = s.get(k, torch.zeros(())) + f[i, j, t] - r[i, j, t]
                else:
                    tot = tot + w[t] * f[i, j, t] ** 2
        for v in s.values():
            tot = tot + w[t] * v * v
    return tot


MODES = ('sequential_element', 'sequential_element_vmap')


def loss(kind, mode, nt):
    def body(c):
        u, r = data(c, kind, nt)
        w = c.real('w', (nt,), 0, 2)
        s = c.real('s', (), 0.1, 10)
        bc = dofs(kind)
        keep = (u.clone(), r.clone())
        f = finder(c, kind, u, r, bc, w, s)
        got = f(sequential_mode=mode)
        ref, _ = refer(kind, u)
        c.eq('loss is the weighted squared residual', got.reshape(()), s * pointwise(ref, r, bc, w), tol=1e-6)
        c.eq('displacements untouched', u, keep[0])
        c.eq('reactions untouched', r, keep[1])
        again = f(sequential_mode=mode)
        c.eq('same loss when evaluated again', again.reshape(()), got.reshape(()), tol=1e-6)
    return body


def plain(kind, mode):
    """no weights, no scale"""
    def body(c):
        u, r = data(c, kind, 2)
        bc = dofs(kind)
        f = finder(c, kind, u, r, bc)
        ref, _ = refer(kind, u)
        c.eq('loss is the squared residual', f(sequential_mode=mode).reshape(()), pointwise(ref, r, bc, [1.0, 1.0]), tol=1e-6)
    return body


def zero(kind, mode, sets=False):
    """reactions in balance with the material: the loss vanishes; any imbalance raises it"""
    def body(c):
        nn, n = len(MESH[kind][0]), DIM[kind]
        a = c.real('a', (n, n), -0.1, 0.1)
        x = torch.tensor(MESH[kind][0])
        u = torch.stack([torch.zeros((nn, n)), x @ a.T], dim=2)
        bc = dofs(kind, sets) if sets else torch.ones((nn, n), dtype=torch.int64)
        e = 0.5 * (a + a.T)
        ref, _ = refer(kind, u)
        if not sets:
            g = c.real('g', (), -1, 1)
            r = torch.stack([torch.stack([torch.stack([ref[i, j, 0], ref[i, j, 1] + (g if (i, j) == (1, 0) else 0.0)])
                                          for j in range(n)]) for i in range(nn)])
            f = finder(c, kind, u, r, bc)
            c.eq('loss measures the imbalance', f(sequential_mode=mode).reshape(()), g * g, tol=1e-6)
    return body


def sets(kind, nt):
    def body(c):
        u, r = data(c, kind, nt)
        w = c.real('w', (nt,), 0, 2)
        bc = dofs(kind, True)
        f = finder(c, kind, u, r, bc, weights=w, loss='dirichlet_sets')
        ref, _ = refer(kind, u)
        c.eq('loss of free nodes and set resultants', f(sequential_mode='sequential_element_vmap').reshape(()),
             setwise(ref, r, bc, w), tol=1e-6)
        h = f.compute_dirichlet_sets_reaction_hist(ref, torch.zeros_like(ref), bc.unsqueeze(2).expand(-1, -1, nt))
        labels = sorted(set(int(b) for b in bc.reshape(-1)))
        c.true('one row per set', h.shape[0] == len(labels) and h.shape[2] == nt)
        for q, l in enumerate(labels):
            for t in range(nt):
                want = sum((ref[i, j, t] for i in range(ref.shape[0]) for j in range(ref.shape[1]) if int(bc[i, j]) == l),
                           torch.zeros(()))
                c.eq('resultant of a set', h[q, 0, t], want, tol=1e-6)
    return body


def history(kind, loss_type, norm=False):
    """stored loss components add up to the loss"""
    def body(c):
        u, r = data(c, kind, 2)
        w = c.real('w', (2,), 0, 2)
        s = c.real('s', (), 0.1, 10)
        bc = dofs(kind, loss_type != 'pointwise')
        n = DIM[kind]
        kw = {}
        if norm:
            kw = dict(fmin=torch.full((n,), -4.0), fmax=torch.full((n,), 4.0))
        f = finder(c, kind, u, r, bc, weights=w, scale=s, loss=loss_type, **kw)
        fi = c.real('f', tuple(u.shape), -10, 10)
        z = torch.zeros_like(fi)
        bch = bc.unsqueeze(2).expand(-1, -1, 2)
        h = f.force_equilibrium_loss_components_hist(fi, z, r, bch)
        tot = s * f.vforce_equilibrium_hist_loss(fi, z, r, bch)
        c.eq('components add up to the loss', h[0].sum(), tot, tol=1e-6)
        if loss_type != 'pointwise':
            c.eq('parts', h[1] + h[2], h[0], tol=1e-6)
            free = sum((fi[i, j, :] ** 2 for i in range(fi.shape[0]) for j in range(n) if int(bc[i, j]) == 0), torch.zeros(2))
            k = 0.0625 if norm else 1.0
            c.eq('free part', h[1], s * w * k * free, tol=1e-6)
    return body


def normalised(kind, mode, sym):
    """force normalisation only rescales the residual"""
    def body(c):
        u, r = data(c, kind, 2)
        n = DIM[kind]
        lo = torch.full((n,), -2.0) if sym else torch.tensor([-1.0, -3.0, -2.0][:n])
        hi = torch.full((n,), 2.0) if sym else torch.tensor([3.0, 1.0, 6.0][:n])
        bc = dofs(kind)
        f = finder(c, kind, u, r, bc, fmin=lo, fmax=hi)
        ref, _ = refer(kind, u)
        k = (2.0 / (hi - lo))[None, :, None]
        c.eq('normalised loss', f(sequential_mode=mode).reshape(()), pointwise(ref * k, r * k, bc, [1.0, 1.0]), tol=1e-6)
    return body


def samples(kind, mode):
    """stored local paths are the strain-stress paths of the integration points"""
    def body(c):
        u, r = data(c, kind, 2)
        bc = dofs(kind)
        got = []
        with mock.patch.object(md, 'save_dataset', lambda ds, *a, **q: got.extend([ds[i] for i in range(len(ds))])):
            f = finder(c, kind, u, r, bc, is_store_local_paths=True, local_paths_elements=[2])
            f(sequential_mode=mode)
        _, paths = refer(kind, u)
        check_paths(c, kind, got, paths[len(paths) // 2:])
    return body


def configuration(c):
    """mesh configuration follows the displacement history"""
    kind = 'quad4'
    u, r = data(c, kind, 3)
    u = u + 0.0
    nn, n = 6, 2
    sd = SpecimenNumericalData()
    coords, conn = MESH[kind]
    et = {e: ELEMENTS[kind]() for e in conn}
    c.raises('mesh first', RuntimeError, sd.set_specimen_data, u, r, r, torch.arange(3.0))
    bc = dofs(kind)
    sd.set_specimen_mesh(torch.tensor(coords), et, conn, bc)
    h = bc.unsqueeze(2).expand(-1, -1, 3)
    th = torch.arange(3.0)
    for bad in ((u[:, :, :2], r, h, th), (u, r[:5], h, th), (u, r, h[:, :1], th), (u, r, h, torch.arange(2.0)), (u, r, h, [0, 1, 2])):
        c.raises('inconsistent data', RuntimeError, sd.set_specimen_data, *bad)
    sd.set_specimen_data(u, r, h, th)
    for upd in (False, True):
        for t in (2, 0, 1):
            sd.update_specimen_mesh_configuration(t, is_update_coords=upd)
            for when, k in (('current', t), ('last', max(0, t - 1))):
                x, d = sd.specimen_mesh.get_mesh_configuration(time=when)
                c.eq('displacements', d, u[:, :, k])
                if upd:
                    c.eq('coordinates', x, torch.tensor(coords) + u[:, :, k])
        ec, ed = sd.get_batched_mesh_configuration_hist(is_update_coords=upd)
        for i, e in enumerate(sorted(conn, key=int)):
            for a, node in enumerate(conn[e]):
                c.eq('element displacement history', ed[i, a], u[node - 1])
                base = torch.tensor(coords)[node - 1][:, None] + (u[node - 1] if upd else torch.zeros(2, 3))
                c.eq('element coordinates history', ec[i, a], base)
    for t in (-1, 3):
        c.raises('time outside the history', RuntimeError, sd.update_specimen_mesh_configuration, t)
    two = h.clone()
    two[0, 0] = 2
    sd.set_specimen_data(u, r, two, th)
    c.raises('pointwise needs flags', RuntimeError, sd.check_dirichlet_bc_mesh_hist, 'pointwise')
    one = torch.zeros((nn, n, 3), dtype=torch.int64)
    one[0, 0], one[1, 0], one[2, 1] = 1, 1, 2
    sd.set_specimen_data(u, r, one, th)
    sd.check_dirichlet_bc_mesh_hist('dirichlet_sets')
    one[3, 1] = 1
    c.raises('a set has one direction', RuntimeError, sd.check_dirichlet_bc_mesh_hist, 'dirichlet_sets')
    c.raises('negative labels', RuntimeError, sd.check_dirichlet_bc_mesh_hist, 'other')


def scaled(kind, mode, which):
    """materials which work on normalised strains / stresses"""
    def body(c):
        u, r = data(c, kind, 2)
        n = DIM[kind]
        k = 3 if n == 2 else 6
        kw = {}
        if 'i' in which:
            kw['sin'] = (torch.tensor([0.5, -1.0, 2.0, 0.25, 1.0, -0.5][:k]), torch.tensor([2.0, 0.5, 4.0, 0.25, 1.0, 8.0][:k]))
        if 'o' in which:
            kw['sout'] = (torch.tensor([1.0, 3.0, -2.0, 0.5, 0.0, 1.0][:k]), torch.tensor([0.5, 2.0, 0.25, 4.0, 2.0, 1.0][:k]))
        bc = dofs(kind)
        got = []
        with mock.patch.object(md, 'save_dataset', lambda ds, *a, **q: got.extend([ds[i] for i in range(len(ds))])):
            f = finder(c, kind, u, r, bc, is_store_local_paths=True, local_paths_elements=[1, 2], **kw)
            val = f(sequential_mode=mode)
        ref, paths = refer(kind, u, **kw)
        c.eq('loss', val.reshape(()), pointwise(ref, r, bc, [1.0, 1.0]), tol=1e-6)
        check_paths(c, kind, got, paths)
    return body


def check_paths(c, kind, got, mine):
    n = DIM[kind]
    order = S2 if n == 2 else S3
    c.true('one sample per integration point', len(got) == len(mine))
    for g in got:
        c.true('component orders', tuple(g['strain_comps_order']) == order and tuple(g['stress_comps_order']) == order)
        c.true('time', tuple(g['time_hist'].shape) == (2, 1))
    if kind != 'quad4':
        v = lambda x: torch.stack([x[int(o[0]) - 1, int(o[1]) - 1] for o in order])
        for g, (eps, sig) in zip(got, mine):
            for t in range(2):
                c.eq('strain path', g['strain_path'][t], v(eps[t]), tol=1e-6)
                c.eq('stress path', g['stress_path'][t], v(sig[t]), tol=1e-6)
    else:
        # integration points in any order: compare the sums per element
        for e in range(len(mine) // 4):
            for t in range(2):
                for key, w in (('strain_path', 0), ('stress_path', 1)):
                    tot = sum(g[key][t] for g in got[4 * e:4 * e + 4])
                    want = sum(torch.stack([m[w][t][int(o[0]) - 1, int(o[1]) - 1] for o in order]) for m in mine[4 * e:4 * e + 4])
                    c.eq(key, tot, want, tol=1e-6)


def models(kind, mode, model):
    """with a material model of the library (kept elastic)"""
    def body(c):
        nn, n = len(MESH[kind][0]), DIM[kind]
        u = torch.stack([torch.zeros((nn, n)), c.real('u', (nn, n), -0.002, 0.002)], dim=2)
        r = c.real('r', (nn, n, 2), -10, 10)
        bc = dofs(kind)
        f = finder(c, kind, u, r, bc, model=model)
        ref, _ = forces(kind, torch.tensor(MESH[kind][0]), MESH[kind][1], u, lambda eps: [hooke(e) for e in eps])
        c.eq('loss', f(sequential_mode=mode).reshape(()), pointwise(ref, r, bc, [1.0, 1.0]), tol=1e-6)
    return body


def conventional(kind, mode, nt):
    """materials integrated point by point, element by element or time by time"""
    def body(c):
        u, r = data(c, kind, nt)
        w = c.real('w', (nt,), 0, 2)
        s = c.real('s', (), 0.1, 10)
        bc = dofs(kind)
        keep = (u.clone(), r.clone())
        got = []
        with mock.patch.object(md, 'save_dataset', lambda ds, *a, **q: got.extend([ds[i] for i in range(len(ds))])):
            f = finder(c, kind, u, r, bc, w, s, model='conventional',
                       **({} if mode == 'sequential_time' else {'is_store_local_paths': True, 'local_paths_elements': [1, 2]}))
            val = f(sequential_mode=mode)
        ref, paths = refer(kind, u)
        c.eq('loss is the weighted squared residual', val.reshape(()), s * pointwise(ref, r, bc, w), tol=1e-6)
        c.eq('displacements untouched', u, keep[0])
        c.eq('reactions untouched', r, keep[1])
        if mode != 'sequential_time' and nt == 2:
            check_paths(c, kind, got, paths)
        c.raises('unknown mode', RuntimeError, f, sequential_mode='other')
    return body


def cases(tier):
    out = [Case('mesh configuration history', configuration)]
    nt = 2 if tier == 'quick' else 3
    for kind in MESH:
        t = 3 if kind == 'tri3' else (nt if kind != 'tetra4' else 2)
        for mode in MODES:
            out.append(Case(f'{kind} {mode} loss', loss(kind, mode, t),
                            bounds=f'{t} time steps, displacements in [-0.1,0.1]'))
            out.append(Case(f'{kind} {mode} plain', plain(kind, mode)))
            out.append(Case(f'{kind} {mode} imbalance', zero(kind, mode)))
            for sym in (True, False):
                out.append(Case(f'{kind} {mode} {"symmetric" if sym else "general"} force normalisation', normalised(kind, mode, sym)))
            out.append(Case(f'{kind} {mode} local paths', samples(kind, mode)))
            for which in ('i', 'o', 'io'):
                out.append(Case(f'{kind} {mode} scaled material {which}', scaled(kind, mode, which)))
        for mode in ('sequential_element', 'sequential_time'):
            out.append(Case(f'{kind} {mode} point by point', conventional(kind, mode, t)))
        out.append(Case(f'{kind} sequential_element elastic', models(kind, 'sequential_element', 'elastic')))
        if tier != 'quick' and kind != 'quad4':
            out.append(Case(f'{kind} sequential_element_vmap von Mises', models(kind, 'sequential_element_vmap', 'von_mises_vmap'),
                            {'tiny': '1e-7', 'cost': 5}))
        out.append(Case(f'{kind} Dirichlet sets', sets(kind, nt)))
        for l in ('pointwise', 'dirichlet_sets'):
            out.append(Case(f'{kind} {l} loss history', history(kind, l)))
            out.append(Case(f'{kind} {l} loss history, normalised', history(kind, l, True)))
    return out
