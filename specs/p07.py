"""Element internal forces"""
import torch
from .common import *
from .elements import ELEMENTS, PARENT, DIM, PROBLEM, NGAUSS
from simulators.fetorch.element.integrations.internal_forces import compute_element_internal_forces
from simulators.fetorch.element.derivatives.gradients import eval_shapefun_deriv
from simulators.fetorch.element.derivatives.jacobian import eval_jacobian
from simulators.fetorch.material.models.standard.elastic import Elastic

OUTSIDE = ('singular element maps; geometries are the parent element with one freely moved node, and '
           'fully free nodes for the 3- and 4-node plane elements; material: isotropic elasticity '
           '(other materials enter through the material point, see P12-P17)')


def elastic(dim, E=200.0, v=0.25):
    return Elastic('infinitesimal', PROBLEM[dim], {'elastic_symmetry': 'isotropic', 'E': E, 'v': v})


class Affine:
    """material point with a free stress for each call (records what it was given)"""
    def __init__(self, c, dim):
        self.c, self.k, self.dim = c, 0, dim
        self.stress, self.inc = [], []

    def get_strain_type(self):
        return 'infinitesimal'

    def state_update(self, inc, old):
        self.k += 1
        s = self.c.real(f'sig{self.k}', (len(S2 if self.dim == 2 else S3),), -10, 10)
        self.stress.append(s)
        self.inc.append((inc, old))
        return {'stress_mf': s}, None


def geometry(c, name, free=True):
    d, par = DIM[name], torch.tensor(PARENT[name])
    n = par.shape[0]
    if d == 2 and n <= 4 and free:
        return c.real('X', (n, d), -5, 5)
    X = par.clone()
    X[n - 1] = X[n - 1] + c.real('m', (d,), -0.25, 0.25)
    return X


def virtual_work(name, ng):
    """f.w = sum_g weight * |J| * stress_g : sym grad(w) for arbitrary Gauss-point stresses"""
    d = DIM[name]

    def body(c):
        el = ELEMENTS[name](n_gauss=ng)
        n = el.get_n_node()
        X = geometry(c, name)
        u = c.real('u', (n, d), -2, 2)
        w = c.real('w', (n, d), -2, 2)
        mat = Affine(c, d)
        gp, gw = el.get_gauss_integration_points()
        refs = []
        for g in range(ng):
            c.assume_ne0(eval_jacobian(el, X, gp[str(g + 1)])[1])
            D, _, det = eval_shapefun_deriv(el, X, gp[str(g + 1)])
            refs.append((D, det, gw[str(g + 1)]))
        old = {str(g + 1): {'tag': torch.tensor(float(g))} for g in range(ng)}
        f, st = compute_element_internal_forces('infinitesimal', PROBLEM[d], el, mat, old, X, u, u)
        c.true('one update per Gauss point', mat.k == ng and sorted(st) == sorted(old))
        W = torch.zeros(())
        o = S2 if d == 2 else S3
        for g, (D, det, wt) in enumerate(refs):
            H = torch.matmul(w.t(), D)
            e = 0.5 * (H + H.t())
            W = W + wt * det * dd(unkelvin(mat.stress[g], o, d), e)
            Hu = torch.matmul(u.t(), D)
            inc, od = mat.inc[g]
            c.eq('strain handed to the material', inc, 0.5 * (Hu + Hu.t()))
            c.eq('old state of this Gauss point', od['tag'], torch.tensor(float(g)))
            c.eq('state of this Gauss point', st[str(g + 1)]['stress_mf'], mat.stress[g])
        c.eq('virtual work', (f * w.reshape(-1)).sum(), W)
        fn = f.reshape(n, d)
        c.eq('force balance', fn.sum(0), torch.zeros(d))
        mom = []
        for i in range(d):
            for j in range(i):
                mom.append((X[:, i] * fn[:, j] - X[:, j] * fn[:, i]).sum())
        c.eq('moment balance', torch.stack(mom), torch.zeros(len(mom)))
    return body


def forces(name, ng):
    """elastic element"""
    d = DIM[name]

    def body(c):
        el = ELEMENTS[name](n_gauss=ng)
        n = el.get_n_node()
        X = geometry(c, name, free=(n == 3))
        A = c.real('A', (d, d), -1, 1)
        b = c.real('b', (d,), -1, 1)
        mat = elastic(d)
        gp, gw = el.get_gauss_integration_points()
        vol = torch.zeros(n, d)
        for g in range(ng):
            c.assume_ne0(eval_jacobian(el, X, gp[str(g + 1)])[1])
            D, _, det = eval_shapefun_deriv(el, X, gp[str(g + 1)])
            vol = vol + gw[str(g + 1)] * det * D
        u = torch.matmul(X, A.t()) + b
        old = {str(g + 1): mat.state_init() for g in range(ng)}
        f, st = compute_element_internal_forces('infinitesimal', PROBLEM[d], el, mat, old, X, u, u)
        e = 0.5 * (A + A.t())
        E, v = 200.0, 0.25
        lam, mu = E * v / ((1 + v) * (1 - 2 * v)), E / (2 * (1 + v))
        s = 2 * mu * e + lam * tr(e) * torch.eye(d)
        o = S2 if d == 2 else S3
        for g in range(ng):
            c.eq('uniform stress under an affine field', st[str(g + 1)]['stress_mf'], kelvin(s, o), tol=1e-6)
            c.eq('old state untouched', old[str(g + 1)]['stress_mf'], torch.zeros(len(o)))
            c.eq('old strain untouched', old[str(g + 1)]['strain_mf'], torch.zeros(len(o)))
        c.eq('patch forces', f.reshape(n, d), torch.matmul(vol, s), tol=1e-6)
    return body


def gaussindep(c):
    """each Gauss point continues from its own old state"""
    el = ELEMENTS['quad4'](n_gauss=4)
    mat = elastic(2)
    X = torch.tensor(PARENT['quad4'])
    u = c.real('u', (4, 2), -1, 1)
    old = {}
    es = []
    for g in range(4):
        s = mat.state_init()
        s['e_strain_mf'] = c.real(f'e{g}', (3,), -1, 1)
        es.append(s['e_strain_mf'].clone())
        old[str(g + 1)] = s
    f, st = compute_element_internal_forces('infinitesimal', 1, el, mat, old, X, u, u)
    for g in range(4):
        D, _, _ = eval_shapefun_deriv(el, X, el.get_gauss_integration_points()[0][str(g + 1)])
        H = torch.matmul(u.t(), D)
        c.eq('accumulated strain', st[str(g + 1)]['e_strain_mf'], es[g] + kelvin(0.5 * (H + H.t()), S2))
        c.eq('old state untouched', old[str(g + 1)]['e_strain_mf'], es[g])
    c.raises('finite strains rejected', RuntimeError, compute_element_internal_forces,
             'finite', 1, el, mat, old, X, u, u)


def cases(tier):
    out = [Case('Gauss-point histories', gaussindep, bounds='quad4, 4 points, strains in [-1,1]')]
    for n in ELEMENTS:
        ngs = NGAUSS[n] if tier == 'thorough' or n != 'hexa20' else (8,)
        for ng in ngs:
            big = n in ('hexa8', 'hexa20', 'tetra10')
            o = {'let_limit': None, 'nf_limit': 300000, 'raw_s': 3, 'cost': 50 if big else 10}
            out.append(Case(f'{n} {ng}pt virtual work', virtual_work(n, ng), dict(o),
                            bounds='see outside_bounds'))
            out.append(Case(f'{n} {ng}pt elastic patch', forces(n, ng), dict(o),
                            bounds='see outside_bounds'))
    return out
