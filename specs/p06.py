"""Isoparametric map, gradients and discrete gradient operators"""
import torch
from .common import *
from .elements import ELEMENTS, PARENT, DIM, PROBLEM, NGAUSS
from simulators.fetorch.element.derivatives import jacobian as jc, gradients as gr
from simulators.fetorch.element.integrations.internal_forces import (
    compute_infinitesimal_inc_strain, compute_infinitesimal_strain)

OUTSIDE = ('singular element maps; for 3D elements the affine-field test uses affinely mapped '
           'elements with one freely moved node')


def leib(J):
    if J.shape[0] == 2:
        return J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
    return (J[0, 0] * (J[1, 1] * J[2, 2] - J[1, 2] * J[2, 1])
            - J[0, 1] * (J[1, 0] * J[2, 2] - J[1, 2] * J[2, 0])
            + J[0, 2] * (J[1, 0] * J[2, 1] - J[1, 1] * J[2, 0]))


def jac(name):
    d = DIM[name]

    def body(c):
        el = ELEMENTS[name]()
        n = el.get_n_node()
        X = c.real('X', (n, d))
        x = c.real('x', (d,)) if n <= 8 else torch.tensor([0.25, -0.5, 0.125][:d])
        J, det, G = jc.eval_jacobian(el, X, x)
        c.eq('local derivatives returned', G, el.eval_shapefun_local_deriv(x))
        ref = torch.stack([torch.stack([sum(G[k, i] * X[k, j] for k in range(n))
                                        for j in range(d)]) for i in range(d)])
        c.eq('jacobian', J, ref)
        c.eq('determinant', det, leib(J))
    return body


def inverse(name):
    d = DIM[name]

    def body(c):
        el = ELEMENTS[name]()
        n = el.get_n_node()
        if n == 20:
            # nodes 5..12 move freely, the others stay at the parent positions
            X = torch.tensor(PARENT[name])
            X[4:12] = X[4:12] + c.real('X', (8, d), -2, 2)
        else:
            X = c.real('X', (n, d), -5, 5)
        x = c.real('x', (d,), -1, 1) if d == 2 and n <= 4 else torch.tensor([0.25, -0.5, 0.125][:d])
        J, det, G = jc.eval_jacobian(el, X, x)
        c.assume_ne0(det)
        D, J2, det2 = gr.eval_shapefun_deriv(el, X, x)
        c.eq('same jacobian', J2, J)
        c.eq('same determinant', det2, det)
        c.eq('chain rule', torch.matmul(J, D.t()), G.t())
    return body


def affine(name):
    """the gradient of an affine field is exact"""
    d = DIM[name]

    def body(c):
        el = ELEMENTS[name]()
        n = el.get_n_node()
        par = torch.tensor(PARENT[name])
        if d == 2 and n <= 4:
            X = c.real('X', (n, d), -5, 5)
            x = c.real('x', (d,), -1, 1)
        else:
            # parent element with one freely moved node
            X = par.clone()
            k = n - 1
            X[k] = X[k] + c.real('m', (d,), -1, 1)
            x = c.real('x', (d,), -1, 1) if d == 2 else torch.tensor([0.25, 0.5, 0.125])
        A = c.real('A', (d, d))
        b = c.real('b', (d,))
        u = torch.matmul(X, A.t()) + b
        J, det, G = jc.eval_jacobian(el, X, x)
        c.assume_ne0(det)
        D, _, _ = gr.eval_shapefun_deriv(el, X, x)
        c.eq('gradient of an affine field', torch.matmul(u.t(), D), A)
    return body


def operators(name):
    """discrete operators applied to nodal displacements"""
    d = DIM[name]

    def body(c):
        n = ELEMENTS[name]().get_n_node()
        D = c.real('D', (n, d))
        u = c.real('u', (n, d))
        H = torch.matmul(u.t(), D)
        so = S2 if d == 2 else S3
        no = N2 if d == 2 else N3
        B = gr.build_discrete_sym_gradient(D, so)
        Bv = gr.vbuild_discrete_sym_gradient(D, so)
        c.eq('loop=vectorised symmetric', B, Bv)
        g = gr_apply(Bv, u)
        c.eq('strain operator (total)', compute_infinitesimal_strain(Bv, u), g)
        c.eq('strain operator (incremental)', compute_infinitesimal_inc_strain(Bv, u), g)
        for k, o in enumerate(so):
            i, j = int(o[0]) - 1, int(o[1]) - 1
            c.eq('engineering strain', g[k], H[i, i] if i == j else H[i, j] + H[j, i])
        Gm = gr.build_discrete_gradient(D, no)
        Gv = gr.vbuild_discrete_gradient(D, no)
        c.eq('loop=vectorised full', Gm, Gv)
        g = gr_apply(Gv, u)
        for k, o in enumerate(no):
            i, j = int(o[0]) - 1, int(o[1]) - 1
            c.eq('displacement gradient', g[k], H[i, j])
    return body


def gr_apply(B, u):
    return torch.matmul(B, u.reshape(-1))


def rigid(name):
    """rigid motion (small) gives no strain"""
    d = DIM[name]

    def body(c):
        el = ELEMENTS[name]()
        n = el.get_n_node()
        par = torch.tensor(PARENT[name])
        if d == 2 and n <= 4:
            X = c.real('X', (n, d), -5, 5)
        else:
            X = par.clone()
            X[n - 1] = X[n - 1] + c.real('m', (d,), -1, 1)
        x = c.real('x', (d,), -1, 1) if d == 2 else torch.tensor([0.25, 0.5, 0.125])
        w = c.real('w', (3,))
        b = c.real('b', (d,))
        z = torch.zeros(())
        W = torch.stack([torch.stack([z, -w[2], w[1]]), torch.stack([w[2], z, -w[0]]),
                         torch.stack([-w[1], w[0], z])])[:d, :d]
        u = torch.matmul(X, W.t()) + b
        J, det, G = jc.eval_jacobian(el, X, x)
        c.assume_ne0(det)
        D, _, _ = gr.eval_shapefun_deriv(el, X, x)
        so = S2 if d == 2 else S3
        e = compute_infinitesimal_strain(gr.vbuild_discrete_sym_gradient(D, so), u)
        c.eq('no strain under rigid motion', e, torch.zeros(len(so)))
    return body


def expand(c):
    for n in (3, 4):
        B2 = c.real(f'B{n}', (3, 2 * n))
        B3 = gr.vexpand_grad_operator_sym_2d_to_3d(B2)
        c.true('shape', tuple(B3.shape) == (6, 3 * n))
        c.eq('round trip', gr.vreduce_grad_operator_sym_3d_to_2d(B3), B2)
        u = c.real(f'u{n}', (n, 2))
        w = c.real(f'w{n}', (n, 1))
        e2 = torch.matmul(B2, u.reshape(-1))
        e3 = torch.matmul(B3, torch.cat((u, w), dim=1).reshape(-1))
        for k, o in enumerate(S3):
            c.eq('expanded strain', e3[k], e2[S2.index(o)] if o in S2 else torch.zeros(()))


def detcheck(c):
    """a non-positive determinant is reported when the check is requested"""
    el = ELEMENTS['tri3']()
    X = c.real('X', (3, 2), -3, 3)
    x = torch.tensor([0.25, 0.25])
    _, det, _ = jc.eval_jacobian(el, X, x)
    try:
        jc.eval_jacobian(el, X, x, is_check_det=True)
        ok = True
    except RuntimeError:
        ok = False
    if ok:
        c.le('accepted implies positive', torch.zeros(()), det)
    else:
        c.le('rejected implies non-positive', det, torch.zeros(()))


def cases(tier):
    out = []
    for n in ELEMENTS:
        o = {'let_limit': 6, 'noraw': False}
        out.append(Case(f'{n} jacobian', jac(n), {'let_limit': 6, 'cost': 5},
                        bounds='all nodal coordinates'))
        out.append(Case(f'{n} chain rule', inverse(n), {'let_limit': None, 'nf_limit': 200000, 'raw_s': 3, 'cost': 20},
                        bounds='nodal coordinates in [-5,5] (20-node brick: 8 free nodes), '
                               'det != 0; local point free for 3/4-node plane elements'))
        out.append(Case(f'{n} operators', operators(n), bounds='all gradients and displacements'))
        if n != 'hexa20' or tier == 'thorough':
            out.append(Case(f'{n} affine field', affine(n), {'cost': 9}, bounds='see OUTSIDE'))
            out.append(Case(f'{n} rigid motion', rigid(n), {'cost': 9}, bounds='see OUTSIDE'))
    out.append(Case('2D/3D expansion', expand, bounds='3 and 4 nodes'))
    out.append(Case('determinant check', detcheck, bounds='triangle, coordinates in [-3,3]'))
    return out
