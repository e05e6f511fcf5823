"""Shape functions of every element type"""
import itertools
import torch
from .common import *
from .elements import ELEMENTS, PARENT, quadratic

OUTSIDE = 'nothing: the statement is polynomial and holds for every local coordinate'


def shape(name):
    def body(c):
        el = ELEMENTS[name]()
        n, d = el.get_n_node(), el.get_n_dof_node()
        nodes = torch.tensor(PARENT[name])
        c.true('number of nodes', n == nodes.shape[0] and d == nodes.shape[1])
        x = c.real('x', (d,))
        N, D = c.jac(el.eval_shapefun, x)
        c.true('shape', tuple(N.shape) == (n,))
        c.eq('partition of unity', N.sum(), torch.ones(()))
        c.eq('linear completeness', torch.matmul(N, nodes), x)
        G = el.eval_shapefun_local_deriv(x)
        c.eq('local derivatives', G, D, tol=1e-5)
        c.eq('derivatives sum to zero', G.sum(0), torch.zeros(d))
        if quadratic(name):
            # any quadratic field is reproduced from its nodal values
            for e in itertools.combinations_with_replacement(range(d), 2):
                q = nodes[:, e[0]] * nodes[:, e[1]]
                c.eq('quadratic completeness', torch.matmul(N, q), x[e[0]] * x[e[1]])
        for k in range(n):
            v = el.eval_shapefun(nodes[k])
            c.eq('Kronecker property', v, torch.eye(n)[k])
    return body


def interp(name):
    """interpolated field at a node equals the nodal value, for any nodal values"""
    def body(c):
        el = ELEMENTS[name]()
        u = c.real('u', (el.get_n_node(),))
        for k in range(el.get_n_node()):
            N = el.eval_shapefun(torch.tensor(PARENT[name])[k])
            c.eq('nodal interpolation', torch.matmul(N, u), u[k])
        el.check_shape_functions_properties()
    return body


def cases(tier):
    out = []
    for n in ELEMENTS:
        out.append(Case(f'{n} shape functions', shape(n), bounds='all local coordinates'))
        out.append(Case(f'{n} nodal interpolation', interp(n), bounds='all nodal values'))
    return out
