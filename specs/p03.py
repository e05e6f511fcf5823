"""Tensor operators and identity tensors"""
import itertools
import torch
from .common import *
from simulators.fetorch.math import tensorops as to

OUTSIDE = 'tensor dimensions other than 2 and 3'


def st(n, f, order):
    def rec(idx):
        if len(idx) == order:
            return f(*idx)
        return torch.stack([rec(idx + (i,)) for i in range(n)])
    return rec(())


def small(n):
    def body(c):
        a, b = c.real('a', (n,)), c.real('b', (n,))
        A, B = c.real('A', (n, n)), c.real('B', (n, n))
        R = range(n)
        S = sum
        c.eq('dyad11', to.dyad11(a, b), st(n, lambda i, j: a[i] * b[j], 2))
        c.eq('dyad22_1', to.dyad22_1(A, B), st(n, lambda i, j, k, l: A[i, j] * B[k, l], 4))
        c.eq('dyad22_2', to.dyad22_2(A, B), st(n, lambda i, j, k, l: A[i, k] * B[j, l], 4))
        c.eq('dyad22_3', to.dyad22_3(A, B), st(n, lambda i, j, k, l: A[i, l] * B[j, k], 4))
        c.eq('dot21_1', to.dot21_1(A, b), st(n, lambda i: S(A[i, j] * b[j] for j in R), 1))
        c.eq('dot12_1', to.dot12_1(a, B), st(n, lambda j: S(a[i] * B[i, j] for i in R), 1))
        c.eq('ddot22_1', to.ddot22_1(A, B), (A * B).sum())
        for i in R:
            for j in R:
                c.true('kronecker', to.dd(i, j) == (1 if i == j else 0))
    return body


def fourth(n, which):
    def body(c):
        F, A = c.real('F', (n, n, n, n)), c.real('A', (n, n))
        R = range(n)
        S = sum
        ref = {
            'dot42_1': lambda i, j, k, l: S(F[i, j, k, m] * A[l, m] for m in R),
            'dot42_2': lambda i, j, k, l: S(F[i, p, k, l] * A[j, p] for p in R),
            'dot42_3': lambda i, j, k, l: S(F[i, j, k, m] * A[m, l] for m in R),
            'dot24_1': lambda i, j, k, l: S(A[i, m] * F[m, j, k, l] for m in R),
            'dot24_2': lambda i, j, k, l: S(A[j, m] * F[i, m, k, l] for m in R),
            'dot24_3': lambda i, j, k, l: S(A[k, m] * F[i, j, m, l] for m in R),
            'dot24_4': lambda i, j, k, l: S(A[l, m] * F[i, j, k, m] for m in R),
        }
        if which in ref:
            f = getattr(to, which)
            r = f(F, A) if which.startswith('dot42') else f(A, F)
            c.eq(which, r, st(n, ref[which], 4))
        elif which == 'ddot':
            c.eq('ddot42_1', to.ddot42_1(F, A),
                 st(n, lambda i, j: S(F[i, j, k, l] * A[k, l] for k in R for l in R), 2))
            c.eq('ddot24_1', to.ddot24_1(A, F),
                 st(n, lambda i, j: S(A[k, l] * F[k, l, i, j] for k in R for l in R), 2))
        else:
            G = c.real('G', (n, n, n, n))
            c.eq('ddot44_1', to.ddot44_1(F, G),
                 st(n, lambda i, j, k, l: S(F[i, j, p, q] * G[p, q, k, l]
                                            for p in R for q in R), 4))
    return body


def ident(n):
    def body(c):
        a = c.real('a', (n, n))
        soid, foid, fotransp, fosym, fodiag, fodev, fodevsym = to.get_id_operators(n)
        ap = lambda f: st(n, lambda i, j: (f[i, j] * a).sum(), 2)
        sy = 0.5 * (a + a.t())
        c.eq('second-order identity', torch.matmul(soid, a), a)
        c.eq('fourth-order identity', ap(foid), a)
        c.eq('transposition', ap(fotransp), a.t())
        c.eq('symmetric projection', ap(fosym), sy)
        c.eq('diagonal trace', ap(fodiag), tr(a) * torch.eye(n))
        c.eq('deviatoric projection', ap(fodev), a - tr(a) / 3.0 * torch.eye(n))
        c.eq('symmetric deviatoric projection', ap(fodevsym), sy - tr(a) / 3.0 * torch.eye(n))
        if n == 3:
            c.eq('deviator is trace free', tr(ap(fodevsym)), torch.zeros(()))
    return body


def dinv(n):
    def body(c):
        # derivative of the inverse of a symmetric tensor along a symmetric direction
        t = symt(c, 't', n, -3, 3)
        e = symt(c, 'e', n, -1, 1)
        d = torch.det(t)
        c.assume(d * d >= 0.01)
        inv = torch.inverse(t)
        D = to.fo_dinv_sym(inv)
        got = st(n, lambda i, j: (D[i, j] * e).sum(), 2)
        c.eq('derivative of the inverse', got, -torch.matmul(inv, torch.matmul(e, inv)))
    return body


def cases(tier):
    out = []
    for n in (2, 3):
        out.append(Case(f'vector/matrix products n={n}', small(n), bounds='all real operands'))
        out.append(Case(f'identity operators n={n}', ident(n), bounds='all real operands'))
        for w in ('dot42_1', 'dot42_2', 'dot42_3', 'dot24_1', 'dot24_2', 'dot24_3', 'dot24_4',
                  'ddot', 'ddot44'):
            if n == 3 and w == 'ddot44' and tier == 'quick':
                continue
            out.append(Case(f'{w} n={n}', fourth(n, w), bounds='all real operands'))
        out.append(Case(f'inverse derivative n={n}', dinv(n),
                        bounds='|det|>=0.1, entries in [-3,3]'))
    return out
