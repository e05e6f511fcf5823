"""shared helpers of the specifications (plain torch, no repository code)"""
import contextlib
import torch
from unittest import mock
from symtorch.drive import Case

S2 = ('11', '22', '12')
N2 = ('11', '21', '12', '22')
S3 = ('11', '22', '33', '12', '23', '13')
N3 = ('11', '21', '31', '12', '22', '32', '13', '23', '33')
ORDERS = {('sym', 2): S2, ('nsym', 2): N2, ('sym', 3): S3, ('nsym', 3): N3}
RT2 = 2.0 ** 0.5


def symt(c, name, n, lo=None, hi=None):
    """symmetric second-order tensor with free components"""
    v = c.real(name, (n * (n + 1) // 2,), lo, hi)
    rows, k, idx = [], 0, {}
    for i in range(n):
        for j in range(i, n):
            idx[i, j] = idx[j, i] = k
            k += 1
    return torch.stack([torch.stack([v[idx[i, j]] for j in range(n)]) for i in range(n)])


def minor_sym4(c, name, n, lo=None, hi=None):
    """fourth-order tensor with minor symmetries, free components"""
    m = n * (n + 1) // 2
    v = c.real(name, (m, m), lo, hi)
    k, idx = 0, {}
    for i in range(n):
        for j in range(i, n):
            idx[i, j] = idx[j, i] = k
            k += 1
    return torch.stack([torch.stack([torch.stack([torch.stack(
        [v[idx[i, j], idx[k, l]] for l in range(n)]) for k in range(n)])
        for j in range(n)]) for i in range(n)])


def kelvin(t, order):
    """reference Kelvin vector of a symmetric tensor"""
    out = []
    for o in order:
        i, j = int(o[0]) - 1, int(o[1]) - 1
        out.append(t[i, j] if i == j else t[i, j] * RT2)
    return torch.stack(out)


def unkelvin(v, order, n):
    m = {}
    for k, o in enumerate(order):
        i, j = int(o[0]) - 1, int(o[1]) - 1
        x = v[k] if i == j else v[k] / RT2
        m[i, j] = m[j, i] = x
    return torch.stack([torch.stack([m[i, j] for j in range(n)]) for i in range(n)])


def dd(a, b):
    return (a * b).sum()


def tr(a):
    s = a[0, 0]
    for i in range(1, a.shape[0]):
        s = s + a[i, i]
    return s


def dev(a):
    n = a.shape[0]
    return a - tr(a) / 3.0 * torch.eye(n)


def embed(a2, a33=None):
    """3x3 tensor from an in-plane 2x2 tensor"""
    z = torch.zeros(())
    w = z if a33 is None else a33
    return torch.stack([torch.stack([a2[0, 0], a2[0, 1], z]),
                        torch.stack([a2[1, 0], a2[1, 1], z]),
                        torch.stack([z, z, w])])


@contextlib.contextmanager
def sym_numpy(c, *modules, **over):
    """numpy as seen by the given modules can hold symbolic values (symbolic mode only)"""
    with contextlib.ExitStack() as st:
        for m in modules:
            if c.symbolic or over:
                from symtorch.npx import NP, Plain
                st.enter_context(mock.patch.object(m, 'np', (NP if c.symbolic else Plain)(**over)))
        yield
