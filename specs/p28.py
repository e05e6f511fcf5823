"""P28: stochastic patch deformation generator (data_generation/spdg)"""
import contextlib
import types
from unittest import mock
import itertools
import numpy as np
import data_generation.spdg.patch_generator as pg
import data_generation.spdg.patch as pt
from simulators.links.discretization.finite_element import FiniteElement
from symtorch.drive import Case
from specs.common import sym_numpy
from specs.rng import Rng

OUTSIDE = ('patches of up to three elements per direction, sizes 0.5 to 4; the polyline that measures curved edges has two to five points '
           'instead of 1000; answers of shapely are arbitrary; general corner draws of 3D patches (products of 24 draws); 3D edges of order '
           'zero sharing a corner; edge noise of patches that are not square')
RES = 1000        # polyline points used by the generator to measure an edge
EDGE_NODES = {'SQUAD4': 2, 'SQUAD8': 3, 'SQUAD12': 4, 'LQUAD4': 2, 'LQUAD9': 3, 'LQUAD16': 4,
              'SHEXA8': 2, 'SHEXA20': 3}
N_NODES = {'SQUAD4': 4, 'SQUAD8': 8, 'SQUAD12': 12, 'LQUAD4': 4, 'LQUAD9': 9, 'LQUAD16': 16,
           'SHEXA8': 8, 'SHEXA20': 20}


def _shrink(code, n):
    consts = tuple(n if type(k) is int and k == RES else _shrink(k, n) if isinstance(k, types.CodeType) else k
                   for k in code.co_consts)
    return code.replace(co_consts=consts)


@contextlib.contextmanager
def resolution(n):
    """the edge measuring polyline has n points instead of 1000"""
    undo = []
    for own in (pg, pg.FiniteElementPatchGenerator):
        for k, f in list(vars(own).items()):
            f = getattr(f, '__func__', f)
            if isinstance(f, types.FunctionType) and f.__module__ == pg.__name__:
                undo.append((f, f.__code__))
                f.__code__ = _shrink(f.__code__, n)
    num = [k for k, v in vars(pg).items() if type(v) is int and v == RES]
    try:
        with contextlib.ExitStack() as st:
            for k in num:
                st.enter_context(mock.patch.object(pg, k, n))
            yield
    finally:
        for f, code in undo:
            f.__code__ = code


class Shape:
    """stand-in of shapely: the polygons it is asked about, with free answers"""

    def __init__(self, c, free=False):
        self.c, self.free, self.polys, self.verdict = c, free, [], {}
        self.geometry = self
        self.cen = None

    def Polygon(self, coords):
        s = self
        if self.cen is None:
            self.cen = self.c.npreal('centroid', (2,), -2, 2)
        self.polys.append(coords)

        class P:
            @property
            def is_valid(p):
                return s.ask('valid', coords)

            exterior = property(lambda p: types.SimpleNamespace(is_ccw=s.ask('ccw', coords)))
            centroid = types.SimpleNamespace(coords=[(self.cen[0], self.cen[1])], x=self.cen[0], y=self.cen[1])
        return P()

    def ask(self, what, coords):
        if not self.free:
            return True
        k = (what, self.attempt)
        if k not in self.verdict:
            self.verdict[k] = self.c.flag(f'{what}{self.attempt}')
        return self.verdict[k]


def world(c, n=5, free=False, rng=None):
    st = contextlib.ExitStack()
    rng = rng or Rng(c)
    sh = Shape(c, free)
    st.enter_context(sym_numpy(c, pg, pt, random=rng))
    st.enter_context(mock.patch.object(pg, 'shapely', sh))
    st.enter_context(resolution(n))
    return st, sh, rng


def grid(n_dim, dims, elem, ne):
    """reference positions of the nodes of a structured mesh, by grid index"""
    k = EDGE_NODES[elem] - 1
    out = {}
    for ix in itertools.product(*[range(n * k + 1) for n in ne]):
        rem = [i % k for i in ix]
        inner = sum(1 for r in rem if r)
        if elem[0] == 'S' and inner > 1:
            continue
        out[ix] = [dims[d] * (ix[d] / (k * ne[d])) for d in range(n_dim)]
    return out


def corner_ix(n_dim, last):
    if n_dim == 2:
        c = [(0, 0), (1, 0), (1, 1), (0, 1)]
    else:
        c = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    return [tuple(l if x else 0 for x, l in zip(v, last)) for v in c]


def fixed_range(n_dim, u):
    return {str(i + 1): tuple((x, x) for x in v) for i, v in enumerate(u)}


def mesh_claims(c, patch, n_dim, dims, elem, ne):
    ref = grid(n_dim, dims, elem, ne)
    m = patch.get_mesh_nodes_matrix()
    last = [n * (EDGE_NODES[elem] - 1) for n in ne]
    c.true('mesh size', tuple(m.shape) == tuple(l + 1 for l in last))
    xy = patch.get_mesh_nodes_coords_ref()
    labels = sorted(int(v) for v in m.reshape(-1) if v != 0)
    c.true('labels', labels == list(range(1, len(ref) + 1)) and set(xy) == {str(l) for l in labels})
    for ix in itertools.product(*[range(l + 1) for l in last]):
        c.true('node exists', (m[ix] != 0) == (ix in ref))
        if ix in ref:
            for d in range(n_dim):
                c.eq('position', xy[str(m[ix])][d], ref[ix][d])
    b = {int(m[ix]) for ix in ref if any(i in (0, l) for i, l in zip(ix, last))}
    c.true('boundary nodes', set(int(v) for v in patch.get_boundary_nodes_labels()) == b)
    c.true('displacements on the whole boundary', set(patch.get_mesh_boundary_nodes_disps()) == {str(v) for v in b})
    c.true('edge nodes', tuple(patch.get_n_edge_nodes_per_dim()) == tuple(m.shape))
    for d, v in enumerate(patch.get_elem_size_dims()):
        c.eq('element size', v * ne[d], dims[d])
    c.true('attributes', patch.get_n_dim() == n_dim and patch.get_elem_type() == elem
           and tuple(patch.get_n_elems_per_dim()) == tuple(ne))
    return m, ref, last


def mesh(elem, ne):
    n_dim = len(ne)

    def body(c):
        dims = tuple(c.npreal('dims', (n_dim,), 0.5, 4))
        st, sh, rng = world(c)
        with st:
            g = pg.FiniteElementPatchGenerator(n_dim, dims)
            ok, patch = g.generate_deformed_patch(elem, ne)
            c.true('admissible', bool(ok))
            m, ref, last = mesh_claims(c, patch, n_dim, dims, elem, ne)
            for k, u in patch.get_mesh_boundary_nodes_disps().items():
                for d in range(n_dim):
                    c.eq('undeformed', u[d], 0.0)
            if n_dim == 2:
                con = {frozenset((int(a), int(b))) for a, b in patch.get_mesh_connected_nodes()}
                exp = set()
                for ix in ref:
                    for d in range(2):
                        jx = tuple(i + (k == d) for k, i in enumerate(ix))
                        if jx in ref:
                            exp.add(frozenset((int(m[ix]), int(m[jx]))))
                c.true('connected', con == exp)
    return body


def elements(c):
    for e, n in N_NODES.items():
        f = FiniteElement(e)
        m = f.get_nodes_matrix()
        c.true('dimension', f.get_n_dim() == m.ndim and tuple(m.shape) == m.ndim * (EDGE_NODES[e],))
        c.true('nodes', f.get_n_nodes() == n and f.get_n_edge_nodes() == EDGE_NODES[e])
        c.true('labels once', sorted(int(v) for v in m.reshape(-1) if v) == list(range(1, n + 1)))
        for l in range(1, n + 1):
            c.true('index', int(m[f.get_node_label_index(l)]) == l)
        c.raises('label', RuntimeError, f.get_node_label_index, n + 1)
    c.raises('element', RuntimeError, FiniteElement, 'SQUAD5')


def linear2(elem, ne, free):
    """corners moved, edges kept straight: nodes stay evenly spaced on the straight edges"""
    def body(c):
        dims = (2.0, 1.0)
        u = np.zeros((4, 2), dtype=object)
        for i, d in free:
            u[i, d] = c.npreal(f'u{i}{d}', (1,), -0.3, 0.3)[0]
        st, sh, rng = world(c)
        with st:
            g = pg.FiniteElementPatchGenerator(2, dims)
            ok, patch = g.generate_deformed_patch(elem, ne, corners_lab_disp_range=fixed_range(2, u),
                                                  edges_lab_def_order=1)
            c.true('admissible', bool(ok))
            m, ref, last = mesh_claims(c, patch, 2, dims, elem, ne)
            disp = patch.get_mesh_boundary_nodes_disps()
            for ix in ref:
                if not any(i in (0, l) for i, l in zip(ix, last)):
                    continue
                a, b = ix[0] / last[0], ix[1] / last[1]
                w = [(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b]
                for d in range(2):
                    c.eq('straight edge', disp[str(m[ix])][d], sum(w[i] * u[i, d] for i in range(4)), tol=1e-6)
    return body


def affine3(elem, ne, moved, dirs):
    """faces of a patch whose corners follow a homogeneous deformation: the boundary follows it as well"""
    def body(c):
        dims = (1.0, 2.0, 1.0)
        H = np.zeros((3, 3), dtype=object)
        for i, j in dirs:
            H[i, j] = c.npreal(f'h{i}{j}', (1,), -0.3, 0.3)[0]
        st, sh, rng = world(c)
        with st:
            g = pg.FiniteElementPatchGenerator(3, dims)
            cx = corner_ix(3, dims)
            u = [[sum(H[i, j] * x[j] for j in range(3)) for i in range(3)] for x in cx]
            ok, patch = g.generate_deformed_patch(elem, ne, corners_lab_disp_range=fixed_range(3, u),
                                                  edges_lab_def_order=1)
            c.true('admissible', bool(ok))
            m, ref, last = mesh_claims(c, patch, 3, dims, elem, ne)
            disp = patch.get_mesh_boundary_nodes_disps()
            for ix, x in ref.items():
                if any(i in (0, l) for i, l in zip(ix, last)):
                    for d in range(3):
                        c.eq('homogeneous', disp[str(m[ix])][d], sum(H[d, j] * x[j] for j in range(3)), tol=1e-6)
    return body


def corners(n_dim, order, fixed=(), ranges=None):
    """corner displacements respect the prescribed ranges and the fixed degrees of freedom"""
    def body(c):
        dims = (1.0,) * n_dim
        nc = 2 ** n_dim
        lo, hi = {}, {}
        for i in range(nc):
            for d in range(n_dim):
                if ranges and (i, d) not in ranges:
                    lo[i, d] = hi[i, d] = 0.0
                    continue
                v = c.npreal(f'r{i}{d}', (2,), -0.2, 0.2)
                c.assume(v[0] <= v[1])
                lo[i, d], hi[i, d] = v
        rg = {str(i + 1): tuple((lo[i, d], hi[i, d]) for d in range(n_dim)) for i in range(nc)}
        bc = {}
        for i, d in fixed:
            bc.setdefault(str(i + 1), [0] * n_dim)[d] = 1
            lo[i, d] = hi[i, d] = 0.0
        st, sh, rng = world(c, n=2)
        elem = 'SQUAD4' if n_dim == 2 else 'SHEXA8'
        with st:
            g = pg.FiniteElementPatchGenerator(n_dim, dims)
            ok, patch = g.generate_deformed_patch(
                elem, (1,) * n_dim, corners_lab_bc={k: tuple(v) for k, v in bc.items()} or None,
                corners_lab_disp_range=rg, edges_lab_def_order=order)
            disp, m = patch.get_mesh_boundary_nodes_disps(), patch.get_mesh_nodes_matrix()
        u = np.array([disp[str(m[ix])] for ix in corner_ix(n_dim, (1,) * n_dim)])
        c.true('shape', tuple(u.shape) == (nc, n_dim))
        if order:
            for i in range(nc):
                for d in range(n_dim):
                    c.le('lower', lo[i, d], u[i, d])
                    c.le('upper', u[i, d], hi[i, d])
            return
        cx = corner_ix(2, (1, 1))
        for i, j in itertools.combinations(range(4), 2):
            dif = [d for d in range(2) if cx[i][d] != cx[j][d]]
            if len(dif) != 1:
                continue
            d = 1 - dif[0]
            c.eq('parallel edge', u[i, d], u[j, d])
            meet = (lo[i, d] <= hi[j, d]) & (lo[j, d] <= hi[i, d])
            if meet:
                for k in (i, j):
                    c.le('lower', lo[k, d], u[k, d])
                    c.le('upper', u[k, d], hi[k, d])
    return body


def euler(c, deg):
    r = [x * (np.pi / 180.0) for x in deg]
    sin = (lambda v: v.sin()) if c.symbolic else np.sin
    cos = (lambda v: v.cos()) if c.symbolic else np.cos
    o = np.array([[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)], dtype=object)
    for k, (x, ax) in enumerate(zip(r, 'zxz')):
        s, q = (sin(x), cos(x)) if not isinstance(x, float) or x else (0.0, 1.0)
        m = np.array([[1.0, 0.0, 0.0], [0.0, q, -s], [0.0, s, q]] if ax == 'x' else
                     [[q, -s, 0.0], [s, q, 0.0], [0.0, 0.0, 1.0]], dtype=object)
        o = o @ m
    return o


def rigid(n_dim, elem, ne, tr, angles):
    """a patch moved as a rigid body: rotation about its centroid, then translation"""
    def body(c):
        dims = (1.0, 2.0, 1.0)[:n_dim]
        t = [c.npreal(f't{d}', (1,), -2, 2)[0] if tr and d in tr else 0.0 for d in range(n_dim)]
        deg = [c.npreal(f'{a}', (1,), -180, 180)[0] if angles and a in angles and (n_dim == 3 or a == 'alpha') else 0.0 for a in ('alpha', 'beta', 'gamma')]
        st, sh, rng = world(c)
        with st:
            g = pg.FiniteElementPatchGenerator(n_dim, dims)
            ok, patch = g.generate_deformed_patch(
                elem, ne, translation_range={str(d + 1): (t[d], t[d]) for d in tr} if tr is not None else None,
                rotation_angles_range={a: (x, x) for a, x in zip(('alpha', 'beta', 'gamma'), deg) if a in angles}
                if angles is not None else None)
            c.true('admissible', bool(ok))
            m, ref, last = mesh_claims(c, patch, n_dim, dims, elem, ne)
            disp = patch.get_mesh_boundary_nodes_disps()
            R = euler(c, deg)
            cen = sh.cen if n_dim == 2 else [0.5 * d for d in dims]
            if cen is None:
                cen = [0.0, 0.0]
            for ix, x in ref.items():
                if any(i in (0, l) for i, l in zip(ix, last)):
                    for d in range(n_dim):
                        new = cen[d] + sum(R[d, j] * (x[j] - cen[j]) for j in range(n_dim)) + t[d]
                        c.eq('rigid motion', x[d] + disp[str(m[ix])][d], new)
    return body


def attempts(n):
    """new configurations are tried until one is admissible, at most max_iter times"""
    def body(c):
        rng = Rng(c)
        st, sh, rng = world(c, free=True, rng=rng)
        sh.attempt = 0
        with st:
            g = pg.FiniteElementPatchGenerator(2, (1.0, 1.0))
            real = g._is_admissible_simulation
            seen = []

            def admissible(coords):
                r = real(coords)
                seen.append(bool(r))
                sh.attempt += 1
                return r
            g._is_admissible_simulation = admissible
            ok, patch = g.generate_deformed_patch('SQUAD8', (1, 1), max_iter=n)
            ask = [bool(sh.verdict.get(('valid', k), True)) and bool(sh.verdict.get(('ccw', k), True))
                   for k in range(len(seen))]
            c.true('verdict of the geometry', ask == seen)
            c.true('stops at the first admissible one', not any(seen[:-1]) and (seen[-1] or len(seen) == n))
            c.true('reported', bool(ok) == seen[-1])
            c.true('patch only if admissible', (patch is not None) == seen[-1])
            # polygon: all edge nodes once, counter-clockwise from the first corner, closed
            loop = [(0, 0), (.5, 0), (1, 0), (1, .5), (1, 1), (.5, 1), (0, 1), (0, .5), (0, 0)]
            got = [tuple(float(v) for v in p) for p in sh.polys[-1]]
            c.true('polygon', got == loop)
    return body


def lagr(order, t):
    """sum of the interior Lagrange polynomials on evenly spaced points of [0, 1]"""
    p = [k / order for k in range(order + 1)]
    tot = 0.0
    for k in range(1, order):
        w = 1.0
        for m in range(order + 1):
            if m != k:
                w = w * (t - p[m]) * (1.0 / (p[k] - p[m]))
        tot = tot + w
    return tot


def curved(edge, order, elem='SQUAD8', free=False, noise=False):
    """deformed edges: polynomial of the given order through the corners, control values in the given range
    (positive outwards), nodes in order along the edge; other edges unaffected; corners never noisy"""
    def body(c):
        dims = (1.0, 1.0)
        amp = c.npreal('amp', (2,), -0.4, 0.4)
        if free:
            c.assume(amp[0] <= amp[1])
        else:
            amp[1] = amp[0]
        sd = c.npreal('noise', (1,), 0, 0.1)[0] if noise else 0.0
        # edge labels: 1 bottom, 2 top, 3 left, 4 right
        st, sh, rng = world(c, n=5)
        with st:
            g = pg.FiniteElementPatchGenerator(2, dims)
            ok, patch = g.generate_deformed_patch(elem, (1, 1), edges_lab_def_order={str(edge): order},
                                                  edges_lab_disp_range={str(edge): (amp[0], amp[1])},
                                                  deformation_noise=sd)
            m, ref, last = mesh_claims(c, patch, 2, dims, elem, (1, 1))
        disp = patch.get_mesh_boundary_nodes_disps()
        ax, side = (0, 1)[edge > 2], (edge - 1) % 2
        pos, last_s = [], 0.0
        for ix in sorted(ref):
            x = ref[ix]
            if not any(i in (0, l) for i, l in zip(ix, last)):
                continue
            u = disp[str(m[ix])]
            corner = all(i in (0, l) for i, l in zip(ix, last))
            on = ix[1 - ax] == (0, last[1 - ax])[side]
            if noise and not corner:
                for d in range(2):
                    if not (on and d != ax):
                        c.le('noise', u[d], 4.0 * sd + 1e-9)
                        c.le('noise', -u[d], 4.0 * sd + 1e-9)
                continue
            if not on or corner:
                for d in range(2):
                    c.eq('rest of the boundary', u[d], 0.0)
                continue
            out = u[1 - ax] * (1.0 if side else -1.0)
            s = x[ax] + u[ax]
            c.true('on the edge', (s > last_s) & (s < 1.0))
            last_s = s
            pos.append(s)
            if order == 1:
                c.eq('straight', out, 0.0)
                c.eq('evenly spaced', s, x[ax])
            elif free:
                w = lagr(2, s)
                c.le('lower', amp[0] * w, out)
                c.le('upper', out, amp[1] * w)
            else:
                c.eq('polynomial', out, amp[0] * lagr(order, s), tol=1e-6)
        if not noise and not free:
            for a, b in zip(pos, reversed(pos)):
                c.eq('symmetric', a + b, 1.0, tol=1e-6)
        for l in rng.log:
            if l[0] == 'normal':
                c.eq('mean', l[1], 0.0)
                c.eq('deviation', l[2], sd)
    return body


def cases(tier):
    out = [Case("elements", elements, {}, "all element types")]
    for e, ne in (('SQUAD4', (2, 1)), ('SQUAD8', (1, 2)), ('SQUAD12', (2, 1)), ('LQUAD4', (2, 2)), ('LQUAD9', (2, 1)),
                  ('LQUAD16', (1, 1)), ('SHEXA8', (2, 1, 1)), ('SHEXA20', (1, 1, 1))):
        out.append(Case(f'mesh {e} {ne}', mesh(e, ne), {}, f'elements {ne}, patch sizes 0.5..4'))
    for e, ne, fr in (('SQUAD4', (2, 1), [(2, 0)]), ('SQUAD8', (1, 1), [(2, 1)]), ('SQUAD4', (2, 2), [(1, 0), (1, 1)])):
        out.append(Case(f'straight {e} {ne} {fr}', linear2(e, ne, fr), {}, ''))
    for e, ne, dr in (('SHEXA8', (2, 2, 2), [(0, 0)]), ('SHEXA20', (1, 1, 1), [(1, 1)]), ('SHEXA8', (3, 1, 2), [(0, 0), (2, 2)])):
        out.append(Case(f'faces {e} {ne} {dr}', affine3(e, ne, None, dr)))
    for i in range(4):
        out.append(Case(f'corners 2d corner {i + 1}', corners(2, 1 + i % 2, [], [(i, 0), (i, 1)])))
        out.append(Case(f'corners 2d corner {i + 1} fixed', corners(2, 1, [(i, 0), ((i + 1) % 4, 0), ((i + 1) % 4, 1)],
                                                                   [(i, 0), (i, 1), ((i + 1) % 4, 0), ((i + 1) % 4, 1)])))
    for i in range(8):
        dof = [(i, 0), (i, 1), (i, 2), ((i + 3) % 8, i % 3)]
        out.append(Case(f'corners 3d corner {i + 1} fixed', corners(3, 1, dof, dof)))
    out.append(Case('corners 2d parallel edges x', corners(2, 0, [(0, 0), (1, 1)], [(0, 0), (3, 0), (1, 0), (2, 0)])))
    out.append(Case('corners 2d parallel edges y', corners(2, 0, [(0, 0), (1, 1)], [(0, 1), (3, 1), (1, 1), (2, 1)])))
    for n, e, ne, t, a in ((2, 'SQUAD4', (1, 1), (0, 1), ('alpha',)), (2, 'SQUAD8', (1, 1), None, ('alpha', 'beta')),
                           (2, 'SQUAD4', (1, 1), (1,), None), (3, 'SHEXA8', (1, 1, 1), (0, 2), None),
                           (3, 'SHEXA8', (1, 1, 1), None, ('alpha',)), (3, 'SHEXA8', (1, 1, 1), (1,), ('alpha', 'beta', 'gamma'))):
        out.append(Case(f'rigid {n} {e} {t} {a}', rigid(n, e, ne, t, a)))
    for n in (1, 2, 3):
        out.append(Case(f'attempts {n}', attempts(n)))
    for edge in (1, 2, 3, 4):
        for order in (1, 2):
            out.append(Case(f'curved {edge} {order}', curved(edge, order)))
        out.append(Case(f'curved {edge} 2 any value', curved(edge, 2, free=True)))
    out.append(Case(f'curved 1 3', curved(1, 3)))
    out.append(Case(f'curved 4 2 SQUAD12', curved(4, 2, 'SQUAD12')))
    out.append(Case(f'curved 3 3 SQUAD12', curved(3, 3, 'SQUAD12')))
    for edge in (1, 4):
        out.append(Case(f'noise {edge}', curved(edge, 1, noise=True)))
    return out
