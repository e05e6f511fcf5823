"""Element catalogue: constructors and the documented parent-domain nodes"""
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.fetorch.element.type.tri6 import FETri6
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.element.type.quad8 import FEQuad8
from simulators.fetorch.element.type.tetra4 import FETetra4
from simulators.fetorch.element.type.tetra10 import FETetra10
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.hexa20 import FEHexa20

ELEMENTS = {'tri3': FETri3, 'tri6': FETri6, 'quad4': FEQuad4, 'quad8': FEQuad8,
            'tetra4': FETetra4, 'tetra10': FETetra10, 'hexa8': FEHexa8, 'hexa20': FEHexa20}

PARENT = {
    'tri3': [(0., 0.), (1., 0.), (0., 1.)],
    'tri6': [(0., 0.), (1., 0.), (0., 1.), (.5, 0.), (.5, .5), (0., .5)],
    'quad4': [(-1., -1.), (1., -1.), (1., 1.), (-1., 1.)],
    'quad8': [(-1., -1.), (1., -1.), (1., 1.), (-1., 1.), (0., -1.), (1., 0.), (0., 1.), (-1., 0.)],
    'tetra4': [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)],
    'tetra10': [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (.5, 0., 0.),
                (.5, .5, 0.), (0., .5, 0.), (0., 0., .5), (.5, 0., .5), (0., .5, .5)],
    'hexa8': [(-1., -1., -1.), (1., -1., -1.), (1., 1., -1.), (-1., 1., -1.),
              (-1., -1., 1.), (1., -1., 1.), (1., 1., 1.), (-1., 1., 1.)],
    'hexa20': [(-1., -1., -1.), (1., -1., -1.), (1., 1., -1.), (-1., 1., -1.),
               (-1., -1., 1.), (1., -1., 1.), (1., 1., 1.), (-1., 1., 1.),
               (0., -1., -1.), (1., 0., -1.), (0., 1., -1.), (-1., 0., -1.),
               (-1., -1., 0.), (1., -1., 0.), (1., 1., 0.), (-1., 1., 0.),
               (0., -1., 1.), (1., 0., 1.), (0., 1., 1.), (-1., 0., 1.)],
}
NGAUSS = {'tri3': (1,), 'tri6': (1, 3), 'quad4': (1, 4), 'quad8': (4, 9), 'tetra4': (1, 4),
          'tetra10': (4,), 'hexa8': (1, 8), 'hexa20': (8, 27)}
DIM = {n: len(p[0]) for n, p in PARENT.items()}
PROBLEM = {2: 1, 3: 4}


def quadratic(name):
    return name in ('tri6', 'quad8', 'tetra10', 'hexa20')


def volume(name):
    return {'tri': 0.5, 'qua': 4.0, 'tet': 1.0 / 6.0, 'hex': 8.0}[name[:3]]
