"""random numbers as free inputs: the n-th number drawn after seeding with s is an unknown fixed by (s, n)"""
import numpy as np


class Rng:
    def __init__(self, c):
        self.c, self.key, self.k, self.memo, self.log = c, 'free', {'free': 0}, {}, []

    def seed(self, s=None):
        self.key = f's{s}'
        self.k[self.key] = 0

    def _unit(self, kind, lo, hi):
        n = self.k[self.key]
        self.k[self.key] = n + 1
        name = f'{kind}.{self.key}.{n}'
        if name not in self.memo:
            self.memo[name] = self.c.npreal(name, (1,), lo, hi)[0]
        return self.memo[name]

    def _fill(self, size, f):
        if size is None:
            return f()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        a = np.empty(shape, dtype=object if self.c.symbolic else float)
        v = a.reshape(-1)
        for i in range(v.size):
            v[i] = f()
        return v.reshape(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        def f():
            u = self._unit('uniform', 0, 1)
            self.log.append(('uniform', low, high, u))
            return low + (high - low) * u
        return self._fill(size, f)

    def normal(self, loc=0.0, scale=1.0, size=None):
        def f():
            z = self._unit('normal', -4, 4)
            self.log.append(('normal', loc, scale, z))
            return loc + scale * z
        return self._fill(size, f)

    def rand(self, *s):
        return self.uniform(size=s or None)

    random = random_sample = lambda self, size=None: self.uniform(size=size)

    def randn(self, *s):
        return self.normal(size=s or None)

    standard_normal = lambda self, size=None: self.normal(size=size)

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)

        def f():
            n = self.k[self.key]
            self.k[self.key] = n + 1
            name = f'randint.{self.key}.{n}'
            if name not in self.memo:
                self.memo[name] = low + self.c.choice(name, high - low) if high - low > 1 else low
            return self.memo[name]
        if size is None:
            return f()
        return np.array([f() for _ in range(int(np.prod(size)))]).reshape(size)

    def binomial(self, n, p, size=None):
        def f():
            r = 0
            for _ in range(int(n)):
                k = self.k[self.key]
                self.k[self.key] = k + 1
                name = f'binomial.{self.key}.{k}'
                if name not in self.memo:
                    self.memo[name] = int(self.c.flag(name))
                r += self.memo[name]
            self.log.append(('binomial', n, p, r))
            return float(r)
        return self._fill(size, f)
