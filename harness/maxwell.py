"""Workload generators and an independent reference of the discretised Maxwell equations (index arithmetic only)."""
import numpy as np


def random_shape(rng, ndim, lo, hi, even=False):
    return tuple(int(x) for x in rng.integers(lo, hi, ndim))


def random_spacing(rng, ndim, lo=0.02, hi=0.2):
    if rng.integers(3) == 0:
        return float(np.round(rng.uniform(lo, hi), 3))
    return tuple(float(x) for x in np.round(rng.uniform(lo, hi, ndim), 3))


def as_tuple(spacing, ndim):
    return (spacing,) * ndim if np.isscalar(spacing) else tuple(spacing)


def layer(rng, k, d):
    """Thickness of a layer of k cells: exact, or with a part of a cell that does not count."""
    return (float(k) + float(rng.choice([0.0, 0.01, 0.4]))) * d


def cells(thickness, d):
    return int(np.floor(thickness / d + 1e-6))


def random_eps(rng, shape, kind=None):
    kind = kind or str(rng.choice(['uniform', 'noise', 'blocks', 'waveguide']))
    eps = np.ones(shape) * rng.uniform(1, 4)
    if kind == 'noise':
        eps = rng.uniform(1, 12, shape)
    elif kind == 'blocks':
        for _ in range(4):
            sl = tuple(slice(*sorted(int(v) for v in rng.integers(0, n + 1, 2))) for n in shape)
            eps[sl] = rng.uniform(1, 12)
    elif kind == 'waveguide':
        ax = int(rng.integers(len(shape)))
        w = max(1, shape[ax] // 4)
        sl = [slice(None)] * len(shape)
        sl[ax] = slice(shape[ax] // 2 - w // 2, shape[ax] // 2 - w // 2 + w)
        eps[tuple(sl)] = rng.uniform(6, 12)
    return eps


def field(rng, shape, real=False):
    f = rng.normal(size=shape)
    return f if real else f + 1j * rng.normal(size=shape)


class Reference:
    """Difference operators, averaged permittivity and absorbing layers from their definitions."""

    def __init__(self, shape, spacing, eps, bloch=0.0, k0=None, pml=None, pml_params=(4, -16, 1.0)):
        self.ndim = len(shape)
        self.shape3 = tuple(shape) + (1,) * (3 - self.ndim)
        self.h = as_tuple(spacing, self.ndim) + (np.inf,) * (3 - self.ndim)
        b = np.ones(self.ndim) * bloch if np.isscalar(bloch) else np.asarray(bloch)
        self.phase = [np.exp(1j * b[i]) if i < self.ndim else 1.0 for i in range(3)]
        self.k0, self.absorbing = k0, pml is not None
        self.eps = None if eps is None else np.asarray(eps).reshape(self.shape3)
        # complex stretch of every cell for derivatives of e (at cell centres) and h (at cell edges)
        self.stretch = [[np.ones(n, dtype=complex) for n in self.shape3] for _ in range(2)]
        if pml is not None:
            expo, log_r, pml_eps = pml_params
            for ax in range(self.ndim):
                n, d = self.shape3[ax], self.h[ax]
                if n == 1:
                    continue
                t = cells(np.asarray(pml, dtype=float)[ax] if not np.isscalar(pml) else pml, d)
                for of_h in (0, 1):
                    pos = np.arange(n) * d + (0 if of_h else d / 2)
                    depth = np.zeros(n)
                    for i in range(t):
                        depth[i] = (pos[t] - pos[i]) / pos[t]
                        j = n - t + i
                        depth[j] = (pos[j] - pos[n - t]) / (n * d - pos[n - t])
                    self.stretch[of_h][ax] = 1 + 1j * (expo + 1) * depth ** expo * log_r / (2 * k0 * pml_eps)

    def _scale(self, ax, of_h):
        shape = [1, 1, 1]
        shape[ax] = -1
        return (self.h[ax] * self.stretch[of_h][ax]).reshape(shape)

    def forward(self, f, ax):
        n = self.shape3[ax]
        if n == 1:
            return np.zeros_like(f, dtype=complex)
        g = np.take(f, [(i + 1) % n for i in range(n)], axis=ax).astype(complex)
        last = [slice(None)] * 3
        last[ax] = n - 1
        g[tuple(last)] = g[tuple(last)] * self.phase[ax]
        return (g - f) / self._scale(ax, 0)

    def backward(self, f, ax):
        n = self.shape3[ax]
        if n == 1:
            return np.zeros_like(f, dtype=complex)
        g = np.take(f, [(i - 1) % n for i in range(n)], axis=ax).astype(complex)
        first = [slice(None)] * 3
        first[ax] = 0
        g[tuple(first)] = g[tuple(first)] * np.conj(self.phase[ax])
        return (f - g) / self._scale(ax, 1)

    def curl(self, f, back):
        d = self.backward if back else self.forward
        return np.stack([d(f[2], 1) - d(f[1], 2), d(f[0], 2) - d(f[2], 0), d(f[1], 0) - d(f[0], 1)])

    def eps_t(self):
        """Permittivity at the field components: averaged over the two (x, y) or four (z) neighbouring cells."""
        e = self.eps
        ex = (e + np.take(e, np.arange(e.shape[1]) - 1, axis=1)) / 2
        ey = (e + np.take(e, np.arange(e.shape[0]) - 1, axis=0)) / 2
        ez = (ey + np.take(ey, np.arange(e.shape[1]) - 1, axis=1)) / 2
        return np.stack([ex, ey, ez])
