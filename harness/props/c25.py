"""Meshes are programmed by gradient descent on the error of their matrix."""
import numpy as np

from harness.meshes import KINDS, STYLES, build, haar, ref_matrix, size_for
from simphox.circuit import rectangular
from simphox.circuit.matrix import tree_cascade, triangular

TOL = 2e-4
RULE = ('meshes of 8 architectures x 4 phase styles x coupler errors x losses, unitary and other targets, starting at the phases '
        'of the mesh or at given ones, compiled or not; distinct by architecture, style, rails and start; non-trivial: the target '
        'is not reached at the start')
ASSUMPTIONS = ['single-precision mesh functions: costs within 2e-4, and phases whose gradient is below 1e-2 of the largest '
               'are not compared (Adam divides by the gradient)', 'Adam with the usual decay rates 0.9 and 0.999']


def cost(target, u):
    ov = np.abs(np.vdot(target, u)) ** 2 / (np.linalg.norm(target) * np.linalg.norm(u)) ** 2
    return np.sqrt(abs(1 - ov))


def gradient(mesh, target, params, h=1e-5):
    out = []
    for k, p in enumerate(params):
        g = np.zeros(len(p))
        for j in range(len(p)):
            c = []
            for s in (1, -1):
                q = [np.array(a, dtype=float) for a in params]
                q[k][j] += s * h
                c.append(cost(target, ref_matrix(mesh, q)))
            g[j] = (c[0] - c[1]) / (2 * h)
        out.append(g)
    return out


def descent(rng, mon, size):
    kind, style = KINDS[size % len(KINDS)], STYLES[(size // len(KINDS)) % len(STYLES)]
    lossy = bool(rng.integers(2))
    m = build(rng, kind, size_for(rng, kind, 2, 5), style, float(rng.choice([0, 0.1])), 1.0 if lossy else 0.0)
    target = haar(rng, m.n) * 10 ** rng.uniform(-1, 1) if rng.integers(3) else rng.normal(size=(m.n, m.n)) + 0j
    given = bool(rng.integers(2))
    start = [rng.uniform(0.3, 2.8, len(p)) + 2 * np.pi * rng.integers(-1, 3, len(p)) * rng.integers(2)
             for p in m.params] if given else [np.array(p) for p in m.params]
    before = [np.array(p) for p in m.params]
    step, jit = float(10 ** rng.uniform(-3, -1)), size % 4 == 0
    kw = {} if not jit else dict(use_jit=True)
    if step < 0.09:
        kw['step_size'] = step
    else:
        step = 0.1  # the default
    init, update, get = m.matrix_opt(target, params=tuple(start) if given else None, **kw)
    mon.case(cost(target, ref_matrix(m, start)) > 1e-2, kind=kind, style=style, n=m.n, given=given, jit=jit, lossy=lossy)
    for a, b, name in zip(get(init), start, ('theta', 'phi', 'gamma')):
        # every style has a period of 4 pi
        mon.close(np.exp(0.5j * (np.asarray(a, dtype=float) - b)), np.ones(len(b)), 1e-5, f'start of {name}')
    state, m1, m2, unsure = init, None, None, None
    for i in range(4):
        params = [np.asarray(p, dtype=float) for p in get(state)]
        g = gradient(m, target, params)
        v, state = update(i, state)
        want = cost(target, ref_matrix(m, params))
        mon.close(float(v), want, TOL, 'cost is the normalised error of the mesh')
        if want < 0.05:
            break  # the gradient of the square root is not resolved
        top = max(np.abs(a).max() for a in g)
        m1 = [0.1 * a if i == 0 else 0.9 * b + 0.1 * a for a, b in zip(g, m1 or g)]
        m2 = [0.001 * a ** 2 if i == 0 else 0.999 * b + 0.001 * a ** 2 for a, b in zip(g, m2 or g)]
        small = [np.abs(a) < 1e-2 * max(top, 1e-2) for a in g]
        unsure = small if unsure is None else [a | b for a, b in zip(small, unsure)]
        for a, b, x, y, skip, name in zip(get(state), params, m1, m2, unsure, ('theta', 'phi', 'gamma')):
            move = step * (x / (1 - 0.9 ** (i + 1))) / (np.sqrt(y / (1 - 0.999 ** (i + 1))) + 1e-8)
            mon.close(((np.asarray(a, dtype=float) - b) + move)[~skip] / step, np.zeros(int((~skip).sum())), 0.03,
                      f'step of {name}', scale=1)
            mon.event('phases updated', int((~skip).sum()))
    for a, b in zip(m.params, before):
        mon.check(np.array_equal(np.asarray(a), b), 'the mesh is not changed')


def programming(rng, mon, size):
    """A mesh whose phases have drifted is brought back to its unitary."""
    n = int(rng.integers(2, 6))
    u = haar(rng, n)
    make = (rectangular, triangular, tree_cascade)[size % 3]
    m = make(u)
    mon.case(True, kind=make.__name__, n=n)
    mon.small(cost(u, m.matrix()), 5e-3, 'no error when programmed')
    start = tuple(p + 0.15 * rng.normal(size=np.shape(p)) for p in m.params)
    state, update, get = m.matrix_opt(u, params=start, step_size=0.02, use_jit=bool(size % 2))
    seen = []
    for i in range(30):
        v, state = update(i, state)
        seen.append(float(v))
    mon.check(all(np.isfinite(seen)), 'costs are finite')
    mon.check(min(seen) < 0.6 * seen[0], 'the error falls', first=seen[0], best=min(seen))
    mon.close(cost(u, ref_matrix(m, [np.asarray(p, float) for p in get(state)])),
              float(update(30, state)[0]), TOL, 'cost of the phases returned')
    mon.event('steps', len(seen))


SCENARIOS = [('descent', descent, 40, 240), ('programming', programming, 6, 60)]
