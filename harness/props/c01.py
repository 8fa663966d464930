"""Programming a mesh with a unitary: the matrix of the returned circuit is the unitary."""
import numpy as np

from harness.meshes import haar, ref_matrix, unitary
from simphox.circuit import rectangular
from simphox.circuit.matrix import cascade, psvd, tree_cascade, triangular

TOL = 5e-5
RULE = ('unitaries of 10 kinds (Haar, orthogonal, permutations, diagonal, identity, block diagonal, DFT, nearly identity) '
        'x builders (rectangular, triangular, tree cascade) x phase styles x correctable coupler errors; non-trivial: '
        'size above two or off-diagonal; distinct by builder, style, kind, size and error class')
ASSUMPTIONS = ['single-precision default of the mesh matrix: agreement within 5e-5',
               'with coupler errors a unitary is promised only when no node runs into the end of its range']


def observe(mon, m, u, what):
    mon.close(m.matrix(), u, TOL, f'{what}: matrix of the circuit')
    mon.close(ref_matrix(m), u, TOL, f'{what}: product of the nodes')
    th, ph, ga = m.params
    k, n = len(m.nodes), u.shape[0]
    mon.check(m.n == n and th.shape == (k,) and ph.shape == (k,) and ga.shape == (n,), f'{what}: one theta and phi per node, one gamma per rail')
    mon.check(sorted(nd.node_id for nd in m.nodes) == list(range(k)) and k == n * (n - 1) // 2, f'{what}: N(N-1)/2 numbered nodes')
    mon.check(np.all(np.isfinite(th)) and np.all(np.isfinite(ph)) and np.all(np.isfinite(ga)), f'{what}: finite phases')
    # nodes of one column must not share a rail, otherwise the columns could not act in parallel
    for c in {nd.column for nd in m.nodes}:
        rails = [r for nd in m.nodes if nd.column == c for r in (nd.top, nd.bottom)]
        mon.check(len(rails) == len(set(rails)), f'{what}: disjoint nodes in a column')
    mon.event('nodes programmed', k)


def layout(mon, m, n, kind):
    """Size of the architecture: neighbouring rails in the fewest columns, or trees one after the other."""
    columns = {'rectangular': n if n > 2 else 1, 'triangular': 2 * n - 3, 'trees': sum(int(np.ceil(np.log2(k))) for k in range(2, n + 1))}[kind]
    mon.check(m.num_columns == columns and sorted({nd.column for nd in m.nodes}) == list(range(columns)), f'{kind}: number of columns',
              got=m.num_columns, want=columns)
    if kind != 'trees':
        mon.check(all(nd.bottom == nd.top + 1 for nd in m.nodes), f'{kind}: nodes between neighbouring rails')
    mon.check(all(0 <= nd.top < nd.bottom < n for nd in m.nodes), f'{kind}: rails of the nodes')


def rect(rng, mon, size):
    n = 2 + size % (14 if size < 40 else 26)
    u, kind = unitary(rng, n)
    mon.case(n > 2 or kind not in ('identity', 'diagonal'), builder='rectangular', kind=kind, n=n)
    keep = u.copy()
    m = rectangular(u)
    mon.check(np.array_equal(u, keep), 'rectangular: the unitary is not changed')
    observe(mon, m, u, 'rectangular')
    layout(mon, m, n, 'rectangular')


def tri(rng, mon, size):
    n = 2 + size % (12 if size < 40 else 22)
    u, kind = unitary(rng, n)
    style = ('top', 'bottom', 'differential')[size % 3]
    builder = str(rng.choice(['triangular', 'tree_cascade', 'cascade', 'chain']))
    mon.case(n > 2 or kind not in ('identity', 'diagonal'), builder=builder, kind=kind, n=n, style=style)
    keep = u.copy()
    m = {'triangular': lambda: triangular(u, phase_style=style), 'tree_cascade': lambda: tree_cascade(u, phase_style=style),
         'cascade': lambda: cascade(u, phase_style=style), 'chain': lambda: cascade(u, balanced=False, phase_style=style)}[builder]()
    mon.check(np.array_equal(u, keep), 'cascade: the unitary is not changed')
    mon.check(m.phase_style == style, 'cascade: requested phase style')
    observe(mon, m, u, builder)
    layout(mon, m, n, 'trees' if builder in ('tree_cascade', 'cascade') else 'triangular')


def erroneous(rng, mon, size):
    n = 2 + size % 7
    u = haar(rng, n)
    style = ('top', 'bottom', 'differential')[size % 3]
    balanced = bool(size % 2)
    std = float(rng.choice([0.005, 0.02, 0.05]))
    mean = float(rng.choice([0, 0.02]))
    m = cascade(u, balanced=balanced, phase_style=style, error_mean_std=(mean, std))
    # a node that would need a split ratio out of its range ends up at the end of the range
    clipped = bool(np.any((m.thetas < 1e-9) | (m.thetas > np.pi - 1e-9)))
    mon.case(not clipped, builder='cascade with errors', style=style, n=n, balanced=balanced, std=std, mean=mean)
    mon.check(np.abs(m.bs_errors - mean).max() > 0, 'errors are present')
    mon.event('correctable' if not clipped else 'not correctable')
    if not clipped:
        observe(mon, m, u, 'cascade with errors')
    # a small error cannot take a generic two-mode circuit out of range
    u2 = haar(rng, 2)
    s = abs(u2[0, 0]) ** 2
    if 0.1 < s < 0.9:
        m2 = cascade(u2, balanced=balanced, phase_style=style, error_mean_std=(0, 0.02))
        mon.close(m2.matrix(), u2, TOL, 'correctable two-mode circuit')
        mon.event('two-mode corrections')


def svd_pair(rng, mon, size):
    n = int(rng.integers(2, 9))
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    if size % 4 == 1:
        a[:, 0] = a[:, 1]
    if size % 4 == 2:
        a = a.real + 0j
    mon.case(True, builder='svd', n=n, form=size % 4)
    left, d, right = psvd(a)
    mon.close(left.matrix() @ np.diag(d) @ right.matrix(), a, TOL, 'svd circuits reproduce the matrix')
    mon.check(np.all(np.diff(d) <= 1e-9) and d.min() >= 0, 'singular values are sorted and positive')


SCENARIOS = [('rect', rect, 72, 500), ('tri', tri, 84, 500), ('erroneous', erroneous, 48, 400), ('svd_pair', svd_pair, 16, 120)]
