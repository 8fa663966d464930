"""Programming from a nullification basis restores the mesh it was taken from."""
import copy

import numpy as np

from harness.meshes import build, ref_columns, size_for

RULE = ('meshes of 7 architectures x top/bottom/differential styles x left/right coupler errors, scrambled and programmed '
        'again from the basis; non-trivial: more than one node; distinct by architecture, style, rails and error class')
ASSUMPTIONS = ['split ratios away from the ends of their range (there the phase of a null is ill-conditioned in single precision)',
               'single precision: matrices within 2e-3']
TOL = 2e-3


def roundtrip(rng, mon, size):
    kinds = ('rectangular', 'triangular', 'tree_cascade', 'tree', 'chain', 'butterfly', 'random')
    kind, style = kinds[size % 7], ('top', 'bottom', 'differential')[(size // 7) % 3]
    err = float(rng.choice([0, 0.02, 0.08]))
    m = build(rng, kind, size_for(rng, kind, 2, 8), style, err, 0.0)
    k = m.num_nodes
    m.params = (rng.uniform(0.35, np.pi - 0.35, k), rng.uniform(0, 2 * np.pi, k), m.params[2])
    mon.case(k > 1, kind=kind, style=style, n=m.n, nodes=k, err=err)
    u = m.matrix()
    basis = m.nullification_basis
    mon.check(basis.shape == (m.num_columns, m.n), 'one basis vector per column')
    mon.close(m.matrix(), u, 0, 'taking the basis does not change the mesh')
    # each vector is nulled at the upper outputs of its column: the physical meaning of the basis
    cols = ref_columns(m)
    for c, w in enumerate(basis):
        out = w
        for t in cols[:c + 1]:
            out = t @ out
        tops = [nd.top for nd in m.nodes if nd.column == c]
        mon.small(out[tops], 2e-5, 'basis vectors are nulled at the upper outputs of their column')
        mon.check(np.abs(out[[nd.bottom for nd in m.nodes if nd.column == c]]).min() > 0.5, 'and appear at the lower outputs')
    m2 = copy.deepcopy(m)
    m2.thetas, m2.phis = rng.uniform(0, np.pi, k), rng.uniform(0, 2 * np.pi, k)
    keep = basis.copy()
    m2.program_by_null_basis(basis)
    mon.check(np.array_equal(basis, keep), 'the basis is not changed')
    mon.close(m2.matrix(), u, TOL, 'matrix after programming')
    mon.close(m2.thetas, m.thetas, TOL, 'thetas after programming')
    mon.close(np.exp(1j * np.asarray(m2.phis)), np.exp(1j * m.phis), 5e-3, 'phis after programming')
    mon.event('columns programmed', m.num_columns)
    # onto different hardware: the nulls still appear where they should, as far as its nodes can reach them
    if err:
        m3 = m.add_error_variance(0.01, 0, equal_splitter_error=False)
        m3.program_by_null_basis(basis)
        if not np.any((np.asarray(m3.thetas) < 1e-6) | (np.asarray(m3.thetas) > np.pi - 1e-6)):
            out3 = ref_columns(m3)
            for c, w in enumerate(basis):
                out = w
                for t in out3[:c + 1]:
                    out = t @ out
                mon.small(out[[nd.top for nd in m3.nodes if nd.column == c]], TOL, 'nulls on hardware with other errors')
            mon.event('reprogrammed with other errors')


SCENARIOS = [('roundtrip', roundtrip, 126, 1200)]
