"""Reciprocity: backward propagation is the transpose of forward propagation."""
import jax.numpy as jnp
import numpy as np

from harness.meshes import KINDS, STYLES, build, ref_matrix, size_for

TOL = 2e-5
RULE = ('meshes of 8 architectures x 4 phase styles x random left/right coupler errors x phase shifter losses, observed '
        'with pairs of fields injected at opposite sides; non-trivial: more than one node; distinct by architecture, '
        'style, rails, nodes, error and loss class')
ASSUMPTIONS = ['single-precision defaults of the mesh functions: agreement within 2e-5']


def reciprocity(rng, mon, size):
    kind, style = KINDS[size % len(KINDS)], STYLES[(size // len(KINDS)) % len(STYLES)]
    err, loss = float(rng.choice([0, 0.05, 0.4])), float(rng.choice([0, 1.0, 6.0]))
    m = build(rng, kind, size_for(rng, kind, 2, 11), style, err, loss)
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes, err=err, loss=loss)
    f, b = m.matrix(), m.matrix(back=True)
    mon.close(b, f.T, TOL, 'backward matrix is the transpose')
    # the observable form: sending x in and measuring along y equals sending y in backwards and measuring along x
    x, y = [rng.normal(size=m.n) + 1j * rng.normal(size=m.n) for _ in range(2)]
    s = np.linalg.norm(x) * np.linalg.norm(y)
    fwd, bwd = m.matrix_fn(), m.matrix_fn(back=True)
    mon.close(y @ fwd(m.params, x)[:, 0], x @ bwd(m.params, y)[:, 0], TOL, 'exchange of source and detector', scale=s)
    jf = m.matrix_fn(use_jax=True)(tuple(map(jnp.array, m.params)), jnp.array(x))
    jb = m.matrix_fn(use_jax=True, back=True)(tuple(map(jnp.array, m.params)), jnp.array(y))
    mon.close(y @ np.asarray(jf)[:, 0], x @ np.asarray(jb)[:, 0], TOL, 'exchange of source and detector (jax)', scale=s)
    ef = m.propagate(x, explicit=False)[-1].ravel()
    eb = m.propagate(y, back=True, explicit=False)[-1].ravel()
    mon.close(y @ ef, x @ eb, TOL, 'exchange in column propagation', scale=s)
    if style in ('top', 'bottom'):
        ef, eb = m.propagate(x)[-1].ravel(), m.propagate(y, back=True)[-1].ravel()
        mon.close(y @ ef, x @ eb, TOL, 'exchange in explicit propagation', scale=s)
        mon.event('explicit exchanges')
    # every intermediate plane: the bilinear product of the two waves is the same at every column (lossless or not)
    pf = m.propagate(x, explicit=False)[..., 0]
    pb = m.propagate(y, back=True, explicit=False)[..., 0]
    k = m.num_columns
    prods = [pf[c] @ pb[1 + k - c] for c in range(k + 1)]
    mon.close(np.array(prods), np.full(k + 1, y @ fwd(m.params, x)[:, 0]), TOL, 'reaction at every column', scale=s)
    mon.event('planes', k + 1)
    mon.close(f, ref_matrix(m), TOL, 'forward matrix of the model')


SCENARIOS = [('reciprocity', reciprocity, 160, 1600)]
