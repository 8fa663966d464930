"""Power: a lossless mesh conserves it at every recorded step, a lossy one never creates it and loses what its nodes say."""
import numpy as np

from harness.meshes import KINDS, STYLES, build, haar, ref_columns, size_for
from simphox.circuit.rectangular import rectangular, rectangular_phase_shift_powers

TOL = 2e-5
RULE = ('meshes of 8 architectures x 4 phase styles x coupler errors x losses (none, uniform, per phase shifter), with '
        'the power monitored at every recorded propagation step forwards and backwards; non-trivial: more than one node; '
        'distinct by architecture, style, rails, nodes, direction, error and loss class')
ASSUMPTIONS = ['single-precision defaults of the mesh functions: relative power within 2e-5',
               'losses are given in dB with negative values attenuating, as the mesh functions document']


def lossless(rng, mon, size):
    kind, style = KINDS[size % len(KINDS)], STYLES[(size // len(KINDS)) % len(STYLES)]
    err = float(rng.choice([0, 0.05, 0.5]))
    m = build(rng, kind, size_for(rng, kind, 2, 11), style, err, 0.0)
    back = bool(rng.integers(2))
    m.params = (rng.uniform(-10, 10, m.num_nodes), rng.uniform(-10, 10, m.num_nodes), rng.uniform(-10, 10, m.n))
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes, err=err, back=back)
    u = m.matrix(back=back)
    mon.close(u.conj().T @ u, np.eye(m.n), TOL, 'matrix of a lossless mesh is unitary')
    x = rng.normal(size=(m.n, 3)) + 1j * rng.normal(size=(m.n, 3))
    x /= np.linalg.norm(x, axis=0)
    modes = [False] + ([True] if style in ('top', 'bottom') else [])
    for explicit in modes:
        steps = m.propagate(x, back=back, explicit=explicit)
        p = np.sum(np.abs(steps) ** 2, axis=-2)
        mon.close(p, np.ones_like(p), TOL, f'power at every step (explicit={explicit})')
        mon.event('steps', len(steps))


def lossy(rng, mon, size):
    kind, style = KINDS[size % len(KINDS)], STYLES[(size // len(KINDS)) % len(STYLES)]
    m = build(rng, kind, size_for(rng, kind, 2, 11), style, float(rng.choice([0, 0.3])), float(rng.choice([0.2, 2.0, 10.0])))
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes,
             loss=float(np.round(np.mean(m.losses), 2)))
    for back in (False, True):
        sv = np.linalg.svd(m.matrix(back=back), compute_uv=False)
        mon.check(sv.max() <= 1 + TOL, 'no singular value exceeds one', got=sv.max())
    x = rng.normal(size=(m.n, 3)) + 1j * rng.normal(size=(m.n, 3))
    x /= np.linalg.norm(x, axis=0)
    modes = [False] + ([True] if style in ('top', 'bottom') else [])
    for explicit in modes:
        for back in (False, True):
            p = np.sum(np.abs(m.propagate(x, back=back, explicit=explicit)) ** 2, axis=-2)
            mon.check(np.all(np.diff(p, axis=0) <= TOL), f'power never increases (explicit={explicit})', got=np.diff(p, axis=0).max())
            mon.event('steps', len(p))
    # the power that leaves is what the node model says is left, in every column and in both directions
    columns = ref_columns(m)
    for back in (False, True):
        out, powers = x, [np.ones(3)]
        if back:
            out = np.exp(1j * m.gammas)[:, None] * out
        for c in ([c.T for c in columns[::-1]] if back else columns):
            out = c @ out
            powers.append(np.sum(np.abs(out) ** 2, 0))
        mon.close(np.sum(np.abs(m.matrix(back=back) @ x) ** 2, 0), powers[-1], TOL, f'remaining power (back={back})', scale=1)
        got = np.sum(np.abs(m.propagate(x, back=back, explicit=False)) ** 2, axis=-2)
        got = np.delete(got, 1, 0) if back else got[:-1]  # without the step of the output phases
        mon.close(got, np.array(powers), TOL, f'power after every column (back={back})', scale=1)


def uniform(rng, mon, size):
    """The same loss in dB at every phase shifter of one arm: determinant of the matrix gives the total loss."""
    kind, style = KINDS[size % len(KINDS)], ('top', 'bottom')[(size // len(KINDS)) % 2]
    loss = -float(rng.uniform(0.05, 2))
    m = build(rng, kind, size_for(rng, kind, 2, 7), style, 0.1, 0.0).add_error_mean(rng.normal() * .1, loss)
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes, loss=round(loss, 1))
    for back in (False, True):
        det = np.abs(np.linalg.det(m.matrix(back=back).astype(complex)))
        db = 20 * np.log10(det)
        mon.close(db, 2 * loss * m.num_nodes, 2e-3, f'total loss in dB (back={back})', scale=abs(2 * loss * m.num_nodes))


def shifters(rng, mon, size):
    """The power in every phase shifter, read from the recorded steps."""
    kind, style = KINDS[size % len(KINDS)], ('top', 'bottom')[(size // len(KINDS)) % 2]
    m = build(rng, kind, size_for(rng, kind, 2, 9), style, float(rng.choice([0, 0.2])), float(rng.choice([0, 1.0])))
    batch = bool(rng.integers(2))
    use_jax = bool(rng.integers(2))
    x = rng.normal(size=(m.n, 3)) + 1j * rng.normal(size=(m.n, 3))
    x = x / np.linalg.norm(x) if batch else x[:, 0] / np.linalg.norm(x[:, 0])
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes, batch=batch, jax=use_jax)
    steps = m.propagate(x, explicit=True)
    got = m.phase_shift_localize(np.abs(steps) ** 2, use_jax=use_jax)
    fields, columns = x, ref_columns(m)
    theta, phi = np.zeros(m.num_nodes), np.zeros(m.num_nodes)
    power = lambda f, rail: float(np.sum(np.abs(f[rail]) ** 2))
    for c, u in zip(sorted({node.column for node in m.nodes}), columns):
        for node in [node for node in m.nodes if node.column == c]:
            arm = node.top if style == 'top' else node.bottom
            phi[node.node_id] = power(fields, arm)
            # after the external phase shifter and the left coupler
            a = fields[[node.top, node.bottom]]
            i = 0 if style == 'top' else 1
            a = a * np.where(np.arange(2) == i, np.exp(1j * m.phis[node.node_id]) * 10 ** (node.loss[1] / 20), 1).reshape(
                (2,) + (1,) * (a.ndim - 1))
            e = np.pi / 4 + node.bs_error[0]
            a = np.array([[np.cos(e), 1j * np.sin(e)], [1j * np.sin(e), np.cos(e)]]) @ a
            theta[node.node_id] = float(np.sum(np.abs(a[i]) ** 2))
        fields = u @ fields
    out = np.abs(fields.reshape(m.n, -1)) ** 2
    for name, a, b in zip(('theta', 'phi', 'gamma'), got, (theta, phi, out.sum(1))):
        mon.close(np.asarray(a), b, TOL, f'power in the {name} phase shifters', scale=1)
    mon.event('phase shifters', 2 * m.num_nodes + m.n)


def rectangular_powers(rng, mon, size):
    """The same for rectangular meshes, relative to the total power."""
    n = (4, 6, 8)[size % 3]
    use_jax = bool(rng.integers(2))
    m = rectangular(haar(rng, n))
    m.params = tuple(rng.uniform(0, 6, np.shape(p)) for p in m.params)
    x = rng.normal(size=n) + 1j * rng.normal(size=n)
    mon.case(True, n=n, jax=use_jax)
    steps = m.propagate(x, explicit=True)
    p = np.abs(steps) ** 2
    want = m.phase_shift_localize(p / p.sum(axis=1)[:, None], use_jax=False)
    for name, a, b in zip(('theta', 'phi', 'gamma'), rectangular_phase_shift_powers(steps, use_jax=use_jax), want):
        mon.close(np.asarray(a), np.asarray(b), TOL, f'share of the power in the {name} phase shifters', scale=1)
    mon.event('phase shifters', n * n)


SCENARIOS = [('shifters', shifters, 32, 400), ('rectangular', rectangular_powers, 6, 60), ('lossless', lossless, 96, 1200), ('lossy', lossy, 64, 800), ('uniform', uniform, 24, 300)]
