"""What is plotted or streamed is what was computed."""
import io

import matplotlib
matplotlib.use('Agg')
import numpy as np
from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg

from simphox.fdtd import FDTD
from simphox.grid import Port
from simphox.mode import ModeLibrary, ModeSolver
from simphox.viz import get_extent_2d, plot_eps_1d, plot_eps_2d, plot_field_1d, plot_field_2d, plot_power_2d

RULE = ('random fields and permittivities of random sizes with and without spacing, modes of random cross sections, time-domain '
        'runs streamed to recording pipes from random ports and axes; distinct by kind, shape and settings; non-trivial: the '
        'field is not uniform')
ASSUMPTIONS = ['spacing is the same along both axes of a plot, as the functions document', 'holoviews and k3d are not installed: '
               'their plots are not observed; the pipes that would feed them are']


def figure():
    fig = Figure(figsize=(2, 2), dpi=40)
    FigureCanvasAgg(fig)
    return fig, fig.add_subplot()


def draw(fig):
    fig.savefig(io.BytesIO(), format='png')


def value_at(im, x, y):
    """The datum an image shows at a position of its axes."""
    a = np.ma.getdata(im.get_array())
    x0, x1, y0, y1 = im.get_extent()
    col = int(np.floor((x - x0) / (x1 - x0) * a.shape[1]))
    row = int(np.floor((y - y0) / (y1 - y0) * a.shape[0]))
    return a[row if im.origin == 'lower' else a.shape[0] - 1 - row, col]


def image(mon, im, want, d, what):
    nx, ny = want.shape
    x0, x1, y0, y1 = im.get_extent()
    mon.close([x0, x1, y0, y1], [0, nx * d, 0, ny * d], 1e-12, f'extent of {what}')
    got = np.array([[value_at(im, (i + 0.5) * d, (j + 0.5) * d) for j in range(ny)] for i in range(nx)])
    mon.close(got, want, 1e-12, f'{what} at every point')


def arrays(rng, mon, size):
    kind = ('eps', 'field', 'power', 'line')[size % 4]
    n = tuple(int(x) for x in rng.integers(2, 12, 2))
    d = None if rng.integers(2) else float(rng.uniform(0.02, 0.3))
    s = d or 1
    eps = rng.uniform(1, 12, n)
    over = bool(rng.integers(2))
    vmax = None if rng.integers(2) else float(rng.uniform(0.5, 2))
    mon.case(True, kind=kind, n=str(n), d=d, over=over, vmax=vmax is not None)
    fig, ax = figure()
    keep = eps.copy()
    if kind == 'eps':
        plot_eps_2d(ax, eps, d)
        image(mon, ax.images[0], eps, s, 'permittivity')
        mon.close(get_extent_2d(n, d), (0, n[0] * s, 0, n[1] * s), 1e-12, 'extent')
    elif kind in ('field', 'power'):
        f = rng.normal(size=n) + (float(rng.choice([0, -3, 3])) if kind == 'field' else 0)
        f = f if kind == 'field' else np.abs(f)
        before = f.copy()
        (plot_field_2d if kind == 'field' else plot_power_2d)(ax, f, eps if over else None, d, **({} if vmax is None else dict(vmax=vmax)))
        mon.check(len(ax.images) == 1 + over, 'number of layers')
        if over:
            image(mon, ax.images[0], eps, s, 'permittivity below')
        im = ax.images[-1]
        image(mon, im, f, s, kind)
        lo, hi = im.get_clim()
        mon.close(hi, np.abs(f).max() if vmax is None else vmax, 1e-12, f'upper end of the colours of the {kind}')
        if kind == 'field':
            mon.close(lo, -hi, 1e-12, 'colours of opposite values are opposite')
            mon.close(float(im.norm(0.0)), 0.5, 1e-12, 'no field is in the middle of the colours')
        mon.check(np.array_equal(f, before), 'the field is not changed')
    else:
        f = rng.normal(size=n[0]) + 1j * rng.normal(size=n[0])
        e1 = eps[:, 0]
        if over:
            plot_field_1d(ax, f, 'field', e1, d)
        else:
            plot_field_1d(ax, f, 'field', spacing=d)
        x, y = ax.lines[0].get_data()
        mon.close(x, np.arange(n[0]) * s, 1e-12, 'positions of the line')
        mon.close(y, f.real, 1e-12, 'line of the field')
        if over:
            x, y = [a for a in fig.axes if a is not ax][0].lines[0].get_data()
        else:
            fig2, ax2 = figure()
            plot_eps_1d(ax2, e1, d)
            x, y = ax2.lines[0].get_data()
        mon.close(x, np.arange(n[0]) * s, 1e-12, 'positions of the line')
        mon.close(y, e1, 1e-12, 'line of the permittivity')
    if d:
        mon.check('x' in ax.get_xlabel(), 'label of the axis')
    mon.check(np.array_equal(eps, keep), 'the permittivity is not changed')
    draw(fig)
    mon.event('plots')


def modes(rng, mon, size):
    ndim = 1 + size % 2
    d = float(rng.uniform(0.06, 0.1))
    n = [int(x) for x in rng.integers(14, 20, ndim)]
    eps = np.full(n, float(rng.uniform(1, 2.2)))
    lo = [k // 2 - int(rng.integers(3, 5)) for k in n]
    hi = [k // 2 + int(rng.integers(3, 5)) for k in n]
    eps[tuple(slice(a, b) for a, b in zip(lo, hi))] = float(rng.uniform(9, 13))
    lib = ModeLibrary(ModeSolver(tuple(k * d for k in n), d, eps=eps, wavelength=1.55), max_num_modes=2)
    idx = int(rng.integers(lib.m))
    kind = 'power' if rng.integers(3) == 0 else 'field'
    axis = int(rng.integers(3))
    use_h = bool(rng.integers(2))
    field = np.asarray((lib.h if use_h else lib.e)(idx))[axis].squeeze()
    scale = np.abs((lib.h if use_h else lib.e)(idx)).max()
    if ndim == 2 and kind == 'field' and (np.abs(field.real).max() < 1e-6 * scale or np.abs(field).max() > 1.5 * np.abs(field.real).max()):
        kind = 'power'  # there is nothing to see in this component
    mon.case(True, ndim=ndim, n=str(n), kind=kind, axis=axis, use_h=use_h, idx=idx)
    fig, ax = figure()
    named = bool(rng.integers(2))
    if kind == 'power':
        lib.plot_power(ax, idx, **({} if named else dict(title='Flow', include_n=False)))
        want = np.abs(np.asarray(lib.sz(idx)).real).squeeze()
    else:
        lib.plot_field(ax, idx, axis='xyz'[axis] if rng.integers(2) else axis, use_h=use_h, **({} if named else dict(title='Flow', include_n=False)))
        want = field.real
    if ndim == 2:
        image(mon, ax.images[0], eps, d, 'permittivity below')
        image(mon, ax.images[1], want, d, kind)
        h = np.abs(np.asarray(lib.h(idx)))
        share = np.array([np.sum(h[i] ** 2) for i in (0, 1)])
        share = share / share.sum()
        label = [t.get_text() for t in ax.texts if '[' in t.get_text()]
        mon.check(len(label) == 1, 'label of the polarisation')
        if label and abs(share[0] - share[1]) > 1e-6:
            name, ratio = label[0].rstrip(']').split('[')
            mon.check(name == ('TE' if share[1] > share[0] else 'TM'), 'polarisation shown', got=name, share=share)
            mon.close(float(ratio), share.max(), 0.0051, 'share of the polarisation shown')
        if kind == 'field':
            mon.check(any(('h' if use_h else 'e') + '_' + 'xyz'[axis] in t.get_text() for t in ax.texts), 'component shown')
    else:
        x, y = ax.lines[0].get_data()
        mon.close(x, np.arange(n[0]) * d, 1e-12, 'positions of the line')
        mon.close(y, want, 1e-12, f'line of the {kind}')
        other = [a for a in fig.axes if a is not ax]
        mon.close(other[0].lines[0].get_ydata(), eps, 1e-12, 'line of the permittivity')
        if kind == 'field':
            mon.check(('h' if use_h else 'e') + '_' + 'xyz'[axis] in ax.get_ylabel(), 'component shown')
    title = ax.get_title()
    if named:
        mon.check(f'n_{idx + 1} = {float(np.real(lib.n(idx))):.4f}' in title, 'index shown', got=title)
    else:
        mon.check(title == 'Flow', 'title shown')
    draw(fig)
    mon.event('plots')
    mon.raises(ValueError, lambda: lib.plot_power(figure()[1], lib.m), 'no plot of a mode that was not solved')


class Pipe:
    def __init__(self):
        self.data = []

    def send(self, x):
        self.data.append(np.array(x))


def streams(rng, mon, size):
    ndim = 2 + size % 2
    d = (0.1,) * ndim if rng.integers(2) else tuple(float(x) for x in rng.uniform(0.07, 0.13, ndim))
    n = [int(x) for x in rng.integers(14, 18, 2)] + ([int(rng.integers(8, 11))] if ndim == 3 else [])
    eps = np.full(n, 2.0) + rng.uniform(0, 0.1, n)
    c = n[1] // 2
    z = n[2] // 2 if ndim == 3 else 0
    guide = (slice(None), slice(c - 2, c + 2)) + ((slice(z - 2, z + 2),) if ndim == 3 else ())
    eps[guide] = 9.0
    hz = dict(z=z * d[2], h=4 * d[2]) if ndim == 3 else {}
    ends = {'a0': Port(3 * d[0], c * d[1], 180, 4 * d[1], **hz), 'b0': Port((n[0] - 3) * d[0], c * d[1], 0, 4 * d[1], **hz)}

    sim = FDTD(tuple(k * x for k, x in zip(n, d)), d, eps=eps)  # one simulation: its port modes are solved once
    sim.port = dict(ends)
    kw = dict(source_port='a0', profile_size_factor=2 if ndim == 3 else 3)
    if ndim == 3:
        labels = [('a0', 2), 'b0', ('a0', 0), ('b0', 1)]
        labels = [labels[int(k)] for k in rng.permutation(4)[:int(rng.integers(1, 4))]]
    else:
        labels = ['a0']
    steps, every = int(rng.integers(3, 9)), int(rng.integers(1, 4))
    viz_h, axis = bool(rng.integers(2)), int(rng.integers(3))
    mon.case(True, n=str(n), labels=str(labels), steps=steps, every=every, viz_h=viz_h, axis=axis)
    pipes = {label: (Pipe(), Pipe(), Pipe()) for label in labels}
    plain, final = sim.run_cw_port(steps, **kw)
    flux, last = sim.run_cw_port(steps, viz_pipes=pipes, viz_interval=every, viz_h=viz_h, viz_axis=axis, **kw)
    mon.close(np.array(flux), np.array(plain), 1e-12, 'streaming does not change the run')
    for a, b in zip(last[:2], final[:2]):
        mon.check(np.array_equal(np.asarray(a), np.asarray(b)), 'streaming does not change the fields')
    want = []
    for k in range(0, steps, every):
        _, (e, h, *_) = sim.run_cw_port(k + 1, **kw)
        want.append(np.asarray(h if viz_h else e)[axis])
    for label, (pe, pf, pp) in pipes.items():
        mon.check(len(pe.data) == len(pf.data) == len(pp.data) == len(want), 'frames sent', got=len(pf.data), want=len(want))
        if ndim == 3:
            name, cut = label if isinstance(label, tuple) else (label, 2)
            at = int(round(ends[name].xyz[cut] / d[cut]))
        view = lambda a: np.take(a, at, cut) if ndim == 3 else a.squeeze()
        shown = view(eps)
        for frame, f in zip(zip(pe.data, pf.data, pp.data), want):
            f = view(f).T
            mon.close(frame[0].squeeze() * (shown.max() - shown.min()) + shown.min(), shown.T, 1e-9, 'permittivity streamed')
            top = np.max(f.real)
            if top > 1e-9:
                mon.close(frame[1].squeeze() * top, f.real, 1e-6, 'field streamed', scale=np.abs(f).max())
                mon.check(abs(np.max(frame[1]) - 1) < 1e-6, 'field streamed is normalised')
            power = np.abs(f) ** 2
            if power.max() > 1e-9:
                mon.close(frame[2].squeeze() * power.max(), power, 1e-6, 'power streamed', scale=power.max())
            mon.event('frames')


SCENARIOS = [('arrays', arrays, 48, 600), ('modes', modes, 24, 240), ('streams', streams, 10, 100)]
