"""Geometry of grids and pixel-exact painting, masking, slicing and alignment against integer cell arithmetic."""
import numpy as np

from harness.maxwell import as_tuple, layer, random_spacing
from simphox.fdfd import FDFD
from simphox.fdtd import FDTD
from simphox.grid import Grid, Port, YeeGrid
from simphox.sim import SimGrid
from simphox.utils import Box, Material

RULE = ('grids of 1 to 3 dimensions (plain, Yee and simulation grids), equal and unequal spacings, histories of 1 to 12 fills, '
        'regions, components and masks with regions inside, touching, beyond and outside the edges, of zero thickness and of '
        'even and odd cell counts, coordinates within 0.3 cells of the cells they name; waveguide cross sections from blocks; '
        'non-trivial: at least one pixel painted; distinct by dimension, shape and history')
ASSUMPTIONS = ['a region with an odd number of cells is named by the index of its middle cell (and by its true centre, with a known finding)',
               'a component is any object with bounds, ports and a pixel mask, as of the design library']


def make(rng, ndim, lo=2, hi=14):
    shape = tuple(int(v) for v in rng.integers(lo, hi, ndim))
    spacing = random_spacing(rng, ndim)
    h = as_tuple(spacing, ndim)
    size = tuple((n + rng.uniform(-0.3, 0.3)) * d if rng.integers(3) == 0 else n * d for n, d in zip(shape, h))
    return shape, spacing, h, size


def geometry(rng, mon, size_):
    ndim = 1 + size_ % 3
    shape, spacing, h, size = make(rng, ndim, 1)
    cls = [Grid, YeeGrid, SimGrid, FDFD, FDTD][int(rng.integers(5))] if ndim > 1 else [Grid, YeeGrid][int(rng.integers(2))]
    array = bool(rng.integers(2))
    eps = rng.uniform(1, 12, shape) if array else float(rng.uniform(1, 12))
    if array and rng.integers(3) == 0:
        eps = np.round(eps).astype(int)
    mon.case(ndim=ndim, shape=shape, cls=cls.__name__, array=array)
    g = cls(size, spacing, eps=eps)
    mon.check(tuple(g.shape) == shape, 'shape', got=g.shape, want=shape)
    mon.check(tuple(g.shape3) == shape + (1,) * (3 - ndim), 'three-dimensional shape', got=g.shape3)
    mon.check(g.n == np.prod(shape), 'number of cells', got=g.n)
    mon.check(tuple(g.field_shape) == (3,) + shape + (1,) * (3 - ndim), 'field shape', got=g.field_shape)
    mon.close(g.size3, size + (0,) * (3 - ndim), 1e-12, 'size')
    mon.close(g.center, np.array(size + (0,) * (3 - ndim)) / 2, 1e-12, 'center')
    mon.check(np.all(np.asarray(g.spacing3)[ndim:] == np.inf), 'no cells along missing dimensions')
    for ax in range(3):
        if ax < ndim:
            mon.close(g.cells[ax], np.full(shape[ax], h[ax]), 1e-12, 'cells', axis=ax)
            if shape[ax] > 1:
                mon.close(g.pos[ax], np.arange(shape[ax] + 1) * h[ax], 1e-10, 'positions', axis=ax)
        else:
            mon.check(np.size(g.cells[ax]) == 1, 'cells of missing dimensions')
    mon.check(g.eps.shape == shape, 'permittivity shape', got=g.eps.shape)
    mon.close(g.eps, np.ones(shape) * eps, 0, 'permittivity')
    if array:
        kept = np.array(eps)
        g.fill(0, 99.0)
        g2 = cls(size, spacing, eps=eps)
        g2.eps[...] = 77.5
        mon.check(np.array_equal(kept, eps), 'the given permittivity is left alone')
        mon.check(np.all(g2.eps == 77.5), 'the permittivity takes real values', got=g2.eps)
        mon.raises(AttributeError, lambda: cls(size, spacing, eps=np.ones(tuple(n + 1 for n in shape))), 'shape mismatch refused')
    mon.raises(AttributeError, lambda: cls(size, (0.1,) * (ndim + 1), eps=1.0), 'spacing mismatch refused')
    v = rng.normal(size=3 * int(np.prod(shape)))
    r = g.reshape(v)
    mon.check(r.shape == tuple(g.field_shape) and np.array_equal(r.ravel(), v), 'reshape of a field')
    mon.event('grids')


class Reference:
    """Cell ranges of regions, in integers."""

    def __init__(self, shape, h):
        self.shape3 = tuple(shape) + (1,) * (3 - len(shape))
        self.ndim, self.h = len(shape), h

    def region(self, rng, where):
        """A region (centre, size, cells lo and hi per axis; flat axes have one cell)."""
        center, size, lo, hi, flat = [], [], [], [], []
        for ax in range(3):
            if ax >= self.ndim:
                center.append(0.0), size.append(float(rng.choice([0.0, 0.5]))), lo.append(0), hi.append(1), flat.append(True)
                continue
            n, d = self.shape3[ax], self.h[ax]
            zero = rng.integers(5) == 0
            count = 0 if zero else int(rng.integers(1, n + 3))
            c = int(rng.integers(0, n))
            if where == 'beyond' and not zero:
                c = int(rng.integers(-count - 2, n + count + 3))
            elif where == 'inside' and not zero:
                count = min(count, n)
                c = count // 2 + int(rng.integers(0, n - count + 1))
            start = c - count // 2
            a, b = (c, c + 1) if zero else (start, start + count)
            wobble = rng.uniform(-0.3, 0.3, 2) if rng.integers(2) else (0, 0)
            center.append((c + wobble[0]) * d), size.append(max((count + (wobble[1] if count else 0)), 0) * d)
            lo.append(a), hi.append(b), flat.append(zero)
        return tuple(center), tuple(size), lo, hi, flat

    def mask(self, lo, hi):
        m = np.zeros(self.shape3, dtype=bool)
        m[tuple(slice(min(max(a, 0), n), min(max(b, 0), n)) for a, b, n in zip(lo, hi, self.shape3))] = True
        return m


class Component:
    def __init__(self, rng, shape, h, beyond=False):
        self.lo = [int(rng.integers(0, n)) for n in shape[:2]]
        self.hi = [int(rng.integers(a + 1, n + 1)) for a, n in zip(self.lo, shape[:2])]
        b = [self.lo[0] * h[0], self.lo[1] * h[1], self.hi[0] * h[0] * (1 - 1e-9), self.hi[1] * h[1] * (1 - 1e-9)]
        if beyond:
            i = int(rng.integers(4))
            b[i] = -0.4 * h[i % 2] if i < 2 else (shape[i - 2] + 1.4) * h[i - 2]
        self.bounds = tuple(b)
        self.h = h[:2]
        self.pattern = rng.uniform(size=[b - a for a, b in zip(self.lo, self.hi)]) > 0.3
        self.port = {f'p{i}': Port(float(rng.uniform(0, 1)), float(rng.uniform(0, 1)), float(rng.choice([0, 90, 180, 270])),
                                   float(rng.uniform(0.1, 1))) for i in range(int(rng.integers(3)))}

    def mask(self, shape, spacing):
        # drawn with the spacing it is asked for, as a design library does
        spacing = np.ravel(spacing)[:2] * np.ones(2)
        i, j = (np.floor((np.arange(n) + 0.5) * s / d).astype(int) - a for n, s, d, a in zip(shape, spacing, self.h, self.lo))
        inside = ((i >= 0) & (i < self.pattern.shape[0]))[:, None] & ((j >= 0) & (j < self.pattern.shape[1]))
        return np.where(inside, self.pattern[np.ix_(i.clip(0, self.pattern.shape[0] - 1), j.clip(0, self.pattern.shape[1] - 1))], 0.0)


def painting(rng, mon, size_):
    ndim = 1 + size_ % 3
    shape, spacing, h, _ = make(rng, ndim)
    size = tuple(n * d for n, d in zip(shape, h))
    cls = [Grid, YeeGrid, SimGrid, FDFD, FDTD][int(rng.integers(5))] if ndim > 1 else [Grid, YeeGrid][int(rng.integers(2))]
    g = cls(size, spacing, eps=float(rng.uniform(1, 3)))
    ref = Reference(shape, h)
    want = np.array(g.eps)
    steps = int(rng.integers(1, 13))
    history = []
    painted = 0
    for _ in range(steps):
        op = str(rng.choice(['fill', 'all', 'region', 'region', 'beyond', 'outside', 'mask', 'component', 'refused', 'mask fn']))
        v = float(rng.uniform(1, 12))
        history.append(op)
        before = want.copy()
        chained = g
        if op == 'fill':
            k = int(rng.integers(1, shape[-1] + 4))
            chained = g.fill((k + rng.uniform(-0.4, 0.4)) * h[-1], v)
            want[..., :k] = v
        elif op == 'all':
            chained = g.fill(0, v)
            want[...] = v
        elif op in ('region', 'beyond'):
            center, sz, lo, hi, flat = ref.region(rng, 'inside' if op == 'region' else 'beyond')
            m = ref.mask(lo, hi).reshape(shape)
            chained = g.set_eps(center, sz, v)
            want[m] = v
        elif op == 'outside':  # a plane outside of the grid is refused, and nothing is painted
            center, sz, lo, hi, flat = ref.region(rng, 'inside')
            ax = int(rng.integers(ndim))
            center, sz = list(center), list(sz)
            center[ax] = (-float(rng.integers(1, 2 * shape[ax])) if rng.integers(2) else float(shape[ax] + rng.integers(0, 4))) * h[ax]
            sz[ax] = 0.0
            mon.raises(IndexError, lambda: g.set_eps(tuple(center), tuple(sz), v), 'a plane outside of the grid is refused')
            mon.raises(IndexError, lambda: g.mask(tuple(center), tuple(sz)), 'a mask outside of the grid is refused')
        elif op == 'mask':
            center, sz, lo, hi, flat = ref.region(rng, str(rng.choice(['inside', 'beyond'])))
            got = g.mask(center, sz)
            mon.check(got.shape == shape and np.array_equal(got, ref.mask(lo, hi).reshape(shape).astype(float)), 'mask',
                      center=center, size=sz, got=got, h=h)
        elif op == 'mask fn':
            center, sz, lo, hi, flat = ref.region(rng, str(rng.choice(['inside', 'beyond'])))
            rho = rng.uniform(1, 12, shape)
            middle = bool(rng.integers(4) == 0) and all(n % 2 == 0 for n in shape)
            if middle:  # centred by default
                counts = [2 * int(rng.integers(0, n // 2)) + 2 for n in shape]
                sz = tuple(c * d for c, d in zip(counts, h)) + (0,) * (3 - ndim)
                lo = [n // 2 - c // 2 for n, c in zip(shape, counts)] + [0] * (3 - ndim)
                hi = [n // 2 + c // 2 for n, c in zip(shape, counts)] + [1] * (3 - ndim)
            got = np.asarray(g.mask_fn(sz, None if middle else center)(rho))
            m = ref.mask(lo, hi).reshape(shape)
            mon.close(got, np.where(m, rho, want), 1e-6, 'mask function')
        elif op == 'component' and ndim > 1:
            c = Component(rng, shape, h)
            m = c.mask(shape[:2], h[:2]) == 1
            if ndim == 2:
                zmin, t = [(None, None), (0.0, 0.22)][int(rng.integers(2))]
                chained = g.add(c, v, *([] if zmin is None else [zmin, t]))
                want[m] = v
                z, hgt = (0, 0) if zmin is None else (0.11, 0.22)
            else:
                a, b = sorted(int(i) for i in rng.integers(-3, shape[2] + 4, 2))
                zmin, t = a * h[2], (b - a) * h[2]
                chained = g.add(c, v, zmin, t)
                want[m, max(a, 0):max(b, 0)] = v
                z, hgt = zmin + t / 2, t
            mon.check(g.components[-1] is c, 'the component is listed')
            mon.check(set(g.port) == set(c.port), 'ports of the component', got=list(g.port))
            for name, p in c.port.items():
                q = g.port[name]
                mon.close([q.x, q.y, q.a, q.w, q.z, q.h], [p.x, p.y, p.a, p.w, z, hgt], 1e-9, 'port placement')
        elif op == 'refused' and ndim > 1:
            n = len(g.components)
            mon.raises(ValueError, lambda: g.add(Component(rng, shape, h, beyond=True), v), 'a component beyond the grid is refused')
            mon.check(len(g.components) == n, 'a refused component is not listed')
        painted += int(np.sum(before != want))
        mon.check(chained is g, 'operations can be chained', op=op)
        if not mon.check(g.eps.shape == shape and np.array_equal(np.asarray(g.eps), want), f'pixels after {op}', history=history,
                         wrong=np.argwhere(np.asarray(g.eps) != want)[:6] if g.eps.shape == shape else g.eps.shape, shape=shape):
            break
        mon.event('operations')
    mon.event('pixels painted', painted)
    mon.case(ndim=ndim, shape=shape, cls=cls.__name__, history=','.join(history), nontrivial=painted > 0)


def slices(rng, mon, size_):
    ndim = 1 + size_ % 3
    shape, spacing, h, _ = make(rng, ndim)
    g = Grid(tuple(n * d for n, d in zip(shape, h)), spacing, eps=1.0)
    g.eps = np.arange(np.prod(shape), dtype=float).reshape(shape)
    ref = Reference(shape, h)
    e3 = g.eps.reshape(ref.shape3)
    mon.case(ndim=ndim, shape=shape)
    for _ in range(6):
        center, sz, lo, hi, flat = ref.region(rng, str(rng.choice(['inside', 'beyond'])))
        want = e3[tuple(slice(min(max(a, 0), n), min(max(b, 0), n)) for a, b, n in zip(lo, hi, ref.shape3))]
        got = e3[g.slice(center, sz, squeezed=False)]
        mon.check(got.shape == want.shape and np.array_equal(got, want), 'slice', center=center, size=sz, h=h, got=got, want=want)
        drop = tuple(ax for ax in range(3) if flat[ax])
        got = e3[g.slice(center, sz)]
        w = want.reshape([want.shape[ax] for ax in range(3) if ax not in drop])
        mon.check(np.shape(got) == w.shape and np.array_equal(got, w), 'squeezed slice', center=center, size=sz, got=got, want=w)
        mon.event('slices')
    mon.raises(ValueError, lambda: g.slice((0, 0), (0, 0, 0)), 'center of another dimension refused')
    mon.raises(ValueError, lambda: g.slice((0, 0, 0), (0, 0)), 'size of another dimension refused')


def between_cells(rng, mon, size_):
    """Regions with an odd number of cells (and planes) whose true centre is the middle of a cell."""
    ndim = 1 + size_ % 3
    shape, spacing, h, _ = make(rng, ndim, 6)
    spacing = h = tuple(float(v) for v in rng.choice([0.5, 0.25, 0.125, 1.0], ndim))  # exact in floating point
    g = Grid(tuple(n * d for n, d in zip(shape, h)), spacing, eps=1.0)
    counts = [2 * int(rng.integers(0, 3)) + 1 for _ in shape]
    lo = [int(rng.integers(0, n - c + 1)) for n, c in zip(shape, counts)]
    flat = [c == 1 and a < n - 1 and bool(rng.integers(2)) for c, a, n in zip(counts, lo, shape)]
    mon.case(shape=shape, counts=counts, lo=lo, flat=flat)
    g.set_eps(tuple((a + c / 2) * d for a, c, d in zip(lo, counts, h)) + (0,) * (3 - ndim),
              tuple(0 if f else c * d for c, d, f in zip(counts, h, flat)) + (0,) * (3 - ndim), 5.0)
    want = np.ones(shape)
    want[tuple(slice(a, a + c) for a, c in zip(lo, counts))] = 5.0
    mon.event('regions')
    shifted = np.ones(shape)  # the known finding: the middle cells with an odd index are taken for the next one
    shifted[tuple(slice(a + (a + c // 2) % 2, a + (a + c // 2) % 2 + c) for a, c in zip(lo, counts))] = 5.0
    got = np.asarray(g.eps)
    if np.array_equal(got, shifted) and not np.array_equal(got, want):
        mon.check(False, 'middle cells with an odd index', lo=lo, counts=counts)
    else:
        mon.check(np.array_equal(got, want), 'exactly the cells around the centre', lo=lo, counts=counts, h=h,
                  got=np.argwhere(got == 5)[:4])


def rect(box):
    return np.array([box.min[0], box.min[1], box.min[0] + box.size[0], box.min[1] + box.size[1]])


def alignment(rng, mon, size_):
    """Boxes after histories of alignments, against plain edge arithmetic."""
    def new():
        return Box(tuple(float(v) for v in rng.uniform(0.1, 3, 2)), spacing=float(rng.choice([0.1, 1.0, 0.25])),
                   min=tuple(float(v) for v in rng.uniform(-2, 2, 2)))
    box, other = new(), new()
    want, fixed = rect(box), rect(other)
    history = []
    for _ in range(int(rng.integers(1, 8))):
        op = str(rng.choice(['translate', 'align', 'align point', 'halign', 'valign', 'hvalue', 'vvalue', 'copy']))
        a, b = bool(rng.integers(2)), bool(rng.integers(2))
        history.append((op, a, b))
        r = box
        if op == 'translate':
            dx, dy = (float(v) for v in rng.uniform(-1, 1, 2))
            r = box.translate(dx, dy)
            want = want + [dx, dy, dx, dy]
        elif op == 'align':
            r = box.align(other)
            s = [(fixed[i] + fixed[i + 2] - want[i] - want[i + 2]) / 2 for i in (0, 1)]
            want = want + s * 2
        elif op == 'align point':
            c = tuple(float(v) for v in rng.uniform(-1, 1, 2))
            r = box.align(c)
            s = [c[i] - (want[i] + want[i + 2]) / 2 for i in (0, 1)]
            want = want + s * 2
        elif op in ('halign', 'valign'):
            i = 0 if op == 'halign' else 1
            r = getattr(box, op)(other, a, b)
            own = want[i] if a else want[i + 2]
            target = fixed[i] if a != b else fixed[i + 2]
            want = want + np.eye(4)[i] * (target - own) + np.eye(4)[i + 2] * (target - own)
        elif op in ('hvalue', 'vvalue'):
            i = 0 if op == 'hvalue' else 1
            v = float(rng.uniform(-2, 2)) if rng.integers(2) else int(rng.integers(-2, 3))
            r = getattr(box, 'halign' if i == 0 else 'valign')(v, a)
            own = want[i] if a else want[i + 2]
            want = want + np.eye(4)[i] * (v - own) + np.eye(4)[i + 2] * (v - own)
        else:
            old = box
            box = r = box.copy
            old.translate(5, 5)
        mon.check(r is box, 'operations can be chained', op=op)
        mon.close(rect(box), want, 1e-9, f'box after {op}', history=history)
        mon.close(rect(other), fixed, 0, 'the other box is not moved', history=history)
        mon.event('operations')
    mon.close(box.center, (want[:2] + want[2:]) / 2, 1e-9, 'center')
    mon.close(box.max, want[2:], 1e-9, 'upper corner')
    edges = want / box.spacing
    if np.all(np.abs(edges % 1 - 0.5) > 1e-6):
        lo, hi = np.maximum(np.around(edges.reshape(2, 2)), 0).astype(int)
        mon.check(tuple(box.shape) == tuple(hi - lo), 'number of cells', got=box.shape, want=hi - lo, history=history)
        mon.check(tuple(box.min_i) == tuple(lo) and tuple(box.max_i) == tuple(hi), 'cells of the corners', got=(box.min_i, box.max_i))
        array = rng.normal(size=rng.integers(1, 40, 2))
        mask = np.zeros(array.shape)
        mask[lo[0]:hi[0], lo[1]:hi[1]] = 1
        mon.close(box.mask(array), mask, 0, 'mask of the box')
    mon.case(history=str(history), nontrivial=True)


def blocks(rng, mon, size_):
    """Cross sections of single and coupled waveguides with perturbing blocks, all on even cell counts."""
    d = float(rng.choice([0.1, 0.02, 0.25, 1.0]))
    nx, ny = 2 * int(rng.integers(14, 24)), 2 * int(rng.integers(8, 14))
    ev = lambda lo, hi: 2 * int(rng.integers(lo, hi))
    w, t = ev(1, 3), ev(1, 3)
    gap = ev(1, 3) if rng.integers(2) else 0
    sub = int(rng.integers(0, 4))
    rib = int(rng.integers(1, 3)) if rng.integers(3) == 0 else 0
    base = sub if rng.integers(2) or not sub else int(rng.integers(1, 5 if rng.integers(2) else ny + 2))
    given = bool(base) and bool(rng.integers(4))
    kind = str(rng.choice(['none', 'lateral', 'vertical']))
    bw, bt, sep = ev(1, 3), ev(1, 3), (int(rng.integers(0, 3)), int(rng.integers(0, 3)))
    if not given and (ny - t) % 2:
        return
    eps = [float(v) for v in rng.uniform(1, 12, 4)]
    g = Grid((nx * d, ny * d), d, eps=eps[3])
    wg = Box((w * d, t * d), material=Material('core', eps[0]))
    block = Box((bw * d, bt * d), material=Material('block', eps[1])) if kind != 'none' else None
    same = sep[0] == sep[1] and bool(rng.integers(2))
    kwargs = dict(wg_height=base * d) if given else {}
    r = g.block_design(wg, sub_eps=eps[2], sub_height=sub * d, gap=gap * d, block=block, vertical=kind == 'vertical',
                       sep=sep[0] * d if same else (sep[0] * d, sep[1] * d), rib_y=rib * d, **kwargs)
    want = np.full((nx, ny), eps[3])
    if rib:
        want[:, :rib + sub] = eps[0]
    if sub or not rib:
        want[:, :sub if sub else ny] = eps[2]
    bottom = base if given else (ny - t) // 2
    shift = gap // 2 + w // 2 if gap else 0
    left = [nx // 2 - w // 2 - shift, nx // 2 - w // 2 + shift]
    rects = [(x, bottom, w, t, eps[0]) for x in left]
    if kind == 'vertical':
        rects += [(x + w // 2 - bw // 2, bottom + t + s, bw, bt, eps[1]) for x, s in zip(left, sep)]
    elif kind == 'lateral':
        rects += [(left[0] - bw - sep[0], bottom, bw, bt, eps[1]), (left[1] + w + sep[1], bottom, bw, bt, eps[1])]
    for x, y, a, b, e in rects:
        want[max(x, 0):max(x + a, 0), max(y, 0):max(y + b, 0)] = e
    mon.case(kind=kind, gap=gap, sub=sub, rib=rib, given=given, w=w, t=t, bw=bw, bt=bt, sep=sep)
    mon.check(r is g, 'the grid is returned')
    mon.check(np.array_equal(g.eps, want), 'pixels of the cross section', kind=kind, gap=gap, sub=sub, rib=rib, given=given,
              wrong=np.argwhere(g.eps != want)[:8], w=w, t=t, base=base, sep=sep, bw=bw, bt=bt, shape=(nx, ny))
    mon.event('cross sections')


def safe_placement(rng, mon, size_):
    ndim = 2 + size_ % 2
    shape = tuple(int(v) for v in rng.integers(24, 40, ndim))
    h = as_tuple(random_spacing(rng, ndim), ndim)
    cells = [int(rng.integers(4, 7)) for _ in shape]
    sep = int(rng.integers(0, 5))
    use = bool(rng.integers(4))
    kwargs = dict(pml=tuple(layer(rng, c, d) for c, d in zip(cells, h)), pml_sep=sep) if use else {}
    g = YeeGrid(tuple(n * d for n, d in zip(shape, h)), h, **kwargs)
    margin = [c + sep if use else 0 for c in cells]
    mon.case(shape=shape, cells=cells, sep=sep, pml=use)
    for _ in range(8):
        loc = tuple(float(rng.uniform(-0.3, 1.3)) * n * d for n, d in zip(shape[:2], h)) + (float(rng.uniform(0, 1)),)
        got = g.pml_safe_placement(loc)
        want = [min(max(loc[i], margin[i] * h[i]), (shape[i] - 1 - margin[i]) * h[i]) for i in range(2)] + [loc[2]]
        mon.close(got, want, 1e-9, 'nearest safe location', loc=loc, margin=margin, h=h, shape=shape)
        mon.event('locations')


SCENARIOS = [('geometry', geometry, 60, 2000), ('painting', painting, 200, 6000), ('slices', slices, 100, 3000),
             ('between cells', between_cells, 60, 1500), ('alignment', alignment, 150, 3000), ('blocks', blocks, 120, 3000),
             ('safe placement', safe_placement, 30, 600)]
