"""The mode solver returns true, ordered, complete modes of the cross section."""
import numpy as np
import scipy.sparse as sp

from harness.maxwell import Reference, as_tuple, random_eps, random_shape, random_spacing
from simphox.mkl import feast_eigs
from simphox.mode import ModeLibrary, ModeSolver
from simphox.utils import Box, Material

RULE = ('random cross sections (waveguides, blocks, noise, uniform) in one and two dimensions, spacings, wavelengths, numbers of '
        'modes, guesses and ranges, sweeps and wavelength updates; every returned mode is judged by an independent operator; '
        'non-trivial: at least one mode is returned; distinct by setting')
ASSUMPTIONS = ['completeness is judged for modes which are separated from the others; cross sections are lossless',
               'fields of modes are judged up to their phase']


class Section(Reference):
    """The eigenvalue problem of a cross section from its definition."""

    def __init__(self, shape, spacing, eps, k0):
        super().__init__(shape, spacing, eps, k0=k0)
        self.n = int(np.prod(shape))

    def apply(self, h):
        """The operator whose eigenvalues are the squared propagation constants (acting on hz in 1d and hx, hy in 2d)."""
        if self.ndim == 1:
            h = h.reshape(self.shape3)
            return (self.k0 ** 2 * self.eps * h + self.backward(self.forward(h, 0), 0)).ravel()
        hx, hy = (f.reshape(self.shape3) for f in h[:2 * self.n].reshape(2, -1))
        ex, ey, ez = self.eps_t()
        curl = (self.backward(hy, 0) - self.backward(hx, 1)) / ez
        div = self.forward(hx, 0) + self.forward(hy, 1)
        rx = self.k0 ** 2 * ey * hx - ey * self.forward(curl, 1) + self.backward(div, 0)
        ry = self.k0 ** 2 * ex * hy + ex * self.forward(curl, 0) + self.backward(div, 1)
        return np.hstack((rx.ravel(), ry.ravel()))

    def spectrum(self):
        n = self.n * self.ndim
        m = np.stack([self.apply(c) for c in np.eye(n, dtype=complex)]).T
        vals = np.linalg.eigvals(m)
        return np.sort(vals.real)[::-1]

    def curl_z(self, f, back, beta):
        """Curl of a field that depends on z as exp(-i beta z)."""
        d = self.backward if back else self.forward
        dz = -1j * beta
        return np.stack([d(f[2], 1) - dz * f[1], dz * f[0] - d(f[2], 0), d(f[1], 0) - d(f[0], 1)])


def setting(rng, ndim, small=True):
    shape = random_shape(rng, ndim, 6, 13) if ndim == 2 else (int(rng.integers(8, 70)),)
    spacing = random_spacing(rng, ndim, 0.04, 0.15)
    kind = str(rng.choice(['waveguide', 'waveguide', 'blocks', 'noise', 'core', 'uniform', 'slot']))
    if kind == 'core':
        eps = np.ones(shape) * rng.uniform(1, 3)
        eps[tuple(slice(n // 3, n - n // 3) for n in shape)] = rng.uniform(4, 14)
    elif kind == 'slot':
        eps = np.ones(shape) * 1.5
        eps[shape[0] // 4:shape[0] // 2 - 1] = 9
        eps[shape[0] // 2:3 * shape[0] // 4] = 9
    else:
        eps = random_eps(rng, shape, kind)
    wavelength = float(rng.uniform(0.4, 2.5))
    return shape, spacing, eps, wavelength, kind


def make(shape, spacing, eps, wavelength):
    h = as_tuple(spacing, len(shape))
    return ModeSolver(tuple(n * d for n, d in zip(shape, h)), spacing, wavelength, eps)


def clear(vals, m, k0, rel=1e-3):
    """How many of the first m modes are guided and separated from their neighbours."""
    count = 0
    for i in range(min(m, len(vals) - 1)):
        if vals[i] <= rel * k0 ** 2 or vals[i] - vals[i + 1] < rel * k0 ** 2:
            break
        count += 1
    return count


def judge(mon, ref, betas, modes, m, what, vals=None):
    ok = mon.check(len(betas) <= m and modes.shape == (len(betas), ref.n * (1 if ref.ndim == 1 else 3)), f'{what}: number of modes',
                   betas=betas, shape=modes.shape, m=m)
    ok &= mon.check(np.isrealobj(betas) and np.all(betas > 0) and np.all(np.isfinite(betas)), f'{what}: real propagation constants')
    ok &= mon.check(np.all(np.diff(betas) <= 1e-9 * ref.k0), f'{what}: descending order', betas=betas)
    mon.check(np.all(betas ** 2 <= ref.k0 ** 2 * ref.eps.max() * (1 + 1e-9)), f'{what}: below the index of the core', betas=betas)
    if not ok:
        return False
    for b, h in zip(betas, modes):
        t = h[:ref.n * ref.ndim]
        norm = np.linalg.norm(t)
        mon.check(norm > 1e-9 and np.all(np.isfinite(h)), f'{what}: mode is not zero')
        scale = ref.k0 ** 2 * ref.eps.max() * norm
        mon.small(np.linalg.norm(ref.apply(t) - b ** 2 * t) / scale, 1e-5, f'{what}: eigenvalue equation')
        if ref.ndim == 2:
            f = h.reshape((3,) + ref.shape3)
            div = ref.forward(f[0], 0) + ref.forward(f[1], 1) - 1j * b * f[2]
            mon.small(np.linalg.norm(div) / (b * np.linalg.norm(h)), 1e-5, f'{what}: divergence of the magnetic field')
        mon.event('modes judged')
    if vals is not None:
        k = clear(vals, m, ref.k0)
        mon.check(len(betas) >= k, f'{what}: all guided modes are returned', betas=betas, want=np.sqrt(vals[:k]))
        mon.close(betas[:k] ** 2, vals[:k][:len(betas)], 1e-6, f'{what}: largest propagation constants first', scale=ref.k0 ** 2 * ref.eps.max())
    # different modes are different fields
    if len(betas) > 1:
        t = modes[:, :ref.n * ref.ndim]
        t = t / np.linalg.norm(t, axis=1)[:, None]
        g = np.abs(t.conj() @ t.T) - np.eye(len(t))
        mon.check(np.all(g < 1 - 1e-6), f'{what}: no mode twice', overlaps=g.max())
    return True


def solve(rng, mon, size):
    ndim = 1 + size % 2
    shape, spacing, eps, w, kind = setting(rng, ndim)
    if ndim == 1 and rng.integers(2):
        w /= 2  # more guided modes, such that ranges can be drawn
    m = int(rng.integers(1, 7))
    solver = make(shape, spacing, eps, w)
    ref = Section(shape, spacing, eps, 2 * np.pi / w)
    vals = ref.spectrum()
    guess = str(rng.choice(['none', 'none', 'float', 'range'])) if ndim == 1 else str(rng.choice(['none', 'none', 'float']))
    n_guided = int(np.sum(vals > 1e-3 * ref.k0 ** 2))
    if guess == 'none' or n_guided < 5:
        guess = 'none'
        betas, modes = solver.solve(m)
        judge(mon, ref, betas, modes, m, f'{ndim}d', vals if kind != 'uniform' else None)
    elif guess == 'float':
        i = int(rng.integers(n_guided - 1))
        g = float(np.sqrt(vals[i]) * 1.0001)
        betas, modes = solver.solve(m, beta_guess=g)
        judge(mon, ref, betas, modes, m, f'{ndim}d near a guess')
        if len(betas) and (i == 0 or vals[i - 1] - vals[i] > 0.01 * ref.k0 ** 2) and vals[i] - vals[i + 1] > 0.01 * ref.k0 ** 2:
            mon.small(np.min(np.abs(betas ** 2 - vals[i])) / (ref.k0 ** 2 * ref.eps.max()), 1e-6, f'{ndim}d: the mode next to the guess is found')
    else:
        hi, lo = sorted(int(x) for x in rng.choice(np.arange(1, n_guided), 2, replace=False))
        top = (vals[hi - 1] + vals[hi]) / 2
        bottom = (vals[lo - 1] + vals[lo]) / 2
        gaps = np.diff(vals[:lo + 1])
        if np.all(np.abs(gaps) > 1e-3 * ref.k0 ** 2):
            k = 2 * (lo - hi) + 4
            if k < ref.n:
                betas, modes = solver.solve(k, beta_guess=(float(np.sqrt(bottom)), float(np.sqrt(top))))
                judge(mon, ref, betas, modes, k, 'modes of a range')
                mon.check(len(betas) == lo - hi, 'modes of a range: all of them and no others', got=betas, want=np.sqrt(vals[hi:lo]))
                if len(betas) == lo - hi:
                    mon.close(betas ** 2, vals[hi:lo], 1e-6, 'modes of a range: propagation constants', scale=ref.k0 ** 2 * ref.eps.max())
                mon.event('ranges answered')
    betas, modes = solver.solve(m)
    mon.case(len(betas) > 0, ndim=ndim, shape=shape, kind=kind, m=m, guess=guess, found=len(betas))


def ranges(rng, mon, size):
    """The eigenpairs of hermitian matrices in a range, all of them and no others."""
    kinds = []
    for dtype in rng.permutation(['float64', 'complex128', 'float32', 'complex64']):  # any of them is the first of a process
        dtype = np.dtype(str(dtype))
        n = int(rng.integers(6, 60))
        kind = str(rng.choice(['sparse', 'banded', 'diagonal']))
        if kind == 'diagonal':
            a = sp.diags(rng.normal(size=n))
        else:
            a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) * (dtype.kind == 'c')
            mask = rng.random((n, n)) < 0.1 if kind == 'sparse' else np.abs(np.subtract.outer(np.arange(n), np.arange(n))) < 3
            a = sp.csr_matrix(np.where(mask, a, 0) + np.diag(rng.normal(size=n)))
        a = ((a + a.conj().T) * float(rng.uniform(0.3, 3))).tocsr().astype(dtype)
        vals = np.linalg.eigvalsh(a.toarray().astype(np.complex128))
        i = int(rng.integers(1, n - 3))
        j = int(min(n - 2, i + rng.integers(5)))
        if min(vals[i] - vals[i - 1], vals[j + 1] - vals[j]) < 1e-2 * np.abs(vals).max():
            continue
        m = j - i + 1
        args = ((vals[i - 1] + vals[i]) / 2, (vals[j] + vals[j + 1]) / 2), min(n, 2 * m + 4)
        e, x, found, *_ = feast_eigs(a if rng.integers(2) else a.tocoo(), *args)
        kinds.append(dtype.name)
        scale = np.abs(vals).max()
        tol = 1e-8 if dtype in (np.float64, np.complex128) else 1e-3
        if mon.check(found == m, f'eigenvalues in a range ({dtype}): all of them', got=e[:found], want=vals[i:j + 1], kind=kind, n=n):
            mon.close(np.sort(e[:m]), vals[i:j + 1], tol, f'eigenvalues in a range ({dtype})', scale=scale)
            mon.small(np.abs(a @ x[:, :m] - x[:, :m] * e[:m]).max() / scale, tol, f'eigenvectors in a range ({dtype})')
            mon.check(np.linalg.matrix_rank(x[:, :m], 1e-2) == m, f'eigenvectors in a range ({dtype}): different ones')
    mon.event('ranges of matrices', len(kinds))
    mon.case(len(kinds) > 0, size=size, kinds=kinds)


def fields(rng, mon, size):
    """The fields, indices and derived quantities of a library describe one solution of Maxwell's equations."""
    ndim = 1 + size % 2
    shape, spacing, eps, w, kind = setting(rng, ndim)
    if kind == 'uniform':
        eps = random_eps(rng, shape, 'waveguide')
    m = int(rng.integers(1, 5))
    solver = make(shape, spacing, eps, w)
    library = ModeLibrary(solver, m) if m > 0 else None
    history = [w]
    for _ in range(int(rng.integers(3))):
        w = float(rng.uniform(0.4, 2.5))
        try:
            library.update_wavelength(w)
        except IndexError:
            mon.event('no guided mode')  # nothing guided at this wavelength
            if clear(Section(shape, spacing, eps, 2 * np.pi / w).spectrum(), 1, 2 * np.pi / w):
                raise
            break
        history.append(w)
    else:
        k0 = 2 * np.pi / w
        ref = Section(shape, spacing, eps, k0)
        vals = ref.spectrum()
        judge(mon, ref, library.betas, library.modes, m, f'{ndim}d library', vals)
        k = library.num_modes
        mon.check(k == library.m == len(library.betas), 'number of modes of the library')
        mon.close(library.ns, library.betas / k0, 1e-12, 'indices')
        mon.close(np.asarray(library.eps), eps, 0, 'permittivity of the library')
        mon.raises(ValueError, lambda: library.h(k), 'mode beyond the last is refused')
        mon.raises(ValueError, lambda: library.beta(k), 'propagation constant beyond the last is refused')
        et = ref.eps_t()
        hs, es = [], []
        for i in range(k):
            b = library.betas[i]
            mon.close(library.beta(i), b, 0, 'propagation constant')
            mon.close(library.n(i), b / k0, 1e-12, 'index')
            length = float(rng.uniform(0, 30))
            mon.close(library.phase(length, i), b * length, 1e-12, 'phase over a length', scale=b * length + 1)
            if ndim == 2:
                h, e = library.h(i), library.e(i)
                mon.check(h.shape == e.shape == (3,) + ref.shape3, 'shape of the fields')
                mon.close(h, library.modes[i].reshape(h.shape), 1e-12, 'magnetic field')
                want = ref.curl_z(h, True, b) / (1j * k0 * et)
                s = np.abs(want).max()
                mon.close(e, want, 1e-9, 'electric field is the curl of the magnetic field', scale=s)
                back = -ref.curl_z(e, False, b) / (1j * k0)
                # the equation of the longitudinal field holds as accurately as the eigenvalue equation
                mon.close(back, h, 1e-4, 'magnetic field is the curl of the electric field', scale=np.abs(h).max())
                hs.append(h)
                es.append(e)
                ratio = float(library.te_ratio(i)[0])
                px, py = np.sum(np.abs(h[0]) ** 2), np.sum(np.abs(h[1]) ** 2)
                mon.close(ratio, px / (px + py), 1e-9, 'share of the horizontal field')
                if len(vals) > i + 1 and (i == 0 or vals[i - 1] - vals[i] > 1e-2 * k0 ** 2) and vals[i] - vals[i + 1] > 1e-2 * k0 ** 2:
                    sz = library.sz(i)
                    mon.check(abs(np.sum(sz).imag) < 1e-4 * np.sum(np.abs(sz)), 'power of a mode is real')
            else:
                profile = library.modes[i].reshape(ref.shape3)
                z = np.zeros_like(profile)
                h = library.h(i)
                mon.close(h, np.stack([z, profile, z]), 1e-12, 'magnetic field (tm)')
                want = np.stack([1j * b * profile, z, -ref.forward(profile, 0)]) / (1j * k0 * et)
                mon.close(library.e(i), want, 1e-9, 'electric field (tm)', scale=np.abs(want).max())
                mon.close(library.e(i, tm_2d=False), np.stack([z, profile, z]), 1e-12, 'electric field (te)')
                want = np.stack([1j * b * profile, z, -ref.backward(profile, 0)]) / (-1j * k0)
                mon.close(library.h(i, tm_2d=False), want, 1e-9, 'magnetic field (te)', scale=np.abs(want).max())
                hs.append(profile)
        # modes with different propagation constants carry power independently
        for i in range(k):
            for j in range(i):
                if abs(library.betas[i] ** 2 - library.betas[j] ** 2) < 1e-2 * k0 ** 2:
                    continue
                if ndim == 2:
                    def power(a, c):
                        return np.sum(es[a][0] * hs[c][1].conj() - es[a][1] * hs[c][0].conj())
                    s = np.sqrt(abs(power(i, i) * power(j, j)))
                    mon.small(max(abs(power(i, j)), abs(power(j, i))) / s, 1e-4, 'modes are orthogonal')
                else:
                    mon.small(abs(np.vdot(hs[i], hs[j])) / np.linalg.norm(hs[i]) / np.linalg.norm(hs[j]), 1e-4, 'modes are orthogonal')
        if k > 1:
            mon.close(library.dbeta, library.betas[0] - library.betas[1], 1e-12, 'difference of propagation constants')
            mon.close(library.dn, (library.betas[0] - library.betas[1]) / k0, 1e-12, 'difference of indices')
            d = library.betas[0] - library.betas[1]
            if d > 1e-3:
                mon.close(library.beat_length(), 2 * np.pi / d, 1e-9, 'beat length', scale=2 * np.pi / d)
                # after a beat length the power pattern returns, after half of it the relative phase has flipped
                lb = library.beat_length()
                f0, fh, f1 = (library.evolve(x, (1, 1)).squeeze() for x in (0.0, lb / 2, lb))
                s = np.abs(f0).max()
                mon.close(np.abs(f1), np.abs(f0), 1e-6, 'pattern returns after a beat length', scale=s)
                mon.close(np.abs(fh), np.abs(library.h(0) - library.h(1)).squeeze(), 1e-6, 'pattern after half a beat length', scale=s)
                if k > 2 and library.betas[1] - library.betas[2] > 1e-3:
                    mon.close(library.beat_length(1, 2), 2 * np.pi / (library.betas[1] - library.betas[2]), 1e-9, 'beat length of other modes',
                              scale=library.beat_length(1, 2))
        for use_h, component in ((True, library.h), (False, library.e)):
            wts = tuple(rng.normal(size=k) + 1j * rng.normal(size=k))
            x = float(rng.uniform(0, 5))
            want = sum(a * np.exp(1j * library.betas[i] * x) * component(i) for i, a in enumerate(wts))
            got = library.evolve(x, wts, use_h) if use_h and rng.integers(2) else library.evolve(x, wts, use_h=use_h)
            got = got if not use_h or rng.integers(2) else library.evolve(x, wts)
            mon.close(got[..., 0], want, 1e-9, f'evolution of the {"magnetic" if use_h else "electric"} field', scale=np.abs(want).max())
        z = rng.uniform(0, 5, 3)
        wts = rng.normal(size=k)
        series = library.evolve(z, tuple(wts))
        for i, x in enumerate(z):
            mon.close(series[..., i], library.evolve(float(x), tuple(wts))[..., 0], 1e-9, 'evolution over several lengths', scale=np.abs(series).max())
    mon.case(library.num_modes > 0, ndim=ndim, shape=shape, kind=kind, wavelengths=len(history), m=m)


def sweep(rng, mon, size):
    """A dispersion sweep equals independent solves and leaves the solver as it is."""
    ndim = 1 + size % 2
    shape, spacing, eps, w, kind = setting(rng, ndim)
    if kind == 'uniform':
        eps = random_eps(rng, shape, 'waveguide')
    solver = make(shape, spacing, eps, w)
    m = int(rng.integers(1, 4))
    ws = [float(x) for x in rng.uniform(0.4, 2.5, int(rng.integers(1, 5)))]
    seen = []

    def bar(it):
        for x in it:
            seen.append(x)
            yield x
    out = solver.dispersion_sweep(np.array(ws) if rng.integers(2) else ws, m, *([bar] if rng.integers(2) else []))
    mon.check(solver.wavelength == w, 'wavelength after the sweep', got=solver.wavelength, want=w)
    mon.check(len(out) == len(ws), 'one solution per wavelength')
    found = 0
    for x, (betas, modes) in zip(ws, out):
        ref = Section(shape, spacing, eps, 2 * np.pi / x)
        judge(mon, ref, betas, modes, m, 'sweep', ref.spectrum())
        found += len(betas)
    mon.close(np.asarray(solver.eps), eps, 0, 'permittivity after the sweep')
    ref = Section(shape, spacing, eps, 2 * np.pi / w)
    judge(mon, ref, *solver.solve(m), m, 'after the sweep', ref.spectrum())
    mon.case(found > 0, ndim=ndim, shape=shape, kind=kind, steps=len(ws), m=m)


def symmetry(rng, mon, size):
    """Propagation constants under changes of units, translation, mirroring, exchange of the axes and growing cores."""
    ndim = 1 + size % 2
    shape, spacing, eps, w, kind = setting(rng, ndim)
    if kind == 'uniform':
        eps = random_eps(rng, shape, 'core' if False else 'waveguide')
    h = as_tuple(spacing, ndim)
    k0 = 2 * np.pi / w
    vals = Section(shape, spacing, eps, k0).spectrum()
    m = clear(vals, int(rng.integers(1, 5)), k0, 5e-3)
    if not m:
        return mon.case(False)
    base = make(shape, spacing, eps, w).solve(m)[0]
    s = float(rng.uniform(0.1, 9))
    tol = 1e-5

    def same(solver, what, factor=1.0):
        got = solver.solve(m)[0]
        mon.check(len(got) == len(base), f'{what}: number of modes')
        if len(got) == len(base):
            mon.close(got * factor, base, tol, what, scale=k0 * np.sqrt(eps.max()))
    same(make(shape, tuple(x * s for x in h), eps, w * s), 'change of units', s)
    roll = tuple(int(rng.integers(n)) for n in shape)
    same(make(shape, spacing, np.roll(eps, roll, tuple(range(ndim))), w), 'translation')
    same(make(shape, spacing, np.flip(eps, int(rng.integers(ndim))), w), 'mirror image')
    if ndim == 2:
        a, b = ModeLibrary(make(shape, h, eps, w), m), ModeLibrary(make(shape[::-1], h[::-1], eps.T.copy(), w), m)
        same(b.solver, 'exchange of the axes')
        for i in range(min(a.m, b.m)):
            mon.close(float(a.te_ratio(i)[0]) + float(b.te_ratio(i)[0]), 1.0, 1e-3, 'exchange of the axes exchanges polarisations')
    same(make(shape, h if np.isscalar(spacing) else spacing, eps.copy(order='F'), w), 'memory layout')
    if ndim == 1:
        more = eps.copy()
        i = int(rng.integers(shape[0]))
        more[i:i + 3] += float(rng.uniform(0.1, 3))
        got = make(shape, spacing, more, w).solve(m)[0]
        mon.check(len(got) == m and np.all(got >= base - 1e-5 * k0), 'more material never lowers an index', got=got, base=base)
        mon.check(base[0] ** 2 >= k0 ** 2 * eps.mean() * (1 - 1e-9), 'the first index is above the average')
        longer = make(shape, spacing, eps, w * 1.2).solve(m)[0]
        mon.check(np.all(longer / w * w <= base[:len(longer)] + 1e-6 * k0), 'propagation constants grow with frequency')
    mon.case(True, ndim=ndim, shape=shape, kind=kind, m=m)


def design(rng, mon, size):
    """Port cross sections: the library of a block design is the library of the structure it describes."""
    nx, ny, d = int(rng.integers(20, 30)), int(rng.integers(14, 20)), 0.1
    wx = int(rng.integers(3, 7)) * 2
    hgt = 2 * int(rng.integers(1, 3))  # see C19 for odd numbers of cells
    sub = int(rng.integers(3, 6))
    e_sub, e_core = float(rng.uniform(1, 3)), float(rng.uniform(6, 12))
    w = float(rng.uniform(1, 2))
    if nx % 2:
        nx += 1
    lib = ModeLibrary.from_block_design((nx * d, ny * d), d, Box((wx * d, hgt * d), material=Material('core', e_core)), num_modes=2, wavelength=w,
                                        wg_height=sub * d, sub_eps=e_sub, sub_height=sub * d)
    eps = np.ones((nx, ny))
    eps[:, :sub] = e_sub
    eps[nx // 2 - wx // 2:nx // 2 + wx // 2, sub:sub + hgt] = e_core
    mon.close(np.asarray(lib.eps), eps, 1e-12, 'structure of the block design')
    ref = Section((nx, ny), d, eps, 2 * np.pi / w)
    judge(mon, ref, lib.betas, lib.modes, 2, 'block design')
    direct = make((nx, ny), d, eps, w).solve(2)[0]
    mon.close(lib.betas, direct, 1e-5, 'modes of the block design')
    mon.case(True, shape=(nx, ny), core=(wx, hgt), sub=sub)


SCENARIOS = [('solve', solve, 200, 3000), ('ranges', ranges, 60, 800), ('fields', fields, 120, 2000), ('sweep', sweep, 40, 600), ('symmetry', symmetry, 80, 1200), ('design', design, 8, 100)]
