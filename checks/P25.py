"""All rows of up to 7 channels over the alphabet {0, below threshold, above threshold, large} x first channel number x
threshold; all response matrices of up to 3 energies x 4 channels (every 0/1 pattern) x first channel number, before
and after (repeated) writing and reading; Gaussian responses for tables in wavelength and energy, ascending and
descending edges against the normal integral; ARF files; default filenames."""
import itertools
import os
import tempfile
import warnings
import numpy as np
import astropy.units as u
from astropy.table import Table, QTable
from scipy.stats import norm
from mc import zoo
from . import _common as C

META = {'TELESCOP': 'T', 'INSTRUME': 'I', 'FILTER': 'F', 'SATELLIT': 'S'}


def decode(n, grp, fchan, nchan, mat, first, ctx, what):
    """own decoder of the OGIP scheme"""
    out = np.zeros(n)
    fchan, nchan, mat = np.atleast_1d(fchan), np.atleast_1d(nchan), np.atleast_1d(mat)
    ctx.check(len(fchan) >= grp and len(nchan) >= grp, what + ': fewer groups than N_GRP')
    k, last = 0, -1
    for f, m in zip(fchan[:grp], nchan[:grp]):
        ctx.check(m > 0, what + ': empty group')
        ctx.check(f - first > last, what + ': groups overlap, touch or are not in order')
        out[f - first:f - first + m] = mat[k:k + m]
        k += m
        last = f - first + m
    return out, k


def rows(ctx, first, threshold):
    from marxs.reduction.ogip import RMF
    alpha = [0., threshold * .5, threshold * 1.5, 1.]
    for n in range(1, 7 if not ctx.thorough else 9):
        for vals in itertools.product(alpha if n < 6 else alpha[::3] + alpha[1:2], repeat=n):
            arr = np.array(vals)
            keep = arr.copy()
            grp, f, m, mat = RMF.arr_to_rmf_matrix_row(arr, first, threshold=threshold)
            ctx.step()
            ctx.state(first, threshold, vals)
            ctx.check(np.array_equal(arr, keep), 'input array modified')
            want = np.where(keep > threshold, keep, 0)
            ctx.same((len(f), len(m)), (grp, grp), f'{vals}: number of groups')
            got, k = decode(n, grp, f, m, mat, first, ctx, f'row {vals}')
            ctx.same(len(mat), k, f'{vals}: number of matrix elements')
            ctx.check(np.array_equal(got, want), f'row {vals} first {first}: decoded {got}')
    grp, f, m, mat = RMF.arr_to_rmf_matrix_row(np.array([1e-7, 2e-6, .5]), 1)
    ctx.same((int(grp), [int(x) for x in f], [int(x) for x in m]), (1, [2], [2]), 'default threshold')


def build(mat, first, table=None):
    from marxs.reduction.ogip import RMF, ColOrKeyTable
    mat = np.asarray(mat, float)
    n, nch = mat.shape
    ee = 1. + .25 * np.arange(n + 1)
    cc = 2. + .5 * np.arange(nch + 1)
    m = (table or Table)(names=['ENERG_LO', 'ENERG_HI', 'N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'],
                         data=[np.zeros(n, dtype=d) for d in (np.float32, np.float32, np.int16, object, object, object)],
                         units=[u.keV, u.keV, None, None, None, None])
    m['ENERG_LO'] = ee[:-1] * u.keV
    m['ENERG_HI'] = ee[1:] * u.keV
    for i in range(n):
        for c, v in zip(['N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'], RMF.arr_to_rmf_matrix_row(mat[i], first)):
            m[c][i] = v
    e = ColOrKeyTable({'CHANNEL': np.arange(first, nch + first, dtype=np.int32), 'E_MIN': cc[:-1], 'E_MAX': cc[1:]})
    for c in ('E_MIN', 'E_MAX'):
        e[c].unit = u.keV
    for t in (m, e):
        t.meta.update(META)
    m.meta['TLMIN4'] = first
    e.meta['TLMIN1'] = first
    return RMF(m, e, CHANTYPE='PI', HDUCLAS3='REDIST'), ee, cc


def en(x):
    return np.asarray(getattr(x, 'value', x), float)


def compare(ctx, rmf, mat, ee, cc, what, rtol=1e-12):
    n, nch = mat.shape
    ctx.same(int(rmf.matrix.meta['DETCHANS']), nch, what + ': DETCHANS of matrix')
    ctx.same(int(rmf.ebounds.meta['DETCHANS']), nch, what + ': DETCHANS of ebounds')
    ctx.close(en(rmf.en_mid), .5 * (cc[1:] + cc[:-1]), what + ': en_mid', rtol=1e-6)
    for i in range(n):
        for x in (ee[i], .4 * ee[i] + .6 * ee[i + 1]):
            x = x * u.keV
            lo, hi, full = rmf.full_rmf(x)
            ctx.step()
            ctx.close(full, mat[i], f'{what}: full response at {x}', rtol=rtol)
            ctx.close(np.array([en(lo), en(hi)]), [cc[:-1], cc[1:]], what + ': channel edges', rtol=1e-6)
            lo, hi, part = rmf.rmf(x)
            ctx.step()
            sel = mat[i] != 0
            ctx.close(part, mat[i][sel], f'{what}: non-zero response at {x}', rtol=rtol)
            ctx.close(np.array([en(lo), en(hi)]), [cc[:-1][sel], cc[1:][sel]], f'{what}: edges of non-zero channels at {x}', rtol=1e-6)
        wl = (.5 * (ee[i] + ee[i + 1]) * u.keV).to(u.Angstrom, equivalencies=u.spectral())
        ctx.close(rmf.full_rmf(wl)[2], mat[i], f'{what}: response at a wavelength', rtol=rtol)
        if mat[i].any():
            try:
                lo, hi, part = rmf.rmf_angstrom(wl)
            except AttributeError:
                ctx.fail(what + ': rmf_angstrom')
            ctx.close(en(lo), 12.398419843320026 / cc[1:][sel], what + ': rmf_angstrom lower edge', rtol=1e-6)
            ctx.close(en(hi), 12.398419843320026 / cc[:-1][sel], what + ': rmf_angstrom upper edge', rtol=1e-6)


def patterns(n, nch):
    for bits in itertools.product([0, 1], repeat=n * nch):
        b = np.array(bits).reshape(n, nch)
        yield b * (np.arange(1, n * nch + 1).reshape(n, nch) / 16.)


def matrices(ctx, shape, first):
    for mat in patterns(*shape):
        ctx.state(shape, first, (mat > 0).tobytes())
        rmf, ee, cc = build(mat, first)
        compare(ctx, rmf, mat, ee, cc, f'matrix {(mat > 0).astype(int).tolist()} first {first}')


def files(ctx, shape, first):
    from marxs.reduction.ogip import RMF
    f = os.path.join(zoo.tmpdir(), f'r{os.getpid()}.fits')
    for mat in patterns(*shape):
        what = f'matrix {(mat > 0).astype(int).tolist()} first {first}'
        rmf, ee, cc = build(mat, first)
        ctx.state(shape, first, (mat > 0).tobytes())
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            rmf.write(f, overwrite=True)
            compare(ctx, rmf, mat, ee, cc, what + ' after writing', 1e-6)
            r2 = RMF.read(f)
            compare(ctx, r2, mat, ee, cc, what + ' read from file', 1e-6)
            ctx.same(r2.matrix.meta['HDUCLAS3'], 'REDIST', 'HDUCLAS3')
            for t, c2 in ((r2.matrix, 'RSP_MATRIX'), (r2.ebounds, 'EBOUNDS')):
                ctx.same([str(t.meta[k]) for k in ('HDUCLASS', 'HDUCLAS1', 'HDUCLAS2')], ['OGIP', 'RESPONSE', c2], f'OGIP class keywords of {c2}')
            for k, v in META.items():
                ctx.same(str(r2.matrix.meta[k]), v, f'keyword {k}')
                ctx.same(str(r2.ebounds.meta[k]), v, f'keyword {k}')
            ctx.close(r2.ebounds['CHANNEL'], np.arange(first, first + shape[1]), 'channel numbers')
            r2.write(f, overwrite=True)
            compare(ctx, RMF.read(f), mat, ee, cc, what + ' written twice', 1e-6)
        for i in range(shape[0]):
            r = r2.matrix[i]
            got, _ = decode(shape[1], int(r['N_GRP']), r['F_CHAN'], r['N_CHAN'], r['MATRIX'], first, ctx, what)
            ctx.close(got, mat[i], what + ': columns in file', rtol=1e-6)


def tlmin(ctx):
    from marxs.reduction.ogip import RMF, OGIPFormatError
    f = os.path.join(zoo.tmpdir(), f't{os.getpid()}.fits')
    mat = np.array([[0, .5, .5, 0], [.2, 0, 0, .3]])
    for first in (0, 1, 5):
        rmf, ee, cc = build(mat, first)
        del rmf.matrix.meta['TLMIN4'], rmf.ebounds.meta['TLMIN1']
        ctx.raises(OGIPFormatError, lambda: rmf.write(f, overwrite=True), 'TLMIN missing')
        rmf.write(f, overwrite=True, TLMIN=first)
        ctx.step(2)
        ctx.state('tlmin', first)
        compare(ctx, RMF.read(f), mat, ee, cc, 'TLMIN set on write', 1e-6)
    for k in ('TELESCOP', 'INSTRUME', 'FILTER'):
        rmf, ee, cc = build(mat, 1)
        m, e = rmf.matrix, rmf.ebounds
        del m.meta[k]
        ctx.step()
        ctx.state('missing', k)
        ctx.raises(OGIPFormatError, lambda: RMF(m, e), f'{k} missing')
    for c in ('N_GRP', 'MATRIX', 'ENERG_LO', 'F_CHAN', 'N_CHAN'):
        rmf, ee, cc = build(mat, 1)
        rmf.matrix.remove_column(c)
        ctx.step()
        ctx.raises(OGIPFormatError, lambda: RMF(rmf.matrix, rmf.ebounds), f'column {c} missing')
    # large channel numbers
    big = np.zeros((2, 70000))
    big[0, 0] = big[0, 69999] = .25
    big[1, 40000:40003] = .5
    rmf, ee, cc = build(big, 1)
    rmf.write(f, overwrite=True)
    ctx.step()
    compare(ctx, RMF.read(f), big, ee, cc, '70000 channels', 1e-6)


EDGES = {'up': np.linspace(10., 14., 21), 'down': np.linspace(14., 10., 21), 'uneven': np.array([10., 10.1, 10.5, 11., 12.5, 13.9])}


def gauss(ctx, ename, unit, tabkind, order):
    from marxs.reduction.ogip import RMF
    w = np.array([9., 11., 12., 13.5, 16.])
    s = np.array([.05, .1, .2, .3, .2])
    if order == 'reverse':
        w, s = w[::-1], s[::-1]
    if tabkind == 'wave':
        tab = Table({'wave': w * u.Angstrom, 'sigma_wave': s * u.Angstrom})
    elif tabkind == 'qwave':
        tab = QTable({'wave': (w / 10) * u.nm, 'sigma_wave': (s * 100) * u.pm})
    else:
        e = 12.398419843320026 / w
        tab = QTable({'energy': e * u.keV, 'sigma_energy': (s / w * e * 1000) * u.eV})
    keep = tab.copy()
    edges = EDGES[ename] * u.Angstrom
    if unit == 'keV':
        edges = edges.to(u.keV, equivalencies=u.spectral())
    thr = 1e-5
    rmf = RMF.from_Gauss_sigma(edges, tab, threshold=thr, headerkw=dict(META))
    ctx.step()
    ctx.same(tab.colnames, keep.colnames, 'input table columns')
    for c in keep.colnames:
        ctx.check(np.array_equal(np.asarray(tab[c]), np.asarray(keep[c])), 'input table reordered')
    lam = np.sort(EDGES[ename])
    eb = np.sort(12.398419843320026 / lam)
    ctx.close(en(rmf.ebounds['E_MIN']), eb[:-1], 'E_MIN', rtol=1e-6)
    ctx.close(en(rmf.ebounds['E_MAX']), eb[1:], 'E_MAX', rtol=1e-6)
    for k, v in META.items():
        if k in rmf.matrix.meta:
            ctx.check(v in str(rmf.matrix.meta[k]), f'header {k}')
    from scipy.interpolate import interp1d
    srt = np.argsort(w)
    sig = interp1d(w[srt], s[srt], kind='cubic')
    for i in range(len(lam) - 1):
        mid = .5 * (lam[i] + lam[i + 1])
        ctx.state(ename, unit, tabkind, order, i)
        want = np.diff(norm.cdf(lam, loc=mid, scale=abs(sig(mid))))[::-1]
        got = rmf.full_rmf((12.398419843320026 / mid) * u.keV)[2]
        want = np.where(want > thr, want, 0)
        d = np.abs(got - want)
        ctx.check(np.all((d < 1e-4 * want + 1e-9) | (np.abs(np.maximum(got, want) - thr) < 1e-2 * thr)),
                  f'response at {mid:.2f} A: {got} expected {want}')


def arf(ctx, n):
    from marxs.reduction.ogip import ARF, OGIPFormatError
    f = os.path.join(zoo.tmpdir(), f'a{os.getpid()}.fits')
    e = 1. + .1 * np.arange(n + 1)
    for kind in ('vary', 'flat', 'zero'):
        area = {'vary': 3. + np.arange(n), 'flat': np.full(n, 7.), 'zero': np.zeros(n)}[kind]
        a = ARF({'ENERG_LO': e[:-1] * u.keV, 'ENERG_HI': e[1:] * u.keV, 'SPECRESP': area * u.cm**2})
        a.meta.update(META)
        a.meta['ORDER'] = -2
        a.write(f, overwrite=True)
        b = ARF.read(f)
        ctx.step(2)
        ctx.state('arf', n, kind)
        ctx.close(en(b['SPECRESP'].to(u.cm**2)) * np.ones(n), area, 'SPECRESP')
        ctx.close(en(b['ENERG_LO'].to(u.keV)), e[:-1], 'ENERG_LO')
        ctx.close(en(b['ENERG_HI'].to(u.keV)), e[1:], 'ENERG_HI')
        ctx.same(int(b.meta['ORDER']), -2, 'ORDER')
        ctx.same(b.meta['HDUCLAS2'], 'SPECRESP', 'HDUCLAS2')
    for k in ('TELESCOP', 'INSTRUME', 'FILTER'):
        c = a.copy()
        del c.meta[k]
        ctx.step()
        ctx.raises(OGIPFormatError, lambda: c.write(f, overwrite=True), f'{k} missing')
    for k in ('ENERG_LO', 'ENERG_HI', 'SPECRESP'):
        c = QTable(a)
        c.remove_column(k)
        c.write(f, overwrite=True, format='fits')
        ctx.step()
        ctx.raises(OGIPFormatError, lambda: ARF.read(f), f'{k} missing')
        if n > 1:
            c = QTable(a)
            c[k] = np.arange(2. * n).reshape(n, 2) * u.one
            c.write(f, overwrite=True, format='fits')
            ctx.step()
            ctx.raises(OGIPFormatError, lambda: ARF.read(f), f'{k} with two values per row')


def names(ctx):
    from marxs.reduction.ogip import filename_from_meta
    for o, t, typ in itertools.product([-12, -1, 0, 1, 7, '+3', 'all', np.int64(4), np.int32(-4)], [-3, 0, 5, np.int64(2)], ['fits', 'arf', 'rmf']):
        so = o if isinstance(o, str) else f'{int(o):+d}'
        st = f'{int(t):+d}'
        ctx.step(2)
        ctx.state('name', str(o), int(t), typ)
        ctx.same(filename_from_meta(typ, ORDER=o), f'_{so}.{typ}', 'filename')
        ctx.same(filename_from_meta(typ, CCDORDER=o, TRUEORD=t, ORDER=9), f'_ccdord_{so}_true_{st}.{typ}', 'filename')


def zeros(ctx, first, n):
    """with a threshold of zero, all elements that are not zero are kept and no others"""
    from marxs.reduction.ogip import RMF
    for vals in itertools.product([0., 1e-12, .5], repeat=n):
        grp, f, m, mat = RMF.arr_to_rmf_matrix_row(np.array(vals), first, threshold=0)
        ctx.step()
        ctx.state(first, vals)
        out, k = decode(n, grp, f, m, mat, first, ctx, f'{vals}')
        ctx.same(out, np.array(vals), f'{vals}')
        ctx.same(len(mat), sum(v > 0 for v in vals), f'{vals}: stored elements')


OPS = {'scalar': ('set', 5.), 'const': ('set', [2., 2., 2.]), 'list': ('set', [1., 2., 3.]), 'arr': ('set', np.array([4., 4., 1.])),
       'e0': ('el', 0, 2.), 'e2': ('el', 2, 4.), 'e1': ('el', 1, 4.), 'qconst': ('set', [1., 1, 1] * u.m), 'q': ('set', [1., 2, 1] * u.m), 'int': ('set', 3)}


def colkey(ctx, first, depth):
    """sequences of assignments: an entry is always exactly one of column or key and has the last values"""
    from marxs.reduction.ogip import ColOrKeyTable
    for seq in itertools.product(OPS, repeat=depth):
        seq = (first, *seq)
        t = ColOrKeyTable({'B': [1., 2., 3.]})
        t.meta['K'] = 7
        model = None
        ctx.step()
        ctx.state(seq)
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            for name in seq:
                o = OPS[name]
                if o[0] == 'set':
                    t['A'] = o[1]
                    model = np.ones(3) * (o[1] if hasattr(o[1], 'unit') else np.array(o[1]))
                else:
                    if model is None or np.ndim(t['A']) == 0:
                        continue
                    v = o[2] * getattr(model, 'unit', 1)
                    t['A'][o[1]] = v
                    model[o[1]] = v
                ctx.same(('A' in t.colnames) + ('A' in t.meta), 1, f'{seq}: column or key')
                got = np.ones(3) * t['A']
                ctx.check(np.all(got == model), lambda: f'{seq}: {got} instead of {model}')
                ctx.same((list(t['B']), t['K']), ([1., 2., 3.], 7), f'{seq}: other entries')


def hduclas(ctx, old, new, chan):
    from marxs.reduction.ogip import RMF
    r, ee, cc = build(np.eye(3), 1)
    for m in (r.matrix, r.ebounds):
        m.meta['CHANTYPE'] = 'PHA'
        m.meta.pop('HDUCLAS3', None)
        if old:
            m.meta['HDUCLAS3'] = old
    r2 = RMF(r.matrix, r.ebounds, CHANTYPE=chan, HDUCLAS3=new)
    ctx.step()
    ctx.state(old, new, chan)
    with tempfile.TemporaryDirectory() as tmp:
        r2.write(os.path.join(tmp, 'a.rmf'), TLMIN=1)
        r3 = RMF.read(os.path.join(tmp, 'a.rmf'))
    for x in (r2, r3):
        for m in (x.matrix, x.ebounds):
            ctx.same(m.meta.get('HDUCLAS3'), new or old, 'HDUCLAS3')
            ctx.same(m.meta['CHANTYPE'], chan or 'PHA', 'CHANTYPE')


def scenarios(ctx):
    yield from C.cases(zeros, 'zeros', [0, 1, 7], [1, 2, 4, 5])
    yield from C.cases(colkey, 'colkey', list(OPS), [0, 1, 2] + ([3] if ctx.thorough else []))
    yield from C.cases(hduclas, 'hduclas', [None, 'REDIST', 'FULL'], [None, 'REDIST', 'DETECTOR', 'FULL'], [None, 'PI', 'PHA'])
    yield from C.cases(rows, 'rows', [0, 1, 3], [1e-6, .1])
    shapes = [(1, 1), (1, 2), (1, 3), (1, 5), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (2, 5), (4, 2)] if ctx.thorough else [(2, 4)])
    yield from C.cases(matrices, 'matrix', shapes, [0, 1, 4])
    yield from C.cases(files, 'file', [(1, 1), (1, 3), (2, 2), (2, 3)] + ([(3, 2), (1, 5)] if ctx.thorough else []), [0, 1])
    yield 'tlmin', tlmin
    yield from C.cases(gauss, 'gauss', list(EDGES), ['A', 'keV'], ['wave', 'qwave', 'energy'], ['sorted', 'reverse'])
    yield from C.cases(arf, 'arf', [1, 2, 5])
    yield 'names', names
