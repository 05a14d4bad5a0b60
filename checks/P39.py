"""Products of component lists (up to three of two profile types) x parameter grids x numbers of widths and wavelengths x
interpolation kinds; every node of every table and off-grid points of tables linear in width and wavelength; round trips
model -> table -> FITS file -> model; response matrices row by row against own integrals of the profiles."""
import datetime
import itertools
import os
import tempfile
import warnings
from math import erf
import numpy as np
import astropy.units as u
from astropy.table import Table
from mc import zoo
from . import _common as C

FW = 2 * np.sqrt(2 * np.log(2))
COMPS = {'g': ('GAUSS1',), 'l': ('LORENTZ1',), 'gl': ('GAUSS1', 'LORENTZ1'), 'gg': ('GAUSS1', 'GAUSS2'),
         'lg': ('LORENTZ1', 'GAUSS1'), 'ggl': ('GAUSS1', 'GAUSS2', 'LORENTZ1'), 'gll': ('GAUSS12', 'LORENTZ1', 'LORENTZ2')}
SIZES = {'1x4': (1, 4), '1x6': (1, 6), '2x2': (2, 2), '3x4': (3, 4), '4x5': (4, 5)}


def grids(nw, nl):
    w = np.array([.001, .0025, .004, .008])[:nw]
    lam = np.array([2., 5., 9., 14., 20., 31.])[:nl]
    return w, lam


def par(j, w, lam, form):
    """own parameters (amplitude, sigma or fwhm, position) of component j"""
    if form == 'linear':
        return np.array([1. + .5 * j + .02 * lam - 20 * w, .01 + .01 * j + .0005 * lam + w / 4, lam + .001 * j + .1 * w])
    return np.array([1. / (1 + j) + .1 * np.sin(lam + j) + 50 * w ** 2, .01 * (1 + j) + .002 * np.cos(3 * lam) + w / 2 * (1 + j), lam * (1 + 1e-4 * j) + w])


def eef(w, lam, form):
    return .9 - .01 * lam + 10 * w if form == 'linear' else .5 + .3 * np.cos(lam) + 5 * w


def profile(name, p, x):
    """own density; x points"""
    if name.startswith('G'):
        return p[0] / np.sqrt(2 * np.pi) / p[1] * np.exp(-(x - p[2]) ** 2 / 2 / p[1] ** 2)
    return p[0] / np.pi * (p[1] / 2) / ((p[1] / 2) ** 2 + (x - p[2]) ** 2)


def integral(name, p, lo, hi):
    if name.startswith('G'):
        f = lambda x: .5 * np.array([erf(v) for v in (x - p[2]) / p[1] / np.sqrt(2)])
    else:
        f = lambda x: np.arctan((x - p[2]) / (p[1] / 2)) / np.pi
    return p[0] * (f(hi) - f(lo))


def models(names):
    from sherpa.models import NormGauss1D
    from sherpa.astro.models import Lorentz1D
    return [NormGauss1D(name=n) if n.startswith('G') else Lorentz1D(name=n) for n in names]


def table(names, nw, nl, form, order=-1):
    from marxs.reduction import lsfparm
    w, lam = grids(nw, nl)
    ml = models(names)
    tab = lsfparm.empty_lsfparmtable(w, lam, sum(ml[1:], ml[0]), 'MEG', order)
    for i, k in itertools.product(range(nw), range(nl)):
        tab['EE_FRACS'][0, i, k] = eef(w[i], lam[k], form)
        for j, n in enumerate(names):
            tab[n + '_PARMS'][0, i, k] = par(j, w[i], lam[k], form)
    return tab, w, lam


def own_value(names, w, lam, form, x):
    ps = [par(j, w, lam, form) for j in range(len(names))]
    tot = sum(p[0] for p in ps)
    return eef(w, lam, form) / tot * sum(profile(n, p, x) for n, p in zip(names, ps))


def check_model(ctx, m, names, w, lam, form, msg, rtol=2e-4):
    from marxs.reduction import lsfparm
    x = lam + np.array([-.5, -.1, -.03, -.01, 0, .004, .02, .2, 1.])
    ctx.close(m(x), own_value(names, w, lam, form, x), msg, rtol=rtol, atol=1e-4)
    lo, hi = x[:-1], x[1:]
    ps = [par(j, w, lam, form) for j in range(len(names))]
    tot = sum(p[0] for p in ps)
    want = eef(w, lam, form) / tot * sum(integral(n, p, lo, hi) for n, p in zip(names, ps))
    ctx.close(m(lo, hi), want, msg + ' integrated over bins', rtol=rtol, atol=1e-5)
    parts = lsfparm.flatten_sherpa_model(m)
    ctx.same([p.name for p in parts], ['EE_FRACS'] + [n + '_PARMS' for n in names], 'components')
    ctx.check(parts[0].c0.frozen, 'scale is frozen')
    ctx.close(sum(p.ampl.val for p in parts[1:]), 1., 'amplitudes normalized', atol=1e-6)


def nodes(ctx, comp, size, form):
    from marxs.reduction import lsfparm
    names, (nw, nl) = COMPS[comp], SIZES[size]
    tab, w, lam = table(names, nw, nl, form)
    d = tempfile.mkdtemp(dir=zoo.tmpdir())
    tab.write(os.path.join(d, 't.fits'), format='fits')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        back = Table.read(os.path.join(d, 't.fits'))
    for src, t in (('memory', tab), ('file', back)):
        for kind in ('cubic', 'linear', None):
            kw = {} if kind is None else {'kind': kind}
            sp = lsfparm.CALDB_interp(t[0], **kw)
            ctx.same(set(sp), {'EE_FRACS'} | {n + '_PARMS' for n in names}, 'interpolated columns')
            for i, k in itertools.product(range(nw), range(nl)):
                ctx.step()
                ctx.state(comp, size, form, src, kind, i, k)
                # limits are float32, stay inside
                lv = float(np.clip(np.float32(lam[k]), t['LAMBDAS'][0][0], t['LAMBDAS'][0][-1]))
                m = lsfparm.sherpa_from_spline(sp, w[i] * u.degree, lv * u.Angstrom)
                check_model(ctx, m, names, w[i], lam[k], form, f'{src} {kind} node {i},{k}')
                if kind is None:
                    m2 = lsfparm.caldb2sherpa(t, 0, i, k)
                    check_model(ctx, m2, names, w[i], lam[k], form, f'{src} direct node {i},{k}')
                    par_back = lsfparm.sherpa2caldb(m2.parts[1] if len(names) > 1 else lsfparm.flatten_sherpa_model(m2)[1])
                    tot = sum(par(j, w[i], lam[k], form)[0] for j in range(len(names)))
                    for j, n in enumerate(names):
                        p = par(j, w[i], lam[k], form)
                        p[0] /= tot
                        ctx.close(par_back[n + '_PARMS'], p, f'parameters of {n} returned', rtol=1e-5)
            if form == 'linear':
                for fi, fk in itertools.product([.3, .5] if nw > 1 else [0], [.1, .6, .9]):
                    for i, k in itertools.product(range(max(1, nw - 1)), range(nl - 1)):
                        wv = w[i] + fi * (w[i + 1] - w[i]) if nw > 1 else w[0]
                        lv = lam[k] + fk * (lam[k + 1] - lam[k])
                        ctx.step()
                        m = lsfparm.sherpa_from_spline(sp, wv * u.degree, lv * u.Angstrom)
                        check_model(ctx, m, names, wv, lv, form, f'{src} {kind} between nodes {wv}, {lv}')


def rows(ctx, comp):
    """several rows in one table: the row asked for is used"""
    from astropy.table import vstack
    from marxs.reduction import lsfparm
    names = COMPS[comp]
    t1, w, lam = table(names, 3, 4, 'linear')
    t2, w, lam = table(names, 3, 4, 'wave')
    t = vstack([t1, t2, t1], metadata_conflicts='silent')
    for r, form in enumerate(('linear', 'wave', 'linear')):
        sp = lsfparm.CALDB_interp(t[r])
        for i, k in itertools.product(range(3), range(4)):
            ctx.step(2)
            ctx.state(comp, r, i, k)
            check_model(ctx, lsfparm.caldb2sherpa(t, r, i, k), names, w[i], lam[k], form, f'row {r}')
            check_model(ctx, lsfparm.sherpa_from_spline(sp, w[i] * u.degree, float(np.float32(lam[k])) * u.Angstrom), names, w[i], lam[k], form, f'row {r}')


def to_caldb(ctx, comp):
    from marxs.reduction import lsfparm
    from sherpa.models import Gauss1D, Scale1D
    names = COMPS[comp]
    for vals in itertools.product([.2, 1., 40.], [.01, 2.5], [0., -3., 17.]):
        ml = models(names)
        for j, m in enumerate(ml):
            m.ampl, m.fwhm, m.pos = vals[0] * (j + 1), vals[1] / (j + 1), vals[2] + j
        tot = sum(ml[1:], ml[0])
        d = lsfparm.sherpa2caldb(tot)
        ctx.step()
        ctx.state(comp, vals)
        ctx.same(set(d), set(names), 'component names')
        for j, n in enumerate(names):
            wd = vals[1] / (j + 1) / (FW if n.startswith('G') else 1)
            ctx.close(d[n], [vals[0] * (j + 1), wd, vals[2] + j], f'parameters of {n}')
        ctx.same([m.name for m in lsfparm.flatten_sherpa_model(tot)], list(names), 'flattened')
        ctx.check(all(a is b for a, b in zip(lsfparm.flatten_sherpa_model(tot), ml)), 'flattened components are the components')
    ctx.raises(Exception, lambda: lsfparm.sherpa2caldb(tot + Gauss1D('GAUSS9')), 'unnormalized Gaussian')
    ctx.raises(Exception, lambda: lsfparm.sherpa2caldb(Scale1D('sc') * tot), 'scale component')


def flatten(ctx):
    """all ways to put brackets in sums of up to four components"""
    from marxs.reduction import lsfparm
    from sherpa.models import Scale1D

    def trees(items):
        if len(items) == 1:
            yield items[0]
        for i in range(1, len(items)):
            for a in trees(items[:i]):
                for b in trees(items[i:]):
                    yield a + b
    for n in (1, 2, 3, 4):
        ml = models([f'GAUSS{i + 1}' if i % 2 else f'LORENTZ{i + 1}' for i in range(n)])
        for t in trees(ml):
            for scaled in (False, True):
                s = Scale1D('s')
                f = lsfparm.flatten_sherpa_model(s * t if scaled else t)
                ctx.step()
                ctx.state(n, str(t.name), scaled)
                ctx.same([m.name for m in f], (['s'] if scaled else []) + [m.name for m in ml], 'components')


def empty(ctx, comp, size):
    from marxs.reduction import lsfparm
    from sherpa.models import Gauss1D
    names, (nw, nl) = COMPS[comp], SIZES[size]
    w, lam = grids(nw, nl)
    for order, ext in itertools.product((-3, 0, 1), ('MEG', 'HEG', 'LEG')):
        ml = models(names)
        t = lsfparm.empty_lsfparmtable(w, lam, sum(ml[1:], ml[0]), ext, order)
        ctx.step()
        ctx.state(comp, size, order, ext)
        ctx.same(len(t), 1, 'one row')
        ctx.same(t.colnames, ['NUM_WIDTHS', 'WIDTHS', 'NUM_LAMBDAS', 'LAMBDAS', 'TG_LAM_LO', 'TG_LAM_HI', 'EE_FRACS'] +
                 [n + '_PARMS' for n in names], 'columns')
        ctx.same((int(t['NUM_WIDTHS'][0]), int(t['NUM_LAMBDAS'][0])), (nw, nl), 'numbers')
        ctx.close(np.array(t['WIDTHS'][0]).ravel(), w, 'widths', rtol=1e-6)
        ctx.close(np.array(t['LAMBDAS'][0]).ravel(), lam, 'wavelengths', rtol=1e-6)
        ctx.check(np.all(np.array(t['TG_LAM_LO'][0]) < lam) and np.all(np.array(t['TG_LAM_HI'][0]) > lam), 'extraction box contains the wavelength')
        ctx.same((str(t['WIDTHS'].unit), str(t['LAMBDAS'].unit)), ('deg', 'Angstrom'), 'units')
        ctx.same(t['EE_FRACS'].shape, (1, nw, nl), 'shape of EE_FRACS')
        for n in names:
            ctx.same(t[n + '_PARMS'].shape, (1, nw, nl, 3), 'shape of parameters')
        for k, v in (('EXTNAME', ext), ('ORDER', order), ('TG_M', order), ('CCNM0001', 'LSFPARM'), ('CONTENT', f'CDB_{ext}_LSFPARM')):
            ctx.same(t.meta[k], v, k)
        for k, v in t.meta.items():
            ctx.check(isinstance(v, (str, int, float)), f'{k}: {v!r} cannot be written to FITS')
        datetime.datetime.fromisoformat(t.meta['DATE'])
        for grat in ('HETG', 'LETG'):
            if (grat == 'LETG') != (ext == 'LEG'):
                continue
            evt = Table({'a': [1]})
            evt.meta.update({'DetectorType': 'ACIS-S', 'GratingType': grat})
            lsfparm.lsfparmtable_add_Chandra_header(t, evt)
            shell = {'MEG': '1100', 'HEG': '0011', 'LEG': '1111'}[ext]
            for k, v in (('DETNAM', 'ACIS-S'), ('INSTRUME', 'ACIS'), ('GRATING', grat), ('TELESCOP', 'CHANDRA'), ('SHELL', shell),
                         ('CBD10001', f'ORDER({order})'), ('CBD30001', f'SHELL({shell})'), ('CBO10001', f'GRATING({grat})'),
                         ('CBO30001', f'TG_M({order})'), ('ORDER', order), ('EXTNAME', ext), ('GRATTYPE', ext if grat == 'HETG' else '')):
                ctx.same(t.meta[k], v, k)
    if len(names) > 1:
        ml = models([names[0]] * 2)
        ctx.raises(ValueError, lambda: lsfparm.empty_lsfparmtable(w, lam, ml[0] + ml[1], 'MEG', 1), 'same name twice')
    ctx.raises(ValueError, lambda: lsfparm.empty_lsfparmtable(w, lam, models(names)[0] + Gauss1D('GAUSS7'), 'MEG', 1), 'other component type')


def spline(ctx, kind, nx, ny):
    """the two-dimensional interpolation reproduces polynomials up to its degree and every node"""
    from marxs.reduction.lsfparm import interp2d_spline
    x = np.array([.1, .3, 1., 1.5, 2.7, 4.])[:nx]
    y = np.array([-1., 0., 2., 2.5, 7., 8., 9.])[:ny]
    deg = {'linear': 1, 'cubic': 3, 'quintic': 5}[kind]
    dx, dy = min(deg, nx - 1), min(deg, ny - 1)
    for a, b in itertools.product(range(dx + 1), range(dy + 1)):
        f = lambda p, q: (p - .5) ** a * (q + 2) ** b
        s = interp2d_spline(x, y, f(x[:, None], y[None, :]), kind=kind)
        for p, q in itertools.product(np.concatenate([x, .5 * (x[1:] + x[:-1])]), np.concatenate([y, .7 * y[1:] + .3 * y[:-1]])):
            ctx.step()
            v = np.asarray(s(p, q)).ravel()
            ctx.same(len(v), 1, 'one value')
            ctx.close(v[0], f(p, q), f'degree {a},{b} at {p},{q}', rtol=1e-7, atol=1e-8)
        ctx.state(kind, nx, ny, a, b)


def rmf(ctx, comp, size, edges):
    from marxs.reduction import lsfparm
    from marxs.reduction.ogip import RMF
    names, (nw, nl) = COMPS[comp], SIZES[size]
    tab, w, lam = table(names, nw, nl, 'linear')
    tab.meta['FILTER'] = 'NONE'
    tab.meta['INSTRUME'] = 'TEST'
    tab.meta['GRATING'] = 'HETG'
    hi = lam[-1]
    if edges == 'wave':
        e = (np.linspace(2.01, hi - .05, 24)) * u.Angstrom
    elif edges == 'fine':
        e = np.linspace(3., 3.4, 30) * u.Angstrom
    elif edges == 'down':
        e = np.linspace(hi - .05, 2.01, 13) * u.Angstrom
    else:
        e = np.linspace(12.398419843 / (hi - .1), 12.398419843 / 2.1, 17) * u.keV
    for wi, thr in itertools.product(range(min(nw, 2)), (1e-6, 1e-3)):
        wv = w[wi] if nw == 1 else .5 * (w[wi] + w[-1])
        out = lsfparm.make_rmf(tab[0], e, wv * u.degree, threshold=thr)
        ctx.step()
        ctx.state(comp, size, edges, wi, thr)
        wl = np.sort(e.to(u.Angstrom, equivalencies=u.spectral()).value)
        lo, up = wl[:-1], wl[1:]
        n = len(lo)
        ctx.same((len(out.matrix), len(out.ebounds)), (n, n), 'size')
        keV = 12.398419843320026 / wl[::-1]
        for t, cl, ch in ((out.matrix, 'ENERG_LO', 'ENERG_HI'), (out.ebounds, 'E_MIN', 'E_MAX')):
            ctx.close(u.Quantity(t[cl]).to_value(u.keV), keV[:-1], cl, rtol=1e-6)
            ctx.close(u.Quantity(t[ch]).to_value(u.keV), keV[1:], ch, rtol=1e-6)
            for k in ('INSTRUME', 'FILTER', 'GRATING', 'ORDER', 'TG_M', 'TELESCOP'):
                ctx.same(t.meta[k], tab.meta[k], k)
            ctx.same((t.meta['CHANTYPE'], t.meta['HDUCLAS3'], t.meta['DETCHANS']), ('PHA', 'REDIST', n), 'keywords')
        ctx.same(out.matrix.meta['LO_THRES'], thr, 'threshold')
        ctx.same(list(np.array(out.ebounds['CHANNEL'])), list(range(n)), 'channels')
        ctx.same((out.matrix.meta['TLMIN4'], out.ebounds.meta['TLMIN1']), (0, 0), 'first channel')
        for r in range(n):
            # row r in increasing energy is the wavelength bin n - 1 - r
            mid = .5 * (lo[n - 1 - r] + up[n - 1 - r])
            ps = [par(j, wv, mid, 'linear') for j in range(len(names))]
            tot = sum(p[0] for p in ps)
            want = (eef(wv, mid, 'linear') / tot * sum(integral(nm, p, lo, up) for nm, p in zip(names, ps)))[::-1]
            full = np.zeros(n)
            m = out.matrix[r]
            fc, nc, mat = np.ravel(m['F_CHAN']), np.ravel(m['N_CHAN']), np.ravel(m['MATRIX'])
            ctx.same((len(fc), len(nc)), (int(m['N_GRP']),) * 2, 'groups')
            ptr = 0
            for f, k in zip(fc, nc):
                f, k = int(f), int(k)
                full[f:f + k] = mat[ptr:ptr + k]
                ptr += k
            ctx.same(ptr, len(mat), 'elements')
            ctx.check(np.all((mat > thr * .999)), 'elements below the threshold')
            near = np.abs(want - thr) < 3e-4 * thr
            w2 = np.where(want > thr, want, 0)
            w2[near] = full[near]
            ctx.close(full, w2, f'row {r}, wavelength {mid}', rtol=3e-4, atol=2e-6)
            ctx.check(full.sum() <= eef(wv, mid, 'linear') * (1 + 1e-5), 'sum larger than the enclosed fraction')
    with tempfile.TemporaryDirectory(dir=zoo.tmpdir()) as d:
        f = os.path.join(d, 'a.rmf')
        out.write(f)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            back = RMF.read(f)
        ctx.same(len(back.matrix), n, 'file size')
        ctx.close(u.Quantity(back.ebounds['E_MIN']).to_value(u.keV), keV[:-1], 'file energies', rtol=1e-6)


def fit(ctx, name, pos):
    """a histogram that is exactly the profile gives back the parameters"""
    from marxs.reduction import lsfparm
    centre = {'in': 7., 'far': 21.5}[pos]
    for width, ampl, wb, dw in itertools.product((.008, .015), (200., 5000.), (.001, .0025), (.03, .06)):
        edges = np.arange(-dw, dw, wb)
        c = .5 * (edges[1:] + edges[:-1])
        off = c.mean()             # the histogram is centred on the mean of the photon wavelengths
        p = [ampl, width / FW if name.startswith('G') else width, centre + .002]
        x = centre + c
        # photons (three per bin, weights sum to the integral over the bin); mean wavelength is the centre + off
        y = integral(name, p, centre + edges[:-1], centre + edges[1:])
        xs = np.concatenate([x - wb / 5, x, x + wb / 5])
        wt = np.concatenate([y / 4, y / 2, y / 4])
        # two photons without weight restore the mean
        k = len(xs)
        xs = np.append(xs, [centre - off * k * 0.5, centre - off * k * 0.5])
        wt = np.append(wt, [0., 0.])
        evt = Table({'tg_mlam': xs * u.Angstrom, 'wv': (xs[::-1]) * u.Angstrom, 'probability': wt})
        evt2 = evt.copy()
        evt2['wv'] = evt['tg_mlam']
        evt2['tg_mlam'] = 5. * u.Angstrom
        for e, kw in ((evt, {}), (evt2, {'colname': 'wv'})):
            m = models([name])[0]
            m.ampl, m.fwhm, m.pos = ampl * .8, width * 1.2, centre
            before = e['tg_mlam'].copy()
            sd, res = lsfparm.fit_LSF(_Q(e), m, wavebin=wb, d_wave=dw, **kw)
            ctx.step()
            ctx.state(name, pos, width, ampl, wb, dw, str(kw))
            ctx.close(np.sum(sd.y), np.sum(y), 'histogram holds the weights', rtol=1e-6)
            ctx.close(sd.y, y, 'histogram', rtol=1e-6, atol=1e-9)
            ctx.close(sd.xlo, centre + edges[:-1], 'bins', atol=1e-9)
            ctx.check(np.all(sd.staterror >= 1), 'error floor')
            ctx.close(sd.staterror, np.maximum(1, np.sqrt(y)), 'errors', rtol=1e-6)
            ctx.close([m.ampl.val, m.fwhm.val, m.pos.val], [ampl, width, centre + .002], f'fit of {name}', rtol=2e-3)
            d = lsfparm.sherpa2caldb(m)[name]
            ctx.close(d, p, 'fitted parameters in table convention', rtol=2e-3)


def fit_args(ctx):
    """the statistic and the optimisation method that the user asks for are the ones used"""
    from sherpa import stats, optmethods
    from marxs.reduction import lsfparm
    edges = np.arange(-.03, .03, .0025)
    p = [500., .01 / FW, 7.]
    x = 7. + .5 * (edges[1:] + edges[:-1])
    y = integral('GAUSS1', p, 7. + edges[:-1], 7. + edges[1:])
    for st, me in itertools.product((None, stats.LeastSq, stats.Chi2, stats.CStat), (None, optmethods.LevMar, optmethods.NelderMead)):
        kw = {}
        if st:
            kw['stat'] = st()
        if me:
            kw['method'] = me()
        m = models(['GAUSS1'])[0]
        m.ampl, m.fwhm, m.pos = p[0] * .9, .011 / FW, 7.
        sd, res = lsfparm.fit_LSF(_Q(Table({'tg_mlam': x * u.Angstrom, 'probability': y})), m, wavebin=.0025, **kw)
        ctx.step()
        ctx.state(str(st), str(me))
        ctx.same(res.statname, (st or stats.LeastSq)().name, 'statistic')
        ctx.same(res.methodname, (me or optmethods.LevMar).__name__.lower(), 'method')


def _Q(t):
    from astropy.table import QTable
    return QTable(t)


def scenarios(ctx):
    yield from C.cases(nodes, 'nodes', COMPS, SIZES, ['linear', 'wave'])
    yield from C.cases(rows, 'rows', COMPS)
    yield from C.cases(to_caldb, 'to-caldb', COMPS)
    yield 'flatten', flatten
    yield from C.cases(empty, 'empty', COMPS, SIZES)
    yield from C.cases(spline, 'spline', ['linear', 'cubic', 'quintic'], [2, 3, 4, 6], [2, 3, 5, 7])
    yield from C.cases(rmf, 'rmf', COMPS if ctx.thorough else ['g', 'l', 'gl', 'ggl'], ['1x6', '3x4'], ['wave', 'fine', 'down', 'energy'])
    yield 'fit_args', fit_args
    yield from C.cases(fit, 'fit', ['GAUSS1', 'LORENTZ1'], ['in', 'far'])
