"""Energy grids (in eV, keV, Angstrom) x orders -4..4 x detector resolution tables (sigma or FWHM) x all sorter classes
(fixed width, fixed fraction, fractional distance, own classes that override only the range or only the widths) against
an independent Gaussian integral; all sequences up to depth 2 (thorough 3) of sorter x order applied to the same file;
all combinations of present input files for the batch driver."""
import itertools
import logging
import math
import os
import tempfile
import warnings
import numpy as np
import astropy.units as u
from astropy.table import QTable
from . import _common as C

logging.getLogger('marxs.reduction.osip').setLevel(logging.ERROR)
F = 2 * math.sqrt(2 * math.log(2))
TABS = {'flat': ([.01, 20.], [50., 50.]), 'linear': ([.1, .4, 1., 4.], [20., 35., 50., 110.])}
META = {'TELESCOP': 'T', 'INSTRUME': 'I', 'FILTER': 'F'}
EN = np.array([.11, .3, .4, .75, 1.9, 6.])


def det(name, form='sigma'):
    from marxs.optics.detector import CCDRedistNormal
    e, s = TABS[name]
    t = QTable({'energy': e * u.keV})
    if form == 'sigma':
        t['sigma'] = s * u.eV
    elif form == 'FWHM':
        t['FWHM'] = np.array(s) * F * u.eV
    else:
        t = QTable({'energy': np.array(e) * 1000 * u.eV, 'FWHM': np.array(s) * F / 1000 * u.keV})
    return CCDRedistNormal(tab_width=t)


def sig(name, e):
    return np.interp(e, *TABS[name])


def phi(x):
    return np.array([.5 * math.erfc(-v / math.sqrt(2)) for v in np.atleast_1d(x)])


def invphi(p):
    lo, hi = -20., 20.
    for _ in range(200):
        m = (lo + hi) / 2
        if phi(m)[0] < p:
            lo = m
        else:
            hi = m
    return lo


def to(e, unit):
    return (e * u.keV).to(unit, equivalencies=u.spectral())


def resolution(ctx, name, form, unit):
    d = det(name, form)
    q = to(EN, unit)
    ctx.step(3)
    ctx.close(d.sig_ccd(q).to_value(u.eV), sig(name, EN), 'width of the detector resolution', rtol=1e-9)
    for loc in EN:
        x = loc + np.array([-3, -1, -.2, 0, .5, 2]) * sig(name, loc) / 1e3
        x = x[x > 0]
        want = phi((x - loc) / sig(name, loc) * 1e3)
        for unit2 in (u.keV, u.eV):
            ctx.state(name, form, loc)
            ctx.close(d.cdf(to(x, unit), to(np.full(len(x), loc), unit2)), want, 'cdf', rtol=1e-6, atol=1e-9)
    for a in (.1, .5, .9, .997):
        got = u.Quantity(d.interval(a, q)).to_value(u.keV, equivalencies=u.spectral())
        w = invphi(.5 + a / 2) * sig(name, EN) / 1e3
        ctx.close(got, np.array([EN - w, EN + w]), 'interval', rtol=1e-8)


def sorters(name, d=None):
    from marxs.reduction import osip
    d = d or det(name)
    s = lambda e: sig(name, e) / 1e3

    class OnlyTab(osip.OSIPBase):
        @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
        def osip_tab(self, chan_mid, order):
            e = chan_mid.to(u.keV, equivalencies=u.spectral())
            return u.Quantity([.1 * e, .2 * e])

    class OnlyRange(osip.OSIPBase):
        @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
        def osip_range(self, chan_mid, order):
            e = chan_mid.to(u.keV, equivalencies=u.spectral())
            return u.Quantity([.9 * e, 1.2 * e])

    asym = lambda e, o: (.1 * e, .2 * e)
    return {'width40': (osip.FixedWidthOSIP(40 * u.eV, ccd_redist=d), lambda e, o: (.04 + 0 * e,) * 2),
            'width.1keV': (osip.FixedWidthOSIP(.1 * u.keV, ccd_redist=d), lambda e, o: (.1 + 0 * e,) * 2),
            'frac.5': (osip.FixedFractionOSIP(.5, ccd_redist=d), lambda e, o: (invphi(.75) * s(e),) * 2),
            'frac.9': (osip.FixedFractionOSIP(.9, ccd_redist=d), lambda e, o: (invphi(.95) * s(e),) * 2),
            'dist1': (osip.FractionalDistanceOSIP(ccd_redist=d), lambda e, o: (e / abs(o) / 2,) * 2),
            'dist.6': (osip.FractionalDistanceOSIP(.6, ccd_redist=d), lambda e, o: (.3 * e / abs(o),) * 2),
            'tab': (OnlyTab(d), asym), 'range': (OnlyRange(d), asym)}


ORDERS = [-4, -3, -2, -1, 1, 2, 3, 4]


def want_factor(name, width, e, nominal, true):
    if nominal * true <= 0:
        return np.zeros(len(e))
    lo, hi = width(e, nominal)
    et = e * true / nominal
    s = sig(name, et) / 1e3
    return phi((e + hi - et) / s) - phi((e - lo - et) / s)


def regions(ctx, name, kind, unit):
    o, width = sorters(name)[kind]
    for sl in (slice(None), slice(2, 3), slice(None, None, -1), slice(0, 2)):
        e = EN[sl]
        q = to(e, unit)
        keep = q.copy()
        for order in ORDERS:
            lo, hi = width(e, order)
            ctx.step(2)
            ctx.state(name, kind, order, len(e))
            tab, ran = u.Quantity(o.osip_tab(q, order)), u.Quantity(o.osip_range(q, order))
            ctx.check(tab.unit.physical_type == 'energy' and ran.unit.physical_type == 'energy', 'not an energy')
            ctx.close(tab.to_value(u.keV), np.array([lo, hi]), f'widths for order {order}', rtol=1e-7, atol=1e-12)
            ctx.close(ran.to_value(u.keV), np.array([e - lo, e + hi]), f'region for order {order}', rtol=1e-7,
                      atol=1e-12)
            for true in [0] + ORDERS:
                ctx.step()
                got = np.broadcast_to(np.asarray(u.Quantity(o.osip_factor(q, order, true)).to_value(1)), len(e))
                ctx.close(got, want_factor(name, width, e, order, true), f'fraction of order {true} in {order}',
                          rtol=1e-5, atol=1e-8)
        ctx.check(np.all(q == keep), 'input energies modified')
    if kind in ('dist1', 'dist.6'):
        # at one place on the detector, regions of neighbouring orders touch or leave the documented gap
        e1 = EN[:3] / 4
        f = 1. if kind == 'dist1' else .6
        for order in (1, 2, 3):
            for s in (-1, 1):
                up = o.osip_range(to(e1 * order, unit), s * order)[1]
                low = o.osip_range(to(e1 * (order + 1), unit), s * (order + 1))[0]
                ctx.close((low - up).to_value(u.keV), (1 - f) * e1, 'gap between orders', rtol=1e-7, atol=1e-12)


def arf(specresp, order, **kw):
    from marxs.reduction.ogip import ARF
    edges = np.array([.3, .5, .8, 1.])[:len(specresp) + 1]
    a = ARF()
    a['ENERG_LO'] = edges[:-1] * u.keV
    a['ENERG_HI'] = edges[1:] * u.keV
    a['SPECRESP'] = specresp * u.cm**2
    a.meta.update(META)
    a.meta['ORDER'] = order
    a.meta.update(kw)
    return a, (edges[1:] + edges[:-1]) / 2


def full(a, col, n):
    return np.broadcast_to(np.asarray(u.Quantity(a[col]).value, float), n)


SEQ = [('width40', 0), ('frac.9', 0), ('dist.6', 1), ('width.1keV', -1), ('range', 0)]


def apply(ctx, order, area, first):
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, mid = arf(np.array(area), order, EXTRA='keep me')
        cur = os.path.join(tmp, 'in.arf')
        a.write(cur)
        extend(ctx, tmp, cur, order, area, mid, sorters('linear'), (), first)


def extend(ctx, tmp, cur, order, area, mid, so, seq, first=None):
    """depth first search: every order sorting applied to the current file, up to the maximal depth"""
    from marxs.reduction.ogip import ARF
    for i, (kind, off) in enumerate(SEQ):
        nominal = order + off
        if nominal * order <= 0 or (first is not None and i != first):
            continue
        this = seq + ((kind, off),)
        before = open(cur, 'rb').read()
        out = os.path.join(tmp, 'sub/' + '_'.join(k for k, o in this))
        so[kind][0].apply_osip(cur, out, nominal, outroot='root')
        ctx.step()
        ctx.state(order, area, this)
        ctx.check(open(cur, 'rb').read() == before, 'input file changed')
        files = os.listdir(out)
        ctx.same(len(files), 1, 'number of files written')
        ctx.check(files[0].startswith('root') and files[0].endswith('.arf'), f'filename {files}')
        new = os.path.join(out, files[0])
        fac = want_factor('linear', so[kind][1], mid / order * nominal, nominal, order)

        def correct():
            r = ARF.read(new)
            ctx.close(full(r, 'OSIPFAC', len(area)), fac, f'{this}: recorded factor', rtol=1e-5, atol=1e-8)
            ctx.close(full(r, 'SPECRESP', len(area)), np.array(area) * fac, f'{this}: effective area', rtol=1e-5,
                      atol=1e-8)
            ctx.check(u.Quantity(r['SPECRESP']).unit == u.cm**2, 'unit of effective area')
            ctx.close((r['ENERG_LO'] + r['ENERG_HI']).to_value(u.keV) / 2, mid, 'energies')
            ctx.same((int(r.meta['TRUEORD']), int(r.meta['CCDORDER']), int(r.meta['ORDER']), r.meta['EXTRA'],
                      r.meta['TELESCOP'], r.meta['OSIP'], r.meta['INSTRUME']),
                     (order, nominal, order, 'keep me', 'T', so[kind][0].osip_description, f'ORDER_{nominal}'),
                     'header')

        correct()
        if len(this) < (2 if not ctx.thorough else 3):
            extend(ctx, tmp, new, order, area, mid, so, this)
        elif i == 0:
            content = open(new, 'rb').read()
            ctx.raises(OSError, lambda: so[kind][0].apply_osip(new, out, nominal, outroot='root'))
            ctx.check(open(new, 'rb').read() == content, 'existing file was overwritten')
            so[kind][0].apply_osip(new, out, nominal, outroot='root', overwrite=True)
            correct()


def opposite(ctx, order, nominal):
    from marxs.reduction.ogip import ARF
    nominal = nominal * -np.sign(order)
    o = sorters('flat')['dist1'][0]
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, mid = arf(np.array([1., 2., 3.]), order)
        a.write(os.path.join(tmp, 'in.arf'))
        o.apply_osip(os.path.join(tmp, 'in.arf'), os.path.join(tmp, 'o'), nominal)
        ctx.step()
        ctx.state(order, nominal)
        r = ARF.read(os.path.join(tmp, 'o', os.listdir(os.path.join(tmp, 'o'))[0]))
        ctx.check(np.all(full(r, 'SPECRESP', 3) == 0), 'orders on the other side contribute')
        ctx.same(np.shape(r['SPECRESP']), (3,), 'one area per energy')


def batch(ctx, orders, present, offsets):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from marxs.reduction import osip
    from marxs.reduction.ogip import ARF, filename_from_meta
    o = osip.FractionalDistanceOSIP(.6, ccd_redist=det('linear'), offset_orders=list(offsets))
    width = sorters('linear')['dist.6'][1]
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        inp, out = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        os.mkdir(inp)
        for p in present:
            a, mid = arf(np.array([1., 2., 3.]) * abs(p), p)
            a.write(os.path.join(inp, 'x' + filename_from_meta('arf', **a.meta)))
        o.apply_osip_all(inp, out, list(orders), inroot='x', outroot='y')
        plt.close('all')
        ctx.step()
        ctx.state(orders, present, offsets)
        want = {(n, n + t) for n in orders for t in offsets if n * (n + t) > 0 and n + t in present}
        got = set()
        for f in (os.listdir(out) if os.path.exists(out) else []):
            if f.endswith('.arf'):
                r = ARF.read(os.path.join(out, f))
                n, t = int(r.meta['CCDORDER']), int(r.meta['TRUEORD'])
                got.add((n, t))
                ctx.check(f.startswith('y'), 'prefix')
                fac = want_factor('linear', width, mid / t * n, n, t)
                ctx.close(full(r, 'SPECRESP', 3), np.array([1., 2., 3.]) * abs(t) * fac, f'area of {n}, {t}',
                          rtol=1e-5, atol=1e-8)
        ctx.same(sorted(got), sorted(want), 'pairs of nominal and true order')
        ctx.same(len(os.listdir(inp)), len(present), 'input folder untouched')
        if want:
            ctx.check(os.path.exists(os.path.join(out, 'yOSIP_regions.pdf')), 'overview plot')


def prefixes(ctx, inroot, outroot):
    """prefixes are used as they are, existing files are kept unless told otherwise"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from marxs.reduction import osip
    from marxs.reduction.ogip import filename_from_meta
    o = osip.FractionalDistanceOSIP(.6, ccd_redist=det('linear'), offset_orders=[0, -1])
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        inp, out = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        os.mkdir(inp)
        for p in (-2, -3):
            a, mid = arf(np.array([1., 2., 3.]) * abs(p), p)
            a.write(os.path.join(inp, inroot + filename_from_meta('arf', **a.meta)))
        o.apply_osip_all(inp, out, [-2], inroot=inroot, outroot=outroot)
        first = {f: open(os.path.join(out, f), 'rb').read() for f in os.listdir(out) if f.endswith('.arf')}
        ctx.step()
        ctx.state(inroot, outroot)
        ctx.same(len(first), 2, 'number of files')
        stems = sorted(f[len(outroot):] for f in first if f.startswith(outroot))
        ctx.same(len(stems), 2, f'prefix {outroot}: {sorted(first)}')
        ref = os.path.join(tmp, 'ref')
        o.apply_osip_all(inp, ref, [-2], inroot=inroot)
        ctx.same(stems, sorted(f for f in os.listdir(ref) if f.endswith('.arf')), 'names with and without prefix')
        # other input, same names
        for p in (-2, -3):
            a, mid = arf(np.array([5., 5., 5.]) * abs(p), p)
            a.write(os.path.join(inp, inroot + filename_from_meta('arf', **a.meta)), overwrite=True)
        ctx.raises(OSError, lambda: o.apply_osip_all(inp, out, [-2], inroot=inroot, outroot=outroot), 'files exist')
        for f in first:
            ctx.check(open(os.path.join(out, f), 'rb').read() == first[f], f'{f} was changed')
        o.apply_osip_all(inp, out, [-2], inroot=inroot, outroot=outroot, overwrite=True)
        for f in first:
            ctx.check(open(os.path.join(out, f), 'rb').read() != first[f], f'{f} was not replaced')
        plt.close('all')


def scenarios(ctx):
    yield from C.cases(prefixes, 'prefixes', ['', 'x', 'chan_1_'], ['', 'y', 'chan_1_', '_a', 'v1.2-'])
    yield from C.cases(resolution, 'resolution', TABS, ['sigma', 'FWHM', 'eV'], [u.keV, u.eV, u.Angstrom])
    yield from C.cases(regions, 'regions', TABS, ['width40', 'width.1keV', 'frac.5', 'frac.9', 'dist1', 'dist.6', 'tab',
                                                  'range'], [u.keV, u.Angstrom] + ([u.eV, u.nm] if ctx.thorough else []))
    yield from C.cases(apply, 'apply', [-5, 3] + ([-2, 1, 4] if ctx.thorough else []),
                       [(1., 2., 5.), (2., 2., 2.), (3.,)], range(len(SEQ)))
    yield from C.cases(opposite, 'opposite side', [-3, 2], [1, 5])
    pres = [(-3, -1, 2), (1,), (-3, -2, -1, 1, 2, 3)]
    if ctx.thorough:
        pres = [c for k in range(5) for c in itertools.combinations((-3, -2, -1, 1, 2), k)]
    yield from C.cases(batch, 'batch', [(-2,), (-1, 2)], pres, [(-1, 0, 1), (0, -2)])
