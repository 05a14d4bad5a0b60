"""Product grid of quantiles for all draws (radius x position angle, two normal components, choice of segment x place)
x centres over the whole sky (poles, 0/360 meridian, generic; ICRS and other frames) x sizes from arcsec to most of the
sky; separations and position angles recomputed with plain vector algebra."""
import itertools
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from mc import rng
from . import _common as C

CENTRES = {'origin': (0., 0.), 'gen': (123.4, -45.6), 'wrap': (359.9999, 10.), 'wrap0': (1e-4, -33.), 'high': (200., 89.9),
           'npole': (30., 90.), 'spole': (300., -90.), 'south': (270., -60.), 'neg': (-30., 20.)}
FRAMES = {'icrs': 'icrs', 'galactic': 'galactic', 'fk5': 'fk5'}


def vec(ra, dec):
    ra, dec = np.deg2rad(ra), np.deg2rad(dec)
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], -1)


def centre(cname, frame='icrs'):
    lon, lat = CENTRES[cname]
    return SkyCoord(lon, lat, unit='deg', frame=frame)


def polar(photons, c0):
    """separation and position angle (both in rad) from plain vectors; angle measured in a local basis at the centre"""
    c = c0.icrs
    n = vec(c.ra.deg, c.dec.deg)
    a = np.array([0, 0, 1.]) if abs(n[2]) < .9 else np.array([1., 0, 0])
    e1 = np.cross(a, n)
    e1 = e1 / np.sqrt(e1 @ e1)
    e2 = np.cross(n, e1)
    v = vec(np.asarray(photons['ra'], float), np.asarray(photons['dec'], float))
    sep = np.arctan2(np.sqrt((np.cross(v, n) ** 2).sum(-1)), v @ n)
    return sep, np.arctan2(v @ e1, v @ e2) % (2 * np.pi)


def common(ctx, ph, n):
    ctx.same(len(ph), n, 'number of photons')
    ra, dec = np.asarray(ph['ra'], float), np.asarray(ph['dec'], float)
    ctx.check(np.all(np.isfinite(ra) & np.isfinite(dec)), 'coordinates are numbers')
    ctx.check(np.all((ra >= 0) & (ra <= 360) & (abs(dec) <= 90)), 'ranges of coordinates')
    ctx.same((str(ph['ra'].unit), str(ph['dec'].unit)), ('deg', 'deg'), 'units')
    ctx.same(ph.meta['COORDSYS'][0], 'ICRS', 'coordinate system keyword')
    for c in ('time', 'energy', 'polangle', 'probability'):
        ctx.check(c in ph.colnames, f'column {c}')


def gen(src, nr, nphi):
    eng = rng.Rows([np.repeat((np.arange(nr) + .5) / nr, nphi), np.tile((np.arange(nphi) + .5) / nphi, nr)])
    with rng.active(eng):
        return src(1 * u.s)


def make(cls, n, c0, **kw):
    from marxs import source
    from marxs.source import basesources
    C_ = getattr(source, cls, None) or getattr(basesources, cls)
    return C_(coords=c0, flux=n / u.s / u.cm**2, polarization=.3 * u.rad, energy=1 * u.keV, **kw)


def radial(ctx, ph, c0, law, n, tol):
    """law: q -> radius. All radii and, for each radius, all position angles have to occur"""
    sep, pa = polar(ph, c0)
    want = np.sort(law((np.arange(n) + .5) / n))
    got = np.sort(sep).reshape(n, n)
    ctx.check(np.abs(got - want[:, None]).max() <= tol, lambda: f'radii differ from radial law: {got[:, 0][:6]} expected {want[:6]} rad')
    order = np.argsort(sep, kind='stable')
    for k, row in enumerate(pa[order].reshape(n, n)):
        if got[k].min() < 1e-9:
            continue
        gaps = np.diff(np.sort(row))
        ctx.check(np.abs(gaps - 2 * np.pi / n).max() < .05 * 2 * np.pi / n + 1e-6,
                  lambda: f'position angles at radius {got[k][0]} are not uniform: {np.sort(row)}')


def disk(ctx, cls, cname, frame, rin, rout, unit):
    n = 12
    c0 = centre(cname, frame)
    if rin is None:
        src = make(cls, n * n, c0, a_outer=rout * u.deg)
        a, b = 0., np.deg2rad(rout)
    else:
        src = make(cls, n * n, c0, a_inner=(rin * u.deg).to(unit), a_outer=(rout * u.deg).to(unit))
        a, b = np.deg2rad(rin), np.deg2rad(rout)
    ph = gen(src, n, n)
    ctx.step()
    ctx.state(cls, cname, frame, rin, rout)
    common(ctx, ph, n * n)
    if cls == 'DiskSource':
        # small angle approximation
        radial(ctx, ph, c0, lambda q: np.sqrt(a * a + q * (b * b - a * a)), n, .02 * b ** 3 + 3e-8 if frame == 'icrs' else 1e-6 + .02 * b**3)
    else:
        radial(ctx, ph, c0, lambda q: np.arccos(np.cos(a) + q * (np.cos(b) - np.cos(a))), n, 3e-8 + 1e-7 * b if b > 1e-3 else 3e-8)


def generic(ctx, cname, frame, scale):
    """any radial distribution function; func_par is accessible"""
    n = 12
    c0 = centre(cname, frame)

    def f(k):
        calls.append(k)
        return np.random.rand(k) ** 2 * scale * u.deg
    calls = []
    src = make('RadialDistributionSource', n * n, c0, radial_distribution=f, func_par=(3, 4))
    ctx.same(src.func_par, (3, 4), 'func_par')
    ph = gen(src, n, n)
    ctx.step()
    ctx.state('generic', cname, frame, scale)
    ctx.same(calls, [n * n], 'number of photons passed to radial distribution')
    common(ctx, ph, n * n)
    radial(ctx, ph, c0, lambda q: np.deg2rad(q ** 2 * scale), n, 1e-7 + .02 * np.deg2rad(scale) ** 3)


def point(ctx, cname, frame):
    c0 = centre(cname, frame)
    src = make('PointSource', 5, c0)
    ph = src(1 * u.s)
    ctx.step()
    ctx.state('point', cname, frame)
    common(ctx, ph, 5)
    sep, pa = polar(ph, c0)
    ctx.check(sep.max() < 1e-9, 'point source photons are not at its coordinates')
    if frame == 'icrs':
        ctx.close(ph['dec'], np.full(5, CENTRES[cname][1]), 'dec')
        ctx.close(np.asarray(ph['ra']) % 360, np.full(5, CENTRES[cname][0] % 360), 'ra')


def gauss(ctx, cname, frame, sigma, unit):
    n = 15
    c0 = centre(cname, frame)
    src = make('GaussSource', n * n, c0, sigma=(sigma * u.deg).to(unit))
    ph = gen(src, n, n)
    ctx.step()
    ctx.state('gauss', cname, frame, sigma)
    common(ctx, ph, n * n)
    from scipy.special import ndtri
    z = ndtri((np.arange(n) + .5) / n) * np.deg2rad(sigma)
    sep, pa = polar(ph, c0)
    want = np.sort(np.sqrt(z[:, None] ** 2 + z ** 2).ravel())
    ctx.check(np.abs(np.sort(sep) - want).max() <= 5e-8 + np.deg2rad(sigma) ** 3 * 3, 'radii of Gaussian source')
    # the grid is symmetric under rotations by 90 deg, so are the moments
    x, y = sep * np.cos(pa), sep * np.sin(pa)
    var = (z ** 2).mean()
    ctx.check(abs(x.mean()) + abs(y.mean()) < 1e-3 * np.sqrt(var) + 1e-9, 'Gaussian is not centred')
    ctx.check(abs((x * x).mean() / var - 1) < 2e-2 and abs((y * y).mean() / var - 1) < 2e-2 and abs((x * y).mean() / var) < 1e-2, 'widths')


def symbol(ctx, cname, frame, size):
    n = 900
    g = np.arange(n)
    c0 = centre(cname, frame)
    kw = {} if size is None else {'size': size * u.deg}
    src = make('SymbolFSource', n, c0, **kw)
    size = 1. if size is None else size
    # one draw of n numbers (and further draws for each part) or two draws of n numbers in any order
    eng = rng.Rows([(g // 30 + .5) / 30, (g % 30 + .5) / 30])
    with rng.active(eng):
        ph = src(1 * u.s)
    ctx.step()
    ctx.state('F', cname, frame, size)
    common(ctx, ph, n)
    dra = (np.asarray(ph['ra']) - c0.icrs.ra.deg + 180) % 360 - 180
    ddec = np.asarray(ph['dec']) - c0.icrs.dec.deg
    x, y = dra / size, ddec / size
    t = 1e-6 / size
    base = (abs(y) < t) & (x > -t) & (x < 1 + t)
    bar = (abs(x - 1) < t) & (y > -t) & (y < .5 + t)
    mid = (abs(x - .8) < t) & (y > -t) & (y < .3 + t)
    ctx.check(np.all(base | bar | mid), lambda: f'photons off the F: {x[~(base | bar | mid)][:3]} {y[~(base | bar | mid)][:3]}')
    for nm, s, v, L in (('base', base, x, 1.), ('bar', bar, y, .5), ('middle', mid, y, .3)):
        ctx.check(abs(s.sum() - n / 3) <= 2, f'{nm} has {s.sum()} of {n} photons')
        v = np.sort(v[s])
        ctx.check(np.abs(v - L * (np.arange(len(v)) + .5) / len(v)).max() < L * .08, f'{nm} not uniform')


def misc(ctx):
    from marxs.source import PointSource, DiskSource
    ctx.state('misc')
    ctx.raises(ValueError, lambda: PointSource(coords=SkyCoord([1, 2], [3, 4], unit='deg')), 'coordinates must be scalar')
    s = PointSource(coords='1h12m43.2s +1d12m43s')
    ph = s(2 * u.s)
    ctx.step()
    ctx.close(ph['ra'], np.full(2, 15 * (1 + 12 / 60 + 43.2 / 3600)), 'coordinates from string', rtol=1e-8)
    for cls, kw in [('PointSource', {}), ('DiskSource', dict(a_outer=1 * u.deg)), ('SphericalDiskSource', dict(a_outer=1 * u.deg)),
                    ('GaussSource', dict(sigma=1 * u.deg)), ('SymbolFSource', {})]:
        src = make(cls, 1, centre('gen'), **kw)
        ph = src(0. * u.s)
        ctx.step()
        common(ctx, ph, 0)
    # two sources of the same class keep their own parameters
    a = make('DiskSource', 144, centre('gen'), a_outer=1 * u.deg)
    b = make('DiskSource', 144, centre('origin'), a_inner=2 * u.deg, a_outer=3 * u.deg)
    for src, lo, hi, c0 in ((a, 0, 1, 'gen'), (b, 2, 3, 'origin'), (a, 0, 1, 'gen')):
        sep = np.rad2deg(polar(gen(src, 12, 12), centre(c0))[0])
        ctx.step()
        ctx.check(sep.min() >= lo and sep.max() <= hi, 'radius range of one of several sources')


def scenarios(ctx):
    cen = list(CENTRES)
    yield from C.cases(point, 'point', cen, list(FRAMES))
    yield from C.cases(disk, 'disk', ['DiskSource'], cen, list(FRAMES), [None, 0., .5], [.6, 1.5], ['arcsec'])
    yield from C.cases(disk, 'small', ['DiskSource', 'SphericalDiskSource'], cen, ['icrs'], [0., 3e-3], [5e-3], ['rad'])
    yield from C.cases(disk, 'sphere', ['SphericalDiskSource'], cen, list(FRAMES), [None, 0., .5, 20.], [25., 80., 120., 180.], ['deg'])
    yield from C.cases(generic, 'generic', cen, ['icrs', 'galactic'], [.1, 2.])
    yield from C.cases(gauss, 'gauss', cen, list(FRAMES), [1e-3, .1, 1.], ['arcmin'])
    yield from C.cases(symbol, 'F', ['origin', 'gen', 'wrap', 'wrap0', 'south', 'neg'], list(FRAMES), [None, .01, 5.])
    yield 'misc', misc
