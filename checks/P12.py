"""All pixel centres, pixel edges and face borders of flat detectors over sizes x pixel sizes x placements, arc/height
lattice of tube detectors; number of pixels and warnings over a lattice of sizes."""
import itertools
import warnings
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

SIZES = {'sq': (1., 1.), 'aniso': (2., .75), 'one': (.5, .5), 'big': (12.5, 3.)}


def flat(ctx, sname, pixsize, place, direction):
    from marxs.optics import FlatDetector
    hy, hz = SIZES[sname]
    if abs(2 * hz / pixsize % 1 - .5) < 1e-6:
        hz += .01     # rounding is ambiguous half-way between two integers
    PLACES['det'] = dict(PLACES[place], zoom=[.7, hy, hz])
    det = FlatDetector(pixsize=pixsize, ignore_pixel_warning=True, **zoo.place_kw('det'))
    ny, nz = (int(round(2 * h / pixsize)) for h in (hy, hz))
    ctx.same([int(n) for n in det.npix], [ny, nz], 'npix')
    ctx.close(det.centerpix, [(ny - 1) / 2, (nz - 1) / 2], 'centerpix')

    def lat(n, h):
        steps = np.arange(-.5, n - .4, .5) if (n <= 9 or ctx.thorough and n < 60) else np.concatenate(
            [np.arange(-.5, 2.1, .5), [n / 2 - 1, n / 2 - .5, n / 2 + .1], np.arange(n - 3, n - .4, .5)])
        return steps
    rays, want, local, hit = [], [], [], []
    d = zoo.unit(direction)
    for px, py in itertools.product(lat(ny, hy), lat(nz, hz)):
        y = (px - (ny - 1) / 2) * pixsize
        z = (py - (nz - 1) / 2) * pixsize
        if max(abs(abs(y) - hy), abs(abs(z) - hz)) < 1e-9 or abs(abs(y) - hy) < 1e-9 or abs(abs(z) - hz) < 1e-9:
            y *= 1 - 1e-9          # stay clear of rounding at the border
            z *= 1 - 1e-9
        h = np.array([0, y, z])
        rays.append((h - 3. * d, d))
        want.append((px, py))
        local.append((y, z))
        hit.append(abs(y) < hy and abs(z) < hz)
        ctx.state(sname, pixsize, place, round(px, 6), round(py, 6))
    out = det(zoo.photons('det', rays))
    ctx.step()
    tol = 1e-6 * (1 + np.abs(PLACES[place]['position']).max() / pixsize * 1e-5)
    hit = np.array(hit)
    want, local = np.array(want), np.array(local)
    got = np.stack([out['detpix_x'], out['detpix_y']], axis=1)
    mm = np.stack([out['det_x'], out['det_y']], axis=1)
    ctx.close(got[hit], want[hit], 'pixel coordinates', atol=1e-5)
    ctx.close(mm[hit], local[hit], 'local coordinates', atol=tol)
    ctx.check(np.all(np.isnan(got[~hit])) and np.all(np.isnan(mm[~hit])), 'photons outside have pixel coordinates')
    integer = abs(2 * hy / pixsize - ny) < 1e-9 and abs(2 * hz / pixsize - nz) < 1e-9
    if integer:
        ctx.check(hit.all(), 'the whole face must be covered by pixels')
        ctx.check(np.nanmin(got[:, 0]) > -.5 - 1e-5 and np.nanmax(got[:, 0]) < ny - .5 + 1e-5, 'x range')
        ctx.check(np.nanmin(got[:, 1]) > -.5 - 1e-5 and np.nanmax(got[:, 1]) < nz - .5 + 1e-5, 'y range')
    # bijection: distinct pixel coordinates for distinct points
    ctx.same(len({tuple(np.round(r, 4)) for r in got[hit]}), len({tuple(np.round(r, 9)) for r in want[hit]}), 'one-to-one')


def names(ctx, place):
    """user defined column names"""
    from marxs.optics import FlatDetector, CircularDetector

    class MyDet(FlatDetector):
        loc_coos_name = ['a', 'b']
        detpix_name = ['c', 'd']
    PLACES['det'] = dict(PLACES[place], zoom=[1., 1., 2.])
    d = MyDet(pixsize=.5, id_col='num', id_num=4, **zoo.place_kw('det'))
    out = d(zoo.photons('det', [C.plane_hit(i, 'det') for i in range(3)]))
    ctx.step()
    ctx.state('names', place)
    ctx.close(out['c'], out['a'] / .5 + 1.5, 'c')
    ctx.close(out['d'], out['b'] / .5 + 3.5, 'd')
    ctx.check(not set(out.colnames) & {'det_x', 'det_y', 'detpix_x', 'detpix_y'}, 'default columns used')
    ctx.same(list(out['num']), [4, 4, 4], 'id')


def npix(ctx, pixsize):
    """number of pixels and the warning"""
    from marxs.optics import FlatDetector
    from marxs.utils import SimulationSetupWarning
    for a, b, ig in itertools.product([1, 2, 3.001, 7.02, 10.3, 10.7, 100.02, 1000.], [1, 4.4, 5., 8.985], [False, True]):
        hy, hz = a * pixsize / 2, b * pixsize / 2
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            det = FlatDetector(pixsize=pixsize, zoom=[1, hy, hz], position=[3, 4, 5.], ignore_pixel_warning=ig)
        ctx.step()
        ctx.state(a, b, pixsize, ig)
        n = len([x for x in w if issubclass(x.category, SimulationSetupWarning)])
        bad = [x for x in (a, b) if abs(x - round(x)) > 1e-2]
        ctx.same(n > 0, bool(bad) and not ig, f'warning for sizes {a}, {b} pixels, ignore={ig}')
        ctx.same([int(x) for x in det.npix], [round(a), round(b)], 'npix')
        ctx.close(det.centerpix, [(round(a) - 1) / 2, (round(b) - 1) / 2], 'centre')


def instances(ctx):
    """detectors built one after the other keep their own pixel grid"""
    from marxs.optics import FlatDetector
    dets = [(FlatDetector(pixsize=p, zoom=[1, h, 2 * h], ignore_pixel_warning=True), p, h)
            for p, h in itertools.product([.1, .25, 1.], [1., 2., 5.])]
    for order in (dets, dets[::-1]):
        for d, p, h in order:
            ph = zoo.photons('unit', [(np.array([1., .3, -.4]), np.array([-1., 0, 0]))])
            o = d(ph)
            ctx.step()
            ctx.state('inst', p, h)
            ctx.close([o['detpix_x'][0], o['detpix_y'][0]],
                      [.3 / p + (round(2 * h / p) - 1) / 2, -.4 / p + (round(4 * h / p) - 1) / 2], 'pixel')


def tube(ctx, R, pixsize, place, lim):
    from marxs.optics import CircularDetector
    zz = 4.
    PLACES['det'] = dict(PLACES[place], zoom=[R, R, zz])
    kw = zoo.place_kw('det')
    if lim:
        kw['phi_lim'] = list(lim)
    det = CircularDetector(pixsize=pixsize, **kw)
    lo, hi = lim if lim else (-np.pi + 1e-6, np.pi - 1e-6)
    phis = np.linspace(lo + 1e-6, hi - 1e-6, 25 if not ctx.thorough else 101)
    zs = np.array([-1 + 1e-9, -.5, 0., .25, 1 - 1e-9]) * zz
    rays, want, loc = [], [], []
    for phi, z in itertools.product(phis, zs):
        h = np.array([R * np.cos(phi), R * np.sin(phi), z])
        start = np.array([-.1 * R, .05 * R, .1])
        rays.append((start, zoo.unit(h - start)))
        want.append((phi * R / pixsize, z / pixsize))
        loc.append((phi, z))
        ctx.state('tube', R, pixsize, place, lim, round(phi, 5), round(z, 5))
    out = det(zoo.photons('det', rays))
    ctx.step()
    ctx.close(np.stack([out['detpix_x'], out['detpix_y']], 1), want, 'pixel', atol=1e-5 * max(1, R / pixsize * 1e-3))
    ctx.close(np.stack([out['det_phi'], out['det_y']], 1), loc, 'local', atol=1e-6)


def scenarios(ctx):
    dirs = [(-1, 0, 0), (-.6, .3, -.4), (.8, -.1, .2)]
    yield from C.cases(flat, 'flat', list(SIZES), [.1, .25, .5, 1., .3], zoo.NAMES, dirs)
    yield from C.cases(names, 'names', zoo.NAMES)
    yield from C.cases(npix, 'npix', [.1, .024, 1., 5])
    yield 'instances', instances
    yield from C.cases(tube, 'tube', [.5, 2., 100.], [.01, .25, 1.], zoo.NAMES, [None, (-2., 2.5), (0.1, 1.)])
