"""Impact lattice x field angles x focal lengths x axis offsets x reflectivity functions x placements: own focus point,
deflection angle, polarization transport; thin lens: own Rodrigues rotation."""
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

ZOOM = [1., 30., 20.]
FIELD = [(0., 0.), (1e-3, 0.), (0., -.02), (.05, .03), (-.3, .2), (0., .6)]


def lattice(n=5):
    g = np.linspace(-.98, .98, n)
    return [(a * ZOOM[1], b * ZOOM[2]) for a in g for b in g]


def beam(field, side):
    return zoo.unit((-side, field[0], field[1]))


def transport(d1, d2, pol):
    """parallel transport: component perpendicular to the plane of scattering stays, other rotates with the ray"""
    s = np.cross(d1, d2)
    n = np.linalg.norm(s)
    if n < 1e-12:
        return pol
    s = s / n
    return (pol @ s) * s + (pol @ np.cross(s, d1)) * np.cross(s, d2)


REFL = {'none': None,
        'const': lambda e, a: .7 + 0 * a,
        'angle': lambda e, a: np.exp(-10 * a) + 0 * e,
        'energy': lambda e, a: 1 / (1 + e + 3 * a)}


def calls(kind, log):
    f = REFL[kind]

    def refl(energy, ang, grid=True):
        assert grid is False
        log.append((np.array(energy), np.array(ang)))
        return f(np.asarray(energy), np.asarray(ang))
    return refl


def perfect(ctx, kind, place, side, axis):
    from marxs.optics import PerfectLens
    PLACES['le'] = dict(PLACES[place], zoom=ZOOM)
    R = np.asarray(PLACES[place]['orientation'])
    hits = lattice(7 if ctx.thorough else 5)
    for f in (50., 333., 12000.):
        for field in FIELD:
            for back in (3., 0., 500.):
                d = beam(field, side)
                log = []
                kw = {} if kind == 'none' else {'reflectivity_interpolator': calls(kind, log)}
                if axis is not None:
                    kw['d_center_optical_axis'] = axis
                lens = PerfectLens(focallength=f, **kw, **zoo.place_kw('le'))
                rays = [(np.array([0, y, z]) - back * d, d) for y, z in hits]
                if back == 0 and place != 'unit':
                    rays = [(r[0] - 1e-3 * d, d) for r in rays]
                # photons that miss, in between
                rays.insert(3, (np.array([0, 40., 0]) - back * d, d))
                rays.append((np.array([0, 0, 25.]) - back * d, d))
                n = len(rays)
                miss = np.zeros(n, bool)
                miss[[3, -1]] = True
                en = .3 + .2 * np.arange(n)
                ph = zoo.photons('le', rays, energy=en, prob=np.full(n, .5))
                E = np.array([zoo.perp(d, .4 * k) for k in range(n)])
                ph['polarization'] = zoo.to_global('le', E, 0)
                keep = zoo.columns(ph)
                out = C.run(lens, ph)
                ctx.step()
                ctx.state(kind, place, side, axis, f, field, back)
                h = np.insert(np.array([[0, y, z] for y, z in hits]), 3, [0, 0, 0], axis=0)
                h = np.vstack([h, [[0, 0, 0]]])
                c = np.array([0, 0, -(axis or 0.)])
                want = zoo.unit(c + f * d - h)
                hit = ~miss
                ctx.close(np.array(out['pos'])[hit], zoo.to_global('le', h, 1)[hit], 'position', rtol=1e-9, atol=1e-6)
                ctx.close(np.array(out['dir'])[hit], zoo.to_global('le', want, 0)[hit], 'direction', atol=1e-8)
                # all rays meet in one point at distance f from the axis point
                foc = zoo.to_global('le', [c + f * d], 1)[0]
                p, dd = np.array(out['pos'])[hit][:, :3], np.array(out['dir'])[hit][:, :3]
                t = ((foc[:3] - p) * dd).sum(1)
                ctx.check(np.all(t > 0), 'focus lies in front of the photons')
                ctx.close(p + t[:, None] * dd, np.broadcast_to(foc[:3], p.shape), 'focus point', rtol=1e-9, atol=1e-5)
                ang = np.arccos(np.clip(want @ d, -1, 1))
                if kind == 'none':
                    r = np.ones(n)
                else:
                    r = REFL[kind](en, np.abs(np.where(ang > np.pi / 2, np.pi - ang, ang)) / 4)
                    ctx.check(all(len(x[0]) == hit.sum() for x in log), 'reflectivity evaluated for hitting photons')
                ctx.close(np.array(out['probability'])[hit], .5 * r[hit]**2, 'probability of two reflections',
                          rtol=1e-5, atol=1e-9)
                wp = np.array([transport(d, w, e) for w, e in zip(want, E)])
                ctx.close(np.array(out['polarization'])[hit], zoo.to_global('le', wp, 0)[hit], 'polarization', atol=1e-6)
                for col in ('pos', 'dir', 'polarization', 'probability', 'energy'):
                    ctx.close(np.array(out[col])[miss], keep[col][miss], 'photons that miss: ' + col, atol=1e-12)
                ctx.close(np.array(out['energy']), en, 'energy')


def mixed(ctx, place, axis):
    """photons of many directions in one list give the same as one beam at a time"""
    from marxs.optics import PerfectLens
    PLACES['le'] = dict(PLACES[place], zoom=ZOOM)
    for f in (50., 12000.):
        rays, want = [], []
        for k, (y, z) in enumerate(lattice(7)):
            d = beam(FIELD[k % 6], 1 if k % 4 else -1)
            h = np.array([0, y, z])
            rays.append((h - 4 * d, d * (3. if k % 3 == 0 else 1.)))       # length of dir does not matter
            want.append(zoo.unit(np.array([0, 0, -axis]) + f * d - h))
        ph = zoo.photons('le', rays)
        lens = PerfectLens(focallength=f, d_center_optical_axis=axis, **zoo.place_kw('le'))
        out = C.run(lens, ph)
        ctx.step()
        ctx.state(place, axis, f)
        ctx.close(np.array(out['dir']), zoo.to_global('le', want, 0), 'mixed beams', atol=1e-8)


def rodrigues(v, k, a):
    return v * np.cos(a) + np.cross(k, v) * np.sin(a) + k * (k @ v) * (1 - np.cos(a))


def thin(ctx, place, side):
    from marxs.optics import ThinLens
    PLACES['le'] = dict(PLACES[place], zoom=ZOOM)
    hits = lattice(7 if ctx.thorough else 5) + [(s * a, t * a) for a in (1e-5, 1e-3, .1) for s, t in ((1, 0), (-.6, .8))]
    for f in (.5, 50., 333., 12000.):
        lens = ThinLens(focallength=f, **zoo.place_kw('le'))
        for field in FIELD:
            d = beam(field, side)
            rays = [(np.array([0, y, z]) - 3. * d, d) for y, z in hits]
            rays.insert(2, (np.array([0, 0, -21.]) - 3. * d, d))
            n = len(rays)
            ph = zoo.photons('le', rays, prob=np.full(n, .5))
            E = np.array([zoo.perp(d, .4 * k) for k in range(n)])
            ph['polarization'] = zoo.to_global('le', E, 0)
            keep = zoo.columns(ph)
            out = C.run(lens, ph)
            ctx.step()
            ctx.state('thin', place, side, f, field)
            h = np.insert(np.array([[0, y, z] for y, z in hits]), 2, [0, 0, 0], axis=0)
            want, wp = [], []
            for hh, e in zip(h, E):
                r = np.linalg.norm(hh)
                k = np.cross(d, hh)
                if np.linalg.norm(k) < 1e-9:
                    want.append(d)
                    wp.append(e)
                else:
                    want.append(rodrigues(d, zoo.unit(k), -r / f))
                    wp.append(rodrigues(e, zoo.unit(k), -r / f))
            hit = np.arange(n) != 2
            ctx.close(np.array(out['dir'])[hit], zoo.to_global('le', want, 0)[hit], 'direction', atol=1e-8)
            ctx.close(np.array(out['polarization'])[hit], zoo.to_global('le', wp, 0)[hit], 'polarization', atol=1e-7)
            ctx.close(np.array(out['pos'])[hit], zoo.to_global('le', h, 1)[hit], 'position', atol=1e-7)
            ctx.close(np.array(out['probability']), np.full(n, .5), 'no absorption')
            # close to the axis the lens focusses: crosses the axis at f
            for col in ('pos', 'dir', 'polarization'):
                ctx.close(np.array(out[col])[2], keep[col][2], 'miss ' + col, atol=1e-12)


def thinfocus(ctx, place):
    """paraxial rays cross the axis at distance f (error of third order)"""
    from marxs.optics import ThinLens
    PLACES['le'] = dict(PLACES[place], zoom=ZOOM)
    for f in (1000., 12000.):
        lens = ThinLens(focallength=f, **zoo.place_kw('le'))
        d = np.array([-1., 0, 0])
        rays = [(np.array([9., y, z]), d) for y, z in lattice(7) if abs(y) + abs(z) > 1e-9]
        out = C.run(lens, zoo.photons('le', rays))
        ctx.step()
        ctx.state(place, f)
        foc = zoo.to_global('le', [np.array([-f, 0, 0])], 1)[0][:3]
        p, dd = np.array(out['pos'])[:, :3], np.array(out['dir'])[:, :3]
        off = np.linalg.norm(np.cross(dd, p - foc), axis=1)
        r = np.array([np.hypot(*x[0][1:]) for x in rays])
        ctx.check(np.all(off <= r**3 / f**2), f'focus of a thin lens {off.max()}')


def scenarios(ctx):
    pl = zoo.NAMES
    axes = [None, 12.5, -100.]
    for k in REFL:
        p = pl if (ctx.thorough or k == 'energy') else ['unit', 'gen']
        yield from C.cases(perfect, 'perfect', [k], p, [1, -1], axes if ctx.thorough or k == 'energy' else [None, 12.5])
    yield from C.cases(mixed, 'mixed', pl, [0., 12.5, -100.])
    yield from C.cases(thin, 'thin', pl, [1, -1])
    yield from C.cases(thinfocus, 'thinfocus', pl)
