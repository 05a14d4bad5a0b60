"""Full quantile grids of all draws (in-plane x perpendicular; angle x azimuth) x widths (units, zero, one-sided) x ray
directions and impact points (incl. through the centre and along each axis) x placements, against own rotations; all
hit/miss patterns for position dependent widths; all channel-id patterns x ranges for the channel scatter."""
import itertools
import numpy as np
import astropy.units as u
from scipy import special
from mc import rng, zoo
from mc.zoo import PLACES
from . import _common as C

Q = [.001, .2, .5, .7, .99]
WIDTH = [0 * u.rad, .1 * u.rad, 2 * u.arcmin, 3 * u.arcsec, 2. * u.deg]
DIRS = [zoo.unit(v) for v in [(-1., 0, 0), (-1., .03, -.02), (-.8, .5, .3), (1., .1, -.05), (-.3, .02, .9)]]
HITS = [(.3, -.2), (-.9, .95), (0., 1.5), (1.2, 0.), (-.5, -.7)]


def rotate(v, axis, ang):
    a = axis / np.linalg.norm(axis)
    return v * np.cos(ang) + np.cross(a, v) * np.sin(ang) + a * (a @ v) * (1 - np.cos(ang))


def angle(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), (a * b).sum(-1))


def build(place, d, h, dist, n):
    """n copies of one ray; returns photon list, local impact point and local last position"""
    PLACES['sc'] = dict(PLACES[place], zoom=[1., 2., 3.])
    hit = np.array([0, *h])
    rays = [(hit - dist * d, d)] * n
    p = zoo.photons('sc', rays, prob=np.array([.5, 0., 1., .25])[np.arange(n) % 4])
    pol = np.asarray(p['polarization'])
    return p, hit, hit - dist * d


def common(ctx, p, keep, out, place, hit):
    n = len(p)
    d = np.array(out['dir'])
    ctx.close(np.linalg.norm(d[:, :3], axis=1), np.ones(n), 'unit direction', rtol=1e-9)
    ctx.close(d[:, 3], np.zeros(n), 'homogeneous direction', atol=1e-12)
    pol = np.array(out['polarization'])
    ctx.close((pol * d).sum(1), np.zeros(n), 'polarization perpendicular', atol=1e-9)
    ctx.close((pol**2).sum(1), (keep['polarization']**2).sum(1), 'polarization length', rtol=1e-9)
    ctx.close(np.array(out['probability']), keep['probability'], 'probability', rtol=1e-12)
    ctx.close(np.array(out['pos']), zoo.to_global('sc', [hit] * n, 1), 'position', rtol=1e-9, atol=1e-8)


def radial(ctx, place, win, wperp, dist):
    from marxs.optics import RadialMirrorScatter
    w = [x.to_value(u.rad) for x in (win, wperp)]
    n = len(Q)**2
    z = special.ndtri(Q)
    for d in DIRS:
        for h in HITS:
            p, hit, last = build(place, d, h, dist, n)
            keep = zoo.columns(p)
            e = RadialMirrorScatter(inplanescatter=win, perpplanescatter=wperp, **zoo.place_kw('sc'))
            with rng.active(rng.Grid((len(Q), len(Q)), Q)):
                out = e(p)
            ctx.step()
            ctx.state(place, str(win), str(wperp), tuple(d), h)
            common(ctx, p, keep, out, place, hit)
            a = np.array(out['inplanescatter'], float)
            b = np.array(out['perpplanescatter'], float)
            for x, s, name in ((a, w[0], 'in-plane'), (b, w[1], 'perpendicular')):
                ctx.close(sorted(set(np.round(x / (s or 1), 9))), sorted(set(np.round(z * (s > 0), 9))), f'{name} angles', atol=1e-8)
            ctx.same(len({(round(x, 12), round(y, 12)) for x, y in zip(a, b)}),
                     (len(Q) if w[0] else 1) * (len(Q) if w[1] else 1), 'independent draws of the two angles')
            ok = False
            err = []
            for s1, s2 in itertools.product((1, -1), repeat=2):     # the sense of the rotations is not specified
                want = np.array([rotate(rotate(d, np.cross(d, last), s1 * x), last, s2 * y) for x, y in zip(a, b)])
                err.append(np.abs(zoo.to_global('sc', want, 0) - np.array(out['dir'])).max())
            ctx.check(min(err) < 1e-7, lambda: f'{d} {h}: directions differ by {min(err)}')


def center(ctx, place, win, wperp):
    """rays through the centre or along the radius: any plane that contains the ray"""
    from marxs.optics import RadialMirrorScatter
    w = [x.to_value(u.rad) for x in (win, wperp)]
    n = len(Q)**2
    for d in [zoo.unit((-1., 0, 0)), zoo.unit((-1., .5, 0)), zoo.unit((1., 0, .7)), zoo.unit((-1, 1., 1.))]:
        for dist in (0., 4.):
            p, hit, last = build(place, d, (0., 0.), dist, n)
            if dist and place != 'unit':
                continue          # rounding decides if such a ray is exactly radial
            keep = zoo.columns(p)
            e = RadialMirrorScatter(inplanescatter=win, perpplanescatter=wperp, **zoo.place_kw('sc'))
            with rng.active(rng.Grid((len(Q), len(Q)), Q)):
                out = e(p)
            ctx.step()
            ctx.state(place, str(win), str(wperp), tuple(d), dist)
            common(ctx, p, keep, out, place, hit)
            a, b = np.array(out['inplanescatter'], float), np.array(out['perpplanescatter'], float)
            if dist == 0 or place == 'unit':
                got = (np.array(out['dir']) * keep['dir']).sum(1)
                ctx.close(got, np.cos(a) * np.cos(b), 'total angle', atol=1e-9)


def mixed(ctx, place, win, wperp, rot):
    """one list with rays that hit or miss, in the centre or not, in all kinds of directions"""
    from marxs.optics import RadialMirrorScatter
    w = [x.to_value(u.rad) for x in (win, wperp)]
    PLACES['sc'] = dict(PLACES[place], zoom=[1., 2., 3.])
    dirs = [zoo.unit(v) for v in [(-1., 0, 0), (-1., 1., 0), (-.1, 1., 0), (-.1, 0, 1.), (-1., .3, -.2), (1., .1, -.05)]]
    rays = []
    for i, d in enumerate(dirs):
        rays += [(np.zeros(3), d), (np.array([-2 * np.sign(d[0]), 9., 9.]), zoo.unit((d[0], 0, 0))), (np.array([0, *HITS[i % 5]]) - .5 * d, d)]
    rays = rays[rot:] + rays[:rot]
    n = len(rays)
    kind = [(np.arange(n) + rot)[j] % len(rays) % 3 for j in range(n)]
    p = zoo.photons('sc', rays, prob=np.array([.5, 0., 1., .25])[np.arange(n) % 4])
    keep = zoo.columns(p)
    e = RadialMirrorScatter(inplanescatter=win, perpplanescatter=wperp, **zoo.place_kw('sc'))
    with rng.active(rng.Const(.8)):
        out = e(p)
    ctx.step()
    ctx.state('mixed', place, str(win), str(wperp), rot)
    z = special.ndtri(.8)
    a, b = z * w[0], z * w[1]
    got = np.array(out['dir'])
    ctx.check(np.all(np.isfinite(got)) and np.all(np.isfinite(np.array(out['polarization']))), 'not finite')
    ctx.close((np.array(out['polarization']) * got).sum(1), np.zeros(n), 'polarization perpendicular', atol=1e-9)
    for i in range(n):
        if kind[i] == 1:
            ctx.close(got[i], keep['dir'][i], f'ray {i} that misses', atol=1e-14)
        elif kind[i] == 0:
            ctx.close(got[i] @ keep['dir'][i], np.cos(a) * np.cos(b), f'ray {i} in the centre: total angle', atol=1e-12)
            ctx.close(angle(got[i, :3], keep['dir'][i, :3]), np.arccos(np.clip(np.cos(a) * np.cos(b), -1, 1)), f'ray {i} in the centre', rtol=1e-3, atol=1e-7)
        else:
            last, d = rays[i]
            err = [np.abs(zoo.to_global('sc', [rotate(rotate(d, np.cross(d, last), s1 * a), last, s2 * b)], 0)[0] - got[i]).max()
                   for s1, s2 in itertools.product((1, -1), repeat=2)]
            ctx.check(min(err) < 1e-9, lambda: f'ray {i}: directions differ by {min(err)}')


def axes(ctx, order, win, wperp):
    """rays through the centre of a tilted element along the axes of the coordinate system"""
    from marxs.optics import RadialMirrorScatter
    PLACES['sc'] = dict(PLACES['unit'], position=np.zeros(3), orientation=np.array([[.6, -.8, 0], [.8, .6, 0], [0, 0, 1.]]), zoom=[1., 2., 3.])
    R = PLACES['sc']['orientation']
    glob = [np.array(v) for v in [(1., 0, 0), (0, 1., 0), (.6, 0., .8), (0, .6, .8), (-1, 0, 0), (0, -1, 0)]]
    rays = [(np.zeros(3), R.T @ glob[i]) for i in order]
    n = len(rays)
    p = zoo.photons('sc', rays, prob=np.array([.5, 0., 1., .25])[np.arange(n) % 4])
    p['dir'][:, :3] = [glob[i] for i in order]
    p['pos'][:, :3] = 0
    keep = zoo.columns(p)
    out = C.run(RadialMirrorScatter(inplanescatter=win, perpplanescatter=wperp, **zoo.place_kw('sc')), p, .8)
    ctx.step()
    ctx.state('axes', order, str(win), str(wperp))
    z = special.ndtri(.8)
    got = np.array(out['dir'])
    ctx.close((got * keep['dir']).sum(1), np.full(n, np.cos(z * win.to_value(u.rad)) * np.cos(z * wperp.to_value(u.rad))), 'total angle', atol=1e-12)
    ctx.close(np.linalg.norm(got, axis=1), np.ones(n), 'unit direction', rtol=1e-9)
    ctx.check(np.all(np.isfinite(np.array(out['polarization']))), 'polarization not finite')


def tiny(ctx, place, plane, width):
    """very small widths scatter, too"""
    from marxs.optics import RadialMirrorScatter, RandomGaussianScatter
    d, h = DIRS[1], HITS[1]
    z = special.ndtri(.8)
    for unit in (u.rad, u.arcsec, u.deg):
        p, hit, last = build(place, d, h, .5, 2)
        keep = zoo.columns(p)
        if plane == 'gauss':
            e = RandomGaussianScatter(scatter=(width * u.rad).to(unit), **zoo.place_kw('sc'))
        else:
            e = RadialMirrorScatter(**{'inplanescatter': 0 * u.rad, plane: (width * u.rad).to(unit)}, **zoo.place_kw('sc'))
        out = C.run(e, p, .8)
        ctx.step()
        ctx.state('tiny', place, plane, width, str(unit))
        f = np.sin(angle(np.array([d]), np.array([last])))[0] if plane == 'perpplanescatter' else 1.
        ctx.close(angle(np.array(out['dir'])[:, :3], keep['dir'][:, :3]) / (z * width), np.full(2, f), 'tilt of the ray', rtol=1e-2 + 1e-14 / width)


def gauss(ctx, place, width, dist):
    from marxs.optics import RandomGaussianScatter
    w = width.to_value(u.rad)
    n, m = len(Q), 12
    z = special.ndtri(Q)
    az = (np.arange(m) + .5) / m
    for d in DIRS + [zoo.unit((-1., 1e-4, 0)), zoo.unit((0.02, -1., .0)), zoo.unit((.01, 0, 1.))]:
        for h in HITS[:2]:
            p, hit, last = build(place, d, h, dist, n * m)
            keep = zoo.columns(p)
            e = RandomGaussianScatter(scatter=width, **zoo.place_kw('sc'))
            # two draws (angle, azimuth) in either order: all combinations of both alphabets
            full = sorted(set(Q) | set(az))
            k = len(full)
            p, hit, last = build(place, d, h, dist, k * k)
            keep = zoo.columns(p)
            with rng.active(rng.Grid((k, k), full)):
                out = e(p)
            ctx.step()
            ctx.state(place, str(width), tuple(d), h)
            common(ctx, p, keep, out, place, hit)
            got = np.array(out['dir'])[:, :3]
            d0 = keep['dir'][:, :3]
            if w == 0:
                ctx.close(got, d0, 'no scatter', atol=1e-12)
                continue
            a = np.array(out['scatter'], float)
            zz = np.round(special.ndtri(full), 8)
            ctx.close(sorted(set(np.round(a / w, 8))), sorted(set(zz)), 'scattering angles', atol=1e-7)
            ctx.close(angle(got, d0), np.abs(a), 'tilt of the ray', rtol=1e-6, atol=1e-9)
            # azimuth is uniform
            for x in sorted(set(np.round(a / w, 8))):
                s = np.abs(np.round(a / w, 8) - x) < 1e-7
                ctx.same(int(s.sum()), k, 'every angle with every azimuth')
                if abs(x * w) < 1e-6:
                    continue
                v = got[s] - (got[s] * d0[s]).sum(1)[:, None] * d0[s]
                e1 = v[0] / np.linalg.norm(v[0])
                e2 = np.cross(d0[0], e1)
                phi = np.sort(np.arctan2(v @ e2, v @ e1) % (2 * np.pi))
                t = np.sort((2 * np.pi * (np.array(full)[:, None] - np.array(full))) % (2 * np.pi), axis=0)
                ok = False
                for sign in (1, -1):
                    for j in range(k):
                        ref = np.sort((sign * t[:, j]) % (2 * np.pi))
                        dd = np.abs((phi - ref + np.pi) % (2 * np.pi) - np.pi)
                        dd2 = np.abs((np.roll(phi, 1) - ref + np.pi) % (2 * np.pi) - np.pi)
                        dd3 = np.abs((np.roll(phi, -1) - ref + np.pi) % (2 * np.pi) - np.pi)
                        ok |= min(dd.max(), dd2.max(), dd3.max()) < 1e-5 + 1e-13 / abs(x * w)
                ctx.check(ok, lambda: f'{d} {x}: azimuth is not the drawn one: {phi}')


def callables(ctx, place, n):
    """position and energy dependent widths see exactly the photons that hit"""
    from marxs.optics import RandomGaussianScatter
    PLACES['sc'] = dict(PLACES[place], zoom=[1., 2., 3.])
    for pat in itertools.product([True, False], repeat=n):
        rays, ang = [], []
        en = [.5 + i for i in range(n)]
        for i, hit in enumerate(pat):
            y, z = HITS[i % 5]
            rays.append((np.array([2., y + (0 if hit else 9), z]), zoo.unit((-1., 0, 0))))
            ang.append(1e-3 * (y + 2 * z + 5) * en[i])
        calls = []

        def func(photons, intersect, interpos, intercoos):
            calls.append((len(photons), np.array(intersect)))
            return (1e-3 * (intercoos[intersect, 0] + 2 * intercoos[intersect, 1] + 5) *
                    np.asarray(photons['energy'])[intersect] * u.rad).to(u.arcmin)

        class Named(RandomGaussianScatter):
            scattername = 'wobble'

            def scatter(self, photons, intersect, interpos, intercoos):
                return func(photons, intersect, interpos, intercoos)
        for cls, kw in ((RandomGaussianScatter, {'scatter': func}), (Named, {})):
            p = zoo.photons('sc', rays, energy=en, prob=np.full(n, .5))
            keep = zoo.columns(p)
            e = cls(**kw, **zoo.place_kw('sc'))
            out = C.run(e, p, .3)
            ctx.step()
            ctx.state(place, pat, cls.__name__)
            got = angle(np.array(out['dir'])[:, :3], keep['dir'][:, :3])
            ctx.close(got, np.array(ang) * np.array(pat), f'{pat}: tilt', rtol=1e-5, atol=1e-9)
            if any(pat):
                col = 'wobble' if cls is Named else 'scatter'
                ctx.close(np.abs(np.array(out[col], float))[list(pat)], np.array(ang)[list(pat)], 'column', rtol=1e-9)
                ctx.same(calls[-1][1].astype(bool), np.array(pat), 'photons that hit')
    ctx.raises(ValueError, lambda: RandomGaussianScatter(position=[0, 0, 0]))
    ctx.raises(Exception, lambda: __import__('marxs.optics').optics.RadialMirrorScatter())


def channels(ctx, n, rg):
    """scatter per channel acts on ids min <= xou < max at the position of the last interaction"""
    from marxs.missions.athena.spo import ScatterPerChannel
    lo, hi = rg
    PLACES['sc'] = dict(PLACES['gen'], zoom=[1., 2., 3.])
    rays = [(np.array([.5, HITS[i][0] * (40 if i % 2 else 1), HITS[i][1]]), zoo.unit((-1., .01 * i, .02))) for i in range(n)]
    for pat in itertools.product([-1, 2, 3, 5, 6], repeat=n):
        for win, wperp in ((.01 * u.rad, 0 * u.rad), (1. * u.arcmin, 20 * u.arcsec)):
            p = zoo.photons('sc', rays, prob=np.array([.5, 0., 1., .25])[np.arange(n) % 4])
            p['xou'] = np.array(pat, int)
            keep = zoo.columns(p)
            e = ScatterPerChannel(min_id=lo, max_id=hi, inplanescatter=win, perpplanescatter=wperp, **zoo.place_kw('sc'))
            out = C.run(e, p, .8)
            ctx.step()
            ctx.state(rg, pat, str(win))
            z = special.ndtri(.8)
            sel = np.array([lo <= x < hi for x in pat], bool)
            got = zoo.columns(out)
            ctx.close(got['pos'], keep['pos'], 'position is kept', atol=1e-12)
            ctx.same(got['xou'], keep['xou'], 'ids')
            ctx.close(got['probability'], keep['probability'], 'probability')
            ctx.close(got['dir'][~sel], keep['dir'][~sel], 'other channels', atol=1e-14)
            ctx.close(got['polarization'][~sel], keep['polarization'][~sel], 'other channels', atol=1e-14)
            a, b = z * win.to_value(u.rad), z * wperp.to_value(u.rad)
            R = np.asarray(PLACES['sc']['orientation'])
            for i in np.flatnonzero(sel):
                last, d = rays[i]
                err = []
                for s1, s2 in itertools.product((1, -1), repeat=2):
                    w = R @ rotate(rotate(d, np.cross(d, last), s1 * a), last, s2 * b)
                    err.append(np.abs(got['dir'][i, :3] - w).max())
                ctx.check(min(err) < 1e-9, lambda: f'{pat} photon {i}: direction off by {min(err)}')


def scenarios(ctx):
    pl = zoo.NAMES if ctx.thorough else ['unit', 'gen', 'tilt']
    yield from C.cases(radial, 'radial', pl, WIDTH, WIDTH[:4], [1e-3, 3.])
    yield from C.cases(center, 'center', ['unit', 'zxy'], WIDTH[:3], WIDTH[:3])
    yield from C.cases(mixed, 'mixed', pl, WIDTH[:3], WIDTH[:3], [0, 1, 6, 7])
    yield from C.cases(axes, 'axes', list(itertools.permutations(range(4))) + [(0, 1), (4, 1), (5, 0), (4, 5, 2)], WIDTH[:2], WIDTH[:2])
    yield from C.cases(tiny, 'tiny', pl, ['inplanescatter', 'perpplanescatter', 'gauss'], [1e-4, 1e-6, 1e-8, 1e-10])
    yield from C.cases(gauss, 'gauss', pl, WIDTH, [1e-3, 3.] if ctx.thorough else [3.])
    yield from C.cases(callables, 'callable', pl, [1, 2, 3, 4, 5])
    yield from C.cases(channels, 'channels', [1, 2, 3], [(2, 5), (3, 6), (-1, 3), (5, 5)])
