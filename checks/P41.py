"""Product grids of quantiles for the two direction (position) draws x source positions x cone axes (along, against and
close to every coordinate axis) x opening angles (0 to full sphere); rectangular apertures at several places; own solid
angle and projection algebra."""
import numpy as np
import astropy.units as u
from mc import rng, zoo
from mc.zoo import PLACES
from . import _common as C

AXES = {'x': (1., 0, 0), '-x': (-1., 0, 0), 'y': (0, 1., 0), '-y': (0, -2., 0), 'z': (0, 0, 1.), '-z': (0, 0, -1.),
        'int': (1, 2, 2), 'gen': (.3, -.4, .8), 'nearz': (1e-4, 0, 1.), 'near-z': (0, 1e-3, -5.), 'neg': (-.5, -.6, -.1)}
HALF = [0., 1e-4, .1, np.pi / 6, np.pi / 4, np.pi / 2, 2., 3., np.pi, -.4]


def common(ctx, ph, n, flux, energy, polangle):
    ctx.same(len(ph), n, 'number of photons')
    ctx.close(np.array(ph['time']), np.arange(n) / flux, 'times', atol=1e-9)
    ctx.close(np.array(ph['energy']), np.full(n, energy), 'energy')
    ctx.close(np.array(ph['probability']), np.ones(n), 'probability')
    d = np.array(ph['dir'])
    ctx.close(d[:, 3], np.zeros(n), 'direction is homogeneous')
    ctx.close(np.linalg.norm(d, axis=1), np.ones(n), 'direction normalized', atol=1e-9)
    p = np.array(ph['polarization'])
    ctx.close(p[:, 3], np.zeros(n), 'polarization is homogeneous')
    ctx.close(np.linalg.norm(p, axis=1), np.ones(n), 'polarization normalized', atol=1e-9)
    ctx.close((p * d).sum(1), np.zeros(n), 'polarization perpendicular', atol=1e-8)


def draws(n, perm=None):
    g = np.arange(n * n)
    if perm is not None:
        g = g[np.argsort((g * 7919) % (n * n))]
    return rng.Rows([(g // n + .5) / n, (g % n + .5) / n])


def cone(ctx, axis, pos):
    from marxs.source import LabPointSourceCone
    n = 16 if not ctx.thorough else 48
    a = zoo.unit(AXES[axis])
    e1, e2 = zoo.perp(a, .3), None
    e2 = np.cross(a, e1)
    p0 = {'origin': None, 'int': [1, 2, -3], 'far': [-1e4, .5, 22.]}[pos]
    for half in HALF:
        kw = {} if half == np.pi else {'half_opening': half}
        if p0 is not None:
            kw['position'] = list(p0)
        if axis != 'x':
            kw['direction'] = AXES[axis]
        pols = {}
        for polangle in (0., 1., 5.):
            s = LabPointSourceCone(flux=n * n / 10 / u.s, energy=2.5 * u.keV, polarization=polangle * u.rad, **kw)
            # lists of one and two photons follow the same law
            for m in (1, 2):
                for q in (.2, .85):
                    with rng.active(rng.Const(q)):
                        one = s.generate_photons((m - .5) * 10 / (n * n) * u.s)
                    ctx.step()
                    common(ctx, one, m, n * n / 10, 2.5, polangle)
                    ctx.close(np.array(one['pos']), np.tile(np.append(p0 or [0, 0, 0], 1.), (m, 1)), 'emitted from the position', atol=1e-12)
                    v = np.linalg.norm(np.array(one['dir'])[:, :3] - a, axis=1) ** 2 / 2
                    w = v - q * (1 - np.cos(half)), v - (1 - q) * (1 - np.cos(half))
                    ctx.close(w[np.argmin([np.abs(i).max() for i in w])], np.zeros(m), f'{m} photons: angle to the cone axis', atol=1e-9)
            with rng.active(draws(n)):
                ph = s.generate_photons(9.9999 * u.s)
            ctx.step()
            ctx.state(axis, pos, half, polangle)
            common(ctx, ph, n * n, n * n / 10, 2.5, polangle)
            ctx.close(np.array(ph['pos']), np.tile(np.append(p0 or [0, 0, 0], 1.), (n * n, 1)), 'emitted from the position', atol=1e-12)
            d = np.array(ph['dir'])[:, :3]
            pols[polangle] = (d, np.array(ph['polarization'])[:, :3])
            c = d @ a
            ctx.check(np.all(c >= np.cos(half) - 1e-9), 'photons outside of the cone')
            w = 1 - np.cos(half)
            if w == 0:
                continue
            g = (np.arange(n) + .5) / n
            # solid angle fraction from the vector difference, accurate for narrow cones
            f = (np.linalg.norm(d - a, axis=1) ** 2 / 2) / w
            ctx.close(np.sort(f), np.repeat(g, n), f'half opening {half}: not uniform in solid angle', atol=1e-5 if abs(half) < .01 else 1e-8)
            o = np.argsort(f, kind='stable')
            az = np.sort((np.arctan2(d @ e2, d @ e1)[o] % (2 * np.pi)).reshape(n, n), axis=1)
            gaps = np.diff(np.concatenate([az, az[:, :1] + 2 * np.pi], axis=1), axis=1)
            ctx.close(gaps, np.full((n, n), 2 * np.pi / n), f'half opening {half}: azimuth not uniform and independent',
                      atol=1e-4 if abs(half) < .01 else 1e-6)
        # polarization rotates with the polarization angle
        (d, q0), (_, q1), (_, q5) = pols[0.], pols[1.], pols[5.]
        ctx.close((q0 * q1).sum(1), np.full(n * n, np.cos(1.)), 'polarization angle', atol=1e-8)
        ctx.close((q0 * q5).sum(1), np.full(n * n, np.cos(5.)), 'polarization angle', atol=1e-8)
        t = (np.cross(q0, q1) * d).sum(1)
        ctx.close(np.abs(t), np.full(n * n, np.sin(1.)), 'polarization angle', atol=1e-8)
        ctx.check(np.all(t > 0) or np.all(t < 0), 'polarization angle measured in one sense')


def far(ctx, place, src):
    from marxs.source import FarLabPointSource
    n = 14 if not ctx.thorough else 40
    PLACES['fl'] = dict(PLACES[place])
    z = np.array(PLACES[place]['zoom'])
    loc0 = {'axis': [1e4, 0, 0], 'off': [500., 90., -30.], 'near': [3., -1, 1.], 'behind': [-200., 10, 3]}[src]
    sp = zoo.to_global('fl', [loc0], 1)[0][:3]
    for kind in (list, np.array, tuple):
        for pol in (0., 2.):
            s = FarLabPointSource(kind(sp), flux=n * n / 10 / u.s, energy=.7 * u.keV, polarization=pol * u.rad, **zoo.place_kw('fl'))
            with rng.active(draws(n)):
                ph = s.generate_photons(9.9999 * u.s)
            ctx.step()
            ctx.state(place, src, pol)
            common(ctx, ph, n * n, n * n / 10, .7, pol)
            P = PLACES['fl']
            for m in (1, 2):
                for q in (.2, .85):
                    with rng.active(rng.Const(q)):
                        one = s.generate_photons((m - .5) * 10 / (n * n) * u.s)
                    ctx.step()
                    common(ctx, one, m, n * n / 10, .7, pol)
                    x = np.array(one['pos'])[:, :3]
                    lo = (x - np.asarray(P['position'])) @ np.asarray(P['orientation'])
                    ctx.close(np.abs(lo), np.tile([0, abs(2 * q - 1) * z[1], abs(2 * q - 1) * z[2]], (m, 1)), f'{m} photons: position', atol=1e-7 * (1 + np.abs(x).max()))
                    ctx.close(np.array(one['dir'])[:, :3], zoo.unit(x - sp), f'{m} photons: comes from the source position', atol=1e-9)
            pos = np.array(ph['pos'])
            ctx.close(pos[:, 3], np.ones(n * n), 'homogeneous')
            loc = (pos[:, :3] - np.asarray(P['position'])) @ np.asarray(P['orientation'])
            ctx.close(loc[:, 0], np.zeros(n * n), 'on the aperture', atol=1e-8 * (1 + np.abs(pos).max()))
            g = (np.arange(n) + .5) / n * 2 - 1
            for a, b, ha, hb in ((loc[:, 1], loc[:, 2], z[1], z[2]), (loc[:, 2], loc[:, 1], z[2], z[1])):
                o = np.argsort(np.round(a, 6), kind='stable')
                ctx.close(np.sort(a), np.repeat(g * ha, n), 'aperture not illuminated uniformly', atol=1e-6)
                ctx.close(np.sort(b[o].reshape(n, n), axis=1), np.tile(g * hb, (n, 1)), 'coordinates not independent', atol=1e-6)
            ctx.close(np.array(ph['dir'])[:, :3], zoo.unit(pos[:, :3] - sp), 'comes from the source position', atol=1e-9)


def specs(ctx):
    """flux, energy and polarization specifications reach both sources"""
    from marxs.source import LabPointSourceCone, FarLabPointSource
    for cls, args in ((LabPointSourceCone, ()), (FarLabPointSource, ([100., 0, 0],))):
        with rng.active(rng.Const(.25)):
            ph = cls(*args).generate_photons(7 * u.s)
            ctx.same(len(ph), 7, 'default flux is one per second')
            ctx.close(np.array(ph['energy']), np.ones(7), 'default energy')
            ph = cls(*args, flux=lambda t, a: np.arange(3) * t / 5, energy=lambda t: (1 + np.arange(len(t))) * u.keV,
                     polarization=lambda t, e: e.value * u.rad).generate_photons(5 * u.s)
            ctx.close(np.array(ph['time']), [0., 1, 2], 'times of a callable flux')
            ctx.close(np.array(ph['energy']), [1., 2, 3], 'energies of a callable')
            ctx.close(np.array(ph['polangle']), [1., 2, 3], 'polarization of a callable')
            ph = cls(*args, flux=0.1 / u.s).generate_photons(5 * u.min)
            ctx.same(len(ph), 30, 'units of exposure time')
            for n in (0, 1):
                ph = cls(*args, flux=lambda t, a: np.arange(n) * u.s).generate_photons(5 * u.s)
                ctx.same(len(ph), n, f'{n} photons')
                ctx.check(all(c in ph.colnames for c in ('pos', 'dir', 'polarization')), 'columns')
            for bad in (3., 'a'):
                ctx.raises(Exception, lambda: cls(*args).generate_photons(bad), 'exposure time without unit')
        ctx.step()
        ctx.state(cls.__name__)
    for k in ({'position': [1., 2, 3, 1]}, {'direction': [1., 0]}, {'direction': [1., 0, 0, 0]}, {'position': [0.]}):
        ctx.raises(ValueError, lambda: LabPointSourceCone(**k), str(k))
    # arguments are not changed and not shared
    p, d = np.array([1., 2, 3]), np.array([0, 3., 4.])
    s = LabPointSourceCone(position=p, direction=d, half_opening=.2)
    with rng.active(rng.Const(.4)):
        a = s.generate_photons(3 * u.s)
        a['pos'][:] = 0
        b = s.generate_photons(3 * u.s)
    ctx.close(p, [1., 2, 3], 'argument')
    ctx.close(d, [0, 3., 4.], 'argument')
    ctx.close(np.array(b['pos']), np.tile([1., 2, 3, 1], (3, 1)), 'second list')


def scenarios(ctx):
    yield from C.cases(cone, 'cone', AXES, ['origin', 'int', 'far'])
    yield from C.cases(far, 'far', zoo.NAMES, ['axis', 'off', 'near', 'behind'])
    yield 'specs', specs
