"""Incidence angles (0.05 to 1.5 rad, both sides) x azimuths x polarization angles x impact points x placements x Fresnel
functions (Brewster, perfect, angle and energy dependent) against own reflection of direction and field vector;
positions x energies x calibration polarization x tables (smooth, steep, with gaps, single row) x sizes for the
multilayer; hit/miss patterns for the stack."""
import itertools
import os
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

HC = 1.2398419843320028      # keV nm
ZOOM = [1., 20., 12.]
HITS = [(.3, -.2), (-.9, .95), (.0, .0), (-.5, -.7), (.99, -.99)]


def rays(inc, azis, side):
    out = []
    for k, a in enumerate(azis):
        d = np.array([-side * np.cos(inc), np.sin(inc) * np.cos(a), np.sin(inc) * np.sin(a)])
        y, z = HITS[k % 5]
        h = np.array([0, y * ZOOM[1], z * ZOOM[2]])
        out.append((h, d))
    return out


def pol_for(d, n, psi):
    """field vector at angle psi from the s direction"""
    s = zoo.unit(np.cross(d, n))
    p = np.cross(d, s)
    return np.cos(psi) * s + np.sin(psi) * p, s, p


def fres(kind):
    from marxs.optics import FlatBrewsterMirror
    if kind == 'brewster':
        return FlatBrewsterMirror, lambda ci, e: (1., 0.)

    class Mirror(FlatBrewsterMirror):
        def fresnel(self, photons, intersect, intersection, local):
            d = photons['dir'].data[intersect]
            ci = np.abs(d @ self.geometry['e_x'])
            e = np.asarray(photons['energy'])[intersect]
            return model(ci, e)

    def model(ci, e):
        return {'perfect': (np.ones_like(ci), np.ones_like(ci)), 'half': (.6 + 0 * ci, .3 + 0 * ci),
                'angle': (ci, ci**2 * .5), 'energy': (np.exp(-e), .2 + 0 * ci), 'ponly': (0 * ci, 1 + 0 * ci)}[kind]
    return Mirror, model


AZ = np.arange(16) * np.pi / 8 + .01


def mirror(ctx, kind, place, side):
    cls, model = fres(kind)
    PLACES['mi'] = dict(PLACES[place], zoom=ZOOM)
    n = np.array([1., 0, 0])
    for inc in (.05, .3, np.pi / 4, .9, 1.2, 1.5):
        for psi in np.arange(0, 12) * np.pi / 6 + .005:
            rr = rays(inc, AZ, side)
            ph = zoo.photons('mi', [(h - 5. * d, d) for h, d in rr], energy=.2 + .1 * np.arange(16), prob=np.full(16, .5))
            E, s, p = zip(*[pol_for(d, n, psi) for h, d in rr])
            ph['polarization'] = zoo.to_global('mi', E, 0)
            e = cls(**zoo.place_kw('mi'))
            out = C.run(e, ph)
            ctx.step()
            ctx.state(kind, place, side, inc, psi)
            d = np.array([x[1] for x in rr])
            want = d * np.array([-1., 1, 1])
            ctx.close(np.array(out['dir']), zoo.to_global('mi', want, 0), 'specular direction', atol=1e-9)
            ctx.close(np.array(out['pos']), zoo.to_global('mi', [x[0] for x in rr], 1), 'position', rtol=1e-9, atol=1e-7)
            Rs, Rp = (np.broadcast_to(x, 16) for x in model(np.full(16, np.cos(inc)), np.asarray(ph['energy'])))
            prob = Rs * np.cos(psi)**2 + Rp * np.sin(psi)**2
            ctx.close(np.array(out['probability']), .5 * prob, 'reflected intensity', rtol=1e-8, atol=1e-12)
            ctx.close(np.array(out['energy']), .2 + .1 * np.arange(16), 'energy')
            # field of the reflected wave: like a conductor, weighted with the amplitudes
            f = np.array([np.sqrt(a) * np.cos(psi) * -ss + np.sqrt(b) * np.sin(psi) * np.cross(w, ss)
                          for a, b, ss, w in zip(Rs, Rp, s, want)])
            ok = prob > 1e-8
            f = f[ok] / np.linalg.norm(f[ok], axis=1)[:, None]
            got = np.array(out['polarization'])[ok]
            wantp = zoo.to_global('mi', f, 0)
            sign = np.sign((got * wantp).sum(1))
            ctx.close(got * sign[:, None], wantp, 'polarization', atol=1e-6)
            if kind == 'perfect':      # total reflection: field is mirrored
                m = np.array(E) * np.array([1., -1, -1])
                m = zoo.to_global('mi', m, 0)
                sg = np.sign((np.array(out['polarization']) * m).sum(1))
                ctx.close(np.array(out['polarization']) * sg[:, None], m, 'mirrored field', atol=1e-7)


def twice(ctx, place):
    """polarimeter: intensity after two mirrors follows cos^2 of the rotation of the second one"""
    from marxs.optics import FlatBrewsterMirror
    R = np.asarray(PLACES[place]['orientation'])
    for rot in np.arange(16) * np.pi / 8 + .02:
        d0 = np.array([-1., 0, 0])
        n1 = zoo.unit((1., 1., 0))
        d1 = np.array([0., 1., 0])
        n2 = zoo.unit(-d1 + np.array([np.cos(rot), 0, np.sin(rot)]))
        o1 = np.stack([n1, zoo.unit((-1., 1, 0)), [0, 0, 1.]], axis=1)
        t = zoo.unit(np.cross(n2, d1))
        o2 = np.stack([n2, t, np.cross(n2, t)], axis=1)
        m1 = FlatBrewsterMirror(position=[0, 0, 0], orientation=R @ o1, zoom=[1., 9, 9])
        m2 = FlatBrewsterMirror(position=list(R @ [0, 30., 0]), orientation=R @ o2, zoom=[1., 9, 9])
        for psi in np.arange(8) * np.pi / 8 + .1:
            PLACES['mi'] = dict(PLACES['unit'], position=[0, 0, 0], orientation=R)
            ph = zoo.photons('mi', [(np.array([5., 0, 0]), d0)])
            ph['polarization'] = zoo.to_global('mi', [[0, np.sin(psi), np.cos(psi)]], 0)
            ph['probability'] = 1.
            out = m2(m1(ph))
            ctx.step()
            ctx.state(place, rot, psi)
            s1 = np.array([0, 0, 1.])
            s2 = zoo.unit(np.cross(d1, n2))
            ctx.close(out['probability'], [np.cos(psi)**2 * (s1 @ s2)**2], 'intensity', rtol=1e-8, atol=1e-12)


# ------------------------------------------------------------------ multilayer
TABS = {'smooth': [(0., 2., 3., .05), (10., 4., 3.5, .06), (25., 6., 4., .08), (40., 5., 4.5, .1)],
        'gap': [(2., .5, 2., 0.), (10., 4., 3., .05), (20., 0., 3.2, .05), (30., 3., 3.5, 0.), (38., 6., 4., .2)],
        'steep': [(12., 8., 2., .3), (12.5, 1., 5., .02), (13., 8., 6., .3)],
        'single': [(20., 7., 3., .5)]}
POL = {'one': [(10., 1.), (2000., 1.)], 'half': [(10., .5), (2000., .5)], 'slope': [(100., .95), (300., .8), (500., .6)]}


def files(tab, pol):
    d = zoo.tmpdir()
    f, g = os.path.join(d, 'r.txt'), os.path.join(d, 'p.txt')
    with open(f, 'w') as fh:
        fh.write('X(mm)\tPeak\tCWHM(nm)\tPeak lambda\tFWHM(nm)\tFile\n')
        for x, pk, lam, fw in TABS[tab]:
            fh.write(f'{x}\t{pk}\t{lam}\t{lam}\t{fw}\tx\n')
    with open(g, 'w') as fh:
        fh.write('Photon energy\tPolarization\n')
        for e, p in POL[pol]:
            fh.write(f'{e}\t{p}\n')
    return f, g


def efficiency(tab, pol, y, e, half):
    t = np.array(TABS[tab])
    x = y + half                      # position in the file is measured from the edge
    pk, lam, fw = (np.interp(x, t[:, 0], t[:, k]) for k in (1, 2, 3))
    p = np.array(POL[pol])
    f = np.interp(e, p[:, 0] / 1000, p[:, 1])
    sig = fw / (2 * np.sqrt(2 * np.log(2)))
    if sig == 0:
        return 0.
    return pk / 100 / f * np.exp(-(HC / e - lam)**2 / (2 * sig**2))


def layers(ctx, tab, pol, place, stack):
    from marxs.optics.multiLayerMirror import MultiLayerEfficiency, MultiLayerMirror
    f, g = files(tab, pol)
    n = np.array([1., 0, 0])
    for half in (20., 12.7):
        PLACES['mi'] = dict(PLACES[place], zoom=[1., half, 12.])
        cls = MultiLayerMirror if stack else MultiLayerEfficiency
        e = cls(reflFile=f, testedPolarization=g, **zoo.place_kw('mi'))
        ys = np.r_[np.linspace(-.99, .99, 23) * half]
        for lam in (2., 2.03, 3., 3.2, 3.49, 4., 4.5, 5.3, 6.):
            en = HC / lam
            rr, pols, want, miss = [], [], [], []
            for k, y in enumerate(ys):
                d = zoo.unit((-1., .8 * np.cos(k), .8 * np.sin(k)))
                out = k % 5 == 3
                h = np.array([0, y, ((-1)**k) * (5. if not out else 15.)])
                rr.append((h - 3 * d, d))
                E, s, p = pol_for(d, n, .3 * k + .1)
                pols.append(E)
                eff = efficiency(tab, pol, y, en, half) * (np.cos(.3 * k + .1)**2 if stack else 1)
                want.append(1. if out else eff)
                miss.append(out)
            ph = zoo.photons('mi', rr, energy=np.full(len(ys), en), prob=np.full(len(ys), .5))
            ph['polarization'] = zoo.to_global('mi', pols, 0)
            keep = zoo.columns(ph)
            out = C.run(e, ph)
            ctx.step()
            ctx.state(tab, pol, place, stack, half, lam)
            miss = np.array(miss)
            ctx.close(np.array(out['probability']), .5 * np.array(want), f'{lam} nm: reflectivity', rtol=5e-4, atol=1e-7)
            d = np.array([x[1] for x in rr])
            if stack:
                d = np.where(miss[:, None], d, d * np.array([-1., 1, 1]))
            ctx.close(np.array(out['dir']), zoo.to_global('mi', d, 0), 'direction', atol=1e-9)
            ctx.close(np.array(out['pos'])[miss], keep['pos'][miss], 'photons that miss', atol=1e-12)
            # order of photons does not matter
            r = e(ph0(rr[::-1], en, pols[::-1]))
            ctx.close(np.array(r['probability'])[::-1], np.array(out['probability']), 'order of photons', rtol=1e-9)


def ph0(rr, en, pols):
    ph = zoo.photons('mi', rr, energy=np.full(len(rr), en), prob=np.full(len(rr), .5))
    ph['polarization'] = zoo.to_global('mi', pols, 0)
    return ph


def scenarios(ctx):
    pl = zoo.NAMES if ctx.thorough else ['unit', 'gen', 'tilt']
    yield from C.cases(mirror, 'mirror', ['brewster', 'perfect', 'half', 'angle', 'energy', 'ponly'], pl, [1, -1])
    yield from C.cases(twice, 'polarimeter', zoo.NAMES)
    yield from C.cases(layers, 'multilayer', TABS, POL, pl, [False, True])
