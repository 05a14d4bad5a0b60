"""Targets over the whole sky (poles, 0/360) x rolls x source offsets (on axis to 90 deg) x polarization angles x
reference transforms; jitter answered with the product grid of angle and azimuth quantiles. Reference: explicit basis
vectors on the celestial sphere."""
import itertools
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import Table
from scipy.special import ndtri
from mc import rng, zoo
from . import _common as C

TARGETS = {'origin': (0., 0.), 'gen': (123.4, -45.6), 'wrap': (359.99, 10.), 'high': (200., 89.), 'npole': (30., 90.),
           'spole': (300., -90.), 'east': (90., 0.), 'south': (270., -60.)}
ROLLS = {'0': 0 * u.deg, '30': 30 * u.deg, '-100': -100 * u.deg, 'rad': 2.2 * u.rad, '180': 180 * u.deg, 'arcmin': 600 * u.arcmin,
         'default': None}
REFS = {'id': np.eye(3), 'zxy': zoo.ORI['xyz2zxy'], 'gen': zoo.ORI['gen'], 'flip': zoo.ORI['flip'], 'default': None}


def nve(ra, dec):
    ra, dec = np.deg2rad(np.asarray(ra, float)), np.deg2rad(np.asarray(dec, float))
    n = np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], -1)
    N = np.stack([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)], -1)
    E = np.stack([-np.sin(ra), np.cos(ra), 0 * ra], -1)
    return n, N, E


def frame(target, roll, ref):
    """rows: spacecraft x, y, z in sky coordinates, then the reference transform"""
    n, N, E = nve(*target)
    r = roll.to(u.rad).value if roll is not None else 0.
    z = np.cos(r) * N + np.sin(r) * E
    y = np.cos(r) * E - np.sin(r) * N
    M = np.array([n, y, z])
    return (REFS[ref] if REFS[ref] is not None else np.eye(3)) @ M


def sources(target):
    """around and far away from the target; none of them exactly at a pole"""
    n, N, E = nve(*target)
    out = [(12., 3.), (300., -70.), (180.5, 44.)]
    for sep, pa in itertools.product([0., 1e-3, .5, 20., 90.], [0., 1., 2.8, 4.]):
        s, p = np.deg2rad(sep), pa
        v = np.cos(s) * n + np.sin(s) * (np.cos(p) * N + np.sin(p) * E)
        out.append((np.rad2deg(np.arctan2(v[1], v[0])) % 360, np.rad2deg(np.arcsin(np.clip(v[2], -1, 1)))))
    return np.array([o for o in out if abs(o[1]) < 89.9999])


def photons(pts, pol):
    t = Table()
    t['ra'] = np.repeat(pts[:, 0], len(pol)) * u.deg
    t['dec'] = np.repeat(pts[:, 1], len(pol)) * u.deg
    t['polangle'] = np.tile(pol, len(pts)) * u.rad
    n = len(t)
    t['time'] = np.arange(n) * 1. * u.s
    t['energy'] = np.ones(n) * u.keV
    t['probability'] = np.linspace(.2, 1, n)
    t.meta['EXPOSURE'] = (n, 'x')
    return t


def make(cls, target, roll, ref, **kw):
    from marxs.source import FixedPointing, JitterPointing
    if roll is not None:
        kw['roll'] = roll
    if REFS[ref] is not None:
        m = np.eye(4)
        m[:3, :3] = REFS[ref]
        kw['reference_transform'] = m
    return {'fixed': FixedPointing, 'jitter': JitterPointing}[cls](coords=SkyCoord(*target, unit='deg'), **kw)


POL = [0., .6, np.pi / 2, 2.5, 5.]


def fixed(ctx, tname, rname, ref):
    target, roll = TARGETS[tname], ROLLS[rname]
    pts = sources(target)
    p = make('fixed', target, roll, ref)
    ph = photons(pts, POL)
    keep = {c: np.array(ph[c]) for c in ph.colnames}
    out = p(ph)
    ctx.step()
    M = frame(target, roll, ref)
    n, N, E = nve(keep['ra'], keep['dec'])
    ctx.close(out['dir'], np.hstack([-n @ M.T, np.zeros((len(n), 1))]), 'directions', atol=1e-8)
    pa = keep['polangle'][:, None]
    ctx.close(out['polarization'], np.hstack([(np.cos(pa) * N + np.sin(pa) * E) @ M.T, np.zeros((len(n), 1))]), 'polarization', atol=3e-8 / np.cos(np.deg2rad(np.abs(pts[:, 1]).max())))
    for c in keep:
        ctx.same(np.asarray(out[c]), keep[c], f'column {c}')
    for i in range(len(n)):
        ctx.state(tname, rname, ref, i)
    r = roll.to(u.deg).value if roll is not None else 0.
    for k, v in (('RA', target[0]), ('DEC', target[1]), ('ROLL', r)):
        for s in ('_PNT', '_NOM'):
            ctx.close(out.meta[k + s][0], v, f'header {k}{s}', atol=1e-9)
    ctx.same(out.meta['EXPOSURE'], (len(n), 'x'), 'other header keywords')
    # on-axis source moves along -x of the reference frame
    ax = (REFS[ref] if REFS[ref] is not None else np.eye(3))[:, 0]
    d = p.photons_dir(SkyCoord([target[0]], [target[1]], unit='deg'), np.zeros(1))
    ctx.close(d[0], np.append(-ax, 0), 'on-axis source', atol=1e-8)
    ctx.step()
    # one row at a time
    for i in range(0, len(n), 17):
        o = make('fixed', target, roll, ref)(photons(pts, POL)[i:i + 1])
        ctx.step()
        ctx.close(o['dir'][0], out['dir'][i], 'single photon')
        ctx.close(o['polarization'][0], out['polarization'][i], 'single photon polarization', atol=1e-7)


def units(ctx):
    """polarization angles as quantities in any unit or plain radian"""
    p = make('fixed', TARGETS['gen'], None, 'gen')
    pts = sources(TARGETS['gen'])[:6]
    d = p.photons_dir(SkyCoord(pts[:, 0], pts[:, 1], unit='deg'), np.zeros(6))
    ang = np.linspace(0, 3, 6)
    a = p.photons_pol(d, ang, np.zeros(6))
    ctx.state('units')
    for q in (ang * u.rad, np.rad2deg(ang) * u.deg):
        ctx.close(np.asarray(p.photons_pol(d, q, np.zeros(6))), a, 'units of polarization angle')
        ctx.step()
    ctx.raises(ValueError, lambda: __import__('marxs.source', fromlist=['x']).FixedPointing(coords=SkyCoord([1, 2], [3, 4], unit='deg')),
               'scalar coordinates')
    t = photons(sources(TARGETS['gen'])[:0].reshape(0, 2), [])
    o = p(t)
    ctx.step()
    ctx.same((len(o), o['dir'].shape, o['polarization'].shape), (0, (0, 4), (0, 4)), 'empty list')


def jitter(ctx, tname, rname, ref, sigma, off):
    target, roll = TARGETS[tname], ROLLS[rname]
    nj = na = 9   # equal, so that the order of the draws does not matter
    n = nj * na
    pts = sources(target)
    pt = np.array(target) if off == 0 else pts[(off * 5) % len(pts)]
    if abs(pt[1]) > 89.999:
        pt = np.array([pt[0], 89.999 * np.sign(pt[1])])
    ph = photons(np.tile(pt, (n, 1)), [.7])
    p = make('jitter', target, roll, ref, jitter=sigma)
    base = make('fixed', target, roll, ref)(ph.copy())
    # product grid of the two draws, valid for either order of the draws
    g = np.arange(n)
    q1, q2 = (g // na + .5) / nj, (g % na + .5) / na
    with rng.active(rng.Rows([q2, q1])):
        out = p(ph)
    ctx.step()
    ctx.state('jitter', tname, rname, ref, str(sigma), off)
    s = abs(sigma.to(u.rad).value)
    ax = (REFS[ref] if REFS[ref] is not None else np.eye(3))[:, 0]
    d0, p0 = np.array(base['dir'])[:, :3], np.array(base['polarization'])[:, :3]
    d1, p1 = np.array(out['dir']), np.array(out['polarization'])
    ctx.close(d1[:, 3], np.zeros(n), 'homogeneous')
    ctx.close(p1[:, 3], np.zeros(n), 'homogeneous')
    d1, p1 = d1[:, :3], p1[:, :3]
    angs, azim = [], []
    for i in range(n):
        A = np.array([d0[i], p0[i], np.cross(d0[i], p0[i])])
        B = np.array([d1[i], p1[i], np.cross(d1[i], p1[i])])
        ctx.close(B @ B.T, np.eye(3), 'jittered direction and polarization are orthonormal', atol=1e-7)
        R = B.T @ A          # A row -> B row
        w = .5 * np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
        a = np.arctan2(np.sqrt(w @ w), .5 * (np.trace(R) - 1))
        angs.append(a)
        if a > 1e-6:
            w = w / np.sqrt(w @ w)
            ctx.check(abs(w @ ax) < 1e-6 / a + 1e-6, f'jitter rotates by {a} rad about an axis inclined to the optical axis')
            e1 = zoo.perp(ax, 0.)
            azim.append((round(a, 9), np.arctan2(w @ np.cross(ax, e1), w @ e1) % (2 * np.pi)))
    want = np.sort(np.repeat(np.abs(ndtri((np.arange(nj) + .5) / nj)) * s, na))
    ctx.check(np.abs(np.sort(angs) - want).max() < 1e-7, lambda: f'jitter angles {np.sort(angs)[::na]} expected {want[::na]}')
    if s > 1e-4:
        x = np.array([a for _, a in azim])
        v = np.abs([np.cos(x).mean(), np.sin(x).mean(), np.cos(2 * x).mean(), np.sin(2 * x).mean()])
        ctx.check(v.max() < .05, 'azimuth of jitter is not uniform')
        ctx.check(len(np.unique(np.round(x, 5))) >= na, 'azimuth of jitter takes too few values')
    for c in ('time', 'energy', 'probability', 'ra', 'dec', 'polangle'):
        ctx.same(np.asarray(out[c]), np.asarray(base[c]), c)
    # lists of a single photon are jittered by the same law
    for m in (1, 2):
        for q in (.03, .8, .9999):
            with rng.active(rng.Const(q)):
                o = p(photons(np.tile(pt, (m, 1)), [.7]))
            ctx.step()
            a = 2 * np.arcsin(np.clip(np.linalg.norm(np.array(o['dir'])[:, :3] - d0[0], axis=1) / 2, 0, 1))
            # the rotation axis is not perpendicular to an off-axis photon
            full = abs(ndtri(q)) * s
            if off == 0:
                ctx.close(a, np.full(m, full), f'{m} photons: jitter angle', atol=1e-7)
            else:
                ctx.check(np.all(a < full + 1e-7) and (np.all(a > 0)), f'{m} photons: jitter angle')
    ctx.same(out.meta['RA_PNT'], base.meta['RA_PNT'], 'header')


def zerojitter(ctx):
    target = TARGETS['gen']
    ctx.state('zero')
    pts = sources(target)
    a = make('fixed', target, None, 'gen')(photons(pts, POL))
    with rng.active(rng.Const(.2)):
        b = make('jitter', target, None, 'gen', jitter=0 * u.arcsec)(photons(pts, POL))
    ctx.step(2)
    ctx.same(np.asarray(a['dir']), np.asarray(b['dir']), 'no jitter')
    ctx.same(np.asarray(a['polarization']), np.asarray(b['polarization']), 'no jitter')


def smallunits(ctx):
    """the size of a jitter is the size of the quantity, not of the number in front of the unit"""
    target = TARGETS['gen']
    for s in (3e-9 * u.Mrad, 3e-3 * u.rad, 3e6 * u.nrad, 3 * u.mrad, -3e-9 * u.Mrad):
        for q in (.1, .8):
            with rng.active(rng.Const(q)):
                o = make('jitter', target, None, 'gen', jitter=s)(photons(np.array([target]), [.4]))
            ctx.step()
            ctx.state(str(s), q)
            d0 = np.array(make('fixed', target, None, 'gen')(photons(np.array([target]), [.4]))['dir'])
            a = 2 * np.arcsin(np.linalg.norm(np.array(o['dir']) - d0, axis=1) / 2)
            ctx.close(a, [abs(ndtri(q)) * 3e-3], f'jitter {s}', atol=1e-8)


def moved(ctx, cls):
    """a pointing that was used and then changed behaves like a new one with these values"""
    kw = {'jitter': 2 * u.arcmin} if cls == 'jitter' else {}

    def run(p, t):
        with rng.active(rng.Const(.7)):
            return p(photons(sources(TARGETS[t])[3:9], POL[:2]))

    def same(a, b, what):
        ctx.step(2)
        for c in ('dir', 'polarization'):
            ctx.close(np.array(a[c]), np.array(b[c]), f'{what}: {c}', atol=1e-9)
        for k in a.meta:
            if k[-4:] in ('_PNT', '_NOM'):
                ctx.close(a.meta[k][0], b.meta[k][0], f'{what}: {k}', atol=1e-9)
    for t, r, ref in itertools.product(['origin', 'high'], ['30', '-100', '180'], ['zxy', 'flip', 'gen']):
        p = make(cls, TARGETS['gen'], ROLLS['rad'], 'id', **kw)
        run(p, 'gen')
        ctx.state(cls, t, r, ref)
        p.roll = ROLLS[r]
        same(run(p, 'gen'), run(make(cls, TARGETS['gen'], ROLLS[r], 'id', **kw), 'gen'), 'roll changed')
        p.coords = SkyCoord(*TARGETS[t], unit='deg')
        same(run(p, t), run(make(cls, TARGETS[t], ROLLS[r], 'id', **kw), t), 'coordinates changed')
        m = np.eye(4)
        m[:3, :3] = REFS[ref]
        p.reference_transform = m
        same(run(p, t), run(make(cls, TARGETS[t], ROLLS[r], ref, **kw), t), 'reference changed')


def scenarios(ctx):
    yield 'smallunits', smallunits
    yield from C.cases(moved, 'moved', ['fixed', 'jitter'])
    yield from C.cases(fixed, 'fixed', list(TARGETS), list(ROLLS), list(REFS))
    yield 'units', units
    yield from C.cases(jitter, 'jitter', ['gen', 'origin', 'high', 'npole'], ['default', '30', 'rad'], list(REFS),
                       [30 * u.arcsec, 1 * u.deg, -20 * u.arcmin], [0, 1, 2, 3])
    yield 'zerojitter', zerojitter
