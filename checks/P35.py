"""Products of pointings (also close to the pole and across ra=0) x roll x dither amplitudes, periods and phases x times;
lattices of positions on all ten ACIS chips x aimpoints x offsets x chip lists x roll; all facets of the HETG; permutations
of columns and header keywords for the event files - everything against own algebra and own copies of the constants."""
import itertools
import os
import tempfile
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.io import fits
from astropy.table import Table
from mc import rng, zoo
from . import _common as C

FOC = 10061.65
PIX = .492 / 3600
AIM = {'ACIS-I': (-.782, 0, -233.592), 'ACIS-S': (-.684, 0, -190.133)}
OLSI = np.array([0.684, 0.750, 236.552])
CORN = (
    ((2.361, -26.484, 23.088), (1.13, -26.546, -1.458), (1.13, -1.939, 23.088)),
    ((1.13, 23.086, -1.458), (2.36, 23.024, 23.088), (-0.1, -1.459, -1.458)),
    ((1.13, -26.546, -1.997), (2.361, -26.484, -26.543), (-0.1, -2.001, -1.997)),
    ((2.361, 23.024, -26.543), (1.131, 23.086, -1.997), (1.13, -1.521, -26.543)),
    ((0.744, -81.17, -59.17), (0.353, -56.597, -59.17), (0.744, -81.17, -34.59)),
    ((0.348, -56.133, -59.17), (0.099, -31.559, -59.17), (0.348, -56.133, -34.59)),
    ((0.096, -31.1, -59.17), (-0.011, -6.524, -59.17), (0.096, -31.1, -34.59)),
    ((-0.011, -6.035, -59.17), (0.024, 18.541, -59.17), (-0.011, -6.035, -34.59)),
    ((0.026, 18.97, -59.17), (0.208, 43.545, -59.17), (0.026, 18.97, -34.59)),
    ((0.208, 43.986, -59.17), (0.528, 68.56, -59.17), (0.208, 43.986, -34.59)))
TORIG = ((3061, 5131), (5131, 4107), (3061, 4085), (5131, 3061), (791, 1702), (1833, 1702), (2875, 1702), (3917, 1702),
         (4959, 1702), (6001, 1702))


def sky(ra, dec):
    return np.stack([np.cos(ra) * np.cos(dec), np.sin(ra) * np.cos(dec), np.sin(dec)], axis=-1)


def turn(v, k, a):
    """rotate v around unit vector k"""
    c, s = np.cos(a), np.sin(a)
    return v * c + np.cross(k, v) * s + k * (v @ k) * (1 - c)


def axes(ra, dec, roll):
    """spacecraft axes: x to the pointing, z north, turned N through E by roll"""
    x = sky(ra, dec)
    e = np.array([-np.sin(ra), np.cos(ra), 0])
    n = np.cross(x, e)
    z = np.cos(roll) * n + np.sin(roll) * e
    return np.stack([x, np.cross(z, x), z])


POINT = {'std': (30., 30.), 'south': (212.5, -33.), 'wrap': (.0005, 10.), 'high': (271., 80.)}
AMP = {'default': None, 'zero': (0., 0, 0), 'big': (200., 50., 0.), 'roll': (8., 16., 3600.), 'onlyra': (60., 0, 0), 'onlyroll': (0, 0, 900.),
       'wide': (7200., 3600., 20.)}
TIME = {'default': (None, None), 'fast': ((100., 77., 50.), (0, 0, 0)), 'phase': ((1000., 707., 300.), (.3, 2., -1.))}
TREF = {'id': np.eye(4), 'zxy': np.array([[0., 1, 0, 0], [0, 0, 1, 0], [1, 0, 0, 0], [0, 0, 0, 1]])}


def motion(p, roll, amp, tim, t):
    ra0, dec0 = np.deg2rad(POINT[p])
    a = np.deg2rad(np.array(AMP[amp] or (8., 8., 0.)) / 3600)
    per = np.array(TIME[tim][0] or (1000., 707., 1e5))
    pha = np.array(TIME[tim][1] or (0, 0, 0.))
    off = a * np.sin(2 * np.pi * t[:, None] / per + pha)
    off[:, 0] /= np.cos(dec0)
    out = []
    for o in off:
        r = np.deg2rad(roll) + o[2]
        d = turn(sky(ra0 + o[0], dec0 + o[1]), sky(ra0, dec0), r)
        out.append([np.arctan2(d[1], d[0]) % (2 * np.pi), np.arctan2(d[2], np.hypot(d[0], d[1])), r])
    return off, np.array(out)


def dither(ctx, p, amp, tim):
    from marxs.missions.chandra import LissajousDither
    from marxs.source import FixedPointing
    t = np.array([0., 1., 33.3, 176.75, 250., 500.1, 707., 1e4 + .1])
    for roll in (0., 15., -70., 200.):
        for ref in TREF:
            kw = {}
            if AMP[amp] is not None:
                kw['DitherAmp'] = np.array(AMP[amp]) * u.arcsec
                if amp == 'big':
                    kw['DitherAmp'] = kw['DitherAmp'].to(u.deg)
            if TIME[tim][0] is not None:
                kw['DitherPeriod'] = np.array(TIME[tim][0]) * u.s
                kw['DitherPhase'] = np.array(TIME[tim][1]) * u.rad
                if tim == 'fast':
                    kw['DitherPeriod'] = kw['DitherPeriod'].to(u.hour)
            base = dict(coords=SkyCoord(*POINT[p], unit='deg'), roll=roll * u.deg)
            if ref != 'id':
                base['reference_transform'] = TREF[ref]
            e = LissajousDither(**base, **kw)
            ctx.step()
            ctx.state(p, amp, tim, roll, ref)
            off, want = motion(p, roll, amp, tim, t)
            ctx.close(e.dither(t).to(u.rad).value, off, 'dither offsets', atol=1e-12, rtol=1e-9)
            got = np.asarray(e.pointing(t))
            dra = (got[:, 0] - want[:, 0] + np.pi) % (2 * np.pi) - np.pi
            ctx.close(dra, np.zeros(len(t)), 'pointing ra', atol=3e-9)
            ctx.close(got[:, 1:], want[:, 1:], 'pointing dec, roll', atol=3e-9)
            ctx.close(np.asarray(e.pointing(t[3:4])), got[3:4], 'single time', atol=1e-12)
            # times at which the roll is the same at the start and the end
            per = (TIME[tim][0] or (1000., 707., 1e5))[2]
            t2 = np.array([5., 5 + .2 * per, 5 + .6 * per, 5 + per])
            got2, want2 = np.asarray(e.pointing(t2)), motion(p, roll, amp, tim, t2)[1]
            ctx.close(np.exp(1j * (got2[:, 0] - want2[:, 0])).imag, np.zeros(4), 'ra over a full roll period', atol=3e-9)
            ctx.close(got2[:, 1:], want2[:, 1:], 'dec, roll over a full roll period', atol=3e-9)
            # photon directions
            src = np.deg2rad([np.add(POINT[p], d) for d in ((0., 0.), (.1, -.05), (-.2, .3), (0, 1.), (3., 0), (0, -.01), (.02, 0), (-1., -1.))])
            ph = Table({'ra': np.rad2deg(src[:, 0]), 'dec': np.rad2deg(src[:, 1]), 'time': t, 'polangle': np.zeros(8), 'energy': np.ones(8),
                        'probability': np.ones(8)})
            ph['polangle'].unit = u.rad
            ph['time'].unit = u.s
            out = e(ph.copy())
            for i in range(8):
                w = -axes(*want[i]) @ sky(*src[i])
                w = TREF[ref][:3, :3] @ w
                ctx.close(np.array(out['dir'])[i], np.append(w, 0), f'direction of photon {i}', atol=1e-8)
            pol = np.array(out['polarization'])
            ctx.close((pol * np.array(out['dir'])).sum(1), np.zeros(8), 'polarization perpendicular', atol=1e-8)
            for k, w in (('RA_PNT', POINT[p][0]), ('DEC_PNT', POINT[p][1]), ('ROLL_PNT', roll)):
                ctx.close(out.meta[k][0], w, k)
            if amp == 'zero':
                fix = FixedPointing(**base)(ph.copy())
                ctx.close(np.array(out['dir']), np.array(fix['dir']), 'no dither is the fixed pointing', atol=1e-8)
                ctx.close(np.array(out['polarization']), np.array(fix['polarization']), 'no dither is the fixed pointing', atol=1e-7)


def quat2mat(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def asol(ctx, p, amp, tim):
    from marxs.missions.chandra import LissajousDither
    kw = {}
    if AMP[amp] is not None:
        kw['DitherAmp'] = np.array(AMP[amp]) * u.arcsec
    if TIME[tim][0] is not None:
        kw['DitherPeriod'] = np.array(TIME[tim][0]) * u.s
        kw['DitherPhase'] = np.array(TIME[tim][1]) * u.rad
    roll = 40.
    e = LissajousDither(coords=SkyCoord(*POINT[p], unit='deg'), roll=roll * u.deg, **kw)
    ph = Table({'pos': [1., 2]})
    with tempfile.TemporaryDirectory(dir=zoo.tmpdir()) as tmp:
        for expo, step in ((20., None), (500., 7.), (3., .5)):
            ph.meta = {'EXPOSURE': (expo, 's'), 'TELESCOP': ('CHANDRA', ''), 'EXTNAME': 'EVENTS', 'TTYPE1': 'pos', 'MYKEY': 5,
                       'DATE-OBS': ('2000-01-01T00:00:00', '')}
            del ph.meta['EXTNAME']
            f = os.path.join(tmp, f'a{expo}.fits')
            e.write_asol(ph, f, **({} if step is None else {'timestep': step}))
            ctx.step()
            ctx.state(p, amp, tim, expo)
            a = Table.read(f)
            hd = fits.getheader(f, 1)
            t = np.arange(0, expo, step or .256)
            ctx.same(len(a), len(t), 'number of entries')
            ctx.close(np.array(a['time']) - hd['TSTART'], t, 'time since the start of the observation', atol=1e-6)
            _, want = motion(p, roll, amp, tim, t)
            got = np.stack([np.array(a[c]) for c in ('ra', 'dec', 'roll')], axis=1)
            d = (got - np.rad2deg(want) + 180) % 360 - 180
            ctx.close(d, np.zeros_like(d), 'motion', atol=3e-7)
            for i in range(0, len(a), 9):
                ctx.close(quat2mat(a['q_att'][i]), axes(*want[i]).T, 'attitude', atol=1e-8)
            ctx.same((hd['EXTNAME'], hd['CONTENT'], hd['HDUCLASS'], hd['MYKEY']), ('ASPECT', 'ACASOL', 'OGIP', 5), 'header')
            ctx.close(hd['TSTOP'] - hd['TSTART'], expo, 'exposure time', atol=1e-6)
            ctx.close(hd['TSTART'], 63072000 + 64.184 - 64.184, 'TSTART belongs to DATE-OBS', atol=70.)
            for c in ('dy', 'dz', 'dtheta', 'ra_err', 'roll_bias'):
                ctx.check(not np.any(np.array(a[c])), c)


def chips(ctx, aim, offset, roll):
    from marxs.missions.chandra import ACIS, AIMPOINTS
    offs = {'none': {}, 'x': {'DetOffsetX': 1.5}, 'xy': {'DetOffsetX': -2., 'DetOffsetY': 4.}}[offset]
    shift = np.array([offs.get('DetOffsetX', 0), 0, offs.get('DetOffsetY', 0)])
    ctx.close(AIMPOINTS[aim], AIM[aim], 'aimpoint')
    ctx.close([AIMPOINTS['HRC-I'], AIMPOINTS['HRC-S']], [(-1.04, 0, 126.985), (-1.43, 0, 250.456)], 'aimpoints of the HRC')
    for sel in (range(10), [0, 1, 2, 3], [4, 5, 6, 7, 8, 9], [7], [3, 7, 6], [9, 0]):
        sel = list(sel)
        a = ACIS(chips=list(sel), aimpoint=AIMPOINTS[aim], **offs)
        cp = np.array([(x, y) for x in (1.2, 20.7137, 512.5, 513., 1000.3, 1023.4) for y in (1.7, 400.4, 512.5, 700.0061, 1023.8)])
        cp = np.concatenate([cp, [(-3., 500.), (500., 1030.), (1030., 2.), (400., -6.)]])
        n = len(cp)
        pos, want, ids = [], [], []
        for c in range(10):
            ll, lr, ul = (np.array(x) + OLSI + AIM[aim] - shift for x in CORN[c])
            ey, ez = lr - ll, ul - ll
            cen = ll + ey / 2 + ez / 2
            for x, y in cp:
                pos.append(cen + (x - 512.5) * .024 * zoo.unit(ey) + (y - 512.5) * .024 * zoo.unit(ez))
                on = c in sel and abs((x - 512.5) * .024) < np.linalg.norm(ey) / 2 and abs((y - 512.5) * .024) < np.linalg.norm(ez) / 2
                ids.append(c if on else -1)
                want.append((x, y))
        pos, want, ids = np.array(pos), np.array(want), np.array(ids)
        # the rays outside of a chip may still hit one of its neighbours
        edge = np.tile(np.arange(n) >= len(cp) - 4, 10)
        d = zoo.unit(pos * [0, 1, 1] * .5 - np.array([FOC, 0, 0]))
        ph = Table({'pos': np.hstack([pos - 300 * d, np.ones((10 * n, 1))]), 'dir': np.hstack([d, np.zeros((10 * n, 1))]),
                    'polarization': np.hstack([[zoo.perp(x, .3) for x in d], np.zeros((10 * n, 1))]), 'energy': np.ones(10 * n),
                    'probability': np.linspace(.1, 1, 10 * n), 'time': np.arange(10 * n) * 1.})
        ph.meta['ROLL_PNT'] = (roll, 'deg')
        keep = zoo.columns(ph)
        for rnd in range(2):
            out = a(ph.copy())
            ctx.step(10 * n)
            ctx.state(aim, offset, roll, tuple(sel), rnd)
            got = np.array(out['CCD_ID'])
            ctx.check(set(got) <= set(sel) | {-1}, f'only selected chips {set(got)}')
            k = ~edge
            ctx.check(np.array_equal(got[k], ids[k]), f'chip numbers {np.flatnonzero((got != ids) & k)[:5]}')
            k = ids >= 0
            s = ids >= 4      # corners of the other chips are not rectangles to all digits
            ctx.close(np.array(out['chipx'])[s], want[s, 0], 'chipx', atol=1e-6)
            ctx.close(np.array(out['chipy'])[s], want[s, 1], 'chipy', atol=1e-6)
            ctx.close(np.array(out['chipx'])[k], want[k, 0], 'chipx', atol=.03)
            ctx.close(np.array(out['chipy'])[k], want[k, 1], 'chipy', atol=.03)
            tx, ty = [], []
            for i, (x, y) in zip(ids, want):
                ox, oy = TORIG[i]
                if i in (0, 2):
                    x, y = ox + y, oy + 1 - x
                elif i in (1, 3):
                    x, y = ox + 1 - y, oy + x
                else:
                    x, y = ox + x, oy + y
                tx.append(x), ty.append(y)
            ctx.close(np.array(out['tdetx'])[k], np.array(tx)[k], 'tdetx', atol=.03)
            ctx.close(np.array(out['tdety'])[k], np.array(ty)[k], 'tdety', atol=.03)
            p = pos[k]
            ay, az = (p[:, j] / (FOC - p[:, 0]) / np.deg2rad(PIX) for j in (1, 2))
            ctx.close(np.array(out['detx'])[k], 4096.5 + ay, 'detx', atol=1e-5)
            ctx.close(np.array(out['dety'])[k], 4096.5 - az, 'dety', atol=1e-5)
            r = np.deg2rad(roll)
            ctx.close(np.array(out['x'])[k], 4096.5 + np.cos(r) * ay - np.sin(r) * az, 'x', atol=1e-5)
            ctx.close(np.array(out['y'])[k], 4096.5 - np.sin(r) * ay - np.cos(r) * az, 'y', atol=1e-5)
            ctx.close(np.array(out['pos'])[k, :3], p, 'position on the chip', atol=1e-7)
            ctx.close(np.array(out['probability']), keep['probability'], 'probability')
            ctx.close(np.array(out['dir']), keep['dir'], 'direction')
            m = got < 0
            ctx.close(np.array(out['pos'])[m], keep['pos'][m], 'photons that miss', atol=1e-12)
            if m.any():
                ctx.check(np.all(np.isnan(np.array(out['chipx'], float)[m])), 'no coordinates without chip')
            ctx.close([out.meta['SIM_X'], out.meta['SIM_Y'], out.meta['SIM_Z']], np.array(AIM[aim]) - shift, 'SIM position')
            ctx.same(out.meta['DETNAM'], 'ACIS-' + ''.join(map(str, sel)), 'DETNAM')
            ctx.same(out.meta['INSTRUME'][0], 'ACIS', 'INSTRUME')
            # build again: same chips at the same place
            a.generate_elements()
        names = ['ACIS-' + x for x in ('I0', 'I1', 'I2', 'I3', 'S0', 'S1', 'S2', 'S3', 'S4', 'S5')]
        ctx.same([e.chip_name for e in a.elements], [names[i] for i in sel], 'names of chips')
        ctx.same([e.id_num for e in a.elements], sel, 'chips after elements are generated again')


def endtoend(ctx, p, roll, full=False):
    """the sky coordinates together with the WCS in the event file give back the position of the source"""
    from marxs.missions import chandra
    from marxs.source import PointSource, FixedPointing
    from astropy.wcs import WCS
    ra0, dec0 = POINT[p]
    aim = chandra.AIMPOINTS['ACIS-I']
    for off in ((0., 0.), (.03, .02), (-.05, .04), (.02, -.06), (-.04, -.03)):
        ra, dec = (ra0 + off[0] / np.cos(np.deg2rad(dec0))) % 360, dec0 + off[1]
        src = PointSource(coords=SkyCoord(ra, dec, unit='deg'), flux=1 / u.s / u.cm**2)
        src.geomarea = 1 * u.cm**2
        pnt = FixedPointing(coords=SkyCoord(ra0, dec0, unit='deg'), roll=roll * u.deg)
        with rng.active(rng.Const(.5)):
            ph = pnt(src.generate_photons(3 * u.s))
            n = len(ph)
            ctx.check(n > 0, 'photons')
            ph['pos'] = np.tile([FOC, 0, 0, 1.], (n, 1)) - 100 * np.array(ph['dir'])
            obs = chandra.Chandra(elements=[chandra.HRMA(), chandra.ACIS(chips=[0, 1, 2, 3], aimpoint=aim)])
            ph = obs(ph)
        ctx.step(n)
        ctx.state(p, roll, off)
        ctx.same([ph.meta[k][0] for k in ('MISSION', 'TELESCOP')], ['AXAF', 'CHANDRA'], 'mission keywords of the photon list')
        if np.any(np.array(ph['CCD_ID']) < 0):
            continue      # gap between the chips
        with tempfile.TemporaryDirectory(dir=zoo.tmpdir()) as tmp:
            f = os.path.join(tmp, 'e.fits')
            obs.write_evt(ph, f)
            hd = fits.getheader(f, 1)
            ev = Table.read(f)
        cols = [hd[f'TTYPE{i}'].lower() for i in range(1, hd['TFIELDS'] + 1)]
        ix, iy = cols.index('x') + 1, cols.index('y') + 1
        w = WCS(naxis=2)
        w.wcs.ctype = [hd[f'TCTYP{ix}'], hd[f'TCTYP{iy}']]
        w.wcs.crval = [hd[f'TCRVL{ix}'], hd[f'TCRVL{iy}']]
        w.wcs.cdelt = [hd[f'TCDLT{ix}'], hd[f'TCDLT{iy}']]
        w.wcs.crpix = [hd[f'TCRPX{ix}'], hd[f'TCRPX{iy}']]
        s = w.wcs_pix2world(np.stack([ev['x'], ev['y']], axis=1), 1)
        sep = SkyCoord(s[:, 0], s[:, 1], unit='deg').separation(SkyCoord(ra, dec, unit='deg')).arcsec
        if roll == 0 or full:
            ctx.close(sep, np.zeros(n), f'source position from the event file, offset {off} roll {roll}', atol=.1)
        cen = SkyCoord(ra0, dec0, unit='deg')
        ctx.close(SkyCoord(s[:, 0], s[:, 1], unit='deg').separation(cen).arcsec,
                  np.full(n, SkyCoord(ra, dec, unit='deg').separation(cen).arcsec), 'distance from the pointing', atol=.1)
        ctx.same((hd['MISSION'], hd['TELESCOP'], hd['INSTRUME'], hd['EXTNAME']), ('AXAF', 'CHANDRA', 'ACIS', 'EVENTS'), 'header')


LIM = {'CCD_ID': (0, 9), 'CHIPX': (2, 1023), 'CHIPY': (2, 1023), 'TDETX': (2, 8191), 'TDETY': (2, 8191), 'DETX': (.5, 8192.5),
       'DETY': (.5, 8192.5), 'X': (.5, 8192.5), 'Y': (.5, 8192.5), 'PHA': (0, 36855), 'ENERGY': (0, 1e6), 'FLTGRADE': (0, 255)}


def evtfile(ctx, k):
    """columns in any order, header keywords of earlier files, keywords already set"""
    from marxs.missions.chandra import Chandra
    cols = ['x', 'y', 'ra', 'dec', 'CCD_ID', 'detx', 'dety', 'energy', 'time', 'chipx', 'probability', 'pha', 'TDETX']
    order = np.argsort([(i * (k + 1) * 7 + k) % 13 for i in range(13)], kind='stable')
    n = 4
    t = Table({cols[j]: np.arange(n) * (1. + j) for j in order})
    pre = {'ORIGIN': 'me', 'GRATING': ('HETG', 'x'), 'OBSERVER': ('A', 'b'), 'DATE-OBS': ('2010-03-04T05:06:07', 'd')} if k % 2 else {}
    t.meta = {'EXPOSURE': (100., 's'), 'INSTRUME': ('ACIS', 'i'), 'RA_PNT': (12.5, 'deg'), 'DEC_PNT': (-3.25, 'deg'),
              'TCTYP3': 'old', 'TLMIN2': -7, 'TLMAX13': 1, 'TCRVL1': 9., 'TCDLT12': 5, 'TCRPX4': 1, 'MYKEY': 'keep', **pre}
    if k % 3 == 0:
        t['time'].unit = u.s
    c = Chandra(elements=[])
    with tempfile.TemporaryDirectory(dir=zoo.tmpdir()) as tmp:
        f = os.path.join(tmp, 'e.fits')
        c.write_evt(t.copy(), f)
        with fits.open(f) as h:
            hd = h[1].header
            data = {x.lower(): np.array(h[1].data[x]) for x in h[1].columns.names}
    ctx.step()
    ctx.state(k)
    names = [hd[f'TTYPE{i}'] for i in range(1, hd['TFIELDS'] + 1)]
    want = [{'ra': 'marxs_ra', 'dec': 'marxs_dec'}.get(cols[j], cols[j]) for j in order]
    ctx.same([x.lower() for x in names], [x.lower() for x in want], 'columns')
    for j in order:
        ctx.close(data[{'ra': 'marxs_ra', 'dec': 'marxs_dec'}.get(cols[j], cols[j]).lower()], np.arange(n) * (1. + j), f'data {cols[j]}')
    for i, x in enumerate(names, 1):
        lim = LIM.get(x.upper())
        ctx.same((hd.get(f'TLMIN{i}'), hd.get(f'TLMAX{i}')), lim if lim else (None, None), f'limits for {x}')
        w = {'x': ('RA---TAN', 12.5, -PIX, 4096.5), 'y': ('DEC--TAN', -3.25, PIX, 4096.5)}.get(x.lower(), (None,) * 4)
        g = tuple(hd.get(f'{q}{i}') for q in ('TCTYP', 'TCRVL', 'TCDLT', 'TCRPX'))
        ctx.same((g[0], None if g[2] is None else round(g[2], 12)), (w[0], None if w[2] is None else round(w[2], 12)), f'WCS for {x}')
        ctx.same((g[1], g[3]), (w[1], w[3]), f'WCS for {x}')
    ctx.same(hd['MYKEY'], 'keep', 'other keywords')
    for q, w in (('ORIGIN', 'me' if pre else 'ASC'), ('GRATING', 'HETG' if pre else 'NONE'), ('OBSERVER', 'A' if pre else 'MARXS'),
                 ('CONTENT', 'EVT1'), ('HDUCLASS', 'OGIP'), ('HDUCLAS1', 'EVENTS'), ('HDUCLAS2', 'ALL'), ('HDUNAME', 'EVENTS'),
                 ('EXTNAME', 'EVENTS'), ('TELESCOP', 'CHANDRA'), ('EXPOSURE', 100.), ('LIVETIME', 100.), ('ONTIME', 100.), ('DTCOR', 1.),
                 ('TIMESYS', 'TT'), ('MJDREF', 50814), ('FOC_LEN', FOC), ('TIMEUNIT', 's'), ('TIMEPIXR', 0.),
                 ('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'), ('MTYPE2', 'tdet'), ('MFORM2', 'tdetx,tdety'), ('MTYPE3', 'det'),
                 ('MFORM3', 'detx,dety'), ('MTYPE4', 'sky'), ('MFORM4', 'x,y'), ('MTYPE5', 'EQPOS'), ('MFORM5', 'RA,DEC')):
        ctx.same(hd[q], w, q)
    ctx.check('HDUCLAS3' not in hd, 'HDUCLAS3')
    ctx.close(hd['TSTOP'] - hd['TSTART'], 100., 'TSTOP', atol=1e-5)
    if pre:
        ctx.same(hd['DATE-OBS'], '2010-03-04T05:06:07', 'date is kept')
        mjd = 55259 + (5 * 3600 + 6 * 60 + 7) / 86400
        ctx.close(hd['OBS-MJD'], mjd, 'OBS-MJD', atol=.002, rtol=0)
        ctx.close(hd['TSTART'], (mjd - 50814) * 86400, 'TSTART', atol=70., rtol=0)


def headers(ctx, content, cls):
    from marxs.missions.chandra.fitsheaders import complete_header
    for keep in (False, True):
        h = {'EXTNAME': 'TAB', 'EXPOSURE': (50., 's'), 'DATE-OBS': ('2001-02-03T04:05:06', '')}
        if keep:
            h |= {'CONTENT': 'mine', 'HDUCLAS1': 'own', 'MISSION': 'other', 'DTCOR': (.5, '')}
        kw = {} if content is None else {'content': content}
        if cls is not None:
            kw['hduclass'] = list(cls)
        complete_header(h, **kw)
        ctx.step()
        ctx.state(content, cls, keep)
        val = {k: v[0] if isinstance(v, tuple) else v for k, v in h.items()}
        full = ['HDUCLASS', 'HDUCLAS1', 'HDUCLAS2', 'HDUCLAS3']
        want = dict(zip(full, cls or ('UNKNOWN',))) | {'CONTENT': content or 'UNKNOWN', 'HDUNAME': 'TAB', 'MISSION': 'AXAF', 'DTCOR': 1., 'ONTIME': 50.,
                                                       'LIVETIME': 50., 'DATE-OBS': '2001-02-03T04:05:06'}
        if keep:
            want |= {'CONTENT': 'mine', 'HDUCLAS1': 'own', 'MISSION': 'other', 'DTCOR': .5}
        for k, v in want.items():
            ctx.same(val[k], v, k)
        for k in full:
            ctx.same(k in val, k in want, k)
        ctx.close(val['TSTOP'] - val['TSTART'], 50., 'TSTOP', atol=1e-5)
        ctx.close(val['OBS-MJD'], 51943 + (4 * 3600 + 5 * 60 + 6) / 86400, 'OBS-MJD', atol=.002, rtol=0)


def sorting(ctx, part):
    from marxs.missions.chandra.fitsheaders import sort_columns
    sets = [['chipx', 'chipy', 'tdetx', 'tdety', 'x', 'y'], ['energy', 'y', 'x', 'dety', 'detx', 'dec'], ['ra', 'dec', 'pos', 'detx', 'time'],
            ['x', 'foox', 'fooy', 'y', 'Barx', 'Bary'], ['zz', 'RA', 'DEC', 'aa', 'chipx'], ['CHIPx', 'CHIPy', 'x', 'y', 'a'], ['a'], ['ra', 'de', 'x']]
    s = sets[part]
    pairs = sorted({c[:-1] for c in s if c[-1] == 'x' and c[:-1] + 'y' in s})
    first = [q for f in ('chip', 'tdet', 'det', '') for q in pairs if q.lower() == f]
    want = [q + e for q in first + [q for q in pairs if q not in first] for e in 'xy']
    rest = [c for c in s if c not in want]
    for a, b in (('ra', 'dec'), ('RA', 'DEC'), ('ra', 'de'), ('RA', 'DE')):
        if a in rest and b in rest:
            want += [a, b]
            rest = [c for c in rest if c not in (a, b)]
    want += sorted(rest)
    for perm in itertools.permutations(s):
        t = Table({c: np.arange(3) * (s.index(c) + 1) for c in perm})
        t.meta['a'] = 1
        o = sort_columns(t)
        ctx.step()
        ctx.same(o.colnames, want, 'order of columns')
        ctx.same(t.colnames, list(perm), 'input is not changed')
        for c in s:
            ctx.check(np.array_equal(np.array(o[c]), np.arange(3) * (s.index(c) + 1)), f'data of {c}')
        ctx.same(o.meta['a'], 1, 'meta')
    ctx.state(part)


def hess():
    import marxs.missions.chandra as m
    lines = [l.rstrip('\n') for l in open(os.path.join(os.path.dirname(m.__file__), 'HESSdesign.rdb')) if not l.startswith('#')]
    head = lines[0].split('\t')
    rows = [l.split('\t') for l in lines[2:] if l.strip()]
    return {h: [r[i] if h == 'hessloc' else float(r[i]) for r in rows] for i, h in enumerate(head)}


def hetg(ctx, part):
    from marxs.missions.chandra import HETG
    t = hess()
    v = lambda s: np.array([t['x' + s], t['y' + s], t['z' + s]]).T
    n = len(t['xc'])
    ctx.same(n, 336, 'facets')
    cen = v('c') + [(339.909 - 1.7) * 25.4, 0, 0]
    nrm, uy, ux, ul = v('u'), v('uyf'), v('uxf'), v('ul')
    meg = np.array([int(s[0]) <= 3 for s in t['hessloc']])
    half = np.where(meg, 1.035, .92) * 25.4 / 2
    per = np.where(meg, 4001.95e-7, 2000.81e-7)
    h = HETG()
    ctx.same(len(h.elements), 336, 'number of gratings')
    wave = 1.2398419843320025e-6 / .9
    for e in h.elements:
        m = np.asarray(e.pos4d)[:3, :3]
        ctx.check(np.linalg.det(m) > 0, 'right handed system of the facet')
    ctx.close(zoo.unit(np.array([np.asarray(e.pos4d)[:3, 0] for e in h.elements])), zoo.unit(nrm), 'normal of facets', atol=1e-5)
    if part == 'facets':
        combos = [(0, 0), (.95, .3), (-.95, -.95), (.2, .95)]
        for (a, b), q in itertools.product(combos, (0.01, .2, .5, .7, .99)):
            hit = cen + half[:, None] * (a * ux + b * uy)
            d = zoo.unit(-hit)
            ph = Table({'pos': np.hstack([hit - 60 * d, np.ones((n, 1))]), 'dir': np.hstack([d, np.zeros((n, 1))]),
                        'polarization': np.hstack([[zoo.perp(x, .3) for x in d], np.zeros((n, 1))]), 'energy': np.full(n, .9),
                        'probability': np.ones(n)})
            with rng.active(rng.Const(q)):
                o = h(ph)
            ctx.step(n)
            ctx.state(a, b, q)
            ctx.check(np.array_equal(np.array(o['facet']), np.arange(n)), f'facet ids {np.flatnonzero(np.array(o["facet"]) != np.arange(n))[:4]}')
            ctx.close(np.array(o['pos'])[:, :3], hit, 'position on the facet', atol=1e-2)
            od = np.array(o['dir'])[:, :3]
            nn = zoo.unit(nrm)
            l = zoo.unit(ul - (ul * nn).sum(1)[:, None] * nn)
            e = np.cross(l, nn)
            m = np.array(o['order'])
            ctx.check(np.all(m == m[0]) and -3 <= m[0] <= 3, 'orders -3 to 3')
            ctx.close((od * l).sum(1), (d * l).sum(1), 'component along the grooves', atol=2e-6)
            de = ((od - d) * e).sum(1)
            ctx.close(np.abs(de), np.abs(m * wave / per), 'grating equation', atol=2e-6)
            ctx.check(len(set(np.sign(np.round(de * np.sign(e[:, 1]), 9)))) == 1, 'all gratings disperse to the same side')
            ctx.close(np.array(o['probability']), np.ones(n), 'probability')
    else:
        # lattice over the whole structure: photons get a grating exactly where there is one
        for tilt in ((0, 0), (1e-3, -2e-3)):
            g = np.linspace(-570, 570, 229) + .123
            yz = np.array([(a, b) for a in g for b in g[::2] if 280 < np.hypot(a, b) < 580])
            d = zoo.unit((-1., tilt[0], tilt[1]))
            x0 = 9000.
            p0 = np.hstack([np.full((len(yz), 1), x0), yz])
            want = np.full(len(p0), -1)
            amb = np.zeros(len(p0), bool)
            for i in range(n):
                s = ((cen[i] - p0) @ nrm[i]) / (d @ nrm[i])
                hh = p0 + s[:, None] * d - cen[i]
                cy, cz = hh @ ux[i] / half[i], hh @ uy[i] / half[i]
                mm = np.maximum(abs(cy), abs(cz))
                amb |= (abs(mm - 1) < 2e-3) | ((mm < 1) & (want >= 0))
                want[mm < 1] = i
            k = ~amb
            ph = Table({'pos': np.hstack([p0, np.ones((len(p0), 1))]), 'dir': np.tile(np.append(d, 0), (len(p0), 1)),
                        'polarization': np.tile(np.append(zoo.perp(d, .3), 0), (len(p0), 1)), 'energy': np.ones(len(p0)), 'probability': np.ones(len(p0))})
            with rng.active(rng.Const(.4)):
                o = h(ph)
            ctx.step(len(p0))
            ctx.state(tilt)
            got = np.array(o['facet'])
            ctx.check(np.array_equal(got[k], want[k]), f'facets {np.flatnonzero((got != want) & k)[:4]}')
            ctx.check(k.mean() > .9 and (want >= 0).mean() > .2, 'lattice decides')
            mi = k & (want < 0)
            ctx.close(np.array(o['dir'])[mi, :3], np.tile(d, (mi.sum(), 1)), 'photons between the gratings', atol=1e-12)


def mirror(ctx, part):
    from marxs.missions.chandra import HRMA, Aperture
    from scipy.special import ndtri
    radii = np.array([[598., 610.], [481, 491], [424, 433], [315, 322]])
    if part == 'aperture':
        b = Aperture(id_col='shell')
        with rng.active(rng.Const(.4)):
            o = b(Table({'dir': np.tile([-1., 0, 0, 0], (3, 1)), 'energy': np.ones(3), 'polarization': np.tile([0, 1., 0, 0], (3, 1)), 'probability': np.ones(3)}))
        ctx.check('shell' in o.colnames and 'mirror_shell' not in o.colnames, 'name of the column is as requested')
        a = Aperture()
        area = np.pi * (radii[:, 1]**2 - radii[:, 0]**2)
        ctx.close(a.area.to(u.mm**2).value, area.sum(), 'area')
        m = 50
        g = np.arange(m * m)
        ph = Table({'dir': np.tile([-1., 0, 0, 0], (m * m, 1)), 'energy': np.ones(m * m), 'polarization': np.tile([0, 1., 0, 0], (m * m, 1)),
                    'probability': np.ones(m * m)})
        with rng.active(rng.Rows([(g + .5) / m**2, (g * 7 % (m * m) + .5) / m**2, (g * 11 % (m * m) + .5) / m**2])):
            o = a(ph)
        p = np.array(o['pos'])
        r = np.hypot(p[:, 1], p[:, 2])
        ctx.close(p[:, 0], np.full(m * m, FOC), 'distance')
        for i in range(4):
            k = np.array(o['mirror_shell']) == i
            ctx.check(abs(k.sum() - m * m * area[i] / area.sum()) < 3, 'share of photons')
            ctx.check(np.all((r[k] > radii[i, 0] - 1e-6) & (r[k] < radii[i, 1] + 1e-6)), 'radius')
        ctx.step(m * m)
        ctx.state(part)
        return
    h = HRMA()
    for q in (.5, .1, .9, .999):
        for f in ((0, 0), (1e-3, -5e-4)):
            d = zoo.unit((-1., *f))
            hit = np.array([[FOC, r * np.cos(k), r * np.sin(k)] for r in (320., 430, 490, 600) for k in np.arange(7)] + [[FOC, 640, 640], [FOC, 655, 0.]])
            n = len(hit)
            ph = Table({'pos': np.hstack([hit - 50 * d, np.ones((n, 1))]), 'dir': np.tile(np.append(d, 0), (n, 1)), 'energy': np.ones(n),
                        'polarization': np.tile(np.append(zoo.perp(d, .3), 0), (n, 1)), 'probability': np.linspace(.5, 1, n)})
            keep = zoo.columns(ph)
            with rng.active(rng.Const(q)):
                o = h(ph)
            ctx.step(n)
            ctx.state(part, q, f)
            w = zoo.unit(np.array([FOC, 0, 0]) + FOC * d / 1. - hit)
            od = np.array(o['dir'])[:, :3]
            ang = np.linalg.norm(np.cross(od, w), axis=1)
            z = abs(ndtri(q))
            ctx.close(ang[:-1], np.full(n - 1, np.hypot(3.6e-6 * z, 1.2e-6 * z)), 'focus and scatter', rtol=.02, atol=3e-9)
            ctx.close(np.array(o['probability'])[:-1], .66 * keep['probability'][:-1], 'throughput')
            ctx.close(od[-1], d, 'photon that misses')
            ctx.close(np.array(o['probability'])[-1], keep['probability'][-1], 'photon that misses')


def sky_roll(ctx):
    endtoend(ctx, 'std', 15., True)


def scenarios(ctx):
    yield from C.cases(dither, 'dither', POINT, AMP, TIME)
    yield from C.cases(asol, 'asol', POINT, ['default', 'roll'], TIME)
    yield from C.cases(chips, 'chips', AIM, ['none', 'x', 'xy'], [0., 15., -100., 200.])
    yield from C.cases(endtoend, 'sky', ['std', 'south', 'wrap'], [0., 15., 100., 250.])
    yield 'sky_roll', sky_roll
    yield from C.cases(evtfile, 'evt', range(12))
    yield from C.cases(sorting, 'sort', range(8))
    yield from C.cases(headers, 'header', [None, 'ACASOL', 'GTI'], [None, ('OGIP',), ('OGIP', 'GTI'), ('ASC', 'A', 'B', 'C')])
    yield from C.cases(hetg, 'hetg', ['facets', 'lattice'])
    yield from C.cases(mirror, 'mirror', ['aperture', 'hrma'])
