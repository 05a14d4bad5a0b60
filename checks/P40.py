"""Arcus with a small calibration database: responses on dense wavelength grids for all channels, orders and channel
subsets; the camera layout; rays through every grating of every channel traced by own algebra down to the CCDs."""
import contextlib
import copy
import io
import itertools
import os
import numpy as np
import astropy.units as u
from astropy.table import Table, QTable
from mc import rng, zoo, arcusdb as A
from . import _common as C
from .P42 import table

CHANS = ['1', '1m', '2', '2m']
OFFSET = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}
SX = {'1': -1, '2': -1, '1m': 1, '2m': 1}      # mirror of the petal in x and y
SY = {'1': 1, '1m': 1, '2': -1, '2m': -1}
HC = 12.398419843320026
CONFS = ['default', 'narrow']


def conf_of(name):
    A.load()
    from marxs.missions.arcus import arcus
    from marxs.design import rowland
    from marxs.math.utils import xyz2zxy
    if name == 'default':
        c = copy.copy(arcus.defaultconf)
    else:
        c = rowland.double_rowland_from_channel_distance(640., 5915.51307, A.F_)
        rowland.add_offset_double_rowland_channels(c, {'1': [0, -2., 4.], '1m': [0, 1.5, -3.], '2': [0, 2., -6.], '2m': [0, -1., 8.]})
        for v in c.values():
            if isinstance(v, rowland.RowlandTorus):
                v.pos4d = xyz2zxy @ v.pos4d
        for k, v in c['pos_opt_ax'].items():
            c['pos_opt_ax'][k] = xyz2zxy @ v
        for k, v in arcus.defaultconf.items():
            c.setdefault(k, v)
        c['phi_det_start'] = .02
        c['blazeang'] = 1.5
    c['gratinggrid'] = copy.deepcopy({'elem_args': {k: v for k, v in arcus.defaultconf['gratinggrid']['elem_args'].items()}})
    return c


OPTAX = {'default': {'1': (-377.5, -7.5), '1m': (372.5, -2.5), '2': (-372.5, 2.5), '2m': (377.5, 7.5)},
         'narrow': {'1': (-322., 4.), '1m': (321.5, -3.), '2': (-318., -6.), '2m': (319., 8.)}}
DIST = {'default': 375., 'narrow': 320.}
START = {'default': .024, 'narrow': .02}
BLZ = {'default': 1.8, 'narrow': 1.5}
EDGE, HALFW = 24.576, 12.288


def radius(name):
    return .5 * np.sqrt(A.F_**2 + 4 * DIST[name]**2)


def ownccds(name, dccd=2.15, dsup=4., shift=5.):
    """centers (x, z) and unit vectors along the 16 CCDs, sorted from -x to +x"""
    r, p0 = radius(name), START[name]
    arc = [0.]
    for g in (dccd, dsup, dccd, dccd, dsup, dccd, dccd):
        arc.append(arc[-1] + 2 * EDGE + g)
    arc = np.array(arc) + p0 * r + EDGE
    s = np.sort(np.hstack([-arc - shift, arc - shift])) / r
    zc = np.sqrt(r * r - DIST[name]**2)
    cen = np.array([r * np.sin(s), zc - r * np.cos(s)]).T
    along = np.array([np.cos(s), np.sin(s)]).T
    return cen, along


def ccd_hit(name, pos, d):
    """ray -> number of CCD (1..16), -1 if none, -9 if too close to an edge; position along the CCD"""
    cen, al = ownccds(name)
    out = np.full(len(pos), -1)
    where = np.full(len(pos), np.nan)
    for k in range(16):
        n = np.array([-al[k, 1], 0, al[k, 0]])
        e = np.array([al[k, 0], 0, al[k, 1]])
        c = np.array([cen[k, 0], 0, cen[k, 1]])
        t = ((c - pos) @ n) / (d @ n)
        h = pos + t[:, None] * d - c
        a, y = h @ e, h[:, 1]
        inside = (abs(a) < EDGE) & (abs(y) < HALFW)
        near = (abs(abs(a) - EDGE) < 1e-5) & (abs(y) < HALFW + 1) | (abs(abs(y) - HALFW) < 1e-5) & (abs(a) < EDGE + 1)
        out[inside] = k + 1
        where[inside] = a[inside]
        out[near] = -9
    return out, where


# ------------------------------------------------------------------ responses
def onccd(ctx, cname, chan, unit):
    from marxs.missions.arcus import arfrmf
    conf = conf_of(cname)
    oc = arfrmf.OnCCD(conf)
    ox = OPTAX[cname][chan][0]
    s = np.sign(ox)
    deff = np.cos(np.deg2rad(BLZ[cname])) * np.mean(A.facets(A.modules())[:, -1]) * 1e7
    cen, al = ownccds(cname)
    a, b = cen - EDGE * al, cen + EDGE * al
    for order in (-9, -5, -4, -2, -1, 0, 1, 2, 7):
        ml = np.linspace(.013, 330., 1500)
        wave = ml / max(abs(order), 1)
        wave = np.concatenate([wave[::2], wave[1::2]])
        q = (wave * u.Angstrom).to(u.Unit(unit), equivalencies=u.spectral())
        got = oc(q, order, chan)
        ctx.step(len(wave))
        ctx.state('onccd', cname, chan, unit, order)
        sin = order * wave / deff
        sin = np.where(abs(sin) < 1, sin, np.nan)
        tan = sin / np.sqrt(1 - sin**2)
        want, close = np.zeros(len(wave), bool), np.zeros(len(wave), bool)
        for k in range(16):
            # side of both ends of the CCD with respect to the ray from (ox, f)
            sa = s * (a[k, 0] - ox) - tan * (A.F_ - a[k, 1])
            sb = s * (b[k, 0] - ox) - tan * (A.F_ - b[k, 1])
            want |= sa * sb < 0
            close |= np.minimum(abs(sa), abs(sb)) < 1e-4
        ctx.check(got.dtype == bool and got.shape == wave.shape, 'type')
        bad = np.flatnonzero((got != want) & ~close)
        ctx.check(len(bad) == 0, f'{cname} {chan} order {order}: wrong at {wave[bad[:4]]} A, says {got[bad[:4]]}')
        if order in (-5, -4, 7):
            ctx.check(want.any() and not want.all(), 'grid crosses gaps and chips')


def mirrgrat(ctx, kind):
    A.load()
    from marxs.missions.arcus import arfrmf
    from scipy.interpolate import interp1d
    path = os.path.join(A.DB, 'aeff', 'mirr_grat.tab')
    tab = QTable.read(path, format='ascii.ecsv')
    if kind == 'reversed':
        tab = tab[::-1]
    if kind == 'm2':
        for o in A.ORDERS:
            tab[str(o)] = tab[str(o)].to(u.m**2)
    keep = {c: np.array(tab[c]) for c in tab.colnames}
    m = arfrmf.MirrGrat(tab)
    for c in keep:
        ctx.same(np.array(tab[c]), keep[c], 'input table')
    i = np.argsort(A.MG_WAVE)
    for o in A.ORDERS:
        v = A.mirr_grat(o, A.MG_WAVE)
        f = interp1d(A.MG_WAVE[i], v[i], kind='quadratic', bounds_error=False, fill_value=0.)
        w = np.concatenate([A.MG_WAVE, np.linspace(1., 80., 230), [60.001, 4.999]])
        for un in ('Angstrom', 'keV', 'eV', 'nm'):
            for od in (o, str(o), np.int64(o)):
                got = m((w * u.Angstrom).to(u.Unit(un), equivalencies=u.spectral()), od)
                ctx.step()
                want = np.clip(f(w), 0, None)
                inner = (w > 5.0001) & (w < 59.999)
                ctx.close(u.Quantity(got).to_value(u.cm**2)[inner], want[inner], f'order {o} {un}', rtol=1e-7, atol=1e-7)
                out = (w < 4.9999) | (w > 60.0001)
                ctx.check(np.all(np.asarray(got)[out] == 0), 'zero outside of the table')
                ctx.check(np.all(np.asarray(got) >= 0), 'never negative')
        ctx.close(u.Quantity(m(np.array([10., 35., 50., 25., 20.]) * u.AA, o)).to_value(u.cm**2),
                  A.mirr_grat(o, np.array([10., 35., 50., 25., 20.])), 'values of the table', rtol=1e-9)
        ctx.state('mirrgrat', kind, o)
    ctx.raises(KeyError, lambda: m([10.] * u.AA, 99), 'order without data')


def edge(ctx, pos, height, n):
    """tables with steep edges: quadratic interpolation, but never negative"""
    A.load()
    from marxs.missions.arcus import arfrmf
    from scipy.interpolate import interp1d
    w = np.arange(10., 10. + n)
    v = np.zeros(n)
    v[pos:pos + 2] = height
    m = arfrmf.MirrGrat(QTable({'wave': w * u.AA, '-3': v * u.cm**2, '-4': v[::-1] * u.cm**2}))
    x = np.linspace(9, 11. + n, 300)
    for o, y in ((-3, v), (-4, v[::-1])):
        got = m(x * u.AA, o).to_value(u.cm**2)
        want = np.clip(interp1d(w, y, kind='quadratic', bounds_error=False, fill_value=0.)(x), 0, None)
        ctx.step()
        ctx.state('edge', pos, height, n, o)
        ctx.close(got, want, 'interpolation', rtol=1e-8, atol=1e-9)
        ctx.check(np.all(got >= 0), 'never negative')


EDGES = {'A': np.array([18., 18.5, 19.2, 20., 22., 22.2, 25., 26., 27.5, 33., 41., 47., 53., 59.]) * u.Angstrom,
         'keV': np.linspace(.22, .9, 41) * u.keV,
         'wide': np.array([.05, .09, .2, .25, .3, .4, 3., 13., 14.]) * u.keV,
         'mixed': np.array([.5, .3, .6, .45, .7, .35, .9]) * u.keV,
         'eV': np.arange(900., 250., -13.) * u.eV}


def arf(ctx, cname, edges, order):
    conf = conf_of(cname)
    from marxs.missions.arcus import arfrmf
    from marxs.reduction import ogip
    ed = EDGES[edges]
    keep = ed.copy()
    e = np.sort(ed.to(u.keV, equivalencies=u.spectral()).value)
    mid = .5 * (e[1:] + e[:-1])
    filt = np.ones(len(mid))
    for f in A.FILTERS.values():
        x = (np.asarray(f[1]) * u.Unit(f[0])).to(u.keV, equivalencies=u.spectral()).value
        filt *= np.where((mid >= x.min()) & (mid <= x.max()), A.interp(f, mid), 0)
    path = os.path.join(A.DB, 'aeff', 'mirr_grat.tab')
    mg = arfrmf.MirrGrat(QTable.read(path, format='ascii.ecsv'))(mid * u.keV, order)
    oc = arfrmf.OnCCD(conf)
    single = {c: oc(mid * u.keV, order, c).astype(float) for c in CHANS}
    for n in range(1, 5):
        for sub in itertools.combinations(CHANS, n):
            for sel in (list(sub), list(sub)[::-1]):
                k2 = list(sel)
                a = arfrmf.mkarf(ed, order, conf=conf, channels=sel)
                ctx.step()
                ctx.state('arf', cname, edges, order, sub)
                ctx.same(sel, k2, 'channels')
                ctx.check(np.all(ed == keep), 'edges')
                on = sum(single[c] for c in sub)
                ctx.close(u.Quantity(a['ENERG_LO']).to_value(u.keV), e[:-1], 'ENERG_LO')
                ctx.close(u.Quantity(a['ENERG_HI']).to_value(u.keV), e[1:], 'ENERG_HI')
                ctx.close(u.Quantity(a['BIN_LO']).to_value(u.AA), HC / e[1:], 'BIN_LO', rtol=1e-7)
                ctx.close(u.Quantity(a['BIN_HI']).to_value(u.AA), HC / e[:-1], 'BIN_HI', rtol=1e-7)
                ctx.close(u.Quantity(a['MIRROR_GRAT']).to_value(u.cm**2), mg.to_value(u.cm**2), 'MIRROR_GRAT', rtol=1e-6)
                ctx.close(np.asarray(a['FILTERS_QE']), filt, 'FILTERS_QE', rtol=1e-9)
                ctx.close(np.asarray(a['ONCCD']), on, 'ONCCD')
                ctx.close(u.Quantity(a['SPECRESP']).to_value(u.cm**2), mg.to_value(u.cm**2) * filt * on, 'SPECRESP', rtol=1e-6)
                ctx.same(a.meta['ARCCHAN'], ''.join('1' if c in sub else '0' for c in CHANS), 'ARCCHAN')
                ctx.same(a.meta['ORDER'], order, 'ORDER')
                ctx.check(isinstance(a, ogip.ARF), 'type')
    ctx.raises(ValueError, lambda: arfrmf.mkarf(ed, order, conf=conf, channels=['1', '3']), 'unknown channel')
    # channels are those of the configuration in use
    c2 = dict(conf, pos_opt_ax={('4' if k == '2m' else k): v for k, v in conf['pos_opt_ax'].items()})
    ctx.raises(ValueError, lambda: arfrmf.mkarf(ed, order, conf=c2, channels=['1', '2m']), 'channel that is not in this configuration')
    OFFSETS4 = [np.asarray(arfrmf.mkarf(ed, order, conf=c, channels=[k])['ONCCD']) for c, k in ((c2, '4'), (conf, '2m'))]
    ctx.same(OFFSETS4[0], OFFSETS4[1], 'channel of the configuration')
    if cname == 'default':
        for n, b in enumerate((arfrmf.mkarf(ed, order), arfrmf.mkarf(ed, order, conf=conf, mirr_grat=lambda en, o: 3. * u.cm**2 * np.ones(len(en)),
                                                                     trans_filters_qe=lambda en: .5 * np.ones(len(en))))):
            on = sum(single.values())
            ctx.close(u.Quantity(b['SPECRESP']).to_value(u.cm**2), (1.5 if n else mg.to_value(u.cm**2) * filt) * on, 'default channels', rtol=1e-6)
            ctx.same(b.meta['ARCCHAN'], '1111', 'ARCCHAN')
        f = os.path.join(zoo.tmpdir(), f'arf_{os.getpid()}.fits')
        b.write(f, overwrite=True)
        r = ogip.ARF.read(f)
        for c in b.colnames:
            ctx.close(np.asarray(u.Quantity(r[c]), float), np.asarray(u.Quantity(b[c]), float), f'file {c}', rtol=1e-6)
        ctx.same([str(r.meta['ARCCHAN']).strip(), int(r.meta['ORDER'])], ['1111', order], 'keywords in file')
        os.remove(f)


def rmf(ctx, n, thres):
    A.load()
    from marxs.missions.arcus import arfrmf
    from marxs.reduction import ogip
    from scipy.special import erf
    from marxs.missions.arcus.arcus import defaultconf
    fw = QTable({'energy': A.FWHM[0] * u.keV, 'FWHM': A.FWHM[1] * u.eV})
    for c, f in (('energy', u.keV), ('FWHM', u.eV)):
        ctx.close(u.Quantity(defaultconf['ccdredist'][c]).to_value(f), fw[c].to_value(f), f'CCD resolution table in the configuration: {c}')
    for e in (np.linspace(.2, 1.6, n) * u.keV, (np.linspace(10., 60., n)) * u.AA):
        r = arfrmf.mkrmf0(e, ccdfwhm=fw, threshold=thres)
        ek = np.sort(e.to(u.keV, equivalencies=u.spectral()).value)
        lo, hi = (u.Quantity(r.ebounds[c]).to_value(u.keV) for c in ('E_MIN', 'E_MAX'))
        ctx.step(n)
        ctx.state('rmf', n, thres, str(e.unit))
        ctx.close(lo, ek[:-1], 'E_MIN', rtol=1e-6)
        ctx.close(hi, ek[1:], 'E_MAX', rtol=1e-6)
        ctx.close(u.Quantity(r.matrix['ENERG_LO']).to_value(u.keV), ek[:-1], 'ENERG_LO', rtol=1e-6)
        ctx.close(u.Quantity(r.matrix['ENERG_HI']).to_value(u.keV), ek[1:], 'ENERG_HI', rtol=1e-6)
        for i in range(n - 1):
            mid = .5 * (lo[i] + hi[i])
            sig = np.interp(mid, *A.FWHM) * 1e-3 / np.sqrt(8 * np.log(2))
            cdf = [.5 * (1 + erf((x - mid) / sig / np.sqrt(2))) for x in (ek[:-1], ek[1:])]
            want = cdf[1] - cdf[0]
            full = np.zeros(n - 1)
            row = r.matrix[i]
            fc, nc = np.atleast_1d(row['F_CHAN']), np.atleast_1d(row['N_CHAN'])
            m = np.atleast_1d(row['MATRIX'])
            ctx.same(int(row['N_GRP']), len(fc), 'groups')
            p = 0
            for a, b in zip(fc, nc):
                full[a:a + b] = m[p:p + b]
                p += b
            ctx.check(p == len(m), 'length of row')
            ctx.close(full, want, f'row {i} energy {mid}', rtol=1e-3, atol=1.1 * thres + 2e-6)
            ctx.check(np.all(full[(want > 1.1 * thres) & (want > 3e-6)] > 0), 'values above threshold are kept')
            ctx.check(np.all(full[want < .9 * thres] == 0) or len(fc) == 0, 'values below the threshold are not stored')
        ctx.same(int(r.matrix.meta['DETCHANS']), n - 1, 'DETCHANS')
        ctx.close(float(r.matrix.meta['LO_THRES']), thres, 'LO_THRES')
        ctx.same(int(r.matrix.meta['ORDER']), 0, 'ORDER')
        ctx.same([str(r.matrix.meta['CHANTYPE']), str(r.matrix.meta['HDUCLAS3'])], ['PHA', 'REDIST'], 'type of matrix')
        f = os.path.join(zoo.tmpdir(), f'r{os.getpid()}.fits')
        r.write(f, overwrite=True)
        b = ogip.RMF.read(f)
        os.remove(f)
        ctx.step()
        ctx.same(np.asarray(b.ebounds['CHANNEL']).tolist(), list(range(n - 1)), 'channel numbers')
        ctx.same(int(b.matrix.meta[f"TLMIN{b.matrix.colnames.index('F_CHAN') + 1}"]), 0, 'first channel of F_CHAN')
        for i in range(n - 1):
            en = .5 * (lo[i] + hi[i])
            x = [q.full_rmf(en * u.keV)[2] for q in (r, b)]
            ctx.close(x[1], x[0], 'row after reading the file', rtol=1e-5, atol=1e-9)


def names(ctx, ft):
    A.load()
    from marxs.missions.arcus.arfrmf import filename_from_meta as f
    seen = {}
    for bits in itertools.product('01', repeat=4):
        ch = ''.join(bits)
        for o in (-12, -1, 0, 1, 3):
            for kind in (int, np.int16, lambda x: f'{x:+}'):
                ctx.step()
                got = f(ft, ARCCHAN=ch, ORDER=kind(o))
                ctx.same(got, f'chan_{"all" if ch == "1111" else ch}_{o:+}.{ft}', 'name')
                for t in (-4, 0, 2):
                    kw = {'ARCCHAN': ch, 'ORDER': kind(o), 'CCDORDER': kind(t), 'TRUEORD': kind(o)}
                    k2 = dict(kw)
                    g2 = f(ft, **kw)
                    ctx.same(g2, f'chan_{"all" if ch == "1111" else ch}_ccdord_{t:+}_true_{o:+}.{ft}', 'name')
                    ctx.same(kw, k2, 'keywords')
                    seen.setdefault(g2, (ch, t, o))
                    ctx.same(seen[g2], (ch, t, o), 'different products, same name')
    ctx.state('names', ft)
    ctx.same(f(ARCCHAN='1111', ORDER=2), 'chan_all_+2.fits', 'default type')


# ------------------------------------------------------------------ layout
class Spread(rng.Engine):
    """every draw gets its own quantile, the same ones in each run"""
    k = 0

    def quant(self, shape):
        n = int(np.prod(shape)) if shape else 1
        q = ((self.k + np.arange(n)) * .6180339887 + .137 + .29 * len(self.log)) % 1
        self.k += n
        return q


def camera(ctx, cname, attrs):
    conf = conf_of(cname)
    from marxs.missions.arcus.arcus import DetCamera
    kw = {'plain': {}, 'gaps': {'d_ccd': 3., 'd_fsupport': 11.}, 'shift': {'offset': [-9., 9.]}}[attrs]
    cls = type('Cam', (DetCamera,), kw)
    cam = cls(conf)
    cen, al = ownccds(cname, kw.get('d_ccd', 2.15), kw.get('d_fsupport', 4.), kw.get('offset', [-5, 5.])[1])
    ctx.same(len(cam.elements), 16, 'number')
    for k, e in enumerate(cam.elements):
        p = e.pos4d
        ctx.step()
        ctx.state(cname, attrs, k)
        ctx.same(e.id_num, k + 1, 'numbers')
        ctx.close(p[:3, 3], [cen[k, 0], 0, cen[k, 1]], f'center of CCD {k + 1}', atol=1e-7)
        ctx.close(np.linalg.norm(p[:3, 1]), EDGE, 'half length')
        ctx.close(abs(p[:3, 1] @ [al[k, 0], 0, al[k, 1]]), EDGE, 'along the circle')
        ctx.close(p[:3, 2] * [1, 0, 1], 0, 'short side along y', atol=1e-9)
        ctx.close(np.linalg.norm(p[:3, 2]), HALFW, 'half width')
    g = np.linspace(-650, 650, 2601) + .0371
    pos = np.array([(x, y, 500.) for x in g for y in (-12.5, -11., 0., 12., 13.)])
    d = np.tile([0, 0, -1.], (len(pos), 1))
    ph = cam(table(pos, d))
    ctx.step(len(pos))
    if not kw:
        want, where = ccd_hit(cname, pos, d)
        sure = want != -9
        ctx.check(np.array_equal(np.array(ph['CCD'])[sure], want[sure]), 'which CCD')
        i = sure & (want > 0)
        ctx.close(abs(np.array(ph['det_x'])[i]), abs(where[i]), 'det_x', atol=1e-6)
        sig = np.sign(np.array(ph['det_x'])[i] * where[i])
        ctx.check(len(set(sig)) == 1, 'det_x has the same direction on all CCDs')
        ctx.close(np.array(ph['detpix_x'])[i], sig * where[i] / .024 + 1023.5, 'pixel', atol=1e-3)
    hit = np.array(ph['CCD'])
    ctx.check(set(hit[hit > 0]) == set(range(1, 17)), 'all CCDs are reached')
    ids = hit[hit > 0]
    ctx.check(np.all(np.diff(ids) >= 0), 'CCD number increases with x')
    bad = copy.copy(conf)
    bad['n_CCDs'] = 15
    ctx.raises(AssertionError, lambda: cls(bad), 'number of CCDs')


SUBSETS = [list(s) for n in range(1, 5) for s in itertools.combinations(CHANS, n)]


def layout(ctx, cname, isub):
    conf = conf_of(cname)
    from marxs.missions.arcus import arcus, spo
    from marxs.optics import RectangleAperture
    sub = SUBSETS[isub]
    keep = list(sub)
    P = arcus.PerfectArcus(conf, channels=sub)
    ctx.same(sub, keep, 'channels')
    mods = A.modules()
    mid = np.asarray(mods['inner_radius'] + mods['outer_radius'], float) / 2
    ang = np.asarray(mods['clocking_angle'], float)
    xy = np.array([mid * np.sin(ang), mid * np.cos(ang)])
    rmid = .5 * (xy[1].max() + xy[1].min())
    half = [xy[0].max() - .5 * (xy[0].max() + xy[0].min()) + 1.1 * mods['azwidth'].max(),
            xy[1].max() - rmid + .8 * (mods['outer_radius'] - mods['inner_radius']).max()]
    ctx.close(spo.rmid_spo(conf), rmid, 'middle of mirror modules')
    for az, rs in ((.8, 1.1), (0., 0.), (.5, .5)):
        want = [1, half[0] + (az - 1.1) * mods['azwidth'].max(), half[1] + (rs - .8) * (mods['outer_radius'] - mods['inner_radius']).max()]
        ctx.close(spo.zoom_to_cover_all_spos(conf, az, rs), want, 'zoom to cover modules')
    ap = P.elements[0]
    ctx.same(len(ap.elements), len(sub), 'apertures')
    for c, a in zip(sub, ap.elements):
        ox, oy = OPTAX[cname][c]
        ctx.close(a.pos4d[:3, 3], [ox, oy + SY[c] * rmid, 12200.], 'aperture center')
        ctx.close(abs(a.pos4d[:3, :3]) @ [0, 1, 1], [half[0], half[1], 0], 'aperture size', atol=1e-9)
    ctx.close(ap.area.to_value(u.mm**2), 4 * half[0] * half[1] * len(sub), 'area')
    S = P.elements_of_class(arcus.SPOChannelMirror)
    ctx.same(len(S), len(sub), 'mirror channels')
    for c, s in zip(sub, S):
        ox, oy = OPTAX[cname][c]
        ctx.same([e.id_num for e in s.elements], [OFFSET[c] + k for k in range(len(mods))], 'module numbers')
        pos = np.array([e.pos4d[:3, 3] for e in s.elements])
        f = np.array([SY[c], SY[c]])      # turned by 180 deg
        ctx.close(pos, np.array([ox + f[0] * xy[0], oy + f[1] * xy[1], np.full(len(mods), 12000.)]).T, 'module positions', atol=1e-6)
    G = P.elements_of_class(arcus.CATfromMechanical)
    fac = A.facets(mods)
    ctx.same(len(G), len(sub), 'petals')
    for c, g in zip(sub, G):
        ox, oy = OPTAX[cname][c]
        gr = [e for w in g.elements for e in w.elements]
        ctx.same([e.id_num for e in gr], list(OFFSET[c] + fac[:, 1].astype(int)), 'facet numbers')
        mir = np.array([SX[c], SY[c], 1.])
        for e, f in zip(gr, fac):
            ctx.step()
            ctx.close(e.pos4d[:3, 3], f[2:5] * mir + [ox, oy, 0], f'facet {e.id_num} position', atol=1e-6)
            ctx.close(e.pos4d[:3, 0], f[5:8] * mir, 'facet normal', atol=1e-9)
            ctx.close(e.pos4d[:3, 1], f[8:11] * mir * 10., 'facet dispersion direction', atol=1e-8)
            ctx.close(e.pos4d[:3, 2], f[11:14] * mir * 14., 'facet bars', atol=1e-8)
            ctx.close(np.ravel(e.elements[0].d(np.zeros((1, 2)))), [f[16]], 'facet period')
    ctx.state(cname, isub)
    ctx.raises((ValueError, KeyError), lambda: arcus.Aperture(conf, channels=['x']), 'unknown channel')
    c3 = dict(conf, pos_opt_ax=dict(conf['pos_opt_ax'], x=conf['pos_opt_ax']['1']))
    ctx.raises(ValueError, lambda: arcus.Aperture(c3, channels=['x']), 'channel without rules')
    with rng.active(Spread()):
        ph = ap(table(np.zeros((40, 3)), np.tile([0, 0, -1.], (40, 1))))
    num = np.array(ph['aperture'])
    ctx.check(set(num) <= set(range(len(sub))), 'aperture numbers')
    for k, c in enumerate(sub):
        ox, oy = OPTAX[cname][c]
        p = np.array(ph['pos'])[num == k]
        ctx.check(np.all(abs(p[:, 0] - ox) <= half[0]) and np.all(abs(p[:, 1] - oy - SY[c] * rmid) <= half[1]), 'photons in aperture')


# ------------------------------------------------------------------ rays
def start(cname, chan, tilt):
    """rays that reach a lattice of points on all gratings of a channel; also rays that miss the gratings"""
    ox, oy = OPTAX[cname][chan]
    f = A.facets(A.modules())
    mir = np.array([SX[chan], SY[chan], 1.])
    rows = []
    for j, r in enumerate(f):
        for a, b in ((0.3, .2), (8., -11.), (-9.1, 12.5), (9.9, 1.), (10.3, 0.), (-3., 14.8)):
            p = (r[2:5] + a * r[8:11] + b * r[11:14]) * mir
            foc = np.array([tilt[0] / tilt[2], tilt[1] / tilt[2], 1.]) * 0
            m = foc + (p - foc) * 12000. / p[2]
            m = m + np.array([ox, oy, 0])
            rows.append((j, abs(a) < 10 and abs(b) < 14, m))
    pos = np.array([r[2] for r in rows])
    d = np.tile(zoo.unit(np.array(tilt, float)), (len(rows), 1))
    return np.array([r[0] for r in rows]), np.array([r[1] for r in rows]), pos - d * 200. / abs(d[:, 2:]), d


TILTS = {'on': (0, 0, -1.), 'off': (2e-4, -1e-4, -1.)}


def own_trace(cname, chan, pos, d, energy, order):
    """all that happens to on- or slightly off-axis rays"""
    ox, oy = OPTAX[cname][chan]
    mods = A.modules()
    mid = np.asarray(mods['inner_radius'] + mods['outer_radius'], float) / 2
    ang = np.asarray(mods['clocking_angle'], float)
    n = len(pos)
    m = pos + d * ((12000. - pos[:, 2]) / d[:, 2])[:, None]
    rel = (m - [ox, oy, 0])[:, :2] * SY[chan]     # turned by 180 deg
    xou = np.full(n, -1)
    for k in range(len(mods)):
        c, s = np.cos(ang[k]), np.sin(ang[k])
        az, ra = rel[:, 0] * c - rel[:, 1] * s, rel[:, 0] * s + rel[:, 1] * c - mid[k]
        xou[(abs(az) < mods['azwidth'][k] / 2) & (abs(ra) < 18 * mods['plate_height'][k])] = k
    foc = np.array([ox, oy, 12000.]) + 12000. * d
    new = foc - m
    new /= np.linalg.norm(new, axis=1)[:, None]
    new[xou < 0] = d[xou < 0]
    theta = np.arccos(np.clip((new * d).sum(1), -1, 1)) / 4
    prob = A.refl(energy, theta)**2 * A.GEO * A.PORE * A.interp(A.LOSS, energy)
    prob[xou < 0] = 0
    for f in A.FILTERS.values():
        prob = prob * A.interp(f, energy)
    fac = np.full(n, -1)
    pg, dg = m.copy(), new.copy()
    if order is not None:
        mir = np.array([SX[chan], SY[chan], 1.])
        for r in A.facets(mods):
            c, nn, dd, ll = r[2:5] * mir + [ox, oy, 0], r[5:8] * mir, r[8:11] * mir, r[11:14] * mir
            t = ((c - m) @ nn) / (new @ nn)
            h = m + t[:, None] * new
            hit = (abs((h - c) @ dd) < 10) & (abs((h - c) @ ll) < 14)
            fac[hit] = int(r[1])
            k = new[hit]
            kd, kl = k @ dd, k @ ll
            kd2 = kd + np.sign(kd) * order * HC / energy[hit] * 1e-7 / r[16]
            kn = np.sqrt(1 - kd2**2 - kl**2)
            dg[hit] = kd2[:, None] * dd + kl[:, None] * ll + (np.sign(k @ nn) * kn)[:, None] * nn
            pg[hit] = h[hit]
            qf = np.exp(-(2 * np.pi * 1.75 / 200.)**2 * order**2)
            free = 1 - .0962250 / .9622504
            # the angle in front of the L2 supports is the one after diffraction
            sin = np.sqrt(np.clip(1 - (dg[hit] @ nn)**2, 0, 1))
            l2 = free**2 - .5 * .9622504 * free * sin / (.9622504**2 * np.sqrt(3) / 2)
            prob[hit] *= qf * l2
        prob[fac < 0] = 0
    return xou, fac, pg, dg, prob


def trace(ctx, cname, chan, order, tilt):
    conf = conf_of(cname)
    from marxs.missions.arcus import arcus, analyze_grid, arfrmf
    from marxs.optics import OrderSelector
    conf['inplanescatter'], conf['perpplanescatter'] = 0 * u.arcsec, 0 * u.arcsec
    if order is None:
        P = type('Direct', (arcus.PerfectArcus,), {'gratings_class': None})(conf, channels=CHANS)
    else:
        conf['gratinggrid']['elem_args']['order_selector'] = OrderSelector([order])
        P = arcus.PerfectArcus(conf, channels=CHANS)
    j, aim, pos, d = start(cname, chan, TILTS[tilt])
    if order is None:
        keep = np.unique(np.arange(len(pos)) // 6 * 6 + 1)
        j, aim, pos, d = j[keep], aim[keep], pos[keep], d[keep]
    energy = np.resize([.4, .5, .65], len(pos))
    ph = table(pos, d, energy)
    p0 = np.array(ph['probability'])
    ox, oy = OPTAX[cname][chan]
    with rng.active(rng.Const(.5)):
        for e in P.elements[1:]:
            ph = e(ph)
    ctx.step(len(pos))
    ctx.state(cname, chan, order, tilt)
    g = {c: np.array(ph[c]) for c in ph.colnames}
    for c in ('CCD', 'det_x'):      # not there if no photon at all hits a CCD
        g.setdefault(c, np.full(len(pos), -1.))
    xou, fac, pg, dg, prob = own_trace(cname, chan, pos, d, energy, order)
    ctx.check((xou >= 0).mean() > .8, f'rays reach the mirror modules {(xou >= 0).mean()} {(g["xou"] >= 0).mean()}')
    ctx.same(g['xou'], np.where(xou >= 0, OFFSET[chan] + xou, -1), 'module number')
    if order is not None:
        ctx.same(g['facet'], np.where(fac >= 0, OFFSET[chan] + fac, -1), 'facet number')
        ctx.check((fac >= 0).mean() > .6 and (fac < 0).any(), 'rays reach gratings and gaps')
        ctx.check(set(fac[fac >= 0]) == set(A.facets(A.modules())[:, 1].astype(int)), 'all gratings are reached')
        ctx.same(g['order'][fac >= 0], np.full((fac >= 0).sum(), float(order)), 'order')
    ctx.close(g['probability'], p0 * prob, 'probability', rtol=1e-5, atol=1e-9)
    ok = xou >= 0 if order is None else fac >= 0
    z = pg + dg * (-pg[:, 2] / dg[:, 2])[:, None]
    fp = ok & np.isfinite(g['detfp_x'])        # photons that ended on a CCD below that plane do not cross it any more
    ctx.close(g['detfp_x'][fp], z[fp, 0], 'detfp_x', atol=1e-4)
    ctx.close(g['detfp_y'][fp], z[fp, 1], 'detfp_y', atol=1e-4)
    want, where = ccd_hit(cname, pg, dg)
    sure = ok & (want != -9)
    ctx.check(np.array_equal(g['CCD'][sure], want[sure]), f'CCD {g["CCD"][sure][:9]} {want[sure][:9]}')
    i = sure & (want > 0)
    ctx.close(abs(g['det_x'][i]), abs(where[i]), 'det_x', atol=1e-4)
    # circular detector on the Rowland circle
    r = radius(cname)
    cz = np.sqrt(r * r - DIST[cname]**2)
    a = dg[:, 0]**2 + dg[:, 2]**2
    b = pg[:, 0] * dg[:, 0] + (pg[:, 2] - cz) * dg[:, 2]
    c = pg[:, 0]**2 + (pg[:, 2] - cz)**2 - r * r
    t = (-b + np.sqrt(b * b - a * c)) / a
    h = pg + t[:, None] * dg
    phi = np.arctan2(h[:, 0], cz - h[:, 2])
    on = ok & (abs(h[:, 1]) < 19.9)
    ctx.close(g['circ_phi'][on], phi[on], 'circ_phi', atol=3e-8)
    ctx.close(g['circ_y'][on], -h[on, 1], 'circ_y', atol=1e-4)
    # both projections are parallel to the optical axis, from the circle and from the CCD (or from 100 mm above the circle)
    ctx.close(g['projcirc_x'][on], h[on, 0], 'projcirc_x', atol=1e-4)
    ctx.close(g['projcirc_y'][on], h[on, 1], 'projcirc_y', atol=1e-4)
    cen, al = ownccds(cname)
    hc = h - 100 * dg
    for k in range(16):
        n = np.array([-al[k, 1], 0, al[k, 0]])
        t = (([cen[k, 0], 0, cen[k, 1]] - pg) @ n) / (dg @ n)
        hc[want == k + 1] = (pg + t[:, None] * dg)[want == k + 1]
    s2 = sure & on
    ctx.check(np.all(hc[s2 & ~fp, 2] < 1e-4), 'photons that are above z=0 reach that plane')
    ctx.close(g['proj_x'][s2], hc[s2, 0], 'proj_x', atol=1e-4)
    ctx.close(g['proj_y'][s2], hc[s2, 1], 'proj_y', atol=1e-4)
    if order in (0, None) and tilt == 'on':
        Z = analyze_grid.zeropos
        foc = ok & (xou >= 0)
        for col, tol in (('proj_x', .04), ('proj_y', .04), ('circ_phi', 3e-6), ('circ_y', .04)):
            sel = foc & (g['CCD'] > 0) if col[:4] == 'proj' else foc
            ctx.check(np.all(abs(g[col][sel] - Z(col, chan, conf)) < tol), f'position of order zero {col} {g[col][sel][:2]} {Z(col, chan, conf)}')
        ctx.raises(NotImplementedError, lambda: Z('det_x', chan, conf), 'unknown coordinate')
    if order not in (0, None) and tilt == 'on':
        # response and ray trace agree away from the edges of the CCDs
        for e in (.4, .5, .65):
            sel = ok & (energy == e)
            res = arfrmf.OnCCD(conf)(np.array([e]) * u.keV, order, chan)[0]
            x = np.median(z[sel, 0])
            cen, _ = ownccds(cname)
            dist = EDGE - abs(cen[:, 0] - x).min()
            if abs(dist) > 2.5 and cname == 'default':
                ctx.same(bool(np.median(want[sel]) > 0), bool(res), f'{e} keV order {order}: OnCCD and rays')
                ctx.state('onccd', chan, order, e)
        ev = ph[ok & on]
        ev.meta['CHANNEL'] = chan
        ev['circ_phi'].unit, ev['circ_y'].unit = u.rad, u.mm
        ev = QTable(ev)
        analyze_grid.tg_resolve_events_circdet(ev, conf)
        ctx.close(abs(u.Quantity(ev['tg_mlam']).to_value(u.AA)), abs(order) * HC / np.array(ev['energy']), 'm lambda', rtol=.02)


def scatter(ctx, chan, q):
    """the scatter of the mirror is added in the plane of reflection and perpendicular to it"""
    conf = conf_of('default')
    from marxs.missions.arcus import arcus
    from marxs.missions.athena.spo import ScatterPerChannel
    s = 20 * u.arcsec
    conf['inplanescatter'], conf['perpplanescatter'] = (s, 0 * u.arcsec) if q == 'in' else (0 * u.arcsec, s)
    S = arcus.SimpleSPOs(conf, CHANS)
    j, aim, pos, d = start('default', chan, TILTS['on'])
    out = {}
    for uu in (.5, .9):
        ph = table(pos, d, .5)
        with rng.active(rng.Const(uu)):
            out[uu] = S(ph)
    ok = np.array(out[.5]['xou']) >= 0
    k0, k1 = (np.array(out[x]['dir'])[ok][:, :3] for x in (.5, .9))
    ox, oy = OPTAX['default'][chan]
    rad = np.array(out[.5]['pos'])[ok][:, :2] - [ox, oy]
    e = np.hstack([rad, np.zeros((len(rad), 1))])
    e = e / np.linalg.norm(e, axis=1)[:, None]
    perp = np.cross(e, [0, 0, 1.])
    ang = np.arctan2(np.linalg.norm(np.cross(k0, k1), axis=1), (k0 * k1).sum(1))
    ctx.step(len(pos))
    ctx.state(chan, q)
    from scipy.stats import norm
    ctx.close(ang, norm.ppf(.9) * np.deg2rad(20 / 3600.), 'scatter angle', rtol=3e-3)
    dk = (k1 - k0) / ang[:, None]
    inpl, per = (dk * e).sum(1), (dk * perp).sum(1)
    if q == 'in':
        ctx.check(np.all(abs(per) < .02) and np.all(abs(inpl) > .9), 'in-plane scatter')
    else:
        ctx.check(np.all(abs(inpl) < .02) and np.all(abs(per) > .9), 'perpendicular scatter')
    S = ScatterPerChannel(min_id=5, max_id=9, inplanescatter=s, perpplanescatter=s, position=[0, 0, 12000.])
    ph = table(pos, d, .5)
    ph['xou'] = np.resize(np.arange(-1, 12), len(pos))
    k = np.array(ph['dir'])
    with rng.active(rng.Const(.9)):
        ph = S(ph)
    moved = np.any(np.array(ph['dir']) != k, axis=1)
    x = np.array(ph['xou'])
    ctx.check(np.array_equal(moved, (x >= 5) & (x < 9)), 'which photons are scattered')


# ------------------------------------------------------------------ analysis, alignment, loading
def events(i, orders, n=900):
    en = [.4, .5, .8][i]
    k = np.arange(n)
    xou = np.resize([0, 7, 999, 1000, 1500, 9999, 10000, 10020, 11000, 11021, 20000, -1, 3], n)
    t = Table({'energy': np.full(n, en), 'probability': np.resize(np.linspace(0, 1, 17), n), 'xou': xou,
               'order': np.resize(orders, n) * 1., 'order_L1': np.resize([0, 0, 0, 1, -1, 0, 0], n) * 1.,
               'CCD': np.resize([3, -1, 4, 5, 9], n)})
    t['circ_phi'] = .0248 * t['order'] + 2e-5 * np.sin(1. * k) * (1 + i) - .0635
    t['circ_phi'][::53] = np.nan
    t.meta = {'A_GEOM': 12.5 + i, 'EXPOSURE': 1000. + 100 * i, 'ENERGY': en, 'ORIGIN': 'here', 'CREATOR': 'me', 'MARXSVER': '1'}
    return t


def own_aeff(t, orders):
    out = np.zeros((4, len(orders)))
    rng_ = [(0, 1000), (1000, 10000), (10000, 11000), (11000, 1e9)]
    for a, (lo, hi) in enumerate(rng_):
        for k, o in enumerate(orders):
            s = (t['xou'] >= lo) & (t['xou'] < hi) & (t['order'] == o) & (t['order_L1'] == 0) & (t['CCD'] >= 0)
            out[a, k] = t['probability'][s].sum() / int(t.meta['EXPOSURE']) * t.meta['A_GEOM']
    return out


def analyze(ctx, orders):
    conf = conf_of('default')
    from marxs.missions.arcus import analyze_grid as G
    orders = np.array(orders)
    zp = {c: np.arcsin(OPTAX['default'][c][0] / radius('default')) for c in CHANS}
    d = os.path.join(zoo.tmpdir(), f'grid{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    want, wres = [], []
    for i in range(3):
        t = events(i, orders)
        keep = zoo.columns(t)
        res, aeff = G.analyze_sim(t.copy(), orders, None, conf)
        w = own_aeff(t, orders)
        ctx.close(aeff.to_value(u.cm**2), w, 'area of one simulation', rtol=1e-9)
        # R from an independent selection with the same estimator
        from marxs.analysis.gratings import resolvingpower_from_photonlist as rp
        for a, (lo, hi, ch) in enumerate([(0, 1000, '1'), (1000, 10000, '2'), (10000, 11000, '1m'), (11000, 1e9, '2m')]):
            sel = (keep['xou'] >= lo) & (keep['xou'] < hi) & (keep['order_L1'] == 0) & np.isfinite(keep['circ_phi']) & (keep['probability'] > 0)
            for k, o in enumerate(orders):
                v = keep['circ_phi'][sel & (keep['order'] == o)]
                if len(v) < 20:
                    ctx.check(np.isnan(res[a, k]), f'R without photons {res[a, k]}')
                else:
                    from astropy.stats import sigma_clipped_stats
                    m, _, s = sigma_clipped_stats(v)
                    ctx.close(res[a, k], abs(m - zp[ch]) / s / 2.3548, f'R aperture {a} order {o}', rtol=1e-8)
        want.append(w)
        wres.append(res)
        t.write(os.path.join(d, f'wave{[2, 0, 1][i]}.fits'), overwrite=True)
        ctx.step(len(t))
        ctx.state('sim', len(orders), i)
    order_of = [1, 2, 0]
    r = G.aeffRfromraygrid(d, conf, orders=orders)
    ctx.same(len(r), 3, 'rows')
    for k, i in enumerate(order_of):
        ctx.close(u.Quantity(r['energy'][k]).to_value(u.keV), [.4, .5, .8][i], 'energy')
        ctx.close(u.Quantity(r['wave'][k]).to_value(u.AA), HC / [.4, .5, .8][i], 'wave', rtol=1e-7)
        ctx.close(u.Quantity(r['Aeff'][k]).to_value(u.cm**2), want[i], 'Aeff', rtol=1e-9)
        ctx.close(np.nan_to_num(np.asarray(r['R'][k])), np.nan_to_num(wres[i]), 'R', rtol=1e-9)
        a4 = want[i].sum(0)
        ctx.close(u.Quantity(r['Aeff4'][k]).to_value(u.cm**2), a4, 'Aeff4', rtol=1e-9)
        disp = orders != 0
        ctx.close(u.Quantity(r['Aeff_disp'][k]).to_value(u.cm**2), a4[disp].sum(), 'Aeff_disp', rtol=1e-9)
        R4 = []
        for o in range(len(orders)):
            v = np.isfinite(wres[i][:, o]) & (want[i][:, o] > 0)
            R4.append((wres[i][v, o] * want[i][v, o]).sum() / want[i][v, o].sum() if v.any() else np.nan)
        ctx.close(np.nan_to_num(np.asarray(r['R4'][k], float)), np.nan_to_num(R4), 'R4', rtol=1e-8)
        R4 = np.array(R4)
        v = disp & np.isfinite(R4) & (a4 > 0)
        if v.any():
            ctx.close(np.asarray(r['R_disp'][k], float), (R4[v] * a4[v]).sum() / a4[v].sum(), 'R_disp', rtol=1e-8)
    ctx.same(G.orders_from_meta(r.meta), orders, 'orders in meta data')
    f, g = os.path.join(d, 'out.fits'), os.path.join(d, 'out.csv')
    r.write(f, overwrite=True)
    for col in ('Aeff4', 'R4'):
        G.csv_per_order(f, col, g)
        c = Table.read(g, format='ascii.csv')
        ctx.same(c.colnames, ['wave'] + [f'order_{o}' for o in orders], 'csv columns')
        ctx.close(np.array(c['wave'], float), u.Quantity(r['wave']).to_value(u.AA), 'csv wave', rtol=1e-9)
        for k, o in enumerate(orders):
            v = c[f'order_{o}']
            v = np.ma.filled(np.ma.asarray(v).astype(float), np.nan)
            ctx.close(np.nan_to_num(v), np.nan_to_num(np.asarray(u.Quantity(r[col]).value)[:, k]), f'csv {col} {o}', rtol=1e-9)
    t = events(2, orders)
    t.meta['MARXSVER'] = '2'
    t.write(os.path.join(d, 'wave3.fits'))
    ctx.raises(AssertionError, lambda: G.aeffRfromraygrid(d, conf, orders=orders), 'different versions')
    r = G.aeffRfromraygrid(d, conf, orders=orders, allow_inconsistent_meta=True)
    ctx.same(len(r), 4, 'rows')
    t.meta['MARXSVER'] = '1'
    t['energy'][3] = .41
    ctx.raises(AssertionError, lambda: G.analyze_sim(t, orders, None, conf), 'different energies')
    import shutil
    shutil.rmtree(d)


def budget(ctx, fac):
    conf = conf_of('default')
    from marxs.missions.arcus import arcus
    from marxs.design import tolerancing as tol
    from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt
    val = [30., 150, 600, 3600., 7200, 10800]
    unit3 = np.array([.01, .05, .2, np.deg2rad(1 / 3), np.deg2rad(2 / 3), np.deg2rad(1.)])
    b = [['x', 'global', list(val), None, 'a'], ['y', 'individual', tuple(val), None, 'b'], ['z', 'individual_with_tilt', np.array(val), None, 'c'],
         ['w', 'global', [0] * 6, None, 'd']]
    keep = copy.deepcopy(b)
    if fac == 'default':
        arcus.reformat_randall_errorbudget(b)
        w = [.8, 1, 1, .8]
    elif fac is None:
        from scipy.stats import norm
        us = [.9, .2, .65, .33, .77, .05, .55, .4, .15, .95, .7, .25]
        with rng.active(rng.Script(us)):
            arcus.reformat_randall_errorbudget(b, None)
        got = np.asarray(b[0][3], float) / unit3
        ctx.close(np.sort(got), np.sort(norm.ppf(us)[np.argmin(abs(np.subtract.outer(got, norm.ppf(us))), axis=1)]), 'random factors')
        ctx.same(len(set(np.round(got, 9))), 6, 'each degree of freedom has its own random number')
        w = [got, 1, 1, 0]
    else:
        arcus.reformat_randall_errorbudget(b, fac)
        w = [fac, 1, 1, fac]
    for row, k, ww in zip(b, keep, w):
        ctx.step()
        ctx.state('budget', fac, row[0])
        ctx.check(row[:2] == k[:2] and row[4] == k[4] and list(row[2]) == list(k[2]), 'other entries')
        ctx.close(row[3], unit3 * ww * (row[0] != 'w'), f'{row[0]}', rtol=1e-9)


ALIGN = ['SPOChannelMirror', 'CATfromMechanical', 'CATWindow', 'DetCamera']


def align(ctx, cls, how):
    conf = conf_of('default')
    from marxs.missions.arcus import arcus
    from marxs.design import tolerancing as tol
    from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt
    cl = getattr(arcus, cls)
    v = np.array([.3, -.4, 1.1, 1e-3, 2e-3, -1.5e-3])
    if how.endswith('tilt'):
        v = np.append(v, .01)
    other = getattr(arcus, 'DetCamera' if cls != 'DetCamera' else 'SPOChannelMirror')
    conf['alignmentbudget'] = [[cl, how, None, v, ''], [other, 'global', None, v[:6] * 2, '']]
    with rng.active(Spread()):
        B = arcus.Arcus(conf, channels=['1', '2m'])
    P = arcus.PerfectArcus(conf, channels=['1', '2m'])
    with rng.active(Spread()):
        e = P.elements_of_class(cl)
        {'global': tol.moveglobal, 'individual': tol.wiggle, 'individual_with_tilt': wiggle_and_bar_tilt}[how](e, *v)
        tol.moveglobal(P.elements_of_class(other), *(v[:6] * 2))
    for c in (arcus.SPOChannelMirror, arcus.CATfromMechanical, arcus.CATWindow, arcus.CATL1L2Stack, arcus.DetCamera):
        ea, eb = P.elements_of_class(c), B.elements_of_class(c)
        ctx.same(len(ea), len(eb), 'elements')
        for a, b in zip(ea, eb):
            for x, y in zip(getattr(a, 'elements', []), getattr(b, 'elements', [])):
                ctx.step()
                ctx.close(x.pos4d, y.pos4d, f'{c.__name__} positions', atol=1e-9)
    ctx.state('align', cls, how)
    # only the requested parts move, with respect to the perfect instrument
    Q = arcus.PerfectArcus(conf, channels=['1', '2m'])
    moved = {c: not all(np.allclose(x.pos4d, y.pos4d, atol=1e-9) for a, b in zip(Q.elements_of_class(getattr(arcus, c)), B.elements_of_class(getattr(arcus, c)))
                        for x, y in zip(a.elements, b.elements)) for c in ALIGN}
    ctx.check(moved[cls] and moved[other.__name__], f'moved {moved}')
    ctx.same([c for c in ALIGN if moved[c] and c not in (cls, other.__name__)],
             ['CATWindow'] if cls == 'CATfromMechanical' else [], 'other parts')
    conf['alignmentbudget'] = [[cl, 'sideways', None, v, '']]
    ctx.raises(NotImplementedError, lambda: arcus.Arcus(conf, channels=['1']), 'unknown kind')
    conf['alignmentbudget'] = [[cl, 'global', None, v[:6] * 0, '']]
    Z = arcus.Arcus(conf, channels=['1', '2m'])
    for a, b in zip(Q.elements_of_class(cl), Z.elements_of_class(cl)):
        for x, y in zip(a.elements, b.elements):
            ctx.close(x.pos4d, y.pos4d, 'zero tolerance', atol=1e-9)


def loading(ctx, mission):
    A.load()
    if mission == 'arcus':
        from marxs.missions.arcus import load_csv as L
    d = os.path.join(A.DB, 'zz')
    os.makedirs(d, exist_ok=True)
    try:
        for n, (val, un) in enumerate([(1.5, None), (2.5, 'mm'), (3, 'arcsec'), (0., 'keV'), (7, None)]):
            QTable({'v': [val] * u.Unit(un) if un else [val], 'other': [9.]}).write(os.path.join(d, 'a.csv'), format='ascii.ecsv', overwrite=True)
            got = L.load_number('zz', 'a', 'v')
            ctx.step()
            ctx.state('number', val, un)
            if un is None:
                ctx.check(not isinstance(got, u.Quantity) and got == val, f'number {got}')
            else:
                ctx.check(isinstance(got, u.Quantity) and got.unit == u.Unit(un) and got.value == val, f'quantity {got}')
            t = L.load_table('zz', 'a')
            ctx.check(t.colnames == ['v', 'other'] and len(t) == 1, 'table')
            ctx.raises(KeyError, lambda: L.load_number('zz', 'a', 'w'), 'no such column')
        for n in (0, 2, 3):
            Table({'v': np.arange(n) * 1.}).write(os.path.join(d, 'a.csv'), format='ascii.ecsv', overwrite=True)
            ctx.raises(L.DataFileFormatException, lambda: L.load_number('zz', 'a', 'v'), f'{n} rows')
            ctx.same(len(L.load_table('zz', 'a')), n, 'rows')
        ctx.raises(FileNotFoundError, lambda: L.load_table('zz', 'b'), 'no file')
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def defaults(ctx):
    A.load()
    from marxs.missions.arcus import defaults as D
    from astropy.coordinates import SkyCoord
    for i in range(2):
        s, p = D.DefaultSource(), D.DefaultPointing()
        ctx.check(s.energy == .5 * u.keV and s.coords.separation(SkyCoord(30 * u.deg, 30 * u.deg)).deg < 1e-9, 'default source')
        ctx.close(p.jitter.to_value(u.arcsec), A.JITTER / 2.3545, 'jitter', rtol=1e-9)
        ctx.check(p.coords.separation(SkyCoord(30 * u.deg, 30 * u.deg)).deg < 1e-9, 'default pointing')
        with rng.active(rng.Const(.5)):
            ph = p(s.generate_photons(20 * u.s))
        ctx.close(np.array(ph['dir'])[:, :3], [[0, 0, -1.]] * len(ph), 'on-axis photons travel along -z', atol=1e-9)
        c2 = SkyCoord(10 * u.deg, -20 * u.deg)
        s, p = D.DefaultSource(coords=c2, energy=1 * u.keV, flux=5 / u.s / u.cm**2), D.DefaultPointing(coords=c2, jitter=5 * u.arcsec, roll=20 * u.deg)
        ctx.check(s.energy == 1 * u.keV and s.coords is c2 and s.flux == 5 / u.s / u.cm**2, 'given source parameters')
        ctx.check(p.coords is c2 and p.jitter == 5 * u.arcsec and p.roll == 20 * u.deg, 'given pointing parameters')
        ctx.step()
        ctx.state('defaults', i)
    ctx.same(set(D.sourcekwargs), {'coords', 'energy', 'flux'}, 'defaults of the module')
    ctx.check(D.sourcekwargs['energy'] == .5 * u.keV and D.pointingkwargs['coords'] is D.coords, 'defaults of the module')


# ------------------------------------------------------------------ early design and other variants of the instrument
def regular(ctx, cname, chans):
    """regular grids of gratings: one on the Rowland torus of each channel, in front of its mirror modules"""
    conf = conf_of(cname)
    from marxs.missions.arcus import arcus, ralfgrating
    from marxs.optics import OrderSelector
    g0 = arcus.defaultconf['gratinggrid']
    conf['gratinggrid'].update({k: copy.deepcopy(g0[k]) for k in ('d_element', 'elem_class')})
    conf['gratinggrid']['elem_args']['order_selector'] = OrderSelector([-2])
    grids = ralfgrating.RegularGrid(conf, channels=list(chans)).elements
    ctx.same(len(grids), len(chans) + 1, 'one grid per channel and the support bars')
    mods = A.modules()
    mid = np.asarray(mods['inner_radius'] + mods['outer_radius'], float) / 2
    ang = np.asarray(mods['clocking_angle'], float)
    for chan, grid in zip(chans, grids):
        M = np.array([e.pos4d for e in grid.elements])
        c = M[:, :3, 3]
        ox, oy = OPTAX[cname][chan]
        ctx.step(len(M))
        ctx.state('regular', cname, len(chans), chan)
        ctx.same([e.id_num for e in grid.elements], list(OFFSET[chan] + np.arange(len(M))), 'numbers of the facets')
        # on the torus
        T = conf['rowland_' + chan]
        loc = np.linalg.solve(np.array(T.pos4d), np.c_[c, np.ones(len(c))].T)[:3]
        ctx.close(np.hypot(np.hypot(loc[0], loc[2]) - T.R, loc[1]), np.full(len(c), T.r), 'distance from the tube of the Rowland torus', atol=1e-5)
        ctx.check(np.all(abs(c[:, 2] - A.F_) < 200), f'gratings in front of the mirror {c[:, 2].min()} {c[:, 2].max()}')
        # lattice that covers the modules
        x, y = np.unique(np.round(loc[1], 5)), np.unique(np.round(loc[2], 5))
        ctx.same(len(x) * len(y), len(c), 'complete grid')
        ctx.close(np.diff(x), np.full(len(x) - 1, 32.), 'spacing in x', atol=1e-4)
        ctx.close(np.diff(y), np.full(len(y) - 1, 32.5), 'spacing in y', atol=1e-4)
        mx, my = ox + SY[chan] * mid * np.sin(ang), oy + SY[chan] * mid * np.cos(ang)
        for v, m, h in ((c[:, 0], mx, 16), (c[:, 1], my, 16.25)):
            ctx.check(v.min() - h <= m.min() and v.max() + h >= m.max(), f'grid covers all modules {v} {m}')
            ctx.check(v.min() + 250 > m.min() and v.max() - 250 < m.max(), f'grid is not much larger {v} {m}')
        # gratings look to the focus of the channel, turned by the blaze angle around the y axis
        e = M[:, :3, :3] / np.linalg.norm(M[:, :3, :3], axis=1)[:, None, :]
        foc = c - [ox, oy, 0]
        foc /= np.linalg.norm(foc, axis=1)[:, None]
        ctx.close(np.rad2deg(np.arccos(np.clip((e[:, :, 0] * foc).sum(1), -1, 1))), np.full(len(c), BLZ[cname]), 'blaze angle', atol=1e-4)
        ctx.check(np.all((e[:, 0, 0] - foc[:, 0]) * SX[chan] > .02), 'direction of the blaze')
        ctx.check(np.all(abs(e[:, 0, 1]) > .99) and np.all(abs(e[:, 0, 2]) < .01), f'dispersion along x {abs(e[:, 0, 1]).min()} {abs(e[:, 0, 2]).max()}')
        ctx.close(np.linalg.norm(M[:, :3, 1], axis=1), np.full(len(c), 14.), 'size')
        ctx.close(np.linalg.norm(M[:, :3, 2], axis=1), np.full(len(c), 14.25), 'size')
        # rays to corners of the gratings
        k = np.arange(len(c)) % 4
        for f, hit in ((.98, True), (1.02, False)):
            p = c + f * (np.array([1, 1, -1, -1])[k][:, None] * M[:, :3, 1] + np.array([1, -1, 1, -1])[k][:, None] * M[:, :3, 2])
            d = np.tile([ox, oy, 0.], (len(p), 1)) - p
            ph = table(p - 100 * zoo.unit(d), d, np.full(len(p), .5))
            with rng.active(rng.Const(.5)):
                ph = grids[list(chans).index(chan)](ph)
            fac = np.array(ph['facet']) if 'facet' in ph.colnames else np.full(len(p), -1)
            ctx.same(fac, OFFSET[chan] + np.arange(len(c)) if hit else np.full(len(c), -1), 'facet hit')


def variants(ctx, cname, cls, tilt):
    """models without filters or with a boom see the same photons at the same places"""
    conf = conf_of(cname)
    from marxs.missions.arcus import arcus
    from marxs.optics import OrderSelector
    conf['alignmentbudget'] = []
    conf['inplanescatter'], conf['perpplanescatter'] = 0 * u.arcsec, 0 * u.arcsec
    conf['gratinggrid']['elem_args']['order_selector'] = OrderSelector([-4])
    P = getattr(arcus, cls)(conf, channels=CHANS)
    kinds = [type(e).__name__ for e in P.elements]
    ctx.same('FiltersAndQE' in kinds, cls != 'ArcusForSIXTE', 'filters')
    ctx.same('FourSidedBoom' in kinds, cls == 'ArcusForPlot', 'boom')
    ctx.same('DetCamera' in kinds, cls != 'ArcusForSIXTE', 'camera')
    ctx.same('FocalPlaneDet' in kinds, cls != 'ArcusForPlot', 'focal plane')
    ctx.same(kinds[-1], 'TagVersion', 'version')
    for chan in CHANS:
        j, aim, pos, d = start(cname, chan, TILTS[tilt])
        energy = np.resize([.4, .5, .65], len(pos))
        ph = table(pos, d, energy)
        p0 = np.array(ph['probability'])
        with rng.active(rng.Const(.5)):
            for e in P.elements[1:]:
                ph = e(ph)
        ctx.step(len(pos))
        ctx.state('variant', cname, cls, chan, tilt)
        xou, fac, pg, dg, prob = own_trace(cname, chan, pos, d, energy, -4)
        if cls == 'ArcusForSIXTE':
            for f in A.FILTERS.values():
                prob = prob / A.interp(f, energy)
        ok = fac >= 0
        ctx.same(np.array(ph['facet']), np.where(ok, OFFSET[chan] + fac, -1), 'facet')
        p = np.array(ph['probability'])
        boom = np.zeros(len(p), bool)
        if cls == 'ArcusForPlot':
            boom = ok & (p == 0)
            ctx.check(boom.sum() < .5 * ok.sum(), 'most photons are not absorbed by the boom')
        ctx.close(p, np.where(boom, 0, p0 * prob), 'probability', rtol=1e-5, atol=1e-9)
        if cls != 'ArcusForSIXTE':
            want, where = ccd_hit(cname, pg, dg)
            sure = ok & (want != -9) & ~boom
            ctx.same(np.array(ph['CCD'])[sure], want[sure], 'CCD')
        else:
            z = pg + dg * (-pg[:, 2] / dg[:, 2])[:, None]
            ctx.close(np.array(ph['detfp_x'])[ok], z[ok, 0], 'detfp_x', atol=1e-4)
            ctx.close(np.array(ph['detfp_y'])[ok], z[ok, 1], 'detfp_y', atol=1e-4)
            ctx.close(np.array(ph['pos'])[ok, :3], z[ok], 'photons end in the focal plane', atol=1e-4)


def readme(ctx, noff, chan):
    """the README describes the files next to it"""
    from types import SimpleNamespace
    from marxs.missions.arcus import arfrmf
    out = zoo.tmpdir()
    cls = type('MyOSIP', (), {'osip_description': 'what it does {x}', 'offset_orders': list(range(-noff, noff + 1)), 'ogip_name': 'x'})
    osip = cls()
    before = set(os.listdir(out))
    with contextlib.redirect_stdout(io.StringIO()):
        arfrmf.write_readme(osip, out, ARCCHAN=chan)
    ctx.step()
    ctx.state('readme', noff, chan)
    new = set(os.listdir(out)) - before
    ctx.same(len(new), 1, 'one file')
    path = os.path.join(out, new.pop())
    with open(path, encoding='utf-8') as f:
        text = f.read()
    os.remove(path)
    tag = Table()
    arfrmf.tagversion(tag)
    for k, v in tag.meta.items():
        v = v if isinstance(v, str) else v[0]
        ctx.check(f'{k}: {v}' in text, f'version information {k}')
    ctx.check(osip.osip_description in text and 'MyOSIP' in text, 'description')
    ctx.check(str(osip.offset_orders) in text, 'orders')
    for o in (-5, -4, -3):
        ctx.check(arfrmf.filename_from_meta(filetype='arf', ARCCHAN=chan, ORDER=-4, CCDORDER=-4, TRUEORD=o) in text.split(), 'file name for order -4')
    ctx.check('${' not in text and '$tagversion' not in text and '$description' not in text, 'all fields are filled in')


def scenarios(ctx):
    th = ctx.tier == 'thorough'
    A.load()
    yield from C.cases(onccd, 'onccd', CONFS, CHANS, ['Angstrom', 'keV'] + (['nm', 'eV'] if th else []))
    yield from C.cases(mirrgrat, 'mirrgrat', ['file', 'reversed', 'm2'])
    yield from C.cases(edge, 'edge', [1, 4, 7], [1., 300.], [9, 12])
    yield from C.cases(arf, 'arf', CONFS, list(EDGES), [-5, -3, 0] + ([-9, -7, 1, 2] if th else []))
    yield from C.cases(rmf, 'rmf', [12, 60] + ([200] if th else []), [1e-6, 1e-3, .03])
    yield from C.cases(names, 'names', ['fits', 'arf', 'rmf'])
    yield from C.cases(camera, 'camera', CONFS, ['plain', 'gaps', 'shift'])
    yield from C.cases(layout, 'layout', CONFS, list(range(len(SUBSETS))))
    yield from C.cases(trace, 'trace', CONFS, CHANS, [None, 0, -1, -4, -5, -6, 1] + ([-2, -3, -7, -8, -9, 2, 3] if th else []), list(TILTS))
    yield from C.cases(scatter, 'scatter', CHANS, ['in', 'perp'])
    yield from C.cases(analyze, 'analyze', [(-2, -1, 0, 1), (0,), (-7, -5), tuple(range(-9, 3)), (0, -5, -2), (1, -7)])
    yield from C.cases(budget, 'budget', ['default', None, .5, 0.])
    yield from C.cases(align, 'align', ALIGN, ['global', 'individual'])
    yield from C.cases(align, 'align', ['CATWindow'], ['individual_with_tilt'])
    yield from C.cases(loading, 'load', ['arcus'])
    yield from C.cases(defaults, 'defaults')
    yield from C.cases(regular, 'regular', CONFS, [('1',), ('1m',), ('2', '2m'), tuple(CHANS)])
    yield from C.cases(variants, 'variants', CONFS, ['ArcusForSIXTE', 'ArcusForPlot', 'Arcus'], list(TILTS) if th else ['on'])
    yield from C.cases(readme, 'readme', [0, 1, 3], ['all', '1', '2m'])
