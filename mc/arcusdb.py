"""A small calibration database in the layout that the Arcus modules read, in a scratch directory.
Importing the Arcus modules for the first time has to happen through `load()`: they look for arcus.cfg in the current
directory.  Nothing in here is taken from the code under test except the packaged list of Athena mirror modules."""
import os
import numpy as np
import astropy.units as u
from astropy.table import Table, QTable
from . import zoo

DB = None
F_ = 11876.430761
PERIOD = 2e-4
BLAZE = np.deg2rad(1.8)
ORDERS = list(range(-9, 3))
WAVE = np.array([.3, .8, 1.5, 2.5, 3.5, 5., 8.])     # nm
THETA = np.array([0., 1., 1.5, 2.5, 4.])     # deg


def eff(order, wave, theta):
    """table values: linear in wave and theta, so that linear interpolation is exact"""
    return .02 + .004 * (order + 10) * (.2 + .05 * wave) + .002 * theta


FILTERS = {('filters', 'sifilter'): ('keV', [.1, .5, 1., 3., 12.], [.5, .8, .9, .95, 1.], 'transmission'),
           ('filters', 'opticalblocking'): ('Angstrom', [120., 60, 30, 10, 1.], [.3, .4, .6, .9, .95], 'transmission'),
           ('filters', 'uvblocking'): ('eV', [100., 400, 800, 12000], [.6, .7, .9, .99], 'trans'),
           ('detectors', 'contam'): ('nm', [.1, 1., 2.5, 12.], [.99, .95, .7, .4], 'transmission'),
           ('detectors', 'qe'): ('keV', [.1, .3, .7, 5., 12.], [.4, .7, .95, .9, .6], 'qe')}
LOSS = ('keV', [.1, .4, 1.2, 12.], [.9, .85, .8, .7])
GEO, PORE = .92, .81
JITTER = 2.
FWHM = ([.1, .5, 1., 2., 10.], [50., 60., 75., 100., 160.])
MG_WAVE = np.array([60., 10., 35., 50., 25., 20., 5.])      # not sorted


def refl(e, a):
    return .95 - .02 * e - 3. * a - .3 * e * a


def mirr_grat(order, wave):
    return np.clip((12. + order) * (1.5 - ((wave - 28.) / 30.)**2), 0, None) * (1 + .1 * np.sin(order))


def modules():
    from marxs.missions.athena.spo import spogeom
    ang = np.asarray(spogeom['clocking_angle'], float)
    ang = (ang + np.pi) % (2 * np.pi) - np.pi
    t = spogeom[(abs(ang) < .3) & (spogeom['r_mid'] > 420) & (spogeom['r_mid'] < 640)].copy()
    for c in list(t.colnames):
        if c in ('r_mid',):
            t.remove_column(c)
    t['focal_length'] = 12000.
    t['focal_length'].unit = None
    return t


def facets(mods):
    """gratings of channel 1m, relative to the focal point: below each module one window with two gratings"""
    rows = []
    r = np.asarray(mods['outer_radius'] + mods['inner_radius'], float) / 2
    ang = np.asarray(mods['clocking_angle'], float)
    n = 0
    for k in range(len(mods)):
        for j in (-1, 1):
            n += 1
            # point on the line from the module to the focus, at distance F_
            m = np.array([r[k] * np.sin(ang[k]) + 12. * j, r[k] * np.cos(ang[k]), 12000.])
            ray = m / np.linalg.norm(m)
            p = ray * F_
            # normal towards the sky, tilted by the blaze angle in the dispersion direction
            disp = zoo.unit(np.array([1., 0, 0]) - ray[0] * ray)
            norm = np.cos(BLAZE) * ray + np.sin(BLAZE) * disp
            disp2 = np.cos(BLAZE) * disp - np.sin(BLAZE) * ray
            bar = np.cross(norm, disp2)
            rows.append([100 + k // 1, n, *p, *norm, *disp2, *bar, 20., 28., PERIOD * (1 + 1e-4 * (n % 3 - 1))])
    return np.array(rows)


def build(d):
    def put(sub, name, tab, fmt='ascii.ecsv'):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        tab.write(os.path.join(d, sub, name), format=fmt, overwrite=True)

    mods = modules()
    put('spos', 'petallayout.csv', mods)
    e, a = np.array([.1, .4, .8, 1.5, 3., 12.]), np.deg2rad([0., .5, 1., 1.5, 2., 4.])
    put('spos', 'coated_reflectivity.csv', QTable({'energy': np.repeat(e, len(a)) * u.keV, 'angle': np.tile(a, len(e)) * u.rad,
                                                   'reflectivity': refl(np.repeat(e, len(a)), np.tile(a, len(e)))}))
    put('spos', 'geometricthroughput.csv', Table({'transmission': [GEO]}))
    put('spos', 'porespecifications.csv', Table({'transmission': [PORE]}))
    put('spos', 'lossterm.csv', QTable({'energy': LOSS[1] * u.Unit(LOSS[0]), 'loss': LOSS[2]}))
    t = QTable({'wave': np.repeat(WAVE, len(THETA)) * u.nm, 'theta': np.tile(THETA, len(WAVE)) * u.deg})
    for o in ORDERS:
        t[str(o)] = eff(o, np.repeat(WAVE, len(THETA)), np.tile(THETA, len(WAVE)))
    put('gratings', 'efficiency.csv', t)
    f = facets(mods)
    names = ['SPO_MM_num', 'facet_num'] + [p + x for p in ('', 'NormN', 'DispN', 'GBarN') for x in 'XYZ'] + ['xsize', 'ysize', 'period']
    t = Table(f, names=names)
    t['SPO_MM_num'] = f[:, 0].astype(int)
    t['facet_num'] = f[:, 1].astype(int)
    t['period'].unit = u.mm
    put('gratings', 'facets.csv', t)
    for (sub, name), (unit, x, y, col) in FILTERS.items():
        put(sub, name + '.csv', QTable({'energy': x * u.Unit(unit), col: y}))
    put('other', 'pointingjitter.csv', QTable({'FWHM': [JITTER] * u.arcsec}))
    os.makedirs(os.path.join(d, 'detectors', 'ccd_2021'), exist_ok=True)
    np.savetxt(os.path.join(d, 'detectors', 'ccd_2021', 'arcus_ccd_rmf_20210211.txt'), np.array(FWHM).T)
    t = QTable({'wave': MG_WAVE * u.Angstrom})
    for o in ORDERS:
        t[str(o)] = mirr_grat(o, MG_WAVE) * u.cm**2
    put('aeff', 'mirr_grat.tab', t)


def load():
    global DB
    if DB is None:
        d = os.path.join(zoo.tmpdir(), 'arcusdb')
        os.makedirs(d, exist_ok=True)
        build(d)
        cfg = os.path.join(zoo.tmpdir(), 'arcuscwd')
        os.makedirs(cfg, exist_ok=True)
        with open(os.path.join(cfg, 'arcus.cfg'), 'w') as f:
            f.write(f'[data]\ncaldb_inputdata = {d}\n')
        old = os.getcwd()
        os.chdir(cfg)
        try:
            import marxs.missions.arcus.arcus
            import marxs.missions.arcus.arfrmf
            import marxs.missions.arcus.analyze_grid
            import marxs.missions.arcus.defaults
        finally:
            os.chdir(old)
        DB = d
    return DB


def interp(entry, energy):
    unit, x, y = entry[:3]
    e = (np.asarray(x) * u.Unit(unit)).to(u.keV, equivalencies=u.spectral()).value
    i = np.argsort(e)
    return np.interp(energy, e[i], np.asarray(y)[i])
