"""Closed driver for optical elements: a registry of element configurations and
pools of rays built by independent vector algebra (nothing here uses marxs
geometry code)."""
import atexit
import itertools
import os
import shutil
import tempfile

import numpy as np
import astropy.units as u
from astropy.table import Table

_tmp = {}


def tmpdir():
    """scratch directory of this process, removed at its end"""
    pid = os.getpid()
    if pid not in _tmp:
        _tmp[pid] = tempfile.mkdtemp(prefix='marxsmc_')
        if not _tmp.get('worker'):
            atexit.register(shutil.rmtree, _tmp[pid], True)
    return _tmp[pid]


def worker_start():
    _tmp['worker'] = True


def worker_end():
    if os.getpid() in _tmp:
        shutil.rmtree(_tmp[os.getpid()], True)


def rot_x(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def rot_y(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rot_z(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt((v * v).sum(-1))[..., None] if v.ndim > 1 else v / np.sqrt((v * v).sum())


def perp(d, ang):
    """unit vector perpendicular to d, angle ang in a fixed (own) basis."""
    d = unit(np.asarray(d, float))
    a = np.array([0.3, 0.5, -0.2]) + np.eye(3)[np.argmin(np.abs(d))]
    v1 = unit(a - d * np.dot(a, d))
    v2 = np.cross(d, v1)
    return np.cos(ang) * v1 + np.sin(ang) * v2


ORI = {
    'id': np.eye(3),
    'gen': rot_z(0.7) @ rot_y(-0.4) @ rot_x(0.3),
    'flip': rot_z(np.pi),
    'xyz2zxy': np.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]]),
}

PLACES = {
    'unit': dict(position=[0., 0., 0.], orientation=np.eye(3), zoom=[1., 2., 3.]),
    'gen': dict(position=[5., -3., 2.], orientation=ORI['gen'], zoom=[.5, 2., 1.5]),
    'zxy': dict(position=[-10., 40., 1e3], orientation=ORI['xyz2zxy'], zoom=[1., 1., 4.]),
    'flip': dict(position=[100., 0., .5], orientation=ORI['flip'] @ rot_x(1.1), zoom=[2., 3., 2.]),
    # nearly aligned with the axes, as in a slightly misaligned instrument
    'tilt': dict(position=[0., 0., 30.], orientation=rot_z(.03) @ rot_y(-.02) @ rot_x(.04), zoom=[1., 2., 2.]),
}
NAMES = list(PLACES)


def pos4d(place):
    p = PLACES[place] if isinstance(place, str) else place
    m = np.eye(4)
    m[:3, :3] = np.asarray(p['orientation']) @ np.diag(np.broadcast_to(p['zoom'], 3))
    m[:3, 3] = p['position']
    return m


def place_kw(place):
    p = PLACES[place]
    return {'position': list(p['position']), 'orientation': np.array(p['orientation']), 'zoom': list(p['zoom'])}


def to_global(place, xyz, w):
    """place-local orthonormal coordinates (mm) -> global homogeneous."""
    p = PLACES[place]
    R = np.asarray(p['orientation'])
    out = np.zeros((len(xyz), 4))
    out[:, :3] = np.asarray(xyz) @ R.T
    if w:
        out[:, :3] += np.asarray(p['position'])
        out[:, 3] = 1
    return out


# ---------------------------------------------------------------- rays
DIRS = [unit([-1., 0, 0]), unit([-1., .03, -.02]), unit([-.8, .5, .3]), unit([1., .1, -.05])]
FRACS = [(0.3, -0.2), (-0.9, 0.95), (0.0, 0.0), (-.5, -.7), (.99, -.99)]


def plane_ray(kind, zoom, i=0):
    """ray (pos, dir) in local orthonormal coordinates; kind says hit or how it misses"""
    ly, lz = zoom[1], zoom[2]
    fy, fz = FRACS[i % len(FRACS)]
    d = DIRS[(i // 2) % len(DIRS)]
    t = [3., .5, 7., 20.][i % 4]
    h = np.array([0., fy * ly, fz * lz])
    if kind == 'hit':
        return h - t * d, d
    if kind == 'hit0':         # last interaction exactly on the surface
        return h, d
    if kind == 'missy':
        h = np.array([0, 1.01 * ly * (-1) ** i, fz * lz])
        return h - t * d, d
    if kind == 'missz':
        h = np.array([0, fy * ly, -1.02 * lz * (-1) ** i])
        return h - t * d, d
    if kind == 'back':         # moving away from the element
        return h + t * d, d
    if kind == 'par':          # parallel to the plane, above it
        return h + np.array([1., 0, 0]), unit([0, 1., .5])
    raise KeyError(kind)


def cyl_ray(kind, zoom, i=0):
    """Rays for an open tube around local z with radii zoom[0], zoom[1], half-length zoom[2],
    phi restricted to [-2, 2.5]"""
    phis = [0.3, -1.9, 2.3, 1.2, -0.7]
    zs = [0.1, -.9, .95, .5, -.3]
    phi, z = phis[i % 5], zs[i % 5]
    h = np.array([zoom[0] * np.cos(phi), zoom[1] * np.sin(phi), z * zoom[2]])
    inner = [np.array([0, 0, 0.]), np.array([.2 * zoom[0], -.1 * zoom[1], .3 * zoom[2]]),
             np.array([-.3 * zoom[0], .2 * zoom[1], -.2 * zoom[2]])][i % 3]
    d = unit(h - inner)
    if kind in ('hit', 'hit0'):
        return inner, d
    if kind == 'missz':
        h = h.copy()
        h[2] = 1.05 * zoom[2]
        return inner, unit(h - inner)
    if kind == 'missy':       # hits the tube where it is cut open
        phi = [2.8, -2.5, 3.1][i % 3]
        h = np.array([zoom[0] * np.cos(phi), zoom[1] * np.sin(phi), 0.])
        return inner * .3, unit(h - inner * .3)
    if kind == 'back':
        return h + 5 * d, d
    if kind == 'par':
        return np.array([0, 3 * zoom[1], 0.]), unit([1., 0, 0.2])
    raise KeyError(kind)


KINDS = ['hit', 'missy', 'missz', 'back', 'par', 'hit0']
ENERGY = [.5, .8, 1.1]
POLS = [0., 0.9, 2.2]
PROBS = [1., 0.5, 0.0, 0.25, 0.75]


def photons(place, rays, energy=None, pol=None, prob=None, extra=True):
    """Build a photon table from local rays. Column set like a real simulation."""
    n = len(rays)
    pos = to_global(place, np.array([r[0] for r in rays]).reshape(n, 3), 1)
    dr = to_global(place, np.array([r[1] for r in rays]).reshape(n, 3), 0)
    e = np.array([ENERGY[i % 3] for i in range(n)]) if energy is None else np.asarray(energy, float)
    pa = [POLS[(i // 2) % 3] for i in range(n)] if pol is None else pol
    pv = np.zeros((n, 4))
    for i in range(n):
        pv[i, :3] = perp(dr[i, :3], pa[i])
    pr = np.array([PROBS[i % 5] for i in range(n)]) if prob is None else np.asarray(prob, float)
    t = Table({'pos': pos, 'dir': dr, 'energy': e * u.keV, 'polarization': pv, 'probability': pr})
    t['energy'].unit = u.keV
    if extra:
        t['time'] = np.arange(n) * 1.5 + 0.1
        t['user'] = np.arange(n) * 7 - 3
        t['order'] = np.array([(-1, 2, 0, -4)[i % 4] for i in range(n)])
        t['flag'] = np.array(['a', 'bb', 'ccc'] * (n // 3 + 1))[:n]
    t.meta['EXPOSURE'] = 17.
    return t


# ---------------------------------------------------------------- elements
class Spec:
    def __init__(self, name, make, geom='plane', **props):
        self.name, self.make, self.geom, self.props = name, make, geom, props

    def ray(self, kind, zoom, i=0):
        return plane_ray(kind, zoom, i) if self.geom == 'plane' else cyl_ray(kind, zoom, i)


def _eff_file():
    f = os.path.join(tmpdir(), 'eff.txt')
    if not os.path.exists(f):
        np.savetxt(f, np.array([[.4, .1, .5, .2], [.8, .0, .3, .3], [1.2, .25, .25, .25]]))
    return f


def _refl_files():
    f = os.path.join(tmpdir(), 'refl.txt')
    if not os.path.exists(f):
        with open(f, 'w') as fh:
            fh.write('"X(mm)" "Peak lambda" "Peak" "FWHM(nm)"\n')
            for x, lam, pk, w in [(0, 1.0, 4., 3.), (2., 1.5, 6., 2.), (3., 2., 10., 1.5), (40., 3., 20., 0.)]:
                fh.write(f'{x} {lam} {pk} {w}\n')
    g = os.path.join(tmpdir(), 'pol.txt')
    if not os.path.exists(g):
        with open(g, 'w') as fh:
            fh.write('"Photon energy" "Polarization"\n')
            for e, p in [(200, .9), (700, .7), (2000, .5)]:
                fh.write(f'{e} {p}\n')
    return {'reflFile': f, 'testedPolarization': g}


def eff_table():
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    wave = np.array([0.5, 1., 2., 4.])
    theta = np.array([0., 1., 2., 4.]) 
    rows_w = np.repeat(wave, len(theta))
    rows_t = np.tile(theta, len(wave))
    t = Table()
    t['wave'] = rows_w * u.nm
    t['theta'] = rows_t * u.deg
    for k, o in enumerate([-3, -2, -1, 0, 1]):
        t[str(o)] = 0.02 * (k + 1) + 0.01 * rows_w + 0.005 * rows_t * ((k % 2) + 1)
    return t


def interp_selector():
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    return InterpolateEfficiencyTable(eff_table())


def ccd_width():
    from astropy.table import QTable
    return QTable({'energy': [.1, 1., 2.] * u.keV, 'FWHM': [.05, .08, .12] * u.keV})


def specs():
    from marxs import optics
    from marxs.optics import detector, scatter, mirror
    from marxs.missions.mitsnl import catgrating as cg
    from marxs.optics import OrderSelector, multiLayerMirror as mlm
    S = []

    def add(name, make, geom='plane', **props):
        S.append(Spec(name, make, geom, **props))

    add('EnergyFilter', lambda **k: optics.EnergyFilter(filterfunc=lambda e: 0.3 + .2 * np.asarray(e), **k))
    add('FlatDetector', lambda **k: optics.FlatDetector(pixsize=.1, ignore_pixel_warning=True, **k))
    add('CircularDetector', lambda **k: optics.CircularDetector(pixsize=.1, phi_lim=[-2., 2.5], **k), 'cyl')
    add('CCDRedistNormal', lambda **k: detector.CCDRedistNormal(tab_width=ccd_width(), **k), random=True)
    add('PerfectLens', lambda **k: optics.PerfectLens(focallength=30., **k), changes_dir=True)
    add('PerfectLensRefl', lambda **k: optics.PerfectLens(
        focallength=50., d_center_optical_axis=7.,
        reflectivity_interpolator=lambda e, ang, grid=False: np.clip(1 - .1 * np.asarray(e) - np.asarray(ang), 0, 1),
        **k), changes_dir=True)
    add('PerfectLensRefl0', lambda **k: optics.PerfectLens(
        focallength=200.,
        reflectivity_interpolator=lambda e, ang, grid=False: np.clip(1 - .1 * np.asarray(e) - np.asarray(ang), 0, 1),
        **k), changes_dir=True)
    add('ThinLens', lambda **k: optics.ThinLens(focallength=100., **k), changes_dir=True)
    add('RadialMirrorScatter', lambda **k: optics.RadialMirrorScatter(
        inplanescatter=3. * u.arcmin, perpplanescatter=1. * u.arcmin, **k), random=True, changes_dir=True)
    add('RadialMirrorScatterIn', lambda **k: optics.RadialMirrorScatter(inplanescatter=3. * u.arcmin, **k),
        random=True, changes_dir=True)
    add('RandomGaussianScatter', lambda **k: optics.RandomGaussianScatter(scatter=2. * u.arcmin, **k),
        random=True, changes_dir=True)
    add('RandomGaussianScatterFunc', lambda **k: optics.RandomGaussianScatter(
        scatter=lambda ph, i, ip, ic: (np.asarray(ph['energy'])[i] + np.abs(ic[i, 0])) * 1e-3 * u.rad, **k),
        random=True, changes_dir=True)
    add('FlatGratingT', lambda **k: optics.FlatGrating(d=4e-4, order_selector=OrderSelector([-1]), **k),
        random=True, changes_dir=True)
    add('FlatGratingTg', lambda **k: optics.FlatGrating(
        d=lambda ic: 4e-4 * (1 + .01 * ic[:, 0] - .005 * ic[:, 1]), groove_angle=.4,
        order_selector=OrderSelector([-2, -1, 0, 1, 2], p=[.1, .2, .3, .15, .05]), **k), random=True, changes_dir=True)
    add('FlatGratingR', lambda **k: optics.FlatGrating(d=4e-4, transmission=False, groove_angle=-.2,
                                                       order_selector=OrderSelector([1, 2]), **k),
        random=True, changes_dir=True)
    add('FlatGratingFile', lambda **k: optics.FlatGrating(
        d=4e-4, order_selector=optics.EfficiencyFile(_eff_file(), [1, 0, -1]), **k), random=True, changes_dir=True)
    add('CATGrating', lambda **k: optics.CATGrating(d=2e-4, order_selector=OrderSelector([-2, 0, 3], p=[.3, .3, .1]), **k),
        random=True, changes_dir=True)
    add('CATGratingInterp', lambda **k: optics.CATGrating(d=4e-4, order_selector=interp_selector(), groove_angle=.1, **k),
        random=True, changes_dir=True, small_angle=True)
    add('NonParallelCAT', lambda **k: cg.NonParallelCATGrating(
        d=4e-4, order_selector=interp_selector(), d_blaze_mm=1e-3, blaze_center=2e-3, **k),
        random=True, changes_dir=True, small_angle=True)
    add('FlatBrewsterMirror', lambda **k: optics.FlatBrewsterMirror(**k), changes_dir=True, oblique=True)
    add('MultiLayerEfficiency', lambda **k: mlm.MultiLayerEfficiency(**_refl_files(), **k))
    add('MultiLayerMirror', lambda **k: mlm.MultiLayerMirror(**_refl_files(), **k), changes_dir=True, oblique=True)
    add('QualityFactor', lambda **k: cg.QualityFactor(**k))
    add('L1', lambda **k: cg.L1(order_selector=cg.l1_order_selector, **k), random=True, changes_dir=True)
    add('L2Abs', lambda **k: cg.L2Abs(**k))
    add('L2Diffraction', lambda **k: cg.L2Diffraction(**k), random=True, changes_dir=True)
    add('CATL1L2Stack', lambda **k: cg.CATL1L2Stack(order_selector=interp_selector(), groove_angle=.05, **k),
        random=True, changes_dir=True, small_angle=True, overwrites_order=True)
    add('FlatStack', lambda **k: optics.FlatStack(
        elements=[optics.EnergyFilter, optics.FlatGrating, optics.FlatDetector],
        keywords=[{'filterfunc': lambda e: .5 + 0 * e}, {'d': 1e-3, 'order_selector': OrderSelector([1])},
                  {'pixsize': .05, 'ignore_pixel_warning': True}], **k), random=True, changes_dir=True)
    return S


def columns(t):
    """table -> dict of independent arrays"""
    return {c: np.array(t[c].data, copy=True) for c in t.colnames}
