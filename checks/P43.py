"""Lynx and AXIS: rays from every shell through every grating traced by own algebra to detectors on and off the Rowland
circle, for reduced and modified configurations; alignment budgets; chirped gratings; data loading."""
import copy
import itertools
import os
import re
import numpy as np
import astropy.units as u
from astropy.table import Table, QTable
from mc import rng, zoo, arcusdb as A
from . import _common as C
from .P42 import table
from .P40 import Spread

HC = 12.398419843320026
SHELLS = {'lynx': [2, 5, 10], 'AXIS': [1, 3, 5]}
TILTS = {'on': (-1., 0, 0), 'off': (-1., 3e-4, -2e-4)}
SIGMA = {'lynx': 0., 'AXIS': 1.5}
L2 = {'lynx': (.5, .966, .05), 'AXIS': (.5, .966, .07)}
PITCH = {'lynx': (16.884, 8.192, 8.192), 'AXIS': (24.576 * 2 + .824 * 2 + .5, 24.576, 12.288)}


def module(mission):
    A.load()
    if mission == 'lynx':
        from marxs.missions.lynx import lynx as m
    else:
        from marxs.missions.AXIS import AXIS as m
    return m


def conf_of(mission, name, order=None):
    m = module(mission)
    from marxs.missions.lynx.lynx import add_rowland_to_conf
    from marxs.optics import OrderSelector
    c = copy.copy(m.conf)
    c['gas_kwargs'] = {k: (dict(v) if isinstance(v, dict) else v) for k, v in m.conf['gas_kwargs'].items()}
    c['det_kwargs'] = copy.deepcopy(m.conf['det_kwargs'])
    ser = np.array(c['metashellgeometry']['Metashell Serial Number'])
    c['metashellgeometry'] = c['metashellgeometry'][np.isin(ser, SHELLS[mission])]
    c['inplanescatter'] = c['perpplanescatter'] = 0 * u.rad
    c['grating_size'] = np.array([60., 120.])
    if name == 'reversed':
        c['metashellgeometry'] = c['metashellgeometry'][[1, 2, 0]]
    if name == 'other':
        c['grating_size'] = np.array([100., 80.])
        c['grating_frame'] = 5.
        c['focallength'] = m.conf['focallength'] - 900.
        c['design_tilted_torus'] = m.conf['design_tilted_torus'] - 900.
        c['blazeang'] = np.deg2rad(1.2)
        c['alphafac'], c['betafac'] = 2., 4.2
        c['det_kwargs']['y_range'] = [250, 480]
        if mission == 'AXIS':
            c['mirrorgeometricscaling'] = .4
        add_rowland_to_conf(c)
    if order is not None:
        c['gas_kwargs']['elem_args']['order_selector'] = OrderSelector([order])
    return c


def numbers(mission, name):
    """focal length, torus distance, alpha, beta, blaze, y range of the detectors"""
    f, t, b, af, bf, yr = {'lynx': (10000., 9600., 1.6, 2.2, 4.4, (400., 800.)), 'AXIS': (9000., 8600., 1.6, 2.2, 4.4, (400., 600.))}[mission]
    if name == 'other':
        f, t, b, af, bf, yr = f - 900, t - 900, 1.2, 2., 4.2, (250., 480.)
    b = np.deg2rad(b)
    return f, t, af * b, bf * b, b, yr


def torus(mission, name):
    """R, r, center, local x and y axis; the focal point is on the torus, and so is the point on axis at distance t"""
    f, t, al, be, b, yr = numbers(mission, name)
    r = t / 2 / np.cos(al)
    R = r * np.cos(be)
    g = be - al
    ex, ey = np.array([np.cos(g), -np.sin(g), 0]), np.array([np.sin(g), np.cos(g), 0])
    cen = np.array([t / 2 - R * np.cos(g), t / 2 * np.tan(al) + R * np.sin(g), 0])
    return R, r, cen, ex, ey


def interp_file(path, x, y, at):
    xs, ys = [], []
    with open(path) as f:
        lines = [ln for ln in f if not ln.startswith('#') and ln.strip()]
    head = re.findall(r'"[^"]*"|\S+', lines[0])
    head = [h.strip('"') for h in head]
    for ln in lines[1:]:
        v = ln.split()
        xs.append(float(v[head.index(x)]))
        ys.append(float(v[head.index(y)]))
    return np.interp(at, xs, ys)


def mirror_prob(mission, name, shell, theta, energy):
    import marxs.missions.lynx as lx
    d = os.path.join(os.path.dirname(lx.__file__), 'data')
    if mission == 'lynx':
        out = np.zeros(len(energy))
        geo = {s: (o**2 - i**2) * np.pi for s, i, o in SHELLGEO}
        for s in set(shell):
            k = shell == s
            out[k] = interp_file(os.path.join(d, 'metashelleff.dat'), 'energy', str(s), energy[k]) * 100 / geo[s]
        return np.clip(out, 0, 1)
    with open(os.path.join(d, 'ir_reflectivity.dat')) as f:
        lines = [ln.split() for ln in f if not ln.startswith('#') and ln.strip()]
    ang = np.array([float(x.strip('"')) for x in lines[0][1:]])
    tab = np.array(lines[1:], float)
    from scipy.interpolate import RegularGridInterpolator
    r = RegularGridInterpolator((tab[:, 0] / 1e3, ang), tab[:, 1:])(np.array([energy, np.rad2deg(theta)]).T)
    return r**2 * (.61 if name != 'other' else .4)


SHELLGEO = [(2, 242, 346), (5, 587, 691), (10, 1162, 1266)]
AXISGEO = [(1, 151.544, 212.863), (3, 338.443, 428.440), (5, 560.379, 647.051)]


def rays(mission, name, tilt):
    f = numbers(mission, name)[0]
    geo = SHELLGEO if mission == 'lynx' else AXISGEO
    pos, shell = [], []
    for s, i, o in geo:
        for k, rr in enumerate(np.linspace(i + 1, o - 1, 4)):
            for a in np.arange(48) * 2 * np.pi / 48 + .013 * k + .002 * s:
                pos.append([f + 200., rr * np.cos(a), rr * np.sin(a)])
                shell.append(s)
    d = np.tile(zoo.unit(np.array(tilt, float)), (len(pos), 1))
    return np.array(pos), d, np.array(shell)


def own_mirror(mission, name, pos, d, energy, shell):
    f = numbers(mission, name)[0]
    m = pos + d * ((f - pos[:, 0]) / d[:, 0])[:, None]
    foc = np.array([f, 0, 0]) + f * d
    new = zoo.unit(foc - m)
    theta = np.arccos(np.clip((new * d).sum(1), -1, 1)) / 4
    return m, new, mirror_prob(mission, name, shell, theta, energy)


def own_gratings(mission, name, G, m, k, energy, order):
    """G: (n, 4, 4) matrices of the gratings"""
    n = len(m)
    fac, count, close = np.full(n, -1), np.zeros(n, int), np.zeros(n, bool)
    pg, dg, prob = m.copy(), k.copy(), np.ones(n)
    b, p, w = L2[mission]
    free = p - w
    for j, g in enumerate(G):
        c, nn = g[:3, 3], g[:3, 0] / np.linalg.norm(g[:3, 0])
        ly, lz = np.linalg.norm(g[:3, 1]), np.linalg.norm(g[:3, 2])
        ey, ez = g[:3, 1] / ly, g[:3, 2] / lz
        t = ((c - m) @ nn) / (k @ nn)
        h = m + t[:, None] * k
        y, z = (h - c) @ ey, (h - c) @ ez
        hit = (abs(y) < ly) & (abs(z) < lz)
        close |= (abs(y) < ly + 1e-6) & (abs(z) < lz + 1e-6) & ~((abs(y) < ly - 1e-6) & (abs(z) < lz - 1e-6))
        if not hit.any():
            continue
        fac[hit] = j
        count[hit] += 1
        kd, kl = k[hit] @ ey, k[hit] @ ez
        kd2 = kd + np.sign(kd) * order * HC / energy[hit] * 1e-7 / 2e-4
        kn = np.sqrt(1 - kd2**2 - kl**2)
        dg[hit] = kd2[:, None] * ey + kl[:, None] * ez + (np.sign(k[hit] @ nn) * kn)[:, None] * nn
        pg[hit] = h[hit]
        qf = np.exp(-(2 * np.pi * SIGMA[mission] / 200.)**2 * order**2)
        sin = np.sqrt(np.clip(1 - (dg[hit] @ nn)**2, 0, 1))
        prob[hit] = qf * ((free / p)**2 - b * free * sin / (p**2 * np.sqrt(3) / 2))
    prob[fac < 0] = 0
    return fac, pg, dg, prob, (count > 1) | close


def detectors(mission, name):
    """centers in the plane z=0 and unit vectors along the CCDs"""
    R, r, cen, ex, ey = torus(mission, name)
    lo, hi = numbers(mission, name)[5]
    p = PITCH[mission][0]
    n = int(np.ceil((hi - lo) / p))
    y = .5 * (lo + hi) - cen[1] + (np.arange(n) - (n - 1) / 2) * p
    x = R - np.sqrt(r * r - y * y)
    # normal: to the center of the Rowland circle; elements are ordered along y
    al = np.array([np.sqrt(r * r - y * y), y]).T / r       # (dy, dx) tangent: x' = y / sqrt(r^2-y^2)
    tang = al[:, :1] * ey + al[:, 1:] * ex
    return cen + x[:, None] * ex + y[:, None] * ey, tang


def ccds(mission, name, pos, d):
    cen, tang = detectors(mission, name)
    _, hw, hh = PITCH[mission]
    out, where = np.full(len(pos), -1), np.full((len(pos), 3), np.nan)
    for k, (c, t) in enumerate(zip(cen, tang)):
        n = np.cross(t, [0, 0, 1.])
        s = ((c - pos) @ n) / (d @ n)
        h = pos + s[:, None] * d
        a, z = (h - c) @ t, h[:, 2]
        hit = (abs(a) < hw) & (abs(z) < hh)
        near = (abs(a) < hw + 1e-2) & (abs(z) < hh + 1e-2) & ~((abs(a) < hw - 1e-2) & (abs(z) < hh - 1e-2))
        out[hit] = k
        where[hit] = h[hit]
        out[near] = -9
    return out, where


def instrument(mission, conf, **kw):
    m = module(mission)
    return (m.PerfectLynx if mission == 'lynx' else m.PerfectAXIS)(conf, **kw)


def gratings(P):
    from marxs.missions.lynx.lynx import LynxGAS
    return P.elements_of_class(LynxGAS)[0]


def run_rays(P, ph, skip=1, **kw):
    with rng.active(rng.Const(.5)):
        for e in P.elements[skip:]:
            ph = e(ph)
    return ph


def trace(ctx, mission, name, order, tilt):
    conf = conf_of(mission, name, order if order is not None else 0)
    if order is None and mission == 'AXIS':
        P = instrument(mission, conf, gratings=False)
    else:
        P = instrument(mission, conf)
    pos, d, shell = rays(mission, name, TILTS[tilt])
    energy = np.resize([.3, .4, .62, 1.1], len(pos))
    ph = table(pos, d, energy)
    ph['shell'] = shell
    p0 = np.array(ph['probability'])
    ph = run_rays(P, ph)
    ctx.step(len(pos))
    ctx.state(mission, name, order, tilt)
    g = {c: np.array(ph[c]) for c in ph.colnames}
    m, k, prob = own_mirror(mission, name, pos, d, energy, shell)
    sure = np.ones(len(pos), bool)
    if order is not None:
        G = np.array([e.pos4d for e in gratings(P).elements])
        fac, pg, dg, pp, unsure = own_gratings(mission, name, G, m, k, energy, order)
        prob = prob * pp
        sure = ~unsure
        ctx.check((fac >= 0).mean() > .5 and (fac < 0).any(), f'rays in gratings and gaps {(fac >= 0).mean()}')
        ctx.check(len(set(fac)) > 60, 'many gratings are reached')
        ctx.same(g['facet'][sure], fac[sure], 'facet')
        ctx.same(g['order'][sure & (fac >= 0)], np.full((sure & (fac >= 0)).sum(), float(order)), 'order')
    else:
        pg, dg = m, k
    if mission == 'lynx':
        import marxs.missions.lynx as lx
        prob = prob * interp_file(os.path.join(os.path.dirname(lx.__file__), 'data', 'filtersqe.dat'), 'energy', 'Total_throughput', energy * 1e3)
    else:
        for f in A.FILTERS.values():
            prob = prob * A.interp(f, energy)
    ctx.close(g['probability'][sure], (p0 * prob)[sure], 'probability', rtol=1e-5 if mission == 'lynx' else 4e-3, atol=1e-9)
    ctx.same(g['shell'], shell, 'shell')
    ok = sure if order is None else sure & (fac >= 0)
    # CCDs on the Rowland circle
    want, hit = ccds(mission, name, pg, dg)
    s2 = ok & (want != -9)
    ctx.same(g.get('CCD_ID', np.full(len(pos), -1))[s2], want[s2], 'CCD')
    if name == 'base' and order in (-4, -5):
        ctx.check((want[s2] >= 0).any(), 'orders near the blaze peak are detected')
    cen, tang = detectors(mission, name)
    i = s2 & (want >= 0)
    if i.any():
        al = ((hit[i] - cen[want[i]]) * tang[want[i]]).sum(1)
        sg = np.sign(g['det_x'][i][np.argmax(abs(al))] * al[np.argmax(abs(al))])
        ctx.close(g['det_x'][i], sg * al, 'det_x', atol=2e-4)
        ctx.close(abs(g['det_y'][i]), abs(hit[i, 2]), 'det_y', atol=2e-4)
        ctx.same(np.sign(g['det_y'][i])[abs(hit[i, 2]) > 1e-3], (np.sign(hit[i, 2]) * np.sign(g['det_y'][i][np.argmax(abs(hit[i, 2]))] * hit[i, 2][np.argmax(abs(hit[i, 2]))]))[abs(hit[i, 2]) > 1e-3], 'direction of det_y')
        px = .016 if mission == 'lynx' else .024
        for c, w, hw in (('detpix_x', 'det_x', PITCH[mission][1]), ('detpix_y', 'det_y', PITCH[mission][2])):
            ctx.close(g[c][i], g[w][i] / px + hw / px - .5, c, atol=1e-6)
    # plane of the focal point
    z = pg - dg * (pg[:, 0] / dg[:, 0])[:, None]
    # Detectors only see what lies ahead: the circle and the plane are reached again because photons are set back before.
    ctx.close(g['detinf_x'][ok], z[ok, 1], 'detinf_x', atol=2e-4)
    ctx.close(g['detinf_y'][ok], z[ok, 2], 'detinf_y', atol=2e-4)
    # where photons are at the time of the first projection: on the CCD, (AXIS: on the imaging detector,) or at the grating
    last = np.where((want >= 0)[:, None], hit, pg)
    if mission == 'AXIS':
        im = (abs(z[:, 1]) < 15) & (abs(z[:, 2]) < 15) & (((z - last) * dg).sum(1) >= 0)
        last = np.where(im[:, None], z, last)
        s3 = s2 & (abs(abs(z[:, 1]) - 15) > 1e-2) & (abs(abs(z[:, 2]) - 15) > 1e-2)
        ctx.close(np.isfinite(g.get('imaging_x', np.full(len(pos), np.nan)))[s3], im[s3], 'on the imaging detector')
        if (s3 & im).any():
            for c, a in (('x', 1), ('y', 2)):
                ctx.close(g[f'imaging_{c}'][s3 & im], z[s3 & im, a], f'imaging_{c}', atol=2e-4)
                ctx.close(g[f'imagingpix_{c}'][s3 & im], (z[s3 & im, a] + 15) / .008 - .5, f'imagingpix_{c}', atol=.03)
        s2 = s3
    else:
        im = (abs(z[:, 1]) < 50) & (abs(z[:, 2]) < 50)
        s3 = ok & (abs(abs(z[:, 1]) - 50) > 1e-2) & (abs(abs(z[:, 2]) - 50) > 1e-2)
        got = g.get('microcal_x', np.full(len(pos), np.nan))
        ctx.same(np.isfinite(got)[s3], im[s3], 'on the microcalorimeter')
        if (s3 & im).any():
            ctx.close(got[s3 & im], z[s3 & im, 1], 'microcal_x', atol=2e-4)
            ctx.close(g['microcal_y'][s3 & im], z[s3 & im, 2], 'microcal_y', atol=2e-4)
    ctx.close(g['proj_x'][s2], last[s2, 1], 'proj_x', atol=2e-4)
    ctx.close(g['proj_y'][s2], last[s2, 2], 'proj_y', atol=2e-4)
    if name == 'base':
        # circular detector
        R, r, cc, ex, ey = torus(mission, name)
        c0 = cc + R * ex
        a = dg[:, 0]**2 + dg[:, 1]**2
        q = pg - c0
        bb = q[:, 0] * dg[:, 0] + q[:, 1] * dg[:, 1]
        t = (-bb + np.sqrt(bb * bb - a * (q[:, 0]**2 + q[:, 1]**2 - r * r))) / a
        h = pg + t[:, None] * dg
        on = ok & (abs(h[:, 2]) < 49.99)
        phi = np.arctan2((h - c0) @ -ey, (h - c0) @ -ex)
        ctx.close(g['detcirc_phi'][on], phi[on], 'detcirc_phi', atol=5e-8)
        ctx.close(g['detcirc_y'][on], h[on, 2], 'detcirc_y', atol=2e-4)
        ctx.close(g['projcirc_y'][on], h[on, 1], 'projcirc_y', atol=2e-4)
        ctx.close(g['projcirc_z'][on], h[on, 2], 'projcirc_z', atol=2e-4)
    if order in (0, None):
        f = numbers(mission, name)[0]
        foc = np.array([f, 0, 0]) + f * zoo.unit(np.array(TILTS[tilt]))
        ctx.close(g['detinf_x'][ok], foc[1], 'order zero is in focus', atol=.02)
    if order not in (0, None) and tilt == 'on':
        ctx.check(np.all(np.sign(g['detinf_x'][ok]) == (1 if order < 0 else -1)), 'blaze side')


def gas(ctx, mission, name):
    """every grating is on the torus of the design, tilted by the blaze angle, in the annulus of the shells, which are covered"""
    conf = conf_of(mission, name)
    P = instrument(mission, conf)
    G = gratings(P)
    f, t, al, be, blaze, yr = numbers(mission, name)
    R, r, cen, ex, ey = torus(mission, name)
    ez = np.array([0, 0, 1.])
    size = np.array([60., 120.] if name != 'other' else [100., 80.])
    frame = 2. if name != 'other' else 5.
    geo = SHELLGEO if mission == 'lynx' else AXISGEO
    rin, rout = geo[0][1], geo[-1][2]
    ctx.check(abs((np.hypot(np.hypot(-cen @ ex, 0) - R, cen @ ey))**2 - r * r) < 1e-2 * r, 'own torus goes through the focus')
    for e in G.elements:
        ctx.step()
        c = e.pos4d[:3, 3]
        q = c - cen
        x, y, z = q @ ex, q @ ey, q @ ez
        ctx.close((np.hypot(x, z) - R)**2 + y**2, r * r, 'grating center on the torus', rtol=1e-7)
        ctx.check(x > 0, 'side of the torus')
        v = [e.pos4d[:3, i] for i in range(3)]
        ln = [np.linalg.norm(a) for a in v]
        ctx.close(ln, [1, size[0] / 2, size[1] / 2], 'size of gratings')
        v = [a / b for a, b in zip(v, ln)]
        ctx.close(v[2] @ [0, 1, 0], 0, 'grooves are perpendicular to the dispersion direction', atol=1e-9)
        n = v[0] * np.sign(v[0] @ c)
        # turned by the blaze angle around the grooves against the direction to the focus
        ctx.close(np.cross(n, c / np.linalg.norm(c)) @ v[2], np.sin(blaze) * SGN[mission], 'blaze angle', atol=2e-6)
        rad = np.hypot(c[1], c[2])
        diag = np.hypot(*(size / 2 + frame))
        # the rays converge: at the position of the grating the beam is smaller
        ctx.check(rad < rout + diag and rad > rin * .92 - diag, f'grating at {rad} between {rin} and {rout}')
        ctx.check(G.id_col == 'facet' and e.id_num == G.elements.index(e) and all(x.id_col == 'facet' for x in e.elements if x.id_col is not None), 'id')
        ang = np.arctan2(c[1], c[2]) % np.pi
        if min(ang % (np.pi / 3), np.pi / 3 - ang % (np.pi / 3)) > 1e-6:
            ctx.same(e.display['color'], 'rgb'[int(ang / np.pi * 3)], 'color')
        ctx.state(mission, name, e.id_num)
    rad = np.array([np.hypot(*e.pos4d[1:3, 3]) for e in G.elements])
    ctx.check(rad.min() < rin + diag and rad.max() > rout * .85 - diag, f'gratings at {rad.min()} to {rad.max()} cover {rin} to {rout}')
    D = [x for x in P.elements if type(x).__name__ == 'RowlandDetArray'][0]
    dc, tang = detectors(mission, name)
    ctx.same(len(D.elements), len(dc), 'number of CCDs')
    for e, c, tg in zip(D.elements, dc, tang):
        ctx.step()
        ctx.close(e.pos4d[:3, 3], c, 'CCD center', atol=1e-4)
        ctx.close(abs(e.pos4d[:3, 1] @ tg), PITCH[mission][1], 'CCD direction', rtol=1e-6)
        ctx.close(abs(e.pos4d[2, 2]), PITCH[mission][2], 'CCD height', rtol=1e-9)


SGN = {'lynx': 1, 'AXIS': 1}


def aperture(ctx, mission, name):
    """photons arrive through the shells in proportion to their area and behind the aperture only in the shells"""
    conf = conf_of(mission, name)
    P = instrument(mission, conf)
    geo = SHELLGEO if mission == 'lynx' else AXISGEO
    f = numbers(mission, name)[0]
    ap = P.elements[0]
    area = np.array([np.pi * (o**2 - i**2) for s, i, o in geo])
    ctx.close(ap.area.to_value(u.mm**2), area.sum(), 'area', rtol=1e-9)
    for d in (TILTS['on'], (-1., .05, .02)):
        n = 400
        ph = Table({'dir': np.tile(np.append(zoo.unit(np.array(d)), 0), (n, 1)), 'energy': np.ones(n), 'probability': np.ones(n),
                    'polarization': np.tile(np.append(zoo.perp(zoo.unit(np.array(d)), .3), 0), (n, 1))})
        with rng.active(Spread()):
            ph = ap(ph)
        ctx.step(n)
        pos = np.array(ph['pos'])
        rad = np.hypot(pos[:, 1], pos[:, 2])
        ctx.close(pos[:, 0], f + 200., 'plane', atol=1e-9)
        for s, i, o in geo:
            k = np.array(ph['shell']) == s
            ctx.check(np.all((rad[k] >= i - 1e-6) & (rad[k] <= o + 1e-6)), f'radii in shell {s}')
            ctx.check(abs(k.mean() - np.pi * (o**2 - i**2) / area.sum()) < .02, f'share of shell {s} {k.mean()}')
            ctx.state(mission, name, s, d)
        ctx.check(set(np.array(ph['shell'])) == {s for s, _, _ in geo}, 'shell numbers')
        # a tilted aperture shows a smaller area
        ctx.close(np.array(ph['probability']) / ph['probability'][0], 1, 'equal probabilities', rtol=1e-9)


def scatter(ctx, mission, q):
    conf = conf_of(mission, 'base', 0)
    s = 3e-5
    conf['inplanescatter'], conf['perpplanescatter'] = (s * u.rad, 0 * u.rad) if q == 'in' else (0 * u.rad, s * u.rad)
    P = instrument(mission, conf)
    stop = [i for i, e in enumerate(P.elements) if type(e).__name__ == 'LynxGAS'][0]
    pos, d, shell = rays(mission, 'base', TILTS['on'])
    out = []
    for uu in (.5, .9):
        ph = table(pos, d, .5)
        ph['shell'] = shell
        with rng.active(rng.Const(uu)):
            for e in P.elements[1:stop]:
                ph = e(ph)
        out.append(np.array(ph['dir'])[:, :3])
    from scipy.stats import norm
    k0, k1 = out
    ang = np.linalg.norm(np.cross(k0, k1), axis=1)
    ctx.step(len(pos))
    ctx.state(mission, q)
    ctx.close(ang, norm.ppf(.9) * s, 'scatter', rtol=1e-2)
    rad = pos * [0, 1, 1]
    rad = zoo.unit(rad)
    dk = (k1 - k0) / ang[:, None]
    a, b = abs((dk * rad).sum(1)), abs((dk * np.cross(rad, [1., 0, 0])).sum(1))
    ctx.check(np.all(a > .98) and np.all(b < .05) if q == 'in' else np.all(b > .98) and np.all(a < .05), 'direction of scatter')


def chirp(ctx, mission):
    """with chirped gratings the blaze peak is in focus on the circle; without it is not"""
    spread = {}
    for kind in ('plain', 'chirped'):
        conf = conf_of(mission, 'base', -5.4)
        conf['grating_size'] = np.array([80., 160.])
        if kind == 'chirped':
            conf['chirp_energy'], conf['chirp_order'] = .6, -5.4
        P = instrument(mission, conf)
        G = [e for e in gratings(P).elements][::7]
        phis = []
        for e in G:
            ctx.step()
            M = e.pos4d
            c, ey = M[:3, 3], M[:3, 1]
            pt = np.array([c + s * ey for s in (-.99, -.5, 0., .5, .99)])
            # rays toward the focal point
            ph = table(pt * 1.01, -pt, .6)
            with rng.active(rng.Const(.5)):
                for x in [gratings(P)] + [x for x in P.elements if type(x).__name__ == 'CircularDetector']:
                    ph = x(ph)
            # neighbours may overlap at the edges; then the ray passed another grating
            if len(set(np.array(ph['facet']))) > 1 or np.any(~np.isfinite(np.array(ph['detcirc_phi']))):
                continue
            phis.append(np.ptp(np.array(ph['detcirc_phi'])))
            ctx.state(mission, kind, e.id_num)
        ctx.check(len(phis) > 5, f'gratings {len(phis)}')
        spread[kind] = np.array(phis)
    ctx.check(np.median(spread['chirped']) < .02 * np.median(spread['plain']), f'focus {np.median(spread["plain"])} {np.median(spread["chirped"])}')
    # 50 x 50 / 60 x 60 gratings in the prepared configurations
    m = module(mission)
    name, size = ('conf_5050', 50.) if mission == 'lynx' else ('conf_6060', 60.)
    ctx.same(list(getattr(m, name)['grating_size']), [size, size], name)
    ctx.same(list(m.conf['grating_size']), [20., 50.] if mission == 'lynx' else [30., 60.], 'default size')
    ctx.check('chirp_energy' not in m.conf and 'chirp_order' not in m.conf, 'default is not chirped')


def parts(ctx, mission):
    m = module(mission)
    conf = conf_of(mission, 'base', 0)
    Plot = m.LynxForPlot if mission == 'lynx' else m.AXISForPlot
    P, Q = Plot(conf), instrument(mission, conf)
    na = [type(e).__name__ for e in P.elements]
    nb = [type(e).__name__ for e in Q.elements]
    ctx.step()
    ctx.state(mission, tuple(na))
    ctx.same([x for x in na if 'Detector' in x or 'DetArray' in x], ['RowlandDetArray', 'FlatDetector'], 'detectors for plots')
    ctx.same(na[:na.index('RowlandDetArray')], nb[:nb.index('RowlandDetArray')], 'other parts are the same')
    if mission == 'AXIS':
        R = instrument(mission, conf, gratings=False)
        ctx.same([type(e).__name__ for e in R.elements], [x for x in nb if x not in ('LynxGAS', 'function')], 'without gratings')
        conf['chirp_energy'], conf['chirp_order'] = .6, -5.4
        R = instrument(mission, conf, gratings=False)
        ctx.same([type(e).__name__ for e in R.elements], [x for x in nb if x not in ('LynxGAS', 'function')], 'without gratings, chirp requested')
        del conf['chirp_energy'], conf['chirp_order']
        # focal length of the mirror comes from the configuration, wherever the mirror is
        from marxs.missions.lynx.mirror import PerfectLensSegment
        for fl, x in itertools.product((7000., 9000.), (6000., 7000., 9500.)):
            conf['focallength'] = fl
            L = PerfectLensSegment(conf, position=[x, 0, 0], zoom=[1, 700, 700])
            y = np.array([[x + 100., 200., 300.], [x + 100., -500., 10.], [x + 100., 0., -651.]])
            d = zoo.unit((-1., 1e-4, 3e-4))
            ph = table(y, np.tile(d, (3, 1)), 1.)
            with rng.active(rng.Const(.5)):
                ph = L(ph)
            hit = y + d * (100. / -d[0])
            ctx.close(np.array(ph['pos'])[:, :3], hit, 'position on the mirror', atol=1e-7)
            ctx.close(np.array(ph['dir'])[:, :3], zoo.unit(np.array([x, 0, 0]) + fl * d - hit), 'focus', atol=1e-7)
            ctx.step()
            ctx.state('lens', fl, x)
    pos, d, shell = rays(mission, 'base', TILTS['on'])
    ph = table(pos, d, .5)
    ph['shell'] = shell
    ph = run_rays(Q, ph)
    ctx.same(ph.meta['SATELLIT'][0] if not isinstance(ph.meta['SATELLIT'], str) else ph.meta['SATELLIT'], 'LYNX' if mission == 'lynx' else 'AXIS', 'SATELLIT')
    # positions of all steps are kept
    ph = table(pos, d, .5)
    ph['shell'] = shell
    with rng.active(Spread()):
        ph = Q(ph)
    kp = Q.KeepPos
    ctx.same(len(kp.data), len(Q.elements), 'kept positions')


def align(ctx, cls, how):
    conf = conf_of('lynx', 'base', 0)
    m = module('lynx')
    from marxs.design import tolerancing as tol
    v = np.array([.3, -.4, 1.1, 1e-3, 2e-3, -1.5e-3])
    cl = getattr(m, cls)
    conf['alignmentbudget'] = [[cl, how, None, v, '']]
    with rng.active(Spread()):
        B = m.Lynx(conf)
    P = m.PerfectLynx(conf)
    Q = m.PerfectLynx(conf)
    with rng.active(Spread()):
        {'global': tol.moveglobal, 'individual': tol.wiggle}[how](P.elements_of_class(cl), *v)
    for c in (m.LynxGAS, m.RowlandDetArray):
        moved = False
        for a, b, q in zip(P.elements_of_class(c), B.elements_of_class(c), Q.elements_of_class(c)):
            for x, y, z in zip(a.elements, b.elements, q.elements):
                ctx.step()
                ctx.close(x.pos4d, y.pos4d, f'{c.__name__}', atol=1e-9)
                moved |= not np.allclose(y.pos4d, z.pos4d, atol=1e-9)
        ctx.same(moved, c is cl, f'{c.__name__} moved')
    ctx.state(cls, how)
    for bad in ('sideways', 'individual_with_tilt'):
        conf['alignmentbudget'] = [[cl, bad, None, v, '']]
        ctx.raises(NotImplementedError, lambda: m.Lynx(conf), 'unknown kind')


def budget(ctx, fac):
    m = module('lynx')
    val = [[1, .5, .5, .01, .02, .03], (.1, 2, 3, 4, 5, 6), np.array([0., 1, 0, 0, 0, .5]), [2.] * 6]
    how = ['global', 'individual', 'global', 'individual']
    b = [['a', h, copy.deepcopy(v), None, 'text'] for h, v in zip(how, val)]
    from scipy.stats import norm
    if fac == 'default':
        m.reformat_errorbudget(b)
        w = [.8, 1, .8, 1]
    elif fac is None:
        us = [.9, .2, .65, .33, .77, .05, .55, .4, .15, .95, .7, .25]
        with rng.active(rng.Script(us)):
            m.reformat_errorbudget(b, None)
        got = [np.asarray(row[3], float)[j] / v[j] for row, v, h in zip(b, val, how) if h == 'global' for j in range(6) if v[j] != 0]
        ctx.close(np.sort(got), np.sort(norm.ppf(us)[np.argmin(abs(np.subtract.outer(got, norm.ppf(us))), axis=1)]), 'random factors')
        ctx.same(len(set(np.round(got, 9))), len(got), 'each degree of freedom has its own random number')
        w = [None, 1, None, 1]
    else:
        m.reformat_errorbudget(b, fac)
        w = [fac, 1, fac, 1]
    for row, h, v, ww in zip(b, how, val, w):
        ctx.step()
        ctx.state(fac, h)
        ctx.check(row[:2] == ['a', h] and row[4] == 'text' and list(row[2]) == list(v), 'other entries')
        if ww is not None:
            ctx.close(row[3], np.array(v, float) * ww, 'tolerances', rtol=1e-9)
        else:
            ctx.same(np.asarray(row[3]) == 0, np.asarray(v) == 0, 'no tolerance, no movement')
    for row in m.conf['alignmentbudget']:
        ctx.close(row[3], np.array(row[2], float) * (.8 if row[1] == 'global' else 1), 'default budget', rtol=1e-9)
    ctx.check(all(r[3] is None for r in m.align_requirement_in), 'input of the budget')


def loading(ctx):
    from marxs.missions.lynx import load_csv as L
    d = zoo.tmpdir()
    f = os.path.join(d, 'lx.dat')
    for val, un in [(1.5, None), (2.5, 'mm'), (3, 'arcsec'), (0., 'keV'), (7, None)]:
        Table({'v': [val] * u.Unit(un) if un else [val], 'o': [9.]}).write(f, format='ascii.ecsv', overwrite=True)
        got = L.load_number(f, 'v')
        ctx.step()
        ctx.state(val, un)
        if un is None:
            ctx.check(not isinstance(got, u.Quantity) and got == val, f'{got}')
        else:
            ctx.check(isinstance(got, u.Quantity) and got.unit == u.Unit(un) and got.value == val and got.isscalar, f'{got}')
    for n in (0, 2, 3):
        Table({'v': np.arange(n) * 1.}).write(f, format='ascii.ecsv', overwrite=True)
        ctx.raises(L.DataFileFormatException, lambda: L.load_number(f, 'v'), f'{n} rows')
        t = L.load_table(f)
        ctx.same(list(t['v']), list(np.arange(n) * 1.), 'table')
    t = Table({'a': [1., 2] * u.mm, 'b': ['x', 'y']})
    t.write(f, format='ascii.ecsv', overwrite=True)
    r = L.load_table(f)
    ctx.check(r.colnames == ['a', 'b'] and list(r['b']) == ['x', 'y'] and u.Quantity(r['a']).unit == u.mm, 'table with units')
    os.remove(f)


def scenarios(ctx):
    th = ctx.tier == 'thorough'
    A.load()
    for mi in ('lynx', 'AXIS'):
        yield from C.cases(gas, 'gas', [mi], ['base', 'other', 'reversed'])
        yield from C.cases(trace, 'trace', [mi], ['base', 'other'], [0, -1, -4, -5, 1] + ([-2, -3, -6, -7, 2] if th else []) + ([None] if mi == 'AXIS' else []), list(TILTS))
        yield from C.cases(trace, 'trace', [mi], ['reversed'], [-5], ['on'])
        yield from C.cases(aperture, 'aperture', [mi], ['base', 'other', 'reversed'])
        yield from C.cases(scatter, 'scatter', [mi], ['in', 'perp'])
        yield from C.cases(chirp, 'chirp', [mi])
        yield from C.cases(parts, 'parts', [mi])
    yield from C.cases(align, 'align', ['LynxGAS', 'RowlandDetArray'], ['global', 'individual'])
    yield from C.cases(budget, 'budget', ['default', None, .5, 0.])
    yield from C.cases(loading, 'load')
