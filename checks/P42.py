"""Lattices of rays from many directions around single rods and complete booms, compared with own ray/rod distance
algebra; rays into and between all mirror modules, shells and support structures; single elements of every kind."""
import itertools
import numpy as np
import astropy.units as u
from astropy.table import Table
from mc import rng, zoo
from mc.zoo import PLACES
from . import _common as C


def table(pos, d, energy=1.):
    n = len(pos)
    d = zoo.unit(np.asarray(d, float))
    pol = np.array([zoo.perp(x, .7) for x in d])
    z, o = np.zeros((n, 1)), np.ones((n, 1))
    return Table({'pos': np.hstack([pos, o]), 'dir': np.hstack([d, z]), 'polarization': np.hstack([pol, z]),
                  'energy': np.broadcast_to(energy, n).astype(float), 'time': np.arange(n) * 1., 'probability': np.linspace(.2, 1, n)})


def crosses(p, d, a, b, r):
    """ray p + t d, t > 0 against the curved side of the cylinder with axis a..b and radius r.
    1: hits, 0: does not, -1: too close to call"""
    e = b - a
    L = np.linalg.norm(e)
    e = e / L
    q, w = p - a, d
    qp, wp = q - (q @ e)[:, None] * e, w - (w @ e)[:, None] * e
    A, B, Cc = (wp * wp).sum(1), 2 * (qp * wp).sum(1), (qp * qp).sum(1) - r * r
    out = np.zeros(len(p), int)
    disc = B * B - 4 * A * Cc
    par = A < 1e-18
    with np.errstate(all='ignore'):
        s = np.sqrt(np.maximum(disc, 0))
        for t in ((-B - s) / (2 * A), (-B + s) / (2 * A)):
            x = (q @ e) + t * (w @ e)
            inside = (disc > 0) & (t > 0) & (x > 0) & (x < L) & ~par
            out[inside] = 1
    # distance to undecidable situations
        dist = np.sqrt((qp * qp).sum(1) - (qp * wp).sum(1) ** 2 / A)
        for t in ((-B - s) / (2 * A), (-B + s) / (2 * A)):
            x = (q @ e) + t * (w @ e)
            edge = (disc > 0) & (np.minimum(abs(x), abs(x - L)) < 1e-4) & (t > -1e-6)
            out[edge] = -1
            out[(disc > 0) & (abs(t) < 1e-6) & (x > -1e-4) & (x < L + 1e-4)] = -1
        out[abs(dist - r) < 1e-5] = -1
    out[par] = 0
    return out


DIRS = [(1., 0, 0), (-1., .001, 0), (0, 1., 0), (0, 0, -1.), (1., 1, 0), (.3, -.5, .8), (-.02, 1., .03), (.9, .1, -.1)]


def rays_around(cen, ext, k):
    """lattice of lines through the box around cen, for direction number k"""
    d = zoo.unit(DIRS[k])
    e1 = zoo.perp(d, .3)
    e2 = np.cross(d, e1)
    g = np.linspace(-1, 1, 31) * ext * (1 + .013 * k) + .0137
    h = cen + np.array([a * e1 + b * e2 for a in g for b in g])
    back = np.resize([3 * ext, .5 * ext, -.2 * ext, 10 * ext, 0.], len(h))
    return h - back[:, None] * d, np.tile(d, (len(h), 1))


def verdict(ctx, out, keep, want, msg):
    sure = want >= 0
    hit = (want == 1)
    ctx.check(sure.mean() > .5, 'lattice decides most rays')
    got = np.asarray(out['probability']) == 0
    bad = np.flatnonzero(sure & (got != hit))
    ctx.check(len(bad) == 0, f'{msg}: {len(bad)} photons wrong, first {bad[:3]} blocked {got[bad[:3]]} '
              f'pos {np.array(out["pos"])[bad[:1]].tolist()}')
    free = sure & ~hit
    for c in keep:
        if c in ('pos',):
            ctx.close(np.array(out[c])[free], keep[c][free], f'{msg}: free photons {c}', atol=1e-12)
        elif c in out.colnames:
            ctx.check(np.array_equal(np.array(out[c])[free], keep[c][free]), f'{msg}: free photons {c}')
    ctx.close(np.array(out['dir']), keep['dir'], 'directions')
    ctx.close(np.array(out['energy']), keep['energy'], 'energy')
    if 'hitrod' in out.colnames:
        ctx.check(np.array_equal(np.array(out['hitrod'])[sure], hit[sure]), f'{msg}: flag')
    return hit.sum()


ROD = {'std': (50., 5.), 'thin': (300., .5), 'disk': (2., 40.), 'unit': (1., 1.)}


def rod(ctx, dims, place, k):
    from marxs.missions.arcus.boom import Rod
    half, r = ROD[dims]
    R, p = np.asarray(PLACES[place]['orientation']), np.asarray(PLACES[place]['position'])
    e = Rod(position=list(p), orientation=R, zoom=[half, r, r])
    a = R @ np.array([1., 0, 0])
    # x is the axis of the rod
    for ext in (1.3 * half, 1.5 * r):
        pos, d = rays_around(p, ext, k)
        ph = table(pos, d)
        keep = zoo.columns(ph)
        out = e(ph.copy())
        ctx.step(len(pos))
        ctx.state(dims, place, k, ext)
        w = crosses(pos, d, p - half * a, p + half * a, r)
        verdict(ctx, out, keep, w, f'rod {dims}')
        # a second rod far away leaves everything as it is
        far = Rod(position=list(p + 1e6), zoom=[1, 1, 1.])
        o2 = far(out.copy())
        for c in ('probability', 'hitrod'):
            ctx.check(np.array_equal(np.array(o2[c]), np.array(out[c])), f'second rod changes {c}')


def segs(kind, dims):
    """own construction: corners of the polygon, longerons along x, battens between neighbours, both diagonals"""
    L, B, n, start, stop = dims['l_longeron'], dims['l_batten'], dims['n_sides'], dims['start_bay'], dims['n_bays']
    rad = B / 3**.5 if n == 3 else B / 2**.5
    ph0 = 0. if n == 3 else np.pi / 4
    cor = [np.array([0, rad * np.cos(ph0 + 2 * np.pi * i / n), rad * np.sin(ph0 + 2 * np.pi * i / n)]) for i in range(n)]
    out = []
    x = np.array([1., 0, 0])
    for h in range(start, stop):
        for i in range(n):
            c, nx = cor[i] + h * L * x, cor[(i + 1) % n] + h * L * x
            out.append((c, c + L * x, dims['d_longeron'] / 2))
            out.append((c, nx, dims['d_batten'] / 2))
            out.append((c, nx + L * x, dims['d_diag'] / 2))
            out.append((c + L * x, nx, dims['d_diag'] / 2))
    return out


def boomdims(kind, dims):
    from marxs.missions.arcus import boom
    cls = getattr(boom, kind)
    d = {k: getattr(cls, k) for k in ('l_longeron', 'l_batten', 'n_sides', 'start_bay', 'n_bays', 'd_longeron', 'd_batten', 'd_diag')}
    d.update(dims)
    return cls, d


BOOMS = [('FourSidedBoom', {'n_bays': 2}), ('ThreeSidedBoom', {'n_bays': 2}), ('FourSidedBoom', {'start_bay': 6}),
         ('ThreeSidedBoom', {'start_bay': 3, 'n_bays': 4, 'd_longeron': 200., 'd_batten': 100., 'd_diag': 60.}),
         ('FourSidedBoom', {'n_bays': 1, 'd_longeron': 200., 'd_batten': 100., 'd_diag': 60.}),
         ('FourSidedBoom', {'n_bays': 1, 'l_longeron': 800., 'l_batten': 600., 'l_diag': 1000., 'd_diag': 40.})]


def boom(ctx, ib, place):
    kind, dims = BOOMS[ib]
    cls, full = boomdims(kind, dims)
    before = {k: getattr(cls, k) for k in full}
    R, p = np.asarray(PLACES[place]['orientation']), np.asarray(PLACES[place]['position'])
    b = cls(boom_dimensions=dict(dims), position=list(p), orientation=R)
    own = segs(kind, full)
    ctx.same(len(b.elements), len(own), 'number of rods')
    # rods join the corners; the diagonal of the three sided boom is given with four digits
    tol = 1.5 if kind == 'ThreeSidedBoom' else 1e-6
    ends = []
    for e in b.elements:
        m = e.pos4d
        ends.append(np.concatenate([m[:3, 3] - m[:3, 0], m[:3, 3] + m[:3, 0], [np.linalg.norm(m[:3, 1]), np.linalg.norm(m[:3, 2])]]))
    left = list(range(len(own)))
    for x in ends:
        for j in left:
            a, c, r = own[j]
            a, c = R @ a + p, R @ c + p
            if (np.allclose(x[6:], r) and (np.abs(np.r_[a, c] - x[:6]).max() < tol or np.abs(np.r_[c, a] - x[:6]).max() < tol)):
                left.remove(j)
                break
        else:
            ctx.fail(f'{kind}: rod from {x[:3]} to {x[3:6]} does not join corners of a bay')
    ctx.check(not left, 'all rods present')
    # rays against the rods as placed
    rods = [(x[:3], x[3:6], x[6]) for x in ends]
    L = full['l_longeron']
    cen = R @ np.array([(full['start_bay'] + .6) * L, 0, 0]) + p
    for k in range(len(DIRS)):
        if not ctx.thorough and k % 3 != ib % 3:
            continue
        pos, d = rays_around(cen, .8 * full['l_batten'], k)
        ph = table(pos, d)
        keep = zoo.columns(ph)
        out = b(ph)
        w = np.zeros(len(pos), int)
        for a, c, r in rods:
            x = crosses(pos, d, a, c, r)
            w = np.where((w == 1) | (x == 1), 1, np.where((w == -1) | (x == -1), -1, 0))
        verdict(ctx, out, keep, w, kind)
        ctx.step(len(pos))
        ctx.state(ib, place, k)
    ctx.same({k: getattr(cls, k) for k in full}, before, 'class attributes')
    c2 = cls(boom_dimensions={'n_bays': full['start_bay'] + 1, 'start_bay': full['start_bay']})
    ctx.same(len(c2.elements), 4 * full['n_sides'], 'dimensions of one boom do not leak into the next')
    ctx.raises(Exception, lambda: cls(boom_dimensions={'colour': 3}), 'unknown dimension')


def baffle(ctx, place):
    from marxs.optics import Baffle
    e = Baffle(**zoo.place_kw(place))
    Z = PLACES[place]['zoom']
    for k in range(len(zoo.FRACS) * 4):
        rays, hit = [], []
        for kind in ('hit', 'missy', 'missz', 'back'):
            rays.append(zoo.plane_ray(kind, Z, k))
            hit.append(kind == 'hit')
        hit = np.array(hit)
        ph = zoo.photons(place, rays, prob=np.array([.9, .8, .7, .6]))
        keep = zoo.columns(ph)
        out = e(ph)
        ctx.step()
        ctx.state(place, k)
        ctx.close(np.array(out['probability']), np.where(hit, keep['probability'], 0), 'photons that miss the hole are removed')
        ctx.close(np.array(out['dir']), keep['dir'], 'directions')
        ctx.close(np.array(out['polarization']), keep['polarization'], 'polarization')
        w, _ = C.expected_hit(type('S', (), {'geom': 'plane'}), place, rays[0])
        ctx.close(np.array(out['pos'])[0], w, 'position in the hole', atol=1e-7)


def removal(ctx):
    """support structures remove exactly photons without a facet / module"""
    from marxs.missions.mitsnl.catgrating import catsupportbars
    from marxs.missions.athena.spo import spomounting
    ids = np.array([-1, 0, 5, -1, -2, 1000, 3])
    for r in range(7):
        for perm in itertools.islice(itertools.permutations(range(7)), 0, 5040, 97):
            i = ids[list(perm)][:r]
            t = table(np.zeros((7, 3)) + 1., np.tile([1., 0, 0], (7, 1)))[:r]
            keep = np.array(t['probability'])
            for col, f in (('facet', catsupportbars), ('xou', spomounting)):
                x = t.copy()
                x[col] = i
                o = f(x)
                ctx.close(np.array(o['probability']), np.where(i < 0, 0, keep), f'{col} {i}')
                ctx.check(np.array_equal(np.array(o[col]), i), 'ids')
                ctx.close(np.array(o['pos']), np.array(t['pos']), 'pos')
            o = catsupportbars(t.copy())
            ctx.close(np.array(o['probability']), np.zeros(r), 'no gratings at all')
            ctx.step()
    ctx.state('removal')


def athena(ctx, field):
    """mirror modules: focus of each module, ids, gaps between modules"""
    from marxs.missions.athena import spo
    from marxs.math.utils import xyz2zxy
    geom = spo.spogeom
    n = len(geom)
    refl = lambda e, a, grid=None: .9 - a + 0 * e
    conf = {'reflectivity_interpolator': refl, 'spo_pos4d': spo.spo_pos4d, 'spo_geom': geom,
            'inplanescatter': 0. * u.rad, 'perpplanescatter': 0. * u.rad}
    ang = u.Quantity(geom['clocking_angle']).to(u.rad).value
    rm = (np.array(geom['outer_radius']) + np.array(geom['inner_radius'])) / 2
    f = np.array(geom['focal_length'])
    er = np.stack([np.cos(ang), np.sin(ang), 0 * ang], axis=1)      # modules sit on circles around z; direction found below
    mirror = spo.SimpleSPOs(conf)
    d = zoo.unit((field[0], field[1], -1.))
    # centres: clocking angle is measured from +y (towards +x) for the orientation used on Athena
    er = np.stack([np.sin(ang), np.cos(ang), 0 * ang], axis=1)
    et = np.cross(er, [0, 0, 1.])
    cen = rm[:, None] * er + [0, 0, 12000.]
    h36 = 36 * np.array(geom['plate_height']) / 2
    az = np.array(geom['azwidth']) / 2
    combos = list(itertools.product((-.97, 0., .4, .97), repeat=2)) if ctx.thorough else [(-.97, .4), (0., 0.), (.4, -.97), (.97, .97)]
    for a, b in combos:
        hit = cen + a * az[:, None] * et + b * h36[:, None] * er
        ph = table(hit - 80 * d, np.tile(d, (n, 1)), 1.5)
        keep = zoo.columns(ph)
        with rng.active(rng.Const(.5)):
            out = mirror(ph)
        ctx.step(n)
        ctx.state(field, a, b)
        # overlapping modules would be a different matter; each photon is handled by the module it was aimed at
        ctx.check(np.array_equal(np.array(out['xou']), np.arange(n)), f'module ids {np.flatnonzero(np.array(out["xou"]) != np.arange(n))[:5]}')
        foc = np.array([0, 0, 12000.]) + f[:, None] * d
        w = zoo.unit(foc - hit)
        ctx.close(np.array(out['dir'])[:, :3], w, 'all modules focus to the optical axis', atol=2e-8)
        defl = np.arccos(np.clip(w @ d, -1, 1))
        from scipy.interpolate import interp1d
        t = spo.tab
        e = t['energy'].to(u.keV, equivalencies=u.spectral()).value
        loss = np.interp(1.5, *[np.array(x)[np.argsort(e)] for x in (e, t[t.colnames[1]])])
        ctx.close(np.array(out['probability']), keep['probability'] * (.9 - defl / 4)**2 * .92609 * loss, 'throughput', rtol=1e-6)
    # a later mirror leaves the number of an earlier one on photons that miss it
    first = table(np.concatenate([cen, cen + [3e4, 3e4, 0.]]) - 80 * d, np.tile(d, (2 * n, 1)), 1.5)
    first['xou'] = np.concatenate([np.full(n, -1), np.arange(n)])
    with rng.active(rng.Const(.5)):
        out = mirror(first)
    ctx.step(2 * n)
    ctx.same(np.array(out['xou'])[:n], np.arange(n), 'module ids with existing column')
    ctx.same(np.array(out['xou'])[n:], np.arange(n), 'ids of photons that miss')
    # frame between modules: radially beyond the edge of every module
    worst = 0
    cand = np.concatenate([cen + s * 1.02 * h36[:, None] * er for s in (1, -1)] + [cen + s * 1.02 * az[:, None] * et for s in (1, -1)])
    rel = cand[:, None, :] - cen[None]
    inside = (np.abs((rel * er).sum(2)) < h36 * 1.001) & (np.abs((rel * et).sum(2)) < az * 1.001)
    cand = cand[~inside.any(axis=1)]
    ctx.check(len(cand) > 100, 'rays between modules')
    ph = table(cand - 80 * d, np.tile(d, (len(cand), 1)), 1.5)
    with rng.active(rng.Const(.5)):
        out = mirror(ph)
    ctx.check(np.all(np.array(out['xou']) == -1), 'photons on the frame belong to no module')
    ctx.close(np.array(out['probability']), np.zeros(len(cand)), 'frame absorbs')
    ctx.close(np.array(out['dir'])[:, :3], np.tile(d, (len(cand), 1)), 'direction of absorbed photons', atol=1e-12)


def lynxshells(ctx, part):
    """apertures of the shells and shell efficiencies"""
    from marxs.missions.lynx import mirror
    from astropy.utils.data import get_pkg_data_filename
    geo = Table.read(get_pkg_data_filename('data/metashellgeom.dat', package='marxs.missions.lynx'), format='ascii.ecsv')
    eff = Table.read(get_pkg_data_filename('data/metashelleff.dat', package='marxs.missions.lynx'), format='ascii.ecsv')
    conf = {'metashellgeometry': geo, 'metashelleff': eff, 'focallength': 10000., 'inplanescatter': 0. * u.rad,
            'perpplanescatter': 0. * u.rad}
    sn = np.array(geo['Metashell Serial Number'])
    ri, ro = np.array(geo['r_inner']), np.array(geo['r_outer'])
    n = len(geo)
    if part == 'aperture':
        a = mirror.MetaShellAperture(conf)
        area = np.pi * (ro**2 - ri**2)
        ctx.close(a.area.to(u.mm**2).value, area.sum(), 'area')
        m = 60
        ph = table(np.zeros((m * m, 3)), np.tile([-1., 0, 0], (m * m, 1)))
        ph.remove_column('pos')
        g = np.arange(m * m)
        with rng.active(rng.Rows([(g + .5) / m**2, (g * 7 % (m * m) + .5) / m**2, (g * 11 % (m * m) + .5) / m**2])):
            out = a(ph)
        ctx.step(m * m)
        ctx.state(part)
        p = np.array(out['pos'])
        r = np.hypot(p[:, 1], p[:, 2])
        sh = np.array(out['shell'])
        ctx.close(p[:, 0], np.full(m * m, 10200.), 'distance')
        for i in range(n):
            k = sh == sn[i]
            ctx.check(abs(k.sum() - m * m * area[i] / area.sum()) < 3, f'shell {sn[i]}: share of photons')
            ctx.check(np.all((r[k] > ri[i] - 1e-6) & (r[k] < ro[i] + 1e-6)), f'shell {sn[i]}: radius')
        ctx.check(set(sh) <= set(sn), 'ids')
    else:
        en = np.array(eff['energy'])
        fac = {'efficiency': 1., 'clipped': 2.}[part]
        for c in eff.colnames:
            if c != 'energy':
                eff[c] = np.array(eff[c]) * fac
        m = mirror.MetaShell(conf)
        clipped = 0
        for e in (en[0], en[3], .5 * (en[4] + en[5]), en[-1]):
            sh = np.r_[np.repeat(sn, 3), -1]
            rr = np.r_[np.repeat((ri + ro) / 2, 3), 100.]
            ph_ = np.arange(len(sh)) * .7
            d = zoo.unit((-1., 1e-4, -2e-4))
            hit = np.stack([np.full(len(sh), 10000.), rr * np.cos(ph_), rr * np.sin(ph_)], axis=1)
            ph = table(hit - 200 * d, np.tile(d, (len(sh), 1)), e)
            ph['shell'] = sh
            keep = zoo.columns(ph)
            with rng.active(rng.Const(.5)):
                out = m(ph)
            ctx.step()
            ctx.state(part, float(e))
            want = []
            for s in sh:
                if s == -1:
                    want.append(1.)
                    continue
                i = list(sn).index(s)
                want.append(np.clip(np.interp(e, en, eff[str(s)]) * 100 / (np.pi * (ro[i]**2 - ri[i]**2)), 0, 1))
                clipped += want[-1] == 1
            ctx.close(np.array(out['probability']), keep['probability'] * want, 'efficiency of the shell', rtol=1e-6)
            foc = np.array([10000., 0, 0]) + 1e4 * d
            ctx.close(np.array(out['dir'])[:, :3], zoo.unit(foc - hit), 'focus', atol=1e-8)
        ctx.check((clipped > 0) == (part == 'clipped'), f'harness: {clipped} clipped')


def scenarios(ctx):
    pl = zoo.NAMES if ctx.thorough else ['unit', 'gen', 'tilt']
    yield from C.cases(rod, 'rod', ROD, zoo.NAMES, range(len(DIRS)))
    yield from C.cases(boom, 'boom', range(len(BOOMS)), ['unit', 'gen'])
    yield from C.cases(baffle, 'baffle', zoo.NAMES)
    yield 'removal', removal
    yield from C.cases(athena, 'athena', [(0., 0.), (1e-4, -3e-4), (0., .002)])
    yield from C.cases(lynxshells, 'lynx', ['aperture', 'efficiency', 'clipped'])
