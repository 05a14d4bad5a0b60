"""Rays from inside, outside and on either side of tubes (full, cut open, wrapping over pi, elliptical) in many
directions; reference solves for both wall crossings and picks the first valid one."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

LIMS = {'full': None, 'half': [-np.pi / 2, np.pi / 2], 'wide': [-2., 2.5], 'narrow': [.3, .5],
        'wrap': [2.5, -2.], 'neg': [-3., -.5], 'twopi': [0., 2 * np.pi], 'beyond': [3 * np.pi / 4, 5 * np.pi / 4]}
SHAPES = {'round': [2., 2., 5.], 'flat': [40., 40., 1.], 'ell': [2., 3., 4.], 'tall': [.5, .5, 90.]}


def dirs(n):
    out = []
    for k in range(n):
        z = -1 + (2 * k + 1.) / n
        ph = 2.399963 * k + .1
        out.append(np.array([np.sqrt(1 - z * z) * np.cos(ph), np.sqrt(1 - z * z) * np.sin(ph), z]))
    out += [zoo.unit(v) for v in [(1, .01, 0), (-1, .2, .05), (0, 1, .1), (.3, -1, 0), (-.7, -.7, -.1), (1, 1, 0.02)]]
    return out


def inlim(phi, lim):
    if lim is None:
        return True
    lo, hi = lim
    if abs(abs(hi - lo) - 2 * np.pi) < 1e-12:
        return True
    w = (hi - lo) % (2 * np.pi)
    return (phi - lo) % (2 * np.pi) <= w


def margin(phi, lim):
    if lim is None or abs(abs(lim[1] - lim[0]) - 2 * np.pi) < 1e-12:
        return 1.
    return min(abs((phi - b + np.pi) % (2 * np.pi) - np.pi) for b in lim)


def reference(pos, d, zoom, lim):
    """returns (ambiguous, hit, t, phi, z)"""
    zoom = np.asarray(zoom, float)
    p, q = pos / zoom, d / zoom
    a, b, c = q[:2] @ q[:2], 2 * (p[:2] @ q[:2]), p[:2] @ p[:2] - 1
    if a < 1e-18:
        return False, False, np.nan, np.nan, np.nan
    disc = b * b - 4 * a * c
    if abs(disc) < 1e-9 * max(1, b * b):
        return True, False, 0, 0, 0
    if disc < 0:
        return False, False, np.nan, np.nan, np.nan
    amb = False
    for t in sorted([(-b - np.sqrt(disc)) / (2 * a), (-b + np.sqrt(disc)) / (2 * a)]):
        h = p + t * q
        phi = np.arctan2(h[1], h[0])
        if min(abs(t) / (1 + abs(t)), abs(abs(h[2]) - 1), margin(phi, lim)) < 1e-8:
            return True, False, 0, 0, 0
        if t >= 0 and abs(h[2]) <= 1 and inlim(phi, lim):
            return False, True, t, phi, h[2] * zoom[2]
    return amb, False, np.nan, np.nan, np.nan


def lattice(ctx, shape, lname, place, prev=None, how=None):
    from marxs.math.geometry import Cylinder
    zoom = np.array(SHAPES[shape])
    lim = LIMS[lname]
    PLACES['cyl'] = dict(PLACES[place], zoom=zoom)
    kw = zoo.place_kw('cyl')
    if lim is not None:
        kw['phi_lim'] = list(lim)
    g = Cylinder(kw)
    if prev is not None:
        # used with another place and size before
        PLACES['cyl0'] = dict(PLACES[prev], zoom=np.array(SHAPES['ell']))
        g = Cylinder(dict(zoo.place_kw('cyl0'), **({} if lim is None else {'phi_lim': list(lim)})))
        c0 = np.tile([*PLACES[prev]['position'], 1.], (9, 1))
        g.intersect(np.array([[*d, 0.] for d in dirs(9)[:9]]), c0)
        g.parametric_surface()
        if how == 'assign':
            g.pos4d = zoo.pos4d('cyl')
        else:
            g.pos4d[:] = zoo.pos4d('cyl')
    starts = [(0, 0, 0), (.3, -.4, .5), (-.8, .1, -.9), (2., .3, .2), (-1.5, -1.5, 0), (.2, 3., 1.5), (0, -1.2, -.7), (.1, .2, -2.5)]
    pos, dr = [], []
    for s, d in itertools.product(starts, dirs(24 if not ctx.thorough else 150)):
        pos.append(np.array(s) * zoom)
        dd = d * zoom if shape in ('flat', 'tall') else d
        dr.append(zoo.unit(dd))
    ref = [reference(p, d, zoom, lim) for p, d in zip(pos, dr)]
    keep = [i for i, r in enumerate(ref) if not r[0]]
    P = zoo.to_global('cyl', [pos[i] for i in keep], 1)
    D = zoo.to_global('cyl', [dr[i] for i in keep], 0)
    p0, d0 = P.copy(), D.copy()
    inter, ipos, iloc = g.intersect(D, P)
    ctx.step()
    ctx.same(P, p0, 'input modified')
    ctx.same(D, d0, 'input modified')
    for j, i in enumerate(keep):
        amb, hit, t, phi, z = ref[i]
        ctx.state(shape, lname, place, i, hit)
        if bool(inter[j]) != hit:
            ctx.fail(f'ray {pos[i]} -> {dr[i]} (local mm): reported {inter[j]}, expected {hit} at phi={phi} z={z}')
        if hit:
            w = zoo.to_global('cyl', [pos[i] + t * dr[i]], 1)[0]
            ctx.close(ipos[j], w, f'point of ray {pos[i]} -> {dr[i]}', atol=1e-6 * (1 + np.abs(w).max()))
            ctx.close(iloc[j], [phi, z], f'local coordinates of ray {pos[i]} -> {dr[i]}', atol=1e-6 * (1 + zoom.max()), rtol=1e-7)
        else:
            ctx.check(np.all(np.isnan(ipos[j][:3])) and np.all(np.isnan(iloc[j])), 'missing rays must be NaN')
    ctx.check(sum(ref[i][1] for i in keep) > 0, 'vacuous')
    # local frame input
    lp = np.array([np.append(pos[i] / zoom, 1) for i in keep])
    ld = np.array([np.append(dr[i] / zoom, 0) for i in keep])
    i2, ip2, il2 = g.intersect(ld, lp, transform=False)
    ctx.same(i2, inter, 'local input')
    ctx.close(il2[i2], iloc[inter], 'local input: local coordinates', atol=1e-6 * (1 + zoom.max()))


def surface(ctx, shape, lname, place):
    from marxs.math.geometry import Cylinder
    zoom = np.array(SHAPES[shape])
    lim = LIMS[lname]
    PLACES['cyl'] = dict(PLACES[place], zoom=zoom)
    kw = zoo.place_kw('cyl')
    if lim is not None:
        kw['phi_lim'] = list(lim)
    g = Cylinder(kw)
    R = np.asarray(PLACES[place]['orientation'])
    phi = np.linspace(-3., 3., 13)
    z = np.array([-.5, 0., .3, 1.]) * zoom[2]
    xyz = g.parametric_surface(phi, z)
    ctx.step()
    ctx.state('surface', shape, lname, place)
    ctx.same(xyz.shape, (13, 4, 4), 'shape of parametric surface')
    for i, j in itertools.product(range(13), range(4)):
        w = zoo.to_global('cyl', [[zoom[0] * np.cos(phi[i]), zoom[1] * np.sin(phi[i]), z[j]]], 1)[0]
        ctx.close(xyz[i, j], w, 'parametric surface', atol=1e-8 * (1 + np.abs(w).max()))
    xyz = g.parametric_surface()
    lo, hi = lim if lim is not None else (-np.pi, np.pi)
    for k, ph in ((0, lo), (-1, hi)):
        for l, zz in ((0, -1), (-1, 1)):
            w = zoo.to_global('cyl', [[zoom[0] * np.cos(ph), zoom[1] * np.sin(ph), zz * zoom[2]]], 1)[0]
            ctx.close(xyz[k, l], w, 'rim of parametric surface', atol=1e-7 * (1 + np.abs(w).max()))
    e1, e2, n = g.get_local_euklid_bases(np.array([phi, 0 * phi]).T)
    ctx.step()
    for i in range(13):
        t = zoo.unit(R @ np.array([-zoom[0] * np.sin(phi[i]), zoom[1] * np.cos(phi[i]), 0]))
        nn = zoo.unit(R @ np.array([np.cos(phi[i]) / zoom[0], np.sin(phi[i]) / zoom[1], 0]))
        ctx.close(e1[i], np.append(t, 0), 'tangential base vector')
        ctx.close(e2[i], np.append(R[:, 2], 0), 'axial base vector')
        ctx.close(n[i], np.append(nn, 0), 'normal')
    if shape == 'round':
        ctx.close(g['R'], zoom[0], 'radius')


def detector(ctx, lname, place):
    """the optical element on the same surface"""
    from marxs.optics import CircularDetector
    zoom = np.array(SHAPES['round'])
    lim = LIMS[lname]
    PLACES['cyl'] = dict(PLACES[place], zoom=zoom)
    kw = zoo.place_kw('cyl')
    if lim is not None:
        kw['phi_lim'] = list(lim)
    det = CircularDetector(pixsize=.25, **kw)
    rays = []
    for s, d in itertools.product([(0, 0, 0.), (.3, -.4, .5), (2., .3, .2)], dirs(24)):
        p = np.array(s) * zoom
        r = reference(p, d, zoom, lim)
        if not r[0]:
            rays.append((p, d, r))
    out = det(zoo.photons('cyl', [r[:2] for r in rays]))
    ctx.step()
    ctx.state('det', lname, place)
    for i, (p, d, r) in enumerate(rays):
        if r[1]:
            ctx.close([out['det_phi'][i], out['det_y'][i]], r[3:5], 'local', atol=1e-7)
            ctx.close([out['detpix_x'][i], out['detpix_y'][i]], [r[3] * zoom[0] / .25, r[4] / .25], 'pixel', atol=1e-6)
        else:
            ctx.check(np.isnan(out['det_phi'][i]) and np.isnan(out['detpix_x'][i]), 'missed')


def badinput(ctx):
    from marxs.math.geometry import Cylinder
    g = Cylinder({})
    ctx.step()
    ctx.state('bad')
    ctx.raises(ValueError, lambda: g.intersect(np.array([[1., 0, 0, 1]]), np.array([[0, 0, 0, 1.]])), 'position instead of direction')
    ctx.raises(ValueError, lambda: g.parametric_surface(np.eye(2), np.eye(2)), '2d input')


def scenarios(ctx):
    yield from C.cases(lattice, 'lattice', list(SHAPES), list(LIMS), zoo.NAMES)
    yield from C.cases(lattice, 'moved', list(SHAPES), ['full', 'wide'], zoo.NAMES, ['gen', 'flip'], ['assign', 'inplace'])
    yield from C.cases(surface, 'surface', list(SHAPES), ['full', 'wide', 'narrow'], zoo.NAMES)
    yield from C.cases(detector, 'detector', list(LIMS), ['unit', 'gen'])
    yield 'badinput', badinput
