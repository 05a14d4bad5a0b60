"""Orders -3..3 x energies x incidence directions from both sides x groove angles x grating constants (constant and
position dependent) x transmission/reflection x classes x placements; reference: own vector algebra in the local frame."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

HC = 1.2398419843320028e-6     # keV * mm
ORDERS = [-3, -2, -1, 0, 1, 2, 3]
ENERGIES = [.2, .7, 1.5, 6.]
DIRS = [zoo.unit(v) for v in [(-1, 0, 0), (-1, .03, -.02), (-.8, .5, .3), (1, .1, -.05), (1, 0, 0), (-.5, -.6, .62),
                              (-1, -.04, 0), (.9, -.2, -.4), (-.3, .02, .9), (-1, 0, .05), (-1, 2e-5, -1e-5), (-1, -3e-5, 1e-6)]]
HITS = [(.3, -.2), (-.9, .95), (0., 0.), (-.5, -.7)]
DFUNC = {'fine': 2e-4, 'coarse': 5e-3,
         'chirp': lambda ic: 4e-4 * (1 + .1 * ic[:, 0] - .05 * ic[:, 1]),
         'chirp1': lambda ic: np.where(ic[:, 0] > .1, 3e-4, 6e-4)}


class Sel:
    def __init__(self, orders, prob):
        self.orders, self.prob, self.calls = np.asarray(orders), np.asarray(prob, float), []

    def __call__(self, energy, polarization, blaze):
        self.calls.append((np.array(energy), np.array(polarization), np.array(blaze)))
        return self.orders.copy(), self.prob.copy()


def reference(kind, d, g, y, z, p, m, lam, transmission, sign0=1):
    """all in local orthonormal axes (x: normal, y, z). returns direction (or None if evanescent), blaze"""
    const = DFUNC[d]
    const = float(const(np.array([[y, z]]))[0]) if callable(const) else const
    n = np.array([1., 0, 0])
    l = np.array([0, -np.sin(g), np.cos(g)])          # groove direction: z rotated by g about the normal
    a = np.array([0, np.cos(g), np.sin(g)])           # dispersion direction
    shift = m * lam / const
    if kind == 'cat':
        # negative orders are on the blaze side, i.e. where light mirrored on the grating bars goes (-p @ a);
        # for perpendicular rays either sign may be chosen
        shift *= -sign0 if abs(p @ a) < 1e-12 else np.sign(p @ a)
    pa, pl = p @ a + shift, p @ l
    r = 1 - pa ** 2 - pl ** 2
    q = p - (p @ l) * l
    blaze = np.arccos(min(1, abs(q @ n) / np.sqrt(q @ q)))
    if r <= 1e-6:
        return None, blaze
    side = np.sign(p @ n) * (1 if transmission else -1)
    return pa * a + pl * l + side * np.sqrt(r) * n, blaze


def make(kind, **kw):
    from marxs import optics
    from marxs.missions.mitsnl import catgrating as cg
    if kind == 'nonpar':
        return cg.NonParallelCATGrating(d_blaze_mm=3e-3, blaze_center=-4e-3, **kw)
    return {'flat': optics.FlatGrating, 'cat': optics.CATGrating}[kind](**kw)


def flat(ctx, kind, dname, g, transmission, place):
    PLACES['gr'] = dict(PLACES[place], zoom=[.4, 1., 2.])
    rays, en, orders, loc, ins = [], [], [], [], []
    combos = itertools.product(range(len(DIRS)), HITS if callable(DFUNC[dname]) else HITS[:2], ENERGIES, ORDERS)
    refs = []
    model = 'flat' if kind == 'flat' else 'cat'
    for k, h, e, m in combos:
        y, z = h[0] * 1., h[1] * 2.
        r = reference(model, dname, g, y, z, DIRS[k], m, HC / e, transmission)
        if r[0] is None:
            continue
        rays.append((np.array([0, y, z]) - 2. * DIRS[k], DIRS[k]))
        en.append(e)
        orders.append(m)
        loc.append((y, z))
        refs.append(r)
        ins.append(k)
        ctx.state(kind, dname, g, transmission, place, k, h, e, m)
    prob = .1 + .8 * (np.arange(len(rays)) % 7) / 7
    sel = Sel(orders, prob)
    kw = zoo.place_kw('gr')
    if g != 0:
        kw['groove_angle'] = g
    el = make(kind, d=DFUNC[dname], order_selector=sel, transmission=transmission, **kw)
    ph = zoo.photons('gr', rays, energy=en, prob=np.full(len(rays), .5))
    pol0 = np.array(ph['polarization'])
    out = el(ph)
    ctx.step()
    want = zoo.to_global('gr', [r[0] for r in refs], 0)
    blaze = np.array([r[1] for r in refs])
    if kind == 'nonpar':
        blaze = blaze - 4e-3 + 3e-3 * np.array(loc)[:, 0]
    got = np.array(out['dir'])
    bad = np.abs(got - want).max(axis=1) > 1e-7
    if model == 'cat' and bad.any():
        for i in np.flatnonzero(bad):
            r = reference(model, dname, g, *loc[i], DIRS[ins[i]], orders[i], HC / en[i], transmission, sign0=-1)
            if r[0] is not None:
                want[i] = zoo.to_global('gr', [r[0]], 0)[0]
    ctx.close(got, want, 'direction', atol=1e-7)
    ctx.same(np.array(out['order']), np.array(orders), 'order')
    ctx.close(out['blaze'], blaze, 'blaze angle', atol=3e-7)
    ctx.close(out['probability'], .5 * prob, 'probability')
    ctx.close(np.stack([out['grat_y'], out['grat_z']], 1), loc, 'local coordinates', atol=1e-6)
    ctx.same(len(sel.calls), 1, 'number of calls of the order selector')
    ctx.close(sel.calls[0][0], en, 'energy given to order selector')
    ctx.close(sel.calls[0][1], pol0, 'polarization given to order selector')
    ctx.close(sel.calls[0][2], blaze, 'blaze given to order selector', atol=3e-7)


def masked(ctx, kind, place):
    """selector and grating constant see only the photons that hit, in the right order"""
    PLACES['gr'] = dict(PLACES[place], zoom=[.4, 1., 2.])
    for pattern in itertools.product([True, False], repeat=4):
        k = [2, 5, 1, 7]
        rays, refs = [], []
        for i, h in enumerate(pattern):
            y, z = HITS[i][0], HITS[i][1] * 2
            if not h:
                y += 3
            rays.append((np.array([0, y, z]) - 2. * DIRS[k[i]], DIRS[k[i]]))
            refs.append(reference('flat' if kind == 'flat' else 'cat', 'chirp', .3, y, z, DIRS[k[i]], i - 2, HC / ENERGIES[i], True))
        sel = Sel([i - 2 for i in range(4) if pattern[i]], [.2 + .1 * i for i in range(4) if pattern[i]])
        el = make(kind, d=DFUNC['chirp'], order_selector=sel, groove_angle=.3, **zoo.place_kw('gr'))
        out = el(zoo.photons('gr', rays, energy=ENERGIES, prob=np.ones(4)))
        ctx.step()
        ctx.state('masked', kind, place, pattern)
        for i, h in enumerate(pattern):
            want = refs[i][0] if h else DIRS[k[i]]
            ctx.close(out['dir'][i], zoo.to_global('gr', [want], 0)[0], f'direction of photon {i} for hits {pattern}', atol=1e-7)
            ctx.close(out['probability'][i], .2 + .1 * i if h else 1., 'probability')
        blaze = np.array([r[1] for r in refs])
        if kind == 'nonpar':
            blaze = blaze - 4e-3 + 3e-3 * np.array([h[0] for h in HITS])
        idx = np.flatnonzero(pattern)
        mis = np.flatnonzero(~np.array(pattern))
        if len(idx):
            ctx.close(out['blaze'][idx], blaze[idx], 'blaze', atol=3e-7)
            ctx.close(np.stack([out['grat_y'], out['grat_z']], 1)[idx], np.array(HITS)[idx] * [1., 2.], 'local coordinates', atol=1e-6)
            ctx.same(np.array(out['order'][idx], float), idx - 2., 'order')
            for c in ('blaze', 'grat_y', 'grat_z'):
                ctx.check(np.all(np.isnan(np.array(out[c][mis], float))), lambda: f'{c} of missing photons must be NaN')
            ctx.close(sel.calls[0][2], blaze[idx], 'blaze for the selector', atol=3e-7)
        if any(pattern):
            ctx.close(sel.calls[0][0], [e for e, h in zip(ENERGIES, pattern) if h], 'energies for the selector')


def zero(ctx, kind, transmission, place):
    """order 0: direction unchanged (transmission) or specular (reflection), whatever energy, period or groove angle"""
    PLACES['gr'] = dict(PLACES[place], zoom=[.4, 1., 2.])
    for g, dname in itertools.product([0., .4, np.pi / 2, -2.], DFUNC):
        rays = [(np.array([0, .2, -.3]) - 2. * d, d) for d in DIRS]
        el = make(kind, d=DFUNC[dname], groove_angle=g, transmission=transmission,
                  order_selector=Sel(np.zeros(len(DIRS), int), np.ones(len(DIRS))), **zoo.place_kw('gr'))
        out = el(zoo.photons('gr', rays))
        ctx.step()
        ctx.state('zero', kind, transmission, place, g, dname)
        want = np.array(DIRS)
        if not transmission:
            want = want * [-1, 1, 1]
        ctx.close(out['dir'], zoo.to_global('gr', want, 0), 'zeroth order', atol=1e-8)


def cylinder(ctx, kind, g, transmission, place):
    """gratings on a cylinder: local tangential, axial and normal vectors replace the plane system"""
    from marxs.math.geometry import Cylinder
    R, H = 20., 30.
    PLACES['gr'] = dict(PLACES[place], zoom=[R, R, H])
    rays, en, orders, refs, loc = [], [], [], [], []
    for phi, z, k, e, m in itertools.product([-2.5, -.4, .3, 1.7], [-.5, .6], range(4), ENERGIES[:3], ORDERS):
        er = np.array([np.cos(phi), np.sin(phi), 0])
        et = np.array([-np.sin(phi), np.cos(phi), 0])
        ez = np.array([0, 0, 1.])
        hit = R * er + np.array([0, 0, z * H])
        # inside-out direction in (n, t, z)
        d = zoo.unit([(1, 0, 0), (1, .1, -.05), (1, -.3, .2), (1, .02, .4)][k])
        # map local (x: normal, y: tangential, z: axial) of the flat reference to this place
        def loc2tube(v):
            return v[0] * er + v[1] * et + v[2] * ez
        r = reference('flat' if kind == 'flat' else 'cat', 'fine', g, 0, 0, d, m, HC / e, transmission)
        if r[0] is None:
            continue
        d3 = loc2tube(d)
        rays.append((hit - 3. * d3, d3))
        en.append(e)
        orders.append(m)
        refs.append((loc2tube(r[0]), r[1], k, d))
        loc.append((phi, z * H))
        ctx.state('cyl', kind, g, transmission, place, phi, z, k, e, m)
    el = make(kind, d=2e-4, groove_angle=g, transmission=transmission, order_selector=Sel(orders, np.ones(len(orders))),
              geometry=Cylinder, **zoo.place_kw('gr'))
    out = el(zoo.photons('gr', rays, energy=en))
    ctx.step()
    want = zoo.to_global('gr', [r[0] for r in refs], 0)
    got = np.array(out['dir'])
    if kind != 'flat':
        a = np.array([0, np.cos(g), np.sin(g)])
        keep = np.array([abs(r[3] @ a) > 1e-9 for r in refs])
    else:
        keep = np.ones(len(refs), bool)
    ctx.close(got[keep], want[keep], 'direction', atol=1e-7)
    ctx.close(out['blaze'], [r[1] for r in refs], 'blaze', atol=3e-7)
    ctx.close(np.stack([out['grat_y'], out['grat_z']], 1), loc, 'local coordinates', atol=1e-6)


def bad(ctx):
    from marxs import optics
    ctx.state('bad')
    ctx.step()
    ctx.raises(ValueError, lambda: optics.FlatGrating(order_selector=Sel([0], [1])), 'd is required')
    ctx.raises((KeyError, ValueError), lambda: optics.FlatGrating(d=1e-3), 'order selector is required')


GA = [0., .4, -.7, np.pi / 2, 2.]


def scenarios(ctx):
    places = zoo.NAMES
    yield from C.cases(flat, 'flat', ['flat', 'cat', 'nonpar'], list(DFUNC), GA, [True, False], places if ctx.thorough else places[1:3])
    yield from C.cases(flat, 'flat0', ['flat', 'cat', 'nonpar'], ['fine'], GA[:3], [True, False], ['unit', 'flip'])
    yield from C.cases(masked, 'masked', ['flat', 'cat', 'nonpar'], places)
    yield from C.cases(zero, 'zero', ['flat', 'cat', 'nonpar'], [True, False], places)
    yield from C.cases(cylinder, 'cylinder', ['flat', 'cat'], GA, [True, False], places)
    yield 'bad', bad
