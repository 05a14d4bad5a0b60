"""Complete products of quantiles for the six draws of a misalignment x sigma and offset vectors; single gratings and
stacks at several places bent to several radii and probed with lattices of rays (own cylinder and diffraction algebra);
chirp of gratings at several positions, inclinations, energies, orders and detectors, also repeated with changed settings."""
import itertools
import numpy as np
from mc import rng, zoo
from mc.zoo import PLACES
from . import _common as C

SIG = {'zero': ((0, 0, 0), (0, 0, 0)), 'lin': ((.1, 2., .03), (0, 0, 0)), 'rot': ((0, 0, 0), (.1, .02, .3)),
       'all': ((1., .5, .2), (.01, .3, .02)), 'list': ([1, 2, 3], [.1, .2, .3])}
OFF = {'none': {}, 'scalar': {'trans_offset': 5., 'rot_offset': .2}, 'vec': {'trans_offset': [1., -2, 3], 'rot_offset': [.1, 0, -.3]},
       'array': {'trans_offset': np.array([0, 0, 7.])}}


def uncertainty(ctx, sig, off):
    from marxs.design.uncertainties import generate_facet_uncertainty
    from scipy.special import ndtri
    alpha = [.02, .5, .9]
    t, r = SIG[sig]
    kw = OFF[off]
    with rng.active(rng.Grid([3] * 6, alpha)):
        out = generate_facet_uncertainty(729, t, r, **kw)
    ctx.step(729)
    ctx.state(sig, off)
    ctx.same(len(out), 729, 'number of matrices')
    z = ndtri(alpha)
    to, ro = (np.broadcast_to(np.asarray(kw.get(k, 0.), float), 3) for k in ('trans_offset', 'rot_offset'))
    want = []
    for c in itertools.product(range(3), repeat=6):
        tr = [to[i] + t[i] * z[c[i]] for i in range(3)]
        an = [ro[i] + r[i] * z[c[3 + i]] for i in range(3)]
        m = np.eye(4)
        m[:3, :3] = zoo.rot_z(an[2]) @ zoo.rot_y(an[1]) @ zoo.rot_x(an[0])
        m[:3, 3] = tr
        want.append(m.ravel())
    key = lambda a: a[np.lexsort(np.round(a, 7).T)]
    ctx.close(key(np.array([np.asarray(m).ravel() for m in out])), key(np.array(want)), 'misalignment matrices', atol=1e-6)
    for n in (0, 1, 2, 5):
        with rng.active(rng.Const(.5)):
            out = generate_facet_uncertainty(n, t, r, **kw)
        ctx.same(len(out), n, 'number of matrices')


# ------------------------------------------------------------------ bending
def cyl_hits(rays, radius, half, dphi):
    """grating bent around the axis at x=-radius (through y=0, parallel z): nearest forward intersection"""
    out = []
    for p, d in rays:
        q = np.array([p[0] + radius, p[1]])
        w = d[:2]
        a, b, c = w @ w, q @ w, q @ q - radius**2
        disc = b * b - a * c
        best = None
        if disc > 0:
            # numerically stable roots
            s = -(b + np.copysign(np.sqrt(disc), b))
            for t in sorted((s / a, c / s)):
                h = p + t * d
                phi = np.arctan2(h[1], h[0] + radius)
                if t >= 0 and abs(phi) <= dphi and abs(h[2]) <= half:
                    best = (t, h, phi)
                    break
        out.append(best)
    return out


def diffract(d, n, l, m, wave, period, sign):
    """grating equation in the frame groove l, normal n, dispersion"""
    e = np.cross(l, n)
    pd, pl = d @ e + sign * m * wave / period, d @ l
    pn = np.sign(d @ n) * np.sqrt(1 - pd**2 - pl**2)
    return pd * e + pl * l + pn * n


def bend(ctx, place, radius, kind):
    from marxs.design.bendgratings import bend_gratings
    from marxs.optics import FlatGrating, OrderSelector, FlatStack, EnergyFilter
    zoom = [1., 12., 7.]
    PLACES['gr'] = dict(PLACES[place], zoom=zoom)
    groove = .3
    per = 1e-3
    gk = {'order_selector': OrderSelector([1]), 'd': per, 'groove_angle': groove}
    kw = zoo.place_kw('gr')
    if kind == 'single':
        e = FlatGrating(**gk, **kw)
    else:
        e = FlatStack(elements=[FlatGrating, EnergyFilter], keywords=[gk, {'filterfunc': lambda x: .5 + 0 * x}], **kw)
    other = FlatGrating(**gk, **kw)
    # flat reference for the sign convention of orders
    d0 = np.array([-1., 0, 0])
    ph = zoo.photons('gr', [(np.array([5., 0, 0]), d0)], energy=np.array([1.]))
    flat = C.run(other, ph.copy())
    disp_before = other.display.get('shape')
    bend_gratings([e], radius)
    dphi = np.arctan(zoom[1] / radius)
    l = np.array([0, np.sin(-groove), np.cos(-groove)])
    wave = 1.2398419843320025e-6
    rays = []
    for a, b in itertools.product((-1.02, -.98, -.5, 0., .3, .98, 1.02), (-1.03, -.97, 0., .5, .97, 1.03)):
        phi = a * dphi
        h = np.array([radius * (np.cos(phi) - 1), radius * np.sin(phi), b * zoom[2]])
        for k, d in enumerate(([-1., 0, 0], zoo.unit([-1., .1, -.05]), zoo.unit([-.9, -.2, .1]), zoo.unit([1., .05, 0]))):
            d = np.asarray(d, float)
            rays.append((h - [2., 15.][k % 2] * d, d))
    hits = cyl_hits(rays, radius, zoom[2], dphi)
    ph = zoo.photons('gr', rays, energy=np.ones(len(rays)), prob=np.ones(len(rays)))
    keep = zoo.columns(ph)
    out = C.run(e, ph)
    ctx.step(len(rays))
    ctx.state(place, radius, kind)
    isin = np.array([h is not None for h in hits])
    moved = np.abs(np.array(out['pos']) - keep['pos']).max(axis=1) > 1e-9
    ctx.check(np.array_equal(moved, isin), f'bent surface hit by the wrong photons {np.flatnonzero(moved != isin)[:5]}')
    wp = zoo.to_global('gr', [h[1] for h in hits if h], 1)
    ctx.close(np.array(out['pos'])[isin], wp, 'position on the cylinder', rtol=1e-9, atol=1e-7 * (1 + radius * 1e-2))
    # orientation of the order is that of the flat grating
    f = np.array(flat['dir'])[0, :3] @ np.asarray(PLACES['gr']['orientation'])
    sgn = np.sign(f @ np.cross(l, [1., 0, 0]))
    want = []
    for (p, d), h in zip(rays, hits):
        if h is None:
            continue
        phi = h[2]
        n = np.array([np.cos(phi), np.sin(phi), 0])
        t = np.array([-np.sin(phi), np.cos(phi), 0])
        lo = np.sin(-groove) * t + np.cos(-groove) * np.array([0, 0, 1.])
        want.append(diffract(d, n, lo, 1, wave, per, sgn))
    ctx.close(np.array(out['dir'])[isin], zoo.to_global('gr', want, 0), 'diffracted direction', atol=1e-8)
    ctx.close(np.array(out['probability'])[isin], np.full(isin.sum(), 1. if kind == 'single' else .5), 'probability')
    for c in ('pos', 'dir', 'probability', 'polarization'):
        ctx.close(np.array(out[c])[~isin], keep[c][~isin], 'photons that miss ' + c)
    # the grating that was not in the list is as before
    flat2 = C.run(other, zoo.photons('gr', [(np.array([5., 0, 0]), d0)], energy=np.array([1.])))
    ctx.close(np.array(flat2['dir']), np.array(flat['dir']), 'other grating')
    ctx.same(other.display.get('shape'), disp_before, 'display of other grating')
    ctx.same(FlatGrating(**gk, **kw).display.get('shape'), disp_before, 'display of a grating made afterwards')


def bendmany(ctx):
    """gratings bent in one call or one after the other give the same"""
    from marxs.design.bendgratings import bend_gratings
    from marxs.optics import FlatGrating, OrderSelector, FlatStack
    def make(i):
        return FlatStack(elements=[FlatGrating], keywords=[{'order_selector': OrderSelector([1]), 'd': 1e-3, 'groove_angle': .1 * i}],
                         position=[1000., 100. * i, 0], zoom=[1, 5. + i, 3.], orientation=zoo.rot_z(.1 * i))
    a, b, c = ([make(i) for i in range(3)] for j in range(3))
    bend_gratings(a, 500.)
    for g in b:
        bend_gratings([g], 500.)
    bend_gratings(c[::-1], 500.)
    pos = np.array([[1020., 100. * i + y, z, 1] for i in range(3) for y in (-4., 0, 3) for z in (-2., 2)])
    from astropy.table import Table
    def run(gs):
        res = []
        for g in gs:
            t = Table({'pos': pos, 'dir': np.tile([-1., 0, 0, 0], (18, 1)), 'energy': np.ones(18), 'polarization': np.tile([0, 1., 0, 0], (18, 1)),
                       'probability': np.ones(18)})
            o = C.run(g, t)
            res.append(np.hstack([np.array(o['pos']), np.array(o['dir'])]))
        return np.array(res)
    ra, rb, rc = run(a), run(b), run(c)
    ctx.close(ra, rb, 'one by one')
    ctx.close(ra, rc, 'order of gratings')
    ctx.step(3)
    ctx.state('many')


# ------------------------------------------------------------------ chirp
class Screen:
    """detector far away, measures a coordinate"""

    def __init__(self, col, axis, x):
        self.col, self.axis, self.x = col, np.asarray(axis, float), x

    def __call__(self, photons):
        p, d = np.array(photons['pos'])[:, :3], np.array(photons['dir'])[:, :3]
        t = (self.x - p[:, 0]) / d[:, 0]
        photons[self.col] = (p + t[:, None] * d) @ self.axis
        return photons


CHIRP = {'std': dict(pos=(1000., 80., 5.), tilt=.03, order=-3, energy=.6, col='detcirc_phi'),
         'energy': dict(pos=(1000., 80., 5.), tilt=.03, order=-3, energy=2., col='detcirc_phi'),
         'plus': dict(pos=(2000., -200., 50.), tilt=-.05, order=2, energy=1., col='sx'),
         'frac': dict(pos=(1500., 300., 0.), tilt=.04, order=-5.4, energy=.8, col='sx')}


def chirp(ctx, name, flavour):
    from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
    from marxs.optics import FlatGrating, CATGrating, OrderSelector
    c = CHIRP[name]
    cls = {'flat': FlatGrating, 'cat': CATGrating}[flavour]
    cen = np.array(c['pos'])
    base = 2e-4
    zoom = [1., 25., 30.]

    def grating(shift=0., d=base):
        here = cen + [0, shift, 0]
        ex = zoo.unit(here)
        ez = zoo.unit(np.cross(ex, [0, 1., 0]))
        R = np.stack([ex, np.cross(ez, ex), ez], axis=1) @ zoo.rot_z(c['tilt'])
        return cls(order_selector=OrderSelector([0, 7]), d=d, position=list(here), orientation=R, zoom=zoom)

    g1, g2 = grating(), grating(40.)
    sel = [g1.order_selector, g2.order_selector]
    screen = Screen(c['col'], (0, 1., 0), 0.)
    opt = NumericalChirpFinder(screen, c['order'], c['energy'], d=base, colname=c['col'])
    chirp_gratings([g1, g2], opt, base)
    ctx.check(g1.order_selector is sel[0] and g2.order_selector is sel[1], 'order selector restored')

    def spots(g, us, vs=(0.,), energy=c['energy'], chirped=True):
        G = np.array(g.pos4d)
        out = []
        for u, v in itertools.product(us, vs):
            h = G[:3, 3] + u * G[:3, 1] + v * G[:3, 2]
            d = -zoo.unit(h)
            t = zoo.photons('unit', [(h * 1.1, d)], energy=np.array([energy]))
            if chirped:
                use, old = g, g.order_selector
                use.order_selector = OrderSelector([c['order']])
            else:
                use = cls(order_selector=OrderSelector([c['order']]), d=base, pos4d=np.array(g.pos4d))
            o = screen(C.run(use, t))
            if chirped:
                g.order_selector = old
            out.append(o[c['col']][0])
        return np.array(out)

    for g in (g1, g2):
        goal = spots(g, [0.], chirped=False)[0]
        plain = spots(g, [-.999, -.5, .5, .999], chirped=False)
        spread = np.abs(plain - goal).max()
        fit = spots(g, [-.999, 0., .999])
        ctx.check(np.all(np.abs(fit - goal) < 1e-5 + 1e-3 * spread), f'{name}: rays do not meet at the position of the central ray '
                  f'({np.abs(fit - goal)}, without chirp {spread})')
        mid = spots(g, [-.7, -.5, .3, .8])
        ctx.check(np.all(np.abs(mid - goal) < 1e-5 + .1 * spread), f'{name}: positions between fitted points {np.abs(mid - goal)} vs {spread}')
        ctx.check(spread > 1e-3, 'chirp matters in this setup')
        # the period does not vary along the grooves
        y = np.array([[a * zoom[1], b * zoom[2]] for a in (-.9, 0, .6) for b in (-.9, -.2, .9)])
        per = np.asarray(g.d(y)).reshape(3, 3)
        ctx.close(per, np.tile(per[:, :1], (1, 3)), 'period varies across', rtol=1e-9)
        ctx.close(np.asarray(g.d(np.zeros((1, 2)))), [base], 'period in the centre', rtol=1e-6)
        ctx.step(20)
    ctx.state(name, flavour)
    # repeat with a new order selector: that one is kept, and the result does not depend on what was done before
    per1 = np.asarray(g1.d(y))
    g1.order_selector = new = OrderSelector([3])
    chirp_gratings([g1], opt, base)
    ctx.check(g1.order_selector is new, 'order selector set between two calls is restored')
    ctx.close(np.asarray(g1.d(y)), per1, 'repeated chirp', rtol=1e-7)
    # the optimizer is called by hand first, or the grating had another period before
    g4, g5 = grating(), grating(d=base * 1.3)
    sel4, sel5 = g4.order_selector, g5.order_selector
    opt(g4)
    opt(g4)
    chirp_gratings([g4, g5], opt, base)
    ctx.check(g4.order_selector is sel4 and g5.order_selector is sel5, 'order selector restored after the optimizer was used by hand')
    ctx.close(np.asarray(g4.d(y)), per1, 'chirp after the optimizer was used by hand', rtol=1e-7)
    ctx.close(np.asarray(g5.d(y)), per1, 'chirp of a grating with another period', rtol=1e-7)
    ctx.step(4)
    # finer grids of positions
    g3 = grating()
    u = np.array([-.999, -.4, 0., .5, .999])
    try:
        chirp_gratings([g3], opt, base, uarray=u)
    except Exception as e:
        ctx.fail(f'more positions: {e!r}')
    g = g3
    goal = spots(g, [0.], chirped=False)[0]
    fit = spots(g, u)
    ctx.check(np.all(np.abs(fit - goal) < 1e-5 + 3e-3 * spread), f'five positions {np.abs(fit - goal)}')


def scenarios(ctx):
    yield from C.cases(uncertainty, 'uncertainty', SIG, OFF)
    pl = zoo.NAMES
    yield from C.cases(bend, 'bend', pl, [30., 200., 5000.], ['single', 'stack'])
    yield 'bendmany', bendmany
    yield from C.cases(chirp, 'chirp', CHIRP, ['flat', 'cat'])
