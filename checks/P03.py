"""All chains of 2 (thorough: 3) elements over the registry with photons of all incoming probabilities; the factor
of an element is independent of the incoming probability; complete table of out-of-range answers of models."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C
from . import _chain


def visit(ctx, spec, names, before, after):
    p0, p1 = before['probability'], after['probability']
    ctx.check(np.all(np.isfinite(p1)), lambda: f'{names}: probability not finite {p1}')
    ctx.check(np.all((p1 >= 0) & (p1 <= 1)), lambda: f'{names}: probability outside 0..1 {p1}')
    ctx.check(np.all(p1 <= p0 * (1 + 1e-14)), lambda: f'{names}: probability increased {p0} -> {p1}')
    ctx.check(np.all(p1[p0 == 0] == 0), lambda: f'{names}: zero probability revived')


def chains(ctx, spec, specs, depth):
    _chain.explore(ctx, spec, specs, depth, visit)


def factor(ctx, spec, place):
    zoom = PLACES[place]['zoom']
    elem = spec.make(**zoo.place_kw(place))
    kinds = ['hit', 'hit', 'missy', 'hit', 'hit', 'back']
    rays = [C.ray_for(spec, k, zoom, i, place) for i, k in enumerate(kinds)]
    base = None
    for pr in itertools.product([1., .5, 0.], repeat=2):
        prob = np.array([pr[i % 2] for i in range(6)])
        out = C.run(elem, zoo.photons(place, rays, prob=prob), .3)
        one = C.run(elem, zoo.photons(place, rays, prob=np.ones(6)), .3)
        f1 = one['probability'].data
        ctx.step(2)
        ctx.state(spec.name, place, pr)
        ctx.close(out['probability'].data, prob * f1, 'outgoing probability is incoming times factor', rtol=1e-12, atol=1e-300)
        # nothing else depends on the incoming probability, also not for photons absorbed before
        ctx.same(sorted(out.colnames), sorted(one.colnames), 'columns')
        for c in one.colnames:
            if c != 'probability':
                ctx.same(np.asarray(out[c].data), np.asarray(one[c].data), f'{c} must not depend on the incoming probability')


def normal_incidence(ctx, spec):
    """rays exactly along the normal for many orientations: rounding must not create NaN"""
    if spec.geom == 'cyl' or spec.props.get('oblique'):
        return
    bad = []
    n = 0
    for a, b, c in itertools.product(np.linspace(-3, 3, 6 if not ctx.thorough else 25), repeat=3):
        R = zoo.rot_z(a) @ zoo.rot_y(b) @ zoo.rot_x(c)
        zoo.PLACES['tmp'] = dict(position=[1., 2., 3.], orientation=R, zoom=[1., 2., 2.])
        d = np.array([-1., 0, 0])
        ph = zoo.photons('tmp', [(np.array([5., 0, 0]), d), (np.array([5., .7, .1]), d)])
        ph['probability'] = 1.
        elem = spec.make(**zoo.place_kw('tmp'))
        out = C.run(elem, ph, .3)
        n += 1
        ctx.step()
        p = out['probability'].data
        if not (np.all(np.isfinite(p)) and np.all(p >= 0) and np.all(p <= 1) and
                np.all(np.isfinite(out['dir'].data)) and np.all(np.isfinite(out['polarization'].data))):
            bad.append((a, b, c, p, out['dir'].data.tolist()))
    ctx.state('normal', spec.name, n)
    ctx.check(not bad, lambda: f'{len(bad)}/{n} orientations give invalid photons at normal incidence, first: {bad[0]}')


def outofrange(ctx, kind):
    from marxs.optics import EnergyFilter, GlobalEnergyFilter
    from marxs.optics.base import FlatOpticalElement
    vals = [-.1, -1e-9, 0., .4, 1., 1. + 1e-9, 1.7]
    for v in itertools.product(vals, repeat=2):
        bad = any((x < 0) or (x > 1) for x in v)
        rays = [C.plane_hit(i) for i in range(2)]
        ph = zoo.photons('unit', rays, prob=[.5, .8])
        if kind == 'EnergyFilter':
            e = EnergyFilter(filterfunc=lambda en: np.array(v), zoom=[1, 2, 3])
        elif kind == 'GlobalEnergyFilter':
            e = GlobalEnergyFilter(filterfunc=lambda en: np.array(v))
        elif kind == 'vectorised':
            class X(FlatOpticalElement):
                def specific_process_photons(self, photons, intersect, interpos, intercoos):
                    return {'probability': np.array(v)}
            e = X(zoom=[1, 2, 3])
        else:
            it = iter(v)

            class X(FlatOpticalElement):
                def process_photon(self, dir, pos, energy, polarization):
                    return dir, pos, energy, polarization, next(it)
            e = X(zoom=[1, 2, 3])
        ctx.step()
        ctx.state(kind, v)
        if bad:
            ctx.raises(ValueError, lambda: e(ph), f'{kind} with probabilities {v}')
        else:
            out = e(ph)
            ctx.close(out['probability'].data, np.array(v) * [.5, .8], f'{kind} {v}')


def globalfilter(ctx):
    from marxs.optics import GlobalEnergyFilter
    f = GlobalEnergyFilter(filterfunc=lambda e: np.asarray(e) / 2)
    for en in itertools.product([.2, 1., 2.], repeat=3):
        ph = zoo.photons('unit', [C.plane_hit(i) for i in range(3)], energy=en, prob=[1, .5, 0])
        b = zoo.columns(ph)
        a = zoo.columns(f(ph))
        ctx.step()
        ctx.state('glob', en)
        for c in b:
            if c == 'probability':
                ctx.close(a[c], b[c] * np.array(en) / 2, 'global filter')
            else:
                ctx.same(a[c], b[c], c)


def scenarios(ctx):
    specs = zoo.specs()
    depth = 3 if ctx.thorough else 2
    yield from C.cases(lambda c, s: chains(c, s, specs, depth), 'chain', specs)
    yield from C.cases(factor, 'factor', specs, ['gen', 'zxy', 'tilt'] if not ctx.thorough else zoo.NAMES)
    yield from C.cases(normal_incidence, 'normal', specs)
    yield from C.cases(outofrange, 'range', ['EnergyFilter', 'GlobalEnergyFilter', 'vectorised', 'single'])
    yield 'globalfilter', globalfilter
