"""Each layer of the CAT grating stack on its own (orders x energies x sigma/period with different units; bar geometry x
energies x quantiles; hexagon geometry x incidence angles; Airy widths x energies x quantiles) and the full stack for
orders of membrane and L1 x energies x incidence directions x groove angles x dimension dictionaries x quantiles x
placements, against a layer-by-layer reference with own vector algebra; all facet patterns for the support bars."""
import itertools
import numpy as np
import astropy.units as u
from astropy.table import Table
from scipy import special
from mc import rng, zoo
from mc.zoo import PLACES
from . import _common as C
from .P13 import reference, Sel, HC

EN = [.25, .5, 1.1, 2.]
DIRS = [zoo.unit(v) for v in [(-1, .03, -.02), (-1, -.05, .04), (1, .02, .03), (-.9, .2, .3), (-1, .033, 0.01)]]
HITS = [(.3, -.2), (-.9, .95), (.1, .6), (-.5, -.7)]


def unit_mm(x):
    return x.to_value(u.mm)


DIMS1 = {'default': None,
         'um': {'bardepth': 4 * u.um, 'period': .005 * u.mm, 'barwidth': 900 * u.nm},
         'wide': {'bardepth': 1 * u.um, 'period': 10 * u.um, 'barwidth': 6 * u.um}}
DIMS2 = {'default': None,
         'um': {'bardepth': 500 * u.um, 'period': 1. * u.mm, 'barwidth': 100 * u.um},
         'wide': {'bardepth': .1 * u.mm, 'period': 2. * u.mm, 'barwidth': .7 * u.mm},
         'allum': {'bardepth': 400 * u.um, 'period': 900. * u.um, 'barwidth': 90 * u.um}}
QF = {'default': None, 'um': {'d': .2 * u.um, 'sigma': 7 * u.nm}, 'big': {'d': 200. * u.nm, 'sigma': 20 * u.nm}}


def dims(which, name):
    from marxs.missions.mitsnl import catgrating as cg
    v = {'l1': DIMS1, 'l2': DIMS2, 'qf': QF}[which][name]
    return v or {'l1': cg.l1_dims, 'l2': cg.l2_dims, 'qf': cg.qualityfactor}[which]


def kwd(key, which, name):
    return {} if name == 'default' else {key: dims(which, name)}


def bar_transmission(energy, depth_um):
    from marxs.missions.mitsnl import catgrating as cg
    e = cg.l1transtab['energy'].to(u.keV, equivalencies=u.spectral()).value
    t = np.asarray(cg.l1transtab['transmission'], float)
    i = np.argsort(e)
    with np.errstate(divide='ignore'):
        f = np.exp(np.log(t[i]) * depth_um)
    return np.interp(energy, e[i], f)


def photons(place, k, hits, en, order=None):
    rays = [(np.array([0, y, z * 2]) - 2. * DIRS[i], DIRS[i]) for i in k for y, z in hits for e in en]
    PLACES['gr'] = dict(PLACES[place], zoom=[.4, 1., 2.])
    p = zoo.photons('gr', rays, energy=[e for i in k for h in hits for e in en], prob=np.full(len(rays), .5))
    return p, rays


def quality(ctx, name, place):
    from marxs.missions.mitsnl import catgrating as cg
    d = dims('qf', name)
    r = d['sigma'].to_value(u.nm) / d['d'].to_value(u.nm)
    for order in range(-12, 13):
        p, rays = photons(place, [0, 3], HITS[:2], EN[:2])
        o = np.array([order, -order, 0, order + 1, 1, 2, 3, order])
        p['order'] = o
        keep = zoo.columns(p)
        e = cg.QualityFactor(**kwd('qualityfactor', 'qf', name), **zoo.place_kw('gr'))
        out = C.run(e, p)
        ctx.step()
        ctx.state(name, place, order)
        ctx.close(out['probability'], .5 * np.exp(-(2 * np.pi * r)**2 * o.astype(float)**2), f'order {order}', rtol=1e-9)
        for c in ('dir', 'polarization', 'energy', 'order'):
            ctx.same(np.array(out[c]), keep[c], c + ' changed')


def l1(ctx, name, place, energy):
    from marxs.missions.mitsnl import catgrating as cg
    d = dims('l1', name)
    period, bar = unit_mm(d['period']), unit_mm(d['barwidth'])
    trans = bar_transmission(energy, d['bardepth'].to_value(u.um))
    opn = 1 - bar / period
    for g in (0., np.pi / 2, .3):
        for order in (-2, -1, 0, 1, 4):
            for q in (.001, .4 * opn, opn - 1e-4, opn + 1e-4, .5 * (1 + opn), .9999):
                p, rays = photons(place, range(len(DIRS)), HITS, [energy])
                keep = zoo.columns(p)
                sel = Sel([order] * len(rays), np.linspace(.2, .9, len(rays)))
                e = cg.L1(order_selector=sel, groove_angle=g, **kwd('l1_dims', 'l1', name), **zoo.place_kw('gr'))
                out = C.run(e, p, q)
                ctx.step()
                ctx.state(name, place, energy, g, order, q)
                if q > opn:      # in the bar
                    ctx.close(out['dir'], keep['dir'], 'direction behind the bar', atol=1e-12)
                    ctx.close(out['polarization'], keep['polarization'], 'polarization behind the bar', atol=1e-12)
                    ctx.same(np.array(out['order_L1'], int), np.zeros(len(rays), int), 'order behind the bar')
                    ctx.close(out['probability'], np.full(len(rays), .5 * trans), 'transmission of the bar', rtol=1e-6, atol=1e-300)
                else:
                    ctx.same(np.array(out['order_L1'], int), np.full(len(rays), order), 'order')
                    ctx.close(out['probability'], .5 * sel.prob, 'probability in the open area', rtol=1e-9)
                    check_dir(ctx, out['dir'], rays, period, g, [order] * len(rays), [energy] * len(rays), place)
                for c in ('order', 'blaze'):
                    ctx.check((c in out.colnames) == (c in keep) and (c not in keep or np.array_equal(out[c], keep[c])),
                              'columns of the membrane')


def diffract(pdir, hit, period, g, m, energy, sign0):
    """own vector algebra with constant period"""
    lam = HC / energy
    n = np.array([1., 0, 0])
    l = np.array([0, -np.sin(g), np.cos(g)])
    a = np.array([0, np.cos(g), np.sin(g)])
    s = np.sign(pdir @ a) if abs(pdir @ a) > 1e-12 else -sign0
    pa, pl = pdir @ a + s * m * lam / period, pdir @ l
    r = 1 - pa * pa - pl * pl
    return pa * a + pl * l + np.sign(pdir @ n) * np.sqrt(r) * n


def check_dir(ctx, got, rays, period, g, orders, en, place):
    want = np.array([diffract(r[1], None, period, g, o, e, 1) for r, o, e in zip(rays, orders, en)])
    ctx.close(np.array(got), zoo.to_global('gr', want, 0), 'direction', atol=1e-7)


def l2abs(ctx, name, place):
    from marxs.missions.mitsnl import catgrating as cg
    d = dims('l2', name)
    period, bar, depth = (unit_mm(d[k]) for k in ('period', 'barwidth', 'bardepth'))
    PLACES['gr'] = dict(PLACES[place], zoom=[.4, 1., 2.])
    e = cg.L2Abs(**kwd('l2_dims', 'l2', name), **zoo.place_kw('gr'))
    dirs = [zoo.unit((s, np.tan(t) * np.cos(a), np.tan(t) * np.sin(a))) for s in (-1, 1) for t in np.linspace(0, .5, 11)
            for a in np.arange(8) * np.pi / 4]
    rays = [(np.array([0, *HITS[i % 4]]) - 2 * v, v) for i, v in enumerate(dirs)]
    p = zoo.photons('gr', rays, prob=np.full(len(rays), .5))
    keep = zoo.columns(p)
    out = C.run(e, p)
    ctx.step()
    ctx.state(name, place)
    ang = np.arccos(np.clip(np.abs([v[0] for v in dirs]), 0, 1))
    want = ((period - bar) / period)**2 - depth * (period - bar) * np.sin(ang) / (period**2 * np.sqrt(3) / 2)
    ctx.close(out['probability'], .5 * want, 'shadowed fraction', rtol=1e-6)
    for c in ('dir', 'polarization'):
        ctx.same(np.array(out[c]), keep[c], c)


def l2diff(ctx, name, place, q):
    from marxs.missions.mitsnl import catgrating as cg
    d = dims('l2', name)
    free = unit_mm(d['period']) - unit_mm(d['barwidth'])
    for en in EN:
        p, rays = photons(place, range(len(DIRS)), HITS, [en])
        keep = zoo.columns(p)
        e = cg.L2Diffraction(**kwd('l2_dims', 'l2', name), **zoo.place_kw('gr'))
        out = C.run(e, p, q)
        ctx.step()
        ctx.state(name, place, q, en)
        ang = np.arctan2(np.linalg.norm(np.cross(np.array(out['dir'])[:, :3], keep['dir'][:, :3]), axis=1),
                         (np.array(out['dir']) * keep['dir']).sum(1))
        want = 1.22 * .4 * np.arcsin(HC / en / free) * special.ndtri(q)
        ctx.close(ang, np.full(len(rays), abs(want)), 'scattering angle', rtol=1e-5, atol=1e-10)
        ctx.close(np.abs(np.array(out['L2Diffraction'], float)), np.full(len(rays), abs(want)), 'column', rtol=1e-9)
        ctx.close(out['probability'], np.full(len(rays), .5), 'probability')


class PerPhoton(rng.Engine):
    """one quantile per photon, whether numbers are drawn for all photons or just for those that hit"""
    def __init__(self, q, hit):
        super().__init__()
        self.q1, self.hit = np.asarray(q), np.asarray(hit, bool)

    def quant(self, shape):
        if shape == (len(self.q1),):
            return self.q1
        if shape == (int(self.hit.sum()),):
            return self.q1[self.hit]
        return np.full(shape, .5)


def mixed(ctx, layer, place, n):
    """lists with photons that hit or miss, all with their own energy and random number"""
    from marxs.missions.mitsnl import catgrating as cg
    PLACES['gr'] = dict(PLACES[place], zoom=[.4, 1., 2.])
    en = np.array([.25, .5, 1.1, 2., .8])[:n]
    d1, d2 = dims('l1', 'default'), dims('l2', 'default')
    period, bar = unit_mm(d1['period']), unit_mm(d1['barwidth'])
    p2, b2, dep2 = (unit_mm(d2[k]) for k in ('period', 'barwidth', 'bardepth'))
    opn = 1 - bar / period
    alphabet = [.3 * opn, .5 * (1 + opn)] if layer == 'L1' else [.1, .8]
    small = [zoo.unit((-1, .3e-2 * i, .1e-2 * i)) for i in range(n)]
    for hit in itertools.product([True, False], repeat=n):
        for q in itertools.product(alphabet, repeat=n):
            if any(not h and x == alphabet[1] for h, x in zip(hit, q)):
                continue
            dirs = small if layer == 'shadow' else [DIRS[i % len(DIRS)] for i in range(n)]
            rays = [(np.array([0, HITS[i % 4][0] + (0 if h else 7), HITS[i % 4][1] * 2]) - 2. * dirs[i], dirs[i]) for i, h in enumerate(hit)]
            p = zoo.photons('gr', rays, energy=en, prob=np.full(n, .5))
            keep = zoo.columns(p)
            if layer == 'L1':
                e = cg.L1(order_selector=Sel([1] * sum(hit), [.3] * sum(hit)), **zoo.place_kw('gr'))
            else:
                e = {'diff': cg.L2Diffraction, 'shadow': cg.L2Abs}[layer](**zoo.place_kw('gr'))
            with rng.active(PerPhoton(q, hit)):
                out = e(p)
            ctx.step()
            ctx.state(layer, place, hit, q)
            got = np.array(out['dir'])
            for i, h in enumerate(hit):
                pr = out['probability'][i]
                tilt = np.arctan2(np.linalg.norm(np.cross(got[i, :3], keep['dir'][i, :3])), got[i] @ keep['dir'][i])
                if not h:
                    ctx.close(pr, .5, 'probability of a miss')
                    ctx.close(got[i], keep['dir'][i], 'direction of a miss')
                elif layer == 'L1':
                    if q[i] > opn:
                        ctx.close(pr, .5 * bar_transmission(en[i], d1['bardepth'].to_value(u.um)), f'{hit} {q}: photon {i} in the bar', rtol=1e-6, atol=1e-300)
                        ctx.close(got[i], keep['dir'][i], 'direction behind the bar')
                    else:
                        ctx.close(pr, .15, f'{hit} {q}: photon {i} in the open area')
                        check_dir(ctx, got[i:i + 1], rays[i:i + 1], period, 0., [1], en[i:i + 1], place)
                elif layer == 'diff':
                    want = 1.22 * .4 * np.arcsin(HC / en[i] / (p2 - b2)) * special.ndtri(q[i])
                    ctx.close(tilt, abs(want), f'{hit} {q}: photon {i}', rtol=1e-5, atol=1e-10)
                else:
                    s = np.sqrt(1 - dirs[i][0]**2)
                    ctx.close(pr, .5 * (((p2 - b2) / p2)**2 - dep2 * (p2 - b2) * s / (p2**2 * np.sqrt(3) / 2)), f'{hit}: photon {i}', rtol=1e-6)
                    ctx.close(got[i], keep['dir'][i], 'direction')


def stack(ctx, place, n1, n2, nq, g):
    from marxs.missions.mitsnl import catgrating as cg
    d1, d2, dq = dims('l1', n1), dims('l2', n2), dims('qf', nq)
    p1, b1 = unit_mm(d1['period']), unit_mm(d1['barwidth'])
    opn = 1 - b1 / p1
    period2, bar2, depth2 = (unit_mm(d2[k]) for k in ('period', 'barwidth', 'bardepth'))
    rq = dq['sigma'].to_value(u.nm) / dq['d'].to_value(u.nm)
    for d in (None, 4e-4):
        for mo, lo in itertools.product([-3, 0, 1], [-4, 0, 1]):
            for q in (.05, .6 * opn, .5 * (1 + opn)):
                p, rays = photons(place, range(len(DIRS)), HITS[:2], EN)
                en = np.array(p['energy'])
                dd = d or .0002
                ok = []
                for (x, v), e in zip(rays, en):
                    r, blaze = reference('cat', 'fine', g, 0, 0, v, mo, HC / e * (.0002 / dd), True)
                    ok.append(r)
                sel = np.array([r is not None for r in ok])
                p = p[sel]
                rays = [r for r, s in zip(rays, sel) if s]
                en, mid = en[sel], [r for r in ok if r is not None]
                keep = zoo.columns(p)
                s1 = Sel([mo] * len(rays), np.linspace(.2, .9, len(rays)))
                s2 = Sel([lo] * len(rays), np.linspace(.6, .3, len(rays)))
                kw = {} if d is None else {'d': d}
                if g:
                    kw['groove_angle'] = g
                e = cg.CATL1L2Stack(order_selector=s1, l1_order_selector=s2, **kwd('l1_dims', 'l1', n1),
                                    **kwd('l2_dims', 'l2', n2), **kwd('qualityfactor', 'qf', nq), **kw,
                                    **zoo.place_kw('gr'))
                out = C.run(e, p, q)
                ctx.step()
                ctx.state(place, n1, n2, nq, g, d, mo, lo, q)
                ctx.same(np.array(out['order'], int), np.full(len(rays), mo), 'order')
                bar = q > opn
                prob = s1.prob * np.exp(-(2 * np.pi * rq)**2 * mo**2)
                if bar:
                    fin = mid
                    prob = prob * bar_transmission(en, d1['bardepth'].to_value(u.um))
                else:
                    fin = [diffract(m, None, p1, np.pi / 2 + g, lo, x, 1) for m, x in zip(mid, en)]
                    prob = prob * s2.prob
                ctx.same(np.array(out['order_L1'], int), np.full(len(rays), 0 if bar else lo), 'L1 order')
                ang = np.arccos(np.clip(np.abs([f[0] for f in fin]), 0, 1))
                prob = prob * (((period2 - bar2) / period2)**2 - depth2 * (period2 - bar2) * np.sin(ang) /
                               (period2**2 * np.sqrt(3) / 2))
                ctx.close(out['probability'], .5 * prob, f'{mo} {lo} {q}: probability', rtol=1e-6)
                fin = zoo.to_global('gr', fin, 0)
                got = np.array(out['dir'])
                tilt = np.arctan2(np.linalg.norm(np.cross(got[:, :3], fin[:, :3]), axis=1), (got * fin).sum(1))
                sig = 1.22 * .4 * np.arcsin(HC / en / (period2 - bar2))
                ctx.close(tilt, np.abs(sig * special.ndtri(q)), f'{mo} {lo} {q}: direction up to L2 blur', rtol=1e-3, atol=2e-8)
                hit = zoo.to_global('gr', [x + 2. * v for x, v in rays], 1)
                ctx.close(out['pos'], hit, 'position', rtol=1e-9, atol=1e-6)
                pol = np.array(out['polarization'])
                ctx.close((pol * got).sum(1), np.zeros(len(rays)), 'polarization perpendicular', atol=1e-8)
                ctx.close((pol**2).sum(1), (keep['polarization']**2).sum(1), 'polarization length', rtol=1e-8)


def supports(ctx, n):
    from marxs.missions.mitsnl.catgrating import catsupportbars
    for pat in itertools.product([-9, -1, 0, 5], repeat=n):
        for col in (True, False):
            t = Table({'probability': np.linspace(.2, .9, n), 'other': np.arange(n)})
            if col:
                t['facet'] = np.array(pat, int)
            out = catsupportbars(t.copy())
            ctx.step()
            ctx.state(pat, col)
            ctx.same(sorted(out.colnames), sorted(t.colnames), 'columns')
            want = [p if col and f >= 0 else 0. for p, f in zip(t['probability'], pat)]
            ctx.close(np.array(out['probability'], float), np.array(want), 'probability')
            ctx.same(np.array(out['other']), np.arange(n), 'other columns')


def setup(ctx, which):
    from marxs.missions.mitsnl import catgrating as cg
    from marxs.optics import OrderSelector
    mk = {'L1': lambda d: cg.L1(order_selector=OrderSelector([0]), l1_dims=d), 'L2Abs': lambda d: cg.L2Abs(l2_dims=d),
          'L2Diffraction': lambda d: cg.L2Diffraction(l2_dims=d),
          'stack1': lambda d: cg.CATL1L2Stack(order_selector=OrderSelector([0]), l1_dims=d),
          'stack2': lambda d: cg.CATL1L2Stack(order_selector=OrderSelector([0]), l2_dims=d)}[which]
    for p, b in itertools.product([1, 2., .5, 1500.], repeat=2):
        for pu, bu in itertools.product([u.um, u.mm], repeat=2):
            d = {'bardepth': 1 * u.um, 'period': p * pu, 'barwidth': b * bu}
            ctx.step()
            ctx.state(which, p, b, str(pu), str(bu))
            if (b * bu).to_value(u.mm) >= (p * pu).to_value(u.mm):
                ctx.raises(ValueError, lambda: mk(d), f'{d}')
            else:
                mk(d)


def scenarios(ctx):
    pl = ['unit', 'gen', 'tilt', 'zxy', 'flip'] if ctx.thorough else ['gen', 'tilt']
    yield from C.cases(quality, 'quality', QF, pl)
    yield from C.cases(l1, 'L1', DIMS1, pl, EN)
    yield from C.cases(l2abs, 'L2 shadow', DIMS2, zoo.NAMES)
    yield from C.cases(l2diff, 'L2 diffraction', DIMS2, pl, [.01, .3, .5, .8])
    yield from C.cases(mixed, 'mixed', ['L1', 'diff', 'shadow'], pl, [1, 3, 4] + ([5] if ctx.thorough else []))
    if ctx.thorough:
        yield from C.cases(stack, 'stack', pl, DIMS1, DIMS2, QF, [0., .02, -.3])
    else:
        yield from C.cases(stack, 'stack', pl, ['default', 'wide'], ['um', 'default'], ['default', 'big'], [0., .02])
    yield from C.cases(supports, 'supports', [0, 1, 2, 3, 4])
    yield from C.cases(setup, 'setup', ['L1', 'L2Abs', 'L2Diffraction', 'stack1', 'stack2'])
