"""Product grids of quantiles for both position draws x shapes (rectangle, disk, ring, sector, ring sector) x placements x
incoming directions (on axis to grazing to from behind) x incoming probabilities; multi-apertures with 1..8 members x
complete grids (plus extremes) for the aperture choice."""
import itertools
import numpy as np
import astropy.units as u
from astropy.table import Table
from mc import rng, zoo
from mc.zoo import PLACES
from . import _common as C

SHAPES = {'sq': ('rect', [1., 2., 2.], {}), 'rect': ('rect', [.3, 5., .2], {}), 'disk': ('circ', [1., 2., 2.], {}),
          'ring': ('circ', [1., 4., 4.], {'r_inner': 3.}), 'sector': ('circ', [1., 3., 3.], {'phi': [.3, 2.]}),
          'cross': ('circ', [.5, 3., 3.], {'phi': [-1., .5]}), 'ringsec': ('circ', [1., 4., 4.], {'r_inner': 1., 'phi': [2., 5.5]}),
          'thin': ('circ', [1., 10., 10.], {'r_inner': 9.999}), 'over': ('circ', [1, 2., 2.], {'phi': [5.5, 7.5], 'r_inner': .5})}
INC = [zoo.unit(v) for v in [(-1, 0, 0), (-1, .1, 0), (-1, -.5, .7), (-.02, .9, .4), (1, .1, 0), (0, 1, 0), (0, .6, .8)]]


def make(shape, place, **kw):
    from marxs.optics import RectangleAperture, CircleAperture
    kind, zoom, ex = SHAPES[shape]
    PLACES['ap'] = dict(PLACES[place], zoom=zoom)
    k = zoo.place_kw('ap')
    k.update({a: (list(b) if isinstance(b, list) else b) for a, b in ex.items()})
    k.update(kw)
    return {'rect': RectangleAperture, 'circ': CircleAperture}[kind](**k)


def area(shape):
    kind, zoom, ex = SHAPES[shape]
    if kind == 'rect':
        return 4 * zoom[1] * zoom[2]
    p = ex.get('phi', [0, 2 * np.pi])
    return (p[1] - p[0]) / 2 * (zoom[1] ** 2 - ex.get('r_inner', 0.) ** 2)


def photons(n, dirs, place, prob=None):
    d = np.array([dirs[i % len(dirs)] for i in range(n)]).reshape(n, 3)
    t = Table({'dir': zoo.to_global(place, d, 0), 'energy': np.linspace(1, 2, n), 'time': np.arange(n) * 1.,
               'polarization': np.array([np.append(zoo.perp(x, .3), 0) for x in zoo.to_global(place, d, 0)[:, :3]]).reshape(n, 4),
               'probability': np.ones(n) if prob is None else prob})
    t.meta['A'] = 3
    return t


def local(place, pos):
    p = PLACES[place]
    return (np.array(pos)[:, :3] - np.asarray(p['position'])) @ np.asarray(p['orientation'])


def uniform(ctx, shape, loc, n, tag):
    """n*n positions of the product grid"""
    kind, zoom, ex = SHAPES[shape]
    g = (np.arange(n) + .5) / n
    if kind == 'rect':
        for a, b, h, hb in ((loc[:, 1], loc[:, 2], zoom[1], zoom[2]), (loc[:, 2], loc[:, 1], zoom[2], zoom[1])):
            o = np.argsort(a, kind='stable')
            ctx.close(np.sort(a), np.repeat((2 * g - 1) * h, n), f'{tag}: coordinate not uniform', atol=1e-7 * (1 + h))
            ctx.close(np.sort(b[o].reshape(n, n), axis=1), np.tile((2 * g - 1) * hb, (n, 1)), f'{tag}: coordinates not independent', atol=1e-7 * (1 + hb))
    else:
        r = np.hypot(loc[:, 1], loc[:, 2])
        lo, hi = ex.get('phi', [0, 2 * np.pi])
        phi = (np.arctan2(loc[:, 2], loc[:, 1]) - lo) % (2 * np.pi)
        ri = ex.get('r_inner', 0.)
        ctx.close(np.sort(r ** 2), np.repeat(ri ** 2 + g * (zoom[1] ** 2 - ri ** 2), n), f'{tag}: radii not uniform in area', atol=1e-6)
        o = np.argsort(r, kind='stable')
        ctx.close(np.sort(phi[o].reshape(n, n), axis=1), np.tile(g * (hi - lo), (n, 1)), f'{tag}: angles not uniform', atol=1e-6)


def positions(ctx, shape, place):
    n = 12 if not ctx.thorough else 40
    ap = make(shape, place)
    for k in range(len(INC) + 1):
        dirs = INC if k == len(INC) else [INC[k]]
        prob = None if k % 2 == 0 else .1 + .9 * (np.arange(n * n) % 5) / 5
        ph = photons(n * n, dirs, 'ap', prob)
        keep = zoo.columns(ph)
        g = np.arange(n * n)
        with rng.active(rng.Rows([(g // n + .5) / n, (g % n + .5) / n])):
            out = ap(ph)
        ctx.step()
        ctx.state(shape, place, k)
        ctx.same(len(out), n * n, 'number of photons')
        pos = np.array(out['pos'])
        ctx.close(pos[:, 3], np.ones(n * n), 'homogeneous')
        loc = local('ap', pos)
        ctx.close(loc[:, 0], np.zeros(n * n), 'positions on the aperture plane', atol=1e-8 * (1 + np.abs(pos).max()))
        uniform(ctx, shape, loc, n, f'{shape} {place}')
        # the columns with local coordinates belong to the position (relative to the size of the aperture or in mm)
        if {'y', 'z'} <= set(out.colnames):
            got = np.column_stack([out['y'], out['z']])
            zy = np.array(PLACES['ap']['zoom'])[1:]
            tol = 1e-6 * (1 + np.abs(pos).max())
            ctx.check(np.all(np.abs(got - loc[:, 1:]) <= tol) or np.all(np.abs(got * zy - loc[:, 1:]) <= tol),
                      f'{shape} {place}: columns y and z are not the local coordinates of the position')
        cosang = np.clip(np.array([-dirs[i % len(dirs)][0] for i in range(n * n)]), 0, 1)
        ctx.close(out['probability'], keep['probability'] * cosang, 'projected area', atol=1e-9)
        for c in keep:
            if c != 'probability':
                ctx.same(np.asarray(out[c]), keep[c], f'column {c}')
        ctx.same(out.meta['A'], 3, 'metadata')
    # extremes of the random numbers stay on the aperture
    ex = [0., rng.ONE, .5, 1e-12]
    qq = np.array(list(itertools.product(ex, ex)))
    with rng.active(rng.Rows([qq[:, 0], qq[:, 1]])):
        out = ap(photons(len(qq), INC[:1], 'ap'))
    ctx.step()
    loc = local('ap', out['pos'])
    kind, zoom, kw = SHAPES[shape]
    if kind == 'rect':
        ctx.check(np.all(abs(loc[:, 1:]) <= np.array(zoom[1:]) * (1 + 1e-9)), 'extremes outside')
    else:
        r = np.hypot(loc[:, 1], loc[:, 2])
        ctx.check(np.all(r <= zoom[1] * (1 + 1e-9)) and np.all(r >= kw.get('r_inner', 0) * (1 - 1e-9)), 'extremes outside')
    with rng.active(rng.Const(.5)):
        ctx.same(len(ap(photons(0, INC, 'ap'))), 0, 'empty list')


def areas(ctx, shape, place):
    ap = make(shape, place)
    ctx.step()
    ctx.state('area', shape, place)
    ctx.close(ap.area.to(u.mm**2).value, area(shape), 'area', rtol=1e-9)
    ctx.close(ap.area.to(u.cm**2).value, area(shape) / 100, 'unit of area', rtol=1e-9)


def ident(ctx, shape):
    ap = make(shape, 'gen', id_col='ap', id_num=7)
    with rng.active(rng.Const(.3)):
        out = ap(photons(3, INC, 'ap'))
    ctx.step()
    ctx.state('id', shape)
    ctx.same(list(out['ap']), [7, 7, 7], 'id')
    # a photon list which has a position from an earlier run
    ph = photons(3, INC, 'ap')
    ph['pos'] = np.full((3, 4), 55.)
    ph['pos'][:, 3] = 1
    with rng.active(rng.Const(.3)):
        out2 = ap(ph)
    ctx.close(out2['pos'], out['pos'], 'old positions')


def reject(ctx):
    from marxs.optics import CircleAperture
    ctx.state('reject')
    for kw in [dict(zoom=[1, 2, 3]), dict(zoom=2, r_inner=2.1), dict(zoom=2, phi=[2, 1]), dict(zoom=2, phi=[0, 360]), dict(zoom=2, phi=[-.1, 6.3])]:
        ctx.step()
        ctx.raises(Exception, lambda: CircleAperture(**kw), str(kw))


def multi_members(k):
    return {'one': ['sq'], 'two': ['sq', 'disk'], 'three': ['rect', 'ring', 'sector'], 'same': ['sq', 'sq', 'sq'],
            'six': ['disk', 'ring', 'cross', 'ringsec', 'sq', 'thin']}[k]


def multi(ctx, mname, offset, idcol):
    from marxs.optics.aperture import MultiAperture
    names = multi_members(mname)
    places = zoo.NAMES
    els, pl = [], []
    for i, s in enumerate(names):
        els.append(make(s, places[i % 4]))
        PLACES[f'ap{i}'] = dict(PLACES['ap'])
        pl.append(f'ap{i}')
    kw = {}
    if idcol:
        kw['id_col'] = idcol
    if offset:
        kw['id_num_offset'] = offset
    ma = MultiAperture(elements=els, **kw)
    A = np.array([area(s) for s in names])
    ctx.close(ma.area.to(u.mm**2).value, A.sum(), 'area of all apertures')
    ctx.same(len(ma.elements), len(names), 'elements')
    n = 600
    d = zoo.unit((-1, .2, -.4))
    ph = photons(n, [d], 'unit', np.full(n, .5))
    g = np.arange(n)
    rows = [(g + .5) / n, (g * .6180339887498949 + .2) % 1, (g * .4142135623730951) % 1, (g * .7320508075688772) % 1]
    with rng.active(rng.Rows(rows)):
        out = ma(ph)
    ctx.step()
    ctx.state('multi', mname, offset, idcol)
    num = np.asarray(out[idcol or 'aperture'])
    ctx.check(np.all((num >= offset) & (num < offset + len(names))), f'photons without aperture: ids {sorted(set(num.tolist()))}')
    dg = np.array(out['dir'])[0, :3]
    for i, s in enumerate(names):
        sel = num == offset + i
        ctx.check(abs(sel.sum() - n * A[i] / A.sum()) <= 1 + 1e-6, f'aperture {i} ({s}) has {sel.sum()} photons, expected {n * A[i] / A.sum()}')
        if not sel.any():
            continue
        p = PLACES[pl[i]]
        loc = local(pl[i], out['pos'][sel])
        ctx.close(loc[:, 0], np.zeros(sel.sum()), 'photon not on the plane of its aperture', atol=1e-7 * (1 + np.abs(p['position']).max()))
        kind, zoom, ex = SHAPES[s]
        if kind == 'rect':
            ctx.check(np.all(abs(loc[:, 1:]) <= np.array(zoom[1:]) * (1 + 1e-7)), 'photon outside of its aperture')
        else:
            r = np.hypot(loc[:, 1], loc[:, 2])
            lo, hi = ex.get('phi', [0, 2 * np.pi])
            ctx.check(np.all((r <= zoom[1] + 1e-7) & (r >= ex.get('r_inner', 0.) - 1e-7)), 'photon outside of its aperture')
            ctx.check(np.all(((np.arctan2(loc[:, 2], loc[:, 1]) - lo + 1e-7) % (2 * np.pi)) <= hi - lo + 2e-7), 'photon outside of its sector')
        c = np.clip(-dg @ np.asarray(p['orientation'])[:, 0], 0, 1)
        ctx.close(np.asarray(out['probability'])[sel], np.full(sel.sum(), .5 * c), 'probability by the aperture of the photon', atol=1e-9)
    # the choice does not follow the order of the photon list only through the shuffle
    with rng.active(rng.Const(.5)):
        ctx.same(len(ma(photons(0, INC, 'unit'))), 0, 'empty list')
    # extremes of the choice
    for q in [0., rng.EPS, rng.ONE] + [x for b in np.cumsum(A) / A.sum() for x in (b - 1e-12, min(b, rng.ONE), min(b + 1e-12, rng.ONE))]:
        with rng.active(rng.Const(min(q, rng.ONE))):
            o = ma(photons(2, [d], 'unit'))
        ctx.step()
        num = np.asarray(o[idcol or 'aperture'])
        ctx.check(np.all((num >= offset) & (num < offset + len(names))), f'photon without aperture for random number {q!r}')
        want = np.searchsorted(np.cumsum(A) / A.sum(), q)
        ctx.check(np.all(abs(num - offset - want) <= 1), f'aperture {num} for random number {q!r}')


def equal(ctx, n):
    """n apertures of (nearly) the same size: no random number may fall between them"""
    from marxs.optics import RectangleAperture
    from marxs.optics.aperture import MultiAperture
    for a, grow in itertools.product([.1, .3, .7, 1.3, 3.7], [0., .1, .37]):
        els = [RectangleAperture(zoom=[1, a, a * (1 + grow * i)], position=[0, 10. * i, 0]) for i in range(n)]
        ma = MultiAperture(elements=els)
        for q in (0., rng.ONE, 1 - 2 * rng.EPS, .999999):
            with rng.active(rng.Const(q)):
                o = ma(photons(2, INC[:1], 'unit'))
            ctx.step()
            ctx.state('equal', n, a, grow, q)
            k = np.asarray(o['aperture'])
            ctx.check(np.all(k == (0 if q == 0 else n - 1)), f'aperture {k} of {n} for random number {q!r}')
            ctx.close(o['probability'], [1., 1.], 'probability')


def multi_steps(ctx):
    """pre- and postprocess steps run around each aperture on just the photons of that aperture"""
    from marxs.optics import RectangleAperture
    from marxs.optics.aperture import MultiAperture
    ctx.state('steps')
    seen = []

    def step(photons):
        seen.append(len(photons))

    def half(photons):
        photons['probability'] *= .5
    ma = MultiAperture(elements=[RectangleAperture(), RectangleAperture(position=[0, 9, 0])], preprocess_steps=[step], postprocess_steps=[half])
    with rng.active(rng.Script([.1, .7])):
        out = ma(photons(4, INC[:1], 'unit'))
    ctx.step()
    ctx.close(out['probability'], np.full(4, .5), 'every photon passes one aperture, so it sees each step once')
    ctx.same(sum(seen), 4, 'number of photons seen by the preprocess step')


def multi_order(ctx):
    """steps are called around every aperture in order"""
    from marxs.optics import RectangleAperture
    from marxs.optics.aperture import MultiAperture
    log = []
    ma = MultiAperture(elements=[RectangleAperture(), RectangleAperture(position=[0, 9, 0])], preprocess_steps=[lambda p: log.append('a'), lambda p: log.append('b')],
                       postprocess_steps=[lambda p: log.append('c')])
    with rng.active(rng.Const(.4)):
        ma(photons(4, INC[:1], 'unit'))
    ctx.step()
    ctx.state('order')
    ctx.same(log, ['a', 'b', 'c', 'a', 'b', 'c'], 'order of steps')


def independent(ctx, sizes, n):
    """which aperture a photon passes does not depend on its place in the list or on the other photons"""
    from marxs.optics import RectangleAperture
    from marxs.optics.aperture import MultiAperture
    ma = MultiAperture(elements=[RectangleAperture(zoom=[1, 1, s], position=[0, 9. * i, 0]) for i, s in enumerate(sizes)])
    k = sum(sizes)
    g = (np.arange(k) + .5) / k
    m = {2: k, 3: 2}[n]
    count = {}
    for a in itertools.product(g, repeat=n):
        for b in itertools.product((np.arange(m) + .5) / m, repeat=n):
            with rng.active(rng.Rows([np.array(a), np.array(b), np.full(n, .3), np.full(n, .6), np.full(n, .8)])):
                o = ma(photons(n, INC[:1], 'unit'))
            key = tuple(np.asarray(o['aperture']).tolist())
            count[key] = count.get(key, 0) + 1
    tot = k**n * m**n
    ctx.step(tot)
    ctx.state('independent', sizes, n)
    for key in itertools.product(range(len(sizes)), repeat=n):
        want = tot * np.prod([sizes[i] / k for i in key])
        ctx.close(count.get(key, 0), want, f'photons {key}', rtol=1e-9)


def used(ctx, first, i, zoom):
    """apertures that are changed after they have been used"""
    from marxs.optics import RectangleAperture, CircleAperture
    from marxs.optics.aperture import MultiAperture
    from transforms3d.affines import compose
    els = [RectangleAperture(zoom=[1, 1., 2.]), CircleAperture(zoom=[1, 2., 2.], position=[0, 9, 0]), RectangleAperture(zoom=[1, 3., 1.], position=[0, 20, 0])]
    ma = MultiAperture(elements=els)
    size = [8., np.pi * 4, 12.]
    if first in ('call', 'both'):
        with rng.active(rng.Const(.4)):
            ma(photons(3, INC[:1], 'unit'))
    if first in ('area', 'both'):
        ctx.close(ma.area.to_value(u.mm**2), sum(size), 'area')
    els[i].geometry.pos4d = compose([0, 9. * i, 0], np.eye(3), [1, zoom, zoom])
    size[i] = zoom**2 * (4 if i != 1 else np.pi)
    ctx.close(ma.area.to_value(u.mm**2), sum(size), 'area after the change')
    n = 500
    q = (np.arange(n) + .5) / n
    with rng.active(rng.Rows([q, (q * 7.3) % 1, (q * 3.7 + .1) % 1, (q * 91.3) % 1])):
        o = ma(photons(n, INC[:1], 'unit'))
    ctx.step()
    ctx.state('used', first, i, zoom)
    num = np.asarray(o['aperture'])
    for j in range(3):
        ctx.check(abs((num == j).sum() - n * size[j] / sum(size)) <= 1.001, f'aperture {j} has {(num == j).sum()} photons')
    y = np.asarray(o['pos'])[num == i, 1] - 9 * i
    ctx.check(np.all(abs(y) <= zoom * (1 + 1e-9)) and np.abs(y).max(initial=0.) > .8 * zoom * ((num == i).sum() > 60) - 1e-9, 'size of the changed aperture')


def scenarios(ctx):
    yield from C.cases(independent, 'independent', [(1, 3), (1, 1), (1, 2, 1)], [2])
    yield from C.cases(independent, 'independent', [(1, 2), (1, 1, 1)], [3])
    yield from C.cases(used, 'used', ['none', 'call', 'area', 'both'], [0, 1, 2], [.5, 4.])
    yield from C.cases(positions, 'positions', list(SHAPES), zoo.NAMES)
    yield from C.cases(areas, 'area', list(SHAPES), zoo.NAMES)
    yield from C.cases(ident, 'id', list(SHAPES))
    yield 'reject', reject
    yield from C.cases(multi, 'multi', ['one', 'two', 'three', 'same', 'six'], [0, 100], [None, 'mirror'])
    yield from C.cases(equal, 'equal', [2, 3, 5, 6, 7, 8, 10, 12])
    yield 'multi_steps', multi_steps
    yield 'multi_order', multi_order
