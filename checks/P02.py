"""All permutations and all subsets (including the empty one and singletons) of a pool of hitting and missing
photons, for every element class and placement and several answers of the random number generator; all pairs of a pool
of photons that differ in one property only; long lists against blocks, single rows and permutations of them."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C


def group(ctx, spec, place, q, n):
    zoom = PLACES[place]['zoom']
    elem = spec.make(id_col='eid', id_num=5, **zoo.place_kw(place))
    kinds = ['hit', 'missy', 'hit', 'hit', 'back', 'hit'][:n]
    rays = [C.ray_for(spec, k, zoom, i, place) for i, k in enumerate(kinds)]
    full = zoo.photons(place, rays)
    ref = zoo.columns(C.run(elem, full.copy(), q))
    idx = [list(p) for p in itertools.permutations(range(n))]
    idx += [list(s) for k in range(n) for s in itertools.combinations(range(n), k)]
    for sel in idx:
        out = C.run(elem, full[sel].copy(), q)
        ctx.step()
        ctx.state(spec.name, place, q, sel)
        ctx.same(len(out), len(sel), 'length')
        o = zoo.columns(out)
        for c in o:
            if c not in ref:
                ctx.fail(f'column {c} appears only for subset')
            w = ref[c][sel]
            if o[c].dtype.kind == 'f':
                ctx.close(o[c], w, f'rows {sel}: column {c}', rtol=1e-9, atol=1e-11)
            else:
                ctx.check(np.array_equal(o[c], w), f'rows {sel}: column {c}')


def _compare(ctx, elem, full, selections, q):
    ref = zoo.columns(C.run(elem, full.copy(), q))
    for sel in selections:
        o = zoo.columns(C.run(elem, full[sel].copy(), q))
        ctx.step()
        ctx.same(len(o['probability']), len(sel), 'length')
        for c in o:
            if c not in ref:
                ctx.fail(f'column {c} appears only for subset')
            if o[c].dtype.kind == 'f':
                ctx.close(o[c], ref[c][sel], f'rows {sel}: column {c}', rtol=1e-9, atol=1e-11)
            else:
                ctx.check(np.array_equal(o[c], ref[c][sel]), f'rows {sel}: column {c}')


def twins(ctx, spec, place, q):
    """photons that differ in one property only (energy by 2 % or 40 %, polarization, point, direction, nothing)"""
    zoom = PLACES[place]['zoom']
    elem = spec.make(id_col='eid', id_num=5, **zoo.place_kw(place))
    a, b = (C.ray_for(spec, 'hit', zoom, i, place) for i in (0, 3))
    shifted = (np.asarray(a[0]) + .05 * np.asarray(a[1]), a[1])
    rays = [a, a, a, a, a, shifted, b]
    full = zoo.photons(place, rays, energy=[.595, .605, .605, .98, 1.02, .605, .605],
                       pol=[.3, .3, 1.1, .3, .3, .3, .3], prob=[1.] * 7)
    for i, j in itertools.product(range(7), repeat=2):
        ctx.state('twin', spec.name, place, q, i, j)
    _compare(ctx, elem, full, [list(s) for s in itertools.permutations(range(7), 2)] + [[i, i] for i in range(7)]
             + [[i] for i in range(7)] + [list(range(6, -1, -1)), [4, 2, 4, 0, 3, 3]], q)


def big(ctx, spec, place, n):
    """a long list equals its blocks and its reverse, and single photons from it"""
    zoom = PLACES[place]['zoom']
    elem = spec.make(id_col='eid', id_num=5, **zoo.place_kw(place))
    kinds = ['hit', 'hit', 'missy', 'hit', 'back', 'hit', 'missz']
    rays = [C.ray_for(spec, kinds[i % 7], zoom, i, place) for i in range(n)]
    full = zoo.photons(place, rays, energy=.35 + .1 * (np.arange(n) * 7 % 9), pol=.37 * np.arange(n))
    ctx.state('big', spec.name, place, n)
    sel = [[i] for i in range(0, n, 5)] + [list(range(i, min(n, i + 16))) for i in range(0, n, 16)]
    sel += [list(range(n - 1, -1, -1)), [i * 11 % n for i in range(n)]]
    _compare(ctx, elem, full, sel, .3)


def twice(ctx, spec, place):
    """the same element used on the same input again gives the same result (no hidden state)"""
    zoom = PLACES[place]['zoom']
    elem = spec.make(**zoo.place_kw(place))
    rays = [C.ray_for(spec, 'hit', zoom, i, place) for i in range(4)]
    ph = zoo.photons(place, rays)
    other = zoo.photons(place, [C.ray_for(spec, k, zoom, i + 3, place) for i, k in enumerate(['hit', 'missy', 'hit'])])
    a = zoo.columns(C.run(elem, ph.copy(), .4))
    C.run(elem, other, .7)
    b = zoo.columns(C.run(elem, ph.copy(), .4))
    ctx.step(3)
    ctx.state('twice', spec.name, place)
    for i in range(4):
        C.rows_equal(ctx, a, b, i, i, 'repeated use')


def again(ctx, spec, place, q):
    """lists that have been through another element of the same kind before, so that all output columns exist"""
    zoom = PLACES[place]['zoom']
    first = spec.make(id_col='eid', id_num=3, **zoo.place_kw(place))
    elem = spec.make(id_col='eid', id_num=5, **zoo.place_kw(place))
    kinds = ['hit', 'missy', 'hit', 'back']
    full = zoo.photons(place, [C.ray_for(spec, k, zoom, i, place) for i, k in enumerate(kinds)])
    keep = zoo.columns(full)
    full = C.run(first, full, .6)
    for c in ('pos', 'dir', 'polarization', 'probability'):
        full[c] = keep[c]
    ctx.state('again', spec.name, place, q)
    _compare(ctx, elem, full, [list(s) for k in range(5) for s in itertools.combinations(range(4), k)], q)
    # an empty list goes through any number of elements
    e = full[[]].copy()
    n = list(e.colnames)
    for i in range(3):
        e = C.run((first, elem)[i % 2], e, q)
        ctx.step()
        ctx.same((len(e), set(e.colnames)), (0, set(n)), 'empty list')


WHOLE = ['filter', 'filterarr', 'propagate', 'project', 'mounting', 'bars', 'channel', 'throughput', 'loss', 'scale', 'shells', 'pointing',
         'jitter']


def whole_list(kind):
    """elements without a place that act on all photons"""
    import astropy.units as u
    from astropy.coordinates import SkyCoord
    from astropy.table import Table
    from marxs import optics, source
    from marxs.simulator import Propagator
    from marxs.analysis import ProjectOntoPlane
    from marxs.missions.athena import spo
    from marxs.missions.mitsnl.catgrating import catsupportbars
    if kind == 'filter':
        return optics.GlobalEnergyFilter(filterfunc=lambda e: .3 + .2 * np.asarray(e))
    if kind == 'filterarr':
        return optics.GlobalEnergyFilter(filterfunc=lambda e: np.full(len(e), .75))
    if kind == 'propagate':
        return Propagator(distance=-7.5)
    if kind == 'project':
        return ProjectOntoPlane(position=[1., 2, 3], orientation=zoo.rot_x(.4) @ zoo.rot_y(.7))
    if kind == 'mounting':
        return spo.spomounting
    if kind == 'bars':
        return catsupportbars
    if kind == 'channel':
        return spo.ScatterPerChannel(min_id=1, max_id=3, inplanescatter=.01 * u.rad, perpplanescatter=.002 * u.rad)
    if kind == 'throughput':
        return spo.geometricthroughput
    if kind == 'loss':
        return spo.willingaleloss
    if kind == 'scale':
        from marxs.missions.AXIS.AXIS import MirrorGeometricScaling
        return MirrorGeometricScaling({'mirrorgeometricscaling': .6})
    if kind == 'shells':
        from marxs.missions.lynx.mirror import MetaShellEfficiency
        return MetaShellEfficiency({'metashellgeometry': Table({'Metashell Serial Number': [1, 2, 3], 'r_inner': [10., 30., 50.],
                                                                'r_outer': [20., 40., 60.]}),
                                    'metashelleff': Table({'energy': [.1, 1., 9.], '1': [2., 1., 0.], '2': [20., 30., 1.], '3': [1., 2., 3.]})})
    coo = SkyCoord(30., 10., unit='deg')
    if kind == 'pointing':
        return source.FixedPointing(coords=coo, roll=.3 * u.rad)
    return source.JitterPointing(coords=coo, roll=.3 * u.rad, jitter=2 * u.arcmin)


def whole(ctx, kind, q):
    elem = whole_list(kind)
    n = 5
    full = zoo.photons('gen', [zoo.plane_ray('hit', [1., 2., 3.], i) for i in range(n)], energy=[.4, 1.2, 1.5, .4, 2.9])
    for c, v in (('facet', [0, -1, 3, -1, 7]), ('xou', [-1, 1, 2, 3, 2]), ('shell', [1, 3, 2, 2, 1])):
        full[c] = v
    if kind in ('pointing', 'jitter'):
        full.remove_columns(['dir', 'polarization', 'pos'])
    full['ra'], full['dec'], full['polangle'] = [30., 30.1, 29.9, 30., 31.], [10., 10.2, 10., 9.5, 11.], [.1, 2., 3., 0., 5.]
    sel = [list(p) for p in itertools.permutations(range(n), n)][::7] + [[i, i] for i in range(n)]
    sel += [list(s) for k in range(n + 1) for s in itertools.combinations(range(n), k)]
    for s in sel:
        ctx.state('whole', kind, q, s)
    _compare(ctx, elem, full, sel, q)
    # the probability of the photons, whatever its value, only scales the result
    ref = np.array(C.run(elem, full.copy(), q)['probability']) / np.where(full['probability'] == 0, 1, full['probability'])
    for pr in (1., .5, 1e-9, 0.):
        one = full.copy()
        one['probability'] = pr
        got = np.array(C.run(elem, one, q)['probability'])
        ok = np.array(full['probability']) > 0
        ctx.step()
        ctx.close(got[ok], ref[ok] * pr, f'all photons have probability {pr}', rtol=1e-9, atol=1e-15)


def scenarios(ctx):
    yield from C.cases(whole, 'whole list', WHOLE, [.3, .93])
    specs = zoo.specs()
    n = 5 if ctx.thorough else 4
    places = zoo.NAMES if ctx.thorough else ['gen', 'zxy', 'tilt']
    qs = [.05, .5, .93] if ctx.thorough else [.3, .93]
    yield from C.cases(lambda c, s, p, q: group(c, s, p, q, n), 'perm', specs, places, qs)
    yield from C.cases(twins, 'twins', specs, ['gen'] if not ctx.thorough else zoo.NAMES, qs)
    yield from C.cases(big, 'big', specs, ['gen'], [47, 130] if not ctx.thorough else [47, 130, 1030])
    yield from C.cases(again, 'again', specs, ['gen', 'unit'], qs)
    yield from C.cases(twice, 'twice', specs, zoo.NAMES)
