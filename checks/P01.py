"""Every hit/miss pattern of 3 (thorough: 4) photons over {hit, outside y, outside z, moving away, parallel,
starting on the surface} for every element class and placement: photons that miss are bit-identical, photons
that hit get position/local coordinates/ids and only documented outputs change."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C


def one(ctx, spec, place, kinds, copies=1):
    zoom = PLACES[place]['zoom']
    elem = spec.make(id_col='eid', id_num=5, **zoo.place_kw(place))
    rays = [C.ray_for(spec, k, zoom, i, place) for i, k in enumerate(kinds)]
    ph = zoo.photons(place, rays)
    before = zoo.columns(ph)
    meta = dict(ph.meta)
    out = C.run(elem, ph)
    ctx.step()
    ctx.state(spec.name, place, kinds)
    ctx.same(len(out), len(kinds), 'number of photons')
    ctx.same(dict(out.meta), meta, 'metadata')
    after = zoo.columns(out)
    hit = np.array([k.startswith('hit') for k in kinds])
    for c in before:
        if c not in after:
            ctx.fail(f'column {c} dropped')
        ctx.same(after[c].dtype.kind, before[c].dtype.kind, f'dtype of {c}')
        ctx.same(after[c][~hit], before[c][~hit], f'{c} of photons that miss')
        if c not in C.doc_out(spec) and c != 'pos':
            ctx.same(after[c][hit], before[c][hit], f'{c} of photons that hit')
    for c in after:
        if c in before:
            continue
        if c == 'eid':
            ctx.check(np.all(after[c][~hit] == -1), 'id of missing photons must be -1')
        else:
            ctx.check(np.all(np.isnan(after[c][~hit])), f'new column {c} must be NaN for photons that miss')
    if hit.any():
        loc = list(elem.loc_coos_name)
        ctx.same(after['eid'][hit], np.full(hit.sum(), 5), 'id of hitting photons')
        for i in np.flatnonzero(hit):
            g, l = C.expected_hit(spec, place, rays[i])
            ctx.close(after['pos'][i], g, f'position of photon {i}', rtol=1e-9, atol=1e-8)
            ctx.close([after[loc[0]][i], after[loc[1]][i]], l, f'local coordinates of photon {i}', rtol=1e-8, atol=1e-8)


def group(ctx, spec, place, n):
    for kinds in itertools.product(zoo.KINDS, repeat=n):
        one(ctx, spec, place, kinds)


def ids(ctx, spec):
    """id column defaults and a preexisting id column: -1 only for photons never hit"""
    place = 'gen'
    zoom = PLACES[place]['zoom']
    for pre in itertools.product([-1, 3], repeat=3):
        for kinds in itertools.product(['hit', 'missy'], repeat=3):
            elem = spec.make(id_col='eid', id_num=7, **zoo.place_kw(place))
            ph = zoo.photons(place, [C.ray_for(spec, k, zoom, i, place) for i, k in enumerate(kinds)])
            ph['eid'] = np.array(pre)
            out = C.run(elem, ph)
            ctx.step()
            ctx.state('ids', spec.name, pre, kinds)
            want = [7 if k == 'hit' else p for k, p in zip(kinds, pre)]
            ctx.check(list(out['eid']) == want, f'ids {list(out["eid"])} != {want}')
    # no id requested -> no id column
    elem = spec.make(**zoo.place_kw(place))
    ph = zoo.photons(place, [C.ray_for(spec, 'hit', zoom, 0, place)])
    out = C.run(elem, ph)
    ctx.check('eid' not in out.colnames and 'None' not in out.colnames, 'unexpected id column')


def old_columns(ctx, spec):
    """a second pass: values written by an earlier element survive for photons missing the later one"""
    z = PLACES['unit']['zoom']
    a = spec.make(**zoo.place_kw('unit'))
    for kinds in itertools.product(['hit', 'missz'], repeat=3):
        rays1 = [C.ray_for(spec, 'hit', z, i, 'unit') for i in range(3)]
        ph = zoo.photons('unit', rays1)
        out = C.run(a, ph)
        mid = zoo.columns(out)
        # second passage with new rays
        rays2 = [C.ray_for(spec, k, z, i + 4, 'unit') for i, k in enumerate(kinds)]
        p2 = zoo.photons('unit', rays2)
        for c in ('pos', 'dir', 'polarization'):
            out[c] = p2[c]
        mid2 = zoo.columns(out)
        out = C.run(a, out)
        ctx.step(2)
        ctx.state('second', spec.name, kinds)
        fin = zoo.columns(out)
        miss = np.array([k != 'hit' for k in kinds])
        for c in mid2:
            ctx.same(fin[c][miss], mid2[c][miss], f'{c} after second passage (missed)')


def scenarios(ctx):
    specs = zoo.specs()
    n = 4 if ctx.thorough else 3
    yield from C.cases(lambda c, s, p: group(c, s, p, n), 'pattern', specs, ['gen'])
    yield from C.cases(lambda c, s, p: group(c, s, p, n - 1), 'pattern', specs, ['unit', 'zxy', 'flip'])
    yield from C.cases(ids, 'ids', specs)
    yield from C.cases(old_columns, 'second', specs)
