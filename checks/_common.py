import itertools
from functools import partial

import numpy as np

from mc import rng, zoo
from mc.zoo import PLACES


def cases(func, prefix, *lists):
    """all combinations of the lists as scenarios of func(ctx, *combo)"""
    for combo in itertools.product(*lists):
        yield prefix + ':' + '/'.join(str(getattr(c, 'name', c)) for c in combo), partial(_call, func, combo)


def _call(func, combo, ctx):
    return func(ctx, *combo)


DOC_OUT = {  # documented outputs of each element besides position, ids, local coordinates
    'EnergyFilter': {'probability'}, 'FlatDetector': set(), 'CircularDetector': set(), 'CCDRedistNormal': set(),
    'PerfectLens': {'dir', 'polarization', 'probability'}, 'PerfectLensRefl': {'dir', 'polarization', 'probability'},
    'PerfectLensRefl0': {'dir', 'polarization', 'probability'},
    'ThinLens': {'dir', 'polarization', 'probability'},
    'RadialMirrorScatter': {'dir', 'polarization'}, 'RadialMirrorScatterIn': {'dir', 'polarization'},
    'RandomGaussianScatter': {'dir', 'polarization'}, 'RandomGaussianScatterFunc': {'dir', 'polarization'},
    'FlatBrewsterMirror': {'dir', 'polarization', 'probability'}, 'MultiLayerEfficiency': {'probability'},
    'MultiLayerMirror': {'dir', 'polarization', 'probability'}, 'QualityFactor': {'probability'},
    'L1': {'dir', 'polarization', 'probability'}, 'L2Abs': {'probability'}, 'L2Diffraction': {'dir', 'polarization'},
}
GRAT = {'dir', 'polarization', 'probability', 'order'}


def doc_out(spec):
    return DOC_OUT.get(spec.name, GRAT)


def ray_for(spec, kind, zoom, i, place):
    """ray number i; keeps clear of measure-zero ambiguities of the specification"""
    if kind == 'hit0' and place != 'unit':
        kind = 'hit'
    off = 2 if (spec.props.get('oblique') or 'CAT' in spec.name or spec.name == 'L1') else 0
    i = i + off
    if off and spec.geom == 'plane':
        while (i // 2) % len(zoo.DIRS) == 0:
            i += 2
    return spec.ray(kind, zoom, i)


def expected_hit(spec, place, ray):
    """own algebra: intersection point (global) and local coordinates of a hitting ray"""
    pos, d = (np.asarray(x, float) for x in ray)
    zoom = np.broadcast_to(PLACES[place]['zoom'], 3).astype(float)
    if spec.geom == 'plane':
        t = -pos[0] / d[0]
        h = pos + t * d
        return zoo.to_global(place, [h], 1)[0], h[1:]
    p, q = pos[:2] / zoom[:2], d[:2] / zoom[:2]
    a, b, c = q @ q, 2 * p @ q, p @ p - 1
    t = (-b + np.sqrt(b * b - 4 * a * c)) / (2 * a)   # rays in this pool start inside
    h = pos + t * d
    return zoo.to_global(place, [h], 1)[0], np.array([np.arctan2(h[1] / zoom[1], h[0] / zoom[0]), h[2]])


def plane_hit(i, place="unit"):
    return zoo.plane_ray("hit", PLACES[place]["zoom"], i)


def run(elem, photons, quantile=.3):
    with rng.active(rng.Const(quantile)):
        return elem(photons)


def rows_equal(ctx, a, b, ia, ib, msg, rtol=1e-9, atol=1e-11):
    """compare row ia of dict-of-columns a with row ib of b"""
    ctx.same(set(a), set(b), msg + ' columns')
    for c in a:
        x, y = a[c][ia], b[c][ib]
        if a[c].dtype.kind == 'f':
            ctx.close(x, y, f'{msg} column {c}', rtol=rtol, atol=atol)
        else:
            ctx.check(np.all(x == y), f'{msg} column {c}: {x} != {y}')
