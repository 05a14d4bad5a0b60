"""All chains of elements up to a depth; after every element the state of all photons is examined."""
import itertools
import numpy as np
from mc import zoo, rng
from . import _common as C

BIG = [1., 60., 60.]


def chain_photons():
    rays = []
    for (y, z) in [(0.3, .4), (-5., 7.), (10., -3.)]:
        for d in [zoo.unit([-1, .004, -.003]), zoo.unit([-1, -.02, .03]), zoo.unit([-1., .2, .1])]:
            h = np.array([0, y, z])
            rays.append((h - 3 * d, d))
    n = len(rays)
    return rays, [1., .5, .25, 0., 1., .7, 1., .1, .3][:n]


def chain_elem(spec, k):
    if spec.geom == 'cyl':
        kw = dict(position=[-3. * k, 0, 0], orientation=np.eye(3), zoom=[70., 70., 60.])
    else:
        kw = dict(position=[-3. * k, 0, 0], orientation=zoo.rot_x(.2 * k), zoom=BIG)
    return spec.make(**kw)


def explore(ctx, first, specs, depth, visit):
    """depth-first exploration of all chains starting with `first`; state = photon table copy"""
    rays, prob = chain_photons()
    zoo.PLACES['chain'] = dict(position=[0., 0, 0], orientation=np.eye(3), zoom=BIG)
    ph = zoo.photons('chain', rays, prob=prob)
    elems = {(s.name, k): chain_elem(s, k) for s in specs for k in range(depth)}

    def rec(tab, names):
        k = len(names)
        if k == depth:
            return
        todo = [first] if k == 0 else specs
        for s in todo:
            t = tab.copy()
            before = zoo.columns(t)
            t = C.run(elems[(s.name, k)], t, [.3, .8, .1][k])
            ctx.step()
            after = zoo.columns(t)
            ctx.state(names + (s.name,))
            visit(ctx, s, names + (s.name,), before, after)
            rec(t, names + (s.name,))

    rec(ph, ())
