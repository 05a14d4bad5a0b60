"""Lattice of impact points (inside, exactly on, just inside/outside and outside every border) x 8 directions from
both sides x start before/on/behind the surface, for 5 placements; as table and as single rays; on FinitePlane,
hole geometries and optical elements."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

FR = [-1.7, -1 - 1e-6, -1 + 1e-6, -.5, 0., .3, 1 - 1e-6, 1 + 1e-6, 4.]
DD = [zoo.unit(v) for v in [(-1, 0, 0), (1, 0, 0), (-1, .3, -.2), (.5, -.7, .1), (-.05, .9, .4), (.02, -.3, -.9),
                            (-.6, 0, .8), (3., 1., 0)]]
TT = [5., 1e-3, 1e-7, -1e-7, -1e-3, -40.]     # distance travelled before the surface; <0: moving away


def pool(place, full):
    zoom = np.broadcast_to(PLACES[place]['zoom'], 3)
    fr = FR if full else FR[1::2] + [0.3]
    rays, hits, loc = [], [], []
    for fy, fz, d, t in itertools.product(fr, fr, DD, TT):
        h = np.array([0, fy * zoom[1], fz * zoom[2]])
        rays.append((h - t * d, d))
        hits.append(abs(fy) <= 1 and abs(fz) <= 1 and t >= 0)
        loc.append(h)
    return rays, np.array(hits), np.array(loc)


def geoms():
    from marxs.math.geometry import FinitePlane, RectangleHole, CircularHole
    return {'FinitePlane': FinitePlane, 'RectangleHole': RectangleHole, 'CircularHole': CircularHole}


def moved(ctx, gname, place, prev, how):
    """a geometry that was used in other places before reports hits for its present place"""
    lattice(ctx, gname, place, prev, how)


def lattice(ctx, gname, place, prev=None, how=None):
    g = geoms()[gname](zoo.place_kw(prev or place))
    if prev is not None:
        rays, hits, loc = pool(prev, False)
        g.intersect(zoo.to_global(prev, [r[1] for r in rays], 0), zoo.to_global(prev, [r[0] for r in rays], 1))
        g.get_local_euklid_bases(np.ones((2, 2)))
        if how == 'assign':
            g.pos4d = zoo.pos4d(place)
        elif how == 'inplace':
            g.pos4d[:] = zoo.pos4d(place)
        else:
            m = zoo.pos4d(place) @ np.linalg.inv(g.pos4d)
            g.pos4d = m @ g.pos4d
    rays, hits, loc = pool(place, True)
    pos = zoo.to_global(place, [r[0] for r in rays], 1)
    d = zoo.to_global(place, [r[1] for r in rays], 0)
    p0, d0 = pos.copy(), d.copy()
    inter, ipos, iloc = g.intersect(d, pos)
    ctx.step()
    for i, h in enumerate(hits):
        ctx.state(place, gname, i, bool(h))
    ctx.same(np.array(pos), p0, 'input positions modified')
    ctx.same(np.array(d), d0, 'input directions modified')
    ctx.same(inter.dtype, np.dtype(bool), 'dtype of intersect')
    bad = np.flatnonzero(inter != hits)
    ctx.check(len(bad) == 0, lambda: f'{len(bad)} rays wrong, first pos={p0[bad[0]]} dir={d0[bad[0]]} local hit {loc[bad[0]]}: reported {inter[bad[0]]}')
    want = zoo.to_global(place, loc, 1)
    tol = 1e-7 * (1 + np.abs(PLACES[place]['position']).max())
    ctx.close(ipos[hits], want[hits], 'intersection point', atol=tol)
    ctx.close(iloc[hits], loc[hits][:, 1:], 'local coordinates', atol=tol)
    ctx.check(np.all(np.isnan(ipos[~hits][:, :3])), 'global point of missing rays must be NaN')
    ctx.check(np.all(np.isnan(iloc[~hits])), 'local coordinates of missing rays must be NaN')
    ctx.same(ipos.shape, (len(rays), 4), 'shape')
    ctx.same(iloc.shape, (len(rays), 2), 'shape')


def single(ctx, gname, place):
    g = geoms()[gname](zoo.place_kw(place))
    rays, hits, loc = pool(place, False)
    pos = zoo.to_global(place, [r[0] for r in rays], 1)
    d = zoo.to_global(place, [r[1] for r in rays], 0)
    inter, ipos, iloc = g.intersect(d, pos)
    for i in range(0, len(rays), 1 if ctx.thorough else 7):
        a, b, c = g.intersect(d[i], pos[i])
        ctx.step()
        ctx.state('single', gname, place, i)
        ctx.same(bool(np.all(a)), bool(hits[i]), 'single ray')
        ctx.close(np.ravel(b)[:3], ipos[i][:3], 'single ray point')
        ctx.close(np.ravel(c)[:2], iloc[i][:2], 'single ray local')


def exact(ctx):
    """exact arithmetic: borders are inclusive, rays starting on the surface hit, parallel rays miss"""
    for gname, G in geoms().items():
        for zoom in ([1., 1., 1.], [1., 2., 4.], 8.):
            g = G({'zoom': zoom})
            zy, zz = np.broadcast_to(zoom, 3)[1:]
            for fy, fz, x, s in itertools.product([-1, 0, .5, 1], [-1, 0, .5, 1], [2., 0., -2.], [-1., 1.]):
                d = np.array([[s, 0, 0, 0.]])
                p = np.array([[x, fy * zy, fz * zz, 1.]])
                i, ip, il = g.intersect(d, p)
                want = (x == 0) or (x * s < 0)
                ctx.step()
                ctx.state('exact', gname, str(zoom), fy, fz, x, s)
                ctx.same(bool(i[0]), want, f'ray from x={x} along {s} at border ({fy},{fz})')
                if want:
                    ctx.same(ip[0], np.array([0., fy * zy, fz * zz, 1.]), 'point')
                # parallel, above and inside the plane
                for px in (0., 1.):
                    i, ip, il = g.intersect(np.array([[0, 1., 0, 0]]), np.array([[px, fy * zy, fz * zz, 1.]]))
                    ctx.same(bool(i[0]), False, 'parallel ray')


def grazing(ctx, gname, kmax):
    """exact arithmetic: a grazing ray hits however small its angle to the surface is; only exactly parallel rays miss"""
    g = geoms()[gname]({'zoom': [1., 4., 8.]})
    for k, fy, fz, t, s, ax in itertools.product(range(1, kmax), [-1, -.5, .5], [-1, .25, 1], [-2., 0., 1., 4.], [-1., 1.], [0, 1]):
        eps = 2.**-k
        d = np.array([[s * eps, 1. - ax, ax * 1., 0.]])
        hit = np.array([0, fy * 4., fz * 8.])
        p = np.array([[*(hit - t * d[0, :3]), 1.]])
        i, ip, il = g.intersect(d, p)
        ctx.step()
        ctx.state('grazing', gname, k, fy, fz, t, s, ax)
        want = t >= 0
        ctx.same(bool(i[0]), want, f'grazing ray 2^-{k} from {p} along {d}')
        if want:
            ctx.same(ip[0], np.array([*hit, 1.]), 'point')
            ctx.same(il[0], hit[1:], 'local')


def scaled(ctx, place):
    """length of the direction vector does not matter"""
    from marxs.math.geometry import FinitePlane
    g = FinitePlane(zoo.place_kw(place))
    rays, hits, loc = pool(place, False)
    pos = zoo.to_global(place, [r[0] for r in rays], 1)
    d = zoo.to_global(place, [r[1] for r in rays], 0)
    ref = g.intersect(d, pos)
    for f in (1e-2, 3., 50.):
        o = g.intersect(d * f, pos)
        ctx.step()
        ctx.state('scaled', place, f)
        ctx.same(o[0], ref[0], 'hit flags for scaled direction')
        ctx.close(o[1], ref[1], 'points for scaled direction', atol=1e-6)
        ctx.close(o[2], ref[2], 'local', atol=1e-6)


def bases(ctx, gname, place):
    g = geoms()[gname](zoo.place_kw(place))
    R = np.asarray(PLACES[place]['orientation'])
    e1, e2, n = g.get_local_euklid_bases(np.array([[0., 1.], [2., 3.], [.1, .2]]))
    ctx.step()
    ctx.state('bases', gname, place)
    for v, k in ((e1, 1), (e2, 2), (n, 0)):
        w = np.zeros((3, 4))
        w[:, :3] = R[:, k]
        ctx.close(v, w, f'local base {k}')


def scenarios(ctx):
    names = ['FinitePlane', 'RectangleHole', 'CircularHole']
    places = zoo.NAMES
    for k, (a, b, c) in enumerate(itertools.product([-2., .9], [-1., .4], [.5, 2.5])):
        PLACES[f'p{k}'] = dict(position=[10. * a, -3., 100 * b], orientation=zoo.rot_z(a) @ zoo.rot_y(b) @ zoo.rot_x(c),
                               zoom=[.01, 1 + k, 20. / (1 + k)])
        places.append(f'p{k}')
    yield from C.cases(lattice, 'lattice', names, places)
    yield from C.cases(moved, 'moved', names, places, ['unit', 'gen'], ['assign', 'inplace', 'multiply'])
    yield from C.cases(single, 'single', names, places)
    yield 'exact', exact
    yield from C.cases(grazing, 'grazing', names, [40])
    yield from C.cases(scaled, 'scaled', places)
    yield from C.cases(bases, 'bases', names, places)
