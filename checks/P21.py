"""Lattices of small integer and generic vectors (all ordered pairs / triples), all angle pairs on a -4pi..4pi grid x test angles,
lines x planes (crossing, parallel, contained, through the origin, scaled homogeneous coordinates) in scalar and batch form,
against direct vector algebra."""
import itertools
import numpy as np
from mc import zoo
from . import _common as C

LAT = [np.array(v, float) for v in itertools.product([-1, 0, 2], repeat=3)] + [np.array([.3, -1.7, 1e-3]), np.array([1e4, 2., -.5])]
NZ = [v for v in LAT if np.any(v)]
SHAPES = [(3,), (1, 3), (5, 3), (2, 4, 3), (0, 3)]


def homog(ctx, shape):
    from marxs.math.utils import e2h, h2e
    for k in range(6):
        n = int(np.prod(shape[:-1])) if len(shape) > 1 else 1
        e = np.array([LAT[(k * 5 + 3 * i) % len(LAT)] for i in range(n)]).reshape(shape) if n else np.zeros(shape)
        for w in (0, 1, 0., 1.):
            keep = e.copy()
            h = e2h(e, w)
            ctx.step()
            ctx.state('e2h', shape, k, w)
            ctx.same(e, keep, 'input')
            ctx.same(h.shape, tuple(shape[:-1]) + (4,), 'shape')
            ctx.same(h[..., :3], e, 'euclidean part')
            ctx.same(h[..., 3], np.full(shape[:-1], float(w)), 'w')
            ctx.same(h2e(h), e, 'round trip')
            if w and n:
                for f in (2., -3., .1, 1.5, 1e-9, -3e-13, 1e7):
                    hk = h * f
                    kk = hk.copy()
                    ctx.close(h2e(hk), e, f'scaled homogeneous coordinates {f}', atol=1e-12)
                    ctx.same(hk, kk, 'input')
                if len(shape) > 1:
                    fac = np.array([1., 2., -.5, 4.])[np.arange(n) % 4].reshape(shape[:-1])
                    ctx.close(h2e(h * fac[..., None]), e, 'individual scales', atol=1e-12)
        for bad in (2, -1, .5, np.nan):
            ctx.raises(ValueError, lambda: e2h(e, bad), f'w={bad}')


def mixture(ctx):
    from marxs.math.utils import h2e
    for n in (2, 3, 4):
        for w in itertools.product([0., 1., 2., 1e-10, 1.001, .98][:6 if n < 4 else 3], repeat=n):
            h = np.array([np.append(LAT[i], w[i]) for i in range(n)])
            ctx.step()
            ctx.state('mix', w)
            if 0 in w and any(x != 0 for x in w):
                ctx.raises(ValueError, lambda: h2e(h), f'mixture {w}')
            else:
                ctx.close(h2e(h), h[:, :3] / (np.array(w)[:, None] if 0 not in w else 1), f'{w}')


def dist(ctx, n):
    from marxs.math.utils import distance_point_point
    for a, b in itertools.product(LAT, repeat=2):
        for f in (1., 2.):
            ha, hb = np.append(a, 1.) * f, np.append(b, 1)
            ctx.state('dist', tuple(a), tuple(b), f, n)
            want = np.sqrt(np.sum((a - b)**2))
            if n == 0:
                ctx.close(distance_point_point(ha, hb), want, 'distance', rtol=1e-12)
            elif n == 1:
                ctx.close(distance_point_point(np.array([ha, hb, ha]), np.array([hb, ha, ha])), [want, want, 0], 'distance')
            else:
                ctx.close(distance_point_point(np.array([ha, hb]), hb), [want, 0], 'distance list to point')
                ctx.close(distance_point_point(hb, np.array([ha, hb])), [want, 0], 'distance point to list')
    ctx.step()
    ctx.raises(ValueError, lambda: distance_point_point(np.ones((2, 2, 4)), np.ones((2, 2, 4))), '3d input')


def affine(ctx):
    from marxs.math.utils import translation2aff, zoom2aff, mat2aff, norm_vector
    for v in LAT:
        for w in NZ[:12]:
            m = zoo.rot_z(.3) @ zoo.rot_x(1.)
            T, Z, R = translation2aff(v), zoom2aff(w), mat2aff(m)
            ctx.step()
            ctx.state('aff', tuple(v), tuple(w))
            p = np.array([.5, -2., 3.])
            ctx.close((T @ np.append(p, 1))[:3], p + v, 'translation of a point')
            ctx.close(T @ np.append(p, 0), np.append(p, 0), 'translation of a direction')
            ctx.close(Z @ np.append(p, 1), np.append(p * w, 1), 'zoom')
            ctx.close(R @ np.append(p, 1), np.append(m @ p, 1), 'rotation')
            ctx.close(T @ R @ Z @ np.append(p, 1), np.append(m @ (p * w) + v, 1), 'composition')
            ctx.close(translation2aff(list(v)), T, 'list input')
    for s in (1., 2, -.5, np.float64(3)):
        ctx.close(zoom2aff(s), np.diag([s, s, s, 1.]), 'scalar zoom')
    for bad in ([1, 2], [1, 2, 3, 4]):
        ctx.raises(ValueError, lambda: translation2aff(bad), 'length')
        ctx.raises(ValueError, lambda: zoom2aff(bad), 'length')
    vv = np.array(NZ)
    keep = vv.copy()
    got = norm_vector(vv)
    ctx.same(vv, keep, 'input modified')
    for i, v in enumerate(NZ):
        ctx.close(got[i], v / np.sqrt(v @ v), 'norm_vector')


GRID = np.arange(-48, 49) * np.pi / 12


def between(ctx, k1):
    """border1 from the grid; all border2; test angles between the grid points (unambiguous) and on it (inclusive)"""
    from marxs.math.utils import angle_between
    step = 2 if not ctx.thorough else 1
    test = np.arange(-40, 41) * np.pi / 12 + .05
    turn = 24                                          # grid steps in a full circle
    for i2 in range(0, len(GRID), step):
        b1, b2 = GRID[k1], GRID[i2]
        width = (i2 - k1) % turn
        keep = test.copy()
        got = np.asarray(angle_between(test, b1, b2))
        ctx.step()
        ctx.state('btw', k1, i2)
        ctx.same(test, keep, 'input')
        off = (np.arange(-40, 41) - (k1 - 48)) % turn   # test angle lies .05 above this grid step
        if width == 0:
            continue   # degenerate interval: empty or full circle
        ctx.same(got, (off < width), f'angles in [{b1}, {b2}]')
        # just inside the borders
        eps = 1e-9
        for t, e in ((b1 + eps, True), (b1 - eps, False), (b2 - eps, True), (b2 + eps, False)):
            ctx.same(bool(angle_between(t, b1, b2)), e, f'{t} in [{b1}, {b2}]')
    # inclusive borders, exactly representable
    for b1, b2 in ((.5, 1.), (0., 1.), (1., .5), (6., .25), (.25, 6.)):
        ctx.check(bool(angle_between(b1, b1, b2)) and bool(angle_between(b2, b1, b2)), f'borders of [{b1}, {b2}] inclusive')


def diff(ctx):
    from marxs.math.utils import anglediff
    for i, j in itertools.product(range(-24, 25), repeat=2):
        a, b = i * np.pi / 12, j * np.pi / 12
        got = anglediff([a, b])
        ctx.step()
        ctx.state('diff', i, j)
        d = j - i
        if d == 24:
            want = 2 * np.pi
        elif 0 <= d <= 24:
            want = d * np.pi / 12
        else:
            want = (d % 24) * np.pi / 12
        if d % 24 == 0 and d not in (0, 24):
            ctx.check(min(abs(got), abs(got - 2 * np.pi)) < 1e-9, 'multiples of the circle')
        else:
            ctx.close(got, want, f'anglediff {i},{j}', atol=1e-9)
    for v in (0., 1.):
        ctx.same(anglediff([v, v]), 0., 'zero')
        ctx.close(anglediff(np.array([0., 2 * np.pi])), 2 * np.pi, 'full circle')


def exfix(ctx):
    from marxs.math.rotations import ex2vec_fix
    for a, f in itertools.product(NZ, repeat=2):
        ctx.step()
        ctx.state('ex', tuple(a), tuple(f))
        cr = np.linalg.norm(np.cross(zoo.unit(a), zoo.unit(f)))
        if cr < 1e-12:
            ctx.raises(ValueError, lambda: ex2vec_fix(a, f), f'parallel {a} {f}')
            continue
        if cr < 1e-3:
            continue
        ka, kf = a.copy(), f.copy()
        r = ex2vec_fix(a, f)
        ctx.check(np.array_equal(a, ka) and np.array_equal(f, kf), 'input modified')
        ctx.close(r.T @ r, np.eye(3), 'orthogonal', atol=1e-10)
        ctx.close(np.linalg.det(r), 1., 'proper rotation')
        ctx.close(r @ [1., 0, 0], zoo.unit(a), 'x-axis to e1', atol=1e-12)
        ey = r @ [0, 1., 0]
        ctx.close(ey @ np.cross(a, f) / np.linalg.norm(np.cross(a, f)), 0., 'coplanar', atol=1e-10)
        ctx.check(ey @ f > 0, 'e_y on the side of efix')


def axangle(ctx, normalized):
    from marxs.math.rotations import axangle2mat
    axes = np.array([zoo.unit(v) if normalized else v for v in NZ])
    angs = np.arange(-8, 9) * np.pi / 4 + .1
    for k in range(len(angs)):
        a = angs[(np.arange(len(axes)) + k) % len(angs)]
        keep = axes.copy()
        m = axangle2mat(axes, a, **({'is_normalized': True} if normalized else {}))
        ctx.step()
        ctx.same(axes, keep, 'axes modified')
        ctx.same(m.shape, (len(axes), 3, 3), 'shape')
        for i in range(len(axes)):
            ctx.state('ax', i, k, normalized)
            n = zoo.unit(axes[i])
            for v in ([1., 2., 3.], [-1., .5, 0.]):
                v = np.array(v)
                want = v * np.cos(a[i]) + np.cross(n, v) * np.sin(a[i]) + n * (n @ v) * (1 - np.cos(a[i]))
                ctx.close(m[i] @ v, want, f'rotation about {n} by {a[i]}', atol=1e-9)
    ctx.raises(ValueError, lambda: axangle2mat(axes, angs[:3]), 'length')
    ctx.raises(ValueError, lambda: axangle2mat(axes[:3], angs), 'length')


def pluecker(ctx, batch):
    from marxs.math import pluecker as pl
    pts = [np.array(v, float) for v in itertools.product([-1, 0, 2], repeat=3)][::3] + [np.array([.3, -1.7, 10.])]
    dirs = [np.array(v, float) for v in [(1, 0, 0), (0, -2, 0), (1, 1, 0), (1, -2, .5), (0, 0, 3), (-.3, .2, .9)]]
    norms = [np.array(v, float) for v in [(1, 0, 0), (0, 0, 2), (1, -1, 0), (.2, .3, -.5)]]
    P, D = [np.array(x) for x in zip(*itertools.product(pts, dirs))]
    lines1 = pl.dir_point2line(D, P)
    lines2 = pl.e_pointpoint2line(P, P + D)
    ctx.close(lines1, lines2, 'line through two points = line from point and direction', atol=1e-12)
    for q, n, sc in itertools.product(pts, norms, (1., 2., -1.)):
        hp = np.append(q * sc, sc)
        plane = pl.point_dir2plane(hp, np.append(n, 0))
        ctx.step()
        x0 = np.append(q, 1)
        ctx.close(plane @ x0, 0, 'point is in plane', atol=1e-12)
        ctx.close(np.linalg.norm(np.cross(plane[:3], n)), 0, 'normal', atol=1e-12)
        ctx.check(plane[:3] @ n > 0, 'direction of normal')
        ctx.close(np.linalg.norm(plane[:3]), 1, 'normalized', atol=1e-12)
        if batch:
            hits = pl.intersect_line_plane(lines1, plane)
            ctx.same(hits.shape, (len(P), 4), 'shape')
        for i in range(len(P)):
            ctx.state('pl', tuple(q), tuple(n), sc, i, batch)
            h = hits[i] if batch else pl.intersect_line_plane(lines1[i], plane)
            dn = D[i] @ n
            if abs(dn) < 1e-12:
                ctx.close(h[3], 0, 'parallel', atol=1e-12)
                if abs((P[i] - q) @ n) < 1e-12:
                    ctx.close(h, np.zeros(4), 'contained line', atol=1e-12)
                else:
                    ctx.check(np.linalg.norm(h[:3]) > 1e-6, 'parallel line meets the plane at infinity')
                    ctx.close(np.cross(h[:3], D[i]), np.zeros(3), 'intersection at infinity along the line', atol=1e-9)
            else:
                t = (q - P[i]) @ n / dn
                ctx.close(h[:3] / h[3], P[i] + t * D[i], 'intersection', atol=1e-9)
            if not batch:
                ang = pl.angle_line_plane(lines1[i], plane)
                ctx.close(np.cos(ang), D[i] @ n / np.linalg.norm(D[i]) / np.linalg.norm(n), 'angle', atol=1e-9)


def scenarios(ctx):
    yield from C.cases(homog, 'homogeneous', SHAPES)
    yield 'mixture', mixture
    yield from C.cases(dist, 'distance', [0, 1, 2])
    yield 'affine', affine
    yield from C.cases(between, 'angle_between', list(range(0, len(GRID), 4 if not ctx.thorough else 1)))
    yield 'anglediff', diff
    yield 'ex2vec_fix', exfix
    yield from C.cases(axangle, 'axangle', [False, True])
    yield from C.cases(pluecker, 'pluecker', [False, True])
