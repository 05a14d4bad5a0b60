"""theta x phi grid (incl. top, bottom, self-intersection) x ring, horn and spindle radii x placements: parametric form against own
trigonometry, quartic roots, inversion to angles, normals against own tangents, line solver for lines through every grid point
in several directions and start distances, scalar/array forms."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

RADII = [(5., 2.), (2., 1.), (6000., 6000.), (5., 6.), (4., 10.), (5915.5, 5980.2), (3., 7.)]
TH = np.arange(-12, 12) * np.pi / 12
PH = np.arange(-12, 12) * np.pi / 12 + .0
PL = zoo.NAMES + ['odd']


def placement(name):
    p = PLACES['gen' if name == 'odd' else name]
    pos, ori = np.array(p['position'], float), np.array(p['orientation'], float)
    if name == 'odd':
        pos, ori = np.array([3., .5, -1.2]), zoo.rot_x(2.) @ zoo.rot_y(.5)
    return pos, ori


def torus(rad, place):
    from marxs.design.rowland import RowlandTorus
    pos, ori = placement(place)
    return RowlandTorus(R=rad[0], r=rad[1], position=list(pos), orientation=ori), pos, ori


def grid(ctx):
    n = 1 if ctx.thorough else 2
    t, p = np.meshgrid(TH[::n], np.append(PH[::n], .3))
    return t.ravel(), p.ravel()


def ref(rad, pos, ori, t, p):
    R, r = rad
    rho = R + r * np.cos(t)
    loc = np.stack([rho * np.cos(p), r * np.sin(t), rho * np.sin(p)], -1)
    return loc @ ori.T + pos


def param(ctx, rad, place):
    tor, pos, ori = torus(rad, place)
    t, p = grid(ctx)
    kt, kp = t.copy(), p.copy()
    xyzw = tor.parametric(t, p)
    ctx.step()
    ctx.check(np.array_equal(t, kt) and np.array_equal(p, kp), 'input modified')
    scale = sum(rad)
    want = ref(rad, pos, ori, t, p)
    ctx.same(xyzw.shape, (len(t), 4), 'shape')
    ctx.close(xyzw[:, 3], np.ones(len(t)), 'homogeneous')
    ctx.close(xyzw[:, :3], want, 'parametric points', atol=1e-10 * scale + 1e-12)
    for i in range(len(t)):
        ctx.state('param', rad, place, i)
    # quartic: zero on the torus, not zero elsewhere
    q = tor.quartic(want)
    ctx.check(np.all(abs(q) < 1e-7 * scale**4), 'quartic on torus')
    q0 = tor.quartic((want - pos) @ ori, transform=False)
    ctx.check(np.all(abs(q0) < 1e-7 * scale**4), 'quartic local')
    R, r = rad
    for f in (.9, 1.1, 1.5):
        rho = R + f * r * np.cos(t)
        loc = np.stack([rho * np.cos(p), f * r * np.sin(t), rho * np.sin(p)], -1)
        rr = np.abs(rho)
        d = np.minimum(abs((rr - R)**2 + loc[:, 1]**2 - r**2), abs((rr + R)**2 + loc[:, 1]**2 - r**2))
        away = d > 1e-3 * r**2
        q = np.asarray(tor.quartic(loc @ ori.T + pos))
        ctx.check(np.all(abs(q[away]) > 1e-5 * scale**4 * 1e-3), 'quartic away from the torus')
    one = tor.quartic(want[3])
    ctx.check(np.ndim(one) == 0 and abs(one) < 1e-7 * scale**4, 'single point')
    ctx.raises(ValueError, lambda: tor.quartic(xyzw), 'homogeneous coordinates')
    # surface
    th, ph = TH[::3], PH[::5]
    s = tor.parametric_surface(th, ph, {})
    a, b = np.meshgrid(th, ph)
    ss = np.asarray(s)
    pts = ss.reshape(-1, 4)
    wantset = ref(rad, pos, ori, a.ravel(), b.ravel())
    ctx.same(len(pts), len(wantset), 'surface size')
    o1 = pts[np.lexsort(np.round(pts[:, :3] / scale, 6).T)]
    o2 = wantset[np.lexsort(np.round(wantset / scale, 6).T)]
    dist = np.min(np.linalg.norm(pts[:, None, :3] - wantset[None], axis=2), axis=1)
    ctx.check(dist.max() < 1e-8 * scale and np.min(np.linalg.norm(pts[None, :, :3] - wantset[:, None], axis=2), axis=1).max() < 1e-8 * scale, 'surface points')
    ctx.raises(ValueError, lambda: tor.parametric_surface(a, ph, {}), 'grid input')


def inverse(ctx, rad, place):
    tor, pos, ori = torus(rad, place)
    t, p = grid(ctx)
    R, r = rad
    scale = R + r
    want = ref(rad, pos, ori, t, p)
    xyzw = np.hstack([want, np.ones((len(t), 1))])
    keep = xyzw.copy()
    local = np.hstack([(want - pos) @ ori, np.ones((len(t), 1))])
    rho = R + r * np.cos(t)
    # the torus meets itself in circles only at points of the axis
    regular = abs(rho) > 1e-6 * scale
    for tr in (True, False):
        t2, p2 = tor.xyzw2parametric(xyzw if tr else local, transform=tr)
        ctx.step()
        ctx.same(xyzw, keep, 'input modified')
        ctx.check(np.all(np.isfinite(t2)) and np.all(np.isfinite(p2)), 'valid angles')
        back = ref(rad, pos, ori, t2, p2)
        ctx.close(back, want, f'angles lead back to the point (transform={tr})', atol=2e-6 * scale)
        cmp_ = regular & (abs(np.sin(t)) + abs(np.cos(t)) > 0)
        ctx.check(np.all(abs(np.exp(1j * (t2 - t)) - 1)[cmp_] < 1e-5), lambda: f'theta {t[cmp_][np.argmax(abs(np.exp(1j*(t2-t))-1)[cmp_])]} differs')
        ctx.check(np.all(abs(np.exp(1j * (p2 - p)) - 1)[cmp_] < 1e-5), 'phi')
        t3, p3 = tor.xyzw2parametric(xyzw if tr else local, transform=tr, intersectvalid=False)
        sing = abs(rho) < 1e-12 * scale
        ctx.check(np.all(np.isnan(p3[sing])), 'phi is NaN where the torus intersects itself')
        ctx.close(p3[regular], p2[regular], 'phi elsewhere')
        ctx.close(t3, t2, 'theta')
    for i in range(len(t)):
        ctx.state('inv', rad, place, i)
    for i in range(0, len(t), 7):
        a, b = tor.xyzw2parametric(xyzw[i:i + 1])
        if regular[i]:
            ctx.close(np.exp(1j * np.array([a[0] - t[i], b[0] - p[i]])).real, [1, 1], 'single point', atol=1e-5)
    bad = xyzw.copy()
    k = int(np.argmax(regular & (abs(rho) > .3 * R)))
    n_loc = np.array([np.cos(t[k]) * np.cos(p[k]), np.sin(t[k]), np.cos(t[k]) * np.sin(p[k])])
    for dist in (1e-4, -1e-4, 1e-3):
        bad = xyzw.copy()
        bad[k, :3] += dist * r * (n_loc @ ori.T)
        ctx.raises(ValueError, lambda: tor.xyzw2parametric(bad), f'point {dist} r off the torus')
    bad = xyzw.copy()
    bad[1, :3] += .05 * scale
    ctx.raises(ValueError, lambda: tor.xyzw2parametric(bad), 'point off the torus')


def near_axis(ctx, rad, place):
    """points close to the symmetry axis, where the branches of a spindle or horn torus meet"""
    tor, pos, ori = torus(rad, place)
    R, r = rad
    if r < R:
        return
    t0 = np.arccos(-R / r)
    for eps, p in itertools.product((1e-2, -1e-2, 2e-3, -2e-3, 3e-4, -3e-4), (.4, 1.9, -2.5)):
        for sgn in (1, -1):
            t = np.array([sgn * (t0 + (eps if r > R else eps * 10))])
            q = np.array([p])
            rho = R + r * np.cos(t)
            if abs(rho[0]) < 1e-5 * R:
                continue
            want = ref(rad, pos, ori, t, q)
            ctx.state('axis', rad, place, eps, p, sgn)
            a, b = tor.xyzw2parametric(np.hstack([want, [[1.]]]))
            ctx.step()
            ctx.close(ref(rad, pos, ori, a, b), want, 'angles lead back to the point', atol=3e-6 * abs(rho[0]) + 1e-8 * R)
            n = tor.normal(np.hstack([want, [[1.]]]))
            ctx.same(np.shape(n), (1, 4), 'shape of normal')
            loc = np.array([np.cos(t) * np.cos(q), np.sin(t), np.cos(t) * np.sin(q)]).T
            ctx.close(n[:, :3], loc @ ori.T, 'normal close to the axis', atol=1e-3)


def moved(ctx, rad, place, how):
    """a torus that is moved after it has been used"""
    tor, pos, ori = torus(rad, place)
    R, r = rad
    for step, to in enumerate(PL[::-1] + [place]):
        t, p = [x.ravel() for x in np.meshgrid(TH[1::5] + .05, PH[::6] + .1)]
        x = ref(rad, pos, ori, t, p)
        h = np.hstack([x, np.ones((len(x), 1))])
        ctx.state('moved', rad, place, how, step)
        ctx.step()
        ctx.close(tor.parametric(t, p), h, 'points', atol=1e-9 * (R + r))
        ctx.check(np.all(abs(tor.quartic(x)) < 1e-7 * (R + r)**4), 'quartic')
        a, b = tor.xyzw2parametric(h)
        ctx.close(ref(rad, pos, ori, a, b), x, 'angles', atol=2e-6 * (R + r))
        n_loc = np.stack([np.cos(t) * np.cos(p), np.sin(t), np.cos(t) * np.sin(p)], -1)
        ok = abs(R + r * np.cos(t)) > 1e-2 * R
        ctx.close(tor.normal(h)[ok, :3], (n_loc @ ori.T)[ok], 'normal', atol=1e-5)
        for i in range(0, len(t), 3):
            ctx.close(tor.normal(h[i:i + 1])[:, :3], n_loc[i:i + 1] @ ori.T, 'normal of one point', atol=1e-5)
        i = int(np.argmax(ok))
        v = n_loc[i] @ ori.T
        got = np.ravel(tor.solve_quartic(np.append(x[i] - .01 * r * v, 1), np.append(v, 0)))
        if R >= r:
            ctx.close(got[:3], x[i], 'intersection', atol=1e-5 * r)
        y = tor.xyz_from_radiusangle(.1 * r, .7, R + r)
        loc = (y - pos) @ ori
        ctx.close(loc[0, 1:], [.1 * r * np.cos(.7), .1 * r * np.sin(.7)], 'radius and angle', atol=1e-6 * r)
        pos, ori = placement(to)
        m = np.eye(4)
        m[:3, :3], m[:3, 3] = ori, pos
        if how == 'new':
            tor.pos4d = m
        elif how == 'inplace':
            tor.pos4d[...] = m
        else:
            tor.pos4d = m @ np.linalg.inv(tor.pos4d) @ tor.pos4d


def normals(ctx, rad, place):
    tor, pos, ori = torus(rad, place)
    t, p = grid(ctx)
    R, r = rad
    n_loc = np.stack([np.cos(t) * np.cos(p), np.sin(t), np.cos(t) * np.sin(p)], -1)
    want = n_loc @ ori.T
    got = tor.normal_parametric(t, p)
    ctx.step()
    ctx.close(got[:, 3], np.zeros(len(t)), 'homogeneous')
    ctx.close(got[:, :3], want, 'normal', atol=1e-9)
    rho = R + r * np.cos(t)
    regular = abs(rho) > 1e-4 * (R + r)
    xyzw = np.hstack([ref(rad, pos, ori, t, p), np.ones((len(t), 1))])[regular]
    got = tor.normal(xyzw)
    ctx.step()
    ctx.close(got[:, :3], want[regular], 'normal at point', atol=1e-5)
    ctx.close(got[:, 3], np.zeros(len(got)), 'homogeneous')
    # own tangents
    e = 1e-5
    for dt, dp in ((e, 0), (0, e)):
        tang = ref(rad, pos, ori, t + dt, p + dp) - ref(rad, pos, ori, t - dt, p - dp)
        tang = tang[regular] / np.linalg.norm(tang[regular], axis=1)[:, None]
        ctx.close(np.einsum('ij,ij->i', tang, got[:, :3]), np.zeros(len(got)), 'perpendicular to tangent', atol=1e-5)
    for i in range(len(t)):
        ctx.state('normal', rad, place, i)
    ctx.raises(ValueError, lambda: tor.normal(xyzw[0]), 'one point')
    ctx.raises(ValueError, lambda: tor.normal_parametric(np.ones((2, 2)), np.ones((2, 2))), '2d')


def solver(ctx, rad, place):
    tor, pos, ori = torus(rad, place)
    R, r = rad
    t, p = [x.ravel() for x in np.meshgrid(TH[1::4] + .05, PH[::5] + .1)]
    for i in range(len(t)):
        rho = R + r * np.cos(t[i])
        if abs(rho) < .2 * R:
            continue
        x0 = ref(rad, pos, ori, t[i:i + 1], p[i:i + 1])[0]
        n = (np.array([np.cos(t[i]) * np.cos(p[i]), np.sin(t[i]), np.cos(t[i]) * np.sin(p[i])])) @ ori.T
        tang = zoo.perp(n, 1. + i)
        for mix, dist in ((0., .01), (.5, -.01), (-.7, .02)):
            v = zoo.unit(n + mix * tang)
            start = x0 - dist * r * v
            for scale in (1., 3.):
                o, d = np.append(start, 1), np.append(v * scale, 0)
                ko, kd = o.copy(), d.copy()
                ctx.state('solve', rad, place, i, mix, scale)
                got = np.ravel(tor.solve_quartic(o, d))
                ctx.step()
                ctx.check(np.array_equal(o, ko) and np.array_equal(d, kd), 'input modified')
                ctx.close(got[3], 1, 'homogeneous')
                what = f'intersection theta {t[i]:.2f} phi {p[i]:.2f} mix {mix}'
                if R >= r:
                    ctx.close(got[:3], x0, what, atol=1e-5 * r)
                else:
                    # a spindle torus is crossed several times close to the start: any crossing will do
                    k = (got[:3] - start) @ v
                    ctx.close(start + k * v, got[:3], what + ': on the line', atol=1e-6 * r)
                    loc = (got[:3] - pos) @ ori
                    rho = np.hypot(loc[0], loc[2])
                    off = min(abs(np.hypot(s * rho - R, loc[1]) - r) for s in (1, -1))
                    ctx.close(off, 0, what + ': on the torus', atol=1e-5 * r)
                if mix == 0:
                    lo = np.append((start - pos) @ ori, 1)
                    ld = np.append(v @ ori * scale, 0)
                    got = np.ravel(tor.solve_quartic(lo, ld, transform=False))
                    if R >= r:
                        ctx.close(got[:3], (x0 - pos) @ ori, 'local coordinates', atol=1e-5 * r)


def radang(ctx, rad, place):
    tor, pos, ori = torus(rad, place)
    R, r = rad
    a = np.arange(-6, 7) * np.pi / 6 + .02
    for f in (0., .1, .25):
        rr = f * r
        got = tor.xyz_from_radiusangle(np.full(len(a), rr), a, R + r)
        ctx.step()
        ctx.same(np.shape(got), (len(a), 3), 'shape')
        loc = (got - pos) @ ori
        ctx.close(loc[:, 1], rr * np.cos(a), 'y', atol=1e-7 * r)
        ctx.close(loc[:, 2], rr * np.sin(a), 'z', atol=1e-7 * r)
        rho = R + np.sqrt(r**2 - loc[:, 1]**2)
        ctx.close(loc[:, 0], np.sqrt(rho**2 - loc[:, 2]**2), 'x on the outer surface', atol=1e-5 * r)
        for i in range(len(a)):
            ctx.state('ra', rad, place, f, i)
            one = tor.xyz_from_radiusangle(rr, a[i], [.9 * (R + r), 1.1 * (R + r)])
            ctx.close(np.reshape(one, 3), got[i], 'scalar input', atol=1e-5 * r)
            ctx.step()


def tube(ctx, rad, place):
    """cylinder that follows the Rowland circle: its wall at angle a is the torus at theta = a + rotation in the plane of the circle"""
    from marxs.math.geometry import Cylinder
    tor, pos, ori = torus(rad, place)
    a = np.arange(-6, 7) * np.pi / 6.5
    for rot in (0., .4, -2.5, np.pi, -np.pi, 4., 6., 9.):
        for kw in ({}, {'phi_lim': [-1., 2.]}):
            keep = dict(kw)
            cyl = Cylinder.from_rowland(tor, width=30., rotation=rot, kwargs=dict(kw))
            ctx.step()
            ctx.state('tube', rad, place, rot, len(keep))
            want = ref(rad, pos, ori, a + rot, np.zeros(len(a)))
            for z in (0., -12., 29.):
                w = want + z * ori[:, 2]
                # photons from the axis of the tube outwards
                axis = ref((rad[0], 0.), pos, ori, a, np.zeros(len(a))) + z * ori[:, 2]
                d = np.append(zoo.unit(w - axis), np.zeros((len(a), 1)), axis=1)
                h, p, loc = cyl.intersect(d, np.append(axis, np.ones((len(a), 1)), axis=1))
                exp = np.ones(len(a), bool) if not kw else (a >= -1.) & (a <= 2.)
                ctx.same(np.array(h, bool), exp, 'photons on the tube')
                ctx.close(p[exp, :3], w[exp], 'wall of the tube', rtol=1e-9, atol=1e-9 * sum(rad))
                ctx.close(loc[exp], np.stack([a[exp], np.full(exp.sum(), z)], 1), 'angle and height', atol=1e-7)
            h, p, loc = cyl.intersect(d, np.append(axis + 31. * ori[:, 2] - z * ori[:, 2], np.ones((len(a), 1)), axis=1))
            ctx.check(not np.any(h), 'above the tube')


def scenarios(ctx):
    yield from C.cases(tube, 'tube', RADII, PL)
    yield from C.cases(moved, 'moved', RADII, PL[:3], ['new', 'inplace', 'product'])
    for f, n in ((param, 'parametric'), (near_axis, 'near_axis'), (inverse, 'inverse'), (normals, 'normal'), (solver, 'solver'), (radang, 'radiusangle')):
        yield from C.cases(f, n, RADII, PL)
