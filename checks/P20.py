"""All ordered pairs of directions from a sphere set (axes, face and body diagonals, generic, nearly parallel and antiparallel
vectors) x lengths of the vectors x polarization angles x Jones matrices (identity, polarizers, retarders, general)
x batch forms (single rows, whole batch), against own vector algebra (no matrices of the code are reused)."""
import itertools
import numpy as np
import astropy.units as u
from mc import zoo
from . import _common as C


def sphere(thorough):
    out = [np.array(v, float) for v in itertools.product([-1, 0, 1], repeat=3) if any(v)]
    out += [np.array(v) for v in [(.3, -.5, .8), (-.1, .02, -1.), (1e-3, 1., 2e-3), (1., 1e-6, 0), (-.7, .7, .01), (0, -1, 1e-4)]]
    if thorough:
        out += [np.array(v, float) for v in itertools.product([-2, -1, 1, 3], repeat=3)]
    return [zoo.unit(v) for v in out]


SCALES = [1., 2.5, 1e-3]
ANG = np.arange(-4, 13) * np.pi / 6


def polvec(ctx, scale, form):
    from marxs.math.polarization import polarization_vectors
    ds = sphere(ctx.thorough)
    for d in ds:
        dirs = np.zeros((len(ANG), 4))
        dirs[:, :3] = d * scale
        keep = dirs.copy()
        ang = {'plain': ANG, 'rad': ANG * u.rad, 'deg': np.rad2deg(ANG) * u.deg}[form]
        pol = np.asarray(polarization_vectors(dirs, ang))
        ctx.step()
        ctx.state('pv', tuple(d), scale, form)
        ctx.same(dirs, keep, 'input modified')
        if np.hypot(d[0], d[2]) < 1e-9:
            ref = np.array([1., 0, 0])
        else:
            ref = np.array([0., 1, 0])
        v1 = zoo.unit(ref - d * (ref @ d))
        # perpendicular to d, closest to the axis for angle 0; right handed v1, v2, d
        v2 = np.cross(d, v1)
        want = np.cos(ANG)[:, None] * v1 + np.sin(ANG)[:, None] * v2
        ctx.close(pol[:, :3], want, f'polarization for dir {d}', atol=2e-8 if abs(d[1]) < .999 else 1e-5)
        ctx.close(pol[:, 3], np.zeros(len(ANG)), 'homogeneous')
    # mixed batch
    dirs = np.array([np.append(d * scale, 0) for d in ds])
    a = np.resize(ANG, len(ds))
    got = np.asarray(polarization_vectors(dirs, a))
    for i, d in enumerate(ds):
        ctx.close(got[i], np.asarray(polarization_vectors(dirs[i:i + 1], a[i:i + 1]))[0], f'batch row {i}', atol=1e-12)
    ctx.same(polarization_vectors(np.zeros((0, 4)), np.zeros(0)).shape, (0, 4), 'empty')


JONES = {'default': None, 'id': np.eye(2), 's': np.diag([1., 0]), 'p': np.diag([0., 1]), 'half': np.diag([1., -1]), 'gen': np.array([[.3, .2], [-.5, .7]]),
         'zero': np.zeros((2, 2))}


def rotate(v, axis, d1, d2):
    """own parallel transport: rotation about axis taking d1 to d2 (Rodrigues)"""
    c, s = d1 @ d2, np.linalg.norm(np.cross(d1, d2))
    return v * c + np.cross(axis, v) * s + axis * (axis @ v) * (1 - c)


def transport(ctx, jname, replace, lengths):
    from marxs.math.polarization import paralleltransport_matrix
    ds = sphere(ctx.thorough)
    J = JONES[jname]
    kw = {} if J is None else {'jones': J}
    if not replace:
        kw['replace_nans'] = False
    j = np.eye(2) if J is None else J
    pairs = list(itertools.product(range(len(ds)), repeat=2))
    d1 = np.array([ds[a] for a, b in pairs])
    d2 = np.array([ds[b] for a, b in pairs])
    # very small deflections, and directions that are nearly reversed
    for x in ds:
        for k, delta in enumerate((1e-2, 1e-4, 1e-5, 3e-6)):
            for sg in (1, -1):
                pairs.append((tuple(x), delta * sg))
                d1 = np.vstack([d1, x])
                d2 = np.vstack([d2, sg * (np.cos(delta) * x + np.sin(delta) * zoo.perp(x, .3 + k))])
    l1, l2 = lengths
    k1, k2 = d1 * l1, d2 * l2
    a1, a2 = k1.copy(), k2.copy()
    jk = None if J is None else J.copy()
    m = paralleltransport_matrix(k1, k2, **kw)
    ctx.step()
    if J is not None:
        ctx.same(J, jk, 'Jones matrix modified')
    ctx.same(k1, a1, 'input modified')
    ctx.same(k2, a2, 'input modified')
    ctx.same(m.shape, (len(pairs), 3, 3), 'shape')
    for i in range(len(pairs)):
        x, y = d1[i], d2[i]
        ctx.state('pt', pairs[i], jname, replace, l1, l2)
        cr = np.cross(x, y)
        n = np.linalg.norm(cr)
        if n < 1e-12:
            ctx.same(bool(np.isnan(m[i]).any()), not replace, f'{x}->{y} undefined plane')
            if replace:
                ctx.close(m[i], np.eye(3), f'{x} -> {y} unchanged direction')
            continue
        if n < 1e-6:
            continue  # accuracy limit of the s, p system
        s = cr / n
        p1, p2 = np.cross(x, s), np.cross(y, s)
        want = np.outer(y, x)
        for (a, b), f in np.ndenumerate(j):
            want = want + f * np.outer([s, p2][a], [s, p1][b])
        ctx.close(m[i], want, f'{x} -> {y} Jones {jname}', atol=1e-9)
        if jname in ('default', 'id'):
            for v in np.eye(3):
                ctx.close(m[i] @ v, rotate(v, s, x, y), f'{x}->{y}: not the rotation in the plane of both directions', atol=1e-8)
            ctx.close(m[i] @ m[i].T, np.eye(3), 'orthogonal', atol=1e-9)
    # row by row gives the same
    for i in range(0, len(pairs), 37):
        ctx.close(paralleltransport_matrix(k1[i:i + 1], k2[i:i + 1], **kw)[0], m[i], f'row {i} alone', atol=1e-12)


def vectors(ctx, jname, replace):
    from marxs.math.polarization import parallel_transport
    ds = sphere(ctx.thorough)
    J = JONES[jname]
    kw = {} if J is None else {'jones': J}
    if not replace:
        kw['replace_nans'] = False
    j = np.eye(2) if J is None else J
    for x in ds:
        old = np.array([np.append(x, 0)] * len(ds))
        new = np.array([np.append(y, 0) for y in ds])
        for ang in ANG[:7]:
            pol = np.array([np.append(zoo.perp(x, ang), 0)] * len(ds))
            keep = pol.copy()
            out = parallel_transport(old, new, pol, **kw)
            ctx.step()
            ctx.same(pol, keep, 'input modified')
            ctx.same(out.shape, pol.shape, 'shape')
            ctx.same(out[:, 3], np.zeros(len(ds)), 'homogeneous')
            for i, y in enumerate(ds):
                ctx.state('vec', tuple(x), i, jname, replace, round(ang, 3))
                cr = np.cross(x, y)
                n = np.linalg.norm(cr)
                if n < 1e-12:
                    if replace:
                        ctx.close(out[i], pol[i], f'{x}->{y} unchanged')
                    else:
                        ctx.check(np.all(np.isnan(out[i, :3])), 'NaN requested for undefined plane')
                    continue
                if n < 1e-6:
                    continue
                s = cr / n
                e = j @ [s @ pol[i, :3], np.cross(x, s) @ pol[i, :3]]
                ctx.close(out[i, :3], e[0] * s + e[1] * np.cross(y, s), f'{x}->{y} polarization', atol=1e-9)


def reflection(ctx, scale):
    from marxs.math.polarization import Q_reflection
    ds = sphere(ctx.thorough)
    delta, info = [], []
    for x in ds:
        for y in ds:
            if np.linalg.norm(x - y) > 1e-3:
                delta.append(np.append((x - y) * scale, 0))
                info.append((x, y))
    delta = np.array(delta)
    keep = delta.copy()
    q = Q_reflection(delta)
    ctx.step()
    ctx.same(delta, keep, 'input modified')
    ctx.same(q.shape, (len(delta), 4, 4), 'shape')
    for i, (x, y) in enumerate(info):
        ctx.state('q', i, scale)
        ctx.close(q[i] @ np.append(x, 0), np.append(y, 0), f'{x} not mapped to {y}', atol=1e-9)
        ctx.close(q[i] @ q[i], np.eye(4), 'involution', atol=1e-9)
        for v in ([0, 0, 1.], [1., 2, -1], [.3, .1, -.4]):
            n = zoo.unit(x - y)
            v = np.array(v)
            ctx.close(q[i] @ np.append(v, 0), np.append(v - 2 * n * (n @ v), 0), 'mirror image', atol=1e-9)
    ctx.raises(ValueError, lambda: Q_reflection(np.array([1., 0, 0, 0])), 'one dimensional input')


def scenarios(ctx):
    yield from C.cases(polvec, 'polvec', SCALES, ['plain', 'rad', 'deg'])
    yield from C.cases(transport, 'transport', list(JONES), [True, False], [(1., 1.), (3., .01)])
    yield from C.cases(vectors, 'vectors', list(JONES), [True, False])
    yield from C.cases(reflection, 'reflect', SCALES)
