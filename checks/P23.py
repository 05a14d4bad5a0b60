"""Array structures (rectangular grid, circular mesh, grating array) x tori (ring, horn, spindle, tilted; at several places) x
ranges/sizes (exact and inexact multiples, single elements, one-sided, wrap-around) x normal and parallel specifications,
against own placement algebra: every centre on the torus and on the line through its grid position, orientation, ids, numbers."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

TORI = {'horn': (10000., 10000., 'unit'), 'ring': (7000., 5000., 'gen'), 'spindle': (5915.5, 5980., 'zxy'), 'far': (6000., 6000., 'flip'), 'tilt': (6000., 5900., 'tilt')}
NORM = ['default', 'dir', 'point', 'scaled', 'func']
PAR = ['default', 'dir', 'point', 'func']


def torus(name):
    from marxs.design.rowland import RowlandTorus
    R, r, place = TORI[name]
    p = PLACES[place]
    pos, ori = np.array(p['position'], float), np.array(p['orientation'], float)
    return RowlandTorus(R=R, r=r, position=list(pos), orientation=ori), R, r, pos, ori


def facet():
    from marxs.optics.base import FlatOpticalElement
    return FlatOpticalElement


def spec_kw(norm, par, pos, ori):
    kw = {}
    pt = np.append(pos + ori @ [100., 50., -20.], 1)
    if norm == 'dir':
        kw['normal_spec'] = np.append(ori @ zoo.unit([1, .1, .2]), 0)
    elif norm == 'point':
        kw['normal_spec'] = pt
    elif norm == 'scaled':
        kw['normal_spec'] = pt * 2.
    elif norm == 'func':
        kw['normal_spec'] = lambda xyzw: np.tile(np.append(ori @ zoo.unit([-1, .3, 0]), 0), (len(xyzw), 1))
    if par == 'dir':
        kw['parallel_spec'] = np.append(ori @ [0., .2, 1.], 0)
    elif par == 'point':
        kw['parallel_spec'] = np.append(pos + ori @ [50., 1e5, 3e4], 1)
    elif par == 'func':
        kw['parallel_spec'] = lambda xyzw, n: np.tile(np.append(ori @ zoo.unit([0., 1., 0]), 0), (len(xyzw), 1)) + .1 * np.cross(zoo.unit(n[:, :3]), ori[:, 2]) @ np.eye(3, 4)
    return kw


def check(ctx, arr, tname, yz, norm, par, guess, axis=None, kw=None, msg=''):
    """yz: expected positions in the torus system (any order)"""
    tor, R, r, pos, ori = torus(tname)
    ax = np.array([1., 0, 0]) if axis is None else axis            # local
    n = len(yz)
    ctx.same(len(arr.elem_pos), n, msg + ' number of elements')
    ctx.same(len(arr.elements), n, msg + ' number of elements')
    if n == 0:
        return
    m = np.array([e.pos4d for e in arr.elements])
    m0 = np.array(arr.elem_pos)
    ctx.close(m0[:, :3, 3], m[:, :3, 3], msg + ' elem_pos')
    cen = (m[:, :3, 3] - pos) @ ori
    rho = np.hypot(cen[:, 0], cen[:, 2])
    d = np.minimum(abs(np.hypot(rho - R, cen[:, 1]) - r), abs(np.hypot(rho + R, cen[:, 1]) - r))
    ctx.check(d.max() < 1e-2, lambda: f'{msg}: center {d.max()} mm off the torus')
    # on the line through the grid position
    proj = cen - (cen[:, :1] / ax[0]) * ax
    got = proj[:, 1:]
    used = np.zeros(n, bool)
    order = []
    for w in np.array(yz).reshape(-1, 2):
        dist = np.abs(got - w).max(1) + 1e9 * used
        k = int(np.argmin(dist))
        ctx.check(dist[k] < 1e-6 * (1 + np.abs(w).max()), lambda: f'{msg}: no element at y, z = {w}, closest {got[k]}')
        used[k] = True
        order.append(k)
    # the right one out of the intersections of the line with the torus
    if guess < 0:
        ctx.check(np.all(cen[:, 0] < -R), msg + ' far side')
    elif guess > r:
        ctx.check(np.all(cen[:, 0] > R), msg + ' outer surface')
    else:
        ctx.check(np.all(cen[:, 0] < R), msg + ' inner surface')
    # orientation
    kwo = spec_kw(norm, par, pos, ori)
    cw = m[:, :3, 3]
    if norm == 'default':
        rs = np.where(abs(np.hypot(rho - R, cen[:, 1]) - r) <= abs(np.hypot(rho + R, cen[:, 1]) - r), 1, -1) * rho
        rad = np.stack([cen[:, 0] / rs, np.zeros(n), cen[:, 2] / rs], -1)
        c = R * rad
        ex = -(cen - c) / r @ ori.T
        ex = np.where((abs(rho) > 1e-3)[:, None], ex, np.nan)
    elif norm in ('point', 'scaled'):
        ex = cw - kwo['normal_spec'][:3] / kwo['normal_spec'][3]
    elif norm == 'func':
        ex = kwo['normal_spec'](cw)[:, :3]
    else:
        ex = np.tile(kwo['normal_spec'][:3], (n, 1))
    ex = ex / np.linalg.norm(ex, axis=1)[:, None]
    if par == 'default':
        pv = np.tile(ori[:, 1], (n, 1))
    elif par == 'point':
        pv = cw - kwo['parallel_spec'][:3]
    elif par == 'func':
        pv = kwo['parallel_spec'](cw, np.hstack([ex, np.zeros((n, 1))]))[:, :3]
    else:
        pv = np.tile(kwo['parallel_spec'][:3], (n, 1))
    ey = pv - np.einsum('ij,ij->i', pv, ex)[:, None] * ex
    ey /= np.linalg.norm(ey, axis=1)[:, None]
    good = np.all(np.isfinite(ex), axis=1)
    ctx.check(good.sum() >= n - 1, 'reference')
    zoom = np.linalg.norm(m[:, :3, :3], axis=1)
    e = m[:, :3, :3] / zoom[:, None, :]
    ctx.close(e[good][:, :, 0], ex[good], msg + ' normal', atol=1e-4)
    ctx.close(e[good][:, :, 1], ey[good], msg + ' parallel', atol=1e-4)
    ctx.close(e[good][:, :, 2], np.cross(ex, ey)[good], msg + ' right handed', atol=1e-4)
    wz = np.broadcast_to((kw or {}).get('zoom', 1.), 3)
    ctx.close(zoom, np.tile(wz, (n, 1)), msg + ' size')
    ids = [x.id_num for x in arr.elements]
    ctx.same(ids, list(range(n)), msg + ' ids')


def row(lo, hi, d):
    n = max(1, int(np.ceil((hi - lo) / d)))
    return (lo + hi) / 2 + (np.arange(n) - (n - 1) / 2) * d


RANGES = [([-100., 100.], [-1e-10, 1e-10]), ([-100., 100.], None), ([300., 480.], [-90., 60.]), ([-30., -30.], [5., 5.]), ([0., 31.], [10., 20.]),
          ([-61., 90.], [-90., -1.]), ([400., 700.], None), ([-900., -600.], [-1e-10, 1e-10])]


def rect(ctx, tname, k, d, guess, norm, par):
    from marxs.design.rowland import RectangularGrid
    tor, R, r, pos, ori = torus(tname)
    yr, zr = RANGES[k]
    kw = spec_kw(norm, par, pos, ori)
    rng_kw = {'y_range': list(yr)}
    if zr is not None:
        rng_kw['z_range'] = list(zr)
    g = {'outer': R + r, 'inner': 25., 'far': -(R + r)}[guess]
    if guess == 'inner' and not (abs(R - r) < 1e-3 * r):
        g = R - r - 20.
    if g != R + r:
        rng_kw['guess_distance'] = g
    de = list(d)
    ea = {'zoom': [1., d[0] / 2, d[1] / 2]}
    arr = RectangularGrid(rowland=tor, d_element=de, elem_class=facet(), elem_args=ea, **rng_kw, **kw)
    ctx.step()
    ctx.same((de, ea.get('zoom')), (list(d), [1., d[0] / 2, d[1] / 2]), 'arguments modified')
    ctx.state('rect', tname, k, d, guess, norm, par)
    yz = list(itertools.product(row(*yr, d[0]), row(*(zr or [-1e-10, 1e-10]), d[1])))
    check(ctx, arr, tname, yz, norm, par, g, kw=ea, msg=f'rect {RANGES[k]} {d}')


def axis(ctx, tname, k):
    """elements moved along another axis"""
    from marxs.design.rowland import RectangularGrid
    tor, R, r, pos, ori = torus(tname)
    loc = zoo.unit([(1., .05, -.03), (1., -.1, 0.), (.9, 0., .2)][k])
    arr = RectangularGrid(rowland=tor, d_element=[40., 60.], y_range=[-100, 100], z_range=[-60, 60], elem_class=facet(), guess_distance=(R + r) * .98,
                          optimize_axis=np.append(ori @ loc, 0))
    ctx.step()
    ctx.state('axis', tname, k)
    yz = list(itertools.product(row(-100, 100, 40.), row(-60, 60, 60.)))
    check(ctx, arr, tname, yz, 'default', 'default', R + r, axis=loc, msg='axis')


def mesh(ctx, tname, rad, d, norm):
    from marxs.design.rowland import CircularMeshGrid
    tor, R, r, pos, ori = torus(tname)
    arr = CircularMeshGrid(rowland=tor, d_element=list(d), radius=list(rad), elem_class=facet(), **spec_kw(norm, 'default', pos, ori))
    ctx.step()
    ctx.state('mesh', tname, rad, d, norm)
    n_y = int(np.ceil(2 * rad[1] / d[0]))
    yz = []
    for i in range(n_y):
        y = (i - n_y / 2) * d[0]
        if y >= rad[1]:
            continue
        if abs(y) > rad[1]:
            yz.append((y, 0.))
            continue
        zo = np.sqrt(rad[1]**2 - y**2)
        if abs(y) > rad[0]:
            n = int(np.ceil(2 * zo / d[1]))
            yz += [(y, (j - n / 2) * d[1]) for j in range(n)]
        else:
            zi = np.sqrt(rad[0]**2 - y**2)
            n = int(np.ceil((zo - zi) / d[1]))
            for j in range(n):
                z = (zi + zo) / 2 + (j - n / 2) * d[1]
                yz += [(y, z), (y, -z)]
    check(ctx, arr, tname, yz, norm, 'default', R + r, msg=f'mesh {rad} {d}')


def mesh_overlap(ctx):
    """elements of a mesh do not overlap"""
    from marxs.design.rowland import CircularMeshGrid
    tor, R, r, pos, ori = torus('horn')
    arr = CircularMeshGrid(rowland=tor, d_element=[30., 50.], radius=[0., 111.], elem_class=facet())
    ctx.step()
    ctx.state('mesh_overlap')
    yz = np.array([e.pos4d[1:3, 3] for e in arr.elements])
    for i in range(len(yz)):
        dd = np.abs(yz - yz[i])
        dd[i] = 1e9
        ctx.check(not np.any((dd[:, 0] < 29.9) & (dd[:, 1] < 49.9)), f'element {i} overlaps another one')


PHI = {'full': [0., 2 * np.pi], 'default': None, 'wrap': [-.2 * np.pi, .2 * np.pi], 'wrap2': [1.8 * np.pi, .2 * np.pi], 'quarter': [.3, 1.9],
       'narrow': [1., 1.07], 'one': 1.2, 'onelist': [2.5], 'far': [2., 3.1],
       'one2': 4.5, 'oneneg': -2.}
RAD = [([300., 600.], (30., 30.)), ([300., 400.], (60., 45.)), ([300., 400., 500., 540.], (60., 60.)), ([150., 160.], (60., 20.))]


def centers(phi, r, d, ea):
    lo, hi = phi
    dp = hi - lo
    if dp < 0 or dp > 2 * np.pi:
        dp %= 2 * np.pi
    n = int((r - d[0] / 2) * dp // d[1])
    gap = (dp - n * ea) / (n + 1)
    return lo + gap + ea / 2 + np.arange(n) * (gap + ea)


def gas_expect(pname, radii, d, conv):
    rr, phi = [], PHI[pname]
    for i in range(0, len(radii), 2):
        n = int(np.ceil((radii[i + 1] - radii[i]) / d[0]))
        rr += list((radii[i] + radii[i + 1]) / 2 + (np.arange(n) - (n - 1) / 2) * d[0])
    yz = []
    for r in rr:
        if phi is None:
            a = centers([0, 2 * np.pi], r, d, d[1] / r / conv[1])
        elif np.size(phi) == 1:
            a = np.atleast_1d(phi)
        else:
            a = centers(phi, r, d, d[1] / r / conv[1])
        c, s = r * np.cos(a), r * np.sin(a)
        yz += list(zip(c, s) if conv[0] == 'y' else zip(s, c))
    return yz


CONV = [('y', 1.), ('z', 1.), ('y', 2 * np.pi), ('z', 2 * np.pi)]   # documented, and the variants listed as known findings


def gas(ctx, tname, pname, k, norm):
    from marxs.design.rowland import GratingArrayStructure
    tor, R, r, pos, ori = torus(tname)
    radii, d = RAD[k]
    kw = {} if PHI[pname] is None else {'phi': PHI[pname]}
    if len(gas_expect(pname, radii, d, CONV[0])) == 0:
        return    # no space for any element
    arr = GratingArrayStructure(rowland=tor, d_element=list(d), radius=list(radii), elem_class=facet(), **kw, **spec_kw(norm, 'default', pos, ori))
    ctx.step()
    ctx.state('gas', tname, pname, k, norm)
    cen = (np.array([e.pos4d[:3, 3] for e in arr.elements]).reshape(-1, 3) - pos) @ ori
    for conv in CONV:
        yz = np.array(gas_expect(pname, radii, d, conv)).reshape(-1, 2)
        if len(yz) == len(cen) and np.all([np.min(np.abs(cen[:, 1:] - w).max(1)) < 1e-6 * 1e3 for w in yz]):
            break
    else:
        conv = CONV[0]
        yz = np.array(gas_expect(pname, radii, d, conv)).reshape(-1, 2)
    check(ctx, arr, tname, yz, norm, 'default', R + r, msg=f'GAS {radii} {d} {pname}')


def gas_axis(ctx):
    """documented: phi=0 is on the positive y axis, counted counterclockwise"""
    from marxs.design.rowland import GratingArrayStructure
    tor, R, r, pos, ori = torus('horn')
    for p in (0., .4):
        arr = GratingArrayStructure(rowland=tor, d_element=[30., 30.], radius=[300., 330.], elem_class=facet(), phi=[p])
        ctx.step()
        ctx.state('axis', p)
        c = arr.elements[0].pos4d[:3, 3]
        ctx.close(c[1:], [315 * np.cos(p), 315 * np.sin(p)], 'position for phi')


def gas_overlap(ctx):
    """elements on a crowded arc do not overlap"""
    from marxs.design.rowland import GratingArrayStructure
    tor, R, r, pos, ori = torus('horn')
    rr = 30. / .1 + 15
    arr = GratingArrayStructure(rowland=tor, d_element=[30., 30.], radius=[rr - 15, rr + 15], elem_class=facet(), phi=[0, 1.0001])
    ctx.step()
    ctx.state('overlap')
    c = np.array([e.pos4d[1:3, 3] for e in arr.elements])
    a = np.unwrap(np.arctan2(c[:, 1], c[:, 0]))
    ctx.check(np.min(np.abs(np.diff(a))) * (rr - 15) >= 30 * .999, 'neighbouring elements overlap')


def methods(ctx, pname, k):
    """public helpers report what was built"""
    from marxs.design.rowland import GratingArrayStructure
    tor, R, r, pos, ori = torus('horn')
    radii, d = RAD[k]
    if PHI[pname] is None or np.size(PHI[pname]) == 1 or len(gas_expect(pname, radii, d, CONV[0])) == 0:
        return
    arr = GratingArrayStructure(rowland=tor, d_element=list(d), radius=list(radii), elem_class=facet(), phi=PHI[pname])
    rr = arr.distribute_elements_on_radius()
    ctx.step()
    ctx.state('meth', pname, k)
    want = []
    for i in range(0, len(radii), 2):
        n = int(np.ceil((radii[i + 1] - radii[i]) / d[0]))
        ctx.same(int(arr.max_elements_on_radius(radii[i:i + 2])), n, 'max_elements_on_radius')
        want += list((radii[i] + radii[i + 1]) / 2 + (np.arange(n) - (n - 1) / 2) * d[0])
    ctx.close(rr, want, 'radii')
    for x in want:
        a = np.asarray(arr.distribute_elements_on_arc(x))
        lo, hi = PHI[pname]
        dp = hi - lo
        dp = dp % (2 * np.pi) if dp < 0 or dp > 2 * np.pi else dp
        n = int(arr.max_elements_on_arc(x))
        ctx.same(n, int(x * dp // d[1]), 'max_elements_on_arc')
        off = (a - lo) % (2 * np.pi)
        ctx.check(np.all(off <= dp - .5 * d[1] / x + 1e-9) and np.all(off >= .5 * d[1] / x - 1e-9), 'elements stay inside of the limits')
        ctx.same(len(a), int((x - d[0] / 2) * dp // d[1]), 'number on arc')
        if len(a):
            ctx.close(np.sort(off) + np.sort(off)[::-1], np.full(len(a), dp), 'symmetric', atol=1e-9)
            if len(a) > 2:
                df = np.diff(np.sort(off))
                ctx.close(df, np.full(len(df), df[0]), 'evenly spaced', atol=1e-9)


def moved(ctx, tname, place):
    """pos4d of the whole structure moves all elements; elem_args orientation acts in the element system"""
    from marxs.design.rowland import RectangularGrid
    tor, R, r, pos, ori = torus(tname)
    p4 = zoo.pos4d(dict(PLACES[place], zoom=1.)) if place in PLACES else np.eye(4)
    if place == 'little':
        p4[:3, 3] = [1e-3, -.4, .02]
    elif place == 'turned':
        p4[:3, :3] = zoo.rot_x(2e-4)
    rot = zoo.rot_x(.3) @ zoo.rot_z(.2)
    kw = dict(rowland=tor, d_element=[40., 60.], y_range=[-100, 100], z_range=[-60, 60], elem_class=facet())
    base = RectangularGrid(**kw)
    mv = RectangularGrid(pos4d=p4, **kw)
    tw = RectangularGrid(elem_args={'orientation': rot, 'zoom': [1., 20., 30.]}, **kw)
    ctx.step(3)
    ctx.state('moved', tname, place)
    ctx.same(len(mv.elements), len(base.elements), 'number')
    for a, b, c in zip(base.elements, mv.elements, tw.elements):
        ctx.close(b.pos4d, p4 @ a.pos4d, 'moved', atol=1e-6)
        w = a.pos4d.copy()
        w[:3, :3] = a.pos4d[:3, :3] @ rot @ np.diag([1, 20, 30])
        ctx.close(c.pos4d, w, 'rotated in place', atol=1e-6)


def ids(ctx, tname, col, off):
    """one photon on every element: its number in the column with the name given by the user"""
    from marxs.design.rowland import RectangularGrid
    from marxs.optics import FlatDetector
    tor, R, r, pos, ori = torus(tname)
    kw = {}
    if col is not None:
        kw['id_col'] = col
    if off:
        kw['id_num_offset'] = off
    arr = RectangularGrid(rowland=tor, d_element=[40., 60.], y_range=[-100, 100], z_range=[-60, 60], elem_class=FlatDetector,
                          elem_args={'zoom': [1., 16., 24.]}, **kw)
    cen = np.array([e.pos4d[:3, 3] for e in arr.elements])
    n = len(cen)
    for perm in (np.arange(n), np.arange(n)[::-1], np.roll(np.arange(n), 3)):
        p = zoo.photons('unit', list(zip(cen[perm] + 50. * ori[:, 0] + 5. * ori[:, 1], np.tile(-ori[:, 0], (n, 1)))))
        p = arr(p)
        ctx.step()
        ctx.state(tname, col, off, tuple(perm))
        name = col or 'facet'
        ctx.check(name in p.colnames, 'column with element number')
        ctx.same(list(p[name]), list(perm + off), 'element number')
        ctx.check('facet' not in p.colnames or name == 'facet', 'only one column')


def scenarios(ctx):
    D = [(30., 30.), (49.652, 20.), (300., 17.)]
    yield from C.cases(rect, 'rect', list(TORI), range(len(RANGES)), D, ['outer'], ['default'], ['default'])
    yield from C.cases(rect, 'rect_in', ['horn', 'ring', 'far'], [1, 6, 7], D[:2], ['inner'], ['default'], ['default'])
    yield from C.cases(rect, 'rect_far', list(TORI), [1, 6, 7], D[:2], ['far'], ['default'], ['default'])
    yield from C.cases(rect, 'rect_spec', list(TORI), [2, 5], D[:1], ['outer'], NORM, PAR)
    yield from C.cases(axis, 'axis', list(TORI), range(3))
    R = [(100., 300.), (0., 111.), (77., 205.), (50., 55.)]
    yield from C.cases(mesh, 'mesh', list(TORI) if ctx.thorough else ['horn', 'gen', 'zxy'][:1] + ['ring', 'spindle'], R, [(30., 50.), (45., 20.), (130., 40.)], ['default'] if not ctx.thorough else NORM)
    yield from C.cases(gas, 'gas', list(TORI) if ctx.thorough else ['horn', 'ring', 'spindle'], list(PHI), range(len(RAD)), ['default'])
    yield from C.cases(gas, 'gas_spec', ['ring'], ['wrap', 'one'], [1], NORM[1:])
    yield 'mesh_overlap', mesh_overlap
    yield 'gas_phi_axis', gas_axis
    yield 'gas_overlap', gas_overlap
    yield from C.cases(methods, 'methods', list(PHI), range(len(RAD)))
    yield from C.cases(ids, 'ids', list(TORI), [None, 'grating_id', 'ccd'], [0, 17])
    yield from C.cases(moved, 'moved', list(TORI), zoo.NAMES[1:] + ['little', 'turned'])
