"""Grids over focal length, alpha, beta (both signs) for the tilted torus; channel distance, R, f and all sets of up to 4 of 8 channel
names with offsets for the double torus (once and twice applied), against circle geometry; cones of photons for the shell radius."""
import itertools
import numpy as np
from astropy.table import Table
from mc import zoo
from . import _common as C

F = [10., 5000., 11880., 12000.]
ANG = [-.3, -.15, -.07, 0., .03, .0524, .15, .4]


def on_torus(R, r, pos, ori, pt):
    """distance of a point from the surface, own algebra"""
    x = (np.asarray(pt, float) - pos) @ ori
    rho = np.hypot(x[0], x[2])
    return min(abs(np.hypot(rho - R, x[1]) - r), abs(np.hypot(rho + R, x[1]) - r))


def tilted(ctx, f, alpha):
    from marxs.design.rowland import design_tilted_torus, RowlandTorus
    for beta in ANG:
        R, r, p4 = design_tilted_torus(f, alpha, beta)
        ctx.step()
        ctx.state('tilt', f, alpha, beta)
        m = np.asarray(p4)
        ori, pos = m[:3, :3], m[:3, 3]
        ctx.close(ori.T @ ori, np.eye(3), 'orthogonal', atol=1e-12)
        ctx.close(np.linalg.det(ori), 1, 'proper rotation')
        ctx.close(ori @ [0, 0, 1.], [0, 0, 1.], 'circle in the xy plane', atol=1e-12)
        ctx.close(pos[2], 0, 'circle in the xy plane', atol=1e-12)
        ctx.close(m[3], [0, 0, 0, 1], 'affine')
        ctx.check(on_torus(R, r, pos, ori, [0, 0, 0]) < 1e-9 * f, 'focal point is on the torus')
        ctx.check(on_torus(R, r, pos, ori, [f, 0, 0]) < 1e-9 * f, 'on-axis grating is on the torus')
        cen = pos + R * ori[:, 0]
        ctx.close(np.hypot(*cen[:2]), r, 'Rowland circle through focal point', rtol=1e-9)
        ctx.close(np.hypot(cen[0] - f, cen[1]), r, 'Rowland circle through grating', rtol=1e-9)
        ctx.close(np.arctan2(cen[1], f - cen[0]), alpha, 'angle alpha at the grating', atol=1e-9)
        # symmetry axis through focal point and hinge, which is seen from the grating at angle beta
        ax = ori[:, 1]
        ctx.close(np.cross(ax, pos)[2] / f, 0, 'axis of symmetry through focal point', atol=1e-10)
        hinge = 2 * (cen[:2] @ ax[:2]) * ax[:2]
        if np.linalg.norm(hinge) > 1e-6 * f:
            ctx.close(np.hypot(hinge[0] - cen[0], hinge[1] - cen[1]), r, 'hinge on circle', rtol=1e-8)
            ctx.close(np.arctan2(hinge[1], f - hinge[0]), beta, 'angle beta at the grating', atol=1e-8)
        else:
            ctx.close(beta, 0, 'hinge coincides with the focus only for beta=0', atol=1e-6)
        # mirrored design
        R2, r2, p2 = design_tilted_torus(f, -alpha, -beta)
        ctx.close([R2, r2], [R, r], 'mirrored radii')
        mir = np.diag([1., -1, 1, 1])
        mm = mir @ m @ np.diag([1., -1, 1, 1])
        ctx.close(p2, mm, 'mirrored torus', atol=1e-9 * f)
        t = RowlandTorus(R, r, pos4d=p4)
        ctx.check(abs(t.quartic(np.array([[0., 0, 0], [f, 0, 0]]))).max() < 1e-7 * (R + r)**4, 'quartic')
        # scale invariance
        R3, r3, p3 = design_tilted_torus(f * 2, alpha, beta)
        ctx.close([R3, r3], [2 * R, 2 * r], 'scale')
        ctx.close(p3[:3, 3], 2 * pos, 'scale', atol=1e-9 * f)


DBL = [(600., 6000., 12000.), (100, 500, 1000.), (750., 5915.51307, 11876.430761), (1., 700., 900.), (2000., 4000., 9000.)]


def geo(t):
    m = np.asarray(t.pos4d, float)
    return t.R, t.r, m[:3, 3], m[:3, :3]


def circle(ctx, t, pts, off, f, msg):
    R, r, pos, ori = geo(t)
    ctx.close(ori.T @ ori, np.eye(3), msg + ' orthogonal', atol=1e-12)
    ctx.close(np.linalg.det(ori), 1, msg + ' proper')
    ctx.close(ori @ [0, 0, 1.], [0, 0, 1.], msg + ' plane', atol=1e-12)
    cen = pos + R * ori[:, 0]
    for p in pts:
        q = np.array([p[0], p[1], 0]) + off
        ctx.check(on_torus(R, r, pos, ori, q) < 1e-9 * f, f'{msg}: {q} not on the torus')
        ctx.close(np.linalg.norm(cen - q), r, f'{msg}: {q} not on the Rowland circle', rtol=1e-9)


def double(ctx, k):
    from marxs.design.rowland import double_rowland_from_channel_distance
    d_BF, R, f = DBL[k]
    g = double_rowland_from_channel_distance(d_BF, R, f)
    ctx.step()
    ctx.state('double', k)
    base_checks(ctx, g, d_BF, R, f)
    ctx.same(set(g['pos_opt_ax']), {'1', '1m'}, 'channels')
    ctx.close(g['pos_opt_ax']['1'], [0, -d_BF / 2, 0, 1], 'optical axis 1')
    ctx.close(g['pos_opt_ax']['1m'], [0, d_BF / 2, 0, 1], 'optical axis 1m')
    # independent objects
    g2 = double_rowland_from_channel_distance(d_BF, R, f)
    g['rowland_detector'].pos4d[0, 3] += 1.
    base_checks(ctx, g2, d_BF, R, f)


def base_checks(ctx, g, d_BF, R, f):
    d = d_BF / 2
    ctx.close([g['d_BF'], g['d'], g['f']], [d_BF, d, f], 'input parameters')
    for n in ('rowland_central', 'rowland_central_m', 'rowland_detector'):
        ctx.close(g[n].R, R, n + ' R')
        ctx.close(g[n].r, np.hypot(f, d_BF) / 2, n + ' r')
    # both channels' focal points and gratings are on one circle
    circle(ctx, g['rowland_central'], [(0, 0), (f, 0), (0, d_BF), (f, d_BF)], 0, f, 'central')
    circle(ctx, g['rowland_central_m'], [(0, 0), (f, 0), (0, -d_BF), (f, -d_BF)], 0, f, 'mirrored')
    circle(ctx, g['rowland_detector'], [(0, -d), (f, -d), (0, d), (f, d)], 0, f, 'detector')
    # the gratings (theta=phi=0) of both channels are on the same side
    for n in ('rowland_central', 'rowland_central_m'):
        p = np.asarray(g[n].pos4d)
        ctx.close(p[:3, 3] + (g[n].R + g[n].r) * p[:3, 0], [f, 0, 0], n + ' top of torus', atol=1e-8 * f)
    ctx.close(g['shift_det_rowland'] @ g['rowland_central'].pos4d, g['rowland_detector'].pos4d, 'shift')


NAMES = ['1', '1m', '2', '2m', '3', '3m', '4', '12m']
OFF = [[0., 0, 0], [0, -2.5, -7.5], [1., 2.5, 7.5], [0, 5, 0]]


def offsets(ctx, k, n):
    from marxs.design.rowland import double_rowland_from_channel_distance, add_offset_double_rowland_channels
    d_BF, R, f = DBL[k]
    d = d_BF / 2
    for names in itertools.combinations(NAMES, n):
        offs = {c: list(OFF[(i + len(names)) % len(OFF)]) for i, c in enumerate(names)}
        keep = {a: list(b) for a, b in offs.items()}
        g = double_rowland_from_channel_distance(d_BF, R, f)
        for rep in (1, 2):
            add_offset_double_rowland_channels(g, offsets=offs)
            ctx.step()
            ctx.state('off', k, names, rep)
            ctx.same(offs, keep, 'offsets modified')
            base_checks(ctx, g, d_BF, R, f)
            ctx.same(set(g['pos_opt_ax']), set(names), 'channels')
            for c in names:
                s = 1 if c.endswith('m') else -1
                o = np.array(offs[c], float)
                ctx.close(g['pos_opt_ax'][c], [o[0], s * d + o[1], o[2], 1], f'optical axis {c}')
                # each channel has its focus at its optical axis, the circle contains the mirrored channel
                off = np.array([0, s * d, 0]) + o
                circle(ctx, g['rowland_' + c], [(0, 0), (f, 0), (0, -s * d_BF), (f, -s * d_BF)], off, f, 'channel ' + c)
                ctx.close([g['rowland_' + c].R, g['rowland_' + c].r], [R, np.hypot(f, d_BF) / 2], 'radii')


def default(ctx, k):
    from marxs.design.rowland import double_rowland_from_channel_distance, add_offset_double_rowland_channels
    d_BF, R, f = DBL[k]
    want = {'1': [0, -2.5, -7.5], '1m': [0, -2.5, -2.5], '2': [0, 2.5, 2.5], '2m': [0, 2.5, 7.5]}
    for rep in range(2):
        g = double_rowland_from_channel_distance(d_BF, R, f)
        add_offset_double_rowland_channels(g)
        ctx.step()
        ctx.state('default', k, rep)
        for c, o in want.items():
            s = 1 if 'm' in c else -1
            ctx.close(g['pos_opt_ax'][c], [o[0], s * d_BF / 2 + o[1], o[2], 1], c)
            circle(ctx, g['rowland_' + c], [(0, 0), (f, 0)], np.array([0, s * d_BF / 2, 0]) + o, f, c)


def shell(ctx, shells, perc):
    """cones towards the focus with known radii at x"""
    from marxs.design.rowland import find_radius_of_photon_shell
    f = 1e4
    n = 101
    for sel in shells:
        rows, sh, pr = [], [], []
        for s in shells:
            r0 = 300. + 100 * s
            for i in range(n):
                r, a = r0 + .1 * i, 2.4 * i
                rows.append([f, r * np.cos(a), r * np.sin(a), 1])
                sh.append(s)
                pr.append(0. if i % 4 == 3 else .5)
        pos = np.array(rows)
        d = -pos.copy()
        d[:, 3] = 0
        d /= np.linalg.norm(d, axis=1)[:, None]
        t = Table({'pos': pos, 'dir': d, 'mirror_shell': sh, 'probability': pr, 'energy': np.ones(len(pos)),
                   'polarization': np.roll(d, 1, axis=1)})
        keep = zoo.columns(t)
        for x in (9e3, 5e3):
            got = find_radius_of_photon_shell(t, sel, x, **({} if perc is None else {'percentile': perc}))
            ctx.step()
            ctx.state('shell', sel, x, tuple(perc or ()))
            r = np.array([(300. + 100 * sel + .1 * i) * x / f for i in range(n) if i % 4 != 3])
            ctx.close(got, np.percentile(r, perc or [1, 99]), 'radius of shell', rtol=1e-6)
            ctx.same(set(t.colnames), set(keep), 'columns of input')
            for c in keep:
                ctx.same(np.asarray(t[c]), keep[c], f'input column {c}')


def scenarios(ctx):
    yield from C.cases(tilted, 'tilted', F, ANG)
    yield from C.cases(double, 'double', range(len(DBL)))
    yield from C.cases(offsets, 'offsets', range(len(DBL)), [1, 2, 3, 4] if ctx.thorough else [1, 2])
    yield from C.cases(default, 'default', range(len(DBL)))
    yield from C.cases(shell, 'shell', [(1,), (1, 2), (0, 3, 7)], [None, [0, 100], [50], [25, 75]])
