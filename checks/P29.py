"""All photon tables with up to 3 (thorough 4) rows over order x probability x CCD for effective areas and detected
fractions with all row permutations; all combinations of photon counts (0, 1, 19, 20, 21, 30) over three orders with
line shapes (outliers, missing, masked, absorbed photons) for resolving powers, against the definitions evaluated
here; all small tables for averages and weights; focus search for cones of rays over focus x orientation; the
per-order simulation against independent runs on fresh instruments for every kind of detector."""
import itertools
import numpy as np
import astropy.units as u
from astropy.table import Table, QTable, MaskedColumn
from mc import zoo
from . import _common as C

FW = 2.3548


def clip(x):
    """mean and standard deviation after removing 3 sigma outliers around the median"""
    x = np.asarray(x, float)
    x = x[np.isfinite(x)]
    for i in range(5):
        if len(x) == 0:
            return np.nan, np.nan
        ok = np.abs(x - np.median(x)) <= 3 * np.std(x)
        if ok.all():
            break
        x = x[ok]
    return np.mean(x), np.std(x)


# ------------------------------------------------------------------ small tables: effective area and fractions
ROW = list(itertools.product([-1, 0, 2], [0., .25, 1.]))
TINY = list(itertools.product([-1, 0, 2], [0., 1e-5, 1e-9]))


def table(rows, unit=None, seed=0):
    t = Table()
    t['order'] = np.array([r[0] for r in rows], int)
    t['probability'] = np.array([r[1] for r in rows], float)
    t['CCD_ID'] = np.array([r[2] if len(r) > 2 else 0 for r in rows], int)
    t['det_x'] = np.arange(len(rows), dtype=float)
    return t


def aeff_small(ctx, n, n_gen):
    from marxs.analysis.gratings import effectivearea_from_photonlist, CaptureResAeff, CaptureResAeff_CCDgaps
    from marxs.analysis.analysis import detected_fraction
    k = 0
    for orders in ([0, -1, 2], [2, 1], [0]):
        o = np.array(orders)
        for rows in itertools.combinations_with_replacement(ROW, n):
            k += 1
            want = np.array([sum(p for oo, p in rows if oo == x) for x in orders])
            perms = set(itertools.permutations(rows)) if (n < 3 or k % 7 == 0) else [rows, rows[::-1]]
            for perm in perms:
                t = table(perm)
                ctx.step()
                for a in (1., 7 * u.cm**2, [2, 3, 4][:1] * u.mm**2):
                    got = effectivearea_from_photonlist(t, o, n_gen, a)
                    if isinstance(a, u.Quantity):
                        ctx.same(got.unit, a.unit, 'unit of the effective area')
                    ctx.close(u.Quantity(got).value, want / n_gen * u.Quantity(a).value, f'{perm}', rtol=1e-12)
                if n:
                    ctx.close(detected_fraction(t, o), want / n, f'fraction {perm}', rtol=1e-12)
            ctx.state(rows, tuple(orders), n_gen)
            t = table(rows)
            t['grating'] = t['order']
            t['order'] = 5
            ctx.close(effectivearea_from_photonlist(t, o, n_gen, 2., ordercol='grating'), want / n_gen * 2, 'column name')
            if n:
                ctx.close(detected_fraction(t, o, col='grating'), want / n, 'column name')
                t['probability'] *= .5
                ctx.close(detected_fraction(t, o, col='grating'), want / n / 2, 'linear in probability')


def capture_small(ctx, n, ngen):
    from marxs.analysis.gratings import CaptureResAeff, CaptureResAeff_CCDgaps
    orders = np.array([-1, 0, 2])
    for rows in itertools.chain(itertools.product(ROW, repeat=n), itertools.product(TINY, repeat=n) if n < 3 else []):
        for ccd in itertools.product([-1, 0, 4], repeat=n) if n < 3 else [(-1, 0, 4), (5, -9, -1)]:
            t = table([r + (c,) for r, c in zip(rows, ccd)])
            keep = t.copy()
            ctx.step(2)
            ctx.state(rows, ccd, ngen)
            for cls, sel in ((CaptureResAeff, [True] * n), (CaptureResAeff_CCDgaps, [c >= 0 for c in ccd])):
                for a in (3., 3 * u.cm**2):
                    cap = cls(A_geom=a, orders=orders, order_col='order')
                    if ngen is None and n == 0:
                        continue
                    out = cap(t, n_photons=ngen)
                    m = ngen or n
                    want = np.array([sum(r[1] for r, s in zip(rows, sel) if s and r[0] == x) for x in orders]) / m * 3
                    ctx.close(u.Quantity(out['Aeff']).value, want, f'{rows} {ccd}: Aeff', rtol=1e-12, atol=1e-30)
                    ctx.close(u.Quantity(out['Aeff0']).value, want[1], 'Aeff0', rtol=1e-12, atol=1e-30)
                    ctx.close(u.Quantity(out['Aeffgrat']).value, want[0] + want[2], 'Aeffgrat', rtol=1e-12, atol=1e-30)
                    ctx.same(len(out['R']), 3, 'R')
                    ctx.check(np.all(np.isnan(out['R'])), 'R without photons')
                    ctx.check(np.ma.is_masked(out['Rgrat']) or not np.isfinite(out['Rgrat']), 'Rgrat without photons')
            ctx.check(all(np.array_equal(t[c], keep[c]) for c in keep.colnames), 'input modified')


# ------------------------------------------------------------------ resolving power
COUNT = [0, 1, 19, 20, 21, 30]
CENT = {0: 2.5, 1: 100., -2: -210., 3: -7.}


def line(order, n, shape):
    k = np.arange(n)
    base = ((k * 7) % 13 - 6) * .1 * (1 + .3 * abs(order))
    if shape == 'point':
        base = base * 0
    elif shape == 'outlier' and n:
        base[0] += 40
        base[-1] -= 55
    x = CENT[order] + base
    return x


def photonlist(counts, shape, unit, kind=Table):
    x, o, p = [], [], []
    for order, n in counts.items():
        x.extend(line(order, n, shape))
        o.extend([order] * n)
        p.extend(.1 + .05 * (np.arange(n) % 9))
    x, o, p = np.array(x, float), np.array(o, int), np.array(p, float)
    i = np.argsort((np.arange(len(x)) * 37) % (len(x) or 1), kind='stable')   # mix the orders
    t = kind()
    t['order'] = o[i]
    t['probability'] = p[i]
    t['det_x'] = x[i] if unit is None else x[i] * unit
    return t


def model_R(t, x, orders, zeropos, ind=None):
    o = np.asarray(t['order'])
    if ind is None:
        ind = np.ones(len(o), bool)
    if zeropos is None:
        if (ind & (o == 0)).sum() < 20:
            return None
        zeropos = clip(x[ind & (o == 0)])[0]
    out = []
    for q in orders:
        s = ind & (o == q)
        m, sd = clip(x[s]) if s.sum() >= 20 else (np.nan, np.nan)
        out.append((np.abs(m - zeropos) / (sd * FW) if not np.isnan(m) else np.nan, m, sd))
    return np.array(out).T


def rpower(ctx, shape, zero):
    from marxs.analysis.gratings import resolvingpower_from_photonlist as rp, AnalysisError
    for c in itertools.product(COUNT, repeat=3):
        if not ctx.thorough and (COUNT.index(c[0]) + COUNT.index(c[1]) + COUNT.index(c[2])) % 2:
            continue
        counts = dict(zip((0, 1, -2), c))
        for unit, kind in ((None, Table), (u.mm, Table), (u.mm, QTable)):
            t = photonlist(counts, shape, unit, kind)
            x = np.asarray(t['det_x'].value) if len(t) else np.zeros(0)
            for orders in ([0, 1, -2], [-2], [1, 3]):
                want = model_R(t, x, orders, zero)
                ctx.step()
                ctx.state(shape, zero, c, tuple(orders), str(unit))
                if want is None:
                    ctx.raises(AnalysisError, lambda: rp(t, np.array(orders), col='det_x', zeropos=zero))
                    continue
                got = rp(t, np.array(orders), col='det_x', zeropos=zero)
                for g, w, name in zip(got, want, ('R', 'position', 'width')):
                    if name == 'R' and shape == 'point':
                        ctx.check(not np.any(np.isfinite(g) & ~np.isnan(w) & (g < 1e10)), 'R of a point')
                        continue
                    ctx.close(np.asarray(g), w, f'{c} {orders}: {name}', rtol=1e-9, atol=1e-9)
        t = photonlist(counts, shape, None)
        x = np.asarray(t['det_x'])
        a = model_R(t, x, [0, 1, -2], zero)
        if a is not None and shape != 'point':
            for s in (-1., 2.5):          # mirrored and scaled coordinates
                t2 = t.copy()
                t2['det_x'] = s * x
                t2.rename_column('order', 'm')
                got = rp(t2, np.array([0, 1, -2]), col='det_x', zeropos=None if zero is None else s * zero, ordercol='m')
                ctx.close(got[0], a[0], 'scaled', rtol=1e-8, atol=1e-9)
            t2 = t[::-1]
            ctx.close(rp(t2, np.array([0, 1, -2]), col='det_x', zeropos=zero)[0], a[0], 'permuted', rtol=1e-9, atol=1e-9)


def robust(ctx, ncol):
    from marxs.analysis.gratings import resolvingpower_from_photonlist_robust as rr, resolvingpower_from_photonlist as rp
    orders = np.array([0, 1, -2])
    pool = []
    for i, (c, shape) in enumerate([((25, 25, 25), ''), ((20, 40, 22), 'outlier'), ((30, 21, 60), ''), ((20, 20, 20), 'w')]):
        t = photonlist(dict(zip((0, 1, -2), c)), shape, None)
        t[f'c{i}'] = np.asarray(t['det_x']) * (1 + i) + (i % 2) * np.sign(np.asarray(t['order'])) * 20 * (np.arange(len(t)) % 3 - 1)
        pool.append((t, f'c{i}'))
    for pick in itertools.product(range(4), repeat=ncol):
        for zs in itertools.product([None, 0., 3.], repeat=ncol):
            ts = [pool[i][0] for i in pick]
            cs = [pool[i][1] for i in pick]
            got = rr(ts, orders, cs, list(zs))
            ctx.step()
            ctx.state(pick, zs)
            single = []
            for t, c, z in zip(ts, cs, zs):
                single.append(model_R(t, np.asarray(t[c]), orders, z))
            single = np.array(single)      # column, quantity, order
            for k in range(3):
                j = np.argmin(single[:, 0, k])
                ctx.close(got[0][k], single[:, 0, k].min(), f'{pick} {zs}: worst R', rtol=1e-9, atol=1e-9)
                if np.sum(np.isclose(single[:, 0, k], single[j, 0, k], rtol=1e-9)) == 1:
                    ctx.close([got[1][k], got[2][k]], single[j, 1:, k], 'position and width of the worst case', rtol=1e-9)
    t, c = pool[0]
    for a, b, z in itertools.product(range(4), repeat=3):
        if not a == b == z:
            ctx.raises(ValueError, lambda: rr([t] * a, orders, [c] * b, [0] * z), f'{a} {b} {z}')


def capture(ctx, shape, zero):
    """CaptureResAeff for photon lists with enough photons in some orders"""
    from marxs.analysis.gratings import CaptureResAeff, CaptureResAeff_CCDgaps
    orders = np.array([1, 0, -2, 3])
    for c in itertools.product([0, 15, 24, 40], repeat=3):
        t = photonlist(dict(zip((0, 1, -2), c)), shape, None)
        n = len(t)
        if n == 0:
            continue
        t['CCD_ID'] = (np.arange(n) % 5) - 1
        for variant in ('plain', 'nan', 'absorbed', 'masked', 'inf', 'faint'):
            v = t.copy()
            x = np.asarray(t['det_x']).copy()
            bad = np.arange(n) % 6 == 1
            prob = np.asarray(t['probability']).copy()
            if variant == 'plain':
                bad = np.zeros(n, bool)
            elif variant in ('nan', 'inf'):
                x[bad] = float(variant)
            elif variant == 'absorbed':
                prob[bad] = 0
                x[bad] += 1000
            elif variant == 'faint':         # absorbed almost, but still counted
                prob[np.arange(n) % 6 != 2] *= 1e-7
                bad = np.zeros(n, bool)
            v['det_x'] = x
            v['probability'] = prob
            if variant == 'masked':
                v['det_x'] = MaskedColumn(np.where(bad, 1e4, x), mask=bad)
            for cls, ngen in ((CaptureResAeff, None), (CaptureResAeff_CCDgaps, 1000)):
                out = cls(A_geom=5., orders=orders, zeropos=zero)(v, n_photons=ngen)
                ctx.step()
                ctx.state(shape, zero, c, variant, cls.__name__)
                sel = np.ones(n, bool) if cls is CaptureResAeff else np.asarray(v['CCD_ID']) >= 0
                o = np.asarray(v['order'])
                aeff = np.array([prob[sel & (o == q)].sum() for q in orders]) / (ngen or n) * 5
                ctx.close(out['Aeff'], aeff, f'{c} {variant} Aeff', rtol=1e-12)
                w = model_R(v, x, orders, zero, ~bad)
                R = np.full(4, np.nan) if w is None else w[0]
                ctx.close(np.asarray(out['R']), R, f'{c} {variant} R', rtol=1e-9, atol=1e-9)
                d = orders != 0
                good = d & np.isfinite(R)
                if aeff[good].sum() > 0:
                    ctx.close(float(out['Rgrat']), np.sum(R[good] * aeff[good]) / aeff[good].sum(), 'Rgrat', rtol=1e-9)
                else:
                    ctx.check(np.ma.is_masked(out['Rgrat']) or not np.isfinite(out['Rgrat']), 'Rgrat')
                ctx.close(out['Aeffgrat'], aeff[d].sum(), 'Aeffgrat', rtol=1e-12)
                ctx.close(out['Aeff0'], aeff[1], 'Aeff0', rtol=1e-12)


# ------------------------------------------------------------------ averages
def averages(ctx, n, axis):
    from marxs.analysis.gratings import average_R_Aeff
    R, A = [100., 300., np.nan], [0., 1., 2.5]
    for r in itertools.product(R, repeat=n):
        for a in itertools.product(A, repeat=n):
            ctx.state(r, a)
            good = [(x, y) for x, y in zip(r, a) if np.isfinite(x)]
            w = sum(y for x, y in good)
            want = sum(x * y for x, y in good) / w if w > 0 else None
            for mode in ('plain', 'unit', 'masked', '2d'):
                rr, aa = np.array(r), np.array(a)
                if mode == 'unit':
                    aa = aa * u.cm**2
                elif mode == 'masked':
                    rr = np.ma.masked_invalid(rr)
                elif mode == '2d':
                    rr, aa = np.stack([rr, rr * 2]), np.stack([aa, aa * 3])
                    if axis == 0:
                        rr, aa = rr.T, aa.T
                    R1, A1 = average_R_Aeff(rr, aa, axis=axis)
                    ctx.step()
                    ctx.close(A1, [sum(a), 3 * sum(a)], 'summed area', rtol=1e-12)
                    for k in range(2):
                        if want is None:
                            ctx.check(np.ma.getmaskarray(np.ma.masked_invalid(R1))[k], 'no data')
                        else:
                            ctx.close(float(R1[k]), want * (1 + k), 'average', rtol=1e-12)
                    continue
                R1, A1 = average_R_Aeff(rr, aa)
                ctx.step()
                ctx.close(u.Quantity(A1).value, sum(a), 'summed area', rtol=1e-12)
                if want is None:
                    ctx.check(np.ma.is_masked(R1) or not np.isfinite(R1), 'no data')
                else:
                    ctx.check(not hasattr(R1, 'unit') or str(R1.unit) == '', 'unit of R')
                    ctx.close(float(R1), want, 'average', rtol=1e-12)


def weighted(ctx, eorder):
    from marxs.analysis.gratings import weighted_per_order

    class Eff:
        pass
    en = np.array([.5, 1., 2., 3.])
    prob = np.array([[.1, .2, .3], [.0, .5, .1], [.3, 0., .2], [.25, .25, 0.]])
    i = np.array(eorder)
    eff = Eff()
    eff.energy, eff.prob, eff.orders = en[i], prob[i], np.array([-1, 0, 3])
    for orders in itertools.chain(itertools.permutations([-1, 0, 3]), itertools.permutations([-1, 0, 3], 2), [[0], [3]]):
        for e in ([.5], [.75, 2.5], [3., 1.2, .2], [5., .6, 1.]):
            data = np.array([[100. * (k + 1) + 7 * j for j in range(len(e))] for k in range(len(orders))])
            got = weighted_per_order(data, np.array(orders), np.array(e), eff)
            ctx.step()
            ctx.state(orders, tuple(e), eorder)
            for j, ee in enumerate(e):
                w = []
                for o in orders:
                    pr = prob[:, [-1, 0, 3].index(o)]
                    ec = min(max(ee, .5), 3.)
                    k = min(np.searchsorted(en, ec, side='right'), 3)
                    f = (ec - en[k - 1]) / (en[k] - en[k - 1])
                    w.append(pr[k - 1] * (1 - f) + pr[k] * f)
                if sum(w) > 1e-12:
                    ctx.close(float(got[j]), np.dot(w, data[:, j]) / sum(w), f'{orders} {ee}', rtol=1e-9)
            ctx.raises(ValueError, lambda: weighted_per_order(data, np.array(list(orders) + [0]), np.array(e), eff))
            ctx.raises(ValueError, lambda: weighted_per_order(data, np.array(orders), np.array(e + [1.]), eff))
            ctx.raises(KeyError, lambda: weighted_per_order(data, np.array([7] + list(orders)[1:]), np.array(e), eff))


def subaperture(ctx, a0):
    from marxs.analysis.gratings import identify_photon_in_subaperture as ident
    ang = np.deg2rad(np.arange(-720, 720, 3.) + .5)
    for mx in (0.05, .2, .7, 1.2):
        sh = lambda x: np.abs((x + np.pi) % (2 * np.pi) - np.pi)
        d = np.minimum(sh(ang - a0), sh(ang + a0))
        clear = np.abs(d - mx) > 1e-3
        got = ident(ang, mx, a0)
        ctx.step()
        ctx.state(a0, mx)
        ctx.same(np.asarray(got)[clear], (d < mx)[clear], f'{a0} {mx}')
    ctx.same(np.asarray(ident(ang, .3)), np.asarray(ident(ang, .3, np.pi / 2)), 'default')


# ------------------------------------------------------------------ focus
def focus(ctx, place, sig):
    from marxs.analysis.analysis import find_best_detector_position, sigma_clipped_std, mean_width_2d
    ori = zoo.PLACES[place]['orientation']
    for x0 in (-3., 0., .5, 20.):
        for off in ([0, 0], [5., -2.]):
            f = np.array([x0, off[0], off[1]])
            d = np.array([zoo.unit([-1., y, z]) for y in np.linspace(-.1, .1, 7) for z in (-.05, 0., .05)])
            pos = f - d * (9000 + np.arange(len(d)) % 3)[:, None]
            p = Table({'pos': np.c_[pos @ np.asarray(ori).T, np.ones(len(d))],
                       'dir': np.c_[d @ np.asarray(ori).T, np.zeros(len(d))],
                       'energy': np.ones(len(d)), 'polarization': np.ones((len(d), 4)), 'probability': np.ones(len(d))})
            kw = {'clip': {}, 'clip_y': {'objective_func_args': {'colname': 'det_x', 'sigma': 5}},
                  'width': {'objective_func': mean_width_2d, 'objective_func_args': {}}}[sig]
            keep = p.copy()
            opt = find_best_detector_position(p, orientation=np.asarray(ori), **kw)
            ctx.step()
            ctx.state(place, sig, x0, tuple(off))
            ctx.close(opt.x, x0, 'position of the focus', atol=1e-4)
            ctx.check(opt.fun < 1e-4, 'width in focus')


def widths(ctx, n):
    from marxs.analysis.analysis import sigma_clipped_std, mean_width_2d
    pts = [(0., 0), (1., 0), (0, -2.), (5., 5.), (-3, 1.)]
    for pick in itertools.product(pts, repeat=n):
        x, y = np.array(pick).T
        t = Table({'det_x': x, 'det_y': y})
        want = np.mean([np.hypot(a - np.mean(x), b - np.mean(y)) for a, b in pick])
        ctx.step()
        ctx.state(pick)
        ctx.close(mean_width_2d(t), want, 'mean distance', rtol=1e-12, atol=1e-12)
        ctx.close(sigma_clipped_std(t), np.sqrt(np.mean((x - np.mean(x))**2)), 'std', rtol=1e-12, atol=1e-12)
        ctx.close(sigma_clipped_std(t, colname='det_y'), np.std(y), 'std of other column', rtol=1e-12, atol=1e-12)
    for k in (20, 40):
        x = np.r_[line(0, k, ''), [1e3]]
        t = Table({'det_x': x, 'det_y': x})
        ctx.close(sigma_clipped_std(t), clip(x)[1], 'outlier removed', rtol=1e-12)
        ctx.close(sigma_clipped_std(t, sigma=100.), np.std(x), 'sigma is passed on', rtol=1e-12)


# ------------------------------------------------------------------ ray-trace per order
def instr():
    from marxs import optics
    from marxs.simulator import Parallel
    return Parallel(elem_class=optics.FlatGrating, elem_pos={'position': [[90., -7, 0], [90., 7, 0]]},
                    elem_args={'d': .002, 'zoom': 6., 'order_selector': optics.OrderSelector([5])}, id_col='facet')


def beam(absorbed=False):
    rays = [(np.array([100., y, z]), zoo.unit([-100., -y + .01 * np.sin(3 * y + z), -z]))
            for y in np.r_[np.linspace(-12, -2, 14), np.linspace(2, 12, 14), [30.]] for z in (-3., 1.)]
    zoo.PLACES['inst'] = dict(position=[0., 0, 0], orientation=np.eye(3), zoom=[1., 20, 20])
    p = zoo.photons('inst', rays, extra=False)
    p['probability'] = .5 + .01 * (np.arange(len(p)) % 7)
    p['energy'] = np.full(len(p), 1.24)
    if absorbed:
        p['probability'][::4] = 0
        p['probability'][1::2] *= 1e-6
        p['dir'][::4, 1] += .3       # these would be measured far away
    return p


def per_order(ctx, kind, absorbed):
    from marxs.analysis.gratings import resolvingpower_per_order
    from marxs import optics
    from marxs.design import RowlandTorus
    torus = RowlandTorus(50., 50., position=[0, 0, 0]) if kind == 'torus' else None
    for orders in itertools.chain(itertools.permutations([0, 1, -2], 1), itertools.permutations([1, -2, 0], 3)):
        if kind == 'none' and not ctx.thorough and len(orders) > 1 and orders[0] != 1:
            continue
        col = {'flat': 'det_x', 'user': 'det_y', 'torus': 'det_x', 'none': 'det_x'}[kind]
        det = {'flat': optics.FlatDetector(zoom=1e4), 'torus': torus, 'none': None,
               'user': optics.FlatDetector(zoom=1e4, orientation=zoo.rot_x(np.pi / 2), position=[1., 0, 0])}[kind]
        g = instr()
        p = beam(absorbed)
        keep = p.copy()
        kw = {} if kind != 'user' else {'colname': 'det_y'}
        res, fwhm, info = resolvingpower_per_order(g, p, np.array(orders), det, **kw)
        ctx.step(len(orders))
        ctx.state(kind, absorbed, orders)
        ctx.check(sorted(p.colnames) == sorted(keep.colnames) and all(np.array_equal(p[c], keep[c]) for c in keep.colnames),
                  'input photons modified')
        ctx.check('method' in info, 'method is reported')

        def coord(t, x=0.):
            q, d = np.asarray(t['pos'])[:, :3], np.asarray(t['dir'])[:, :3]
            if kind == 'torus':
                c = np.array([50., 0])     # Rowland circle with radius 50 in the xy plane, focal point side
                a, b = d[:, :2], q[:, :2] - c
                A, B, Cc = (a * a).sum(1), 2 * (a * b).sum(1), (b * b).sum(1) - 2500.
                s = (-B + np.sqrt(B * B - 4 * A * Cc)) / 2 / A
                h = b + s[:, None] * a
                return 50. * np.arctan2(h[:, 1], -h[:, 0])
            s = (x - q[:, 0]) / d[:, 0]
            h = q + s[:, None] * d
            return h[:, 1] if kind != 'user' else h[:, 1]
        live = np.asarray(p['probability']) > 0
        zero = 0. if kind == 'none' else clip(coord(p)[live] if kind != 'user' else coord(p, 1.)[live])[0]
        for i, o in enumerate(orders):
            q = _run_order(o, p)
            q = q[np.asarray(q['probability']) > 0]
            x = {'user': 1., 'flat': 0., 'torus': 0.}.get(kind)
            if kind == 'none':
                x = info['fit_results'][i].x
                w = [clip(coord(q, x + e))[1] for e in (-.3, 0, .3)]
                ctx.check(w[1] <= min(w) + 1e-9, 'detector position minimizes the width')
            m, s = clip(coord(q, x))
            ctx.close(fwhm[i], FW * s, f'{orders}: FWHM of order {o}', rtol=2e-5, atol=1e-9)
            ctx.close(res[i], abs(m - zero) / (FW * s), f'{orders}: R of order {o}', rtol=2e-5, atol=1e-4)


def _run_order(o, p):
    from marxs.optics import OrderSelector
    g = instr()
    for e in g.elements:
        e.order_selector = OrderSelector([o])
    out = g(p.copy())
    hit = np.asarray(out['facet']) >= 0
    return out[hit]


def scenarios(ctx):
    yield from C.cases(aeff_small, 'effective area', [0, 1, 2, 3] + ([4] if ctx.thorough else []), [1, 10, 5000])
    yield from C.cases(capture_small, 'capture', [0, 1, 2, 3], [None, 10, 333])
    for sh in ('gauss', 'outlier', 'point'):
        yield from C.cases(rpower, 'resolving power', [sh], [None, 0., -12.])
    yield from C.cases(robust, 'robust', [1, 2] + ([3] if ctx.thorough else []))
    yield from C.cases(capture, 'capture resolution', ['gauss', 'outlier'], [None, 0.])
    yield from C.cases(averages, 'average', [1, 2, 3], [0, 1])
    yield from C.cases(weighted, 'weights', list(itertools.permutations(range(4)))[::(1 if ctx.thorough else 5)])
    yield from C.cases(subaperture, 'subaperture', [0., .1, 1., np.pi / 2, 2., 3., np.pi])
    yield from C.cases(focus, 'focus', zoo.NAMES, ['clip', 'clip_y', 'width'])
    yield from C.cases(widths, 'width', [1, 2, 3, 4])
    yield from C.cases(per_order, 'per order', ['flat', 'user', 'torus', 'none'], [False, True])
