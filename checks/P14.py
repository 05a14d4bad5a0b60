"""Every order selector is asked with the complete quantile grid (N equidistant quantiles per photon state plus 0,
1-2^-53 and values next to every boundary of the cumulative distribution) for all energies / blaze angles of the
table nodes and between; the number of photons per order must be N*p +-1, whatever way the draw is implemented."""
import itertools
import os
import numpy as np
import astropy.units as u
from astropy.table import Table
from mc import rng, zoo
from . import _common as C

HC_NM = 1.2398419843320028      # keV nm
PS = {'one': ([3], [1.]), 'half': ([-1, 0, 1], [.25, .5, .25]), 'lossy': ([-2, 0, 1], [.1, .2, .05]),
      'zeros': ([-1, 0, 1, 2, 5], [0., .5, 0., .3, 0.]), 'third': ([7, 1, -4], [1 / 3, 1 / 3, 1 / 3]),
      'tenths': (list(range(-5, 5)), [.1] * 10), 'tiny': ([0, 1, 2], [1e-9, .5, 1e-9]),
      'unsorted': ([4, -2, 3, 0], [.4, .1, .3, .2]), 'seven': (list(range(7)), [1 / 7] * 7), 'digits': ([2, 0, -7], [.1234567, .2000456, .3141593]),
      'faint': ([1, -1], [3e-5, 1e-5])}


def grid(N, p):
    """equidistant quantiles"""
    return (np.arange(N) + .5) / N


def special(p):
    p = np.asarray(p, float)
    c = np.cumsum(p) / np.sum(p)
    out = [0., rng.EPS, rng.ONE, 1 - 1e-12]
    for b in np.concatenate([c, 1 - c]):
        out += [b - 1e-12, b, b + 1e-12, np.nextafter(b, 0), np.nextafter(b, 1)]
    out = np.clip(out, 0, rng.ONE)
    return out


def histogram(ctx, orders, got, p, N, msg):
    orders = np.asarray(orders)
    rel = np.asarray(p, float) / np.sum(p)
    ctx.check(np.isin(got, orders).all(), f'{msg}: unknown order')
    for o in np.unique(orders):
        want = N * rel[orders == o].sum()
        n = (got == o).sum()
        ctx.check(abs(n - want) <= 1 + 1e-6 * N, f'{msg}: order {o} drawn {n} times, expected {want:.2f} of {N}')
        if want == 0:
            ctx.check(n == 0, f'{msg}: order {o} of zero probability drawn')


def ask(sel, energy, blaze, quant):
    n = len(energy)
    pol = np.tile([0., 1., 0, 0], (n, 1))
    with rng.active(rng.Script(quant)):
        return sel(np.array(energy, float), pol, np.array(blaze, float))


def plain(ctx, name, kind):
    from marxs.optics import OrderSelector
    orders, p = PS[name]
    sel = OrderSelector(np.array(orders) if kind == 'array' else list(orders), p=np.array(p) if kind == 'array' else list(p))
    N = 1000 if not ctx.thorough else 100000
    for e in (.3, 1., 10.):
        o, prob = ask(sel, np.full(N, e), np.zeros(N), grid(N, p))
        ctx.step()
        ctx.state(name, kind, e)
        histogram(ctx, orders, np.asarray(o), p, N, name)
        ctx.close(prob, np.full(N, min(1, np.sum(p))), 'survival')
        ctx.check(np.all(np.asarray(prob) <= 1), 'survival above 1')
        q = special(p)
        o, prob = ask(sel, np.full(len(q), e), np.zeros(len(q)), q)
        ctx.check(np.isin(o, np.asarray(orders)[np.asarray(p) > 0]).all(), f'{name}: order of zero probability at a boundary')
    for qq in special(p):        # scalar energies
        with rng.active(rng.Script([qq])):
            o, prob = sel(1.)
        ctx.step()
        ctx.check(o in np.asarray(orders)[np.asarray(p) > 0], 'scalar draw')
        ctx.close(prob, min(1, np.sum(p)), 'scalar survival')


def default_p(ctx):
    from marxs.optics import OrderSelector
    for orders in ([0], [-1, 1], list(range(-4, 5)), [2, 5, 11]):
        sel = OrderSelector(orders)
        N = 720
        o, prob = ask(sel, np.ones(N), np.zeros(N), grid(N, None))
        ctx.step()
        ctx.state('default', tuple(orders))
        histogram(ctx, orders, np.asarray(o), np.ones(len(orders)), N, 'equal probabilities')
        ctx.close(prob, np.ones(N), 'survival')


def reject(ctx):
    from marxs.optics import OrderSelector, EfficiencyFile
    ctx.state('reject')
    for o, p in [([1, 2], [.5]), ([1], [.5, .2]), ([1, 2], [.6, .6]), ([1, 2], [-.1, .5]), ([0, 1, 2], [.5, .6, -.1]), ([1], [1.001])]:
        ctx.raises(ValueError, lambda: OrderSelector(o, p=p), f'orders {o} p {p}')
        ctx.step()
    f = os.path.join(zoo.tmpdir(), 'e14.txt')
    np.savetxt(f, [[1., .1, .2], [2., .3, .1]])
    for orders in ([1], [1, 2, 3]):
        ctx.raises(ValueError, lambda: EfficiencyFile(f, orders), 'wrong number of orders')
        ctx.step()
    EfficiencyFile(f, [1, 2])
    t = zoo.eff_table()
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    ctx.raises(Exception, lambda: InterpolateEfficiencyTable(t[:-1]), 'incomplete grid')
    bad = t.copy()
    bad['wave'][3], bad['wave'][7] = bad['wave'][7], bad['wave'][3]
    ctx.raises(Exception, lambda: InterpolateEfficiencyTable(bad), 'irregular grid')
    ctx.step(2)


FILES = {
    'three': ([1, 0, -1], [[.4, .1, .5, .2], [.8, .0, .3, .3], [1.2, .25, .25, .25]]),
    'absorb': ([-2, 0, 3, 4], [[.1, 0, 0, 0, 0], [.2, 0, .5, 0, .5], [.5, .3, .1, .1, .1], [5., .1, 0, .4, 0]]),
    'down': ([2, 1], [[3., .2, .3], [2., .7, .1], [1., .1, .8]]),
    'irregular': ([0, 1], [[1., .2, .3], [1.01, .7, .1], [7., .1, .8]]),
}


def efffile(ctx, fname):
    from marxs.optics import EfficiencyFile
    orders, dat = FILES[fname]
    dat = np.array(dat)
    f = os.path.join(zoo.tmpdir(), f'eff14_{fname}.txt')
    np.savetxt(f, dat)
    sel = EfficiencyFile(f, orders)
    ee = np.sort(dat[:, 0])
    mids = (ee[1:] + ee[:-1]) / 2
    energies = np.concatenate([ee, mids * (1 - 1e-6), mids * (1 + 1e-6), [ee[0] * .5, ee[-1] * 2]])
    N = 400
    # all energies in one list, every energy with the complete grid of random numbers
    allE = np.repeat(energies, N)
    o, prob = ask(sel, allE, 0 * allE, np.tile(grid(N, None), len(energies)))
    ctx.step()
    for k, e in enumerate(energies):
        row = dat[np.argmin(np.abs(dat[:, 0] - e)), 1:]
        ctx.state(fname, k)
        ctx.close(prob[k * N:(k + 1) * N], np.full(N, row.sum()), f'survival at {e} keV')
        if row.sum() > 0:
            histogram(ctx, orders, o[k * N:(k + 1) * N], row, N, f'{fname} {e} keV')
            q = special(row)
            oo, pp = ask(sel, np.full(len(q), e), np.zeros(len(q)), q)
            ctx.step()
            ctx.check(np.isin(oo, np.asarray(orders)[row > 0]).all(), f'{fname} {e}: order of zero probability at a boundary')
    # each photon uses its own energy, whatever the order of the list
    perm = np.argsort(np.sin(np.arange(len(energies)) * 5))
    o, prob = ask(sel, energies[perm], 0 * energies, [.4])
    for e, pr in zip(energies[perm], prob):
        ctx.close(pr, dat[np.argmin(np.abs(dat[:, 0] - e)), 1:].sum(), 'survival of mixed list')
    o, prob = ask(sel, np.array([]), np.array([]), [.4])
    ctx.same((len(o), len(prob)), (0, 0), 'empty list')


def bilinear(wave, theta, val, w, t):
    """piecewise linear in both, clamped at the borders of the table"""
    w = np.clip(w, wave[0], wave[-1])
    t = np.clip(t, theta[0], theta[-1])
    i = min(np.searchsorted(wave, w, side='right') - 1, len(wave) - 2)
    j = min(np.searchsorted(theta, t, side='right') - 1, len(theta) - 2)
    a = (w - wave[i]) / (wave[i + 1] - wave[i])
    b = (t - theta[j]) / (theta[j + 1] - theta[j])
    return ((1 - a) * (1 - b) * val[:, i, j] + a * (1 - b) * val[:, i + 1, j] + (1 - a) * b * val[:, i, j + 1]
            + a * b * val[:, i + 1, j + 1])


def tables(name):
    if name == 'zoo':
        return zoo.eff_table()
    t = Table()
    wave, theta = {'rect': ([.5, 1., 3.], [0, 1., 2., 3.5, 4.]), 'two': ([1., 2.], [1., 2.]),
                   'zero': ([1., 2., 5.], [0., 2., 3.])}[name]
    t['wave'] = np.repeat(wave, len(theta)) * u.nm
    t['theta'] = (np.tile(theta, len(wave)) * u.deg).to(u.rad) if name == 'rect' else np.tile(theta, len(wave)) * u.deg
    n = len(t)
    for k, o in enumerate([2, 0, -1, -7]):
        t[str(o)] = .05 * (k + 1) * (1 + np.sin(np.arange(n) * (k + 1.3))) + .01
        if name == 'zero' and k in (0, 2):
            t[str(o)] = 0.
    return t


def interp(ctx, name):
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    t = tables(name)
    sel = InterpolateEfficiencyTable(t)
    orders = [int(c) for c in t.colnames[2:]]
    wave = np.unique(np.asarray(t['wave']))
    theta = np.unique((np.asarray(t['theta']) * t['theta'].unit).to(u.rad).value)
    val = np.array([np.asarray(t[c]).reshape(len(wave), len(theta)) for c in t.colnames[2:]])

    def between(x):
        return np.sort(np.concatenate([x, .7 * x[1:] + .3 * x[:-1], .5 * x[1:] + .5 * x[:-1], [x[0] - .2 * x[1], x[-1] * 1.2]]))
    ww, tt = between(wave), between(theta)
    ww = ww[ww > 0]
    pts = list(itertools.product(ww, tt))
    N = 250
    E = np.repeat([HC_NM / w for w, _ in pts], N)
    B = np.repeat([b for _, b in pts], N)
    o, prob = ask(sel, E, B, np.tile(grid(N, None), len(pts)))
    oo, pp = sel.probabilities(E[::N], None, B[::N])
    ctx.step(2)
    ctx.same([int(x) for x in oo], orders, 'orders')
    ctx.same(pp.shape, (len(orders), len(pts)), 'shape of probabilities')
    for k, (w, b) in enumerate(pts):
        want = bilinear(wave, theta, val, w, b)
        ctx.state(name, k)
        ctx.close(pp[:, k], want, f'probabilities at {w} nm, {np.rad2deg(b)} deg', rtol=1e-6, atol=1e-9)
        ctx.close(prob[k * N:(k + 1) * N], np.full(N, want.sum()), 'survival', rtol=1e-6)
        histogram(ctx, orders, o[k * N:(k + 1) * N], want, N, f'{name} {w} nm {b}')
        q = np.minimum(special(want), 1 - 1e-12)    # the sum of interpolated numbers may round to less than 1
        o1, p1 = ask(sel, np.full(len(q), HC_NM / w), np.full(len(q), b), q)
        ctx.step()
        ctx.check(np.isin(o1, np.asarray(orders)[want > 0]).all(), 'order of zero probability')
    o, prob = ask(sel, np.array([]), np.array([]), [.4])
    ctx.same((len(o), len(prob)), (0, 0), 'empty list')


def mission(ctx, fname):
    """tables shipped with marxs: every node of the table"""
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    from astropy.utils.data import get_pkg_data_filename
    t = Table.read(get_pkg_data_filename('data/' + fname, package='marxs.missions.mitsnl'), format='ascii.ecsv')
    sel = InterpolateEfficiencyTable(t)
    w = np.asarray(t.columns[0], float)
    b = (np.asarray(t.columns[1], float) * t.columns[1].unit).to(u.rad).value
    o, p = sel.probabilities(HC_NM / w, None, b)
    ctx.step()
    ctx.same([int(x) for x in o], [int(c) for c in t.colnames[2:]], 'orders')
    for k, c in enumerate(t.colnames[2:]):
        ctx.close(p[k], np.asarray(t[c]), f'order {c}', rtol=2e-3, atol=5e-5)
    ctx.state('mission', fname)


def inst(ctx):
    from marxs.missions.lynx import ralfgrating as a
    f = 'Si_efficiency_5_7.dat'
    ctx.step()
    ctx.state('inst')
    mission(ctx, f)
    ctx.same(int(a.order_selector_Si.orders[0]), 4, 'orders of Lynx selector')


def wavy(ctx, cls):
    """selectors with blurred blaze angle: the draw of the blur is added to the blaze angle, then the table is used"""
    from marxs.missions.mitsnl import tolerances as T
    t = tables('rect')
    wave = np.unique(np.asarray(t['wave']))
    theta = np.unique((np.asarray(t['theta']) * t['theta'].unit).to(u.rad).value)
    val = np.array([np.asarray(t[c]).reshape(len(wave), len(theta)) for c in t.colnames[2:]])
    orders = [int(c) for c in t.colnames[2:]]
    width = .01
    sel = T.OrderSelectorWavy(wavysigma=width, tab=t) if cls == 'wavy' else T.OrderSelectorTopHat(tophatwidth=width, tab=t)
    nb, no = 40, 100
    from scipy.special import ndtri
    for e, b in itertools.product([HC_NM / .8, HC_NM / 2.], [.02, .035, .05]):
        eng = rng.Grid([nb, no])
        n = nb * no
        with rng.active(eng):
            o, prob = sel(np.full(n, e), np.tile([0., 1, 0, 0], (n, 1)), np.full(n, b))
        ctx.step()
        ctx.state(cls, e, b)
        q = (np.arange(nb) + .5) / nb
        blur = width * (ndtri(q) if cls == 'wavy' else q - .5)
        want = np.array([bilinear(wave, theta, val, HC_NM / e, b + d) for d in blur])
        ctx.close(np.sort(np.asarray(prob)), np.sort(np.repeat(want.sum(1), no)), 'distribution of survival', rtol=1e-6)
        exp = (want / want.sum(1)[:, None]).sum(0) * no
        for k, od in enumerate(orders):
            ctx.check(abs((o == od).sum() - exp[k]) <= nb, f'{cls}: order {od} {(o == od).sum()} expected {exp[k]}')
    sel0 = T.OrderSelectorWavy(wavysigma=0., tab=t) if cls == 'wavy' else T.OrderSelectorTopHat(tophatwidth=0., tab=t)
    with rng.active(rng.Const(.9)):
        o, p = sel0.probabilities(np.array([e]), None, np.array([b]))
    ctx.close(p[:, 0], bilinear(wave, theta, val, HC_NM / e, b), 'no blur', rtol=1e-6)


def element(ctx, name):
    """the selected order and survival probability arrive in the photon list of the hitting photons only"""
    from marxs.optics import FlatGrating, EfficiencyFile, OrderSelector
    N = 200
    rays = [C.plane_hit(0) for i in range(N)] + [zoo.plane_ray('missy', [1, 2, 3], 0) for i in range(5)]
    if name == 'file':
        orders, p = [1, 0, -1], [.0, .3, .3]
        sel = EfficiencyFile(zoo._eff_file(), orders)
    else:
        orders, p = PS[name]
        sel = OrderSelector(orders, p)
    g = FlatGrating(d=1e-3, order_selector=sel, **zoo.place_kw('unit'))
    ph = zoo.photons('unit', rays, energy=np.full(N + 5, .8), prob=np.full(N + 5, .5), extra=False)
    with rng.active(rng.Script(grid(N, None))):
        out = g(ph)
    ctx.step()
    ctx.state('element', name)
    histogram(ctx, orders, np.asarray(out['order'][:N]), p, N, 'element')
    ctx.close(out['probability'][:N], np.full(N, .5 * min(1, sum(p))), 'probability')
    ctx.close(out['probability'][N:], np.full(5, .5), 'probability of missing photons')


def scenarios(ctx):
    yield from C.cases(plain, 'plain', list(PS), ['list', 'array'])
    yield 'default', default_p
    yield 'reject', reject
    yield from C.cases(efffile, 'file', list(FILES))
    yield from C.cases(interp, 'interp', ['zoo', 'rect', 'two', 'zero'])
    yield from C.cases(mission, 'mission', ['Si_efficiency_5_7.dat', 'SiPt_efficiency_5_7.dat'])
    yield 'lynx', inst
    yield from C.cases(wavy, 'wavy', ['wavy', 'tophat'])
    yield from C.cases(element, 'element', ['file', 'lossy', 'zeros'])
