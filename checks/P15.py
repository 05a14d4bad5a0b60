"""All tables with up to 4 bins, densities from {0, 1, 2, 7, 1e-9/1e6} and bin widths from {0, .5, 1, 3}, sort and
randomize flags; every draw answered with a complete quantile grid for the bin and for the place inside the bin, plus
0, 1-2^-53 and the neighbourhood of every boundary of the cumulative distribution."""
import itertools
import numpy as np
from mc import rng
from . import _common as C

DENS = [0., 1., 2., 7.]
DENS2 = [0., 1e-9, 3., 1e6]


def tables(nbin, dens, widths):
    for w in widths:
        x = np.concatenate([[-1.5], -1.5 + np.cumsum(w)])
        for p in itertools.product(dens, repeat=nbin):
            if np.sum(np.array(p) * w) > 0:
                yield x, np.array(p)


def draw(rand, n, quants):
    """the draws of the bin see quants[0], the place in the bin quants[1]"""
    with rng.active(rng.Rows(quants)):
        return np.asarray(rand(n))


def analyse(ctx, x, pdf, first, sort, randomize, nq, nin):
    from marxs.math.random import RandomArbitraryPdf
    full = np.concatenate([[first], pdf])
    width = np.diff(x)
    prob = pdf * width / np.sum(pdf * width)
    x0, f0 = x.copy(), full.copy()
    rand = RandomArbitraryPdf(x, full, randomize_in_bin=randomize, sort=sort)
    ctx.same(x, x0, 'x modified')
    ctx.same(full, f0, 'pdf modified')
    tag = f'x={x} pdf={full} sort={sort} randomize={randomize}'
    q = (np.arange(nq) + .5) / nq
    g1, g2 = np.repeat(q, nin), np.tile((np.arange(nin) + .5) / nin, nq)
    n = nq * nin
    out = draw(rand, n, [g1, g2])
    ctx.step()
    ctx.same(out.shape, (n,), 'number of draws')
    if randomize:
        for k in range(len(pdf)):
            sel = (out > x[k]) & (out < x[k + 1])
            want = n * prob[k]
            ctx.check(abs(sel.sum() - want) <= nin * 1.01, f'{tag}: bin {k} has {sel.sum()} draws, expected {want}')
            if prob[k] == 0:
                ctx.check(sel.sum() == 0, f'{tag}: draw in bin {k} of zero probability')
            elif sel.sum() >= 2 * nin:
                f = (out[sel] - x[k]) / width[k]
                hist = np.histogram(f, bins=nin, range=(0, 1))[0]
                ctx.check(hist.max() - hist.min() <= 2 * nin + 1, f'{tag}: not uniform in bin {k}: {hist}')
        on = np.isin(out, x)
        ctx.check(on.sum() == 0, f'{tag}: draws at bin edges')
    else:
        for k in range(len(pdf)):
            if width[k] == 0:
                continue
            want = n * prob[k]
            sel = out == x[k + 1]
            ctx.check(abs(sel.sum() - want) <= nin * 1.01, f'{tag}: edge {x[k + 1]} drawn {sel.sum()} times, expected {want}')
        ctx.check(np.isin(out, x[1:][prob > 0]).all(), f'{tag}: value that is no upper edge of a bin with density')
    # extremes and boundaries
    c = np.cumsum(prob)
    cs = np.cumsum(np.sort(prob))
    b = np.unique(np.concatenate([c, cs, 1 - c, [0., rng.EPS, 1e-12, rng.ONE]]))
    b = np.unique(np.clip(np.concatenate([b, np.nextafter(b, 0), np.nextafter(b, 1), b - 1e-13, b + 1e-13]), 0, rng.ONE))
    g1, g2 = np.repeat(b, 3), np.tile([0., .5, rng.ONE], len(b))
    out = draw(rand, len(g1), [g1, g2])
    ctx.step()
    ok = np.zeros(len(out), bool)
    for k in range(len(pdf)):
        if prob[k] > 0:
            ok |= ((out >= x[k]) & (out <= x[k + 1] * (1 + 1e-15) + 1e-15)) if randomize else out == x[k + 1]
    ctx.check(ok.all(), f'{tag}: draw outside of the bins with positive density: {out[~ok][:3]} for random number {g1[~ok][:3]}')


def small(ctx, nbin, dens, sort, randomize):
    ws = list(itertools.product([.5, 1., 3.], repeat=nbin)) if nbin <= 2 else [(.5, 1., 3.), (1., 1., 1.), (3., .5, .5), (1., 0., 2.)]
    if nbin == 4:
        ws = [(.5, 1., 3., 1.), (1., 1., 1., 1.)]
    if ctx.thorough:
        ws = list(itertools.product([0., .5, 1., 3.], repeat=nbin))
    for x, p in tables(nbin, DENS if dens == 'a' else DENS2, [np.array(w) for w in ws]):
        ctx.state(tuple(x), tuple(p), sort, randomize)
        for first in (0., 5.):
            analyse(ctx, x, p, first, sort, randomize, 60, 4)


def thirds(ctx, sort, randomize):
    """edges and densities that are no short binary fractions, integer edges"""
    dens = [0., .1, .3, .7]
    for x in (np.array([.1, .4, 1.1, 1.2]), np.array([-1 / 3, 1 / 3, 2 / 3, 1.7]), np.array([1e6 + .1, 1e6 + .2, 1e6 + .4, 1e6 + .7]),
              np.array([1., 2, 4, 5]), np.array([1, 2, 4, 5])):
        for p in itertools.product(dens, repeat=3):
            if sum(p):
                ctx.state(tuple(x), p, sort, randomize, str(x.dtype))
                analyse(ctx, x, np.array(p), 0., sort, randomize, 60, 4)
    x = np.array([0, 2, 5])
    for p in itertools.product([0, 1, 4], repeat=2):
        if sum(p):
            full = np.array([0, *p])
            analyse(ctx, x, full[1:], 0, sort, randomize, 60, 4)


def fine(ctx, sort):
    """a finely binned spectrum over a large dynamic range: cumulative distribution of the draws"""
    from marxs.math.random import RandomArbitraryPdf
    x = np.geomspace(.1, 10., 200)
    pdf = x ** -3.
    rand = RandomArbitraryPdf(x, pdf, sort=sort)
    N = 40000
    k = np.arange(N)
    out = np.sort(draw(rand, N, [(k + .5) / N, (k * 0.6180339887498949 + .1) % 1]))
    ctx.step()
    ctx.state('fine', sort)
    c = np.concatenate([[0], np.cumsum(pdf[1:] * np.diff(x))])
    got = np.interp(out, x, c / c[-1])
    ctx.check(np.abs(got - (k + .5) / N).max() < 2e-2, 'distribution of draws')


def types(ctx):
    from marxs.math.random import RandomArbitraryPdf
    ctx.state('types')
    for x, p in [([1, 2, 3], [0., 1, 6]), (np.array([1, 2, 3]), np.array([9, 1, 6])), ((1., 2., 3.), (0, 1, 6))]:
        r = RandomArbitraryPdf(x, p)
        with rng.active(rng.Const(.01)):
            v = r(1)
            ctx.same(len(r(0)), 0, 'no draws')
        ctx.step(2)
        ctx.check(1 <= v[0] <= 2, 'list input')
    for x, p in [([1, 2], [1.]), ([1, 2, 3], [0, 1, -1]), ([1, 3, 2], [0, 1, 1]), ([2, 1], [1, 1]), ([1, 2, 3], [-.1, 1, 1])]:
        ctx.raises(ValueError, lambda: RandomArbitraryPdf(x, p), f'{x} {p}')
        ctx.step()


def scenarios(ctx):
    yield from C.cases(small, 'small', [1, 2, 3], ['a', 'b'], [True, False], [True, False])
    yield from C.cases(small, 'small', [4], ['a'], [True, False], [True, False])
    yield from C.cases(thirds, 'thirds', [True, False], [True, False])
    yield from C.cases(fine, 'fine', [True, False])
    yield 'types', types
