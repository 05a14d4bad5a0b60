"""All combinations of flux / energy / polarization specification x exposure times x areas x random answers: every
sequence of up to 5 inter-arrival quantiles from a 4 letter alphabet for the Poisson process (every path through the
refill loop, termination within a deadline), full quantile grids for tabulated spectra and polarization angles."""
import itertools
import signal
import numpy as np
import astropy.units as u
from astropy.table import Table, QTable
from astropy.coordinates import SkyCoord
from mc import rng
from . import _common as C

CASE_LIMIT = 60


class Deadline:
    """turns an endless loop into a violation"""

    def __init__(self, ctx, seconds, msg):
        self.ctx, self.seconds, self.msg = ctx, seconds, msg

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self.hit)
        self.left = signal.setitimer(signal.ITIMER_REAL, self.seconds)[0]

    def hit(self, *a):
        raise TimeoutError

    def __exit__(self, typ, val, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left:
            signal.setitimer(signal.ITIMER_REAL, max(1., self.left - self.seconds))
        if typ is TimeoutError:
            self.ctx.fail(self.msg + ': does not terminate')
        return False


RATES = {'si': (1 / u.s / u.cm**2, 1 * u.cm**2, 1.), 'area': (.02 / u.s / u.cm**2, 50 * u.cm**2, 1.),
         'units': (36. / u.h / u.mm**2, 100 * u.mm**2, 1.), 'slow': (.2 / u.s / u.cm**2, 1 * u.cm**2, .2),
         'm2': (1e4 / u.s / u.m**2, 3e-4 * u.m**2, 3.)}


def poisson(ctx, rname, exposure):
    from marxs.source import poisson_process
    rate, area, per_s = RATES[rname]
    f = poisson_process(rate)
    alpha = [1e-3, .3, .632, .99]
    for L in (1, 2, 3, 4) if not ctx.thorough else (1, 2, 3, 4, 5, 6):
        for seq in itertools.product(alpha, repeat=L):
            if max(seq) == alpha[0] and exposure * per_s > 50:
                continue
            with Deadline(ctx, 10, f'Poisson times for answers {seq}, exposure {exposure} s'), rng.active(rng.Script(seq)):
                t = f(exposure * u.s, area)
            ctx.step()
            ctx.state(rname, exposure, seq)
            t = t.to(u.s).value
            gaps = -np.log1p(-np.array(seq)) / per_s
            n = int(exposure / gaps.sum() + 2) * L + L
            want = np.cumsum(np.tile(gaps, n // L))
            want = want[want < exposure]
            if len(t) != len(want) and min(abs(np.cumsum(np.tile(gaps, n // L)) - exposure)) < 1e-6 * exposure:
                continue
            ctx.close(t, want, f'arrival times for answers {seq}', rtol=1e-7, atol=1e-7)


def poisson_units(ctx):
    from marxs.source import poisson_process
    ctx.state('units')
    with Deadline(ctx, 10, 'zero exposure'), rng.active(rng.Const(.5)):
        t = poisson_process(1 / u.s / u.cm**2)(0 * u.s, 1 * u.cm**2)
        ctx.same(len(t), 0, 'zero exposure')
        a = poisson_process(1 / u.s / u.cm**2)(2 * u.h, 1 * u.cm**2)
        b = poisson_process(1 / u.s / u.cm**2)(7200 * u.s, 1 * u.cm**2)
    ctx.close(a.to(u.s).value, b.to(u.s).value, 'exposure in hours')
    ctx.check(abs(len(b) - 7200 / np.log(2)) < 2, 'number of events')
    ctx.step(3)
    ctx.raises(ValueError, lambda: poisson_process([1, 2] / u.s / u.cm**2), 'rate must be scalar')
    ctx.raises(Exception, lambda: poisson_process(1 / u.s), 'unit of rate')
    ctx.raises(Exception, lambda: poisson_process(1 / u.s / u.cm**2)(3 * u.cm, 1 * u.cm**2), 'unit of time')


def fluxes():
    from marxs.source import poisson_process
    calls = []

    def func(t, area):
        calls.append((t, area))
        return np.linspace(0, .9, 8) * t
    return {'const': (2. / u.s / u.cm**2, lambda T, A: np.arange(0, int(np.ceil(2 * T * A - 1e-9))) / (2. * A)),
            'units': (7200. / u.h / u.cm**2, lambda T, A: np.arange(0, int(np.ceil(2 * T * A - 1e-9))) / (2. * A)),
            'func': (func, lambda T, A: np.linspace(0, .9, 8) * T),
            'poisson': (poisson_process(2. / u.s / u.cm**2), None)}


def energies():
    def ef(t):
        return (.5 + .1 * t.to(u.s).value) * u.keV

    def ef_erg(t):
        return ((.5 + .1 * t.to(u.s).value) * u.keV).to(u.erg)
    grid = [1., 2., 4., 4.5]
    fl = [9., 1., 0., 6.]
    flu = fl / u.s / u.cm**2 / u.keV
    t1 = QTable({'energy': grid * u.keV, 'fluxdensity': flu})
    t2 = QTable({'energy': (grid * u.keV).to(u.eV), 'fluxdensity': flu.to(1 / u.s / u.m**2 / u.eV)})
    t3 = Table({'energy': grid, 'fluxdensity': fl})
    t3['energy'].unit = u.keV
    t3['fluxdensity'].unit = 1 / u.s / u.cm**2 / u.keV
    spec = ([(1., 2., .25), (4., 4.5, .75)])
    return {'scalar': (1.5 * u.keV, 1.5), 'eV': (300 * u.eV, .3), 'wave': (20 * u.Angstrom, 12.398419843320028 / 20),
            'func': (ef, 'func'), 'erg': (ef_erg, 'func'), 'table': (t1, spec), 'table_eV': (t2, spec), 'table_col': (t3, spec)}


def pols():
    tab = QTable({'angle': [0., 1., 1.5] * u.rad, 'probabilitydensity': [3., 1., 2.] / u.rad})
    tabd = QTable({'angle': np.rad2deg([0., 1., 1.5]) * u.deg, 'probabilitydensity': [3., 1., 2.] / u.rad})
    spec = [(0., 1., .5), (1., 1.5, .5)]

    def pf(t, e):
        return (t.to(u.s).value + e.to(u.keV).value) * u.rad
    return {'none': (None, [(0, 2 * np.pi, 1.)]), 'scalar': (.7 * u.rad, .7), 'deg': (90 * u.deg, np.pi / 2),
            'table': (tab, spec), 'table_deg': (tabd, spec), 'func': (pf, 'func')}


def follows(ctx, x, spec, msg):
    """x: draws for a complete quantile grid; must have the given (lower, upper, probability) segments"""
    n = len(x)
    for lo, hi, p in spec:
        s = (x >= lo - 1e-12) & (x <= hi + 1e-12)
        ctx.check(abs(s.sum() - n * p) <= .06 * n + 1, f'{msg}: {s.sum()} of {n} in {lo}..{hi}, expected fraction {p}')
        med = np.median(x[s])
        ctx.check(abs(med - (lo + hi) / 2) < .15 * (hi - lo), f'{msg}: median {med} in segment {lo}..{hi}')
    inside = np.zeros(n, bool)
    for lo, hi, p in spec:
        inside |= (x >= lo - 1e-12) & (x <= hi + 1e-12)
    ctx.check(inside.all(), f'{msg}: values outside of the distribution: {x[~inside][:4]}')


def source(ctx, fname, ename, pname, cls):
    from marxs import source as S
    flux, tref = fluxes()[fname]
    en, eref = energies()[ename]
    pol, pref = pols()[pname]
    for T, A in itertools.product([10., .6, 0.], [1., 3., .004]):
        if cls == 'Source':
            src = S.Source(energy=en, flux=flux, polarization=pol, geomarea=A * u.cm**2)
        elif cls == 'PointSource':
            src = S.PointSource(coords=SkyCoord(30., -20., unit='deg'), energy=en, flux=flux, polarization=pol, geomarea=A * u.cm**2)
        else:
            src = S.LabPointSourceCone(position=[9, 0, 0.], direction=[-1., 0, 0], half_opening=.1 * u.rad, energy=en, flux=flux,
                                       polarization=pol, geomarea=A * u.cm**2)
        with Deadline(ctx, 15, f'exposure {T}'), rng.active(rng.Const(.5)):
            ph = src.generate_photons(T * u.s) if A == 1 else src(T / 60 * u.min if A == 3. else T * u.s)
        ctx.step()
        ctx.state(fname, ename, pname, cls, T, A)
        n = len(ph)
        tag = f'{fname} {ename} {pname} T={T} A={A}'
        for c in ('time', 'energy', 'polangle' if cls != 'Lab' else 'energy', 'probability'):
            ctx.check(c in ph.colnames, f'{tag}: column {c} missing')
        t = np.asarray(ph['time'], float)
        if tref is not None:
            ctx.close(t, tref(T, A), f'{tag}: times', atol=1e-9)
        else:
            g = np.log(2) / (2 * A)
            ctx.close(t, np.arange(1, int(T / g) + 1) * g, f'{tag}: times', atol=1e-9)
        ctx.check(np.all(np.diff(t) >= 0) and np.all((t >= 0) & (t <= T)), f'{tag}: times sorted inside exposure')
        ctx.same(str(ph['time'].unit), 's', 'unit of time')
        ctx.same(str(ph['energy'].unit), 'keV', 'unit of energy')
        e = np.asarray(ph['energy'], float)
        if isinstance(eref, float):
            ctx.close(e, np.full(n, eref), f'{tag}: energy', rtol=1e-6)
        elif eref == 'func':
            ctx.close(e, .5 + .1 * t, f'{tag}: energy')
        ctx.same(np.asarray(ph['probability']).tolist(), [1.] * n, f'{tag}: probability')
        ctx.close(ph.meta['EXPOSURE'][0], T, 'exposure in header', rtol=1e-12)
        for k in ('SIMDATE', 'SIMTIME', 'SIMUSER', 'SIMHOST', 'CREATOR', 'MARXSVER'):
            ctx.check(k in ph.meta, f'{k} in header')
        if 'polangle' in ph.colnames:
            ctx.same(str(ph['polangle'].unit), 'rad', 'unit of polangle')
            p = np.asarray(ph['polangle'], float)
            if isinstance(pref, float):
                ctx.close(p, np.full(n, pref), f'{tag}: polangle')
            elif pref == 'func':
                ctx.close(p, t + e, f'{tag}: polangle')
    # distributions: all random answers of a complete grid
    if fname == 'const' and (isinstance(eref, list) or isinstance(pref, list)):
        N = 400
        src = S.Source(energy=en, flux=N / u.s / u.cm**2, polarization=pol)
        k = np.arange(N)
        grid, bins = (k + .5) / N, (k * .6180339887498949 + .3) % 1
        with rng.active(rng.Rows([grid, bins, (k * .4142135623730951 + .7) % 1, (k * .7320508075688772 + .1) % 1])):
            ph = src(1. * u.s)
        ctx.step()
        ctx.same(len(ph), N, 'number of photons')
        if isinstance(eref, list):
            follows(ctx, np.asarray(ph['energy'], float), eref, f'{ename}: energies')
        if isinstance(pref, list):
            follows(ctx, np.asarray(ph['polangle'], float), pref, f'{pname}: polarization angle')


def nogeom(ctx):
    """geomarea=None: flux in photons per time"""
    from marxs.source import Source
    ctx.state('nogeom')
    for flux in (5 / u.s, 300 / u.minute):
        ph = Source(flux=flux, geomarea=None)(2 * u.s)
        ctx.step()
        ctx.close(np.asarray(ph['time']), np.arange(10) / 5., 'times without area')
    seen = []

    def f(t, a):
        seen.append(a)
        return [1., 2.] * u.s
    Source(flux=f, geomarea=7 * u.mm**2)(3 * u.s)
    ctx.same(seen[0], 7 * u.mm**2, 'area given to function')


def reject(ctx):
    from marxs.source import Source
    from marxs.source.basesources import SourceSpecificationError as E
    ctx.state('reject')
    bad = [dict(flux=5), dict(flux=[1, 2] / u.s / u.cm**2), dict(flux=object()), dict(energy=3), dict(energy=object()),
           dict(energy=[1, 2] * u.keV), dict(energy=lambda t: [1, 2, 3.] * u.keV), dict(energy=lambda t: np.ones(len(t) + 1) * u.keV),
           dict(energy=lambda t: np.ones(len(t) - 1) * u.keV), dict(polarization=lambda t, e: np.ones(len(t) + 3) * u.rad),
           dict(polarization=lambda t, e: np.ones(len(t) - 1) * u.rad), dict(polarization=object()), dict(polarization=.3),
           dict(polarization=[1, 2] * u.rad), dict(polarization=lambda t, e: [.1] * u.rad), dict(polarization='abc')]
    for kw in bad:
        ctx.step()
        ctx.raises(E, lambda: Source(**kw)(5 * u.s), str(kw))
    ctx.raises(Exception, lambda: Source(energy=lambda t: np.ones(len(t)) * u.s)(5 * u.s), 'unit of energies')
    ctx.raises(Exception, lambda: Source()(5 * u.cm), 'unit of exposure')


def repeat(ctx, fname, ename, pname):
    """a second run of the same source with the same answers gives the same photons; runs do not influence each other"""
    from marxs.source import Source
    src = Source(energy=energies()[ename][0], flux=fluxes()[fname][0], polarization=pols()[pname][0])
    outs = []
    for T in (4., 9., 4.):
        with rng.active(rng.Script([.2, .7, .4])):
            outs.append(src(T * u.s))
        ctx.step()
    ctx.state('repeat', fname, ename, pname)
    for c in ('time', 'energy', 'polangle', 'probability'):
        ctx.same(np.asarray(outs[0][c]), np.asarray(outs[2][c]), f'second run of the same source: {c}')
    # each run draws anew: any order of runs gives what a source that was not used before gives
    runs = [(4., (.2, .7, .4)), (4., (.9, .1, .55, .3)), (9., (.2, .7, .4)), (4., (.6, .35))]
    for order in itertools.permutations(range(4), 3):
        src = Source(energy=energies()[ename][0], flux=fluxes()[fname][0], polarization=pols()[pname][0])
        for k in order:
            T, q = runs[k]
            new = Source(energy=energies()[ename][0], flux=fluxes()[fname][0], polarization=pols()[pname][0])
            with rng.active(rng.Script(q)):
                a = src(T * u.s)
            with rng.active(rng.Script(q)):
                b = new(T * u.s)
            ctx.step(2)
            for c in ('time', 'energy', 'polangle', 'probability'):
                ctx.same(np.asarray(a[c]), np.asarray(b[c]), f'runs {order}: {c} differs from that of a new source')
    outs[0]['energy'] = 99.
    ctx.check(not np.any(np.asarray(outs[2]['energy']) == 99.), 'photon lists share memory')


def rowwise(ctx, cls, seed):
    """time, energy, polarization of one row belong together for every class of sources, whatever is drawn"""
    from marxs import source as S
    from marxs.source import basesources as Bs
    from marxs.source import labSource as Ls
    n = 7
    times = np.array([.1, .15, 1., 1.01, 2.5, 3., 3.9])
    kw = dict(flux=lambda t, a: times[times < t.to(u.s).value] * u.s, energy=lambda t: (3. - .5 * np.sin(5 * t.to(u.s).value)) * u.keV,
              polarization=lambda t, e: (t.to(u.s).value * .3 + e.to(u.keV).value) * u.rad)
    sky = dict(coords=SkyCoord(210., 35., unit='deg'))
    src = {'PointSource': lambda: S.PointSource(**sky, **kw), 'Source': lambda: S.Source(**kw),
           'DiskSource': lambda: S.DiskSource(a_inner=.1 * u.deg, a_outer=.5 * u.deg, **sky, **kw),
           'SphericalDiskSource': lambda: S.SphericalDiskSource(a_inner=1. * u.deg, a_outer=25 * u.deg, **sky, **kw),
           'GaussSource': lambda: S.GaussSource(sigma=.2 * u.deg, **sky, **kw),
           'RadialDistributionSource': lambda: Bs.RadialDistributionSource(radial_distribution=lambda k: np.random.rand(k) * u.deg, **sky, **kw),
           'SymbolFSource': lambda: S.SymbolFSource(size=1 * u.deg, **sky, **kw),
           'LabPointSourceCone': lambda: S.LabPointSourceCone(half_opening=.4, direction=[1., 2., -1], **kw),
           'FarLabPointSource': lambda: S.FarLabPointSource(sourcePos=[40., 3., 1], zoom=[1., 4., 2.], **kw)}[cls]()
    k = np.arange(1, 60)
    for T in (5., 2., 3.5, 5.):
        with rng.active(rng.Script((k * .6180339887498949 + .137 * seed) % 1)):
            ph = src(T * u.s)
        ctx.step()
        ctx.state('rows', cls, seed, T)
        t = times[times < T]
        ctx.same(np.asarray(ph['time'], float).tolist(), t.tolist(), f'{cls}: times')
        e = 3. - .5 * np.sin(5 * t)
        ctx.close(np.asarray(ph['energy'], float), e, f'{cls}: energy does not belong to the time')
        ctx.close(np.asarray(ph['polangle'], float), t * .3 + e, f'{cls}: polarization angle does not belong to time and energy')
        ctx.same(np.asarray(ph['probability']).tolist(), [1.] * len(t), 'probability')
        for c in ph.colnames:
            ctx.same(len(ph[c]), len(t), 'length')


def scenarios(ctx):
    yield from C.cases(rowwise, 'rows', ['Source', 'PointSource', 'DiskSource', 'SphericalDiskSource', 'GaussSource', 'RadialDistributionSource',
                                         'SymbolFSource', 'LabPointSourceCone', 'FarLabPointSource'], range(12))
    yield from C.cases(poisson, 'poisson', list(RATES), [.3, 1., 3.7, 10., 40.] + ([400.] if ctx.thorough else []))
    yield 'poisson_units', poisson_units
    yield from C.cases(source, 'source', ['const', 'units', 'func', 'poisson'], list(energies()), list(pols()), ['Source'])
    yield from C.cases(source, 'source', ['const', 'poisson'], ['scalar', 'table', 'func'], ['none', 'deg', 'table'], ['PointSource'])
    yield 'nogeom', nogeom
    yield 'reject', reject
    yield from C.cases(repeat, 'repeat', ['const', 'poisson'], ['scalar', 'table', 'func'], ['none', 'table', 'func'])
