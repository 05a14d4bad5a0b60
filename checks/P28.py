"""All ordered sequences of tolerancing calls (function x parameter setting) up to depth 2 on the full alphabet of
settings and depth 3 (thorough 4) on a reduced one, for containers of several geometries, against a matrix model of
the positions; every optical element x placement x sequence of moves against an element built in the moved place;
all ordered parameter lists up to length 3 for the drivers against runs on fresh instruments; random misalignments
recovered from the resulting positions for scripted draws; all small result tables for the selection helper."""
import copy
import itertools
import warnings
import numpy as np
import astropy.units as u
from astropy.table import Table
from scipy import special
from mc import rng, zoo
from . import _common as C

DOF = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']


def mat(p):
    m = np.eye(4)
    m[:3, :3] = zoo.rot_z(p.get('rz', 0)) @ zoo.rot_y(p.get('ry', 0)) @ zoo.rot_x(p.get('rx', 0))
    m[:3, 3] = [p.get(k, 0) for k in ('dx', 'dy', 'dz')]
    return m


SETTINGS = [{}, {'dx': 2.}, {'dy': -3.}, {'dz': .5}, {'rx': .4}, {'ry': -.02}, {'rz': 1.1},
            {'dx': -1., 'dy': 2., 'dz': 7., 'rx': -.3, 'ry': .2, 'rz': .15},
            dict(dx=0., dy=0., dz=0., rx=0., ry=0., rz=0.)]


def affine(pos, rot, zoom=1.):
    m = np.eye(4)
    m[:3, :3] = rot @ np.diag(np.broadcast_to(zoom, 3))
    m[:3, 3] = pos
    return m


# ------------------------------------------------------------------ containers
def containers():
    from marxs.simulator import Parallel
    from marxs.optics import FlatDetector, FlatGrating, OrderSelector
    elems = [((0, -5., 2), np.eye(3), (1., 2., 3.)), ((1., 4., -3), zoo.rot_x(.5) @ zoo.rot_z(.3), (1., 1., 1.)),
             ((-2., 0, 6.), zoo.rot_y(-.4), (1., .5, .7))]
    par = {'unit': affine((0, 0, 0), np.eye(3)), 'gen': affine((10., -4, 3), zoo.rot_z(.7) @ zoo.rot_y(-.3))}
    sub = {'det': (FlatDetector, {'zoom': (1., 4., 4.), 'ignore_pixel_warning': True}, (0, 0, 0), np.eye(3), (1, 4, 4)),
           'grat': (FlatGrating, {'zoom': 2., 'd': .001, 'order_selector': OrderSelector([1]), 'position': np.array([.5, 0, 0]),
                                  'orientation': zoo.rot_x(.2)}, (.5, 0, 0), zoo.rot_x(.2), (2, 2, 2))}
    for pn, pm in par.items():
        for sn, (cls, args, tp, rp, zp) in sub.items():
            def make(cls=cls, args=args, pm=pm):
                return Parallel(elem_class=cls, elem_args=dict(args), pos4d=pm.copy(), id_num_offset=3,
                                elem_pos=[affine(*e) for e in elems])

            def model(U, E, pm=pm, tp=tp, rp=rp, zp=zp):
                out = []
                for (c, r, z), e in zip(elems, E):
                    m = affine(e[:3, 3] + np.array(c) + np.array(tp), e[:3, :3] @ r @ rp, np.array(z) * np.array(zp))
                    out.append(pm @ U @ m)
                return np.stack(out)
            yield f'{pn}-{sn}', (make, model)


def positions(e):
    return np.stack([x.pos4d for x in e.elements])


def container_seq(ctx, name, first, depth):
    from marxs.design import tolerancing as t
    make, model = dict(containers())[name]
    full = [(f, s) for f in ('moveglobal', 'moveindividual') for s in SETTINGS]
    small = [('moveglobal', SETTINGS[7]), ('moveglobal', SETTINGS[4]), ('moveglobal', {}), ('moveindividual', SETTINGS[7]),
             ('moveindividual', SETTINGS[2]), ('moveindividual', {}), ('wiggle', SETTINGS[7]), ('wiggle', {})]
    al = full if depth <= 2 else small
    if first >= len(al):
        return
    for rest in itertools.product(al, repeat=depth - 1):
        e = make()
        other = make()
        parent = e.pos4d.copy()
        U, E = np.eye(4), [np.eye(4)] * 3
        for f, s in (al[first],) + rest:
            ctx.step()
            if f == 'wiggle':
                with rng.active(rng.Const(.9)):
                    t.wiggle(e, **s)
                E = [mat({k: v * special.ndtri(.9) for k, v in s.items()})] * 3
            elif f == 'moveglobal':
                t.moveglobal(e, **s)
                U = mat(s)
            elif f == 'moveindividual':
                t.moveindividual(e, **s)
                E = [mat(s)] * 3
        ctx.state(name, U.tobytes(), np.array(E).tobytes())
        ctx.close(positions(e), model(U, E), f'{(al[first],) + rest}: positions', rtol=1e-9, atol=1e-9)
        ctx.same([x.id_num for x in e.elements], [3, 4, 5], 'id numbers')
        ctx.same(e.pos4d, parent, 'position of the container itself')
        ctx.close(positions(other), model(np.eye(4), [np.eye(4)] * 3), 'another container changed', atol=1e-9)
        t.moveglobal(e, **t.reset_6d)
        t.moveindividual(e, **t.reset_6d)
        ctx.close(positions(e), positions(other), 'reset', rtol=1e-9, atol=1e-9)


def lists(ctx, form):
    """one element or any list of elements"""
    from marxs.design import tolerancing as t
    make, model = dict(containers())['gen-det']
    for f in ('moveglobal', 'moveindividual', 'wiggle'):
        for s in SETTINGS:
            es = [make() for i in range(3)]
            arg = {'list': es, 'tuple': tuple(es), 'gen': (x for x in es), 'one': es[0], 'array': np.array(es, object),
                   'empty': []}[form]
            with rng.active(rng.Const(.7)):
                getattr(t, f)(arg, **s)
            ctx.step()
            ctx.state(f, form, tuple(s.items()))
            z = special.ndtri(.7)
            for i, e in enumerate(es):
                done = form not in ('one', 'empty') or (form == 'one' and i == 0)
                U, E = np.eye(4), [np.eye(4)] * 3
                if done and f == 'moveglobal':
                    U = mat(s)
                elif done:
                    E = [mat(s if f == 'moveindividual' else {k: v * z for k, v in s.items()})] * 3
                ctx.close(positions(e), model(U, E), f'{f} {form} element {i}', rtol=1e-9, atol=1e-9)


def wiggle_draws(ctx, cont):
    """each of the six numbers of each element is an independent draw with the requested sigma"""
    from marxs.design import tolerancing as t
    make, model = dict(containers())[cont]
    n = 18
    z = special.ndtri((np.arange(n) + .5) / n)
    sig = dict(dx=.1, dy=.2, dz=.4, rx=.01, ry=.02, rz=.04)
    for shift in range(n):
        for s in [sig] + [{k: sig[k]} for k in DOF]:
            e = make()
            with rng.active(rng.Script(np.roll((np.arange(n) + .5) / n, shift))):
                t.wiggle(e, **s)
            ctx.step()
            ctx.state(cont, shift, len(s))
            found = []
            for m in e.elem_uncertainty:
                m = np.asarray(m)
                ang = [np.arctan2(m[2, 1], m[2, 2]), -np.arcsin(m[2, 0]), np.arctan2(m[1, 0], m[0, 0])]
                for k, v in zip(DOF, list(m[:3, 3]) + ang):
                    if k in s:
                        found.append(v / s[k])
                    else:
                        ctx.close(v, 0, f'{k} must not change', atol=1e-12)
            ctx.close(positions(e), model(np.eye(4), [np.asarray(x) for x in e.elem_uncertainty]), 'positions', rtol=1e-9,
                      atol=1e-9)
            for v in found:
                ctx.check(np.min(np.abs(v - z)) < 1e-7, f'{v} sigma was not drawn')
            ctx.same(len({round(v, 6) for v in found}), len(found), 'same draw used twice')


# ------------------------------------------------------------------ single elements
def single(ctx, spec, place):
    from marxs.design.tolerancing import moveelem
    P = zoo.PLACES[place]
    rays = [spec.ray('hit', np.broadcast_to(P['zoom'], 3), 2 + i) for i in range(6)]
    small = [{}, {'dx': .1}, {'dy': -.2}, {'dz': .1}, {'rx': .1}, {'ry': -.02}, {'rz': .03},
             {'dx': -.1, 'dy': .2, 'dz': .1, 'rx': -.03, 'ry': .02, 'rz': .015}]
    seqs = [(a,) for a in small] + [(a, b) for a in small[1:] for b in (small if ctx.thorough else small[:1] + small[-1:])]
    if spec.name in ('L1', 'L2Abs', 'L2Diffraction', 'QualityFactor', 'CATL1L2Stack', 'MultiLayerMirror') and \
            not ctx.thorough:
        seqs = seqs[::3]
    for seq in seqs:
        e = spec.make(**zoo.place_kw(place))
        orig = e.pos4d.copy()
        for s in seq:
            # an element that is already in use can be moved
            C.run(e, zoo.photons(place, rays), .3)
            moveelem(e, **s)
            ctx.step()
        want = mat(seq[-1]) @ orig
        ctx.state(spec.name, place, want.tobytes())
        ctx.close(e.pos4d, want, f'{seq}: pos4d', rtol=1e-9, atol=1e-9)
        fresh = spec.make(pos4d=want.copy())
        ph = zoo.photons(place, rays)
        a = zoo.columns(C.run(e, ph.copy(), .3))
        b = zoo.columns(C.run(fresh, ph.copy(), .3))
        ctx.same(sorted(a), sorted(b), 'columns')
        for c in a:
            ctx.close(a[c], b[c], f'{seq}: {c} differs from an element built at this place', rtol=1e-6, atol=1e-8) \
                if a[c].dtype.kind == 'f' else ctx.same(a[c], b[c], c)
        moveelem(e)
        ctx.close(e.pos4d, orig, 'return to original position', rtol=1e-12, atol=1e-12)


# ------------------------------------------------------------------ attributes
def attributes(ctx):
    from marxs.design import tolerancing as t
    from marxs import optics
    rays = [zoo.plane_ray('hit', [1, 2, 3], i) for i in range(5)]
    ph = zoo.photons('unit', rays)
    mk = {'scatter': (lambda **k: optics.RadialMirrorScatter(**{'inplanescatter': 1 * u.arcmin,
                                                                 'perpplanescatter': 0 * u.arcmin,
                                                                 **k, **zoo.place_kw('unit')}),
                      [{'inplanescatter': 2. * u.arcmin}, {'perpplanescatter': 5. * u.arcsec},
                       {'inplanescatter': 0 * u.rad, 'perpplanescatter': .01 * u.rad}, {}]),
          'filter': (lambda **k: optics.EnergyFilter(**{'filterfunc': lambda e: .5 + 0 * e, **k, **zoo.place_kw('unit')}),
                     [{'filterfunc': lambda e: .1 + 0 * e}, {'filterfunc': lambda e: .2 * e}])}
    for name, (make, al) in mk.items():
        for n in (1, 2, 3):
            for seq in itertools.product(al, repeat=n):
                e, state = make(), {}
                for s in seq:
                    t.varyattribute([e], **s)
                    state.update(s)
                ctx.step(n)
                ctx.state(name, n, len(state))
                a = zoo.columns(C.run(e, ph.copy(), .3))
                b = zoo.columns(C.run(make(**state), ph.copy(), .3))
                for c in a:
                    ctx.check(np.array_equal(a[c], b[c], equal_nan=a[c].dtype.kind == 'f'), f'{name} {c}')
    # attributes that exist but have no value yet
    e = optics.FlatGrating(d=.001, order_selector=None, **zoo.place_kw('unit'))
    sel = optics.OrderSelector([2])
    t.varyattribute(e, order_selector=sel)
    ctx.check(e.order_selector is sel, 'attribute without value')
    e = optics.EnergyFilter(filterfunc=None)
    t.varyattribute([e], filterfunc=len)
    ctx.check(e.filterfunc is len, 'attribute without value')
    e = optics.FlatDetector()
    for k in ('pixsizee', 'd', 'nothing'):
        ctx.raises(ValueError, lambda: t.varyattribute(e, **{k: 3}), k)
        ctx.check(not hasattr(e, k), 'attribute created')
    ctx.raises(ValueError, lambda: t.varyperiod(e, 1., 0.))
    ctx.raises(ValueError, lambda: t.varyorderselector(e, optics.OrderSelector, [1]))


def gratings(ctx, q):
    from marxs.design import tolerancing as t
    from marxs import optics
    rays = [zoo.plane_ray('hit', [1, 2, 3], i) for i in range(6)]
    ph = zoo.photons('unit', rays)
    mk = lambda d=.001, o=1: optics.CATGrating(d=d, order_selector=optics.OrderSelector([o]), **zoo.place_kw('unit'))
    al = [('p', .002, 0.), ('p', .003, 1e-4), ('o', -2, None), ('o', 0, None)]
    for n in (1, 2, 3):
        for seq in itertools.product(al, repeat=n):
            es, d, o = [mk(), mk()], .001, 1
            for kind, v, s in seq:
                with rng.active(rng.Const(q)):
                    if kind == 'p':
                        t.varyperiod(es, v, s)
                        d = v + s * special.ndtri(q)
                    else:
                        t.varyorderselector(es, optics.OrderSelector, [v])
                        o = v
            ctx.step(n)
            ctx.state(d, o)
            for e in es:
                a = zoo.columns(C.run(e, ph.copy(), .3))
                b = zoo.columns(C.run(mk(d, o), ph.copy(), .3))
                for c in a:
                    ctx.close(a[c], b[c], f'{seq} {c}', rtol=1e-9, atol=1e-12) if a[c].dtype.kind == 'f' else \
                        ctx.same(a[c], b[c], c)
    es = [mk() for i in range(4)]
    with rng.active(rng.Script([.1, .9, .3, .6])):
        t.varyperiod(es, .002, 1e-4)
    got = sorted(float(np.ravel(e.d(np.zeros((1, 2))))[0]) for e in es)
    ctx.close(got, sorted(.002 + 1e-4 * special.ndtri([.1, .9, .3, .6])), 'each grating has its own draw', rtol=1e-9)


# ------------------------------------------------------------------ drivers
def instrument():
    from marxs import optics
    from marxs.simulator import Parallel, Sequence
    lens = optics.ThinLens(focallength=100., position=[100., 0, 0], zoom=[1, 20, 20])
    grat = Parallel(elem_class=optics.FlatGrating, elem_pos={'position': [[95., -5, 0], [95., 5, 0]]},
                    elem_args={'d': .001, 'zoom': 5., 'order_selector': optics.OrderSelector([1])}, id_col='facet')
    det = optics.FlatDetector(zoom=[1, 50, 50], pixsize=.5)
    return lens, grat, det, Sequence(elements=[lens, grat, det])


def measure(photons):
    return {'mx': float(np.nanmean(photons['det_x'])), 'n': len(photons), 'py': np.nanmean(photons['pos'][:, 1]) * u.mm,
            'per': np.array(photons['det_y'])}


def run_tol(ctx, first):
    from marxs.design import tolerancing as t
    rays = [(np.array([150., y, z]), zoo.unit([-1., .002 * y, -.001])) for y in (-6., -3., 2., 4.) for z in (-3., 1.)]
    zoo.PLACES['inst'] = dict(position=[0., 0, 0], orientation=np.eye(3), zoom=[1., 20, 20])
    ph = zoo.photons('inst', rays, extra=False)
    cases = {'moveglobal': (t.moveglobal, 1, [{'dy': 1.}, {'rz': .1, 'dx': 2.}, {}]),
             'moveindividual': (t.moveindividual, 1, [{'dy': 1.}, {'rx': .3}, {}]),
             'moveelem': (t.moveelem, 2, [{'dx': -3.}, {'ry': .1}, {}]),
             'wiggle': (t.wiggle, 1, [{'dy': .5}, {'rx': .1}, {}]),
             'varyattribute': (t.varyattribute, 0, [{'focallength': 50.}, {'focallength': 200.}])}
    func, which, al = cases[first]
    for n in (0, 1, 2, 3):
        for seq in itertools.product(al, repeat=n):
            ins = instrument()
            pars = [dict(s) for s in seq]
            keep = zoo.columns(ph)
            with rng.active(rng.Const(.8)):
                out = t.run_tolerances(ph, ins[3], func, ins[which], pars, measure)
            ctx.step(max(n, 1))
            ctx.state(first, str(seq))
            ctx.same(len(out), n, 'number of results')
            ctx.check(pars == [dict(s) for s in seq], 'parameters modified')
            now = zoo.columns(ph)
            ctx.check(sorted(now) == sorted(keep) and all(np.array_equal(now[c], keep[c]) for c in now),
                      'input photons modified')
            for s, o in zip(seq, out):
                new = instrument()
                with rng.active(rng.Const(.8)):
                    func(new[which], **s)
                    want = measure(new[3](ph.copy()))
                ctx.same(sorted(o), sorted(list(want) + list(s)), 'keys of the result')
                for k in s:
                    ctx.check(o[k] == s[k], 'parameter in result')
                for k in want:
                    ctx.close(u.Quantity(o[k]).value, u.Quantity(want[k]).value, f'{seq}: {k}', rtol=1e-9, atol=1e-9)


class Source:
    """stands in for a source: parallel beam with one energy"""
    def __init__(self):
        self.energy = None
        self.calls = []

    def generate_photons(self, t):
        self.calls.append((self.energy, t))
        rays = [(np.array([150., y, z]), zoo.unit([-1., .002 * y, -.001])) for y in (-6., -3., 2., 4.) for z in (-3., 1.)]
        zoo.PLACES['inst'] = dict(position=[0., 0, 0], orientation=np.eye(3), zoom=[1., 20, 20])
        p = zoo.photons('inst', rays, extra=False)
        p['energy'] = np.full(len(p), u.Quantity(self.energy).to_value(u.keV, equivalencies=u.spectral())) * u.keV
        return p


def energies(ctx, which, unit):
    from marxs.design import tolerancing as t
    from marxs import optics
    from marxs.simulator import Sequence
    al = [{'dy': 1.}, {'rz': .1, 'dy': 2.}, {'dy': 0.}]

    class Special(optics.FlatDetector):
        pass

    def build(det_cls):
        lens, grat, det, seq = instrument()
        det = det_cls(zoom=[1, 50, 50], pixsize=.5)
        return lens, grat, det, Sequence(elements=[lens, grat, det])
    for n in (1, 2, 3):
        for epos in ([1.], [.5, 2.], [2., .5, 1.]):
            for seq in itertools.islice(itertools.product(al, repeat=n), 0, None, 1 if n < 3 else 5):
                for reset in (None, {}, dict(dy=-4.)):
                    en = (epos * u.keV).to(unit, equivalencies=u.spectral())
                    src = Source()
                    sub = which == 'subclass'
                    lens, grat, det, ins = build(Special if sub else optics.FlatDetector)
                    pars = [dict(s, rz=s.get('rz', 0.)) for s in seq]
                    if which == 'split':
                        tab = t.run_tolerances_for_energies(src, en, Sequence(elements=[lens, grat]),
                                                            Sequence(elements=[det]), t.moveelem, det, pars, measure,
                                                            reset=reset, t_source=3 * u.s)
                    else:
                        tab = t.run_tolerances_for_energies2(src, en, ins, optics.FlatDetector, t.moveelem, pars,
                                                             measure, reset=reset, subclass_ok=sub, t_source=3 * u.s)
                    ctx.step(len(epos) * n)
                    ctx.state(which, unit, str(seq), str(epos), str(reset))
                    ctx.same(len(tab), len(epos) * n, 'number of rows')
                    ctx.same([(float(c[0].value), c[1]) for c in src.calls], [(float(x.value), 3 * u.s) for x in en],
                             'source is run once per energy')
                    i = 0
                    for e in epos:
                        for s in pars:
                            l2, g2, d2, i2 = build(optics.FlatDetector)
                            t.moveelem(d2, **s)
                            s2 = Source()
                            s2.energy = e * u.keV
                            want = measure(i2(s2.generate_photons(1)))
                            row = tab[i]
                            ctx.close(u.Quantity(tab['energy'][i], tab['energy'].unit or unit)
                                      .to_value(u.keV, equivalencies=u.spectral()), e, 'energy column')
                            ctx.close(u.Quantity(tab['wave'][i], tab['wave'].unit or u.Angstrom)
                                      .to_value(u.Angstrom), 12.39841984 / e, 'wave column', rtol=1e-7)
                            for k in s:
                                ctx.close(row[k], s[k], f'parameter {k}')
                            for k in want:
                                ctx.close(row[k], u.Quantity(want[k]).value, f'row {i} {k}', rtol=1e-9, atol=1e-9)
                            i += 1
                    last = reset if reset is not None else pars[-1]
                    ctx.close(det.pos4d, mat(last) @ np.diag([1., 50, 50, 1]), 'state afterwards', atol=1e-9)
    if which == 'class':
        ctx.raises(Exception, lambda: t.run_tolerances_for_energies2(Source(), [1] * u.keV, ins, optics.CATGrating,
                                                                     t.moveelem, [{}], measure))


# ------------------------------------------------------------------ parameter lists
def wigglelist(ctx, nt, nr):
    from marxs.design.tolerancing import generate_6d_wigglelist
    steps = [0., .1, 3., .02][:nt], [0., 2., .5, 7.][:nr]
    names = DOF
    for tu, ru in itertools.product((u.mm, u.cm), (u.rad, u.degree)):
        for nm in (DOF, ['a', 'b', 'c', 'd', 'e', 'f']):
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                g, i = generate_6d_wigglelist(steps[0] * tu, steps[1] * ru, names=nm)
            ctx.step()
            ctx.state(nt, nr, str(tu), str(ru))
            ind = [(0.,) * 6]
            for k in range(6):
                for s in steps[k // 3][1:]:
                    v = (s * (tu, ru)[k // 3]).to_value((u.mm, u.rad)[k // 3])
                    ind.append(tuple(v if j == k else 0. for j in range(6)))
            both = ind + [tuple(-x for x in v) for v in ind[1:]]
            for got, want in ((i, ind), (g, both)):
                ctx.check(all(sorted(d) == sorted(nm) for d in got), 'names of parameters')
                a = sorted(tuple(float(d[k]) + 0. for k in nm) for d in got)
                b = sorted(tuple(x + 0. for x in v) for v in want)
                ctx.same(len(a), len(b), 'number of settings')
                ctx.close(np.array(a), np.array(b), 'settings', rtol=1e-12)


def select(ctx, npar):
    from marxs.design.tolerancing import select_1dof_changed
    names = ['p', 'q', 'r'][:npar]
    rows = list(itertools.product((-1., 0., 2.), repeat=npar))
    for k in range(0, 3):
        for pick in itertools.product(rows, repeat=k) if npar < 3 else itertools.combinations(rows, k):
            tab = Table(rows=[r + (i,) for i, r in enumerate(pick)] or None, names=names + ['id'],
                        dtype=[float] * npar + [int])
            for p in names:
                out = select_1dof_changed(tab, p, names)
                ctx.step()
                want = [i for i, r in enumerate(pick) if all(v == 0 for n, v in zip(names, r) if n != p)]
                ctx.same([int(x) for x in out['id']], want, f'{pick} {p}')
            ctx.state(npar, pick)
            ctx.same(len(tab), k, 'input modified')


# ------------------------------------------------------------------ CAT gratings
def bartilt(ctx, q, tilt):
    from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt
    from marxs.missions.mitsnl import catgrating as cg
    from marxs.simulator import Parallel, SimulationSetupError
    from marxs import optics
    kws = {'plain': (cg.NonParallelCATGrating, {'d': 2e-4, 'order_selector': zoo.interp_selector()}),
           'stack': (cg.CATL1L2Stack, {'order_selector': zoo.interp_selector()})}
    n = 3
    for name, (cls, args) in kws.items():
        for s in SETTINGS[:8]:
            s = {k: abs(v) * .1 for k, v in s.items()}
            for qs in ([q] * 50, list((np.arange(100) * .37 + q) % 1 * .9 + .05)):
                e = Parallel(elem_class=cls, elem_args=dict(args, zoom=(1., 3., 3.)),
                             elem_pos={'position': [[0., -5, 0], [0., 5, 0], [1., 0, 9]]})
                for rep in range(2):
                    with rng.active(rng.Script(qs)):
                        wiggle_and_bar_tilt(e, max_bar_tilt=tilt, **s)
                ctx.step()
                ctx.state(name, q, tilt, str(s))
                z = special.ndtri(np.array(qs))
                gr = e.elements_of_class(cg.NonParallelCATGrating)
                ctx.same(len(gr), n, 'gratings')
                tilts = []
                for g, m in zip(gr, e.elem_uncertainty):
                    m = np.asarray(m)
                    b = g.blaze_center
                    tilts.append(b)
                    ctx.check(abs(b) <= tilt * (1 + 1e-12), 'bar tilt larger than allowed')
                    ctx.check(tilt == 0 or np.min(np.abs((b / tilt + 1) / 2 - np.array(qs))) < 1e-9,
                              'bar tilt not uniformly drawn')
                    ang = [np.arctan2(m[2, 1], m[2, 2]), -np.arcsin(m[2, 0]) + b, np.arctan2(m[1, 0], m[0, 0])]
                    for k, v in zip(DOF, list(m[:3, 3]) + ang):
                        if s.get(k, 0):
                            ctx.check(np.min(np.abs(v / s[k] - z)) < 1e-6, f'{k} {v} was not drawn')
                        else:
                            ctx.close(v, 0, f'{k}: rotation compensates the bar tilt', atol=1e-10)
                if tilt and len(set(qs)) > 1:
                    ctx.same(len({round(b, 12) for b in tilts}), n, 'every grating has its own bar tilt')
    e = Parallel(elem_class=optics.FlatDetector, elem_args={}, elem_pos={'position': [[0., -5, 0], [0., 5, 0]]})
    ctx.raises(SimulationSetupError, lambda: wiggle_and_bar_tilt(e, max_bar_tilt=.1))


def selectors(ctx, q):
    from marxs.missions.mitsnl import tolerances as mt
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    from astropy.table import Column
    en = np.array([.5, .8, 1.1, .5])
    blaze = np.array([.01, .03, .02, .05])
    pol = np.ones(4)
    ref = InterpolateEfficiencyTable(zoo.eff_table())
    for w in (0., .001, .01):
        for qs in ([q] * 10, [.1, .9, q, .4]):
            z = special.ndtri(np.array(qs))[:4]
            for sel, off in ((_sel(mt.OrderSelectorWavy, 'wavysigma', w), w * z),
                             (_sel(mt.OrderSelectorTopHat, 'tophatwidth', w), w * (np.array(qs)[:4] - .5))):
                b = blaze.copy()
                with rng.active(rng.Script(qs)):
                    got = sel.probabilities(en, pol, b)
                ctx.step()
                ctx.state(type(sel).__name__, w, tuple(qs))
                ctx.same(b, blaze, 'input blaze angles modified')
                want = ref.probabilities(en, pol, blaze + off)
                ctx.same(got[0], want[0], 'orders')
                ctx.close(got[1], want[1], f'{type(sel).__name__} {w}', rtol=1e-9)


def _sel(cls, key, w):
    import inspect
    par = list(inspect.signature(_base().__init__).parameters)[1]
    return cls(w, **{par: zoo.eff_table()})


def _base():
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    return InterpolateEfficiencyTable


def scenarios(ctx):
    names = [n for n, x in containers()]
    yield from C.cases(container_seq, 'containers', names, range(18), [1, 2])
    yield from C.cases(container_seq, 'containers', names[1:3] if not ctx.thorough else names, range(8),
                       [3] + ([4] if ctx.thorough else []))
    yield from C.cases(lists, 'one or more', ['one', 'list', 'tuple', 'gen', 'array', 'empty'])
    yield from C.cases(wiggle_draws, 'wiggle', names)
    yield from C.cases(single, 'element', zoo.specs(), ['gen', 'tilt'] if not ctx.thorough else zoo.NAMES)
    yield from C.cases(attributes, 'attributes')
    yield from C.cases(gratings, 'gratings', [.5, .1, .9])
    yield from C.cases(run_tol, 'run_tolerances', ['moveglobal', 'moveindividual', 'moveelem', 'wiggle', 'varyattribute'])
    yield from C.cases(energies, 'energies', ['split', 'class', 'subclass'], [u.keV, u.Angstrom])
    yield from C.cases(wigglelist, 'wigglelist', [1, 2, 3, 4], [1, 2, 3, 4])
    yield from C.cases(select, 'select', [1, 2, 3])
    yield from C.cases(bartilt, 'bar tilt', [.5, .2, .9], [0., .01])
    yield from C.cases(selectors, 'selectors', [.5, .2, .95])
