"""All ordered pairs (A, B) over the element registry plus apertures, sources, pointings and groups: create and use A,
create and use/move/restyle B, use A again and a fresh A: identical photons; every mutable constructor argument is
compared with a deep copy taken before; all orderings of use of two instances of the same class with different
settings."""
import copy
import itertools
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import QTable, Table
from mc import zoo, rng
from . import _common as C


class Subject:
    def __init__(self, name, make, use):
        self.name, self.make, self.use = name, make, use


def elem_use(spec):
    place = 'gen'

    def use(e):
        rays = [C.ray_for(spec, k, zoo.PLACES[place]['zoom'], i, place) for i, k in enumerate(['hit', 'missy', 'hit', 'hit'])]
        ph = zoo.photons(place, rays)
        return zoo.columns(C.run(e, ph, .3))
    return use


def aper_photons():
    t = Table({'energy': np.ones(5), 'probability': np.ones(5), 'polarization': np.tile([0, 1., 0, 0], (5, 1)),
               'dir': np.tile([-1., 0, 0, 0], (5, 1))})
    return t


def subjects():
    from marxs import optics, source
    from marxs.simulator import Parallel, Sequence, KeepCol
    from marxs.optics.aperture import MultiAperture
    from marxs.math import geometry as g
    from marxs.base import TagVersion
    S = []
    for s in zoo.specs():
        S.append(Subject(s.name, lambda s=s: s.make(**zoo.place_kw('gen')), elem_use(s)))

    def run_aper(e):
        with rng.active(rng.Script([.1, .7, .45, .8, .33])):
            return zoo.columns(e(aper_photons()))
    S.append(Subject('RectangleAperture', lambda: optics.RectangleAperture(zoom=[1, 2, 3]), run_aper))
    S.append(Subject('CircleAperture', lambda: optics.CircleAperture(zoom=[1, 2, 2], phi=[.2, 3.]), run_aper))
    S.append(Subject('CircleApertureRing', lambda: optics.CircleAperture(zoom=[1, 5, 5], r_inner=4.), run_aper))
    S.append(Subject('MultiAperture', lambda: MultiAperture(elements=[optics.CircleAperture(zoom=2, position=[0, 0, 4]),
                                                                      optics.RectangleAperture(zoom=3)]), run_aper))

    def run_src(s):
        with rng.active(rng.Const(.3)):
            t = s.generate_photons(5 * u.s)
        return {c: np.array(t[c].data) for c in t.colnames}
    co = SkyCoord(30, 10, unit='deg')
    S.append(Subject('PointSource', lambda: source.PointSource(coords=co, energy=2 * u.keV), run_src))
    S.append(Subject('PointSourceP', lambda: source.PointSource(coords=co, energy=lambda t: np.ones(len(t)) * 3 * u.keV,
                                                                 polarization=.4 * u.rad), run_src))
    S.append(Subject('DiskSource', lambda: source.DiskSource(coords=co, a_outer=3 * u.arcmin), run_src))
    S.append(Subject('DiskSource2', lambda: source.DiskSource(coords=co, a_outer=6 * u.arcmin, a_inner=2 * u.arcmin), run_src))
    S.append(Subject('SphericalDiskSource', lambda: source.SphericalDiskSource(coords=co, a_outer=3 * u.arcmin), run_src))
    S.append(Subject('GaussSource', lambda: source.GaussSource(coords=co, sigma=3 * u.arcmin), run_src))

    def run_point(p):
        t = Table({'ra': [30., 30.1], 'dec': [10., 10.], 'time': [0., 1.], 'polangle': [.1, .2]})
        with rng.active(rng.Const(.3)):
            return zoo.columns(p(t))
    S.append(Subject('FixedPointing', lambda: source.FixedPointing(coords=co), run_point))
    S.append(Subject('FixedPointingRoll', lambda: source.FixedPointing(coords=co, roll=.3 * u.rad), run_point))
    S.append(Subject('JitterPointing', lambda: source.JitterPointing(coords=co, jitter=1 * u.arcsec), run_point))

    def run_par(p):
        p.generate_elements()
        rays = [zoo.plane_ray('hit', [1, 1, 1], i) for i in range(5)]
        return dict(zoo.columns(C.run(p, zoo.photons('unit', rays))),
                    pos4d=np.array([e.pos4d for e in p.elements]), unc=np.array(p.uncertainty))
    for nm, args in (('', {'pixsize': .1, 'ignore_pixel_warning': True}), ('2', {'pixsize': [.1, .2], 'ignore_pixel_warning': True, 'id_col': 'chip'})):
        S.append(Subject('Parallel' + nm, lambda args=args: Parallel(elem_class=optics.FlatDetector, elem_args=args,
                                                                     elem_pos={'position': [[0, -.5, 0], [0, 1.5, 0]]}), run_par))

    def run_seq(s):
        rays = [zoo.plane_ray('hit', [1, 1, 1], i) for i in range(5)]
        return zoo.columns(C.run(s, zoo.photons('unit', rays)))
    S.append(Subject('Sequence', lambda: Sequence(elements=[optics.FlatDetector(pixsize=.1)]), run_seq))
    S.append(Subject('SequenceKeep', lambda: Sequence(elements=[optics.FlatDetector(pixsize=.1)], postprocess_steps=[lambda p: p.meta.update({'x': 1})]), run_seq))

    def run_tag(s):
        out = s(Table({'a': [1]}))
        return {k: np.array(str(v)) for k, v in out.meta.items() if k != 'DATE'}
    S.append(Subject('Tag', lambda: TagVersion(CREATOR='me', MYKEY=5), run_tag))
    S.append(Subject('Tag2', lambda: TagVersion(), run_tag))

    def run_geo(g):
        out = {'pos4d': g.pos4d, 'keys': np.array(sorted(getattr(g, '_geometry', {}))),
               'r': np.array(r_inner(g))}
        if hasattr(g, 'coos_limits'):
            out['lim'] = np.array([np.asarray(c, float) for c in g.coos_limits])
        return out
    S.append(Subject('geomCircle', lambda: g.CircularHole({'r_inner': .5}), run_geo))
    S.append(Subject('geomCircle2', lambda: g.CircularHole({'phi': [0, 1.]}), run_geo))
    S.append(Subject('geomRect', lambda: g.RectangleHole({'r_inner': .2}), run_geo))
    S.append(Subject('geomPlane', lambda: g.FinitePlane({}), run_geo))
    S.append(Subject('geomCyl', lambda: g.Cylinder({'phi_lim': [-1., 1.]}), run_geo))
    S.append(Subject('geomCyl2', lambda: g.Cylinder({}), run_geo))
    return S


def r_inner(g):
    try:
        return g['r_inner']
    except KeyError:
        return -1.


def outcmp(ctx, a, b, msg):
    ctx.same(set(a), set(b), msg + ': columns')
    for c in a:
        ctx.same(np.asarray(b[c]), np.asarray(a[c]), f'{msg}: {c}')


def disturb(obj):
    """use the public ways to alter one object"""
    if isinstance(getattr(obj, 'display', None), dict):
        obj.display['color'] = (.1, .2, .3)
        obj.display['opacity'] = .77
    g = getattr(obj, 'geometry', None)
    if g is not None and g is not obj and hasattr(g, 'pos4d'):
        p = np.array(g.pos4d)
        p[:3, 3] += 50.
        g.pos4d = p
    if hasattr(g, '_geometry') and isinstance(getattr(g, '_geometry'), dict):
        g._geometry['extra'] = np.array([1., 2, 3, 1])
    if hasattr(obj, 'elem_uncertainty'):
        obj.uncertainty[0, 3] += 3.
        obj.elem_uncertainty[0][1, 3] += 2.
        obj.elem_args['id_col'] = 'other'
        obj.generate_elements()
    if isinstance(getattr(obj, 'loc_coos_name', None), list):
        obj.loc_coos_name = ['q1', 'q2']
    if hasattr(obj, 'elements') and isinstance(obj.elements, list) and obj.elements:
        obj.elements.append(lambda p: p)
    for a in ('preprocess_steps', 'postprocess_steps'):
        if hasattr(obj, a):
            getattr(obj, a).append(lambda p: None)
    if hasattr(obj, 'coos_limits'):
        obj.coos_limits[0] = np.array([.1, .2])
    if hasattr(obj, 'tags'):
        obj.tags['ADDED'] = 1
    if isinstance(getattr(obj, 'output_columns', None), list):
        obj.output_columns = obj.output_columns + ['zz']


def disp(obj):
    d = getattr(obj, 'display', None)
    return {k: str(v) for k, v in dict(d).items()} if isinstance(d, dict) else None


def pairs(ctx, a, bs):
    ref_obj = a.make()
    ref = a.use(ref_obj)
    rdisp = disp(ref_obj)
    for b in bs:
        obj_a = a.make()
        obj_b = b.make()
        first = a.use(obj_a)
        outcmp(ctx, ref, first, f'{a.name} after creating {b.name}')
        b.use(obj_b)
        outcmp(ctx, ref, a.use(obj_a) if a.name not in ('Sequence',) else a.use(obj_a), f'{a.name} after using {b.name}')
        disturb(obj_b)
        try:
            b.use(obj_b)
        except Exception:
            pass          # the altered object itself may be unusable
        outcmp(ctx, ref, a.use(obj_a), f'{a.name} after altering {b.name}')
        new = a.make()
        ctx.same(disp(new), rdisp, f'display of {a.name} after altering {b.name}')
        ctx.same(disp(obj_a), rdisp, f'display of older {a.name} after altering {b.name}')
        outcmp(ctx, ref, a.use(new), f'new {a.name} after altering {b.name}')
        ctx.step(6)
        ctx.state(a.name, b.name)


# ------------------------------------------------------------- caller's arguments
def freeze(x):
    if isinstance(x, dict):
        return ('d', tuple(sorted((str(k), freeze(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, (Table,)):
        return ('t', tuple((c, freeze(np.asarray(x[c])), str(x[c].unit)) for c in x.colnames), freeze(dict(x.meta)))
    if isinstance(x, u.Quantity):
        return ('q', freeze(x.value), str(x.unit))
    if isinstance(x, np.ndarray):
        return ('a', x.shape, str(x.dtype), x.tobytes() if x.dtype != object else str(x.tolist()))
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return ('id', id(x))


def arg_cases():
    from marxs import optics, source
    from marxs.simulator import Parallel, Sequence, ParallelCalculated
    from marxs.optics import OrderSelector, detector
    from marxs.optics.aperture import MultiAperture
    from marxs.missions.mitsnl import catgrating as cg
    from marxs.design import rowland as rl
    from marxs.math import geometry as g
    from marxs.math.random import RandomArbitraryPdf
    co = SkyCoord(30, 10, unit='deg')
    dets = {'pixsize': .1, 'ignore_pixel_warning': True}
    rays = lambda: zoo.photons('unit', [zoo.plane_ray('hit', [1, 2, 3], i + 2) for i in range(4)])

    def use_el(e):
        C.run(e, rays())
    pos = lambda: dict(position=[0., 0, 0], orientation=np.eye(3), zoom=[1., 2., 3.])
    yield 'FlatDetector', optics.FlatDetector, dict(pos(), pixsize=.1), use_el
    yield 'pos4d', optics.FlatDetector, dict(pos4d=np.diag([1., 2., 3., 1])), use_el
    yield 'loc_coos', optics.CircularDetector, dict(pos(), phi_lim=[-1., 1.], pixsize=.5), use_el
    yield 'CCD', detector.CCDRedistNormal, dict(tab_width=zoo.ccd_width()), use_el
    yield 'OrderSelector', optics.FlatGrating, dict(pos(), d=1e-3, order_selector=OrderSelector([1, 2], p=[.2, .5])), use_el
    yield 'OrderSelectorArg', OrderSelector, dict(orderlist=np.array([1, 2]), p=np.array([.2, .5])), lambda s: C.run(lambda p: s(np.ones(3)), None)
    yield 'InterpTable', cg.InterpolateEfficiencyTable, dict(tab=zoo.eff_table()), lambda s: C.run(lambda p: s(np.ones(3), np.zeros(3), np.ones(3) * .01), None)
    yield 'CATL1L2Stack', cg.CATL1L2Stack, dict(pos(), order_selector=zoo.interp_selector(), l1_dims=dict(cg.l1_dims), l2_dims=dict(cg.l2_dims), qualityfactor=dict(cg.qualityfactor)), use_el
    yield 'CATmodule', lambda dims: cg.CATL1L2Stack(order_selector=zoo.interp_selector(), zoom=[1., 2., 3.]), dict(dims=[cg.l1_dims, cg.l2_dims, cg.qualityfactor]), use_el
    yield 'FlatStack', optics.FlatStack, dict(pos(), elements=[optics.EnergyFilter, optics.FlatDetector], keywords=[{'filterfunc': lambda e: .5 + 0 * e}, dict(dets)]), use_el
    yield 'Parallel', Parallel, dict(elem_class=optics.FlatDetector, elem_args=dict(dets, zoom=np.array([1., 2., 3.]), position=np.array([0., 1, 2])),
                                     elem_pos={'position': [[0, 0, 0.], [0, 5, 0.]], 'zoom': [1., 2.]}), lambda e: (e.generate_elements(), use_el(e), e.move_center(np.diag([1., 1, 1, 1])))
    yield 'ParallelMat', Parallel, dict(elem_class=optics.FlatDetector, elem_args=dict(dets), elem_pos=[np.eye(4), np.eye(4)], pos4d=np.eye(4)), lambda e: (e.generate_elements(), e.move_center(zoo.pos4d('zxy')))
    yield 'ParallelCalc', ParallelCalculated, dict(elem_class=optics.FlatDetector, elem_args=dict(dets), pos_spec=np.array([[0., 0, 0, 1], [0, 5, 0, 1]]),
                                                   normal_spec=np.array([-10., 0, 0, 1]), parallel_spec=np.array([0., 1, 0, 0])), lambda e: (e.generate_elements(), use_el(e))
    yield 'Sequence', Sequence, dict(elements=[optics.FlatDetector(pixsize=.5)], preprocess_steps=[lambda p: None]), use_el
    yield 'MultiAperture', MultiAperture, dict(elements=[optics.CircleAperture(position=[0, 0, 4]), optics.RectangleAperture()]), lambda e: C.run(e, aper_photons())
    yield 'CircleAperture', optics.CircleAperture, dict(zoom=[1, 2, 2], phi=[.1, .5]), lambda e: C.run(e, aper_photons())

    def gen(s):
        with rng.active(rng.Const(.3)):
            s.generate_photons(4. * u.s)
    yield 'sourcetab', source.PointSource, dict(coords=co, energy=QTable({'energy': [1., 2, 3] * u.keV, 'fluxdensity': [0., 1, 2] / u.s / u.cm**2 / u.keV}),
                                                polarization=QTable({'angle': [0., 90, 180] * u.deg, 'probabilitydensity': [0, 1., 2] / u.deg})), gen
    yield 'sourceq', source.PointSource, dict(coords=co, energy=12. * u.Angstrom, polarization=30 * u.deg, flux=2. / u.min / u.m**2, geomarea=3. * u.m**2), gen
    yield 'DiskSource', source.DiskSource, dict(coords=co, a_outer=3 * u.arcmin, a_inner=1 * u.arcmin), gen
    yield 'LabCone', source.LabPointSourceCone, dict(position=[1., 2, 3], direction=[0., 2., 1.], half_opening=.3), gen
    yield 'FarLab', source.FarLabPointSource, dict(sourcePos=[-1e4, 0, 0]), gen
    yield 'Pdf', RandomArbitraryPdf, dict(x=np.array([1., 2, 3]), pdf=np.array([.3, 1., 2])), lambda s: C.run(lambda p: s(5), None)
    yield 'PdfList', RandomArbitraryPdf, dict(x=[1., 2, 3], pdf=[.3, 1., 2]), lambda s: C.run(lambda p: s(5), None)

    def use_point(p):
        C.run(p, Table({'ra': [30., 30.1], 'dec': [10., 10.], 'time': [0., 1.], 'polangle': [.1, .2]}))
    yield 'Pointing', source.FixedPointing, dict(coords=co, roll=3 * u.deg, reference_transform=np.eye(4)), use_point
    yield 'Jitter', source.JitterPointing, dict(coords=co, jitter=-3 * u.arcsec), use_point
    yield 'RowlandTorus', rl.RowlandTorus, dict(R=10., r=5., position=[0., 1, 0], orientation=zoo.rot_z(.1)), lambda t: t.parametric(np.linspace(0, 1, 3), np.linspace(0, 1, 3))


def arguments(ctx):
    for name, cls, kw, use in arg_cases():
        before = freeze(kw)
        obj = cls(**kw)
        after = freeze(kw)
        ctx.check(before == after, f'{name}: arguments changed by the constructor')
        use(obj)
        use(obj)
        ctx.check(freeze(kw) == before, f'{name}: arguments changed by use')
        obj2 = cls(**kw)
        use(obj2)
        ctx.check(freeze(kw) == before, f'{name}: arguments changed by a second object')
        ctx.step(5)
        ctx.state('arg', name)


def same_class(ctx, spec):
    """several instances of one class with different settings (ids, columns, places), all orders of creation and use"""
    sets = [dict(id_col='a', id_num=1, **zoo.place_kw('gen')), dict(id_col='b', id_num=2, **zoo.place_kw('zxy')), dict(**zoo.place_kw('flip'))]
    places = zoo.NAMES[1:]

    def use(e, k):
        rays = [C.ray_for(spec, kk, zoo.PLACES[places[k]]['zoom'], i, places[k]) for i, kk in enumerate(['hit', 'missz', 'hit'])]
        return zoo.columns(C.run(e, zoo.photons(places[k], rays), .3))
    ref = [use(spec.make(**sets[k]), k) for k in range(3)]
    for create in itertools.permutations(range(3)):
        for order in itertools.product(range(3), repeat=3):
            objs = {k: spec.make(**sets[k]) for k in create}
            for k in order:
                outcmp(ctx, ref[k], use(objs[k], k), f'{spec.name} created {create}, used {order}')
                ctx.step()
            ctx.state('same', spec.name, create, order)


def outcols(ctx):
    """column definitions given as dictionaries survive repeated use"""
    from marxs.base import SimulationSequenceElement
    for cols in itertools.product([[], ['a'], [{'name': 'a', 'value': 7.}], [{'name': 'a', 'dtype': int, 'value': 3}, 'b']], repeat=2):
        class E(SimulationSequenceElement):
            pass
        e = E()
        ref = freeze(list(cols))
        for rep in range(3):
            t = Table({'x': [1., 2.]})
            e.add_output_cols(t, cols[0])
            ctx.check(freeze(list(cols)) == ref, 'column definitions were changed')
            for c in cols[0]:
                n = c if isinstance(c, str) else c['name']
                v = np.nan if isinstance(c, str) else c['value']
                ctx.same(np.asarray(t[n], float), np.full(2, float(v)), f'column {n}, repetition {rep}')
            t[t.colnames[-1]] = 9
            e.add_output_cols(t, cols[0])      # existing columns keep their values
            ctx.check(np.all(t[t.colnames[-1]] == 9), 'existing column was reset')
            ctx.step(2)
        ctx.state('cols', str(cols[0]))


def scenarios(ctx):
    S = subjects()
    if ctx.thorough:
        for i, a in enumerate(S):
            yield from C.cases(lambda c, x: pairs(c, x, S), 'pair', [a])
    else:
        for i, a in enumerate(S):
            bs = [b for j, b in enumerate(S) if (i + j) % 3 == 0 or b.name[:6] == a.name[:6]]
            yield from C.cases(lambda c, x, bs=bs: pairs(c, x, bs), 'pair', [a])
    yield 'arguments', arguments
    yield from C.cases(same_class, 'same', zoo.specs())
    yield 'outcols', outcols
