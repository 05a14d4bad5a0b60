"""All sequences up to depth 3 (thorough 4) over a pool of elements (lens, scatter, gratings, aperture stop, detector,
propagator, nested sequence) x recorder in pre-, post- or both positions x column, against the elements applied one by
one; all short histories of positions for the formatted record; ray grid x all pairs of distances for propagation;
placements x points for projections and facet tables; energies x counts x reference frames for the standard
simulation helper."""
import itertools
import numpy as np
import astropy.units as u
from astropy.table import Table
from mc import rng, zoo
from . import _common as C


# ------------------------------------------------------------------ recorder
def pool():
    from marxs import optics
    from marxs.simulator import Parallel, Sequence, Propagator
    return {
        'lens': lambda: optics.ThinLens(focallength=100., position=[100., 0, 0], zoom=[1, 20, 20]),
        'scatter': lambda: optics.RadialMirrorScatter(inplanescatter=.01 * u.rad, position=[99., 0, 0], zoom=[1, 20, 20]),
        'grat': lambda: Parallel(elem_class=optics.FlatGrating, elem_pos={'position': [[95., -6, 0], [95., 6, 0]]},
                                 elem_args={'d': .001, 'zoom': 5., 'order_selector': optics.OrderSelector([1])},
                                 id_col='facet'),
        'stop': lambda: optics.EnergyFilter(filterfunc=lambda e: .5 + 0 * e, position=[90., 0, 0], zoom=[1, 8, 8]),
        'det': lambda: optics.FlatDetector(zoom=[1, 50, 50], pixsize=.5),
        'prop': lambda: Propagator(distance=3.),
        'nest': lambda: Sequence(elements=[Propagator(distance=-1.), optics.FlatDetector(position=[50., 0, 0],
                                                                                       zoom=[1, 50, 50])]),
    }


def inbeam():
    rays = [(np.array([150., y, z]), zoo.unit([-1., .002 * y, -.001])) for y in (-6., -3., 9.) for z in (-3., 1.)]
    zoo.PLACES['inst'] = dict(position=[0., 0, 0], orientation=np.eye(3), zoom=[1., 20, 20])
    return zoo.photons('inst', rays, extra=False)


def same_col(ctx, a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-12, equal_nan=True), msg)


def record(ctx, n, where):
    from marxs.simulator import Sequence, KeepCol
    P = pool()
    for names in itertools.product(P, repeat=n):
        fresh = [P[k]() for k in names]
        cols = ['pos', 'dir', 'probability', 'energy']
        pre, post = {c: [] for c in cols}, {c: [] for c in cols}
        p = inbeam()
        for e in fresh:
            for c in cols:
                pre[c].append(np.array(p[c]))
            p = C.run(e, p, .3)
            for c in cols:
                post[c].append(np.array(p[c]))
        ks = {c: KeepCol(c) for c in cols}
        kw = {}
        if where in ('pre', 'both'):
            kw['preprocess_steps'] = list(ks.values())
        if where in ('post', 'both'):
            kw['postprocess_steps'] = list(ks.values())
        seq = Sequence(elements=[P[k]() for k in names], **kw)
        q = inbeam()
        out = C.run(seq, q, .3)
        ctx.step(n)
        ctx.state(names, where)
        want = {c: {'pre': pre[c], 'post': post[c], 'both': [x for ab in zip(pre[c], post[c]) for x in ab]}[where]
                for c in cols}
        for rep in range(2):
            for c in cols:
                ctx.same(len(ks[c].data), len(want[c]), f'{names} {where} {c}: number of records')
                for i, (g, w) in enumerate(zip(ks[c].data, want[c])):
                    same_col(ctx, g, w, f'{names} {where} {c} record {i}')
                if n:
                    same_col(ctx, np.asanyarray(ks[c]), np.stack(want[c]), f'{names} {c} as array')
            # later changes of the photon list do not change the record
            for c in cols:
                for t in (out, q):
                    t[c][...] = 77.
        for c in cols:
            same_col(ctx, out[c], np.full(np.shape(out[c]), 77.), 'photons are independent of the record')
        # second run appends
        if n == 1:
            C.run(seq, inbeam(), .3)
            for c in cols:
                ctx.same(len(ks[c].data), 2 * len(want[c]), 'records of the second run')
                for g, w in zip(ks[c].data, want[c] * 2):
                    same_col(ctx, g, w, f'{c} second run')


def missing(ctx):
    from marxs.simulator import Sequence, KeepCol
    P = pool()
    for names in itertools.product(P, repeat=2):
        for where in ('preprocess_steps', 'postprocess_steps'):
            for col in ('det_x', 'facet', 'nothing'):
                has = {'det_x': ('det', 'nest'), 'facet': ('grat',), 'nothing': ()}[col]
                ok = names[0] in has
                k = KeepCol(col)
                seq = Sequence(elements=[P[x]() for x in names], **{where: [k]})
                ctx.step()
                ctx.state(names, where, col)
                if ok and where == 'postprocess_steps':
                    C.run(seq, inbeam(), .3)
                    ctx.same(len(k.data), 2, 'records')
                else:
                    ctx.raises(KeyError, lambda: C.run(seq, inbeam(), .3), f'{names} {where} {col}')
    ctx.raises(ValueError, lambda: KeepCol('pos').format_positions())


def formatted(ctx, n):
    from marxs.simulator import KeepCol
    pts = [np.array([[0., 0, 0], [1., 2, 3]]), np.array([[0., 0, .01], [1., 2, 3]]), np.array([[5., 0, 0], [1., 2, 3]]),
           np.array([[np.nan] * 3, [1., 2, 3]]), np.array([[0., 0, .07], [1., 2, 3]]), np.array([[0., 0, .14], [1., 2, 3]])]
    for w in (1., 2.):
        for seq in itertools.product(range(len(pts)), repeat=n):
            k = KeepCol('pos')
            t = Table({'pos': np.ones((2, 4))})
            for i in seq:
                t['pos'] = np.c_[pts[i], np.ones(2)] * w
                k(t)
            ctx.step()
            ctx.state(seq, w)
            d = k.format_positions()
            ctx.close(d, np.stack([pts[i] for i in seq], axis=1), 'all positions', atol=1e-12)
            for atol in (1e-6, .1):
                got = k.format_positions(atol=atol)
                keep = [seq[0]]
                for i in seq[1:]:
                    a, b = pts[keep[-1]], pts[i]
                    if not np.all((np.abs(a - b) < atol + 1e-4) | (np.isnan(a) & np.isnan(b))):
                        keep.append(i)
                ctx.close(got, np.stack([pts[i] for i in keep], axis=1), f'{seq} {atol}', atol=1e-12)
    for shape in ((3,), (3, 2), (3, 3), (3, 4, 4)):
        k = KeepCol('pos')
        k(Table({'pos': np.ones(shape)}))
        ctx.raises(ValueError, lambda: k.format_positions(), str(shape))


# ------------------------------------------------------------------ propagation
def propagation(ctx, place, how):
    from marxs.simulator import propagate, Propagator, Sequence
    rays = [zoo.plane_ray('hit', np.broadcast_to(zoo.PLACES[place]['zoom'], 3), i) for i in range(8)]
    D = [0., 1., -1., 12.5, -1e3, 3e-5]
    for d1, d2 in itertools.product(D, repeat=2):
        p = zoo.photons(place, rays)
        keep = zoo.columns(p)
        if how == 'function':
            out = propagate(propagate(p, d1), d2)
        elif how == 'element':
            out = Propagator(distance=d2)(Propagator(distance=d1)(p))
        else:
            out = Sequence(elements=[Propagator(distance=d1), Propagator(distance=d2)])(p)
        ctx.step()
        ctx.state(place, how, d1, d2)
        now = zoo.columns(out)
        ctx.same(sorted(now), sorted(keep), 'columns')
        for c in now:
            if c != 'pos':
                ctx.same(now[c], keep[c], f'column {c} changed')
        ctx.close(now['pos'], keep['pos'] + (d1 + d2) * keep['dir'], f'{d1} {d2}', rtol=1e-9, atol=1e-9)
        ctx.close(now['pos'][:, 3], np.ones(8), 'homogeneous coordinate')
    # distances per photon
    d = np.arange(8.)[:, None]
    p = zoo.photons(place, rays)
    keep = zoo.columns(p)
    ctx.close(propagate(p, d)['pos'], keep['pos'] + d * keep['dir'], 'array of distances', rtol=1e-9, atol=1e-9)


def commute(ctx, place, name):
    """An element sees the same ray after it has been moved backwards along the ray"""
    spec = [s for s in zoo.specs() if s.name == name][0]
    from marxs.simulator import propagate
    rays = [spec.ray('hit', np.broadcast_to(zoo.PLACES[place]['zoom'], 3), 2 + i) for i in range(6)]
    e = spec.make(**zoo.place_kw(place))
    if spec.geom != 'plane' or 'scatter' in name.lower():
        return
    a = zoo.columns(C.run(e, zoo.photons(place, rays), .3))
    for d in (-50., -1.):
        p = propagate(zoo.photons(place, rays), d)
        b = zoo.columns(C.run(e, p, .3))
        ctx.step()
        ctx.state(place, name, d)
        for c in a:
            ctx.close(b[c], a[c], f'{c} after propagation', rtol=1e-6, atol=1e-7) if a[c].dtype.kind == 'f' else \
                ctx.same(b[c], a[c], c)


# ------------------------------------------------------------------ projection
PTS = np.array([[0., 0, 0], [1., 0, 0], [0, 1., 0], [0, 0, 1.], [3., -2, 7], [-1e3, 40, 2.], [12e3, -5., .1]])


def project(ctx, place):
    from marxs.analysis import ProjectOntoPlane
    P = zoo.PLACES[place]
    for zoomed in (False, True):
        kw = dict(position=P['position'], orientation=P['orientation'])
        if zoomed:
            kw['zoom'] = P['zoom']
        for names in (None, ['a', 'b']):
            e = ProjectOntoPlane(**kw)
            if names:
                e.loc_coos_name = names
            t = Table({'pos': np.c_[PTS, np.ones(len(PTS))], 'dir': np.tile([-1., 0, 0, 0], (len(PTS), 1)),
                       'other': np.arange(len(PTS))})
            keep = t.copy()
            out = e(t)
            ctx.step()
            ctx.state(place, zoomed, str(names))
            n = names or ['proj_x', 'proj_y']
            ctx.same(sorted(out.colnames), sorted(keep.colnames + n), 'columns')
            loc = (PTS - np.array(P['position'])) @ np.array(P['orientation'])
            ctx.close(out[n[0]], loc[:, 1], 'x coordinate in the plane', rtol=1e-9, atol=1e-8)
            ctx.close(out[n[1]], loc[:, 2], 'y coordinate in the plane', rtol=1e-9, atol=1e-8)
            for c in keep.colnames:
                ctx.same(np.array(out[c]), np.array(keep[c]), f'{c} changed')
            # projection does not depend on the distance to the plane
            t2 = t.copy()
            t2['pos'][:, :3] += 55. * np.array(P['orientation'])[:, 0]
            out2 = e(t2)
            ctx.close(out2[n[0]], loc[:, 1], 'moved along the normal', rtol=1e-9, atol=1e-8)
    ctx.same(ProjectOntoPlane.loc_coos_name, ['proj_x', 'proj_y'], 'names of the class')


def facets(ctx, n, place):
    from marxs.analysis import ProjectOntoPlane
    from marxs.analysis.coords import facet_table
    from marxs.simulator import Parallel
    from marxs import optics
    from astropy.table import join
    P = zoo.PLACES[place]
    for pick in itertools.permutations(range(1, 6), n):
        for off in (0, 40):
            pos = [list(PTS[i]) for i in pick]
            cont = Parallel(elem_class=optics.FlatDetector, elem_args={'ignore_pixel_warning': True}, elem_pos={'position': pos},
                            id_num_offset=off, id_col='facet')
            plane = ProjectOntoPlane(position=P['position'], orientation=P['orientation'])
            plane.loc_coos_name = ['u', 'v']
            for pl in (None, plane):
                tab = facet_table(cont) if pl is None else facet_table(cont, pl)
                ctx.step()
                ctx.state(pick, off, place)
                ctx.same(tab.colnames, ['facet_projx', 'facet_projy', 'facet_ang', 'facet_rad', 'facet', 'facet_x',
                                        'facet_y', 'facet_z'], 'columns')
                q = PTS[list(pick)]
                loc = q if pl is None else (q - np.array(P['position'])) @ np.array(P['orientation'])
                ctx.same(list(tab['facet']), [e.id_num for e in cont.elements], 'id')
                ctx.same(list(tab['facet']), list(range(off, off + n)), 'id')
                for c, w in (('facet_x', q[:, 0]), ('facet_y', q[:, 1]), ('facet_z', q[:, 2]), ('facet_projx', loc[:, 1]),
                             ('facet_projy', loc[:, 2]), ('facet_rad', np.hypot(loc[:, 1], loc[:, 2]))):
                    ctx.close(tab[c], w, c, rtol=1e-9, atol=1e-8)
                rad = np.array(tab['facet_rad'])
                ctx.close(rad * np.cos(tab['facet_ang']), loc[:, 1], 'angle', rtol=1e-9, atol=1e-8)
                ctx.close(rad * np.sin(tab['facet_ang']), loc[:, 2], 'angle', rtol=1e-9, atol=1e-8)
            ctx.same(plane.loc_coos_name, ['u', 'v'], 'plane modified')
            ctx.same(len(cont.elements), n, 'container modified')


# ------------------------------------------------------------------ standard simulation
class Recorder:
    def __init__(self):
        self.seen = []

    def __call__(self, photons):
        self.seen.append(photons.copy())
        photons['mark'] = np.arange(len(photons))
        return photons


def simulate(ctx, n, frame):
    from marxs.analysis.run_helpers import monoenergetic_astrosimulation, default_coord
    m = {'id': np.eye(4), 'zxy': np.array([[0., 1, 0, 0], [0, 0, 1, 0], [1, 0, 0, 0], [0, 0, 0, 1]]),
         'gen': np.block([[np.asarray(zoo.ORI['gen']), np.zeros((3, 1))], [np.zeros((1, 3)), 1]])}[frame]
    for e in (.5 * u.keV, 24.8 * u.Angstrom, 2000. * u.eV, 1.2 * u.nm):
        rec = Recorder()
        kw = {} if frame == 'id' else {'reference_transform': m}
        try:
            out = monoenergetic_astrosimulation(rec, e, n, **kw)
        except Exception as exc:
            ctx.fail(f'{n} {e}: {type(exc).__name__}: {exc}')
        ctx.step()
        ctx.state(n, frame, str(e))
        ctx.same(len(rec.seen), 1, 'instrument is run once')
        p = rec.seen[0]
        ctx.same(len(p), n, 'number of photons')
        ctx.check('mark' in out.colnames, 'photons after the instrument are returned')
        kev = 12.398419843320026 / e.to_value(u.Angstrom) if e.unit.is_equivalent(u.m) else e.to_value(u.keV)
        ctx.close(p['energy'], np.full(n, kev), 'energy', rtol=1e-9)
        ctx.close(p['ra'], np.full(n, default_coord.ra.deg), 'ra')
        ctx.close(p['dec'], np.full(n, default_coord.dec.deg), 'dec')
        ctx.close(p['dir'], np.tile(m @ [-1., 0, 0, 0], (n, 1)), 'direction on axis', atol=1e-9)
        ctx.close(p['probability'], np.ones(n), 'probability')
        pol = np.asarray(p['polarization'])
        ctx.close((pol * np.asarray(p['dir'])).sum(1), np.zeros(n), 'polarization perpendicular to the ray', atol=1e-9)
        ctx.close((pol**2).sum(1), np.ones(n), 'polarization normalized', atol=1e-9)
        tm = np.asarray(p['time'])
        ctx.check(np.all(tm >= 0) and np.all(tm <= n) and np.all(np.diff(tm) > 0), 'times')


def scenarios(ctx):
    for n in [0, 1, 2] + ([3] if ctx.thorough else []):
        yield from C.cases(record, 'record', [n], ['pre', 'post', 'both'])
    if not ctx.thorough:
        yield from C.cases(record, 'record', [3], ['both'])
    yield from C.cases(missing, 'missing column')
    yield from C.cases(formatted, 'positions', [1, 2, 3, 4] + ([5] if ctx.thorough else []))
    yield from C.cases(propagation, 'propagation', zoo.NAMES, ['function', 'element', 'sequence'])
    yield from C.cases(commute, 'element after propagation', ['gen', 'tilt'], [s.name for s in zoo.specs()])
    yield from C.cases(project, 'projection', zoo.NAMES)
    yield from C.cases(facets, 'facets', [1, 2, 3], zoo.NAMES)
    yield from C.cases(simulate, 'simulation', [1, 2, 10, 300], ['id', 'zxy', 'gen'])
