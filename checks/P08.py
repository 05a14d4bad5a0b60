"""Every subset of {pos4d, position, orientation, zoom} with valid and invalid values for every element class and
geometry; labels of the geometry against own matrix algebra; unknown keywords."""
import itertools
import numpy as np
from mc import zoo
from . import _common as C

POSN = [[0., 0, 0], [5., -3., 2.], (1, 2, 3), np.array([-1e3, .5, 0])]
ORI = [np.eye(3), zoo.ORI['gen'], zoo.ORI['xyz2zxy'], zoo.ORI['flip']]
ZOOM = [1., 2.5, 3, [1., 2., 3.], np.array([.5, 2., 1.5]), (4., .1, 7.)]
BADZOOM = [list(z) for z in itertools.product([2., -1., 0.], repeat=3) if min(z) <= 0]
BADZOOM += [0., -1., [1., 2.], [1., 2., 3., 4.], np.array([1., 1., -1e-9]), np.array([1., -1e-3, -1e-3])]


def matrix(p=None, o=None, z=None):
    m = np.eye(4)
    o = np.eye(3) if o is None else np.asarray(o, float)
    z = np.ones(3) if z is None else np.broadcast_to(np.asarray(z, float), 3)
    m[:3, :3] = o @ np.diag(z)
    m[:3, 3] = 0 if p is None else p
    return m


def makers():
    from marxs.math import geometry as g
    from marxs.simulator import Parallel
    from marxs.optics import FlatDetector, RectangleAperture, CircleAperture
    from marxs.optics.baffles import Baffle
    from marxs.design.rowland import RowlandTorus
    out = {s.name: s.make for s in zoo.specs()}
    for n in ('Geometry', 'FinitePlane', 'PlaneWithHole', 'RectangleHole', 'CircularHole', 'Cylinder'):
        out['geom' + n] = lambda n=n, **k: getattr(g, n)(k)
    out['Parallel'] = lambda **k: Parallel(elem_class=FlatDetector, elem_args={'pixsize': .1}, elem_pos=[np.eye(4)], **k)
    out['RectangleAperture'] = RectangleAperture
    out['CircleAperture'] = CircleAperture
    out['Baffle'] = Baffle
    out['RowlandTorus'] = lambda **k: RowlandTorus(R=5., r=2., **k)
    return out


def labels(ctx, geo, m, msg):
    ctx.close(geo.pos4d, m, msg + ' pos4d', rtol=1e-12, atol=1e-12)
    ctx.close(geo['center'], m[:, 3], msg + ' center', rtol=1e-12, atol=1e-12)
    for k, n in enumerate('xyz'):
        ctx.close(geo['v_' + n], m[:, k], msg + ' v_' + n, rtol=1e-12, atol=1e-12)
        ctx.close(geo['e_' + n], m[:, k] / np.linalg.norm(m[:, k]), msg + ' e_' + n, rtol=1e-12, atol=1e-12)
    e = m[:3, 0] / np.linalg.norm(m[:3, 0])
    plane = np.asarray(geo['plane'], float)
    # homogeneous plane: only defined up to a factor
    plane = plane / np.linalg.norm(plane[:3])
    want = np.append(e, -e @ m[:3, 3])
    if plane[:3] @ e < 0:
        plane = -plane
    ctx.close(plane, want, msg + ' plane', rtol=1e-9, atol=1e-8)


def valid(ctx, name):
    make = makers()[name]
    for p, o, z in itertools.product([None] + POSN, [None] + ORI, [None] + ZOOM):
        if name in ('RowlandTorus',) and z is not None:
            continue
        if name == 'CircleAperture' and z is not None and np.ndim(z) == 1 and z[1] != z[2]:
            continue
        if not ctx.thorough and name not in ('geomFinitePlane', 'FlatGratingT', 'Parallel') and \
                sum(x is not None for x in (p, o, z)) == 3 and (np.ndim(z) == 0 or o is ORI[0]):
            continue
        kw = {k: v for k, v in (('position', p), ('orientation', o), ('zoom', z)) if v is not None}
        m = matrix(p, o, z)
        if ctx.state(name, str(kw)):
            ctx.step()
        e = make(**dict(kw))
        ctx.close(e.pos4d, m, f'{name} {kw} pos4d', rtol=1e-12, atol=1e-12)
        geo = getattr(e, 'geometry', e)
        if name != 'RowlandTorus':
            labels(ctx, geo, m, f'{name} {kw}')
        e2 = make(pos4d=m)
        ctx.step()
        ctx.close(e2.pos4d, m, f'{name} pos4d=', rtol=1e-12, atol=1e-12)
        if name != 'RowlandTorus':
            labels(ctx, getattr(e2, 'geometry', e2), m, f'{name} pos4d=')


def same_photons(ctx, spec):
    """both forms give the same simulation"""
    for place in ('gen', 'flip'):
        rays = [C.ray_for(spec, k, zoo.PLACES[place]['zoom'], i, place) for i, k in enumerate(['hit', 'missy', 'hit', 'hit'])]
        a = zoo.columns(C.run(spec.make(**zoo.place_kw(place)), zoo.photons(place, rays)))
        b = zoo.columns(C.run(spec.make(pos4d=zoo.pos4d(place)), zoo.photons(place, rays)))
        ctx.step(2)
        ctx.state('same', spec.name, place)
        for c in a:
            if a[c].dtype.kind == 'f':
                ctx.close(b[c], a[c], c, rtol=1e-9, atol=3e-8)
            else:
                ctx.same(b[c], a[c], c)


def invalid(ctx, name):
    make = makers()[name]
    m = matrix(POSN[1], ORI[1], ZOOM[3])
    vals = {'position': POSN[1], 'orientation': ORI[1], 'zoom': [1., 2., 3.]}
    for n in (1, 2, 3):
        for keys in itertools.combinations(vals, n):
            ctx.step()
            ctx.state('mixed', name, keys)
            ctx.raises(ValueError, lambda: make(pos4d=m, **{k: vals[k] for k in keys}), f'{name}: pos4d with {keys}')
    for z in BADZOOM:
        for keys in [(), ('position',), ('orientation',), ('position', 'orientation')]:
            ctx.step()
            ctx.state('zoom', name, str(z), keys)
            ctx.raises(ValueError, lambda: make(zoom=z, **{k: vals[k] for k in keys}), f'{name}: zoom={z}')
    for bad in [np.zeros((4, 4)), np.diag([1., 0, 1, 1]), np.diag([0., 1, 1, 1])]:
        ctx.step()
        ctx.raises(ValueError, lambda: make(pos4d=bad), f'{name}: singular pos4d')
    if name.startswith('geom'):
        return
    for unk in ('positon', 'pos', 'rotation', 'nonsense', 'size'):
        ctx.step()
        ctx.state('unknown', name, unk)
        ctx.raises(ValueError, lambda: make(**{unk: 1.}), f'{name}: unknown keyword {unk}')


def parallel_elem_pos(ctx):
    """dictionaries of lists in elem_pos and position keywords in elem_args mean the same as matrices"""
    from marxs.simulator import Parallel
    from marxs.optics import FlatDetector
    for p, o, z in itertools.product([None, [POSN[0], POSN[1]]], [None, [ORI[1], ORI[2]]], [None, [2., 3.], [[1., 2., 3.], [2., 1., 1.]]]):
        d = {k: v for k, v in (('position', p), ('orientation', o), ('zoom', z)) if v is not None}
        if not d:
            continue
        mats = [matrix(*[None if q is None else q[i] for q in (p, o, z)]) for i in range(2)]
        for aname, args, extra in [('none', {}, np.eye(4)), ('zoom', {'zoom': [1., 5., 2.]}, matrix(z=[1., 5., 2.])),
                                   ('rot', {'orientation': ORI[1]}, matrix(o=ORI[1]))]:
            par = Parallel(elem_class=FlatDetector, elem_args=dict(pixsize=.1, ignore_pixel_warning=True, **args), elem_pos=dict(d),
                           position=POSN[1], orientation=ORI[2])
            ctx.step()
            ctx.state('elem_pos', str(d), aname)
            for i in range(2):
                R = np.eye(3) if o is None else o[i]
                zz = np.ones(3) if z is None else np.broadcast_to(z[i], 3)
                ea = matrix(None if p is None else p[i], R @ extra[:3, :3] / np.linalg.norm(extra[:3, :3], axis=0),
                            zz * np.linalg.norm(extra[:3, :3], axis=0))
                ctx.close(par.elements[i].pos4d, matrix(POSN[1], ORI[2]) @ ea, f'element {i} for {d} {aname}')
        par2 = Parallel(elem_class=FlatDetector, elem_args=dict(pixsize=.1, ignore_pixel_warning=True), elem_pos=mats)
        for i in range(2):
            ctx.close(par2.elements[i].pos4d, mats[i], 'matrices')
    for bad in ({'position': [POSN[0]], 'zoom': [1., 2.]}, {'position': [POSN[0], POSN[1]], 'zoom': 2.}):
        ctx.raises(ValueError, lambda: Parallel(elem_class=FlatDetector, elem_args={'pixsize': .1}, elem_pos=bad), 'inconsistent elem_pos')


def scenarios(ctx):
    names = list(makers())
    yield from C.cases(valid, 'valid', names)
    yield from C.cases(invalid, 'invalid', names)
    yield from C.cases(same_photons, 'same', zoo.specs())
    yield 'parallel_elem_pos', parallel_elem_pos
