"""The Mayavi backend runs against a stand-in for mayavi.mlab that records every call: elements of every shape x placements x
halves x colours (name, hex, tuple, missing) x viewers x display argument, nested containers up to three leafs, ray lists with
1 to 4 rays and 1 to 4 positions x kinds of scalars, and every subset of display properties; own coordinates for all of them."""
import itertools
import sys
import types
import warnings
from types import SimpleNamespace
import numpy as np
from mc import zoo
from . import _common as C
from .P37 import BOXES, corners_of, own_pos4d, own_torus, torus_case, TH

TRAITS = ['color', 'opacity', 'line_width', 'specular', 'representation']
COLORS = {'name': ('red', (1., 0., 0.)), 'hex': ('#0000ff', (0., 0., 1.)), 'tuple': ((0., .25, 1.), (0., .25, 1.)), 'missing': (None, (1., 1., 1.))}


class Prop:
    def trait_names(self):
        return list(TRAITS)


class Mlab:
    """records; 'figure' that is not given (or None) is the figure of the last call to figure()"""
    def __init__(self):
        self.calls = []
        mod = types.ModuleType('mayavi.mlab')
        for n in ('triangular_mesh', 'mesh', 'plot3d'):
            setattr(mod, n, self.rec(n))
        mod.pipeline = SimpleNamespace(**{n: self.rec(n) for n in ('scalar_scatter', 'stripper', 'surface')})
        self.mod = mod
        self.pkg = types.ModuleType('mayavi')
        self.pkg.mlab = mod

    def rec(self, name):
        def f(*args, **kw):
            args = list(args)
            for q in ('x', 'y', 'z', 'triangles' if name == 'triangular_mesh' else 's')[len(args):] if name not in ('stripper', 'surface') else ():
                if q in kw:
                    args.append(kw.pop(q))
            prop = Prop()
            out = SimpleNamespace(name=name, args=args, kw=kw, prop=prop, updates=[],
                                  module_manager=SimpleNamespace(children=[SimpleNamespace(actor=SimpleNamespace(property=prop))]),
                                  mlab_source=SimpleNamespace(dataset=SimpleNamespace(lines=None)))
            out.update = lambda: out.updates.append(None if out.mlab_source.dataset.lines is None else np.array(out.mlab_source.dataset.lines))
            self.calls.append(out)
            return out
        return f

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ('mayavi', 'mayavi.mlab')}
        sys.modules['mayavi'], sys.modules['mayavi.mlab'] = self.pkg, self.mod
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def paint(e, col):
    if COLORS[col][0] is None:
        e.display.pop('color', None)
    else:
        e.display['color'] = COLORS[col][0]


def keep(e):
    return {k: repr(v) for k, v in e.display.items()}


def one(ctx, m, name, viewer, col):
    ctx.same([c.name for c in m.calls], [name], 'one object is drawn')
    c = m.calls[0]
    ctx.check(c.kw.get('figure') is viewer, lambda: f"drawn in figure {c.kw.get('figure')}, requested {viewer}")
    ctx.same(tuple(c.kw['color']), COLORS[col][1], 'color')
    return c


VIEW = {'none': None, 'scene': 'my scene', 'off': False}


def box(ctx, place, col):
    from marxs.optics import FlatDetector
    from marxs.visualization import mayavi
    M = own_pos4d(place)
    for (half, _), v in itertools.product(BOXES, VIEW):
        det = FlatDetector(**zoo.place_kw(place))
        det.display['box-half'] = half
        if half == 'none':
            det.display.pop('box-half')
        paint(det, col)
        d0, p0 = keep(det), det.pos4d.copy()
        with Mlab() as m:
            out = mayavi.plot_object(det, viewer=VIEW[v]) if v != 'none' else mayavi.plot_object(det)
        ctx.step()
        ctx.state(place, half, v, col)
        c = one(ctx, m, 'triangular_mesh', VIEW[v], col)
        ctx.check(out is c, 'result of the Mayavi call is returned')
        xyz = np.array(c.args[:3]).T
        want = corners_of(place, half)
        loc = np.einsum('ij,nj->ni', np.linalg.inv(M), np.column_stack([xyz, np.ones(len(xyz))]))[:, :3]
        dist = np.linalg.norm(loc[:, None] - want[None], axis=2)
        ctx.same(sorted(dist.argmin(1)), list(range(8)), 'corners')
        ctx.check(dist.min(1).max() < 1e-9, 'corners')
        # every face of the box has two triangles with one common edge, the diagonal
        faces = {}
        for t in np.asarray(c.args[3]):
            q = loc[list(t)]
            flat = [(k, round(float(q[0, k]), 6)) for k in range(3) if np.ptp(q[:, k]) < 1e-9]
            ctx.same(len(flat), 1, 'triangle in a face')
            faces.setdefault(flat[0], []).append(set(int(i) for i in t))
        ctx.same(len(faces), 6, 'six faces')
        for f in faces.values():
            ctx.same((len(f), len(f[0] | f[1]), len(f[0] & f[1])), (2, 4, 2), 'two triangles fill the face')
            a, b = loc[sorted(f[0] & f[1])]
            ctx.same(int((np.abs(a - b) > 1e-9).sum()), 2, 'common edge is a diagonal')
        ctx.same(keep(det), d0, 'display settings after plotting')
        ctx.same(det.pos4d, p0, 'position after plotting')


def hole(ctx, form, place, col):
    from marxs.optics import RectangleAperture, CircleAperture
    from marxs.visualization import mayavi
    kw = dict(zoo.place_kw(place))
    if form != 'rect':
        kw['zoom'] = 300.
    el = {'rect': RectangleAperture, 'circ': CircleAperture, 'ring': CircleAperture}[form](**kw, **({'r_inner': 100.} if form == 'ring' else {}))
    paint(el, col)
    for v in VIEW:
        d0 = keep(el)
        xyz, tri = el.geometry.triangulate(el.display)
        with Mlab() as m:
            mayavi.plot_object(el, viewer=VIEW[v])
        ctx.step()
        ctx.state(form, place, v, col)
        c = one(ctx, m, 'triangular_mesh', VIEW[v], col)
        ctx.close(np.array(c.args[:3]).T, xyz, 'corners')
        ctx.same(np.asarray(c.args[3]), np.asarray(tri), 'triangles')
        ctx.same(keep(el), d0, 'display settings after plotting')


def surface(ctx, what, place, col):
    from marxs.optics import CircularDetector
    from marxs.visualization import mayavi
    for rng_, v in itertools.product([k for k in TH if k != 'part'] if what == 'torus' else ['default', 'part'], VIEW):
        if what == 'torus':
            t, th, ph, M = torus_case(place, rng_)
            th, ph = (np.linspace(0, 2 * np.pi, 60),) * 2 if TH[rng_] is None else (th, ph)
            f = lambda a, b: M @ own_torus(1000., 250., a, b)
        else:
            t = CircularDetector(**zoo.place_kw(place))
            M = own_pos4d(place)
            th = ph = None
            if rng_ == 'part':
                th, ph = np.linspace(.2, 1.5, 8), np.array([-.3, .5]) * np.broadcast_to(zoo.PLACES[place]['zoom'], 3)[2]
                t.display['coo1'], t.display['coo2'] = th, ph
            f = lambda a, b: M @ np.array([np.cos(a), np.sin(a), b / (np.broadcast_to(zoo.PLACES[place]['zoom'], 3)[2] if rng_ == 'part' else 1.), 1.])
        paint(t, col)
        d0 = keep(t)
        with Mlab() as m:
            mayavi.plot_object(t, viewer=VIEW[v])
        ctx.step()
        ctx.state(what, place, rng_, v, col)
        c = one(ctx, m, 'mesh', VIEW[v], col)
        xyz = np.moveaxis(np.array(c.args[:3]), 0, -1)
        ctx.same(xyz.ndim, 3, 'two-dimensional grid of points')
        if th is None:
            loc = np.einsum('ij,...j->...i', np.linalg.inv(M), np.concatenate([xyz, np.ones(xyz.shape[:2] + (1,))], axis=-1))
            ctx.close(np.hypot(loc[..., 0], loc[..., 1]), np.ones(xyz.shape[:2]), 'on the tube')
            ctx.close(np.abs(loc[..., 2]), np.ones(xyz.shape[:2]), 'at the rims')
        else:
            ctx.same(xyz.shape, (len(th), len(ph), 3), 'points')
            w = np.array([[f(a, b)[:3] for b in ph] for a in th])
            ctx.close(xyz, w, 'points of the surface', atol=1e-6)
        ctx.same(keep(t), d0, 'display settings after plotting')


def rod(ctx, place, col):
    from marxs.missions.arcus.boom import Rod
    from marxs.visualization import mayavi
    kw = dict(zoo.place_kw(place))
    z = np.array(np.broadcast_to(kw.get('zoom', 1.), 3), float)
    z[2] = z[1]
    kw['zoom'] = list(z)
    r = Rod(**kw)
    r.display = type(r.display)(r, dict(r.display))
    paint(r, col)
    for v, sides in itertools.product(VIEW, (None, 7, 40)):
        if sides is not None:
            r.display['tube_sides'] = sides
        d0 = keep(r)
        with Mlab() as m:
            mayavi.plot_object(r, viewer=VIEW[v])
        ctx.step()
        ctx.state(place, v, sides, col)
        c = one(ctx, m, 'plot3d', VIEW[v], col)
        pts = np.array(c.args[:3]).T
        ori = zoo.to_global(place, [np.array([1., 0, 0])], 0)[0][:3]
        ori = ori / np.linalg.norm(ori)
        o = np.array(kw.get('position', [0, 0, 0]), float)
        want = np.array([o - z[0] * ori, o + z[0] * ori])
        ctx.check(np.allclose(pts, want, atol=1e-9) or np.allclose(pts, want[::-1], atol=1e-9), lambda: f'ends at {pts}, expected {want}')
        ctx.close(c.kw['tube_radius'], z[1], 'radius')
        ctx.same(c.kw['tube_sides'], 20 if sides is None and 'tube_sides' not in d0 else int(float(d0['tube_sides'])), 'sides')
        ctx.same(keep(r), d0, 'display settings after plotting')


def props(ctx, col):
    """settings that have the name of a graphics property are applied, for the display of the object or the one passed in"""
    from marxs.optics import FlatDetector, RectangleAperture
    from marxs.visualization import mayavi
    vals = {'opacity': .4, 'line_width': 3, 'specular': .1, 'odd': 5}
    for k, cls, given in itertools.product(range(len(vals) + 1), (FlatDetector, RectangleAperture), (False, True)):
        for names in itertools.combinations(vals, k):
            el = cls(zoom=[1, 20, 30])
            d = el.display
            if given:
                d = {'shape': d['shape'], 'outer_factor': 2}
                if COLORS[col][0] is not None:
                    d['color'] = COLORS[col][0]
                el.display['opacity'], el.display['specular'] = .77, .88
            else:
                paint(el, col)
                el.display.pop('opacity', None)
            for n in names:
                d[n] = vals[n]
            d0, e0 = {k: repr(v) for k, v in d.items()}, keep(el)
            with Mlab() as m:
                out = mayavi.plot_object(el, display=d) if given else mayavi.plot_object(el)
            ctx.step()
            ctx.state(names, cls.__name__, given, col)
            c = one(ctx, m, 'triangular_mesh', None, col)
            got = dict(vars(c.prop))
            cg = got.pop('color', COLORS[col][1])
            ctx.same(tuple(cg), COLORS[col][1], 'color')
            ctx.same(got, {n: vals[n] for n in names if n in TRAITS}, 'properties')
            ctx.same(({k: repr(v) for k, v in d.items()}, keep(el)), (d0, e0), 'display settings after plotting')


def containers(ctx, nest):
    from marxs.optics import FlatDetector, RectangleAperture
    from marxs.simulator import Sequence
    from marxs.visualization import mayavi
    from marxs.visualization.utils import MARXSVisualizationWarning
    for combo, v in itertools.product(itertools.product('banx', repeat=3), VIEW):
        els, want = [], []
        for i, k in enumerate(combo):
            p = 100. * (i + 1)
            e = RectangleAperture(position=[p, 0, 0], zoom=50) if k == 'a' else FlatDetector(position=[p, 0, 0], zoom=[1, 10, 10])
            e.display['opacity'] = (i + 1) / 8
            e.display['color'] = ['red', 'lime', 'blue'][i]
            if k == 'n':
                e.display['shape'] = 'None'
            elif k == 'x':
                e.display['shape'] = 'no such shape'
            else:
                want.append((p, (i + 1) / 8, tuple(float(q == i) for q in range(3))))
            els.append(e)
        if nest == 'flat':
            s = Sequence(elements=els)
        elif nest == 'left':
            s = Sequence(elements=[Sequence(elements=[Sequence(elements=els[:1]), els[1]]), els[2]])
        else:
            s = Sequence(elements=[els[0], Sequence(elements=[]), Sequence(elements=[els[1], Sequence(elements=els[2:])])])
        with Mlab() as m, warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            out = mayavi.plot_object(s, viewer=VIEW[v])
        ctx.step()
        ctx.state(nest, combo, v)
        ctx.same(len(m.calls), len(want), 'number of objects')
        for c, (p, op, col) in zip(m.calls, want):
            ctx.check(c.kw.get('figure') is VIEW[v], 'figure of objects in a container')
            x = np.asarray(c.args[0])
            ctx.check(abs(x.max() - p) <= 1 + 1e-9 and np.abs(x - p).min() < 1 + 1e-9, 'object in order and in place')
            ctx.same((c.prop.opacity, tuple(c.kw['color'])), (op, col), 'own settings of each object')
        ctx.same(sum(issubclass(x.category, MARXSVisualizationWarning) for x in w), combo.count('x'), 'warning for unknown shapes')
        flat = []
        todo = [out]
        while todo:
            o = todo.pop(0)
            if isinstance(o, list):
                todo = o + todo
            elif o is not None:
                flat.append(o)
        ctx.check(len(flat) == len(m.calls) and all(a is b for a, b in zip(flat, m.calls)), 'list of the Mayavi objects is returned')


def rays(ctx, n, N):
    from marxs.visualization import mayavi
    data = np.arange(n * N * 3, dtype=float).reshape(n, N, 3)**1.5
    sc = {'none': None, 'ray': np.arange(n) + .5, 'point': np.arange(n * N).reshape(n, N) * 2. + .25}
    for k, v, kws in itertools.product(sc, VIEW, (None, {}, {'line_width': 4, 'opacity': .1})):
        d0 = data.copy()
        s0 = None if sc[k] is None else sc[k].copy()
        with Mlab() as m:
            out = mayavi.plot_rays(data, scalar=sc[k], viewer=VIEW[v], **({} if kws is None else {'kwargssurface': kws}))
        ctx.step()
        ctx.state(n, N, k, v, str(kws))
        ctx.same([c.name for c in m.calls], ['scalar_scatter', 'stripper', 'surface'], 'calls')
        a, b, c = m.calls
        ctx.check(len(out) == 3 and all(x is y for x, y in zip(out, m.calls)), 'Mayavi objects are returned')
        for q in m.calls:
            ctx.check(q.kw.get('figure') is VIEW[v], 'figure')
        ctx.check(b.args[0] is a and c.args[0] is b, 'pipeline')
        pts, s = np.array(a.args[:3]).T, np.asarray(a.args[3])
        ctx.same((pts.shape, s.shape), ((n * N, 3), (n * N,)), 'points')
        ctx.same(len(a.updates), 1, 'updated after the lines are set')
        lines = np.asarray(a.updates[0]).reshape(-1, 2)
        ctx.same(len(lines), n * (N - 1), 'lines')
        got = sorted(tuple(sorted((tuple(pts[i]), tuple(pts[j])))) for i, j in lines)
        ctx.same(got, sorted(tuple(sorted((tuple(data[i, j]), tuple(data[i, j + 1])))) for i in range(n) for j in range(N - 1)), 'lines join consecutive positions of a ray')
        for p, x in zip(pts, s):
            i, j = [(i, j) for i in range(n) for j in range(N) if np.array_equal(data[i, j], p)][0]
            ctx.same(float(x), 0. if k == 'none' else float(sc[k][i] if k == 'ray' else sc[k][i, j]), 'scalar of a point')
        kk = {q: w for q, w in c.kw.items() if q != 'figure'}
        ctx.same(kk, {'colormap': 'Accent', 'line_width': 1, 'opacity': .4} if kws is None else kws, 'settings of the lines')
        ctx.check(np.array_equal(data, d0) and (s0 is None or np.array_equal(s0, sc[k])), 'input is not changed')
    for bad in ((n + 1,), (N, n) if n != N else (n, N + 1), (n, N, 1), (n * N + 1,)):
        with Mlab() as m:
            ctx.step()
            ctx.raises(ValueError, lambda: mayavi.plot_rays(data, scalar=np.zeros(bad)), f'scalar of shape {bad}')


def scenarios(ctx):
    yield from C.cases(box, 'box', zoo.NAMES, list(COLORS))
    yield from C.cases(hole, 'hole', ['rect', 'circ', 'ring'], zoo.NAMES, list(COLORS))
    yield from C.cases(surface, 'surface', ['torus', 'tube'], zoo.NAMES, ['name', 'missing'] if not ctx.thorough else list(COLORS))
    yield from C.cases(rod, 'rod', zoo.NAMES, list(COLORS))
    yield from C.cases(props, 'props', list(COLORS))
    yield from C.cases(containers, 'containers', ['flat', 'left', 'deep'])
    yield from C.cases(rays, 'rays', range(1, 5 + 2 * ctx.thorough), range(1, 5 + 2 * ctx.thorough))
