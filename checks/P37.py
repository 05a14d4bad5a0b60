"""Polygon pairs with 3 to 12 vertices each x sizes x offsets and every aperture form x placement: own point-location on a
lattice (each point outside the opening in exactly one triangle); boxes and halves, display dictionary operation sequences
up to depth 5 against a dictionary model; colours on the full 8-bit alphabet per channel; the text, JSON and X3D output of
every plot routine is parsed back and compared to own coordinates."""
import io
import itertools
import json
import re
import warnings
from types import SimpleNamespace
import xml.etree.ElementTree as ET
import numpy as np
from astropy.table import Table
from mc import zoo
from . import _common as C


# ---------------------------------------------------------------- triangulations
def poly(n, r, p0=0.):
    a = 2 * np.pi * np.arange(n) / n + p0
    return np.stack([r * np.cos(a), r * np.sin(a), np.zeros(n)], axis=1)


def cross2(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def inside_count(xy, tri, pts):
    """number of triangles a point is in, and whether it is clear of all edges"""
    a, b, c = (xy[tri[:, i]] for i in range(3))
    p = pts[:, None, :]
    d = np.stack([cross2(b - a, p - a), cross2(c - b, p - b), cross2(a - c, p - c)], axis=-1)
    area = np.abs(cross2(b - a, c - a))
    ok = area > 1e-12 * max(1e-300, np.abs(area).max())
    s = np.sign(d)
    ins = (np.abs(s.sum(-1)) == 3) & ok[None, :]
    return ins.sum(1), area.sum() / 2


def polygon_in(pts, pg):
    """even-odd rule"""
    inn = np.zeros(len(pts), bool)
    for i in range(len(pg)):
        a, b = pg[i], pg[(i + 1) % len(pg)]
        cond = (a[1] > pts[:, 1]) != (b[1] > pts[:, 1])
        with np.errstate(all='ignore'):
            x = (b[0] - a[0]) * (pts[:, 1] - a[1]) / (b[1] - a[1]) + a[0]
        inn ^= cond & (pts[:, 0] < x)
    return inn


def edge_dist(pts, pg):
    out = np.full(len(pts), np.inf)
    for i in range(len(pg)):
        a, b = pg[i], pg[(i + 1) % len(pg)]
        d = b - a
        t = np.clip(((pts - a) @ d) / max(d @ d, 1e-300), 0, 1)
        out = np.minimum(out, np.linalg.norm(pts - a - t[:, None] * d, axis=1))
    return out


def lattice(size, n=37):
    g = (np.arange(n) + .5) / n * 2 - 1
    # an irrational skew keeps the points off edges and diagonals
    x, y = np.meshgrid(g, g)
    return np.stack([size * (x + .00137 * y + 1.1e-4), size * (y - .00211 * x + 2.3e-4)], axis=-1).reshape(-1, 2)


def topology(ctx, tri, no, ni, n_out):
    """ring of triangles: outer and inner edges once, all other edges twice"""
    edges = {}
    for t in tri:
        ctx.check(len(set(t.tolist())) == 3, 'triangle with a corner used twice')
        for i in range(3):
            e = tuple(sorted((int(t[i]), int(t[(i + 1) % 3]))))
            edges[e] = edges.get(e, 0) + 1
    outer = {tuple(sorted((i, (i + 1) % no))) for i in range(no)}
    inner = {tuple(sorted((n_out + i, n_out + (i + 1) % ni))) for i in range(ni)}
    for e, k in edges.items():
        ctx.same(k, 1 if e in outer or e in inner else 2, f'triangles at edge {e}')
    ctx.check(outer <= set(edges) and inner <= set(edges), 'boundary incomplete')
    ctx.same(len(tri), no + ni, 'number of triangles')


def ring(ctx, no):
    from marxs.visualization.utils import plane_with_hole
    top = 13 if not ctx.thorough else 40
    for ni in range(3, top):
        for s, shift in itertools.product((.05, .2, .5), (0, .2)):
            o, i = poly(no, 2.), poly(ni, 2 * s, shift * 2 * np.pi / ni)
            oc, ic = o.copy(), i.copy()
            xyz, tri = plane_with_hole(o, i)
            ctx.step()
            ctx.state(no, ni, s, shift)
            ctx.same(xyz, np.vstack([oc, ic]), 'vertices are the outer, then the inner ones')
            ctx.same((o, i)[0], oc, 'argument')
            tri = np.asarray(tri)
            topology(ctx, tri, no, ni, no)
            if no >= 4 and shift == 0 and s <= .2 and (no == ni or no % ni == 0 or ni % no == 0):
                pts = lattice(2.)
                far = np.minimum(edge_dist(pts, o[:, :2]), edge_dist(pts, i[:, :2])) > 1e-6
                want = polygon_in(pts, o[:, :2]) & ~polygon_in(pts, i[:, :2])
                cnt, area = inside_count(xyz[:, :2], tri, pts)
                ctx.same(cnt[far], want[far].astype(int), f'{no} and {ni} corners: covering')


def combine(ctx):
    from marxs.visualization.utils import combine_disjoint_triangulations
    sizes = [(3, 1), (6, 2), (5, 3), (7, 5)]  # (6, 2): two points that no triangle uses
    for n in (1, 2, 3, 4):
        for combo in itertools.product(sizes, repeat=n):
            xyz, tri = [], []
            for j, (a, b) in enumerate(combo):
                xyz.append(np.arange(3 * a).reshape(a, 3) + 100. * j)
                tri.append(np.array([[k, k + 1, k + 2] for k in range(b)]))
            cp = [t.copy() for t in tri]
            X, T = combine_disjoint_triangulations(xyz, tri)
            ctx.step()
            ctx.state(combo)
            ctx.same(len(T), sum(b for a, b in combo), 'number of triangles')
            k = 0
            for x, t in zip(xyz, tri):
                for row in t:
                    ctx.same(X[T[k]], x[row], 'triangle')
                    k += 1
            for t, c in zip(tri, cp):
                ctx.same(t, c, 'input unchanged')


def strip(ctx):
    from marxs.visualization.utils import triangulate_parametricsurface
    for a, b in itertools.product((2, 3, 5), (2, 3)):
        for w in (1., 2.):
            x = np.arange(a * b * 4).reshape(a, b, 4) + 1.
            x[..., 3] = w
            X, T = triangulate_parametricsurface(x.copy())
            ctx.step()
            ctx.state(a, b, w)
            ctx.close(X, (x[..., :3] / w).reshape(-1, 3), 'vertices')
            ctx.same(np.asarray(T), np.array([[k, k + 1, k + 2] for k in range(a * b - 2)]), 'triangles')


# ---------------------------------------------------------------- apertures
PHI = {'full': None, 'quad': [0, np.pi / 2], 'cross': [-.6, .5], 'big': [1., 5.5], 'neg': [-3., -1.]}


def frame(g):
    e = np.stack([np.array(g['e_y'])[:3], np.array(g['e_z'])[:3]])
    return np.array(g['center'])[:3], e, np.linalg.norm(g['v_y']), np.linalg.norm(g['v_z'])


def aperture(ctx, form, place):
    from marxs.optics import RectangleAperture, CircleAperture
    kw = dict(zoo.place_kw(place))
    kinds = [None]
    if form == 'rect':
        zo = [kw.get('zoom', 1.)]
    else:
        kw['zoom'] = 3.
        kinds = list(itertools.product(PHI, (0., .9, 2.4)))
    for kind in kinds:
        if form == 'rect':
            el = RectangleAperture(**kw)
        else:
            k = dict(kw)
            if PHI[kind[0]] is not None:
                k['phi'] = list(PHI[kind[0]])
            if kind[1]:
                k['r_inner'] = kind[1]
            el = CircleAperture(**k)
        for of, inf in itertools.product((None, 1.5, 4), (None, .5) if form == 'circ' and kind[1] else (None,)):
            if of is not None:
                el.display['outer_factor'] = of
            elif 'outer_factor' in el.display:
                del el.display['outer_factor']
            if inf is not None:
                el.display['inner_factor'] = inf
            elif 'inner_factor' in el.display:
                del el.display['inner_factor']
            xyz, tri = el.geometry.triangulate(el.display)
            ctx.step()
            ctx.state(form, place, kind, of, inf)
            c, e, ry, rz = frame(el.geometry)
            loc = (xyz - c) @ e.T
            ctx.close(c + loc @ e, xyz, 'vertices are in the plane of the aperture', atol=1e-9)
            tri = np.asarray(tri)
            ctx.check(tri.min() >= 0 and tri.max() < len(xyz), 'vertex numbers')
            f = 3 if of is None else of
            if form == 'rect':
                sc = np.array([ry, rz])
                pts = lattice(1.) * f * sc * 1.1
                q = np.abs(pts / sc)
                rmax = q.max(1)
                want = (rmax < f) & (rmax > 1)
                far = (np.abs(rmax - f) > 1e-6) & (np.abs(rmax - 1) > 1e-6)
                cnt, area = inside_count(loc, tri, pts)
                ctx.same(cnt[far], want[far].astype(int), f'{place} factor {f}: covering')
                ctx.close(area, 4 * ry * rz * (f * f - 1), 'area')
            else:
                # polygon approximation: keep clear of the rims
                pts = lattice(1., 43) * f * ry * 1.1
                r, a = np.hypot(*pts.T), np.arctan2(pts[:, 1], pts[:, 0])
                lo, hi = PHI[kind[0]] or (0, 2 * np.pi)
                rel = (a - lo) % (2 * np.pi)
                insec = rel < hi - lo
                ri = kind[1]
                inner_shown = 0. if inf is None else inf * ri
                open_ = insec & (r < ry) & (r > ri)
                dark = (r < f * ry) & ~open_ & ~(insec & (r < inner_shown))
                far = np.ones(len(pts), bool)
                for rim in (ry, f * ry, ri, inner_shown):
                    far &= np.abs(r - rim) > .004 * rim + 1e-9
                if kind[0] != 'full':
                    for lim in (lo, hi):
                        d = np.abs((a - lim + np.pi) % (2 * np.pi) - np.pi)
                        far &= d > 2 * np.pi / 90 * 1.05
                # the inner fill may not exceed the visible region by folding
                cnt, area = inside_count(loc, tri, pts)
                bad = far & (cnt != dark)
                ctx.check(not bad.any(), lambda: f'{place} {kind} factors {of},{inf}: {int(bad.sum())} of {int(far.sum())} points, e.g. {pts[bad][0]} '
                          f'is in {cnt[bad][0]} triangles, expected {int(dark[bad][0])}')


# ---------------------------------------------------------------- boxes
BOXES = [('none', None), ('+x', 0), ('-x', 0), ('+y', 1), ('-y', 1), ('+z', 2), ('-z', 2), ('what', None), ('x', None), ('', None)]


def corners_of(place, half):
    s = {}
    out = set()
    lim = [[-1, 1], [-1, 1], [-1, 1]]
    if half in ('+x', '+y', '+z'):
        lim['xyz'.index(half[1])] = [-1, 0]
    elif half in ('-x', '-y', '-z'):
        lim['xyz'.index(half[1])] = [0, 1]
    return np.array(list(itertools.product(*lim)), float)


def own_pos4d(place):
    """columns: images of the unit vectors and the origin"""
    o = zoo.to_global(place, [np.zeros(3)], 1)[0]
    z = np.broadcast_to(zoo.PLACES[place]['zoom'], 3).astype(float)
    m = np.eye(4)
    for i in range(3):
        v = np.zeros(3)
        v[i] = z[i]
        m[:, i] = zoo.to_global(place, [v], 1)[0] - o
    m[:, 3] = o
    return m


def box(ctx, place):
    from marxs.optics import FlatDetector
    from marxs.visualization import utils, threejs, threejsjson, x3d
    M = own_pos4d(place)
    for n, (half, _) in enumerate(BOXES):
        det = FlatDetector(**zoo.place_kw(place))
        if n % 3:
            det.display['color'] = 'red' if n % 3 == 1 else '#00ff00'
        if half != 'none':
            det.display['box-half'] = half
        else:
            det.display.pop('box-half', None)
        want = np.einsum('ij,nj->ni', M, np.column_stack([corners_of(place, half), np.ones(8)]))[:, :3]
        got = utils.halfbox_corners(det, det.display)
        ctx.step()
        ctx.state(place, half)
        ctx.same(np.shape(got), (8, 3), 'eight corners')
        dist = np.linalg.norm(got[:, None] - want[None], axis=2)
        ctx.same(sorted(dist.argmin(1)), list(range(8)), f'all corners of {half}')
        ctx.check(dist.min(1).max() < 1e-8, lambda: f'corners {half}: {got}, expected {want}')
        # X3D: six closed faces of a parallelepiped
        disp0 = dict(det.display)
        sc = x3d.plot_object(det)
        sh, mat = shapes(sc)
        ctx.same(len(sh), 1, 'shapes')
        pts, faces = sh[0]['points'], sh[0]['faces']
        ctx.same(len(pts), 8, 'X3D corners')
        dist = np.linalg.norm(pts[:, None] - want[None] / 1000, axis=2)
        ctx.check(dist.min(1).max() < 1.2e-4 and dist.min(0).max() < 1.2e-4, lambda: f'X3D corners {pts}, expected {want / 1000}')
        ctx.same(sorted(map(len, faces)), [4] * 6, 'six faces with four corners')
        w8 = np.einsum('ij,nj->ni', np.linalg.inv(M), np.column_stack([got, np.ones(8)]))[:, :3]
        sides = set()
        for f in faces:
            q = w8[f]
            flat = [(k, round(float(q[0, k]), 6)) for k in range(3) if np.ptp(q[:, k]) < 1e-9]
            ctx.same(len(flat), 1, 'face in one coordinate plane')
            sides.add(flat[0])
            step = np.abs(np.diff(np.vstack([q, q[:1]]), axis=0)) > 1e-9
            ctx.check(np.all(step.sum(1) == 1), 'corners of a face in order around it')
        ctx.same(len(sides), 6, 'six different faces')
        # three.js
        out = io.StringIO()
        threejs.plot_object(det, outfile=out)
        js = out.getvalue()
        ctx.check('BoxGeometry( 2, 2, 2 )' in re.sub(r'BoxGeometry\(\s*2\s*,\s*2\s*,\s*2\s*\)', 'BoxGeometry( 2, 2, 2 )', js), 'box of size 2')
        m = np.array([float(v) for v in re.search(r'matrix\.set\(([^)]*)\)', js).group(1).split(',')]).reshape(4, 4)
        ctx.close(m, M, 'matrix (row by row)', atol=1e-8)
        j = threejsjson.plot_object(det)
        ctx.close(np.array(j['pos4d'][0]).reshape(4, 4).T, M, 'matrix (column by column)', atol=1e-8)
        ctx.same((j['geometry'], list(j['geometrypars']), j['n'], j['materialproperties']['side']), ('BoxGeometry', [2, 2, 2], 1, 2), 'geometry')
        ctx.same({k: v for k, v in det.display.items()}, disp0, 'display settings after plotting')


# ---------------------------------------------------------------- reading back X3D
def nums(s):
    return [float(v) for v in re.split(r'[\s,]+', s.strip()) if v]


def shapes(scene):
    root = ET.fromstring(scene.XML())
    out, mats = [], []
    for s in root.iter('Shape'):
        d = {}
        m = s.find('Appearance/Material')
        d['material'] = {k: nums(v) for k, v in m.attrib.items()}
        for g in s:
            if g.tag == 'Appearance':
                continue
            d['geom'] = g.tag
            d['points'] = np.array(nums(g.find('Coordinate').get('point'))).reshape(-1, 3)
            if g.tag == 'IndexedFaceSet':
                f, cur = [], []
                for i in nums(g.get('coordIndex')):
                    if i < 0:
                        f.append(cur)
                        cur = []
                    else:
                        cur.append(int(i))
                if cur:
                    f.append(cur)
                d['faces'] = f
            elif g.tag == 'IndexedTriangleSet':
                d['tri'] = np.array(nums(g.get('index')), int).reshape(-1, 3)
            elif g.tag == 'LineSet':
                d['count'] = [int(i) for i in nums(g.get('vertexCount'))]
        out.append(d)
    return out, mats


def hole_out(ctx, form, place):
    """aperture in all backends: the same triangles"""
    from marxs.optics import RectangleAperture, CircleAperture
    from marxs.visualization import threejs, threejsjson, x3d
    kw = dict(zoo.place_kw(place))
    if form != 'rect':
        kw['zoom'] = 300.
    el = {'rect': RectangleAperture, 'circ': CircleAperture, 'ring': CircleAperture}[form](**kw, **({'r_inner': 100.} if form == 'ring' else {}))
    d0 = dict(el.display)
    xyz, tri = el.geometry.triangulate(el.display)
    tri = np.asarray(tri)
    j = threejsjson.plot_object(el)
    ctx.step(3)
    ctx.state(form, place)
    ctx.same((j['geometry'], j['geometrytype'], j['n'], j['materialproperties']['side']), ('BufferGeometry', 'Mesh', 1, 2), 'geometry')
    ctx.close(np.array(j['pos'][0]).reshape(-1, 3), xyz, 'JSON vertices')
    ctx.same(np.array(j['faces'][0]).reshape(-1, 3), tri, 'JSON triangles')
    out = io.StringIO()
    threejs.plot_object(el, outfile=out)
    js = out.getvalue()
    arr = lambda kind: nums(re.search(kind + r'Array\(\[([^\]]*)\]', js).group(1).rstrip(', '))
    ctx.close(np.array(arr('Float32')).reshape(-1, 3), xyz, 'three.js vertices', rtol=1e-6)
    ctx.same(np.array(arr('Uint16'), int).reshape(-1, 3), tri, 'three.js triangles')
    sh, _ = shapes(x3d.plot_object(el))
    ctx.same(len(sh), 1, 'shapes')
    ctx.close(sh[0]['points'], xyz / 1000, 'X3D vertices', atol=6e-5)
    ctx.same(sh[0]['tri'], tri, 'X3D triangles')
    ctx.close(sh[0]['material']['diffuseColor'], [0, .75, .75], 'colour')
    ctx.close(sh[0]['material']['transparency'], [.7], 'transparency')
    ctx.same(dict(el.display), d0, 'display settings after plotting')


def own_torus(R, r, theta, phi):
    return np.array([(R + r * np.cos(theta)) * np.cos(phi), r * np.sin(theta), (R + r * np.cos(theta)) * np.sin(phi), 1.])


def js_torus(p, i, j, ni, nj):
    """own copy of what ModifiedTorusBufferGeometry draws"""
    R, r, rs, ts, arc, arcstart, rarc, rstart = p
    u, v = i / ni * arc + arcstart, j / nj * rarc + rstart
    return np.array([(R + r * np.cos(v)) * np.cos(u), (R + r * np.cos(v)) * np.sin(u), r * np.sin(v), 1.])


TH = {'default': None, 'part': ([.3, 2.], [-.4, .5]), 'lin': (np.linspace(1., 2., 4), np.linspace(-.2, .2, 3)),
      'asym': (np.linspace(-1., -.5, 7), np.linspace(2., 5., 9))}


def torus_case(place, rng_):
    from marxs.design import RowlandTorus
    kw = {k: v for k, v in zoo.place_kw(place).items() if k != 'zoom'}
    t = RowlandTorus(R=1000., r=250., **kw)
    if TH[rng_] is not None:
        t.display['coo1'], t.display['coo2'] = TH[rng_]
    th, ph = TH[rng_] if TH[rng_] is not None else ([0, 2 * np.pi],) * 2
    M = own_pos4d(place)
    z = np.broadcast_to(zoo.PLACES[place]['zoom'], 3).astype(float)
    M = M @ np.diag([1 / z[0], 1 / z[1], 1 / z[2], 1.])
    return t, th, ph, M


def torus(ctx, place, rng_):
    from marxs.visualization import threejs, threejsjson, x3d
    t, th, ph, M = torus_case(place, rng_)
    out = io.StringIO()
    threejs.plot_object(t, outfile=out)
    js = out.getvalue()
    p = nums(re.search(r'ModifiedTorusBufferGeometry\(([^)]*)\)', js).group(1))
    m = np.array(nums(re.search(r'matrix\.set\(([^)]*)\)', js).group(1))).reshape(4, 4)
    j = threejsjson.plot_object(t)
    ctx.step(2)
    ctx.state(place, rng_)
    ctx.same(len(p), 8, 'torus parameters')
    ctx.check(p[2] >= 1 and p[3] >= 1 and p[2] == int(p[2]), 'number of segments')
    ctx.close(list(j['geometrypars']), p, 'same parameters in JSON', atol=1e-6)
    json.dumps(j)
    pj = np.array(j['pos4d'][0]).reshape(4, 4).T
    for a, b in itertools.product(range(5), repeat=2):
        want = M @ own_torus(1000., 250., th[0] + (th[-1] - th[0]) * b / 4, ph[0] + (ph[-1] - ph[0]) * a / 4)
        got = m @ js_torus(p, a, b, 4, 4)
        ctx.close(got, want, f'point {a},{b} of the torus', atol=1e-4)
        ctx.step()
    # the position in the JSON output; the orientation of its axes is a known finding
    ctx.close(pj[:, 3], M[:, 3], 'JSON position', atol=1e-9)


def torus_axes(ctx):
    from marxs.visualization import threejsjson
    t, th, ph, M = torus_case('gen', 'part')
    j = threejsjson.plot_object(t)
    pj = np.array(j['pos4d'][0]).reshape(4, 4).T
    ctx.step()
    for a, b in itertools.product(range(3), repeat=2):
        want = M @ own_torus(1000., 250., th[0] + (th[-1] - th[0]) * b / 2, ph[0] + (ph[-1] - ph[0]) * a / 2)
        ctx.close(pj @ js_torus(j['geometrypars'], a, b, 2, 2), want, 'torus drawn from the JSON output', atol=1e-4)


def surface(ctx, what, place):
    from marxs.visualization import x3d
    from marxs.design import RowlandTorus
    from marxs.optics import CircularDetector
    if what == 'torus':
        cases = [k for k in TH if k != 'part']     # arrays are documented for this routine
    else:
        cases = ['default', 'part']
    for rng_ in cases:
        if what == 'torus':
            t, th, ph, M = torus_case(place, rng_)
            grid = [np.asarray(th if TH[rng_] is not None else np.linspace(0, 2 * np.pi, 60)), np.asarray(ph if TH[rng_] is not None else np.linspace(0, 2 * np.pi, 60))]
            f = lambda a, b: M @ own_torus(1000., 250., a, b)
        else:
            t = CircularDetector(**zoo.place_kw(place))
            M = own_pos4d(place)
            z = np.broadcast_to(zoo.PLACES[place]['zoom'], 3).astype(float)
            if rng_ == 'part':
                t.display['coo1'], t.display['coo2'] = np.linspace(.2, 1.5, 8), np.array([-.3, .5]) * z[2]
                grid = [t.display['coo1'], np.array([-.3, .5])]
            else:
                grid = None
            f = lambda a, b: M @ np.array([np.cos(a), np.sin(a), b, 1.])
        d0 = dict(t.display)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sh, _ = shapes(x3d.plot_object(t))
        ctx.step()
        ctx.state(what, place, rng_)
        ctx.same(len(sh), 1, 'shapes')
        pts, faces = sh[0]['points'], sh[0]['faces']
        if grid is None:
            # points on the tube, both rims, closing
            loc = np.einsum('ij,nj->ni', np.linalg.inv(M), np.column_stack([pts * 1000, np.ones(len(pts))]))
            ctx.close(np.hypot(loc[:, 0], loc[:, 1]), np.ones(len(pts)), 'on the tube', atol=.2)
            ctx.close(np.sort(np.abs(loc[:, 2])), np.ones(len(pts)), 'at the rims', atol=.2)
            n1, n2 = len(pts) // 2, 2
        else:
            n1, n2 = len(grid[0]), len(grid[1])
            ctx.same(len(pts), n1 * n2, 'points')
            for i, k in itertools.product(range(n1), range(n2)):
                ctx.close(pts[i * n2 + k], f(grid[0][i], grid[1][k])[:3] / 1000, f'point {i},{k}', atol=6e-5)
        ctx.same(len(faces), (n1 - 1) * (n2 - 1), 'faces')
        want = {frozenset((i * n2 + k, i * n2 + k + 1, (i + 1) * n2 + k, (i + 1) * n2 + k + 1)) for i in range(n1 - 1) for k in range(n2 - 1)}
        ctx.same({frozenset(x) for x in faces}, want, 'each mesh of the grid has its face')
        for x in faces:
            ctx.same(len(x), 4, 'corners of a face')
            for p_, q_ in zip(x, x[1:] + x[:1]):
                ctx.check(abs(p_ - q_) in (1, n2), 'corners of a face in order around it')
        ctx.same({k: repr(v) for k, v in t.display.items()}, {k: repr(v) for k, v in d0.items()}, 'display settings after plotting')


# ---------------------------------------------------------------- containers
def containers(ctx, nest):
    from marxs.optics import FlatDetector, RectangleAperture
    from marxs.simulator import Sequence
    from marxs.visualization import threejs, threejsjson, x3d
    leafs = {'b': lambda i: FlatDetector(position=[100. * i, 0, 0], zoom=[1, 10, 10]), 'a': lambda i: RectangleAperture(position=[100. * i, 0, 0], zoom=50),
             'n': lambda i: None}
    for combo in itertools.product('ban', repeat=3):
        flat = []
        els = []
        for i, c in enumerate(combo):
            e = leafs[c](i + 1)
            if e is None:
                e = FlatDetector(position=[100. * (i + 1), 0, 0])
                e.display['shape'] = 'None'
            els.append(e)
            if c != 'n':
                flat.append((c, 100. * (i + 1)))
        if nest == 'flat':
            s = Sequence(elements=els)
        elif nest == 'left':
            s = Sequence(elements=[Sequence(elements=[Sequence(elements=els[:1]), els[1]]), els[2]])
        else:
            s = Sequence(elements=[els[0], Sequence(elements=[]), Sequence(elements=[els[1], Sequence(elements=els[2:])])])
        ctx.step(3)
        ctx.state(nest, combo)
        j = threejsjson.plot_object(s)
        ctx.check(isinstance(j, list) and all(isinstance(x, dict) for x in j), 'flat list of objects')
        ctx.same([x['geometry'] for x in j], ['BoxGeometry' if c == 'b' else 'BufferGeometry' for c, _ in flat], 'objects in JSON')
        ctx.close([x['pos4d'][0][12] if 'pos4d' in x else x['pos'][0][0] for x in j], [p for _, p in flat], 'in order')
        f = io.StringIO()
        ph = Table({'a': [1]})
        ph.meta['OBJECT'] = ('a star', 'comment')
        ph.meta['N'] = 5
        threejsjson.write(f, j, photons=ph if nest == 'flat' else None)
        back = json.loads(f.getvalue())
        ctx.same(len(back['elements']), len(flat), 'objects in the file')
        ctx.same(back['elements'], json.loads(json.dumps(j)), 'objects in the file')
        if nest == 'flat':
            ctx.same(back['runinfo'], {'OBJECT': ['a star', 'comment'], 'N': 5}, 'metadata of the photons')
        out = io.StringIO()
        threejs.plot_object(s, outfile=out)
        js = out.getvalue()
        ctx.same((js.count('scene.add('), js.count('BoxGeometry(')), (len(flat), sum(c == 'b' for c, _ in flat)), 'objects in three.js')
        sc = x3d.plot_object(s)
        sh, _ = shapes(sc)
        ctx.same([x['geom'] for x in sh], ['IndexedFaceSet' if c == 'b' else 'IndexedTriangleSet' for c, _ in flat], 'objects in X3D')
        # plotting after another backend, and again, gives the same
        ctx.same(threejsjson.plot_object(s), j, 'repeated JSON')
        o2 = io.StringIO()
        threejs.plot_object(s, outfile=o2)
        ctx.same(o2.getvalue(), js, 'repeated three.js')
        # added to an existing scene
        sc2 = x3d.plot_object(els[0])
        k = len(shapes(sc2)[0])
        r = x3d.plot_object(s, scene=sc2)
        ctx.check(r is sc2, 'scene that is passed in is returned')
        ctx.same(len(shapes(sc2)[0]), k + len(flat), 'objects are added to the scene')


# ---------------------------------------------------------------- rays
def rays(ctx, n, N):
    import matplotlib
    from marxs.visualization import threejs, threejsjson, x3d
    data = (np.arange(n * N * 3).reshape(n, N, 3) * 12.5 - 40)
    per_ray = np.array([3., 1., 2., 1.])[:n]
    per_node = per_ray[:, None] + np.arange(N)[None, :]
    nan1, nan2, nann = per_ray.copy(), per_ray.copy(), per_node.copy()
    nan1[0] = np.nan
    nan2[n // 2:] = np.nan
    nann[n // 2] = np.nan
    for sname, cm in itertools.product(('none', 'ray', 'node', 'bad', 'nan1', 'nan2', 'nannode', 'int', 'nanall'), ('jet', 'viridis', None)):
        sc = {'none': None, 'ray': per_ray, 'node': per_node, 'bad': np.ones((n + 1, N)), 'nan1': nan1, 'nan2': nan2, 'nannode': nann,
              'int': per_ray.astype(int), 'nanall': np.full(n, np.nan)}[sname]
        cmap = matplotlib.colormaps[cm or 'viridis']
        prop = {'linewidth': 2, 'ignored': 3}
        p0 = dict(prop)
        d0 = data.copy()
        s0 = None if sc is None else sc.copy()
        ctx.state(n, N, sname, cm)
        f = io.StringIO()
        calls = [lambda: threejs.plot_rays(data, f, scalar=sc, cmap=cm, prop=prop), lambda: threejsjson.plot_rays(data, scalar=sc, cmap=cm, prop=prop),
                 lambda: x3d.plot_rays(data, sc, **({'cmap': cmap} if cm else {}))]
        if sname == 'bad':
            for c in calls:
                ctx.raises(ValueError, c, 'wrong shape of the scalar')
            continue
        full = np.zeros((n, N)) if sc is None else (np.tile(sc[:, None].astype(float), (1, N)) if sc.ndim == 1 else sc)
        ok = np.isfinite(full)      # rays without valid scalar are drawn in any color
        lo, hi = (np.nanmin(full), np.nanmax(full)) if ok.any() else (0, 1)
        nrm = (full - lo) / (hi - lo) if hi > lo else np.zeros_like(full)
        want = cmap(nrm)[..., :3]
        calls[0]()
        js = f.getvalue()
        ctx.step()
        arrs = re.findall(r'Float32Array\(\[([^\]]*)\]', js)
        ctx.same((js.count('scene.add('), len(arrs)), (n, 2 * n), 'lines in three.js')
        for i in range(n):
            ctx.close(np.array(nums(arrs[2 * i])).reshape(-1, 3), data[i], 'positions', atol=.06)
            ctx.close(np.array(nums(arrs[2 * i + 1])).reshape(-1, 3)[ok[i]], want[i][ok[i]], 'colours', atol=.06)
        ctx.check(re.search(r'vertexColors\s*:\s*2', js) and re.search(r'linewidth\s*:\s*2', js) and 'ignored' not in js, 'material')
        j = calls[1]()
        ctx.step()
        ctx.same((j['n'], j['geometrytype'], j['materialproperties']['vertexColors'], j['materialproperties']['linewidth']), (n, 'Line', 2, 2), 'JSON')
        ctx.close(np.array(j['pos']).reshape(n, N, 3), data, 'JSON positions')
        ctx.close(np.array(j['color']).reshape(n, N, 3)[ok], want[ok], 'JSON colours')
        threejsjson.write(io.StringIO(), j)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sh, _ = shapes(calls[2]())
        ctx.step()
        first = np.ones(n) if sc is None else full[:, 0]
        l1, h1 = (np.nanmin(first), np.nanmax(first)) if np.isfinite(first).any() else (0, 1)
        c1 = cmap((first - l1) / (h1 - l1) if h1 > l1 else np.zeros(n))[:, :3]
        got = []
        for x in sh:
            ctx.same(x['geom'], 'LineSet', 'X3D lines')
            ctx.check(all(k == N for k in x['count']), 'points per line')
            pp = x['points'].reshape(-1, N, 3)
            ctx.same(len(pp), len(x['count']), 'lines')
            for q in pp:
                got.append((q, x['material']['emissiveColor']))
        ctx.same(len(got), n, 'each ray is one line')
        used = set()
        for q, col in got:
            i = int(np.argmin(np.abs(data[:, 0, :] / 1000 - q[0]).sum(1)))
            used.add(i)
            ctx.close(q, data[i] / 1000, 'X3D positions in m', atol=6e-5)
            if np.isfinite(first[i]):
                ctx.close(col, c1[i], 'X3D colour', atol=6e-3)
        ctx.same(len(used), n, 'each ray once')
        ctx.same((prop, data.tolist()), (p0, d0.tolist()), 'arguments unchanged')
        if sc is not None:
            ctx.same(sc, s0, 'scalar unchanged')


# ---------------------------------------------------------------- display and colours
def display(ctx, depth):
    from marxs.visualization.utils import DisplayDict
    keys = ['k1', 'k2']
    ops = [('set', 'k1'), ('set', 'k2'), ('del', 'k1'), ('gset', 'k1'), ('gset', 'k2'), ('gdel', 'k1'), ('gswap', None), ('none', 'k1')]
    for seq in itertools.product(ops, repeat=depth):
        parent = SimpleNamespace(geometry=SimpleNamespace())
        other = SimpleNamespace(geometry=SimpleNamespace())
        src = {'k1': 'init'}
        d, d2 = DisplayDict(parent, src), DisplayDict(other, src)
        own, geo = {'k1': 'init'}, {}
        for n, (op, k) in enumerate(seq):
            if op == 'set':
                d[k] = own[k] = n
            elif op == 'none':
                d[k] = own[k] = None
            elif op == 'del':
                if k in own:
                    del d[k], own[k]
            elif op == 'gset':
                setattr(parent.geometry, k, f'g{n}')
                geo[k] = f'g{n}'
            elif op == 'gdel':
                if k in geo:
                    delattr(parent.geometry, k)
                    del geo[k]
            else:
                parent.geometry = SimpleNamespace(k2=f's{n}')
                geo = {'k2': f's{n}'}
        ctx.step(depth)
        ctx.state(tuple(sorted(own.items(), key=str)), tuple(sorted(geo.items())))
        for k in keys + ['k3']:
            if k in own or k in geo:
                w = own[k] if k in own else geo[k]
                ctx.same(d[k], w, f'{seq}: {k}')
                ctx.same(d.get(k, 'default'), w, f'{seq}: {k}')
            else:
                ctx.raises(KeyError, lambda: d[k], f'{seq}: {k}')
                ctx.same((d.get(k), d.get(k, 'default')), (None, 'default'), f'{seq}: {k}')
        ctx.same(dict(d), own, 'entries')
        ctx.same((dict(d2), src), ({'k1': 'init'}, {'k1': 'init'}), 'display of another object')
    lone = DisplayDict(SimpleNamespace(), a=1)
    ctx.same((lone['a'], lone.get('b', 3)), (1, 3), 'without geometry')
    ctx.raises(KeyError, lambda: lone['b'], 'without geometry')


def general(ctx):
    """which routine is called: first known shape wins, 'None' stops silently"""
    from marxs.visualization.utils import plot_object_general, MARXSVisualizationWarning
    names = ['box', 'odd', 'None', 'tube', ' box ']
    for n in (1, 2, 3):
        for combo in itertools.product(names, repeat=n):
            for given in (False, True):
                calls = []
                reg = {k: (lambda k: lambda obj, display, **kw: calls.append((k, display['color'], kw)) or k)(k) for k in ('box', 'tube')}
                disp = {'shape': ';'.join(combo), 'color': 'red'}
                obj = SimpleNamespace(display={'shape': 'tube'} if given else disp, name='x')
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    out = plot_object_general(reg, obj, display=disp if given else None, extra=4)
                ctx.step()
                ctx.state(combo, given)
                want = None
                silent = False
                for c in combo:
                    c = c.strip()
                    if c == 'None':
                        silent = True
                        break
                    if c in reg:
                        want = c
                        break
                ctx.same(out, want, f'shapes {combo}')
                ctx.same(calls, [] if want is None else [(want, (1., 0., 0.), {'extra': 4})], f'shapes {combo}')
                ctx.same(len([x for x in w if issubclass(x.category, MARXSVisualizationWarning)]), 0 if silent or want else 1, 'warnings')
    for obj in (SimpleNamespace(), SimpleNamespace(display=None), SimpleNamespace(display={}), len):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            ctx.same(plot_object_general({}, obj), None, 'nothing to plot')
        ctx.same(len(w), 1, 'warning')


def colors(ctx):
    from marxs.visualization.utils import get_color, color_tuple_to_hex
    for v in range(256):
        for pos in range(3):
            c = [0, 0, 0]
            c[pos] = v
            want = '0x%02x%02x%02x' % tuple(c)
            ctx.same(color_tuple_to_hex(tuple(c)), want, f'{c}')
            ctx.step()
            ctx.state(v, pos)
            ctx.close(get_color({'color': '#' + want[2:]}), np.array(c) / 255, 'hex string')
    for c in itertools.product((0, 1, 15, 16, 128, 255), repeat=3):
        ctx.same(color_tuple_to_hex(c), '0x%02x%02x%02x' % c, f'{c}')
        ctx.step()
    for c in itertools.product((0., .2, .4, .6, .8, 1.), repeat=3):
        n = [round(v * 255) for v in c]
        ctx.same(get_color({'color': c}), c, f'{c}')
        ctx.close(get_color({'color': list(c)}), c, f'{c}')
        ctx.close(get_color({'color': np.array(c)}), c, f'{c}')
        if all(int(v * 255) == v * 255 for v in c):
            ctx.same(color_tuple_to_hex(c), '0x%02x%02x%02x' % tuple(n), f'{c}')
        ctx.step()
    ctx.same(get_color({}), (1., 1., 1.), 'default is white')
    for name, c in (('red', (1, 0, 0)), ('k', (0, 0, 0)), ('lime', (0, 1, 0)), ('0.5', (.5, .5, .5)), ('b', (0, 0, 1))):
        ctx.close(get_color({'color': name}), c, name)
    for bad in ((-1, 0, 0), (256, 0, 0), (0, 0, 300), (1.5, 0., 0.), (0., -.1, 0.), (0, 0., 1), 'white', (None, 1, 2)):
        ctx.raises(ValueError, lambda: color_tuple_to_hex(bad), f'{bad}')


def color_hex(ctx):
    from marxs.visualization.utils import color_tuple_to_hex
    for c in itertools.product((0., .25, .5, .75, 1.), repeat=3):
        h = color_tuple_to_hex(c)
        ctx.step()
        ok = [{'%02x' % int(v * 255), '%02x' % round(v * 255)} for v in c]
        ctx.check(all(h[2 + 2 * i:4 + 2 * i] in ok[i] for i in range(3)), f'{c}: {h}')


def material(ctx):
    from marxs.visualization.threejs import materialdict, materialspec
    for col, op, tr, side, other in itertools.product((None, (1., 0., 0.), (0., 0., 1.)), (None, .5, 1), (None, 'false'), (None, 2), (None, 'x')):
        d = {}
        for k, v in (('color', col), ('opacity', op), ('transparent', tr), ('side', side), ('outer_factor', other)):
            if v is not None:
                d[k] = v
        d0 = dict(d)
        ctx.step()
        ctx.state(col, op, tr, side, other)
        want = {k: v for k, v in d.items() if k != 'outer_factor'}
        if col:
            want['color'] = '#ff0000' if col[0] else '#0000ff'
        if op is not None and tr is None:
            want['transparent'] = 'true'
        for m in ('MeshStandardMaterial', 'LineBasicMaterial'):
            ctx.same(materialdict(d, m), want, m)
            spec = materialspec(d, m)
            got = dict([x.strip() for x in s.split(':')] for s in spec.split(',')) if spec else {}
            ctx.same(got, {k: str(v).replace('#', '0x') for k, v in want.items()}, m)
        ctx.same(d, d0, 'display unchanged')


def independent(ctx):
    """display settings of one element do not affect others of its class"""
    from marxs import optics
    from marxs.design import RowlandTorus
    mk = {'FlatDetector': lambda: optics.FlatDetector(), 'CircleAperture': lambda: optics.CircleAperture(zoom=3), 'RectangleAperture': lambda: optics.RectangleAperture(),
          'FlatGrating': lambda: optics.FlatGrating(d=1e-3, order_selector=optics.OrderSelector([0])), 'Baffle': lambda: optics.Baffle(),
          'CircularDetector': lambda: optics.CircularDetector(), 'ThinLens': lambda: optics.ThinLens(focallength=100), 'Rowland': lambda: RowlandTorus(100, 20),
          'FlatStack': lambda: optics.FlatStack(elements=[optics.EnergyFilter, optics.FlatDetector], keywords=[{'filterfunc': lambda x: x}, {}])}
    for name, f in mk.items():
        a, b = f(), f()
        before = {k: repr(v) for k, v in b.display.items()}
        ctx.step()
        ctx.state(name)
        for k in list(a.display):
            v = a.display[k]
            if isinstance(v, np.ndarray):
                v += 7
            a.display[k] = 'changed'
        a.display['new'] = 1
        ctx.same({k: repr(v) for k, v in b.display.items()}, before, f'{name}: other object')
        ctx.same({k: repr(v) for k, v in f().display.items()}, before, f'{name}: new object')


def names(ctx):
    from marxs.visualization.utils import get_obj_name
    o = SimpleNamespace(name='n')
    ctx.same(get_obj_name(o), 'n', 'name')
    ctx.same(get_obj_name(SimpleNamespace(func_name='f')), 'f', 'function name')
    ctx.same(get_obj_name(12), '12', 'text')
    ctx.step(3)
    ctx.state('names')


def scenarios(ctx):
    yield from C.cases(ring, 'ring', range(3, 13))
    yield 'combine', combine
    yield 'strip', strip
    yield from C.cases(aperture, 'aperture', ['rect', 'circ'], zoo.NAMES)
    yield from C.cases(box, 'box', zoo.NAMES)
    yield from C.cases(hole_out, 'hole-out', ['rect', 'circ', 'ring'], zoo.NAMES)
    yield from C.cases(torus, 'torus', zoo.NAMES, TH)
    yield 'torus_json_axes', torus_axes
    yield from C.cases(surface, 'surface', ['torus', 'tube'], zoo.NAMES)
    yield from C.cases(containers, 'containers', ['flat', 'left', 'right'])
    yield from C.cases(rays, 'rays', [1, 2, 4], [2, 5])
    yield from C.cases(display, 'display', range(0, 5 if not ctx.thorough else 7))
    yield 'general', general
    yield 'colors', colors
    yield 'color_hex', color_hex
    yield 'material', material
    yield 'independent', independent
    yield 'names', names
