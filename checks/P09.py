"""Explicit-state search over operation sequences on a Parallel group: every sequence up to depth 4 (thorough 5) of
{set global uncertainty, edit it in place, set/edit element uncertainties, change an element position,
regenerate, move the centre}; after each regeneration all element matrices equal a matrix model."""
import itertools
import numpy as np
from mc import zoo
from . import _common as C


def T(v):
    m = np.eye(4)
    m[:3, 3] = v
    return m


def R4(r):
    m = np.eye(4)
    m[:3, :3] = r
    return m


U1 = T([.1, -.2, .3]) @ R4(zoo.rot_x(.2) @ zoo.rot_z(-.1))
U2 = T([0, 0, -.5])
E1 = T([.01, .02, -.03]) @ R4(zoo.rot_y(.3))
E2 = T([0, 1., 0]) @ R4(zoo.rot_z(.1) @ zoo.rot_x(-.2))
E3 = T([.2, 0, 0]) @ R4(zoo.rot_x(.1) @ np.diag([1., 1.1, .9]))
MV1 = T([0, 0, 7.])
MV2 = T([1., 2, 3]) @ R4(zoo.rot_z(.5))


class Model:
    def __init__(self, P, elem, telem, relem, zelem):
        self.P = P.copy()
        self.elem = [e.copy() for e in elem]
        self.U = np.eye(4)
        self.E = [np.eye(4) for e in elem]
        self.t, self.r, self.z = telem, relem, zelem

    pix = .5
    off = 3

    def expect(self, i):
        e, s = self.elem[i], self.E[i]
        rot = e[:3, :3]
        zoom = np.linalg.norm(rot, axis=0)
        rot = rot / zoom
        sz = np.linalg.norm(s[:3, :3], axis=0)
        out = self.P @ self.U @ T(s[:3, 3]) @ T(e[:3, 3]) @ T(self.t)
        return out @ R4(s[:3, :3] / sz @ rot @ self.r @ np.diag(sz * zoom * self.z))

    def key(self):
        return self.pix, tuple(self.z), tuple(np.round(np.concatenate([self.P.ravel(), self.U.ravel()] + [m.ravel() for m in self.elem + self.E]), 6))


# photons from several directions for the three elements of both placements
_r = [(np.array([9., y, z]), zoo.unit(np.array([-1., .1 * k, -.05]))) for k, (y, z) in enumerate(itertools.product([-3.3, .2, 3.4], [-.8, .5, 8.5]))]
_PH = []


def photons():
    if not _PH:
        from astropy.table import vstack
        zoo.PLACES['p09a'] = dict(position=[0, 0, 0.], orientation=np.eye(3), zoom=1.)
        zoo.PLACES['p09b'] = dict(position=[5, -3, 2.], orientation=zoo.ORI['gen'], zoom=1.)
        ph = [zoo.photons(p, _r, extra=False) for p in ('p09a', 'p09b')]
        _PH.append(vstack(ph))
    return _PH[0]


def build(conf):
    from marxs.simulator import Parallel
    from marxs.optics import FlatDetector
    P = {'id': np.eye(4), 'rot': T([5, -3, 2.]) @ R4(zoo.ORI['gen'])}[conf[0]]
    elem = [T([0, -3, 0]), T([0, 3, 1.]) @ R4(zoo.rot_x(.4) @ zoo.rot_y(.2)), T([1., 0, 9]) @ R4(np.diag([1., 2, 3]))]
    args = {'plain': ({}, np.zeros(3), np.eye(3), np.ones(3)),
            'args': (dict(position=np.array([0, .5, 0]), orientation=zoo.rot_z(.3), zoom=np.array([1., 2., 1.5])), np.array([0, .5, 0]), zoo.rot_z(.3), np.array([1., 2, 1.5]))}[conf[1]]
    par = Parallel(elem_class=FlatDetector, elem_args=dict(pixsize=.5, ignore_pixel_warning=True, **args[0]),
                   elem_pos=[e.copy() for e in elem], pos4d=P.copy(), id_num_offset={'id': 3, 'rot': 2000}[conf[0]])
    m = Model(P, elem, *args[1:])
    m.off = {'id': 3, 'rot': 2000}[conf[0]]
    return par, m


def op_glob(par, m, U):
    par.uncertainty = U.copy()
    m.U = U
    return False


def op_globinplace(par, m, v):
    par.uncertainty[:3, 3] += v
    m.U = T(v) @ m.U
    return False


def op_elem(par, m, E):
    par.elem_uncertainty = [e.copy() for e in E]
    m.E = [e.copy() for e in E]
    return False


def op_eleminplace(par, m, i, v):
    par.elem_uncertainty[i][:3, 3] += v
    m.E[i] = T(v) @ m.E[i]
    return False


def op_pos(par, m, i, M):
    par.elem_pos[i] = M @ par.elem_pos[i]
    m.elem[i] = M @ m.elem[i]
    return False


def op_regen(par, m):
    par.generate_elements()
    return True


def op_use(par, m):
    """a group that has been in use is not different from an unused one"""
    C.run(par, photons().copy(), .3)
    return False


def op_args(par, m, zoom, pix):
    par.elem_args['zoom'] = zoom.copy()
    par.elem_args['pixsize'] = pix
    m.z, m.pix = zoom, pix
    return False


def op_move(par, m, M):
    """defined for a group without uncertainties or offsets: absolute positions unchanged"""
    par.move_center(M)
    Pnew = M @ m.P
    A = np.linalg.inv(Pnew) @ m.P
    m.elem = [A @ e for e in m.elem]
    m.P = Pnew
    return True


OPS = [('U1', op_glob, (U1,)), ('U2', op_glob, (U2,)), ('U0', op_glob, (np.eye(4),)),
       ('Uin', op_globinplace, (np.array([.5, 0, -1]),)),
       ('E', op_elem, ([E1, np.eye(4), E2],)), ('Ez', op_elem, ([E1, E3, np.eye(4)],)), ('E0', op_elem, ([np.eye(4)] * 3,)),
       ('Ein0', op_eleminplace, (0, np.array([0, .25, 0]))), ('Ein2', op_eleminplace, (2, np.array([.1, 0, 0]))),
       ('pos1', op_pos, (1, MV1)), ('regen', op_regen, ()),
       ('use', op_use, ()), ('zoom', op_args, (np.array([1., 2., .7]), .25)),
       ('mv1', op_move, (MV1,)), ('mv2', op_move, (MV2,))]


def clean(m):
    return np.allclose(m.U, np.eye(4)) and all(np.allclose(e, np.eye(4)) for e in m.E) and np.allclose(m.t, 0)


def sequences(ctx, conf, first, depth):
    n_ops = len(OPS)
    for tail in itertools.product(range(n_ops), repeat=depth - 1):
        seq = (first,) + tail
        run_seq(ctx, conf, [OPS[i] for i in seq])


def run_seq(ctx, conf, ops):
    par, m = build(conf)
    names = '>'.join(o[0] for o in ops)
    ok_prev = None
    for name, f, args in ops:
        if f is op_move and not clean(m):
            continue
        if f is op_move:
            before = [m.expect(i) for i in range(3)]
        fresh = f(par, m, *args)
        ctx.step()
        ctx.state(conf, m.key(), fresh)
        if f is op_move:
            for i in range(3):
                ctx.close(par.elements[i].pos4d, before[i], f'{names}: {name} keeps element {i} in place', rtol=1e-9, atol=1e-9)
            ctx.close(par.pos4d, m.P, f'{names}: centre after move', rtol=1e-9, atol=1e-9)
            verify(ctx, par, m, f'{names}: right after {name}')
    par.generate_elements()
    verify(ctx, par, m, names)


def verify(ctx, par, m, names):
    ctx.same(len(par.elements), 3, f'{names}: number of elements')
    for i in range(3):
        ctx.close(par.elements[i].pos4d, m.expect(i), f'{names}: element {i}', rtol=1e-9, atol=1e-9)
        ctx.same(par.elements[i].id_num, m.off + i, f'{names}: id of element {i}')
        ctx.close(par.elements[i].pixsize, m.pix, f'{names}: pixel size of element {i}')
    if 'use' in names:
        from marxs.optics import FlatDetector
        a = zoo.columns(C.run(par, photons().copy(), .3))
        ph = photons().copy()
        for i in range(3):
            ph = C.run(FlatDetector(pos4d=m.expect(i), pixsize=m.pix, id_num=m.off + i, id_col='element', ignore_pixel_warning=True), ph, .3)
        b = zoo.columns(ph)
        for c in b:
            ctx.close(a[c], b[c], f'{names}: {c} differs from new elements in these places', rtol=1e-8, atol=1e-8)


def isolation(ctx):
    """operations on one object leave another object (also one created afterwards) alone"""
    for conf in itertools.product(['id', 'rot'], ['plain', 'args']):
        for k in (1, 2):
            for ops in itertools.product([o for o in OPS if o[1] is not op_move], repeat=k):
                a, ma = build(conf)
                b, mb = build(conf)
                for _, f, args in ops:
                    f(a, ma, *args)
                c, mc_ = build(conf)
                b.generate_elements()
                ctx.step(3)
                ctx.state('iso', conf, tuple(o[0] for o in ops))
                verify(ctx, b, mb, 'other object')
                verify(ctx, c, mc_, 'object created later')
                a.generate_elements()
                verify(ctx, a, ma, 'object itself')


def shared(ctx):
    """several groups made from the same list of positions"""
    from marxs.simulator import Parallel
    from marxs.optics import FlatDetector
    P = T([5, -3, 2.]) @ R4(zoo.ORI['gen'])
    ops = [o for o in OPS if o[1] is not op_args]
    for k in (1, 2):
        for seq in itertools.product(ops, repeat=k):
            elem = [T([0, -3, 0]), T([0, 3, 1.]) @ R4(zoo.rot_x(.4) @ zoo.rot_y(.2)), T([1., 0, 9]) @ R4(np.diag([1., 2, 3]))]
            keep = [e.copy() for e in elem]
            def make():
                return Parallel(elem_class=FlatDetector, elem_args=dict(pixsize=.5, ignore_pixel_warning=True), elem_pos=elem, pos4d=P, id_num_offset=3)
            a, b = make(), make()
            ma, mb = (Model(P, keep, np.zeros(3), np.eye(3), np.ones(3)) for i in range(2))
            for _, f, args in seq:
                if f is op_pos:      # a statement of the user that acts on the list
                    a.elem_pos = [e.copy() for e in a.elem_pos]
                if f is op_move and not clean(ma):
                    continue
                f(a, ma, *args)
            ctx.step(3)
            ctx.state('shared', tuple(o[0] for o in seq))
            names = '>'.join(o[0] for o in seq)
            ctx.same([e.tolist() for e in elem], [e.tolist() for e in keep], f'{names}: positions passed in')
            b.generate_elements()
            verify(ctx, b, mb, f'{names}: other group made from the same positions')
            a.generate_elements()
            verify(ctx, a, ma, f'{names}: group itself')


def rejects(ctx):
    from marxs.simulator import Parallel
    from marxs.optics import FlatDetector
    shear = np.eye(4)
    shear[0, 1] = .5
    ctx.raises(Exception, lambda: Parallel(elem_class=FlatDetector, elem_args={'pixsize': .5, 'pos4d': shear}, elem_pos=[np.eye(4)]), 'shear in elem_args')
    par, m = build(('id', 'plain'))
    par.elem_uncertainty[1] = shear
    ctx.step()
    ctx.state('shear')
    ctx.raises(Exception, par.generate_elements, 'shear in elem_uncertainty')


def scenarios(ctx):
    depth = 4 if ctx.thorough else 3
    confs = list(itertools.product(['id', 'rot'], ['plain', 'args']))
    for conf in confs:
        for i in range(len(OPS)):
            yield from C.cases(lambda c, cf, o: sequences(c, cf, o, depth), 'seq:' + '-'.join(conf) + ':' + OPS[i][0], [conf], [i])
    yield 'isolation', isolation
    yield 'shared', shared
    yield 'rejects', rejects
