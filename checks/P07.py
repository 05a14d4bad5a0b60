"""Every element class x rigid motions (translations, generic rotations, axis permutations, half turns) x placements
x hit/miss mixes x random answers: outgoing photons of the moved set-up are the moved outgoing photons."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C


def motion(R, t):
    m = np.eye(4)
    m[:3, :3], m[:3, 3] = R, t
    return m


MOTIONS = {
    'shift': motion(np.eye(3), [3., -700., 11.]),
    'perm': motion(np.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0]]), [0., 0, 0]),
    'gen': motion(zoo.rot_x(2.) @ zoo.rot_y(1.1) @ zoo.rot_z(-.8), [-5., 20., .1]),
    'halfturn': motion(np.diag([-1., 1, -1]), [0, 5., 0]),
    'rotx': motion(zoo.rot_x(np.pi / 2), [0, 0., 0]),
}
MORE = {f'm{i}': motion(zoo.rot_z(.9 * i) @ zoo.rot_y(1.7 * i) @ zoo.rot_x(2.3 * i), [i, -i * 10., i * i]) for i in range(1, 10)}
# the scattering plane of these is drawn relative to an arbitrary reference vector: only the angle is meaningful
ANGLE_ONLY = ['RandomGaussianScatter', 'RandomGaussianScatterFunc', 'L2Diffraction', 'CATL1L2Stack']


def cov(ctx, spec, place, mot):
    M = dict(MOTIONS, **MORE)[mot]
    base = zoo.pos4d(place)
    zoom = PLACES[place]['zoom']
    for kinds, q in itertools.product([('hit',) * 6, ('missy', 'hit', 'back', 'hit', 'missz', 'hit')], [.07, .3, .52, .93]):
        # the plane of radial scatter is not defined for rays through the very center
        idx = [0, 1, 3, 4, 5, 6] if 'Radial' in spec.name else range(6)
        rays = [C.ray_for(spec, k, zoom, i, place) for i, k in zip(idx, kinds)]
        ph0 = zoo.photons(place, rays)
        ph1 = zoo.photons(place, rays)
        for c in ('pos', 'dir', 'polarization'):
            ph1[c] = np.asarray(ph1[c]) @ M.T
        e0 = spec.make(pos4d=base)
        e1 = spec.make(pos4d=M @ base)
        d_in = zoo.columns(ph0)['dir']
        o0 = zoo.columns(C.run(e0, ph0, q))
        o1 = zoo.columns(C.run(e1, ph1, q))
        ctx.step(2)
        ctx.state(spec.name, place, mot, kinds, q)
        ctx.same(set(o0), set(o1), 'columns')
        loose = spec.name in ANGLE_ONLY
        for c in o0:
            if c in ('dir', 'polarization') and loose:
                continue
            want = o0[c] @ M.T if c in ('pos', 'dir', 'polarization') else o0[c]
            if o0[c].dtype.kind == 'f':
                ctx.close(o1[c], want, f'{c} after rigid motion', rtol=1e-7, atol=1e-6 if c == 'pos' else (3e-7 if c == 'blaze' else 1e-8))
            else:
                ctx.same(o1[c], want, f'{c} after rigid motion')
        if loose:
            a0 = np.einsum('ij,ij->i', o0['dir'], d_in)
            a1 = np.einsum('ij,ij->i', o1['dir'], d_in @ M.T)
            # the azimuth is arbitrary; for the stack the order of magnitude of the angle changes by scatter only
            ctx.close(a1, a0, 'angle of deflection', atol=1e-9 if spec.name != 'CATL1L2Stack' else 1e-5)


def scenarios(ctx):
    mots = list(MOTIONS) + (list(MORE) if ctx.thorough else [])
    yield from C.cases(cov, 'motion', zoo.specs(), ['gen', 'unit', 'tilt'] if not ctx.thorough else zoo.NAMES, mots)
