"""All chains of 2 (thorough: 3) elements over the registry x ray pool: unit directions, perpendicular unit
polarization, homogeneous components; s-component of the polarization preserved by every single non-polarizing
bend, for a grid of polarization angles and answers of the random number generator."""
import itertools
import numpy as np
from mc import zoo
from mc.zoo import PLACES
from . import _common as C
from . import _chain


def ray_state(ctx, after, what, rows=slice(None)):
    d, p, r = after['dir'][rows], after['polarization'][rows], after['pos'][rows]
    ctx.check(np.all(np.isfinite(d)) and np.all(np.isfinite(p)) and np.all(np.isfinite(r)), f'{what}: non-finite ray')
    ctx.check(np.all(d[:, 3] == 0), f'{what}: direction with w != 0')
    ctx.close(r[:, 3], np.ones(len(r)), f'{what}: position with w != 1', rtol=0, atol=1e-12)
    ctx.check(np.all(p[:, 3] == 0), f'{what}: polarization with w != 0')
    ctx.close(np.linalg.norm(d, axis=1), np.ones(len(d)), f'{what}: |dir|', atol=1e-9)
    ctx.close(np.linalg.norm(p, axis=1), np.ones(len(d)), f'{what}: |polarization|', atol=1e-7)
    ctx.close(np.einsum('ij,ij->i', d, p), np.zeros(len(d)), f'{what}: dir . polarization', atol=1e-7)


def visit(ctx, spec, names, before, after):
    ray_state(ctx, after, '>'.join(names))


def chains(ctx, spec, specs, depth):
    _chain.explore(ctx, spec, specs, depth, visit)


SINGLE = lambda s: s.props.get('changes_dir') and 'Brewster' not in s.name and 'MultiLayer' not in s.name \
    and s.name not in ('CATL1L2Stack',)


def transport(ctx, spec, place, q):
    zoom = PLACES[place]['zoom']
    elem = spec.make(**zoo.place_kw(place))
    for ang in np.linspace(0, np.pi, 7 if not ctx.thorough else 19):
        rays = [C.ray_for(spec, 'hit', zoom, i, place) for i in range(8)]
        ph = zoo.photons(place, rays, pol=[ang + .1 * i for i in range(8)])
        b = zoo.columns(ph)
        a = zoo.columns(C.run(elem, ph, q))
        ctx.step()
        ctx.state(spec.name, place, q, round(ang, 6))
        ray_state(ctx, a, spec.name)
        if not SINGLE(spec):
            continue
        d0, d1 = b['dir'][:, :3], a['dir'][:, :3]
        s = np.cross(d0, d1)
        n = np.linalg.norm(s, axis=1)
        ok = n > 1e-6
        s = s[ok] / n[ok][:, None]
        p0, p1 = b['polarization'][ok, :3], a['polarization'][ok, :3]
        ctx.close(np.einsum('ij,ij->i', s, p0), np.einsum('ij,ij->i', s, p1), 'component perpendicular to the plane of both directions', atol=1e-7)
        # the in-plane component turns with the ray: s, p, dir stays right handed
        ctx.close(np.einsum('ij,ij->i', np.cross(d0[ok], s), p0), np.einsum('ij,ij->i', np.cross(d1[ok], s), p1), 'in-plane component', atol=1e-7)
        ctx.close(b['polarization'][~ok], a['polarization'][~ok], 'undeflected photons keep their polarization', atol=1e-6)


def scenarios(ctx):
    specs = zoo.specs()
    depth = 3 if ctx.thorough else 2
    yield from C.cases(lambda c, s: chains(c, s, specs, depth), 'chain', specs)
    yield from C.cases(transport, 'transport', specs, zoo.NAMES, [.03, .4, .9] if not ctx.thorough else [.01, .1, .3, .5, .7, .9, .99])
