"""The wrapper around the compiled MARX mirror, with a stand-in C library that knows which photon it should be handed."""
import itertools
import os
import subprocess
import numpy as np
from astropy.table import Table
from mc import zoo
from mc.zoo import PLACES
from . import _common as C

SRC = r'''
#include <math.h>
#include <stdio.h>
#include <string.h>
%s
double Marx_Mirror_Geometric_Area = 1234.5;
int said;
static int mode;
Param_File_Type *pf_open_parameter_file (char *f, char *m) {
  static Param_File_Type p; FILE *h;
  p.n = 0;
  if (strcmp(m, "r") || !(h = fopen(f, "r"))) return 0;
  if (1 != fscanf(h, "mode %%d", &p.n)) p.n = -1;
  fclose(h);
  return &p; }
int pf_close_parameter_file (Param_File_Type *p) { return 0; }
int marx_mirror_init (Param_File_Type *p) { if (!p || p->n < 0) return -1; mode = p->n; return 0; }
int marx_mirror_reflect (Marx_Photon_Type *p, int verbose) {
  unsigned int k, i, n = p->n_photons; double lo = 1e99, hi = -1e99;
  said = verbose;
  if (mode == 9) return -1;
  if (p->num_sorted != n || p->max_n_photons < n) return 2;
  for (k = 0; k < n; k++) {
    i = p->sorted_index[k];
    if (i >= n || p->attributes[i].energy != p->sorted_energies[k]) return 3;
    if (k && p->sorted_energies[k] < p->sorted_energies[k - 1]) return 4;
    if (p->attributes[i].mirror_shell) return 5;
    Marx_Photon_Attr_Type *a = p->attributes + i;
    if (a->arrival_time < lo) lo = a->arrival_time;
    if (a->arrival_time > hi) hi = a->arrival_time;
    unsigned int t = a->tag;
    a->mirror_shell = 1 + t %% 4;
    double w = .3 * t + a->energy, r = 300 + 50. * a->mirror_shell + .01 * a->x.x, b = .02 * a->energy, s;
    a->x.y = r * cos(w) + .02 * a->x.y; a->x.z = r * sin(w) + .03 * a->x.z; a->x.x = 1e4;
    a->p.y -= b * cos(w); a->p.z -= b * sin(w);
    s = sqrt(a->p.x * a->p.x + a->p.y * a->p.y + a->p.z * a->p.z);
    a->p.x /= s; a->p.y /= s; a->p.z /= s;
    a->flags = (t %% 5 == 3 ? 0x02 : 0) | (t %% 7 == 2 ? 0x10 : 0) | (t %% 3 == 1 ? 0x200 : 0) | (t %% 3 == 2 ? 0x04 : 0);
    a->arrival_time += .25; }
  return lo == p->start_time && hi == p->total_time ? 0 : 6; }
'''
LIB = None


def mirror(t, e, x, p):
    """the same, here, for one photon"""
    sh = 1 + t % 4
    w, r, b = .3 * t + e, 300 + 50. * sh + .01 * x[0], .02 * e
    return (np.array([1e4, r * np.cos(w) + .02 * x[1], r * np.sin(w) + .03 * x[2]]),
            zoo.unit(p - b * np.array([0, np.cos(w), np.sin(w)])), sh, t % 5 == 3, t % 7 == 2)


def load():
    """compile the stand-in and hand it to marxs.optics.marx"""
    global LIB
    from marxs.optics import marx
    if LIB is None:
        from cffi import FFI
        cdef = open(os.path.join(os.path.dirname(marx.__file__), 'cdef.txt')).read()
        ffi = FFI()
        ffi.cdef(cdef + 'extern int said;')
        d = os.path.join(zoo.tmpdir(), 'fakemarx')
        os.makedirs(d, exist_ok=True)
        head = '\n'.join(x for x in cdef.splitlines() if 'typedef ...' not in x and not x.startswith(('extern', 'int marx')))
        with open(os.path.join(d, 'm.c'), 'w') as f:
            f.write(SRC % ('typedef struct { int n; } Param_File_Type;\n' + head))
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', os.path.join(d, 'm.so'), os.path.join(d, 'm.c'), '-lm'])
        LIB = ffi, ffi.dlopen(os.path.join(d, 'm.so')), d
        for n, txt in (('good', 'mode 1'), ('fails', 'mode 9'), ('broken', 'nonsense')):
            with open(os.path.join(d, n + '.par'), 'w') as f:
                f.write(txt)
    marx.ffi, marx.marx, marx.HAS_MARX = LIB[0], LIB[1], True
    return marx


ENERGY = {'up': lambda n: .5 + .3 * np.arange(n), 'down': lambda n: 9. - .3 * np.arange(n), 'ties': lambda n: np.resize([2., 1.], n),
          'mixed': lambda n: 1 + np.arange(n) * 7919 % 13 * .4}
PROB = {'one': lambda n: np.ones(n), 'part': lambda n: np.linspace(.3, .9, n), 'zero': lambda n: np.resize([0., .5, 1.], n)}


def beam(n, energy, prob, tags, pos, place):
    k = np.arange(n)
    d = zoo.unit(np.column_stack([-np.ones(n), .01 * np.sin(3 * k), .01 * np.cos(2 * k)]))
    pol = np.array([zoo.perp(x, .4 + .2 * i) for i, x in enumerate(d)])
    cols = {'time': (k * 5 + 3) % 8 * 1.5 + 7 + .01 * k, 'dir': zoo.to_global(place, d, 0), 'polarization': zoo.to_global(place, pol, 0),
            'energy': ENERGY[energy](n), 'probability': PROB[prob](n), 'ra': 10 + k * .1, 'order': k[::-1].copy(), 'word': np.array([f'w{i}' for i in k])}
    loc = np.column_stack([12000 + k, 5. * k, 3. - k])
    if pos:
        cols['pos'] = zoo.to_global(place, loc, 1)
    if tags is not None:
        cols['tag'] = np.array(tags)
    return Table(cols), loc if pos else None, d


def frame(place):
    R, p = np.asarray(PLACES[place]['orientation']), np.asarray(PLACES[place]['position'])
    return R, p


def carry(ctx, n, energy, prob, kind, pos, place):
    marx = load()
    R, p0 = frame(place)
    base = {'none': [None], 'plain': [list(range(n))], 'gaps': [[3 + 17 * i for i in range(n)]],
            'perms': list(itertools.permutations(range(2, n + 2))) if n <= 4 else [list(np.roll(np.arange(n)[::-1], s) + 1) for s in range(n)]}[kind]
    m = marx.MarxMirror(os.path.join(LIB[2], 'good.par'), position=list(p0), orientation=R)
    for tags in base:
        ph, loc, d = beam(n, energy, prob, tags, pos, place)
        keep = zoo.columns(ph)
        out = m(ph, verbose=3)
        ctx.step()
        ctx.state(n, energy, prob, tags, pos, place)
        ctx.same(LIB[1].said, 3, 'verbosity handed on')
        t = np.arange(n) if tags is None else np.array(tags)
        ctx.same(sorted(np.asarray(out['tag']).tolist()), sorted(t.tolist()), 'every photon is still there')
        if len(out) != n:
            continue
        idx = [list(t).index(x) for x in out['tag']]
        if loc is None:
            # position in global coordinates is not known: origin
            g = np.zeros(3)
            loc = np.tile(R.T @ (g - p0), (n, 1))
        for j, i in enumerate(idx):
            e = keep['energy'][i]
            x, dd, sh, unref, block = mirror(int(t[i]), e, loc[i], d[i])
            row = out[j]
            ctx.close(np.asarray(row['pos']), np.append(R @ x + p0, 1), f'photon {i}: position', atol=1e-7)
            ctx.close(np.asarray(row['dir']), np.append(R @ dd, 0), f'photon {i}: direction', atol=1e-10)
            ctx.close(row['energy'], e, 'energy')
            ctx.close(row['time'], keep['time'][i] + .25, 'time')
            ctx.same(int(row['mirror_shell']), sh, 'shell')
            ctx.same((bool(row['unreflected']), bool(row['mirror_vblocked'])), (unref, block), 'flags')
            ctx.close(row['probability'], 0 if unref or block else keep['probability'][i], f'photon {i}: probability')
            for c in ('ra', 'order', 'word'):
                ctx.same(row[c], keep[c][i], f'column {c}')
            for c in ('dir', 'time', 'energy') + (('pos',) if pos else ()):
                ctx.close(np.asarray(row[c + '_beforemirror']), keep[c][i], f'{c} before the mirror', atol=1e-9)
            pol = np.asarray(row['polarization'])
            a, b = R @ d[i], R @ dd
            ctx.close([pol @ np.append(b, 0), np.linalg.norm(pol), pol[3]], [0, 1, 0], 'polarization', atol=1e-9)
            # component perpendicular to the plane of the deflection stays
            nrm = zoo.unit(np.cross(a, b))
            ctx.close(pol[:3] @ nrm, keep['polarization'][i][:3] @ nrm, 'polarization perpendicular to plane', atol=1e-7)
            ctx.close(pol[:3] @ np.cross(nrm, b), keep['polarization'][i][:3] @ np.cross(nrm, a), 'polarization in plane', atol=1e-7)
        if pos:
            for c in keep:
                ctx.check(np.allclose(np.array(ph[c], dtype=float), keep[c]) if keep[c].dtype.kind == 'f' else np.array_equal(np.array(ph[c]), keep[c]),
                          f'input table changed: {c}')
        # the rest of the photons does not matter
        if n > 2:
            ph2, _, _ = beam(n, energy, prob, list(t), pos, place)
            half = m(ph2[::2])
            for r in half:
                j = int(np.flatnonzero(np.asarray(out['tag']) == r['tag'])[0])
                for c in ('pos', 'dir', 'energy', 'time', 'probability', 'mirror_shell', 'polarization', 'word'):
                    a, b = np.asarray(r[c]), np.asarray(out[j][c])
                    ctx.check(np.allclose(a, b, atol=1e-9) if a.dtype.kind == 'f' else a == b, f'photon depends on others: {c}')


def errors(ctx, what):
    marx = load()
    d = LIB[2]
    ctx.step()
    ctx.state(what)
    if what == 'missing':
        ctx.raises(OSError, lambda: marx.MarxMirror(os.path.join(d, 'nothere.par')), 'missing parameter file')
    elif what == 'broken':
        ctx.raises(marx.MarxError, lambda: marx.MarxMirror(os.path.join(d, 'broken.par')), 'broken parameter file')
    elif what == 'fails':
        m = marx.MarxMirror(os.path.join(d, 'fails.par'))
        ph, _, _ = beam(3, 'up', 'one', None, True, 'unit')
        ctx.raises(marx.MarxError, lambda: m(ph), 'error in C')
    elif what == 'nolib':
        marx.HAS_MARX = False
        ctx.raises(marx.MarxError, lambda: marx.MarxMirror(os.path.join(d, 'good.par')), 'no library')
        marx.HAS_MARX = True
    elif what == 'area':
        import astropy.units as u
        m = marx.MarxMirror(os.path.join(d, 'good.par'))
        ctx.close(m.area.to(u.cm**2).value, 1234.5, 'area')


def scenarios(ctx):
    ns = [1, 2, 3, 4, 7] + ([23] if ctx.thorough else [])
    pl = zoo.NAMES if ctx.thorough else ['unit', 'gen', 'tilt']
    yield from C.cases(carry, 'carry', ns, list(ENERGY), list(PROB), ['none', 'plain', 'gaps', 'perms'], [True, False], pl)
    yield from C.cases(errors, 'errors', ['missing', 'broken', 'fails', 'nolib', 'area'])
