"""All pairs of metadata dictionaries over a small key and value alphabet, all small tables over a 3x3 letter alphabet for
the table-to-grid helper (and all row permutations of proper grids), all energy columns over a small alphabet, all
combinations of constructor and call keywords of the version tag, class hierarchies for inherited documentation."""
import datetime
import io
import itertools
import numpy as np
import astropy.units as u
from astropy.table import Table
from mc import rng, zoo
from . import _common as C

NO = object()


# ---------------------------------------------------------------- metadata consistency
def meta(ctx, keys, allow):
    from marxs.base import check_meta_consistent
    vals = [NO, 'a', 'b', ('a', 'comment')]
    n = {'one': 1, 'two': 2, 'default': 2}[keys]
    names = {'one': ['K1'], 'two': ['K1', 'K2'], 'default': ['MARXSVER', 'CREATOR']}[keys]
    if keys == 'default' and not allow:
        names = ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM']
    kw = {} if keys == 'default' else {'keywords': names}
    if not allow:
        kw['allow_missing'] = False
    for combo in itertools.product(vals[:4 if n < 3 else 3], repeat=2 * n):
        m1 = {k: v for k, v in zip(names, combo[:n]) if v is not NO}
        m2 = {k: v for k, v in zip(names, combo[n:]) if v is not NO}
        if keys == 'default' and not allow:
            for k in names[2:]:
                m1[k] = m2[k] = 'same'
        m1['OTHER'] = 1                        # not compared
        m2['THIRD'] = 2
        c1, c2 = dict(m1), dict(m2)
        want = set()
        for k in names:
            if (k in m1) != (k in m2):
                want.add('KeyError')
            elif k in m1:
                if m1[k] != m2[k]:
                    want.add('AssertionError')
            elif not allow:
                want.add('KeyError')
        got = None
        try:
            check_meta_consistent(m1, m2, **kw)
        except (KeyError, AssertionError) as e:
            got = type(e).__name__
        ctx.step()
        ctx.state(keys, allow, combo[:n] if NO not in combo else repr(sorted(m1.items(), key=str)), repr(sorted(m2.items(), key=str)))
        if want:
            ctx.check(got in want, f'{m1} and {m2} (missing keywords allowed: {allow}): {got}, expected {want}')
        else:
            ctx.check(got is None, f'{m1} and {m2} (missing keywords allowed: {allow}): rejected with {got}')
        ctx.same((m1, m2), (c1, c2), 'metadata unchanged')


def meta_each_default(ctx):
    """each of the default keywords is really compared"""
    from marxs.base import check_meta_consistent
    names = ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM']
    for present in itertools.product([0, 1], repeat=5):
        base = {k: 'v' for k, p in zip(names, present) if p}
        check_meta_consistent(base, dict(base))
        ctx.step()
        ctx.state(present)
        for k in base:
            ctx.raises(AssertionError, lambda: check_meta_consistent(base, {**base, k: 'w'}), f'different {k}')
            rest = {a: b for a, b in base.items() if a != k}
            ctx.raises(KeyError, lambda: check_meta_consistent(base, rest), f'{k} missing in second')
            ctx.raises(KeyError, lambda: check_meta_consistent(rest, base), f'{k} missing in first')
            ctx.step(3)
        if not all(present):
            ctx.raises(KeyError, lambda: check_meta_consistent(base, dict(base), allow_missing=False), 'missing in both')


# ---------------------------------------------------------------- version tag
def tag(ctx, origin, creator):
    import marxs
    from marxs.base import TagVersion
    arg = {'default': NO, 'str': 'me', 'tuple': ('me', 'a comment')}
    for nk, ck, pre in itertools.product(range(3), range(4), range(3)):
        init = dict([('MISSION', 'TEST'), ('SATELLIT', ('X', 'the satellite'))][:nk])
        call = dict([('RUN', 5), ('MISSION', 'OTHER'), ('ORIGIN', 'late')][:ck])
        kw = dict(init)
        if origin != 'default':
            kw['ORIGIN'] = arg[origin]
        if creator != 'default':
            kw['CREATOR'] = arg[creator]
        el = TagVersion(**kw)
        ph = Table({'a': [1, 2], 'energy': [1., 2.]})
        before = dict([('KEEP', 'x'), ('CREATOR', 'older')][:pre])
        ph.meta.update(before)
        d0 = datetime.date.today().isoformat()
        # history: call with keywords, then without on another list
        out = el(ph, **call)
        ph2 = Table({'a': [1]})
        out2 = el(ph2)
        d1 = datetime.date.today().isoformat()
        ctx.step(2)
        ctx.state(origin, creator, nk, ck, pre)
        for o, extra, b4 in ((out, call, before), (out2, {}, {})):
            want = dict(b4)
            want.update(init)
            want['ORIGIN'] = arg[origin] if origin != 'default' else ('unkwown', 'Institution where file was created')
            want['CREATOR'] = arg[creator] if creator != 'default' else ('MARXS', 'Person or program creating file')
            want.update(extra)
            m = dict(o.meta)
            for k, v in want.items():
                ctx.check(k in m and m[k] == v, f'keyword {k} is {m.get(k)!r}, expected {v!r}')
            date = m.pop('DATE')
            ctx.check((date[0] if isinstance(date, tuple) else date) in (d0, d1), f'date of the computation {date}')
            v = m['MARXSVER']
            v = v[0] if isinstance(v, tuple) else v
            ctx.check(len(v) > 0 and marxs.__version__.startswith(v), f'version {v} of {marxs.__version__}')
            for k in ('MARXSGIT', 'MARXSTIM'):
                if k in m:
                    w = m[k][0] if isinstance(m[k], tuple) else m[k]
                    ctx.check(w in marxs.__version__, f'{k}: {w} not part of the version {marxs.__version__}')
            ctx.check(set(m) <= set(want) | {'MARXSVER', 'MARXSGIT', 'MARXSTIM'}, f'unexpected keywords {set(m) - set(want)}')
        ctx.check(out is ph or list(out['a']) == [1, 2], 'photons unchanged')
        ctx.same(out.colnames, ['a', 'energy'], 'columns')
        ctx.same([list(r) for r in out.iterrows()], [[1, 1.], [2, 2.]], 'photons')
        # two simulations tagged by the same program are consistent with each other
        from marxs.base import check_meta_consistent
        if 'ORIGIN' not in call:
            check_meta_consistent(out.meta, out2.meta)
        else:
            ctx.raises(AssertionError, lambda: check_meta_consistent(out.meta, out2.meta), 'different origin')


def tag_name(ctx):
    from marxs.base import TagVersion
    from marxs.simulator import Sequence
    el = TagVersion(name='mytag', RUN=1)
    ctx.same(el.name, 'mytag', 'name')
    ph = Table({'a': [1.]})
    Sequence(elements=[el, TagVersion(ORIGIN='second')])(ph)
    ctx.step()
    ctx.state('name')
    ctx.same(ph.meta['RUN'], 1, 'keyword in a sequence')
    ctx.same(ph.meta['ORIGIN'], 'second', 'later tag wins')
    ctx.check('name' not in ph.meta, 'the name of the element is not a keyword')


# ---------------------------------------------------------------- energies
def energy(ctx, form, n):
    from marxs.base import check_energy_consistent
    al = [1., 1.5, .5, 1e-4, 2e-4, 30.]
    for combo in itertools.product(al, repeat=n):
        e = np.array(combo)
        t = Table({'probability': np.ones(n)})
        if form == 'col':
            t['energy'] = e
        elif form == 'unit':
            t['energy'] = e * u.keV
        ctx.step()
        ctx.state(form, combo)
        if form == 'none' or len(set(combo)) <= 1:
            check_energy_consistent(t)
        else:
            ctx.raises(AssertionError, lambda: check_energy_consistent(t), f'energies {combo}')


# ---------------------------------------------------------------- grids
def own_grid(x, y):
    """product grid in row-major order: distinct x values each repeated for one and the same list of distinct y values"""
    xs = list(dict.fromkeys(x))
    ys = list(dict.fromkeys(y))
    ok = list(zip(x, y)) == [(a, b) for a in xs for b in ys]
    return ok, xs, ys


def one_grid(ctx, x, y, where):
    from marxs.utils import tablerows_to_2d, DataFileFormatException
    n = len(x)
    d1, d2 = np.arange(n) * 1.5 + 3, -np.arange(n)[::-1] ** 2.
    tab = Table({'x': np.array(x, float), 'y': np.array(y, float), 'one': d1, 'two': d2})
    ok, xs, ys = own_grid(x, y)
    ctx.step()
    ctx.state(where, x, y)
    try:
        gx, gy, dat = tablerows_to_2d(tab)
    except DataFileFormatException:
        ctx.check(not ok, f'{where}: grid x={x} y={y} rejected')
        return
    ctx.check(ok, f'{where}: table x={x} y={y} is no regular grid, but accepted')
    if not ok:
        return
    ctx.same(list(gx), [float(v) for v in xs], 'x of the grid')
    ctx.same(list(gy), [float(v) for v in ys], 'y of the grid')
    ctx.same(len(dat), 2, 'number of data columns')
    for g, d in zip(dat, (d1, d2)):
        ctx.same(np.shape(g), (len(xs), len(ys)), 'shape')
        for r in range(n):
            ctx.same(float(g[xs.index(x[r]), ys.index(y[r])]), float(d[r]), f'value of row {r}')


def grid_all(ctx, n, first):
    letters = list(itertools.product([1, 2, 3], [5, 6, 7]))
    if n == 6:
        # two-letter x, up to three-letter y
        letters = list(itertools.product([1, 2], [5, 6, 7]))
        if not ctx.thorough:
            letters = list(itertools.product([1, 2], [5, 6]))
    elif n == 4 and not ctx.thorough:
        letters = list(itertools.product([1, 2, 3], [5, 6])) + [(1, 7), (2, 7)]
    if first >= len(letters):
        return
    for rest in itertools.product(letters, repeat=n - 1):
        rows = (letters[first],) + rest
        one_grid(ctx, [r[0] for r in rows], [r[1] for r in rows], f'{n} rows')


def grid_perm(ctx, nx, ny):
    base = [(a, b) for a in [.1, .25, 7., 9.][:nx] for b in [-3., 0., 4., 10., 11.][:ny]]
    perms = itertools.permutations(range(len(base)))
    if len(base) > 6:
        # all products of up to two transpositions, all rotations, and reversals
        idx = list(range(len(base)))
        perms = [idx, idx[::-1]] + [idx[k:] + idx[:k] for k in idx]
        tr = list(itertools.combinations(idx, 2))
        for (a, b) in tr:
            p = list(idx)
            p[a], p[b] = p[b], p[a]
            perms.append(p)
            if ctx.thorough:
                for (c, d) in tr:
                    q = list(p)
                    q[c], q[d] = q[d], q[c]
                    perms.append(q)
        # rows of the grid and columns of the grid exchanged as a whole (still a regular grid)
        for px in itertools.permutations(range(nx)):
            perms.append([i * ny + j for i in px for j in range(ny)])
        perms.append([i * ny + j for j in range(ny) for i in range(nx)])
    for p in perms:
        one_grid(ctx, [base[i][0] for i in p], [base[i][1] for i in p], f'{nx}x{ny} permuted')
    # one row missing or doubled
    for i in range(len(base)):
        b = base[:i] + base[i + 1:]
        if b:
            one_grid(ctx, [r[0] for r in b], [r[1] for r in b], f'{nx}x{ny} without row {i}')
        b = base[:i] + base[i:i + 1] + base[i:]
        one_grid(ctx, [r[0] for r in b], [r[1] for r in b], f'{nx}x{ny} doubled row {i}')


# ---------------------------------------------------------------- test photons, astronomical helper
def testphotons(ctx):
    from marxs.utils import generate_test_photons
    for n in (0, 1, 2, 5, 17):
        p = generate_test_photons(n)
        q = generate_test_photons(n)
        ctx.step()
        ctx.state(n)
        ctx.same(len(p), n, 'number')
        for c, v in (('pos', [1, 0, 0, 1]), ('dir', [-1, 0, 0, 0]), ('polarization', [0, 1, 0, 0])):
            ctx.close(np.array(p[c]).reshape(n, 4), np.tile(np.array(v, float), (n, 1)), c)
        for c in ('energy', 'probability'):
            ctx.close(np.array(p[c]), np.ones(n), c)
        if n:
            p['pos'][0] = [7, 7, 7, 1]
            p['energy'][0] = 8
            ctx.close(np.array(q['pos'][0]), [1., 0, 0, 1], 'independent lists')
            ctx.close(np.array(generate_test_photons(n)['pos'][0]), [1., 0, 0, 1], 'independent lists')
    ctx.same(len(generate_test_photons()), 1, 'default')


def mono(ctx, place):
    from marxs.analysis.run_helpers import monoenergetic_astrosimulation, default_coord
    ref = zoo.PLACES[place].get('orientation')
    T = np.eye(4)
    if ref is not None:
        T[:3, :3] = ref
    for n, e in itertools.product((1, 2, 7, 30), (.3, 5.)):
        seen = []

        def instrument(photons):
            seen.append(len(photons))
            photons['probability'] *= .25
            return photons
        kw = {} if place == 'unit' else {'reference_transform': T}
        with rng.active(rng.Const(.3)):
            p = monoenergetic_astrosimulation(instrument, e * u.keV, n_photons=n, **kw)
        ctx.step()
        ctx.state(place, n, e)
        ctx.same(seen, [n], 'photons given to the instrument')
        ctx.same(len(p), n, 'number of photons')
        ctx.close(np.array(p['energy']), np.full(n, e), 'energy')
        ctx.close(np.array(p['probability']), np.full(n, .25), 'goes through the instrument')
        ctx.close(np.array(p['dir']), np.tile(T @ [-1, 0, 0, 0], (n, 1)), 'on the optical axis', atol=1e-9)
        ctx.close(np.array(p['ra']), np.full(n, 30.), 'ra')
        ctx.close(np.array(p['dec']), np.full(n, 30.), 'dec')
        ctx.close([p.meta['RA_PNT'][0], p.meta['DEC_PNT'][0]], [30., 30.], 'pointing')


# ---------------------------------------------------------------- documentation and element base class
def docs(ctx):
    from marxs.base import MarxsElement
    opts = [NO, None, 'text']     # method not defined, defined without doc, defined with doc
    for a, b, c in itertools.product(opts, repeat=3):
        for mixin in (False, True):
            def ns(o, tagname):
                if o is NO:
                    return {}

                def meth(self):
                    return tagname
                meth.__doc__ = None if o is None else o + tagname
                return {'meth': meth}
            A = type(MarxsElement)('A', (MarxsElement,), ns(a, 'A'))
            M = type(MarxsElement)('M', (MarxsElement,), ns('mixed', 'M')) if mixin else None
            B = type(MarxsElement)('B', (A,), ns(b, 'B'))
            Cc = type(MarxsElement)('C', (B, M) if mixin else (B,), ns(c, 'C'))
            ctx.step()
            ctx.state(str(a), str(b), str(c), mixin)
            # own resolution: documentation of the first class in resolution order that has any
            docA = 'textA' if a == 'text' else None
            docB = 'textB' if b == 'text' else docA
            order = [(c, 'C'), (b, 'B'), (a, 'A')] + ([('mixed', 'M')] if mixin else [])
            have = [o for o in order if o[0] is not NO]
            if not have:
                continue
            want = next((o[0] + o[1] for o in order if o[0] is not NO and o[0] is not None), None)
            who = have[0][1]
            if c is not NO:
                ctx.same(Cc.meth.__doc__, want, f'documentation, A {a} B {b} C {c} mixin {mixin}')
            ctx.same(Cc().meth(), who, 'method resolution')
            if b is not NO:
                ctx.same(B.meth.__doc__, docB, 'documentation of the parent class unchanged')
            if a is not NO:
                ctx.same(A.meth.__doc__, docA, 'documentation of the first class unchanged')


def element(ctx):
    from marxs.base import MarxsElement, SimulationSequenceElement

    class D(MarxsElement):
        display = {'color': 'red', 'nested': {'a': [1]}}
    for cls in (MarxsElement, SimulationSequenceElement, D):
        e = cls()
        ctx.state(cls.__name__)
        ctx.step()
        ctx.check(e.name is cls, 'default name is the class')
        ctx.same(cls(name='nm').name, 'nm', 'name')
        ctx.same(cls(name='nm').describe()['element'], 'nm', 'description')
        for bad in ({'foo': 1}, {'foo': 1, 'name': 'x'}, {'position': 1}):
            ctx.raises(ValueError, lambda: cls(**bad), f'argument {bad}')
    a, b = D(), D()
    a.display['color'] = 'blue'
    a.display['nested']['a'].append(2)
    ctx.same((b.display['color'], b.display['nested']), ('red', {'a': [1]}), 'display of other object')
    ctx.same((D().display['color'], D().display['nested']), ('red', {'a': [1]}), 'display of the class')
    s = SimulationSequenceElement(id_num=4, id_col='ME')
    ctx.same((s.id_num, s.id_col, SimulationSequenceElement().id_num, SimulationSequenceElement().id_col), (4, 'ME', -9, None), 'ids')


def scenarios(tier):
    yield from C.cases(meta, 'meta', ['one', 'two', 'default'], [True, False])
    yield 'meta-defaults', meta_each_default
    yield from C.cases(tag, 'tag', ['default', 'str', 'tuple'], ['default', 'str', 'tuple'])
    yield 'tag-name', tag_name
    yield from C.cases(energy, 'energy', ['none', 'col', 'unit'], [0, 1, 2, 3])
    yield from C.cases(grid_all, 'grid-all', [1, 2, 3, 4, 6], range(9))
    yield from C.cases(grid_perm, 'grid-perm', [1, 2, 3], [1, 2, 3, 4])
    yield 'test-photons', testphotons
    yield from C.cases(mono, 'mono', ['unit', 'gen', 'zxy'])
    yield 'docs', docs
    yield 'element', element
