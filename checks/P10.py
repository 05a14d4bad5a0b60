"""All container programs: Sequence trees of depth 2 with up to 2 (thorough 3) children per node over {element,
subclass element, plain function, parallel group, stack} with every subset of pre/post steps, executed on the real
code and by a recursive reference interpreter (event traces); class searches on every tree; per-element arguments
of parallel groups; parallel groups and stacks against their members run alone."""
import itertools
import numpy as np
from mc import zoo
from . import _common as C

PP = list(itertools.product([0, 1], repeat=2))


def classes():
    from marxs.optics import FlatDetector
    from marxs.base import SimulationSequenceElement

    class A(SimulationSequenceElement):
        def __init__(self, log=None, **kw):
            self.log = log
            self.label = kw.pop('label', 'A')
            kw.pop('pos4d', None)
            super().__init__(**kw)

        def __call__(self, photons):
            self.log.append(('call', self.label, self.id_num))
            photons['n'] += 1
            return photons

    class B(A):
        pass
    return A, B


class Builder:
    def __init__(self):
        self.A, self.B = classes()
        self.log = []
        self.count = 0

    def leaf(self, k):
        self.count += 1
        lab = f'{k}{self.count}'
        if k == 'a':
            return self.A(log=self.log, label=lab), [('call', lab, -9)]
        if k == 'b':
            return self.B(log=self.log, label=lab), [('call', lab, -9)]
        if k == 'f':
            def func(photons):
                self.log.append(('func', lab))
                out = photons.copy()      # functions may return a new table
                out['n'] += 1
                return out
            return func, [('func', lab)]
        if k == 'p':
            from marxs.simulator import Parallel
            par = Parallel(elem_class=self.A, elem_args={'log': LogProxy(self.log), 'label': [lab + 'x', lab + 'y']},
                           elem_pos=[np.eye(4), np.eye(4)], id_num_offset=4)
            return par, [('call', lab + 'x', 4), ('call', lab + 'y', 5)]

    def build(self, tree):
        """tree: 'a' | ('S', pre, post, children) -> object, expected trace"""
        from marxs.simulator import Sequence
        if isinstance(tree, str):
            return self.leaf(tree)
        _, pre, post, children = tree
        self.count += 1
        lab = f's{self.count}'
        objs, tr = [], []
        for c in children:
            o, t = self.build(c)
            objs.append(o)
            tr += [('pre1', lab), ('pre2', lab)] * pre + t + [('post', lab)] * post
        kw = {}
        if pre:
            kw['preprocess_steps'] = [self.stepper('pre1', lab), self.stepper('pre2', lab)]
        if post:
            kw['postprocess_steps'] = [self.stepper('post', lab)]
        return Sequence(elements=objs, **kw), tr

    def stepper(self, kind, lab):
        def step(photons):
            self.log.append((kind, lab))
        return step


class LogProxy(list):
    """not a list of length 2, so it is no per-element argument"""
    def __init__(self, log):
        super().__init__([0, 0, 0, 0, 0])
        self._log = log

    def append(self, x):
        self._log.append(x)


def children_lists(alpha, nmax):
    for n in range(nmax + 1):
        yield from itertools.product(alpha, repeat=n)


def trees(thorough):
    leaves = ['a', 'b', 'f', 'p']
    l1 = [('S', a, b, c) for c in children_lists(leaves, 2) for a, b in PP if c or not (a or b)]
    l1s = l1 if thorough else [t for i, t in enumerate(l1) if (t[1], t[2]) in ((0, 0), (1, 1))]
    yield from ((t, 1) for t in l1)
    # depth two: first child any node of level one or leaf, second likewise (smaller)
    small = leaves + [('S', 0, 0, ('a',)), ('S', 1, 0, ('b', 'a')), ('S', 0, 1, ('p', 'f')), ('S', 0, 0, ())]
    for (a, b), c1, c2 in itertools.product(PP, l1s + leaves, small):
        yield ('S', a, b, (c1, c2)), 2
        if thorough:
            yield ('S', a, b, (c2, c1, 'b')), 2
    # depth three
    for (a, b), (c, d) in itertools.product(PP, PP):
        for inner in small[4:] + l1s[::7]:
            for lf in leaves:
                yield ('S', a, b, (lf, ('S', c, d, (inner, lf)))), 3


def ref_search(node, match, stop):
    """documented semantics: depth first, optionally not below a match"""
    out = []
    if match(node):
        out.append(node)
        if stop:
            return out
    for e in getattr(node, 'elements', []):
        out += ref_search(e, match, stop)
    return out


def ntree(ctx, chunk, nchunks):
    from marxs.simulator import Sequence, Parallel, BaseContainer
    from astropy.table import Table
    for i, (tree, depth) in enumerate(trees(ctx.thorough)):
        if i % nchunks != chunk:
            continue
        b = Builder()
        obj, expected = b.build(tree)
        ph = Table({'n': np.zeros(2, dtype=int)})
        del b.log[:]
        out = obj(ph)
        ctx.step()
        ctx.state(tree)
        ctx.check(b.log == expected, lambda: f'{tree}: order of calls {b.log} expected {expected}')
        ncall = sum(1 for e in expected if e[0] in ('call', 'func'))
        # the same steps are made for an empty list and for absorbed photons, the second run like the first
        for ph in (Table({'n': np.zeros(0, dtype=int), 'probability': np.zeros(0)}), Table({'n': np.zeros(2, dtype=int), 'probability': np.zeros(2)})):
            del b.log[:]
            again = obj(ph)
            ctx.step()
            ctx.check(b.log == expected, lambda: f'{tree}: order of calls for {len(ph)} photons with probability 0: {b.log} expected {expected}')
            ctx.check(len(again) == len(ph) and np.all(again['n'] == ncall), lambda: f'{tree}: {len(ph)} photons')
        ctx.check(np.all(out['n'] == ncall), f'{tree}: photons processed {out["n"].tolist()} times, expected {ncall}')
        for cls, sub, stop in itertools.product([b.A, b.B, Sequence, Parallel, BaseContainer], [False, True], [False, True]):
            match = (lambda e: isinstance(e, cls)) if sub else (lambda e: type(e) is cls)
            want = ref_search(obj, match, stop)
            got = obj.elements_of_class(cls, subclass_ok=sub, stop_at_first=stop)
            ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                      lambda: f'{tree}: elements_of_class({cls.__name__}, {sub}, {stop}) found {len(got)} expected {len(want)}')
            if not stop:
                first = [k for k, e in enumerate(obj.elements) if ref_search(e, match, False)]
                got1 = obj.first_of_class_top_level(cls, subclass_ok=sub)
                ctx.check(got1 == (first[0] if first else None), lambda: f'{tree}: first_of_class_top_level({cls.__name__}, {sub}) = {got1}, expected {first}')


def nestsearch(ctx, n):
    """containers of three kinds nested up to n deep in every order, with siblings before and after: the search must stop
    below a match on every level and go on in all other branches"""
    from marxs.simulator import Sequence, BaseContainer, Parallel
    A, B = classes()

    class S2(Sequence):
        pass

    class S3(S2):
        pass
    kinds = {'S': Sequence, 'T': S2, 'U': S3}
    def build(word, deco):
        node = A(log=[])
        for j, w in enumerate(word[::-1]):
            if w == 'P':
                node = Parallel(elem_class=lambda node=node, **kw: node if kw['id_num'] == 0 else B(log=[]), elem_args={},
                                elem_pos=[np.eye(4), np.eye(4)])
                continue
            kids = [node]
            if deco & 1:
                kids = [B(log=[])] + kids
            if deco & 2:
                kids = kids + [kinds[w](elements=[A(log=[]), Sequence(elements=[])])]
            if deco & 4:
                kids = kids + [S3(elements=[B(log=[])])]
            node = kinds[w](elements=kids)
        return node
    for m in range(1, n + 1):
        for word, deco in itertools.product(itertools.product('STUP', repeat=m), range(8)):
            root = build(word, deco)
            ctx.step()
            ctx.state('nest', word, deco)
            for cls, sub, stop in itertools.product([A, B, Sequence, S2, S3, Parallel, BaseContainer], [False, True], [False, True]):
                match = (lambda e: isinstance(e, cls)) if sub else (lambda e: type(e) is cls)
                want = ref_search(root, match, stop)
                got = root.elements_of_class(cls, subclass_ok=sub, stop_at_first=stop)
                ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                          lambda: f'{word}/{deco}: elements_of_class({cls.__name__}, {sub}, {stop}) found {len(got)} expected {len(want)}')
                first = [k for k, e in enumerate(root.elements) if ref_search(e, match, False)]
                ctx.same(root.first_of_class_top_level(cls, subclass_ok=sub), first[0] if first else None, f'{word}/{deco}: first_of_class_top_level')


def notcallable(ctx):
    from marxs.simulator import Sequence, Parallel
    A, B = classes()
    good = lambda p: p
    for elems, pre, post in itertools.product(itertools.product([good, 5, 'x', None], repeat=2), [[], [good], [3]], [[], [good], ['y']]):
        bad = any(not callable(x) for x in list(elems) + pre + post)
        ctx.step()
        ctx.state('callable', str([callable(x) for x in elems]), str(pre != [3]), str(post != ['y']))
        f = lambda: Sequence(elements=list(elems), preprocess_steps=pre, postprocess_steps=post)
        if bad:
            ctx.raises(Exception, f, f'{elems} {pre} {post}')
        else:
            f()


def perelement(ctx):
    """all forms of element arguments for n elements: a list of n values is distributed, everything else is shared"""
    from marxs.simulator import Parallel
    from marxs.optics import FlatDetector
    for n in (1, 2, 3, 4):
        pos = [np.eye(4) for i in range(n)]
        for m, off in itertools.product(range(1, 5), [0, 7]):
            vals = [.1 * (j + 1) for j in range(m)]
            for form in ('list', 'scalar', 'name', 'idcol'):
                ctx.step()
                ctx.state(n, m, off, form)
                args = {'pixsize': .5, 'ignore_pixel_warning': True}
                if form == 'list' and m == n:
                    args['pixsize'] = vals
                    want = vals
                else:
                    want = [.5] * n
                if form == 'name':
                    args['name'] = [f'n{j}' for j in range(n)]
                kw = {}
                if form == 'idcol':
                    kw['id_col'] = 'mychip'
                backup = {k: (list(v) if isinstance(v, list) else v) for k, v in args.items()}
                p = Parallel(elem_class=FlatDetector, elem_args=args, elem_pos=[x.copy() for x in pos], id_num_offset=off, **kw)
                ctx.check(args == backup, 'elem_args of the caller changed')
                ctx.same(len(p.elements), n, 'number of elements')
                for j, e in enumerate(p.elements):
                    ctx.close(e.pixsize, want[j], f'pixsize of element {j}')
                    ctx.same(e.id_num, off + j, 'id')
                    ctx.same(e.id_col, 'mychip' if form == 'idcol' else 'element', 'id_col')
                    if form == 'name':
                        ctx.same(e.name, f'n{j}', 'name')
                # a tuple or array is not distributed
                if m == n and form == 'list' and n > 1:
                    A, B = classes()
                    q = Parallel(elem_class=A, elem_args={'label': tuple(vals)}, elem_pos=[x.copy() for x in pos])
                    for e in q.elements:
                        ctx.check(e.label == tuple(vals), 'tuples are passed unchanged')
                names = [str(e.name) for e in p.elements]
                ctx.same(len(set(names)), n, 'names are unique')


def members(ctx, spec, place):
    """a parallel group of three equals its members called one after the other"""
    from marxs.simulator import Parallel
    if spec.geom != 'plane':
        return
    cls = type(spec.make())
    made = []

    class Fac:
        def __init__(self):
            pass

        def __call__(self, **k):
            e = spec.make(**k)
            made.append(e)
            return e
    zoom = zoo.PLACES[place]['zoom']
    base = zoo.pos4d(place)
    def sh(v, rot=np.eye(3)):
        m = np.eye(4)
        m[:3, :3] = rot
        m[:3, 3] = v
        return m
    # elements side by side in the local y direction and one turned behind
    rel = [sh([0, 0, 0]), sh([0, 2.5, 0]), sh([-1, 0, 2.5], zoo.rot_x(.7))]
    for kinds in itertools.product(['hit', 'second', 'third', 'missy', 'back'], repeat=3):
        rays = []
        for i, k in enumerate(kinds):
            pos, d = C.ray_for(spec, k if k in ('missy', 'back') else 'hit', zoom, i, place)
            shift = {'second': np.array([0, 2.5 * zoom[1], 0]), 'third': np.array([0, 0, 2.5 * zoom[2]]), 'missy': np.array([0, -3 * zoom[1], 0])}.get(k, np.zeros(3))
            rays.append((pos + shift, d))
        par = Parallel(elem_class=Fac(), elem_args={'id_col': 'facet'}, elem_pos=[r.copy() for r in rel], pos4d=base, id_num_offset=2)
        single = [spec.make(pos4d=base @ r, id_col='facet', id_num=2 + j) for j, r in enumerate(rel)]
        for q in (.2, .8):
            a = zoo.columns(C.run(par, zoo.photons(place, rays), q))
            ph = zoo.photons(place, rays)
            for s in single:
                ph = C.run(s, ph, q)
            b = zoo.columns(ph)
            ctx.step(2)
            ctx.state('members', spec.name, place, kinds, q)
            ctx.same(set(a), set(b), 'columns')
            for c in a:
                if a[c].dtype.kind == 'f':
                    ctx.close(a[c], b[c], f'{c} in group', rtol=1e-9, atol=3e-7 if c == 'blaze' else 1e-9)
                else:
                    ctx.same(a[c], b[c], f'{c} in group')


def stack(ctx, names, place):
    """a stack applies its layers at one intersection: equal to processing the layers with the intersection of the stack"""
    from marxs.optics import FlatStack
    sp = {s.name: s for s in zoo.specs()}
    zoom = zoo.PLACES[place]['zoom']
    fac = [lambda pos4d=None, n=n, **k: sp[n].make(pos4d=pos4d, **k) for n in names]
    for kinds in [('hit', 'hit', 'missy', 'hit'), ('missy', 'hit', 'back', 'hit'), ('missz', 'missy', 'back', 'par')]:
        rays = [zoo.plane_ray(k, zoom, i + 2) for i, k in enumerate(kinds)]
        st = FlatStack(elements=fac, keywords=[{}] * len(names), id_col='eid', id_num=3, **zoo.place_kw(place))
        layers = [sp[n].make(**zoo.place_kw(place)) for n in names]
        prob = [0., .5, 1., .25]
        a = zoo.columns(C.run(st, zoo.photons(place, rays, prob=prob), .3))
        ph = zoo.photons(place, rays, prob=prob)
        inter = layers[0].geometry.intersect(ph['dir'].data.copy(), ph['pos'].data.copy())
        from mc import rng
        with rng.active(rng.Const(.3)):
            for l in layers:
                if inter[0].any():
                    ph = l.process_photons(ph, *inter)
        b = zoo.columns(ph)
        ctx.step(2)
        ctx.state('stack', names, place, kinds)
        hit = np.array([k == 'hit' for k in kinds])
        if hit.any():
            ctx.same(a.pop('eid'), np.where(hit, 3, -1), 'id of the stack')
        for c in b:
            if b[c].dtype.kind == 'f':
                ctx.close(a[c], b[c], f'{c} in stack {names}', rtol=1e-9, atol=3e-7 if c == 'blaze' else 1e-9)
            else:
                ctx.same(a[c], b[c], f'{c} in stack {names}')
        ctx.check(not [c for c in a if c not in b and c not in ('y', 'z')], lambda: f'columns {set(a) - set(b)}')


def scenarios(ctx):
    n = 8
    for i in range(n):
        yield from C.cases(lambda c, k: ntree(c, k, n), 'tree', [i])
    yield from C.cases(nestsearch, 'nest', [4 if ctx.thorough else 3])
    yield 'notcallable', notcallable
    yield 'perelement', perelement
    specs = zoo.specs()
    yield from C.cases(members, 'members', [s for s in specs if s.name != 'FlatStack' or 1],
                       ['gen'] if not ctx.thorough else zoo.NAMES)
    flat = ['EnergyFilter', 'FlatDetector', 'FlatGratingT', 'RandomGaussianScatter', 'QualityFactor', 'L2Abs', 'CATGrating']
    combos = list(itertools.permutations(flat, 2)) if not ctx.thorough else list(itertools.permutations(flat, 3))
    combos = [c for c in combos if not ('QualityFactor' in c and not {'FlatGratingT', 'CATGrating'} & set(c[:c.index('QualityFactor')]))]
    yield from C.cases(stack, 'stack', combos, ['gen', 'flip'])
