"""Search over all operation sequences (set scalar, constant and varying list, element, slice and mask assignment,
assignment through a column taken earlier, delete, copy, row selection) up to depth 3 (thorough 4) on one name and up
to depth 3 (4) on two names, for values of type int, float, string, and quantity, against a dictionary model; after
every operation all names are read back in every way, and representation and length are compared."""
import copy
import itertools
import warnings
import numpy as np
import astropy.units as u
from . import _common as C

KIND = {'int': (1, 2), 'float': (0., 1.5), 'str': ('p', 'qqq'), 'quantity': (1. * u.keV, 2. * u.keV),
        'bool': (False, True)}
N = 3


def lst(kind, idx):
    v = [KIND[kind][i] for i in idx]
    return u.Quantity(v) if kind == 'quantity' else v


def same(kind, a, b):
    if kind == 'quantity':
        return u.Quantity(a).unit == u.keV and np.all(u.Quantity(a).value == u.Quantity(b).value)
    return bool(np.all(np.asarray(a) == np.asarray(b)))


# model: name -> tuple of value indices (len N) or single index (key)
def ops(names, kind, full):
    for n in names:
        for i in (0, 1):
            yield 'scalar', n, i
        yield 'list', n, (1, 1, 1)
        yield 'list', n, (0, 1, 1)
        if full:
            yield 'list', n, (0, 0, 1)
            yield 'array', n, (0, 1, 0)
            yield 'array', n, (0, 0, 0)
        for k in range(N) if full else (0, 2):
            for i in (0, 1):
                yield 'elem', n, (k, i)
        if full:
            yield 'slice', n, (slice(1, None), 1)
            yield 'slice', n, (slice(None), 0)
            yield 'mask', n, (0, 1)
            yield 'neg', n, (-1, 0)
        yield 'del', n, None
    yield 'copy', None, None
    if full:
        yield 'deepcopy', None, None
        yield 'rows', None, None


def run(ctx, kind, seq):
    from marxs.reduction.ogip import ColOrKeyTable
    vals = KIND[kind]
    t = ColOrKeyTable({'x': [5, 6, 7]})
    t.meta['other'] = 'o'
    model = {}
    n = N
    olds = []
    for op, name, arg in seq:
        ctx.step()
        if op == 'scalar':
            t[name] = vals[arg]
            model[name] = arg
        elif op in ('list', 'array'):
            arg = arg[:n]
            v = lst(kind, arg)
            t[name] = np.array(v) if op == 'array' and kind != 'quantity' else v
            model[name] = arg if len(set(arg)) > 1 else arg[0]
        elif op in ('elem', 'slice', 'mask', 'neg'):
            if not isinstance(model.get(name), tuple):
                continue
            m = list(model[name])
            if op == 'mask':
                col = t[name]
                where = np.array([x == arg[0] for x in m])
                col[where] = vals[arg[1]]
                m = [arg[1] if x == arg[0] else x for x in m]
            else:
                k, i = arg
                if isinstance(k, int) and k >= n:
                    continue
                t[name][k] = vals[i]
                if isinstance(k, slice):
                    m[k] = [i] * len(m[k])
                else:
                    m[k] = i
            # quantity columns are no ColOrKeyColumn: they stay columns
            model[name] = tuple(m) if len(set(m)) > 1 or kind == 'quantity' else m[0]
        elif op == 'del':
            if name not in model:
                continue
            if isinstance(model[name], tuple):
                t.remove_column(name)
            else:
                del t.meta[name]
            del model[name]
        elif op in ('copy', 'deepcopy'):
            olds.append((t, dict(model), n))
            t = t.copy() if op == 'copy' else copy.deepcopy(t)
        elif op == 'rows':
            if n < 3:
                continue
            olds.append((t, dict(model), n))
            t = t[[True, False, True]]
            n = 2
            model = {k: (v if not isinstance(v, tuple) else (v[0], v[2])) for k, v in model.items()}
        view(ctx, kind, t, model, n, seq)
    for t, model, n in olds:     # copies are independent
        view(ctx, kind, t, model, n, seq)


def view(ctx, kind, t, model, n, seq):
    vals = KIND[kind]
    ctx.state(kind, tuple(sorted(model.items())), n)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        for name, v in model.items():
            want = lst(kind, v) if isinstance(v, tuple) else vals[v]
            ctx.check(same(kind, t[name], want), f'{seq}: {name} is {t[name]!r}, expected {want!r}')
            if kind == 'quantity':
                ctx.check(u.Quantity(t[name]).unit == u.keV, 'unit lost')
            if isinstance(v, tuple):
                ctx.check(np.shape(t[name]) == (n,), f'{seq}: {name} has one value per row')
                ctx.check(name not in t.meta, f'{seq}: {name} is column and key')
                for i in range(n):
                    ctx.check(same(kind, t[name][i], vals[v[i]]) and same(kind, t[i][name], vals[v[i]]),
                              f'{seq}: row {i} of {name}')
            else:
                ctx.check(np.ndim(t[name]) == 0, f'{seq}: {name} is a single value')
                ctx.check(name not in t.colnames and name in t.meta, f'{seq}: {name} not (only) a key')
        ctx.same(sorted(t.colnames), sorted(['x'] + [k for k, v in model.items() if isinstance(v, tuple)]),
                 f'{seq}: columns')
        ctx.same(sorted(t.meta), sorted(['other'] + [k for k, v in model.items() if not isinstance(v, tuple)]),
                 f'{seq}: keys')
        ctx.same(len(t), n, f'{seq}: number of rows')
        ctx.check(t['other'] == 'o', f'{seq}: unrelated key')
        ctx.check(list(t['x']) == ([5, 6, 7] if n == 3 else [5, 7]), f'{seq}: unrelated column')
        for name in {'a', 'b'} - set(model):
            try:
                t[name]
            except KeyError:
                pass
            else:
                ctx.fail(f'{seq}: {name} was deleted, but can still be read')


def one(ctx, kind, first):
    al = list(ops('a', kind, True))
    for d in range(0, 3 if not ctx.thorough else 4):
        for rest in itertools.product(al, repeat=d):
            run(ctx, kind, (al[first],) + rest)


def two(ctx, kind, first):
    al = list(ops('ab', kind, False))
    for d in range(0, 2 if not ctx.thorough else 4):
        for rest in itertools.product(al, repeat=d):
            run(ctx, kind, (al[first],) + rest)


def handle(ctx, kind):
    """a column taken from the table before: assignments move it to a key and back again"""
    from marxs.reduction.ogip import ColOrKeyTable
    vals = KIND[kind]
    sets = [(k, i) for k in range(N) for i in (0, 1)] + [(slice(None), 0), (slice(None), 1), (slice(0, 2), 1)]
    sets += [(slice(None), j) for j in itertools.product((0, 1), repeat=N)] + [([0, 2], (1, 1)), ([0, 2], (0, 1)), (np.array([False, True, True]), (0, 0))]
    for seq in itertools.product(sets, repeat=2 if not ctx.thorough else 3):
        t = ColOrKeyTable({'x': [5, 6, 7]})
        t['a'] = lst(kind, (0, 1, 1))
        col = t['a']
        m = [0, 1, 1]
        for k, i in seq:
            col[k] = vals[i] if isinstance(i, int) else lst(kind, i)
            ctx.step()
            if not isinstance(k, int):
                w = np.arange(N)[k]
                for n, j in enumerate(w):
                    m[j] = i if isinstance(i, int) else i[n]
            else:
                m[k] = i
            ctx.state(kind, tuple(m))
            view(ctx, kind, _Alias(t), {'a': tuple(m) if len(set(m)) > 1 or kind == 'quantity' else m[0]}, N, seq)


class _Alias:
    """view of a table with the extra key that `view` expects"""
    def __init__(self, t):
        t.meta.setdefault('other', 'o')
        self.t = t

    def __getattr__(self, name):
        return getattr(self.t, name)

    def __getitem__(self, item):
        return self.t[item]

    def __len__(self):
        return len(self.t)


def multi(ctx, kind):
    """two-dimensional values are constant only if all rows are the same"""
    from marxs.reduction.ogip import ColOrKeyTable
    vals = KIND[kind]
    for idx in itertools.product((0, 1), repeat=4):
        t = ColOrKeyTable({'x': [5, 6]})
        rows = [[vals[idx[0]], vals[idx[1]]], [vals[idx[2]], vals[idx[3]]]]
        if kind == 'quantity':
            rows = [[v.value for v in r] for r in rows] * u.keV
        t['a'] = rows if kind == 'quantity' else np.array(rows)
        ctx.step()
        ctx.state(kind, idx)
        got = np.broadcast_to(t['a'], (2, 2)) if kind != 'quantity' else np.broadcast_to(t['a'], (2, 2), subok=True)
        ctx.check(same(kind, got, rows), f'2d {idx}: {t["a"]}')
        ctx.same('a' in t.meta, idx[:2] == idx[2:], f'2d {idx}: key')
        ctx.same('a' in t.colnames, idx[:2] != idx[2:], f'2d {idx}: column')


def scenarios(ctx):
    for kind in KIND:
        full = len(list(ops('a', kind, True)))
        yield from C.cases(one, 'one', [kind], range(full))
        yield from C.cases(two, 'two', [kind], range(len(list(ops('ab', kind, False)))))
    yield from C.cases(handle, 'handle', [k for k in KIND if k != 'quantity'])
    yield from C.cases(multi, 'two-dimensional', KIND)
