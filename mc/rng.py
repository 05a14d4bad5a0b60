"""Owning the randomness.

marxs draws its random numbers from the module level functions of
``numpy.random``.  Here every draw is an *environment answer* chosen by the
explorer.  While one of the engines below is active all functions in
``numpy.random`` (and names imported from there into marxs modules) are
replaced, so no draw can escape the explorer.

* ``Const``   every draw returns the same quantile (row independence checks)
* ``Script``  the k-th scalar draw returns the k-th scripted quantile
* ``Grid``    a vectorised draw of size n=prod(dims) as the k-th draw returns
              the k-th digit of the row number: all combinations of the
              quantile alphabet for up to len(dims) draws are explored at once,
              one combination per photon.
* ``Rows``    arbitrary table: quantile[k][row]
"""
import sys
import contextlib
import numpy as np
from scipy import special

_real = {}
EPS = 2.0 ** -53
ONE = 1.0 - EPS


def _shape(size):
    if size is None:
        return None
    if np.isscalar(size) or isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


class Engine:
    """Base: subclasses implement quant(shape) -> array of quantiles in [0, 1)"""

    def __init__(self):
        self.log = []     # shapes requested

    def quant(self, shape):
        raise NotImplementedError

    def q(self, shape):
        self.log.append(shape)
        out = self.quant(shape if shape is not None else ())
        out = np.asarray(out, dtype=float)
        if shape is None:
            return float(out.reshape(-1)[0]) if out.size else float(out)
        return out.reshape(shape).copy()

    # --- numpy.random look-alikes
    def random(self, size=None, **kw):
        return self.q(_shape(size))

    random_sample = ranf = sample = random

    def rand(self, *dims):
        return self.q(None if len(dims) == 0 else tuple(int(d) for d in dims))

    def _bshape(self, size, *args):
        s = _shape(size)
        if s is None:
            b = np.broadcast(*[np.asarray(a) for a in args]) if len(args) > 1 else np.asarray(args[0])
            s = b.shape if b.shape != () else None
        return s

    def uniform(self, low=0.0, high=1.0, size=None):
        self._nounit(low, high)
        low, high = np.asarray(low, float), np.asarray(high, float)
        q = self.q(self._bshape(size, low, high))
        r = low + (high - low) * q
        return float(r) if np.ndim(r) == 0 else r

    def _z(self, shape):
        q = self.q(shape)
        z = special.ndtri(np.clip(q, 1e-300, 1 - 1e-16))
        return z

    @staticmethod
    def _nounit(*args):
        # numpy's compiled generators refuse quantities that are not dimensionless
        for a in args:
            if hasattr(a, 'unit') and np.ndim(a) == 0 and str(a.unit) != '':
                raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')

    def normal(self, loc=0.0, scale=1.0, size=None):
        self._nounit(loc, scale)
        loc, scale = np.asarray(loc, float), np.asarray(scale, float)
        r = loc + scale * self._z(self._bshape(size, loc, scale))
        return float(r) if np.ndim(r) == 0 else r

    def standard_normal(self, size=None, **kw):
        return self._z(_shape(size))

    def randn(self, *dims):
        return self._z(None if len(dims) == 0 else tuple(int(d) for d in dims))

    def exponential(self, scale=1.0, size=None):
        self._nounit(scale)
        scale = np.asarray(scale, float)
        q = self.q(self._bshape(size, scale))
        r = -scale * np.log1p(-q)
        return float(r) if np.ndim(r) == 0 else r

    def standard_exponential(self, size=None, **kw):
        return self.exponential(1., size)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        q = self.q(self._bshape(size, np.asarray(low), np.asarray(high)))
        r = np.floor(low + (np.asarray(high) - low) * q).astype(int)
        return int(r) if np.ndim(r) == 0 else r

    integers = random_integers = randint

    def choice(self, a, size=None, replace=True, p=None, **kw):
        if np.ndim(a) == 0:
            a = np.arange(int(a))
        else:
            a = np.asarray(a)
        n = a.shape[0]
        if p is None:
            p = np.full(n, 1. / n)
        else:
            p = np.asarray(p, float)
            if p.shape != (n,):
                raise ValueError("'a' and 'p' must have same size")
            if np.any(np.isnan(p)):
                raise ValueError('probabilities contain NaN')
            if np.any(p < 0):
                raise ValueError('probabilities are not non-negative')
            if abs(p.sum() - 1.) > 1e-8:
                raise ValueError('probabilities do not sum to 1')
        cdf = np.cumsum(p)
        cdf = cdf / cdf[-1]
        s = _shape(size)
        if not replace and s is not None:
            k = int(np.prod(s))
            if k > n:
                raise ValueError('Cannot take a larger sample than population when replace is False')
            return a[self.permutation(n)[:k]].reshape(s)
        q = self.q(s)
        idx = np.searchsorted(cdf, q, side='right')
        idx = np.minimum(idx, n - 1)
        return a[idx]

    def permutation(self, x):
        if np.ndim(x) == 0:
            x = np.arange(int(x))
        x = np.array(x)
        q = self.q((len(x),))
        return x[np.argsort(q, kind='stable')]

    def shuffle(self, x):
        q = self.q((len(x),))
        idx = np.argsort(q, kind='stable')
        if isinstance(x, np.ndarray):
            x[...] = x[idx].copy()
        else:
            x[:] = [x[i] for i in idx]

    def poisson(self, lam=1., size=None):
        from scipy import stats
        q = self.q(self._bshape(size, np.asarray(lam)))
        return stats.poisson.ppf(q, lam).astype(int)

    def vonmises(self, mu, kappa, size=None):
        from scipy import stats
        q = self.q(self._bshape(size, np.asarray(mu), np.asarray(kappa)))
        return stats.vonmises.ppf(q, kappa, loc=mu)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        mean = np.asarray(mean)
        s = _shape(size)
        L = np.linalg.cholesky(np.asarray(cov) + 1e-300 * np.eye(len(mean)))
        z = self._z((len(mean),) if s is None else s + (len(mean),))
        return mean + z @ L.T


NAMES = ['random', 'random_sample', 'ranf', 'sample', 'rand', 'uniform', 'normal', 'standard_normal',
         'randn', 'exponential', 'standard_exponential', 'randint', 'random_integers', 'choice',
         'permutation', 'shuffle', 'poisson', 'vonmises', 'multivariate_normal']


class _Gen:
    """Stands in for numpy.random.Generator / RandomState"""

    def __init__(self, eng):
        self._e = eng

    def __getattr__(self, name):
        return getattr(self._e, name)


@contextlib.contextmanager
def active(eng):
    """Replace every entry point of numpy.random by engine eng."""
    saved = {}
    for n in NAMES + ['default_rng', 'RandomState']:
        if hasattr(np.random, n):
            saved[n] = getattr(np.random, n)
    real_by_id = {id(v): k for k, v in saved.items()}
    patched = []
    dists = []
    try:
        import scipy.stats as st
        for n in ('norm', 'expon', 'uniform', 'truncnorm', 'poisson', 'vonmises', 'randint', 'rayleigh'):
            d = getattr(st, n)
            dists.append((d, d._random_state))
            d._random_state = _Gen(eng)
        for n in saved:
            if n in ('default_rng', 'RandomState'):
                # a generator with a fixed seed is deterministic: it is not asked for answers
                setattr(np.random, n, lambda seed=None, real=saved[n]: _Gen(eng) if seed is None else real(seed))
            elif hasattr(eng, n):
                setattr(np.random, n, getattr(eng, n))
        for mname, m in list(sys.modules.items()):
            if mname.startswith('marxs') and m is not None:
                for k, v in list(vars(m).items()):
                    if callable(v) and id(v) in real_by_id and not isinstance(v, type):
                        patched.append((m, k, v))
                        setattr(m, k, getattr(np.random, real_by_id[id(v)]))
        yield eng
    finally:
        for n, v in saved.items():
            setattr(np.random, n, v)
        for m, k, v in patched:
            setattr(m, k, v)
        for d, r in dists:
            d._random_state = r


class Const(Engine):
    def __init__(self, u=0.5):
        super().__init__()
        self.u = u

    def quant(self, shape):
        return np.full(shape, self.u)


class Script(Engine):
    """The quantiles are taken in order from a list, cycling when exhausted."""

    def __init__(self, values):
        super().__init__()
        self.values = list(values)
        self.i = 0

    def quant(self, shape):
        n = int(np.prod(shape)) if shape != () else 1
        out = np.empty(n)
        for j in range(n):
            out[j] = self.values[self.i % len(self.values)]
            self.i += 1
        return out.reshape(shape)


class Grid(Engine):
    """All combinations of a quantile alphabet, one per row."""

    def __init__(self, dims, alphabet=None, scalar=0.5):
        super().__init__()
        self.dims = list(dims)
        self.n = int(np.prod(self.dims))
        self.k = 0
        self.scalar = scalar
        rows = np.arange(self.n)
        self.digits = []
        for k, d in enumerate(self.dims):
            dig = rows % d
            rows = rows // d
            q = (dig + 0.5) / d if alphabet is None else np.asarray(alphabet)[dig]
            self.digits.append(q)

    def next_digit(self):
        k = self.k
        self.k += 1
        if k < len(self.digits):
            return self.digits[k]
        return np.full(self.n, 0.5)

    def quant(self, shape):
        if shape == (self.n,) or shape == (self.n, 1) or shape == (1, self.n):
            return self.next_digit()
        if len(shape) == 2 and shape[0] == self.n:
            return np.stack([self.next_digit() for i in range(shape[1])], axis=1)
        if len(shape) == 2 and shape[1] == self.n:
            return np.stack([self.next_digit() for i in range(shape[0])], axis=0)
        n = int(np.prod(shape)) if shape != () else 1
        if n == 1:
            return np.full(shape if shape != () else (1,), self.scalar)
        if len(shape) == 2 and 1 < min(shape) <= 4 and shape[0] != shape[1]:
            # several draws in one call: the same as one call for each of them
            m = max(shape)
            q = (np.arange(m) + 0.5) / m
            return np.tile(q, (shape[0], 1)) if m == shape[1] else np.tile(q[:, None], (1, shape[1]))
        return ((np.arange(n) + 0.5) / n).reshape(shape)


class Rows(Grid):
    """The k-th vectorised draw of size n returns the k-th given row of quantiles."""

    def __init__(self, rows, scalar=0.5):
        rows = [np.asarray(r, float) for r in rows]
        super().__init__([len(rows[0])], None, scalar)
        self.digits = rows
