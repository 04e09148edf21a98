"""
FITPACK's parametric smoothing splines, by contract: the fit is a function of
the points, parameters, degree and tolerance; its values at the parameters of
the points have a sum of squared deviations of at most the tolerance; points
that lie uniformly on a line are fitted by that line. Everything else about the
values and derivatives is left open.
"""
import types
import numpy as np
from . import core, sarray
from .core import SymNum, SymUnsupported, pynum, lift, to_real, ONE
from .sarray import SA, asarr, plain, F8


def _zero(x):
    x = pynum(x)
    if not isinstance(x, SymNum): return x == 0
    return not x.n.t


def _key(x):
    x = lift(to_real(pynum(x)))
    return (x.n, x.d)


class Fit(object):
    """Stands for knots, coefficients and degree."""
    def __init__(self, key, dim, k):
        self.key, self.dim, self.k = key, dim, k
        self.vals = {}
        self.line = None
    def __getitem__(self, i):
        if i == 2: return self.k
        raise SymUnsupported('knots or coefficients of a spline')
    def __iter__(self):
        raise SymUnsupported('knots or coefficients of a spline')
    def value(self, d, der, u):
        if self.line is not None:
            u0, a, b = self.line
            return (a[d] + b[d] * (u - u0), b[d], 0.)[min(der, 2)]
        k = (d, der) + _key(u)
        if k not in self.vals:
            self.vals[k] = core.ENGINE.new_aux('r') if der <= self.k else 0.
        return self.vals[k]


class Splines(object):
    def __init__(self):
        self.fits = {}

    def splprep(self, x, w=None, u=None, ub=None, ue=None, k=3, task=0, s=None,
                t=None, full_output=0, nest=None, per=0, quiet=1):
        if task or t is not None or full_output or per or nest is not None \
                or ub is not None or ue is not None or w is not None:
            raise SymUnsupported('splprep options')
        P = [asarr(c).reshape(-1) for c in x]
        dim, m = len(P), len(P[0])
        if isinstance(k, SymNum): k = core.concretize(k)
        if not 1 <= k <= 5: raise TypeError('1 <= k= %d <=5 must hold' % k)
        if m <= k: raise TypeError('m > k must hold')
        P = [[pynum(v) for v in plain(c)] for c in P]
        if s is None: s = m - (2. * m) ** 0.5
        s = pynum(s)
        if isinstance(s, SA): s = s._one()
        if bool(s < 0): raise ValueError('s must not be negative')
        uk = None
        if u is not None:
            u = [pynum(v) for v in plain(asarr(u).reshape(-1))]
            if len(u) != m: raise TypeError('Mismatch of input dimensions')
            uk = tuple(_key(v) for v in u)
        key = (tuple(tuple(_key(v) for v in c) for c in P), uk, k, _key(s))
        if key in self.fits: return self.fits[key]
        f = Fit(key, dim, k)
        line = True
        if u is None:
            for c in P:
                for i in range(m - 2):
                    line = line and _zero(c[i] - 2 * c[i + 1] + c[i + 2])
            for i in range(1, m):
                if bool(core.b_all([c[i] == c[i - 1] for c in P])):
                    raise ValueError('Invalid inputs.')
            if line: u = [i / float(m - 1) for i in range(m)]
            else:
                u = [0.] + [core.ENGINE.new_aux('r') for i in range(m - 2)] + [1.]
                for a, b in zip(u, u[1:]):
                    core.ENGINE.add_fact(lift(a).z3() < lift(b).z3())
        else:
            for c in P:
                for i in range(1, m - 1):
                    line = line and _zero((c[i] - c[0]) * (u[-1] - u[0]) -
                                          (c[-1] - c[0]) * (u[i] - u[0]))
            for i in range(1, m):
                if not bool(u[i] > u[i - 1]):
                    raise ValueError('Invalid inputs.')
        if line:
            f.line = (u[0], [c[0] for c in P],
                      [(c[-1] - c[0]) / (u[-1] - u[0]) for c in P])
        else:
            sq = 0.
            for d in range(dim):
                for i in range(m):
                    e = f.value(d, 0, u[i]) - P[d][i]
                    sq = sq + e * e
            sz = lift(s)
            if sz.d is not ONE: raise SymUnsupported('tolerance')
            core.ENGINE.add_fact(lift(sq).z3() <= lift(s * 1.001).z3())
        r = self.fits[key] = [f, asarr(u, F8)]
        return r

    def splev(self, x, tck, der=0, ext=0):
        if not isinstance(tck, Fit): raise SymUnsupported('splev')
        if not 0 <= der <= tck.k:
            raise ValueError('0<=der=%d<=k=%d must hold' % (der, tck.k))
        u = asarr(x)
        out = []
        for d in range(tck.dim):
            v = [tck.value(d, der, pynum(q)) for q in plain(u.reshape(-1))]
            out.append(asarr(v, F8).reshape(u.shape))
        return out


def make():
    import scipy.interpolate as si
    m = types.ModuleType('scipy.interpolate')
    for n in dir(si):
        if not n.startswith('__'): setattr(m, n, getattr(si, n))
    sp = Splines()
    m.splprep, m.splev = sp.splprep, sp.splev
    return m
