"""
More of numpy over symbolic arrays: functions the code does not call today but
that a rewrite of it may.
"""
import builtins, math
import numpy as np
from . import core, sarray, npproxy
from .core import SymNum, SymB, Undef, UNDEF, SymUnsupported, pynum
from .sarray import SA, asarr, plain, wrap, concrete, F8, I8, B1, el, native
from .npproxy import (HANDLERS, STRUCT, handles, array, concatenate, stack,
                      to_native, dispatch, zeros, linspace)

STRUCT.update(('sliding_window_view', 'pad', 'diagflat', 'permute_dims',
               'matrix_transpose'))


_HANDLES = handles


def handles(*names):
    """Registers a handler for calls with symbolic values; numpy does the
    others."""
    def deco(f):
        real = np
        for p in names[0].split('.'): real = getattr(real, p, None)
        def g(*args, **kw):
            if real is not None and npproxy.all_concrete(args) and \
                    npproxy.all_concrete(kw):
                return npproxy.wrap_out(real(*to_native(args),
                                             **to_native(kw)))
            return f(*args, **kw)
        _HANDLES(*names)(g)
        return g
    return deco


def npf(name, *args, **kw):
    return dispatch(getattr(np, name), args, kw)


def fl(a): return asarr(a, F8) if asarr(a)._ld.kind in 'iub' else asarr(a)


def sel(a, ax, k):
    ix = [slice(None)] * a.ndim
    ix[ax] = k
    return a[tuple(ix)]


@handles('pad')
def pad(a, pad_width, mode='constant', **kw):
    a = asarr(a)
    if mode not in ('constant', 'edge', 'reflect', 'symmetric', 'wrap', 'empty'):
        raise SymUnsupported('np.pad mode %r' % (mode,))
    if mode == 'constant':
        v = kw.pop('constant_values', 0)
        if asarr(v).ndim: raise SymUnsupported('np.pad of several constants')
        v = pynum(v if not isinstance(v, SA) else v._one())
        ix = np.pad(np.arange(a.size).reshape(a.shape), pad_width,
                    constant_values=-1)
        cells = plain(a).reshape(-1)
        out = np.empty(ix.shape, dtype=object)
        for j, i in np.ndenumerate(ix):
            out[j] = sarray.cast(v, a._ld) if i < 0 else cells[i]
        return wrap(out, a._ld)
    ix = np.pad(np.arange(a.size).reshape(a.shape), pad_width, mode=mode, **kw)
    return wrap(plain(a).reshape(-1)[ix], a._ld)


@handles('gradient')
def gradient(f, *varargs, axis=None, edge_order=1):
    f = fl(f)
    axes = range(f.ndim) if axis is None else \
        [axis % f.ndim] if not isinstance(axis, tuple) else \
        [x % f.ndim for x in axis]
    axes = list(axes)
    if len(varargs) == 0: hs = [1.] * len(axes)
    elif len(varargs) == 1: hs = list(varargs) * len(axes)
    elif len(varargs) == len(axes): hs = list(varargs)
    else: raise TypeError('invalid number of arguments')
    out = []
    for ax, h in zip(axes, hs):
        n = f.shape[ax]
        if n < edge_order + 1:
            raise ValueError('Shape of array too small to calculate a '
                             'numerical gradient')
        at = lambda k: sel(f, ax, k)
        if asarr(h).ndim == 0:
            d = [h] * (n - 1)
            uniform = True
        else:
            x = asarr(h)
            if len(x) != n:
                raise ValueError('when 1d, distances must match the length '
                                 'of the corresponding dimension')
            d = [x[i + 1] - x[i] for i in range(n - 1)]
            uniform = False
        g = []
        for i in range(n):
            if 0 < i < n - 1:
                a, b = d[i - 1], d[i]
                if uniform:
                    g.append((at(i + 1) - at(i - 1)) / (2. * a))
                else:
                    g.append(at(i - 1) * (-b / (a * (a + b))) +
                             at(i) * ((b - a) / (a * b)) +
                             at(i + 1) * (a / (b * (a + b))))
            elif edge_order == 1:
                j = 0 if i == 0 else n - 2
                g.append((at(j + 1) - at(j)) / d[j])
            elif i == 0:
                a, b = d[0], d[1]
                g.append(at(0) * (-(2. * a + b) / (a * (a + b))) +
                         at(1) * ((a + b) / (a * b)) +
                         at(2) * (-a / (b * (a + b))))
            else:
                a, b = d[-2], d[-1]
                g.append(at(n - 3) * (b / (a * (a + b))) +
                         at(n - 2) * (-(b + a) / (a * b)) +
                         at(n - 1) * ((2. * b + a) / (b * (a + b))))
        out.append(stack([asarr(v) for v in g], axis=ax))
    return out[0] if len(out) == 1 else tuple(out)


@handles('trapezoid', 'trapz')
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = fl(y)
    n = y.shape[axis]
    hi, lo = sel(y, axis % y.ndim, slice(1, None)), \
        sel(y, axis % y.ndim, slice(0, n - 1))
    if x is None: d = dx
    else:
        x = asarr(x)
        if x.ndim == 1:
            d = x[1:] - x[:-1]
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
        else:
            d = npf('diff', x, axis=axis)
    return (d * (hi + lo) / 2.).sum(axis=axis)


def _lanes(a, axis):
    a = fl(a)
    if axis is None: return a.reshape(1, -1), None
    if isinstance(axis, tuple): raise SymUnsupported('several axes')
    p = np.moveaxis(plain(a), axis, -1)
    return wrap(p.reshape(-1, p.shape[-1]), a._ld), p.shape[:-1]


def _isnan(v): return isinstance(v, float) and math.isnan(v)


def _quant(a, qs, axis, keepdims, skipnan=False, method='linear'):
    if method != 'linear': raise SymUnsupported('quantile method')
    nd = asarr(a).ndim
    lanes, shape = _lanes(a, axis)
    res = []
    for q in qs:
        row = []
        for lane in lanes:
            if skipnan:
                lane = array([v for v in plain(lane) if not _isnan(v)], float)
            if any(_isnan(v) for v in plain(lane)) or not len(lane):
                row.append(float('nan'))
                continue
            s = sarray.sort(lane)
            pos = q * (len(s) - 1)
            k = min(int(math.floor(pos)), max(len(s) - 2, 0))
            fr = pos - k
            row.append(pynum(s[k] if len(s) == 1 or fr == 0 else
                             s[k] * (1 - fr) + s[k + 1] * fr))
        c = np.empty(len(row), dtype=object)
        for i, v in enumerate(row): c[i] = v
        if shape is None:
            r = el(c[0], F8)
            if keepdims: r = asarr([r], F8).reshape((1,) * nd)
        else:
            r = wrap(c.reshape(shape), F8)
            if keepdims: r = npf('expand_dims', r, axis)
        res.append(r)
    return res


def _q(name, scale, skip):
    @handles(name)
    def f(a, q, axis=None, out=None, overwrite_input=False, method='linear',
          keepdims=False, **kw):
        qa = np.asarray(to_native(q), dtype=float)
        r = _quant(a, [float(v) / scale for v in qa.flat], axis, keepdims, skip,
                   method)
        if qa.ndim == 0: return r[0]
        return stack([asarr(v, F8) for v in r])


_q('quantile', 1., False)
_q('percentile', 100., False)
_q('nanquantile', 1., True)
_q('nanpercentile', 100., True)


@handles('median')
def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _quant(a, [0.5], axis, keepdims)[0]


@handles('nanmedian')
def nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _quant(a, [0.5], axis, keepdims, True)[0]


def _okmask(a):
    a = asarr(a)
    ok = np.empty(a.shape, dtype=bool)
    p = plain(a)
    for ix in np.ndindex(a.shape): ok[ix] = not _isnan(p[ix])
    return a, ok


@handles('nanmean')
def nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a, ok = _okmask(a)
    return a.sum(axis=axis, keepdims=keepdims, where=ok) / \
        sarray.from_native(np.asarray(ok.sum(axis=axis, keepdims=keepdims)))


@handles('nanvar')
def nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a, ok = _okmask(a)
    n = sarray.from_native(np.asarray(ok.sum(axis=axis, keepdims=True)))
    d = a - a.sum(axis=axis, keepdims=True, where=ok) / n
    n = sarray.from_native(np.asarray(ok.sum(axis=axis, keepdims=keepdims)))
    return (d * d).sum(axis=axis, keepdims=keepdims, where=ok) / (n - ddof)


@handles('nanstd')
def nanstd(a, *args, **kw): return np.sqrt(nanvar(a, *args, **kw))


def _nanarg(name):
    @handles('nan' + name)
    def f(a, axis=None, **kw):
        a, ok = _okmask(a)
        if not ok.all(): raise SymUnsupported('nan%s with nan' % name)
        return getattr(a, name)(axis=axis, **kw)


_nanarg('argmin')
_nanarg('argmax')


@handles('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None: raise SymUnsupported('periodic interp')
    x, xp, fp = asarr(x), fl(xp), fl(fp)
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    if len(xp) == 0: raise ValueError('array of sample points is empty')
    def one(v):
        v = pynum(v)
        if isinstance(v, Undef): v < 0
        if bool(v < xp[0]): return pynum(fp[0] if left is None else left)
        if bool(v > xp[-1]): return pynum(fp[-1] if right is None else right)
        for j in range(len(xp) - 1):
            if bool(v == xp[j]): return pynum(fp[j])
            if bool(v < xp[j + 1]):
                return pynum(fp[j] + (fp[j + 1] - fp[j]) *
                             ((v - xp[j]) / (xp[j + 1] - xp[j])))
        return pynum(fp[-1])
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(x.shape): out[ix] = one(plain(x)[ix])
    return wrap(out, F8) if x.ndim else el(out[()], F8)


@handles('vander')
def vander(x, N=None, increasing=False):
    x = asarr(x)
    N = len(x) if N is None else N
    ps = range(N) if increasing else range(N - 1, -1, -1)
    return stack([npf('power', x, p) if p else npf('ones_like', x)
                  for p in ps], axis=1)


@handles('polyval')
def polyval(p, x):
    p = asarr(p)
    y = npf('zeros_like', x)
    for v in p: y = y * x + v
    return y


@handles('linalg.pinv')
def pinv(a, *args, **kw):
    a = asarr(a, F8)
    if a.shape[0] >= a.shape[1]:
        t = a.T
        return sarray.solve(sarray.dot(t, a), t)
    t = a.T
    return sarray.dot(t, sarray.solve(sarray.dot(a, t),
                      sarray.from_native(np.eye(a.shape[0]))))


def _lsq(a, b):
    """Least squares: the normal equations have the same solution."""
    a, b = asarr(a, F8), asarr(b, F8)
    if concrete(a): return sarray.dot(np.linalg.pinv(native(a)), b)
    return sarray.dot(pinv(a), b)


@handles('linalg.lstsq')
def lstsq(a, b, rcond=None):
    a, b = asarr(a, F8), asarr(b, F8)
    x = _lsq(a, b)
    rank = min(a.shape)
    if concrete(a): rank = np.linalg.matrix_rank(native(a))
    res = npf('empty', 0)
    if rank == a.shape[1] and a.shape[0] > a.shape[1]:
        d = sarray.dot(a, x) - b
        res = (d * d).sum(axis=0)
        if not isinstance(res, SA): res = asarr([res], F8)
    return x, res, rank, None


@handles('polyfit')
def polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    if full or cov: raise SymUnsupported('polyfit with diagnostics')
    x, y = asarr(x, F8), asarr(y, F8)
    a = vander(x, deg + 1)
    if w is not None:
        w = asarr(w, F8)
        a = a * w[:, None]
        y = y * (w[:, None] if y.ndim == 2 else w)
    return _lsq(a, y)


@handles('linalg.matrix_power')
def matrix_power(a, n):
    a = asarr(a)
    if n < 0: a, n = HANDLERS['linalg.inv'](a), -n
    r = npf('eye', a.shape[0])
    for _ in range(n): r = sarray.matmul(r, a)
    return r


@handles('linalg.multi_dot')
def multi_dot(arrs, out=None):
    r = asarr(arrs[0])
    for a in arrs[1:]: r = sarray.dot(r, a)
    return r


@handles('linalg.vector_norm')
def vector_norm(x, axis=None, keepdims=False, ord=2):
    return sarray.norm(asarr(x).reshape(-1) if axis is None else x, ord, axis,
                       keepdims)


@handles('linalg.cross')
def lcross(a, b, axis=-1): return HANDLERS['cross'](a, b, axis)


@handles('tensordot')
def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    ra = [i for i in range(a.ndim) if i not in ax]
    rb = [i for i in range(b.ndim) if i not in bx]
    m = a.transpose(ra + ax).reshape(
        [a.shape[i] for i in ra] + [-1] if ax else a.shape + (1,))
    n = b.transpose(bx + rb)
    k = int(np.prod([b.shape[i] for i in bx], dtype=int))
    n = n.reshape([k] + [b.shape[i] for i in rb])
    m = m.reshape([a.shape[i] for i in ra] + [k] + [1] * len(rb))
    n = n.reshape([1] * len(ra) + list(n.shape))
    return (m * n).sum(axis=len(ra))


@handles('linalg.tensordot')
def ltensordot(a, b, axes=2): return tensordot(a, b, axes)


@handles('kron')
def kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim: raise SymUnsupported('kron of unequal ranks')
    sa = [x for d in a.shape for x in (d, 1)]
    sb = [x for d in b.shape for x in (1, d)]
    return (a.reshape(sa) * b.reshape(sb)).reshape(
        [x * y for x, y in zip(a.shape, b.shape)])


@handles('cov')
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    if kw: raise SymUnsupported('weighted covariance')
    m = npf('atleast_2d', fl(m))
    if not rowvar and m.shape[0] != 1: m = m.T
    if y is not None:
        y = npf('atleast_2d', fl(y))
        if not rowvar and y.shape[0] != 1: y = y.T
        m = concatenate([m, y], axis=0)
    if ddof is None: ddof = 0 if bias else 1
    d = m - m.mean(axis=1, keepdims=True)
    r = sarray.dot(d, d.T) / float(m.shape[1] - ddof)
    return r if r.size > 1 else r.reshape(())


@handles('cumprod')
def cumprod(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None: a, axis = a.reshape(-1), 0
    return sarray.accumulate_('multiply', a, axis)


@handles('cumulative_sum')
def cumulative_sum(x, axis=None, dtype=None, out=None, include_initial=False):
    x = asarr(x)
    axis = 0 if axis is None else axis
    r = x.cumsum(axis=axis)
    if include_initial:
        r = concatenate([npf('zeros_like', sel(r, axis % x.ndim, slice(0, 1))),
                         r], axis)
    return r


@handles('ediff1d')
def ediff1d(a, to_end=None, to_begin=None):
    a = asarr(a).reshape(-1)
    parts = [a[1:] - a[:-1]]
    if to_begin is not None: parts.insert(0, asarr(to_begin).reshape(-1))
    if to_end is not None: parts.append(asarr(to_end).reshape(-1))
    return concatenate(parts)


@handles('piecewise')
def piecewise(x, condlist, funclist, *args, **kw):
    x = asarr(x)
    conds = [asarr(c, B1) for c in condlist] \
        if isinstance(condlist, list) or asarr(condlist).ndim > x.ndim \
        else [asarr(condlist, B1)]
    if len(conds) == len(funclist) - 1:
        rest = conds[0]
        for c in conds[1:]: rest = rest | c
        conds.append(~rest)
    y = npf('zeros_like', x)
    for c, f in zip(conds, funclist):
        v = x[c]
        if callable(f):
            if v.size: y[c] = f(v, *args, **kw)
        else: y[c] = f
    return y


@handles('choose')
def choose(a, choices, out=None, mode='raise'):
    ix = sarray.norm_key(asarr(a))
    ch = [asarr(c) for c in choices]
    shape = np.broadcast_shapes(np.shape(ix), *[c.shape for c in ch])
    ld = sarray.common_ld([c._ld for c in ch])
    ch = [np.broadcast_to(plain(sarray.astype(c, ld)), shape) for c in ch]
    ix = np.broadcast_to(ix, shape)
    r = np.empty(shape, dtype=object)
    for j in np.ndindex(shape): r[j] = ch[int(ix[j])][j]
    return wrap(r, ld) if r.ndim else el(r[()], ld)


@handles('apply_over_axes')
def apply_over_axes(func, a, axes):
    v = asarr(a)
    for ax in ([axes] if isinstance(axes, int) else axes):
        r = func(v, ax)
        if asarr(r).ndim != v.ndim: r = npf('expand_dims', asarr(r), ax)
        v = r
    return v


@handles('partition')
def partition(a, kth, axis=-1, **kw):
    # a total order is a partition; which one numpy returns is not specified
    if axis is None: a, axis = asarr(a).reshape(-1), 0
    return sarray.sort(a, axis)


@handles('argpartition')
def argpartition(a, kth, axis=-1, **kw):
    if axis is None: a, axis = asarr(a).reshape(-1), 0
    return sarray.argsort(a, axis)


@handles('setxor1d')
def setxor1d(a, b, assume_unique=False):
    return npf('union1d', npf('setdiff1d', a, b), npf('setdiff1d', b, a))


@handles('histogram2d')
def histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    x, y = asarr(x), asarr(y)
    if isinstance(bins, (int, np.integer)): bins = [bins, bins]
    elif asarr(bins).ndim == 1 and len(bins) != 2: bins = [bins, bins]
    if density: raise SymUnsupported('normalized 2D histogram')
    e = [HANDLERS['histogram_bin_edges'](v, b, None if range is None else
         range[k]) for k, (v, b) in enumerate(zip((x, y), bins))]
    h = zeros((len(e[0]) - 1, len(e[1]) - 1))
    def cell(v, ed):
        if bool(v < ed[0]) or bool(v > ed[-1]): return None
        for k in builtins.range(len(ed) - 1):
            if bool(v < ed[k + 1]): return k
        return len(ed) - 2
    for i, (a, b) in enumerate(zip(x, y)):
        p = cell(a, e[0])
        if p is None: continue
        q = cell(b, e[1])
        if q is None: continue
        h[p, q] = h[p, q] + (1. if weights is None else asarr(weights)[i])
    return h, e[0], e[1]


@handles('block')
def block(arrays):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    d = depth(arrays)
    def rec(x, lev):
        if not isinstance(x, list): return asarr(x)
        parts = [rec(v, lev + 1) for v in x]
        nd = builtins.max([d] + [p.ndim for p in parts])
        parts = [p.reshape((1,) * (nd - p.ndim) + p.shape) for p in parts]
        return concatenate(parts, axis=-(d - lev))
    return rec(arrays, 0)


@handles('real')
def real(a): return a if isinstance(a, SA) else asarr(a) if \
    isinstance(a, (list, tuple)) else a


@handles('put')
def put(a, ind, v, mode='raise'): asarr(a).put(ind, v, mode)


@handles('astype')
def np_astype(a, dtype, copy=True, **kw): return asarr(a).astype(dtype, copy=copy)


@handles('iterable')
def iterable(a): return not isinstance(a, (SymNum, SymB, Undef)) and \
    not (isinstance(a, SA) and a.ndim == 0)


@handles('unique_values')
def unique_values(x):
    raise SymUnsupported('numpy.unique_values')  # order not specified


def round_half_even(x):
    x = pynum(x)
    if isinstance(x, (Undef, SymB)) or not isinstance(x, SymNum):
        return x if isinstance(x, Undef) else float(round(x)) \
            if math.isfinite(x) else x
    if x.kind == 'i': return x
    if x.d is not core.ONE: raise SymUnsupported('rounding of a quotient')
    t = x + 0.5
    r = core.floor_atom(t.n) if isinstance(t, SymNum) else math.floor(t)
    if not isinstance(r, SymNum): return float(r)
    if bool(core.to_real(r) == t) and bool(r % 2 == 1): r = r - 1
    return core.to_real(r)


def round_to(x, decimals=0):
    if decimals == 0: return round_half_even(x)
    k = 10. ** decimals
    return round_half_even(x * k) / k


sarray.OPS.update({
    'rint': round_half_even,
    'heaviside': lambda a, b: 0. if bool(a < 0) else
        (1. if bool(a > 0) else b),
    'signbit': lambda a: a < 0,
    'degrees': lambda a: a * (180 / math.pi),
    'rad2deg': lambda a: a * (180 / math.pi),
    'radians': lambda a: a * (math.pi / 180),
    'ldexp': lambda a, b: a * 2. ** b,
    'expm1': lambda a: core.exp(a) - 1.,
    'log1p': lambda a: core.log(a + 1.),
})


@handles('fix')
def fix(x, out=None): return np.trunc(fl(x))
