"""
The numpy module as seen by the code under test. Creation functions give
symbolic arrays; others dispatch to handlers, to numpy on concrete data, or to
numpy on arrays of objects when they only move cells around.
"""
import builtins, math, types
import numpy as np
from . import core, sarray
from .core import (SymNum, SymB, Undef, UNDEF, SymUnsupported, b_all, b_any,
                   b_and, b_or, to_real, trunc, pynum)
from .sarray import (SA, asarr, plain, wrap, from_native, native, concrete,
                     norm_key, has_seq, F8, I8, B1, ld_of, el, ld_scalar,
                     common_ld, is_sym)

# Functions that only rearrange cells; positions of their array arguments.
STRUCT = set('''transpose moveaxis swapaxes rollaxis expand_dims squeeze
 reshape ravel broadcast_to flip fliplr flipud rot90 roll tile resize
 diag diagonal tril triu split array_split hsplit vsplit dsplit
 meshgrid atleast_1d atleast_2d atleast_3d broadcast_arrays'''.split())

HANDLERS = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def contains_sym(x, depth=0):
    if isinstance(x, (SA, SymNum, SymB, Undef)): return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(contains_sym(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return any(contains_sym(v, depth + 1) for v in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def all_concrete(x):
    if isinstance(x, SA): return concrete(x)
    if is_sym(x): return False
    if isinstance(x, (list, tuple)): return all(all_concrete(v) for v in x)
    if isinstance(x, dict): return all(all_concrete(v) for v in x.values())
    return True


def to_native(x):
    if isinstance(x, SA): return native(x)
    if isinstance(x, list): return [to_native(v) for v in x]
    if type(x) is tuple: return tuple(to_native(v) for v in x)
    if isinstance(x, dict): return {k: to_native(v) for k, v in x.items()}
    return x


def wrap_out(r):
    if type(r) is np.ndarray: return from_native(r)
    if type(r) is tuple: return tuple(wrap_out(v) for v in r)
    if isinstance(r, tuple) and hasattr(r, '_fields'):
        return type(r)(*[wrap_out(v) for v in r])
    if type(r) is list: return [wrap_out(v) for v in r]
    return r


def dispatch(func, args, kw):
    name = getattr(func, '__name__', str(func))
    mod = getattr(func, '__module__', '') or ''
    key = name
    if 'linalg' in mod and ('linalg.' + name) in HANDLERS:
        key = 'linalg.' + name
    if mod.startswith('numpy.ma') and contains_sym((args, kw)):
        raise SymUnsupported('numpy.ma.%s of symbolic values' % name)
    h = HANDLERS.get(key)
    if isinstance(func, np.ufunc):
        if contains_sym(args) or contains_sym(kw):
            return sarray.array_ufunc(func, '__call__', *args, **kw)
        return wrap_out(func(*args, **kw))
    if h is not None and ('linalg' in mod) == key.startswith('linalg.'):
        return h(*args, **kw)
    if not contains_sym(args) and not contains_sym(kw):
        return wrap_out(func(*args, **kw))
    if all_concrete(args) and all_concrete(kw):
        return wrap_out(func(*to_native(args), **to_native(kw)))
    if key in STRUCT:
        lds = []
        def strip(x):
            if isinstance(x, SA):
                lds.append(x._ld)
                return plain(x)
            if isinstance(x, (list, tuple)) and contains_sym(x):
                a = asarr(x)
                lds.append(a._ld)
                return plain(a)
            if isinstance(x, (SymNum, SymB)):
                lds.append(ld_scalar(x))
                return plain(asarr(x))
            if isinstance(x, np.ndarray):
                a = from_native(x)
                lds.append(a._ld)
                return plain(a)
            return x
        if key in ('meshgrid', 'atleast_1d', 'atleast_2d', 'atleast_3d',
                   'broadcast_arrays'):
            a = [strip(x) for x in args]
        else:
            a = [strip(args[0])] + [to_native(x) for x in args[1:]]
        r = func(*a, **{k: to_native(v) for k, v in kw.items()})
        if key.startswith('atleast'):       # the same object, if good enough
            rs = r if isinstance(r, (list, tuple)) else [r]
            rs = [x if isinstance(x, SA) and x.shape == y.shape else
                  wrap(y, l) for x, y, l in zip(args, rs, lds)]
            return rs[0] if len(args) == 1 else tuple(rs)
        if isinstance(r, (list, tuple)):
            if len(r) == len(lds):
                return type(r)(wrap(x, l) for x, l in zip(r, lds))
            return type(r)(wrap(x, lds[0]) for x in r)
        return wrap(r, lds[0])
    raise SymUnsupported('numpy.%s of symbolic values' % key)


# ---- creation
def _shape(s):
    if isinstance(s, SA): s = native(s) if concrete(s) else [
        v.__index__() for v in s]
    if isinstance(s, (SymNum, np.integer)): return s.__index__()
    if isinstance(s, int): return s
    return tuple(v.__index__() for v in s)


def _subshape(shape, ld):
    if ld.subdtype is not None:
        base, sub = ld.subdtype
        sh = (shape,) if isinstance(shape, int) else tuple(shape)
        return sh + sub, base
    return shape, ld


def _filled(shape, dtype, v):
    ld = ld_of(dtype)
    shape, ld = _subshape(_shape(shape), ld)
    a = wrap(np.empty(shape, dtype=sarray.storage(ld)), ld)
    if ld.fields is not None:
        for n in ld.names:
            f = a[n]
            if isinstance(f, SA):
                plain(f)[...] = UNDEF if v is UNDEF else \
                    sarray.cast(v, ld.fields[n][0].base)
        return a
    o = np.empty((), dtype=object)
    o[()] = UNDEF if v is UNDEF else sarray.cast(pynum(v), ld)
    plain(a)[...] = o
    return a


@handles('empty')
def empty(shape, dtype=float, order='C', **kw):
    return _filled(shape, dtype, UNDEF)


@handles('zeros')
def zeros(shape, dtype=float, order='C', **kw):
    return _filled(shape, dtype, 0)


@handles('ones')
def ones(shape, dtype=None, order='C', **kw):
    return _filled(shape, dtype, 1)


@handles('full')
def full(shape, fill_value, dtype=None, order='C', **kw):
    f = asarr(fill_value)
    r = _filled(shape, f._ld if dtype is None else dtype, 0)
    r[...] = f if f.ndim else fill_value
    return r


def _like(v):
    def f(a, dtype=None, order='K', subok=True, shape=None, **kw):
        a = asarr(a)
        return _filled(a.shape if shape is None else shape,
                       a._ld if dtype is None else dtype, v)
    return f


HANDLERS['empty_like'] = _like(UNDEF)
HANDLERS['zeros_like'] = _like(0)
HANDLERS['ones_like'] = _like(1)


@handles('full_like')
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    r = _filled(a.shape if shape is None else shape,
                a._ld if dtype is None else dtype, 0)
    r[...] = fill_value
    return r


@handles('array')
def array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    if dtype is not None and np.dtype(dtype).fields is not None and \
            isinstance(obj, list):
        ld = np.dtype(dtype)
        a = _filled(len(obj), ld, UNDEF)
        for i, v in enumerate(obj):
            a[i] = v
        return a
    a = asarr(obj, dtype)
    if a is obj and copy is not False and copy is not None: a = a.copy()
    elif a is obj and copy is True: a = a.copy()
    while a.ndim < ndmin: a = a[None]
    if isinstance(obj, list) and len(obj) == 0: a._seq = True
    return a


@handles('asarray', 'asanyarray', 'ascontiguousarray', 'require')
def asarray(obj, dtype=None, *a, **kw):
    return asarr(obj, dtype)


@handles('copy')
def copy(a, *args, **kw):
    return asarr(a).copy()


@handles('arange')
def arange(*args, **kw):
    dtype = kw.pop('dtype', None)
    args = [pynum(a) for a in args]
    start, step = 0, 1
    if 'start' in kw: start = kw['start']
    if len(args) == 1: stop = args[0]
    elif len(args) == 2: start, stop = args
    elif len(args) >= 3:
        start, stop, step = args[:3]
        if len(args) > 3: dtype = args[3]
    else: stop = kw['stop']
    step = kw.get('step', step)
    if not any(is_sym(x) for x in (start, stop, step)):
        return from_native(np.arange(start, stop, step, dtype=dtype))
    if is_sym(step): raise SymUnsupported('symbolic step')
    n = stop - start
    q = -((-n) // step)
    if isinstance(q, SymNum): q = trunc(q).__index__() \
        if q.kind == 'r' else q.__index__()
    q = int(q)
    r = asarr([start + i * step for i in range(max(q, 0))])
    if len(r) == 0: r = wrap(np.empty(0, dtype=object), I8)
    return r if dtype is None else sarray.astype(r, np.dtype(dtype))


@handles('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = num.__index__()
    div = (num - 1) if endpoint else num
    step = (stop - start) * 1. / div if div else 0.
    r = asarr([start + step * i for i in range(num)], F8)
    return (r, step) if retstep else r


@handles('logspace')
def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    y = linspace(start, stop, num, endpoint)
    return asarr([core.power(base, v) for v in plain(y).flat], F8)


@handles('geomspace')
def geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    y = linspace(core.log(start, '10'), core.log(stop, '10'), num, endpoint)
    r = [core.power(10., v) for v in plain(y).flat]
    if num: r[0] = start
    if num > 1 and endpoint: r[-1] = stop
    return asarr(r, F8)


@handles('histogram_bin_edges')
def histogram_bin_edges(a, bins=10, range=None, weights=None):
    a = asarr(a).reshape(-1)
    if isinstance(bins, str): raise SymUnsupported('automatic bins')
    if np.ndim(bins) == 0 and not isinstance(bins, SA):
        n = bins.__index__()
        if n < 1:
            raise ValueError('`bins` must be positive, when an integer')
        if range is not None:
            lo, hi = range
            if bool(lo > hi):
                raise ValueError('max must be larger than min in range '
                                 'parameter.')
        elif len(a) == 0: lo, hi = 0., 1.
        else: lo, hi = a.min(), a.max()
        if bool(lo == hi): lo, hi = lo - 0.5, hi + 0.5
        return linspace(lo, hi, n + 1)
    e = asarr(bins)
    if e.ndim != 1:
        raise ValueError('`bins` must be 1d, when an array')
    for k in builtins.range(1, len(e)):
        if bool(e[k - 1] > e[k]):
            raise ValueError('`bins` must increase monotonically, when an '
                             'array')
    return e


@handles('histogram')
def histogram(a, bins=10, range=None, density=None, weights=None):
    e = histogram_bin_edges(a, bins, range)
    a = asarr(a).reshape(-1)
    w = [1] * len(a) if weights is None else list(asarr(weights).reshape(-1))
    n = [0] * (len(e) - 1)
    for x, v in zip(a, w):
        if not bool(x >= e[0]) or not bool(x <= e[-1]): continue
        k = 0
        while k < len(n) - 1 and bool(x >= e[k + 1]): k += 1
        n[k] = n[k] + v
    if not density: return asarr(n), e
    tot = sum(n)
    r = []
    for k, c in enumerate(n):
        d = (e[k + 1] - e[k]) * tot
        if bool(d == 0):
            raise SymUnsupported('density of an empty bin')
        r.append(to_real(c) / d)
    return asarr(r, F8), e


# ---- joining
@handles('concatenate', 'concat')
def concatenate(arrs, axis=0, out=None, dtype=None, **kw):
    arrs = [asarr(a) for a in _seq(arrs)]
    if not arrs: raise ValueError("need at least one array to concatenate")
    if axis is None:
        arrs, axis = [a.reshape(-1) for a in arrs], 0
    if any(a.ndim == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ld = common_ld([a._ld for a in arrs]) if dtype is None else np.dtype(dtype)
    if ld.fields is not None:
        return wrap(np.concatenate([plain(a) for a in arrs], axis=axis), ld)
    return wrap(np.concatenate([plain(sarray.astype(a, ld)) for a in arrs],
                               axis=axis), ld)


def _seq(x):
    if isinstance(x, SA): return [x[i] for i in range(len(x))]
    if hasattr(x, '__next__'):
        raise TypeError('arrays to stack must be passed as a "sequence" type '
                        'such as list or tuple.')
    return list(x)


@handles('hstack')
def hstack(tup, **kw):
    a = [asarr(x) for x in _seq(tup)]
    a = [x.reshape(1) if x.ndim == 0 else x for x in a]
    return concatenate(a, 0 if a and a[0].ndim == 1 else 1)


@handles('vstack', 'row_stack')
def vstack(tup, **kw):
    return concatenate([_al2(asarr(x)) for x in _seq(tup)], 0)


def _al2(x):
    if x.ndim == 0: return x.reshape(1, 1)
    if x.ndim == 1: return x[None, :]
    return x


@handles('dstack')
def dstack(tup):
    out = []
    for x in _seq(tup):
        x = _al2(asarr(x))
        out.append(x[:, :, None] if x.ndim == 2 else x)
    return concatenate(out, 2)


@handles('column_stack')
def column_stack(tup):
    out = []
    for x in _seq(tup):
        x = asarr(x)
        out.append(x.reshape(-1, 1) if x.ndim < 2 else x)
    return concatenate(out, 1)


@handles('stack')
def stack(arrs, axis=0, **kw):
    arrs = [asarr(a) for a in _seq(arrs)]
    if len({a.shape for a in arrs}) > 1:
        raise ValueError("all input arrays must have the same shape")
    return concatenate([np.expand_dims(plain(a), axis).view(SA)
        if False else wrap(np.expand_dims(plain(a), axis), a._ld)
        for a in arrs], axis)


@handles('append')
def append(arr, values, axis=None):
    arr, values = asarr(arr), asarr(values)
    if axis is None:
        return concatenate([arr.reshape(-1), values.reshape(-1)])
    return concatenate([arr, values], axis)


@handles('insert')
def insert(arr, obj, values, axis=None):
    a = asarr(arr)
    v = asarr(values)
    ld = a._ld
    return wrap(np.insert(plain(a), norm_key(obj), plain(sarray.astype(v, ld)),
                          axis=axis), ld)


@handles('delete')
def delete(arr, obj, axis=None):
    a = asarr(arr)
    return wrap(np.delete(plain(a), norm_key(obj), axis=axis), a._ld)


# ---- reductions and order (as methods)
def _meth(name):
    def f(a, *args, **kw):
        return getattr(asarr(a), name)(*args, **kw)
    return f


for _n in ('sum prod any all min max mean var std cumsum argmin argmax '
           'argsort nonzero round clip take repeat '
           'searchsorted ptp dot').split():
    HANDLERS[_n] = _meth(_n)
HANDLERS['amin'] = HANDLERS['min']
HANDLERS['amax'] = HANDLERS['max']
HANDLERS['around'] = HANDLERS['round']
HANDLERS['dot'] = sarray.dot
HANDLERS['matmul'] = sarray.matmul
HANDLERS['inner'] = lambda a, b: (asarr(a) * asarr(b)).sum(axis=-1) \
    if asarr(b).ndim == 1 else sarray.dot(a, asarr(b).T)
HANDLERS['vdot'] = lambda a, b: (asarr(a).reshape(-1) * asarr(b).reshape(-1)).sum()
HANDLERS['outer'] = lambda a, b, out=None: \
    asarr(a).reshape(-1, 1) * asarr(b).reshape(1, -1)
HANDLERS['linalg.norm'] = sarray.norm
HANDLERS['linalg.solve'] = sarray.solve
HANDLERS['linalg.det'] = sarray.det
HANDLERS['lexsort'] = sarray.lexsort


@handles('linalg.inv')
def inv(a):
    a = asarr(a)
    return sarray.solve(a, from_native(np.eye(a.shape[0])))


@handles('argsort')
def _argsort(a, axis=-1, kind=None, order=None, **kw):
    return sarray.argsort(a, axis)


@handles('sort')
def _sort(a, axis=-1, kind=None, order=None, **kw):
    return sarray.sort(a, axis)


@handles('take_along_axis')
def _taa(arr, indices, axis=-1):
    return sarray.take_along_axis(arr, indices, axis)


@handles('put_along_axis')
def _paa(arr, indices, values, axis):
    np.put_along_axis(plain(arr), norm_key(asarr(indices)),
                      plain(sarray.astype(asarr(values), arr._ld)), axis)


@handles('compress')
def _compress(c, a, axis=None, out=None):
    return asarr(a).compress(c, axis)


@handles('extract')
def _extract(c, a):
    return asarr(a).reshape(-1)[asarr(c, B1).reshape(-1)]


@handles('where')
def where(c, *xy):
    c = asarr(c)
    if not xy: return c.nonzero()
    x, y = xy
    px, py = asarr(x), asarr(y)
    lx = x if isinstance(x, (bool, int, float)) else px
    ly = y if isinstance(y, (bool, int, float)) else py
    ts = [v._ld if isinstance(v, SA) else v for v in (lx, ly)]
    if not any(isinstance(t, np.dtype) for t in ts):
        ts = [px._ld, py._ld]
    ld = np.result_type(*ts)
    bc = np.broadcast_arrays(plain(c), plain(px), plain(py))
    res = np.empty(bc[0].shape, dtype=object)
    rf = res.reshape(-1) if res.ndim else res.reshape(1)
    for i, (k, a, b) in enumerate(zip(*[v.flat for v in bc])):
        rf[i] = sarray.cast(a if bool(k) else b, ld)
    return wrap(res, ld)


@handles('select')
def select(condlist, choicelist, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


@handles('flatnonzero')
def flatnonzero(a):
    return asarr(a).reshape(-1).nonzero()[0]


@handles('argwhere')
def argwhere(a):
    return stack(asarr(a).nonzero(), axis=1)


@handles('count_nonzero')
def count_nonzero(a, axis=None, keepdims=False):
    return sarray.astype(asarr(a), B1).sum(axis=axis, keepdims=keepdims)


@handles('unique')
def unique(ar, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **kw):
    a = asarr(ar)
    if axis is None:
        a = a.reshape(-1)
        rows = [[v] for v in plain(a)]
    else:
        if axis != 0: raise SymUnsupported('unique along axis %s' % axis)
        rows = [list(plain(a)[i].reshape(-1)) for i in range(a.shape[0])]
    def less(i, j):
        for x, y in zip(rows[i], rows[j]):
            if sarray.lt(x, y): return True
            if sarray.lt(y, x): return False
        return False
    perm = sarray.sort_perm(len(rows), less)
    firsts, inv, counts = [], {}, []
    for k, i in enumerate(perm):
        if k == 0 or less(perm[k - 1], i):
            firsts.append(i)
            counts.append(0)
        inv[i] = len(firsts) - 1
        counts[-1] += 1
    ia = lambda v: wrap(_obj(v), I8)
    out = [a[ia(firsts)] if len(rows) else a.copy()]
    if return_index: out.append(ia(firsts))
    if return_inverse: out.append(ia([inv[i] for i in range(len(rows))]))
    if return_counts: out.append(ia(counts))
    return out[0] if len(out) == 1 else tuple(out)


def _obj(v):
    r = np.empty(len(v), dtype=object)
    for i, x in enumerate(v): r[i] = x
    return r


HANDLERS['unique_values'] = unique


@handles('isin', 'in1d')
def isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    a = asarr(element)
    t = list(plain(asarr(test_elements)).flat)
    res = np.empty(a.shape, dtype=object)
    rf = res.reshape(-1) if res.ndim else res.reshape(1)
    for i, v in enumerate(plain(a).flat):
        c = b_any([v == x for x in t])
        rf[i] = core.b_not(c) if invert else c
    if res.ndim == 0: return el(res[()], B1)
    return wrap(res, B1)


@handles('intersect1d')
def intersect1d(ar1, ar2, assume_unique=False, return_indices=False):
    a, b = asarr(ar1).reshape(-1), asarr(ar2).reshape(-1)
    ua, ia = unique(a, return_index=True)
    pb = list(plain(b))
    vals, i1, i2 = [], [], []
    for v, i in zip(plain(ua), plain(ia)):
        for j, w in enumerate(pb):
            if bool(v == w):
                vals.append(v); i1.append(i); i2.append(j)
                break
    r = wrap(_obj(vals), common_ld([a._ld, b._ld]))
    if return_indices:
        return r, wrap(_obj(i1), I8), wrap(_obj(i2), I8)
    return r


@handles('setdiff1d')
def setdiff1d(ar1, ar2, assume_unique=False):
    u = unique(ar1)
    return u[isin(u, ar2, invert=True)]


@handles('union1d')
def union1d(a, b):
    return unique(concatenate([asarr(a).reshape(-1), asarr(b).reshape(-1)]))


@handles('diff')
def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = asarr(a)
    if prepend is not np._NoValue or append is not np._NoValue:
        parts = []
        for p in (prepend, None, append):
            if p is None: parts.append(a)
            elif p is not np._NoValue:
                p = asarr(p)
                if p.ndim == 0:
                    sh = list(a.shape); sh[axis] = 1
                    p = wrap(np.broadcast_to(plain(p), sh), p._ld)
                parts.append(p)
        a = concatenate(parts, axis)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(s1)] != a[tuple(s2)] if a._ld.kind == 'b' else \
            a[tuple(s1)] - a[tuple(s2)]
    return a


@handles('convolve')
def convolve(a, v, mode='full'):
    a, v = asarr(a), asarr(v)
    if len(v) > len(a): a, v = v, a
    n, m = len(a), len(v)
    ca, cv = [el(x, a._ld) for x in plain(a)], [el(x, v._ld) for x in plain(v)]
    fullr = []
    for k in range(n + m - 1):
        s = None
        for j in range(m):
            if 0 <= k - j < n:
                t = ca[k - j] * cv[j]
                s = t if s is None else s + t
        fullr.append(s)
    if mode == 'valid': fullr = fullr[m - 1:n]
    elif mode == 'same':
        st = (m - 1) // 2
        fullr = fullr[st:st + n]
    return asarr(fullr, common_ld([a._ld, v._ld]))


@handles('correlate')
def correlate(a, v, mode='valid'):
    return convolve(a, asarr(v)[::-1], mode)


@handles('digitize')
def digitize(x, bins, right=False):
    b = asarr(bins)
    return sarray.searchsorted(b, x, 'left' if right else 'right')


@handles('average')
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarr(a)
    if weights is None: return a.mean(axis=axis, keepdims=keepdims)
    w = asarr(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh) * np.ones(a.shape)
    s = w.sum(axis=axis, keepdims=keepdims)
    return (a * w).sum(axis=axis, keepdims=keepdims) / s


@handles('array_equal', 'array_equiv')
def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape: return False
    return (a == b).all()


@handles('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    b = asarr(b)
    return abs(asarr(a) - b) <= atol + rtol * abs(b)


@handles('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return isclose(a, b, rtol, atol).all()


@handles('einsum')
def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):       # operands and lists of axes
        al = 'abcdefghijklmnopqrstuvwxyz'
        sub = lambda l: ''.join('...' if x is Ellipsis else al[x] for x in l)
        every = (spec,) + ops
        out = None
        if len(every) % 2: out, every = every[-1], every[:-1]
        spec = ','.join(sub(l) for l in every[1::2])
        if out is not None: spec += '->' + sub(out)
        ops = every[::2]
    spec = spec.replace(' ', '')
    if '...' in spec:
        lhs, arrow, out = spec.partition('->')
        free = [c for c in 'ZYXWVUTSRQPO' if c not in spec]
        ins = lhs.split(',')
        nds = [asarr(o).ndim - len(s.replace('...', ''))
               for s, o in zip(ins, ops) if '...' in s]
        k = max(nds)
        if any(n != k for n in nds):
            raise SymUnsupported('einsum with unequal ellipses')
        ell = ''.join(free[:k])
        if not arrow:
            ls = ''.join(s.replace('...', '') for s in ins)
            out = '...' + ''.join(sorted(c for c in set(ls)
                                         if ls.count(c) == 1))
        spec = lhs.replace('...', ell) + '->' + out.replace('...', ell)
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        letters = ''.join(ins)
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ops = [asarr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape): dims[c] = d
    rest = [c for c in dims if c not in out]
    ld = common_ld([o._ld for o in ops])
    res = np.empty([dims[c] for c in out], dtype=object)
    for ix in np.ndindex(*[dims[c] for c in out]):
        env = dict(zip(out, ix))
        tot = sarray.cast(0, ld)
        for jx in np.ndindex(*[dims[c] for c in rest]):
            env.update(zip(rest, jx))
            t = None
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] for c in s)]
                t = v if t is None else t * v
            tot = tot + t
        res[ix] = pynum(tot)
    return wrap(res, ld) if res.ndim else el(res[()], ld)


@handles('cross')
def cross(a, b, axis=-1, **kw):
    a, b = asarr(a), asarr(b)
    return stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                  a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                  a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


@handles('trace')
def trace(a, *args, **kw):
    return dispatch(np.diagonal, (a,), {}).sum(axis=-1)


@handles('ix_')
def ix_(*args):
    out = []
    nd = len(args)
    for k, a in enumerate(args):
        a = asarr(a)
        if a.size == 0 and a._ld.kind == 'f':
            a = sarray.astype(a, I8)
        if a._ld.kind == 'b': a = a.nonzero()[0]
        out.append(a.reshape((1,) * k + (a.size,) + (1,) * (nd - k - 1)))
    return tuple(out)


@handles('unravel_index')
def unravel_index(ix, shape, order='C'):
    return wrap_out(np.unravel_index(norm_key(asarr(ix)), shape))


@handles('bincount')
def bincount(x, weights=None, minlength=0):
    ix = norm_key(asarr(x))
    n = max(int(ix.max()) + 1 if len(ix) else 0, minlength)
    r = zeros(n, float if weights is not None else int)
    w = [1] * len(ix) if weights is None else list(asarr(weights))
    for i, v in zip(ix, w):
        r[int(i)] = r[int(i)] + v
    return r


@handles('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(x)
    r = a.copy() if copy else a
    p = plain(r)
    for ix in np.ndindex(p.shape):
        v = p[ix]
        if isinstance(v, Undef): UNDEF._cmp(0)
        if isinstance(v, float) and not math.isfinite(v):
            p[ix] = nan if math.isnan(v) else (
                (1.7976931348623157e308 if posinf is None else posinf)
                if v > 0 else
                (-1.7976931348623157e308 if neginf is None else neginf))
    return r if r.ndim else el(p[()], r._ld)


def _nanred(name, skipval):
    def f(a, axis=None, keepdims=False, **kw):
        a = asarr(a)
        ok = np.array([not (isinstance(v, float) and math.isnan(v))
                       for v in plain(a).flat], dtype=bool).reshape(a.shape)
        return getattr(a, name)(axis=axis, keepdims=keepdims, where=ok,
            **({} if skipval is None else dict(initial=skipval)))
    return f


HANDLERS['nansum'] = _nanred('sum', None)
HANDLERS['nanmin'] = _nanred('min', math.inf)
HANDLERS['nanmax'] = _nanred('max', -math.inf)


@handles('shape')
def _shp(a): return asarr(a).shape
@handles('ndim')
def _ndim(a): return asarr(a).ndim
@handles('size')
def _size(a, axis=None):
    return asarr(a).size if axis is None else asarr(a).shape[axis]


@handles('copyto')
def copyto(dst, src, casting='same_kind', where=True):
    if where is True: dst[...] = src
    else:
        dst[...] = HANDLERS['where'](where, src, dst)


@handles('putmask')
def putmask(a, mask, values):
    v = asarr(values)
    if v.ndim == 0: a[asarr(mask, B1)] = values
    else: raise SymUnsupported('putmask')


@handles('place')
def place(arr, mask, vals):
    arr[asarr(mask, B1)] = vals


@handles('fill_diagonal')
def fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)): a[(i,) * a.ndim] = val


@handles('may_share_memory', 'shares_memory')
def shares(a, b, *args):
    return np.shares_memory(plain(a), plain(b))


@handles('iscomplexobj')
def _icx(x): return False


@handles('isscalar')
def _isscalar(x):
    return isinstance(x, (SymNum, SymB)) or np.isscalar(x)


@handles('result_type', 'promote_types')
def _rt(*args):
    return np.result_type(*[a._ld if isinstance(a, SA) else
                            (ld_scalar(a) if is_sym(a) else a) for a in args])


@handles('can_cast')
def _cc(a, b, casting='safe'):
    return np.can_cast(a._ld if isinstance(a, SA) else a, b, casting)


@handles('vectorize')
def _vectorize(*a, **k):
    if k.get('signature') is not None:
        raise SymUnsupported('vectorize with a signature')
    def run(f):
        def g(*xs, **kw):
            xs = [asarr(x) for x in xs]
            cells = np.broadcast_arrays(*[plain(x) for x in xs]) \
                if xs else []
            shape = cells[0].shape
            out = [pynum(f(*[el(c[ix], x._ld) for c, x in zip(cells, xs)],
                           **kw)) for ix in np.ndindex(*shape)]
            if out and isinstance(out[0], tuple):
                return tuple(array([o[j] for o in out]).reshape(shape)
                             for j in range(len(out[0])))
            ot = k.get('otypes')
            if ot is not None: ot = ot[0] if len(ot) else None
            return array(out, dtype=ot).reshape(shape)
        return g
    return run(a[0]) if a else run if 'pyfunc' not in k else run(k['pyfunc'])


@handles('frompyfunc')
def _frompyfunc(f, nin, nout, **kw):
    g = _vectorize(f)
    def h(*xs):
        r = g(*xs)
        return r if isinstance(r, tuple) or not r.ndim == 0 else r._one()
    return h


for _n in ('apply_along_axis', 'apply_over_axes', 'piecewise', 'fromiter',
           'fromfunction', 'save', 'savez'):
    pass


@handles('fromiter')
def fromiter(it, dtype, count=-1, **kw):
    return asarr(list(it), dtype) if True else None


@handles('apply_along_axis')
def apply_along_axis(f, axis, arr, *args, **kw):
    a = np.moveaxis(plain(asarr(arr)), axis, -1)
    ld = asarr(arr)._ld
    parts = {}
    for ix in np.ndindex(a.shape[:-1]):
        parts[ix] = asarr(f(wrap(a[ix], ld), *args, **kw))
    first = next(iter(parts.values()))
    res = np.empty(a.shape[:-1] + first.shape, dtype=object)
    for ix, v in parts.items():
        res[ix] = plain(v) if v.ndim else plain(v)[()]
    if first.ndim: res = np.moveaxis(res, -1, axis)
    return wrap(res, first._ld)


class _RClass(object):
    def __init__(self, col):
        self.col = col
    def __getitem__(self, key):
        if not isinstance(key, tuple): key = (key,)
        parts = []
        axis = -1 if self.col else 0
        for k in key:
            if isinstance(k, str):
                raise SymUnsupported('np.r_ directives')
            if isinstance(k, slice):
                start = 0 if k.start is None else k.start
                step = 1 if k.step is None else k.step
                if isinstance(step, complex):
                    k = linspace(start, k.stop, int(abs(step)))
                else:
                    k = arange(start, k.stop, step)
            scalar = not has_seq(k)
            a = asarr(k)
            if self.col:
                a = a.reshape(-1, 1) if a.ndim < 2 else a
            elif a.ndim == 0: a = a.reshape(1)
            parts.append((a, scalar, k))
        arrs = [a for a, s, _ in parts if not s]
        if arrs and len(arrs) < len(parts):
            # python scalars are weak
            ld = np.result_type(*([a._ld for a in arrs] + [
                pynum(k) if isinstance(k, (bool, int, float)) and
                not isinstance(k, np.generic) else a._ld
                for a, s, k in parts if s]))
            return concatenate([sarray.astype(a, ld) for a, _, _ in parts], axis)
        return concatenate([a for a, _, _ in parts], axis)
    def __len__(self): return 0


class ModProxy(types.ModuleType):
    """A numpy (sub)module whose functions understand symbolic arrays."""
    def __init__(self, real, extra=None):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_extra'] = extra or {}
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        if name in self._extra: return self._extra[name]
        if name in self._cache: return self._cache[name]
        v = getattr(self._real, name)
        if isinstance(v, types.ModuleType):
            r = ModProxy(v)
        elif isinstance(v, np.ufunc):
            r = UfuncProxy(v)
        elif isinstance(v, type) or not callable(v):
            r = v
        else:
            r = _fn(v)
        self._cache[name] = r
        return r


def _fn(f):
    def call(*args, **kw):
        return dispatch(f, args, kw)
    call.__name__ = getattr(f, '__name__', 'numpy function')
    call.__sx_real__ = f
    return call


class UfuncProxy(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
    def __call__(self, *a, **k):
        return dispatch(self.u, a, k)
    def reduce(self, *a, **k):
        return sarray.array_ufunc(self.u, 'reduce', *a, **k)
    def accumulate(self, *a, **k):
        return sarray.array_ufunc(self.u, 'accumulate', *a, **k)
    def outer(self, *a, **k):
        return sarray.array_ufunc(self.u, 'outer', *a, **k)
    def at(self, *a, **k):
        return sarray.array_ufunc(self.u, 'at', *a, **k)
    def __getattr__(self, n):
        return getattr(self.u, n)


def make_np(extra):
    d = dict(r_=_RClass(False), c_=_RClass(True), vectorize=_vectorize)
    d.update(extra)
    return ModProxy(np, d)


# Calls of numpy types (used by the call hook)
def np_type_call(t, args, kw):
    if not args: return t()
    x = args[0]
    if not contains_sym(x): return t(*args, **kw)
    ld = np.dtype(t)
    if isinstance(x, SA) and x.ndim or isinstance(x, (list, tuple)):
        return asarr(x, ld)
    if isinstance(x, SA): x = x._one()
    return el(sarray.cast(pynum(x), ld), ld)
