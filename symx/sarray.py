"""
Arrays of symbolic values: an ndarray subclass holding Python objects, with a
logical dtype. Views, reshapes, broadcasting and indexing are numpy's own;
arithmetic, comparisons, reductions and sorting are done cell by cell on
symbolic values.
"""
import math, itertools
import numpy as np
from . import core
from .core import (SymNum, SymB, Undef, UNDEF, UndefUse, SymUnsupported,
                   b_and, b_or, b_not, b_all, b_any, to_real, trunc, pynum)

F8, I8, B1 = np.dtype('f8'), np.dtype('i8'), np.dtype('?')
OBJ = np.dtype(object)


def ld_of(t):
    """Logical dtype of a dtype-like thing."""
    if t is None: return F8
    return np.dtype(t)


def storage(ld):
    if ld.fields is None and ld.subdtype is None:
        return OBJ
    if ld.subdtype is not None:
        base, shape = ld.subdtype
        return np.dtype((storage(base), shape))
    return np.dtype([(n, storage(ld.fields[n][0].base),
                      ld.fields[n][0].shape) for n in ld.names])


def is_sym(v):
    return isinstance(v, (SymNum, SymB, Undef))


def cast(v, ld):
    """A value converted to the logical dtype."""
    if isinstance(v, Undef): return v
    k = ld.kind
    if k == 'f':
        if isinstance(v, float): return v
        if isinstance(v, SymNum): return to_real(v)
        if isinstance(v, SymB): return float(v._num())
        if isinstance(v, (str, bytes)):
            from . import text
            return text.parse_float(v)
        if v is None: return float('nan')
        return float(v)
    if k in 'iu':
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, (SymNum, SymB)): return trunc(v)
        if isinstance(v, (str, bytes)):
            from . import text
            return text.parse_int(v)
        if isinstance(v, float) and not math.isfinite(v):
            return -2**63
        return int(v)
    if k == 'b':
        if isinstance(v, (bool, SymB)): return v
        if isinstance(v, SymNum): return v != 0
        return bool(v)
    if k == 'U':
        return v if isinstance(v, str) else str(v)
    if k == 'S':
        return v if isinstance(v, (bytes,)) else str(v).encode()
    return v


def el(v, ld):
    """What indexing gives for a cell: symbolic value or numpy scalar."""
    if isinstance(v, (SymNum, SymB, Undef)): return v
    k = ld.kind
    if k == 'f': return np.float64(v)
    if k in 'iu': return np.int64(v)
    if k == 'b': return np.bool_(v)
    if k == 'U': return np.str_(v)
    return v


def plain(a):
    """The underlying plain ndarray (of objects)."""
    return a.view(np.ndarray)


def wrap(a, ld):
    r = np.asarray(a).view(SA)
    r._ld = ld
    return r


def mk0d(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return wrap(a, ld_scalar(v))


def ld_scalar(v):
    if isinstance(v, SymNum): return F8 if v.kind == 'r' else I8
    if isinstance(v, (SymB, bool)): return B1
    if isinstance(v, Undef): return F8
    if isinstance(v, int): return I8
    if isinstance(v, float): return F8
    if hasattr(v, 'dtype'): return v.dtype
    if isinstance(v, str): return np.dtype('U%d' % max(1, len(v)))
    if isinstance(v, bytes): return np.dtype('S%d' % max(1, len(v)))
    return OBJ


def from_native(a):
    """An SA with the contents of a native ndarray."""
    if isinstance(a, SA): return a
    ld = a.dtype
    if ld.fields is not None:
        r = np.empty(a.shape, dtype=storage(ld))
        for n in ld.names:
            r[n] = plain(from_native(np.asarray(a[n])))
        return wrap(r, ld)
    r = np.empty(a.shape, dtype=object)
    if a.size:
        r[...] = a.astype(object)
    return wrap(r, ld)


def common_ld(lds):
    lds = list(lds)
    if not lds: return F8
    if all(l == lds[0] for l in lds): return lds[0]
    try:
        return np.result_type(*lds)
    except TypeError:
        return OBJ


def has_seq(x):
    return isinstance(x, (list, tuple, range)) or getattr(
        x, '_sx_range', False) or (
        isinstance(x, np.ndarray) and x.ndim > 0)


def asarr(x, dtype=None):
    """SA from anything numpy would accept."""
    if isinstance(x, SA):
        a = x
    elif isinstance(x, np.ndarray):
        a = from_native(x)
    elif getattr(x, '_sx_range', False):
        a = _from_seq(list(x))
    elif isinstance(x, (list, tuple, range)):
        a = _from_seq(x)
    elif isinstance(x, (set, dict, frozenset)) or hasattr(x, '__next__'):
        raise SymUnsupported('array from %s' % type(x).__name__)
    elif hasattr(x, '__array__') and not isinstance(
            x, (np.generic, SymNum, SymB)):
        a = from_native(np.asarray(x))
    elif isinstance(x, np.void):
        a = from_native(np.asarray(x)) if x.dtype.fields is None or all(
            x.dtype.fields[n][0].base != OBJ for n in x.dtype.names) else \
            wrap(np.asarray(x), x.dtype)
    elif hasattr(x, '__len__') and hasattr(x, '__getitem__') and \
            not isinstance(x, (str, bytes, SymNum)):
        a = _from_seq([x[i] for i in range(len(x))])
    else:
        v = pynum(x)
        a = np.empty((), dtype=object)
        a[()] = v
        a = wrap(a, ld_scalar(x if isinstance(x, np.generic) else v))
    if dtype is not None:
        ld = np.dtype(dtype)
        if ld != a._ld:
            a = astype(a, ld)
    return a


def _from_seq(x):
    x = list(x)
    if len(x) == 0:
        return wrap(np.empty((0,), dtype=object), F8)
    parts = [asarr(v) for v in x]
    shp = parts[0].shape
    if any(p.shape != shp for p in parts):
        raise ValueError("setting an array element with a sequence. The "
            "requested array has an inhomogeneous shape")
    if parts[0]._ld.fields is not None:
        r = np.empty((len(parts),) + shp, dtype=storage(parts[0]._ld))
        for i, p in enumerate(parts):
            r[i] = plain(p)
        return wrap(r, parts[0]._ld)
    ld = common_ld([p._ld for p in parts])
    r = np.empty((len(parts),) + shp, dtype=object)
    for i, p in enumerate(parts):
        if p.ndim == 0:
            r[i] = cast(plain(p)[()], ld)
        else:
            r[i] = plain(astype(p, ld))
    return wrap(r, ld)


def astype(a, ld):
    ld = np.dtype(ld)
    if a._ld.fields is not None or ld.fields is not None:
        if a._ld.fields is None:
            raise SymUnsupported('cast to a structured dtype')
        if ld.fields is None:
            raise TypeError("Cannot cast array data to a scalar dtype")
        r = np.empty(a.shape, dtype=storage(ld))
        for n, m in zip(ld.names, a._ld.names):
            r[n] = plain(astype(a[m], ld.fields[n][0].base))
        return wrap(r, ld)
    src = plain(a)
    r = np.empty(src.shape, dtype=object)
    rf = r.reshape(-1) if r.ndim else r.reshape(1)
    for i, v in enumerate(src.flat):
        rf[i] = cast(v, ld)
    return wrap(r, ld)


def concrete(a):
    if isinstance(a, SA):
        if a._ld.fields is not None:
            return all(concrete(a[n]) for n in a._ld.names)
        return not any(is_sym(v) for v in plain(a).flat)
    return True


def native(a):
    """A native array of a fully concrete SA."""
    if not isinstance(a, SA): return a
    if a._ld.fields is not None:
        r = np.empty(a.shape, dtype=a._ld)
        for n in a._ld.names:
            r[n] = native(a[n])
        return r
    return np.array(plain(a).tolist() if a.ndim else plain(a)[()],
                    dtype=a._ld).reshape(a.shape)


def obj_like(shape):
    return np.empty(shape, dtype=object)


# --------------------------------------------------------------------------
# Indexing
# --------------------------------------------------------------------------
def _ix1(k):
    if isinstance(k, SA):
        if k._ld.kind == 'b':
            out = np.empty(k.shape, dtype=bool)
            of = out.reshape(-1)
            for i, v in enumerate(plain(k).flat):
                of[i] = bool(v)
            return out
        if k._ld.kind in 'iu':
            out = np.empty(k.shape, dtype=np.int64)
            of = out.reshape(-1)
            for i, v in enumerate(plain(k).flat):
                of[i] = v.__index__() if not isinstance(v, int) else v
            return out
        if k.size == 0 and k._ld.kind == 'f' and getattr(k, '_seq', False):
            return np.empty(k.shape, dtype=np.int64)
        if k._ld.kind == 'f':
            raise IndexError("arrays used as indices must be of integer (or "
                             "boolean) type")
        return native(k)
    if isinstance(k, SymB): return bool(k)
    if isinstance(k, SymNum):
        if k.kind != 'i':
            raise IndexError("only integers, slices (`:`), ellipsis (`...`),"
                " numpy.newaxis (`None`) and integer or boolean arrays are "
                "valid indices")
        return k.__index__()
    if isinstance(k, slice):
        return slice(_sl(k.start), _sl(k.stop), _sl(k.step))
    if isinstance(k, list):
        if len(k) == 0: return np.empty(0, dtype=np.int64)
        if all(isinstance(v, str) for v in k): return k
        return _ix1(asarr(k))
    return k


def _sl(v):
    if v is None or isinstance(v, int): return v
    return v.__index__()


def norm_key(k):
    if isinstance(k, tuple):
        return tuple(_ix1(v) for v in k)
    return _ix1(k)


class SA(np.ndarray):
    """Array of symbolic values."""
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, '_ld', None)
        if self._ld is None:
            self._ld = OBJ

    @property
    def dtype(self):
        return self._ld

    @dtype.setter
    def dtype(self, v):
        raise SymUnsupported('assignment of dtype')

    # -- indexing
    def __getitem__(self, key):
        ld = self._ld
        if isinstance(key, str):
            r = np.ndarray.__getitem__(plain(self), key)
            fld = ld.fields[key][0].base
            if isinstance(r, np.ndarray):
                if r.ndim == 0:
                    return el(r[()], fld)
                return wrap(r, fld)
            return el(r, fld)
        key = norm_key(key)
        r = np.ndarray.__getitem__(plain(self), key)
        if isinstance(r, np.void):
            rr = np.empty((), dtype=storage(ld))
            rr[()] = r
            return wrap(rr, ld)
        if isinstance(r, np.ndarray) and (r.dtype == object or
                                          r.dtype.fields is not None):
            if isinstance(key, list) and key and isinstance(key[0], str):
                ld = ld[key]
            return wrap(r, ld)
        return el(r, ld)

    def __setitem__(self, key, value):
        ld = self._ld
        if isinstance(key, str):
            wrap(np.ndarray.__getitem__(plain(self), key),
                 ld.fields[key][0].base)[...] = value
            return
        key = norm_key(key)
        if ld.fields is not None:
            if isinstance(value, SA) and value._ld.fields is not None:
                for n, m in zip(ld.names, value._ld.names):
                    self[n][key] = value[m]
            elif isinstance(value, (tuple, np.void)):
                for n, v in zip(ld.names, value):
                    self[n][key] = v
            elif isinstance(value, list):
                rows = np.empty(len(value), dtype=storage(ld))
                tmp = wrap(rows, ld)
                for i, v in enumerate(value):
                    tmp[i] = v
                self[key] = tmp
            else:
                for n in ld.names:
                    self[n][key] = value
            return
        if has_seq(value) or isinstance(value, SA):
            v = asarr(value)
            if v._ld.fields is not None:
                raise SymUnsupported('structured value into a plain array')
            pv = plain(astype(v, ld))
            if pv.ndim == 0:
                np.ndarray.__setitem__(plain(self), key, pv[()])
                return
            np.ndarray.__setitem__(plain(self), key, pv)
        else:
            if hasattr(value, '__next__') or isinstance(value, (set, dict)):
                raise TypeError("float() argument must be a string or a real"
                                " number, not '%s'" % type(value).__name__)
            c = cast(pynum(value), ld)
            o = np.empty((), dtype=object)
            o[()] = c
            ps = plain(self)
            if not isinstance(ps[key], np.ndarray):
                ps[key] = c        # numpy would store the 0-d array itself
            else:
                np.ndarray.__setitem__(ps, key, o)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(self.shape[0]))

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).reshape(-1)[0])
        if self.size == 0: return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python"
                            " scalars")
        return plain(self).reshape(-1)[0]
    def __int__(self): return int(trunc(self._one()))
    def __float__(self): return float(self._one())
    def __index__(self):
        if self.ndim or self._ld.kind not in 'iub':
            raise TypeError("only integer scalar arrays can be converted to "
                            "a scalar index")
        return self._one().__index__()
    def __repr__(self):
        return 'SA(%s, %s)' % (plain(self).tolist(), self._ld)
    __str__ = __repr__
    def __format__(self, spec):
        if self.ndim == 0:
            return format(el(self._one(), self._ld), spec)
        return object.__format__(self, spec)
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")
    def __reduce__(self):
        raise SymUnsupported('pickling a symbolic array')
    def __deepcopy__(self, memo):
        return self.copy()
    def __copy__(self):
        return self.copy()

    # -- methods
    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]] \
                if self.ndim == len(args) else self.reshape(-1)[args[0]]
        return self._one()
    def tolist(self):
        return plain(self).tolist()
    def astype(self, t, order='K', casting='unsafe', subok=True, copy=True):
        ld = np.dtype(t)
        if ld == self._ld and not copy: return self
        return astype(self, ld)
    def copy(self, order='C'):
        return wrap(np.ndarray.copy(plain(self)), self._ld)
    def view(self, *args, **kw):
        if not args and not kw:
            return np.ndarray.view(self)
        t = args[0] if args else kw.get('type', kw.get('dtype'))
        if t is np.ndarray and not kw:
            return np.ndarray.view(self, np.ndarray)
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return np.ndarray.view(self, t)
        raise SymUnsupported('view as another dtype')
    def fill(self, v):
        self[...] = v
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('add', self, axis, keepdims, initial, dtype, where, out)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('multiply', self, axis, keepdims, initial, dtype, where, out)
    def any(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_('logical_or', self, axis, keepdims, where=where, out=out)
    def all(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_('logical_and', self, axis, keepdims, where=where, out=out)
    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('minimum', self, axis, keepdims, initial, where=where, out=out)
    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('maximum', self, axis, keepdims, initial, where=where, out=out)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        s = reduce_('add', self if self._ld.kind == 'f' else astype(self, F8), axis, keepdims)
        n = self.size if axis is None else int(np.prod(
            [self.shape[a] for a in (axis if isinstance(axis, tuple) else (axis,))]))
        return s / n
    def var(self, axis=None, ddof=0, keepdims=False):
        m = self.mean(axis=axis, keepdims=True)
        return np.square(self - m).sum(axis=axis, keepdims=keepdims) / (
            (self.size if axis is None else self.shape[axis]) - ddof)
    def std(self, axis=None, ddof=0, keepdims=False):
        return np.sqrt(self.var(axis, ddof, keepdims))
    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis, keepdims=keepdims) - self.min(axis, keepdims=keepdims)
    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate_('add', self if axis is not None else self.reshape(-1), axis or 0)
    def argmin(self, axis=None, out=None, keepdims=False):
        return argext(self, axis, lambda a, b: a < b, keepdims)
    def argmax(self, axis=None, out=None, keepdims=False):
        return argext(self, axis, lambda a, b: a > b, keepdims)
    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return argsort(self, axis)
    def sort(self, axis=-1, kind=None, order=None, stable=None):
        self[...] = take_along_axis(self, argsort(self, axis), axis)
    def nonzero(self):
        return nonzero(self)
    def round(self, decimals=0, out=None):
        if concrete(self):
            return from_native(native(self).round(decimals))
        if self._ld.kind in 'iub': return self.copy()
        from . import npmore
        r = np.empty(self.shape, dtype=object)
        for ix in np.ndindex(*self.shape):
            r[ix] = npmore.round_to(plain(self)[ix], decimals)
        return wrap(r, self._ld)
    def dot(self, o):
        return dot(self, o)
    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None: r = np.maximum(r, min)
        if max is not None: r = np.minimum(r, max)
        return r
    def conj(self): return self
    conjugate = conj
    @property
    def real(self): return self
    def take(self, indices, axis=None, out=None, mode='raise'):
        a = self.reshape(-1) if axis is None else self
        ix = norm_key(asarr(indices))
        return wrap_res(np.ndarray.take(plain(a), ix, axis=axis, mode=mode), self._ld)
    def repeat(self, repeats, axis=None):
        rep = norm_key(repeats) if not isinstance(repeats, int) else repeats
        return wrap(np.ndarray.repeat(plain(self), rep, axis=axis), self._ld)
    def compress(self, condition, axis=None, out=None):
        return wrap(np.ndarray.compress(plain(self), norm_key(asarr(condition, B1)), axis=axis), self._ld)
    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side, sorter)
    def tobytes(self, *a, **k):
        raise SymUnsupported('bytes of a symbolic array')
    def put(self, indices, values, mode='raise'):
        self.reshape(-1)[asarr(indices)] = values

    # -- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npproxy
        return npproxy.dispatch(func, args, kwargs)

    def __reduce_ex__(self, p):
        raise SymUnsupported('pickling a symbolic array')


def wrap_res(r, ld):
    if isinstance(r, np.ndarray):
        return wrap(r, ld)
    return el(r, ld)


# --------------------------------------------------------------------------
# Universal functions
# --------------------------------------------------------------------------
def _minmax(a, b, lt):
    if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
    if isinstance(a, float) and math.isnan(a): return a
    if isinstance(b, float) and math.isnan(b): return b
    if isinstance(a, SymNum) and isinstance(b, SymNum):
        d = a - b
        if not isinstance(d, SymNum): return a if not lt(b, a) else b
        if a.kind == b.kind == 'r' and core.is_linear(a) and core.is_linear(b):
            return core.extreme(a, b, lt(0, 1))
    return b if bool(lt(b, a)) else a


def _bool2(f):
    def g(a, b):
        a = a if isinstance(a, (SymB, bool)) else (a != 0)
        b = b if isinstance(b, (SymB, bool)) else (b != 0)
        return f(a, b)
    return g


def _bit(f, fi):
    def g(a, b):
        if isinstance(a, (SymB, bool)) and isinstance(b, (SymB, bool)):
            return f(a, b)
        raise SymUnsupported('bit operations on symbolic integers')
    return g


def _finite(x):
    return True if isinstance(x, (SymNum, SymB)) else UNDEF._cmp(0)


def _floor(x):
    if x.kind == 'i': return x
    if x.d is not core.ONE: raise SymUnsupported('floor of a quotient')
    return to_real(core.floor_atom(x.n))


def _heaviside(*a):
    raise SymUnsupported('ufunc')


OPS = {
    'add': lambda a, b: a + b,
    'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b,
    'divide': lambda a, b: to_real(a) / b,
    'true_divide': lambda a, b: to_real(a) / b,
    'floor_divide': lambda a, b: a // b,
    'remainder': lambda a, b: a % b,
    'power': core.power,
    'float_power': lambda a, b: core.power(to_real(a), to_real(b)),
    'negative': lambda a: -a,
    'positive': lambda a: a,
    'absolute': abs,
    'fabs': abs,
    'sqrt': core.sqrt,
    'square': lambda a: a * a,
    'exp': core.exp,
    'exp2': lambda a: core.power(2., a),
    'log': core.log,
    'log10': lambda a: core.log(a, '10'),
    'log2': lambda a: core.log(a, '2'),
    'reciprocal': lambda a: 1. / a,
    'sign': core.sign,
    'floor': _floor,
    'ceil': lambda x: -_floor(-x) if isinstance(-x, SymNum) else x,
    'trunc': lambda x: to_real(trunc(x)),
    'less': lambda a, b: a < b,
    'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b,
    'not_equal': lambda a, b: a != b,
    'logical_and': _bool2(b_and),
    'logical_or': _bool2(b_or),
    'logical_xor': _bool2(lambda a, b: a ^ b),
    'logical_not': lambda a: b_not(a if isinstance(a, SymB) else a != 0),
    'bitwise_and': _bit(b_and, None),
    'bitwise_or': _bit(b_or, None),
    'bitwise_xor': _bit(lambda a, b: a ^ b, None),
    'invert': lambda a: ~a,
    'maximum': lambda a, b: _minmax(a, b, lambda x, y: x > y),
    'minimum': lambda a, b: _minmax(a, b, lambda x, y: x < y),
    'fmax': lambda a, b: _minmax(a, b, lambda x, y: x > y),
    'fmin': lambda a, b: _minmax(a, b, lambda x, y: x < y),
    'isfinite': _finite,
    'isnan': lambda x: b_not(_finite(x)),
    'isinf': lambda x: b_not(_finite(x)),
    'conjugate': lambda a: a,
    'hypot': lambda a, b: core.sqrt(a * a + b * b),
    'copysign': lambda a, b: abs(a) if bool(b >= 0) else -abs(a),
    'deg2rad': lambda a: a * (math.pi / 180),
}


def _apply(ufunc, name, vals, lds):
    """One cell."""
    if not any(is_sym(v) for v in vals):
        with np.errstate(all='ignore'):
            return pynum(ufunc(*[el(v, l) if v is not None else v
                                 for v, l in zip(vals, lds)]))
    if name in ('isfinite', 'isnan', 'isinf') and isinstance(vals[0], Undef):
        UNDEF._cmp(0)
    op = OPS.get(name)
    if op is None:
        raise SymUnsupported('ufunc %s of symbolic values' % name)
    if any(isinstance(v, Undef) for v in vals) and name in (
            'logical_and', 'logical_or', 'sqrt', 'exp', 'sign', 'floor'):
        return UNDEF
    return op(*vals)


def result_ld(ufunc, name, ins):
    """Logical dtype of a ufunc's result."""
    if name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal',
                'not_equal', 'logical_and', 'logical_or', 'logical_not',
                'logical_xor', 'isfinite', 'isnan', 'isinf', 'signbit'):
        return B1
    ts = []
    for x in ins:
        if isinstance(x, SA): ts.append(x._ld)
        elif isinstance(x, bool): ts.append(B1)
        elif isinstance(x, int): ts.append(int)
        elif isinstance(x, float): ts.append(float)
        else: ts.append(ld_scalar(x))
    try:
        if any(t == OBJ for t in ts): return OBJ
        if all(t in (int, float) for t in ts):
            ts = [np.dtype(t) for t in ts]
        return ufunc.resolve_dtypes(tuple(ts) + (None,))[-1]
    except TypeError:
        if any(isinstance(t, np.dtype) and t.kind in 'USO' for t in ts):
            return OBJ
        raise


def array_ufunc(ufunc, method, *inputs, **kw):
    name = ufunc.__name__
    if name == 'matmul':
        return matmul(*inputs)
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', 0) if len(inputs) < 2 else inputs[1]
        return reduce_(name, asarr(a), axis, kw.get('keepdims', False),
                       _noval(kw.get('initial')), kw.get('dtype'),
                       kw.get('where', True), kw.get('out'))
    if method == 'accumulate':
        return accumulate_(name, asarr(inputs[0]), kw.get('axis', 0))
    if method == 'outer':
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return array_ufunc(ufunc, '__call__',
            a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, ix = inputs[0], norm_key(inputs[1])
        shape = np.empty(a.shape)[ix].shape
        idx = np.arange(a.size).reshape(a.shape)[ix]
        flat = a.reshape(-1)
        if not np.shares_memory(plain(flat), plain(a)):
            raise SymUnsupported('ufunc.at on a non-contiguous array')
        vals = None
        if len(inputs) > 2:
            vals = np.broadcast_to(plain(asarr(inputs[2])), np.shape(idx))
            vals = list(vals.flat)
        for j, i in enumerate(np.atleast_1d(idx).flat):
            cur = el(plain(flat)[i], a._ld)
            flat[int(i)] = array_ufunc(ufunc, '__call__', cur, vals[j]) \
                if vals is not None else array_ufunc(ufunc, '__call__', cur)
        return None
    if method == 'reduceat':
        a, ix = asarr(inputs[0]), [int(i) for i in norm_key(asarr(inputs[1]))]
        ax = kw.get('axis', 0) if len(inputs) < 3 else inputs[2]
        m = wrap(np.moveaxis(plain(a), ax, 0), a._ld)
        parts = []
        for k, i in enumerate(ix):
            j = ix[k + 1] if k + 1 < len(ix) else len(m)
            parts.append(reduce_(name, m[i:j], 0) if j > i else m[i])
        from . import npproxy
        r = npproxy.stack([asarr(p) for p in parts], axis=0)
        return wrap(np.moveaxis(plain(r), 0, ax), r._ld)
    if method != '__call__':
        raise SymUnsupported('ufunc method %s' % method)
    if name == 'divmod':
        return (array_ufunc(np.floor_divide, method, *inputs),
                array_ufunc(np.remainder, method, *inputs))
    if name == 'modf':
        t = array_ufunc(np.trunc, method, *inputs)
        return asarr(inputs[0]) - t, t
    if name in ('matvec', 'vecdot', 'vecmat'):
        a, b = asarr(inputs[0]), asarr(inputs[1])
        if name == 'vecdot': return (a * b).sum(axis=-1)
        if name == 'matvec': return (a * b[..., None, :]).sum(axis=-1)
        return (a[..., :, None] * b).sum(axis=-2)

    out = kw.get('out')
    if isinstance(out, tuple):
        out = out[0]
    where = kw.get('where', True)
    ins = []
    for x in inputs:
        if isinstance(x, SA): ins.append(x)
        elif has_seq(x) or isinstance(x, (np.ndarray, np.void)):
            ins.append(asarr(x))
        else: ins.append(x)
    if any(isinstance(x, SA) and x._ld.fields is not None for x in ins):
        raise SymUnsupported('ufunc on structured arrays')
    ins = [pynum(x) if isinstance(x, np.generic) and x.dtype.kind in 'fiub'
           and False else x for x in ins]
    ld = result_ld(ufunc, name, ins)
    if kw.get('dtype') is not None:
        ld = np.dtype(kw['dtype'])
    lds = [x._ld if isinstance(x, SA) else ld_scalar(x) for x in ins]
    if not any(isinstance(x, SA) for x in ins) and out is None:
        return el(_post(_apply(ufunc, name, [pynum(x) for x in ins], lds), ld), ld)
    cells = []
    for x in ins:
        if isinstance(x, SA): cells.append(plain(x))
        else:
            c = np.empty((), dtype=object)
            c[()] = pynum(x)
            cells.append(c)
    bc = np.broadcast_arrays(*cells) if len(cells) > 1 else cells
    shape = bc[0].shape
    if out is not None:
        shape = np.broadcast_shapes(shape, out.shape)
        if not isinstance(out, SA):
            raise SymUnsupported('output to a native array')
        bc = [np.broadcast_to(b, shape) for b in bc]
    res = np.empty(shape, dtype=object)
    rf = res.reshape(-1) if res.ndim else res.reshape(1)
    wv = None
    if where is not True:
        wv = [bool(v) for v in np.broadcast_to(plain(asarr(where)), shape).flat]
    for i, vals in enumerate(zip(*[b.flat for b in bc])):
        if wv is not None and not wv[i]:
            rf[i] = UNDEF
            continue
        rf[i] = _post(_apply(ufunc, name, vals, lds), ld)
    if out is not None:
        if not np.can_cast(ld, out._ld, 'same_kind'):
            raise TypeError("Cannot cast ufunc '%s' output from %r to %r with"
                " casting rule 'same_kind'" % (name, ld, out._ld))
        tgt = plain(out)
        conv = plain(astype(wrap(res, ld), out._ld))
        if wv is not None:
            m = np.array(wv).reshape(shape)
            tgt[m] = conv[m]
        elif tgt.ndim == 0:
            tgt[()] = conv[()]
        else:
            tgt[...] = conv
        return out
    if res.ndim == 0:
        return el(res[()], ld)
    return wrap(res, ld)


def _noval(v):
    return None if v is np._NoValue else v


def _post(v, ld):
    """Keep the kind of a cell consistent with the dtype."""
    if isinstance(v, SymNum):
        if ld.kind == 'f' and v.kind == 'i': return to_real(v)
        return v
    if ld.kind == 'f' and isinstance(v, int): return float(v)
    if ld.kind in 'iu' and isinstance(v, bool): return int(v)
    if ld.kind in 'iu' and isinstance(v, SymB): return v._num()
    if ld.kind == 'f' and isinstance(v, SymB): return float(v._num())
    if ld.kind in 'iu' and isinstance(v, float) and math.isfinite(v):
        return int(v)
    return v


def _axes(a, axis):
    if axis is None: return tuple(range(a.ndim))
    if not isinstance(axis, tuple): axis = (axis,)
    out = []
    for x in axis:
        x = int(x)
        if not -a.ndim <= x < a.ndim:
            raise np.exceptions.AxisError(x, a.ndim)
        out.append(x % a.ndim)
    return tuple(out)


def reduce_(name, a, axis=None, keepdims=False, initial=None, dtype=None,
            where=True, out=None):
    a = asarr(a)
    if isinstance(out, tuple): out = out[0]
    ld = a._ld
    if ld.fields is not None: raise SymUnsupported('reduction of records')
    axes = _axes(a, axis)
    if name in ('logical_or', 'logical_and'):
        rld = B1
    elif name in ('add', 'multiply'):
        rld = I8 if ld.kind in 'iub' else ld
        if dtype is not None: rld = np.dtype(dtype)
    else:
        rld = ld
    keep = [i for i in range(a.ndim) if i not in axes]
    p = np.transpose(plain(a), keep + list(axes))
    kshape = tuple(a.shape[i] for i in keep)
    n = int(np.prod([a.shape[i] for i in axes], dtype=int))
    p = p.reshape((int(np.prod(kshape, dtype=int)), n))
    w = None
    if where is not True:
        w = np.broadcast_to(plain(asarr(where)), a.shape)
        w = np.transpose(w, keep + list(axes)).reshape(p.shape)
    ufunc = getattr(np, name)
    res = np.empty(p.shape[0], dtype=object)
    for r in range(p.shape[0]):
        vals = list(p[r]) if w is None else \
            [v for v, k in zip(p[r], w[r]) if bool(k)]
        res[r] = _reduce1(name, ufunc, vals, ld, rld, initial)
    if name in ('minimum', 'maximum') and n == 0 and initial is None and \
            (p.shape[0] > 0):
        raise ValueError("zero-size array to reduction operation %s which has"
                         " no identity" % name)
    res = res.reshape(kshape)
    if keepdims:
        res = res.reshape([1 if i in axes else a.shape[i]
                           for i in range(a.ndim)])
    if out is not None:
        out[...] = wrap(res, rld)
        return out
    if res.ndim == 0:
        return el(res[()], rld)
    return wrap(res, rld)


def _reduce1(name, ufunc, vals, ld, rld, initial):
    if name == 'logical_or':
        return _nb(b_any([_tb(v) for v in vals]))
    if name == 'logical_and':
        return _nb(b_all([_tb(v) for v in vals]))
    if initial is not None:
        vals = [pynum(initial)] + vals
    if not vals:
        if name in ('add', 'bitwise_or'): return cast(0, rld)
        if name == 'multiply': return cast(1, rld)
        raise ValueError("zero-size array to reduction operation %s which has"
                         " no identity" % name)
    if name == 'add' and ld.kind == 'b':
        # counting: fork on each
        return sum(1 if bool(v) else 0 for v in vals)
    acc = cast(vals[0], rld) if name in ('add', 'multiply') else vals[0]
    for v in vals[1:]:
        acc = _post(_apply(ufunc, name, (acc, v), (rld, ld)), rld)
    return acc


def _tb(v):
    if isinstance(v, (bool, SymB)): return v
    return v != 0


def _nb(v):
    return v if isinstance(v, SymB) else bool(v)


def accumulate_(name, a, axis=0):
    a = asarr(a)
    ufunc = getattr(np, name)
    rld = I8 if (a._ld.kind == 'b' and name == 'add') else a._ld
    p = np.moveaxis(plain(a), axis, 0)
    res = np.empty(p.shape, dtype=object)
    for i in range(p.shape[0]):
        if i == 0:
            res[0] = plain(astype(wrap(np.asarray(p[0:1]), a._ld), rld))[0]
        else:
            for ix in np.ndindex(p.shape[1:]):
                res[(i,) + ix] = _post(_apply(ufunc, name,
                    (res[(i - 1,) + ix], cast(p[(i,) + ix], rld)),
                    (rld, rld)), rld)
    return wrap(np.moveaxis(res, 0, axis), rld)


# --------------------------------------------------------------------------
# Order
# --------------------------------------------------------------------------
def _isnan(v):
    return isinstance(v, float) and math.isnan(v)


def lt(a, b):
    """a sorts strictly before b (nan last)."""
    if _isnan(a): return False
    if _isnan(b): return True
    return bool(a < b)


def sort_perm(n, less):
    """Stable order of 0..n-1 by less(i, j) (binary insertion)."""
    out = []
    for i in range(n):
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if less(i, out[mid]): hi = mid
            else: lo = mid + 1
        out.insert(lo, i)
    return out


def argsort(a, axis=-1):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    p = np.moveaxis(plain(a), axis, -1)
    res = np.empty(p.shape, dtype=object)
    for ix in np.ndindex(p.shape[:-1]):
        row = p[ix]
        perm = sort_perm(len(row), lambda i, j: lt(row[i], row[j]))
        for k, v in enumerate(perm):
            res[ix + (k,)] = v
    return wrap(np.moveaxis(res, -1, axis), I8)


def sort(a, axis=-1):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return take_along_axis(a, argsort(a, axis), axis)


def take_along_axis(a, ix, axis=-1):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    i = norm_key(asarr(ix))
    return wrap(np.take_along_axis(plain(a), i, axis), a._ld)


def lexsort(keys, axis=-1):
    k = [asarr(x) for x in keys] if not isinstance(keys, SA) else \
        [keys[i] for i in range(len(keys))]
    n = k[0].shape[0]
    cells = [plain(x) for x in reversed(k)]
    def less(i, j):
        for c in cells:
            if lt(c[i], c[j]): return True
            if lt(c[j], c[i]): return False
        return False
    return asarr(sort_perm(n, less), I8) if n else \
        wrap(np.empty(0, dtype=object), I8)


def argext(a, axis, better, keepdims=False):
    a = asarr(a)
    if axis is None:
        vals = list(plain(a).flat)
        if not vals:
            raise ValueError("attempt to get argmin of an empty sequence")
        return np.int64(_argext1(vals, better))
    p = np.moveaxis(plain(a), axis, -1)
    if p.shape[-1] == 0:
        raise ValueError("attempt to get argmin of an empty sequence")
    res = np.empty(p.shape[:-1], dtype=object)
    for ix in np.ndindex(p.shape[:-1]):
        res[ix] = _argext1(list(p[ix]), better)
    if res.ndim == 0:
        return np.int64(res[()])
    r = wrap(res, I8)
    return np.expand_dims(r, axis) if keepdims else r


def _argext1(vals, better):
    b = 0
    for i, v in enumerate(vals):
        if _isnan(v): return i
        if i and bool(better(v, vals[b])): b = i
    return b


def nonzero(a):
    a = asarr(a)
    m = np.array([bool(v) for v in plain(a).flat], dtype=bool).reshape(a.shape)
    return tuple(from_native(x) for x in np.nonzero(m))


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    if sorter is not None: a = a[sorter]
    cells = list(plain(a))
    def one(x):
        lo, hi = 0, len(cells)
        while lo < hi:
            mid = (lo + hi) // 2
            go = lt(cells[mid], x) if side == 'left' else not lt(x, cells[mid])
            if go: lo = mid + 1
            else: hi = mid
        return lo
    if has_seq(v):
        v = asarr(v)
        res = np.empty(v.shape, dtype=object)
        rf = res.reshape(-1)
        for i, x in enumerate(plain(v).flat):
            rf[i] = one(x)
        return wrap(res, I8)
    return np.int64(one(pynum(v)))


# --------------------------------------------------------------------------
# Linear algebra
# --------------------------------------------------------------------------
def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if b.ndim == 1:
        return (a * b).sum(axis=-1)
    if a.ndim == 1:
        return (a[:, None] * b).sum(axis=-2)
    r = (a.reshape(a.shape[:-1] + (1,) * (b.ndim - 1) + (a.shape[-1],)) *
         np.moveaxis(b, -2, -1)).sum(axis=-1)
    return r


def matmul(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1: return (a * b).sum()
    if b.ndim == 1: return (a * b).sum(axis=-1)
    if a.ndim == 1: return (a[:, None] * b).sum(axis=-2)
    return (a[..., :, :, None] * b[..., None, :, :]).sum(axis=-2)


def det(m):
    m = [list(r) for r in plain(asarr(m, F8))]
    return _det(m)


def _det(m):
    n = len(m)
    if n == 0: return 1.
    if n == 1: return m[0][0]
    tot = 0.
    for j in range(n):
        if not is_sym(m[0][j]) and m[0][j] == 0: continue
        sub = [r[:j] + r[j + 1:] for r in m[1:]]
        c = m[0][j] * _det(sub)
        tot = tot + c if j % 2 == 0 else tot - c
    return tot


def solve(a, b):
    """Cramer's rule; a singular system raises, as in numpy."""
    a, b = asarr(a, F8), asarr(b, F8)
    if a.ndim != 2: raise SymUnsupported('stacked linear systems')
    n = a.shape[0]
    if a.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be "
                                    "square")
    m = [list(r) for r in plain(a)]
    one = b.ndim == 1
    if n == 0: return wrap(np.empty(b.shape, dtype=object), F8)
    cols = plain(b).reshape(b.shape[0], -1)
    d = _det(m)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    res = np.empty((n, cols.shape[1]), dtype=object)
    for k in range(cols.shape[1]):
        for j in range(n):
            mj = [r[:j] + [cols[i, k]] + r[j + 1:] for i, r in enumerate(m)]
            res[j, k] = _det(mj) / d
    return wrap(res.reshape(-1) if one else res, F8)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if ord not in (None, 2):
        if ord == 1: return abs(x).sum(axis=axis, keepdims=keepdims)
        if ord == np.inf: return abs(x).max(axis=axis, keepdims=keepdims)
        raise SymUnsupported('norm of order %r' % (ord,))
    if axis is None and ord == 2 and x.ndim == 2:
        raise SymUnsupported('spectral norm')
    if x._ld.kind != 'f': x = astype(x, F8)
    return np.sqrt((x * x).sum(axis=axis, keepdims=keepdims))
