"""
Models of the libraries the code under test calls: PyTables files, the k-d
tree, text/npz/Matlab readers and configuration files. Each model is an
in-memory equivalent of the documented behaviour on symbolic values, and is
compared with the real library by the replays of every check.
"""
import ast, os, sys, io as _io, re, types, math, configparser
import numpy as np
from . import core, sarray, text, npproxy
from .core import (SymNum, SymB, UNDEF, Undef, SymUnsupported, b_and, b_or,
                   b_not, pynum)
from .sarray import SA, asarr, plain, wrap, F8, I8, B1

FILES = {}        # HDF registry: path -> Node store
NPZ = {}          # path -> dict of arrays
MAT = {}          # path -> dict


def reset():
    FILES.clear()
    NPZ.clear()
    MAT.clear()


def _abs(p):
    return os.path.abspath(os.fspath(p))


def touch(path):
    with open(path, 'wb') as f:
        f.write(b'placeholder\n')


# --------------------------------------------------------------------------
# PyTables
# --------------------------------------------------------------------------
class NoSuchNodeError(Exception):
    pass


class _Attrs(object):
    def __init__(self):
        self.__dict__['_d'] = {}
    def __setattr__(self, k, v):
        self._d[k] = _frozen(v)
    def __getattr__(self, k):
        if k in self._d: return _frozen(self._d[k])
        raise AttributeError("Attribute '%s' does not exist in node" % k)
    def __setitem__(self, k, v): setattr(self, k, v)
    def __getitem__(self, k):
        if k in self._d: return _frozen(self._d[k])
        raise KeyError(k)
    def __contains__(self, k): return k in self._d
    def __delattr__(self, k): del self._d[k]
    def _f_list(self, attrset='user'):
        return sorted(self._d)
    def get(self, k, default=None): return self._d.get(k, default)


def _frozen(v):
    return v.copy() if isinstance(v, SA) else v


class _Col(object):
    def __init__(self, table, name):
        self._t, self._n = table, name
        self.is_indexed = False
    def create_index(self, *a, **k):
        if self.is_indexed:
            raise ValueError("column already indexed")
        self.is_indexed = True
    create_csindex = reindex = create_index
    def __getitem__(self, key):
        return self._t.col(self._n)[key]
    def __len__(self): return self._t.nrows


class _Cols(object):
    def __init__(self, table):
        self._t = table
        for n in table.colnames:
            setattr(self, n, _Col(table, n))


class _Descr(object):
    def __init__(self, ld, name):
        f = ld.fields[name][0]
        self.shape = f.shape
        self.dtype = f
        self.name = self._v_name = name
        self.kind = f.base.name


def _ns_ld(ld):
    """Field dtypes as the file holds them."""
    return np.dtype([(n, ld.fields[n][0].base, ld.fields[n][0].shape)
                     for n in ld.names])


class Table(object):
    def __init__(self, file, path, ld):
        ld = _ns_ld(np.dtype(ld))
        self._ld = ld
        self._v_file = file
        self._v_pathname = path
        self.name = self._v_name = path.rsplit('/', 1)[-1]
        self.dtype = ld
        self.colnames = list(ld.names)
        self.coldescrs = {n: _Descr(ld, n) for n in ld.names}
        self.coldtypes = {n: ld.fields[n][0] for n in ld.names}
        self.attrs = self._v_attrs = _Attrs()
        self.cols = _Cols(self)
        self._data = wrap(np.empty(0, dtype=sarray.storage(ld)), ld)

    @property
    def nrows(self): return len(self._data)
    def __len__(self): return len(self._data)

    def append(self, rows):
        if self._v_file._mode == 'r':
            raise RuntimeError("the file is opened for reading")
        if isinstance(rows, SA) and rows._ld.fields is not None:
            new = sarray.astype(rows.reshape(-1), self._ld)
        elif isinstance(rows, np.ndarray) and rows.dtype.fields is not None:
            new = sarray.astype(asarr(rows).reshape(-1), self._ld)
        elif isinstance(rows, (list, tuple)):
            new = wrap(np.empty(len(rows), dtype=sarray.storage(self._ld)),
                       self._ld)
            for i, r in enumerate(rows):
                new[i] = tuple(r) if not isinstance(r, tuple) else r
        else:
            raise ValueError("rows parameter cannot be converted into a recarray object compliant with table")
        self._check_unset(new)
        self._data = wrap(np.concatenate([plain(self._data), plain(new)]),
                          self._ld)

    def _check_unset(self, a):
        pass

    def flush(self): pass
    def close(self): pass

    def _col(self, name):
        return self._data[name]

    def col(self, name):
        if name not in self.colnames:
            raise KeyError(name)
        return self._data[name].copy()

    def read(self, start=None, stop=None, step=None, field=None, out=None):
        if stop is None and start is not None and step is None:
            pass
        d = self._data[slice(start, stop, step)]
        return (d if field is None else d[field]).copy()

    def __getitem__(self, key):
        if isinstance(key, str): return self.col(key)
        r = self._data[key]
        return r.copy() if isinstance(r, SA) else r

    def __iter__(self):
        return self.iterrows()

    def iterrows(self, start=None, stop=None, step=None):
        for i in range(*slice(start, stop, step).indices(len(self._data))):
            yield _Row(self._data, i)

    def _rows(self, condition, condvars):
        user = condvars
        if user is None:
            fr = _caller()
            glob = fr.f_globals
            loc = fr.f_locals
        code = ast.parse(condition.strip(), mode='eval').body
        n = len(self._data)
        out = []
        def lookup(name, i):
            if user is not None and name in user: return user[name]
            if name in self.colnames:
                return self._data[name][i]
            if user is None:
                if name in loc: return loc[name]
                if name in glob: return glob[name]
            t = text.lookup(name)
            if t is not None: return t[0]
            raise NameError("name ``%s`` is not defined" % name)
        for i in range(n):
            v = _eval(code, lambda nm: lookup(nm, i))
            if not isinstance(v, (bool, np.bool_, SymB)):
                raise TypeError("condition ``%s`` does not have a boolean type"
                                % text.strip(condition))
            if bool(v): out.append(i)
        if n == 0:
            # names are looked up anyway
            for nd in ast.walk(code):
                if isinstance(nd, ast.Name) and nd.id not in self.colnames:
                    lookup(nd.id, 0)
        return out

    def read_where(self, condition, condvars=None, field=None, start=None,
                   stop=None, step=None):
        rows = self._rows(condition, condvars)
        if start is not None or stop is not None or step is not None:
            ok = set(range(*slice(start, stop, step).indices(len(self._data))))
            rows = [r for r in rows if r in ok]
        ix = np.array(rows, dtype=np.int64)
        r = wrap(plain(self._data)[ix], self._ld)
        return r if field is None else r[field].copy()

    def get_where_list(self, condition, condvars=None, sort=False, **kw):
        return asarr(np.array(self._rows(condition, condvars), dtype=np.int64))

    def read_coordinates(self, coords, field=None):
        r = self._data[asarr(coords)]
        return r if field is None else r[field]

    def where(self, condition, condvars=None, **kw):
        rows = self._rows(condition, condvars)
        return iter([_Row(self._data, i) for i in rows])

    def will_query_use_indexing(self, *a, **k): return False

    @property
    def row(self):
        return _AppendRow(self)


class _Row(object):
    def __init__(self, data, i):
        self._d, self.nrow = data, i
    def __getitem__(self, k):
        if isinstance(k, str): return self._d[k][self.nrow]
        if isinstance(k, slice):
            return tuple(self._d[n][self.nrow] for n in self._d._ld.names)[k]
        return self._d[self._d._ld.names[k]][self.nrow]
    def fetch_all_fields(self):
        return self._d[self.nrow]


class _AppendRow(object):
    def __init__(self, t):
        self._t, self._v = t, {}
    def __setitem__(self, k, v): self._v[k] = v
    def append(self):
        a = wrap(np.empty(1, dtype=sarray.storage(self._t._ld)), self._t._ld)
        for n in self._t._ld.names:
            a[n][0:1] = self._v.get(n, 0)
        self._t.append(a)
        self._v = {}


def _caller():
    """Frame of the code under test that made the call."""
    f = sys._getframe(1)
    while f is not None:
        if '__sx_module__' in f.f_globals:
            return f
        f = f.f_back
    f = sys._getframe(1)
    while f is not None and f.f_globals.get('__name__', '').startswith('symx'):
        f = f.f_back
    return f


def _eval(n, get):
    if isinstance(n, ast.Constant): return n.value
    if isinstance(n, ast.Name):
        t = text.lookup(n.id)
        return t[0] if t is not None else get(n.id)
    if isinstance(n, ast.UnaryOp):
        v = _eval(n.operand, get)
        if isinstance(n.op, ast.USub): return -v
        if isinstance(n.op, ast.UAdd): return v
        if isinstance(n.op, ast.Invert): return b_not(v)
        raise SymUnsupported('query operator')
    if isinstance(n, ast.BinOp):
        a, b = _eval(n.left, get), _eval(n.right, get)
        if isinstance(n.op, ast.BitAnd): return b_and(a, b)
        if isinstance(n.op, ast.BitOr): return b_or(a, b)
        op = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
              ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
              ast.Pow: lambda: a ** b, ast.Mod: lambda: a % b}.get(type(n.op))
        if op is None: raise SymUnsupported('query operator')
        return op()
    if isinstance(n, ast.Compare):
        res = True
        left = n.left
        if len(n.ops) > 1:
            raise TypeError('chained comparison in a condition')
        for o, r in zip(n.ops, n.comparators):
            a, b = _eval(left, get), _eval(r, get)
            if isinstance(a, SA) or isinstance(b, SA):
                raise NotImplementedError("multidimensional columns in "
                                          "conditions")
            c = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                 ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                 ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[type(o)]()
            res = b_and(res, c)
            left = r
        return res
    raise SymUnsupported('query syntax %s' % type(n).__name__)


class _Group(object):
    def __init__(self, file, path):
        self._f, self._p = file, path
        self._v_pathname = path
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        try:
            return self._f.get_node(self._p.rstrip('/') + '/' + name)
        except NoSuchNodeError:
            raise AttributeError(name)
    def __contains__(self, name):
        return (self._p.rstrip('/') + '/' + name) in self._f._nodes


class File(object):
    def __init__(self, path, mode):
        self.filename = path
        self._mode = self.mode = mode
        self.isopen = 1
        if mode == 'w':
            FILES[_abs(path)] = {}
            touch(path)
        elif mode in ('a', 'r+'):
            if _abs(path) not in FILES:
                if mode == 'r+': raise OSError("``%s`` does not exist" % path)
                FILES[_abs(path)] = {}
                touch(path)
        else:
            if _abs(path) not in FILES:
                raise OSError("``%s`` does not exist" % path)
        self._nodes = FILES[_abs(path)]
        self.title = ''
    @property
    def root(self): return _Group(self, '/')
    def _alive(self):
        if not self.isopen:
            raise RuntimeError("the file object is closed")
    def create_table(self, where, name, description=None, title='', obj=None,
                     **kw):
        self._alive()
        if isinstance(where, _Group): where = where._v_pathname
        p = where.rstrip('/') + '/' + name
        if p in self._nodes:
            raise RuntimeError("node already exists")
        if isinstance(description, np.ndarray):
            obj, description = description, description.dtype
        if description is None: description = obj.dtype
        if isinstance(description, list): description = np.dtype(description)
        if not isinstance(description, np.dtype):
            raise SymUnsupported('table description')
        t = self._nodes[p] = Table(self, p, description)
        if obj is not None: t.append(obj)
        return t
    def create_group(self, where, name, *a, **k):
        return _Group(self, where.rstrip('/') + '/' + name)
    def get_node(self, where, name=None, classname=None):
        self._alive()
        if isinstance(where, _Group): where = where._v_pathname
        if isinstance(where, Table): return where
        p = where if name is None else where.rstrip('/') + '/' + name
        if p == '/': return self.root
        if p not in self._nodes:
            raise NoSuchNodeError("group ``/`` does not have a child named "
                                  "``%s``" % p)
        t = self._nodes[p]
        t._v_file = self
        return t
    def __contains__(self, p): return p in self._nodes
    def flush(self): pass
    def close(self): self.isopen = 0
    def remove_node(self, where, name=None, recursive=False):
        self._nodes.pop(where if name is None else
                        where.rstrip('/') + '/' + name)
    def list_nodes(self, where='/', classname=None):
        return list(self._nodes.values())
    walk_nodes = iter_nodes = list_nodes
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def open_file(filename, mode='r', title='', *a, **k):
    return File(os.fspath(filename), mode)


class _Filters(object):
    def __init__(self, *a, **k): pass


def make_tables():
    m = types.ModuleType('tables')
    m.open_file = open_file
    m.File, m.Table = File, Table
    m.Filters = _Filters
    m.NoSuchNodeError = NoSuchNodeError
    exc = types.ModuleType('tables.exceptions')
    exc.NoSuchNodeError = NoSuchNodeError
    m.exceptions = exc
    m.is_hdf5_file = m.is_pytables_file = lambda p: _abs(p) in FILES
    return m


# --------------------------------------------------------------------------
# k-d tree
# --------------------------------------------------------------------------
class KDTree(object):
    """Nearest neighbours by sorting the distances; equal distances are in
    the order of the points."""
    def __init__(self, data, leafsize=16, *a, **k):
        d = asarr(data)
        if d.ndim != 2:
            raise ValueError("data must be 2 dimensions")
        self.data = sarray.astype(d, F8).copy()
        self.n, self.m = d.shape

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=math.inf,
              workers=1):
        if eps != 0 or p != 2: raise SymUnsupported('k-d tree query options')
        x = sarray.astype(asarr(x), F8)
        if x.shape[-1] != self.m:
            raise ValueError("x must consist of vectors of length %d but has "
                             "shape %s" % (self.m, x.shape))
        one = x.ndim == 1
        x = x.reshape(-1, self.m)
        squeeze = False
        if isinstance(k, (list, SA, np.ndarray)):
            raise SymUnsupported('k-d tree query with a list')
        k = k.__index__()
        if k < 1:
            raise ValueError("k must be an integer >= 1")
        dd = np.empty((x.shape[0], k), dtype=object)
        ii = np.empty((x.shape[0], k), dtype=object)
        for i in range(x.shape[0]):
            dists = [sarray.norm(self.data[j] - x[i]) for j in range(self.n)]
            near = [j for j in range(self.n)
                    if bool(dists[j] < distance_upper_bound)]
            perm = sarray.sort_perm(len(near), lambda a, b: bool(
                dists[near[a]] < dists[near[b]]))
            order = [near[q] for q in perm][:k]
            for c in range(k):
                if c < len(order):
                    dd[i, c] = pynum(dists[order[c]])
                    ii[i, c] = order[c]
                else:
                    dd[i, c], ii[i, c] = math.inf, self.n
        D, I = wrap(dd, F8), wrap(ii, I8)
        if k == 1: D, I = D[:, 0], I[:, 0]
        if one:
            D, I = D[0], I[0]
        return D, I

    def query_ball_point(self, x, r, p=2., eps=0, workers=1,
                         return_sorted=None, return_length=False):
        x = asarr(x)
        one = x.ndim == 1
        x = x.reshape(-1, self.m)
        res = []
        for i in range(x.shape[0]):
            res.append([j for j in range(self.n) if bool(
                sarray.norm(self.data[j] - x[i]) <= r)])
        if one: return res[0]
        out = np.empty(len(res), dtype=object)
        for i, v in enumerate(res): out[i] = v
        return out


def cdist(a, b, metric='euclidean', **kw):
    a, b = asarr(a), asarr(b)
    d = a[:, None, :] - b[None, :, :]
    if metric == 'euclidean': return sarray.norm(d, axis=2)
    if metric == 'sqeuclidean': return (d * d).sum(axis=2)
    raise SymUnsupported('cdist metric')


# --------------------------------------------------------------------------
# Text tables and npz files
# --------------------------------------------------------------------------
def _conv(tok, ld):
    k = ld.kind
    if k == 'f': return text.parse_float(tok)
    if k in 'iu':
        v = text.lookup(tok)
        if v is not None:
            return text.parse_int(tok)
        return int(tok)
    if k == 'b': return bool(int(tok))
    return tok


def loadtxt(fname, dtype=float, comments='#', delimiter=None, converters=None,
            skiprows=0, usecols=None, unpack=False, ndmin=0, encoding=None,
            max_rows=None, **kw):
    if converters is not None: raise SymUnsupported('loadtxt converters')
    ld = np.dtype(dtype)
    if hasattr(fname, 'read') or hasattr(fname, '__next__'):
        lines = list(fname)
    elif isinstance(fname, (list, tuple)):
        lines = list(fname)
    else:
        with open(fname, 'r') as f:
            lines = list(f)
    rows = []
    for ln in lines[skiprows:]:
        if isinstance(ln, bytes): ln = ln.decode()
        if comments is not None and isinstance(comments, str):
            ln = ln.split(comments)[0]
        p = ln.strip().split(delimiter) if ln.strip() else []
        if p: rows.append([q.strip() for q in p])
        if max_rows is not None and len(rows) >= max_rows: break
    if isinstance(usecols, int): usecols = [usecols]
    if usecols is not None:
        cols = [int(c) for c in usecols]
        try:
            rows = [[r[c] for c in cols] for r in rows]
        except IndexError:
            raise ValueError("invalid column index at a row")
    if rows and any(len(r) != len(rows[0]) for r in rows):
        raise ValueError("the number of columns changed; use `usecols` to "
                         "select a subset and avoid this error")
    if ld.fields is not None:
        widths = [(n, ld.fields[n][0].base, ld.fields[n][0].shape)
                  for n in ld.names]
        total = sum(int(np.prod(s, dtype=int)) for _, _, s in widths)
        a = wrap(np.empty(len(rows), dtype=sarray.storage(ld)), ld)
        for i, r in enumerate(rows):
            if len(r) != total:
                raise ValueError("the dtype passed requires %d columns but %d"
                    " were found at row %d" % (total, len(r), i + 1))
            k = 0
            for n, b, s in widths:
                w = int(np.prod(s, dtype=int))
                vals = [_conv(t, b) for t in r[k:k + w]]
                k += w
                if s: a[n][i] = asarr(vals, b).reshape(s)
                else: a[n][i:i + 1] = vals[0]
        if len(rows) == 1 and ndmin == 0:
            a = a.reshape(())
        return a
    vals = [[_conv(t, ld) for t in r] for r in rows]
    nc = len(vals[0]) if vals else len(cols) if usecols is not None else 1
    a = wrap(np.empty((len(vals), nc), dtype=object), ld)
    for i, r in enumerate(vals):
        for j, v in enumerate(r): plain(a)[i, j] = v
    # as numpy's _ensure_ndmin_ndarray
    if a.ndim > ndmin:
        a = a.reshape([s for s in a.shape if s != 1])
    if a.ndim < ndmin:
        a = a.reshape((1,) * (1 - a.ndim) + a.shape) if ndmin == 1 else \
            a.reshape(-1, 1) if a.ndim else a.reshape(1, 1)
    return a.T if unpack else a


class _Npz(object):
    def __init__(self, d):
        self._d = d
        self.files = list(d)
        self.f = types.SimpleNamespace(**{})
    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError("%s is not a file in the archive" % k)
        return _frozen(self._d[k])
    def __contains__(self, k): return k in self._d
    def __iter__(self): return iter(self.files)
    def __len__(self): return len(self.files)
    def keys(self): return list(self.files)
    def items(self): return [(k, self[k]) for k in self.files]
    def values(self): return [self[k] for k in self.files]
    def get(self, k, d=None): return self[k] if k in self._d else d
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


def savez(file, *args, **kwds):
    f = os.fspath(file)
    if not f.endswith('.npz'): f += '.npz'
    d = dict(('arr_%d' % i, asarr(v).copy()) for i, v in enumerate(args))
    d.update((k, asarr(v).copy()) for k, v in kwds.items())
    touch(f)
    NPZ[_abs(f)] = d


def save(file, arr, **kw):
    f = os.fspath(file)
    if not f.endswith('.npy'): f += '.npy'
    touch(f)
    NPZ[_abs(f)] = asarr(arr).copy()


def load(file, *a, **k):
    p = _abs(file)
    if p not in NPZ:
        if os.path.exists(p):
            return npproxy.wrap_out(np.load(p, *a, **k)) \
                if not p.endswith('.npz') else _Npz(
                    {k: npproxy.wrap_out(v) for k, v in np.load(p).items()})
        raise FileNotFoundError(2, "No such file or directory: %r" % file)
    d = NPZ[p]
    return _Npz(d) if isinstance(d, dict) else d.copy()


def savetxt(fname, X, fmt='%.18e', delimiter=' ', **kw):
    a = asarr(X)
    if a.ndim == 1: a = a[:, None]
    with open(fname, 'w') as f:
        for r in a:
            f.write(delimiter.join(text.pct(fmt, v) for v in r) + '\n')


# --------------------------------------------------------------------------
# Matlab files
# --------------------------------------------------------------------------
def loadmat(fname, *a, **k):
    p = _abs(fname)
    if p not in MAT and not p.endswith('.mat') and p + '.mat' in MAT:
        p += '.mat'
    if p not in MAT:
        raise FileNotFoundError(2, "No such file or directory: %r" % fname)
    return dict(MAT[p])


def save_mat(path, name, records):
    """records: list of dicts of arrays, as a Matlab struct array."""
    fields = list(records[0])
    a = np.empty((len(records), 1), dtype=[(f, object) for f in fields])
    for i, r in enumerate(records):
        for f in fields: a[f][i, 0] = asarr(r[f])
    touch(path)
    MAT[_abs(path)] = {'__header__': b'MATLAB 5.0 MAT-file',
        '__version__': '1.0', '__globals__': [], 'directory': 'x', name: a}


# --------------------------------------------------------------------------
# Configuration files
# --------------------------------------------------------------------------
class ConfigParser(configparser.ConfigParser):
    def getfloat(self, section, option, **kw):
        return self._sx(text.parse_float, section, option, **kw)
    def getint(self, section, option, **kw):
        return self._sx(text.parse_int, section, option, **kw)
    def _sx(self, conv, section, option, **kw):
        fb = {k: kw.pop(k) for k in ('fallback',) if k in kw}
        if fb and not self.has_option(section, option): return fb['fallback']
        return conv(self.get(section, option, **kw))


# --------------------------------------------------------------------------
# os with a chosen directory order
# --------------------------------------------------------------------------
class OsProxy(types.ModuleType):
    def __init__(self, hook):
        types.ModuleType.__init__(self, 'os')
        self.__dict__['_hook'] = hook
    def __getattr__(self, n):
        if n == 'listdir': return self._hook
        if n in ('fwalk', 'system', 'popen', '_exit',
                 'kill', 'fork'):
            raise SymUnsupported('os.' + n)
        return getattr(os, n)


# --------------------------------------------------------------------------
# matplotlib.pyplot: what is drawn, where
class PlArray(object):
    """Settings of an axis that do not matter here."""
    def set_visible(self, on): pass
    def set_major_formatter(self, f): pass
    def set_minor_formatter(self, f): pass
    def set_major_locator(self, f): pass


class PlLine(object):
    def __init__(self, x, y): self.x, self.y = x, y
    def get_xdata(self, orig=True): return self.x
    def get_ydata(self, orig=True): return self.y
    def set_label(self, s): pass
    def set_color(self, s): pass
    def set_marker(self, s): pass


class PlAxes(object):
    def __init__(self, place):
        self.place = place
        self.lines, self.arrows = [], []
        self.xs = self.ys = 'linear'
        self.lim = self.ticks = None
        self.xl = self.yl = ''
        self.xaxis, self.yaxis = PlArray(), PlArray()

    def _draw(self, a, xs, ys, k):
        fmt = None
        a = list(a)
        if a and isinstance(a[-1], str): fmt = a.pop()
        if len(a) == 1:
            y = asarr(a[0])
            a = [asarr(list(range(len(y)))), y]
        if len(a) != 2 or any(isinstance(x, str) for x in a):
            raise SymUnsupported('several lines in a call')
        x, y = asarr(a[0]), asarr(a[1])
        if x.ndim == 0: x = x.reshape(1)
        if y.ndim == 0: y = y.reshape(1)
        if x.shape[0] != y.shape[0]:
            raise ValueError('x and y must have same first dimension, but have '
                             'shapes %s and %s' % (x.shape, y.shape))
        if x.ndim == 2 and x.shape[1] == 1: x = x[:,0]
        cols = [y] if y.ndim == 1 else [y[:,j] for j in range(y.shape[1])]
        if x.ndim > 1: raise SymUnsupported('several abscissae')
        new = [PlLine(x.copy(), c.copy()) for c in cols]
        self.lines += new
        if xs: self.xs = xs
        if ys: self.ys = ys
        return new

    def plot(self, *a, **k): return self._draw(a, None, None, k)
    def semilogx(self, *a, **k): return self._draw(a, 'log', None, k)
    def semilogy(self, *a, **k): return self._draw(a, None, 'log', k)
    def loglog(self, *a, **k): return self._draw(a, 'log', 'log', k)
    def set_xscale(self, s, **k): self.xs = s
    def set_yscale(self, s, **k): self.ys = s
    def get_xaxis(self): return self.xaxis
    def get_yaxis(self): return self.yaxis
    def grid(self, *a, **k): pass
    def set_xlabel(self, s, *a, **k): self.xl = s
    def set_ylabel(self, s, *a, **k): self.yl = s
    def set_title(self, s, *a, **k): pass
    def legend(self, *a, **k): pass
    def tick_params(self, *a, **k): pass
    def set_ylim(self, lo=None, hi=None, **k):
        if hi is None and lo is not None: lo, hi = lo
        self.lim = (lo, hi)
        return self.lim
    def get_ylim(self):
        if self.lim is None: raise SymUnsupported('automatic limits')
        return self.lim
    def set_yticks(self, t, *a, **k):
        self.ticks = asarr(t).copy()
        if self.lim is not None and len(self.ticks):
            # the view is widened to show the ticks
            lo, hi = self.lim
            for v in self.ticks:
                if bool(v < lo): lo = v
                if bool(v > hi): hi = v
            self.lim = (lo, hi)
    def get_yticks(self):
        if self.ticks is None: raise SymUnsupported('automatic ticks')
        return self.ticks
    def quiver(self, *a, **k):
        if len(a) < 4: raise SymUnsupported('arrows without places')
        q = [asarr(x) for x in a[:4]]
        n = q[0].size
        if q[1].size != n:
            raise ValueError('X and Y must be the same size')
        for w in q[2:]:
            if w.size not in (1, n):
                raise ValueError('Argument U has a size %d which does not '
                    'match %d, the number of arrow positions' % (w.size, n))
        self.arrows.append(tuple(x.copy().reshape(-1) for x in q))


class PlFigure(object):
    def __init__(self, number):
        self.number, self.axes, self.current = number, [], None

    def subplot(self, *a, **k):
        if len(a) == 0: a = (1, 1, 1)
        if len(a) == 1: a = tuple(int(c) for c in str(a[0]))
        place = (a[0], a[1], a[2] - 1)
        if not 0 <= place[2] < a[0] * a[1]:
            raise ValueError('num must be an integer with 1 <= num <= %d'
                             % (a[0] * a[1]))
        for x in self.axes:
            if x.place == place:
                self.current = x
                return x
        x = PlAxes(place)
        self.axes.append(x)
        self.current = x
        return x
    add_subplot = subplot

    def subplots(self, r=1, c=1, squeeze=True, **k):
        ax = [self.subplot(r, c, i + 1) for i in range(r * c)]
        if r * c == 1 and squeeze: return ax[0]
        o = np.empty(r * c, dtype=object)
        o[:] = ax
        return o if squeeze and 1 in (r, c) else o.reshape(r, c)

    def gca(self):
        if self.current is None: self.subplot(1, 1, 1)
        return self.current
    def sca(self, ax): self.current = ax
    def clf(self): self.axes, self.current = [], None
    clear = clf
    def tight_layout(self, *a, **k): pass
    def subplots_adjust(self, *a, **k): pass
    def suptitle(self, *a, **k): pass


class Pyplot(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'matplotlib.pyplot')
        d = self.__dict__
        d['figs'], d['now'] = {}, [None]

    def figure(self, num=None, **k):
        if isinstance(num, PlFigure): num = num.number
        if num is None: num = max(list(self.figs) + [0]) + 1
        if num not in self.figs: self.figs[num] = PlFigure(num)
        self.now[0] = num
        return self.figs[num]

    def gcf(self):
        return self.figs[self.now[0]] if self.now[0] else self.figure()
    def gca(self): return self.gcf().gca()
    def sca(self, ax):
        for f in self.figs.values():
            if ax in f.axes:
                f.current = ax
                self.now[0] = f.number
    def get_fignums(self): return sorted(self.figs)
    def fignum_exists(self, n): return n in self.figs
    def close(self, *a):
        self.figs.clear()
        self.now[0] = None
    def subplot(self, *a, **k): return self.gcf().subplot(*a, **k)
    def subplots(self, r=1, c=1, **k):
        for n in ('sharex', 'sharey', 'figsize', 'num'): k.pop(n, None)
        f = self.figure()
        return f, f.subplots(r, c, **k)
    def xlabel(self, s, *a, **k): self.gca().set_xlabel(s)
    def ylabel(self, s, *a, **k): self.gca().set_ylabel(s)
    def xscale(self, s, **k): self.gca().set_xscale(s)
    def yscale(self, s, **k): self.gca().set_yscale(s)
    def ylim(self, *a, **k):
        return self.gca().set_ylim(*a, **k) if a or k else self.gca().get_ylim()
    def yticks(self, *a, **k):
        if not a: return None, None     # (the automatic ones are not modelled)
        self.gca().set_yticks(a[0])
        return a[0], None
    def title(self, *a, **k): pass

    def __getattr__(self, n):
        if n in ('plot', 'semilogx', 'semilogy', 'loglog', 'quiver', 'grid',
                 'legend', 'tick_params'):
            return lambda *a, **k: getattr(self.gca(), n)(*a, **k)
        if n.startswith('__'): raise AttributeError(n)
        raise SymUnsupported('pyplot.' + n)

    def drawn(self):
        return {n: [dict(place=a.place, lines=[(l.x, l.y) for l in a.lines],
            arrows=a.arrows, xscale=a.xs, yscale=a.ys, ylim=a.lim,
            yticks=a.ticks, xlabel=a.xl, ylabel=a.yl) for a in f.axes]
            for n, f in self.figs.items()}


def make_pyplot():
    m = types.ModuleType('matplotlib')
    m.pyplot = Pyplot()
    return m
