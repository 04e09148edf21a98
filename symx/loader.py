"""
Loads the current source of the code under test with its calls, '%'
formatting and membership tests routed through the symbolic models, and with
numpy, PyTables, scipy and configparser replaced by their models.
"""
import ast, os, sys, types, builtins, math, numbers, importlib
import numpy as np
from . import core, sarray, npproxy, stubs, text, strings, splines
from .core import SymNum, SymB, Undef, SymUnsupported, pynum

REPO = os.environ.get('SX_REPO', '/repo')

NOHOOK = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir',
          '__import__', 'print'}


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def _scope(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        if not isinstance(node, ast.ClassDef):
            q = '.'.join(self.stack)
            call = ast.Expr(ast.Call(ast.Name('__sx_enter__', ast.Load()),
                                     [ast.Constant(q)], []))
            at = 0
            if node.body and isinstance(node.body[0], ast.Expr) and \
                    isinstance(node.body[0].value, ast.Constant) and \
                    isinstance(node.body[0].value.value, str):
                at = 1
            node.body.insert(at, call)
        self.stack.pop()
        return node
    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _scope

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOHOOK:
            return node
        return ast.copy_location(ast.Call(
            ast.Name('__sx_call__', ast.Load()),
            [node.func] + node.args, node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_mod__', ast.Load()),
                [node.left, node.right], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('__sx_in__', ast.Load()),
                         [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node


# ---- hooks
def _has(x):
    return isinstance(x, (SymNum, SymB, Undef, sarray.SA))


def _int(x=0, *a, **k):
    if a or k: return int(x, *a, **k)
    if isinstance(x, sarray.SA): x = x._one()
    if isinstance(x, Undef): return int(x)
    if isinstance(x, (SymNum, SymB)): return core.trunc(x)
    if isinstance(x, (str, bytes)): return text.parse_int(x)
    return int(x)


def _float(x=0.0):
    if isinstance(x, sarray.SA): x = x._one()
    if isinstance(x, (SymNum, SymB)): return core.to_real(x)
    if isinstance(x, (str, bytes)): return text.parse_float(x)
    return float(x)


def _isinstance(x, t):
    if isinstance(x, strings.SymStr):
        ts = t if isinstance(t, tuple) else (t,)
        return any(u is str or u is object or isinstance(u, tuple) and
                   _isinstance(x, u) for u in ts)
    if isinstance(x, (SymNum, SymB)):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for u in ts:
            flat.extend(u if isinstance(u, tuple) else (u,))
        if isinstance(x, SymB):
            return any(u in (bool, np.bool_, np.generic, object) for u in flat)
        if x.kind == 'i':
            ok = (int, np.integer, np.signedinteger, np.int64, np.number,
                  np.generic, numbers.Integral, numbers.Real, numbers.Number,
                  numbers.Rational, numbers.Complex, object)
        else:
            ok = (float, np.floating, np.inexact, np.float64, np.number,
                  np.generic, numbers.Real, numbers.Number, numbers.Complex,
                  object)
        return any(u in ok for u in flat)
    return isinstance(x, t)


def _round(x, nd=None):
    if isinstance(x, SymNum) and x.kind == 'r':
        if nd is not None: raise SymUnsupported('round to digits')
        if x.d is not core.ONE: raise SymUnsupported('round of a quotient')
        h = x + 0.5
        q = core.floor_atom(h.n) if isinstance(h, SymNum) else math.floor(h)
        if bool(q == h):
            q = q.__index__() if isinstance(q, SymNum) else q
            return q if q % 2 == 0 else q - 1
        return q
    return round(x, nd) if nd is not None else round(x)


def _repr(x):
    return text.to_str(x) if isinstance(x, SymNum) else repr(x)


def _str(*a):
    if len(a) == 1 and isinstance(a[0], strings.SymStr): return a[0]
    if len(a) == 1 and isinstance(a[0], sarray.SA) and a[0].ndim == 0:
        return str(a[0]._one())
    return str(*a)


def _float_is_integer(x):
    return x == int(x)


class SymRange(object):
    """range() with symbolic limits; the numbers themselves stay symbolic."""
    _sx_range = True

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        self._n = None

    def _more(self, k):
        if self._n is not None: return k < self._n
        v = self.start + k * self.step
        if bool(v < self.stop if self.step > 0 else v > self.stop):
            if k >= 64: raise SymUnsupported('range with too many values')
            return True
        self._n = k
        return False

    def __iter__(self):
        k = 0
        while self._more(k):
            yield self.start + k * self.step
            k += 1

    def __len__(self):
        k = 0
        while self._more(k): k += 1
        return k

    def __bool__(self): return self._more(0)

    def __getitem__(self, ix):
        return list(self)[ix]

    def __reversed__(self): return reversed(list(self))

    def __contains__(self, v):
        return any(bool(x == v) for x in self)


def _range(*a):
    a = [pynum(x._one() if isinstance(x, sarray.SA) else x) for x in a]
    if not any(isinstance(x, SymNum) for x in a): return range(*a)
    for x in a:
        if isinstance(x, SymNum) and x.kind != 'i' or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1: a = [0] + a
    step = a[2] if len(a) > 2 else 1
    if isinstance(step, SymNum): step = core.concretize(step)
    if step == 0: raise ValueError('range() arg 3 must not be zero')
    return SymRange(a[0], a[1], step)


def _ord(c):
    if isinstance(c, strings.SymStr):
        if len(c.c) != 1: raise TypeError('ord() expected a character')
        return c.c[0]
    return ord(c)


def _chr(i):
    return strings.make([i]) if isinstance(i, SymNum) else chr(i)


def _fspath(p):
    return p if isinstance(p, strings.SymStr) else os.fspath(p)


BUILTIN = {ord: _ord, chr: _chr, os.fspath: _fspath,
    range: _range, int: _int, float: _float, isinstance: _isinstance, round: _round,
           repr: _repr, str: _str}
_METHODS = (types.MethodDescriptorType, types.BuiltinMethodType)
NP_TYPES = (np.generic,)


def sx_call(f, *args, **kw):
    if isinstance(f, type):
        h = BUILTIN.get(f)
        if h is not None: return h(*args, **kw)
        if issubclass(f, np.generic):
            return npproxy.np_type_call(f, args, kw)
        if f in (map, filter) and args and args[0] in BUILTIN:
            return f(BUILTIN[args[0]], *args[1:])
        if f in (map, filter) and args and isinstance(args[0], type) and \
                issubclass(args[0], np.generic):
            t = args[0]
            return f(lambda v: npproxy.np_type_call(t, (v,), {}), *args[1:])
        return f(*args, **kw)
    try:
        h = BUILTIN.get(f)
    except TypeError:
        h = None
    if h is not None: return h(*args, **kw)
    if args and isinstance(f, _METHODS) and strings.has(args):
        done, r = strings.str_call(f, args, kw)
        if done: return r
    return f(*args, **kw)


def sx_mod(a, b):
    if isinstance(a, str): return text.pct(a, b)
    return a % b


_KEYED = (dict, set, frozenset, type({}.keys()))


def sx_in(a, c):
    if isinstance(a, strings.SymStr) or isinstance(c, strings.SymStr):
        if isinstance(c, (str, strings.SymStr)):
            return strings.SymStr(strings.codes(c)).has_sub(a)
        return core.b_any([k == a for k in c
                           if isinstance(k, (str, strings.SymStr))])
    if isinstance(c, _KEYED):
        if isinstance(a, sarray.SA) and a.ndim == 0: a = a._one()
        if isinstance(a, (SymNum, SymB)) or any(
                isinstance(k, (SymNum, SymB)) for k in c):
            for k in c:
                if bool(k == a): return True
            return False
    return a in c


HOOKS = {'__sx_call__': sx_call, '__sx_mod__': sx_mod, '__sx_in__': sx_in}


# ---- the math module
def _m(symf, f):
    def g(*a):
        if any(isinstance(x, (SymNum, SymB, Undef)) for x in a):
            return symf(*a)
        return f(*[pynum(x) for x in a])
    return g


def _unsup(n):
    def f(*a): raise SymUnsupported('math.' + n)
    return f


def make_math():
    m = types.ModuleType('math')
    for n in dir(math):
        v = getattr(math, n)
        setattr(m, n, _m(_unsup(n), v) if callable(v) and
                not n.startswith('_') else v)
    m.sqrt = _m(core.sqrt, math.sqrt)
    m.exp = _m(core.exp, math.exp)
    m.log10 = _m(lambda x: core.log(x, '10'), math.log10)
    m.log2 = _m(lambda x: core.log(x, '2'), math.log2)
    m.log = _m(lambda x, b='e': core.log(x, str(b)), math.log)
    m.pow = _m(lambda a, b: core.power(core.to_real(a), core.to_real(b)), math.pow)
    m.fabs = _m(abs, math.fabs)
    m.floor = _m(lambda x: sarray._floor(x) if False else
                 (x if x.kind == 'i' else core.floor_atom(x.n)), math.floor)
    m.ceil = _m(lambda x: -m.floor(-x), math.ceil)
    m.hypot = _m(lambda *a: core.sqrt(sum((x * x for x in a), 0.)), math.hypot)
    m.isnan = _m(lambda x: False, math.isnan)
    m.isinf = _m(lambda x: False, math.isinf)
    m.isfinite = _m(lambda x: True, math.isfinite)
    m.trunc = _m(core.trunc, math.trunc)
    m.dist = lambda p, q: m.sqrt(sum(((a - b) * (a - b) for a, b in zip(p, q)), 0.))
    m.fsum = lambda xs: sum(xs, 0.)
    m.prod = lambda xs, start=1: __import__('functools').reduce(
        lambda a, b: a * b, xs, start)
    return m


_code = {}        # file -> (mtime, code)


def compiled(path, name):
    with open(path, 'rb') as f:
        src = f.read()
    c = _code.get(path)
    if c is None or c[0] != src:
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Transform().visit(tree))
        c = _code[path] = (src, compile(tree, path, 'exec'))
    return c[1]


class World(object):
    """One fresh instance of the code under test."""
    def __init__(self, listdir=None, called=None):
        self.mods = {}
        self.called = called if called is not None else {}
        self.np = npproxy.make_np(dict(loadtxt=stubs.loadtxt,
            genfromtxt=stubs.loadtxt, savez=stubs.savez, save=stubs.save,
            savez_compressed=stubs.savez,
            load=stubs.load, savetxt=stubs.savetxt))
        self.tables = stubs.make_tables()
        sp = types.ModuleType('scipy')
        spio = types.ModuleType('scipy.io')
        spio.loadmat = stubs.loadmat
        spat = types.ModuleType('scipy.spatial')
        spat.cKDTree = spat.KDTree = stubs.KDTree
        dist = types.ModuleType('scipy.spatial.distance')
        dist.cdist = stubs.cdist
        spat.distance = dist
        si = splines.make()
        sp.io, sp.spatial, sp.interpolate = spio, spat, si
        cp = types.ModuleType('configparser')
        import configparser
        for n in dir(configparser):
            if not n.startswith('__'): setattr(cp, n, getattr(configparser, n))
        cp.ConfigParser = cp.SafeConfigParser = stubs.ConfigParser
        osx = stubs.OsProxy(listdir or (lambda d='.': sorted(os.listdir(d))))
        rx = strings.make_re()
        osx.__dict__['path'] = strings.make_path(compiled, HOOKS)
        mpl = stubs.make_pyplot()
        self.proxies = {'matplotlib': mpl, 'matplotlib.pyplot': mpl.pyplot,
            're': rx, 'fnmatch': strings.make_fnmatch(rx),
            'os.path': osx.path, 'posixpath': osx.path, 'numpy': self.np, 'tables': self.tables, 'scipy': sp,
            'scipy.io': spio, 'scipy.spatial': spat,
            'scipy.spatial.distance': dist,
            'scipy.interpolate': si, 'configparser': cp,
            'os': osx, 'math': make_math()}
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        self.builtins = b

    def module(self, name):
        """A module of the code under test ('flowtracks.io')."""
        if name in self.mods: return self.mods[name]
        rel = name.replace('.', '/')
        path = os.path.join(REPO, rel + '.py')
        pkg = False
        if os.path.isdir(os.path.join(REPO, rel)):
            path, pkg = os.path.join(REPO, rel, '__init__.py'), True
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if '.' in name:
            self.module(name.rsplit('.', 1)[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        d = m.__dict__
        d['__builtins__'] = self.builtins
        d['__sx_module__'] = name
        d.update(HOOKS)
        called = self.called
        short = name.split('.', 1)[-1]
        def enter(q):
            k = short + '.' + q
            called[k] = called.get(k, 0) + 1
        d['__sx_enter__'] = enter
        self.mods[name] = m
        exec(compiled(path, name), d)
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def script(self, rel, argv):
        """Runs a script with the given arguments."""
        path = os.path.join(REPO, rel)
        d = {'__name__': '__main__', '__file__': path,
             '__builtins__': self.builtins}
        d.update(HOOKS)
        called = self.called
        short = os.path.splitext(os.path.basename(rel))[0]
        def enter(q): called[short + '.' + q] = called.get(short + '.' + q, 0) + 1
        d['__sx_enter__'] = enter
        enter('__main__')
        was, sys.argv = sys.argv, [path] + list(argv)
        try: exec(compiled(path, '__main__'), d)
        finally: sys.argv = was

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        full = name
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            full = '.'.join(pkg + ([name] if name else []))
        if full == 'flowtracks' or full.startswith('flowtracks.'):
            m = self.module(full)
            for a in fromlist or ():
                if not hasattr(m, a) and hasattr(m, '__path__'):
                    try: self.module(full + '.' + a)
                    except ModuleNotFoundError: pass
            return m if fromlist else self.module(full.split('.')[0])
        if full == 'os.path':
            return self.proxies[full] if fromlist else self.proxies['os']
        if full in self.proxies:
            if fromlist: return self.proxies[full]
            return self.proxies[full.split('.')[0]]
        top = full.split('.')[0]
        if top in ('numpy', 'tables', 'scipy') and full != top:
            base = self.proxies[top]
            if not fromlist:
                return base
            o = base
            for part in full.split('.')[1:]: o = getattr(o, part)
            return o
        return importlib.__import__(name, globals, locals, fromlist, level)
