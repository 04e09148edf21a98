"""
What a scenario sees: inputs, choices, the code under test, assumptions and
requirements. SymEnv explores all values; ConcEnv replays given values against
the real code with the real libraries.
"""
import os, sys, math, shutil, itertools, importlib, types
from fractions import Fraction
import numpy as np
from . import core, sarray, npproxy, npmore, stubs, text, loader, strings
from .core import (SymNum, SymB, Undef, PathAbort, SymUnsupported, b_all,
                   b_any, b_and, b_or, b_not, pynum, lift, ONE)
from .sarray import SA, asarr, plain, wrap

MODULES = ('trajectory', 'particle', 'io', 'scene', 'interpolation',
           'analysis', 'an_scene', 'sequence', 'pairs', 'smoothing', 'graphics')


class Raised(object):
    def __init__(self, exc): self.exc = exc
    def __bool__(self): return True


class BaseEnv(object):
    symbolic = False
    rnd = None      # name -> random.Random, in scenarios of fixed structure

    # derived helpers, common to both
    def reals(self, name, shape):
        if isinstance(shape, int): shape = (shape,)
        return self.array([self.real('%s%s' % (name, ''.join(
            '_%d' % i for i in ix))) for ix in np.ndindex(*shape)],
            float).reshape(shape)

    def ints(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int): shape = (shape,)
        return self.array([self.int('%s%s' % (name, ''.join(
            '_%d' % i for i in ix)), lo, hi) for ix in np.ndindex(*shape)],
            int).reshape(shape)

    def array(self, vals, dtype):
        return self.np.array(vals, dtype=dtype)

    def pick(self, name, options):
        options = list(options)
        return options[self.choose(name, len(options))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc as e:
            return Raised(e)
        return False

    def distinct(self, xs):
        """Assume pairwise different values."""
        xs = list(xs)
        for i in range(len(xs)):
            for j in range(i):
                self.assume(xs[i] != xs[j])

    def equal(self, a, b, label):
        self.require(self.eq(a, b), label)

    def path(self, name):
        p = os.path.join(self.scratch, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, txt):
        p = self.path(name)
        with open(p, 'w') as f: f.write(txt)
        return p


class Namespace(object):
    pass


# --------------------------------------------------------------------------
class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, engine, scratch, called):
        self.e = engine
        self.scratch = scratch
        self._perm = None
        self.choices = {}
        self.observations = []
        clean(scratch)
        stubs.reset()
        self.called = called
        self.world = loader.World(self._listdir, called)
        self.np, self.tables = self.world.np, self.world.tables
        self.ft = Namespace()
        for m in MODULES:
            setattr(self.ft, m, self.world.module('flowtracks.' + m))
        self.nobl = 0

    def _listdir(self, d='.'):
        return os.listdir(d)

    def listdir_order(self, perm):
        self._perm = perm

    def fresh(self):
        """The code as first loaded: nothing has been called in it."""
        w = loader.World(self._listdir, self.called)
        ft = Namespace()
        for m in MODULES: setattr(ft, m, w.module('flowtracks.' + m))
        return ft

    def real(self, name): return self.e.new_real(name)
    def int(self, name, lo=None, hi=None): return self.e.new_int(name, lo, hi)
    def choose(self, name, n):
        k = self.e.choose(n)
        self.choices[name] = k
        return k
    def assume(self, cond):
        cond = _cond(cond)
        self.e.assume(cond)
    def require(self, cond, label):
        self.e.require(_cond(cond), label)

    def string(self, codes): return strings.make(codes)
    def spline(self, cols, order, s):
        """Values and derivatives of the fit, at the points' parameters."""
        si = self.world.proxies['scipy.interpolate']
        f, u = si.splprep(list(cols), k=order, s=s)
        return [si.splev(u, f, der=d) if d <= order else
                [c * 0. for c in cols] for d in range(3)]
    def script(self, path, argv):
        self.world.script(path, argv)
    def figures(self): return self.world.proxies['matplotlib.pyplot'].drawn()
    @property
    def pl(self): return self.world.proxies['matplotlib.pyplot']
    def eq(self, a, b): return eq_sym(a, b)
    def le(self, a, b): return _cond(a <= b)
    def lt(self, a, b): return _cond(a < b)
    def same(self, a, b):
        """Exact equality of integers, tags etc."""
        return eq_sym(a, b)
    def all(self, xs): return b_all([_cond(x) for x in xs])
    def any(self, xs): return b_any([_cond(x) for x in xs])
    def implies(self, a, b): return b_or(b_not(_cond(a)), _cond(b))
    def neg(self, a): return b_not(_cond(a))
    def fmt(self, x):
        x = pynum(x)
        return text.to_str(x) if isinstance(x, SymNum) else repr(x)
    def sqrt(self, x): return core.sqrt(x)
    def exp(self, x): return core.exp(x)
    def power(self, a, b): return core.power(a, b)
    def observe(self, label, v): self.observations.append((label, v))
    def save_mat(self, path, name, records):
        stubs.save_mat(path, name, records)
    def savez(self, path, **kw): stubs.savez(path, **kw)
    def opaque_roots(self):
        """Square roots are not multiplied out unless an equation needs it:
        for formulas with high powers of distances."""
        self.e.opaque = True
        self.e.mono_memo = {}
    def lazy_abs(self):
        """abs() of linear terms does not fork."""
        self.e.lazy_abs = True
    def configparser(self):
        return self.world.proxies['configparser'].ConfigParser()


def _cond(c):
    if isinstance(c, SymB): return c
    if isinstance(c, SA):
        return b_all(list(plain(c).flat)) if c._ld.kind == 'b' else bool(c)
    if isinstance(c, np.ndarray): return bool(c.all())
    return bool(c)


def fold(p, scale):
    """Drop coefficients that are rounding noise."""
    lim = max(Fraction(1, 10 ** 10) * scale, Fraction(1, 10 ** 12))
    return core.Poly({m: c for m, c in p.t.items() if abs(c) > lim})


def eq1(a, b):
    a, b = pynum(a), pynum(b)
    if isinstance(a, Undef) or isinstance(b, Undef): return False
    if isinstance(a, (SymB, bool)) and isinstance(b, (SymB, bool)):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        return (a if isinstance(a, SymB) else b) == \
            (b if isinstance(a, SymB) else a)
    sa, sb = isinstance(a, SymNum), isinstance(b, SymNum)
    if not sa and not sb:
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return close(a, b)
        return a == b
    la, lb = lift(a) if not isinstance(a, str) else None, \
        lift(b) if not isinstance(b, str) else None
    if la is None or lb is None: return False
    if la.d == lb.d:
        na, nb = la.n, lb.n
    else:
        na, nb = la.n * lb.d, lb.n * la.d
    p = na - nb
    if not p.t:
        ft = core.ENGINE.folded_terms
        if len(ft) < 300 and la.d is lb.d is ONE and len(la.n.t) < 9:
            # decided by the normal form; the solver confirms it
            ft.append(la.n.z3() == lb.n.z3())
        return True
    sc = max([abs(c) for c in na.t.values()] + [abs(c) for c in nb.t.values()])
    q = fold(p, sc)
    if not q.t: return True
    if core.ENGINE.opaque:
        q = core.expand_roots(q)
        if not q.t: return True
    return core._cmp_poly(q, '==')


def eq_sym(a, b):
    if isinstance(a, (SA, np.ndarray, list, tuple)) or \
            isinstance(b, (SA, np.ndarray, list, tuple)):
        a, b = asarr(a), asarr(b)
        if a.shape != b.shape: return False
        return b_all([eq1(x, y) for x, y in zip(plain(a).flat, plain(b).flat)])
    return eq1(a, b)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if math.isnan(a) or math.isnan(b): return False
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))


# --------------------------------------------------------------------------
class InvalidReplay(Exception):
    """The values do not satisfy the scenario's assumptions."""


class ConcEnv(BaseEnv):
    def __init__(self, inputs, choices, scratch, rng=None):
        self.inputs, self.choices = inputs, choices
        self.scratch = scratch
        self.rng = rng           # for what the model does not determine
        self.used_choices = {}
        clean(scratch)
        self.failed = []
        self.checked = 0
        self.used = {}
        self.observations = []
        self._perm = None
        import tables
        self.np, self.tables = np, tables
        os.environ['MPLBACKEND'] = 'Agg'
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')
        if sys.path[0] != loader.REPO: sys.path.insert(0, loader.REPO)
        self.ft = self.fresh()

    def fresh(self):
        ft = Namespace()
        for m in list(sys.modules):
            if m == 'flowtracks' or m.startswith('flowtracks.'):
                del sys.modules[m]
        for m in MODULES:
            setattr(ft, m, importlib.import_module('flowtracks.' + m))
        return ft

    def listdir_order(self, perm): self._perm = perm

    def real(self, name):
        v = self.inputs.get(name)
        if v is None:
            v = 0. if self.rng is None else self.rng.randint(-320, 320) / 64.
        self.used[name] = v = float(v)
        return v
    def int(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        if v is None:
            l = lo if lo is not None else (0 if hi is None else min(0, hi))
            h = hi if hi is not None else l + 6
            v = l if self.rng is None else self.rng.randint(l, min(h, l + 6))
        self.used[name] = v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise InvalidReplay()
        return v
    def choose(self, name, n):
        k = self.choices.get(name)
        if k is None:
            k = 0 if self.rng is None else self.rng.randrange(n)
        self.used_choices[name] = k = min(k, n - 1)
        return k
    def assume(self, cond):
        if not _cc(cond): raise InvalidReplay()
    def require(self, cond, label):
        self.checked += 1
        if not _cc(cond): self.failed.append(label)
    def string(self, codes): return ''.join(map(chr, codes))
    def spline(self, cols, order, s):
        import scipy.interpolate as si
        f, u = si.splprep(list(cols), k=order, s=s)
        return [si.splev(u, f, der=d) if d <= order else
                [c * 0. for c in cols] for d in range(3)]
    def script(self, path, argv):
        import runpy
        path = os.path.join(loader.REPO, path)
        was, sys.argv = sys.argv, [path] + list(argv)
        try: runpy.run_path(path, run_name='__main__')
        finally: sys.argv = was
    @property
    def pl(self):
        import matplotlib.pyplot as pl
        return pl
    def figures(self):
        """What has been drawn: for each figure, its axes."""
        import matplotlib.pyplot as pl
        from matplotlib.quiver import Quiver
        out = {}
        for n in pl.get_fignums():
            out[n] = []
            for a in pl.figure(n).axes:
                g = a.get_subplotspec()
                g = g.get_geometry() if g is not None else (1, 1, 0, 0)
                out[n].append(dict(place=g[:3],
                    lines=[(l.get_xdata(), l.get_ydata()) for l in a.lines],
                    arrows=[(q.X, q.Y, q.U, q.V) for q in a.collections
                            if isinstance(q, Quiver)],
                    xscale=a.get_xscale(), yscale=a.get_yscale(),
                    ylim=a.get_ylim(), yticks=a.get_yticks(),
                    xlabel=a.get_xlabel(), ylabel=a.get_ylabel()))
        return out
    def eq(self, a, b): return eq_conc(a, b)
    same = eq
    def le(self, a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return bool(np.all(a <= b + 1e-9 * np.maximum(1, np.abs(b))))
    def lt(self, a, b): return bool(np.all(a < b))
    def all(self, xs): return all(_cc(x) for x in xs)
    def any(self, xs): return any(_cc(x) for x in xs)
    def implies(self, a, b): return (not _cc(a)) or _cc(b)
    def neg(self, a): return not _cc(a)
    def fmt(self, x):
        return repr(x.item() if isinstance(x, np.generic) else x)
    def sqrt(self, x): return math.sqrt(x)
    def exp(self, x): return math.exp(x)
    def power(self, a, b): return a ** b
    def observe(self, label, v): self.observations.append((label, v))
    def save_mat(self, path, name, records):
        import scipy.io
        fields = list(records[0])
        a = np.empty((len(records), 1), dtype=[(f, object) for f in fields])
        for i, r in enumerate(records):
            for f in fields: a[f][i, 0] = np.asarray(r[f])
        scipy.io.savemat(path, {name: a, 'directory': 'x'})
    def opaque_roots(self): pass
    def lazy_abs(self): pass
    def savez(self, path, **kw): np.savez(path, **kw)
    def configparser(self):
        import configparser
        return configparser.ConfigParser()


def _cc(c):
    return bool(np.all(c))


def eq_conc(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or \
            isinstance(b, (list, tuple, np.ndarray)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: return False
        if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
            a, b = a.astype(float), b.astype(float)
            with np.errstate(all='ignore'):
                ok = (a == b) | (np.isfinite(a) & np.isfinite(b) &
                    (np.abs(a - b) <= 1e-9 * np.maximum(1, np.maximum(
                        np.abs(a), np.abs(b)))))
            return bool(np.all(ok))
        return bool(np.all(a == b))
    if isinstance(a, np.generic): a = a.item()
    if isinstance(b, np.generic): b = b.item()
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b)
    return a == b


def clean(scratch):
    for n in os.listdir(scratch):
        p = os.path.join(scratch, n)
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
        else: os.unlink(p)


class Entries(object):
    """What os.scandir gives, in a chosen order."""
    def __init__(self, es): self.it = iter(es)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass


class Order(object):
    """Directories under the scratch directory are listed in the order the
    scenario chooses, by whatever means."""
    def __init__(self, env): self.env = env
    def __enter__(self):
        self.saved = ld, sd = os.listdir, os.scandir
        env = self.env
        def order(d, names):
            names = sorted(names)
            try: inside = os.path.abspath(os.fspath(d)).startswith(
                str(env.scratch))
            except TypeError: inside = False
            return env._perm(names) if env._perm is not None and inside \
                else names
        def listdir(d='.'):
            if d is None: d = '.'
            return order(d, ld(d))
        def scandir(d='.'):
            if d is None: d = '.'
            with sd(d) as it: es = {e.name: e for e in it}
            return Entries([es[n] for n in order(d, es)])
        os.listdir, os.scandir = listdir, scandir
    def __exit__(self, *a):
        os.listdir, os.scandir = self.saved


class Poison(Order):
    """np.empty gives recognisable garbage, directories a chosen order."""
    def __init__(self, env): self.env = env
    def __enter__(self):
        Order.__enter__(self)
        self.saved_np = (np.empty, np.empty_like)
        def bad(a):
            if a.dtype.fields is not None:
                for n in a.dtype.names:
                    if a.dtype.fields[n][0].base.kind in 'fiu': bad(a[n])
            elif a.dtype.kind == 'f': a.fill(np.nan)
            elif a.dtype.kind == 'i': a.fill(-98765)
            return a
        e, el = self.saved_np
        def empty(*a, **k):
            return bad(e(*a, **k))
        def empty_like(*a, **k):
            return bad(el(*a, **k))
        np.empty, np.empty_like = empty, empty_like
    def __exit__(self, *a):
        np.empty, np.empty_like = self.saved_np
        Order.__exit__(self)


def numeric(v, vals):
    """Value of a symbolic number under values of the inputs."""
    v = pynum(v)
    if isinstance(v, SymNum):
        d = _np(v.d, vals)
        return _np(v.n, vals) / d if d else float('nan')
    return v


def _np(p, vals):
    s = 0.
    for m, c in p.t.items():
        t = float(c)
        for a, e in m: t *= _na(core.ENGINE.atom_list[a], vals) ** e
        s += t
    return s


def _na(at, vals):
    k = at.key[0]
    if k == 'in': return float(vals.get(at.key[1], 0))
    if k == 'sq': return _np(at.sqof, vals) ** 2
    if k == 'rad': return math.sqrt(max(_np(at.define, vals), 0.))
    if k in ('min', 'max'):
        return {'min': min, 'max': max}[k](_np(at.key[1], vals),
                                           _np(at.key[2], vals))
    if k == 'pw': return _np(at.key[1], vals) ** _np(at.key[2], vals)
    if k == 'exp': return math.exp(_np(at.key[1], vals))
    if k == 'log':
        return {'e': math.log, '10': math.log10, '2': math.log2}[at.key[1]](
            _np(at.key[2], vals))
    if k == 'unlog':
        r = 1.
        for p, f in at.key[2]: r *= _np(p, vals) ** float(f)
        return r
    if k == 'floor': return math.floor(_np(at.key[1], vals))
    raise KeyError(k)
