"""
Path-exploring symbolic executor: engine, symbolic numbers and booleans.

Numbers are rational functions (quotients of polynomials with rational
coefficients) over *atoms*: the symbolic inputs, and applications of functions
that have no polynomial form (square root, square of a sum, power, exp, floor).
The polynomial normal form decides algebraic identities; everything else
(feasibility of branches, order, obligations) is decided by z3.
"""
import sys, math, time, itertools, functools
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy as np


class SymUnsupported(BaseException):
    """The encoding does not cover something the code did on this path."""


class PathAbort(BaseException):
    """The path's assumptions are unsatisfiable (or it is not wanted)."""


class Undef(object):
    """An element of np.empty() that was never written."""
    __slots__ = ()
    def __repr__(self): return '<unset memory>'
    def _r(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _r
    __truediv__ = __rtruediv__ = __neg__ = __pos__ = __abs__ = _r
    __pow__ = __rpow__ = __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _r
    def _cmp(self, other): raise UndefUse("comparison of unset memory")
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp
    def __bool__(self): raise UndefUse("truth value of unset memory")
    def __index__(self): raise UndefUse("unset memory used as an index")
    __int__ = __float__ = __index__
    __hash__ = object.__hash__


class UndefUse(Exception):
    pass


UNDEF = Undef()

# --------------------------------------------------------------------------
# The engine
# --------------------------------------------------------------------------
ENGINE = None


def engine():
    return ENGINE


class Engine(object):
    """Explores all paths of a scenario by re-execution, depth first."""

    def __init__(self, seed=0, solver_timeout_ms=20000, max_paths=200000,
                 deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.solver.set('random_seed', seed)
        self.timeout_ms = solver_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stack = []          # decisions of the current path: [alt, n_alts/None, taken alternatives left]
        self.kept = 0            # solver levels still valid from last path
        self.stats = dict(paths=0, aborted=0, branches=0, queries=0,
                          solver_s=0., obligations=0, folded=0, unknown=0,
                          unsupported=0)
        self.truncated = False

    # ---- one path
    def begin(self):
        global ENGINE
        ENGINE = self
        self.pos = 0
        self.model = None
        self.atoms = {}
        self.atom_list = []
        self.means = {}
        self.mono_memo = {}
        self.opaque = False
        self.lazy_abs = False
        self.nonzero = set()
        self.positive = set()
        self.bounds = {}
        self.fixed = {}
        self.inputs = {}
        self.choices = {}
        self.obligations = []
        self.folded_terms = []
        self.observed = []
        self.tokens = {}
        self.token_ix = {}
        self.facts_here = []
        self.facts = []
        self.ctr = itertools.count()
        self.path_notes = []

    def check(self, *extra):
        t = time.time()
        self.stats['queries'] += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r, m

    def add_fact(self, z):
        """Assert on the current path (definition or assumption)."""
        self.facts.append(z)
        if self.pos >= len(self.stack):     # not a re-execution
            self.solver.add(z)
        if self.model is not None and \
                not z3.is_true(self.model.eval(z, model_completion=True)):
            self.model = None

    def assume(self, cond):
        if isinstance(cond, SymB):
            cond.learn(True)
            self.add_fact(cond.z)
            return
        if not cond:
            raise PathAbort()

    def _ensure_model(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise PathAbort()
            self.model = m     # may be None on unknown
        return self.model

    def _decide(self, n):
        """Next decision among n alternatives, without feasibility checks."""
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d[1] != n:
                raise RuntimeError("nondeterministic re-execution: decision"
                    " %d had %s alternatives, now %s" % (self.pos, d[1], n))
            return d[0], False
        self.stack.append([0, n, list(range(1, n))])
        return 0, True

    def _push(self, z):
        """Enter the next level of the solver stack with literal z."""
        self.facts.append(z)
        self.pos += 1
        if self.pos > self.kept:
            self.solver.push()
            self.solver.add(z)
            self.kept = self.pos

    def choose(self, n):
        """A nondeterministic choice of 0..n-1; all are explored."""
        if n <= 1:
            return 0
        k, _ = self._decide(n)
        self._push(z3.BoolVal(True))
        return k

    def branch(self, z):
        """Truth value of a z3 condition on this path, forking if both."""
        self.stats['branches'] += 1
        if self.stats['branches'] % 256 == 0 and self.deadline and \
                time.time() > self.deadline:
            self.truncated = True
            raise PathAbort()
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d[1] != 'b':
                raise RuntimeError("nondeterministic re-execution")
            val = d[0]
            zz = z if val else z3.Not(z)
            if self.model is not None and not z3.is_true(
                    self.model.eval(zz, model_completion=True)):
                self.model = None
            self._push(zz)
            return val
        # First visit: find out which sides are feasible.
        m = self._ensure_model()
        if m is None:
            first = True
            r1, m1 = self.check(z)
            if r1 == z3.unsat:
                first = False
                alts = []
            else:
                r2, m2 = self.check(z3.Not(z))
                alts = [] if r2 == z3.unsat else [False]
                m = m1
        else:
            first = z3.is_true(m.eval(z, model_completion=True))
            r, m2 = self.check(z3.Not(z) if first else z)
            alts = [] if r == z3.unsat else [not first]
        self.stack.append([first, 'b', alts])
        self.model = m
        self._push(z if first else z3.Not(z))
        return first

    def backtrack(self):
        """Prepare for the next path. False when all are done."""
        while self.stack and not self.stack[-1][2]:
            self.stack.pop()
        if not self.stack:
            return False
        d = self.stack[-1]
        d[0] = d[2].pop(0)
        keep = len(self.stack) - 1
        while self.kept > keep:
            self.solver.pop()
            self.kept -= 1
        return True

    # ---- atoms
    def fresh_name(self, base):
        return '%s!%d' % (base, next(self.ctr))

    def atom(self, key, sort, make_axioms=None, nonneg=False, pos=False,
             sq=None, define=None):
        """Interned atom. key: structural key."""
        a = self.atoms.get(key)
        if a is None:
            a = Atom(len(self.atom_list), key, sort)
            a.nonneg, a.pos, a.sqof, a.define = nonneg or pos, pos, sq, define
            self.atoms[key] = a
            self.atom_list.append(a)
            if make_axioms is not None:
                for ax in make_axioms(a):
                    self.add_fact(ax)
        return a

    # ---- inputs
    def new_int(self, name, lo=None, hi=None):
        a = self.atom(('in', name), 'i')
        v = SymNum(Poly.of_atom(a), ONE, 'i')
        self.inputs[name] = v
        if lo is not None:
            self.add_fact(a.z >= lo)
            if type(lo) is int: bound('>=', v.n - Poly.const(lo))
        if hi is not None:
            self.add_fact(a.z <= hi)
            if type(hi) is int: bound('<=', v.n - Poly.const(hi))
        return v

    def new_real(self, name):
        a = self.atom(('in', name), 'r')
        v = SymNum(Poly.of_atom(a), ONE, 'r')
        self.inputs[name] = v
        return v

    def new_aux(self, sort):
        """A value known only by the facts asserted about it."""
        a = self.atom(('aux', len(self.atom_list)), sort)
        return SymNum(Poly.of_atom(a), ONE, sort)

    def token(self, v, kind):
        """A piece of text standing for a symbolic number."""
        key = (v.n, v.d, kind)
        t = self.token_ix.get(key)
        if t is None:
            t = '__sx%s%dz__' % (kind, len(self.tokens))
            self.tokens[t] = v
            self.token_ix[key] = t
        return t

    # ---- obligations
    def require(self, cond, label):
        self.stats['obligations'] += 1
        if isinstance(cond, SymB):
            self.obligations.append((cond, label))
        elif cond is True or (not isinstance(cond, SymB) and bool(cond)):
            self.stats['folded'] += 1
            self.obligations.append((True, label))
        else:
            self.obligations.append((False, label))


# --------------------------------------------------------------------------
# Polynomials
# --------------------------------------------------------------------------
class Atom(object):
    __slots__ = ('id', 'key', 'sort', 'z', 'zr', 'nonneg', 'pos', 'sqof',
                 'define')
    def __init__(self, i, key, sort):
        self.id, self.key, self.sort = i, key, sort
        name = key[1] if key[0] == 'in' else '%s#%d' % (key[0], i)
        if sort == 'i':
            self.z = z3.Int(name)
            self.zr = z3.ToReal(self.z)
        else:
            self.z = self.zr = z3.Real(name)
        self.nonneg = self.pos = False
        self.sqof = self.define = None


def _inv(c):
    """1/c, an int when it is one."""
    if c == 1 or c == -1: return c
    c = Fraction(1) / c
    return c.numerator if c.denominator == 1 else c


def expand_roots(p):
    """p with the squares of roots replaced by their radicands."""
    e = ENGINE
    was, e.opaque = e.opaque, False
    e.mono_memo = {}
    try:
        for _ in range(8):
            out, hit = ZERO, False
            for m, c in p.t.items():
                q = Poly.const(c)
                for a, k in m:
                    at = e.atom_list[a]
                    r = None
                    if at.key[0] == 'sq' and len(at.sqof.t) == 1:
                        (mm, cc), = at.sqof.t.items()
                        if len(mm) == 1 and mm[0][1] == 1 and \
                                e.atom_list[mm[0][0]].key[0] == 'rad':
                            r = e.atom_list[mm[0][0]].define.scale(cc * cc)
                            hit = True
                    if r is None: r = Poly.of_atom(at)
                    for _k in range(k): q = q * r
                out = out + q
            p = out
            if not hit: break
    finally:
        e.opaque = was
        e.mono_memo = {}
    return p


def _reduce_mono(m1, m2):
    """Product of monomials; returns (mono, extra polynomial factor|None)."""
    if not m1: return m2, None
    if not m2: return m1, None
    memo = ENGINE.mono_memo
    k = (m1, m2)
    r = memo.get(k)
    if r is None: r = memo[k] = _reduce_mono1(m1, m2)
    return r


def _reduce_mono1(m1, m2):
    """Product of monomials; returns (mono, extra polynomial factor|None)."""
    if not m1: return m2, None
    if not m2: return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    atoms = ENGINE.atom_list
    again = True
    while again:
        again = False
        for a in list(d):
            e = d.get(a, 0)
            if e >= 2:
                at = atoms[a]
                if at.key[0] == 'rad' and not ENGINE.opaque:
                    # rad(p)^2 = p
                    d[a] = e % 2
                    if not d[a]: del d[a]
                    p = at.define
                    f = p
                    for _ in range(e // 2 - 1):
                        f = f * p
                    extra = f if extra is None else extra * f
                else:
                    s = _sq_atom(Poly.of_atom(at))
                    d[a] = e % 2
                    if not d[a]: del d[a]
                    d[s.id] = d.get(s.id, 0) + e // 2
                    again = True
    return tuple(sorted(d.items())), extra


class Poly(object):
    __slots__ = ('t', '_h', '_z')
    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None

    @staticmethod
    def const(c):
        if type(c) is not int:
            c = Fraction(c)
            if c.denominator == 1: c = c.numerator
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def of_atom(a):
        return Poly({((a.id, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if not self.t: return o
        if not o.t: return self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c: return ZERO
        if c == 1: return self
        return Poly({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        if self.is_const(): return o.scale(self.cval())
        if o.is_const(): return self.scale(o.cval())
        # squares of sums stay opaque (linear over 'sq' atoms)
        if len(self.t) > 1 and len(o.t) == len(self.t):
            a, ca = self.monic()
            b, cb = o.monic()
            if a == b and a.degree() == 1 and not (ENGINE.opaque and any(
                    ENGINE.atom_list[k].key[0] in ('sq', 'rad')
                    for k in a.atoms())):
                return Poly.of_atom(_sq_atom(a)).scale(ca * cb)
        t = {}
        extras = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, ex = _reduce_mono(m1, m2)
                if ex is None:
                    v = t.get(m, 0) + c1 * c2
                    if v: t[m] = v
                    else: t.pop(m, None)
                else:
                    extras.append(Poly({m: c1 * c2}) * ex)
        r = Poly(t)
        for e in extras:
            r = r + e
        return r

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def monic(self):
        """(p/c, c) with the leading coefficient of p/c equal to one."""
        if not self.t:
            return self, 1
        lead = max(self.t)
        c = self.t[lead]
        return (self if c == 1 else self.scale(_inv(c))), c

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def int_valued(self):
        al = ENGINE.atom_list
        return all(c.denominator == 1 for c in self.t.values()) and \
            all(al[a].sort == 'i' for a in self.atoms())

    def z3(self, real=False):
        """As a z3 term (Int if every atom and coefficient is integer)."""
        if self._z is not None and real in self._z:
            return self._z[real]
        al = ENGINE.atom_list
        isint = (not real) and self.int_valued()
        num = (lambda c: z3.IntVal(c.numerator)) if isint else \
            (lambda c: z3.RealVal(str(c)))
        terms = []
        for m in sorted(self.t):
            c = self.t[m]
            fs = []
            for a, e in m:
                v = al[a].z if isint else al[a].zr
                fs.extend([v] * e)
            if not fs:
                terms.append(num(c))
                continue
            f = fs[0]
            for g in fs[1:]:
                f = f * g
            terms.append(f if c == 1 else num(c) * f)
        r = num(Fraction(0)) if not terms else \
            (terms[0] if len(terms) == 1 else z3.Sum(terms))
        if self._z is None:
            self._z = {}
        self._z[real] = r
        return r

    def surely_positive(self):
        """All coefficients and atoms positive on this path."""
        if not self.t: return False
        if any(c < 0 for c in self.t.values()): return False
        e = ENGINE
        strict = False
        for m in self.t:
            ok = True
            for a, k in m:
                at = e.atom_list[a]
                if at.pos or a in e.positive:
                    continue
                if at.nonneg or k % 2 == 0:
                    ok = False
                    continue
                return False
            strict = strict or ok
        return strict


ZERO = Poly({})
ONE = Poly({(): 1})


def _sq_atom(p):
    """The atom for p*p, p made monic by the caller (sign is lost)."""
    def ax(a):
        zp = p.z3()
        zero = (zp == 0)
        return [a.z >= 0, (a.z == 0) == zero]
    at = ENGINE.atom(('sq', p), 'i' if p.int_valued() else 'r', ax,
                     nonneg=True, sq=p)
    if not at.pos and _known_nonzero(p):
        ENGINE.positive.add(at.id)
    return at


def _known_nonzero(p):
    pm, _ = p.monic()
    return pm in ENGINE.nonzero


def _sgn_const(p):
    return (p.cval() > 0) - (p.cval() < 0)


def exact_facts():
    """The exact meaning of 'sq' and 'rad' atoms, as extra constraints."""
    out = []
    for a in ENGINE.atom_list:
        if a.key[0] == 'sq':
            z = a.sqof.z3()
            out.append(a.z == z * z)
        elif a.key[0] == 'rad':
            out.append(a.z * a.z == a.define.z3(True))
    return out


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------
def is_linear(v):
    return v.d is ONE and all(len(m) <= 1 and all(
        e == 1 and ENGINE.atom_list[a].key[0] in ('in', 'min', 'max')
        for a, e in m) for m in v.n.t)


def extreme(a, b, smaller):
    """The smaller or greater of two linear values, without forking."""
    k = sorted((a.n, b.n), key=lambda p: sorted(map(str, p.t.items())))
    x, y = k[0].z3(True), k[1].z3(True)
    def ax(at):
        yield z3.And(at.z <= x, at.z <= y) if smaller else \
            z3.And(at.z >= x, at.z >= y)
        yield z3.Or(at.z == x, at.z == y)
    at = ENGINE.atom(('min' if smaller else 'max', k[0], k[1]), 'r', ax)
    return SymNum(Poly.of_atom(at), ONE, 'r')


NEGATED = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '<=': '>', '>': '<='}
FLIPPED = {'==': '==', '!=': '!=', '<': '>', '>=': '<=', '<=': '>=', '>': '<'}
SMALL = 10


def subst(p):
    """p with the values of the integers that are fixed on this path."""
    fx = ENGINE.fixed
    for m in p.t:
        if any(a in fx for a, _ in m): break
    else: return p
    t = {}
    for m, c in p.t.items():
        if any(a in fx for a, _ in m):
            for a, k in m:
                if a in fx: c = c * fx[a] ** k
            m = tuple((a, k) for a, k in m if a not in fx)
        v = t.get(m, 0) + c
        if v: t[m] = v
        else: t.pop(m, None)
    return Poly(t)


def _form(p):
    """(f, a, c) with p = a*f + c, f monic without constant."""
    c = p.t.get((), 0)
    if c:
        p = Poly({m: v for m, v in p.t.items() if m})
    f, a = p.monic()
    return f, a, c


def implied(op, p):
    """Truth of p op 0 where comparisons decided before on this path tell,
    otherwise None."""
    e = ENGINE
    if len(p.t) > SMALL: return None
    if e.fixed: p = subst(p)
    if p.is_const():
        c = p.cval()
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    f, a, c = _form(p)
    b = e.bounds.get(f)
    if b is None: return None
    if a < 0: op = FLIPPED[op]
    r = Fraction(-c) / a
    lo, los, hi, his, ne = b
    # f op r
    if op == '==' or op == '!=':
        if (lo is not None and (lo > r or los and lo == r)) or \
                (hi is not None and (hi < r or his and hi == r)) or r in ne:
            return op == '!='
        if lo is not None and lo == hi == r and not los and not his:
            return op == '=='
        return None
    if op in ('>', '<='):
        yes = lo is not None and (lo > r or los and lo == r)
        no = hi is not None and hi <= r
        if op == '<=': yes, no = no, yes
    else:
        yes = lo is not None and lo >= r
        no = hi is not None and (hi < r or his and hi == r)
        if op == '<': yes, no = no, yes
    return True if yes else False if no else None


def bound(op, p):
    """Note that p op 0 holds on this path."""
    e = ENGINE
    if len(p.t) > SMALL: return
    if e.fixed: p = subst(p)
    if p.is_const(): return
    f, a, c = _form(p)
    if a < 0: op = FLIPPED[op]
    r = Fraction(-c) / a
    lo, los, hi, his, ne = e.bounds.get(f, (None, False, None, False, ()))
    isint = f.int_valued()
    if op == '==':
        lo = hi = r
        los = his = False
    elif op == '!=':
        ne = tuple(ne) + (r,)
    elif op in ('>', '>='):
        st = op == '>'
        if isint:
            r, st = Fraction(math.floor(r) + 1 if st else math.ceil(r)), False
        if lo is None or r > lo or (r == lo and st): lo, los = r, st
    else:
        st = op == '<'
        if isint:
            r, st = Fraction(math.ceil(r) - 1 if st else math.floor(r)), False
        if hi is None or r < hi or (r == hi and st): hi, his = r, st
    if isint:
        while lo is not None and lo in ne: lo += 1
        while hi is not None and hi in ne: hi -= 1
    e.bounds[f] = (lo, los, hi, his, ne)
    if isint and lo is not None and lo == hi and len(f.t) == 1:
        (m,) = f.t
        if len(m) == 1 and m[0][1] == 1: e.fixed[m[0][0]] = int(lo)


class SymB(object):
    """A symbolic truth value."""
    __slots__ = ('z', 'meta')
    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import sarray
        return sarray.array_ufunc(ufunc, method, *a, **k)
    def __init__(self, z, meta=None):
        self.z = z
        self.meta = meta      # (op, poly): poly op 0

    def __bool__(self):
        if self.meta is not None:
            r = implied(*self.meta)
            if r is not None: return r
        r = ENGINE.branch(self.z)
        self.learn(r)
        return r

    def learn(self, val):
        if self.meta is None: return
        op, p = self.meta
        e = ENGINE
        if not val: op = NEGATED[op]
        bound(op, p)
        if op in ('!=', '<', '>'):
            pm, c = p.monic()
            e.nonzero.add(pm)
            if len(pm.t) == 1:
                (m,) = pm.t
                for a, k in m:
                    at = e.atom_list[a]
                    if at.nonneg:
                        _mark_positive(at)
            if len(pm.t) == 1 and op != '!=':
                (m,) = pm.t
                if len(m) == 1 and m[0][1] == 1 and \
                        ((op == '>') == (c > 0)):
                    _mark_positive(e.atom_list[m[0][0]])
            # a sum of nonnegatives that is nonzero: its root is positive
            r = e.atoms.get(('rad', pm))
            if r is not None:
                e.positive.add(r.id)

    def __and__(self, o):
        if isinstance(o, SymB): return SymB(z3.And(self.z, o.z))
        if isinstance(o, SymNum) or o is UNDEF: raise SymUnsupported('bool & num')
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymB): return SymB(z3.Or(self.z, o.z))
        if isinstance(o, SymNum) or o is UNDEF: raise SymUnsupported('bool | num')
        return True if o else self
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymB): return SymB(z3.Xor(self.z, o.z))
        return ~self if o else self
    __rxor__ = __xor__

    def __invert__(self):
        meta = None
        if self.meta is not None:
            op, p = self.meta
            meta = ({'==': '!=', '!=': '==', '<': '>=', '>=': '<',
                     '<=': '>', '>': '<='}[op], p)
        return SymB(z3.Not(self.z), meta)

    def __eq__(self, o):
        if isinstance(o, SymB): return SymB(self.z == o.z)
        if isinstance(o, (bool, int)) or type(o).__name__ in ('bool', 'bool_'):
            return self if o == 1 else (~self if o == 0 else False)
        return self._num() == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymB) else not r

    def _num(self):
        return 1 if bool(self) else 0
    def __int__(self): return self._num()
    __index__ = __int__
    def __float__(self): return float(self._num())
    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self._num() / o
    def __rtruediv__(self, o): return o / self._num()
    def __neg__(self): return -self._num()
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __hash__(self): return hash(bool(self))
    def __repr__(self): return 'SymB(%s)' % (self.z,)


def _mark_positive(at):
    e = ENGINE
    e.positive.add(at.id)
    if at.key[0] == 'rad':
        d = at.define
        e.nonzero.add(d.monic()[0])
        if len(d.t) == 1:
            (m,) = d.t
            for a, k in m:
                if e.atom_list[a].nonneg:
                    e.positive.add(a)


def b_and(a, b):
    if isinstance(a, SymB) or isinstance(b, SymB):
        return a & b if isinstance(a, SymB) else b & a
    return bool(a) and bool(b)


def b_or(a, b):
    if isinstance(a, SymB) or isinstance(b, SymB):
        return a | b if isinstance(a, SymB) else b | a
    return bool(a) or bool(b)


def b_not(a):
    return ~a if isinstance(a, SymB) else (not a)


def b_all(xs):
    zs = []
    for x in xs:
        if isinstance(x, SymB): zs.append(x)
        elif not x: return False
    if not zs: return True
    if len(zs) == 1: return zs[0]
    return SymB(z3.And([s.z for s in zs]))


def b_any(xs):
    zs = []
    for x in xs:
        if isinstance(x, SymB): zs.append(x)
        elif x: return True
    if not zs: return False
    if len(zs) == 1: return zs[0]
    return SymB(z3.Or([s.z for s in zs]))


# --------------------------------------------------------------------------
# Numbers
# --------------------------------------------------------------------------
_INF = float('inf')


def is_special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def plain(c, kind):
    """A Python number for a rational constant, if exact."""
    if kind == 'i':
        return int(c)
    f = float(c)
    if frac(f) == c:
        return f
    return None


@functools.lru_cache(maxsize=65536)
def frac(x):
    """The rational a float stands for: its shortest decimal notation, so
    that 0.001 is 1/1000."""
    return Fraction(repr(x))


def mk(num, den=ONE, kind='r'):
    """Normalise num/den to a Python number or SymNum."""
    if not num.t:
        return 0 if kind == 'i' else 0.0
    if den is not ONE:
        if den.is_const():
            num = num.scale(_inv(den.cval()))
            den = ONE
        else:
            dm, c = den.monic()
            if c != 1:
                num = num.scale(_inv(c))
                den = dm
            nm, cn = num.monic()
            if nm == den:
                num, den = Poly.const(cn), ONE
            elif len(den.t) == 1:
                num, den = _cancel_mono(num, den)
    if den is ONE and num.is_const():
        p = plain(num.cval(), kind)
        if p is not None:
            return p
    return SymNum(num, den, kind)


def _cancel_mono(num, den):
    (dm, dc), = den.t.items()
    common = dict(dm)
    for m in num.t:
        md = dict(m)
        for a in list(common):
            e = min(common[a], md.get(a, 0))
            if e: common[a] = e
            else: del common[a]
        if not common:
            return num, den
    def div(m):
        return tuple((a, e - common.get(a, 0)) for a, e in m
                     if e - common.get(a, 0))
    num = Poly({div(m): c for m, c in num.t.items()})
    d = div(dm)
    return num, (ONE if not d and dc == 1 else Poly({d: dc}))


def lift(x):
    """SymNum (or None if x is not a finite real number)."""
    if isinstance(x, SymNum): return x
    if isinstance(x, SymB): return lift(x._num())
    if isinstance(x, bool): return SymNum(Poly.const(int(x)), ONE, 'i')
    if isinstance(x, int): return SymNum(Poly.const(x), ONE, 'i')
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x): return None
        return SymNum(Poly.const(frac(float(x))), ONE, 'r')
    if isinstance(x, Fraction): return SymNum(Poly.const(x), ONE, 'r')
    if isinstance(x, (np.generic, np.ndarray)) and x.ndim == 0:
        return lift(x.item())
    return None


def pynum(x):
    """numpy scalars to Python ones."""
    if type(x) in (SymNum, SymB, int, float, bool, Undef): return x
    if isinstance(x, np.generic) or (isinstance(x, np.ndarray) and
                                     x.ndim == 0):
        return x.item()
    return x


def _numlike(x):
    return isinstance(x, (int, float, Fraction, SymB)) or (
        isinstance(x, (np.generic, np.ndarray)) and x.ndim == 0 and
        not isinstance(x.item(), (str, bytes)))


class SymNum(object):
    """A symbolic number num/den, of kind 'i' (integer) or 'r' (real)."""
    __slots__ = ('n', 'd', 'kind')
    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import sarray
        return sarray.array_ufunc(ufunc, method, *a, **k)

    def __init__(self, n, d, kind):
        self.n, self.d, self.kind = n, d, kind

    # numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1
    @property
    def dtype(self):
        return np.dtype('i8' if self.kind == 'i' else 'f8')
    def item(self): return self
    def astype(self, t, copy=True):
        from . import sarray
        return sarray.cast(self, sarray.ld_of(t))
    def squeeze(self, *a): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def tolist(self): return self
    def any(self): return self != 0
    all = any
    def sum(self, *a, **k): return self
    def __getitem__(self, ix):
        from . import sarray
        return sarray.mk0d(self)[ix]
    def reshape(self, *a, **k):
        from . import sarray
        return sarray.mk0d(self).reshape(*a, **k)
    @property
    def T(self): return self
    @property
    def real(self): return self
    imag = 0

    def __repr__(self):
        try:
            if self.d is ONE:
                return 'Sym(%s)' % (self.n.z3(),)
            return 'Sym((%s)/(%s))' % (self.n.z3(), self.d.z3())
        except Exception:
            return 'Sym(?)'

    def z3(self):
        """z3 term (denominators known nonzero on the path)."""
        if self.d is ONE:
            return self.n.z3()
        return self.n.z3(True) / self.d.z3(True)

    def _bin(self, o):
        if isinstance(o, SymNum): return o
        if _numlike(o): return lift(o)
        return NotImplemented

    # -- arithmetic
    def __add__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        if b is None: return pynum(o)
        k = 'i' if self.kind == b.kind == 'i' else 'r'
        if self.d is ONE and b.d is ONE:
            return mk(self.n + b.n, ONE, k)
        if self.d == b.d:
            return mk(self.n + b.n, self.d, k)
        # one denominator divides the other (monomials)?
        return mk(self.n * b.d + b.n * self.d, self.d * b.d, k)
    __radd__ = __add__

    def __neg__(self):
        return SymNum(-self.n, self.d, self.kind)
    def __pos__(self):
        return self

    def __sub__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        if b is None: return -pynum(o)
        return self + (-b)
    def __rsub__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        if b is None: return pynum(o)
        return b + (-self)

    def __mul__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        if b is None:
            o = pynum(o)
            if math.isnan(o): return o
            if bool(self == 0): return float('nan')
            return o if bool(self > 0) else -o
        k = 'i' if self.kind == b.kind == 'i' else 'r'
        if self.d is ONE and b.d is ONE:
            return mk(self.n * b.n, ONE, k)
        n1, d1, n2, d2 = self.n, self.d, b.n, b.d
        n1, d2 = _xcancel(n1, d2)
        n2, d1 = _xcancel(n2, d1)
        return mk(n1 * n2, _pmul1(d1, d2), k)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        if b is None:
            o = pynum(o)
            return o if math.isnan(o) else 0.0
        return _div(self, b)
    def __rtruediv__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        if b is None:
            o = pynum(o)
            if math.isnan(o): return o
            if bool(self == 0): return o
            return o if bool(self > 0) else -o
        return _div(b, self)

    def __floordiv__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        return _floordiv(self, b)
    def __rfloordiv__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        return _floordiv(b, self)
    def __mod__(self, o):
        b = self._bin(o)
        if b is NotImplemented: return b
        return self - _floordiv(self, b) * b
    def __rmod__(self, o):
        if isinstance(o, str): return NotImplemented
        b = self._bin(o)
        if b is NotImplemented: return b
        return b - _floordiv(b, self) * self
    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o):
        return power(self, o)
    def __rpow__(self, o):
        return power(o, self)
    def __abs__(self):
        if self.d is ONE and self.n.surely_positive(): return self
        if self.d is ONE and len(self.n.t) == 1:
            (m, c), = self.n.t.items()
            if all(ENGINE.atom_list[a].nonneg for a, _ in m):
                return self if c > 0 else -self
        if ENGINE.lazy_abs and is_linear(self):
            return extreme(self, -self, False)
        return self if bool(self >= 0) else -self
    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def conjugate(self): return self
    def __round__(self, nd=None):
        if self.kind == 'i': return self
        from . import npmore
        r = npmore.round_to(self, nd or 0)
        return trunc(r) if nd is None else r
    def is_integer(self):
        return self.kind == 'i'

    # -- comparison
    def _cmp(self, o, op):
        b = self._bin(o)
        if b is NotImplemented: return b
        if b is None:
            o = pynum(o)
            if math.isnan(o): return op == '!='
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[op]
        return compare(self, b, op)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r
    def __hash__(self):
        return 0x51 if True else 0
    def __bool__(self):
        return bool(self != 0)

    # bit operations on symbolic integers (only the useful one)
    def __invert__(self):
        return -self - 1
    def __and__(self, o): raise SymUnsupported('bitwise and')
    __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __and__
    __lshift__ = __rshift__ = __and__

    # -- concretisation
    def __index__(self):
        if self.kind != 'i':
            raise TypeError("only integers can be used as an index"
                            " (got a floating-point number)")
        return concretize(self)
    def __int__(self):
        return concretize(trunc(self))
    def __trunc__(self):
        return trunc(self)
    def __float__(self):
        if self.d is ONE and self.n.is_const():
            return float(self.n.cval())
        raise SymUnsupported('float() of a symbolic number in native code')
    def __format__(self, spec):
        from . import text
        return text.format_spec(self, spec)
    def __str__(self):
        from . import text
        return text.to_str(self)


def _pmul1(a, b):
    if a is ONE: return b
    if b is ONE: return a
    return a * b


def _xcancel(n, d):
    """Cancel equal polynomials of numerator and denominator."""
    if d is ONE: return n, d
    nm, c = n.monic()
    dm, e = d.monic()
    if nm == dm:
        return Poly.const(c / e), ONE
    if len(d.t) == 1:
        return _cancel_mono(n, d)
    return n, d


def _isnonzero(p):
    if p.is_const(): return bool(p.t)
    if p.surely_positive() or (-p).surely_positive(): return True
    return _known_nonzero(p)


def _nonzero_fork(p):
    """True if polynomial p is nonzero on this path (forks)."""
    if _isnonzero(p): return True
    return not bool(SymB(p.z3() == 0, ('==', p)))


def _div(a, b):
    if not b.n.t or not _nonzero_fork(b.n):
        # IEEE: x/0
        if not a.n.t or bool(a == 0): return float('nan')
        return _INF if bool(a > 0) else -_INF
    n1, d2 = _xcancel(a.n, b.n)        # a.n / b.n
    n2, d1 = _xcancel(b.d, a.d)        # b.d / a.d
    return mk(n1 * n2, _pmul1(d1, d2), 'r')


def _floordiv(a, b):
    if b is None: raise SymUnsupported('floor division by infinity')
    kind = 'i' if a.kind == b.kind == 'i' else 'r'
    if not (b.d is ONE and b.n.is_const()):
        raise SymUnsupported('floor division by a symbolic number')
    c = b.n.cval()
    if not c:
        raise ZeroDivisionError('integer division or modulo by zero')
    if a.d is not ONE:
        raise SymUnsupported('floor of a quotient')
    q = floor_atom(a.n.scale(_inv(c)))
    return SymNum(q.n, q.d, kind) if isinstance(q, SymNum) else \
        (q if kind == 'i' else float(q))


def floor_atom(p):
    """floor(p) as an integer."""
    if p.is_const(): return math.floor(p.cval())
    if p.int_valued(): return mk(p, ONE, 'i')
    def ax(a):
        z = p.z3(True)
        return [a.zr <= z, z < a.zr + 1]
    a = ENGINE.atom(('floor', p), 'i', ax)
    return SymNum(Poly.of_atom(a), ONE, 'i')


def trunc(x):
    """C-style conversion to an integer."""
    x = pynum(x)
    if isinstance(x, Undef): return x
    if isinstance(x, SymB): return x._num()
    if not isinstance(x, SymNum):
        return int(x)
    if x.kind == 'i': return x
    if x.d is not ONE:
        raise SymUnsupported('int() of a quotient')
    if x.n.int_valued(): return mk(x.n, ONE, 'i')
    if bool(x >= 0): return floor_atom(x.n)
    q = floor_atom(-x.n)
    return -q


def to_real(x):
    if isinstance(x, SymNum):
        return x if x.kind == 'r' else SymNum(x.n, x.d, 'r')
    if isinstance(x, SymB): return float(x)
    return x


def concretize(x):
    """A Python int for a symbolic integer, forking over its values."""
    if not isinstance(x, SymNum): return int(x)
    e = ENGINE
    known = None
    if len(x.n.t) <= SMALL:
        p = subst(x.n)
        if p.is_const(): known = p.cval()
        else:
            f, a, c = _form(p)
            b = e.bounds.get(f)
            if b is not None and b[0] is not None and b[0] == b[2]:
                known = a * b[0] + c
        if known is not None and known == int(known): return int(known)
    z = x.n.z3()
    for _ in range(64):
        # The candidate must not depend on the solver's model when the path
        # is re-executed: it is stored with the decision.
        if e.pos < len(e.stack):
            d = e.stack[e.pos]
            v = d[3]
        else:
            m = e._ensure_model()
            if m is None: raise SymUnsupported('no model for an index')
            v = m.eval(z, model_completion=True).as_long()
        n = e.pos
        r = e.branch(z == v)
        if len(e.stack[n]) < 4:
            e.stack[n].append(v)
        if r:
            bound('==', x.n - Poly.const(v))
            return v
        bound('!=', x.n - Poly.const(v))
    raise SymUnsupported('index with too many values')


def _single_rad(x):
    """(c, radicand) if x = c*sqrt(p) or a constant c (then p=1)."""
    if x.d is not ONE: return None
    if x.n.is_const(): return x.n.cval(), ONE
    if len(x.n.t) != 1: return None
    (m, c), = x.n.t.items()
    if len(m) == 1 and m[0][1] == 1:
        at = ENGINE.atom_list[m[0][0]]
        if at.key[0] == 'rad':
            return c, at.define
    return None


def compare(a, b, op):
    # sqrt(p) against sqrt(q) or a constant: compare the squares
    ra, rb = _single_rad(a), _single_rad(b)
    if ra is not None and rb is not None and \
            not (a.n.is_const() and b.n.is_const()):
        (ca, pa), (cb, pb) = ra, rb
        if ca >= 0 and cb >= 0:
            return _cmp_poly(pa.scale(ca * ca) - pb.scale(cb * cb), op)
        if op in ('==', '!=') or (ca < 0) == (cb < 0):
            pass
    if a.d is ONE and b.d is ONE:
        return _cmp_poly(a.n - b.n, op)
    if a.d == b.d:
        p, d = a.n - b.n, a.d
    else:
        p, d = a.n * b.d - b.n * a.d, a.d * b.d
    if op in ('==', '!='):
        return _cmp_poly(p, op)
    if d.surely_positive():
        return _cmp_poly(p, op)
    if (-d).surely_positive():
        return _cmp_poly(-p, op)
    if not p.t:
        return op in ('<=', '>=')
    # p/d op 0, sign of d unknown: p*d op 0
    pz, dz = p.z3(True), d.z3(True)
    zop = {'<': lambda u, v: u < v, '<=': lambda u, v: u <= v,
           '>': lambda u, v: u > v, '>=': lambda u, v: u >= v}[op]
    return SymB(z3.If(dz > 0, zop(pz, 0), zop(0, pz)))


def _cmp_poly(p, op):
    if p.is_const():
        c = p.cval()
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    if p.surely_positive():
        return op in ('>', '>=', '!=')
    if (-p).surely_positive():
        return op in ('<', '<=', '!=')
    if op in ('==', '!=') and _known_nonzero(p):
        return op == '!='
    r = implied(op, p)
    if r is not None: return r
    z = p.z3()
    zz = {'<': lambda: z < 0, '<=': lambda: z <= 0, '>': lambda: z > 0,
          '>=': lambda: z >= 0, '==': lambda: z == 0,
          '!=': lambda: z != 0}[op]()
    return SymB(zz, (op, p))


def sqrt(x):
    x = pynum(x)
    if isinstance(x, Undef): return x
    if not isinstance(x, SymNum):
        x = float(x)
        return math.sqrt(x) if x >= 0 else float('nan')
    if x.d is not ONE:
        return sqrt(SymNum(x.n, ONE, 'r')) / sqrt(SymNum(x.d, ONE, 'r'))
    p = x.n
    if p.is_const():
        c = p.cval()
        for r in (Fraction(math.isqrt(c.numerator), 1),):
            pass
        rn, rd = math.isqrt(c.numerator) if c >= 0 else -1, \
            math.isqrt(c.denominator)
        if c >= 0 and rn * rn == c.numerator and rd * rd == c.denominator:
            return mk(Poly.const(Fraction(rn, rd)), ONE, 'r')
    # sqrt(c*sq(q)) = sqrt(c)*|q| for a perfect square c
    nonneg = p.surely_positive() or all(
        c > 0 and all(ENGINE.atom_list[a].nonneg or e % 2 == 0
                      for a, e in m) for m, c in p.t.items())
    if not nonneg:
        if bool(_cmp_poly(p, '<')):
            return float('nan')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1:
            at = ENGINE.atom_list[m[0][0]]
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if at.key[0] == 'sq' and rn * rn == c.numerator and \
                    rd * rd == c.denominator:
                q = SymNum(at.sqof.scale(Fraction(rn, rd)), ONE, 'r')
                return abs(q)
    def ax(a):
        return [a.z >= 0, (a.z == 0) == (p.z3() == 0)]
    a = ENGINE.atom(('rad', p), 'r', ax, nonneg=True, define=p)
    if _isnonzero(p):
        ENGINE.positive.add(a.id)
    return SymNum(Poly.of_atom(a), ONE, 'r')


def _int_pow(b, k):
    r = None
    base = b
    while k:
        if k & 1:
            r = base if r is None else r * base
        k >>= 1
        if k: base = base * base
    return 1 if r is None else r


def power(b, e):
    b, e = pynum(b), pynum(e)
    if isinstance(b, Undef) or isinstance(e, Undef): return UNDEF
    if isinstance(b, SymB): b = b._num()
    if isinstance(e, SymB): e = e._num()
    if not isinstance(b, SymNum) and not isinstance(e, SymNum):
        try:
            return b ** e
        except ZeroDivisionError:
            return _INF
    if not isinstance(e, SymNum) and is_special(e):
        raise SymUnsupported('infinite exponent')
    if not isinstance(b, SymNum) and is_special(b):
        if math.isnan(b): return b
        if bool(e == 0): return 1.0
        if b > 0:
            return _INF if bool(e > 0) else 0.0
        raise SymUnsupported('power of -inf')
    if not isinstance(e, SymNum) and float(e).is_integer():
        k = int(e)
        if k == 0: return 1.0 if (isinstance(e, float) or b.kind == 'r') else 1
        if k > 0:
            r = _int_pow(b, k)
            return to_real(r) if isinstance(e, float) else r
        if k > -9:
            return 1.0 / _int_pow(to_real(b), -k)
    if isinstance(b, SymNum) and e == 0.5 and not isinstance(e, SymNum):
        return sqrt(b)
    if not isinstance(e, SymNum) and e == -0.5:
        return 1.0 / sqrt(b)
    if not isinstance(b, SymNum) and b in (2, 10):
        r = unlog(e, str(int(b)))
        if r is not None: return r
    # general: base**(y0 + c) = pw(base, y0) * base**c, base > 0
    bb, ee = lift(b), lift(e)
    if bool(compare(bb, lift(0), '<')):
        raise SymUnsupported('power of a negative base')
    if bool(compare(bb, lift(0), '==')):
        if bool(e == 0): return 1.0
        return 0.0 if bool(e > 0) else _INF
    if ee.d is not ONE: raise SymUnsupported('quotient as exponent')
    if ee.n.is_const() and ee.n.cval() < 0:
        return 1.0 / power(b, -ee)
    c = ee.n.cval()
    k = math.floor(c)
    y0 = ee.n - Poly.const(k)
    inv = False
    if not y0.is_const():
        lead = max(y0.t)
        if y0.t[lead] < 0:
            # normalise the sign of the symbolic part
            inv = True
            y = -ee.n
            k2 = math.floor(y.cval())
            y0, k = y - Poly.const(k2), k2
    if bb.d is not ONE: raise SymUnsupported('power of a quotient')
    a = ENGINE.atom(('pw', bb.n, y0), 'r', lambda a: [a.z > 0], pos=True)
    r = SymNum(Poly.of_atom(a), ONE, 'r')
    if k:
        r = r * power(SymNum(bb.n, bb.d, 'r'), k)
    return 1.0 / r if inv else r


def log(x, base='e'):
    x = pynum(x)
    if isinstance(x, Undef): return x
    if not isinstance(x, SymNum):
        if x > 0: return {'e': math.log, '10': math.log10, '2': math.log2}[base](x)
        return -_INF if x == 0 else float('nan')
    x = to_real(x)
    if x.d is not ONE: raise SymUnsupported('logarithm of a quotient')
    if not bool(x > 0):
        if bool(x == 0): return -_INF
        raise SymUnsupported('logarithm of a negative number')
    if x.n.is_const():
        raise SymUnsupported('logarithm of a constant')
    a = ENGINE.atom(('log', base, x.n), 'r')
    return SymNum(Poly.of_atom(a), ONE, 'r')


def unlog(y, base):
    """base**y where y is a combination of logarithms, otherwise None. What
    only undoes a logarithm comes back up to a relative rounding error."""
    if not isinstance(y, SymNum) or y.d is not ONE or not y.n.t: return None
    parts, q = [], 1
    for m, c in y.n.t.items():
        if len(m) != 1 or m[0][1] != 1: return None
        at = ENGINE.atom_list[m[0][0]]
        if at.key[0] != 'log' or at.key[1] != base: return None
        f = Fraction(c).limit_denominator(64)
        if abs(f - c) > Fraction(1, 10 ** 13): return None
        if f: parts.append((at.key[2], f))
        q = q * f.denominator // math.gcd(q, f.denominator)
    up, down = SymNum(Poly.const(1), ONE, 'r'), SymNum(Poly.const(1), ONE, 'r')
    for p, f in parts:
        k = int(f * q)
        t = _int_pow(SymNum(p, ONE, 'r'), abs(k))
        if k > 0: up = up * t
        else: down = down * t
    key = frozenset(parts)
    def ax(a):
        if q == 1:
            u, d, e = up.z3(), down.z3(), z3.RealVal('1/10000000000000')
            return [a.z > 0, a.z * d <= u * (1 + e), a.z * d >= u * (1 - e)]
        z = a.z
        for _ in range(q - 1): z = z * a.z
        fs = [a.z > 0, z * down.z3() == up.z3()]
        if len(parts) == 2 and parts[0][1] + parts[1][1] == 1 and \
                min(parts[0][1], parts[1][1]) > 0:
            # between the two, in the order of the weights
            (p, _), (r, w) = sorted(parts, key=lambda t: str(t[0]))
            pz, rz = p.z3(True), r.z3(True)
            seen = ENGINE.means.setdefault((base, p, r), [])
            chain = sorted([(0, pz), (1, rz), (w, a.z)] + seen,
                           key=lambda t: t[0])
            seen.append((w, a.z))
            ks = [t[1] for t in chain]
            fs.append(z3.Implies(pz < rz, z3.And(
                [x < y for x, y in zip(ks, ks[1:])])))
            fs.append(z3.Implies(pz > rz, z3.And(
                [x > y for x, y in zip(ks, ks[1:])])))
        return fs
    a = ENGINE.atom(('unlog', base, key), 'r', ax, pos=True)
    return SymNum(Poly.of_atom(a), ONE, 'r')


def exp(x):
    x = pynum(x)
    if isinstance(x, Undef): return x
    if not isinstance(x, SymNum):
        return math.exp(x) if x < 700 else _INF
    r = unlog(x, 'e')
    if r is not None: return r
    if x.d is not ONE: raise SymUnsupported('exp of a quotient')
    if not x.n.t: return 1.0
    # exp(-y) = 1/exp(y) is not normalised: arguments are compared as they are
    a = ENGINE.atom(('exp', x.n), 'r', lambda a: [a.z > 0], pos=True)
    return SymNum(Poly.of_atom(a), ONE, 'r')


def sign(x):
    if not isinstance(x, SymNum): return (x > 0) - (x < 0)
    one = 1 if x.kind == 'i' else 1.
    if bool(x > 0): return one
    if bool(x < 0): return -one
    return 0 * one
