"""
Text of a known length with symbolic characters (ASCII codes 1 to 127), and the
modules that work on such text: regular expressions, os.path and fnmatch.
"""
import re, types, fnmatch, posixpath, genericpath, functools, operator
from . import core
from .core import SymNum, SymB, SymUnsupported, b_all, b_any, b_and, b_or, b_not

try: from re import _parser as sre_parse, _constants as sc
except ImportError:
    import sre_parse, sre_constants as sc

WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32)


def has(x):
    if isinstance(x, SymStr): return True
    if isinstance(x, (tuple, list)): return any(has(y) for y in x)
    return False


def codes(s):
    if isinstance(s, SymStr): return s.c
    if isinstance(s, str): return [ord(ch) for ch in s]
    raise TypeError('must be str, not ' + type(s).__name__)


def one_of(c, lo_hi):
    """Is a code within one of the ranges?"""
    return b_any([b_and(lo <= c, c <= hi) if lo != hi else c == lo
                  for lo, hi in lo_hi])


def same(a, b):
    """Two lists of codes."""
    if len(a) != len(b): return False
    return b_all([x == y for x, y in zip(a, b)])


def make(cs):
    cs = list(cs)
    if all(type(c) is int for c in cs): return ''.join(map(chr, cs))
    return SymStr(cs)


class SymStr(object):
    __slots__ = ('c',)

    def __init__(self, cs): self.c = list(cs)

    def _no(self, *a, **k):
        raise SymUnsupported('operation on symbolic text')
    __format__ = __int__ = __float__ = __fspath__ = __index__ = encode = \
        format = isidentifier = center = ljust = rjust = \
        zfill = expandtabs = title = swapcase = translate = splitlines = _no
    def __repr__(self): raise SymUnsupported('symbolic text printed')
    __str__ = __repr__
    def __hash__(self): raise SymUnsupported('symbolic text as a key')

    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __iter__(self): return iter([make([x]) for x in self.c])
    def __getitem__(self, ix):
        if isinstance(ix, slice): return make(self.c[ix])
        if isinstance(ix, SymNum): ix = core.concretize(ix)
        if not -len(self.c) <= ix < len(self.c):
            raise IndexError('string index out of range')
        return make([self.c[ix]])
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)): return NotImplemented
        return make(self.c + codes(o))
    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)): return NotImplemented
        return make(codes(o) + self.c)
    def __mul__(self, n): return make(self.c * n)
    __rmul__ = __mul__
    def __mod__(self, o): self._no()

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)): return False
        return same(self.c, codes(o))
    def __ne__(self, o): return b_not(self.__eq__(o))

    def _less(self, o, orequal):
        a, b = self.c, codes(o)
        out, pre = [], True
        for x, y in zip(a, b):
            out.append(b_and(pre, x < y))
            pre = b_and(pre, x == y)
        if len(a) < len(b) or orequal and len(a) == len(b): out.append(pre)
        return b_any(out)
    def __lt__(self, o): return self._less(o, False)
    def __le__(self, o): return self._less(o, True)
    def __gt__(self, o): return b_not(self._less(o, True))
    def __ge__(self, o): return b_not(self._less(o, False))

    # ---- searching
    def _window(self, lo, hi):
        n = len(self.c)
        return slice(lo, hi).indices(n)[:2]

    def at(self, k, sub):
        s = codes(sub)
        return same(self.c[k:k + len(s)], s)

    def startswith(self, p, lo=None, hi=None):
        if isinstance(p, tuple):
            return b_any([self.startswith(q, lo, hi) for q in p])
        if not isinstance(p, (str, SymStr)):
            raise TypeError('startswith first arg must be str or a tuple of '
                            'str, not ' + type(p).__name__)
        a, b = self._window(lo, hi)
        w = self.c[a:b]
        s = codes(p)
        return len(s) <= len(w) and same(w[:len(s)], s)

    def endswith(self, p, lo=None, hi=None):
        if isinstance(p, tuple):
            return b_any([self.endswith(q, lo, hi) for q in p])
        if not isinstance(p, (str, SymStr)):
            raise TypeError('endswith first arg must be str or a tuple of '
                            'str, not ' + type(p).__name__)
        a, b = self._window(lo, hi)
        w = self.c[a:b]
        s = codes(p)
        return len(s) <= len(w) and same(w[len(w) - len(s):], s)

    def has_sub(self, sub):
        m = len(codes(sub))
        return b_any([self.at(k, sub) for k in range(len(self.c) - m + 1)])

    def __contains__(self, sub): return bool(self.has_sub(sub))

    def find(self, sub, lo=None, hi=None):
        a, b = self._window(lo, hi)
        m = len(codes(sub))
        if not bool(b_any([self.at(k, sub) for k in range(a, b - m + 1)])):
            return -1
        for k in range(a, b - m + 1):
            if bool(self.at(k, sub)): return k
        return -1

    def rfind(self, sub, lo=None, hi=None):
        a, b = self._window(lo, hi)
        m = len(codes(sub))
        if not bool(b_any([self.at(k, sub) for k in range(a, b - m + 1)])):
            return -1
        for k in range(b - m, a - 1, -1):
            if bool(self.at(k, sub)): return k
        return -1

    def index(self, *a):
        k = self.find(*a)
        if k < 0: raise ValueError('substring not found')
        return k

    def rindex(self, *a):
        k = self.rfind(*a)
        if k < 0: raise ValueError('substring not found')
        return k

    def _places(self, sub, limit=-1):
        m, out, k = len(codes(sub)), [], 0
        while k + m <= len(self.c) and limit != len(out):
            if bool(self.at(k, sub)):
                out.append(k)
                k += m
            else: k += 1
        return out

    def count(self, sub, *a):
        if a: self._no()
        if not len(codes(sub)): return len(self.c) + 1
        return len(self._places(sub))

    # ---- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur, k = [], [], 0
            while k < len(self.c):
                if bool(_space(self.c[k])):
                    if cur:
                        out.append(make(cur))
                        cur = []
                elif not cur and 0 <= maxsplit <= len(out):
                    out.append(make(self.c[k:]).rstrip())
                    return out
                else: cur.append(self.c[k])
                k += 1
            if cur: out.append(make(cur))
            return out
        if not len(codes(sep)): raise ValueError('empty separator')
        out, p = [], 0
        for k in self._places(sep, maxsplit):
            out.append(make(self.c[p:k]))
            p = k + len(codes(sep))
        return out + [make(self.c[p:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0: return self.split(sep)
        if sep is None: self._no()
        out, s = [], self
        while maxsplit and isinstance(s, SymStr):
            k = s.rfind(sep)
            if k < 0: break
            out.insert(0, s[k + len(codes(sep)):])
            s = s[:k]
            maxsplit -= 1
        if isinstance(s, str) and maxsplit:
            return s.rsplit(sep, maxsplit) + out
        return [s] + out

    def partition(self, sep):
        k = self.find(sep)
        if k < 0: return self, '', ''
        return self[:k], sep, self[k + len(codes(sep)):]

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0: return '', '', self
        return self[:k], sep, self[k + len(codes(sep)):]

    def _strip(self, chars, left, right):
        if chars is None: t = _space
        else:
            cs = codes(chars)
            t = lambda c: b_any([c == x for x in cs])
        a, b = 0, len(self.c)
        while left and a < b and bool(t(self.c[a])): a += 1
        while right and a < b and bool(t(self.c[b - 1])): b -= 1
        return make(self.c[a:b])
    def strip(self, chars=None): return self._strip(chars, 1, 1)
    def lstrip(self, chars=None): return self._strip(chars, 1, 0)
    def rstrip(self, chars=None): return self._strip(chars, 0, 1)

    def removeprefix(self, p):
        return self[len(codes(p)):] if bool(self.startswith(p)) else self
    def removesuffix(self, p):
        if len(codes(p)) and bool(self.endswith(p)):
            return self[:-len(codes(p))]
        return self

    def replace(self, old, new, count=-1):
        if not len(codes(old)): self._no()
        return join(new, self.split(old, count))

    def join(self, parts): return join(self, list(parts))

    # ---- classes of characters
    def _map(self, lo, hi, d):
        out = []
        for c in self.c:
            out.append(_ite(one_of(c, [(lo, hi)]), c + d, c)
                       if isinstance(c, SymNum) else
                       c + d if lo <= c <= hi else c)
        return make(out)
    def lower(self): return self._map(65, 90, 32)
    def upper(self): return self._map(97, 122, -32)
    casefold = lower

    def _all(self, ranges):
        return bool(self.c) and b_all([one_of(c, ranges) for c in self.c])
    def isdigit(self): return self._all([(48, 57)])
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._all([(65, 90), (97, 122)])
    def isalnum(self): return self._all([(48, 57), (65, 90), (97, 122)])
    def isspace(self): return self._all([(9, 13), (28, 32)])
    def islower(self):
        return b_and(b_any([one_of(c, [(97, 122)]) for c in self.c]),
                     b_not(b_any([one_of(c, [(65, 90)]) for c in self.c])))
    def isupper(self):
        return b_and(b_any([one_of(c, [(65, 90)]) for c in self.c]),
                     b_not(b_any([one_of(c, [(97, 122)]) for c in self.c])))


def _ite(cond, a, b):
    if not isinstance(cond, SymB): return a if cond else b
    r = core.ENGINE.new_aux('i')
    core.ENGINE.add_fact(r.z3() == core.z3.If(cond.z, a.z3(), b.z3()))
    return r


def _space(c): return one_of(c, [(9, 13), (28, 32)])


def join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i: out += codes(sep)
        out += codes(p)
    return make(out)


def str_call(f, args, kw):
    """A method of str called with symbolic text. Returns (done, value)."""
    if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str:
        s = args[0]
        if isinstance(s, str): s = SymStr(codes(s))
        return True, getattr(s, f.__name__)(*args[1:], **kw)
    s = getattr(f, '__self__', None)
    if isinstance(s, str):
        return True, getattr(SymStr(codes(s)), f.__name__)(*args, **kw)
    if isinstance(s, dict) and f.__name__ == 'get' and \
            isinstance(args[0], SymStr):
        for k, v in s.items():
            if isinstance(k, (str, SymStr)) and bool(args[0] == k):
                return True, v
        return True, args[1] if len(args) > 1 else None
    return False, None


# ---- regular expressions: which ends are reachable, and when
class Match(object):
    def __init__(self, s): self.string = s
    def __bool__(self): return True
    def _no(self, *a): raise SymUnsupported('parts of a match')
    group = groups = start = end = span = groupdict = expand = \
        __getitem__ = _no


def _category(cat, c):
    W = [(48, 57), (65, 90), (95, 95), (97, 122)]
    t = {sc.CATEGORY_DIGIT: [(48, 57)], sc.CATEGORY_WORD: W,
         sc.CATEGORY_SPACE: [(9, 13), (28, 32)]}
    n = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT,
         sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD,
         sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE}
    if cat in t: return one_of(c, t[cat])
    if cat in n: return b_not(one_of(c, t[n[cat]]))
    raise SymUnsupported('regular expression category')


def _char(op, av, c, flags):
    """Does one character match one item?"""
    if op is sc.LITERAL or op is sc.NOT_LITERAL:
        alts = {av}
        if flags & re.I and av < 128:
            alts |= {ord(chr(av).lower()), ord(chr(av).upper())}
        r = b_any([c == x for x in alts])
        return b_not(r) if op is sc.NOT_LITERAL else r
    if op is sc.ANY:
        return True if flags & re.S else b_not(c == 10)
    if op is sc.IN:
        neg, r = False, []
        for o, v in av:
            if o is sc.NEGATE: neg = True
            elif o is sc.RANGE:
                r.append(one_of(c, [v]))
                if flags & re.I:
                    lo, hi = max(v[0], 65), min(v[1], 90)
                    if lo <= hi: r.append(one_of(c, [(lo + 32, hi + 32)]))
                    lo, hi = max(v[0], 97), min(v[1], 122)
                    if lo <= hi: r.append(one_of(c, [(lo - 32, hi - 32)]))
            elif o is sc.CATEGORY: r.append(_category(v, c))
            else: r.append(_char(o, v, c, flags))
        r = b_any(r)
        return b_not(r) if neg else r
    if op is sc.CATEGORY: return _category(av, c)
    raise SymUnsupported('regular expression item %s' % op)


def _add(d, k, c):
    d[k] = b_or(d[k], c) if k in d else c


def _run(items, ends, cs, flags):
    """ends: {position: condition}; the same after matching the items."""
    for op, av in items:
        if not ends: return ends
        out = {}
        if op is sc.BRANCH:
            for alt in av[1]:
                for k, c in _run(alt, dict(ends), cs, flags).items():
                    _add(out, k, c)
        elif op is sc.SUBPATTERN:
            g, on, off, sub = av
            out = _run(sub, ends, cs, (flags | on) & ~off)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            cur, n = dict(ends), 0
            if lo == 0: out = dict(cur)
            hi = len(cs) + 1 + lo if hi is sc.MAXREPEAT else hi
            while cur and n < hi:
                nxt = _run(sub, cur, cs, flags)
                n += 1
                if n >= lo:
                    for k, c in nxt.items(): _add(out, k, c)
                if n > len(cs) + lo: break
                cur = nxt
        elif op is sc.AT:
            for k, c in ends.items():
                if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    t = k == 0
                    if flags & re.M and av is sc.AT_BEGINNING and k:
                        t = cs[k - 1] == 10
                elif av is sc.AT_END_STRING: t = k == len(cs)
                elif av is sc.AT_END:
                    t = k == len(cs) or \
                        (k == len(cs) - 1 or flags & re.M) and cs[k] == 10
                elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                    a = k > 0 and _category(sc.CATEGORY_WORD, cs[k - 1])
                    b = k < len(cs) and _category(sc.CATEGORY_WORD, cs[k])
                    t = b_or(b_and(a, b_not(b)), b_and(b, b_not(a)))
                    if av is sc.AT_NON_BOUNDARY: t = b_not(t)
                else: raise SymUnsupported('regular expression anchor')
                c = b_and(c, t)
                if c is not False: _add(out, k, c)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0: raise SymUnsupported('looking behind')
            for k, c in ends.items():
                r = b_any(list(_run(sub, {k: True}, cs, flags).values()))
                c = b_and(c, b_not(r) if op is sc.ASSERT_NOT else r)
                if c is not False: _add(out, k, c)
        else:
            for k, c in ends.items():
                if k >= len(cs): continue
                c = b_and(c, _char(op, av, cs[k], flags))
                if c is not False: _add(out, k + 1, c)
        ends = out
    return ends


class Pattern(object):
    def __init__(self, p):
        self._p = p
        self._t = None

    def __getattr__(self, n): return getattr(self._p, n)

    def _do(self, s, how, a):
        if not isinstance(s, SymStr): return getattr(self._p, how)(s, *a)
        if a: raise SymUnsupported('matching a part')
        if self._t is None: self._t = sre_parse.parse(self._p.pattern,
                                                      self._p.flags & ~re.U)
        cs = s.c
        starts = range(len(cs) + 1) if how == 'search' else [0]
        e = _run(list(self._t), {k: True for k in starts}, cs, self._p.flags)
        if how == 'fullmatch': r = e.get(len(cs), False)
        else: r = b_any(list(e.values()))
        return Match(s) if bool(r) else None

    def match(self, s, *a): return self._do(s, 'match', a)
    def search(self, s, *a): return self._do(s, 'search', a)
    def fullmatch(self, s, *a): return self._do(s, 'fullmatch', a)
    def _other(n):
        def f(self, *a, **k):
            if has(list(a)): raise SymUnsupported('re ' + n)
            return getattr(self._p, n)(*a, **k)
        return f
    for _n in ('sub', 'subn', 'split', 'findall', 'finditer'):
        locals()[_n] = _other(_n)


def make_re():
    m = types.ModuleType('re')
    for n in dir(re):
        if not n.startswith('__'): setattr(m, n, getattr(re, n))
    def comp(p, flags=0):
        if has(p): raise SymUnsupported('symbolic pattern')
        if isinstance(p, Pattern): return p
        p = re.compile(p, flags)
        return Pattern(p) if isinstance(p.pattern, str) else p
    m.compile = comp
    def top(n):
        def f(p, *a, **k):
            if not has(list(a)) and not isinstance(p, Pattern):
                return getattr(re, n)(p, *a, **k)
            fl = k.pop('flags', 0)
            if n in ('match', 'search', 'fullmatch') and len(a) > 1:
                a, fl = a[:1], a[1]
            return getattr(comp(p, fl), n)(*a, **k)
        return f
    for n in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split',
              'findall', 'finditer'):
        setattr(m, n, top(n))
    return m


def make_fnmatch(rx):
    m = types.ModuleType('fnmatch')
    m.translate = fnmatch.translate
    def one(name, pat):
        if not has(name): return fnmatch.fnmatchcase(name, pat)
        return rx.compile(fnmatch.translate(pat)).match(name) is not None
    m.fnmatch = m.fnmatchcase = one
    m.filter = lambda names, pat: [n for n in names if one(n, pat)]
    m.filterfalse = lambda names, pat: [n for n in names if not one(n, pat)]
    return m


# ---- os.path, from the library's own source
def make_path(compiled, hooks):
    import builtins, os
    src = {}
    def load(mod):
        if mod.__name__ in src: return src[mod.__name__]
        m = types.ModuleType(mod.__name__)
        b = dict(builtins.__dict__)
        def imp(name, g=None, l=None, fromlist=(), level=0):
            if name == 'genericpath': return load(genericpath)
            if name == 'posix': raise ImportError(name)
            return builtins.__import__(name, g, l, fromlist, level)
        b['__import__'] = imp
        m.__dict__['__builtins__'] = b
        m.__dict__['__file__'] = mod.__file__
        m.__dict__['__sx_enter__'] = lambda q: None
        m.__dict__.update(hooks)
        exec(compiled(mod.__file__, mod.__name__), m.__dict__)
        src[mod.__name__] = m
        return m
    out = types.ModuleType('os.path')
    state = {}
    def wrap(n):
        real = getattr(posixpath, n)
        @functools.wraps(real)
        def f(*a, **k):
            if not has(list(a)): return real(*a, **k)
            if n in ('exists', 'isdir', 'isfile', 'getsize', 'realpath',
                     'abspath', 'expanduser', 'expandvars', 'lexists',
                     'islink', 'samefile', 'getmtime', 'relpath', 'normpath',
                     'ismount'):
                raise SymUnsupported('os.path.%s of symbolic text' % n)
            if 'm' not in state: state['m'] = load(posixpath)
            return getattr(state['m'], n)(*a, **k)
        return f
    for n in dir(posixpath):
        v = getattr(posixpath, n)
        if n.startswith('__'): continue
        setattr(out, n, wrap(n) if isinstance(v, (types.FunctionType,
            types.BuiltinFunctionType)) else v)
    return out
