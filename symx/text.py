"""
Text that mentions symbolic numbers. A formatted number becomes a token; the
models of the parsers (number conversion, query strings, text tables,
configuration files) turn tokens back into values.
"""
import re
from . import core
from .core import SymNum, SymB, ENGINE, SymUnsupported, Undef

TOKEN = re.compile(r'__sx([a-z])(\d+)z__')


def _tok(v, kind):
    return core.ENGINE.token(v, kind)


def lossy(x, digits=None, decimals=None):
    """The number read back after printing with limited precision."""
    e = core.ENGINE
    if not isinstance(x, SymNum): return x
    r = e.new_aux('r')
    d = r - x
    z3 = core.z3
    if decimals is not None:
        h = core.Fraction(1, 2 * 10 ** decimals)
        e.add_fact(z3.And(d.z3() <= z3.RealVal(str(h)),
                          d.z3() >= z3.RealVal(str(-h))))
    else:
        h = core.Fraction(1, 2 * 10 ** (digits - 1))
        xz = x.z3()
        ax = z3.If(xz >= 0, xz, -xz)
        hz = z3.RealVal(str(h))
        e.add_fact(z3.And(d.z3() <= hz * ax, d.z3() >= -hz * ax))
    return r


def format_spec(x, spec, conv=None):
    """format(x, spec) of a symbolic number."""
    m = re.match(r'^([-+ 0#<>^=,]*)(\d*)(?:\.(\d+))?([a-zA-Z%]?)$', spec or '')
    if m is None: raise SymUnsupported('format %r' % spec)
    prec, ty = m.group(3), m.group(4)
    if ty in ('d', 'i', 'u'):
        if x.kind != 'i':
            raise ValueError("Unknown format code 'd' for object of type "
                             "'float'")
        return _tok(x, 'i')
    if ty in ('', 's', 'r'):
        if prec is None:
            return _tok(x, x.kind[0])
        return _tok(lossy(x, digits=int(prec)), x.kind[0])
    p = 6 if prec is None else int(prec)
    if ty in 'gG':
        if p >= 17 or x.kind == 'i' and p > 15: return _tok(x, 'r')
        return _tok(lossy(x, digits=max(p, 1)), 'r')
    if ty in 'eE':
        if p >= 16: return _tok(x, 'r')
        return _tok(lossy(x, digits=p + 1), 'r')
    if ty in 'fF':
        if p >= 30: return _tok(x, 'r')
        return _tok(lossy(x, decimals=p), 'r')
    raise SymUnsupported('format %r' % spec)


def to_str(x):
    return _tok(x, x.kind[0])


_PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d*|\*)(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])')


def pct(fmt, args):
    """fmt % args with symbolic numbers."""
    if isinstance(fmt, bytes):
        raise SymUnsupported('bytes formatting')
    mapping = isinstance(args, dict)
    if not isinstance(args, tuple) and not mapping: args = (args,)
    if not mapping and not any(_has_sym(a) for a in args):
        return fmt % args
    if mapping and not any(_has_sym(a) for a in args.values()):
        return fmt % args
    out, pos, k = [], 0, 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if name is not None: v = args[name]
        else:
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[k]
            k += 1
        if isinstance(v, SymB): v = bool(v)
        if hasattr(v, '_one') and getattr(v, 'ndim', 1) == 0: v = v._one()
        if not isinstance(v, SymNum):
            out.append(m.group(0) % v if name is None else
                       m.group(0) % {name: v})
            continue
        if ty in 'diu':
            out.append(_tok(core.trunc(v), 'i'))
        elif ty in 'sra':
            out.append(to_str(v))
        elif ty in 'oxXc':
            raise SymUnsupported('%%%s of a symbolic number' % ty)
        else:
            out.append(format_spec(v, (('.' + prec) if prec else '') + ty))
    out.append(fmt[pos:])
    if not mapping and k < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return ''.join(out)


def _has_sym(a):
    if isinstance(a, (SymNum, SymB, Undef)): return True
    return hasattr(a, '_ld')


def lookup(s):
    """The value of a string that is exactly one token, or None."""
    t = s.strip() if isinstance(s, str) else s.decode().strip()
    neg = False
    if t.startswith('-') and TOKEN.fullmatch(t[1:]):
        t, neg = t[1:], True
    m = TOKEN.fullmatch(t)
    if m is None: return None
    v = core.ENGINE.tokens[t]
    return (-v if neg else v), m.group(1)


def parse_float(s):
    r = lookup(s)
    if r is None: return float(s)
    return core.to_real(r[0])


def parse_int(s):
    r = lookup(s)
    if r is None: return int(s)
    if r[1] != 'i':
        raise ValueError("invalid literal for int() with base 10: %r" % (s,))
    return r[0]


def strip(s):
    return TOKEN.sub('<n>', s)
