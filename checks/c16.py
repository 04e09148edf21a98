"""C16: collecting columns honours every range condition exactly."""
from symx.run import S
from .large import big
from .lib import Rows, frange


FIELDS = [('pos', float, (3,)), ('velocity', float, (3,)), ('heat', float, ()),
          ('load', float, ()), ('tag', int, ())]


def cond(env, name, real=True):
    lo = env.real(name + 'lo') if real else env.int(name + 'lo', -9, 9)
    hi = env.real(name + 'hi') if real else env.int(name + 'hi', -9, 9)
    return lo, hi, env.flag(name + 'inv')


def meets(v, c):
    lo, hi, inv = c
    if inv: return bool(v < lo) or bool(v >= hi)
    return bool(v >= lo) and bool(v < hi)


def collect(env, n, conds, keys, ranged):
    rows = Rows(env, 'r', n, fields=FIELDS, groups=list(range(n)))
    path = rows.write(env.path('p.h5'), True)
    rng = frange(env, 'rng', kinds=('both', 'first', 'last')) if ranged else None
    s = env.ft.scene.Scene(path, rng)
    where = {}
    for c in conds:
        where[c] = cond(env, c + '_', c not in ('tag', 'time', 'trajid'))
    got = s.collect(keys, where) if conds else (
        s.collect(keys, {}) if env.flag('empty') else s.collect(keys))
    def val(f, i):
        if f == 'time': return rows.time[i]
        if f == 'trajid': return rows.trid(i)
        return rows.cols[f][i]
    ix = [i for i in range(n) if rows.in_range(i, rng) and
          all([meets(val(c, i), where[c]) for c in conds])]
    env.require(len(got) == len(keys), 'one array for each key')
    for key, g in zip(keys, got):
        env.require(len(g) == len(ix), 'exactly the rows meeting the conditions')
        if len(g) != len(ix): continue
        for k, i in enumerate(ix):
            env.require(env.eq(g[k], val(key, i)), 'values of ' + key)


def later(env, n):
    """The range in force is the one at the time of the call."""
    rows = Rows(env, 'r', n, fields=FIELDS, groups=[0] * n)
    s = env.ft.scene.Scene(rows.write(env.path('p.h5'), True))
    for k in range(2):
        rng = frange(env, 'rng%d' % k)
        s.set_frame_range(rng)
        ix = [i for i in range(n) if rows.in_range(i, rng)]
        h, t = s.collect(['heat', 'time'])
        env.require(len(h) == len(ix) and len(t) == len(ix), 'rows in range')
        if len(h) != len(ix) or len(t) != len(ix): return
        for j, i in enumerate(ix):
            env.require(env.eq(h[j], rows.cols['heat'][i]), 'heat')
            env.require(env.eq(t[j], rows.time[i]), 'time')


def scenarios(tier):
    out = []
    cs = [(), ('heat',), ('tag',), ('heat', 'load'), ('time', 'heat'),
          ('trajid',)]
    ks = [['heat'], ['pos'], ['time', 'pos'], ['tag', 'heat', 'trajid'],
          ['heat', 'heat'], ['velocity', 'time', 'pos', 'load']]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for i, c in enumerate(cs):
            if n * len(c) > (4 if tier == 'quick' else 6): continue
            for j, k in enumerate(ks):
                if n >= 2 and (i + j) % 3 and tier == 'quick': continue
                if n >= 3 and (i + j) % 3: continue
                for ranged in (False, True):
                    if n >= 3 and ranged and len(c) > 1: continue
                    out.append(S('collect-%d-%s-%s%s' % (n, '.'.join(c) or
                        'all', '.'.join(x[:3] for x in k), '-ranged' if ranged
                        else ''), collect, n=n, conds=c, keys=k,
                        ranged=ranged, text='%d rows, any values, any limits '
                        'and inversions' % n))
        if n < 4: out.append(S('later-%d' % n, later, n=n))
    for c in ((), ('heat',), ('tag',), ('trajid', 'tag'), ('time', 'heat',
              'load')):
        out += big('collect-' + '.'.join(c), collect, (1, 2, 3, 4), '25 rows, any '
                   'range', few='rng', const='rheat|rload|.*_(lo|hi)',
                   within=(('trajid_lo', 0, 250), ('trajid_hi', 200, 500)), n=25,
                   conds=c, keys=['pos', 'heat', 'trajid'], ranged=True)
    return out
