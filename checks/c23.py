"""C23: inverse-distance interpolation is the weighted mean of neighbours."""
from symx.run import S
from .large import big
from .geom import Geometry
from .c22 import make


def mean(env, g, i, used, par, f):
    """The weighted mean at point i, one value for each component."""
    w = {j: env.power(g.d[i][j], -par) for j in used}
    tot = sum([w[j] for j in used], 0.)
    return [sum([w[j] * f[j][c] for j in used], 0.) / tot
            for c in range(len(f[0]))]


def nearest(env, g, i, num, radius=None):
    """The neighbours of point i; distances are assumed to differ."""
    elig = [j for j in range(g.n) if g.eligible(i, j)]
    if radius is not None: elig = [j for j in elig if bool(g.d[i][j] < radius)]
    for a in range(len(elig)):
        for b in range(a):
            if len(elig) > num:
                env.assume(g.d[i][elig[a]] != g.d[i][elig[b]])
    out = []
    while elig and len(out) < num:
        best = elig[0]
        for j in elig[1:]:
            if bool(g.d[i][j] < g.d[i][best]): best = j
        out.append(best)
        elig.remove(best)
    return sorted(out)


def interp(env, n, m, num, radius, comp, par, call, dim=2):
    g = Geometry(env, n, m, comp=comp)
    r = None
    if radius:
        r = env.real('radius')
        env.assume(r > 0)
    it = make(env, 'inv', num, r, par)
    f = env.reals('f', (n, dim))
    used = [nearest(env, g, i, num, r) for i in range(m)]
    for u in used: env.assume(len(u) > 0)
    if call == 'once':
        got = it(g.tracers, g.points, f, g.comp)
    else:
        it.set_scene(g.tracers, g.points, f, g.comp)
        got = it.interpolate()
        if call == 'twice':
            f = env.reals('h', (n, dim))
            it.set_data_on_current_field(f)
            got = it.interpolate()
    env.require(tuple(got.shape) == (m, dim), 'shape')
    for i in range(m):
        want = mean(env, g, i, used[i], 1 if par is None else par, f)
        env.require(env.eq(got[i], want), 'weighted mean of the neighbours')


def thin(env, n, dim):
    """Data without a second axis: one value for each tracer, or the
    components of the only tracer."""
    g = Geometry(env, n, 2)
    it, full = make(env, 'inv', n, None), make(env, 'inv', n, None)
    g.apart()
    f = env.reals('f', n if n > 1 else dim)
    col = f.reshape(n, -1)
    if env.flag('once'):
        got, want = it(g.tracers, g.points, f), full(g.tracers, g.points, col)
    else:
        it.set_scene(g.tracers, g.points, f)
        full.set_scene(g.tracers, g.points, col)
        got, want = it.interpolate(), full.interpolate()
    env.require(tuple(got.shape) == (2, dim), 'one column for each component')
    env.require(env.eq(got, want), 'as a column for each component')


def bounded(env, n, par):
    """The result is within the range of the data; constants are kept."""
    g = Geometry(env, n, 1)
    g.apart()
    it = make(env, 'inv', n, None, par)
    if env.flag('constant'):
        c = env.real('c')
        f = env.np.array([[c, 2 * c]] * n)
        it.set_scene(g.tracers, g.points, f)
        got = it.interpolate()
        env.require(env.eq(got[0], [c, 2 * c]), 'constant field')
        return
    f = env.reals('f', (n, 1))
    for j in range(n):
        env.assume(f[j][0] >= 0)
        env.assume(f[j][0] <= 1)
    it.set_scene(g.tracers, g.points, f)
    got = it.interpolate()
    env.require(got[0][0] >= 0, 'not below the data')
    env.require(got[0][0] <= 1, 'not above the data')


def flat(env, n, m):
    """Data with one value for each tracer."""
    g = Geometry(env, n, m)
    g.apart()
    it = make(env, 'inv', n, None, None)
    f = env.reals('f', n)
    it.set_scene(g.tracers, g.points, f)
    got = it.interpolate()
    if n == 1 and m == 1:
        env.require(env.eq(env.np.reshape(got, (-1,))[0], f[0]), 'flat data')
        return
    env.require(tuple(got.shape) == (m, 1), 'shape')
    for i in range(m):
        env.require(env.eq(got[i], mean(env, g, i, range(n), 1,
                    [[f[j]] for j in range(n)])), 'weighted mean (flat data)')


def subset(env, n, m, par):
    """An explicit selection drops some of the recorded neighbours."""
    g = Geometry(env, n, m)
    g.apart()
    it = make(env, 'inv', n, None, par)
    f = env.reals('f', (n, 2))
    it.set_scene(g.tracers, g.points, f)
    rec = it.current_active_neighbs()
    sel = rec.copy()
    used = []
    for i in range(m):
        keep = env.choose('keep%d' % i, 2 ** n - 1) + 1
        u = []
        for k in range(n):
            if keep >> k & 1: u.append(int(rec[i][k]))
            else: sel[i, k] = n
        used.append(u)
    p = 1 if par is None else par
    first = it.interpolate() if env.flag('before') else None
    got = it.interpolate(sel)
    for i in range(m):
        env.require(env.eq(got[i], mean(env, g, i, used[i], p, f)),
                    'mean of the selected ones')
    back = it.interpolate()
    for i in range(m):
        env.require(env.eq(back[i], mean(env, g, i, range(n), p, f)),
                    'selection is for one call only')
    if first is not None: env.require(env.eq(first, back), 'as before')


def nothing(env, m):
    """No tracers at all: zeros."""
    g = Geometry(env, 0, m)
    it = make(env, 'inv', 2, None, None)
    it.set_scene(g.tracers, g.points, env.np.zeros((0, 3)))
    got = it.interpolate()
    env.require(env.eq(got, env.np.zeros((m, 3))), 'zeros without tracers')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for n, dim in ((1, 1), (1, 3), (2, 1)):
        out.append(S('thin-%d-%d' % (n, dim), thin, n=n, dim=dim))
    sizes = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2)]
    if th: sizes += [(4, 1), (3, 2), (2, 3)]
    q = 0
    for n, m in sizes:
        for comp in (False, True):
            for radius in (False, True):
                for num in sorted({1, 2, n + 1}):
                    if n * m >= 4 and num == n + 1 and not th: continue
                    par = (None, 2, 1.5, 3)[q % 4]
                    call = ('once', 'scene', 'twice')[(q // 2) % 3]
                    q += 1
                    out.append(S('interp-%d.%d-%d%s%s-%s-%s' % (n, m, num,
                        '-comp' if comp else '', '-radius' if radius else '',
                        par, call), interp, n=n, m=m, num=num, radius=radius,
                        comp=comp, par=par, call=call, dim=1 + q % 3,
                        text='%d tracers, %d points anywhere, any data' %
                        (n, m)))
    for n in (1, 2, 3) if not th else (1, 2, 3, 4):
        for par in (None, 2):
            out.append(S('bounded-%d-%s' % (n, par), bounded, n=n, par=par))
    for n, m in ((1, 1), (2, 1), (3, 1), (2, 2)):
        out.append(S('flat-%d.%d' % (n, m), flat, n=n, m=m))
        out.append(S('subset-%d.%d' % (n, m), subset, n=n, m=m,
                     par=None if n == 2 else 2))
    for m in (1, 2): out.append(S('nothing-%d' % m, nothing, m=m))
    for comp, call, seeds in ((False, 'once', (1, 2)), (True, 'scene', (1, 2)),
                              (True, 'once', (1,)), (False, 'twice', (1,))):
        out += big('interp-%s%s' % (call, '-comp' if comp else ''), interp,
            seeds, '12 tracers, 4 points, any data, one tracer anywhere '
            'on a line', line='[tx]_', mobile='t_5$', n=12, m=4,
            num=5, radius=False, comp=comp, par=2, call=call, dim=3)
    out += big('subset', subset, (1,), '7 tracers, 5 points, any data',
               line='[tx]_', n=7, m=5, par=None)
    return out
