"""C22: a recorded interpolation scene has the right neighbours."""
import math
from symx.run import S
from .large import big
from .geom import Geometry, right_set


def make(env, method, num, radius, par=None, bins=3):
    ip = env.ft.interpolation
    if method == 'corrfun':
        env.savez(env.path('corr.npz'), corrs=env.np.array([1., 0.5, 0.25][:bins]),
                  bins=env.np.array([0., 0.01, 0.02][:bins]))
        par = env.path('corr.npz')
    if method == 'inv-class':
        return ip.InverseDistanceWeighter(num, radius, par)
    return ip.interpolant(method, num, radius, par)


def check(env, it, g, num, radius, label='', points=None):
    """points: which of the points are recorded."""
    points = range(g.m) if points is None else points
    nb, d = it.current_active_neighbs(), it.current_dists()
    rel = it.current_relative_positions()
    m = len(points)
    env.require(nb.shape[0] == m and d.shape[0] == m and rel.shape[0] == m and
                nb.shape[1] == d.shape[1] == rel.shape[1], label + 'shapes')
    for r, i in enumerate(points):
        used = []
        for k in range(nb.shape[1]):
            j = int(nb[r][k])
            env.require(0 <= j <= g.n, label + 'index of a tracer or missing')
            if j >= g.n:
                env.require(env.eq(d[r][k], math.inf),
                            label + 'missing ones are infinitely far')
                continue
            env.require(j not in used, label + 'each tracer once')
            used.append(j)
            env.require(env.eq(d[r][k], g.d[i][j]), label + 'true distance')
            env.require(env.eq(rel[r][k], [g.tracers[j][c] - g.points[i][c]
                for c in range(3)]), label + 'true relative position')
        elig = [j for j in range(g.n) if g.eligible(i, j)]
        right_set(env, used, elig, g.d[i], num, radius, label)


def record(env, n, m, num, radius, comp, method):
    g = Geometry(env, n, m, comp=comp)
    r = None
    if radius:
        r = env.real('radius')
        env.assume(r > 0)
    it = make(env, method, num, r)
    data = env.reals('f', (n, 2)) if env.flag('data') else None
    if env.flag('at once'):
        if comp: it.set_scene(g.tracers, g.points, data, g.comp)
        else: it.set_scene(g.tracers, g.points, data)
    else:
        it.set_field_positions(g.tracers)
        it.set_interp_points(g.points, g.comp)
    check(env, it, g, num, r)
    env.require(env.eq(it.field_positions(), g.tracers), 'tracers recorded')


def coincide(env, n, k, comp):
    """Several tracers at the place of the point."""
    g = Geometry(env, n, 1, comp=comp)
    for j in range(k): env.assume(g.d[0][j] <= 0)
    for j in range(k, n): env.assume(g.d[0][j] > 0)
    for j in range(k + 1, n): env.assume(g.d[0][j - 1] < g.d[0][j])
    num = 1 + env.choose('num', n)
    it = make(env, 'inv', num, None)
    it.set_scene(g.tracers, g.points, None, g.comp)
    check(env, it, g, num, None)


def scenarios(tier):
    out = []
    sizes = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2)]
    if tier == 'thorough': sizes += [(4, 1), (3, 2), (2, 3)]
    ms = ('inv', 'rbf', 'corrfun', 'inv-class')
    q = 0
    for n, m in sizes:
        for comp in (False, True):
            for radius in (False, True):
                for num in sorted({1, 2, n, n + 1}):
                    if n * m >= 4 and num > 2 and tier == 'quick': continue
                    me = ms[q % 4]
                    q += 1
                    out.append(S('record-%d.%d-%d%s%s-%s' % (n, m, num,
                        '-comp' if comp else '', '-radius' if radius else '',
                        me), record, n=n, m=m, num=num, radius=radius,
                        comp=comp, method=me, text='%d tracers, %d points '
                        'anywhere' % (n, m)))
    for n, k in ((3, 3), (4, 3), (5, 3)) + (((6, 4),) if tier == 'thorough' else ()):
        for comp in (False, True):
            out.append(S('coincide-%d.%d%s' % (n, k, '-comp' if comp else ''),
                coincide, n=n, k=k, comp=comp, text='%d of %d tracers at the '
                'point' % (k, n)))
    for comp in (False, True):
        out += big('points%s' % ('-comp' if comp else ''), record, (1, 2), '7 '
            'tracers, 20 points, one of them anywhere on a line', line='[tx]_',
            mobile='x_13$', n=7, m=20, num=3, radius=False, comp=comp,
            method='rbf' if comp else 'inv')
        for num, seeds in ((5, (1, 2)), (40, (1,))):
            out += big('record-%d%s' % (num, '-comp' if comp else ''), record,
                seeds, '16 tracers, 3 points, one tracer anywhere on a '
                'line', line='[tx]_', mobile='t_5$', n=16, m=3,
                num=num, radius=False, comp=comp, method='inv')
    return out
