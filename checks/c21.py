"""C21: neighbour selection by distance matrix is exact."""
from symx.run import S
from .large import big
from .geom import Geometry, right_set
from .c22 import make


def select(env, n, m, num, radius, comp):
    g = Geometry(env, n, m, comp=comp)
    r = env.real('radius') if radius else None
    if radius: env.assume(r > 0)
    f = env.ft.interpolation.select_neighbs
    kw = {}
    if comp: kw['companionship'] = g.comp
    if env.flag('positional'):
        d, use = f(g.tracers, g.points, r, num, g.comp)
    else:
        d, use = f(g.tracers, g.points, radius=r, num_neighbs=num, **kw)
    env.require(tuple(d.shape) == (m, n) and tuple(use.shape) == (m, n), 'shapes')
    for i in range(m):
        for j in range(n):
            env.require(env.eq(d[i][j], g.d[i][j]), 'true distances')
        used = [j for j in range(n) if bool(use[i][j])]
        elig = [j for j in range(n) if g.eligible(i, j)]
        right_set(env, used, elig, g.d[i], None if radius else num, r, '')


def listed(env, n, m, num, method, radius, comp):
    """The distances of the neighbours, through an interpolant."""
    g = Geometry(env, n, m, comp=comp)
    it = make(env, method, num, env.real('radius') if radius else None)
    f = it.neighb_dists
    got = f(g.tracers, g.points, g.comp) if comp else f(g.tracers, g.points)
    k = min(n, num)
    env.require(tuple(got.shape) == (m, k), 'shape of distances')
    for i in range(m):
        near = []
        for j in range(n):
            if g.eligible(i, j):
                p = 0
                while p < len(near) and not bool(g.d[i][j] < g.d[i][near[p]]):
                    p += 1
                near.insert(p, j)
        near = near[:k]
        # one entry for each of the nearest, in any order; zeros are missing
        left = list(near)
        for q in range(k):
            if q >= len(near):
                env.require(env.eq(got[i][q], 0.), 'no more neighbours')
                continue
            for j in left:
                if bool(got[i][q] == g.d[i][j]):
                    left.remove(j)
                    break
            else: env.require(False, 'distance of a neighbour')


def missing(env):
    g = Geometry(env, 2, 1)
    env.require(env.raises(ValueError, env.ft.interpolation.select_neighbs,
        g.tracers, g.points), 'one of radius and number is needed')


def scenarios(tier):
    out = [S('neither', missing)]
    sizes = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2)]
    if tier == 'thorough': sizes += [(4, 1), (3, 2), (2, 3)]
    k = 0
    for n, m, num in ((1, 1, 1), (2, 1, 1), (2, 1, 2), (2, 1, 3), (1, 2, 2),
            (3, 1, 2)) + (((2, 2, 1), (3, 1, 1)) if tier == 'thorough' else ()):
        for comp in (False, True):
            k += 1
            out.append(S('listed-%d.%d-%d%s' % (n, m, num, '-comp' if comp
                else ''), listed, n=n, m=m, num=num, comp=comp,
                method=('inv', 'rbf', 'corrfun')[k % 3], radius=k % 2 == 0,
                text='%d tracers, %d points anywhere' % (n, m)))
    for n, m in sizes:
        for comp in (False, True):
            for num in range(1, n + 2):
                out.append(S('num-%d.%d-%d%s' % (n, m, num, '-comp' if comp
                    else ''), select, n=n, m=m, num=num, radius=False,
                    comp=comp, text='%d tracers, %d points anywhere, %d '
                    'neighbours' % (n, m, num)))
            for num in (None, 1):
                out.append(S('radius-%d.%d-%s%s' % (n, m, num, '-comp' if comp
                    else ''), select, n=n, m=m, num=num, radius=True,
                    comp=comp, text='%d tracers, %d points anywhere, any '
                    'radius' % (n, m)))
    for comp in (False, True):
        out += big('points-%d' % comp, select, (1, 2), '7 tracers, 20 points, '
            'one of them anywhere on a line', line='[tx]_', mobile='x_13$', n=7,
            m=20, num=3, radius=False, comp=comp)
        for num, radius in ((7, False), (None, True)):
            out += big('%s-%d' % ('radius' if radius else 'num', comp), select,
                (1, 2), '16 tracers, 3 points, one tracer anywhere on a '
                'line', line='[tx]_', mobile='t_5$', n=16, m=3,
                num=num, radius=radius, comp=comp, const='radius$')
        out += big('listed-%d' % comp, listed, (1, 2), '16 tracers, 2 points, one tracer '
            'anywhere on a line', line='[tx]_', mobile='t_9$', n=16, m=2,
            num=6, method='inv', radius=False, comp=comp)
    return out
