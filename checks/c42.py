"""C42: general velocity gradients are forward differences of the field."""
from symx.run import S
from .large import big
from .geom import Geometry, distances
from .c22 import make


def reached(env, g, points, r):
    """Every point has a neighbour, no tracer coincides with one."""
    d = distances(env, points, g.tracers)
    for i, row in enumerate(d):
        for v in row: env.assume(v > 0)
        env.assume(env.any([v < r if r is not None else True
                            for j, v in enumerate(row) if g.c[i] != j]))


def gradient(env, method, n, m, num, radius, comp, given, eps, move, bins=2):
    np = env.np
    env.opaque_roots()
    g = Geometry(env, n, m, comp=comp)
    r = None
    if radius:
        r = env.real('radius')
        env.assume(r > 0)
    reached(env, g, g.points, r)
    f = env.reals('f', (n, 3))
    it, fr = make(env, method, num, r, None, bins), make(env, method, num, r, None, bins)
    if move:
        # the scene was another one before
        it.set_scene(env.reals('ot', (n, 3)), env.reals('ox', (m, 3)),
                     env.reals('of', (n, 3)))
        if env.flag('asked'): it.eulerian_jacobian()
    it.set_scene(g.tracers, g.points, f, g.comp)
    fr.set_scene(g.tracers, g.points, f, g.comp)
    kw = {}
    if eps == 'any':
        h = env.real('eps')
        env.assume(h > 0)
        kw['eps'] = h
    elif eps: h = kw['eps'] = eps
    else: h = 100e-6
    if given:
        base = env.reals('base', (m, 3))
        kw['local_interp'] = base.copy()
    else: base = fr.interpolate()
    moved = []
    for j in range(3):
        x = g.points.copy()
        for i in range(m): x[i, j] = x[i, j] + h
        reached(env, g, x, r)
        moved.append(x)
    got = it.eulerian_jacobian(**kw)
    env.require(tuple(got.shape) == (m, 3, 3), 'one matrix for each point')
    for j in range(3):
        x = moved[j]
        one = make(env, method, num, r, None, bins)
        # (missing companions are not excluded from anything)
        v = one(g.tracers, x, f, g.comp) if comp else one(g.tracers, x, f)
        for i in range(m):
            for d in range(3):
                env.require(env.eq(got[i, d, j], (v[i, d] - base[i, d]) / h),
                            'difference along one axis')
    env.require(env.eq(it.current_active_neighbs(),
        fr.current_active_neighbs()), 'the scene stays')
    env.require(env.eq(it.current_data(), f), 'the data stay')
    if given and not move:
        env.require(env.eq(it.interpolate(), fr.interpolate()),
                    'interpolates as before')


def agree(env, method, n, m, num, radius, comp, bins=2):
    """A one-off call gives what a recorded scene gives."""
    env.opaque_roots()
    g = Geometry(env, n, m, comp=comp)
    # equally near tracers may be chosen differently
    for row in g.d:
        for a in range(n):
            for b in range(a): env.assume(row[a] != row[b])
    r = None
    if radius:
        r = env.real('radius')
        env.assume(r > 0)
    f = env.reals('f', (n, 2))
    it = make(env, method, num, r, None, bins)
    reached(env, g, g.points, r)
    once = it(g.tracers, g.points, f, g.comp)
    it.set_scene(g.tracers, g.points, f, g.comp)
    env.require(env.eq(it.interpolate(), once), 'as the recorded scene')
    env.require(env.eq(make(env, method, num, r, None, bins)(g.tracers, g.points, f,
        g.comp), once), 'as a new interpolant')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    k = 0
    for method in ('corrfun', 'rbf'):
        for n, m, num in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 1, 2)) + (
                ((2, 2, 2), (3, 1, 2)) if th else ()):
            for comp in (False, True):
                for given in (True, False):
                    k += 1
                    # (one kernel value for each pair of tracers)
                    if method == 'rbf' and num > 1: continue
                    eps = (None, 'any', 0.5)[k % 3]
                    move = n * m == 1 and k % 2 == 0
                    out.append(S('%s-%d.%d-%d%s%s%s%s' % (method, n, m, num,
                        '-comp' if comp else '', '-given' if given else '',
                        '-moved' if move else '', '-%s' % eps), gradient,
                        method=method, n=n, m=m, num=num, radius=False,
                        comp=comp, given=given, eps=eps, move=move,
                        bins=3 if n * m == 1 and not move else 2,
                        text='%d tracers, %d points anywhere' % (n, m)))
    for method in ('inv', 'corrfun', 'rbf'):
        for n, m, num in ((1, 1, 1), (2, 1, 1), (2, 1, 2), (2, 2, 1)) + (
                ((3, 1, 2), (3, 1, 3), (2, 2, 2)) if th else ()):
            for comp in (False, True):
                # one-off calls with a radius use all tracers within it
                if method == 'rbf' and num > 1: continue
                for radius in (False, True)[:1 + (num >= n)]:
                    out.append(S('agree-%s-%d.%d-%d%s%s' % (method, n, m, num,
                        '-comp' if comp else '', '-radius' if radius else ''),
                        agree, method=method, n=n, m=m, num=num,
                        radius=radius, comp=comp, text='%d tracers, %d points '
                        'anywhere' % (n, m)))
    for method in ('inv', 'corrfun', 'rbf'):
        for comp in (False, True):
            out += big('agree-%s%s' % (method, '-comp' if comp else ''), agree,
                (1, 2), '9 tracers, 5 points', line='[tx]_', method=method, n=9,
                m=5, num=3, radius=False, comp=comp)
            if method != 'inv':
                out += big('%s%s' % (method, '-comp' if comp else ''), gradient,
                    (1, 2), '9 tracers, 5 points', const='o?[tx]_',
                    method=method, n=9, m=5, num=4, radius=False, comp=comp,
                    given=False, eps=0.5, move=comp)
    return out
