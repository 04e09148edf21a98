"""C24: radial-basis and correlation interpolation follow their definitions."""
from symx.run import S
from .large import big
from .geom import Geometry, distance
from .c22 import make
from .c23 import nearest


def det(m):
    if not m: return 1.
    if len(m) == 1: return m[0][0]
    out = 0.
    for c in range(len(m)):
        sub = [r[:c] + r[c + 1:] for r in m[1:]]
        out = out + (-1) ** c * m[0][c] * det(sub)
    return out


def expansion(env, K, f, phi):
    """phi . inverse(K) . f for each component, and the determinant."""
    D = det(K)
    out = []
    for c in range(len(f[0])):
        tot = 0.
        for i in range(len(K)):
            Ki = [[f[r][c] if q == i else K[r][q] for q in range(len(K))]
                  for r in range(len(K))]
            tot = tot + phi[i] * det(Ki)
        out.append(tot)
    return out, D


def gauss(env, d, eps):
    return env.exp(-(d ** 2) * eps)


def rbf_want(env, td, d, used, f, eps):
    K = [[gauss(env, td[i][j], eps) if i != j else 1. for j in used]
         for i in used]
    return expansion(env, K, [f[j] for j in used],
                     [gauss(env, d[j], eps) for j in used])


def rbf_same(env, got, td, d, used, f, eps, label):
    """got * det(K) is the numerator of the expansion."""
    if not used:
        env.require(env.eq(got, [0.] * len(f[0])), label)
        return
    want, D = rbf_want(env, td, d, used, f, eps)
    for c in range(len(want)):
        env.require(env.eq(got[c] * D, want[c]), label)


def regular(env, td, used, eps):
    """The kernel matrix of the neighbours can be inverted."""
    for u in used:
        if len(u) < 2: continue
        D = det([[gauss(env, td[i][j], eps) if i != j else 1. for j in u]
                 for i in u])
        env.assume(env.neg(env.eq(D, 0.)))


def masks(env, m, n, least=1):
    """Any neighbours for each point."""
    out = []
    for i in range(m):
        k = env.choose('mask%d' % i, 2 ** n - least) + least
        out.append([j for j in range(n) if k >> j & 1])
    return out


def boolean(env, used, n):
    return env.np.array([[j in u for j in range(n)] for u in used], dtype=bool)


def rbf(env, n, m, dim, eps):
    """The function itself: any distances, any neighbours."""
    np = env.np
    t = {}
    for i in range(n):
        for j in range(i):
            t[i, j] = t[j, i] = env.real('td%d_%d' % (i, j))
            env.assume(t[i, j] > 0)
        t[i, i] = 0.
    td = np.array([[t[i, j] for j in range(n)] for i in range(n)])
    d = env.reals('d', (m, n))
    for i in range(m):
        for j in range(n): env.assume(d[i][j] >= 0)
    f = env.reals('f', (n, dim))
    used = masks(env, m, n, 0)
    if eps == 'any':
        e = env.real('eps')
        env.assume(e > 0)
    else: e = 1e-2 if eps is None else eps
    regular(env, td, used, e)
    args = (td, d, boolean(env, used, n), f)
    ip = env.ft.interpolation
    got = ip.rbf_interp(*args) if eps is None else ip.rbf_interp(*args,
                                                              epsilon=e)
    env.require(tuple(got.shape) == (m, dim), 'shape')
    for i in range(m):
        rbf_same(env, got[i], td, d[i], used[i], f, e,
                 'expansion on the neighbours')


def histogram(env, nb, dim, flat):
    """Bins in increasing order, any values."""
    np = env.np
    b = [env.real('b%d' % i) for i in range(nb)]
    for i in range(1, nb): env.assume(b[i - 1] < b[i])
    h = env.reals('h', nb) if flat else env.reals('h', (nb, dim))
    return np.array(b), h


def weight(env, h, b, x, c, flat):
    k = 0
    while k + 1 < len(b) and bool(x >= b[k + 1]): k += 1
    return h[k] if flat else h[k][c]


def some_weight(env, d, used, dim, h, b, flat):
    """The weights of the neighbours do not cancel."""
    for c in range(dim):
        tot = sum([weight(env, h, b, d[j], c, flat) for j in used], 0.)
        env.assume(env.neg(env.eq(tot, 0.)))
        if flat: break


def corr_same(env, got, d, used, f, h, b, flat, label):
    for c in range(len(f[0])):
        w = {j: weight(env, h, b, d[j], c, flat) for j in used}
        tot = sum(list(w.values()), 0.)
        env.require(env.eq(got[c] * tot, sum([w[j] * f[j][c] for j in used],
                    0.)), label)


def corrfun(env, n, m, dim, nb, flat):
    d = env.reals('d', (m, n))
    f = env.reals('f', (n, dim))
    b, h = histogram(env, nb, dim, flat)
    used = masks(env, m, n, 1)
    for i in range(m):
        for j in range(n): env.assume(d[i][j] >= b[0])
    for i in range(m): some_weight(env, d[i], used[i], dim, h, b, flat)
    got = env.ft.interpolation.corrfun_interp(d, boolean(env, used, n), f, h, b)
    env.require(tuple(got.shape) == (m, dim), 'shape')
    for i in range(m):
        corr_same(env, got[i], d[i], used[i], f, h, b, flat,
                  'mean weighted by the histogram')


def objects(env, method, n, m, num, radius, comp, call, flat=False, par=None):
    """Through an interpolant: one-off, or with a recorded scene."""
    ip = env.ft.interpolation
    g = Geometry(env, n, m, comp=comp)
    r = None
    if radius:
        r = env.real('radius')
        env.assume(r > 0)
    dim = 3 if flat or n < 3 else 2
    used = [nearest(env, g, i, num, r) for i in range(m)]
    for u in used: env.assume(len(u) > 0)
    if method == 'rbf':
        for i in range(n):
            for j in range(i):
                env.assume(distance(env, g.tracers[i], g.tracers[j]) > 0)
        it = ip.interpolant('rbf', num, r, par)
        eps = 1e5 if par is None else par
        td = [[distance(env, g.tracers[i], g.tracers[j]) for j in range(n)]
              for i in range(n)]
        regular(env, td, used, eps)
    else:
        b, h = histogram(env, 2, dim, flat)
        env.assume(b[0] <= 0)
        for i in range(m):
            some_weight(env, g.d[i], used[i], dim, h, b, flat)
        env.savez(env.path('corr.npz'), corrs=h, bins=b)
        it = ip.interpolant('corrfun', num, r, env.path('corr.npz'))
    f = env.reals('f', (n, dim))
    if call == 'once':
        got = it(g.tracers, g.points, f, g.comp) if comp else \
            it(g.tracers, g.points, f)
    else:
        it.set_scene(g.tracers, g.points, f, g.comp)
        got = it.interpolate()
        if call == 'twice':
            f = env.reals('k', (n, dim))
            it.set_data_on_current_field(f)
            got = it.interpolate()
    env.require(tuple(got.shape) == (m, dim), 'shape')
    for i in range(m):
        if method == 'rbf':
            rbf_same(env, got[i], td, g.d[i], used[i], f, eps,
                     'radial basis of the neighbours')
        else:
            corr_same(env, got[i], g.d[i], used[i], f, h, b, flat,
                      'correlation mean of the neighbours')


def empty(env, method, m):
    """No tracers: zeros."""
    g = Geometry(env, 0, m)
    it = make(env, method, 2, None)
    got = it(g.tracers, g.points, env.np.zeros((0, 3))) \
        if env.flag('once') else None
    if got is None:
        it.set_scene(g.tracers, g.points, env.np.zeros((0, 3)))
        got = it.interpolate()
    env.require(env.eq(got, env.np.zeros((m, 3))), 'zeros without tracers')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for n, m, dim, eps in ((1, 1, 3, None), (2, 1, 2, 'any'), (3, 1, 1, 0.5),
            (2, 2, 1, 2.), (1, 2, 3, 'any')) + (((3, 1, 3, 'any'),
            (3, 2, 2, None), (4, 1, 1, 1.)) if th else ()):
        out.append(S('rbf-%d.%d-%d-%s' % (n, m, dim, eps), rbf, n=n, m=m,
            dim=dim, eps=eps, text='%d tracers, any distances and data' % n))
    for n, m, dim, nb, flat in ((1, 1, 3, 2, True), (2, 1, 3, 3, True),
            (2, 2, 2, 2, False), (3, 1, 3, 2, False), (1, 2, 3, 1, True),
            (3, 1, 2, 2, True)) + (((3, 2, 2, 2, False), (3, 1, 3, 4, True))
            if th else ()):
        out.append(S('corrfun-%d.%d-%d-%d%s' % (n, m, dim, nb, '-flat' if flat
            else ''), corrfun, n=n, m=m, dim=dim, nb=nb, flat=flat,
            text='%d tracers, %d bins, any distances and data' % (n, nb)))
    q = 0
    for method in ('rbf', 'corrfun'):
        for n, m, num in ((1, 1, 1), (2, 1, 1), (2, 1, 2), (2, 2, 1),
                          (2, 1, 3), (3, 1, 2)) + (((3, 1, 3), (2, 2, 2)) if th else ()):
            for comp in (False, True):
                for call in ('once', 'scene', 'twice'):
                    if call == 'twice' and n > 1 and not th: continue
                    q += 1
                    if n * m == 4 and comp and call == 'once' and not th and \
                            method == 'corrfun': continue
                    # one-off calls with a radius use all tracers within it
                    radius = q % 3 == 0 and (call != 'once' or num >= n)
                    out.append(S('%s-%d.%d-%d%s%s-%s' % (method, n, m, num,
                        '-radius' if radius else '', '-comp' if comp else '',
                        call), objects, method=method, n=n, m=m, num=num,
                        radius=radius, comp=comp, call=call, flat=q % 2 == 0,
                        par=(None, 2.)[q % 2], text='%d tracers, %d points '
                        'anywhere' % (n, m)))
        for m in (1, 2): out.append(S('empty-%s-%d' % (method, m), empty,
                                      method=method, m=m))
    for comp, call in ((False, 'once'), (True, 'scene'), (False, 'twice')):
        out += big('rbf-' + call, objects, (1,), '7 tracers, 4 points, any '
            'data', line='[tx]_', method='rbf', n=7, m=4, num=3, radius=False,
            comp=comp, call=call, par=0.002)
        out += big('corrfun-' + call, objects, (1, 2, 3, 4), '12 tracers, 6 points, any '
            'data', line='[tx]_', zero='b0$', const='b1$', method='corrfun', n=12, m=6,
            num=5, radius=False, comp=comp, call=call)
    return out
