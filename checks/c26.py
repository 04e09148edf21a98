"""C26: inverse-distance velocity gradients are the true derivatives."""
from symx.run import S
from .large import big
from .geom import Geometry, distances
from .c22 import make
from .c23 import nearest


def gradient(env, g, i, used, p, f, c):
    """Derivatives of component c at point i along the axes, by the
    quotient rule; returns (numerators, common denominator)."""
    w = {j: env.power(g.d[i][j], -p) for j in used}
    W = sum(list(w.values()), 0.)
    N = sum([w[j] * f[j][c] for j in used], 0.)
    out = []
    for k in range(3):
        dw = {j: p * env.power(g.d[i][j], -p - 2) *
              (g.tracers[j][k] - g.points[i][k]) for j in used}
        # (dN*W - N*dW)/W^2
        out.append(sum([dw[j] * (f[j][c] * W - N) for j in used], 0.) /
                   (W * W))
    return out


def jac(env, n, m, num, radius, comp, par, dim, zero=False, local=False,
        flat=False):
    env.opaque_roots()
    g = Geometry(env, n, m, comp=comp, zero=zero, flat=flat)
    r = None
    if radius:
        r = env.real('radius')
        env.assume(r > 0)
    g.apart()
    it = make(env, 'inv', num, r, par)
    f = env.reals('f', (n, dim))
    used = [nearest(env, g, i, num, r) for i in range(m)]
    for u in used: env.assume(len(u) > 0)
    it.set_scene(g.tracers, g.points, f, g.comp)
    if local: got = it.eulerian_jacobian(it.interpolate())
    else: got = it.eulerian_jacobian()
    env.require(tuple(got.shape) == (m, dim, 3), 'shape')
    p = 1 if par is None else par
    for i in range(m):
        for c in range(dim):
            want = gradient(env, g, i, used[i], p, f, c)
            for k in range(3):
                env.require(env.eq(got[i][c][k], want[k]),
                            'derivative along the axis')


def constant(env, n, m, num, par):
    """Uniform data has no gradient."""
    env.opaque_roots()
    g = Geometry(env, n, m)
    g.apart()
    it = make(env, 'inv', num, None, par)
    a = env.reals('a', 3)
    it.set_scene(g.tracers, g.points, env.np.array([[a[0], a[1], a[2]]] * n))
    env.require(env.eq(it.eulerian_jacobian(), env.np.zeros((m, 3, 3))),
                'no gradient')


def linear(env, n, num, par):
    """The gradient of a sum of data is the sum of the gradients."""
    env.opaque_roots()
    g = Geometry(env, n, 1)
    g.apart()
    it = make(env, 'inv', num, None, par)
    s = env.real('s')
    f, h = env.reals('f', (n, 1)), env.reals('h', (n, 1))
    it.set_scene(g.tracers, g.points, f)
    a = it.eulerian_jacobian()
    it.set_data_on_current_field(h)
    b = it.eulerian_jacobian()
    it.set_data_on_current_field(f + s * h)
    env.require(env.eq(it.eulerian_jacobian(), a + s * b), 'linear in the data')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    q = 0
    for n, m, num, dim in ((1, 1, 1, 3), (1, 1, 2, 2), (2, 1, 1, 2),
            (2, 1, 2, 1), (2, 1, 2, 3), (2, 1, 3, 2), (2, 2, 2, 1),
            (1, 2, 1, 2), (3, 1, 2, 1), (2, 2, 1, 2)):
        for comp in (False, True):
            if comp and n > 2 and not th: continue
            q += 1
            out.append(S('jac-%d.%d-%d-%d%s' % (n, m, num, dim, '-comp' if comp
                else ''), jac, n=n, m=m, num=num, dim=dim, comp=comp,
                radius=q % 3 == 0, par=(None, 2, 3)[q % 3], local=q % 2 == 0,
                text='%d tracers, %d points anywhere, any data' % (n, m)))
    for par in (None, 2, 3, 1.5):
        out.append(S('three-%s' % par, jac, n=3, m=1, num=3, dim=1, comp=False,
            radius=False, par=par, flat=True, zero=True, text='3 tracers '
            'around the origin'))
    for n, m, num, par in ((1, 1, 1, None), (2, 1, 2, 2), (2, 2, 1, None),
                           (2, 1, 3, None)):
        out.append(S('constant-%d.%d-%d-%s' % (n, m, num, par), constant, n=n,
                     m=m, num=num, par=par))
    for n, num, par in ((1, 1, 2), (2, 1, None), (2, 2, None)):
        out.append(S('linear-%d-%d-%s' % (n, num, par), linear, n=n, num=num,
                     par=par))
    for comp, local, seeds in ((False, False, (1, 2)), (True, True, (1, 2))):
        out += big('jac%s' % ('-comp' if comp else ''), jac, seeds, '9 '
            'tracers, 3 points, any data, one tracer anywhere on a line',
            line='[tx]_', mobile='t_5$', n=9, m=3, num=4,
            radius=False, comp=comp, par=2, dim=3, local=local)
    return out
