"""C39: spline smoothing."""
from symx.run import S


def make(env, n, pos):
    np = env.np
    st = env.int('start', -3, 500)
    v, a = env.reals('v', (n, 3)), env.reals('a', (n, 3))
    ts = [st]
    for i in range(1, n):      # frames may be missing
        ts.append(ts[-1] + env.int('gap%d' % i, 1, 3))
    time = env.array(ts, int)
    tid = env.int('trid', 0, 99)
    t = env.ft.trajectory.Trajectory(pos.copy(), v.copy(), time, tid,
                                     accel=a.copy())
    return t, v, a, ts, tid


def bound(env):
    b = env.real('bound')
    env.assume(b >= 0.125)
    env.assume(b <= 8)
    return b


def fit(env, n, order):
    env.lazy_abs()
    # consecutive points differ
    x = env.reals('x', (n, 3))
    for i in range(1, n): env.assume(x[i,0] >= x[i - 1,0] + 0.125)
    b = bound(env)
    t, v, a, ts, tid = make(env, n, x)
    r = t.smoothed(b, order)
    env.require(len(r) == n, 'length kept')
    if len(r) != n: return
    env.require(env.eq(r.trajid(), tid), 'number kept')
    for k in range(n): env.require(env.eq(r.time()[k], ts[k]), 'times kept')
    if n < order + 1:
        env.require(env.all([env.eq(r.pos(), x), env.eq(r.velocity(), v),
                             env.eq(r.accel(), a)]), 'too short: unchanged')
        return
    env.require(r is not t and env.eq(t.pos(), x), 'the original is kept')
    for f in ('pos', 'velocity', 'accel'):
        env.require(tuple(getattr(r, f)().shape) == (n, 3), 'shape of ' + f)
    sq = 0.
    for k in range(n):
        for c in range(3):
            d = r.pos()[k,c] - x[k,c]
            sq = sq + d * d
    env.require(env.le(sq, n * n * b * b * 1.01), 'total deviation')
    want = env.spline([x[:,c] for c in range(3)], order, (n * b) ** 2)
    for d, f in enumerate(('pos', 'velocity', 'accel')):
        for k in range(n):
            for c in range(3):
                env.require(env.eq(getattr(r, f)()[k,c], want[d][c][k]),
                    ('the spline', 'its first derivative',
                     'its second derivative')[d])


def uniform(env, n, m, order):
    """The same uniform motion, followed for different numbers of frames."""
    p, c = env.reals('p', 3), env.reals('c', 3)
    env.assume(c[0] >= 0.125)
    env.assume(c[0] <= 4)
    env.assume(env.all([c[1] == 0, c[2] == 0]))
    b = bound(env)
    out = []
    for l in (n, m):
        pos = env.np.array([[p[i] + c[i] * k for i in range(3)]
                            for k in range(l)], dtype=float)
        t = env.ft.trajectory.Trajectory(pos, pos * 0.,
            env.np.arange(l), l, accel=pos * 0.)
        out.append(t.smoothed(b, order))
    for k in range(n):
        for i in range(3):
            env.require(env.eq(out[0].pos()[k,i], p[i] + c[i] * k),
                        'uniform motion stays')
            env.require(env.eq(out[0].accel()[k,i], 0.), 'no acceleration')
    env.require(env.eq(out[0].velocity()[0,0], out[1].velocity()[0,0]),
                'same velocity whatever the length')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for n, o in [(2, 3), (3, 3), (4, 3), (5, 3), (3, 2), (3, 1), (6, 5), (5, 5)] + (
            [(7, 3), (8, 5), (6, 3), (6, 4), (1, 3), (9, 3)] if th else []):
        out.append(S('fit-%d-%d' % (n, o), fit, n=n, order=o,
            text='any %d points, any bound within 1/8..8' % n))
    out.append(S('uniform', uniform, n=4, m=6, order=3,
                 text='any uniform motion along x'))
    return out
