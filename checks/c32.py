"""C32: Savitzky-Golay smoothing is exact on polynomials."""
from symx.run import S

KNOWN = ('pos', 'velocity', 'accel', 'time', 'trajid')


def make(env, name, n, trid, deg, kind=int):
    """A trajectory in polynomial motion (in units of the frame time), with
    velocities and accelerations of its own."""
    np = env.np
    co = env.reals(name + 'c', (deg + 1, 3))
    pos = np.array([[sum([co[j,i] * (k ** j) for j in range(1, deg + 1)],
        co[0,i]) for i in range(3)] for k in range(n)], dtype=float)
    st = env.int(name + 'start', -3, 500)
    cols = dict(pos=pos, velocity=env.reals(name + 'v', (n, 3)),
        accel=env.reals(name + 'a', (n, 3)), heat=env.reals(name + 'h', n),
        tag=env.ints(name + 'g', n, -9, 9), wall=env.reals(name + 'w', (n, 2)))
    time = env.array([st + i for i in range(n)], kind)
    t = env.ft.trajectory.Trajectory(cols['pos'], cols['velocity'], time, trid,
        **{k: v for k, v in cols.items() if k not in ('pos', 'velocity')})
    # kept apart from what the smoothing is given
    cols = {k: v.copy() for k, v in cols.items()}
    t.sx, t.sxn, t.sxid, t.sxstart, t.co = cols, n, trid, st, co
    return t


def derivative(co, k, i, d):
    out = 0.
    for j in range(d, co.shape[0]):
        f = 1
        for q in range(d): f *= j - q
        out = out + co[j,i] * (f * k ** (j - d))
    return out


def smooth(env, window, order, lens, deg, kind=int):
    env.lazy_abs()
    fps = env.real('fps')
    env.assume(fps > 0)
    ids = [5, 0, 31][:len(lens)]
    trs = [make(env, 't%d' % i, n, ids[i], deg, kind)
           for i, n in enumerate(lens)]
    got = env.ft.smoothing.savitzky_golay(list(trs), fps, window, order)
    want = [t for t in trs if t.sxn >= window]
    env.require(len(got) == len(want), 'number of trajectories')
    byid = {int(g.trajid()): g for g in got}
    env.require(set(byid) == {t.sxid for t in want}, 'numbers kept')
    h = (window - 1) // 2
    for t in want:
        if t.sxid not in byid: continue
        g = byid[t.sxid]
        env.require(g is not t, 'a new trajectory')
        env.require(len(g) == t.sxn, 'length kept')
        if len(g) != t.sxn: continue
        for f in ('pos', 'velocity', 'accel'):
            env.require(tuple(getattr(g, f)().shape) == (t.sxn, 3),
                        'shape of ' + f)
        tm = g.time()
        for k in range(t.sxn):
            env.require(env.eq(tm[k], t.sxstart + k), 'times kept')
        for k in range(h, t.sxn - h):
            for i in range(3):
                env.require(env.eq(g.pos()[k,i], t.sx['pos'][k,i]),
                            'position unchanged')
                env.require(env.eq(g.velocity()[k,i],
                    derivative(t.co, k, i, 1) * fps), 'exact velocity')
                env.require(env.eq(g.accel()[k,i],
                    derivative(t.co, k, i, 2) * fps * fps),
                    'exact acceleration')
                if deg > 3 or k == h: continue
                # predictions from the point before
                env.require(env.eq(g.vel_pp()[k,i], g.velocity()[k,i]),
                            'predicted velocity')
                env.require(env.eq(g.acc_pp()[k,i], g.accel()[k,i]),
                            'predicted acceleration')
        for f in ('heat', 'tag', 'wall'):
            env.require(g.has_property(f), 'property kept')
            if g.has_property(f):
                env.require(env.eq(getattr(g, f)(), t.sx[f]),
                            'values of other properties')
    # the given trajectories are left alone
    for t in trs:
        for f, v in t.sx.items():
            env.require(env.eq(getattr(t, f)(), v), 'input unchanged')


def rejected(env, wmax):
    w, o = env.int('window', 0, wmax), env.int('order', 0, wmax)
    w, o = int(w), int(o)
    T = env.ft.trajectory.Trajectory
    t = T(env.np.zeros((3, 3)), env.np.zeros((3, 3)), env.np.arange(3), 1)
    bad = env.raises((TypeError, ValueError),
                     env.ft.smoothing.savitzky_golay, [t], 10., w, o)
    env.require(bool(bad) == (not (w % 2 == 1 and w >= o + 2)),
                'unusable combinations are rejected, others not')


def nonint(env):
    f = env.ft.smoothing.savitzky_golay
    bad = env.pick('value', ('five', 'a1', ''))
    w, o = (bad, 2) if env.flag('window') else (5, bad)
    env.require(bool(env.raises((TypeError, ValueError), f, [], 10., w, o)),
                'rejected')
    env.require(len(f([], 10., 5, 2)) == 0, 'nothing to smooth')


def again(env, window, order):
    """Twice, with other settings in between: nothing is carried over."""
    env.lazy_abs()
    fps, f2 = env.real('fps'), env.real('fps2')
    env.assume(fps > 0)
    env.assume(f2 > 0)
    t = make(env, 't', window + 1, 4, order)
    f = env.ft.smoothing.savitzky_golay
    a, = f([t], fps, window, order)
    f([t], f2, window - 2, order - 1)
    b, = f([t], fps, window, order)
    for p in ('pos', 'velocity', 'accel'):
        env.require(env.eq(getattr(a, p)(), getattr(b, p)()), 'same again ' + p)


def scenarios(tier):
    out = [S('rejected', rejected, wmax=9, text='all pairs up to 9'),
           S('not-numbers', nonint), S('again-5-2', again, window=5, order=2,
           text='any second-order motion')]
    ws = [(3, 1), (3, 0), (5, 2), (5, 3), (5, 1), (7, 2), (7, 3), (7, 4), (7, 5),
          (9, 4), (11, 3), (5, 0)]
    if tier == 'thorough': ws += [(9, 2), (9, 5), (9, 6), (9, 7), (11, 2),
                                  (11, 5), (13, 3), (15, 4), (21, 3)]
    for i, (w, o) in enumerate(ws):
        for j, lens in enumerate(((w,), (w + 2, w - 1), (w - 1, w + 1, w))):
            if j == 2 and w > 7 and tier != 'thorough': continue
            d = o if j < 2 else max(0, o - 1)
            out.append(S('smooth-%d-%d-%s' % (w, o, '.'.join(map(str, lens))),
                smooth, window=w, order=o, lens=lens, deg=d,
                kind=float if (i + j) % 3 == 2 else int,
                text='any motion of degree %d, any frame rate; window %d, '
                'order %d, trajectories of %s points' % (d, w, o, lens)))
    for w, o, lens in ((5, 2, (40, 4, 23)), (7, 3, (12, 30, 6))):
        out.append(S('long-%d-%d' % (w, o), smooth, window=w, order=o,
            lens=lens, deg=o, text='any motion of degree %d, any frame rate; '
            'trajectories of %s points' % (o, lens)))
    return out
