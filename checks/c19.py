"""C19: fluid velocity at particles."""
from symx.run import S
from .large import big
from .geom import Geometry, distances
from .c22 import make
from .c23 import mean, nearest


class Pair(object):
    pass


def frame(env, pos, vel, ids, ppos, pvel, pids, comp, t):
    f = Pair()
    Snap = env.ft.particle.ParticleSnapshot if hasattr(
        env.ft.particle, 'ParticleSnapshot') else \
        env.ft.trajectory.ParticleSnapshot
    f.tracers = Snap(pos, vel, t, ids)
    kw = {} if comp is None else {'companion': comp}
    f.particles = Snap(ppos, pvel, t, pids, **kw)
    return f


def velocity(env, n, m, num, comp, radius, par, order):
    g = Geometry(env, n, m)
    tv = env.reals('u', (n, 3)) if n else env.np.zeros((0, 3))
    pv = env.reals('v', (m, 3))
    if n: ids = env.ints('id', n, 0)
    else: ids = env.np.zeros(0, dtype=int)
    env.distinct(ids)
    pids = env.ints('pid', m, 0)
    env.distinct(pids)
    comps = None
    if comp:
        comps = env.ints('comp', m, -1)
        for i in range(m):
            # which tracer, if any, is the companion
            for j in range(n):
                if bool(comps[i] == ids[j]): g.c[i] = j
    r = None
    if radius:
        r = env.real('radius')
        env.assume(r > 0)
    it = make(env, 'inv', num, r, par)
    used = [nearest(env, g, i, num, r) for i in range(m)]
    for u in used:
        if n: env.assume(len(u) > 0)
    fr = frame(env, g.tracers, tv, ids, g.points, pv, pids, comps, 4)
    nx = frame(env, g.tracers + 1., tv * 3., ids, g.points - 2., pv + 7.,
               pids, comps, 5)
    an = env.ft.analysis.FluidVelocitiesAnalyser(it)
    for again in range(order):
        # the analyser has seen other frames before
        of = frame(env, g.tracers[::-1] * 2., tv, ids, g.points[:1] + 3.,
                   pv[:1], pids[:1], None if comps is None else comps[:1], 3)
        an.analyse(of, fr)
    fv, rv = an.analyse(fr, nx)
    env.require(tuple(fv.shape) == (m, 3), 'shape of the fluid velocity')
    env.require(tuple(rv.shape) == (m, 3), 'shape of the relative velocity')
    for i in range(m):
        if n: want = mean(env, g, i, used[i], 1 if par is None else par, tv)
        else: want = [0., 0., 0.]
        env.require(env.eq(fv[i], want), 'fluid velocity at the particle')
        env.require(env.eq(rv[i], [pv[i][c] - fv[i][c] for c in range(3)]),
                    'velocity minus fluid velocity')


def columns(env):
    it = make(env, 'inv', 2, None, None)
    d = env.ft.analysis.FluidVelocitiesAnalyser(it).descr()
    env.require([(x[0], x[2]) for x in d] == [('fluid_vel', 3), ('rel_vel', 3)],
                'columns')


def lookup(env, n, m):
    """Companion trajectories as indices of tracers."""
    ids = env.ints('id', n, 0) if n else env.np.zeros(0, dtype=int)
    env.distinct(ids)
    comps = env.ints('comp', m, -1)
    got = env.ft.analysis.companion_indices(ids, comps)
    env.require(len(got) == m, 'one for each')
    for i in range(m):
        here = [j for j in range(n) if bool(ids[j] == comps[i])]
        k = int(got[i])
        env.require(k == here[0] if here else k < 0, 'index of the companion')


def scenarios(tier):
    th = tier == 'thorough'
    out = [S('columns', columns)]
    q = 0
    for n, m in ((0, 1), (0, 2), (1, 1), (2, 1), (3, 1), (2, 2), (1, 2)) + \
            (((4, 1), (3, 2), (2, 3)) if th else ()):
        for comp in (False, True):
            for num in sorted({1, 2, max(n, 1)}):
                if n * m >= 4 and num > 2: continue
                q += 1
                out.append(S('velocity-%d.%d-%d%s' % (n, m, num, '-comp' if
                    comp else ''), velocity, n=n, m=m, num=num, comp=comp,
                    radius=q % 3 == 0 and n > 0, par=(None, 2)[q % 2],
                    order=0 if n == 0 else (q // 2) % 2,
                    text='%d tracers, %d particles anywhere' % (n, m)))
    for n in range(4 if not th else 5):
        for m in range(1, 3 if not th else 4):
            out.append(S('lookup-%d.%d' % (n, m), lookup, n=n, m=m))
    for comp in (False, True):
        out += big('velocity-%d' % comp, velocity, (2, 12), '12 tracers, 8 '
                   'particles', const='[tx]\\d*_\\d+_0$', zero='[tx]\\d*_\\d+_[12]'
                   '$', within=(('id', 0, 60), ('pid', 0, 900), ('comp', 0,
                   60)), n=12, m=8, num=4, comp=comp, radius=False, par=2,
                   order=1)
        if comp: out += big('lookup', lookup, (1, 2, 3), '30 tracers', within=(('id', 0,
                   9999), ('comp', 0, 9999)), n=30, m=20)
    return out
