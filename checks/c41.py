"""C41: the analysis script writes the fluid velocities of the configured scene
by the method its options ask for."""
from symx.run import S
from .geom import Geometry
from .c23 import mean, nearest

DT = [('trajid', int), ('time', int), ('pos', float, (3,)),
      ('velocity', float, (3,))]


def store(env, path, ids, frames):
    np = env.np
    n = len(ids) * len(frames)
    a = np.zeros(n, dtype=np.dtype(DT))
    k = 0
    for t, (pos, vel) in enumerate(frames):
        for i, d in enumerate(ids):
            a['trajid'][k], a['time'][k] = d, t
            a['pos'][k], a['velocity'][k] = pos[i], vel[i]
            k += 1
    h = env.tables.open_file(path, mode='w')
    h.create_table('/', 'particles', np.dtype(DT)).append(a)
    b = h.create_table('/', 'bounds', np.dtype([('trajid', int),
        ('first', int), ('last', int)]))
    c = np.zeros(len(ids), dtype=np.dtype([('trajid', int), ('first', int),
                                           ('last', int)]))
    for i, d in enumerate(ids):
        c['trajid'][i], c['first'][i], c['last'][i] = d, 0, len(frames) - 1
    b.append(c)
    h.close()
    return path


def scene(env, n, m, frames):
    gs, tv, pv = [], [], []
    for f in range(frames):
        gs.append(Geometry(env, n, m, 'f%d' % f))
        tv.append(env.reals('u%d' % f, (n, 3)))
        pv.append(env.reals('v%d' % f, (m, 3)))
    tp = store(env, env.path('trac.h5'), list(range(n)),
               [(g.tracers, v) for g, v in zip(gs, tv)])
    pp = store(env, env.path('part.h5'), [7 + i for i in range(m)],
               [(g.points, v) for g, v in zip(gs, pv)])
    cfg = env.write('scene.cfg', '\n'.join(['[Particle]', 'diameter = 0.001',
        'density = 1100', '[Scene]', 'frame rate = 50', 'tracers file = ' + tp,
        'particles file = ' + pp, 'first frame = 0',
        'last frame = %d' % (frames - 1)]) + '\n')
    return gs, tv, pv, pp, cfg


def rows(env, path):
    h = env.tables.open_file(path)
    t = h.get_node('/analysis')
    a = t.read()
    at = {k: t.attrs[k] for k in ('config', 'trajects')}
    h.close()
    return a, at


def ordered(env, g):
    """Tracers at growing distances, in one of two orders."""
    js = list(range(g.n))
    if env.flag('reverse'): js = js[::-1]
    for row in g.d:
        for a, b in zip(js, js[1:]): env.assume(row[a] < row[b])


def inverse(env, n, m, frames, args, num, power, order=False):
    gs, tv, pv, pp, cfg = scene(env, n, m, frames)
    if order:
        env.opaque_roots()
        for g in gs[:-1]: ordered(env, g)
    args = list(args)
    if power == 'any':
        power = env.pick('power', [0.5, 1, 2, 3])
        args += ['--param', repr(power)]
    used = []
    for g in gs[:-1]:
        used.append([nearest(env, g, i, num, None) for i in range(m)])
        for u in used[-1]: env.assume(len(u) > 0)
    out = env.path('out.h5')
    env.script('scripts/analyse_fhdf.py', [cfg, out] + args)
    a, at = rows(env, out)
    env.require(at['config'] == cfg, 'the configuration is noted')
    env.require(at['trajects'] == pp, "the particles' file is noted")
    env.require(len(a) == m * (frames - 1), 'a row for each particle and segment')
    if len(a) != m * (frames - 1): return
    for f in range(frames - 1):
        for i in range(m):
            hit = [k for k in range(len(a)) if bool(env.all([
                env.eq(a['trajid'][k], 7 + i), env.eq(a['time'][k], f)]))]
            env.require(len(hit) == 1, 'once')
            if len(hit) != 1: continue
            want = mean(env, gs[f], i, used[f][i], power, tv[f])
            fv, rv = a['fluid_vel'][hit[0]], a['rel_vel'][hit[0]]
            env.require(env.eq(fv, want), 'fluid velocity')
            env.require(env.eq(rv, [pv[f][i][c] - fv[c] for c in range(3)]),
                        'relative velocity')


def other(env, method, args, num, par, n=2):
    """The same as asking the library for it."""
    gs, tv, pv, pp, cfg = scene(env, n, 1, 2)
    g = gs[0]
    g.apart()
    if n == 2: env.assume(g.d[0][0] < g.d[0][1])
    else:
        env.opaque_roots()
        ordered(env, g)
    args = list(args)
    if method == 'corrfun':
        par = env.path('corr.npz')
        h = env.reals('h', 2)
        for i in range(2): env.assume(h[i] > 0)
        env.savez(par, corrs=h, bins=env.np.array([0., 0.5]))
        args += ['-p', par]
    out, want = env.path('out.h5'), env.path('want.h5')
    env.script('scripts/analyse_fhdf.py', args[:2] + [cfg, out] + args[2:])
    it = env.ft.interpolation.GeneralInterpolant(method, num, None, par)
    env.ft.analysis.analysis(env.ft.scene.read_dual_scene(cfg), want, cfg,
        [env.ft.analysis.FluidVelocitiesAnalyser(it)])
    a, at = rows(env, out)
    b, bt = rows(env, want)
    env.require(at == bt and len(a) == len(b) == 1, 'one row')
    for f in ('trajid', 'time', 'fluid_vel', 'rel_vel'):
        env.require(env.eq(a[f], b[f]), 'the values of ' + f)


def scenarios(tier):
    out = []
    for i, (n, m, fr, args, num, pw) in enumerate([
            (2, 1, 2, [], 4, 1), (3, 1, 2, ['--neighbs', '2'], 2, 1),
            (1, 2, 2, ['--method', 'inv', '--neighbs=1'], 1, 'any'),
            (2, 1, 3, ['--neighbs', '1'], 1, 1),
            (2, 1, 2, ['--method=inv', '-p', '2'], 4, 2),
            (2, 1, 2, ['--neighbs', '3'], 3, 'any')] +
            ([(3, 1, 2, [], 4, 'any'), (2, 2, 2, ['--neighbs', '1'], 1, 2),
              (5, 1, 2, ['--neighbs', '1'], 1, 1)]
             if tier == 'thorough' else [])):
        out.append(S('inverse-%d' % i, inverse, n=n, m=m, frames=fr, args=args,
            num=num, power=pw, text='%d tracers, %d particles, %d frames, any '
            'data' % (n, m, fr)))
    for i, (me, args, num, par, *n) in enumerate([
            ('rbf', ['--method', 'rbf', '--neighbs', '1'], 1, None),
            ('rbf', ['--method', 'rbf', '--neighbs', '1', '--param', '10'], 1, 10.),
            ('rbf', ['--method', 'rbf', '-p', '1e-2', '--neighbs', '1'], 1, 1e-2),
            ('corrfun', ['--method', 'corrfun', '--neighbs', '2'], 2, None),
            ('corrfun', ['--method', 'corrfun'], 4, None),
            ('corrfun', ['--method', 'corrfun'], 4, None, 6)]):
        n = n[0] if n else 2
        out.append(S('%s-%d' % (me, i), other, method=me, args=args, num=num,
            par=par, text='%d tracers, 1 particle, any data' % n, n=n))
    for n, m, args, num, pw in [(6, 1, [], 4, 1), (7, 1, ['--neighbs', '6'], 6, 1),
                                (6, 1, ['-p', '3', '--neighbs', '5'], 5, 3)]:
        out.append(S('ordered-%d' % num, inverse, n=n, m=m, frames=2, args=args,
            num=num, power=pw, order=True, text='%d tracers by growing '
            'distance (or the reverse), %d particles, any data' % (n, m)))
    return out
