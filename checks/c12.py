"""C12: frame-by-frame (HDF5) writing round trip."""
from symx.run import S
from .large import big


def trip(env, groups, gap):
    """groups: for each written frame the trajectory indices in it."""
    np = env.np
    k = max([g for f in groups for g in f]) + 1
    ids = [env.int('id%d' % i, 0, 300) for i in range(k)]
    env.distinct(ids)
    t0 = env.int('t0', -3, 100)
    times = [t0]
    for f in range(1, len(groups)):
        times.append(times[-1] + (env.int('gap%d' % f, 1, 3) if gap else 1))
    Snap = env.ft.trajectory.ParticleSnapshot
    frames, data = [], []
    for f, gs in enumerate(groups):
        n = len(gs)
        c = dict(pos=env.reals('p%d' % f, (n, 3)),
                 velocity=env.reals('v%d' % f, (n, 3)),
                 heat=env.reals('h%d' % f, n),
                 tag=env.ints('g%d' % f, n, -5, 5))
        c['trajid'] = np.array([ids[g] for g in gs], dtype=int)
        s = Snap(c['pos'], c['velocity'], times[f], c['trajid'],
                 heat=c['heat'], tag=c['tag'])
        frames.append(s)
        data.append(c)
    path = env.path('frames.h5')
    env.ft.io.save_frames_hdf(path, iter(frames) if gap else frames)
    sc = env.ft.scene.Scene(path)
    # the frames
    real = [f for f in range(len(groups)) if len(groups[f])]
    def check(got, f, label):
        gs = groups[f]
        env.require(env.eq(got.time(), times[f]), label + 'time')
        env.require(len(got) == len(gs), label + 'number of particles')
        env.require(set(got.schema()) == {'pos', 'velocity', 'heat', 'tag',
                                          'trajid'}, label + 'properties')
        for i, g in enumerate(gs):
            hit = [j for j in range(len(got))
                   if bool(env.eq(got.trajid()[j], ids[g]))]
            env.require(len(hit) == 1, label + 'particle')
            for j in hit:
                for n in ('pos', 'velocity', 'heat', 'tag'):
                    env.require(env.eq(getattr(got, n)()[j], data[f][n][i]),
                                label + n)
    if env.flag('fetch'):
        for f in real: check(sc.frame_by_time(times[f]), f, 'fetched: ')
    else:
        got = list(sc.iter_frames())
        env.require(env.eq(len(got), times[real[-1]] - times[real[0]] + 1),
                    'number of frames')
        for f in real:
            hit = [s for s in got if bool(env.eq(s.time(), times[f]))]
            env.require(len(hit) == 1, 'frame is there')
            if hit: check(hit[0], f, 'iterated: ')
        for s in got:
            if not any([bool(env.eq(s.time(), times[f])) for f in real]):
                env.require(len(s) == 0, 'frames that were not written')
    # bounds
    tags = sc.trajectory_tags()
    seen = [g for g in range(k) if any(g in gs for gs in groups)]
    env.require(tuple(tags.shape) == (len(seen), 3), 'bounds')
    for g in seen:
        fs = [f for f in range(len(groups)) if g in groups[f]]
        hit = [r for r in tags if bool(env.eq(r[0], ids[g]))]
        env.require(len(hit) == 1, 'bounds of the trajectory')
        for r in hit:
            env.require(env.eq(r[1], times[fs[0]]), 'first frame')
            env.require(env.eq(r[2], times[fs[-1]]), 'last frame')
    # bounding box
    lo, hi = sc.bounding_box()
    for c in range(3):
        vals = [data[f]['pos'][i][c] for f in real
                for i in range(len(groups[f]))]
        env.require(env.all([lo[c] <= v for v in vals]), 'box holds all')
        env.require(env.all([hi[c] >= v for v in vals]), 'box holds all')
        env.require(env.any([env.eq(lo[c], v) for v in vals]), 'box is tight')
        env.require(env.any([env.eq(hi[c], v) for v in vals]), 'box is tight')


def box(env, n):
    """The box of a file without recorded extremes."""
    from .lib import Rows, frange
    rows = Rows(env, 'r', n, groups=list(range(n)), fields=[('pos', float, (3,)),
        ('velocity', float, (3,))])
    sc = env.ft.scene.Scene(rows.write(env.path('p.h5'), True))
    lo, hi = sc.bounding_box()
    for c in range(3):
        vals = [rows.cols['pos'][i][c] for i in range(n)]
        for b, cmp in ((lo[c], lambda b, v: b <= v), (hi[c], lambda b, v: b >= v)):
            env.require(env.all([cmp(b, v) for v in vals]), 'box holds all')
            env.require(env.any([env.eq(b, v) for v in vals]), 'box is tight')


def scenarios(tier):
    gs = [[[0]], [[0, 1]], [[0], [0]], [[0, 1], [1, 0]], [[0], [1]],
          [[0], [], [0]], [[], [0], [0, 1]], [[0, 1], [1], [0]]]
    if tier == 'thorough':
        gs += [[[0, 1], [1, 2], [2, 0], [1]], [[0, 1, 2], [2, 1, 0]],
               [[0], [], [], [1, 0], [0]], [[2, 0, 1], [1], [0, 2], []]]
    out = []
    for i, g in enumerate(gs):
        name = '.'.join(''.join(map(str, f)) or '-' for f in g)
        for gap in ((False, True) if len(g) > 1 else (False,)):
            out.append(S('trip-%s%s' % (name, '-gaps' if gap else ''), trip,
                groups=g, gap=gap, text='frames with trajectories %s' % name))
    for n in (1, 2, 3): out.append(S('box-%d' % n, box, n=n))
    import random
    for k in (1, 2):
        r = random.Random(k)
        gs = [r.sample(range(12), r.randrange(9)) for f in range(14)]
        out += big('trip', trip, (k,), '14 frames of up to 8 particles',
                   const='p\\d+_', groups=gs, gap=k == 2)
    return out
