"""C35: reading a configured frame pair."""
from symx.run import S
from .large import big
from .seqs import group, store, check_pair, in_range, PIDS, TIDS


def pair(env, plens, tlens, fmts, forward, order, extra):
    parts = group(env, 'p', plens, PIDS, 3, forward, extra[0])
    tracs = group(env, 't', tlens, TIDS, 3, not forward, extra[1])
    pn = store(env, parts, 'part', fmts[0])
    tn = store(env, tracs, 'tr100%', fmts[1])
    f = env.int('frame', 0, 3)
    # something to tell the properties from:
    for ts in (parts, tracs):
        env.assume(env.any([in_range(env, t, f, f + 2) >= 2 for t in ts]))
    d, r, fr = env.real('diam'), env.real('dens'), env.real('frate')
    env.assume(fr > 0)
    one = ['[Particle]', 'density = ' + env.fmt(r), 'diameter = ' + env.fmt(d)]
    two = ['[Scene]', 'part_file = ' + pn.replace('%', '%%'),
           'frame = ' + env.fmt(f), 'tracer_file: ' + tn.replace('%', '%%'),
           'frame rate = ' + env.fmt(fr)]
    cf = env.write('frame.cfg', '\n'.join(one + two if order else two + one)
                   + '\n')
    got = env.ft.io.read_frame_data(cf)
    env.require(len(got) == 4, 'four results')
    particle, frate, a, b = got
    env.require(env.eq(particle.diam, d), 'diameter')
    env.require(env.eq(particle.density, r), 'density')
    env.require(env.eq(frate, fr), 'frame rate')
    check_pair(env, (a, b), parts, tracs, f, '')


def scenarios(tier):
    out = []
    fm = [('hdf', 'hdf'), ('npz', 'hdf'), ('npz', 'npz'), ('hdf', 'npz')]
    ls = [((2,), (2,)), ((3,), (2, 2)), ((2, 2), (3,)), ((1, 2), (2, 1)),
          ((4,), (3,)), ((2, 3), (2, 2))]
    if tier == 'thorough': ls += [((3, 3), (3, 2)), ((2, 2, 2), (2, 2)),
                                  ((5, 2), (4, 3))]
    for i, (p, t) in enumerate(ls):
        out.append(S('pair-%s-%s' % ('.'.join(map(str, p)), '.'.join(map(str,
            t))), pair, plens=p, tlens=t, fmts=fm[i % 4], forward=i % 2 == 0,
            order=i % 3 == 0, extra=(i % 3 < 2, i % 3 != 1), text='particle trajectories of %s points, '
            'tracers of %s, any starts and frame' % (p, t)))
    p, t = (9, 5, 7, 3, 6, 8), (6, 4, 8, 5, 7)
    for k, f in enumerate(fm):
        out += big('pair-%s-%s' % f, pair, (1, 2), 'particle trajectories of '
            '%s points, tracers of %s' % (p, t), few='frame', within=(
            ('[pt]\\d+_start', 0, 3),), track=dict(p=1, t=-1) if k % 2 else
            dict(p=-1, t=1), plens=p, tlens=t, fmts=f, forward=k % 2 == 1,
            order=k % 2, extra=(True, k % 2 == 0))
    return out
