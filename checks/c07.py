"""C07: velocity and acceleration derived from linked frames."""
from symx.run import S
from .large import big
from .frames import Frames, expect


def derived(env, counts, source, xuap, api):
    fr = Frames(env, counts, 7, xuap)
    frate = env.real('frate')
    base = 'xuap.' if xuap else 'ptv_is.'
    if source == 'single':
        fr.write_single('all.txt')
        name, fr.first = env.path('all.txt'), 0
    else:
        fr.write_dir(base + '%d')
        name = env.path(base + '%d')
    io = env.ft.io
    if api == 'common':
        got = io.trajectories(name, None, None, frate, traj_min_len=1)
    elif api == 'iter':
        got = list(io.iter_trajectories_ptvis(name, frate=frate, xuap=xuap,
                                              traj_min_len=1))
    else:
        got = io.trajectories_ptvis(name, None, None, frate, xuap, 1)
    env.require(len(got) == len(fr.chains()), 'all chains are read')
    for t in got:
        n = len(t)
        p, v, a = t.pos(), t.velocity(), t.accel()
        for k in range(n):
            if not xuap:
                want = [(p[k + 1][c] - p[k][c]) * frate if k < n - 1 else 0.
                        for c in range(3)]
                env.require(env.eq(v[k], want), 'velocity')
            want = [(v[k + 1][c] - v[k][c]) * frate if k < n - 2 else 0.
                    for c in range(3)]
            env.require(env.eq(a[k], want), 'acceleration')


def scenarios(tier):
    out = []
    cs = [(1, 1), (2, 2), (2, 2, 2), (1, 1, 1, 1), (2, 1, 2), (1, 2, 2, 1)]
    if tier == 'thorough': cs += [(2, 2, 2, 2), (1, 1, 1, 1, 1, 1), (3, 3, 3)]
    for i, c in enumerate(cs):
        for j, (src, xuap) in enumerate((('dir', False), ('single', False),
                                         ('dir', True))):
            api = ('common', 'iter', 'list')[(i + j) % 3]
            out.append(S('derived-%s-%s%s' % ('.'.join(map(str, c)), src,
                '-xuap' if xuap else ''), derived, counts=c, source=src,
                xuap=xuap, api=api, text='frames of %s particles, every '
                'linking, any positions and frame rate' % (c,)))
    for src, xuap, api in (('dir', False, 'list'), ('single', False, 'common'),
                           ('dir', True, 'iter')):
        out += big('derived-%s%s' % (src, xuap), derived, (1, 2),
                   '14 frames of up to 7 particles', counts=(6, 4, 7, 5, 7, 7,
                   3) * 2, source=src, xuap=xuap, api=api)
    return out
