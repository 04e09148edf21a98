"""C08: xuap files."""
from symx.run import S
from .large import big
from .frames import Frames, expect


def read(env, counts, first, tmpl, api):
    fr = Frames(env, counts, first, xuap=True)
    ml = env.pick('minlen', [None, 1, 2, 3])
    name = env.path('xuap.' + tmpl)
    fr.write_dir('xuap.' + tmpl)
    env.write('xuap.settings', 'none')
    io = env.ft.io
    if api == 'list':
        got = io.trajectories_ptvis(name, xuap=True, traj_min_len=ml)
    elif api == 'iter':
        got = list(io.iter_trajectories_ptvis(name, xuap=True, traj_min_len=ml))
    else:
        got = io.trajectories(name, None, None, 50., traj_min_len=ml)
    want = [c for c in fr.chains() if len(c) >= (2 if ml is None else ml)]
    expect(env, fr, list(got), want, scale=1.)


def scenarios(tier):
    out = []
    cs = [(1, 1), (2, 2), (1, 2, 1), (2, 2, 2), (2, 1, 2), (1, 1, 1, 1),
          (1, 0, 1)]
    if tier == 'thorough': cs += [(2, 2, 2, 2), (3, 3), (3, 2, 3), (3, 3, 3)]
    for i, c in enumerate(cs):
        for j, (t, first) in enumerate((('%d', 99), ('%05d', 0))):
            api = ('list', 'iter', 'common')[(i + j) % 3]
            out.append(S('read-%s-%s' % ('.'.join(map(str, c)), t), read,
                counts=c, first=first, tmpl=t, api=api,
                text='frames of %s particles, every linking, any positions '
                'and velocities; minimum length default/1/2/3' % (c,)))
    for api in ('list', 'iter', 'common'):
        out += big('read-' + api, read, (1, 2), '14 frames of up to 9 particles',
                   counts=(6, 9, 8, 5, 7, 7, 9) * 2, first=95, tmpl='%d',
                   api=api)
    return out
