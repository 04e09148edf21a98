"""C06: linked frame files become exactly the linked trajectories."""
from symx.run import S
from .large import big
from .frames import Frames, expect


def read(env, counts, first, source, api):
    fr = Frames(env, counts, first)
    ml = env.pick('minlen', [None, 1, 2, 3])
    if source == 'single':
        name = env.path('all.txt')
        fr.write_single('all.txt')
        fr.first = 0
    else:
        name = env.path('ptv_is.' + source)
        fr.write_dir('ptv_is.' + source)
        env.write('ptv_is.addednote', 'nothing')
        env.write(('ptv_is.' + source) % first + '.bak', 'garbage')
    io = env.ft.io
    if api == 'list':
        got = io.trajectories_ptvis(name, frate=1., traj_min_len=ml)
    elif api == 'iter':
        got = list(io.iter_trajectories_ptvis(name, frate=1., traj_min_len=ml))
    elif api == 'common-iter':
        got = list(io.trajectories(name, None, None, 1., traj_min_len=ml,
                                   iter_allowed=True))
    else:
        got = io.trajectories(name, None, None, 1., traj_min_len=ml)
    want = [c for c in fr.chains() if len(c) >= (2 if ml is None else ml)]
    expect(env, fr, list(got), want)


def scenarios(tier):
    out = []
    cs = [(1, 1), (2, 2), (1, 2, 1), (2, 2, 2), (1, 0, 1), (1, 1, 1, 1),
          (2, 1, 2), (0, 1, 1), (2, 1, 1, 1)]
    if tier == 'thorough':
        cs += [(2, 2, 2, 2), (3, 3), (3, 2, 3), (1, 2, 2, 1, 1), (3, 3, 3)]
    for i, c in enumerate(cs):
        for j, (src, first) in enumerate((('%d', 9), ('%04d', 98),
                                          ('single', 0))):
            if src == 'single' and 0 in c: continue
            api = ('list', 'iter', 'common', 'common-iter')[(i + j) % 4]
            if src == 'single' and api == 'list': api = 'common'
            out.append(S('read-%s-%s' % ('.'.join(map(str, c)), src), read,
                counts=c, first=first, source=src, api=api,
                text='frames of %s particles, every linking, any positions;'
                ' minimum length default/1/2/3; %s' % (c, src)))
    for src, api in (('%d', 'list'), ('single', 'iter'), ('%05d', 'common')):
        out += big('read-' + src, read, (1, 2), '14 frames of up to 9 particles',
                   counts=(6, 9, 8, 5, 7, 7, 9) * 2, first=95, source=src,
                   api=api)
    return out
