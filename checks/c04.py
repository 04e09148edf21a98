"""C04: selecting the trajectories active in a frame."""
from symx.run import S
from .large import big
from .lib import traj, trids


def active(env, lens, segs, pre, ttype):
    np, T = env.np, env.ft.trajectory
    frame = env.int('frame', -5, 1000)
    trs = [traj(env, 't%d' % i, n, i, extra=False, time_type=ttype)
           for i, n in enumerate(lens)]
    kw = {}
    if pre:
        kw = dict(start_times=np.array([t.sx['time'][0] for t in trs]),
                  end_times=np.array([t.sx['time'][-1] for t in trs]))
        if pre == 'one': kw['end_times'] = kw['start_times']
        keep = {k: v.copy() for k, v in kw.items()}
    if segs or env.flag('explicit'): kw['segs'] = segs
    got = T.trajectories_in_frame(trs, frame, **kw)
    got = [int(i) for i in got]
    if pre:
        for k in keep:
            env.require(env.eq(kw[k], keep[k]), 'times unchanged')
    env.require(all(a < b for a, b in zip(got, got[1:])), 'list order')
    env.require(all(0 <= i < len(trs) for i in got), 'indices')
    covers, pos = [], []
    for t in trs:
        last = frame + 1 if segs else frame
        c = bool(t.sxstart <= frame) and bool(last <= t.sxstart + t.sxn - 1)
        covers.append(c)
        pos.append(list(t.sx['pos'][int(frame - t.sxstart)]) if c else None)
    for i in range(len(trs)):
        if not covers[i]:
            env.require(i not in got, 'only active trajectories')
            continue
        dup = env.any([env.all([a == b for a, b in zip(pos[i], pos[j])])
                       for j in range(i) if covers[j]])
        env.require(env.neg(dup) if i in got else dup,
            'active trajectories, the first of each position')


def empty(env):
    got = env.ft.trajectory.trajectories_in_frame([], env.int('frame', 0, 9),
                                                  segs=env.flag('segs'))
    env.require(len(got) == 0, 'nothing active among no trajectories')


def scenarios(tier):
    out = [S('empty', empty, text='no trajectories')]
    # one array for both, where all are of one frame
    for ls in ((1, 1), (1, 1, 1)):
        for segs in (False, True):
            out.append(S('active-%s-%s-one' % ('.'.join(map(str, ls)), 'seg'
                if segs else 'frm'), active, lens=ls, segs=segs, pre='one',
                ttype=int, text='%d trajectories of one frame' % len(ls)))
    lens = [(1,), (3,), (1, 2), (2, 3), (2, 2, 2)]
    if tier == 'thorough': lens += [(4, 3), (3, 3, 3), (2, 2, 2, 2)]
    for ls in lens:
        for segs in (False, True):
            for pre in (False, True):
                tt = (int, float) if len(ls) < 3 or tier == 'thorough' else (int,)
                for ttype in tt:
                    out.append(S('active-%s-%s-%s-%s' % (
                        '.'.join(map(str, ls)), 'seg' if segs else 'frm',
                        'pre' if pre else 'own', ttype.__name__), active,
                        lens=ls, segs=segs, pre=pre, ttype=ttype,
                        text='trajectories of lengths %s, any starts, frame'
                        ' and positions' % (ls,)))
    for segs in (False, True):
        for pre in (False, True):
            out += big('active-%d%d' % (segs, pre), active, (1, 2),
                       '30 trajectories', coarse='t.*_p', few='frame', within=((
                       't.*_start', 2, 7),), lens=(3, 2, 1, 4, 2) * 6,
                       segs=segs, pre=pre, ttype=int)
    return out
