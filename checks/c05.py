"""C05: a snapshot holds each trajectory's own data for the frame."""
from symx.run import S
from .large import big
from .lib import traj, trids


def snapshot(env, lens, schema_first, ttype):
    T = env.ft.trajectory
    frame = env.int('frame', -5, 1000)
    ids = trids(env, len(lens))
    trs = []
    for i, n in enumerate(lens):
        t = traj(env, 't%d' % i, n, ids[i], time_type=ttype)
        env.assume(t.sxstart <= frame)
        env.assume(frame <= t.sxstart + n - 1)
        trs.append(t)
    schema = trs[0].schema() if schema_first else {
        'pos': (3,), 'velocity': (3,), 'tag': ()}
    s = T.take_snapshot(trs, frame, schema)
    env.require(env.eq(s.time(), frame), 'time of the snapshot')
    env.require(len(s) == len(trs), 'one row per trajectory')
    props = set(k for k in schema if k != 'time')
    env.require(set(s.schema()) == props | {'trajid'}, 'properties')
    for i, t in enumerate(trs):
        env.require(env.eq(s.trajid()[i], ids[i]), 'trajectory number')
        k = frame - t.sxstart
        for p in sorted(props):
            col = getattr(s, p)()
            want = t.sx[p][int(k)]
            env.require(env.eq(col[i], want), 'row data ' + p)
            env.require(col.shape[1:] == t.sx[p].shape[1:], 'item shape ' + p)
            env.require(col.dtype.kind == t.sx[p].dtype.kind, 'type ' + p)
        # the trajectories are left as they were
        for p in sorted(t.sx):
            env.require(env.eq(getattr(t, p)(), t.sx[p]), 'trajectory unchanged')


def empty(env):
    frame = env.int('frame', -5, 1000)
    schema = {'pos': (3,), 'velocity': (3,), 'heat': (), 'mat': (3, 3)}
    if env.flag('withtime'): schema['time'] = ()
    if env.flag('more'): schema['accel'] = (3,)
    s = env.ft.trajectory.take_snapshot([], frame, dict(schema))
    env.require(len(s) == 0, 'empty')
    env.require(env.eq(s.time(), frame), 'time of an empty snapshot')
    env.require(len(s.trajid()) == 0, 'no trajectory numbers')
    for k, v in schema.items():
        if k == 'time': continue
        env.require(s.has_property(k), 'property present ' + k)
        env.require(tuple(getattr(s, k)().shape) == (0,) + v, 'shape ' + k)


def scenarios(tier):
    out = [S('empty', empty, text='empty list; 4 schemas')]
    lens = [(1,), (3,), (1, 2), (3, 2), (2, 2, 2)]
    if tier == 'thorough': lens += [(5, 4, 3), (2, 3, 4, 2), (6,)]
    for ls in lens:
        for full in (True, False):
            for tt in (int, float):
                S_ = S('snap-%s-%s-%s' % ('.'.join(map(str, ls)),
                       'own' if full else 'given', tt.__name__), snapshot,
                       text='%d trajectories of lengths %s, any start, '
                       'frame, number and data' % (len(ls), ls),
                       lens=ls, schema_first=full, ttype=tt)
                out.append(S_)
    out += big('snap', snapshot, (1, 2), '25 trajectories', lens=(5, 6, 4, 9,
               7) * 5, schema_first=True, ttype=int, within=(('t.*_start', 2,
               4), ('frame', 4, 5)))
    return out
