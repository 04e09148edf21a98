"""C13: scene iteration by trajectory partitions the data."""
from symx.run import S
from .large import big
from .lib import Rows, frange, check_rows


def trajs(env, n, bounds, how):
    rows = Rows(env, 'r', n)
    path = rows.write(env.path('p.h5'), bounds)
    rng = frange(env, 'rng', kinds=('none', 'both', 'first', 'last'))
    Scene = env.ft.scene.Scene
    if how == 'init':
        s = Scene(path, rng)
    elif how == 'default':
        s = Scene(path) if rng is None else Scene(path, frame_range=rng)
    else:
        s = Scene(path, (1, 2))
        if how == 'reset':
            s.set_frame_range((None, 2))
            s.set_frame_range(None)
        s.set_frame_range(rng)
    got = list(s.iter_trajectories())
    env.require(len(got) == len(rows.ids), 'one trajectory per number')
    ids = [i for i in s.trajectory_ids()]
    env.require(len(ids) == len(rows.ids), 'trajectory numbers')
    for g, tid in enumerate(rows.ids):
        env.require(env.any([env.eq(i, tid) for i in ids]),
                    'trajectory numbers')
        ix = [i for i in range(n) if rows.group[i] == g and
              rows.in_range(i, rng)]
        hit = [t for t in got if bool(env.eq(t.trajid(), tid))]
        env.require(len(hit) == 1, 'one trajectory per number')
        for t in hit: check_rows(env, t, rows, ix, 'iterated: ', ids=False)
        t = s.trajectory_by_id(tid)
        env.require(env.eq(t.trajid(), tid), 'number of fetched trajectory')
        check_rows(env, t, rows, ix, 'fetched: ', ids=False)
    # nothing was consumed or changed by reading
    env.require(len(list(s.iter_trajectories())) == len(got), 'read again')


def changing(env, n):
    """A range change affects later reads only (also of a running scene)."""
    rows = Rows(env, 'r', n, groups=[0] * n)
    path = rows.write(env.path('p.h5'), True)
    s = env.ft.scene.Scene(path)
    a, b = frange(env, 'a'), frange(env, 'b')
    tid = rows.ids[0]
    s.set_frame_range(a)
    first = s.trajectory_by_id(tid)
    s.set_frame_range(b)
    second = s.trajectory_by_id(tid)
    third = list(s.iter_trajectories())
    check_rows(env, first, rows, [i for i in range(n) if rows.in_range(i, a)],
               'before the change: ', ids=False)
    ix = [i for i in range(n) if rows.in_range(i, b)]
    check_rows(env, second, rows, ix, 'after the change: ', ids=False)
    env.require(len(third) == 1, 'one trajectory')
    check_rows(env, third[0], rows, ix, 'after the change: ', ids=False)
    env.require(set(s.keys()) == {f for f, _, _ in rows.fields}, 'keys')
    sh = dict(zip(s.keys(), s.shapes()))
    for f, ty, shape in rows.fields:
        env.require(sh[f] == (shape[0] if shape else 1), 'shapes')


def scenarios(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for bounds in (True, False):
            for how in ('init', 'default', 'set', 'reset'):
                if n == 3 and how in ('default', 'set') and tier == 'quick':
                    continue
                out.append(S('trajs-%d-%s-%s' % (n, 'bounds' if bounds else
                    'nobounds', how), trajs, n=n, bounds=bounds, how=how,
                    text='%d rows, any numbers, times 0..3, any range' % n))
        if n < 4:
            out.append(S('changing-%d' % n, changing, n=n,
                text='%d rows, two successive ranges' % n))
    for how in ('init', 'reset'):
        out += big('trajs-' + how, trajs, (1, 2), '30 rows, any range',
                   few='rng', n=30, bounds=how == 'init', how=how)
    out += big('changing', changing, (1, 2, 3), '20 rows, any '
               'limits', few='[ab](first|last)$', n=20)
    return out
