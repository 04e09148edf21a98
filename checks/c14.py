"""C14: scene iteration by frames partitions the data."""
from symx.run import S
from .large import big
from .lib import Rows, frange


def same_rows(env, got, rows, ix, label):
    """A snapshot holds exactly rows ix, in any order (they may share a
    trajectory number)."""
    env.require(len(got) == len(ix), label + 'number of rows')
    want = {f for f, _, _ in rows.fields} | {'trajid'}
    env.require(set(got.schema()) == want, label + 'properties')
    if len(got) != len(ix) or set(got.schema()) != want: return
    for f, ty, sh in rows.fields:
        env.require(tuple(getattr(got, f)().shape) == (len(ix),) + sh,
                    label + 'shape')
    def same(k, i):
        return env.all([env.eq(got.trajid()[k], rows.trid(i))] +
            [env.eq(getattr(got, f)()[k], rows.cols[f][i])
             for f, _, _ in rows.fields])
    for i in ix:
        env.require(env.any([same(k, i) for k in range(len(got))]),
                    label + 'row unchanged')
    for k in range(len(got)):
        env.require(env.any([same(k, i) for i in ix]), label + 'row from file')


def limits_of(env, rows, rng):
    lo = hi = rows.time[0]
    for x in rows.time[1:]:
        if bool(x < lo): lo = x
        if bool(x > hi): hi = x
    return (rng[0] if rng is not None and rng[0] is not None else lo,
            rng[1] if rng is not None and rng[1] is not None else hi + 1)


def frames(env, n, unique, via):
    rows = Rows(env, 'r', n, unique=unique)
    s = open_scene(env, rows, via)
    rng, s = s
    a, b = limits_of(env, rows, rng)
    got = list(s.iter_frames())
    num = b - a
    env.require(env.eq(len(got), num) if bool(num >= 0) else len(got) == 0,
                'one snapshot for each frame of the range')
    for k, f in enumerate(got):
        env.require(env.eq(f.time(), a + k), 'increasing frame numbers')
        same_rows(env, f, rows, [i for i in range(n)
                  if bool(env.eq(rows.time[i], a + k))], 'frame: ')


def open_scene(env, rows, via):
    path = rows.write(env.path('p.h5'), env.flag('bounds'))
    Scene = env.ft.scene.Scene
    if via == 'all': return None, Scene(path)
    rng = frange(env, 'rng')
    if via == 'init': return rng, Scene(path, rng)
    s = Scene(path)
    if via == 'changed':
        s.set_frame_range((1, 3))
        next(s.iter_frames(), None)
    s.set_frame_range(rng)
    return rng, s


def single(env, n):
    rows = Rows(env, 'r', n)
    rng, s = open_scene(env, rows, 'set')
    t = rows.time[0] if n and env.flag('present') else env.int('t', -1, 5)
    f = s.frame_by_time(t)
    env.require(env.eq(f.time(), t), 'time of the frame')
    same_rows(env, f, rows, [i for i in range(n)
              if bool(env.eq(rows.time[i], t))], 'fetched: ')


def again(env, n):
    """Iterating twice, interleaved, and fetching gives the same."""
    rows = Rows(env, 'r', n, thi=2, groups=list(range(n)))
    s = env.ft.scene.Scene(rows.write(env.path('p.h5'), True))
    a, b = limits_of(env, rows, None)
    x, y = s.iter_frames(), s.iter_frames()
    k = 0
    for f in x:
        g = next(y, None)
        env.require(g is not None, 'both iterations have the frame')
        if g is None: break
        h = s.frame_by_time(a + k)
        ix = [i for i in range(n) if bool(env.eq(rows.time[i], a + k))]
        for z, l in ((f, 'first: '), (g, 'second: '), (h, 'fetched: ')):
            env.require(env.eq(z.time(), a + k), l + 'time')
            same_rows(env, z, rows, ix, l)
        k += 1
    env.require(next(y, None) is None, 'both iterations end')


def scenarios(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for via in ('init', 'set', 'changed'):
            for unique in (True, False):
                if n >= 3 and (via != 'init' or not unique): continue
                out.append(S('frames-%d-%s%s' % (n, via,
                    '' if unique else '-repeats'), frames, n=n, unique=unique,
                    via=via, text='%d rows, times 0..3, any range' % n))
        if n < 4: out.append(S('single-%d' % n, single, n=n))
        out.append(S('again-%d' % n, again, n=n))
    out += big('frames', frames, (1, 2), '30 rows, any range', few='rng', n=30,
               unique=False, via='init')
    out += big('frames-many', frames, (1, 2), '30 rows of 30 frames',
               within=(('rt\\d', 0, 29),), n=30, unique=False, via='all')
    out += big('single', single, (1,), '30 rows', few='rng|t$', n=30)
    return out
