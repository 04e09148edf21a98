"""C09: frame limits select exactly the frames asked for, in every format."""
import itertools
from symx.run import S
from .large import big
from .frames import Frames, expect
from .lib import Rows, frange, check_rows, match_rows


def limits(env, lo, hi):
    first = env.int('first', lo, hi) if env.flag('hasfirst') else None
    last = env.int('last', lo, hi) if env.flag('haslast') else None
    return first, last


def inside(t, first, last):
    if first is not None and bool(t < first): return False
    if last is not None and bool(t > last): return False
    return True


def shuffle(env, n=3):
    """The order in which the file system lists the files."""
    k = env.choose('dirorder', 4)
    def perm(names):
        if k == 0: return names
        if k == 1: return names[::-1]
        if k == 2: return names[1:] + names[:1]
        return names[::2] + names[1::2]
    env.listdir_order(perm)


def linked(env, counts, start, source, api):
    xuap = source == 'xuap'
    fr = Frames(env, counts, start, xuap)
    if source == 'single':
        fr.write_single('all.txt')
        name, fr.first = env.path('all.txt'), 0
    else:
        tmpl = ('xuap.%d' if xuap else 'ptv_is.%d')
        fr.write_dir(tmpl)
        env.write('ptv_is.orig.7', 'x')
        name = env.path(tmpl)
        shuffle(env)
    first, last = limits(env, fr.first - 1, fr.first + len(counts))
    io = env.ft.io
    ml = env.pick('minlen', [1, 2])
    if api == 'iter':
        got = list(io.iter_trajectories_ptvis(name, first, last, 1., xuap, ml))
    elif api == 'list':
        got = io.trajectories_ptvis(name, first, last, xuap=xuap,
                                    traj_min_len=ml)
    else:
        got = list(io.trajectories(name, first, last, 1., None, ml,
                                   api == 'common-iter'))
    fs = [f for f in range(len(counts)) if inside(fr.first + f, first, last)]
    want = fr.chains(fs[0], fs[-1]) if fs else []
    expect(env, fr, list(got), [c for c in want if len(c) >= ml],
           scale=1. if xuap else 1000.)


def same_traj(env, got, n, rows):
    """Trajectories are given by their rows, each a list of (name, values)."""
    env.require(len(got) == len(rows), 'number of trajectories')
    def one(t, r):
        if len(t) != len(r): return False
        return env.all([env.eq(getattr(t, f)()[k], v) for k, x in enumerate(r)
                        for f, v in x])
    for r in rows:
        env.require(env.any([one(t, r) for t in got]), 'expected rows are read')
    ids = [t.trajid() for t in got]
    for i in range(len(ids)):
        for j in range(i):
            env.require(env.neg(env.eq(ids[i], ids[j])), 'distinct numbers')


def acc(env, runs, start, tmpl, api):
    """runs: for each file, the lengths of the runs in it."""
    rows = []                  # (file frame, rows of the trajectory)
    for f, rs in enumerate(runs):
        lines, k = [], 0
        for n in rs:
            r = []
            for age in range(n):
                x = [env.real('a%d_%d_%d' % (f, k, c)) for c in range(9)]
                lines.append(' '.join([env.fmt(v) for v in x] + ['0.5'] * 24 +
                                      ['%.1f' % age]))
                r.append([('pos', x[0:3]), ('velocity', x[3:6]),
                          ('accel', x[6:9]), ('time', start + f + age)])
                k += 1
            rows.append((start + f, r))
        env.write(tmpl % (start + f), '\n'.join(lines) + '\n')
    env.write(tmpl % start + '.bak', 'garbage')
    shuffle(env)
    first, last = limits(env, start - 1, start + len(runs))
    name = env.path(tmpl)
    if api == 'acc':
        got = env.ft.io.trajectories_acc(name, first, last)
        ml = 1
    else:
        ml = env.pick('minlen', [None, 1, 2])
        got = list(env.ft.io.trajectories(name, first, last, 1., None, ml,
                                          api == 'common-iter'))
        if ml is None: ml = 2
    want = [r for f, r in rows if inside(f, first, last) and len(r) >= ml]
    same_traj(env, got, None, want)


def mat(env, lens, api):
    recs, trs = [], []
    for i, n in enumerate(lens):
        t = env.ints('t%d' % i, n, 0, 4)
        x = [[env.real('m%d_%d_%d' % (i, k, c)) for c in range(9)]
             for k in range(n)]
        tid = env.int('id%d' % i, 0, 100)
        rec = {f: env.array([r[c] for r in x], float).reshape(n, 1)
               for c, f in enumerate(('xf', 'yf', 'zf', 'uf', 'vf', 'wf',
                                      'axf', 'ayf', 'azf'))}
        rec['t'] = t.reshape(n, 1)
        rec['trajid'] = env.array([tid], int).reshape(1, 1)
        recs.append(rec)
        trs.append((t, x, tid))
    env.distinct([t[2] for t in trs])
    name = env.path('traj.mat')
    env.save_mat(name, 'traj', recs)
    first, last = limits(env, -1, 5)
    if api == 'mat':
        got, ml = env.ft.io.trajectories_mat(name, first, last), 1
    else:
        ml = env.pick('minlen', [None, 1])
        got = list(env.ft.io.trajectories(name, first, last, 1., None, ml))
        if ml is None: ml = 2
    want = []
    for t, x, tid in trs:
        r = [[('pos', [v / 1000. for v in x[k][0:3]]),
              ('velocity', [v / 1000. for v in x[k][3:6]]),
              ('accel', [v / 1000. for v in x[k][6:9]]), ('time', t[k])]
             for k in range(len(x)) if inside(t[k], first, last)]
        if len(r) >= ml: want.append(r)
    same_traj(env, got, None, want)


def npz(env, lens, api):
    trs = []
    ids = [11, 2, 30][:len(lens)]
    for i, n in enumerate(lens):
        c = dict(pos=env.reals('p%d' % i, (n, 3)),
                 velocity=env.reals('v%d' % i, (n, 3)),
                 time=env.ints('t%d' % i, n, 0, 4),
                 heat=env.reals('h%d' % i, n))
        env.savez(env.path('res/traj_%d.npz' % ids[i]),
                  **{'traj:' + k: v for k, v in c.items()})
        trs.append(c)
    env.write('res/notes.txt', 'x')
    shuffle(env)
    first, last = limits(env, -1, 5)
    io = env.ft.io
    if api == 'npz':
        got, adds = io.load_trajectories(env.path('res'), first, last)
        ml = 0 if first is None and last is None else 1
        env.require(adds == {}, 'no additions')
    else:
        ml = env.pick('minlen', [None, 1])
        got = list(io.trajectories(env.path('res') + '/', first, last, 1.,
                                   None, ml))
        if ml is None: ml = 2
    byid = {int(t.trajid()): t for t in got}
    env.require(len(byid) == len(got), 'distinct numbers')
    n = 0
    for i, c in enumerate(trs):
        ix = [k for k in range(lens[i]) if inside(c['time'][k], first, last)]
        if len(ix) < ml: continue
        n += 1
        env.require(ids[i] in byid, 'trajectory is there')
        if ids[i] not in byid: continue
        t = byid[ids[i]]
        env.require(len(t) == len(ix), 'number of rows')
        if len(t) != len(ix): continue
        for f, v in c.items():
            for k, j in enumerate(ix):
                env.require(env.eq(getattr(t, f)()[k], v[j]), 'rows: ' + f)
    env.require(len(got) == n, 'number of trajectories')


def table(env, n, api, bounds=True):
    rows = Rows(env, 'r', n)
    path = rows.write(env.path('p.h5'), bounds)
    first, last = limits(env, -1, 5)
    io = env.ft.io
    if api == 'table':
        got, ml = io.trajectories_table(path, first, last), 0
    else:
        ml = env.pick('minlen', [None, 0, 1])
        got = list(io.trajectories(path, first, last, 1., None, ml,
                                   api == 'common-iter'))
        ml = 2 if ml is None else max(ml, 1)
    k = 0
    for g, tid in enumerate(rows.ids):
        ix = [i for i in range(n) if rows.group[i] == g and
              inside(rows.time[i], first, last)]
        hit = [t for t in got if bool(env.eq(t.trajid(), tid))]
        want = len(ix) >= ml
        if api == 'table' and not ix:
            continue        # (an empty trajectory may or may not be given)
        env.require(len(hit) == (1 if want else 0),
                    'trajectory present when it has rows in the limits')
        if want and hit:
            check_rows(env, hit[0], rows, ix, 'rows: ', ids=False)


def scene(env, n, how):
    """The scene's range is the same half-open one for all iterators."""
    rows = Rows(env, 'r', n, unique=True, fields=[('pos', float, (3,)),
        ('velocity', float, (3,)), ('heat', float, ())])
    path = rows.write(env.path('p.h5'), True)
    rng = frange(env, 'rng')
    s = env.ft.scene.Scene(path, rng)
    ts = sorted_times(env, rows)
    inr = [i for i in range(n) if rows.in_range(i, rng)]
    if how == 'collect':
        h, p, t = s.collect(['heat', 'pos', 'time'])
        env.require(len(h) == len(inr) and len(p) == len(inr), 'collected rows')
        for k, i in enumerate(inr):
            env.require(env.eq(h[k], rows.cols['heat'][i]), 'collected heat')
            env.require(env.eq(p[k], rows.cols['pos'][i]), 'collected pos')
            env.require(env.eq(t[k], rows.time[i]), 'collected time')
        one, = s.collect(['heat'])
        env.require(env.eq(one, h), 'collected alone')
        return
    lo = rng[0] if rng is not None and rng[0] is not None else ts[0]
    hi = rng[1] if rng is not None and rng[1] is not None else ts[1] + 1
    a, b = s.frame_range()
    env.require(env.all([env.eq(a, lo), env.eq(b, hi)]), 'the range')
    if how == 'frames':
        fs = list(s.iter_frames())
        num = hi - lo
        env.require(env.eq(len(fs), num) if bool(num >= 0) else len(fs) == 0,
                    'number of frames')
        for k, f in enumerate(fs):
            env.require(env.eq(f.time(), lo + k), 'frame number')
            match_rows(env, f, rows, [i for i in inr
                       if bool(env.eq(rows.time[i], lo + k))], 'frame: ')
    elif how == 'segments':
        sg = list(s.iter_segments())
        num = hi - lo - 1
        env.require(env.eq(len(sg), num) if bool(num >= 0) else len(sg) == 0,
                    'number of segments')
        for k, (f, g) in enumerate(sg):
            env.require(env.eq(f.time(), lo + k), 'first frame number')
            env.require(env.eq(g.time(), lo + k + 1), 'second frame number')
            one = [i for i in inr if bool(env.eq(rows.time[i], lo + k))]
            two = [i for i in inr if bool(env.eq(rows.time[i], lo + k + 1))]
            both = {rows.group[i] for i in one} & {rows.group[i] for i in two}
            match_rows(env, f, rows, [i for i in one if rows.group[i] in both],
                       'first: ')
            match_rows(env, g, rows, [i for i in two if rows.group[i] in both],
                       'second: ')
    else:
        got = list(s.iter_trajectories())
        env.require(len(got) == len(rows.ids), 'trajectories')
        for g, tid in enumerate(rows.ids):
            hit = [t for t in got if bool(env.eq(t.trajid(), tid))]
            env.require(len(hit) == 1, 'one for each number')
            if hit: check_rows(env, hit[0], rows, [i for i in inr if
                rows.group[i] == g], 'trajectory: ', ids=False)


def sorted_times(env, rows):
    lo = hi = rows.time[0]
    for x in rows.time[1:]:
        if bool(x < lo): lo = x
        if bool(x > hi): hi = x
    return lo, hi


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    cs = [(1, 1, 1), (2, 2), (1, 2, 1), (1, 0, 1)]
    if th: cs += [(2, 2, 2), (1, 1, 1, 1), (2, 1, 2)]
    for i, c in enumerate(cs):
        for j, (src, start) in enumerate((('dir', 9), ('xuap', 98),
                                          ('single', 0))):
            if src == 'single' and 0 in c: continue
            api = ('list', 'iter', 'common', 'common-iter')[(i + j) % 4]
            if src == 'single' and api == 'list': api = 'common'
            out.append(S('linked-%s-%s' % ('.'.join(map(str, c)), src), linked,
                counts=c, start=start, source=src, api=api, text=
                'frames of %s particles, every linking, any limits, four '
                'listing orders' % (c,)))
    rs = [((1,), (2,), (1,)), ((2, 1), (1, 2)), ((3,), (1, 1))]
    if th: rs += [((2, 3, 1), (1, 2), (2,), (1,))]
    for i, r in enumerate(rs):
        for j, (t, start) in enumerate((('trajAcc.%d', 9), ('acc_%04d_run', 3))):
            out.append(S('acc-%d-%d' % (i, j), acc, runs=r, start=start, tmpl=t,
                api=('acc', 'common', 'common-iter')[(i + j) % 3],
                text='runs %s, any limits, four listing orders' % (r,)))
    # frames from 0 on, so that 0 may be a limit
    for i, r in enumerate([((2,), (2, 1), (1,)), ((1,), (1,))]):
        for api in ('acc', 'common', 'common-iter'):
            out.append(S('acc-zero-%d-%s' % (i, api), acc, runs=r, start=0,
                tmpl='trajAcc.%d', api=api, text='runs %s, frames from 0' % (r,)))
    for src in ('dir', 'xuap'):
        for api in ('list', 'common', 'common-iter'):
            out.append(S('linked-zero-%s-%s' % (src, api), linked,
                counts=(1, 1, 1), start=0, source=src, api=api,
                text='one particle a frame, frames from 0'))
    for i, l in enumerate([(1,), (2, 1), (3,)] + ([(2, 2, 1)] if th else [])):
        for api in ('mat', 'common'):
            out.append(S('mat-%s-%s' % ('.'.join(map(str, l)), api), mat,
                lens=l, api=api, text='records of %s points' % (l,)))
            out.append(S('npz-%s-%s' % ('.'.join(map(str, l)), api.replace(
                'mat', 'npz')), npz, lens=l, api=api.replace('mat', 'npz'),
                text='trajectories of %s points' % (l,)))
    for n in (1, 2, 3) if th else (1, 2):
        for api in ('table', 'common', 'common-iter'):
            out.append(S('table-%d-%s' % (n, api), table, n=n, api=api,
                bounds=api != 'common-iter', text='%d rows, any limits' % n))
        for how in ('trajectories', 'frames', 'segments', 'collect'):
            out.append(S('scene-%d-%s' % (n, how), scene, n=n, how=how,
                text='%d rows with times 0..3, any range' % n))
    few = 'first|last|hasfirst|haslast'
    out += big('linked', linked, (1, 2), '12 frames of 4 particles, any limits',
               few=few, counts=(4,) * 12, start=95, source='dir', api='common')
    out += big('acc', acc, (1,), '8 files, any limits', few=few, runs=((1, 4, 2),
               (5, 1)) * 4, start=98, tmpl='trajAcc.%d', api='common')
    out += big('mat', mat, (1, 2), '12 records, any limits', few=few,
               lens=(5, 1, 3) * 4, api='mat')
    out += big('npz', npz, (1, 2), '3 trajectories of up to 20 points, any '
               'limits', few=few, lens=(20, 11, 15), api='npz')
    out += big('table', table, (1, 2), '30 rows, any limits', few=few, n=30,
               api='table')
    for how in ('trajectories', 'frames', 'segments', 'collect'):
        out += big('scene-' + how, scene, (1,), '12 rows, any range',
                   few='rng', n=12, how=how)
    return out
