"""C34: collecting a frame's particles from trajAcc files and from lists."""
from symx.run import S
from .large import big
from .c33 import acc_file
from .lib import traj, trids

COLLAPSED = 'each position once'


def match(env, got, want, label):
    """got: rows; want: rows, of which one for each position is given."""
    ok = lambda a, b: env.all([env.eq(x, y) for x, y in zip(a, b)])
    n = len(got)
    for k in range(n):
        env.require(env.any([ok(got[k], w) for w in want]),
                    label + 'only rows of the frame')
        for j in range(k):
            env.require(env.neg(env.all([env.eq(got[k][i], got[j][i])
                        for i in range(3)])), label + COLLAPSED)
    for w in want:
        env.require(env.any([env.all([env.eq(g[i], w[i]) for i in range(3)])
                             for g in got]), label + 'every trajectory')


def files(env, counts, start, tmpl, frame, seg):
    runs = []
    for f, n in enumerate(counts):
        if n is None: continue
        for r in acc_file(env, 'f%d' % f, tmpl, start + f, n):
            runs.append((f, r))
    io, name = env.ft.io, env.path(tmpl)
    fr = frame + start
    got = io.collect_particles(name, fr, True) if seg else \
        io.collect_particles(name, fr) if env.flag('default') else \
        io.collect_particles(name, fr, path_seg=False)
    # files missing before the frame hide what is before them
    low = max([f + 1 for f, n in enumerate(counts) if n is None and f < frame],
              default=0)
    now, nxt = [], []
    for f, r in runs:
        k = frame - f
        if f < low or k < 0 or k + bool(seg) >= len(r): continue
        now.append(list(r[k][0][:6]) + [r[k][1]])
        if seg: nxt.append(list(r[k + 1][0][:6]) + [r[k + 1][1]])
    check(env, got, now, nxt, seg, 7)


def check(env, got, now, nxt, seg, width):
    sh = tuple(got.shape)
    if seg:
        env.require(len(sh) == 3 and sh[0] == 2 and sh[2] == width, 'shape')
        got = [list(got[0,k]) + list(got[1,k]) for k in range(sh[1])]
        now = [a + b for a, b in zip(now, nxt)]
    else:
        env.require(len(sh) == 2 and sh[1] == width, 'shape')
        got = [list(got[k]) for k in range(sh[0])]
    match(env, got, now, '')


def listed(env, lens, seg, how):
    """From a list of trajectories, or from a Matlab file of them."""
    frame = env.int('frame', -1, 4)
    io = env.ft.io
    trs, ids = [], trids(env, len(lens), 0, 99)
    for i, n in enumerate(lens):
        trs.append(traj(env, 't%d' % i, n, ids[i], start=env.int('s%d' % i, 0,
            2), holes=how == 'holes', extra=how == 'mat'))
    if how == 'mat':
        recs = []
        for t in trs:
            rec = {}
            for p, c in (('pos', ''), ('velocity', ''), ('accel', '')):
                for j, x in enumerate('xyz' if p != 'velocity' else 'uvw'):
                    rec[('a' if p == 'accel' else '') + x + 'f'] = \
                        t.sx[p][:,j].reshape(t.sxn, 1) * 1000.
            rec['t'] = t.sx['time'].reshape(t.sxn, 1)
            rec['trajid'] = env.array([t.sxid], int).reshape(1, 1)
            recs.append(rec)
        name = env.path('a.mat')
        env.save_mat(name, 'traj', recs)
        f = lambda *a: io.collect_particles_mat(name, *a)
    else: f = lambda *a: io.collect_particles_generic(trs, *a)
    got = f(frame, True) if seg else f(frame)
    now, nxt = [], []
    for t in trs:
        row = lambda k: list(t.sx['pos'][k]) + list(t.sx['velocity'][k]) + \
            [t.sx['time'][k], t.sxid]
        for k in range(t.sxn):
            if not bool(env.eq(t.sx['time'][k], frame)): continue
            if not seg: now.append(row(k))
            elif k + 1 < t.sxn and bool(env.eq(t.sx['time'][k + 1], frame + 1)):
                now.append(row(k))
                nxt.append(row(k + 1))
    check(env, got, now, nxt, seg, 8)


def scenarios(tier):
    out = []
    th = tier == 'thorough'
    cs = [((2,), 0), ((3, 1), 1), ((2, 2), 1), ((3, 1, 1), 2), ((1, 1, 2), 2),
          ((3, 2), 0), ((2, None, 2), 2), ((3, 0, 1), 2), ((2, 2, 1), 1)]
    if th: cs += [((3, 3), 1), ((4, 2, 2), 2), ((3, 2, 2), 1), ((4, 1, 1, 1), 3),
                  ((2, 2, 2), 2)]
    for i, (c, f) in enumerate(cs):
        for seg in (False, True):
            t, st = (('trajAcc.%d', 9), ('acc_%04d', 3))[(i + seg) % 2]
            out.append(S('files-%s-at-%d-%s' % ('.'.join(map(str, c)), f,
                'seg' if seg else 'frame'), files, counts=c, start=st, tmpl=t,
                frame=f, seg=seg, text='files of %s rows, any path ages and '
                'positions' % (c,)))
    for l in [(1,), (2,), (2, 2), (3, 1), ()] + ([(2, 2, 2)] if th else []):
        for seg in (False, True):
            for how in ('list', 'holes', 'mat'):
                if how != 'list' and (len(l) == 0 or l[0] == 1): continue
                out.append(S('%s-%s-%s' % (how, '.'.join(map(str, l)), 'seg'
                    if seg else 'frame'), listed, lens=l, seg=seg, how=how,
                    text='trajectories of %s points, any frame' % (l,)))
    c, l = (13, 9, 7, 12, 5), (8, 3, 6, 1, 5, 9, 2, 7)
    for seg in (False, True):
        n = 'seg' if seg else 'frame'
        for f in (2, 4):
            out += big('files-%d-%s' % (f, n), files, (1,), 'files of %s rows' %
                (c,), const='f\\d+_\\d+_[012]$', counts=c, start=9 - 2 * f,
                tmpl='trajAcc.%d', frame=f, seg=seg)
        for how in ('list', 'holes', 'mat'):
            out += big('%s-%s' % (how, n), listed, (1,), 'trajectories of %s '
                'points' % (l,), few='frame', within=(('s\\d+$', 0, 4),),
                const='t\\d+_p_', lens=l, seg=seg, how=how)
    return out
