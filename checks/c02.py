"""C02: row tables and per-frame collection."""
from symx.run import S
from .large import big
from .lib import traj, trids


def rows(env, n):
    np = env.np
    tid = env.int('id', 0, 10 ** 6)
    t = traj(env, 't', n, tid, holes=True)
    kind = env.pick('kind', ['int', 'neg', 'slice', 'list', 'mask'])
    if kind in ('int', 'neg'):
        i = env.choose('i', n)
        row = t[i if kind == 'int' else i - n]
        env.require(row.shape == (8,), 'one row of eight columns')
        want = list(t.sx['pos'][i]) + list(t.sx['velocity'][i]) + \
            [t.sx['time'][i], tid]
        env.require(env.eq(row, want), 'row')
        return
    if kind == 'slice':
        a, b = env.choose('a', n + 1), env.choose('b', n + 1)
        sel, ix = slice(a, b), list(range(a, b))
    elif kind == 'list':
        ix = [env.choose('i', n), env.choose('j', n)]
        sel = np.array(ix)
    else:
        m = [env.flag('m%d' % i) for i in range(n)]
        sel, ix = np.array(m, dtype=bool), [i for i in range(n) if m[i]]
    tab = t[sel]
    env.require(tab.shape == (len(ix), 8), 'one row per selected time point')
    for r, i in zip(tab, ix):
        want = list(t.sx['pos'][i]) + list(t.sx['velocity'][i]) + \
            [t.sx['time'][i], tid]
        env.require(env.eq(r, want), 'row')


def collect(env, lens, seg, holes):
    np = env.np
    frame = env.int('frame', -3, 1000)
    ids = trids(env, len(lens))
    trs = [traj(env, 't%d' % i, n, ids[i], extra=False, holes=holes)
           for i, n in enumerate(lens)]
    # positions on a small lattice of values, so that coincidences matter
    got = env.ft.io.collect_particles_generic(trs, frame, seg)
    want, pos = [], []
    for t in trs:
        for k in range(t.sxn):
            if not bool(t.sx['time'][k] == frame): continue
            if seg and not (k + 1 < t.sxn and
                            bool(t.sx['time'][k + 1] == frame + 1)): continue
            p = list(t.sx['pos'][k])
            if any(bool(env.all([a == b for a, b in zip(p, q)]))
                   for q in pos): continue
            pos.append(p)
            want.append([p + list(t.sx['velocity'][k]) + [frame, t.sxid]] + (
                [list(t.sx['pos'][k + 1]) + list(t.sx['velocity'][k + 1]) +
                 [frame + 1, t.sxid]] if seg else []))
    if seg:
        env.require(got.shape == (2, len(want), 8), 'rows of the frame')
        for i, (a, b) in enumerate(want):
            env.require(env.eq(got[0][i], a), 'row in the frame')
            env.require(env.eq(got[1][i], b), 'row in the next frame')
    else:
        env.require(got.shape == (len(want), 8), 'rows of the frame')
        for i, (a,) in enumerate(want):
            env.require(env.eq(got[i], a), 'row in the frame')


def scenarios(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 5):
        out.append(S('rows-%d' % n, rows, n=n, text='%d time points with '
                     'holes, every selection' % n))
    for lens in [(1,), (3,), (2, 2), (2, 3), (1, 1, 1)] if tier == 'quick' \
            else [(1,), (4,), (2, 2), (3, 3), (1, 1, 1), (2, 2, 2)]:
        for seg in (False, True):
            for holes in (False, True):
                if holes and max(lens) < 2: continue
                if holes and len(lens) > 1 and tier == 'quick' and \
                        sum(lens) > 4: continue
                out.append(S('collect-%s-%s%s' % ('.'.join(map(str, lens)),
                    'seg' if seg else 'frm', '-holes' if holes else ''),
                    collect, lens=lens, seg=seg, holes=holes,
                    text='trajectories of lengths %s, any times%s, frame, '
                    'positions' % (lens, ' with holes' if holes else '')))
    out.append(S('collect-none-frm', collect, lens=(), seg=False, holes=False,
                 text='no trajectories'))
    out.append(S('collect-none-seg', collect, lens=(), seg=True, holes=False,
                 text='no trajectories'))
    out += big('rows', rows, (1, 2, 3, 4), '20 time points', n=20)
    for seg in (False, True):
        out += big('collect-%d' % seg, collect, (1, 2), '24 trajectories',
                   coarse='t.*_p', lens=(3, 2, 1, 4) * 6, seg=seg, holes=seg,
                   within=(('t.*_start', 3, 6),), few='frame')
    return out
