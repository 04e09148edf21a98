"""C20: an analysed scene joins analysis and particle data correctly."""
from symx.run import S
from .large import big
from .lib import Rows
from .c16 import cond, meets

PF = [('pos', float, (3,)), ('velocity', float, (3,)), ('heat', float, ()),
      ('tag', int, ())]
DESC = {'rel': ('rel', float, 3), 'sc': ('sc', float, 1), 'num': ('num', int, 1)}


def build(env, lens, order, thi, cols, fixed=False):
    """Trajectories of consecutive frames, their rows in time order, and
    an analysis of all their segments."""
    n = sum(lens)
    p = Rows(env, 'p', n, thi=thi, fields=PF, groups=order)
    last = {}
    for i, g in enumerate(order):
        if g in last: env.assume(p.time[i] == p.time[last[g]] + 1)
        last[g] = i
    t = Rows(env, 't', 2, thi=thi, fields=[('pos', float, (3,)),
             ('velocity', float, (3,))], groups=[0, 0])
    env.assume(t.time[1] == t.time[0] + 1)
    a, b = env.int('first', 0, thi), env.int('last', 0, thi)
    env.assume(a <= b)
    if fixed:
        env.assume(a == 0)
        env.assume(b == thi)
        for g in range(max(order) + 1):
            env.assume(p.time[order.index(g)] == min(g, thi + 1 - lens[g]))
    pp, tp = p.write(env.path('part.h5')), t.write(env.path('trac.h5'))
    cfg = env.write('scene.cfg', '\n'.join(['[Particle]',
        'diameter = 0.001', 'density = 1100', '[Scene]', 'frame rate = 50',
        'tracers file = ' + tp, 'particles file = ' + pp,
        'first frame = ' + env.fmt(a), 'last frame = ' + env.fmt(b)]) + '\n')
    an = env.ft.analysis
    # analysis values of each row
    val = {}
    for c in cols:
        name, ty, ln = DESC[c]
        val[c] = env.ints(c, (n, ln), -9, 9) if ty is int else \
            env.reals(c, (n, ln))

    class Analyser(an.GeneralAnalyser):
        def descr(self): return [DESC[c] for c in cols]
        def analyse(self, frame, next_frame):
            ix = []
            for r in frame.particles.trajid():
                ix.append([i for i in range(n) if bool(env.all([
                    env.eq(p.trid(i), r),
                    env.eq(p.time[i], frame.particles.time())]))][0])
            return [val[c][ix] if ix else val[c][:0] for c in cols]

    ds = env.ft.scene.read_dual_scene(cfg)
    path = env.path('an.h5')
    an.analysis(ds, path, cfg, [Analyser()])
    # rows with analysis: their trajectory goes on in the next frame in range
    done = [i for i in range(n) if p.in_range(i, (a, b)) and
            any(order[j] == order[i] and bool(p.time[j] == p.time[i] + 1)
                for j in range(n))]
    return p, val, done, path, (a, b)


def collect(env, lens, order, thi, cols, keys, conds, fixed=False):
    p, val, done, path, rng = build(env, lens, order, thi, cols, fixed)
    s = env.ft.an_scene.AnalysedScene(path)
    where = {c: cond(env, c + '_', c in ('heat', 'sc')) for c in conds}
    def value(k, i):
        if k == 'time': return p.time[i]
        if k == 'trajid': return p.trid(i)
        if k in val: return val[k][i] if DESC[k][2] > 1 else val[k][i][0]
        return p.cols[k][i]
    ix = [i for i in done if all([meets(value(c, i), where[c])
                                  for c in conds])]
    if conds or env.flag('where'): got = s.collect(keys, where)
    else: got = s.collect(keys)
    env.require(len(got) == len(keys), 'one array for each key')
    for g in got: env.require(len(g) == len(ix), 'exactly the analysed points '
                              'meeting the conditions')
    if any(len(g) != len(ix) for g in got): return
    left = list(range(len(ix)))
    for i in ix:
        same = [env.all([env.eq(env.np.reshape(got[q][r], (-1,)),
                         env.np.reshape(value(k, i), (-1,)))
                         for q, k in enumerate(keys)])
                for r in range(len(ix))]
        env.require(env.any(same), 'columns match row by row')
        if 'trajid' in keys and 'time' in keys:
            hit = [r for r in range(len(ix)) if bool(env.all([
                env.eq(got[keys.index('trajid')][r], p.trid(i)),
                env.eq(got[keys.index('time')][r], p.time[i])]))]
            env.require(len(hit) == 1, 'each point once')


def twice(env, lens, order, thi, conds, other):
    """Each collection depends on its own conditions only."""
    p, val, done, path, rng = build(env, lens, order, thi, ('sc',), True)
    s = env.ft.an_scene.AnalysedScene(path)
    for k, cs in enumerate((conds, other, conds)):
        where = {c: cond(env, '%s%d_' % (c, k), c in ('heat', 'sc')) for c in cs}
        def value(c, i): return val[c][i][0] if c in val else p.cols[c][i]
        ix = [i for i in done if all([meets(value(c, i), where[c])
                                      for c in cs])]
        got = s.collect(['heat', 'sc'], where)
        env.require(len(got) == 2 and all([len(g) == len(ix) for g in got]),
                    'exactly the points meeting the conditions of this call')
        if any([len(g) != len(ix) for g in got]): return
        for i in ix:
            env.require(env.any([env.all([env.eq(got[0][r], p.cols['heat'][i]),
                env.eq(got[1][r], val['sc'][i][0])]) for r in range(len(ix))]),
                'columns of this call')
        if k == 0:
            for g in range(max(order) + 1):
                t = s.trajectory_by_id(p.ids[g])
                env.require(len(t) == len([i for i in done if order[i] == g]),
                            'trajectories of all points')


def trajs(env, lens, order, thi, cols, via):
    p, val, done, path, rng = build(env, lens, order, thi, cols)
    s = env.ft.an_scene.AnalysedScene(path)
    ng = max(order) + 1
    if via == 'iter':
        ts = list(s.iter_trajectories())
        env.require(len(ts) == ng, 'one for each particle trajectory')
    for g in range(ng):
        if via == 'iter':
            m = [t for t in ts if bool(env.eq(t.trajid(), p.ids[g]))]
            env.require(len(m) == 1, 'each trajectory once')
            if len(m) != 1: return
            t = m[0]
        else:
            t = s.trajectory_by_id(p.ids[g])
        env.require(env.eq(t.trajid(), p.ids[g]), 'trajectory number')
        ix = [i for i in done if order[i] == g]
        env.require(len(t) == len(ix), 'all points but the last')
        names = {'pos', 'velocity', 'heat', 'tag', 'time', 'trajid'} | set(cols)
        env.require(set(t.schema()) <= names and set(cols) <= set(t.schema()),
                    'particle and analysis properties')
        if len(t) != len(ix): continue
        for k, i in enumerate(ix):
            env.require(env.eq(t.time()[k], p.time[i]), 'time')
            for f, ty, sh in PF:
                env.require(env.eq(getattr(t, f)()[k], p.cols[f][i]), f)
            for c in cols:
                env.require(env.eq(env.np.reshape(getattr(t, c)()[k], (-1,)),
                            env.np.reshape(val[c][i], (-1,))),
                            'analysis of the point')


def names(env):
    p, val, done, path, rng = build(env, [2], [0, 0], 2, ('rel', 'sc'))
    s = env.ft.an_scene.AnalysedScene(path)
    k, sh = list(s.keys()), list(s.shapes())
    env.require(len(k) == len(sh), 'a shape for each key')
    want = {'pos': 3, 'velocity': 3, 'heat': 1, 'tag': 1, 'rel': 3, 'sc': 1}
    got = dict(zip(k, sh))
    for n in want: env.require(got.get(n) == want[n], 'keys and their lengths')
    env.require(set(k) - set(want) <= {'time', 'trajid'}, 'no other keys')


def scenarios(tier):
    th = tier == 'thorough'
    out = [S('names', names)]
    shapes = [([2], [0, 0], 2), ([3], [0, 0, 0], 3), ([2, 1], [0, 1, 0], 2),
              ([2, 2], [0, 1, 1, 0], 2), ([2, 2], [0, 0, 1, 1], 2),
              ([1, 1], [0, 1], 1)]
    if th: shapes += [([3, 2], [0, 1, 0, 1, 0], 3), ([2, 2, 1], [0, 1, 2, 1, 0], 2),
                      ([4], [0] * 4, 3), ([3, 2], [1, 0, 1, 0, 0], 3)]
    for a, b in ((('sc',), ()), ((), ('sc',)), (('heat',), ('sc',)),
                 (('sc',), ('heat',)), (('heat',), ())):
        out.append(S('twice-%s-%s' % ('.'.join(a) or 'all', '.'.join(b) or
            'all'), twice, lens=[2], order=[0, 0], thi=1, conds=a, other=b,
            text='three collections'))
    ks = [['heat', 'rel'], ['trajid', 'time', 'sc', 'pos'], ['sc', 'num'],
          ['num', 'heat', 'trajid', 'time', 'velocity']]
    cs = [(), ('heat',), ('sc',), ('tag', 'num'), ('time',), ('heat', 'sc')]
    for i, (lens, order, thi) in enumerate(shapes):
        nm = ''.join(map(str, order))
        for j, c in enumerate(cs):
            for q, k in enumerate(ks):
                if not th and sum(lens) > 2 and (i + j + q) % 4: continue
                if not th and sum(lens) <= 2 and (i + j + q) % 2: continue
                cols = tuple(sorted({x for x in k + list(c) if x in DESC}))
                cols = cols or ('sc',)
                fixed = sum(lens) * len(c) > (3 if not th else 4)
                out.append(S('collect-%s-%s-%s' % (nm, '.'.join(c) or 'all',
                    '.'.join(x[:3] for x in k)), collect, lens=lens,
                    order=order, thi=thi, cols=cols, keys=k, conds=c,
                    fixed=fixed,
                    text='%d particle rows, any conditions' % sum(lens)))
        for via in ('iter', 'id'):
            out.append(S('trajs-%s-%s' % (nm, via), trajs, lens=lens,
                order=order, thi=thi, cols=('rel', 'sc') if i % 2 else
                ('num',), via=via, text='%d particle rows' % sum(lens)))
    order = [0, 1, 0, 2, 1, 0, 3, 2, 0, 1, 2, 3, 2, 2]
    for j, c in enumerate(((), ('heat',), ('sc',))):
        out += big('collect-' + '.'.join(c), collect, (1, 2), '14 particle rows',
                   few='pt|tt|first|last', const='pheat|sc|.*_(lo|hi)',
                   lens=[4, 3, 5, 2], order=order, thi=7, cols=('rel', 'sc'),
                   keys=['trajid', 'time', 'sc', 'pos', 'rel'], conds=c,
                   fixed=True)
    return out
