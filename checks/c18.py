"""C18: an analysis file has one correct row per particle segment."""
from symx.run import S
from .large import big
from .lib import Rows
from .c17 import build, seg_of, pick_range, PF, TF
from .c14 import limits_of


def run(env, np_, nt, thi, kinds, sub, groups=None):
    p, t, pp, tp = build(env, np_, nt, thi, groups=groups)
    rng, a, b = pick_range(env, 'own', ('both', 'none'), p, t)
    an = env.ft.analysis
    seen = {}          # column -> [(frame number, trajectory numbers, values)]

    class Analyser(an.GeneralAnalyser):
        """Arbitrary values for each particle."""
        def __init__(self, descr): self._d = descr
        def descr(self): return self._d
        def analyse(self, frame, next_frame):
            out = []
            n = len(frame.particles)
            env.require(env.eq(next_frame.particles.time(),
                frame.particles.time() + 1), 'analysers see the next frame')
            for name, ty, ln in self._d:
                k = len(seen.setdefault(name, []))
                sh = (n,) if ln == 1 and name.startswith('flat') else (n, ln)
                v = env.ints('%s%d' % (name, k), sh, -9, 9) if ty is int \
                    else env.reals('%s%d' % (name, k), sh)
                if n == 0: v = env.np.zeros(sh, ty)
                seen[name].append((frame.particles.time(),
                                   frame.particles.trajid(), v))
                out.append(v)
            return out

    mk = {'vec': [('vec', float, 3)], 'one': [('one', float, 1)],
          'flat': [('flat', float, 1)], 'int': [('num', int, 1)],
          'pair': [('pairv', float, 3), ('pairs', float, 1)],
          'two': [('two', float, 2)]}
    ans = [Analyser(mk[k]) for k in kinds]
    part = env.ft.particle.Particle(0.001, 1000.)
    scene = env.ft.scene.DualScene(tp, pp, 50., part, rng)
    path = env.path('analysis.h5')
    if sub:
        r2, a, b = pick_range(env, 'sub', ('both',), p, t)
        an.analysis(scene, path, 'some.cfg', ans, r2)
    elif env.flag('named'):
        an.analysis(scene, path, 'some.cfg', ans, frame_range=-1)
    else:
        an.analysis(scene, path, 'some.cfg', ans)
    # what must be there
    want = []          # (trajectory group, frame number, segment index)
    k, x = 0, a
    while bool(x < b - 1):
        for i in seg_of(env, p, x)[0]: want.append((p.group[i], x, k))
        k, x = k + 1, x + 1
    h = env.tables.open_file(path, mode='r')
    tab = h.get_node('/analysis')
    got = tab.read()
    env.require(str(tab.attrs['config']) == 'some.cfg', 'configuration named')
    env.require(str(tab.attrs['trajects']) == pp, 'source named')
    cols = [d for q in ans for d in q.descr()]
    env.require(set(tab.colnames) == {'trajid', 'time'} | {d[0] for d in cols},
                'columns')
    for name, ty, ln in cols:
        env.require(tuple(tab.coldescrs[name].shape) in
                    (((), (1,)) if ln == 1 else ((ln,),)), 'row length')
    h.close()
    env.require(len(got) == len(want), 'one row for each particle segment')
    for g, x, k in want:
        hit = [j for j in range(len(got)) if bool(env.all([
               env.eq(got['trajid'][j], p.ids[g]), env.eq(got['time'][j], x)]))]
        env.require(len(hit) == 1, 'the row of the particle segment')
        if len(hit) != 1: continue
        for name, ty, ln in cols:
            calls = [c for c in seen[name] if bool(env.eq(c[0], x))]
            env.require(len(calls) == 1, 'each segment analysed once')
            tm, ids, v = calls[0]
            m = [r for r in range(len(ids)) if bool(env.eq(ids[r], p.ids[g]))]
            env.require(len(m) == 1, 'particle of the segment')
            if not m: continue
            have = env.np.reshape(got[name][hit[0]], (-1,))
            env.require(env.eq(have, env.np.reshape(v[m[0]], (-1,))),
                        'values of ' + name)


def scenarios(tier):
    out = []
    ks = [('vec',), ('one', 'int'), ('flat', 'pair'), ('two', 'vec', 'flat')]
    sizes = [(1, 1, None), (2, 1, [0, 0]), (2, 1, None), (3, 1, [0, 0, 1]),
             (4, 1, [0, 1, 1, 0])]
    if tier == 'thorough': sizes += [(3, 1, None), (4, 2, [0, 1, 0, 1]),
                                     (5, 1, [0, 1, 0, 1, 2])]
    for i, (n, m, g) in enumerate(sizes):
        for j, k in enumerate(ks):
            for sub in (False, True):
                if n >= 3 and ((i + j) % 2 or sub) and tier == 'quick': continue
                out.append(S('run-%d.%d-%s-%s%s' % (n, m, g and ''.join(map(
                    str, g)), '.'.join(k), '-sub' if sub else ''), run,
                    np_=n, nt=m, thi=1 if n > 3 else 2 if n > 1 else 1,
                    kinds=k, sub=sub, groups=g,
                    text='%d particle rows, arbitrary analyser values' % n))
    for j, k in enumerate(ks):
        out += big('run-' + '.'.join(k), run, (1, 2), '24 particle rows in 12 '
                   'frames', within=(('(own|sub)first', 0, 3), ('(own|sub)last',
                   7, 12)), np_=24, nt=24, thi=11, kinds=k, sub=j % 2 == 1)
    return out
