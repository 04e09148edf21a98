"""C29: sequence iteration yields every segment of the range once."""
from symx.run import S
from .large import big
from .seqs import Seq, PIDS, TIDS


def plain(env, plens, tlens, fmts, forward, extra):
    q = Seq(env, plens, tlens, fmts, forward=forward, extra=extra)
    q.check(list(q.s), 'iteration: ')
    q.check([x for x in q.s], 'again: ')
    r = q.s.range()
    env.require(env.eq(r[0], q.first) and env.eq(r[1], q.last), 'range')


def sub(env, plens, tlens, fmts, before, forward):
    q = Seq(env, plens, tlens, fmts, span=(0, 3), forward=forward)
    a, b = env.int('a', 0, 3), env.int('b', 0, 3)
    env.assume(env.all([q.first <= a, a <= b, b <= q.last]))
    if before: q.check(list(q.s), 'before: ')
    q.check(list(q.s.iter_subrange(a, b)), 'sub-range: ', a, b)
    q.check(list(q.s), 'afterwards: ')
    r = q.s.range()
    env.require(env.eq(r[0], q.first) and env.eq(r[1], q.last), 'range')


def minlen(env, plens, tlens, fmts, ml):
    q = Seq(env, plens, tlens, fmts, minlen=ml, span=(0, 5))
    q.check(list(q.s), 'long ones: ')


def history(env, plens, tlens, fmts, steps):
    """Any sequence of uses."""
    q = Seq(env, plens, tlens, fmts, tmax=1, span=(0, 3))
    psel, tsel = q.parts, q.tracs
    kept = None
    for k in range(steps):
        op = env.pick('op%d' % k, ('all', 'sub', 'abandon', 'select', 'map',
                                   'tracers', 'interleave', 'everything'))
        l = '%d %s: ' % (k, op)
        if op == 'all':
            q.check(list(q.s), l, parts=psel, tracs=tsel)
        elif op == 'sub':
            a = env.int('a%d' % k, 0, 2)
            env.assume(env.all([q.first <= a, a <= q.last]))
            q.check(list(q.s.iter_subrange(a, q.last)), l, a, q.last,
                    parts=psel, tracs=tsel)
        elif op == 'abandon':
            kept = iter(q.s)
            next(kept, None)
        elif op == 'select':
            i = env.choose('sel%d' % k, len(q.parts))
            psel = [q.parts[i]]
            env.assume(env.all([q.parts[i].sxstart <= q.last,
                q.parts[i].sxstart + q.parts[i].sxn - 1 >= q.first]))
            q.s.set_particle_selector(lambda ts, n=PIDS[i]:
                [t for t in ts if t.trajid() == n])
        elif op == 'tracers':
            t = q.tracs[-1]
            tsel = [t]
            env.assume(env.all([t.sxstart <= q.last,
                t.sxstart + t.sxn - 1 >= q.first]))
            q.s.set_tracer_selector(lambda ts, n=int(t.sxid):
                [t for t in ts if t.trajid() == n])
        elif op == 'everything':
            psel, tsel = q.parts, q.tracs
            q.s.set_particle_selector(lambda ts: ts)
            q.s.set_tracer_selector(lambda ts: ts)
        elif op == 'map':
            q.s.map_trajectories(lambda s, f, g: dict(
                (i, 1.) for i in f.particles.trajid()), (q.first, q.last))
        elif op == 'interleave':
            one, two = iter(q.s), iter(q.s)
            g1, g2 = [], []
            for x in one:
                g1.append(x)
                g2.extend([y for y in [next(two, None)] if y is not None])
            q.check(g1, l, parts=psel, tracs=tsel)
            q.check(g2, l, parts=psel, tracs=tsel)
    q.check(list(q.s), 'at the end: ', parts=psel, tracs=tsel)
    r = q.s.range()
    env.require(env.eq(r[0], q.first) and env.eq(r[1], q.last), 'range')


def smooth(env):
    """Smoothing of the tracers can be asked for."""
    q = Seq(env, (2,), (6,), ('hdf', 'hdf'), kw=dict(smooth_tracers=True),
            span=(0, 3))
    env.require(not env.raises(TypeError, lambda: list(q.s)),
                'smoothed tracers')


def scenarios(tier):
    out = [S('smooth-tracers', smooth, text='one tracer, any positions')]
    fm = [('hdf', 'hdf'), ('npz', 'hdf'), ('npz', 'npz'), ('hdf', 'npz')]
    ls = [((1,), (2,)), ((2, 2), (2,)), ((3,), (2, 3)), ((2, 1), (3, 2)),
          ((4,), (1, 4))]
    if tier == 'thorough': ls += [((3, 3, 2), (3, 2)), ((2, 2), (2, 3, 3)),
                                  ((4, 3), (5, 3))]
    for i, (p, t) in enumerate(ls):
        n = '%s-%s' % ('.'.join(map(str, p)), '.'.join(map(str, t)))
        tx = 'particle trajectories of %s points, tracers of %s' % (p, t)
        f = fm[i % 4]
        out.append(S('iter-%s' % n, plain, plens=p, tlens=t, fmts=f,
                     forward=i % 2 == 0, extra=(i % 3 < 2, i % 3 != 1), text=tx))
        out.append(S('sub-%s' % n, sub, plens=p, tlens=t, fmts=fm[(i + 1) % 4],
                     before=i % 2, forward=i % 3 == 0, text=tx))
    for ml in (1, 2, 3):
        out.append(S('minlen-%d' % ml, minlen, plens=(3, 2), tlens=(1, 4),
                     fmts=fm[ml], ml=ml, text='minimum length %d' % ml))
    out.append(S('history-2', history, plens=(2, 2), tlens=(2, 1), fmts=fm[0],
                 steps=2, text='any two uses before'))
    out.append(S('history-1', history, plens=(2, 2), tlens=(2, 3), fmts=fm[1],
                 steps=1, text='any use before'))
    if tier == 'thorough':
        out.append(S('history-3', history, plens=(2, 2), tlens=(2,), fmts=fm[0],
                     steps=3, text='any three uses before'))
    ps, ts = (8, 5, 1, 3, 6), (6, 9, 2, 8)
    w = dict(within=(('[pt]\\d+_start', 0, 9), ('first', 0, 4),
                     ('last', 8, 14)), track=dict(p=-1, t=1))
    tx = 'particles of %s points, tracers of %s' % (ps, ts)
    for fm in (('hdf', 'npz'), ('npz', 'hdf')):
        out += big('iter-' + fm[0], plain, (1, 2), tx, plens=ps, tlens=ts,
                   fmts=fm, forward=False, extra=(True, False), **w)
    w['track'] = dict(p=1, t=-1)
    w['within'] = (('[pt]\\d+_start', 0, 1), ('a\\d', 0, 2))
    for ml in (2, 4):
        out += big('minlen-%d' % ml, minlen, (1, 2), 'trajectories of 1 to 5 '
                   'points', plens=(4, 1, 3, 5, 2), tlens=(5, 2, 4, 1),
                   fmts=(('hdf', 'npz')[ml // 4], 'hdf'), ml=ml, **w)
    w['within'] = (('[pt]\\d+_start', -1, 1), ('a\\d', 0, 2))
    ps, ts = (8, 5, 3, 3, 6), (6, 9, 3, 8)
    tx = 'particles of %s points, tracers of %s' % (ps, ts)
    out += big('history', history, range(1, 5 if tier == 'quick' else 13), tx +
        ', eight uses', plens=ps, tlens=ts, fmts=('hdf', 'npz'), steps=8, **w)
    return out
