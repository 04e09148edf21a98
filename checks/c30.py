"""C30: mapping over a sequence builds each trajectory's own time series."""
from symx.run import S
from .large import big
from .seqs import Seq, PIDS, check_pair, covers, in_range


def mapping(env, plens, tlens, fmts, mode, subrange, forward, select=False):
    """mode: what the function is given and what it returns."""
    q = Seq(env, plens, tlens, fmts, span=(0, 3), forward=forward)
    np = env.np
    parts = q.parts
    if select:
        i = env.choose('sel', len(parts))
        parts = [parts[i]]
        env.assume(in_range(env, parts[0], 0, 3) > 0)
        q.s.set_particle_selector(lambda ts: [t for t in ts
                                              if t.trajid() == PIDS[i]])
    if subrange:
        a, b = env.int('a', 0, 3), env.int('b', 0, 3)
        env.assume(a <= b)
        kw = dict(subrange=(a, b))
    else:
        a, b, kw = 0, 3, {}
    args = ()
    if 'args' in mode:
        args = (env.real('arg0'), 'text')
        kw['args'] = args
    if 'history' in mode: kw['history'] = True
    calls, given = [], {}
    nfr = int(b - a)
    vals = env.reals('res', (max(nfr, 1), len(PIDS)))

    def func(*fargs):
        k = len(calls)
        want = 3 + ('history' in mode) + len(args)
        env.require(len(fargs) == want, 'number of arguments')
        seq, frame, nxt = fargs[:3]
        env.require(seq is q.s, 'the sequence is given')
        calls.append(k)
        env.require(k < nfr, 'one call for each frame')
        if k >= nfr: return {}
        check_pair(env, (frame, nxt), parts, q.tracs, a + k, 'segment: ')
        if 'history' in mode:
            past = fargs[3]
            for t, rs in given.items():
                env.require(t in past, 'history of the trajectory')
                for j, r in enumerate(rs):
                    env.require(env.eq(past[t][j], r), 'results so far')
        for x, y in zip(args, fargs[len(fargs) - len(args):]):
            env.require(env.eq(x, y), 'extra arguments')
        out = {}
        for t in frame.particles.trajid():
            n = PIDS.index(int(t))
            if 'vector' in mode:
                r = np.array([vals[k,n], vals[k,n] * 2., 1.])
            else: r = vals[k,n]
            out[int(t)] = r
            given.setdefault(int(t), []).append(r)
        if 'reverse' in mode:
            out = dict(reversed(list(out.items())))
        return out

    res = q.s.map_trajectories(func, **kw)
    env.require(len(calls) == nfr, 'one call for each frame')
    want = {}
    for t in parts:
        for k in range(nfr):
            if covers(env, t, a + k):
                n = PIDS.index(t.sxid)
                want.setdefault(t.sxid, []).append([vals[k,n], vals[k,n] * 2.,
                    1.] if 'vector' in mode else vals[k,n])
    env.require({int(k) for k in res} == set(want), 'trajectories with results')
    for t, rs in want.items():
        env.require(t in res and len(res[t]) == len(rs), 'one per segment')
        if t in res and len(res[t]) == len(rs):
            for x, y in zip(res[t], rs):
                env.require(env.eq(x, y), 'results in frame order')


def twice(env, plens, tlens, fmts):
    """Several mappings, and iterating in between."""
    q = Seq(env, plens, tlens, fmts, span=(0, 3), tmax=2)
    vals = env.reals('res', (2, 3, 3))
    for n in range(2):
        kind = env.pick('use%d' % n, ('map', 'sub', 'iterate', 'in the function'))
        calls = []
        if kind == 'iterate':
            q.check(list(q.s), 'iteration: ')
            continue
        a = env.int('a%d' % n, 0, 2) if kind == 'sub' else 0
        def func(seq, frame, nxt):
            k = int(frame.particles.time())
            if kind == 'in the function':
                q.check(list(seq), 'inner iteration: ')
            calls.append(k)
            return dict((int(t), vals[n,k,PIDS.index(int(t))])
                        for t in frame.particles.trajid())
        res = q.s.map_trajectories(func, (a, 3)) if kind == 'sub' else \
            q.s.map_trajectories(func)
        env.require(env.eq(len(calls), 3 - a), 'one call for each frame')
        for i, t in enumerate(q.parts):
            ks = [k for k in range(int(a), 3) if covers(env, t, k)]
            env.require((t.sxid in res) == (len(ks) > 0), 'has results')
            if not ks or t.sxid not in res: continue
            env.require(env.eq(res[t.sxid], [vals[n,k,i] for k in ks]),
                        'results in frame order')


def span(env, plens, tlens, fmts, select):
    """The time span of the selected particles."""
    q = Seq(env, plens, tlens, fmts)
    parts = q.parts
    if select:
        q.s.subrange()
        i = env.choose('sel', len(parts))
        parts = [parts[i]]
        env.assume(in_range(env, parts[0], q.first, q.last) > 0)
        q.s.set_particle_selector(lambda ts: [t for t in ts
                                              if t.trajid() == PIDS[i]])
    got = q.s.subrange()
    # in one place of the range at least, so:
    ins = [t for t in parts if in_range(env, t, q.first, q.last) > 0]
    lo = min([max([q.first, t.sxstart]) for t in ins])
    hi = max([min([q.last, t.sxstart + t.sxn - 1]) for t in ins])
    env.require(len(got) == 2, 'a pair')
    env.require(env.eq(got[0], lo), 'earliest time')
    env.require(env.eq(got[1], hi), 'latest time')


def scenarios(tier):
    out = []
    fm = [('hdf', 'hdf'), ('npz', 'hdf'), ('hdf', 'npz'), ('npz', 'npz')]
    modes = ('', 'history', 'args', 'history args', 'vector', 'reverse',
             'vector history')
    ls = [((1,), (2,)), ((2, 2), (2,)), ((3,), (3,)), ((3, 2), (2,)),
          ((2, 3), (3,)), ((4, 1), (2,)), ((2, 2), (1, 2))]
    if tier == 'thorough':
        ls += [((3, 2, 2), (2,)), ((3, 3), (3, 2)), ((4, 3), (2,)),
               ((2, 2, 2), (2,))]
    for i, (p, t) in enumerate(ls):
        n = '%s-%s' % ('.'.join(map(str, p)), '.'.join(map(str, t)))
        tx = 'particle trajectories of %s points, tracers of %s' % (p, t)
        for j, sub in enumerate((True, False)):
            m = modes[(i + 3 * j) % len(modes)]
            out.append(S('map-%s-%s-%s' % (n, m.replace(' ', '-'), 'sub' if sub
                else 'all'), mapping, plens=p, tlens=t, fmts=fm[i % 4], mode=m,
                subrange=sub, forward=i % 2 == 0, select=i % 3 == 1, text=tx))
    for i, (p, t) in enumerate([((2, 2), (2,)), ((3,), (2,))]):
        out.append(S('uses-%s' % '.'.join(map(str, p)), twice, plens=p, tlens=t,
                     fmts=fm[i], text='any two uses'))
        for sel in (True, False):
            out.append(S('span-%s%s' % ('.'.join(map(str, p)), '-selected' if
                sel else ''), span, plens=p, tlens=t, fmts=fm[i], select=sel,
                text='any range'))
    ps, ts = (9, 5, 7, 3, 6), (6, 4)
    w = dict(within=(('[pt]\\d+_start', -2, 1), ('a', 0, 1), ('b', 2, 3)),
             track=dict(p=1, t=-1), plens=ps, tlens=ts)
    tx = 'particles of %s points, tracers of %s' % (ps, ts)
    for k, m in enumerate(modes):
        out += big('map-' + m.replace(' ', '-'), mapping, (1,), tx, fmts=fm[k %
            4], mode=m, subrange=k % 2 == 0, forward=True, select=k == 5, **w)
    w['within'] = (('[pt]\\d+_start', 0, 9), ('first', 0, 4), ('last', 8, 14))
    out += big('span', span, (1, 2), tx, fmts=fm[0], select=False, **w)
    return out
