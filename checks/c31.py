"""C31: particle pairing returns the closest tracer of the same frame."""
from symx.run import S
from .large import big
from .lib import traj

PIDS = [7, 0, 12, 30, 4, 9, 100, 21]
SIDS = [0, 7, 3, 12, 50, 8, 201, 33, 2, 77]


def dist2(a, b):
    d = [a[k] - b[k] for k in range(3)]
    return d[0] * d[0] + d[1] * d[1] + d[2] * d[2]


def pairs(env, plens, slens, nreq, tmax, fixed):
    """fixed: starts of the trajectories, where they do not vary."""
    np = env.np
    pst = [fixed] * len(plens) if fixed is not None else \
        [env.int('pstart%d' % i, 0, tmax) for i in range(len(plens))]
    prim = [traj(env, 'p%d' % i, n, PIDS[i], start=pst[i])
            for i, n in enumerate(plens)]
    sec = [traj(env, 's%d' % i, n, SIDS[i], start=env.int('sstart%d' % i, 0,
           tmax), extra=False) for i, n in enumerate(slens)]
    req = []
    for k in range(nreq):
        i = env.choose('req%d' % k, len(prim))
        req.append((i, env.choose('tp%d' % k, plens[i])))
    trids = np.array([PIDS[i] for i, _ in req])
    tps = np.array([t for _, t in req])
    ptr, ptm = env.ft.pairs.particle_pairs(prim, sec, trids, tps)
    env.require(len(ptr) == nreq and len(ptm) == nreq, 'one pair per request')
    env.require(env.eq(trids, [PIDS[i] for i, _ in req]), 'request unchanged')
    env.require(env.eq(tps, [t for _, t in req]), 'time indices unchanged')
    for k, (i, tp) in enumerate(req):
        f = prim[i].sxstart + tp
        cand = [s for s in sec if bool(env.all(
            [s.sxstart <= f, f + 1 <= s.sxstart + s.sxn - 1]))]
        if not cand:
            env.require(env.eq(ptm[k], -1), 'no pair')
            continue
        hit = [s for s in cand if bool(env.eq(ptr[k], s.sxid))]
        env.require(len(hit) == 1, 'one of the candidates')
        for s in hit:
            j = f - s.sxstart
            env.require(env.eq(ptm[k], j), 'time index of the pair')
            x = prim[i].sx['pos'][tp]
            mine = dist2(x, s.sx['pos'][int(j)])
            for o in cand:
                if o is s: continue
                env.require(env.le(mine, dist2(x, o.sx['pos'][int(f -
                    o.sxstart)])), 'closest')


def scenarios(tier):
    out = []
    ls = [((2,), (2,), 1, 2), ((1, 2), (2, 2), 2, 2), ((2, 2), (3,), 3, 1),
          ((2,), (2, 2, 2), 1, 1), ((3,), (3, 2), 2, 1), ((1, 1), (2, 2), 3, 1),
          ((2, 1), (1, 2), 2, 2), ((2,), (4, 4), 2, 0)]
    if tier == 'thorough':
        ls += [((2, 2), (2, 2), 3, 1), ((1, 1), (2, 2, 2), 2, 1),
               ((2, 3), (3, 3), 2, 2), ((1,), (2, 2, 2, 2), 1, 1)]
    for p, s, n, t in ls:
        out.append(S('pairs-%s-%s-%d' % ('.'.join(map(str, p)), '.'.join(
            map(str, s)), n), pairs, plens=p, slens=s, nreq=n, tmax=t,
            fixed=None if t > 1 else 1,
            text='primary trajectories of %s points, secondary of %s, %d '
            'requests in any order, any positions' % (p, s, n)))
    p, s = (9, 5, 7, 3, 6, 8), (6, 4, 8, 5, 7, 3, 9, 2, 6, 5)
    out += big('pairs', pairs, (1, 2) if tier == 'quick' else range(1, 7),
        'primary trajectories of %s points, secondary of %s, 12 requests; the '
        'third primary trajectory anywhere' % (p, s), within=(
        ('[ps]start\\d+', 0, 5),), const='(s\\d+|p[0134567])_p_', plens=p,
        slens=s, nreq=12, tmax=5, fixed=None)
    return out
