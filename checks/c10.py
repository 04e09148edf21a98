"""C10: trajectory directory (npz) round trip."""
from symx.run import S
from .large import big
from .lib import traj
from .c09 import limits, inside, shuffle

IDS = [7, 0, 12, 3] + list(range(98, 118, 2))


def trip(env, lens, limited, adds, time_type=int):
    trs, extra = [], {}
    for i, n in enumerate(lens):
        st = env.int('t%d_start' % i, -2, 3)
        t = traj(env, 't%d' % i, n, IDS[i], start=st, time_type=time_type)
        trs.append(t)
    if adds:
        extra['recon'] = {t.trajid(): env.reals('rec%d' % i, (lens[i], 2))
                          for i, t in enumerate(trs)}
        # (a name like those of the trajectory's own arrays)
        extra[('traj_fit', 'pos', 'trajectory')[len(lens) % 3]] = {
            t.trajid(): env.reals('fit%d' % i, 1) for i, t in enumerate(trs)}
        extra['score'] = {t.trajid(): env.reals('sc%d' % i, 1)
                          for i, t in enumerate(trs)}
    free = dict(grid=env.reals('grid', 2)) if env.flag('free') else {}
    d = env.path('out/res')
    io = env.ft.io
    io.save_trajectories(d, trs, extra, **free)
    if env.flag('again'):         # writing over an earlier directory
        io.save_trajectories(d, trs, extra, **free)
    shuffle(env)
    first, last = limits(env, -3, 7) if limited else (None, None)
    got, back = io.load_trajectories(d, first, last)
    byid = {int(t.trajid()): t for t in got}
    env.require(len(byid) == len(got), 'distinct numbers')
    n = 0
    for i, t in enumerate(trs):
        ix = [k for k in range(lens[i]) if inside(t.sx['time'][k], first, last)]
        if not ix: continue
        n += 1
        env.require(IDS[i] in byid, 'trajectory loaded')
        if IDS[i] not in byid: continue
        g = byid[IDS[i]]
        env.require(len(g) == len(ix), 'length')
        env.require(set(g.schema()) == set(t.schema()), 'same properties')
        if len(g) != len(ix) or set(g.schema()) != set(t.schema()): continue
        for f, v in t.sx.items():
            w = getattr(g, f)()
            env.require(tuple(w.shape) == (len(ix),) + tuple(v.shape[1:]),
                        'shape of ' + f)
            for k, j in enumerate(ix):
                env.require(env.eq(w[k], v[j]), 'unchanged ' + f)
    env.require(len(got) == n, 'no other trajectories')
    if not limited:
        env.require(set(back) == set(extra), 'names of the additions')
    for k, v in back.items():
        for i, t in enumerate(trs):
            if t.trajid() in v:
                env.require(env.eq(v[t.trajid()], extra[k][t.trajid()]),
                            'addition stays with its trajectory')
            else:
                env.require(limited, 'addition loaded')
        env.require(set(v) <= {t.trajid() for t in trs}, 'no other additions')


def scenarios(tier):
    out = []
    ls = [(1,), (2, 1), (1, 2, 3)] + ([(4, 2, 3, 1)] if tier == 'thorough' else [])
    for l in ls:
        for limit in (False, True):
            for adds in (False, True):
                out.append(S('trip-%s%s%s' % ('.'.join(map(str, l)),
                    '-limits' if limit else '', '-adds' if adds else ''),
                    trip, lens=l, limited=limit, adds=adds, text=
                    'trajectories of %s points with five properties' % (l,)))
        out.append(S('trip-%s-float-times' % '.'.join(map(str, l)), trip,
            lens=l, limited=True, adds=True, time_type=float))
    for limit in (False, True):
        out += big('trip-%d' % limit, trip, (1, 2), '14 trajectories',
                   few='first|last|hasfirst|haslast', lens=(4, 1, 12, 3, 5, 2,
                   7) * 2, limited=limit, adds=True)
    return out
