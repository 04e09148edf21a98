"""C11: particle-table (HDF5) round trip, with trimming."""
from symx.run import S
from .large import big
from .lib import traj, trids


def build(env, lens, holes=False):
    ids = trids(env, len(lens), 0, 400)
    return [traj(env, 't%d' % i, n, ids[i], start=env.int('t%dstart' % i, 0, 50),
                 holes=holes) for i, n in enumerate(lens)]


def check_traj(env, got, t, a, b, label):
    env.require(env.eq(got.trajid(), t.sxid), label + 'number')
    env.require(len(got) == b - a, label + 'length')
    env.require(set(got.schema()) == set(t.schema()), label + 'properties')
    if len(got) != b - a or set(got.schema()) != set(t.schema()): return
    for f, v in t.sx.items():
        w = getattr(got, f)()
        env.require(env.eq(w, v[a:b]), label + f)


def trip(env, lens, trim, how, holes=False):
    trs = build(env, lens, holes)
    path = env.path('table.h5')
    io = env.ft.io
    if trim is None and env.flag('default'): io.save_particles_table(path, trs)
    else: io.save_particles_table(path, iter(trs) if how == 'scene' else trs,
                                  trim)
    tr = trim or 0
    keep = [t for t in trs if t.sxn > 2 * tr]
    tags = None
    if how == 'list':
        got = io.trajectories_table(path)
    elif how == 'common':
        got = io.trajectories(path, None, None, 1., None, 1)
    else:
        sc = env.ft.scene.Scene(path)
        got = list(sc.iter_trajectories())
    env.require(len(got) == len(keep), 'every trajectory long enough, once')
    for t in keep:
        hit = [g for g in got if bool(env.eq(g.trajid(), t.sxid))]
        env.require(len(hit) == 1, 'own number')
        for g in hit: check_traj(env, g, t, tr, t.sxn - tr, '')
        if how == 'scene':
            check_traj(env, sc.trajectory_by_id(t.sxid), t, tr, t.sxn - tr,
                       'by number: ')
    if how == 'scene' and keep:
        tags = sc.trajectory_tags()
        env.require(tuple(tags.shape) == (len(keep), 3), 'bounds')
        env.require(set(sc.keys()) == set(keep[0].sx) - {'time'}, 'keys')
    else:
        h = env.tables.open_file(path, mode='r')
        b = h.get_node('/bounds').read()
        env.require(len(b) == len(keep), 'bounds')
        tags = [[b['trajid'][k], b['first'][k], b['last'][k]]
                for k in range(len(b))]
        h.close()
    for t in keep:
        rows = [r for r in tags if bool(env.eq(r[0], t.sxid))]
        env.require(len(rows) == 1, 'bounds of each trajectory')
        for r in rows:
            env.require(env.eq(r[1], t.sx['time'][tr]), 'first written time')
            env.require(env.eq(r[2], t.sx['time'][t.sxn - tr - 1]),
                        'last written time')


def scenarios(tier):
    out = []
    ls = [(1,), (2, 1), (3, 1, 5), (2, 2, 4)]
    if tier == 'thorough': ls += [(4, 3, 5, 1), (7, 6, 5)]
    for i, l in enumerate(ls):
        for trim in (None, 0, 1, 2):
            if trim and max(l) <= 2 * trim and len(l) < 3: continue
            for how in ('list', 'common', 'scene'):
                out.append(S('trip-%s-%s-%s' % ('.'.join(map(str, l)), trim,
                    how), trip, lens=l, trim=trim, how=how, holes=(i == 1),
                    text='trajectories of %s points, trim %s' % (l, trim)))
    for trim, how in ((None, 'list'), (2, 'scene'), (1, 'common')):
        out += big('trip-%s-%s' % (trim, how), trip, (1, 2), '15 trajectories',
                   lens=(4, 1, 12, 6, 5) * 3, trim=trim, how=how, holes=True)
    return out
