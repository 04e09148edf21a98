"""C01: particle sets store and slice properties faithfully."""
from symx.run import S
from .large import big
from .lib import traj, trids

# Extra properties: name -> item shape
EXTRA = {'accel': (3,), 'heat': (), 'tag': (), 'tensor': (3, 3)}


def build(env, kind, n, name):
    T = env.ft.trajectory
    cols = {'pos': env.reals(name + 'p', (n, 3)),
            'velocity': env.reals(name + 'v', (n, 3))}
    for k, sh in EXTRA.items():
        cols[k] = env.ints(name + k, (n,) + sh, -9, 9) if k == 'tag' else \
            env.reals(name + k, (n,) + sh)
    args = dict(cols)
    if kind == 'set':
        s = T.ParticleSet(**args)
    elif kind == 'traj':
        cols['time'] = args['time'] = env.ints(name + 'time', n, 0, 99)
        s = T.Trajectory(trajid=7, **args)
    else:
        cols['trajid'] = args['trajid'] = env.ints(name + 'trid', n, 0, 99)
        s = T.ParticleSnapshot(time=11, **args)
    return s, cols


def agrees(env, s, cols, label):
    n = len(cols['pos'])
    env.require(len(s) == n, label + 'length')
    env.require(set(s.schema()) == set(cols), label + 'schema names')
    d = s.as_dict()
    env.require(set(d) == set(cols), label + 'dictionary names')
    ext = s.ext_schema()
    env.require(set(ext) == set(cols), label + 'extended schema names')
    for k in sorted(cols):
        v = getattr(s, k)()
        env.require(env.eq(v, cols[k]), label + 'reads back ' + k)
        env.require(env.eq(d[k], cols[k]), label + 'dictionary ' + k)
        env.require(s.has_property(k), label + 'has ' + k)
        env.require(tuple(s.schema()[k]) == tuple(cols[k].shape[1:]),
                    label + 'schema shape ' + k)
        if cols[k].ndim <= 2:
            t, sh = ext[k]
            env.require(sh == (cols[k].shape[1] if cols[k].ndim > 1 else 1),
                        label + 'extended schema shape ' + k)
            env.require(t == cols[k].dtype.type,
                        label + 'extended schema type ' + k)
    env.require(not s.has_property('nosuch'), label + 'unknown property')


def selector(env, n, name):
    """A selection of rows and the row numbers it stands for."""
    np = env.np
    kind = env.pick(name + 'kind', ['int', 'slice', 'list', 'mask', 'neg'])
    if kind == 'int':
        i = env.int(name + 'i', 0, n - 1)
        return i, int(i), True
    if kind == 'neg':
        i = env.choose(name + 'i', n)
        return -1 - i, n - 1 - i, True
    if kind == 'slice':
        a = env.choose(name + 'a', n + 1)
        b = env.choose(name + 'b', n + 1)
        return slice(a, b), list(range(a, b)), False
    if kind == 'list':
        ix = [int(env.int(name + '%d' % k, 0, n - 1)) for k in range(2)]
        env.assume(ix[0] != ix[1])
        return np.array(ix), ix, False
    m = [env.flag(name + 'm%d' % k) for k in range(n)]
    return np.array(m, dtype=bool), [k for k in range(n) if m[k]], False


def read(env, kind, n):
    s, cols = build(env, kind, n, 'a')
    agrees(env, s, cols, '')
    sel, rows, single = selector(env, n, 's')
    for k in sorted(cols):
        v = getattr(s, k)(sel)
        want = cols[k][rows] if single else \
            [cols[k][r] for r in rows]
        if single: env.require(env.eq(v, want), 'selection of ' + k)
        else:
            env.require(len(v) == len(rows), 'selection length ' + k)
            for x, y in zip(v, want):
                env.require(env.eq(x, y), 'selection of ' + k)
    env.require(env.eq(s.pos(selector=sel), s.pos(sel)), 'selector by name')
    agrees(env, s, cols, 'after reading: ')


def write(env, kind, n, prop):
    s, cols = build(env, kind, n, 'a')
    o, ocols = build(env, kind, n, 'b')
    if prop == 'new':
        cols['fresh'] = env.reals('fresh', (n, 2))
        s.create_property('fresh', cols['fresh'])
        agrees(env, s, cols, 'after adding: ')
        agrees(env, o, ocols, 'other object: ')
        prop = 'fresh'
    whole = env.flag('whole')
    # what was stored stays the caller's; compare with copies
    keep = {k: v.copy() for k, v in cols.items()}
    shape = cols[prop].shape[1:]
    if whole:
        # (whole properties take any type)
        new = env.reals('new', (n,) + shape) if prop != 'heat' else \
            env.ints('new', (n,) + shape)
        getattr(s, 'set_' + prop)(new)
        keep[prop] = new
    else:
        sel, rows, single = selector(env, n, 's')
        nums = env.ints if prop == 'tag' else env.reals
        if single: new = nums('new', (1,) + shape); rows = [rows]
        else: new = nums('new', (max(len(rows), 1),) + shape)
        if rows or single:
            getattr(s, 'set_' + prop)(new[0] if single else new[:len(rows)],
                                      sel)
        for j, r in enumerate(rows):
            keep[prop][r] = new[j]
    agrees(env, s, keep, 'after writing: ')
    agrees(env, o, ocols, 'other object: ')


def scenarios(tier):
    out = []
    sizes = (1, 3) if tier == 'quick' else (1, 2, 3, 4)
    for kind in ('set', 'traj', 'snap'):
        for n in sizes:
            out.append(S('read-%s-%d' % (kind, n), read, kind=kind, n=n,
                text='%d rows, every index, slice, mask or pair' % n))
            for p in ('pos', 'heat', 'tag', 'tensor', 'new'):
                out.append(S('write-%s-%d-%s' % (kind, n, p), write, kind=kind,
                    n=n, prop=p, text='%d rows, whole or any selection' % n))
    for kind in ('set', 'traj', 'snap'):
        out += big('read-' + kind, read, (1, 2, 3), '13 rows', kind=kind, n=13)
        out += big('write-' + kind, write, (1, 2, 3), '13 rows', kind=kind,
                   n=13, prop='heat')
    return out
