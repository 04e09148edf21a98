"""C15: segment iteration pairs exactly the continuing particles."""
from symx.run import S
from .large import big
from .lib import Rows, frange, match_rows
from .c14 import open_scene, limits_of


def segments(env, n, via, thi, groups=None):
    rows = Rows(env, 'r', n, thi=thi, unique=True, groups=groups)
    rng, s = open_scene(env, rows, via)
    a, b = limits_of(env, rows, rng)
    got = list(s.iter_segments())
    num = b - a - 1
    env.require(env.eq(len(got), num) if bool(num >= 0) else len(got) == 0,
                'one pair for each pair of consecutive frames')
    fields = {f for f, _, _ in rows.fields} | {'trajid'}
    for k, (f, g) in enumerate(got):
        env.require(env.eq(f.time(), a + k), 'time of the first frame')
        env.require(env.eq(g.time(), f.time() + 1), 'time of the second frame')
        one = [i for i in range(n) if bool(env.eq(rows.time[i], a + k))]
        two = [i for i in range(n) if bool(env.eq(rows.time[i], a + k + 1))]
        both = {rows.group[i] for i in one} & {rows.group[i] for i in two}
        env.require(set(f.schema()) == fields and set(g.schema()) == fields,
                    'properties')
        match_rows(env, f, rows, [i for i in one if rows.group[i] in both],
                   'first frame: ')
        match_rows(env, g, rows, [i for i in two if rows.group[i] in both],
                   'second frame: ')


def scenarios(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for via in ('init', 'set', 'changed'):
            if n >= 3 and via != 'init': continue
            out.append(S('segments-%d-%s' % (n, via), segments, n=n, via=via,
                thi=3 if n < 3 else 2, text='%d rows, each trajectory at most '
                'once in a frame, any range' % n))
    gs = [[0, 0, 1, 1], [0, 1, 1, 0], [0, 1, 0, 2]]
    if tier == 'thorough': gs += [[0, 1, 0, 1, 2], [0, 0, 1, 1, 1]]
    for g in gs:
        out.append(S('segments-all-%s' % ''.join(map(str, g)), segments,
            n=len(g), via='all', thi=2, groups=g,
            text='rows of trajectories %s, times 0..2' % g))
    for via in ('init', 'all', 'changed'):
        out += big('segments-' + via, segments, (1, 2), '30 rows in 12 frames',
                   few='rngkind', within=(('rngfirst', 1, 3), ('rnglast', 6, 12)),
                   n=30, via=via, thi=11)
    return out
