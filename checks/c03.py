"""C03: duplicate-position filtering."""
from symx.run import S
from .large import big


def unique(env, n, cols):
    rows = env.reals('r', (n, cols)) if n else env.np.zeros((0, cols))
    before = rows.copy()
    got = env.ft.trajectory.mark_unique_rows(rows)
    env.require(env.eq(rows, before), 'input unchanged')
    got = [int(i) for i in got]
    env.require(all(a < b for a, b in zip(got, got[1:])), 'increasing order')
    env.require(all(0 <= i < n for i in got), 'indices of rows')
    same = lambda i, j: env.all([rows[i][c] == rows[j][c] for c in range(3)])
    for i in range(n):
        first = env.all([env.neg(same(i, j)) for j in range(i)])
        if i in got:
            env.require(first, 'marked only first occurrences')
        else:
            env.require(env.neg(first), 'every first occurrence is marked')


def scenarios(tier):
    mx = 4 if tier == 'quick' else 5
    out = []
    for n in range(0, mx + 1):
        for c in (3, 4, 8):
            if n == mx and c != 8: continue
            out.append(S('unique-%d-%d' % (n, c), unique, n=n, cols=c,
                         text='%d rows of %d columns, any values' % (n, c)))
    out += big('unique', unique, (1, 2), '40 rows', coarse='r_\\d+_[012]$', n=40,
               cols=5)
    return out
