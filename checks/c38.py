"""C38: probability densities of a data set integrate to one over it."""
from symx.run import S
from .large import big


def inside(env, x, lo, hi, last):
    return env.all([env.le(lo, x), env.le(x, hi) if last else x < hi])


def density(env, n, bins, log, whole=False, use='bins',
            moving=None):
    x = env.ints('x', n, -4, 9) if whole else env.reals('x', n)
    if moving is not None:
        rest = [x[k] for k in range(n) if k != moving]
        env.assume(x[moving] >= min(rest))
        env.assume(x[moving] <= max(rest))
    pos = [v for v in x if not log or bool(v > 0)]
    env.assume(len(pos) >= 2)
    lo = hi = pos[0]
    for v in pos[1:]:
        if bool(v < lo): lo = v
        if bool(v > hi): hi = v
    # (apart far enough for floating point)
    env.assume(-1e6 <= lo)
    env.assume(hi <= 1e6)
    if log:
        env.assume(lo >= 1e-6)
        env.assume(lo * 1.01 < hi)
    else: env.assume(lo + 1e-6 < hi)
    g = env.ft.graphics
    if use == 'bins': h, e = g.pdf_bins(x, bins, log) if log else \
        g.pdf_bins(x, bins)
    else:
        g.pdf_graph(x, bins, log)
        (ax,), = env.figures().values()
        (px, py), = ax['lines']
        h, e = py, list(px) + [hi]
    for v in (h, e): env.require(len(v) == (bins if v is h else bins + 1),
                                 'one density for each bin')
    # every sample counts once
    total = len(pos)
    for k in range(bins):
        c = 0
        for v in pos:
            if bool(env.all([e[k] <= v, v <= e[k + 1] if k == bins - 1
                             else v < e[k + 1]])): c += 1
        env.require(env.eq(h[k] * (e[k + 1] - e[k]) * total, c),
                    'density times width is the part of the samples')
        total_seen = c if k == 0 else total_seen + c
    env.require(total_seen == total, 'every sample counts exactly once')
    env.require(env.eq(sum([h[k] * (e[k + 1] - e[k]) * total
                                    for k in range(bins)]), total),
                'densities integrate to one')
    env.require(env.eq(e[0], lo), 'edges start at the minimum')
    env.require(env.eq(e[bins], hi), 'edges end at the maximum')
    for k in range(1, bins):
        if log:
            env.require(env.eq(e[k - 1] * e[k + 1], e[k] * e[k]),
                        'equal logarithmic steps')
        else:
            env.require(env.eq(e[k + 1] - e[k], e[k] - e[k - 1]),
                        'equal steps')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for n, b in [(2, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 3)] + (
            [(5, 3), (4, 5), (6, 2)] if th else []):
        out.append(S('linear-%d-%d' % (n, b), density, n=n, bins=b, log=False,
            use=('bins', 'graph')[n % 2], text='any %d samples' % n))
    for n, b in [(2, 1), (2, 2), (3, 1), (3, 2), (2, 3)] + (
            [(4, 2), (3, 3)] if th else []):
        out.append(S('log-%d-%d' % (n, b), density, n=n, bins=b, log=True,
            use=('bins', 'graph')[n % 2], text='any %d samples, two '
            'different ones of them positive' % n))
    out.append(S('whole', density, n=3, bins=2, log=False, whole=True,
                 text='any 3 whole samples'))
    for use in ('bins', 'graph'):
        out += big('linear-' + use, density, (1, 2), '40 samples, one of them '
            'anywhere between the others', const='x_?([0-689]|\\d\\d)$', n=40,
            bins=11, log=False, use=use, moving=7)
    return out
