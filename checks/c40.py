"""C40: graphs draw the values they are given."""
from symx.run import S


def histogram(env, n, log, logd):
    g = env.ft.graphics
    h, e = env.reals('h', n), env.reals('e', n)
    if log or logd:
        for i in range(n):
            env.assume(h[i] > 0)
            env.assume(e[i] > 0)
    # plain when nothing else is asked for
    kw = {}
    if log or env.flag('explicit'): kw['log_bins'] = log
    if logd or env.flag('explicit density'): kw['log_density'] = logd
    lines = g.generalized_histogram_disp(h, e, **kw)
    (axes,) = env.figures().values()
    env.require(len(axes) == 1 and len(axes[0]['lines']) == 1, 'one line')
    ax, = axes
    (x, y), = ax['lines']
    env.require(len(x) == n and len(y) == n, 'one point for each bin')
    env.require(env.all([env.eq(x, e), env.eq(y, h)]), 'densities over edges')
    env.require(ax['xscale'] == ('log' if log else 'linear'), 'scale of bins')
    env.require(ax['yscale'] == ('log' if logd else 'linear'),
                'scale of densities')
    env.require(len(lines) == 1 and env.eq(lines[0].get_ydata(), h) is not False,
                'the lines are returned')


def graph(env, n, bins, log, logd):
    g = env.ft.graphics
    x = env.reals('x', n)
    if log:
        for i in range(n): env.assume(x[i] >= 0.125)
    env.assume(x[0] + 0.25 < x[1])
    for i in range(n):
        env.assume(x[i] >= x[0])
        env.assume(x[i] <= x[1])
        env.assume(x[1] <= 100)
    env.assume(x[0] >= -100)
    kw = {}
    if log or bins == 2: kw['log'] = log
    if logd or bins == 2: kw['log_density'] = logd
    g.pdf_graph(x, bins, **kw)
    h, e = g.pdf_bins(x, bins, log)
    (axes,) = env.figures().values()
    ax, = axes
    (px, py), = ax['lines']
    env.require(len(px) == bins and len(py) == bins, 'one point for each bin')
    if len(px) == bins == len(py):
        for k in range(bins):
            env.require(env.eq(px[k], e[k]), "the bin's start")
            env.require(env.eq(py[k], h[k]), "the bin's density")
    env.require(ax['xscale'] == ('log' if log else 'linear'), 'scale of bins')
    env.require(ax['yscale'] == ('log' if logd else 'linear'),
                'scale of densities')


def vectors(env, n, given, arrows, scale, ticks, unit):
    g = env.ft.graphics
    v, t = env.reals('v', (n, 3)), env.reals('t', n)
    a = env.reals('a', (n, 3)) if arrows else None
    cs = None
    if scale:
        cs = env.real('scale')
        env.assume(cs >= 0.125)
        env.assume(cs <= 64)
        for i in range(n):
            for c in range(3):
                env.assume(env.all([v[i,c] >= -64, v[i,c] <= 64]))
    if ticks:
        for c in range(3): env.assume(v[0,c] + 0.25 < v[n - 1,c])
    if ticks and scale:
        # the scale covers the values (ticks beyond it would widen it)
        for c in range(3):
            m = sum([v[i,c] for i in range(n)]) / n
            for i in range(n):
                env.assume(v[i,c] - m <= cs * 0.9)
                env.assume(m - v[i,c] <= cs * 0.9)
    fig = None
    if given:
        fig = env.pl.figure()
        env.pl.figure()               # another one is in front
    v0, t0 = v.copy(), t.copy()
    r = g.plot_vectors(v, t, 'time [s]', fig, ytick_dens=ticks, unit_str=unit,
                       common_scale=cs, arrows=a, arrow_color='r')
    env.require(env.all([env.eq(v, v0), env.eq(t, t0)]), 'values unchanged')
    figs = env.figures()
    env.require(len(figs) == (2 if given else 1), 'number of figures')
    if given: env.require(r is fig, 'the given figure')
    axes = figs[r.number]
    env.require(len(axes) == 3, 'three graphs')
    for c, ax in enumerate(axes):
        env.require(tuple(ax['place']) == (3, 1, c), 'one below another')
        env.require(len(ax['lines']) == 1, 'one line')
        (x, y), = ax['lines'][:1]
        env.require(len(x) == n and len(y) == n, 'all values')
        env.require(env.all([env.eq(x, t), env.eq(y, v[:,c])]),
                    'the component over the independent variable')
        env.require('XYZ'[c] in ax['ylabel'] and unit in ax['ylabel'],
                    'label and unit')
        env.require((ax['xlabel'] == 'time [s]') == (c == 2),
                    'the label is on the last')
        if arrows:
            env.require(len(ax['arrows']) == 1, 'arrows')
            X, Y, U, V = ax['arrows'][0]
            env.require(env.all([env.eq(X, t), env.eq(Y, v[:,c]),
                env.eq(V, a[:,c]), env.eq(U, [0.] * n)]),
                'the arrows of the component at its points')
        else: env.require(len(ax['arrows']) == 0, 'no arrows')
        if scale:
            m = sum([v[i,c] for i in range(n)]) / n
            lo, hi = ax['ylim']
            env.require(env.eq(hi - lo, 2 * cs), 'common scale')
            env.require(env.eq(hi + lo, 2 * m), 'centred on the mean')
        if ticks:
            y = ax['yticks']
            lo = hi = v[0,c]
            for i in range(1, n):
                if bool(v[i,c] < lo): lo = v[i,c]
                if bool(v[i,c] > hi): hi = v[i,c]
            env.require(len(y) == ticks, 'number of ticks')
            env.require(env.all([env.eq(y[k], lo + (hi - lo) * k / (ticks - 1))
                for k in range(len(y))]), 'ticks from the least to the greatest')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for log in (False, True):
        for logd in (False, True):
            out.append(S('histogram-%d%d' % (log, logd), histogram, n=3,
                log=log, logd=logd, text='any 3 densities and edges'))
            out.append(S('graph-%d%d' % (log, logd), graph, n=3 if not log or
                th else 2, bins=2, log=log, logd=logd,
                text='any samples within the limits'))
    for i, (n, given, arrows, scale, ticks) in enumerate([(2, False, False,
            False, None), (3, True, True, False, None), (2, True, False, True,
            3), (3, False, True, True, 2), (1, False, True, False, None)] +
            ([(4, True, True, True, 4)] if th else [])):
        out.append(S('vectors-%d' % i, vectors, n=n, given=given,
            arrows=arrows, scale=scale, ticks=ticks, unit=('[m/s]', '')[i % 2],
            text='any %d vectors' % n))
    return out
