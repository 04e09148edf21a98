"""Tracers, points and distances for the interpolation checks."""


class Geometry(object):
    """n tracers and m points anywhere, with their distances."""
    def __init__(self, env, n, m, name='', comp=False, zero=False,
                 flat=False):
        self.env, self.n, self.m = env, n, m
        self.tracers = env.reals(name + 't', (n, 3)) if n else \
            env.np.zeros((0, 3))
        self.points = env.reals(name + 'x', (m, 3)) if m else \
            env.np.zeros((0, 3))
        if zero: self.points = env.np.zeros((m, 3))
        if flat:
            # one tracer on each axis, and so on
            a = env.np.zeros((n, 3))
            for j in range(n): a[j, j % 3] = self.tracers[j][j % 3]
            self.tracers = a
        self.comp = None
        self.c = [-1] * m
        if comp:
            self.c = [env.choose('%sc%d' % (name, i), n + 1) - 1
                      for i in range(m)]
            self.comp = env.np.array(self.c, dtype=int)
        self.d = distances(env, self.points, self.tracers)

    def apart(self):
        """No tracer coincides with a point."""
        for row in self.d:
            for x in row: self.env.assume(x > 0)

    def eligible(self, i, j):
        return self.c[i] != j and bool(self.d[i][j] > 0)


def distance(env, a, b):
    return env.sqrt(sum([(a[c] - b[c]) ** 2 for c in range(3)], 0.))


def distances(env, pts, trs):
    return [[distance(env, trs[j], pts[i]) for j in range(len(trs))]
            for i in range(len(pts))]


def right_set(env, used, elig, d, num, radius, label):
    """used: the indices marked, of one point."""
    env.require(set(used) <= set(elig), label + 'only eligible tracers')
    if radius is not None:
        near = [j for j in elig if bool(d[j] < radius)]
    else:
        near = list(elig)
    env.require(set(used) <= set(near), label + 'only within the radius')
    if num is None:
        env.require(set(used) == set(near), label + 'all within the radius')
        return
    env.require(len(used) == min(num, len(near)), label + 'number of neighbours')
    for j in used:
        for k in near:
            if k not in used:
                env.require(env.le(d[j], d[k]), label + 'nearest tracers')
