"""C25: a reused interpolant answers like a fresh one."""
from symx.run import S
from .large import big
from .geom import distances
from .c22 import make

OPS = ('scene', 'field', 'points', 'data', 'trim', 'ask', 'off')


class World(object):
    """An interpolant, and the tracers, points and data it should have."""
    def __init__(self, env, method, num, n, m, comp, par, dim=3):
        self.env, self.method, self.num, self.par = env, method, num, par
        self.comp, self.k, self.dim = comp, 0, dim
        env.opaque_roots()
        self.it = make(env, method, num, None, par, 2)
        self.n, self.m = n, m
        self.set_scene()

    def new(self, n, d=None):
        self.k += 1
        return self.env.reals('%s%d' % ('r' if d is None else 'f', self.k),
                              (n, d or 3))

    def another(self, name, old, lo):
        if self.env.rnd: return self.env.rnd('%s%d' % (name, self.k)).randint(
            lo, 7)
        return 3 - old if old in (1, 2) else lo

    def apart(self):
        """No tracer at a point: each point has neighbours."""
        for row in distances(self.env, self.x, self.t):
            for v in row: self.env.assume(v > 0)

    def companions(self):
        if not self.comp: return None
        c = [-1] * self.m
        if self.n > 1:
            c = [self.env.choose('c%d_%d' % (self.k, i), 2) - (i + 1) % 2
                 for i in range(self.m)]
        return self.env.np.array(c, dtype=int)

    def set_scene(self):
        self.t, self.x = self.new(self.n), self.new(self.m)
        self.f = self.new(self.n, self.dim)
        self.c = self.companions()
        self.apart()
        if self.c is None: self.it.set_scene(self.t, self.x, self.f)
        else: self.it.set_scene(self.t, self.x, self.f, self.c)

    def do(self, op, last=False):
        env, it = self.env, self.it
        if op == 'scene':
            self.n = self.another('n', self.n, 2)
            if self.num == 1 and not env.rnd: self.n = 2
            self.set_scene()
        elif op == 'field':
            self.t = self.new(self.n)
            self.apart()
            it.set_field_positions(self.t)
        elif op == 'fields':       # another number of tracers
            self.n = self.another('n', self.n, 2)
            if self.c is not None and not env.rnd: self.n = 2
            self.t, self.f = self.new(self.n), self.new(self.n, self.dim)
            self.apart()
            it.set_field_positions(self.t)
            it.set_data_on_current_field(self.f)
        elif op == 'points':
            self.m = self.another('m', self.m, 1)
            self.x = self.new(self.m)
            self.c = self.companions()
            self.apart()
            if self.c is None: it.set_interp_points(self.x)
            else: it.set_interp_points(self.x, self.c)
        elif op == 'data':
            self.f = self.new(self.n, self.dim)
            it.set_data_on_current_field(self.f)
        elif op == 'trim':
            k = env.choose('trim%d' % self.k, 2 ** self.m - 1)
            self.k += 1
            drop = [bool(k >> i & 1) for i in range(self.m)]
            keep = [i for i in range(self.m) if not drop[i]]
            it.trim_points(env.np.array(drop, dtype=bool))
            self.x, self.m = self.x[keep], len(keep)
            if self.c is not None: self.c = self.c[keep]
        elif op == 'ask':
            self.k += 1
            q = env.choose('ask%d' % self.k, 3)
            if q == 0: it.interpolate()
            elif q == 1: it.current_dists()
            elif self.method == 'inv' and self.dim == 3: it.eulerian_jacobian()
            else: it.current_relative_positions()
        elif op == 'askjac': it.eulerian_jacobian()
        elif op == 'again':        # the same objects, other companions
            if self.c is not None and not env.flag('keep%d' % self.k):
                self.c = None
            else:
                self.comp, self.k = True, self.k + 1
                self.c = self.companions()
            if env.flag('points only%d' % self.k):
                it.set_interp_points(self.x, self.c)
            else: it.set_scene(self.t, self.x, self.f, self.c)
        elif op == 'subset':
            nb = it.current_active_neighbs().copy()
            if nb.shape[1] > 1: nb[0, 0] = self.n
            it.interpolate(nb)
        elif op == 'off':
            t, x, f = self.new(2), self.new(1), self.new(2)
            for v in distances(env, x, t)[0]: env.assume(v > 0)
            it(t, x, f)
        elif op == 'offhere':
            it(self.t + 1., self.x + 1., self.f, self.c)

    def check(self, jac=False, label=''):
        env, it = self.env, self.it
        fr = make(env, self.method, self.num, None, self.par, 2)
        if self.c is None: fr.set_scene(self.t, self.x, self.f)
        else: fr.set_scene(self.t, self.x, self.f, self.c)
        order = env.choose('order%d' % self.k, 2) if not self.comp else \
            self.k % 2
        def inter():
            a, b = it.interpolate(), fr.interpolate()
            env.require(env.eq(a, b), label + 'interpolation of a fresh one')
        def rest():
            for q in ('current_active_neighbs', 'current_dists',
                      'current_relative_positions', 'field_positions',
                      'current_data'):
                env.require(env.eq(getattr(it, q)(), getattr(fr, q)()),
                            label + q + ' of a fresh one')
            if jac:
                env.require(env.eq(it.eulerian_jacobian(),
                    fr.eulerian_jacobian()), label + 'derivatives of a fresh one')
        for f in ((inter, rest), (rest, inter))[order]: f()


def history(env, method, num, n, m, comp, par, ops, jac):
    w = World(env, method, num, n, m, comp, par)
    for op in ops: w.do(op)
    w.check(jac)


def chosen(env, method, num, n, m, comp, par, first, rest, ops, jac=False,
           dim=1):
    """A history of given length with any operations."""
    w = World(env, method, num, n, m, comp, par, 3 if jac else dim)
    w.do(first)
    for k in range(rest): w.do(env.pick('op%d' % k, ops))
    w.check(jac)


def emptied(env, method):
    """A scene without tracers, before or after one with tracers."""
    np = env.np
    it = make(env, method, 1, None)
    t, x, f = env.reals('t', (1, 3)), env.reals('x', (1, 3)), env.reals('f', (1, 3))
    env.assume(distances(env, x, t)[0][0] > 0)
    none = np.zeros((0, 3))
    seq = env.choose('order', 3)
    for k in ((0, 1), (1, 0), (1, 0, 1))[seq]:
        if k:
            it.set_scene(t, x, f)
            got = it.interpolate()
            fr = make(env, method, 1, None)
            fr.set_scene(t, x, f)
            env.require(env.eq(got, fr.interpolate()), 'as a fresh one')
        else:
            it.set_scene(none, x, none)
            got = it.interpolate()
            env.require(env.eq(got, np.zeros((1, 3))), 'zeros without tracers')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    base = ('scene', 'field', 'points', 'data', 'trim', 'ask')
    more = ('fields', 'subset', 'off', 'offhere', 'again')
    for comp in (False, True):
        for first in base + more:
            if comp and not th and first not in ('points', 'trim', 'data'):
                m, ops = 1, base
            else: m, ops = 2, base + more
            if comp and m == 2 and not th: ops = ('points', 'field', 'trim')
            out.append(S('inv-2.%d-%s%s' % (m, 'comp-' if comp else '', first),
                chosen, method='inv', num=2, n=2, m=m, comp=comp, par=None,
                first=first, rest=1, ops=ops, text='2 tracers, %d '
                'points; one more operation' % m))
            out.append(S('jac-2.1-%s%s' % ('comp-' if comp else '', first),
                chosen, method='inv', num=2, n=2, m=2 if first == 'trim' else
                1, comp=comp, par=(None, 2)[comp], first=first, rest=int(th),
                ops=base, jac=True, text='2 tracers, 1 point; derivatives'))
            if comp and not th or first in ('points', 'ask') and not th:
                continue
            out.append(S('inv-2.1-%s%s-2' % ('comp-' if comp else '', first),
                chosen, method='inv', num=1 if comp else 2, n=2, m=1,
                comp=comp, par=2, first=first, rest=2,
                ops=base if not th else base + more,
                text='2 tracers, 1 point; two more operations'))
    # derivatives asked for before and after a change
    for num in (1, 2):
        for comp in (False, True):
            for m in (1, 2):
                if comp and (num == 1 or m == 2) and not th: continue
                if m == 2 and num == 2 and not th: continue
                ops = (('trim',) if m == 2 else ()) + \
                    ('points', 'field', 'data', 'scene', 'fields', 'subset')
                if m == 2 and not th: ops = ('trim', 'data', 'subset')
                out.append(S('jac-ask-2.%d-%d%s' % (m, num, '-comp' if comp
                    else ''), chosen, method='inv', num=num, n=2, m=m,
                    comp=comp, par=2, first='askjac', rest=1, ops=ops,
                    jac=True, text='2 tracers, %d points; derivatives, a '
                    'change, derivatives' % m))
    for method in ('rbf', 'corrfun'):
        for first in base + more:
            for comp in (False, True):
                if comp and not th and first in more: continue
                m = 2 if th or first in ('trim', 'points') or (not comp and
                    method == 'rbf') else 1
                ops = base + ('off',) if th or not comp else ('points', 'field')
                out.append(S('%s-2.%d-%s%s' % (method, m, 'comp-' if comp else
                    '', first), chosen, method=method, num=1, n=2, m=m,
                    comp=comp, par=None, first=first, rest=1, ops=ops,
                    dim=1 + (method == 'rbf'),
                    text='2 tracers, %d points; one more operation' % m))
        out.append(S('emptied-' + method, emptied, method=method))
    out.append(S('emptied-inv', emptied, method='inv'))
    for num, ops in ((2, ('data', 'trim')), (3, ('points', 'data')),
                     (2, ('field', 'trim')), (2, ('off', 'data'))):
        out.append(S('inv-3.1-%d-%s' % (num, '.'.join(ops)), history,
            method='inv', num=num, n=3, m=1, comp=False, par=None, ops=ops,
            jac=num == 2, text='3 tracers, 1 point'))
    for comp in (False, True):
        for method in ('inv', 'corrfun'):
            out += big('%s%s' % (method, '-comp' if comp else ''), chosen,
                range(1, 5 if not th else 21), '6 tracers, 5 points, 12 '
                'operations', line='r\\d+_', method=method, num=3, n=6, m=5,
                comp=comp, par=2 if method == 'inv' else None, first='ask',
                rest=12, ops=base + more + ('askjac',) * (method == 'inv'),
                jac=method == 'inv')
    return out
