"""Sequences over small symbolic databases, for C29, C30 and C35."""
from .lib import traj

PIDS = [7, 0, 12, 101, 5, 33, 8, 90]
TIDS = [3, 40, 7, 0, 250, 11, 26, 9]


def group(env, name, lens, ids, tmax, forward=True, extra=True):
    """Trajectories starting at any time; no two particles in one place."""
    trs = []
    for i, n in enumerate(lens):
        st = env.int('%s%d_start' % (name, i), 0, tmax)
        trs.append(traj(env, '%s%d' % (name, i), n, ids[i], start=st,
                        extra=extra))
    # Along x the trajectories lie one after the other, in one of the orders (the
    # filter of coinciding particles is the subject of C04).
    order = trs if forward else trs[::-1]
    for a, b in zip(order, order[1:]):
        for k in range(a.sxn):
            for l in range(b.sxn):
                env.assume(a.sx['pos'][k,0] < b.sx['pos'][l,0])
    return trs


def store(env, trs, name, fmt, add=None):
    """Write a database; returns its name."""
    io = env.ft.io
    if fmt == 'hdf':
        p = env.path(name + '.h5')
        io.save_particles_table(p, trs)
    else:
        p = env.path(name) + '/'
        io.save_trajectories(p, trs, {})
    return p


def covers(env, t, frame, last=None):
    """Has the trajectory this frame and the next?"""
    return bool(env.all([t.sxstart <= frame,
                         frame + 1 <= t.sxstart + t.sxn - 1]))


def check_set(env, got, trs, frame, active, label):
    """A snapshot holds the rows of the active trajectories at the frame."""
    env.require(env.eq(got.time(), frame), label + 'time')
    env.require(len(got) == len(active), label + 'number of rows')
    if len(got) != len(active): return
    tr = got.trajid()
    for t in active:
        hits = [k for k in range(len(got)) if bool(env.eq(tr[k], t.sxid))]
        env.require(len(hits) == 1, label + 'trajectory present once')
        for k in hits:
            env.require(set(got.schema()) - {'trajid', 'time'} ==
                        set(t.sx) - {'time'}, label + 'properties')
            for f, v in t.sx.items():
                if f == 'time': continue
                env.require(got.has_property(f), label + 'has ' + f)
                env.require(env.eq(getattr(got, f)()[k],
                    v[int(frame - t.sxstart)]), label + f)


def check_pair(env, pair, parts, tracs, frame, label):
    a, b = pair
    for ts, n in ((parts, 'particles'), (tracs, 'tracers')):
        act = [t for t in ts if covers(env, t, frame)]
        x, y = getattr(a, n), getattr(b, n)
        check_set(env, x, ts, frame, act, '%s%s: ' % (label, n))
        check_set(env, y, ts, frame + 1, act, '%snext %s: ' % (label, n))
        if len(x) == len(y):
            env.require(env.eq(x.trajid(), y.trajid()),
                        label + 'row for row ' + n)


def in_range(env, t, first, last):
    """Number of the trajectory's points in first..last (inclusive)."""
    return sum(1 for k in range(t.sxn) if bool(env.all(
        [t.sx['time'][k] >= first, t.sx['time'][k] <= last])))


class Seq(object):
    """A sequence over symbolic particles and tracers."""
    def __init__(self, env, plens, tlens, fmts, tmax=2, minlen=None, kw=None,
                 span=None, forward=True, extra=(True, True)):
        self.env = env
        self.parts = group(env, 'p', plens, PIDS, tmax, forward, extra[0])
        self.tracs = group(env, 't', tlens, TIDS, tmax, not forward, extra[1])
        pn = store(env, self.parts, 'part', fmts[0])
        tn = store(env, self.tracs, 'trac', fmts[1])
        if span is None:
            self.first = env.int('first', 0, tmax)
            self.last = env.int('last', 0, tmax + 1)
            env.assume(self.first <= self.last)
        else: self.first, self.last = span
        kw = dict(kw or {})
        if minlen is not None: kw['traj_min_len'] = minlen
        self.frate = env.real('frate')
        self.part = env.ft.particle.Particle(env.real('diam'), env.real('dens'))
        self.s = env.ft.sequence.Sequence((self.first, self.last), self.frate,
            self.part, pn, tn, **kw)
        if minlen is not None:
            self.parts = [t for t in self.parts if t.sxn >= minlen]
            self.tracs = [t for t in self.tracs if t.sxn >= minlen]
        for ts in (self.parts, self.tracs):
            env.assume(len(ts) > 0 and env.any(
                [in_range(env, t, self.first, self.last) > 0 for t in ts]))

    def frames(self, first=None, last=None):
        a = self.first if first is None else first
        b = self.last if last is None else last
        n = b - a
        return [a + k for k in range(int(n))] if bool(n > 0) else []

    def check(self, got, label, first=None, last=None, parts=None, tracs=None):
        env = self.env
        fr = self.frames(first, last)
        env.require(len(got) == len(fr), label + 'number of frames')
        for f, pair in zip(fr, got):
            check_pair(env, pair, self.parts if parts is None else parts,
                       self.tracs if tracs is None else tracs, f, label)
