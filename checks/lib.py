"""Builders shared by the checks."""
import numpy as np


def traj(env, name, n, trid, start=None, extra=True, time_type=int, holes=False):
    """A trajectory of n time points with symbolic content.
    Returns the Trajectory; its columns are under .sx (name -> array)."""
    if start is None: start = env.int(name + '_start', -5, 1000)
    if holes:
        ts = [start]
        for i in range(1, n):
            g = env.int('%s_gap%d' % (name, i), 1, 3)
            ts.append(ts[-1] + g)
    else:
        ts = [start + i for i in range(n)]
    cols = dict(pos=env.reals(name + '_p', (n, 3)),
                velocity=env.reals(name + '_v', (n, 3)))
    if extra:
        cols['accel'] = env.reals(name + '_a', (n, 3))
        cols['heat'] = env.reals(name + '_h', n)
        cols['tag'] = env.ints(name + '_g', n, -9, 9)
    time = env.array(ts, time_type)
    t = env.ft.trajectory.Trajectory(cols['pos'], cols['velocity'], time,
        trid, **{k: v for k, v in cols.items() if k not in ('pos', 'velocity')})
    cols['time'] = time
    t.sx = cols
    t.sxid = trid
    t.sxstart = start
    t.sxn = n
    return t


def trids(env, n, lo=0, hi=10 ** 6, name='id'):
    if env.rnd: return env.rnd(name).sample(range(lo, hi + 1), n)
    ids = [env.int('%s%d' % (name, i), lo, hi) for i in range(n)]
    env.distinct(ids)
    return ids


def seq_eq(env, xs, ys):
    """Same length and pairwise equal."""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys): return False
    return env.all([env.eq(x, y) for x, y in zip(xs, ys)])


# ---- particle tables (HDF5)
FIELDS = [('pos', float, (3,)), ('velocity', float, (3,)), ('heat', float, ()),
          ('tag', int, ())]


class Rows(object):
    """Symbolic rows of a particle table. Row i belongs to trajectory
    group[i]; ids[g] is the number of group g."""

    def __init__(self, env, name, n, tlo=0, thi=3, groups=None, unique=False,
                 ordered=None, fields=FIELDS, idlo=0, idhi=500):
        self.env, self.n, self.fields = env, n, fields
        if groups is None and env.rnd:
            r = env.rnd(name)
            groups = sorted(r.randrange(max(n // 3, 1)) for i in range(n))
            groups = [sorted(set(groups)).index(g) for g in groups]
            r.shuffle(groups)
            first = [groups.index(g) for g in sorted(set(groups))]
            groups = [sorted(first).index(first[g]) for g in groups]
        elif groups is None:
            g, top = [], 0
            for i in range(n):
                k = env.choose('%sgrp%d' % (name, i), top + 1) if i else 0
                g.append(k)
                top = max(top, k + 1)
            groups = g
        self.group = list(groups)
        ng = max(self.group) + 1 if n else 0
        self.ids = trids(env, ng, idlo, idhi, name + 'id')
        self.time = [env.int('%st%d' % (name, i), tlo, thi) for i in range(n)]
        if unique and env.rnd:
            span = list(range(tlo, thi + 1))
            for g in range(ng):
                ix = [i for i in range(n) if self.group[i] == g]
                ts = env.rnd('%stime%d' % (name, g)).sample(span, len(ix))
                for i, t in zip(ix, sorted(ts)): self.time[i] = t
        elif unique:
            for i in range(n):
                for j in range(i):
                    if self.group[i] == self.group[j]:
                        env.assume(self.time[i] != self.time[j])
        if ordered:
            for i in range(1, n): env.assume(self.time[i - 1] <= self.time[i])
        self.cols = {}
        for f, ty, sh in fields:
            self.cols[f] = env.ints(name + f, (n,) + sh, -9, 9) if ty is int \
                else env.reals(name + f, (n,) + sh)

    def trid(self, i): return self.ids[self.group[i]]

    def write(self, path, bounds=True, attrs=None, name='particles'):
        env, np = self.env, self.env.np
        ld = np.dtype([('trajid', int), ('time', int)] +
                      [(f, ty, sh) if sh else (f, ty)
                       for f, ty, sh in self.fields])
        a = np.zeros(self.n, dtype=ld)
        for i in range(self.n):
            a['trajid'][i] = self.trid(i)
            a['time'][i] = self.time[i]
            for f, ty, sh in self.fields: a[f][i] = self.cols[f][i]
        h = env.tables.open_file(path, mode='w')
        t = h.create_table('/', name, ld)
        t.append(a)
        for k, v in (attrs or {}).items(): setattr(t.attrs, k, v)
        if bounds:
            b = h.create_table('/', 'bounds', np.dtype(
                [('trajid', int), ('first', int), ('last', int)]))
            for g, tid in enumerate(self.ids):
                ts = [self.time[i] for i in range(self.n)
                      if self.group[i] == g]
                lo, hi = ts[0], ts[0]
                for x in ts[1:]:
                    if bool(x < lo): lo = x
                    if bool(x > hi): hi = x
                b.append([(tid, lo, hi)])
        h.flush()
        h.close()
        return path

    def data(self, i):
        return [self.cols[f][i] for f, _, _ in self.fields]

    def in_range(self, i, rng):
        """Is row i in a (first, last) range? (half-open, None: no limit)"""
        if rng is None: return True
        lo, hi = rng
        if lo is not None and not bool(self.time[i] >= lo): return False
        if hi is not None and not bool(self.time[i] < hi): return False
        return True


def frange(env, name, lo=0, hi=4, kinds=('none', 'both', 'first', 'last')):
    """A frame range argument: None, or a tuple with possible Nones."""
    k = env.pick(name + 'kind', kinds)
    if k == 'none': return None
    a = env.int(name + 'first', lo, hi) if k in ('both', 'first') else None
    b = env.int(name + 'last', lo, hi) if k in ('both', 'last') else None
    return (a, b)


def check_rows(env, got, rows, ix, label, time=True, trid=None, ids=True):
    """A particle set holds exactly rows ix of the table, in that order."""
    env.require(len(got) == len(ix), label + 'number of rows')
    want = {f for f, _, _ in rows.fields}
    have = set(got.schema())
    env.require(want <= have, label + 'all properties')
    for k, i in enumerate(ix):
        if k >= len(got): break
        for f, ty, sh in rows.fields:
            v = getattr(got, f)()
            env.require(env.eq(v[k], rows.cols[f][i]), label + f)
        if time: env.require(env.eq(got.time()[k], rows.time[i]), label + 'time')
        if ids: env.require(env.eq(got.trajid()[k], rows.trid(i)),
                            label + 'trajid')


def match_rows(env, got, rows, ix, label):
    """A snapshot holds exactly rows ix (each with its own trajectory
    number), in any order."""
    env.require(len(got) == len(ix), label + 'number of particles')
    tr = got.trajid()
    for i in ix:
        hits = [k for k in range(len(got)) if bool(env.eq(tr[k], rows.trid(i)))]
        env.require(len(hits) == 1, label + 'particle present once')
        for k in hits:
            for f, ty, sh in rows.fields:
                env.require(env.eq(getattr(got, f)()[k], rows.cols[f][i]),
                            label + f)
