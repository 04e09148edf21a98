"""Linked frame files (ptv_is and xuap), for C06-C09."""
import itertools


def maps(n, m):
    """All partial injective maps from n particles to m (as tuples)."""
    out = []
    for c in itertools.product(range(-1, m), repeat=n):
        used = [x for x in c if x >= 0]
        if len(used) == len(set(used)): out.append(c)
    return out


class Frames(object):
    """Symbolic content of consecutive linked frames."""

    def __init__(self, env, counts, first=0, xuap=False, name='f'):
        self.env, self.counts, self.first, self.xuap = env, counts, first, xuap
        self.pos = [env.reals('%sp%d' % (name, f), (n, 3)) if n else []
                    for f, n in enumerate(counts)]
        self.vel = [env.reals('%sv%d' % (name, f), (n, 3)) if n and xuap else []
                    for f, n in enumerate(counts)]
        self.next = []
        for f in range(len(counts) - 1):
            if env.rnd:
                r = env.rnd('%slink%d' % (name, f))
                to = list(range(counts[f + 1])) + [-1] * (counts[f] + 2)
                r.shuffle(to)
                # (most go on)
                m = [to[i] for i in range(counts[f])]
                free = [x for x in to[counts[f]:] if x >= 0]
                self.next.append(tuple(free.pop() if x < 0 and free and
                                       r.random() < .7 else x for x in m))
                continue
            self.next.append(env.pick('%slink%d' % (name, f),
                                      maps(counts[f], counts[f + 1])))
        # particles of the last frame may go on beyond it
        self.beyond = env.flag(name + 'beyond') if counts[-1] else False
        self.next.append(tuple([-1] * counts[-1]))
        self.prev = [tuple([-1] * counts[0])]
        for f in range(1, len(counts)):
            p = [-1] * counts[f]
            for a, b in enumerate(self.next[f - 1]):
                if b >= 0: p[b] = a
            self.prev.append(tuple(p))

    def alive(self, f, i):
        """Does particle i of the last frame go on?"""
        return self.beyond and f == len(self.counts) - 1 and i == 0

    def lines(self, f):
        env, out = self.env, []
        for i in range(self.counts[f]):
            nx, pv = self.next[f][i], self.prev[f][i]
            if self.alive(f, i): nx = 0
            if self.xuap:
                w = ['%.1f' % (pv + 1), '%.1f' % (nx + 1 if nx >= 0 else -1)]
                w += [env.fmt(x) for x in self.pos[f][i]]
                w += ['0.5', '0.25', '0.125']
                w += [env.fmt(x) for x in self.vel[f][i]]
                w += ['1.5', '2.5', '3.5', '1.0']
            else:
                w = ['%d' % pv, '%d' % (nx if nx >= 0 else -2)]
                w += [env.fmt(x) for x in self.pos[f][i]]
            out.append(' '.join(w))
        return out

    def write_dir(self, tmpl, extra=()):
        for f in range(len(self.counts)):
            l = self.lines(f)
            if not self.xuap: l = ['%d' % len(l)] + l
            self.env.write(tmpl % (self.first + f), '\n'.join(l) + '\n')

    def write_single(self, name):
        self.env.write(name, '\n\n'.join('\n'.join(self.lines(f))
            for f in range(len(self.counts))) + '\n')

    def chains(self, lo=0, hi=None):
        """Chains of the frames lo..hi that end within them: lists of
        (frame, particle)."""
        if hi is None: hi = len(self.counts) - 1
        out = []
        for f in range(lo, hi + 1):
            for i in range(self.counts[f]):
                if f > lo and self.prev[f][i] >= 0: continue
                ch, g, j = [(f, i)], f, i
                while self.next[g][j] >= 0 and g < hi:
                    j = self.next[g][j]
                    g += 1
                    ch.append((g, j))
                if self.next[g][j] >= 0 or self.alive(g, j): continue
                out.append(ch)
        return out


def expect(env, fr, trajs, chains, frate=None, scale=1000.):
    """The trajectories are exactly the chains."""
    env.require(len(trajs) == len(chains), 'one trajectory for each chain')
    ids = [t.trajid() for t in trajs]
    env.require(len(set(int(i) for i in ids)) == len(ids), 'distinct numbers')
    def same(t, ch):
        if len(t) != len(ch): return False
        c = []
        for k, (f, i) in enumerate(ch):
            c.append(env.eq(t.pos()[k], [x / scale for x in fr.pos[f][i]]))
            c.append(env.eq(t.time()[k], fr.first + f))
            if fr.xuap:
                c.append(env.eq(t.velocity()[k], fr.vel[f][i]))
        return env.all(c)
    for ch in chains:
        env.require(env.any([same(t, ch) for t in trajs]),
                    'every chain becomes a trajectory')
    for t in trajs:
        env.require(env.any([same(t, ch) for ch in chains]),
                    'every trajectory is a chain')
        env.require(tuple(t.pos().shape) == (len(t), 3) and
                    tuple(t.velocity().shape) == (len(t), 3) and
                    tuple(t.accel().shape) == (len(t), 3) and
                    tuple(t.time().shape) == (len(t),), 'shapes')
