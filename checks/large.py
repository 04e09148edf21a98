"""Larger scenarios: the structure (times, numbers, links, choices; and reals
named by `const`) is fixed by a seed, the other reals stay symbolic."""
import random, re
from symx.run import S


def fixed(env, inner, seed, const=None, coarse=None, zero=None, few=None,
          line=None, mobile=None, track=None, within=(), **params):
    """const, coarse, zero: names of reals that are fixed, few: names whose integers
    and choices stay open, line: names of positions, mobile:
    those of them that move along the line, track: direction in which the
    trajectories of each kind are laid out, within: (names, lowest, highest) of integers."""
    moving = {}
    rnd = lambda name: random.Random('%s/%d' % (name, seed))
    oint, ochoose, oreal = env.int, env.choose, env.real

    def int_(name, lo=None, hi=None):
        if few and re.match(few, name): return oint(name, lo, hi)
        for pat, a, b in within:
            if re.match(pat, name): return rnd(name).randint(a, b)
        l = lo if lo is not None else (0 if hi is None else min(0, hi))
        return rnd(name).randint(l, hi if hi is not None else l + 6)

    def choose(name, n):
        if few and re.match(few, name): return ochoose(name, n)
        return rnd(name).randrange(n)

    def real(name):
        if zero and re.match(zero, name): return 0.
        if const and re.match(const, name):
            return rnd(name).randint(-400, 400) / 64.
        if coarse and re.match(coarse, name):
            return rnd(name).choice((-1., 0.5, 2.))
        if track:
            # one trajectory beside the other
            m = re.match(r'([a-z])(\d+)_p_\d+_[02]$', name)
            if m and m.group(1) in track:
                return track[m.group(1)] * 64. * int(m.group(2)) + \
                    rnd(name).randint(-400, 400) / 16.
        if line and re.match(line, name):
            # positions on a line across the axes: their distances are exact
            stem, axis = name.rsplit('_', 1)
            if mobile and re.match(mobile, stem):
                if stem not in moving: moving[stem] = oreal(stem)
                return moving[stem] * (1, 2, 2)[int(axis)]
            return rnd(stem).randint(-40000, 40000) * (1, 2, 2)[int(axis)] / 4096.
        return oreal(name)

    env.int, env.choose, env.real = int_, choose, real
    env.rnd = rnd
    inner(env, **params)


def big(name, fn, seeds=(1,), text='', **params):
    return [S('big-%s-%d' % (name, s), fixed, inner=fn, seed=s,
              text='%s; fixed structure no. %d, symbolic values' % (text, s),
              **params) for s in seeds]
