"""C17: a dual scene keeps tracers and particles in step."""
from symx.run import S
from .large import big
from .lib import Rows, frange, match_rows
from .c14 import limits_of

PF = [('pos', float, (3,)), ('velocity', float, (3,)), ('heat', float, ()),
      ('tag', int, ())]
TF = [('pos', float, (3,)), ('velocity', float, (3,))]


def build(env, np_, nt, thi, unique=True, groups=None):
    """Two equally long streams: both hold the frames 0 and thi."""
    p = Rows(env, 'p', np_, thi=thi, unique=unique, fields=PF, groups=groups)
    t = Rows(env, 't', nt, thi=thi, unique=unique, fields=TF)
    return p, t, p.write(env.path('part.h5')), t.write(env.path('trac.h5'))


def frame_of(env, rows, t):
    return [i for i in range(rows.n) if bool(env.eq(rows.time[i], t))]


def seg_of(env, rows, t):
    one, two = frame_of(env, rows, t), frame_of(env, rows, t + 1)
    both = {rows.group[i] for i in one} & {rows.group[i] for i in two}
    return ([i for i in one if rows.group[i] in both],
            [i for i in two if rows.group[i] in both])


def pick_range(env, name, kinds, p, t):
    """A range; when open, both streams must end in the same frames."""
    r = frange(env, name, 0, 3, kinds=kinds)
    a, b = limits_of(env, p, r)
    c, d = limits_of(env, t, r)
    env.assume(env.eq(a, c))
    env.assume(env.eq(b, d))
    return r, a, b


def check_frames(env, got, p, t, a, b, label):
    num = b - a
    env.require(env.eq(len(got), num) if bool(num >= 0) else len(got) == 0,
                label + 'one frame for each of the range')
    for k, f in enumerate(got):
        env.require(env.eq(f.particles.time(), a + k), label + 'particles time')
        env.require(env.eq(f.tracers.time(), a + k), label + 'tracers time')
        match_rows(env, f.particles, p, frame_of(env, p, a + k),
                   label + 'particles: ')
        match_rows(env, f.tracers, t, frame_of(env, t, a + k),
                   label + 'tracers: ')


def check_segments(env, got, p, t, a, b, label):
    num = b - a - 1
    env.require(env.eq(len(got), num) if bool(num >= 0) else len(got) == 0,
                label + 'one pair for each segment of the range')
    for k, (f, g) in enumerate(got):
        for fr, off in ((f, 0), (g, 1)):
            env.require(env.eq(fr.particles.time(), a + k + off),
                        label + 'particles time')
            env.require(env.eq(fr.tracers.time(), a + k + off),
                        label + 'tracers time')
            match_rows(env, fr.particles, p, seg_of(env, p, a + k)[off],
                       label + 'particles: ')
            match_rows(env, fr.tracers, t, seg_of(env, t, a + k)[off],
                       label + 'tracers: ')


def dual(env, np_, nt, thi, own, arg, mode, stop=False):
    """own: kinds of the scene's range; arg: of the iteration's;
    stop: the iteration is left after its first item."""
    p, t, pp, tp = build(env, np_, nt, thi)
    scene = env.ft.scene
    rng, a, b = pick_range(env, 'own', own, p, t)
    part = env.ft.particle.Particle(env.real('diam'), env.real('dens'))
    frate = env.real('frate')
    d = scene.DualScene(tp, pp, frate, part, rng)
    env.require(d.get_particles_path() == pp, 'path of the particles')
    env.require(env.eq(d.frate, frate), 'frame rate')
    env.require(d.part is part, 'particle')
    env.require(d.get_range() == rng if rng is None else
                env.all([x is None if y is None else env.eq(x, y)
                         for x, y in zip(d.get_range(), rng)]), 'range')
    it, chk = ((d.iter_frames, check_frames) if mode == 'frames' else
               (d.iter_segments, check_segments))
    if arg:
        r2, a2, b2 = pick_range(env, 'sub', arg, p, t)
        if stop:
            first = []
            for f in it(r2):
                first.append(f)
                break
            if first: chk(env, first, p, t, a2, a2 + 1 + (mode != 'frames'),
                          'stopped: ')
        else: chk(env, list(it(r2) if env.flag('positional') else
                      it(frame_range=r2)), p, t, a2, b2, 'sub-range: ')
        for s in (d.get_particles(), d.get_tracers()):
            x, y = s.frame_range()
            env.require(env.all([env.eq(x, a), env.eq(y, b)]),
                        'own range restored')
        # the other kind of iteration and the columns follow the own range
        h, = d.get_particles().collect(['heat'])
        ix = [i for i in range(np_) if p.in_range(i, rng)]
        env.require(len(h) == len(ix), 'own range restored for columns')
    chk(env, list(it()), p, t, a, b, 'own range: ')


def scenarios(tier):
    out = []
    sizes = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1)]
    if tier == 'thorough': sizes += [(2, 2, 2), (3, 2, 1), (2, 3, 1)]
    for np_, nt, thi in sizes:
        for mode in ('frames', 'segments'):
            for own in (('both',), ('none',), ('first', 'last')):
                for arg in ((), ('both',), ('none', 'first')):
                    if np_ + nt > 2 and arg == ('none', 'first') and \
                            tier == 'quick': continue
                    if np_ + nt > 3 and own != ('none',) and arg: continue
                    out.append(S('dual-%d.%d-%d-%s-%s-%s' % (np_, nt, thi,
                        mode, '.'.join(own), '.'.join(arg) or 'own'), dual,
                        np_=np_, nt=nt, thi=thi, own=own, arg=arg, mode=mode,
                        text='%d particle and %d tracer rows, times 0..%d'
                        % (np_, nt, thi)))
                    if arg and np_ * nt == 1: out.append(S('stop-%s-%s-%s' % (
                        mode, '.'.join(own), '.'.join(arg)), dual, np_=np_,
                        nt=nt, thi=thi, own=own, arg=arg, mode=mode, stop=True,
                        text='stopped after its first item'))
    for mode in ('frames', 'segments'):
        for arg in ((), ('both',)):
            out += big('dual-%s-%d' % (mode, len(arg)), dual, (1, 2), '24 rows '
                       'each in 12 frames', few='kind', within=((
                       '(own|sub)first', 0, 3), ('(own|sub)last', 7, 12)),
                       np_=24, nt=24, thi=11, own=('both',), arg=arg, mode=mode)
    return out
