"""C43: calls leave their arguments alone and do not influence each other."""
import os, shutil
from symx.run import S
from .c22 import make
from .c33 import acc_file, COLS
from .frames import Frames
from .geom import distances
from .lib import Rows, traj, frange

# ---- values, kept apart from what they were taken from


def frozen(x):
    if hasattr(x, 'as_dict'):
        d = {k: frozen(v) for k, v in x.as_dict().items()}
        d['='] = frozen(x.trajid() if 'trajid' not in d else x.time())
        return d
    if hasattr(x, 'tracers') and hasattr(x, 'particles'):
        return {'t': frozen(x.tracers), 'p': frozen(x.particles)}
    if hasattr(x, 'shape') and hasattr(x, 'copy'): return x.copy()
    if isinstance(x, dict): return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [frozen(v) for v in x]
    return x


def same(env, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            set(a) == set(b) and env.all([same(env, a[k], b[k]) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and \
            len(a) == len(b) and env.all([same(env, x, y)
                                          for x, y in zip(a, b)])
    if a is None or b is None: return a is b
    return env.eq(a, b)


def clone(x, ft):
    """The same value, made of another instance of the code."""
    if hasattr(x, 'as_dict'):
        d = {k: clone(v, ft) for k, v in x.as_dict().items()}
        if 'trajid' in d: return ft.trajectory.ParticleSnapshot(
            time=clone(x.time(), ft), **d)
        return ft.trajectory.Trajectory(trajid=clone(x.trajid(), ft), **d)
    if hasattr(x, 'tracers') and hasattr(x, 'particles'):
        f = ft.trajectory.Frame()
        f.tracers, f.particles = clone(x.tracers, ft), clone(x.particles, ft)
        return f
    if hasattr(x, 'shape') and hasattr(x, 'copy'): return x.copy()
    if isinstance(x, dict): return {k: clone(v, ft) for k, v in x.items()}
    if isinstance(x, tuple): return tuple([clone(v, ft) for v in x])
    if isinstance(x, list): return [clone(v, ft) for v in x]
    return x


def history(env, f, a, b):
    """f of a, of b, and of a again."""
    other = env.fresh()
    a0, b0 = frozen(a), frozen(b)
    b1 = clone(b, other)
    r1 = f(env.ft, *a)
    c1 = frozen(r1)
    env.require(same(env, frozen(a), a0), 'arguments left alone')
    r2 = f(env.ft, *b)
    c2 = frozen(r2)
    env.require(same(env, frozen(b), b0), 'arguments left alone')
    env.require(same(env, frozen(a), a0), 'earlier arguments left alone')
    env.require(same(env, frozen(r1), c1), 'an earlier result stays')
    env.require(same(env, c2, frozen(f(other, *b1))),
                'the answer a first call would give')
    env.require(same(env, frozen(f(env.ft, *a)), c1), 'the same answer again')
    env.require(same(env, frozen(r2), c2), 'an earlier result stays')


def files(env, f, write, name, keep=False):
    """A file (or directory) is read, replaced and read."""
    path = env.path('data/' + name)
    def put(tag):
        if not keep and os.path.isdir(env.path('data')):
            shutil.rmtree(env.path('data'))
            env.path('data/' + name)
        write(path, tag)
    put('a')
    r1 = f(env.ft, path)
    c1 = frozen(r1)
    env.require(same(env, frozen(f(env.ft, path)), c1), 'the same answer again')
    put('b')
    env.require(same(env, frozen(r1), c1), 'an earlier result stays')
    c2 = frozen(f(env.ft, path))
    env.require(same(env, c2, frozen(f(env.fresh(), path))),
                'what the file holds now')
    env.require(same(env, frozen(r1), c1), 'an earlier result stays')


# ---- functions of arrays and trajectories
def trs(env, tag, lens, **kw):
    return [traj(env, '%s%d' % (tag, i), n, 3 + i, start=env.int('%s%ds' % (
        tag, i), 0, 2), **kw) for i, n in enumerate(lens)]


def particles(env, what, lens):
    if what == 'unique':
        f = lambda ft, r: ft.trajectory.mark_unique_rows(r)
        g = lambda t: (env.reals(t, (lens, 4)),)
    elif what == 'active':
        f = lambda ft, ts, fr, sg: ft.trajectory.trajectories_in_frame(ts, fr,
            segs=sg)
        g = lambda t: (trs(env, t, lens, extra=False), env.int(t + 'f', 0, 3),
                       True)
    elif what == 'active-given':
        np = env.np
        f = lambda ft, ts, fr, s, e: ft.trajectory.trajectories_in_frame(ts,
            fr, s, e)
        def g(t):
            x = trs(env, t, lens, extra=False)
            return (x, env.int(t + 'f', 0, 3),
                    np.array([v.sx['time'][0] for v in x]),
                    np.array([v.sx['time'][-1] for v in x]))
    elif what == 'snapshot':
        f = lambda ft, ts, fr, s: ft.trajectory.take_snapshot(ts, fr, s)
        def g(t):
            st = env.int(t + 's', 0, 2)
            x = [traj(env, '%s%d' % (t, i), n, 3 + i, start=st)
                 for i, n in enumerate(lens)]
            fr = st + env.choose(t + 'k', min(lens))
            return x, fr, x[0].schema()
    elif what in ('collect', 'collect-seg'):
        f = lambda ft, ts, fr: ft.io.collect_particles_generic(ts, fr,
            what == 'collect-seg')
        g = lambda t: (trs(env, t, lens, extra=False), env.int(t + 'f', 0, 3))
    elif what == 'table':
        f = lambda ft, t: [t[:], t[0], t.schema(), t.as_dict(), len(t)]
        g = lambda t: (trs(env, t, lens)[0],)
    elif what == 'pairs':
        np = env.np
        f = lambda ft, p, s, i, k: ft.pairs.particle_pairs(p, s, i, k)
        def g(t):
            p = [traj(env, t + 'p', 2, 3, start=1, extra=False)]
            s = [traj(env, '%ss%d' % (t, i), n, 5 + i, start=env.int('%ss%ds' %
                 (t, i), 0, 1), extra=False) for i, n in enumerate(lens)]
            return p, s, np.array([3]), np.array([env.choose(t + 'k', 2)])
    elif what == 'companions':
        f = lambda ft, t, c: ft.analysis.companion_indices(t, c)
        def g(t):
            i = env.ints(t + 'i', lens, 0, 9)
            env.distinct(i)
            return i, env.ints(t + 'c', lens, -1, 9)
    elif what == 'smooth':
        f = lambda ft, ts, fps: ft.smoothing.savitzky_golay(ts, fps, 3, 1)
        env.lazy_abs()
        def g(t):
            r = env.real(t + 'r')
            env.assume(r > 0)
            return trs(env, t, lens), r
    elif what == 'particle':
        f = lambda ft, d, r: (lambda p: [p.volume(), p.mass(), p.diam,
            p.density])(ft.particle.Particle(d, r))
        g = lambda t: (env.real(t + 'd'), env.real(t + 'r'))
    elif what == 'density':
        f = lambda ft, x: ft.graphics.pdf_bins(x, 2)
        def g(t):
            x = env.reals(t + 'x', lens)
            env.assume(x[0] + 1e-6 < x[1])
            for v in x:
                env.assume(v <= 1e6)
                env.assume(-1e6 <= v)
            return (x,)
    elif what == 'query':
        f = lambda ft, k, lo, hi, inv: ft.scene.gen_query_string(k,
            (lo, hi, inv))
        g = lambda t: (env.pick(t, ('heat', 'sc')), 1.5, 2.5,
                       env.flag(t + 'i'))
    history(env, f, g('a'), g('b'))


KERNELS = ('rbf-kernel', 'corrfun-kernel')


def field(env, what, n, m, num, comp, par):
    """Interpolation of one scene, then another."""
    env.opaque_roots()
    np = env.np
    def g(t):
        x, p, u = env.reals(t + 't', (n, 3)), env.reals(t + 'x', (m, 3)), \
            env.reals(t + 'u', (n, 1))
        c = None
        if comp: c = np.array([env.choose('%sc%d' % (t, i), 2) - 1
                               for i in range(m)])
        for row in distances(env, p, x):
            for v in row: env.assume(v > 0)
        return x, p, u, c
    if what == 'select':
        f = lambda ft, x, p, u, c: ft.interpolation.select_neighbs(x, p, None,
            num, c)
    elif what == 'select-radius':
        r = env.real('r')
        env.assume(r > 0)
        f = lambda ft, x, p, u, c: ft.interpolation.select_neighbs(x, p, r,
            None, c)
    elif what in KERNELS:
        used = np.array([[True] * n] * m)
        h = {k: env.reals(k + 'h', 2) for k in 'ab'}
        for k in 'ab':
            for v in h[k]: env.assume(v > 0)
        bins = {k: env.np.array([0., 0.25]) for k in 'ab'}
        def f(ft, d, t, used, u, h, b):
            ip = ft.interpolation
            if what == 'rbf-kernel':
                return ip.rbf_interp(t, d, used, u, 0.5)
            return ip.corrfun_interp(d, used, u, h, b)
        def g(k):
            d, t = env.reals(k + 'd', (m, n)), env.reals(k + 't', (n, n))
            for i in range(m):
                for j in range(n): env.assume(d[i][j] > 0)
            for i in range(n):
                for j in range(n): env.assume(env.eq(t[i][j], t[j][i])
                                              if i != j else env.eq(t[i][i], 0))
            return d, t, used.copy(), env.reals(k + 'u', (n, 2)), h[k], bins[k]
    elif what == 'dists':
        f = lambda ft, x, p, u, c: ft.interpolation.interpolant('inv', num
            ).neighb_dists(x, p, c)
    else:
        its = []
        def f(ft, x, p, u, c):
            # one interpolant for all calls of an instance of the code
            for o, it in its:
                if o is ft: return it(x, p, u, c)
            mine, env.ft = env.ft, ft
            its.append((ft, make(env, what, num, None, par, 2)))
            env.ft = mine
            return its[-1][1](x, p, u, c)
    history(env, f, g('a'), g('b'))


def velocities(env, n, m, comp):
    """An analyser used for two frames."""
    env.opaque_roots()
    np = env.np
    def snap(t, k, ids, extra):
        c = {'companion': np.array([env.choose('%sc%d' % (t, i), 2) * 4 - 1
            for i in range(k)])} if extra and comp else {}
        return env.ft.trajectory.ParticleSnapshot(env.reals(t + 'p', (k, 3)),
            env.reals(t + 'v', (k, 3)), env.int(t + 't', 0, 9),
            np.array(ids[:k]), **c)
    def g(t):
        fr = []
        for q in ('0', '1'):
            f = env.ft.trajectory.Frame()
            f.tracers = snap(t + 't' + q, n, [3, 8, 5], False)
            f.particles = snap(t + 'p' + q, m, [1, 2], True)
            fr.append(f)
        for row in distances(env, fr[0].particles.pos(), fr[0].tracers.pos()):
            for v in row: env.assume(v > 0)
        return fr
    ans = []
    def f(ft, a, b):
        if ft not in [o for o, _ in ans]:
            ans.append((ft, ft.analysis.FluidVelocitiesAnalyser(
                ft.interpolation.interpolant('inv', 1, param=2))))
        an, = [v for o, v in ans if o is ft]
        return [an.analyse(a, b), [list(d[::2]) for d in an.descr()]]
    history(env, f, tuple(g('a')), tuple(g('b')))


# ---- writers
def written(env, what, lens):
    """What is written is what is given, whatever was written before."""
    def g(t):
        if what == 'frames':
            st = env.int(t + 's', 0, 2)
            return ([env.ft.trajectory.ParticleSnapshot(
                env.reals('%sp%d' % (t, k), (n, 3)),
                env.reals('%sv%d' % (t, k), (n, 3)), st + k,
                env.np.arange(n) + 1) for k, n in enumerate(lens)],)
        x = trs(env, t, lens)
        if what == 'npz':
            return x, {'add': {v.trajid(): env.reals('%sq%d' % (t, i), 2)
                               for i, v in enumerate(x)}}
        if what == 'trim': return x, 1
        return (x,)
    def f(ft, *args):
        # always to the same place, as it was before
        p = env.path('out/file.h5')
        d = os.path.dirname(p)
        shutil.rmtree(d)
        os.mkdir(d)
        if what == 'npz':
            ft.io.save_trajectories(d, *args)
            return ft.io.load_trajectories(d)
        if what == 'frames': ft.io.save_frames_hdf(p, *args)
        else: ft.io.save_particles_table(p, *args)
        s = ft.scene.Scene(p)
        r = [frozen(list(s.iter_trajectories())), frozen(s.trajectory_tags()),
             frozen(s.bounding_box())]
        del s
        return r
    history(env, f, g('a'), g('b'))


# ---- readers
def reader(env, what, api):
    io = lambda ft: ft.io
    if what in ('ptvis', 'xuap', 'single'):
        xuap = what == 'xuap'
        def write(path, t):
            fr = Frames(env, (1, 1), 0 if what == 'single' else 4, xuap,
                        name=t)
            d = os.path.relpath(os.path.dirname(path), env.scratch)
            if what == 'single': fr.write_single(os.path.join(d, 'all.txt'))
            else: fr.write_dir(os.path.join(d, 'xuap.%d' if xuap else
                                            'ptv_is.%d'))
        name = 'all.txt' if what == 'single' else 'xuap.%d' if xuap else \
            'ptv_is.%d'
        if api == 'iter':
            f = lambda ft, p: list(ft.io.iter_trajectories_ptvis(p, xuap=xuap,
                traj_min_len=1))
        else: f = lambda ft, p: list(ft.io.trajectories(p, None, None, 2.,
            None, 1, api == 'common-iter'))
    elif what == 'acc':
        def write(path, t):
            d = os.path.relpath(path, env.scratch)
            for k in (3, 4): acc_file(env, '%s%d' % (t, k), d, k,
                                      1 if api == 'collect' else 2)
        name = 'trajAcc.%d'
        if api == 'collect':
            f = lambda ft, p: ft.io.collect_particles(p, 4)
        elif api == 'collect-seg':
            f = lambda ft, p: ft.io.collect_particles(p, 4, True)
        else: f = lambda ft, p: list(ft.io.trajectories(p, None, None, 1.,
            None, 1, api == 'common-iter'))
    elif what == 'mat':
        def write(path, t):
            recs = []
            for i in range(2):
                x = [[env.real('%s%d_%d_%d' % (t, i, k, c)) for c in range(9)]
                     for k in range(2)]
                rec = {f: env.array([r[c] for r in x], float).reshape(2, 1)
                       for c, f in enumerate(COLS)}
                rec['t'] = env.array([3 + i, 4 + i], int).reshape(2, 1)
                rec['trajid'] = env.array([env.int('%sid%d' % (t, i), 0, 9)],
                                          int).reshape(1, 1)
                recs.append(rec)
            env.save_mat(path, 'traj', recs)
        name = 'traj.mat'
        if api == 'collect':
            f = lambda ft, p: ft.io.collect_particles_mat(p, 4)
        else: f = lambda ft, p: list(ft.io.trajectories(p, None, None, 1.,
            None, 1))
    elif what == 'npz':
        def write(path, t):
            for k, n in ((11, 1), (2, 2)):
                env.savez(os.path.join(path, 'traj_%d.npz' % k), **{
                    'traj:pos': env.reals('%sp%d' % (t, k), (n, 3)),
                    'traj:velocity': env.reals('%sv%d' % (t, k), (n, 3)),
                    'traj:time': env.ints('%st%d' % (t, k), n, 0, 4),
                    'add': env.reals('%sa%d' % (t, k), 2)})
        name = 'x'
        if api == 'npz':
            f = lambda ft, p: ft.io.load_trajectories(os.path.dirname(p))
        else: f = lambda ft, p: list(ft.io.trajectories(os.path.dirname(p) +
            '/', None, None, 1., None, 1))
        inner = write
        write = lambda path, t: inner(os.path.dirname(path), t)
    elif what == 'hdf':
        def write(path, t):
            Rows(env, t, 2, groups=[0, 1] if t == 'a' else [0, 0]).write(path)
        name = 'p.h5'
        if api == 'table': f = lambda ft, p: ft.io.trajectories_table(p)
        elif api == 'scene':
            def f(ft, p):
                s = ft.scene.Scene(p)
                r = [frozen(list(s.iter_frames())), frozen(s.frame_range()),
                     frozen(s.collect(['heat', 'time'])),
                     frozen(s.trajectory_ids()), list(s.keys())]
                del s
                return r
        else: f = lambda ft, p: list(ft.io.trajectories(p, None, None, 1.,
            None, 1, api == 'common-iter'))
    elif what == 'interp':
        def write(path, t):
            m = env.pick(t, ('inv', 'rbf'))
            l = ['[Interpolant]', 'method = ' + m]
            if env.flag(t + 'n'): l.append('num_neighbs = %d' % (2 + (t == 'a')))
            if env.flag(t + 'r'): l.append('radius = ' + env.fmt(env.real(t +
                                                                 'rad')))
            if env.flag(t + 'p'): l.append('param = ' + env.fmt(env.real(t +
                                                                'par')))
            with open(path, 'w') as o: o.write('\n'.join(l) + '\n')
        name = 'i.cfg'
        def f(ft, p):
            i = ft.interpolation.read_interpolant(p)
            c = env.configparser()
            i.save_config(c)
            return [i.num_neighbs(), i.radius(), c.get('Interpolant', 'method'),
                    c.get('Interpolant', 'param')]
    elif what == 'sequence':
        def write(path, t):
            l = ['[Particle]', 'diameter = ' + env.fmt(env.real(t + 'd')),
                 'density = ' + env.fmt(env.real(t + 'r')), '[Scene]',
                 'frame rate = ' + env.fmt(env.real(t + 'f')),
                 'tracers file = %s.h5' % t, 'particles file = p%s/' % t,
                 'first frame = %d' % env.choose(t + 'a', 2),
                 'last frame = 5']
            if env.flag(t + 's'): l.append('apply smoothing = yes')
            if env.flag(t + 'm'): l.append('trajectory minimal length = 3')
            with open(path, 'w') as o: o.write('\n'.join(l) + '\n')
        name = 's.cfg'
        def f(ft, p):
            s = ft.sequence.read_sequence(p)
            c = env.configparser()
            s.save_config(c)
            return [s.range(), s.part.diam, s.part.density, s.frate,
                    s.part_fname(), s.part_format()] + \
                [c.get('Scene', k) for k in ('apply smoothing',
                 'trajectory minimal length', 'tracers file')]
    files(env, f, write, name)


# ---- scenes: what was asked before makes no difference
def ops(env, s, op, sel):
    """One use of a scene."""
    if op == 'frames': return frozen(list(s.iter_frames()))
    if op == 'segments': return frozen(list(s.iter_segments()))
    if op == 'trajectories': return frozen(list(s.iter_trajectories()))
    if op == 'by id': return frozen(s.trajectory_by_id(s.trajectory_ids()[0]))
    if op == 'by time': return frozen(s.frame_by_time(1))
    if op == 'collect': return frozen(s.collect(['heat', 'time']))
    if op == 'where':
        return frozen(s.collect(['tag', 'pos'], {'heat': sel}))
    if op == 'box': return frozen(s.bounding_box())
    if op == 'about': return frozen([list(s.keys()), list(s.shapes()),
        s.trajectory_ids(), s.trajectory_tags(), s.frame_range()])
    if op == 'both':
        # two iterations at a time
        out = []
        for a, b in zip(s.iter_frames(), s.iter_segments()):
            out.append(frozen([a, b[0], b[1], s.collect(['heat'])]))
        return out


USES = ('frames', 'segments', 'trajectories', 'by id', 'by time', 'collect',
        'where', 'box', 'about')
FEW = ('frames', 'by id', 'collect', 'where', 'about')


def scene(env, first, then, groups, uses=USES):
    """A scene that was used, and one that was not."""
    rows = Rows(env, 'r', len(groups), thi=1, groups=groups, unique=True)
    path = rows.write(env.path('p.h5'))
    s, o = env.ft.scene.Scene(path), env.fresh().scene.Scene(path)
    use = env.pick('use', uses)
    sel = [(env.real(t + 'lo'), env.real(t + 'hi'), env.flag(t + 'inv'))
           if op == 'where' else None
           for t, op in zip('abc', (first, then, use))]
    # the range both have in the end
    r = None
    for k, op in enumerate((first, then)):
        if op == 'range':
            r = frange(env, 'rng%d' % k, 0, 2, ('none', 'both') if first ==
                       then else ('both',))
            s.set_frame_range(r)
        elif op == 'box' and nothing(env, s): pass
        else: ops(env, s, op, sel[k])
    if r is not None: o.set_frame_range(r)
    if use == 'box' and nothing(env, s): return
    env.require(same(env, ops(env, s, use, sel[2]), ops(env, o, use, sel[2])),
                'as the first use of a scene')


def nothing(env, s):
    """(the bounding box of no particles is an error)"""
    return len(s.collect(['time'])[0]) == 0


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    def add(f, name, text, **kw):
        out.append(S(name, f, text=text, **kw))
    for what, lens in (('unique', 2), ('active', (2, 2)), ('active-given',
            (2, 1)), ('snapshot', (2, 2)), ('collect', (2, 1)), ('collect-seg',
            (2, 1)), ('table', (2,)), ('pairs', (2,)), ('companions', 2),
            ('smooth', (3,)), ('particle', 0), ('density', 2), ('query', 0)) + (
            (('unique', 3), ('active', (2, 2, 1)), ('snapshot', (3, 2, 2)),
             ('collect-seg', (3, 2)), ('companions', 3), ('smooth', (4, 2)),
             ('pairs', (2, 1))) if th else ()):
        add(particles, '%s-%s' % (what, lens), 'any content, twice',
            what=what, lens=lens)
    for what, n, m, num in (('inv', 2, 1, 1), ('inv', 2, 1, 2), ('rbf', 2, 1, 1),
            ('corrfun', 2, 1, 1), ('select', 2, 1, 1), ('select', 2, 2, 1),
            ('select-radius', 2, 1, 1), ('dists', 2, 1, 1), ('rbf-kernel', 1, 1, 1), ('corrfun-kernel', 1, 1, 1)) + (
            (('inv', 3, 1, 2), ('inv', 2, 2, 2), ('select', 3, 2, 2),
             ('select-radius', 2, 2, 1)) if th else ()):
        for comp in (False, True)[:1 if what in KERNELS else 2]:
            add(field, '%s-%d.%d-%d%s' % (what, n, m, num, '-comp' if comp
                else ''), '%d tracers, %d points anywhere, twice' % (n, m),
                what=what, n=n, m=m, num=num, comp=comp,
                par=None if what == 'rbf' else 2)
    for n, m in ((1, 1), (2, 1)) + (((2, 2),) if th else ()):
        for comp in (False, True)[:n]:
            add(velocities, 'velocities-%d.%d%s' % (n, m, '-comp' if comp else
                ''), '%d tracers, %d particles, twice' % (n, m), n=n, m=m,
                comp=comp)
    for what, lens in (('table', (2, 1)), ('trim', (3, 2)), ('frames', (1, 1)),
            ('npz', (2, 1))) + ((('table', (3, 2)), ('frames', (2, 1)))
                                if th else ()):
        add(written, 'written-%s-%s' % (what, lens), 'any content, twice',
            what=what, lens=lens)
    for what, apis in (('ptvis', ('iter', 'common', 'common-iter')), ('xuap',
            ('iter', 'common')), ('single', ('iter',)), ('acc', ('collect',
            'collect-seg', 'common', 'common-iter')), ('mat', ('collect',
            'common')), ('npz', ('npz', 'common')), ('hdf', ('table', 'scene',
            'common', 'common-iter')), ('interp', ('',)), ('sequence', ('',))):
        for api in apis:
            add(reader, 'file-%s-%s' % (what, api), 'two contents of a file',
                what=what, api=api)
    for first in USES + ('range', 'both'):
        for then in ('range',) if not th else USES + ('range', 'both'):
            add(scene, 'scene-%s-%s' % (first.replace(' ', '-'),
                then.replace(' ', '-')), '2 particles', first=first, then=then,
                groups=(0, 1), uses=USES if th else FEW)
    for first, then in (('frames', 'trajectories'), ('by time', 'collect'),
                        ('by id', 'segments'), ('where', 'where'),
                        ('both', 'about')):
        add(scene, 'scene-same-%s-%s' % (first.replace(' ', '-'), then.replace(
            ' ', '-')), '2 particles', first=first, then=then, groups=(0, 0), uses=USES if th else FEW)
    return out
