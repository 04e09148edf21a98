"""C28: sequence and dual-scene settings survive a configuration round trip."""
from symx.run import S
from .lib import Rows

NAMES = ('parts_%d', 'xuap.%07d', 'part.h5', 'out/%3d/', '100%.h5', 'a=b#1.mat')
TRNAMES = ('tracers%05d', 'ptv_is.%d', 'tr%%.hdf', 'A;b: c.h5')
BOOLS = dict(yes=True, no=False, true=True, false=False, on=True, off=False)
BOOLS['1'], BOOLS['0'] = True, False


def settings(env, name=''):
    """The settings of a sequence."""
    d = dict(first=env.int(name + 'first', 0, 10 ** 6),
             last=env.int(name + 'last', 0, 10 ** 6),
             frate=env.real(name + 'frate'), diam=env.real(name + 'diam'),
             dens=env.real(name + 'dens'), minlen=env.int(name + 'minlen', 0, 99))
    env.assume(d['first'] <= d['last'])
    env.assume(d['frate'] > 0)
    return d


def make(env, d, part, trac, kw):
    return env.ft.sequence.Sequence((d['first'], d['last']), d['frate'],
        env.ft.particle.Particle(d['diam'], d['dens']), part, trac, **kw)


def same(env, seq, d, part, trac, smooth, minlen, label):
    r = seq.range()
    env.require(len(r) == 2, label + 'range')
    env.require(env.eq(r[0], d['first']), label + 'first frame')
    env.require(env.eq(r[1], d['last']), label + 'last frame')
    env.require(env.eq(seq.frate, d['frate']), label + 'frame rate')
    env.require(env.eq(seq.part.diam, d['diam']), label + 'diameter')
    env.require(env.eq(seq.part.density, d['dens']), label + 'density')
    env.require(seq.part_fname() == part, label + 'particles file')
    env.require(seq.part_format() == env.ft.io.infer_format(part),
                label + 'particles format')
    # the rest shows in what it saves itself
    cfg = env.configparser()
    seq.save_config(cfg)
    env.require(cfg.get('Scene', 'tracers file') == trac,
                label + 'tracers file')
    env.require(cfg.get('Scene', 'particles file') == part,
                label + 'particles file saved')
    env.require(cfg.getboolean('Scene', 'apply smoothing') == smooth,
                label + 'smoothing')
    env.require(env.eq(cfg.getfloat('Scene', 'trajectory minimal length'),
                       minlen), label + 'minimum length')


def overrides(env):
    """Arguments of read_sequence: each given or not."""
    kw = {}
    k = env.pick('over_smooth', ('not given', None, True, False))
    if k != 'not given': kw['smooth'] = k
    k = env.pick('over_minlen', ('not given', None, 'value', 'zero'))
    if k == 'value': kw['traj_min_len'] = env.int('over_len', 0, 99)
    elif k == 'zero': kw['traj_min_len'] = 0
    elif k is None: kw['traj_min_len'] = None
    return kw


def pick(*xs):
    for x in xs:
        if x is not None: return x


def dump(env, cfg):
    p = env.path('out.cfg')
    with open(p, 'w') as f: cfg.write(f)
    return p


def trip(env, part, trac, used, dictated=False):
    """Save, write, read back."""
    d = settings(env)
    kw = {}
    smooth, minlen = False, 0
    if env.flag('give_smooth'): kw['smooth_tracers'] = smooth = env.flag('smooth')
    if env.flag('give_minlen'): kw['traj_min_len'] = minlen = d['minlen']
    seq = make(env, d, part, trac, kw)
    cfg = env.configparser()
    if used:
        # what the configuration held before
        make(env, settings(env, 'old'), 'old%d', 'oldtr%d', dict(
            smooth_tracers=env.flag('oldsmooth'), traj_min_len=7)
            ).save_config(cfg)
        cfg.set('Scene', 'other', 'kept')
        cfg.add_section('Interpolant')
        cfg.set('Interpolant', 'method', 'inv')
    seq.save_config(cfg)
    if used:
        env.require(cfg.get('Scene', 'other') == 'kept' and
            cfg.get('Interpolant', 'method') == 'inv',
            'the rest of the configuration')
    p = dump(env, cfg)
    ov = overrides(env) if dictated else {}
    got = env.ft.sequence.read_sequence(p, **ov)
    same(env, got, d, part, trac, pick(ov.get('smooth'), smooth),
         pick(ov.get('traj_min_len'), minlen), 'read back: ')
    same(env, seq, d, part, trac, smooth, minlen, 'the saved one: ')
    # and once more, from what was read
    if not used and not dictated:
        cfg = env.configparser()
        got.save_config(cfg)
        same(env, env.ft.sequence.read_sequence(dump(env, cfg)), d, part, trac,
             smooth, minlen, 'second trip: ')


def given(env, part, trac, smooth, minlen):
    """A file with or without the optional settings."""
    d = settings(env)
    lines = ['[Particle]', 'diameter = ' + env.fmt(d['diam']),
             'density: ' + env.fmt(d['dens']), '', '# shot in June', '[Scene]',
             'frame rate = ' + env.fmt(d['frate']),
             'particles file = ' + part.replace('%', '%%'),
             'tracers file = ' + trac.replace('%', '%%'),
             'first frame = ' + env.fmt(d['first']),
             'last frame = ' + env.fmt(d['last'] - 1)]
    s, m = None, None
    if smooth:
        k = env.pick('smooth', sorted(BOOLS))
        s = BOOLS[k]
        lines.append('apply smoothing = ' + k)
    if minlen:
        m = d['minlen']
        lines.append('trajectory minimal length = ' + env.fmt(m))
    p = env.write('in.cfg', '\n'.join(lines) + '\n')
    ov = overrides(env)
    same(env, env.ft.sequence.read_sequence(p, **ov), d, part, trac,
         pick(ov.get('smooth'), s, False), pick(ov.get('traj_min_len'), m, 0),
         'file: ')


PF = [('pos', float, (3,)), ('velocity', float, (3,))]


def dual(env, part, trac, from_seq):
    """The same configuration as a dual scene."""
    d = settings(env)
    p = Rows(env, 'p', 1, fields=PF)
    t = Rows(env, 't', 1, fields=PF)
    p.write(env.path(part))
    t.write(env.path(trac))
    pp, tp = env.path(part), env.path(trac)
    if from_seq:
        cfg = env.configparser()
        make(env, d, pp, tp, {}).save_config(cfg)
        cf = dump(env, cfg)
    else:
        cf = env.write('in.cfg', '\n'.join([
            '[Scene]', 'last frame = ' + env.fmt(d['last'] - 1),
            'first frame = ' + env.fmt(d['first']),
            'tracers file = ' + tp.replace('%', '%%'),
            'particles file = ' + pp.replace('%', '%%'),
            'frame rate = ' + env.fmt(d['frate']), '[Particle]',
            'density = ' + env.fmt(d['dens']),
            'diameter = ' + env.fmt(d['diam'])]) + '\n')
    s = env.ft.scene.read_dual_scene(cf)
    r = s.get_range()
    env.require(env.eq(r[0], d['first']), 'first frame')
    env.require(env.eq(r[1], d['last']), 'last frame')
    env.require(env.eq(s.frate, d['frate']), 'frame rate')
    env.require(env.eq(s.part.diam, d['diam']), 'diameter')
    env.require(env.eq(s.part.density, d['dens']), 'density')
    env.require(s.get_particles_path() == pp, 'particles file')
    # which file is which: compare the row read for its frame
    a = s.get_particles()
    b = s.get_tracers()
    for sc, rows, label in ((a, p, 'particles'), (b, t, 'tracers')):
        q = list(sc.trajectory_ids())
        env.require(len(q) == 1 and env.eq(q[0], rows.ids[0]),
                    label + ' of their file')
    d2 = env.ft.sequence.read_sequence(cf)
    env.require(env.eq(d2.range()[0], r[0]) and env.eq(d2.range()[1], r[1]),
                'same range as a sequence')


def scenarios(tier):
    out = []
    for i, p in enumerate(NAMES):
        tr = TRNAMES[i % len(TRNAMES)]
        out.append(S('trip-%s' % p.replace('/', '_'), trip, part=p, trac=tr,
                     used=False, text='any values, settings given or not'))
        if i % 2 == 0 or tier == 'thorough':
            out.append(S('trip-used-%s' % p.replace('/', '_'), trip, part=p,
                trac=tr, used=True, text='into a configuration in use'))
            out.append(S('trip-over-%s' % p.replace('/', '_'), trip, part=p,
                trac=tr, used=False, dictated=True, text='explicit arguments'))
    for s in (True, False):
        for m in (True, False):
            out.append(S('file%s%s' % ('-smooth' if s else '', '-minlen' if m
                else ''), given, part=NAMES[1 if s else 3],
                trac=TRNAMES[1 if m else 3], smooth=s, minlen=m,
                text='any values and overrides'))
    for seq in (True, False):
        out.append(S('dual-%s' % ('saved' if seq else 'file'), dual,
            part='par%ts.h5', trac='tr.h5', from_seq=seq, text='any values'))
    return out
