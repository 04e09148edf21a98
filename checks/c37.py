"""C37: the format is inferred from the name, in the documented order, and the
common reader reads the file as that format unless told otherwise."""
from symx.run import S
from .c33 import acc_file, check_traj, COLS
from .frames import Frames, expect
from .lib import Rows, check_rows


def ends(env, cs, s):
    if len(cs) < len(s): return False
    return env.all([env.eq(c, ord(x)) for c, x in zip(cs[-len(s):], s)])


def has(env, cs, s):
    return env.any([ends(env, cs[:k], s) for k in range(len(s), len(cs) + 1)])


def expected(env, cs):
    """When each format is the right one."""
    rules = [('mat', ends(env, cs, 'mat')), ('npz', ends(env, cs, '/')),
             ('ptvis', env.any([has(env, cs, 'ptv_is'), ends(env, cs, '.txt')])),
             ('xuap', has(env, cs, 'xuap')),
             ('hdf', env.any([ends(env, cs, 'h5'), ends(env, cs, 'hdf')]))]
    out, earlier = {}, []
    for f, c in rules:
        out[f] = env.all([c] + [env.neg(e) for e in earlier])
        earlier.append(c)
    out['acc'] = env.all([env.neg(e) for e in earlier])
    return out


def name(env, pattern):
    """Symbolic characters for each '*' in a pattern."""
    cs = []
    for k, ch in enumerate(pattern):
        cs.append(env.int('c%d' % k, 1, 127) if ch == '*' else ord(ch))
    return cs, env.string(cs)


def rules(env, pattern, sequence=False):
    cs, s = name(env, pattern)
    if sequence:
        p = env.ft.particle.Particle(1., 1.)
        got = env.ft.sequence.Sequence((1, 5), 10., p, s, 'res/').part_format()
        other = env.ft.sequence.Sequence((1, 5), 10., p, 'ptv_is.%d', s)
        env.require(other.part_format() == 'ptvis', "not the tracers' format")
    else:
        got = env.ft.io.infer_format(s)
    want = expected(env, cs)
    env.require(got in want, 'one of the six formats')
    if got in want: env.require(want[got], 'the documented format')
    if not sequence:
        env.require(env.ft.io.infer_format(s) == got, 'the same again')


# ---- reading
def mat_data(env, nm):
    recs, want = [], []
    for i, n in enumerate((2, 1)):
        x = [[env.real('m%d_%d_%d' % (i, k, c)) for c in range(9)]
             for k in range(n)]
        rec = {f: env.array([r[c] for r in x], float).reshape(n, 1)
               for c, f in enumerate(COLS)}
        rec['t'] = env.array(list(range(3, 3 + n)), int).reshape(n, 1)
        rec['trajid'] = env.array([7 - i], int).reshape(1, 1)
        recs.append(rec)
        want.append((x, list(range(3, 3 + n)), 1000.))
    env.save_mat(env.path(nm), 'traj', recs)
    return want


def npz_data(env, nm):
    want = []
    for i, n in enumerate((2, 1)):
        x = [[env.real('n%d_%d_%d' % (i, k, c)) for c in range(9)]
             for k in range(n)]
        col = lambda a: env.array([r[a:a + 3] for r in x], float).reshape(n, 3)
        env.savez(env.path(nm.rstrip('/') + '/traj_%d.npz' % i), **{
            'traj:pos': col(0), 'traj:velocity': col(3), 'traj:accel': col(6),
            'traj:time': env.array(list(range(3, 3 + n)), int)})
        want.append((x, list(range(3, 3 + n)), 1.))
    return want


def hdf_data(env, nm):
    rows = Rows(env, 'r', 3, groups=[0, 1, 0], unique=True, ordered=True,
                tlo=2, thi=6, fields=[('pos', float, (3,)),
                ('velocity', float, (3,)), ('accel', float, (3,))])
    rows.write(env.path(nm))
    want = []
    for g in (0, 1):
        ix = [i for i in range(3) if rows.group[i] == g]
        want.append(([list(rows.cols['pos'][i]) + list(rows.cols['velocity'][i])
                      + list(rows.cols['accel'][i]) for i in ix],
                     [rows.time[i] for i in ix], 1.))
    return want


def acc_data(env, nm):
    want = []
    for f, n in enumerate((2, 2)):
        for r in acc_file(env, 'f%d' % f, nm, 3 + f, n):
            want.append(([x for x, a in r], [3 + f + a for x, a in r], 1.))
    return want


def frames_data(env, nm, xuap):
    fr = Frames(env, (1, 2, 1), 3, xuap)
    if '%d' in nm: fr.write_dir(nm)
    else:
        fr.first = 0
        fr.write_single(nm)
    return fr


DATA = dict(mat=mat_data, npz=npz_data, hdf=hdf_data, acc=acc_data)


def reading(env, fmt, nm, told, api):
    io = env.ft.io
    if fmt in ('ptvis', 'xuap'):
        data = frames_data(env, nm, fmt == 'xuap')
    else: data = DATA[fmt](env, nm)
    nm = env.path(nm)
    ml = env.pick('minlen', [1, 2, None])
    if api == 'sequence':
        seq = env.ft.sequence.Sequence((0 if '%d' not in nm else 3, 9), 10.,
            env.ft.particle.Particle(1., 1.), nm, nm, traj_min_len=ml)
        env.require(seq.part_format() == fmt, 'the format')
        n = 1
        if fmt in ('ptvis', 'xuap'): lens = [len(c) for c in data.chains()]
        else: lens = [len(x) for x, t, s in data]
        env.assume(max(lens + [0]) >= (ml or 2))
        got = seq.particle_trajectories()
    else:
        got = io.trajectories(nm, None, None, 10., fmt if told else None, ml,
                              api == 'iterator')
        if api != 'iterator':
            env.require(isinstance(got, list), 'a list')
    got = list(got)
    ml = ml or 2
    if fmt in ('ptvis', 'xuap'):
        expect(env, data, got, [c for c in data.chains() if len(c) >= ml],
               scale=1. if fmt == 'xuap' else 1000.)
        return
    want = [w for w in data if len(w[0]) >= ml]
    env.require(len(got) == len(want), 'number of trajectories')
    for x, ts, scale in want:
        env.require(env.any([check_traj(env, t, x, ts, '', scale)
                             for t in got]), 'the trajectory')


NAMES = dict(
    mat=(['traj.mat', 'ptv_is_xuap.mat', 'runformat'], ['run.mat', 'm.h5']),
    npz=(['res/', 'ptv_is_xuap.h5/'], ['ptv_is_res', 'xuap_res.h5']),
    hdf=(['a.h5', 'trajAcc_hdf', 'rawhdf'], ['trajAcc.1', 'ptv_is.h5']),
    acc=(['trajAcc.%d', 'run_%d.H5', 'ptvis.%d'], ['xuap_acc.%d', 'ptv_is.%d']),
    ptvis=(['ptv_is.%d', 'xuap_ptv_is.%d', 'frames.txt', 'ptv_is_all.h5'],
           ['xuap.%d', 'linked.%d']),
    xuap=(['xuap.%d', 'xuap.%d.h5', 'my_xuap_%d'], ['ptv_is.%d', 'run.%d']))


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for n in range(0, 25 if th else 13):
        out.append(S('rules-%d' % n, rules, pattern='*' * n,
                     text='any name of %d characters' % n))
        if n in (1, 4, 8, 16):
            out.append(S('rules-sequence-%d' % n, rules, pattern='*' * n,
                         sequence=True, text='any name of %d characters' % n))
    for i, p in enumerate(['***ptv_is****', '**xuap*****', '***.txt***',
                           '/data/xuap/ptv_is***', '***mat***', '***/***.h5']):
        out.append(S('rules-part-%d' % i, rules, pattern=p,
                     text='any names like ' + p))
    for fmt, (own, other) in NAMES.items():
        for i, nm in enumerate(own):
            api = ('list', 'sequence', 'iterator')[i % 3]
            out.append(S('read-%s-%d' % (fmt, i), reading, fmt=fmt, nm=nm,
                told=False, api=api, text='any data under the name ' + nm))
        for i, nm in enumerate(other):
            out.append(S('told-%s-%d' % (fmt, i), reading, fmt=fmt, nm=nm,
                told=True, api=('iterator', 'list')[i],
                text='any data under the name ' + nm))
    return out
