"""C33: Matlab and trajAcc imports convert and split data correctly."""
from symx.run import S
from .large import big
from .c09 import shuffle

COLS = ('xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf')
JUNK = [str(200.5 + c) for c in range(24)]


def acc_file(env, name, tmpl, frame, n, orphan=False, tail=0):
    """A trajAcc file of n rows, its path ages running on or starting over.
    Returns the runs, each a list of (columns, age)."""
    lines, ages, rows = [], [], []
    for k in range(n):
        x = [env.real('%s_%d_%d' % (name, k, c)) for c in range(9)]
        if env.rnd:
            new = not orphan if k == 0 else \
                env.rnd('%s%d' % (name, k)).random() < \
                (0.3 if n % 4 == 0 else 0.9)
            a = 0 if new else ages[-1] + 1 if ages else 2
        else: a = env.int('%s_age%d' % (name, k), 0, n + 2)
        if env.rnd: pass
        elif k == 0:
            if not orphan: env.assume(env.eq(a, 0))
        else:
            env.assume(env.any([env.eq(a, 0), env.eq(a, ages[-1] + 1)]))
        ages.append(a)
        rows.append(x)
        lines.append('\t'.join([env.fmt(v) for v in x] + JUNK + [env.fmt(a)] +
                               ['7'] * tail))
    env.write(tmpl % frame, '\n'.join(lines) + ('\n' if lines else ''))
    runs = []
    for x, a in zip(rows, ages):
        if bool(env.eq(a, 0)): runs.append([])
        if runs: runs[-1].append((x, a))
    return runs


def check_traj(env, t, cols, times, label, scale=1.):
    """Are the rows of a trajectory these? (a condition)"""
    if len(t) != len(cols): return False
    p, v, a, tm = t.pos(), t.velocity(), t.accel(), t.time()
    if tuple(p.shape) != (len(cols), 3) or tuple(v.shape) != (len(cols), 3) \
            or tuple(a.shape) != (len(cols), 3): return False
    return env.all([env.eq(q[k,i], x[3 * j + i] / scale)
        for j, q in enumerate((p, v, a)) for k, x in enumerate(cols)
        for i in range(3)] + [env.eq(tm[k], s) for k, s in enumerate(times)])


def acc(env, counts, start, tmpl, api, orphan=False, tail=0):
    want = []
    for f, n in enumerate(counts):
        if n is None: continue             # a frame is missing
        for r in acc_file(env, 'f%d' % f, tmpl, start + f, n, orphan, tail):
            want.append(([x for x, a in r], [start + f + a for x, a in r]))
    env.write(tmpl % start + '~', 'garbage')
    env.write('notes', 'garbage')
    shuffle(env)
    io, name = env.ft.io, env.path(tmpl)
    if api == 'acc': got = io.trajectories_acc(name)
    else:
        got = list(io.trajectories(name, None, None, 1., None, 1,
                                   api == 'common-iter'))
    env.require(len(got) == len(want), 'one trajectory for each run')
    ids = [t.trajid() for t in got]
    for i in range(len(ids)):
        for j in range(i):
            env.require(env.neg(env.eq(ids[i], ids[j])), 'distinct numbers')
    for c, ts in want:
        env.require(env.any([check_traj(env, t, c, ts, '') for t in got]),
                    'rows and frames of the run')


def mat(env, lens, api, var='traj', numbers='distinct'):
    recs, want = [], []
    for i, n in enumerate(lens):
        t = env.ints('t%d' % i, n, -3, 500)
        x = [[env.real('m%d_%d_%d' % (i, k, c)) for c in range(9)]
             for k in range(n)]
        tid = env.int('id%d' % i, 0, 1000)
        rec = {f: env.array([r[c] for r in x], float).reshape(n, 1)
               for c, f in enumerate(COLS)}
        rec['t'] = t.reshape(n, 1)
        rec['trajid'] = env.array([tid] * (1 if i % 2 else n), int).reshape(-1, 1)
        recs.append(rec)
        want.append((tid, x, [t[k] for k in range(n)]))
    env.distinct([w[0] for w in want])
    name = env.path(var + '.mat')
    env.save_mat(name, var, recs)
    io = env.ft.io
    if api == 'mat': got = io.trajectories_mat(name)
    else: got = list(io.trajectories(name, None, None, 1., None, 1,
                                     api == 'common-iter'))
    env.require(len(got) == len(want), 'one trajectory for each record')
    for tid, x, ts in want:
        hit = [t for t in got if bool(env.eq(t.trajid(), tid))]
        env.require(len(hit) == 1, 'one of each number')
        for t in hit:
            env.require(len(t) == len(x), 'length')
            env.require(check_traj(env, t, x, ts, '', 1000.),
                        'metres, own times')


def scenarios(tier):
    out = []
    th = tier == 'thorough'
    apis = ('acc', 'common', 'common-iter')
    cs = [(1,), (3,), (2, 2), (1, 2, 1), (0, 2), (2, None, 1), (4,)]
    if th: cs += [(5,), (3, 3), (2, 2, 2), (4, 2), (1, 1, 1, 1)]
    for i, c in enumerate(cs):
        for j, (t, st) in enumerate((('trajAcc.%d', 9), ('acc_%04d_run', 0))):
            out.append(S('acc-%s-%d' % ('.'.join(map(str, c)), j), acc,
                counts=c, start=st, tmpl=t, api=apis[(i + j) % 3],
                orphan=i % 2 == j, tail=2 * j, text=
                'files of %s rows, any path ages, four listing orders' % (c,)))
    for i, l in enumerate([(1,), (2,), (2, 1), (3, 1, 2)] +
                          ([(4, 3), (1, 1, 1, 1)] if th else [])):
        for j, api in enumerate(('mat', 'common', 'common-iter')):
            if i and (i + j) % 2: continue
            out.append(S('mat-%s-%s' % ('.'.join(map(str, l)), api), mat,
                lens=l, api=api, var=('traj', 'Alltraj', 'x', 'xuap_traj')[i % 4],
                text='records of %s points' % (l,)))
    c, l = (13, 9, None, 7, 12, 1), (12, 3, 8, 1, 5, 9, 2, 7, 4, 6, 3)
    for j, api in enumerate(apis):
        out += big('acc-' + api, acc, (1,), 'files of %s rows' % (c,), counts=c,
            start=(9, 0, 98)[j], tmpl=('trajAcc.%d', 'acc_%04d_run')[j % 2],
            api=api, orphan=j == 1, tail=j)
    for j, api in enumerate(('mat', 'common', 'common-iter')):
        out += big('mat-' + api, mat, (1,), 'records of %s points' % (l,),
                   lens=l, api=api)
    return out
