"""C27: interpolant settings survive a configuration round trip."""
from symx.run import S

DEF = {'inv': (4, 1), 'rbf': (7, 1e5), 'corrfun': (4, None)}
NAMES = ('corr.npz', 'co%d rr.npz', '50%.npz', 'A=b;c.npz')


def params(env, method, num, radius, par, name=''):
    """Settings, each given or not."""
    kw = {}
    if num: kw['num_neighbs'] = env.int(name + 'num', 1, 50)
    if radius:
        kw['radius'] = env.real(name + 'radius')
        env.assume(kw['radius'] > 0)
    if method == 'corrfun':
        kw['param'] = env.path(env.pick(name + 'file', NAMES))
        env.savez(kw['param'], corrs=env.np.array([1., 0.5, 0.25]),
                  bins=env.np.array([0., 1., 2.]))
    elif par:
        kw['param'] = env.real(name + 'par')
        env.assume(kw['param'] > 0)
    return kw


def results(env, it, f):
    """What the interpolant gives in a fixed scene."""
    np = env.np
    t = np.array([[0., 0., 0.], [2., 0., 0.], [0., 3., 0.], [9., 9., 9.],
                  [0., 0., 5.], [6., 0., 0.], [0., 7., 0.], [0., 0., 8.],
                  [-10., 0., 0.]])
    return it(t[:len(f)], np.array([[1., 0., 0.]]), f)


def same(env, a, b, label, behave=False):
    env.require(env.eq(a.num_neighbs(), b.num_neighbs()),
                label + 'number of neighbours')
    if b.radius() is None: env.require(a.radius() is None, label + 'radius')
    else: env.require(a.radius() is not None and
                      env.eq(a.radius(), b.radius()), label + 'radius')
    env.require(type(a) is type(b), label + 'kind of interpolant')
    x, y = env.configparser(), env.configparser()
    a.save_config(x)
    b.save_config(y)
    g = 'Interpolant'
    env.require(x.get(g, 'method') == y.get(g, 'method'), label + 'method')
    if x.get(g, 'method') == 'corrfun':
        env.require(x.get(g, 'param') == y.get(g, 'param'), label + 'file')
    else:
        env.require(env.eq(x.getfloat(g, 'param'), y.getfloat(g, 'param')),
                    label + 'parameter')
    if behave:
        f = env.reals('f', (3, 1))
        env.require(env.eq(results(env, a, f), results(env, b, f)),
                    label + 'same interpolation')


def trip(env, method, num, radius, par, used, behave):
    ip = env.ft.interpolation
    kw = params(env, method, num, radius, par)
    if behave and num: env.assume(kw['num_neighbs'] == 2)
    a = ip.interpolant(method, **kw)
    cfg = env.configparser()
    if used:
        # the configuration held other settings before
        k2 = params(env, 'rbf', True, True, True, 'old')
        ip.interpolant('rbf', **k2).save_config(cfg)
        cfg.set('Interpolant', 'other', 'kept')
        cfg.add_section('Scene')
        cfg.set('Scene', 'frame rate', '5')
    a.save_config(cfg)
    if used:
        env.require(cfg.get('Scene', 'frame rate') == '5' and
                    cfg.get('Interpolant', 'other') == 'kept',
                    'the rest of the configuration')
    p = env.path('out.cfg')
    with open(p, 'w') as f: cfg.write(f)
    b = ip.read_interpolant(p)
    # against an equal one, which has never been saved
    same(env, b, ip.interpolant(method, **kw), 'read back: ', behave)
    env.require(env.eq(b.num_neighbs(), kw.get('num_neighbs', DEF[method][0])),
                'number of neighbours')
    if radius: env.require(env.eq(b.radius(), kw['radius']), 'radius')
    else: env.require(b.radius() is None, 'radius')
    y = env.configparser()
    b.save_config(y)
    env.require(y.get('Interpolant', 'method') == method, 'method')
    par = kw.get('param', DEF[method][1])
    env.require(y.get('Interpolant', 'param') == par if method == 'corrfun'
        else env.eq(y.getfloat('Interpolant', 'param'), par), 'parameter')


def files(env, method, num, radius, par):
    """A file with some of the settings: the rest are the defaults."""
    ip = env.ft.interpolation
    kw = params(env, method, num, radius, par)
    lines = ['[Interpolant]', 'method = ' + method]
    for k, v in kw.items():
        lines.append('%s = %s' % (k, v.replace('%', '%%') if k == 'param' and
                     method == 'corrfun' else env.fmt(v)))
    b = ip.read_interpolant(env.write('in.cfg', '\n'.join(lines) + '\n'))
    k2 = dict(kw)
    k2.setdefault('num_neighbs', DEF[method][0])
    if method != 'corrfun': k2.setdefault('param', DEF[method][1])
    same(env, b, ip.interpolant(method, **k2), 'file: ')
    env.require(env.eq(b.num_neighbs(), k2['num_neighbs']), 'neighbours')


def scenarios(tier):
    out = []
    for method in ('inv', 'rbf', 'corrfun'):
        for num in (True, False):
            for radius in (True, False):
                for par in (True, False):
                    if method == 'corrfun' and not par: continue
                    n = '%s%s%s%s' % (method, '-num' if num else '', '-radius'
                                      if radius else '', '-par' if par else '')
                    for used in (False, True):
                        out.append(S('trip-%s%s' % (n, '-used' if used else ''),
                            trip, method=method, num=num, radius=radius,
                            par=par, used=used, behave=False,
                            text='any values'))
                    # (a symbolic parameter may make the kernel singular)
                    if num and not radius and not (method == 'rbf' and par):
                        out.append(S('acts-' + n, trip, method=method, num=num,
                            radius=radius, par=par, used=False, behave=True,
                            text='any values'))
                    out.append(S('file-' + n, files, method=method, num=num,
                                 radius=radius, par=par, text='any values'))
    return out
