"""C36: particle volume and mass are those of a sphere."""
import math
from symx.run import S


def sphere(env, order):
    d, r = env.real('d'), env.real('r')
    p = env.ft.particle.Particle(d, r)
    def check(d, r, label):
        v = math.pi * d * d * d / 6.
        def vol(): env.require(env.eq(p.volume(), v), label + 'volume')
        def mass(): env.require(env.eq(p.mass(), r * v), label + 'mass')
        for f in ((vol, mass) if order else (mass, vol)): f()
        env.require(env.eq(p.diam, d), label + 'diameter')
        env.require(env.eq(p.density, r), label + 'density')
    check(d, r, 'new: ')
    for k in range(2):
        what = env.pick('change%d' % k, ('diameter', 'density', 'both', 'none'))
        if what in ('diameter', 'both'): p.diam = d = env.real('d%d' % k)
        if what in ('density', 'both'): p.density = r = env.real('r%d' % k)
        check(d, r, 'changed: ')
    q = env.ft.particle.Particle(env.real('qd'), env.real('qr'))
    check(d, r, 'another one exists: ')


def arrays(env):
    """Several diameters at once."""
    np = env.np
    d, r = env.reals('d', 3), env.reals('r', 3)
    p = env.ft.particle.Particle(d, r)
    for k in range(3):
        v = math.pi * d[k] * d[k] * d[k] / 6.
        env.require(env.eq(p.volume()[k], v), 'volume')
        env.require(env.eq(p.mass()[k], r[k] * v), 'mass')


def config(env):
    """Read from a configuration."""
    d, r = env.real('d'), env.real('r')
    cf = env.write('in.cfg', '\n'.join(['[Scene]', 'frame rate = 5',
        'first frame = 1', 'last frame = 3', 'tracers file = a%%d',
        'particles file = b%%d', '[Particle]', 'diameter = ' + env.fmt(d),
        'density = ' + env.fmt(r)]) + '\n')
    p = env.ft.sequence.read_sequence(cf).part
    v = math.pi * d * d * d / 6.
    env.require(env.eq(p.volume(), v), 'volume')
    env.require(env.eq(p.mass(), r * v), 'mass')


def scenarios(tier):
    return [S('sphere-%s' % o, sphere, order=o == 'volume-first',
              text='any values, two changes') for o in ('volume-first',
              'mass-first')] + [S('arrays', arrays, text='any three'),
              S('config', config, text='any values')]
