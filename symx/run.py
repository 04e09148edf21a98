"""
Driver: explores every path of every scenario of a check, lets the solver
decide the obligations of each path, replays what it finds on the real code,
and writes the evidence.
"""
import sys, os, json, time, random, signal, shutil, tempfile, traceback, io
import multiprocessing as mp
import importlib, contextlib, warnings
from fractions import Fraction

from . import core, env as envm, loader
from .core import z3, SymB, SymUnsupported, PathAbort, UndefUse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Hang(BaseException):
    pass


class S(object):
    """A scenario: fn(env, **params) explored completely."""
    def __init__(self, name_, fn_, text='', limit=None, **params):
        self.name, self.fn, self.params = name_, fn_, params
        self.bounds = text or 'any values; ' + ', '.join(
            '%s=%s' % (k, getattr(v, '__name__', v)) for k, v in params.items())
        self.limit = limit


def load_known(path=None):
    out = []
    path = path or os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(kv.split('=', 1) for kv in
                         line[8:].split(' :: ')[0].split('|') if '=' in kv)
                d = {k.strip(): v.strip() for k, v in d.items()}
                d['text'] = line.split(' :: ', 1)[1]
                out.append(d)
    return out


def alarm(sec):
    def h(*a): raise Hang()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)


# --------------------------------------------------------------------------
# Concrete replay
# --------------------------------------------------------------------------
class Outcome(object):
    def __init__(self):
        self.failed, self.exc, self.valid, self.checked = [], None, True, 0
        self.inputs, self.choices, self.obs = {}, {}, []
    @property
    def bad(self):
        return self.valid and bool(self.failed or self.exc)
    def labels(self):
        return list(self.failed) + ([self.exc] if self.exc else [])


def replay(fn, params, inputs, choices, scratch, rng=None, limit=60):
    o = Outcome()
    cwd = os.getcwd()
    os.chdir(scratch)
    e = None
    try:
        e = envm.ConcEnv(dict(inputs), dict(choices), scratch, rng)
        with warnings.catch_warnings(), envm.Poison(e), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            import numpy as np
            with np.errstate(all='ignore'):
                alarm(limit)
                try:
                    fn(e, **params)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
    except envm.InvalidReplay:
        o.valid = False
    except Hang:
        o.exc = 'does not terminate'
    except Exception as x:
        o.exc = 'exception %s: %s' % (type(x).__name__, str(x)[:200])
        o.tb = traceback.format_exc()[-3000:]
    finally:
        os.chdir(cwd)
    if e is not None:
        o.failed, o.checked = e.failed, e.checked
        o.inputs, o.choices, o.obs = e.used, e.used_choices, e.observations
        close_tables()
    return o


def close_tables():
    import tables
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            tables.file._open_files.close_all()
    except Exception:
        pass


def num(v):
    """A z3 value as a Python number."""
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0


def model_inputs(eng, m):
    out = {}
    for n, v in eng.inputs.items():
        out[n] = num(m.eval(v.n.z3(), model_completion=True))
    return out


def diversify(eng, extra, rng, tmo=1500, budget=6.):
    """A model of the path (and extra) with irregular input values."""
    s = z3.Solver()
    s.set('timeout', tmo)
    s.set('random_seed', rng.randrange(1 << 20))
    for f in eng.facts: s.add(f)
    for f in extra: s.add(f)
    t0 = time.time()
    if s.check() != z3.sat: return None
    m = s.model()
    names = list(eng.inputs)
    rng.shuffle(names)
    for n in names:
        v = eng.inputs[n]
        z = v.n.z3()
        for trial in range(2):
            if time.time() - t0 > budget: break
            if v.kind == 'i':
                base = num(m.eval(z, model_completion=True))
                c = z3.IntVal(base + rng.choice((0, 1, 2, 3, -1, 5)))
            else:
                # short binary fractions: exact in floating point
                c = z3.RealVal('%d/64' % rng.randint(-256, 256)) if not trial \
                    else z3.RealVal('%d/64' % rng.randint(1, 128))
            s.push()
            s.add(z == c)
            if s.check() == z3.sat:
                m = s.model()
                break
            s.pop()
    return model_inputs(eng, m)


# --------------------------------------------------------------------------
# One scenario
# --------------------------------------------------------------------------
class Runner(object):
    def __init__(self, prop, sc, tier, seed, known):
        self.prop, self.sc, self.tier, self.seed = prop, sc, tier, seed
        self.known = [k for k in known if k.get('property') == prop]
        self.rng = random.Random('%s/%s/%s' % (seed, prop, sc.name))
        self.res = dict(name=sc.name, bounds=sc.bounds, paths=0, aborted=0,
            decided=0, obligations=0, folded=0, validated=0, unsupported=0,
            vacuous=0, undecided=[], irreproducible=[], notes=[], known=[],
            violation=None, samples=[], truncated=False)
        self.called = {}

    def run(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix='sx-', dir=base)
        try:
            self._run()
        finally:
            os.chdir('/')
            shutil.rmtree(self.scratch, ignore_errors=True)
        return self.res

    def _run(self):
        limit = self.sc.limit or (400 if self.tier == 'quick' else 3000)
        t0 = time.time()
        eng = self.eng = core.Engine(seed=self.seed, deadline=t0 + limit)
        self.stride = 1
        seen_validation = 0
        while True:
            eng.begin()
            exc, kind = None, 'end'
            os.chdir(self.scratch)
            env = None
            try:
                with warnings.catch_warnings(), \
                        contextlib.redirect_stdout(io.StringIO()):
                    warnings.simplefilter('ignore')
                    alarm(limit + 60)
                    try:
                        env = self.env = envm.SymEnv(eng, self.scratch,
                                                     self.called)
                        with envm.Order(env):
                            self.sc.fn(env, **self.sc.params)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
            except PathAbort:
                kind = 'abort'
            except (SymUnsupported, UndefUse, Hang, RecursionError) as x:
                kind = 'unsupported'
                exc = '%s: %s' % (type(x).__name__, x)
                if os.environ.get('SX_DEBUG'):
                    traceback.print_exc()
            except z3.Z3Exception as x:
                kind = 'unsupported'
                exc = 'z3: %s' % x
            except Exception as x:
                kind = 'exception'
                exc = '%s: %s' % (type(x).__name__, str(x)[:300])
                self.tb = traceback.format_exc()[-4000:]
                if os.environ.get('SX_DEBUG'):
                    traceback.print_exc()
            if kind == 'abort':
                self.res['aborted'] += 1
            else:
                self.res['paths'] += 1
                self.finish(env, kind, exc)
                if kind == 'end' and self.res['violation'] is None:
                    self.maybe_validate(env)
            if self.res['violation'] or eng.truncated: break
            if self.res['unsupported'] > 60 and \
                    self.res['unsupported'] > 0.9 * self.res['paths']:
                eng.truncated = True
                break
            if time.time() - t0 > limit:
                eng.truncated = True
                break
            if not eng.backtrack(): break
        self.res['truncated'] = eng.truncated
        self.res['wall'] = time.time() - t0
        st = eng.stats
        self.res.update(branches=st['branches'], queries=st['queries'],
                        solver_s=st['solver_s'])
        self.res['called'] = self.called

    # ---- obligations
    def finish(self, env, kind, exc):
        eng, res = self.eng, self.res
        ch = dict(env.choices) if env is not None else {}
        obls = eng.obligations
        res['obligations'] += len(obls)
        if not obls and kind == 'end': res['vacuous'] += 1
        pend = []
        for c, l in obls:
            if c is True: res['folded'] += 1
            elif isinstance(c, SymB): pend.append((c.z, l))
            else: pend.append((z3.BoolVal(False), l))
        if kind == 'exception':
            pend.append((z3.BoolVal(False), 'exception ' + exc))
        if kind == 'unsupported':
            res['unsupported'] += 1
            if len(res['notes']) < 20:
                res['notes'].append('outside the encoding: ' + exc[:300])
            self.fallback(ch)
            if res['violation']: return
        if not pend and not eng.folded_terms:
            res['decided'] += kind == 'end'
            return
        r, m = eng.check(z3.Not(z3.And([c for c, _ in pend] +
                                       eng.folded_terms)))
        if r == z3.unsat:
            res['decided'] += kind == 'end'
            return
        if r == z3.sat:
            o = self.try_replay(model_inputs(eng, m), ch)
            if o is not None and self.report(o):
                return
        # one at a time, with the exact meaning of squares and roots
        exact = core.exact_facts()
        ok = True
        for c, l in pend:
            if self.is_known(l): continue
            if not z3.is_false(c):
                r, m = eng.check(z3.Not(c))
                if r == z3.unsat: continue
            r, m = self.exact_check(exact + [z3.Not(c)])
            if r == z3.unsat: continue
            found = False
            irregular = 0
            tries = 8
            for t in range(tries):
                if t == 0 and m is not None:
                    inp = model_inputs(eng, m)
                else:
                    inp = diversify(eng, exact + [z3.Not(c)], self.rng) or \
                        diversify(eng, [z3.Not(c)], self.rng)
                if inp is None: continue
                irregular += 1
                o = self.try_replay(inp, ch)
                if o is not None:
                    if self.report(o): return
                    found = True
                    break
            if found: continue
            ok = False
            what = '%s (path %d, choices %s)' % (l, res['paths'], ch)
            if r == z3.unknown:
                if len(res['undecided']) < 20: res['undecided'].append(what)
            elif kind == 'exception' and l.startswith('exception'):
                # The exception is the model's, not the code's.
                res['unsupported'] += 1
                if len(res['notes']) < 20:
                    res['notes'].append('only in the encoding: %s\n%s' %
                                        (what, self.tb[-600:]))
            else:
                if len(res['irreproducible']) < 20:
                    res['irreproducible'].append(what)
                    self.res['last_model'] = {k: str(v) for k, v in
                                              (inp or {}).items()}
        if ok and kind == 'end': res['decided'] += 1

    def exact_check(self, extra):
        eng = self.eng
        t = time.time()
        r = z3.unknown
        m = None
        for make, tmo in ((z3.Solver, 15000),
                (lambda: z3.Tactic('qfnra-nlsat').solver(), 15000),
                (lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(),
                 30000)):
            s = make()
            s.set('timeout', tmo)
            for f in eng.facts: s.add(f)
            for f in extra: s.add(f)
            eng.stats['queries'] += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat: m = s.model()
            if r != z3.unknown: break
        eng.stats['solver_s'] += time.time() - t
        return r, m

    def is_known(self, label):
        for k in self.known:
            if k.get('label') == label and \
                    k.get('scenario', self.sc.name) == self.sc.name:
                return k
        return None

    def try_replay(self, inputs, choices, rng=None):
        o = replay(self.sc.fn, self.sc.params, inputs, choices, self.scratch,
                   rng)
        if o.valid: self.res['validated'] += 1
        return o if o.bad else None

    def report(self, o):
        """Record a confirmed failure; True if it is a new violation."""
        new = [l for l in o.labels() if not self.is_known(l)]
        for l in o.labels():
            k = self.is_known(l)
            if k and k['text'] not in self.res['known']:
                self.res['known'].append(k['text'])
        if not new: return False
        self.res['violation'] = dict(property=self.prop, scenario=self.sc.name,
            params={k: repr(v) for k, v in self.sc.params.items()},
            inputs=o.inputs, choices=o.choices, failed=new[:20],
            traceback=getattr(o, 'tb', None), bounds=self.sc.bounds)
        return True

    def fallback(self, ch):
        """The path left the encoding: run the real code on a few models."""
        if self.res['unsupported'] > 40: return
        for t in range(3):
            inp = diversify(self.eng, [], self.rng, 500, 2.)
            if inp is None: return
            o = self.try_replay(inp, ch, self.rng)
            if o is not None and self.report(o): return

    def maybe_validate(self, env):
        """Run the real code on a model of some of the paths."""
        n = self.res['paths']
        lim = 6 if self.tier == 'quick' else 20
        if self.res.get('sampled', 0) >= lim and n % 97: return
        if n > 3 and n % self.stride: return
        if n > 3: self.stride = min(self.stride * 2, 1000)
        inp = diversify(self.eng, [], self.rng, 500, 2.)
        if inp is None: return
        self.res['sampled'] = self.res.get('sampled', 0) + 1
        o = replay(self.sc.fn, self.sc.params, inp, env.choices, self.scratch)
        if not o.valid: return
        self.res['validated'] += 1
        if o.bad and not all(self.is_known(l) for l in o.labels()):
            self.res['notes'].append('fails on a model of a discharged path')
            if self.report(o): return
        if len(self.res['samples']) < 3:
            self.res['samples'].append(dict(scenario=self.sc.name,
                inputs={k: v for k, v in list(o.inputs.items())[:12]},
                choices=o.choices, checked=o.checked))


# --------------------------------------------------------------------------
def _worker(prop, sc, tier, seed, known, conn):
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        if not os.environ.get('SX_DEBUG'):
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        sys.setrecursionlimit(5000)
        conn.send(Runner(prop, sc, tier, seed, known).run())
    except BaseException:
        conn.send(dict(name=sc.name, error=traceback.format_exc()[-4000:]))
    conn.close()


def run_all(prop, scs, tier, seed, jobs, budget):
    known = load_known()
    ctx = mp.get_context('fork')
    todo, live, done = list(scs), [], []
    t0 = time.time()
    violated = False
    while todo or live:
        while todo and len(live) < jobs and not violated and \
                time.time() - t0 < budget:
            sc = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(prop, sc, tier, seed, known, b))
            p.start()
            b.close()
            live.append((p, a, sc))
        if todo and not live: break
        r = mp.connection.wait([a for _, a, _ in live],
                               timeout=max(0.1, budget - (time.time() - t0)))
        for it in list(live):
            p, a, sc = it
            if a in r:
                try: res = a.recv()
                except EOFError: res = dict(name=sc.name, error='worker died')
                p.join()
                live.remove(it)
                done.append(res)
                if res.get('violation'): violated = True
        if violated or time.time() - t0 > budget:
            for p, a, sc in live:
                p.kill()
                p.join()
                if not violated:
                    done.append(dict(name=sc.name, killed=True))
            live = []
            if not violated:
                for sc in todo: done.append(dict(name=sc.name, killed=True))
            break
    return done


def main(argv=None):
    import multiprocessing.connection
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = rp = None
    while argv:
        a = argv.pop(0)
        if a == '--tier': tier = argv.pop(0)
        elif a == '--only': only = argv.pop(0)
        elif a == '--replay': rp = argv.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('checks.' + prop.lower())
    scs = mod.scenarios(tier)
    assert len({s.name for s in scs}) == len(scs), 'duplicate scenario names'
    if rp: return do_replay(prop, mod, rp)
    if only: scs = [s for s in scs if only in s.name]
    t0 = time.time()
    jobs = int(os.environ.get('SX_JOBS', '8'))
    budget = 780 if tier == 'quick' else 6 * 3600
    # The real libraries are imported once, before forking.
    import numpy, tables, scipy.io, scipy.spatial, scipy.interpolate
    done = run_all(prop, scs, tier, seed, jobs, budget)
    return report(prop, tier, seed, scs, done, time.time() - t0)


def report(prop, tier, seed, scs, done, wall):
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    errs = [d for d in done if 'error' in d]
    killed = [d['name'] for d in done if d.get('killed')]
    full = [d for d in done if 'paths' in d]
    tot = lambda k: sum(d.get(k, 0) for d in full)
    called = {}
    for d in full:
        for k, v in d.get('called', {}).items(): called[k] = called.get(k, 0) + v
    viol = [d['violation'] for d in full if d['violation']]
    known = sorted({k for d in full for k in d['known']})
    samples = [s for d in full for s in d['samples']][:12]
    und = [(d['name'], u) for d in full for u in d['undecided']]
    irr = [(d['name'], u) for d in full for u in d['irreproducible']]
    notes = [(d['name'], u) for d in full for u in d['notes']]
    trunc = [d['name'] for d in full if d['truncated']]
    cov = dict(states=max(1, tot('paths')), transitions=max(1, tot('branches')),
        traces_validated_against_impl=tot('validated'), samples=samples or
        [dict(note='no path was sampled')],
        scenarios=[dict(name=d['name'], bounds=d['bounds'], paths=d['paths'],
            decided=d['decided'], obligations=d['obligations'],
            queries=d['queries'], solver_s=round(d['solver_s'], 2),
            wall_s=round(d['wall'], 2)) for d in full][:150],
        functions_encoded=sorted(k for k in called)[:200],
        queries=tot('queries'), solver_s=round(tot('solver_s'), 2),
        obligations=tot('obligations'), folded_by_normal_form=tot('folded'),
        paths_decided=tot('decided'), paths_infeasible=tot('aborted'),
        paths_outside_encoding=tot('unsupported'),
        paths_without_obligation=tot('vacuous'),
        undecided=[list(u) for u in und][:10],
        truncated=trunc[:20], killed=killed[:20], known_findings=known,
        notes=[[a, b[:300]] for a, b in notes[:10]],
        solver='z3 ' + z3.get_version_string())
    out = dict(property=prop, tier=tier, seed=seed, level='model_checking',
               coverage=cov, wall_s=round(wall, 2))
    txt = json.dumps(out, indent=1, default=str)
    if len(txt) > 60000:
        cov['scenarios'] = cov['scenarios'][:40]
        cov['samples'] = cov['samples'][:3]
        txt = json.dumps(out, indent=1, default=str)
    with open(os.path.join(ev, prop + '.json'), 'w') as f: f.write(txt)
    print('%s: %d scenarios, %d paths (%d decided), %d obligations, %d queries,'
          ' %.1fs solver, %d replays, %.1fs' % (prop, len(full), tot('paths'),
          tot('decided'), tot('obligations'), tot('queries'), tot('solver_s'),
          tot('validated'), wall))
    if os.environ.get('SX_VERBOSE'):
        for d in sorted(full, key=lambda d: -d['wall']):
            print('  %-40s paths %d decided %d abort %d obl %d (folded %d) q %d'
                  ' solver %.1f wall %.1f%s' % (d['name'], d['paths'],
                  d['decided'], d['aborted'], d['obligations'], d['folded'],
                  d['queries'], d['solver_s'], d['wall'],
                  ' VACUOUS %d' % d['vacuous'] if d['vacuous'] else ''))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    seen = set()
    for n, u in notes:
        key = (n, u[:60])
        if key in seen: continue
        seen.add(key)
        print('NOTE %s: %s' % (n, u))
    for n in trunc: print('NOTE %s: stopped at the time limit' % n)
    for n in killed: print('NOTE %s: not finished' % n)
    if viol:
        v = viol[0]
        path = os.path.join(ev, '%s-violation.json' % prop)
        with open(path, 'w') as f: json.dump(v, f, indent=1, default=str)
        print('scenario %s: %s' % (v['scenario'], '; '.join(v['failed'][:5])))
        if v.get('traceback'): print(v['traceback'][-1200:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    bad = False
    for e in errs:
        print('ERROR %s: %s' % (e['name'], e['error']))
        bad = True
    for n, u in und: print('UNDECIDED %s: %s' % (n, u)); bad = True
    for n, u in irr: print('NOT REPRODUCED %s: %s' % (n, u)); bad = True
    if not tot('decided'):
        print('ERROR nothing was decided')
        bad = True
    return 2 if bad else 0


def do_replay(prop, mod, path):
    v = json.load(open(path))
    for tier in ('quick', 'thorough'):
        for s in mod.scenarios(tier):
            if s.name == v['scenario']:
                d = tempfile.mkdtemp(prefix='sx-')
                try:
                    o = replay(s.fn, s.params, v['inputs'], v['choices'], d)
                finally:
                    shutil.rmtree(d)
                if o.bad:
                    print('\n'.join(o.labels()))
                    if getattr(o, 'tb', None): print(o.tb)
                    print('VIOLATION property=%s replay=%s' % (prop, path))
                    return 1
                print('not violated' if o.valid else 'assumptions not met')
                return 0
    print('no such scenario')
    return 2


if __name__ == '__main__':
    sys.exit(main())
