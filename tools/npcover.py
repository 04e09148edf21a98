"""
Self-test of the encoding: numpy calls over symbolic arrays, against numpy.
Every path of each call is explored; the values a model of the path gives to
the inputs go to numpy, and the results are compared with the model's.
Usage: python -B tools/npcover.py [substring]
"""
import sys, os, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
from symx import core, env as envm, run, sarray
from symx.core import z3, SymNum, SymB
import numpy as rnp, tempfile, random

CALLS = '''
np.lib.stride_tricks.sliding_window_view(A, 3, axis=0)
np.lib.stride_tricks.sliding_window_view(A, (2,2))
np.lib.stride_tricks.as_strided(V, shape=(2,2), strides=(8,8))
np.gradient(V)
np.gradient(A, axis=0)
np.gradient(V, 0.5)
np.gradient(A)[1]
np.trapezoid(V)
np.median(V[:3])
np.median(A[:,:2], axis=0)
np.percentile(V[:3], 50)
np.quantile(V[:3], 0.25)
np.interp(0.5, [0.,1.,2.], V[:3])
np.polyfit([0.,1.,2.,3.], V, 2)
np.polyfit(np.arange(4), A[:,0], 1)
np.polyval(V, 2.)
np.vander(V, 3)
np.linalg.lstsq(rnp.vander([0.,1,2,3],3), V, rcond=None)[0]
np.linalg.pinv(rnp.vander([0.,1,2,3],3)).dot(V)
np.linalg.matrix_power(A[:3], 2)
np.linalg.solve(rnp.eye(3)*2+1, V[:3])
np.linalg.multi_dot([A[:2], A[:3], V[:3]])
np.tensordot(A, A, axes=([0],[0]))
np.kron(V[:2], V[2:])
np.cov(A[:,0], A[:,1])
np.cumprod(V)
np.ediff1d(V)
np.nanmean(A, axis=0)
np.nanstd(A, axis=0)
np.nanvar(A)
np.std(A, axis=0, ddof=1)
np.piecewise(V[:2], [V[:2] < 0, V[:2] >= 0], [lambda x: -x, lambda x: x*2])
np.choose([0,1,0], [V[:3], V[1:]])
np.apply_over_axes(np.sum, A, [0])
np.pad(V, 1)
np.pad(V, (1,2), mode='edge')
np.pad(A, ((1,1),(0,0)), mode='constant', constant_values=2.)
np.diagflat(V[:2])
np.triu_indices(3)[0]
A[np.tril_indices(3)]
np.partition(V[:3], 1)[1]
np.argpartition(V[:3], 0)[0]
np.searchsorted(np.array([0.,1.,2.]), V[:3])
np.sort(V[:3])[::-1]
np.setxor1d(I[:2], I[2:3])
np.unique(I[:3])
np.unique(I[:3], return_inverse=True)[1]
np.unique(I[:3], return_counts=True)[1]
np.unique(I[:3], return_index=True)[1]
np.histogram2d(V[:2], V[2:], bins=[[0.,1.,2.],[0.,1.,2.]])[0]
np.cumsum(A, axis=1)
np.add.reduceat(V, [0,2])
np.add.reduce(V)
np.add.accumulate(V)
np.add.outer(V[:2], V[2:])
np.subtract.outer(V, V)
np.minimum.reduce(A, axis=0)
np.minimum.accumulate(V[:3])
np.maximum.reduce(V[:3])
np.logical_and.reduce(A[:2,:2] > 0, axis=1)
np.multiply.reduce(V)
np.hypot(V[0], V[1])**2
np.square(V)
np.sign(V[:3])
np.abs(V)
np.fabs(V)
np.floor(V[:2])
np.ceil(V[:2])
np.rint(V[:2])
np.trunc(V[:2])
np.fix(V[:2])
np.mod(I[:2], 3)
np.floor_divide(I[:2], 2)
np.divmod(I[:2], 3)[0]
np.clip(V, -1., 1.)
np.fmin(V[:2], V[2:])
np.fmax(V[:2], V[2:])
np.heaviside(V[:2], 0.5)
np.reciprocal(V[:2]**2 + 1.)
np.negative(V)
np.positive(V)
np.true_divide(V, 3)
np.isfinite(V)
np.isnan(V)
np.signbit(V[:2])
np.logical_not(V > 0)
np.logical_xor(V > 0, V > 1)
np.bitwise_and(V > 0, V > 1)
(V > 0) ^ (V > 1)
np.roll(A, 1, axis=0)
np.rot90(A)
np.repeat(V, 2)
np.tile(V, (2,1))
np.tri(3) * A[:3]
np.tril(A)
np.outer(V, V)
np.inner(A, A)
np.cross(A, A[::-1])
np.trace(A[:3])
np.broadcast_to(V[:3], (4,3)) + A
np.ravel(A)
A.flatten()
A.ravel(order='F')
np.swapaxes(A, 0, 1)
np.atleast_2d(V)
np.block([[A],[A]])
np.array_split(V, 3)[0]
np.split(V, [1,3])[1]
np.resize(V, (2,3))
np.insert(V, 1, 5.)
np.delete(V, [0,2])
np.append(V, 1.)
np.nonzero(V > 0)[0]
np.argwhere(V > 0)
np.flatnonzero(V > 0)
np.count_nonzero(V > 0)
np.where(V > 0, V, 0.)
np.select([V > 1, V > 0], [V, V*2], -1.)
np.extract(V > 0, V)
np.compress(V > 0, A, axis=0)
np.take(A, [0,2], axis=0)
A.take([1], axis=1)
np.argmin(V[:3])
np.argmax(A, axis=1)
np.argsort(V[:3])
np.lexsort((I[:3], I[1:]))
np.ptp(V[:3])
np.average(V, weights=[1,2,3,4])
np.mean(A, axis=(0,1))
np.var(V)
np.round(V[:2])
np.around(V[:2], 1)
np.linalg.norm(A, axis=1)**2
np.linalg.norm(V)**2
np.linalg.det(A[:3])
np.linalg.inv(rnp.eye(3)*2 + 1) @ V[:3]
np.einsum('ij,kj->ik', A, A)
np.einsum('...j,...j->...', A, A)
np.einsum('ij,ij->i', A, A)
np.convolve(V, [1.,2.,1.], mode='same')
np.convolve(V, [1.,2.,1.], mode='valid')
np.correlate(V, [1.,2.])
np.digitize(V[:2], [0.,1.])
np.bincount(I[:3] % 3, minlength=3)
np.bincount([0,1,1,2], weights=V)
np.isin(I[:2], [1,2])
np.intersect1d(I[:2], [1,2])
np.union1d(I[:1], [1])
np.allclose(V[:2], V[2:])
np.array_equal(V, V)
np.diff(A, axis=0)
np.diff(V, n=2)
np.zeros_like(A) + 1
np.fromiter((v for v in V), float)
np.meshgrid(V[:2], V[2:])[0]
np.indices((2,3))[0]
np.mgrid[0:3,0:2][0] * 1.
np.ogrid[0:3][..., None] * A[:3]
np.r_[V, 1., V[:1]]
np.c_[V, V]
np.r_['0,2', V, V]
np.s_[1:3]
V[np.s_[1:3]]
np.ix_([0,2],[1])[0]
A[np.ix_([0,2],[1])]
np.fft.fft(V).real
np.real(V)
np.float64(V[0])
np.nan_to_num(V)
np.copysign(1., V[0])
np.exp(np.log(V[0]**2+1))
np.sqrt(V[0]**2)
np.cbrt(V[0])**3
np.power(V, 2)
np.float_power(V, 2)
np.array(V, dtype=int)
V.astype(int)
np.asarray(I, dtype=float)
np.stack([V, V], axis=1)
np.dstack([V, V])
np.hstack([V, V])
np.vstack([V, V])
np.column_stack([V, V])
np.concatenate([A, A], axis=None)
np.moveaxis(A, 0, 1)
np.expand_dims(V, (0, 2))
np.squeeze(V[None])
np.flip(A, 0)
np.fliplr(A)
np.ma.masked_where(V > 0, V).sum()
np.ma.array(V, mask=[0,1,0,1]).mean()
sum(V)
max(V[0], V[1])
min(V[:3])
sorted(V[:3])
np.random.default_rng
np.may_share_memory(V, V)
V.tolist()
V.item(2)
A.tolist()
np.ndarray.sum(V)
np.vectorize(lambda a: a*2)(V)
np.frompyfunc(lambda a: a*2, 1, 1)(V)
np.put(V.copy(), [0], 1.)
np.nditer
list(np.ndenumerate(V))[2][1]
[i for i in np.ndindex(2,2)]
np.unravel_index(np.argmax(A[:2,:2]), (2,2))[0]
np.ravel_multi_index(([0,1],[1,2]), (3,3))
A.T.dot(V)
A[:, ::-1][::2]
A[..., -1]
A[[0,2], [1,0]]
A[V > 0]
A[V > 0, 0]
A.sum(axis=0, keepdims=True)
(A - A.mean(axis=0)).std(axis=1)**2
(A**2).sum(axis=1).argmin()
A.min(), A.max()
np.array([V, V]).max(axis=0)
np.nanargmin(V[:3])
np.nanmedian(V[:3])
np.cumulative_sum(V)
np.matvec(A, V[:3])
np.vecdot(A, A)
np.astype(V, int)
np.atleast_1d(V[0])
np.permute_dims(A, (1,0))
np.unique_values(I[:2])
np.linalg.vector_norm(V)**2
np.linalg.cross(A, A)
np.linalg.matrix_transpose(A)
np.linalg.eigvalsh(rnp.eye(2))
np.lib.recfunctions
np.add(V, 1, where=[True,False,True,False], out=np.zeros(4))
np.divide(V, V[0], out=np.zeros(4), where=V != 0)
np.multiply(A, V[:,None], out=np.empty((4,3)))
np.einsum('i,ij', V, A)
np.einsum(V, [0], A, [0,1])
np.argsort(-I[:3], kind='stable')
np.flatnonzero(np.diff(I[:3]))
np.split(V, np.flatnonzero(np.diff(I)) + 1)[0]
np.searchsorted(I[:1], [2], side='right')
np.array([np.mean(V[i:i+2]) for i in range(3)])
np.array(list(map(lambda r: r.sum(), A)))
np.asfarray
np.all(V[:2] > 0)
np.any(A[:2,:2] > 0, axis=0)
np.iterable(V)
np.broadcast_shapes((3,1),(1,2))
np.max(V[:3], initial=0.)
np.sum(V, where=V > 0)
np.min(A[:2], axis=0, where=A[:2] > 0, initial=9.)
np.sinc(0.)
np.deg2rad(V)
np.degrees(V)
np.ldexp(V, 2)
np.nextafter(1., 2.)
np.spacing(1.)
np.finfo(float).eps
np.iinfo(int).max
'''.strip().splitlines()


def cells(r):
    if isinstance(r, sarray.SA):
        return ('arr', r.shape, [v for v in sarray.plain(r).flat])
    if isinstance(r, rnp.ndarray): return ('arr', r.shape, list(r.flat))
    if isinstance(r, (list, tuple)):
        out = [cells(v) for v in r]
        return ('seq', len(r), [x for o in out for x in o[2]])
    return ('one', (), [r])


def value(v, m):
    if hasattr(v, 'v') and isinstance(getattr(v, 'v'), (SymNum, SymB)): v = v.v
    v = sarray.pynum(v) if not isinstance(v, (SymNum, SymB)) else v
    if isinstance(v, SymB): return z3.is_true(m.eval(v.z, model_completion=True))
    if isinstance(v, SymNum):
        n = run.num(m.eval(v.n.z3(), model_completion=True))
        d = run.num(m.eval(v.d.z3(), model_completion=True)) \
            if not isinstance(v.d, int) else v.d
        return n / d if d != 1 else n
    return v


def main():
    only = sys.argv[1] if len(sys.argv) > 1 else ''
    scratch = tempfile.mkdtemp(prefix='sxn-')
    bad = 0
    for line in CALLS:
        if only not in line: continue
        try:
            code = compile(line, line, 'eval')
            eng = core.Engine(seed=1, deadline=None)
        except TypeError:
            import time
            eng = core.Engine(seed=1, deadline=time.time() + 20)
        n, msg = 0, None
        while True:
            eng.begin()
            try:
                e = envm.SymEnv(eng, scratch, {})
                V, A, I = e.reals('v', 4), e.reals('a', (4, 3)), \
                    e.ints('i', 4, -4, 6)
                r = eval(code, dict(np=e.np, V=V, A=A, I=I, rnp=rnp))
                exc = None
            except core.PathAbort:
                r = None
                if not eng.backtrack(): break
                continue
            except (Exception, core.SymUnsupported, core.UndefUse) as x:
                r, exc = None, x
            n += 1
            if isinstance(exc, (core.SymUnsupported, core.UndefUse)):
                msg = 'UNSUPPORTED %s' % exc
                break
            inp = run.diversify(eng, [], random.Random(n), budget=2.)
            s = z3.Solver()
            for f in eng.facts: s.add(f)
            if inp:
                from fractions import Fraction
                for k, v in eng.inputs.items():
                    z = v.n.z3()
                    s.add(z == (z3.IntVal(int(inp[k])) if v.kind == 'i' else
                                z3.RealVal(str(Fraction(inp[k])))))
            for f in core.exact_facts(): s.add(f)
            s.set('timeout', 3000)
            if not inp or s.check() != z3.sat:
                if not eng.backtrack(): break
                continue
            m = s.model()
            g = {}
            for nm, k, sh in (('V','v',(4,)), ('A','a',(4,3)), ('I','i',(4,))):
                arr = rnp.zeros(sh, dtype=int if nm == 'I' else float)
                for ix in rnp.ndindex(*sh):
                    key = [q for q in inp if q == k + '[' + ','.join(map(str, ix)) + ']'
                           or q == k + ''.join('_%d' % j for j in ix)
                           or q == k + '.' + '.'.join(map(str, ix))
                           or q == '%s%s' % (k, '_'.join(map(str, ix)))]
                    if key: arr[ix] = inp[key[0]]
                g[nm] = arr
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    w = eval(code, dict(np=rnp, rnp=rnp, **g))
                wexc = None
            except Exception as x:
                w, wexc = None, x
            if (exc is None) != (wexc is None):
                msg = 'DIFFERS: %r / %r' % (exc, wexc)
                break
            if exc is None:
                a, b = cells(r), cells(w)
                try:
                    va = [value(x, m) for x in a[2]]
                except Exception as x:
                    msg = 'VALUE %r' % x
                    break
                if a[0] != b[0] or a[1] != b[1]:
                    msg = 'SHAPE %s %s' % (a[:2], b[:2])
                    break
                for x, y in zip(va, b[2]):
                    try:
                        ok = rnp.isclose(float(x), float(y), atol=1e-7)
                    except (TypeError, ValueError):
                        ok = True
                    if not ok:
                        msg = 'VALUE %s != %s for %s' % (va, b[2], g)
                        break
                if msg: break
            if n > 60 or not eng.backtrack(): break
        if msg:
            bad += 1
            print('%-60s %s' % (line, msg[:170]))
    print('%d calls, %d unsupported or different' % (len(CALLS), bad))


main()
