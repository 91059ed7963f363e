"""Functions and objects of the Python modules on derived blocks (C26).  Every argument is placed in
every way a block can be derived; the model of a block is the numpy view of the same derivation, the
model of a function is numpy's result.  Afterwards every element of every root is compared."""
import numpy as np

import mc
from c24 import DT, M, load, mod, same

S = slice
RNG = {}


def data(t, shape, salt):
    n = int(np.prod(shape))
    k = np.arange(n)
    v = ((k * 7 + salt * 5) % 11 + 1) * 0.375 + ((k * 3 + salt) % 5) * 0.0625
    if t in ('cd', 'cf'):
        v = v + 1j * (((k * 5 + salt * 3) % 7) * 0.25 - 0.75)
    return v.astype(DT[t]).reshape(shape)


V1 = [('dense', lambda n: (n,), []),
      ('tail', lambda n: (n + 1,), [S(1, None)]),
      ('reversed', lambda n: (n,), [S(None, None, -1)]),
      ('even', lambda n: (2 * n,), [S(None, None, 2)]),
      ('back', lambda n: (2 * n + 1,), [S(None, 0, -2)]),
      ('row', lambda n: (2, n), ['row1']),
      ('col', lambda n: (n, 3), ['col1']),
      ('col of tail', lambda n: (n + 1, 2), [(S(1, None), S(None)), 'col-1']),
      ('diag', lambda n: (n, n + 1), ['diag']),
      ('real', lambda n: (n,), ['real']),
      ('imag of even', lambda n: (2 * n,), [S(None, None, 2), 'imag'])]
V2 = [('dense', lambda m, n: (m, n), []),
      ('corner', lambda m, n: (m + 1, n + 2), [(S(1, None), S(2, None))]),
      ('strided', lambda m, n: (2 * m, n), [(S(None, None, 2), S(None, None, -1))]),
      ('even columns', lambda m, n: (m, 2 * n), [(S(None), S(None, None, 2))]),
      ('upside down', lambda m, n: (m, n + 1), [(S(None, None, -1), S(1, None))]),
      ('imag', lambda m, n: (m, n), ['imag'])]
UP = {'d': 'cd', 'f': 'cf'}


class Arg:
    """a block of the given shape, placed; m is the numpy view, r/rm the roots"""

    def __init__(self, t, shape, place, salt, values=None):
        name, root, steps = place
        self.t, self.name = t, name
        parts = any(s in ('real', 'imag') for s in steps if isinstance(s, str))
        rt = UP[t] if parts else t
        rs = root(*shape)
        self.rm = data(rt, rs, salt + 20).copy()
        m = self.rm
        for s in steps:
            m = self.step_m(m, s)
        assert m.shape == tuple(shape), (place, m.shape, shape)
        if values is not None:
            m[...] = values
        elif not parts:
            m[...] = data(t, shape, salt)
        else:
            m[...] = data(t, shape, salt)
        self.m = m
        self.r = mod(rt).block(self.rm)
        self.rm = self.rm.copy()
        m = self.rm
        for s in steps:
            m = self.step_m(m, s)
        self.m = m
        b, tt = self.r, rt
        for s in steps:
            b, tt = self.step_b(b, tt, s)
        self.b = b

    @staticmethod
    def step_m(m, s):
        if isinstance(s, str):
            if s == 'row1':
                return m[1, :]
            if s == 'col1':
                return m[:, 1]
            if s == 'col-1':
                return m[:, -1]
            if s == 'diag':
                return np.lib.stride_tricks.as_strided(m, (min(m.shape),), (m.strides[0] + m.strides[1],))
            return m.real if s == 'real' else m.imag
        return m[s]

    @staticmethod
    def step_b(b, t, s):
        if isinstance(s, str):
            if s in ('real', 'imag'):
                return getattr(b, s)(), {'cd': 'd', 'cf': 'f'}[t]
            if s == 'diag':
                return b.diag(), t
            return (b.row(1) if s == 'row1' else b.col(1) if s == 'col1' else b.col(-1)), t
        return (mod(t).subblock(b, *s) if isinstance(s, tuple) else mod(t).subblock(b, s)), t

    def set(self, v):
        """the model's elements become v"""
        self.m[...] = v

    def check(self, what, tol=0.0):
        a = np.array(self.r.__array__())
        if tol:
            x = Arg.again(a, self)
            if not close(x, self.m, tol):
                mc.fail(what, '%s is %r, expected %r' % (what, x.tolist(), self.m.tolist()))
                return False
            x[...] = self.m
        if not (a == self.rm).all():
            mc.fail(what, '%s (%s): elements behind it are %r, expected %r' % (what, self.name, a.tolist(), self.rm.tolist()))
            return False
        mc.outcome(a.tobytes()[:512])
        return True

    @staticmethod
    def again(a, arg):
        # the elements of the array that the argument's view names
        off = arg.m.__array_interface__['data'][0] - arg.rm.__array_interface__['data'][0]
        return np.ndarray(arg.m.shape, arg.m.dtype, buffer=a.data, offset=off, strides=arg.m.strides)


def close(x, y, tol):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool((np.abs(x - y) <= tol * (1 + np.abs(y))).all())


TOL = {'d': 1e-9, 'cd': 1e-9}


def places(t, nd):
    out = []
    for p in (V1 if nd == 1 else V2):
        if any(isinstance(s, str) and s in ('real', 'imag') for s in p[2]) and t not in UP:
            continue
        out.append(p)
    return out


def combos(ts, shapes):
    """all placements of one argument with the others dense, and all equal and pairwise different ones"""
    import itertools
    for c in itertools.product(*[places(t, len(s)) for t, s in zip(ts, shapes)]):
        yield c


def result(got, want, tol, what):
    """a returned block or scalar"""
    if hasattr(got, '__array__'):
        got = np.array(got.__array__())
    w = np.asarray(want)
    if w.dtype == np.bool_:
        if not (np.asarray(got) == w).all() or np.asarray(got).shape != w.shape:
            mc.fail(what, '%s gives %r, expected %r' % (what, np.asarray(got).tolist(), w.tolist()))
            return False
        return True
    if not close(got, w, tol):
        mc.fail(what, '%s gives %r, expected %r' % (what, np.asarray(got).tolist(), w.tolist()))
        return False
    mc.outcome(np.asarray(got).tobytes()[:512])
    return True


def case(label, ts, shapes, pl, body, salt=1):
    if not mc.next():
        return
    mc.desc('%s of %s' % (label, ', '.join('%s %s' % (p[0], 'x'.join(map(str, s))) for p, s in zip(pl, shapes))))
    if sum(1 for p in pl if p[0] != 'dense') > 1:
        mc.nontrivial()
    try:
        args = [Arg(t, s, p, salt + 3 * k) for k, (t, s, p) in enumerate(zip(ts, shapes, pl))]
        mc.step()
        if body(*args) is False:
            return
        for k, a in enumerate(args):
            if not a.check('argument %d' % k, getattr(a, 'tol', 0)):
                return
    except Exception as e:
        mc.fail('exception', '%s: %s: %s' % (label, type(e).__name__, e))


def part_elementwise():
    shapes1, shapes2 = [(1,), (5,), (16,)], [(3, 4), (5, 2)]
    for t in ('d', 'cd'):
        m = M['math._elementwise_' + t]
        un = [('neg', lambda a: -a), ('sq', lambda a: a * a), ('recip', lambda a: 1 / a), ('exp', np.exp), ('sqrt', np.sqrt), ('log', np.log), ('sin', np.sin), ('cos', np.cos),
              ('tan', np.tan), ('sinh', np.sinh), ('cosh', np.cosh), ('tanh', np.tanh), ('log10', np.log10), ('rsqrt', lambda a: 1 / np.sqrt(a)), ('mag', np.abs), ('magsq', lambda a: np.abs(a) ** 2),
              ('is_nan', np.isnan), ('is_finite', np.isfinite)]
        bi = [('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('div', lambda a, b: a / b), ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b),
              ('maxmg', lambda a, b: np.maximum(np.abs(a), np.abs(b))), ('minmg', lambda a, b: np.minimum(np.abs(a), np.abs(b))),
              ('maxmgsq', lambda a, b: np.maximum(np.abs(a) ** 2, np.abs(b) ** 2)), ('minmgsq', lambda a, b: np.minimum(np.abs(a) ** 2, np.abs(b) ** 2))]
        te = [('am', lambda a, b, c: (a + b) * c), ('ma', lambda a, b, c: a * b + c), ('msb', lambda a, b, c: a * b - c), ('sbm', lambda a, b, c: (a - b) * c), ('expoavg', lambda a, b, c: a * b + (1 - a) * c)]
        if t == 'cd':
            un += [('conj', np.conj), ('real', np.real), ('imag', np.imag), ('arg', np.angle)]
            bi += [('jmul', lambda a, b: a * np.conj(b))]
            bi = [x for x in bi if x[0] not in ('minmg', 'minmgsq')] + [x for x in bi if x[0] in ('minmg', 'minmgsq')]
        else:
            un += [('ceil', np.ceil), ('floor', np.floor), ('atan', np.arctan), ('exp10', lambda a: 10.0 ** a), ('euler', lambda a: np.exp(1j * a))]
            bi += [('max', np.maximum), ('min', np.minimum), ('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b),
                   ('hypot', np.hypot), ('atan2', np.arctan2), ('fmod', np.fmod), ('pow', np.power)]
        for shapes in (shapes1, shapes2):
            for sh in shapes:
                for name, f in un:
                    for pl in combos([t], [sh]):
                        case('%s (%s)' % (name, t), [t], [sh], pl, lambda a: result(getattr(m, name)(a.b), f(a.m), 1e-9, name))
                small = [p for p in places(t, len(sh))]
                for name, f in bi:
                    if not hasattr(m, name):
                        continue
                    for pl in combos([t, t], [sh, sh]):
                        case('%s (%s)' % (name, t), [t, t], [sh, sh], pl, lambda a, b: result(getattr(m, name)(a.b, b.b), f(a.m, b.m), 1e-9, name))
                if sh in ((5,), (3, 4)):
                    for name, f in te:
                        for pl in combos([t] * 3, [sh] * 3):
                            if len(set(p[0] for p in pl)) < 3 and 'dense' not in [p[0] for p in pl]:
                                continue
                            case('%s (%s)' % (name, t), [t] * 3, [sh] * 3, pl, lambda a, b, c: result(getattr(m, name)(a.b, b.b, c.b), f(a.m, b.m, c.m), 1e-9, name))


def part_matvec():
    for t in ('d', 'cd'):
        m = M['math._matvec_' + t]
        for n in (1, 4, 17):
            for pl in combos([t, t], [(n,), (n,)]):
                case('dot (%s)' % t, [t, t], [(n,), (n,)], pl, lambda a, b: result(m.dot(a.b, b.b), (a.m * b.m).sum(), 1e-9, 'dot'))
        for p, q, r in ((3, 4, 2), (2, 2, 2), (1, 5, 3), (4, 1, 1)):
            for pl in combos([t], [(p, q)]):
                case('trans (%s)' % t, [t], [(p, q)], pl, lambda a: result(m.trans(a.b), a.m.T, 0, 'trans'))
                if t == 'cd':
                    case('herm (%s)' % t, [t], [(p, q)], pl, lambda a: result(m.herm(a.b), a.m.T.conj(), 0, 'herm'))
            for pl in combos([t, t], [(p,), (p, q)]):
                case('vector times matrix (%s)' % t, [t, t], [(p,), (p, q)], pl, lambda a, b: result(m.prod(a.b, b.b), a.m @ b.m, 1e-9, 'prod'))
                case('vmmul by columns (%s)' % t, [t, t], [(p,), (p, q)], pl, lambda a, b: result(m.vmmul(1, a.b, b.b), a.m[:, None] * b.m, 1e-9, 'vmmul'))
            for pl in combos([t, t], [(p, q), (q,)]):
                case('matrix times vector (%s)' % t, [t, t], [(p, q), (q,)], pl, lambda a, b: result(m.prod(a.b, b.b), a.m @ b.m, 1e-9, 'prod'))
                case('vmmul by rows (%s)' % t, [t, t], [(p, q), (q,)], pl, lambda a, b: result(m.vmmul(0, b.b, a.b), b.m[None, :] * a.m, 1e-9, 'vmmul'))
            for pl in combos([t, t], [(p, q), (q, r)]):
                case('matrix times matrix (%s)' % t, [t, t], [(p, q), (q, r)], pl, lambda a, b: result(m.prod(a.b, b.b), a.m @ b.m, 1e-9, 'prod'))
    m = M['math._reductions_d']
    for sh in ((1,), (6,), (17,), (3, 4), (5, 2), (1, 3)):
        for pl in combos(['d'], [sh]):
            case('sumval', ['d'], [sh], pl, lambda a: result(m.sumval(a.b), a.m.sum(), 1e-9, 'sumval'))
            case('meanval', ['d'], [sh], pl, lambda a: result(m.meanval(a.b), a.m.mean(), 1e-9, 'meanval'))


def out_case(label, ts, shapes, pl, f, want, tol=1e-9):
    """the last argument receives the result"""
    def body(*a):
        f(*[x.b for x in a])
        a[-1].set(want(*[x.m for x in a[:-1]]))
        a[-1].tol = tol
    case(label, ts, shapes, pl, body)


def part_signal():
    m = M['selgen._clip_d']
    for sh in ((1,), (6,), (3, 4)):
        for pl in combos(['d', 'd'], [sh, sh]):
            out_case('clip', ['d', 'd'], [sh, sh], pl, lambda a, b: m.clip(a, b, 1.25, 3.0, -7.0, 9.0), lambda a: np.where(a <= 1.25, -7.0, np.where(a < 3.0, a, 9.0)), 0)
            out_case('invclip', ['d', 'd'], [sh, sh], pl, lambda a, b: m.invclip(a, b, 1.25, 2.0, 3.0, -7.0, 9.0),
                     lambda a: np.where(a < 1.25, a, np.where(a < 2.0, -7.0, np.where(a <= 3.0, 9.0, a))), 0)
    f = M['signal._freqswap_d']
    for sh in ((1,), (6,), (5,), (3, 4), (4, 5)):
        for pl in combos(['d', 'd'], [sh, sh]):
            out_case('freqswap', ['d', 'd'], [sh, sh], pl, lambda a, b: f.freqswap(a, b), lambda a: np.roll(a, [n // 2 for n in sh], list(range(len(sh)))), 0)
    y = M['signal.types']
    time = y.alg_hint.time
    for n in (1, 4, 5, 8):
        for t in ('cd',):
            x = M['signal._fft_cd']
            fw, bw = x.fft(n, 0.5, 0, time), x.ifft(n, 1.0 / n, 0, time)
            for pl in combos([t, t], [(n,), (n,)]):
                out_case('fft', [t, t], [(n,), (n,)], pl, fw, lambda a: 0.5 * np.fft.fft(a))
                out_case('inverse fft', [t, t], [(n,), (n,)], pl, bw, lambda a: np.fft.ifft(a))
            for pl in combos([t], [(n,)]):
                def body(a):
                    fw(a.b)
                    a.set(0.5 * np.fft.fft(a.m))
                    a.tol = 1e-9
                case('fft in place', [t], [(n,)], pl, body)
        x = M['signal._fft_d']
        fw, bw = x.fft(n, 1.0, 0, time), x.ifft(n, 1.0 / n, 0, time)
        for pl in combos(['d', 'cd'], [(n,), (n // 2 + 1,)]):
            out_case('real fft', ['d', 'cd'], [(n,), (n // 2 + 1,)], pl, fw, lambda a: np.fft.rfft(a))

        def herm(a, b):
            a.set(np.fft.rfft(data('d', (n,), 9)))
            a.b.assign(mod('cd').block(np.ascontiguousarray(a.m)))
            bw(a.b, b.b)
            b.set(data('d', (n,), 9))
            b.tol = 1e-9
        for pl in combos(['cd', 'd'], [(n // 2 + 1,), (n,)]):
            case('inverse real fft', ['cd', 'd'], [(n // 2 + 1,), (n,)], pl, herm)
    x = M['signal._fftm_cd']
    for p, q in ((3, 4), (1, 5), (4, 1)):
        for axis in (0, 1):
            fw = x.fftm(p, q, 1.0, axis, 0, time)
            for pl in combos(['cd', 'cd'], [(p, q), (p, q)]):
                # axis 0: every row is transformed
                out_case('fftm axis %d' % axis, ['cd', 'cd'], [(p, q), (p, q)], pl, fw, lambda a: np.fft.fft(a, axis=1 - axis))
    x = M['signal._conv_d']
    for k, n, d in ((3, 8, 1), (2, 5, 2), (1, 3, 1)):
        for r, no in ((y.support_region.full, (n + k - 2) // d + 1), (y.support_region.same, (n - 1) // d + 1), (y.support_region.min, (n - k) // d + 1)):
            sh0 = {'full': 0, 'same': k // 2, 'min': k - 1}[str(r)]

            def want(h, a):
                w = np.convolve(h, a)
                return np.array([w[i * d + sh0] for i in range(no)])
            for pl in combos(['d'] * 3, [(k,), (n,), (no,)]):
                if len(set(p[0] for p in pl)) > 2 and (hash_of(pl) % 4):
                    continue
                out_case('convolution %s' % r, ['d'] * 3, [(k,), (n,), (no,)], pl,
                         lambda h, a, o: x.conv(h, y.symmetry.none, n, d, r, 0, time)(a, o), want)
    x = M['signal._corr_d']
    for k, n in ((3, 8), (1, 3)):
        for r, no in ((y.support_region.full, n + k - 1), (y.support_region.same, n), (y.support_region.min, n - k + 1)):
            sh0 = {'full': 0, 'same': k - 1 - k // 2, 'min': k - 1}[str(r)]

            def want(h, a):
                w = np.convolve(h[::-1], a)
                return w[sh0:sh0 + no]
            c = x.corr(k, n, r, 0, time)
            for pl in combos(['d'] * 3, [(k,), (n,), (no,)]):
                if len(set(p[0] for p in pl)) > 2 and (hash_of(pl) % 4):
                    continue
                out_case('correlation %s' % r, ['d'] * 3, [(k,), (n,), (no,)], pl, lambda h, a, o: c(y.bias.biased, h, a, o), want)
    x = M['signal._fir_d']
    for k, n, d in ((3, 6, 1), (4, 6, 2)):
        no = (n + d - 1) // d
        for pl in combos(['d'] * 3, [(k,), (n,), (no,)]):
            if len(set(p[0] for p in pl)) > 2 and (hash_of(pl) % 4):
                continue

            def body(h, a, o):
                f = x.fir(h.b, y.symmetry.none, n, d, y.obj_state.save, 0, time)
                w = np.convolve(h.m, np.concatenate([a.m, a.m]))[:2 * n:d]
                f(a.b, o.b)
                f(a.b, o.b)
                o.set(w[no:])
                o.tol = 1e-9
            case('fir, second frame', ['d'] * 3, [(k,), (n,), (no,)], pl, body)
    x = M['signal._iir_d']
    for n in (1, 6):
        for pl in combos(['d'] * 4, [(2, 3), (2, 2), (n,), (n,)]):
            if len(set(p[0] for p in pl)) > 2 and (hash_of(pl) % 8):
                continue

            def body(b, a, i, o):
                f = x.iir(b.b, a.b, n, y.obj_state.save, 0, time)
                w = i.m.copy()
                for s in range(2):
                    u, w = w, np.zeros(n)
                    for k in range(n):
                        w[k] = sum(b.m[s, j] * u[k - j] for j in range(3) if k >= j) - sum(a.m[s, j] * w[k - 1 - j] for j in range(2) if k >= j + 1)
                f(i.b, o.b)
                o.set(w)
                o.tol = 1e-7
            case('iir', ['d'] * 4, [(2, 3), (2, 2), (n,), (n,)], pl, body)


def hash_of(pl):
    import zlib
    return zlib.crc32(repr([p[0] for p in pl]).encode())


def part_solver():
    y = M['math.types']

    def regular(a):
        n = a.m.shape[1]
        v = a.m.copy()
        for i in range(min(a.m.shape)):
            v[i, i] += 11
        a.set(v)
        a.b.assign(mod('d').block(np.ascontiguousarray(v)))
    for n, p in ((1, 1), (3, 2), (4, 1)):
        for pl in combos(['d'] * 3, [(n, n), (n, p), (n, p)]):
            def lu(a, b, x):
                regular(a)
                f = M['math.solvers._lud_d'].lud(n)
                keep = a.m.copy()
                if not f.decompose(a.b):
                    mc.fail('lu', 'refused')
                a.set(np.array(a.b.__array__()))          # by reference: the argument's contents are undefined now
                f.solve(y.mat_op.trans, b.b, x.b)
                f.solve(y.mat_op.ntrans, b.b, x.b)
                x.set(np.linalg.solve(keep, b.m))
                x.tol = 1e-8
            case('lu solve', ['d'] * 3, [(n, n), (n, p), (n, p)], pl, lu)
    for m, n, p in ((3, 3, 2), (5, 3, 1), (1, 1, 1)):
        for pl in combos(['d'] * 3, [(m, n), (n, p), (n, p)]):
            def cov(a, b, x, obj=False):
                regular(a)
                keep = a.m.copy()
                if obj:
                    q = M['math.solvers._qrd_d'].qrd(m, n, y.storage.qrd_saveq)
                    q.decompose(a.b)
                    q.covsol(b.b, x.b)
                else:
                    M['math.solvers._covsol_d'].covsol(a.b, b.b, x.b)
                a.set(np.array(a.b.__array__()))
                x.set(np.linalg.solve(keep.T @ keep, b.m))
                x.tol = 1e-8
            case('covsol', ['d'] * 3, [(m, n), (n, p), (n, p)], pl, cov)
            case('qr covsol', ['d'] * 3, [(m, n), (n, p), (n, p)], pl, lambda a, b, x: cov(a, b, x, True))
        for pl in combos(['d'] * 3, [(m, n), (m, p), (n, p)]):
            def lls(a, b, x, obj=False):
                regular(a)
                keep = a.m.copy()
                if obj:
                    q = M['math.solvers._qrd_d'].qrd(m, n, y.storage.qrd_saveq)
                    q.decompose(a.b)
                    q.lsqsol(b.b, x.b)
                else:
                    M['math.solvers._llsqsol_d'].llsqsol(a.b, b.b, x.b)
                a.set(np.array(a.b.__array__()))
                x.set(np.linalg.lstsq(keep, b.m, rcond=None)[0])
                x.tol = 1e-8
            case('llsqsol', ['d'] * 3, [(m, n), (m, p), (n, p)], pl, lls)
            case('qr lsqsol', ['d'] * 3, [(m, n), (m, p), (n, p)], pl, lambda a, b, x: lls(a, b, x, True))
    for n in (2, 4):
        for pl in combos(['d'] * 4, [(n,)] * 4):
            if len(set(p[0] for p in pl)) > 2 and hash_of(pl) % 16:
                continue

            def toep(a, b, w, x):
                v = a.m.copy()
                v[0] += 20
                a.set(v)
                a.b.assign(mod('d').block(np.ascontiguousarray(v)))
                M['math.solvers._toepsol_d'].toepsol(a.b, b.b, w.b, x.b)
                w.set(np.array(w.b.__array__()))          # workspace
                t = np.array([[v[abs(i - j)] for j in range(n)] for i in range(n)])
                x.set(np.linalg.solve(t, b.m))
                x.tol = 1e-8
            case('toepsol', ['d'] * 4, [(n,)] * 4, pl, toep)
    for m, n in ((3, 3), (4, 2), (2, 3)):
        k = min(m, n)
        for pl in combos(['d'] * 4, [(m, n), (k,), (m, k), (n, k)]):
            if len(set(p[0] for p in pl)) > 2 and hash_of(pl) % 8:
                continue

            def svd(a, s, u, v):
                keep = a.m.copy()
                f = M['math.solvers._svd_d'].svd(m, n, y.storage.svd_uvpart, y.storage.svd_uvpart)
                f.decompose(a.b, s.b)
                a.set(np.array(a.b.__array__()))
                s.set(np.linalg.svd(keep, compute_uv=False))
                s.tol = 1e-8
                f.u(0, k - 1, u.b)
                f.v(0, k - 1, v.b)
                uu, vv = np.array(u.b.__array__()), np.array(v.b.__array__())
                u.set(uu)
                v.set(vv)
                if not close(uu @ np.diag(s.m) @ vv.T, keep, 1e-8):
                    mc.fail('svd', 'U S V^T is not the matrix')
                if not close(uu.T @ uu, np.eye(k), 1e-8) or not close(vv.T @ vv, np.eye(k), 1e-8):
                    mc.fail('svd', 'U or V is not orthogonal')
            case('svd', ['d'] * 4, [(m, n), (k,), (m, k), (n, k)], pl, svd)


def part_misc():
    import itertools
    # generators: every history of calls is one stream of scalar draws
    ops = [('randu()', (), 'u'), ('randn()', (), 'n'), ('randu(1)', (1,), 'u'), ('randu(5)', (5,), 'u'), ('randn(4)', (4,), 'n'), ('randu(2, 3)', (2, 3), 'u'),
           ('randn(3, 2)', (3, 2), 'n')]
    for t in ('d', 'f', 'cd'):
        r = M['_rand_' + t]
        for seed in (0, 7, 12345):
            for portable in (True, False):
                for h in itertools.product(range(len(ops)), repeat=3):
                    if not mc.next():
                        continue
                    mc.desc('%s generator %s, seed %d: %s' % ('portable' if portable else 'native', t, seed, ', '.join(ops[k][0] for k in h)))
                    mc.nontrivial()
                    try:
                        g, q = r.rand(seed, portable), r.rand(seed, portable)
                        for k in h:
                            name, sh, kind = ops[k]
                            f, d = (g.randu, q.randu) if kind == 'u' else (g.randn, q.randn)
                            n = int(np.prod(sh)) if sh else 1
                            want = np.array([d() for _ in range(n)], dtype=DT[t]).reshape(sh)
                            got = f(*sh)
                            got = np.array(got.__array__()) if sh else np.array(got, dtype=DT[t])
                            if got.shape != want.shape or not (got == want).all():
                                mc.fail('stream', '%s gives %r, the next draws are %r' % (name, got.tolist(), want.tolist()))
                                break
                            mc.step()
                    except Exception as e:
                        mc.fail('exception', '%s: %s' % (type(e).__name__, e))
    w = M['signal._window_d']
    for n in list(range(2, 34)) + [64, 65, 100, 257]:
        i = np.arange(n)
        for name, f, want in (('blackman', w.blackman, 0.42 - 0.5 * np.cos(2 * np.pi * i / (n - 1)) + 0.08 * np.cos(4 * np.pi * i / (n - 1))),
                              ('hanning', w.hanning, 0.5 * (1 - np.cos(2 * np.pi * (i + 1) / (n + 1))))):
            if mc.next():
                mc.desc('%s window of %d' % (name, n))
                result(f(n), want, 1e-9, name)
    c = M['_cast'].as_type
    for t in ('d', 'f', 'i'):
        for sh in ((1,), (6,), (17,), (3, 4), (5, 2)):
            for pl in combos([t], [sh]):
                for to in (float, np.float64, np.float32, complex, np.complex64):
                    def body(a):
                        b = c(to, a.b)
                        if not result(b, np.asarray(a.m).astype(to), 0, 'as_type'):
                            return False
                        # the converted block is a copy
                        b.put(*([0] * len(sh) + [99]))
                    case('as_type(%s) from %s' % (to.__name__, t), [t], [sh], pl, body)


NEEDS = {'misc': ['_block_d', '_block_f', '_block_i', '_block_cd', '_block_cf', '_rand_d', '_rand_f', '_rand_cd', 'signal._window_d', '_cast'],
         'elementwise': ['_block_b', '_block_d', '_block_cd', 'math._elementwise_d', 'math._elementwise_cd'],
         'matvec': ['_block_d', '_block_cd', 'math._matvec_d', 'math._matvec_cd', 'math._reductions_d'],
         'signal': ['_block_d', '_block_cd', 'selgen._clip_d', 'signal.types', 'signal._freqswap_d', 'signal._fft_d', 'signal._fft_cd', 'signal._fftm_cd', 'signal._conv_d',
                    'signal._corr_d', 'signal._fir_d', 'signal._iir_d'],
         'solver': ['_block_d', '_block_cd', 'math.types', 'math.solvers._lud_d', 'math.solvers._qrd_d', 'math.solvers._covsol_d', 'math.solvers._llsqsol_d',
                    'math.solvers._toepsol_d', 'math.solvers._svd_d']}
PARTS = {'misc': part_misc, 'elementwise': part_elementwise, 'matvec': part_matvec, 'signal': part_signal, 'solver': part_solver}


def run(mods, part):
    load(mods, *NEEDS[part])
    PARTS[part]()
