"""Bounded-exhaustive exploration of the Python bindings' blocks (the real extension modules).
The model of a block is a numpy view: every derivation (slice, row, column, diagonal, real or
imaginary part, copy) and every write is applied to both, and all blocks of the chain are compared."""
import importlib
import itertools
import sys
import types

import mc
import numpy as np

DT = {'f': np.float32, 'd': np.float64, 'cf': np.complex64, 'cd': np.complex128, 'i': np.int32, 'b': np.bool_}
REAL = {'cf': 'f', 'cd': 'd'}
M = {}
KEEP = []


def load(mods, *names):
    pkg = types.ModuleType('vsip')
    pkg.__path__ = [mods]
    sys.modules['vsip'] = pkg
    for n in ['library'] + list(names):
        if '.' in n and 'vsip.' + n.split('.')[0] not in sys.modules:
            p = n.split('.')[0]
            sub = types.ModuleType('vsip.' + p)
            sub.__path__ = [mods + '/' + p]
            sys.modules['vsip.' + p] = sub
            if p == 'math':
                solv = types.ModuleType('vsip.math.solvers')
                solv.__path__ = [mods + '/math/solvers']
                sys.modules['vsip.math.solvers'] = solv
        M[n] = importlib.import_module('vsip.' + n)
    KEEP.append(M['library'].library())


def value(t, k):
    if t == 'b':
        return bool((k * 7 // 3) % 2)
    if t == 'i':
        return 3 * k - 4
    v = 0.5 * k - 1.25
    return complex(v, 7.0 - k) if t in REAL else v


def fill(t, shape, base=0):
    n = int(np.prod(shape))
    return np.array([value(t, base + k) for k in range(n)], dtype=DT[t]).reshape(shape)


def mod(t):
    return M['_block_' + t]


def root(t, shape, base=0, how='array'):
    m = fill(t, shape, base)
    if how == 'array':
        return mod(t).block(m), m.copy()
    b = mod(t).block(*shape)
    for i in np.ndindex(*shape):
        b.put(*(list(i) + [m[i].item()]))
    return b, m.copy()


def read(b, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = b.get(*i)
    return out


def same(b, m):
    """None if block b shows what the model m holds, by element access and as an array."""
    if tuple(b.shape) != m.shape:
        return 'shape %r, expected %r' % (tuple(b.shape), m.shape)
    if b.size() != m.size or any(b.size(m.ndim, d) != m.shape[d] for d in range(m.ndim)):
        return 'size %r' % (b.size(),)
    r = read(b, m.shape)
    if not (r == m).all():
        return 'get gives %r, expected %r' % (r.tolist(), m.tolist())
    a = b.__array__()
    if a.shape != m.shape or a.dtype != m.dtype:
        return 'array of shape %r, type %r' % (a.shape, a.dtype)
    if not (a == m).all():
        return 'array %r, expected %r' % (a.tolist(), m.tolist())
    return None


S = slice
SLICES = [S(1, None), S(None, -1), S(None, None, 2), S(1, None, 2), S(None, None, -1), S(None, 0, -2), S(-2, None)]
SL2 = [(S(None), S(1, None)), (S(1, None), S(None)), (S(None, None, 2), S(None, None, -1)),
       (S(None, None, -1), S(1, None, 2)), (S(-2, None), S(None, 2))]


def sname(s):
    return ':'.join('' if x is None else str(x) for x in ((s.start, s.stop) if s.step is None else (s.start, s.stop, s.step)))


def derivations(t, nd):
    out = []
    if nd == 1:
        out += [('[%s]' % sname(s), (lambda s: lambda tt, b: mod(tt).subblock(b, s))(s), (lambda s: lambda m: m[s])(s)) for s in SLICES]
    else:
        out += [('[%s,%s]' % (sname(p[0]), sname(p[1])), (lambda p: lambda tt, b: mod(tt).subblock(b, p[0], p[1]))(p),
                 (lambda p: lambda m: m[p[0], p[1]])(p)) for p in SL2]
        for i in (0, 1, -1):
            out.append(('.row(%d)' % i, (lambda i: lambda tt, b: b.row(i))(i), (lambda i: lambda m: m[i, :])(i)))
            out.append(('.col(%d)' % i, (lambda i: lambda tt, b: b.col(i))(i), (lambda i: lambda m: m[:, i])(i)))
        out.append(('.diag()', lambda tt, b: b.diag(), lambda m: diagonal(m)))
    if t in REAL:
        out.append(('.real()', lambda tt, b: b.real(), lambda m: m.real))
        out.append(('.imag()', lambda tt, b: b.imag(), lambda m: m.imag))
    return out


def diagonal(m):
    n = min(m.shape)
    return np.lib.stride_tricks.as_strided(m, (n,), (m.strides[0] + m.strides[1],))


def chains(t, shape, depth):
    """every chain of derivations up to the depth, as lists of (name, real, model, type behind it)"""
    def rec(tt, m, chain, d):
        yield chain, m.shape, tt
        if not d:
            return
        for name, f, g in derivations(tt, m.ndim):
            try:
                r = g(m)
            except IndexError:
                continue
            if r.size == 0:
                continue
            t2 = REAL[tt] if name in ('.real()', '.imag()') else tt
            for x in rec(t2, r, chain + [(name, f, g, tt)], d - 1):
                yield x
    return rec(t, np.zeros(shape, dtype=DT[t]), [], depth)


def build(t, shape, chain, base=0, how='array'):
    b, m = root(t, shape, base, how)
    bs, ms = [b], [m]
    for name, f, g, tt in chain:
        bs.append(f(tt, bs[-1]))
        ms.append(g(ms[-1]))
    return bs, ms


def cname(t, shape, chain):
    return 'block(%s,%s)%s' % (t, 'x'.join(map(str, shape)), ''.join(c[0] for c in chain))


def compare(bs, ms, what):
    for k, (b, m) in enumerate(zip(bs, ms)):
        e = same(b, m)
        if e:
            mc.fail('view' if k else 'root', '%s: block %d of the chain: %s' % (what, k, e))
            return False
    return True


def dense(t, shape, base):
    m = fill(t, shape, base)
    return mod(t).block(m), m


def iop(op):
    def f(x, y):
        if op == '+':
            x += y
        elif op == '-':
            x -= y
        elif op == '*':
            x *= y
        elif hasattr(x, '__idiv__'):
            x = x.__idiv__(y)       # (the bindings' name of the operation)
        else:
            x /= y
        return x
    return f


def scalar(t, k):
    # exactly representable, products and quotients too
    v = {0: 2, 1: 4}[k % 2]
    if t == 'b':
        return True
    if t == 'i':
        return v
    return complex(0, v) if t in REAL else float(v)


def safe(step, f):
    try:
        return f()
    except Exception as e:
        mc.fail('exception', '%s: %s: %s' % (step, type(e).__name__, e))
        return None


def writes(t, shape, tt, vshape):
    n = int(np.prod(vshape))
    out = []
    for k in sorted(set([0, n // 2, n - 1])):
        i = np.unravel_index(k, vshape)
        i = [int(x) for x in i]

        def put(bs, ms, i=i):
            v = value(tt, 40)
            bs[-1].put(*(i + [v]))
            ms[-1][tuple(i)] = v
        out.append(('put(%s)' % ','.join(map(str, i)), put))

    def asg(bs, ms):
        d, m = dense(tt, vshape, 60)
        bs[-1].assign(d)
        ms[-1][...] = m
    out.append(('assign(block)', asg))

    def asgs(bs, ms):
        bs[-1].assign(scalar(tt, 1))
        ms[-1][...] = scalar(tt, 1)
    out.append(('assign(scalar)', asgs))

    def arr(bs, ms):
        a = bs[-1].__array__()
        m = fill(tt, vshape, 80)
        a[...] = m
        ms[-1][...] = m
    out.append(('array write', arr))
    if tt not in ('b', 'i'):
        for op in '+-*/':
            def cb(bs, ms, op=op):
                d, m = dense(tt, vshape, 60)
                if op in '*/':
                    m = np.full(vshape, scalar(tt, 1), dtype=DT[tt])
                    m.flat[0] = scalar(tt, 0)
                    d = mod(tt).block(m)
                b = bs[-1]
                r = iop(op)(b, d)
                x = iop(op)(ms[-1].copy(), m)
                ms[-1][...] = x
            out.append((op + '= block', cb))

            def cs(bs, ms, op=op):
                r = iop(op)(bs[-1], scalar(tt, 1))
                ms[-1][...] = iop(op)(ms[-1].copy(), DT[tt](scalar(tt, 1)))
            out.append((op + '= scalar', cs))
    return out


def part_block():
    th = mc.thorough()
    for t in ('d', 'cf', 'f', 'cd', 'i', 'b'):
        full = t in ('d', 'cf') or th
        for shape in ((6,), (1,), (3, 4), (4, 3), (2, 1)):
            depth = (3 if th else 2) if full else 1
            if len(shape) == 1 and t in ('d', 'cf'):
                depth = 3
            for chain, vshape, tt in chains(t, shape, depth):
                ws = writes(t, shape, tt, vshape)
                # reading
                if mc.next():
                    mc.desc(cname(t, shape, chain) + ': read')
                    if len(chain) > 1:
                        mc.nontrivial()
                    for how in ('array', 'put'):
                        r = safe('derive', lambda: build(t, shape, chain, 0, how))
                        if r is None:
                            break
                        mc.step()
                        bs, ms = r
                        if not safe('compare', lambda: compare(bs, ms, 'read')):
                            break

                        def more():
                            b, m = bs[-1], ms[-1]
                            c = b.copy()
                            e = same(c, m)
                            if e:
                                return mc.fail('copy', e)
                            c.put(*([0] * m.ndim + [value(tt, 50)]))
                            e = same(b, m)
                            if e:
                                return mc.fail('copy', 'the copy shares data: ' + e)
                            d, dm = dense(tt, m.shape, 0)
                            for x, y, xm, ym in ((b, d, m, dm), (d, b, dm, m), (b, b, m, m)):
                                q = x == y
                                e = same(q, xm == ym)
                                if e:
                                    return mc.fail('eq', e)
                            if tt != 'b':
                                e = same(-b, -m)
                                if e:
                                    return mc.fail('neg', e)
                            # the array, and the views, keep the data alive
                            a = b.__array__()
                            want = m.copy()
                            del b, c, d, x, y, q
                            last = bs[-1]
                            del bs[:]
                            other = [mod(t).block(fill(t, shape, 90)) for _ in range(4)]
                            e = same(last, want)
                            if e:
                                return mc.fail('lifetime', 'view after the death of its parents: ' + e)
                            del last
                            other += [mod(t).block(fill(t, shape, 95)) for _ in range(4)]
                            if not (a == want).all():
                                return mc.fail('lifetime', 'array after the death of its block: %r expected %r' % (a.tolist(), want.tolist()))
                        safe('read', more)
                for name, w in ws:
                    if not mc.next():
                        continue
                    mc.desc(cname(t, shape, chain) + ': ' + name)
                    if chain:
                        mc.nontrivial()
                    r = safe('derive', lambda: build(t, shape, chain))
                    if r is None:
                        continue
                    bs, ms = r
                    mc.step()

                    def go():
                        w(bs, ms)
                        compare(bs, ms, 'after ' + name)
                        mc.outcome(bs[0].__array__().tobytes())
                    safe(name, go)


def part_pair():
    """assignment, accumulation and comparison between two views of different blocks"""
    th = mc.thorough()
    for t in ('d', 'cf'):
        views = []
        for shape in ((6,), (3, 4), (4, 4)):
            for chain, vshape, tt in chains(t, shape, 2 if th or len(shape) == 1 else 1):
                views.append((shape, chain, vshape, tt))
        by = {}
        for v in views:
            by.setdefault((v[2], v[3]), []).append(v)
        for (vshape, tt), vs in sorted(by.items(), key=str):
            if np.prod(vshape) < 2:
                continue
            for dst, src in itertools.product(vs, vs):
                if not mc.next():
                    continue
                mc.desc('%s <- %s' % (cname(t, dst[0], dst[1]), cname(t, src[0], src[1])))
                mc.nontrivial()

                def go():
                    for name, f in (('assign', lambda b, m, b2, m2: (b.assign(b2), m.__setitem__(Ellipsis, m2))),
                                    ('+=', lambda b, m, b2, m2: (iop('+')(b, b2), m.__setitem__(Ellipsis, m + m2)))):
                        bs, ms = build(t, dst[0], dst[1])
                        bs2, ms2 = build(t, src[0], src[1], 31)
                        e = same(bs[-1] == bs2[-1], ms[-1] == ms2[-1])
                        if e:
                            return mc.fail('eq', e)
                        f(bs[-1], ms[-1], bs2[-1], ms2[-1])
                        mc.step()
                        if not compare(bs, ms, name) or not compare(bs2, ms2, name + ', source'):
                            return
                safe('pair', go)


def enumerate_all(mods):
    p = mc.arg('part')
    if p not in ('block', 'pair'):
        import c24f
        return c24f.run(mods, p)
    load(mods, '_block_f', '_block_d', '_block_cf', '_block_cd', '_block_i', '_block_b')
    sys.stdout.flush()
    {'block': part_block, 'pair': part_pair}[p]()
