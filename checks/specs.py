import vf
from vf import Prog

SPECS = {}
NOT_BUILT = {}


def spec(prop, level, progs, rule, bounds='', technique='', note='', **kw):
    SPECS[prop] = dict(property=prop, level=level, progs=progs, rule=rule, bounds=bounds,
                       technique=technique, note=note, **kw)


spec('C22', 'model_checking',
     [Prog('c22_pool', ['harness/c22_pool.cpp'], lib=['ovxx/huge_page_allocator.cpp', 'ovxx/allocator.cpp'],
           libflags=['-DOVXX_ENABLE_HUGE_PAGE_ALLOCATOR=1', '-include', 'cassert'], nofake=True, libs=[],
           ldflags=['-Wl,--wrap=mmap,--wrap=open,--wrap=remove,--wrap=close']),
      Prog('c22_heap', ['harness/c22_heap.cpp'], lib=['ovxx/allocator.cpp'], asan=True, nofake=True, libs=[])],
     rule='every allocation/deallocation history over a small alphabet of sizes up to the depth bound is executed '
          'on the real allocator; non-trivial: at least two blocks live at once',
     bounds='pool: depth 6 (coarse sizes) / 5 (rounding and whole-pool sizes), pools of 1, 3 and 129 pages; '
            'heap: depth 5; aligned_array: three variables, depth 4',
     technique='exhaustive enumeration of operation histories on the real allocators against an interval model',
     note='Covers every history within the bounds; larger pools, sizes and longer histories are not explored. Trusts the interval model in the harness; mmap is replaced by an arena of the harness.')


def nps(q, t, extra=()):
    mk = lambda l: [('np%d' % n, ['--np', str(n)] + list(extra)) for n in l]
    return dict(kind='fake', runs=mk(q), thorough_runs=mk(t))


def c02():
    return [Prog('c02_%d_%d' % (d, p), ['harness/c02_assign.cpp'], flags=['-DD_=%d' % d, '-DPART=%d' % p],
                 shards=4, **(nps([1, 2, 3], [1, 2, 3, 4]) if d == 1 else nps([2, 3], [1, 2, 3, 4])))
            for d, n in ((1, 3), (2, 6), (3, 3)) for p in range(n)] + \
        [Prog('c02_sub_%d' % d, ['harness/c02_subset.cpp'], flags=['-DD_=%d' % d], shards=4, **nps([2, 3], [1, 2, 3, 4]))
         for d in (1, 11, 12, 2)]


spec('C02', 'model_checking', c02,
     rule='every pair of map specifications (distribution, number of subblocks, contiguity, processor order) of the listed '
          'map types, shapes and element types; every assignment is executed on the real library under canonical schedules '
          'of the MPI model and compared element by element with the serial result',
     bounds='1 to 3 ranks (4 in the thorough tier), 1 to 3 dimensions, up to 8 elements per dimension and 19, 40, 17x9',
     technique='exhaustive enumeration of map pairs on the real code over a scheduled MPI model',
     note='Every map pair within the bounds, on the real library code over a deterministic MPI model (fakempi) in place of '
          'the MPI library; larger sizes and process counts are not explored.')


# the library's own parallel tests, which pass over the real MPI library, over the MPI model
CONFORM = ('subviews', 'transpose', 'assign', 'block', 'corner-turn', 'expr', 'fftm', 'getput', 'matrix_subviews', 'maxval', 'replicated_data', 'subset_map', 'user-storage', 'vmmul', 'vramp')


def c03(tier):
    conform = [Prog('c03_model_' + t, ['harness/mpi_conform.cpp'],
                    flags=['-I%s/support' % vf.REPO, '-I%s/tests' % vf.REPO, '-DTESTFILE="%s/tests/parallel/%s.cpp"' % (vf.REPO, t)],
                    ldflags=['-Wl,--wrap=main'], **nps([1, 2], [1, 2, 3, 4])) for t in CONFORM]
    return (conform if tier == 'thorough' else []) + [Prog('c03_seq%d' % l, ['harness/c03_seq.cpp'], flags=['-DLEN=%d' % l], shards=8,
                 **nps(q, t, ('--maxdfs', '30000' if l == 2 else '2000000')))
            for l, q, t in ((1, [2, 3], [1, 2, 3, 4]), (2, [2, 3], [2, 3, 4]), (3, [2], [2, 3]))]


spec('C03', 'model_checking', c03,
     rule='every sequence over 23 parallel operations (assignments between block, cyclic, replicated and partial distributions, '
          'distributed expressions, transposes, element get and put, reductions, early-bound assignments, direct communicator '
          'traffic) up to the length bound; for each, every interleaving of MPI calls and every choice of eager or rendezvous '
          'completion of each send within the preemption bound, by depth-first search over the scheduled MPI model',
     bounds='2 ranks: length 1 with 3 preemptions, length 2 with 1, length 3 canonical schedules; 3 ranks: length 1 with 0 '
            'preemptions, length 2 canonical; thorough: one more preemption each and 4 ranks',
     technique='stateless exploration of all schedules of the real code over a deterministic MPI model (preemption-bounded DFS)',
     note='Deadlocks, message mismatches, wrong results, schedule-dependent results and leaked MPI objects are detected on '
          'every explored schedule; only the MPI library is modelled. Schedules beyond the preemption bound are not explored.')


def c04(tier):
    out = []
    def mk(d, part, et=None, q=(2, 3), t=(1, 2, 3, 4)):
        tag = '' if et is None else 'c' if et == CF else 'f'
        out.append(Prog('c04_%d%d%s' % (d, part, tag), ['harness/c04_expr.cpp'],
                        flags=['-DD_=%d' % d, '-DPART=%d' % part] + (['-DET=' + et] if et else []), shards=4, **nps(q, t)))
    for p in range(6): mk(1, p, q=(1, 2, 3) if p == 4 else (2, 3))
    for p in range(6): mk(2, p)
    for p in range(3): mk(3, p)
    for p in (0, 2, 4): mk(1, p, CF)
    if tier == 'thorough':
        for p in (1, 3, 5): mk(1, p, CF)
        for p in range(6): mk(2, p, CF)
        for p in range(3): mk(3, p, 'float')
    return out


spec('C04', 'model_checking', c04,
     rule='every combination of destination and operand maps (distribution, number of subblocks, contiguity, processor order, replication) of the listed map '
          'types: element-wise expressions of one and two operands, nested operators, compound assignment, three-operand functions, user functions, ramps, '
          'sub-views, rows, columns, transposes, vector-matrix products, real and imaginary parts, all reductions with and without index, logical reductions '
          'over every position of the deciding element, element reads and writes; each run on the real library on every rank and compared with the serial result',
     bounds='2 and 3 ranks (1 to 4 thorough); up to 8 elements in one dimension (11 thorough) and 17, 3x4 and 5x2, 2x3x4; double and complex<float> (float thorough)',
     technique='exhaustive enumeration of operand maps and operations on the real code over a scheduled MPI model',
     note='Every case within the bounds under canonical schedules of the MPI model; mappings the library refuses (sub-views of cyclic maps, unsupported vmmul maps other than a vector over the same processors in another order) are left out.')


def c01():
    return [Prog('c01_maps%d' % d, ['harness/c01_maps.cpp'], flags=['-DD_=%d' % d], shards=4,
                 **nps([1, 2, 3, 4], [1, 2, 3, 4, 5, 6])) for d in (1, 2, 21, 3, 31, 32)]


spec('C01', 'model_checking', c01,
     rule='every specification (distribution per dimension, number of subblocks, cyclic contiguity, processor order) of the '
          'listed map types on every shape; for each, every element, subblock, patch and processor is visited on every rank '
          'and compared with an independent ownership reference; likewise for the maps of every sub-domain, row, column, '
          'slice, line and transpose, and for every pair of maps compared for equality',
     bounds='1 to 4 ranks (6 thorough), 1-D sizes 1 to 10 (16) and 17, 33, 64, 100, small 2-D and 3-D shapes, contiguities 1 to 3 (5)',
     technique='exhaustive enumeration of map specifications, indices and ranks on the real code against a reference partition',
     note='Everything within the bounds; larger sizes are not explored. Sub-domains of cyclic maps and local views of '
          'sub-domains of sub-domains are refused by the library (unimplemented) and not covered.')


CF, CD = 'std::complex<float>', 'std::complex<double>'


def c07(tier):
    out = []

    def add(name, d, et, order, fmt, depth, pack='dense', *extra):
        out.append(Prog('c07_' + name, ['harness/c07_views.cpp'], shards=2 if d > 1 else 1,
                        flags=['-DD_=%d' % d, '-DET=' + et, '-DORDER=' + order, '-DPACK=' + pack,
                               '-DFORMAT=' + fmt, '-DDEPTH=%d' % depth] + list(extra)))
    add('1f', 1, 'float', 'row1_type', 'array', 3, 'dense', '-DDENSE')
    add('1i', 1, 'int', 'row1_type', 'array', 2, 'unit_stride')
    add('1c', 1, CF, 'row1_type', 'array', 3)
    add('1ci', 1, CF, 'row1_type', 'interleaved_complex', 3, 'dense', '-DNOREIM')
    add('1cs', 1, CF, 'row1_type', 'split_complex', 3)
    for o in ('row2_type', 'col2_type'):
        k = o[0]
        add('2f' + k, 2, 'float', o, 'array', 3, 'dense', '-DDENSE')
        add('2c' + k, 2, CF, o, 'array', 2, 'dense', '-DDENSE')
        add('2cs' + k, 2, CF, o, 'split_complex', 2)
        add('2a' + k, 2, 'double', o, 'array', 2, 'aligned_16')
        add('2as' + k, 2, CD, o, 'split_complex', 2, 'aligned_8')
    for i, o in enumerate(('0,1,2', '0,2,1', '1,0,2', '1,2,0', '2,0,1', '2,1,0')):
        t = 'tuple<%s>' % o
        n = o.replace(',', '')
        deep = tier == 'thorough'
        add('3f' + n, 3, 'float', t, 'array', 3 if deep and i in (0, 3) else 2, 'dense', '-DDENSE')
        add('3a' + n, 3, 'double', t, 'array', 1 + deep, 'aligned_16')
        add('3s' + n, 3, CF, t, 'split_complex', 2 if deep or i in (0, 4) else 1, 'dense', '-DNOREF')
        add('3c' + n, 3, CF, t, 'array', 2 if deep or i in (1, 5) else 1, 'dense', '-DNOREF')

    def elem(name, d, et, order, fmt, pack='dense', *extra):
        out.append(Prog('c07_e' + name, ['harness/c07_elem.cpp'],
                        flags=['-DD_=%d' % d, '-DET=' + et, '-DORDER=' + order, '-DPACK=' + pack, '-DFORMAT=' + fmt] + list(extra)))
    elem('1f', 1, 'float', 'row1_type', 'array', 'dense', '-DDENSE')
    elem('1s', 1, CF, 'row1_type', 'split_complex')
    elem('1i', 1, CF, 'row1_type', 'interleaved_complex', 'dense', '-DNOREIM')
    elem('2s', 2, CD, 'row2_type', 'split_complex', 'aligned_16')
    elem('2c', 2, CF, 'col2_type', 'array', 'dense', '-DDENSE')
    elem('3s', 3, CF, 'tuple<1,0,2>', 'split_complex', 'dense', '-DNOREF')
    elem('3f', 3, 'double', 'tuple<2,0,1>', 'array', 'aligned_16')
    return out


spec('C07', 'model_checking', c07,
     quick_opt='-O0',
     rule='every composition of view operations (sub-domain with positive and negative strides, row, column, diagonal, slice, '
          'line, transpose, real and imaginary part) up to the depth bound, on root blocks over guarded memory; for each, every '
          'element is read and written by itself, then the whole view is assigned, copied, accessed directly and aliased, and '
          'after every step the whole memory of the root is compared with a reference memory; and 22 forms of element expression '
          '(v(i) = w(j), v(i) += x, x -= v(j), v(i) * v(j), ...) for every pair of elements of every kind of subview',
     bounds='depth 3 in one and two dimensions, 2 (3 for two orders, thorough) in three; all 11 dimension orders; dense and padded packing; '
            'array, interleaved and split complex; up to 5 elements per dimension, and 17, 40, 17x4, 5x8, 4x5x3, 2x3x9 in shorter chains',
     technique='exhaustive enumeration of view compositions on the real code against a reference memory',
     note='Every composition within the bounds. Larger shapes and deeper compositions are not explored.')


def c08(tier):
    out = []
    seen = {}

    def add(d, td, a, b, *extra):
        # a, b: (element type, order, packing, format)
        name = 'c08_%d%d_%d' % (d, td, seen.setdefault((d, td), 0))
        seen[(d, td)] += 1
        f = ['-DD_=%d' % d, '-DTDIM=%d' % td]
        for i, x in ((1, a), (2, b)):
            f += ['-DET%d=%s' % (i, x[0]), '-DORDER%d=%s' % (i, x[1]), '-DPACK%d=%s' % (i, x[2]), '-DFORMAT%d=%s' % (i, x[3])]
        out.append(Prog(name, ['harness/c08_assign.cpp'], flags=f + list(extra)))

    A, S, I = 'array', 'split_complex', 'interleaved_complex'
    # 1-D
    r1 = 'row1_type'
    for t, u in (('float', 'float'), ('float', 'int'), ('double', 'float'), ('int', 'int'), (CF, 'float'), (CD, 'double'), (CD, CD), ('bool', 'bool')):
        add(1, 1, (t, r1, 'dense', A), (u, r1, 'unit_stride', A))
    for f, g in ((A, S), (S, A), (S, S), (A, I), (I, A), (I, S), (S, I), (I, I)):
        add(1, 1, (CF, r1, 'dense', f), (CF, r1, 'dense', g))
    add(1, 1, ('float', r1, 'dense', A), (CF, r1, 'dense', A), '-DPARTS', '-DPART2=true')
    add(1, 1, (CF, r1, 'dense', A), ('float', r1, 'dense', A), '-DPARTS', '-DPART1=true')
    add(1, 1, (CF, r1, 'dense', S), (CF, r1, 'dense', A), '-DPARTS', '-DPART1=true', '-DPART2=true')
    add(1, 1, ('double', r1, 'dense', A), (CD, r1, 'dense', S), '-DPARTS', '-DPART2=true')
    # vectors in matrices
    rc = ('row2_type', 'col2_type')
    for o in rc:
        for p in rc:
            add(2, 1, ('float', o, 'dense', A), ('float', p, 'aligned_8', A))
            add(2, 1, (CF, o, 'dense', S), (CF, p, 'dense', A))
            add(2, 2, ('float', o, 'dense', A), ('float', p, 'dense', A), '-DDENSE1', '-DDENSE2')
            add(2, 2, ('double', o, 'dense', A), ('double', p, 'aligned_16', A))
            add(2, 2, (CF, o, 'aligned_8', A), (CF, p, 'dense', A))
            add(2, 2, (CF, o, 'dense', S), (CF, p, 'dense', S))
            add(2, 2, (CF, o, 'dense', S), (CF, p, 'dense', A))
            add(2, 2, (CF, o, 'dense', A), (CF, p, 'dense', S))
            add(2, 2, ('float', o, 'dense', A), ('int', p, 'dense', A))
            add(2, 2, (CD, o, 'dense', A), ('double', p, 'dense', A))
        add(2, 2, ('float', o, 'dense', A), (CF, 'row2_type', 'dense', A), '-DPARTS', '-DPART2=true')
        add(2, 2, (CF, o, 'dense', S), (CF, 'col2_type', 'dense', A), '-DPARTS', '-DPART1=true', '-DPART2=true')
        for t, k, f in (('float', 'dense', A), ('double', 'aligned_16', A), (CF, 'dense', A), (CF, 'dense', S), ('int', 'dense', A)):
            for td in (1, 2):
                add(2, td, (t, o, k, f), (t, o, k, f), '-DSINGLE')
    for t, f in (('float', A), (CF, A), (CF, S), (CF, I), ('bool', A)):
        add(1, 1, (t, r1, 'dense', f), (t, r1, 'dense', f), '-DSINGLE')
    o3 = ['tuple<%s>' % o for o in ('0,1,2', '0,2,1', '1,0,2', '1,2,0', '2,0,1', '2,1,0')]
    for i, o in enumerate(o3):
        for j, p in enumerate(o3):
            if tier == 'thorough' or (i + j) % 2 == 0:
                add(3, 3, ('float', o, 'dense', A), ('float', p, 'dense', A), '-DPERM')
            if tier == 'thorough' or (i + j) % 6 == 1:
                add(3, 3, (CF, o, 'aligned_8', A), (CF, p, 'dense', S), '-DPERM')
            if tier == 'thorough' or (i + j) % 6 == 3:
                add(3, 3, ('double', o, 'aligned_16', A), ('int', p, 'dense', A), '-DPERM')
        add(3, 3, (CF, o, 'dense', S), (CF, o, 'dense', S), '-DSINGLE')
    return out


spec('C08', 'model_checking', c08,
     rule='every pair of a destination and a source placement (whole block, sub-domains with positive and negative strides, rows, '
          'columns, diagonals, transposes, permutations, real and imaginary parts) of every size, for each pair of layouts and '
          'element types; the whole memory of both blocks, guards and padding included, is compared with a reference after each '
          'assignment; scalar assignment, self-assignment and in-place square transposes for each layout',
     bounds='up to 6 elements (10 thorough) in one dimension, 4x4 (5x5) in two and 3x3x3 in three, and a ladder of sizes up to 1025, 65x5 and 5x17x4; all dimension orders; dense and '
            'padded packing; array, interleaved and split complex; 8 pairs of element types',
     technique='exhaustive enumeration of layout pairs and view placements on the real code against a reference memory',
     note='Every case within the bounds. Partially overlapping operands are excluded (undefined by the specification).')


def c09(tier):
    out = []
    A, S, I = 'array', 'split_complex', 'interleaved_complex'

    def add(name, d, et, order, pack, fmt, *extra):
        out.append(Prog('c09_' + name, ['harness/c09_dda.cpp'],
                        flags=['-DD_=%d' % d, '-DET=' + et, '-DORDER=' + order, '-DPACK=' + pack, '-DFORMAT=' + fmt] + list(extra)))
    add('1f', 1, 'float', 'row1_type', 'dense', A, '-DDENSE', '-DRUNTIME', '-DALIGNED', '-DPERSISTENT')
    add('1i', 1, 'int', 'row1_type', 'unit_stride', A, '-DRUNTIME')
    add('1c', 1, CF, 'row1_type', 'dense', A, '-DPARTS', '-DRUNTIME', '-DPERSISTENT')
    add('1cs', 1, CF, 'row1_type', 'dense', S, '-DPARTS', '-DPERSISTENT')
    add('1d', 1, CD, 'row1_type', 'dense', A, '-DPARTS', '-DALIGNED')
    for o in ('row2_type', 'col2_type'):
        k = o[0]
        add('2f' + k, 2, 'float', o, 'dense', A, '-DDENSE', '-DRUNTIME')
        add('2g' + k, 2, 'float', o, 'dense', A, '-DDENSE', '-DALIGNED')
        add('2d' + k, 2, 'double', o, 'aligned_16', A, '-DRUNTIME', '-DPERSISTENT')
        add('2c' + k, 2, CF, o, 'dense', A, '-DPARTS', '-DRUNTIME')
        add('2p' + k, 2, CF, o, 'aligned_8', S, '-DPARTS', '-DPERSISTENT')
        add('2s' + k, 2, CF, o, 'dense', S)
    o3 = ['0,1,2', '0,2,1', '1,0,2', '1,2,0', '2,0,1', '2,1,0']
    for i, o in enumerate(o3):
        def three(n, et, pack, fmt, a, b, perm, *extra):
            add('3%s%d' % (n, i), 3, et, 'tuple<%s>' % o, pack, fmt, '-DREQ0=tuple<%s>' % o3[a % 6], '-DREQ1=tuple<%s>' % o3[b % 6],
                '-DPERM=' + o3[perm % 6], *extra)
        three('f', 'float', 'dense', A, i, i + 1, i + 3, '-DDENSE', '-DRUNTIME')
        if tier == 'thorough' or i % 2 == 0:
            three('c', CF, 'aligned_8', A, i + 2, i + 3, i + 4, '-DRUNTIME')
        if tier == 'thorough' or i % 2 == 1:
            three('s', CF, 'dense', S, i + 4, i, i + 5)
        if tier == 'thorough':
            three('g', 'float', 'dense', A, i + 2, i + 3, i + 1, '-DDENSE', '-DALIGNED')
            three('h', 'double', 'aligned_16', A, i + 4, i + 5, i + 2, '-DPERSISTENT')
    for d in (1, 2, 3):
        for n, et, f in (('d', 'double', A), ('s', CF, S)):
            out.append(Prog('c09_dist%d%s' % (d, n), ['harness/c09_dist.cpp'], flags=['-DD_=%d' % d, '-DET=' + et, '-DFORMAT=' + f],
                            asan=True, **nps([1, 2, 3], [1, 2, 3, 4])))
    return out


spec('C09', 'model_checking', c09,
     quick_opt='-O0',
     rule='for every view (whole, sub-domains with positive and negative strides, rows, columns, diagonals, transposes and permutations, '
          'real and imaginary parts, expressions) of blocks of each layout: every requested dimension order, packing and complex format, '
          'every access policy (in, out, inout, with and without a forced copy), with and without a user buffer, and every history of '
          'reading, writing and explicit synchronisation of the harness; run-time layouts, persistent access and access to distributed blocks on every map likewise',
     bounds='up to 6 elements (9 thorough) in one dimension, 3x4 (5x6) in two, 2x3x3 (3x4x3) in three, and 16, 17, 33, 100, 17x9; requests for all orders, 4 to 7 '
            'packings, array and split format; four histories of up to three synchronisations',
     technique='exhaustive enumeration of access histories on the real code against a reference memory',
     note='Every case within the bounds. Interleaved-complex requests do not compile in the library and are not covered.')


def formats(name, src, combos, extra=(), **kw):
    return [Prog('%s_%s' % (name, n), [src], flags=['-DET=' + t, '-DFORMAT=' + f] + list(extra), **kw) for n, t, f in combos]


REALCPLX = (('f', 'float', 'array'), ('d', 'double', 'array'), ('c', CF, 'array'), ('cs', CF, 'split_complex'), ('z', CD, 'array'))

spec('C11', 'model_checking', formats('c11', 'harness/c11_fir.cpp', REALCPLX),
     rule='every filter geometry (kernel length, symmetry, input size, decimation, state saving) and every history of filtering '
          'the next block, copying the object, assigning objects and resetting, up to the depth bound; after each step the '
          'output, the geometry and every live copy are compared with a direct evaluation of the defining sum over the whole '
          'input history',
     bounds='kernels of up to 4 coefficients (6 thorough), inputs up to 6, decimation up to 3, histories of up to 5 (6) steps; kernels up to 33 and inputs up to 164 in shorter histories',
     technique='exhaustive enumeration of operation histories on the real filter objects against the defining sum',
     note='Every history within the bounds. Output positions beyond the returned count are unspecified and not compared.')

spec('C12', 'model_checking', formats('c12', 'harness/c12_iir.cpp', REALCPLX),
     rule='every number of sections, input size and state policy, and every history of filtering, copying, assigning and '
          'resetting up to the depth bound, against a cascade of direct-form sections evaluated over the whole input history',
     bounds='up to 3 sections, inputs up to 4 samples, histories of up to 5 (6 thorough) steps; longer inputs up to 64 in shorter histories',
     technique='exhaustive enumeration of operation histories on the real filter objects against the difference equation',
     note='Every history within the bounds; compared within a rounding tolerance.')


def c13(tier):
    out = []

    def add(n, d, t, f, pack, *extra):
        out.append(Prog('c13_' + n, ['harness/c13_conv.cpp'], flags=['-DD_=%d' % d, '-DET=' + t, '-DFORMAT=' + f, '-DPACK=' + pack] + list(extra)))
    A, S = 'array', 'split_complex'
    add('1f', 1, 'float', A, 'dense')
    add('1z', 1, CD, S, 'dense')
    add('1c', 1, CF, A, 'dense')
    add('1i', 1, 'int', A, 'dense', '-DNOCORR')
    r, c = 'row2_type', 'col2_type'
    for n, t, f, p, a, b in (('2d', 'double', A, 'dense', r, r), ('2dc', 'double', A, 'aligned_16', c, r), ('2c', CF, A, 'dense', r, c),
                             ('2cs', CF, S, 'dense', c, c), ('2i', 'int', A, 'dense', r, c)):
        add(n, 2, t, f, p, '-DORDER1=' + a, '-DORDER2=' + b, *(['-DNOCORR'] if t == 'int' else []))
    return out


spec('C13', 'model_checking', c13,
     rule='every geometry (kernel shape, symmetry, region of support, input shape, decimation; for correlation reference shape, '
          'region of support and bias) of 1-D and 2-D objects, each applied five times to views of different placements in memory '
          '(strides, reversed strides, both dimension orders); outputs, inputs, guards and reported sizes are compared with the defining sum',
     bounds='1-D: kernels up to 4 (8 with symmetry), inputs up to 8 (12 thorough), decimation up to 3 (5); 2-D: kernels up to 2x3, inputs up to 4x5; ladders up to kernels of 64 and 8x8, inputs of 257 and 17x33, decimation 17',
     technique='exhaustive enumeration of object geometries and call sequences on the real code against the defining sum',
     note='Every case within the bounds; floating-point results are compared within a rounding tolerance.')

spec('C17', 'model_checking',
     [Prog('c17_' + n, ['harness/c17_random.cpp'], flags=['-DET=' + t]) for n, t in (('f', 'float'), ('d', 'double'), ('c', CF), ('z', CD))] +
     [Prog('c17_period', ['harness/c17_random.cpp'], flags=['-DET=float', '-DPERIOD'])],
     rule='every history of draws (scalars, vectors, matrices, tensors, uniform and normal, into new objects and into views) up to the '
          'depth bound from generators of selected seeds, subsequence counts and ids in both modes; every number of subsequences and '
          'every id with the first draws; the whole 2^32-step period of the portable corrector sequence for eight ids',
     bounds='histories of 3 (4 thorough) draws out of 17, 12 configurations in both modes; up to 100 (256) subsequences, 6 seeds; views of 1 to 1025, 33x17 and 16x3x33 elements; 4 element types',
     technique='exhaustive enumeration of draw histories and configurations on the real generators against the defining recurrence',
     note='Every case within the bounds; sums are compared within a rounding tolerance.')

spec('C20', 'model_checking', [Prog('c20_domain', ['harness/c20_domain.cpp'])],
     rule='every domain and every pair of domains of small first index, stride (negative included) and length: arithmetic, comparison, '
          'conformance, intersection, conversion to local coordinates, normalisation, compared with explicit index sets; index arithmetic; '
          'traversal of every small index space in every order; every dimension order, packing and alignment of every small shape, '
          'at compile time and at run time: distinct offsets within the total size, by strides, lines aligned',
     bounds='first index up to 7 (11 thorough), strides up to 4 (6), lengths up to 5 (7); up to three dimensions of up to 4 (5 or 6) elements, '
            'aligned lines around the alignment; alignments 8 to 1024',
     technique='exhaustive enumeration of domains and layouts on the real code against explicit index sets',
     note='Every case within the bounds. Domains with stride zero, and intersections whose first operand is not contiguous (refused), are not covered.')

O3 = ['tuple<%s>' % o for o in ('0,1,2', '0,2,1', '1,0,2', '1,2,0', '2,0,1', '2,1,0')]


def c16(tier):
    out = []
    S, I = 'split_complex', 'interleaved_complex'

    def fn(n, kind, t, f='array', subs=(0, 1)):
        for k in subs:
            out.append(Prog('c16_fn_%s%d' % (n, k), ['harness/c16_fn.cpp'], flags=['-D' + kind, '-DET=' + t, '-DFORMAT=' + f, '-DSUBKIND=%d' % k]))
    fn('rf', 'REALS', 'float')
    fn('rd', 'REALS', 'double', subs=(0, 1) if tier == 'thorough' else (1,))
    fn('cf', 'COMPLEXES', CF)
    fn('cd', 'COMPLEXES', CD, subs=(0, 1) if tier == 'thorough' else (0,))
    fn('cs', 'COMPLEXES', CF, S, subs=(0, 1) if tier == 'thorough' else (1,))
    if tier == 'thorough':
        fn('ci', 'COMPLEXES', CF, I)
    fn('i', 'INTS', 'int')
    fn('b', 'BOOLS', 'bool')
    fn('tf', 'ITES', 'float')
    fn('ti', 'ITES', 'int')

    def tree(n, d, t, f, pack, a, b, o, *x):
        out.append(Prog('c16_tree_' + n, ['harness/c16_tree.cpp'],
                        flags=['-DDIM=%d' % d, '-DET=' + t, '-DFORMAT=' + f, '-DPACK=' + pack, '-DORDER_A=' + a, '-DORDER_B=' + b, '-DORDER_D=' + o] + list(x)))
    r, c, one = 'row2_type', 'col2_type', 'row1_type'
    for k, op in enumerate(('PLUS', 'MINUS', 'TIMES')):
        tree('1f' + op, 1, 'float', 'array', 'dense', one, one, one, '-D' + op)
        if tier == 'thorough':
            tree('1s' + op, 1, CF, S, 'dense', one, one, one, '-D' + op)
            tree('2f' + op, 2, 'double', 'array', 'dense', r, c, r, '-D' + op)
    tree('2c', 2, CF, 'array', 'dense', r, c, c, '-DPLUS')
    tree('1f', 1, 'float', 'array', 'dense', one, one, one, '-DMODES=4')
    tree('1d', 1, 'double', 'array', 'dense', one, one, one, '-DMODES=3')
    tree('1c', 1, CF, 'array', 'dense', one, one, one, '-DMODES=3')
    tree('1s', 1, CF, S, 'dense', one, one, one)
    tree('2frr', 2, 'float', 'array', 'dense', r, r, r)
    tree('2fcr', 2, 'float', 'array', 'dense', c, c, r)
    tree('2frc', 2, 'float', 'array', 'aligned_16', r, c, c)
    tree('2ccc', 2, CF, 'array', 'dense', c, c, c)
    tree('2src', 2, CF, S, 'aligned_8', r, r, c)
    for i, o in enumerate(O3):
        if tier == 'thorough' or i % 2:
            tree('3f%d' % i, 3, 'float', 'array', 'dense', O3[(i + 1) % 6], O3[(i + 3) % 6], o)
        else:
            tree('3c%d' % i, 3, CF, S if i == 2 else 'array', 'dense', o, o, o, '-DMODES=1')

    def place(n, t, fmt, d, ap):
        out.append(Prog('c16_place_%s_%s' % (n, ap), ['harness/c16_place.cpp'], flags=['-DET=' + t, '-DFMT=%d' % fmt, '-DDIM=%d' % d, '-DAP=' + ap]))
    p1 = ('wholev', 'strided', 'revv', 'rowline', 'column', 'diagonal', 'rowpart', 'tensorline')
    p2 = ('mrow', 'mcol', 'msub', 'mtrans', 'mtransc', 'plane', 'planemid')
    for ts, d in ((p1, 1), (p2, 2)):
        for i, ap in enumerate(ts):
            kinds = (('f', 'float', 0), ('c', CF, 0), ('s', CF, 1), ('d', 'double', 0))
            for j, (n, t, f) in enumerate(kinds):
                if tier == 'thorough' or i % 3 == j:
                    place(n, t, f, d, ap)
    for n, t in (('f', 'float'), ('d', 'double')):
        out.append(Prog('c16_component_' + n, ['harness/c16_place.cpp'], flags=['-DET=' + t, '-DFMT=0', '-DCOMPONENTS']))
    out.append(Prog('c16_convert', ['harness/c16_place.cpp'], flags=['-DET=float', '-DFMT=0', '-DCONVERSIONS']))
    return out


spec('C16', 'model_checking', c16,
     quick_opt='-O0',
     rule='every element-wise function and operator over every combination of a table of argument values (special ones included), with every '
          'mixture of view and scalar arguments, whole and strided or reversed operands and destinations; every expression tree of depth two '
          'over + - * / unary minus, squares, fused shapes and scalars, assigned and compound-assigned, read element by element; a set of '
          'expressions and user element functions over every pair of placements (parts, lines, planes, diagonals, transposes, components); '
          'conversions between element types; compared with scalar evaluation, and all memory outside the destination unchanged',
     bounds='11 to 16 argument values per operand; trees of depth two (selected to depth four); views of up to 17 elements, 5x5, 4x5x3; all dimension '
            'orders; float, double, complex array and split (interleaved thorough), int, bool',
     technique='exhaustive enumeration of expression trees, placements and argument tables on the real code against scalar evaluation',
     note='Every case within the bounds. Floating-point results are compared within a rounding tolerance that follows the magnitude of the intermediate values.')


def c10(tier):
    out = []

    def add(n, d, t, f='array', pack='dense', order='row1_type', *extra):
        out.append(Prog('c10_' + n, ['harness/c10_reduce.cpp'], shards=8 if extra else 2,
                        flags=['-DD_=%d' % d, '-DET=' + t, '-DFORMAT=' + f, '-DPACK=' + pack, '-DORDER=' + order] + list(extra)))
    S = 'split_complex'
    add('1f', 1, 'float', 'array', 'dense', 'row1_type', '-DLONG')
    add('1d', 1, 'double', 'array', 'dense', 'row1_type', '-DLONG')
    add('1c', 1, CF, 'array', 'dense', 'row1_type', '-DLONG')
    add('1s', 1, CF, S, 'dense', 'row1_type', '-DLONG')
    add('1z', 1, CD)
    add('1i', 1, 'int')
    add('1b', 1, 'bool')
    for o in ('row2_type', 'col2_type'):
        k = o[0]
        add('2f' + k, 2, 'float', 'array', 'dense', o, '-DLONG')
        add('2c' + k, 2, CF, 'array', 'dense', o, '-DLONG')
        add('2s' + k, 2, CF, S, 'aligned_8', o)
        add('2d' + k, 2, 'double', 'array', 'aligned_16', o)
        add('2i' + k, 2, 'int', 'array', 'dense', o)
        add('2b' + k, 2, 'bool', 'array', 'dense', o)
    for i, o in enumerate(O3):
        add('3f%d' % i, 3, 'float', 'array', 'dense', o)
        add('3i%d' % i, 3, ('int', 'bool')[i % 2], 'array', 'aligned_8' if i % 2 else 'dense', o)
        if i % 2 or tier == 'thorough':
            add('3c%d' % i, 3, CF, 'array', 'dense', o)
        if i % 2 == 0 or tier == 'thorough':
            add('3s%d' % i, 3, CF, S, 'aligned_16', o)
    return out


spec('C10', 'model_checking', c10,
     rule='every pattern of values over an alphabet of four (two for bool) on every small view (whole, sub-domains, rows, columns, '
          'diagonals, slices, transposes, permutations), every pair of positions differing from the rest on larger ones, and their '
          'expression forms: every reduction, compared with its definition, and the index with the element it names; vectors around '
          'multiples of 4096 elements, where sums are accumulated in blocks, in several placements',
     bounds='all patterns up to 6 elements (7 thorough) in one dimension and 4 (6) in more; shapes up to 6 (8), 4x4 (5x5), 3x3x3; all dimension '
            'orders; float, double, int, bool, complex array and split; vectors of 4095 to 12293 elements',
     technique='exhaustive enumeration of value patterns and views on the real code against the definitions',
     note='Every case within the bounds; sums are compared within a rounding tolerance. Which of several equal extrema is named is unspecified and not checked.')


def c18(tier):
    out = []

    def add(n, t, f, *extra):
        out.append(Prog('c18_' + n, ['harness/c18_matvec.cpp'], flags=['-DET=' + t, '-DFMT=%d' % f] + list(extra)))
    kinds = (('f', 'float', 0), ('d', 'double', 0), ('c', CF, 0), ('z', CD, 0), ('s', CF, 1))
    aps = ('mrow', 'mcol', 'mcolsub', 'mrowsub', 'mrev', 'mcolrev', 'mskip', 'mtrans', 'plane')
    for i, (n, t, f) in enumerate(kinds):
        add('v' + n, t, f, '-DVECTORS')
        for j, ap in enumerate(aps):
            if tier == 'thorough' or (i + j) % 3 == 0 or (i == 0 and j < 6):
                add('mv%s_%s' % (n, ap), t, f, '-DMATVEC', '-DAPS=' + ap)
        for j, d in enumerate(aps):
            if tier == 'thorough':
                for b in range(0, 9, 3):
                    add('mm%s_%s_%d' % (n, d, b), t, f, '-DGEMP', '-DDPS=' + d, '-DAPS=mrow,mcol,mcolsub,mrowsub,mrev,mskip,plane', '-DBPS=' + ','.join(aps[b:b + 3]))
            elif (i + j) % 3 == 0 or (i in (0, 2) and j < 2):
                k = (i + j) // 3
                add('mm%s_%s' % (n, d), t, f, '-DGEMP', '-DDPS=' + d, '-DAPS=mrow,mcol,' + aps[2 + k % 7], '-DBPS=mrow,mcol,' + aps[2 + (k + 4) % 7])
    return out


spec('C18', 'model_checking', c18,
     quick_opt='-O0',
     rule='every product (matrix-matrix, transposed, conjugated, matrix-vector both ways, 3x3 and 4x4 forms, gemp and gems with every kind of '
          'operation, dot, outer, kron, cumsum, vmmul, modulate) of every combination of sizes and of placements of operands and result (whole, '
          'rows and columns of other views, sub-matrices with and without gaps, reversed, transposed, planes), also inside expressions and read '
          'element by element, compared with its definition; operands and all memory outside the result unchanged',
     bounds='sizes 1 to 9 in 14 combinations for matrices, and 16x17x33, 33x9x16, up to 257 elements for vectors; both dimension orders; float, double, complex of both (array) and '
            'split complex; BLAS and generic evaluators',
     technique='exhaustive enumeration of sizes and placements on the real code against the definitions',
     note='Every case within the bounds. Results are compared within a rounding tolerance that follows the magnitude of the terms.')


def c19(tier):
    out = []

    def add(n, t, f, *extra):
        out.append(Prog('c19_' + n, ['harness/c19_selgen.cpp'], flags=['-DET=' + t, '-DFMT=%d' % f] + list(extra)))
    for n, t in (('f', 'float'), ('i', 'int')) + ((('d', 'double'),) if tier == 'thorough' else ()):
        add('select_' + n, t, 0, '-DSELECT')
    for n, t in (('f', 'float'), ('i', 'int'), ('d', 'double')):
        add('histo_' + n, t, 0, '-DHISTO')
    for i, (n, t, f) in enumerate((('f', 'float', 0), ('c', CF, 0), ('s', CF, 1), ('z', CD, 0))):
        for k in (1, 2, 3):
            if tier == 'thorough' or k == 3 or (i + k) % 2:
                add('swap%d_%s' % (k, n), t, f, '-DSWAPS=%d' % k)
        for k in (1, 2):
            if tier == 'thorough' or (i + k) % 2:
                add('freqswap%d_%s' % (k, n), t, f, '-DFREQSWAP=%d' % k)
    add('windows', 'float', 0, '-DWINDOWS')
    return out


spec('C19', 'model_checking', c19,
     rule='first and indexbool on every pattern and start; gather and scatter with every list of indices; ramps, clip and invclip over every '
          'combination of a table of parameters; every history of three histogram calls (accumulating or not) over every combination of limits '
          'and bins, and every single value; swap and freqswap (whole, by rows or columns, in place, of and inside expressions) of every pair of '
          'placements and sizes; every window of every length, compared with its definition; memory outside the results unchanged',
     bounds='patterns of up to 7 (10) elements and 2x4 (3x3), lists of up to 3 indices, 3 to 9 (14) bins, sizes up to 12 (20) and 5x5 (6x6), '
            'windows of 2 to 80 (200) elements, ladders up to 257 and 33x8; float, int, double, complex array and split; all dimension orders',
     technique='exhaustive enumeration of patterns, index lists, call histories, sizes and placements on the real code against the definitions',
     note='Every case within the bounds. Floating-point histogram values lie off the borders of inner bins (rounding there is unspecified); a position scattered to several times may hold any of the values.')


def c14(tier):
    out = []
    deep = tier == 'thorough'

    def add(mode, kind, sd, t='float', f=0, ntimes=1):
        out.append(Prog('c14_%s%d_m%dk%ds%d%s' % (t[0], f, mode, kind, sd, '' if ntimes == 1 else '_n%d' % ntimes), ['harness/c14_fft.cpp'],
                        flags=['-DET=' + t, '-DCFMT=%d' % f, '-DMODE=%d' % mode, '-DKIND=%d' % kind, '-DSD=%d' % sd, '-DNTIMES=%d' % ntimes] + ['-DOVXX_DFT_FFT=1'] * (t[0] == 'l')))
    for mode in (1, 2, 3, 4):
        for kind in range(4):
            for sd in range(1 if mode == 1 or (kind < 2 and mode < 4) else 3 if mode == 3 else 2):
                i = mode + kind + sd
                add(mode, kind, sd)
                if deep or mode in (1, 4) or i % 3 == 0:
                    add(mode, kind, sd, 'double')
                if deep or mode == 1 or (mode + sd + kind) % 2:
                    add(mode, kind, sd, 'float', 1)
                if deep:
                    add(mode, kind, sd, 'float', 2)
                    add(mode, kind, sd, 'double', 1)
                if deep or mode == 1 or (mode == 4 and i % 2):
                    add(mode, kind, sd, 'float', 0, 0)
                if deep or (mode == 2 and i % 2):
                    add(mode, kind, sd, 'float', 0, 12)
                # element types FFTW is not built for: the library's own transforms
                add(mode, kind, sd, 'long double')
                if deep or (mode + kind + sd) % 2 == 0:
                    add(mode, kind, sd, 'long double', 1)
                if deep:
                    add(mode, kind, sd, 'long double', 2)
    for kind in (0, 2, 3) + ((1,) if deep else ()):
        for a in (0, 1):
            for r in (0, 1):
                out.append(Prog('c14_dist_k%da%dr%d' % (kind, a, r), ['harness/c14_dist.cpp'],
                                flags=['-DET=float', '-DKIND=%d' % kind, '-DAXIS=%d' % a, '-DBYREF=%d' % r], **nps([2, 3], [1, 2, 3, 4])))
    return out


spec('C14', 'model_checking', c14,
     quick_opt='-O0',
     rule='every transform (complex both ways, real to complex, complex to real; one to three dimensions with every special dimension; rows or '
          'columns) of every size of the bound, for a list of pairs of input and output placements (dense, unaligned, strided, reversed, lines, '
          'columns, diagonals, planes, transposes, every dimension order, array, split and interleaved complex), by reference, by value, in an '
          'expression, of an expression, element by element and in place, for several scales and planning efforts, each object used many times and in '
          'turn with objects of another size; compared with the defining sum; operands and all memory outside the result unchanged; multiple transforms '
          'of matrices on every distribution that leaves the transformed dimension whole',
     bounds='1-D sizes 1 to 34 (80 thorough) and 48, 60, 64, 97, 100, 128; 2-D all shapes up to 5x5 (8x8) and 13 larger; 3-D 11 (14) shapes; '
            'float and double (FFTW) and long double (the transforms of the library itself); 2 and 3 ranks (1 to 4 thorough)',
     technique='exhaustive enumeration of sizes, placements and call histories on the real code against the defining sum',
     note='Every case within the bounds, with the FFTW back end of this build for float and double and, enabled by its configuration macro, the DFT back end for long double. Compared within a rounding tolerance. Distributed input and output with different maps are refused by the library.')


def c15(tier):
    deep = tier == 'thorough'
    out = []
    for nm, t, f in (('f', 'float', 0), ('d', 'double', 0), ('c', CF, 0), ('cs', CF, 1), ('z', CD, 0), ('zs', CD, 1)):
        if nm == 'zs' and not deep:
            continue
        for w, name in enumerate(('lu', 'chol', 'qr', 'svd', 'fn')):
            for part in (0, 1):
                if part and (w == 4 or f):
                    continue
                out.append(Prog('c15_%s_%s%s' % (name, nm, '_hist' if part else ''), ['harness/c15_solver.cpp'],
                                flags=['-DET=' + t, '-DFMT=%d' % f, '-DCPLX=%d' % (nm[0] in 'cz'), '-DWHICH=%d' % w, '-DPART=%d' % part]))
    return out


spec('C15', 'model_checking', c15,
     rule='every size of the bound with every storage option (lower, upper; no, skinny, full Q; no, part, full U and V), every variant (plain, transposed or '
          'Hermitian; left, right) by reference and by value, for a list of triples of placements of matrix, right-hand side and solution: residual of the '
          'defining equation, orthonormality and shape of the factors, right-hand sides and all memory outside the solution unchanged; every matrix of a '
          'set of small integers solved or refused as its minors require; every sequence of decompositions, assignments and copies of two objects, all '
          'equations of both verified after each step',
     bounds='sizes 1 to 6 (SVD 5; 9 to 12 thorough) and 16, 17, 33, 1 to 3 right-hand sides; histories of 5 operations for LU and Cholesky, 4 for QR and SVD (6 and 5 thorough); '
            'float, double and complex of both, array and split',
     technique='exhaustive enumeration of sizes, variants, placements and call histories on the real code against the defining equations',
     note='Every case within the bounds, with the LAPACK back end of this build. The decomposed matrix itself may be overwritten. Compared within rounding tolerances.')


def c06(tier):
    deep = tier == 'thorough'
    out = []

    def add(n, et, d, o, fmt, dense=False):
        out.append(Prog('c06_' + n, ['harness/c06_user.cpp'], flags=['-DET=' + et, '-DDIM=%d' % d, '-DORD=' + o, '-DFMT=%d' % fmt] + (['-DDENSE'] if dense else []),
                        shards=3 if deep else 1))
    for fmt in range(3):
        add('1c%d' % fmt, CF, 1, 'row1_type', fmt)
        add('2c%d' % fmt, CD if fmt == 1 else CF, 2, 'col2_type', fmt)
    add('2cr', CF, 2, 'row2_type', 0, True)
    add('3c', CF, 3, 'tuple<2,0,1>', 1)
    add('3ci', CD, 3, 'tuple<1,2,0>', 2)
    for n, et in (('f', 'float'), ('d', 'double'), ('i', 'int')):
        add('1' + n, et, 1, 'row1_type', 0, n != 'd')
        add('2' + n, et, 2, 'col2_type' if n != 'd' else 'row2_type', 0, n == 'f')
        add('3' + n, et, 3, 'tuple<1,0,2>' if n != 'd' else 'tuple<2,1,0>', 0, n == 'd')
    for d in (1, 2, 3):
        for n, et in (('c', CF), ('z', CD), ('f', 'float')):
            out.append(Prog('c06_dist%d%s' % (d, n), ['harness/c06_dist.cpp'], flags=['-DD_=%d' % d, '-DET=' + et], asan=True, **nps([1, 2, 3], [1, 2, 3, 4])))
    return out


spec('C06', 'model_checking', c06,
     rule='every legal history of admit, release (with and without update, with and without returning the pointers), rebind to each of five buffers '
          '(array, interleaved and split; the same and another domain), writes by the user, element writes, view expressions and direct data access, from '
          'every kind of construction: after each step the reported state, pointers and format, every element of the block, all user memory and its '
          'surroundings; distributed blocks on every map with each pair of formats, exchanging data with differently mapped blocks',
     bounds='histories of 5 operations (6 thorough) on blocks of 5 or 6 elements in 1, 2 and 3 dimensions, array, split and interleaved block storage; '
            '1 to 3 ranks (4 thorough)',
     technique='exhaustive enumeration of operation histories on the real code against a reference memory',
     note='Every legal history within the bounds. Pair-pointer construction of distributed blocks does not compile in the library and is not covered.')


def c23(tier):
    src = ['harness/c23_serial.cpp']
    out = [Prog('c23_pred%d' % d, src, flags=['-DWHICH=0', '-DDIM=%d' % d]) for d in (1, 2, 3)]
    for n, t in (('b', 'unsigned char'), ('f', 'float'), ('d', 'double'), ('i', 'int'), ('s', 'short'), ('c', CF), ('z', CD)):
        cp = ['-DWHICH=1', '-DET=' + t] + (['-DCPLX=1'] if n in 'cz' else [])
        for d in (1, 2):
            out.append(Prog('c23_%d%s' % (d, n), src, flags=cp + ['-DDIM=%d' % d]))
        for i, o in enumerate(('o012', 'o021', 'o102', 'o120', 'o201', 'o210')):
            if tier == 'thorough' or (n in 'ic') or (n == 'f' and i % 2) or (n == 'z' and i % 2 == 0):
                out.append(Prog('c23_3%s_%s' % (n, o), src, flags=cp + ['-DDIM=3', '-DORD=' + o]))
    return out


spec('C23', 'model_checking', c23,
     rule='every descriptor of the bound (value type, dimensions, sizes, strides) against every reader block type: accepted only if value type, dimensions '
          'and the position of every element agree, and never rejected if it is what a dense block of that type would describe; every data access '
          '(whole, sub-views of both directions, transposes; direct, or copied to another layout) and every user storage format, before and after '
          'rebind: all fields of the descriptor, then each reader type that accepts it is rebound to the data, read, changed and released, and the '
          'writer must see the changes',
     bounds='14 value types; sizes 1 to 3 (4 thorough) in 1, 2 and 3 dimensions; strides -3 to 12; all dimension orders, array, split and interleaved',
     technique='exhaustive enumeration of descriptors and of writer/reader pairs on the real code against the positions of the elements',
     note='Every case within the bounds. storage_size is held to span all described elements and not to exceed their padded extent.')


def c05(tier):
    return [Prog('c05', ['harness/c05_initfini.cpp'], kind='mct')]


spec('C05', 'model_checking', c05,
     rule='every schedule within the preemption bound of every script pair (create, destroy first or last, use, wait) of up to 4 operations per thread, '
          'with the message-passing layer initialised by the library or by the application and with the first thread holding a library object or not; every '
          'history of one thread; barriers that make lifetimes overlap in every order. Every atomic, lock, static-guard and thread operation is a scheduling '
          'point, every memory access of library and script is checked for data races, use after release, double release; at the end nothing may be left',
     bounds='histories of 6 operations in one thread (8 thorough); 2 threads beside the first with 2 preemptions for short scripts and 1 for longer ones (3 thorough), 3 threads with 1 (2 thorough)',
     technique='stateless model checking of the real code: all thread schedules up to a preemption bound, with happens-before race detection',
     note='Sequentially consistent interleavings; race freedom on all of them extends the verdict to weaker orders. MPI is a stub that records init, finalize, buffer and communicator use; calls of several threads into MPI count as ordered by MPI.')


def c21(tier):
    out = [Prog('c21_threads', ['harness/c21_threads.cpp'], kind='mct')]
    for n, d, et, o, fmt, depth, dense in (('1c', 1, CF, 'row1_type', 'array', 5, 1), ('1s', 1, CD, 'row1_type', 'split_complex', 5, 0), ('1f', 1, 'float', 'row1_type', 'array', 5, 1),
                                           ('2c', 2, CF, 'col2_type', 'split_complex', 5, 0), ('2z', 2, CD, 'row2_type', 'array', 4, 1), ('2f', 2, 'double', 'col2_type', 'array', 5, 1),
                                           ('3c', 3, CF, 'tuple<2,0,1>', 'split_complex', 4, 0), ('3f', 3, 'float', 'tuple<0,2,1>', 'array', 5, 1)):
        out.append(Prog('c21_hist' + n, ['harness/c21_hist.cpp'], flags=['-DDIM=%d' % d, '-DET=' + et, '-DORD=' + o, '-DFMT=' + fmt, '-DDEPTH=%d' % depth] + (['-DDENSE'] if dense else []), asan=depth == 4 or n in ('1s', '2c'), shards=8 if depth > 4 or tier == 'thorough' else 2))
    return out


spec('C21', 'model_checking', c21,
     rule='every history of creating a block (by a view or by the application), copying, deriving (sub-views, rows, columns, diagonals, planes, lines, transposes, '
          'real and imaginary parts, to two levels), const copies, dropping, writing, filling, assigning and adding views, making, assigning, nulling, resetting '
          'handles and views of handles: after each operation the storage alive is that of the blocks referred to, and every view shows the values of a '
          'reference model; every schedule within the preemption bound of threads that copy, derive, read, drop, hand over views, sub-views and handles of a shared block',
     bounds='histories of 4 or 5 operations (1 more thorough) with up to 4 views and handles of 2 blocks, in 1, 2 and 3 dimensions; threads: scripts of 3 operations '
            'beside the first thread (4 thorough), pairs of 2 operations, selected longer ones; 2 preemptions (3 thorough)',
     technique='exhaustive enumeration of operation histories against a reference model, and stateless model checking of threads (all schedules up to a preemption bound, race and use-after-release detection)',
     note='Every history and schedule within the bounds, half of the sequential programs under AddressSanitizer. Expression views refer to their operands by design and are not covered.')


PYBLOCK = ['library.cpp'] + ['_block_%s.cpp' % t for t in ('f', 'd', 'cf', 'cd', 'i', 'b')]

spec('C24', 'model_checking',
     [Prog('c24_block', ['harness/c24_py.cpp'], modules=PYBLOCK,
           runs=[('block', ['--part', 'block']), ('pair', ['--part', 'pair'])])],
     rule='every chain of derivations (slices, rows, columns, diagonals, real and imaginary parts) of every element type up to '
          'the depth bound, times every way of reading and writing, on the real extension modules; the model is the numpy view '
          'of the same derivation',
     bounds='blocks of up to 12 elements, one and two dimensions; chains of length 2 (3 for vectors; 3 in the thorough tier)',
     technique='exhaustive enumeration of operation sequences on the real extension modules against numpy views',
     note='Exercises the compiled extension modules; the Python 2 wrapper classes around them are not executed.')


PYFUNC = {'misc': ['_block_d', '_block_f', '_block_i', '_block_cd', '_block_cf', '_rand_d', '_rand_f', '_rand_cd', 'signal/_window_d', '_cast'],
          'elementwise': ['_block_b', '_block_d', '_block_cd', 'math/_elementwise_d', 'math/_elementwise_cd'],
          'matvec': ['_block_d', '_block_cd', 'math/_matvec_d', 'math/_matvec_cd', 'math/_reductions_d'],
          'signal': ['_block_d', '_block_cd', 'selgen/_clip_d', 'signal/types', 'signal/_freqswap_d', 'signal/_fft_d', 'signal/_fft_cd', 'signal/_fftm_cd', 'signal/_conv_d',
                     'signal/_corr_d', 'signal/_fir_d', 'signal/_iir_d'],
          'solver': ['_block_d', '_block_cd', 'math/types', 'math/solvers/_lud_d', 'math/solvers/_qrd_d', 'math/solvers/_covsol_d', 'math/solvers/_llsqsol_d',
                     'math/solvers/_toepsol_d', 'math/solvers/_svd_d']}

spec('C26', 'model_checking',
     [Prog('c26_' + k, ['harness/c24_py.cpp'], modules=['library.cpp'] + [x + '.cpp' for x in v], runs=[('', ['--part', k])]) for k, v in PYFUNC.items()],
     rule='every function and object of the compiled Python modules (element-wise, products, reductions, clipping, frequency swap, random generators, windows, type casts, Fft, Fftm, convolution, correlation, '
          'filters, solvers) times every combination of placements of its arguments and results (slices, reversed and strided, rows, columns, diagonals, real and '
          'imaginary parts); results and all elements of every underlying array are compared with the numpy model',
     bounds='vectors of up to 17 elements, matrices up to 5x3; double and complex double; combinations of three and four different placements thinned out for the signal and solver objects',
     technique='exhaustive enumeration of argument placements on the real extension modules against numpy',
     note='Everything within the bounds; the single-precision modules, built from the same templates, are not loaded.')


def c25():
    out = []
    for d, parts in ((1, 4), (2, 4)):
        for p in range(parts):
            for e, et in (('f', 'float'), ('c', CF)):
                out.append(Prog('c25_%d%d%s' % (d, p, e), ['harness/c25_dist.cpp'], flags=['-DD_=%d' % d, '-DPART=%d' % p, '-DET=' + et], **nps([1, 2, 3], [1, 2, 3, 4])))
    return out


spec('C25', 'model_checking', c25,
     rule='every pair of distributions (block maps with every number of subblocks and processor order, replicated; cyclic where the library accepts it) of the '
          'operands of convolutions (1-D and 2-D, every support region, decimation, symmetric kernels, distributed kernel, local operands mixed in), correlations, '
          'FIR and IIR filters over two frames, LU and QR decompositions and everything solved with them, covsol and llsqsol, gemp, dot, transposes, cumsum, swap, '
          'gather and scatter, histogram, first, clip, indexbool; each run on every rank and compared with the serial result',
     bounds='1 to 3 ranks (1 to 4 thorough); up to 11 elements, matrices up to 5x3; float and complex<float>',
     technique='exhaustive enumeration of operand maps on the real code over a scheduled MPI model, against double-precision references',
     note='Every case within the bounds under canonical schedules of the MPI model. Fft objects have no distributed form (Fftm: see C14); replicated operands are replicated on all ranks.')
