from vlib.driver import Job
TUS = ['Reduce.cpp', 'Convert.cpp']
HARNESS = ['c05.cpp']
F = {'sum': 0, 'nansum': 1, 'mean': 102, 'nanmean': 103, 'var': 106, 'nanvar': 107, 'std': 108, 'nanstd': 109, 'min': 200, 'nanmin': 201, 'max': 202, 'nanmax': 203,
     'argmin': 204, 'nanargmin': 205, 'argmax': 206, 'nanargmax': 207}
DT = {'bool': (0, 1), 'i8': (1, 1), 'u8': (2, 1), 'i16': (3, 2), 'u16': (4, 2), 'i32': (5, 4), 'u32': (6, 4), 'i64': (7, 8), 'u64': (8, 8), 'f32': (11, 4), 'f64': (12, 8)}
BOUNDS = ('arrays of up to 4 wholly symbolic elements; arrays of one unrolled vector chunk plus a tail (35 to 291 elements) and 40007 elements (three work blocks, on the calling '
          'thread alone and shared with two workers) with one or two symbolic elements at a time over a concrete background, at every position')
OUTSIDE = ('floating-point sums are checked where every partial sum is exact (the rounding of other sums depends on the order of additions); moments on small integers; long double; '
           'nanmean of no valid value; arg functions on more than one dimension')


def jobs(tier, seed):
    out = {}

    def add(f, a, n, mode, ddof=1):
        j = Job('%s/%s/n%d/m%d/d%d' % (f, a, n, mode, ddof), 'c05', F[f], DT[a][0], n, mode, ddof)
        out.setdefault(j.id, j)
    thorough = tier == 'thorough'
    for f in F:
        arg = 'arg' in f
        mm = f in ('min', 'max', 'nanmin', 'nanmax')
        mom = f in ('mean', 'nanmean', 'var', 'nanvar', 'std', 'nanstd')
        for a, (dt, sz) in DT.items():
            isf = a[0] == 'f'
            chunk = 8 * 32 // sz
            if mom:
                for n in ((1, 2, 3, 5) if sz > 1 and (tier == 'thorough' or f in ('mean', 'nanmean', 'var') and a in ('i32', 'u64', 'f64')) else (1, 2, 3)):
                    if a == 'bool':
                        continue
                    add(f, a, n, 1, 1)
                    if f in ('var', 'std', 'nanvar', 'nanstd') and n == 3:
                        add(f, a, n, 1, 0)
                        add(f, a, n, 2, 0)
                if isf:
                    add(f, a, 35 if f == 'mean' else 11, 1)
                continue
            for n in (1, 2, 3):
                add(f, a, n, 0)
            if f in ('sum', 'nansum'):
                add(f, a, 35, 1)
                add(f, a, 35, 2)
                if isf:
                    add(f, a, 67, 3)
                    add(f, a, 67, 103)
                    add(f, a, 40007, 3)
                    add(f, a, 40007, 13)
                if thorough or a in ('bool', 'i8', 'u16', 'i32', 'u64', 'f32'):
                    add(f, a, 40007, 1)
                if thorough or a in ('u8', 'i32', 'i64', 'u32', 'f64'):
                    add(f, a, 40007, 11)
                if thorough or a in ('i16', 'i32', 'u64', 'f64'):
                    add(f, a, 40007, 12)
                continue
            big = chunk + 35 if f in ('min', 'max') else 19
            add(f, a, big, 1)
            add(f, a, big, 2)
            add(f, a, big, 101)
            add(f, a, 7, 4)
            if f in ('min', 'max'):
                add(f, a, 2 * chunk + 5, 1)
            if thorough or a in ('i8', 'u16', 'i32', 'f64'):
                add(f, a, 40007, 1)
            if thorough or a in ('u8', 'i64', 'f32'):
                add(f, a, 40007, 2)
            if mm and (thorough or a in ('i8', 'u32', 'f64', 'i16')):
                add(f, a, 40007, 11)
            if mm and (thorough or a in ('u64', 'f32', 'i32')):
                add(f, a, 40007, 12)
            for lay in (100, 101, 102, 103, 104, 106, 107, 2, -1, 112, 114):
                if arg and lay >= 100:
                    continue
                j = Job('%s/%s/shape%d' % (f, a, lay), 'c05shape', F[f], dt, 24, lay)
                out[j.id] = j
    for f in ('sum', 'nansum', 'mean'):
        for a in DT:
            for lay in (100, 101, 102, 103, 104, 106, 107, 2, -1, 112, 114):
                if f != 'mean' and a[0] != 'f':
                    j = Job('%s/%s/shape%d' % (f, a, lay), 'c05shape', F[f], DT[a][0], 24, lay)
                    out[j.id] = j
    return list(out.values())
