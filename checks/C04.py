from vlib.driver import Job
TUS = ['Convert.cpp']
HARNESS = ['c04.cpp']
DT = {'bool': (0, 1), 'i8': (1, 1), 'u8': (2, 1), 'i16': (3, 2), 'u16': (4, 2), 'i32': (5, 4), 'u32': (6, 4), 'i64': (7, 8), 'u64': (8, 8), 'f32': (11, 4), 'f64': (12, 8)}
BOUNDS = ('Every ordered pair of the 11 numeric dtypes. 1-d arrays (contiguous, unaligned, strides 2 and -1) of 3 to 19 elements and 2-d and 3-d arrays (C, Fortran, padded, strided, reversed)'
          ', every element symbolic; 40007 elements (three work blocks) with symbolic elements at the block boundaries')
OUTSIDE = 'Finite floats outside the target integer range (undefined in C), long double, strings, more than 3 dimensions'


def jobs(tier, seed):
    out = {}

    def add(safe, a, b, n, layout):
        j = Job('%s/%s-%s/n%d/s%d' % ('safe' if safe else 'unsafe', a, b, n, layout), 'c04', safe, DT[a][0], DT[b][0], n, layout)
        out.setdefault(j.id, j)
    for safe in (1, 0):
        for a in DT:
            for b in DT:
                fork = safe and a != b
                ff = a[0] == 'f' and b[0] == 'f' and a != b
                fi = a[0] == 'f' and b[0] != 'f'
                n = 7 if fi and not safe else 19 if ff or not fork else 3
                for l in (1, 0, 2, -1):
                    add(safe, a, b, n, l)
                add(safe, a, b, 1, 1)
                for l in (100, 101, 102, 103, 104, 105, 106, 107, 110, 111, 112, 113, 114, 115):
                    if l in (100, 101, 103, 112) or not fork or (a, b) in (('i32', 'f64'), ('f64', 'i16')) or tier == 'thorough':
                        add(safe, a, b, (6 if fi or fork and not ff else 18), l)
                if not fork:
                    add(safe, a, b, 40007, 1)
                    add(safe, a, b, 40007, 2)
                elif a in ('i32', 'f64', 'i64', 'f32', 'u8') or tier == 'thorough':
                    add(safe, a, b, 40007, 1)
                    add(safe, a, b, 40007, -1)
                if tier == 'thorough':
                    for k in range(1, 6 if fork and not ff else 24):
                        for l in (1, 0, 2, -1, 3):
                            add(safe, a, b, k, l)
    return list(out.values())
