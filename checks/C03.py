from vlib.driver import Job
TUS = ['UnaryOps.cpp', 'Convert.cpp']
HARNESS = ['c03.cpp']
VAL = {'abs': 201, 'neg': 202, 'invert': 204, 'floor': 205, 'ceil': 206, 'trunc': 207, 'round': 208, 'negative': 212, 'sign': 214, 'sqrt': 301, 'bitnot': 701}
PRED = {'not': 601, 'isinf': 603, 'isnan': 604, 'isfinite': 605, 'isnormal': 606, 'isnotinf': 607, 'isnotnan': 608, 'isnotfinite': 609, 'isnotnormal': 610,
        'isnanorzero': 611, 'signbit': 612}
DT = {'bool': (0, 1), 'i8': (1, 1), 'u8': (2, 1), 'i16': (3, 2), 'u16': (4, 2), 'i32': (5, 4), 'u32': (6, 4), 'i64': (7, 8), 'u64': (8, 8), 'f32': (11, 4), 'f64': (12, 8)}
BOUNDS = ('1-d arrays of two vector registers plus 3 elements (3 to 67), every element symbolic: contiguous, not vector-aligned, strides 2 and -1, output allocated, given, '
          'in place and strided; 40007 elements (three work blocks) with symbolic elements at the block boundaries; 2-d and 3-d arrays in C, Fortran, padded, strided and reversed layouts, with outputs of either memory order')
OUTSIDE = 'exp/log/trigonometric functions (libm values), long double, complex; arrays of more than 3 dimensions; process_one_input, which no Python entry point reaches'


def jobs(tier, seed):
    out = {}

    def add(on, a, n, shape, ok=0):
        j = Job('%s/%s/n%d/s%d/o%d' % (on, a, n, shape, ok), 'c03', {**VAL, **PRED}[on], DT[a][0], n, shape, ok)
        out.setdefault(j.id, j)
    for on in list(VAL) + list(PRED):
        for a in DT:
            isf = a[0] == 'f'
            if on in ('floor', 'ceil', 'trunc', 'round', 'sqrt', 'signbit') and not isf or on in ('invert', 'bitnot') and isf:
                continue
            if on in ('abs', 'neg', 'negative', 'sign') and a in ('bool', 'u8', 'u16', 'u32', 'u64'):
                continue
            n = 2 * (32 // DT[a][1]) + 3
            if on == 'sign':
                n = 4 if isf else 6  # a scalar loop that branches on the value
            for sh in (1, 0, 2, -1):
                add(on, a, n, sh)
            add(on, a, 3, 1)
            add(on, a, 1, 1)
            for ok in (1, 2, 3, 4):
                add(on, a, n, 1, ok)
            add(on, a, n, 2, 1)
            if on != 'sign' or not isf:
                add(on, a, 40007, 1)
                add(on, a, 40007, 2, 0)
            for sh in (100, 101, 102, 103, 104, 105, 106, 107, 110, 111, 112, 113, 114, 115):
                m = n if sh < 104 else 6 if on == 'sign' else 18
                add(on, a, m, sh)
                if sh in (100, 102, 103, 106, 112):
                    add(on, a, m, sh, 1)
                if sh in (100, 101):
                    add(on, a, m, sh, 5)
            if tier == 'thorough':
                for k in range(1, n + 10):
                    for sh in (1, 0, 2, -1, -3):
                        add(on, a, k, sh)
                for k in (16384, 16385, 32768, 32769, 65536 + 16383):
                    add(on, a, k, 1)
                    add(on, a, k, 1, 1)
    return list(out.values())
