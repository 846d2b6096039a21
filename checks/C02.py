from vlib.driver import Job
TUS = ['Compare.cpp', 'UnaryOps.cpp', 'Convert.cpp']
HARNESS = ['c02.cpp']
OPS = {'eq': 401, 'ne': 402, 'lt': 403, 'gt': 404, 'le': 405, 'ge': 406}
DT = {'bool': (0, 1), 'i8': (1, 1), 'u8': (2, 1), 'i16': (3, 2), 'u16': (4, 2), 'i32': (5, 4), 'u32': (6, 4), 'i64': (7, 8), 'u64': (8, 8), 'f32': (11, 4), 'f64': (12, 8)}
BOUNDS = ('Arrays of 3 to 67 elements (two vector registers plus tail) with every element symbolic, and of 40007 elements (three work blocks) with symbolic elements at the '
          'block boundaries, for every dtype with itself and the signed/unsigned 64-bit pairs; 3 elements for the other mixed pairs and Python scalars')
OUTSIDE = 'Invalid markers in mixed-dtype comparisons other than 64-bit integers (converted first), 64-bit integers against floats, complex, long double, strings (C35)'


def jobs(tier, seed):
    out = {}

    def add(on, a, b, mode, n, s1=1, s2=1, ok=0):
        j = Job('%s/%s-%s/m%d/n%d/s%d,%d/o%d' % (on, a, b, mode, n, s1, s2, ok), 'c02', OPS[on], DT[a][0], DT[b][0], mode, n, s1, s2, ok)
        out.setdefault(j.id, j)
    for on in OPS:
        for a in DT:
            es = DT[a][1]
            n = 2 * (32 // es) + 3
            for b in [a] + ({'i64': ['u64'], 'u64': ['i64']}.get(a, [])):
                for mode in range(3):
                    add(on, a, b, mode, n)
                    add(on, a, b, mode, 40007)
                if a == b:
                    add(on, a, b, 3, 3)
                    add(on, a, b, 4, 3)
                add(on, a, b, 0, n - 4)
                add(on, a, b, 0, n, ok=1)
                add(on, a, b, 0, n, 1, -2)
                add(on, a, b, 1, n, 2, 1)
                add(on, a, b, 2, n, 1, 3)
                if tier == 'thorough':
                    for k in range(1, n + 6):
                        for mode in range(3):
                            add(on, a, b, mode, k)
                    for k in (16384, 16385, 32768, 32769, 65536 + 16383):
                        for mode in range(3):
                            add(on, a, b, mode, k)
            for b in DT:
                if b != a and not (('f' in b and '64' in a and 'f' not in a) or ('f' in a and '64' in b and 'f' not in b)):
                    if b == 'f32' and a in ('i32', 'u32') or a == 'f32' and b in ('i32', 'u32'):
                        continue
                    if tier == 'thorough' or on in ('lt', 'eq') or 'f' in a + b:
                        add(on, a, b, 0, 3)
    return list(out.values())
