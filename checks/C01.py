from vlib.driver import Job
TUS = ['Compare.cpp', 'UnaryOps.cpp']
HARNESS = ['c01.cpp']
OPS = {'add': 1, 'sub': 2, 'mul': 3, 'mod': 5, 'min': 6, 'max': 7, 'floordiv': 10, 'remainder': 12, 'div': 101,
       'subdatetimes': 102, 'subdates': 103, 'and': 503, 'xor': 504, 'or': 505, 'andnot': 506, 'notand': 507,
       'land': 407, 'lor': 409}
DT = {'bool': (0, 1), 'i8': (1, 1), 'u8': (2, 1), 'i16': (3, 2), 'u16': (4, 2), 'i32': (5, 4), 'u32': (6, 4), 'i64': (7, 8), 'u64': (8, 8), 'f32': (11, 4), 'f64': (12, 8)}
BOUNDS = {t: 'Arrays of up to two vector registers plus a tail (3 to 67 elements) with every element symbolic; arrays of 40007 elements (three work blocks) with a concrete '
             'background and 7 symbolic elements at the block boundaries; Python scalars symbolic in the range of the dtype; strides of -2..3 elements; '
             'output new, given, or aliasing an input' for t in ('quick', 'thorough')}
OUTSIDE = 'Mixed array dtypes (converted first, see C04), complex and long double, POWER and FMOD values (libm), integer modulus by zero (undefined in C), integer MIN / -1, arrays longer than 40007'
OPS3 = ('floordiv',)


def jobs(tier, seed):
    out = []
    big = tier == 'thorough'

    def add(on, dn, mode, n, s1=1, s2=1, ok=0, **kw):
        dt, es = DT[dn]
        out.append(Job('%s/%s/m%d/n%d/s%d,%d/o%d' % (on, dn, mode, n, s1, s2, ok), 'c01', OPS[on], dt, mode, n, s1, s2, ok, **kw))
    for on, op in OPS.items():
        for dn, (dt, es) in DT.items():
            if on in ('subdatetimes', 'subdates') and dn not in ('i32', 'i64'):
                continue
            fork = on in ('floordiv', 'subdatetimes', 'subdates')
            n = 2 if fork else 2 * (32 // es) + 3
            hard = on == 'floordiv' and dn in ('i64', 'f64')
            for mode in range(3):
                add(on, dn, mode, n)
                if not fork:
                    add(on, dn, mode, 40007)
            if not fork:
                add(on, dn, 0, n - 4)
                add(on, dn, 0, n, ok=1)
                add(on, dn, 0, n, ok=2)
                add(on, dn, 1, n, ok=2)
                add(on, dn, 2, n, ok=3)
                add(on, dn, 0, 9, 2, 1)
                add(on, dn, 0, 9, 1, -1)
                add(on, dn, 1, 9, 3, 1)
                add(on, dn, 2, 9, 1, -2)
            if not hard:
                add(on, dn, 3, 1 if fork else 3)
                add(on, dn, 4, 1 if fork else 3)
            if dn[0] == 'f' and on in ('add', 'mul', 'min', 'max', 'div'):
                add(on, dn, 5, 3)
                add(on, dn, 6, 3)
            if big:
                for k in range(1, n + 9):
                    for mode in range(3):
                        if k != n and (k != n - 4 or mode):
                            add(on, dn, mode, k if not fork else k)
                            if fork and k > 3:
                                break
                if not fork:
                    for k in (16384, 16385, 32767, 32768, 32769, 65536 + 16383):
                        add(on, dn, 0, k)
                    add(on, dn, 0, 40007, ok=2)
                    add(on, dn, 0, 40007, 2, -1)
                    add(on, dn, 1, 40007, -1, 1)
                    add(on, dn, 2, 40007, 1, 2)
    d = {}
    for j in out:
        d.setdefault(j.id, j)
    return list(d.values())
