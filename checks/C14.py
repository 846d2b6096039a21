from vlib.driver import Job
TUS = ['Ema.cpp', 'MultiKey.cpp']
HARNESS = ['c14.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
K = {'i8': 1, 'i16': 3, 'i32': 5, 'i64': 7}
F = {'cumsum': 300, 'decay': 301, 'cumprod': 302, 'findnth': 303, 'normal': 304, 'weighted': 305, 'cumnanmax': 306, 'cumnanmin': 307, 'cummax': 308, 'cummin': 309}
BOUNDS = ('every bin assignment, filter and reset pattern of 2 to 4 rows and up to 2 bins, every key width; sums, products and extremes of every value (floats: small whole numbers and NaN; extremes: every float); '
          'decays: values of 8 bits, every pattern of equal and later times')
OUTSIDE = ('decay factors other than 0 and 1 (weighted averages: 0, 1 and 3/8), since the exponential is not encoded; normal and weighted averages under a filter, whose treatment of filtered rows is not documented; '
           'extremes of booleans; bins outside 0 to the number of uniques (not checked by the code); float sums that round; long double')


def jobs(tier, seed):
    out = {}
    th = tier == 'thorough'

    def add(f, d, k, n, nu, m, vl=1, kl=1, ml=1):
        j = Job('%s/%s/%s/%d/%d/m%d/L%d,%d,%d' % (f, d, k, n, nu, m, vl, kl, ml), 'c14', F[f], DT[d], K[k], n, nu, m, vl, kl, ml)
        out[j.id] = j
    ks = list(K)
    for f in F:
        ema = f in ('decay', 'normal', 'weighted')
        for q, d in enumerate(DT):
            if d == 'bool' and f[:3] == 'cum' and f[-3:] in ('min', 'max'):
                continue
            k = ks[q % 4]
            for m in (0, 1, 2, 3):
                if f == 'findnth' and m > 1 or f in ('normal', 'weighted') and m & 1:
                    continue
                add(f, d, k, 3 if not m or th else 2, 2, m)
            add(f, d, ks[(q + 1) % 4], 4 if not ema else 3, 1, 0)
            add(f, d, k, 2, 0, 0)
            add(f, d, k, 0, 2, 0)
        for k in K:
            for m in (0, 1, 2, 3):
                if f == 'findnth' and m > 1 or f in ('normal', 'weighted') and m & 1:
                    continue
                add(f, 'i32', k, 3, 1, m)
                add(f, 'f64', k, 2, 2, m)
        for l in ((0, 1, 1), (2, 1, 1), (-1, 1, 1), (1, 2, 1), (1, -1, 1), (1, 1, 2), (1, 1, -1)):
            for k in ('i8', 'i64'):
                for m in (1, 2):
                    if f == 'findnth' and m > 1 or f in ('normal', 'weighted') and m & 1:
                        continue
                    add(f, 'i32', k, 2, 1, m, *l)
    return list(out.values())
