from vlib.driver import Job
TUS = ['GroupBy.cpp', 'MultiKey.cpp']
HARNESS = ['c12.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
K = {'i8': 1, 'i16': 3, 'i32': 5, 'i64': 7}
F = {'sum': 0, 'mean': 1, 'min': 2, 'max': 3, 'nansum': 50, 'nanmean': 51, 'nanmin': 52, 'nanmax': 53}
BOUNDS = ('every bin assignment (filtered bin 0 included) of up to 4 rows to up to 3 bins, one or two columns with their own function and first bin, every key width; '
          'integer sums and all extremes: every value (NaN, infinities, signed zeros and the integer invalid values included); means and float sums: every value of 8 bits, and invalid values. '
          'Arrays split over workers: 33000 to 70000 rows, five rows at the edges of the work blocks arbitrary, the other rows in bin 0, every split of the blocks over up to two workers as given')
OUTSIDE = ('float sums and means that round; means of integers beyond 8 bits; variance and standard deviation; the minimum and maximum of a boolean bin without rows (the byte 0x80 of the integer code); '
           'bins outside the requested range (not written); long double; 2^31 and more rows')


def jobs(tier, seed):
    out = {}
    th = tier == 'thorough'

    def add(f, d, k, n, nu, lo=1, vl=1, kl=1, f2=None, d2='i32'):
        j = Job('%s/%s/%s/%d/%d/lo%d/L%d,%d/%s' % (f, d, k, n, nu, lo, vl, kl, f2 and f2 + d2), 'c12', F[f], DT[d], K[k], n, nu, lo, vl, kl, F[f2] if f2 else -1, DT[d2])
        out[j.id] = j

    def scat(f, d, k, n, nu, b):
        j = Job('split/%s/%s/%s/%d/%d/b%d' % (f, d, k, n, nu, b), 'c12_scatter', F[f], DT[d], K[k], n, nu, b)
        out[j.id] = j
    ks = list(K)
    fs = list(F)
    for p, f in enumerate(fs):
        for q, d in enumerate(DT):
            k = ks[q % 4]
            add(f, d, k, 3, 2)
            add(f, d, ks[(q + 1) % 4], 3, 1, 0)
            add(f, d, k, 2, 3)
            add(f, d, k, 1, 2)
            add(f, d, k, 0, 2)
            if th:
                add(f, d, k, 4, 2)
                for k in K:
                    add(f, d, k, 3, 2, 0)
        for k in K:
            add(f, 'i32', k, 3, 2)
            add(f, 'f64', k, 3, 2)
            add(f, 'f32', k, 3, 3)
            add(f, 'u64', k, 4, 1)
        for l in ((0, 1), (2, 1), (-1, 1), (1, 2), (1, -1)):
            add(f, 'i32', 'i8', 3, 2, 1, *l)
            add(f, 'f64', 'i64', 3, 2, 1, *l)
        for g, d2 in ((fs[(p + 1) % 8], 'i32'), (fs[(p + 4) % 8], 'f32'), (fs[(p + 3) % 8], 'u16')):
            add(f, 'f32', 'i32', 2, 2, 1, 1, 1, g, d2)
            add(f, 'i64', 'i8', 2, 2, 0, 1, 1, g, d2)
        for q, d in enumerate(DT):
            for b in ((0, 1, 2) if th else ((p + q) % 3,)):
                scat(f, d, ks[(q + p) % 4], 0x4000 * 3 + 17, 2, b)
        for d in ('f32', 'i32', 'f64'):
            for b in (0, 1, 2, 3):
                scat(f, d, 'i32', 0x4000 * 4 + 17, 2, b)
    return list(out.values())
