from vlib.driver import Job
TUS = ['GroupBy.cpp', 'MultiKey.cpp', 'Sort.cpp']
HARNESS = ['c13.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
G = {'i32': 5, 'i64': 7}
F = {'first': 100, 'nth': 101, 'last': 102, 'median': 103, 'mode': 104, 'quantile': 106, 'sum': 200, 'nansum': 201, 'diff': 202, 'shift': 203, 'count': 204, 'mean': 205, 'nanmean': 206}
P = {'nth': (0, 1, -1, -2, 3, -2**63, 2**63 - 1), 'quantile': tuple(o + q for o in (0, 10**9 + 1) for q in (0, 3 * 10**8, 5 * 10**8, 10**9)),
     'sum': (0, 1, 2, 2**31, -1), 'nansum': (0, 1, 2, 2**40, -1), 'mean': (1, 2, 2**62, -1), 'nanmean': (1, 2, 2**31 - 1, -2),
     'diff': (0, 1, 2, -1, -2, 2**31, -2**31, -2**63), 'shift': (0, 1, 2, -1, -2, 2**31, -2**31 - 1, 2**63 - 1), 'count': (1, -1)}
BOUNDS = ('every assignment of up to 4 rows to up to 3 bins (the filtered bin 0 included), both index widths; first, nth, last, shift, difference: every value of every dtype, items of 1 to 12 bytes; median, mode, '
          'quantiles 0, 0.3, 0.5 and 1 and their nan variants: every value (mode and median: every valid one); rolling sums and means: every value of 8 bits, invalid values and infinities, windows of 0 to more rows than '
          'there are; 65600 rows in up to 7 bins spread over 4 threads')
OUTSIDE = ('the trimmed mean (its cut is computed with exp) and rolling quantiles (x87 arithmetic); sums that round; the integer invalid value in median, mode, sum and mean, which the code takes as a number; '
           'first and count arrays shorter than the bins; long double; the group index is the one C11 describes')


def jobs(tier, seed):
    out = {}
    th = tier == 'thorough'

    def add(f, d, g, n, nu, p=0, lo=1, vl=1, gl=1, f2=None):
        j = Job('%s/%s/%s/%d/%d/lo%d/p%d/L%d,%d/%s' % (f, d, g, n, nu, lo, p, vl, gl, f2), 'c13', F[f], DT[d], G[g], n, nu, lo, p, vl, gl, F[f2] if f2 else -1)
        out[j.id] = j
    for f in F:
        for q, d in enumerate(DT):
            if f == 'count' and d not in ('i8', 'i16', 'i32', 'i64') or f in ('diff', 'mean', 'nanmean') and d == 'bool':
                continue
            g = ('i32', 'i64')[q % 2]
            stat = f in ('median', 'mode', 'quantile')
            for k, p in enumerate(P.get(f, (0,))):
                add(f, d, g, 3, 1, p)
                add(f, d, ('i64', 'i32')[(q + k) % 2], 2, 2, p, 0)
                if (q + k) % 3 == 0 or th or stat and d in ('i32', 'i64', 'f64'):
                    add(f, d, g, 4 if not stat or f != 'quantile' and d[0] != 'f' or d in ('i8', 'u8', 'i16') or th else 3, 1, p, (q + k) % 2)
                    add(f, d, g, 3, 2, p)
            add(f, d, g, 0, 1, P.get(f, (0,))[0])
        for l in ((0, 1), (2, 1), (-1, 1), (1, 2), (1, -1)):
            if f == 'count' and l[0] != 1:
                continue
            add(f, 'i32', 'i32', 3, 2, 1, 0, *l)
            if f != 'count':
                add(f, 'f64', 'i64', 3, 2, 1, 1, *l)
        for f2 in ('first', 'last', 'nth', 'shift', 'diff', 'count', 'sum'):
            add(f, 'i32', 'i32', 2, 2, 1, 0, 1, 1, f2)
    for f in ('first', 'last', 'nth', 'shift'):
        for k, (d, w) in enumerate(((18, 1), (18, 5), (19, 4), (19, 12), (20, 3))):
            for p in P[f] if f in P else (0,):
                for n, nu in ((3, 1), (3, 2), (0, 1)):
                    j = Job('items/%s/%d/%d/%d/%d/p%d' % (f, d, w, n, nu, p), 'c13_items', F[f], d, w, (5, 7)[k % 2], n, nu, p)
                    out[j.id] = j
    for f, p in (('median', 0), ('mode', 0), ('quantile', 5 * 10**8), ('quantile', 10**9 + 1 + 5 * 10**8)):
        for d in ('i32', 'f64') + (('u8', 'f32') if th else ()):
            for nu in (1, 3, 7):
                for b in (0, 1, 2):
                    j = Job('bands/%s/%s/%d/p%d/b%d' % (f, d, nu, p, b), 'c13_bands', F[f], DT[d], G[('i32', 'i64')[b % 2]], 65600, nu, p, b)
                    out[j.id] = j
    return list(out.values())
