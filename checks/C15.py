from vlib.driver import Job
TUS = ['Ema.cpp', 'TimeWindow.cpp']
HARNESS = ['c15.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
F = {'sum': 0, 'nansum': 1, 'mean': 102, 'nanmean': 103}
BOUNDS = ('Rolling sum, nansum, mean and nanmean: every value (floats: every 16-bit whole number, NaN, infinities) of up to 5 rows of every dtype and layout, windows of 0 to 7 rows and negative ones; '
          'TimeWindow sum and product: every value of up to 4 rows, every sorted time vector and every time span, and 40007 rows in three work blocks on one and two threads')
OUTSIDE = ('sums of floats that round; means of 64-bit integers beyond 32 bits; rolling variance and standard deviation (their documented value is not settled by the code: the divisor changes from n - 1 to n '
           'once the window is full); rolling quantiles (computed in x87 extended precision, which the engine does not encode); arrays of more than one dimension')


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'
    for d, t in DT.items():
        for f, k in F.items():
            for n, w in ((0, 2), (1, 1), (4, 1), (5, 2), (5, 3), (4, 4), (3, 7), (3, 0), (3, -1), (3, -5)):
                out.append(Job('%s/%s/%d/%d' % (f, d, n, w), 'c15roll', k, t, n, w, 1, 1))
            if d[0] == 'f':
                out.append(Job('%s/%s/inf' % (f, d), 'c15roll', k, t, 3, 2, 1, 3))
            for l in (0, 2, -1):
                out.append(Job('%s/%s/4/2/L%d' % (f, d, l), 'c15roll', k, t, 4, 2, l, 1))
        for f in (0, 1):
            fn = ('tsum', 'tprod')[f]
            for n in (0, 1, 2, 4 if th or d in ('i8', 'u32', 'f64', 'i64') else 3):
                out.append(Job('%s/%s/%d' % (fn, d, n), 'c15time', f, t, n, 1, 1, 0))
            for l, tl in ((0, 1), (2, 1), (1, 2), (-1, -1), (1, -1)):
                out.append(Job('%s/%s/3/L%d/%d' % (fn, d, l, tl), 'c15time', f, t, 3, l, tl, 0))
            for sh in (0, 1, 2):
                out.append(Job('%s/%s/40007/S%d' % (fn, d, sh), 'c15time', f, t, 40007, 1, 1, sh))
    return out
