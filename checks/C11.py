from vlib.driver import Job
TUS = ['MultiKey.cpp', 'Convert.cpp']
HARNESS = ['c11.cpp']
DT = {'i8': 1, 'i16': 3, 'i32': 5, 'i64': 7, 'q64': 9}
BOUNDS = ('every bin assignment (values in and out of range, any value of the dtype) of up to 5 rows to up to 3 bins, in every layout; 200, 33 000 and 70 000 rows with '
          'concrete bins and one or two symbolic rows at each of 4 to 8 places, with the parallel split over 4 threads and worker threads taking blocks')
OUTSIDE = 'more than 2^31 rows (64-bit results); counts that are not the true counts of the keys given to GroupFromBinCount'
L = (0, 2, -1, 100, 101, 102, 105)


def jobs(tier, seed):
    out = []
    N = (0, 1, 3, 4) if tier == 'quick' else (0, 1, 3, 4, 5, 6)
    for d, t in DT.items():
        for n in N:
            for m in (0, 1):
                out.append(Job('next/%s/%d/%d' % (d, n, m), 'c11next', t, n, 1, 2, m))
            out.append(Job('pack/%s/%d' % (d, n), 'c11pack', t, n, 1, 2, 0))
            out.append(Job('count/%s/%d' % (d, n), 'c11count', t, n, 1, 3, 0, 0))
            out.append(Job('countpack/%s/%d' % (d, n), 'c11count', t, n, 1, 3, 1, 0))
            out.append(Job('group/%s/%d' % (d, n), 'c11group', t, n, 1, 3, 0))
            for f in (1, -9):
                for la in (0, 1):
                    out.append(Job('first/%s/%d/%d/%d' % (d, n, f, la), 'c11first', t, n, 1, 2, f, la))
        for n, u in ((1, 1), (3, 2), (4, 2), (5, 2), (5, 3)):
            out.append(Job('linked/%s/%d/%d' % (d, n, u), 'c11pack', t, n, 1, u, 1))
            out.append(Job('linkedmin/%s/%d/%d' % (d, n, u), 'c11pack', t, n, 1, u, 2))
        for n in (200, 40000) if d in ('i8', 'i16') else (200,):
            out.append(Job('next/%s/%d/0' % (d, n), 'c11next', t, n, 1, 5, 0))
            out.append(Job('next/%s/%d/1' % (d, n), 'c11next', t, n, 1, 5, 1))
        out.append(Job('pack/%s/200' % d, 'c11pack', t, 200, 1, 9, 0))
        out.append(Job('first/%s/200' % d, 'c11first', t, 200, 1, 9, -9, 0))
        for n, nb in ((33000, 5), (70000, 3)):
            if d in ('i64', 'i16') and tier == 'quick':
                continue
            out.append(Job('count/%s/%d/%d' % (d, n, nb), 'c11count', t, n, 1, nb, 0, 0))
            out.append(Job('countpack/%s/%d/%d/shared' % (d, n, nb), 'c11count', t, n, 1, nb, 1, 2))
            out.append(Job('group/%s/%d/%d/shared' % (d, n, nb), 'c11group', t, n, 1, nb, 1))
    for l in L:
        out.append(Job('next/i32/l%d' % l, 'c11next', 5, 3, l, 2, 0))
        out.append(Job('pack/i32/l%d' % l, 'c11pack', 5, 3, l, 2, 0))
        out.append(Job('count/i32/l%d' % l, 'c11count', 5, 3, l, 3, 0, 0))
        out.append(Job('countpack/i32/l%d' % l, 'c11count', 5, 3, l, 3, 1, 0))
        out.append(Job('group/i32/l%d' % l, 'c11group', 5, 3, l, 3, 0))
        out.append(Job('first/i32/l%d' % l, 'c11first', 5, 3, l, 2, -9, 0))
        out.append(Job('first/i32/f%d' % l, 'c11first', 5, 3, 1 if l < 100 else 100, 2, l, 0))
    for fn in range(5):
        for c in range(4 if fn == 4 else 3):
            out.append(Job('bad/%d/%d' % (fn, c), 'c11bad', fn, c))
    return out
