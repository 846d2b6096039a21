from vlib.driver import Job
TUS = ['Convert.cpp']
HARNESS = ['c20.cpp']
DT = {'i8': 1, 'i16': 3, 'i32': 5, 'i64': 7, 'q64': 9}
BOUNDS = ('every value of every row: CombineFilter and CombineAccum2Filter up to 40 rows, every layout, and 70 000 rows in work blocks with symbolic rows at the block '
          'boundaries; every declared size around each change of the result type; CombineAccum1Filter every bin assignment and filter of up to 5 rows and 4 bins, and '
          '600 rows with four symbolic ones')
OUTSIDE = ('more than 2^31 rows; combined numbers outside 64 bits; without a filter, bin numbers outside their declared range (the code documents no check there); '
           'first rows of Fortran ordered arrays')
L = (0, 1, 2, -1, 100, 101, 102, 103, 105, 107, 110, 111, 113)


def jobs(tier, seed):
    out = []
    for d, t in DT.items():
        for n in (0, 1, 5, 40):
            out.append(Job('filter/%s/%d/1/1' % (d, n), 'c20filter', t, n, 1, 1, 0))
        for n in (0x4000 * 2 + 5, 70000):
            out.append(Job('filter/%s/%d/1/1' % (d, n), 'c20filter', t, n, 1, 1, 0))
        out.append(Job('filter/%s/70000/1/1/shared' % d, 'c20filter', t, 70000, 1, 1, 2))
    for l in L:
        for m in ((1,) if l < 100 else (l, 100, 101)):
            out.append(Job('filter/i32/12/%d/%d' % (l, m), 'c20filter', 5, 12, l, m, 0))
            out.append(Job('filter/i32/12/%d/%d' % (m, l), 'c20filter', 5, 12, m, l, 0))
    for a, ta in DT.items():
        for b, tb in DT.items():
            if 'q64' in (a, b) and (a, b) not in (('q64', 'i8'), ('i8', 'q64'), ('q64', 'q64')):
                continue
            for fl in (1, -9):
                out.append(Job('two/%s/%s/2/%d/small' % (a, b, fl), 'c20two', ta, tb, 2, 1, 1, fl, 0, 0))
                for c in (1, 2, 3, 4):
                    if c == 1 or (a, b) in (('i8', 'i32'), ('i16', 'i8'), ('i64', 'i16'), ('i32', 'i64'), ('q64', 'q64'), ('i64', 'i8')):
                        out.append(Job('two/%s/%s/3/%d/class%d' % (a, b, fl, c), 'c20two', ta, tb, 3, 1, 1, fl, c, 0))
    for fl in (1, -9):
        for n in (0x4000 * 2 + 5, 70000):
            out.append(Job('two/i32/i16/%d/%d' % (n, fl), 'c20two', 5, 3, n, 1, 1, fl, 5, 0))
        out.append(Job('two/i32/i16/70000/%d/shared' % fl, 'c20two', 5, 3, 70000, 1, 1, fl, 5, 2))
        out.append(Job('two/i32/i32/4/%d/negative' % fl, 'c20two', 5, 5, 4, 1, 1, fl, 9, 0))
    for l in L:
        m = 1 if l < 100 else 100
        out.append(Job('two/i32/i8/6/%d/%d/%d' % (l, m, m), 'c20two', 5, 1, 6, l, m, m, 5, 0))
        out.append(Job('two/i32/i8/6/%d/%d/%d' % (m, l, m), 'c20two', 5, 1, 6, m, l, m, 5, 0))
        out.append(Job('two/i32/i8/6/%d/%d/%d' % (m, m, l), 'c20two', 5, 1, 6, m, m, l, 5, 0))
        out.append(Job('two/i32/i8/6/%d/%d/none' % (l, l), 'c20two', 5, 1, 6, l, l, -9, 5, 0))
    for d, t in DT.items():
        for fl in (1, -9):
            for mx in (0, 1, 3):
                for n in (0, 1, 4):
                    out.append(Job('one/%s/%d/%d/%d' % (d, n, fl, mx), 'c20one', t, n, 1, fl, mx))
            out.append(Job('one/%s/600/%d/9' % (d, fl), 'c20one', t, 600, 1, fl, 2))
            out.append(Job('one/%s/4/%d/-1' % (d, fl), 'c20one', t, 4, 1, fl, -1))
    for l in (0, 2, -1, 100, 102, 103, 105, 107):
        out.append(Job('one/i32/6/%d/none' % l, 'c20one', 5, 6, l, -9, 1))
        if l < 100 or l == 100:
            out.append(Job('one/i32/6/1/%d' % l, 'c20one', 5, 6, 1 if l < 100 else 100, l, 1))
    for fn in range(3):
        for c in range(6 if fn else 4):
            out.append(Job('bad/%d/%d' % (fn, c), 'c20bad', fn, c))
    if tier == 'thorough':
        for d, t in DT.items():
            for fl in (1, -9):
                out.append(Job('one/%s/5/%d/4' % (d, fl), 'c20one', t, 5, 1, fl, 4))
    return out
