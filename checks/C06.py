from vlib.driver import Job
TUS = ['Sort.cpp', 'MultiKey.cpp']
HARNESS = ['c06.cpp']
ENGINE_ARGS = ['--forkptr']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
BOUNDS = ('every value of arrays of up to 4 elements (5 for some dtypes; strings of 1 to 6 characters, 3 items), every dtype, sort function and mode, one and two keys, ascending and descending; 20 to 70 elements '
          '(partitioning and merging steps) with backgrounds in cyclic, ascending, descending and constant order and up to 3 symbolic elements; 32771 and 40003 elements (the parallel 8-way merge, alone and shared '
          'with a worker) with one symbolic element at four positions; start index and cutoffs')
OUTSIDE = 'more than two keys; long double; complex; order of void items beyond: a total order (see C33), reversed when descending; large arrays with more than 6 distinct values; interleavings of the merge steps (C24 covers the queue)'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(f, id, *a, **k):
        out.append(Job('%s/%s/%s' % (f, id, '/'.join(map(str, a))), 'c06' + f, *a, **k))
    for d, t in DT.items():
        for mode in (1, 2, 3):
            for n in (0, 1, 2, 3, 4) + ((5,) if th or d in ('i32', 'f64') else ()):
                add('sort', d, t, n, mode, 0, 1, 0, -1)
            add('sort', d, t, 4, mode, 1, 1, 0, -1)
            for kind in (0, 1, 2, 3):
                add('sort', d, t, 21, mode, kind & 1, 1, kind, 2)
            for n in (35, 70):
                add('sort', d, t, n, mode, 0, 1, 0, 1)
            add('sort', d, t, 130, mode, 1, 1, 2, 1)
        for lay in (0, 2, -1, 100, 101):
            for ip in (0, 1):
                add('sort', d, t, 3, 2, ip, lay, 0, -1)
        # index, n, d1, d2, asc, layout, kind, nsym, share, start, cut
        for bits in (32, 64):
            for n in (0, 1, 2, 3, 4) + ((5,) if th or d in ('i32', 'f64') else ()):
                add('lex', d, bits, n, t, -1, 1, 1, 0, -1, 0, 0, 0)
            add('lex', d, bits, 4, t, -1, 2, 1, 0, -1, 0, 0, 0)
            add('lex', d, bits, 5, t, -1, 3 if bits == 32 else 2, 1, 0, -1, 0, 2, 0)
            add('lex', d, bits, 5, t, -1, 1, 1, 0, -1, 0, 0, 2)
            add('lex', d, bits, 3, t, -1, 1, 1, 0, -1, 0, 0, 3)
            for kind in (0, 1, 2, 3):
                add('lex', d, bits, 21, t, -1, 1 + (kind & 1), 1, kind, 2, 0, 0, 0)
            add('lex', d, bits, 70, t, -1, 1, 1, 0, 1, 0, 0, 0)
            add('lex', d, bits, 70, t, -1, 1, 1, 2, 1, 0, 1, 0)
            add('lex', d, bits, 70, t, -1, 2, 1, 0, 1, 0, 0, 27)
            for t2 in (1, 12):
                add('lex', d, bits, 3, t, t2, 4 + (t + bits // 32) % 4, 1, 0, -1, 0, 0, 0)
            add('lex', d, bits, 40, t, 5, 1, 1, 0, 1, 0, 0, 0)
        for lay in (0, 2, -1, 100):
            add('lex', d, 32, 3, t, -1, 1, lay, 0, -1, 0, 0, 0)
    for d, bits in (('i32', 32), ('f64', 32), ('u8', 64), ('f32', 64)) if not th else [(d, b) for d in DT for b in (32, 64)]:
        add('lex', d, bits, 40003, DT[d], -1, 1, 1, 0, 1, 0, 0, 0, timeout=200)
        add('lex', d, bits, 32771, DT[d], -1, 2, 1, 2, 1, 3, 0, 0, timeout=200)
    for s, cw in ((18, 1), (19, 4)):
        nm = 'SU'[s - 18]
        for w in (1, 2, 3, 6):
            for asc in (1, 2):
                add('lex', nm, 32, 3, s, -1, asc, w * cw, 0, -1, 0, 0, 0)
            add('lex', nm, 64, 2, s, 5, 5, w * cw, 0, -1, 0, 0, 0)
            add('lex', nm, 32, 40, s, -1, 1, w * cw, 0, 1, 0, 0, 0)
        add('lex', nm, 32, 5, 5, s, 1, 1, 0, 1, 0, 0, 0)
        add('lex', nm, 32, 40, s, -1, 1, 3 * cw, 0, 1, 0, 0, 17)
        add('lex', nm, 32, 40, s, -1, 1, 3 * cw, 2, 1, 0, 1, 0)
        if th or nm == 'S':
            add('lex', nm, 64, 32771, s, -1, 2, cw, 0, 1, 3, 0, 0, timeout=200)
    for w in list(range(1, 20)) + [24, 27]:
        add('void', w, w)
    for dt in (14, 17, 18, 19, 20):
        for mode in (1, 2):
            add('bad', dt, dt, mode, mode - 1)
    add('bad', 'mode', 5, 0, 0)
    add('bad', 'mode', 5, 4, 1)
    return out
