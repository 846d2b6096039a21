from vlib.driver import Job
TUS = ['BasicMath.cpp', 'Convert.cpp']
HARNESS = ['c28.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
BOUNDS = ('every condition and every value of arrays of up to 33 elements; all numeric dtypes; array and scalar choices in every combination; contiguous, unaligned, strided, reversed and multi-dimensional '
          'arguments; 32775 elements (three work blocks, alone and shared with a worker) with symbolic elements at the block borders; string items of 3 to 20 bytes with scalar strings of up to 30 characters')
OUTSIDE = 'choices of another dtype than the requested output (the Python layer converts them first); conditions with true bytes other than 1'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(f, id, *a, **k):
        out.append(Job('%s/%s/%s' % (f or 'num', id, '/'.join(map(str, a))), 'c28' + f, *a, **k))
    for d, t in DT.items():
        ks = (1001, 1000) if d != 'bool' else (1003, 1000)
        if d[0] == 'f':
            ks = (1001, 1002, 1004)
        elif d[0] == 'i':
            ks = (1001, 1004)
        for n in (1, 2, 9, 33) + ((5, 8, 17, 64) if th else ()):
            add('', d, t, n, 1, 1, 1, 0)
        for k in ks:
            add('', d, t, 9, 1, k, 1, 0)
            add('', d, t, 9, 1, 1, k, 0)
            add('', d, t, 9, 1, k, ks[0], 0)
        add('', d, t, 0, 1, 1, 1, 0)
        for l in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (1, ks[0], 2), (1, -1, ks[0]), (2, ks[0], 1), (1, ks[0], 0), (1, 0, ks[0]), (100, 100, 100), (101, 101, 101), (102, 102, 102), (100, 101, 100)):
            add('', d, t, 12, *l, 0)
        if th or d in ('i8', 'u16', 'f32', 'i64'):
            for sh in (0, 2):
                add('', d, t, 32775, 1, 1, 1, sh, timeout=120)
            add('', d, t, 32775, 1, 1, ks[0], 1, timeout=120)
            add('', d, t, 32775, 1, ks[0], 1, 2, timeout=120)
            add('', d, t, 32775, 1, ks[0], ks[1], 1, timeout=120)
    for dt, szs in ((18, (1, 2, 3, 4, 8, 20)), (19, (4, 8, 12, 20))):
        for sz in szs:
            c = 1 if dt == 18 else 4
            for w1, w2 in ((sz, sz), (sz, -1), (-1, sz), (-1, -(sz // c)), (-30, sz), (sz, -30), (-30, -30)):
                add('item', '%s%d' % ('SU'[dt - 18], sz), dt, sz, 5, w1, w2, 0)
            add('item', '%s%d' % ('SU'[dt - 18], sz), dt, sz, 5, 2 * sz, sz, 0)
            add('item', '%s%d' % ('SU'[dt - 18], sz), dt, sz, 5, sz, 2 * sz, 0)
    add('item', 'S3', 18, 3, 32775, 3, 3, 1, timeout=120)
    add('item', 'S5', 18, 5, 32775, 5, -2, 2, timeout=120)
    return out
