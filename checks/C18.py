from vlib.driver import Job
TUS = ['Convert.cpp']
HARNESS = ['c18.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
BOUNDS = ('every mask of up to 9 entries, masks of 19 entries and of 16384, 16400 and 32775 entries (one to three partitions, alone and shared with a worker) with two neighbouring symbolic entries; '
          'all numeric dtypes and all ordered pairs of them for PutMask; values one per true entry, a single value, one too many or too few; contiguous, unaligned, strided, reversed and multi-dimensional '
          'arrays, masks and values')
OUTSIDE = 'values given as Python lists; masks with true bytes other than 1; finite floats outside the target integer range; long double'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(kind, id, *a, **k):
        out.append(Job('%s/%s/%s' % (kind, id, '/'.join(map(str, a))), 'c18' + kind, *a, **k))
    for d, t in DT.items():
        for n in (0, 1, 2, 8) + ((9, 11) if th else ()):
            add('set', d, t, n, 1, 1, 1, 0, 0, 0)
        add('set', d, t, 5, 1, 1, 1, 0, 1, 0)
        add('set', d, t, 5, 1, 1, 1, 0, -1, 0)
        add('set', d, t, 5, 1, 1, 1, 0, 100, 0)
        if th or d in ('i8', 'u16', 'i32', 'f64'):
            for al, ml, vl in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (0, 1, 0), (2, 2, 2), (3, 1, 3), (100, 100, 1), (101, 101, 1), (1, 100, 1), (102, 102, 1), (103, 1, 1)):
                add('set', d, t, 12, al, ml, vl, 1, 0, 0)
                add('set', d, t, 12, al, ml, vl, 1, 100, 0)
        if th or d in ('i8', 'u16', 'f32', 'f64'):
            add('set', d, t, 16384, 1, 1, 1, 1, 0, 0, timeout=200)
            add('set', d, t, 16400, 1, 1, 1, 1, 0, 2, timeout=200)
            add('set', d, t, 32775, 1, 1, 1, 1, 0, 1, timeout=200)
        if th or d in ('i8', 'i16', 'i32', 'i64'):
            add('set', d, t, 16400, 1, 1, 1, 1, 100, 1, timeout=200)
        if th or d == 'i32':
            add('set', d, t, 16400, 1, 1, 1, 2, 1, 1, timeout=200)
            add('set', d, t, 32768, 1, 1, 1, 2, 0, 1, timeout=200)
            for al, ml, vl in ((2, 1, 1), (1, 2, 1), (1, 1, 2)):
                add('set', d, t, 16400, al, ml, vl, 1, 0, 1, timeout=200)
    for sz in (3, 5, 16):
        for n in (1, 7):
            add('item', 'b%d' % sz, sz, n, 0)
        add('item', 'b%d' % sz, sz, 16400, 1, timeout=200)
    for d, t in DT.items():
        for e, u in DT.items():
            add('put', d + '-' + e, t, u, 3, 1, 1, 1, 0, 0)
        for n in (0, 1, 7):
            add('put', d + '-' + d, t, t, n, 1, 1, 1, 0, 0)
        if th or d in ('i8', 'u16', 'f32', 'f64'):
            for al, ml, vl in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (0, 1, 0), (2, 2, 2), (3, 1, 3), (100, 100, 100), (101, 101, 101), (1, 100, 1), (102, 102, 102), (103, 1, 1), (101, 100, 100)):
                add('put', d + '-' + d, t, t, 12, al, ml, vl, 1, 0)
        add('put', d + '-' + d, t, t, 19, 1, 1, 1, 1, 0)
    for d, e in (('i32', 'i32'), ('f64', 'i32'), ('i16', 'f64'), ('i8', 'i64'), ('f32', 'f32'), ('i64', 'i64')):
        for sh in (0, 2):
            add('put', d + '-' + e, DT[d], DT[e], 32775, 1, 1, 1, 1, sh, timeout=200)
    return out
