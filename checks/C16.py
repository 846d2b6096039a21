from vlib.driver import Job
TUS = ['Merge.cpp']
HARNESS = ['c16.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'i32': 5, 'u32': 6, 'f32': 11, 'i64': 7, 'u64': 8, 'f64': 12}
IT = {'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8}
BOUNDS = ('every index value of every integer index dtype, 3 to 9 indexes at a time, into 0 to 300 values; contiguous, unaligned, strided and reversed values and indexes, multi-dimensional layouts; '
          '32775 indexes (three work blocks, alone and shared with a worker) with a symbolic index at each of the 8 block borders; string items of 1 to 40 bytes')
OUTSIDE = 'values of more than 300 elements with symbolic contents; long double values; boolean masks (C17)'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(kind, id, *a, **k):
        out.append(Job('%s/%s/%s' % (kind, id, '/'.join(map(str, a))), 'c16' + kind, *a, **k))
    for d, t in DT.items():
        for i, it in IT.items():
            for n in (1, 5) + ((2, 3, 9) if th else ()):
                add('get', d + '-' + i, t, it, 5, n, 1, 1, 0, 0)
            if th or (d in ('i32', 'f64')) or i in ('i32', 'u8'):
                add('get', d + '-' + i, t, it, 4, 3, 2, 1, 1, 0)
                add('get', d + '-' + i, t, it, 4, 3, 1, 2, 2, 0)
                add('get', d + '-' + i, t, it, 4, 3, -1, -1, 0, 0)
            if th or d == 'i16' or (d, i) in (('f64', 'i64'), ('bool', 'u16')):
                add('get', d + '-' + i, t, it, 0, 3, 1, 1, 0, 0)
                add('get', d + '-' + i, t, it, 3, 0, 1, 1, 0, 0)
                add('get', d + '-' + i, t, it, 200, 2, 1, 1, 0, 0)
                add('get', d + '-' + i, t, it, 120, 1, 3, 0, 0, 0)
                add('get', d + '-' + i, t, it, 130, 1, 0, 3, 0, 0)
    for d, i in (('i32', 'i32'), ('f64', 'i64'), ('i8', 'u8'), ('u8', 'i16')):
        for l in (100, 101, 102, 103, 104, 105, 106, 107, 110, 111, 112):
            add('get', d + '-' + i, DT[d], IT[i], 12, 3, l, 1, 0, 0)
            add('get', d + '-' + i, DT[d], IT[i], 4, 12, 1, l, 0, 0)
    for d, i, vl, il, sh in (('i32', 'i32', 1, 1, 0), ('f64', 'i64', 2, 1, 0), ('i16', 'u16', 1, 2, 2), ('i8', 'i16', -1, 1, 1), ('u8', 'u32', 3, -1, 2), ('f32', 'i8', 1, 1, 1), ('i64', 'u64', 2, 2, 2)):
        add('get', d + '-' + i, DT[d], IT[i], 1000, 32775, vl, il, 0, sh, timeout=200)
        add('get', d + '-' + i, DT[d], IT[i], 100, 16390, vl, il, 1, sh, timeout=200)
    for dt, sz in ((18, 3), (18, 1), (18, 5), (18, 8), (18, 16), (18, 24), (18, 40), (19, 4), (19, 8), (19, 12), (19, 16), (19, 36)):
        for i, it in IT.items():
            if th or i in ('i32', 'u8', 'i64', 'u64') or sz in (5, 12):
                add('item', '%s%d-%s' % ('SU'[dt - 18], sz, i), dt, sz, it, 3, 3, 1, 1, -1)
                add('item', '%s%d-%s' % ('SU'[dt - 18], sz, i), dt, sz, it, 3, 2, 2, 1, 2)
                add('item', '%s%d-%s' % ('SU'[dt - 18], sz, i), dt, sz, it, 3, 2, -1, 2, 10)
    return out
