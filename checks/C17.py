from vlib.driver import Job
TUS = ['Merge.cpp']
HARNESS = ['c17.cpp']
DT = {'bool': 0, 'i8': 1, 'u16': 4, 'i32': 5, 'f32': 11, 'i64': 7, 'f64': 12}
BOUNDS = ('every mask of up to 9 entries; masks of 19 to 64 entries and of 32775 entries (three work blocks, alone and shared with a worker) with two neighbouring symbolic entries '
          'at every position of the short ones and around the block borders of the long one; counting: every mask of up to 300 entries; all item sizes 1, 2, 4, 8, 16 and odd ones')
OUTSIDE = 'masks with true bytes other than 1; arrays of more than three dimensions'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(kind, id, *a, **k):
        out.append(Job('%s/%s/%s' % (kind, id, '/'.join(map(str, a))), 'c17' + kind, *a, **k))
    for d, t in DT.items():
        for n in (0, 1, 3, 8, 9) + ((10, 12) if th else ()):
            add('index', d, t, n, 1, 1, 0, 0)
        add('index', d, t, 27, 1, 1, 1, 0)
        add('index', d, t, 6, 2, 1, 0, 0)
        add('index', d, t, 6, 1, 2, 0, 0)
        add('index', d, t, 19, 2, 2, 1, 0)
        add('index', d, t, 19, -1, 1, 1, 0)
        add('index', d, t, 19, 1, -1, 1, 0)
        add('index', d, t, 19, 3, 1, 2, 0)
        for vl, ml in ((100, 100), (101, 101), (100, 101), (101, 100), (102, 102), (102, 100), (100, 102), (103, 103), (106, 106), (104, 104), (104, 100), (107, 107), (107, 100), (100, 1), (1, 100), (110, 110), (111, 110)):
            add('index', d, t, 12, vl, ml, 1, 0)
        if th or d in ('u16', 'f64'):
            add('index', d, t, 32775, 1, 1, 1, 0, timeout=120)
        if th or d in ('i8', 'i32'):
            add('index', d, t, 32775, 1, 1, 1, 2, timeout=120)
        if th or d == 'f32':
            add('index', d, t, 32775, 2, 3, 1, 1, timeout=120)
    for sz, dt in ((3, 18), (5, 18), (16, 18), (1, 18), (8, 18), (4, 19), (12, 19), (7, 20), (4, 20)):
        for n in (1, 7, 8, 9):
            add('item', 'b%d' % sz, sz, n, sz, 1, 0, dt)
        add('item', 'b%d' % sz, sz, 21, 2 * sz, 1, 1, dt)
        add('item', 'b%d' % sz, sz, 21, sz, 2, 1, dt)
        add('item', 'b%d' % sz, sz, 5, 2 * sz, 2, 0, dt)
        add('item', 'b%d' % sz, sz, 21, -sz, -1, 1, dt)
    for both in (0, 1):
        for n in (0, 1, 3, 8, 9) + ((12,) if th else ()):
            add('fancy', 'both%d' % both, n, 1, 0, both, 0)
        add('fancy', 'both%d' % both, 6, 2, 0, both, 0)
        add('fancy', 'both%d' % both, 7, -1, 0, both, 0)
        for l in (1, 2, 3, -1, 100, 101, 102, 103, 104, 106, 107, 110, 111):
            add('fancy', 'both%d' % both, 24, l, 1, both, 0)
        for n in (16400, 32775):
            add('fancy', 'both%d' % both, n, 1, 1, both, 0, timeout=120)
            add('fancy', 'both%d' % both, n, 1, 3, both, 1, timeout=120)
            add('fancy', 'both%d' % both, n, 2, 2, both, 2, timeout=120)
    for n in (0, 1, 2, 31, 32, 33, 64, 95, 300):
        add('sum', 'all', n, 1, 0, 0)
    add('sum', 'all', 9000 if not th else 17000, 1, 0, 0, timeout=200)
    for l in (2, -1, 100, 101, 102, 103, 104, 106, 107, 110, 111, 112):
        add('sum', 'lay', 24, l, 1, 0)
    for mode in (1, 2, 3):
        add('sum', 'big', 32775, 1, mode, 0)
        add('sum', 'big', 32775, 1, mode, 2)
        add('sum', 'big', 32775, 2, mode, 1)
    return out
