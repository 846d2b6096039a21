from vlib.driver import Job
TUS = ['Sort.cpp', 'Bins.cpp', 'MultiKey.cpp']
HARNESS = ['c33.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
BOUNDS = ('sortedness: every array of up to 12 elements of every numeric dtype and of up to 4 strings of 1 to 12 characters; void items of up to 17 bytes (that some total order is used); 16385 and 32775 elements (several work blocks, alone and shared with a worker) with symbolic elements '
          'at the block borders; NaN/Inf counts: every array of up to 8 elements with a valid sort order (every order of up to 4, one fixed permutation of more), both index widths')
OUTSIDE = 'long double'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(f, d, *a, **k):
        out.append(Job('%s/%s/%s' % (f, d, '/'.join(map(str, a[1:] or a))), 'c33' + f, *a, **k))
    for d, t in DT.items():
        for n in (0, 1, 2, 3, 5, 12) + ((9, 30, 80) if th else ()):
            add('sorted', d, t, n, 1, 0)
        for l in (0, 2, -1, 100, 101):
            add('sorted', d, t, 6, l, 0)
        for n in (16384, 16385, 32775):
            for sh in (0, 1, 2):
                if n == 32775 or not sh:
                    add('sorted', d, t, n, 1, sh, timeout=100)
        for it in (5, 7):
            for n in (0, 1, 2, 3, 4):
                if n < 4 or d in ('i8', 'u16', 'i64', 'f32') and it == 5 or th:
                    add('count', d, t, it, n, 1)
            for n in (5, 8) + ((10, 20) if th else ()):
                add('count', d, t, it, n, 0)
    for dt, nm in ((18, 'bytes'), (19, 'unicode')):
        for n, w in ((0, 3), (1, 2), (2, 1), (2, 4), (3, 2), (4, 3), (2, 8), (2, 9), (3, 12)):
            add('str', nm, dt, n, w * (4 if dt == 19 else 1))
    for w in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17):
        add('void', 'void', w)
    return out
