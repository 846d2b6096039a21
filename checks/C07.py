from vlib.driver import Job
TUS = ['Sort.cpp', 'MultiKey.cpp']
HARNESS = ['c07.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
BOUNDS = ('every value of up to 5 keys (6 in the thorough tier) of every dtype, string, unicode and void keys of 1 to 27 bytes (3 rows for wide ones), under several arrangements of the index in which equal keys are adjacent; '
          '40 rows with 3 symbolic keys; both index widths, base index 0, 1 and default, rows left out of the index, partitions (whole, with an empty one, one per row), alone and shared with a worker')
OUTSIDE = 'an index that does not put equal keys next to each other or refers to rows out of range; float fields inside void keys (compared by their bytes); half, long double and complex keys; the filter argument, which the code ignores'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(id, *a):
        out.append(Job('group/%s/%s' % (id, '/'.join(map(str, a))), 'c07', *a))
    for d, t in DT.items():
        for bits in (32, 64):
            for n in (0, 1, 2, 3, 4, 5) + ((6,) if th else ()):
                for perm in (0, 2) if n > 2 else (0,):
                    for base in (-1, 0, 1) if n < 5 else (0, 1):
                        add(d, bits, t, 0, n, n, base, perm, 0, -1, 0)
            add(d, bits, t, 0, 5, 3, 1, 2, 0, -1, 0)
            add(d, bits, t, 0, 5, 3, 0, 1, 0, -1, 0)
            for cuts in (1, 2, 3):
                for base in (0, 1):
                    add(d, bits, t, 0, 4, 4, base, 1, cuts, -1, cuts == 2)
            add(d, bits, t, 0, 6, 6, 1, 3, 2, -1, 1)
            add(d, bits, t, 0, 6, 5, 1, 3, 2, -1, 0)
            add(d, bits, t, 0, 40, 40, 1, 3, 0, 3, 0)
            add(d, bits, t, 0, 40, 40, 0, 0, 2, 3, 1)
    for name, t, ws in (('S', 18, [1, 2, 3, 4, 5, 7, 8, 9, 16, 17]), ('U', 19, [4, 8, 12, 24]), ('V', 20, list(range(1, 28)))):
        for w in ws:
            add(name, 32, t, w, 3, 3, 0, 2, 0, -1, 0)
            add(name, 64, t, w, 3, 3, 1, 1, 0, -1, 0)
            add(name, 32, t, w, 4, 4, 1, 1, 2, -1, 1)
            add(name, 64, t, w, 4, 4, 0, 1, 3, -1, 0)
            add(name, 32, t, w, 40, 40, 0, 3, 0, 2, 0)
    for kind in range(7):
        out.append(Job('bad/%d' % kind, 'c07bad', kind))
    return out
