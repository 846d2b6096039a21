from vlib.driver import Job
TUS = ['Merge.cpp', 'Bins.cpp', 'MultiKey.cpp']
HARNESS = ['c22.cpp']
S = {'i8': 1, 'i16': 3, 'i32': 5, 'i64': 7}
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'i32': 5, 'f32': 11, 'i64': 7, 'u64': 8, 'f64': 12}
BOUNDS = ('ReIndexGroups: every key value, up to 7 rows, 1 to 3 partitions at every cut position, up to 6 uniques of any value, and 20000 rows in 5 partitions; ReverseShuffle: every permutation of up to 6 '
          'rows and permutations of 32775 rows that differ in two places around the block borders; ReIndex: every in-range index of up to 4 rows and of 32775 rows at the block borders, items of 1 to 17 bytes')
OUTSIDE = 'cut points outside the arrays; inputs of ReverseShuffle that are not permutations; ReIndex of out-of-range indexes (documented as unchecked)'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(kind, id, *a, **k):
        out.append(Job('%s/%s/%s' % (kind, id, '/'.join(map(str, a))), 'c22' + kind, *a, **k))
    for d, t in S.items():
        for n, parts, nu in ((1, 1, 1), (3, 1, 4), (4, 2, 4), (3, 2, 6), (0, 1, 3), (3, 1, 0), (3, 3, 3)) + (((7, 3, 4), (6, 2, 6)) if th else ()):
            add('groups', d, t, n, parts, nu, 1, 0)
        add('groups', d, t, 4, 2, 4, 2, 0)
        add('groups', d, t, 4, 1, 4, -1, 0)
        add('groups', d, t, 4, 2, 4, 0, 0)
        add('groups', d, t, 20000, 5, 100, 1, 0, timeout=200)
        add('groups', d, t, 20000, 5, 100, 1, 2, timeout=200)
        for n in (0, 1, 2, 3, 4, 5) + ((6, 7) if th else ()):
            add('rev', d, t, n, 1, 0)
        for l in (0, 2, -1):
            add('rev', d, t, 4, l, 0)
        if d in ('i32', 'i64'):
            for sh in (0, 1, 2):
                add('rev', d, t, 32775, 1, sh, timeout=200)
            add('rev', d, t, 16385, 1, 1, timeout=200)
    for i, it in (('i32', 5), ('i64', 7), ('u32', 6), ('u64', 8), ('i16', 3)):
        for d, t in DT.items():
            for n in (0, 1, 4):
                add('idx', i + '-' + d, it, t, n, 1, 1, 0)
            if th or d in ('u8', 'f64'):
                for il, vl in ((2, 1), (1, 2), (-1, 1), (1, -1), (0, 0), (3, 2)):
                    add('idx', i + '-' + d, it, t, 4, il, vl, 0)
        if it != 3:
            for sz in (3, 16, 17):
                add('item', '%s-S%d' % (i, sz), it, sz, 3)
    for i, d, sh in (('i32', 'i32', 0), ('i64', 'f64', 2), ('i32', 'i8', 1), ('i64', 'i16', 1), ('i32', 'f64', 2)):
        add('idx', i + '-' + d, S[i], DT[d], 32775, 1, 1, sh, timeout=200)
    return out
