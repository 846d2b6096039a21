from vlib.driver import Job
TUS = ['Bins.cpp', 'MultiKey.cpp']
HARNESS = ['c21.cpp']
ENGINE_ARGS = ['--forkptr']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
CT = ('i8', 'i16', 'i32', 'i64', 'u64', 'f32', 'f64')
BOUNDS = ('every value and every ascending list of 1 to 4 cuts, for 11 dtypes of values, 7 dtypes of cuts and the three search modes; 100 to 30001 cuts (10 apart) with a value near the first, middle and last cuts; '
          '16384 to 40003 values with one symbolic at block borders, also shared with a worker; strings and string cuts of 1, 2 and 4 bytes; sorted binning of up to 3 values among up to 3 cuts (integer valued cuts where two '
          'or more integers are binned) and 101 cuts')
OUTSIDE = 'cuts that are not ascending (strictly for bin cuts) or NaN; strings with characters after a zero; more than 2e9 cuts; long double; int64 beyond 2^53 against float cuts compares as double (as documented)'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(f, id, *a, **k):
        out.append(Job('%s/%s/%s' % (f, id, '/'.join(map(str, a))), 'c21' + f, *a, **k))
    for d, t in DT.items():
        for c in CT:
            for mode in (0, 1, 2):
                for nb in (1, 2, 3, 4) if d in ('i32', 'f64', 'f32') or c == d or th else (1, 3):
                    add('bsearch', d + c, t, DT[c], mode, 1, nb, 1)
        for mode in (0, 1, 2):
            add('bsearch', d, t, 12, mode, 2, 2, 1)
            for lay in (0, 2, -1, 100, 101):
                add('bsearch', d, t, 12, mode, 2, 1, lay)
    for d in ('i16', 'u32', 'i64', 'f32', 'f64'):
        for mode in (0, 1, 2):
            for nb in (100, 101, 30000, 30001):
                add('many', d, DT[d], 12 if nb < 200 and d != 'i64' else 7 if d == 'i64' else 5, mode, nb)
    for d in ('i8', 'i32', 'i64', 'f64'):
        for mode in (0, 1, 2):
            for n, sh in ((16384, 0), (40003, 0), (33000, 1)):
                    add('blocks', d, DT[d], mode, n, sh)
    for w in (1, 2, 4):
        for wc in (1, 2, 4):
            for nb in (1, 2, 3):
                add('string', '%d-%d' % (w, wc), w, wc, 1, nb, 0)
            add('string', '%d-%d' % (w, wc), w, wc, 2, 2, 0)
        add('string', 'blocks', w, 2, 16385, 3, 0)
        w == 2 and add('string', 'blocks', w, 1, 40003, 4, 1)
    for d, t in DT.items():
        if d == 'bool':
            continue
        for bits in (32, 64):
            for n in (0, 1, 2, 3):
                for nb in (1, 2, 3):
                    z = d[0] != 'f' and d[1:] != '64'
                    if d[0] != 'f' and n < 2 and (n + nb < 4 or th):
                        add('sorted', d, t, bits, n, nb, (n + nb) % 3, 0)
                    if d[0] == 'f' or z or n + nb < 4:
                        add('sorted', d, t, bits, n, nb, (n + nb) % 3, int(z or d == 'f32' and n > 1))
            if d[0] != 'f' or bits == 32:
                add('sorted', d, t, bits, 2 if d[1:] == '64' and d[0] != 'f' else 3, 101, 0, 0)
    for k in range(14):
        add('bad', k, k)
    return out
