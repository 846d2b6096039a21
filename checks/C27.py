from vlib.driver import Job
TUS = ['BitCount.cpp']
HARNESS = ['c27.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
BOUNDS = 'every value of every element of arrays of up to 40 elements, in one to three dimensions and every layout; 1000 elements with symbolic ones at the ends'
OUTSIDE = 'item sizes other than 1, 2, 4 and 8'


def jobs(tier, seed):
    out = []
    for d, t in DT.items():
        for n in (0, 1, 7, 40):
            out.append(Job('count/%s/%d/1' % (d, n), 'c27', t, n, 1))
        for l in (0, 2, -1, 3, 100, 101, 102, 103, 104, 105, 106, 107, 110, 111, 112, 113, 115):
            out.append(Job('count/%s/12/%d' % (d, l), 'c27', t, 12, l))
        out.append(Job('count/%s/1000/1' % d, 'c27', t, 1000, 1))
        if tier == 'thorough':
            out.append(Job('count/%s/200/1' % d, 'c27', t, 200, 1))
    return out
