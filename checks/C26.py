from vlib.driver import Job
TUS = ['CRC32.cpp']
HARNESS = ['c26.cpp']
DT = {'bool': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 11, 'f64': 12}
BOUNDS = ('every content of buffers of every length up to 160 bytes at every misalignment by 0..7; buffers of 500 to 2007 bytes with 40 symbolic bytes at either end; every dtype and layout of small arrays')
OUTSIDE = 'chained checksums (the entry point has no such argument)'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'
    for n in range(0, 161 if not th else 400):
        out.append(Job('crc/%d' % n, 'c26', n, n % 8, n, 0))
    for mis in range(8):
        for n in (1, 9, 64, 71, 72):
            out.append(Job('crc/%d/%d' % (n, mis), 'c26', n, mis, n, 0))
    for n in (500, 1001, 2007):
        out.append(Job('long/%d' % n, 'c26', n, 0, 40, 40, timeout=120))
    for d, t in DT.items():
        for l in (0, 1, 2, -1, 100, 101, 102, 105, 110, 111, 113):
            out.append(Job('shape/%s/%d' % (d, l), 'c26shape', t, 6, l))
        out.append(Job('shape/%s/1/2' % d, 'c26shape', t, 1, 2))
    return out
