from vlib.driver import Job
TUS = ['TileRepeat.cpp']
HARNESS = ['c34.cpp']
BOUNDS = ('11 record layouts (fields of 1 to 24 bytes, records of 1 to 20000 bytes, gaps, reordered and overlapping fields); every byte of every record of arrays of up to 21 records; every residue of the record count by 8; '
          '1500 and 16385..33000 records (several inner chunks and worker blocks, alone and shared with a worker) with symbolic records at the borders')
OUTSIDE = 'offset arrays that are not int64 and output arrays of the wrong length (the Python layer allocates them)'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(l, n, full, share=0, **k):
        out.append(Job('rec/%d/%d/%d/%d' % (l, n, full, share), 'c34', l, n, full, share, **k))
    for l in range(11):
        for n in (0, 1, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 18, 21):
            add(l, n, 21 if l not in (7, 8) else 3)
        if l not in (7, 8):
            add(l, 1500, 0)
    for l in (1, 2, 4, 5) if not th else range(11):
        if l in (7, 8):
            continue
        for sh in (0, 1):
            add(l, 16384, 0, sh, timeout=120)
            add(l, 16385, 0, sh, timeout=120)
            add(l, 33000, 0, sh, timeout=120)
    for l in (0, 3):
        for k in (2, -1, 3):
            for n in (1, 5):
                out.append(Job('strided/%d/%d/%d' % (l, n, k), 'c34strided', l, n, k))
    return out
