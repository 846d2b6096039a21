from vlib.driver import Job
TUS = ['Ema.cpp']
HARNESS = ['c32.cpp']
BOUNDS = ('every x (NaN and infinities included), every ascending row of 2 to 4 knots between -1e6 and 1e6 and every value at the knots, 1 to 3 rows; 40007 rows with a symbolic x at the block borders, '
          'on one and two threads; float32 and float64')
OUTSIDE = ('how the value of a segment is rounded: the reference evaluates the documented line through the two knots in the order of the code; knots that do not ascend, which bracket nothing; NaN at knots')


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'
    for d, t in (('f32', 11), ('f64', 12)):
        for clip in (0, 1, -1):
            for mode in (1, 2):
                for n, m in ((0, 2), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (1, 1), (3, 2)) + (((3, 3), (1, 6)) if th else ()):
                    out.append(Job('interp/%s/c%d/m%d/%d/%d' % (d, clip, mode, n, m), 'c32', t, n, m, clip, mode, 1, 0))
                for l in (0, 2, -1):
                    out.append(Job('interp/%s/c%d/m%d/L%d' % (d, clip, mode, l), 'c32', t, 2, 2, clip, mode, l, 0))
                if clip >= 0:
                    for sh in (0, 1, 2):
                        out.append(Job('interp/%s/c%d/m%d/40007/S%d' % (d, clip, mode, sh), 'c32', t, 40007, 3, clip, mode, 1, sh))
    return out
