from vlib.driver import Job
TUS = ['BasicMath.cpp', 'Convert.cpp']
HARNESS = ['c35.cpp']
BOUNDS = ('concatenation and trimming of byte and unicode strings: every character of up to 4 items of up to 7 (trimming: 11) characters (fewer items for wider ones), including embedded nulls; array/array, array/scalar and '
          'scalar/array; contiguous, reversed and strided arrays; two-dimensional arrays; longer arrays with a few symbolic items')
OUTSIDE = 'characters of Python scalar arguments are concrete'


def jobs(tier, seed):
    out = []
    th = tier == 'thorough'

    def add(f, *a, **k):
        out.append(Job('%s/%s/%s' % (f, 'bytes' if a[0] == 18 else 'unicode', '/'.join(map(str, a[1:]))), 'c35' + f, *a, **k))
    for dt in (18, 19):
        for w1, w2 in ((1, 1), (2, 1), (1, 3), (3, 4), (5, 2), (7, 6)):
            n = 2 if w1 + w2 < 6 else 1
            add('add', dt, n, w1, n, w2, 0, n, n)
            add('add', dt, 5, w1, 5, w2, 0, 1, 1)
            add('add', dt, 3, w1, 3, w2, 1, 0, 2)
            add('add', dt, 3, w1, 3, w2, 2, 2, 0)
        for m in (3, 4, 5, 6):
            add('add', dt, 3, 3, 3, 2, m, 1, 1)
        add('add', dt, 1, 3, 4, 2, 0, 1, 1)
        add('add', dt, 4, 3, 1, 2, 0, 1, 1)
        add('add', dt, 2, 3, 3, 2, 0, 1, 1)
        add('add', dt, 0, 3, 0, 2, 0, 1, 1)
        add('add', dt, 0, 3, 0, 2, 1, 1, 1)
        add('add', dt, 60, 3, 60, 2, 0, 0, 0)
        for d0, d1 in ((2, 3), (1, 3), (3, 1)):
            for l in (0, 1, 2):
                for sc in (0, 1):
                    add('add2', dt, d0, d1, l, sc)
        if th:
            add('add', dt, 3, 4, 3, 3, 0, 3, 3, timeout=400)
            add('add', dt, 1, 16, 1, 20, 0, 1, 1, timeout=400)
        for n, w, f in ((0, 3, 0), (1, 1, 1), (3, 2, 3), (4, 3, 4), (2, 5, 2), (1, 11, 1), (100, 3, 2)):
            add('trim', dt, n, w, 1, f)
        for k in (2, -1, 3):
            add('trim', dt, 3, 4, k, 2)
            add('trim', dt, 1, 4, k, 1)
        if th:
            add('trim', dt, 3, 5, 1, 3, timeout=400)
            add('trim', dt, 1, 16, 1, 1, timeout=400)
    return out
