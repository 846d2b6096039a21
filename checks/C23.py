from vlib.driver import Job
TUS = ['DateTime.cpp', 'strptime5.cpp']
HARNESS = ['c23.cpp']
F = {'time': 0, 'date': 1, 'datetime': 2}
T = ["?", "??", "???", "????", "?????", "??????", "dd:dd:dd", "d?:d?:d?", "dd:dd:dd.ddddddddd", "dd:dd:dd.?????", "dd:dd?dd", "d?d?d?d", " d:d:d.d???", "dd:dd:dd.dddddddddd",
     "YYYY02dd", "yyyy-MM-dd", "yyyy?mm?dd", "yyyymm3?", "yyyy-?2-d?", "2024-dd-??", "20?4-02-2d", "2023-d-d??",
     "yyyy-mm-28 1d:5d:dd", "2024-02-29Tdd:dd:dd.dddddd", "2021-12-3d?1d?dd?5d", "2022-07-04 ????", "2020010d dd:dd??", "1970-01-01Td?:d?:d?.?", "20991231 23:59:59.d?d", "2100-01-01 dd:dd", "  2001-09-d d", "2000-12-31T"]
BOUNDS = ('every byte string (and every string of code points) of 1 to 6 characters; times, dates and date-times following 26 templates of up to 26 characters in which marked positions are any digit or any character whatsoever; '
          'arrays of 1 and 2 strings, exact width and with zero padding; strptime with the formats "%Y-%m-%d %H:%M:%S" and "%Y%m%d"')
OUTSIDE = ('the value of a malformed string that is reported by a warning; other strptime conversions; digit strings other than those of the templates beyond 6 characters; strings whose field lacks digits before the end')


def jobs(tier, seed):
    out = {}
    th = tier == 'thorough'

    def add(f, cs, t, pad=0, n=1, l=1):
        j = Job('%s/%s/%d/%s/p%d/n%d/L%d' % (f, 'bytes' if cs == 1 else 'unicode', t, T[t].replace('/', '_').replace(' ', '_').replace('?', 'x'), pad, n, l), 'c23', F[f], cs, t, pad, n, l)
        out[j.id] = j
    for f in F:
        for cs in (1, 4):
            for t in range(32):
                if f == 'time' and t >= 14 or f == 'date' and not (t < 6 or 14 <= t < 22 or t == 30) or f == 'datetime' and 6 <= t < 14:
                    continue
                if t == 5 and not th:
                    continue
                add(f, cs, t)
                add(f, cs, t, 2)
            add(f, cs, 3, 0, 2)
            add(f, cs, 6 if f == 'time' else 15, 4, 2)
            add(f, cs, 6 if f == 'time' else 15, 0, 2, 2)
    for fm in (0, 2):
        for t in (3, 14, 15, 16, 17, 19, 20, 22, 24, 25, 28) + ((4, 5) if th else ()):
            for pad in (0, 2):
                j = Job('strptime/%d/%d/p%d' % (fm, t, pad), 'c23_strptime', fm, t, pad)
                out[j.id] = j
    return list(out.values())
