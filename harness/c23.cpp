// C23: date and time strings.
#include "h.h"
extern "C" int isspace(int c) noexcept
{
    // what the C library's table covers
    sym_assert((c >= -128) & (c <= 255), "a character class was asked for a value outside its table");
    return c == ' ' || (c >= '\t' && c <= '\r');
}
static const int64_t DAY = 86400000000000LL;
enum
{
    TIME,
    DATE,
    DATETIME
};
template <typename T>
struct Cur
{
    const T * p;
    int n, i;
    bool end() const
    {
        return i >= n || p[i] == 0;
    }
    bool digit() const
    {
        return i < n && p[i] >= '0' && p[i] <= '9';
    }
    bool space() const
    {
        return i < n && (p[i] == ' ' || (p[i] >= '\t' && p[i] <= '\r'));
    }
    bool is(char c) const
    {
        return i < n && p[i] == (T)c;
    }
    // up to max digits; -1 when there are fewer than min
    int64_t num(int min, int max)
    {
        int64_t v = 0;
        int k = 0;
        for (; k < max && digit(); k++)
            v = v * 10 + (std::make_unsigned_t<T>)(p[i++] - '0');
        return k < min ? -1 : v;
    }
    bool tail()
    {
        while (space())
            i++;
        return end();
    }
};
static bool leap(int64_t y)
{
    return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
}
// days from 1970-01-01, -1 when there is no such day between 1970 and 2099
static int64_t days(int64_t y, int64_t m, int64_t d)
{
    static const int8_t len[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    if (y < 1970 || y > 2099 || m < 1 || m > 12 || d < 1)
        return -1;
    m = sym_concretize(m);
    y = sym_concretize(y);
    int64_t r = 0;
    for (int64_t k = 1970; k < y; k++)
        r += leap(k) ? 366 : 365;
    for (int64_t k = 1; k < m; k++)
        r += len[k] + (k == 2 && leap(y));
    if (d > len[m] + (m == 2 && leap(y)))
        return -1;
    return r + d - 1;
}
// h[:m[:s[.f]]] with at least the given number of fields: 0 malformed, 1 in range, 2 out of range
template <typename T>
static int clock(Cur<T> & c, int fields, int64_t & out, int64_t & f)
{
    int64_t h = c.num(c.end() ? 0 : 1, 2), m = 0, s = 0;
    if (h < 0)
        return 0;
    int k = 1;
    if (c.is(':'))
    {
        k++;
        c.i++;
        m = c.num(c.end() ? 0 : 1, 2);
        if (m < 0)
            return 0;
        if (c.is(':'))
        {
            k++;
            c.i++;
            s = c.num(c.end() ? 0 : 1, 2);
            if (s < 0)
                return 0;
            if (c.is('.'))
            {
                c.i++;
                int i0 = c.i;
                f = c.num(0, 9);
                for (int i = c.i - i0; i < 9; i++)
                    f *= 10;
            }
        }
    }
    if (k < fields)
        return 0;
    out = 1000000000LL * (h * 3600 + m * 60 + s);
    return ((uint64_t)h < 24) & ((uint64_t)m < 60) & ((uint64_t)s < 60) ? 1 : 2;
}
// y-m-d or ymmd
template <typename T>
static int date(Cur<T> & c, int64_t & out)
{
    int64_t y = c.num(4, 4), m, d;
    if (y < 0)
        return 0;
    if (c.is('-'))
    {
        c.i++;
        m = c.num(1, 2);
        if (m < 0 || !c.is('-'))
            return 0;
        c.i++;
    }
    else
        m = c.num(2, 2);
    d = c.num(1, 2);
    if (m < 0 || d < 0)
        return 0;
    int64_t r = days(y, m, d);
    if (r < 0)
        return 2;
    out = r * DAY;
    return 1;
}
// 0 malformed, 1 well-formed, 2 with white space behind it
template <typename T>
static int parse(int func, const T * s, int n, int64_t & out)
{
    Cur<T> c{ s, n, 0 };
    out = 0;
    while (c.space())
        c.i++;
    if (c.end())
        return 1;
    int64_t d = 0, t = 0, f = 0;
    int rd = 1, rt = 1;
    if (func != TIME)
    {
        rd = date(c, d);
        if (!rd)
            return 0;
        if (func == DATETIME && !c.end())
        {
            if (!c.is('T') && !c.is(' '))
                return 0;
            c.i++;
            rt = clock(c, 1, t, f);
        }
    }
    else
        rt = clock(c, 2, t, f);
    int i0 = c.i;
    if (!rt || !c.tail())
        return 0;
    // a date-time whose time is out of range is the start of its day, as the unit tests have it
    int what = rd != 1 ? 0 : rt == 1 ? 2 : func == DATETIME;
    what = sym_concretize(what);
    out = what == 2 ? d + t + f : what == 1 ? d : 0;
    return c.i == i0 ? 1 : 2;
}
static const char * TEMPLATE[] = {
    "?", "??", "???", "????", "?????", "??????",                 // 0
    "dd:dd:dd", "d?:d?:d?", "dd:dd:dd.ddddddddd", "dd:dd:dd.?????", "dd:dd?dd", "d?d?d?d", " d:d:d.d???", "dd:dd:dd.dddddddddd", // 6
    "YYYY02dd", "yyyy-MM-dd", "yyyy?mm?dd", "yyyymm3?", "yyyy-?2-d?", "2024-dd-??", "20?4-02-2d", "2023-d-d??", // 14
    "yyyy-mm-28 1d:5d:dd", "2024-02-29Tdd:dd:dd.dddddd", "2021-12-3d?1d?dd?5d", "2022-07-04 ????", "2020010d dd:dd??", "1970-01-01Td?:d?:d?.?", "20991231 23:59:59.d?d", "2100-01-01 dd:dd", "  2001-09-d d", "2000-12-31T" // 22
};
template <typename T>
static void make(T * p, int w, const char * t)
{
    int len = strlen(t);
    memset((void *)p, 0, w * sizeof(T));
    for (int i = 0; i < len && i < w; i++)
        if (t[i] == '?')
            sym_make(p + i, sizeof(T), 1, "c");
        else if (t[i] == 'Y' || t[i] == 'y')
        {
            static const int some[] = { 1969, 1972, 2000, 2023, 2099, 2100 };
            int y = t[i] == 'Y' ? sym_choose("year", 1968, 2101) : some[sym_choose("year", 0, 5)];
            for (int k = 3; k >= 0; k--, y /= 10)
                p[i + k] = '0' + y % 10;
            i += 3;
        }
        else if (t[i] == 'M' || t[i] == 'm')
        {
            static const int some[] = { 0, 2, 4, 12, 13 };
            int m = t[i] == 'M' ? sym_choose("month", 0, 13) : some[sym_choose("month", 0, 4)];
            p[i++] = '0' + m / 10;
            p[i] = '0' + m % 10;
        }
        else if (t[i] == 'd')
        {
            int8_t k;
            sym_make(&k, 1, 1, "d");
            sym_assume((k >= '0') & (k <= '9'));
            p[i] = (T)k;
        }
        else
            p[i] = (T)t[i];
}
static const char * NAME[] = { "TimeStringToNanos", "DateStringToNanos", "DateTimeStringToNanos" };
template <typename T>
static void run(int func, int tmpl, int pad, int n, int layout)
{
    int w = strlen(TEMPLATE[tmpl]) + pad;
    PyArrayObject * a = rt_array(sizeof(T) == 1 ? NPY_STRING : NPY_UNICODE, n * layout, w * sizeof(T));
    T * buf = (T *)PyArray_DATA(a);
    memset((void *)buf, 0, n * layout * w * sizeof(T));
    if (layout > 1)
    {
        npy_intp d[1] = { n }, s[1] = { (npy_intp)(layout * w * sizeof(T)) };
        a = rt_view(sizeof(T) == 1 ? NPY_STRING : NPY_UNICODE, 1, d, s, (char *)buf, w * sizeof(T));
    }
    const char * other = func == TIME ? "1:2:3.5" : func == DATE ? "19991231" : "2001-02-03 4:5";
    for (int i = 0; i < n; i++)
        make(buf + i * layout * w, w, i == n - 1 ? TEMPLATE[tmpl] : other);
    PyObject * res = rt_call(NAME[func], 1, A0(a));
    if (!res)
    {
        sym_assert(rt_error() != nullptr && layout != 1, "declined with an error");
        sym_reach("declined");
        rt_clear();
        return;
    }
    sym_assert(rt_len(res) == n && rt_type(res) == NPY_INT64, "shape and dtype of the result");
    int wf = 1;
    for (int i = 0; i < n; i++)
    {
        int64_t want, got = D<int64_t>(res)[i];
        int kind = parse<T>(func, buf + i * layout * w, w, want);
        wf &= kind == 1;
        if (kind)
            sym_assert(got == want, "the nanoseconds the string denotes");
        else
            sym_assert(rt_warnings() > 0 || got == 0, "a malformed string gives 0 or a warning");
    }
    if (wf)
        sym_assert(rt_warnings() == 0, "a well-formed string gives no warning");
    sym_reach("end");
}
// func, bytes 1 or code points 4, template, padding, n, layout
extern "C" void c23()
{
    int func = sym_arg(0), cs = sym_arg(1), t = sym_arg(2), pad = sym_arg(3), n = sym_arg(4), l = sym_arg(5);
    if (cs == 1)
        run<char>(func, t, pad, n, l);
    else
        run<uint32_t>(func, t, pad, n, l);
}
static const char * FORMAT[] = { "%Y-%m-%d %H:%M:%S", "%m/%d/%y", "%Y%m%d", "%d.%m.%Y %I:%M %p" };
// conversion of the strptime kind: value within the limits
template <typename T>
static bool field(Cur<T> & c, int width, int64_t lo, int64_t hi, int64_t & v)
{
    if (!c.digit())
        return false;
    v = 0;
    // digits are taken while the limit allows one more
    do
        v = v * 10 + (std::make_unsigned_t<T>)(c.p[c.i++] - '0');
    while (v * 10 <= hi && --width && c.digit());
    return v >= lo && v <= hi;
}
// format, template, padding
extern "C" void c23_strptime()
{
    int f = sym_arg(0), tmpl = sym_arg(1), pad = sym_arg(2);
    int w = strlen(TEMPLATE[tmpl]) + pad;
    PyArrayObject * a = rt_array(NPY_STRING, 1, w);
    char * s = (char *)PyArray_DATA(a);
    make(s, w, TEMPLATE[tmpl]);
    PyObject * res = rt_call("StrptimeToNanos", 2, A0(a), rt_bytes(FORMAT[f], strlen(FORMAT[f])));
    sym_assert(res != nullptr, "accepted");
    if (!res)
        return;
    int64_t got = D<int64_t>(res)[0];
    Cur<char> c{ s, w, 0 };
    int64_t y = 0, m = 0, d = 0, h = 0, mi = 0, se = 0, fr = 0;
    bool ok = false;
    auto skip = [&]
    {
        while (c.space())
            c.i++;
        return true;
    };
    auto lit = [&](char ch)
    {
        bool r = c.is(ch);
        c.i += r;
        return r;
    };
    if (f == 0)
        ok = field(c, 4, 0, 9999, y) && lit('-') && field(c, 2, 1, 12, m) && lit('-') && field(c, 2, 1, 31, d) && skip() && field(c, 2, 0, 23, h) && lit(':') && field(c, 2, 0, 59, mi) && lit(':') && field(c, 2, 0, 61, se);
    else if (f == 2)
        ok = field(c, 4, 0, 9999, y) && field(c, 2, 1, 12, m) && field(c, 2, 1, 31, d);
    if (ok && lit('.'))
    {
        int i0 = c.i;
        fr = c.num(0, 9);
        for (int i = c.i - i0; i < 9; i++)
            fr *= 10;
    }
    int64_t want = 0;
    if (ok)
    {
        int64_t k = days(y, m, d);
        if (k >= 0)
            want = k * DAY + ((h * 60 + mi) * 60 + se) * 1000000000LL + fr;
    }
    sym_assert(got == want, "the nanoseconds the string denotes in the format");
    sym_reach("end");
}
