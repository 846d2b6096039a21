// C12: aggregates by bin through GroupByAll32.
#include "h.h"
enum
{
    SUM = 0,
    MEAN,
    MIN,
    MAX,
    NANSUM = 50,
    NANMEAN,
    NANMIN,
    NANMAX
};
static int okOut(int func, int dt)
{
    int b = func % 50;
    if (b == SUM)
        return dt == NPY_FLOAT32 || dt == NPY_FLOAT64 ? dt : dt == NPY_BOOL || dt == NPY_INT8 || dt == NPY_INT16 || dt == NPY_INT32 || dt == NPY_INT64 ? NPY_INT64 : NPY_UINT64;
    if (b == MEAN)
        return dt == NPY_FLOAT32 ? dt : NPY_FLOAT64;
    return dt;
}
// one value of the claim's domain
template <typename T>
static void value(T * p, int func, int nans)
{
    const bool isF = std::is_floating_point_v<T>;
    int b = func % 50;
    if (b == MEAN || (b == SUM && isF))
    {
        int8_t k;
        sym_make(&k, 1, 1, "k");
        if (std::is_same_v<T, bool>)
            k &= 1;
        else if (!std::is_signed_v<T>)
            k &= 127;
        else if (sizeof(T) == 1)
            k &= 63;
        *p = (T)k;
        if (!std::is_same_v<T, bool> && nans && sym_choose("invalid", 0, 1))
            *p = invalidOf<T>();
        return;
    }
    symFill(p, 1, "x");
}
// the aggregate of the rows of one bin (narrow: the mean divided in the result's own type); -1 when the claim says nothing
template <typename T, typename U>
static int aggregate(int func, const T * x, const int64_t * bin, int64_t n, int64_t b, bool narrow, U * out)
{
    const bool isF = std::is_floating_point_v<T>;
    const bool nan = func >= NANSUM, boolean = std::is_same_v<T, bool>;
    int op = func % 50;
    int64_t rows = 0;
    for (int64_t i = 0; i < n; i++)
        rows += bin[i] == b;
    if (op == SUM || op == MEAN)
    {
        typedef std::conditional_t<isF, double, U> A;
        A s = 0;
        int64_t cnt = 0;
        bool bad = false;
        for (int64_t i = 0; i < n; i++)
            if (bin[i] == b)
            {
                if (op == MEAN || isF)
                {
                    // validity is decided on this path
                    if (isInvalid(x[i]))
                        bad = true;
                    else
                    {
                        s += (A)x[i];
                        cnt++;
                    }
                }
                else
                {
                    bool v = !isInvalid(x[i]);
                    s += v ? (A)x[i] : (A)0;
                    bad |= !v;
                }
            }
        if (op == SUM)
            *out = bad & !nan ? invalidOf<U>() : (U)s;
        else
            *out = (bad && !nan) || !cnt ? invalidOf<U>() : narrow ? (U)s / (U)cnt : (U)(s / (A)cnt);
        return 0;
    }
    if (boolean && !rows)
        return -1;
    U r = invalidOf<U>();
    bool have = false, bad = false;
    for (int64_t i = 0; i < n; i++)
        if (bin[i] == b)
        {
            bool v = !isInvalid(x[i]);
            bool better = v & (!have | (op == MIN ? x[i] < (T)r : x[i] > (T)r));
            r = better ? (U)x[i] : r;
            have |= v;
            bad |= !v;
        }
    *out = bad & !nan ? invalidOf<U>() : r;
    return 0;
}
template <typename T>
static void compare(PyObject * y, int func, int dt, const T * x, const int64_t * bin, int64_t n, int64_t nu, int64_t lo, int64_t hi, bool narrow = false)
{
    sym_assert(rt_len(y) == nu + 1, "one result per bin");
    sym_assert(sameType(rt_type(y), okOut(func, dt)), "result dtype");
    forType(okOut(func, dt),
            [&]<typename U>()
            {
                for (int64_t b = lo; b < hi; b++)
                {
                    U want;
                    if (aggregate<T, U>(func, x, bin, n, b, narrow, &want) < 0)
                        continue;
                    U got = D<U>(y)[b];
                    sym_assert(sameVal(got, want), "the aggregate of the bin's own rows");
                }
            });
}
// func, dtype, key dtype, n, uniques, binLow, layout of values, layout of keys, second column: func or -1, dtype
extern "C" void c12()
{
    int func = sym_arg(0), dt = sym_arg(1), kt = sym_arg(2);
    int64_t n = sym_arg(3), nu = sym_arg(4), lo = sym_arg(5);
    int vl = sym_arg(6), kl = sym_arg(7), f2 = sym_arg(8), dt2 = sym_arg(9);
    forType(dt,
            [&]<typename T>()
            {
                int64_t * bin = (int64_t *)calloc(n + 1, 8);
                Shaped<T> a(dt, n, vl, "x", 3, 0);
                PyArrayObject * key = rt_array_strided(kt, n, kl * (kt == NPY_INT8 ? 1 : kt == NPY_INT16 ? 2 : kt == NPY_INT32 ? 4 : 8));
                for (int64_t i = 0; i < n; i++)
                {
                    bin[i] = sym_choose("bin", 0, nu);
                    forType(kt,
                            [&]<typename K>()
                            {
                                at<K>(key, i) = (K)bin[i];
                            });
                    value<T>(&a.row(i), func, 1);
                }
                T * x = a.rows();
                int64_t lo2 = lo ? 0 : 1, hi = nu + 1, hi2 = nu + 1;
                PyArrayObject * c2 = nullptr;
                if (f2 >= 0)
                {
                    c2 = rt_array(dt2, n);
                    forType(dt2,
                            [&]<typename V>()
                            {
                                for (int64_t i = 0; i < n; i++)
                                    value<V>(D<V>(c2) + i, f2, 0);
                            });
                }
                int cols = f2 >= 0 ? 2 : 1;
                PyObject * list = PyList_New(cols), * fn = PyList_New(cols), * bl = PyList_New(cols), * bh = PyList_New(cols);
                PyList_SetItem(list, 0, A0(a.a));
                PyList_SetItem(fn, 0, rt_int(func));
                PyList_SetItem(bl, 0, rt_int(lo));
                PyList_SetItem(bh, 0, rt_int(hi));
                if (f2 >= 0)
                {
                    PyList_SetItem(list, 1, A0(c2));
                    PyList_SetItem(fn, 1, rt_int(f2));
                    PyList_SetItem(bl, 1, rt_int(lo2));
                    PyList_SetItem(bh, 1, rt_int(hi2));
                }
                PyObject * res = rt_call("GroupByAll32", 7, list, A0(key), rt_int(nu), fn, bl, bh, rt_int(0));
                if (!res)
                {
                    sym_assert(rt_error() != nullptr && !(vl == 1 && kl == 1), "declined with an error");
                    sym_reach("declined");
                    rt_clear();
                    return;
                }
                compare<T>(rt_item(res, 0), func, dt, x, bin, n, nu, lo, hi);
                if (f2 >= 0)
                    forType(dt2,
                            [&]<typename V>()
                            {
                                compare<V>(rt_item(res, 1), f2, dt2, D<V>(c2), bin, n, nu, lo2, hi2);
                            });
                sym_reach("end");
            });
}
// many rows, few bins: the rows are split over workers whose partial results are gathered
// func, dtype, key dtype, n, uniques, blocks taken by a worker, distance of the rows of bin 1
extern "C" void c12_scatter()
{
    int func = sym_arg(0), dt = sym_arg(1), kt = sym_arg(2);
    int64_t n = sym_arg(3), nu = sym_arg(4), blocks = sym_arg(5);
    if (blocks)
    {
        rt_share(1, blocks);
        if (blocks < 3)
            rt_share(0, 1);
    }
    forType(dt,
            [&]<typename T>()
            {
                int op = func % 50;
                PyArrayObject * a = rt_array(dt, n), * key = rt_array(kt, n);
                int64_t * bin = (int64_t *)calloc(n, 8);
                T * x = D<T>(a);
                // background: every row in bin 0, with any value
                memset(PyArray_DATA(key), 0, n * PyArray_ITEMSIZE(key));
                for (int64_t i = 0; i < n; i++)
                    x[i] = pat<T>(i, 5);
                // probes: rows at the edges of the blocks
                const int64_t C = 0x4000;
                const int64_t place[4] = { C - 1, C, 2 * C + 5, n - 1 };
                const int8_t pattern[6][4] = { { 1, 1, 1, 1 }, { 1, 2, 1, 2 }, { 2, 1, 1, 1 }, { 1, 0, 2, 1 }, { 0, 2, 2, 1 }, { 1, 1, 0, 0 } };
                T px[4];
                int64_t pb[4];
                int which = sym_choose("pattern", 0, 5), bad = op == SUM || op == MEAN ? sym_choose("bad", 0, std::is_same_v<T, bool> ? 0 : 4) : 0;
                for (int k = 0; k < 4; k++)
                {
                    int64_t q = place[k];
                    pb[k] = pattern[which][k];
                    forType(kt,
                            [&]<typename K>()
                            {
                                D<K>(key)[q] = (K)pb[k];
                            });
                    if (bad == k + 1)
                        x[q] = invalidOf<T>();
                    else
                        value<T>(x + q, op == SUM ? MEAN : func, 0);
                    px[k] = x[q];
                }
                PyObject * list = rt_list(1, A0(a));
                PyObject * res = rt_call("GroupByAll32", 7, list, A0(key), rt_int(nu), rt_list(1, rt_int(func)), rt_list(1, rt_int(1)), rt_list(1, rt_int(nu + 1)), rt_int(0));
                sym_assert(res != nullptr, "accepted");
                if (!res)
                    return;
                compare<T>(rt_item(res, 0), func, dt, px, pb, 4, nu, 1, nu + 1, true);
                sym_reach("end");
            });
}
