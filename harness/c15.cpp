// C15: Rolling (sums, means, quantiles) and TimeWindow.
#include "h.h"
enum
{
    SUM = 0,
    NANSUM = 1,
    MEAN = 102,
    NANMEAN = 103,
    QUANTILE = 104
};
// a value of the claim's domain: floats are small whole numbers (every partial sum is exact), NaN or infinite
template <typename T>
static void one(T * p, int kinds)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        int k = kinds ? sym_choose("kind", 0, kinds) : 0;
        if (k == 0)
        {
            int16_t v;
            sym_make(&v, 2, 1, "v");
            *p = (T)v;
        }
        else
            *p = k == 1 ? (T)NAN : k == 2 ? (T)INFINITY : (T)-INFINITY;
    }
    else
    {
        symFill(p, 1, "v");
        if constexpr (!std::is_same_v<T, bool>)
        {
            if (kinds && sym_choose("invalid", 0, 1))
                *p = invalidOf<T>();
            else
                sym_assume(*p != invalidOf<T>());
        }
    }
}
// func, dtype, n, window, layout, kinds of special values
extern "C" void c15roll()
{
    int func = sym_arg(0), dt = sym_arg(1);
    int64_t n = sym_arg(2), w = sym_arg(3), layout = sym_arg(4);
    int kinds = sym_arg(5);
    forType(dt,
            [&]<typename T>()
            {
                const bool isF = std::is_floating_point_v<T>;
                Shaped<T> a(dt, n, layout, "x", 3, 0);
                for (int64_t i = 0; i < n; i++)
                    one<T>(&a.row(i), kinds);
                if constexpr (sizeof(T) == 8 && !isF)
                    for (int64_t i = 0; i < n; i++)
                        // means of 64-bit integers: sums which a double holds
                        if (func == MEAN || (func == NANMEAN && !isInvalid<T>(a.row(i))))
                            a.row(i) = (T)(a.row(i) >> 32);
                T * x = a.rows();
                PyObject * r = rt_call("Rolling", 3, A0(a.a), rt_int(func), rt_int(w));
                if (w < 0)
                {
                    sym_assert(r == nullptr && rt_error() != nullptr, "a negative window is an error");
                    rt_clear();
                    sym_reach("end");
                    return;
                }
                sym_assert(r != nullptr && rt_isarray(r) && rt_len(r) == n, "a result for every row");
                if (!r)
                    return;
                sym_reach("end");
                int nan = func & 1;
                if (func < MEAN)
                {
                    if constexpr (isF)
                    {
                        sym_assert(rt_type(r) == dt, "dtype");
                        for (int64_t i = 0; i < n; i++)
                        {
                            T want = 0;
                            for (int64_t j = i - w + 1 > 0 ? i - w + 1 : 0; j <= i; j++)
                                if (!(nan && isNan(x[j])))
                                    want += x[j];
                            sym_assert(sameVal<T>(D<T>(r)[i], want), "rolling sum");
                        }
                    }
                    else
                    {
                        sym_assert(sameType(rt_type(r), NPY_INT64), "dtype");
                        for (int64_t i = 0; i < n; i++)
                        {
                            int64_t want = 0;
                            for (int64_t j = i - w + 1 > 0 ? i - w + 1 : 0; j <= i; j++)
                                if (!(nan && isInvalid<T>(x[j])))
                                    want += (int64_t)x[j];
                            sym_assert(D<int64_t>(r)[i] == want, "rolling sum");
                        }
                    }
                }
                else
                {
                    typedef std::conditional_t<std::is_same_v<T, float>, float, double> U;
                    sym_assert(rt_type(r) == NpyOf<U>::v, "dtype");
                    for (int64_t i = 0; i < n; i++)
                    {
                        U want = 0;
                        int64_t c = 0;
                        for (int64_t j = i - w + 1 > 0 ? i - w + 1 : 0; j <= i; j++)
                            if (!(nan && isInvalid<T>(x[j])))
                            {
                                want += (U)x[j];
                                c++;
                            }
                        want = want / (U)c;
                        sym_assert(sameVal<U>(D<U>(r)[i], want), "rolling mean");
                    }
                }
            });
}
// dtype, n, window, quantile in thousandths, layout
extern "C" void c15quant()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1), w = sym_arg(2), q = sym_arg(3), layout = sym_arg(4);
    forType(dt,
            [&]<typename T>()
            {
                if constexpr (!std::is_same_v<T, bool>)
                {
                    typedef std::conditional_t<std::is_same_v<T, float>, float, double> U;
                    Shaped<T> a(dt, n, layout, "x", 3, 64);
                    T * x = a.rows();
                    if (std::is_floating_point_v<T>)
                        for (int64_t i = 0; i < n; i++)
                            sym_assume(isNan(x[i]) | (x[i] - x[i] == 0));
                    PyObject * r = rt_call("Rolling", 3, A0(a.a), rt_int(QUANTILE), rt_int(q * 1000000 + w * 1000000001));
                    sym_assert(r != nullptr && rt_isarray(r) && rt_len(r) == n && rt_type(r) == NpyOf<U>::v, "a result for every row");
                    if (!r)
                        return;
                    sym_reach("end");
                    for (int64_t i = 0; i < n; i++)
                    {
                        int64_t lo = i - w + 1 > 0 ? i - w + 1 : 0, c = 0;
                        for (int64_t j = lo; j <= i; j++)
                            c += !isInvalid<T>(x[j]);
                        c = sym_concretize(c);
                        U got = D<U>(r)[i];
                        if (c == 0)
                        {
                            sym_assert(isNan(got), "NaN for a window without valid values");
                            continue;
                        }
                        // the elements at the position of the quantile: below, and above if it falls between two
                        int64_t k = (c - 1) * q / 1000, split = (c - 1) * q % 1000 != 0;
                        T e[2];
                        for (int s = 0; s <= split; s++)
                        {
                            // the element which has k + s others before it
                            e[s] = 0;
                            for (int64_t j = lo; j <= i; j++)
                            {
                                int64_t before = 0;
                                for (int64_t m = lo; m <= i; m++)
                                    if (m != j)
                                        before += (!isInvalid<T>(x[m])) & (bool)((x[m] < x[j]) | ((x[m] == x[j]) & (m < j)));
                                e[s] = sel<T>((!isInvalid<T>(x[j])) & (before == k + s), x[j], e[s]);
                            }
                        }
                        U want = (U)e[0];
                        if (split)
                            want = ((U)e[0] + (U)e[1]) / 2;
                        sym_assert(sameVal<U>(got, want), "rolling quantile");
                    }
                }
            });
}
// func, dtype, n, data layout, time layout, worker blocks
extern "C" void c15time()
{
    int func = sym_arg(0), dt = sym_arg(1);
    int64_t n = sym_arg(2), layout = sym_arg(3), tl = sym_arg(4);
    if (sym_arg(5))
        rt_share(1, sym_arg(5));
    forType(dt,
            [&]<typename T>()
            {
                typedef std::conditional_t<std::is_floating_point_v<T>, T, std::conditional_t<std::is_signed_v<T> || std::is_same_v<T, bool>, int64_t, uint64_t>> U;
                Shaped<T> a(dt, n, layout, "x", 3, 0);
                Shaped<int64_t> t(NPY_INT64, n, tl, "t", 4, 16);
                int64_t delta;
                if (n <= 16)
                {
                    for (int64_t i = 0; i < n; i++)
                    {
                        if constexpr (std::is_floating_point_v<T>)
                        {
                            int8_t v;
                            sym_make(&v, 1, 1, "v");
                            a.row(i) = (T)v;
                        }
                        else
                            symFill(&a.row(i), 1, "v");
                        if (n > 3)
                            t.row(i) = ((int64_t)1 << 60) + (int16_t)t.row(i);
                        // sorted times whose differences do not overflow
                        sym_assume((t.row(i) > -((int64_t)1 << 61)) & (t.row(i) < (int64_t)1 << 61));
                        if (i)
                            sym_assume(t.row(i) >= t.row(i - 1));
                    }
                    sym_make(&delta, 8, 1, "delta");
                }
                else
                {
                    for (int64_t i = 0; i < n; i++)
                    {
                        a.at(i) = pat<T>(i, 3);
                        t.at(i) = i / 2 * 5;
                    }
                    int64_t p = probeAt(n, sym_choose("probe", 0, NPROBE - 1));
                    symFill(&a.row(p), 1, "v");
                    if constexpr (std::is_floating_point_v<T>)
                        a.row(p) = (T)(int8_t)bitsOf(a.row(p));
                    delta = 12;
                }
                T * x = a.rows();
                int64_t * y = t.rows();
                PyObject * r = rt_call("TimeWindow", 4, A0(a.a), A0(t.a), rt_int(func), rt_int(delta));
                if (!r)
                {
                    sym_assert(rt_error() != nullptr && !(layout == 1 && tl == 1), "declined with an error");
                    sym_reach("declined");
                    rt_clear();
                    return;
                }
                sym_assert(rt_isarray(r) && rt_len(r) == n && sameType(rt_type(r), NpyOf<U>::v), "a result for every row");
                sym_reach("end");
                int ok = 1;
                for (int64_t i = 0; i < n; i++)
                {
                    U want = (U)x[i];
                    for (int64_t j = i - 1; j >= 0 && (n <= 16 || i - j < 12); j--)
                    {
                        if (!(y[i] - y[j] <= delta))
                            continue;
                        if (func)
                            want *= (U)x[j];
                        else
                            want += (U)x[j];
                    }
                    if (n <= 16)
                        sym_assert(sameVal<U>(D<U>(r)[i], want), func ? "product of the window" : "sum of the window");
                    else
                        ok &= sameVal<U>(D<U>(r)[i], want);
                }
                sym_assert(ok, "every row");
            });
}
