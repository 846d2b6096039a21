// C05: reductions through Reduce.
#include "h.h"
enum
{
    SUM = 0,
    NANSUM = 1,
    MEAN = 102,
    NANMEAN = 103,
    VAR = 106,
    NANVAR = 107,
    STD = 108,
    NANSTD = 109,
    MIN = 200,
    NANMIN,
    MAX,
    NANMAX,
    ARGMIN,
    NANARGMIN,
    ARGMAX,
    NANARGMAX
};
// result as a value of the element type; kind: the expected kind of Python number
template <typename T>
static T scalar(PyObject * r)
{
    if constexpr (std::is_floating_point_v<T>)
        return (T)rt_asdouble(r);
    else
        return (T)rt_asint(r);
}
template <typename T>
static void checkMinMax(int func, PyObject * r, T * x, int64_t n)
{
    sym_assert(rt_isfloat(r) == std::is_floating_point_v<T>, "kind of number");
    int nan = func & 1, mx = func >= MAX;
    // fold
    T best = x[0];
    int have = !isInvalid<T>(x[0]), bad = isInvalid<T>(x[0]);
    for (int64_t i = 1; i < n; i++)
    {
        int inv = isInvalid<T>(x[i]);
        int better = mx ? x[i] > best : x[i] < best;
        int take = !inv & (better | !have);
        best = sel<T>(take, x[i], best);
        have |= !inv;
        bad |= inv;
    }
    T got = scalar<T>(r);
    int inv = nan ? !have : bad;
    T want = sel<T>(inv, invalidOf<T>(), best);
    sym_assert(sameVal<T>(got, want), "extreme value");
    // the whole integer, not only its low bytes
    if constexpr (!std::is_floating_point_v<T>)
    {
        sym_assert(rt_asint(r) == (int64_t)want, "extreme as an integer");
        if (sizeof(T) == 8 && !std::is_signed_v<T>)
            sym_assert(rt_isbig(r) == ((int64_t)want < 0), "sign of a large integer");
    }
}
template <typename T>
static void checkArg(int func, PyObject * r, T * x, int64_t n)
{
    int nan = func & 1, mx = func >= ARGMAX;
    int64_t best = -1, bad = -1;
    T v = 0;
    for (int64_t i = 0; i < n; i++)
    {
        int inv = isInvalid<T>(x[i]);
        int better = mx ? x[i] > v : x[i] < v;
        int take = !inv & (better | (best < 0));
        v = sel<T>(take, x[i], v);
        best = sel<int64_t>(take, i, best);
        bad = sel<int64_t>(inv & (bad < 0), i, bad);
    }
    int64_t want = nan ? best : sel<int64_t>(bad >= 0, bad, best);
    if (!r)
    {
        sym_assert(want == -1, "an error only when there is no valid value");
        rt_clear();
    }
    else
        sym_assert(rt_asint(r) == want, "position of the extreme");
}
template <typename T>
static void checkSum(int func, PyObject * r, T * x, int64_t n)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        sym_assert(rt_isfloat(r), "kind of number");
        double want = 0;
        int bad = 0;
        for (int64_t i = 0; i < n; i++)
        {
            int inv = isInvalid<T>(x[i]);
            want += (double)sel<T>(inv, (T)0, x[i]);
            bad |= inv;
        }
        double got = rt_asdouble(r);
        if (!(func & 1))
            want = sel<double>(bad, (double)NAN, want);
        sym_assert(sameVal<double>(got, want), "sum");
    }
    else
    {
        uint64_t want = 0;
        int bad = 0;
        for (int64_t i = 0; i < n; i++)
        {
            int inv = isInvalid<T>(x[i]);
            want += inv ? 0 : (uint64_t)(int64_t)x[i];
            bad |= inv;
        }
        sym_assert(!rt_isfloat(r), "kind of number");
        uint64_t inv = sizeof(T) == 8 && !std::is_signed_v<T> ? ~0ull : 1ull << 63;
        if (!(func & 1))
            want = sel<uint64_t>(bad, inv, want);
        sym_assert((uint64_t)rt_asint(r) == want, "sum");
    }
}
// small-integer values only: every intermediate value is exact
template <typename T>
static void checkMoment(int func, PyObject * r, T * x, int64_t n, int64_t ddof)
{
    sym_assert(rt_isfloat(r), "kind of number");
    int64_t m = 0, sum = 0;
    int bad = 0;
    for (int64_t i = 0; i < n; i++)
    {
        int inv = isInvalid<T>(x[i]);
        sum += sel<int64_t>(inv, 0, (int64_t)sel<T>(inv, (T)0, x[i]));
        m += !inv;
        bad |= inv;
    }
    int nan = func & 1;
    if (!nan && bad)
    {
        sym_assert(isNan(rt_asdouble(r)), "NaN for an array with an invalid value");
        return;
    }
    if (m == 0)
        return;
    m = sym_concretize(m);
    double got = rt_asdouble(r);
    if (func == MEAN || func == NANMEAN)
    {
        sym_assert(same<double>(got, (double)sum / (double)m), "mean");
        return;
    }
    if (m <= ddof)
    {
        sym_assert(isNan(got), "NaN without degrees of freedom");
        return;
    }
    int64_t mean = sum / m, var = 0;
    for (int64_t i = 0; i < n; i++)
    {
        int inv = isInvalid<T>(x[i]);
        int64_t d = sel<int64_t>(inv, 0, (int64_t)sel<T>(inv, (T)0, x[i]) - mean);
        var += d * d;
    }
    double v = (double)var / (double)(m - ddof);
    if (func >= STD)
        v = __builtin_sqrt(v);
    sym_assert(same<double>(got, v), "variance");
}
template <typename T>
static void check(int func, PyArrayObject * a, T * x, int64_t n, int64_t ddof)
{
    PyObject * r = func >= VAR && func <= NANSTD ? rt_call("Reduce", 3, A0(a), rt_int(func), rt_int(ddof)) : rt_call("Reduce", 2, A0(a), rt_int(func));
    if (func == NANARGMIN || func == NANARGMAX)
        ;
    else
        sym_assert(r != nullptr, "no exception");
    if (r == rt_none())
    {
        sym_reach("declined");
        return;
    }
    if (func >= ARGMIN)
        checkArg<T>(func, r, x, n);
    else if (!r)
        return;
    else if (func >= MIN)
        checkMinMax<T>(func, r, x, n);
    else if (func <= NANSUM)
        checkSum<T>(func, r, x, n);
    else
        checkMoment<T>(func, r, x, n, ddof);
    if (r)
        rt_decref(r);
    sym_reach("end");
}
// func, dtype, n, mode, ddof or 1
// mode 0: every element symbolic; 1: one symbolic element at a time over a background; 2: the same with an invalid value elsewhere;
// 3: one symbolic element, the others zero; 4: two symbolic elements at a time. +10: worker threads take part. +100: unaligned
extern "C" void c05()
{
    int func = sym_arg(0), dt = sym_arg(1);
    int64_t n = sym_arg(2);
    int mode = sym_arg(3), ddof = sym_arg(4);
    int unaligned = mode / 100;
    mode %= 100;
    if (mode >= 10)
    {
        rt_share(2, 1);
        rt_share(0, 1);
    }
    mode %= 10;
    forType(dt,
            [&]<typename T>()
            {
                const bool isF = std::is_floating_point_v<T>;
                const bool moment = func >= MEAN && func <= NANSTD, sum = func <= NANSUM;
                // moments: every element a multiple of this
                int64_t scale = !moment ? 1 : (func & 1) ? n * (n > 1 ? n - 1 : 1) : n;
                char * buf = (char *)aligned_alloc(64, (n + 1) * sizeof(T));
                *(T *)buf = 0;
                T * x = (T *)(buf + unaligned * sizeof(T));
                npy_intp d[1] = { n }, s[1] = { sizeof(T) };
                PyArrayObject * a = rt_view(dt, 1, d, s, (char *)x);
                // restricts a symbolic element to the claim's domain
                auto one = [&](T * p)
                {
                    if (moment || (sum && isF && mode != 3))
                    {
                        int8_t k;
                        sym_make(&k, 1, 1, "k");
                        if (moment)
                            k = std::is_signed_v<T> ? (int8_t)((k & 15) - 8) : (int8_t)(k & 7);
                        *p = (T)((int64_t)k * scale);
                        if (!std::is_same_v<T, bool> && sym_choose("invalid", 0, 1))
                            *p = invalidOf<T>();
                        return;
                    }
                    symFill(p, 1, "x");
                    if constexpr (sizeof(T) == 8 && !isF)
                        if (sum)
                        {
                            // values whose sum stays within the 64-bit result
                            int64_t v = (int64_t)*p >> 3;
                            if (!std::is_signed_v<T>)
                                v = (int64_t)((uint64_t)*p >> 3);
                            int k = sym_choose("range", 0, std::is_signed_v<T> || mode == 0 ? 1 : 2);
                            *p = k == 0 ? (T)v : k == 1 ? invalidOf<T>() : (T)((1ull << 63) + v);
                        }
                };
                auto bg = [&](int64_t i) -> T
                {
                    if (mode == 3)
                        return (T)0;
                    T v = pat<T>(i, 5);
                    if (moment)
                    {
                        int64_t q = ((int64_t)v) % 5 * scale;
                        return (T)q;
                    }
                    return v;
                };
                if (mode == 0)
                {
                    for (int64_t i = 0; i < n; i++)
                        one(x + i);
                    T * c = (T *)malloc(n * sizeof(T) + 1);
                    memcpy(c, x, n * sizeof(T));
                    check<T>(func, a, c, n, ddof);
                    for (int64_t i = 0; i < n; i++)
                        sym_assert(same(x[i], c[i]), "input unchanged");
                    return;
                }
                for (int64_t i = 0; i < n; i++)
                    x[i] = bg(i);
                int64_t probes = n <= 600 ? n : NPROBE;
                int64_t k = sym_choose("probe", 0, probes - 1);
                int64_t p = n <= 600 ? k : probeAt(n, k), q = -1;
                if (p >= n)
                    return;
                one(x + p);
                if (mode == 2)
                    x[q = (p + n / 2 + 1) % n] = invalidOf<T>();
                if (mode == 4)
                    one(x + (q = (p + n / 3 + 1) % n));
                check<T>(func, a, x, n, ddof);
            });
}
// arrays of several dimensions and strided ones: either declined or the fold of exactly their elements. func, dtype, n, layout
extern "C" void c05shape()
{
    int func = sym_arg(0), dt = sym_arg(1);
    int64_t n = sym_arg(2);
    int layout = sym_arg(3);
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, layout, "a");
                for (int64_t i = 0; i < a.d0; i++)
                    for (int64_t j = 0; j < a.d1; j++)
                        if (i != 1 || j != 1)
                            a.at(i, j) = pat<T>(i * 7 + j, 2);
                        else if (sizeof(T) == 8 && func <= NANSUM && !std::is_floating_point_v<T>)
                            a.at(i, j) = std::is_signed_v<T> ? (T)((int64_t)bitsOf(a.at(i, j)) >> 3) : (T)((uint64_t)bitsOf(a.at(i, j)) >> 3);
                T * c = a.copy();
                check<T>(func, a.a, c, a.n, 1);
            });
}
