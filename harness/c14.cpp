// C14: cumulative operations by group through EmaAll32.
#include "h.h"
enum
{
    CUMSUM = 300,
    DECAY,
    CUMPROD,
    FINDNTH,
    NORMAL,
    WEIGHTED,
    CUMNANMAX,
    CUMNANMIN,
    CUMMAX,
    CUMMIN
};
// func, value dtype, key dtype, n, uniques, masks (1 filter, 2 reset), layout of values, layout of keys, layout of the masks
extern "C" void c14()
{
    int func = sym_arg(0), dt = sym_arg(1), kt = sym_arg(2);
    int64_t n = sym_arg(3), nu = sym_arg(4);
    int masks = sym_arg(5), vl = sym_arg(6), kl = sym_arg(7), ml = sym_arg(8);
    const bool ema = func == DECAY || func == NORMAL || func == WEIGHTED, plain = vl <= 1 && vl >= 0 && kl == 1 && ml == 1;
    forType(dt,
            [&]<typename T>()
            {
                const bool isF = std::is_floating_point_v<T>;
                int64_t * bin = (int64_t *)calloc(n + 1, 8), * tm = (int64_t *)calloc(n + 1, 8);
                Shaped<T> a(dt, n, vl, "x", 3, 0);
                PyArrayObject * key = rt_array_strided(kt, n, kl * (kt == NPY_INT8 ? 1 : kt == NPY_INT16 ? 2 : kt == NPY_INT32 ? 4 : 8));
                PyArrayObject * f = masks & 1 ? rt_array_strided(NPY_BOOL, n, ml) : nullptr, * r = masks & 2 ? rt_array_strided(NPY_BOOL, n, ml) : nullptr;
                PyArrayObject * t = rt_array(NPY_INT64, n);
                int weight = func == WEIGHTED ? sym_choose("weight", 0, 2) : 0;
                double param = func == WEIGHTED ? (weight == 2 ? 0.375 : (double)weight) : 1e6;
                for (int64_t i = 0; i < n; i++)
                {
                    bin[i] = sym_choose("bin", 0, nu);
                    forType(kt,
                            [&]<typename K>()
                            {
                                at<K>(key, i) = (K)bin[i];
                            });
                    if (f)
                        at<bool>(f, i) = sym_choose("in", 0, 1);
                    if (r)
                        at<bool>(r, i) = sym_choose("reset", 0, 1);
                    tm[i] = i ? tm[i - 1] + (func == DECAY || func == NORMAL ? 5 * sym_choose("later", 0, 1) : 0) : 7;
                    D<int64_t>(t)[i] = tm[i];
                    tm[i] = D<int64_t>(t)[i];
                    T * p = &a.row(i);
                    if (func >= CUMNANMAX)
                        symFill(p, 1, "v");
                    else if (ema || isF)
                    {
                        int8_t v;
                        sym_make(&v, 1, 1, "v");
                        if (std::is_same_v<T, bool>)
                            v &= 1;
                        else if (!std::is_signed_v<T> || func == CUMPROD || func == DECAY || func == NORMAL)
                            v = (v & 7) + 1;
                        *p = (T)v;
                        if (isF && func <= CUMPROD && !ema && n <= 3 && sym_choose("nan", 0, 1))
                            *p = (T)NAN;
                    }
                    else
                        symFill(p, 1, "v");
                }
                T * x = a.rows();
                PyObject * params = rt_tuple(4, PyFloat_FromDouble(param), ema ? A0(t) : rt_none(), f ? A0(f) : rt_none(), r ? A0(r) : rt_none());
                PyObject * list = PyList_New(1);
                PyList_SetItem(list, 0, A0(a.a));
                PyObject * res = rt_call("EmaAll32", 5, list, A0(key), rt_int(nu), rt_int(func), params);
                if (!res)
                {
                    sym_assert(rt_error() != nullptr && !plain, "declined with an error");
                    sym_reach("declined");
                    rt_clear();
                    return;
                }
                PyObject * y = rt_item(res, 0);
                if (func == WEIGHTED && std::is_same_v<T, bool> && y == rt_none())
                {
                    sym_reach("declined");
                    return;
                }
                sym_assert(rt_isarray(y) && rt_len(y) == n, "a result for every row");
                sym_reach("end");
                auto in = [&](int64_t i)
                {
                    return !f || at<bool>(f, i);
                };
                auto rs = [&](int64_t i)
                {
                    return r && at<bool>(r, i);
                };
                if (func == FINDNTH)
                {
                    sym_assert(rt_type(y) == NPY_INT32, "dtype");
                    for (int64_t i = 0; i < n; i++)
                    {
                        int c = 0;
                        for (int64_t j = 0; j <= i; j++)
                            c += in(j) && bin[j] == bin[i];
                        sym_assert(D<int32_t>(y)[i] == (in(i) && bin[i] ? c : 0), "number of the row within its bin");
                    }
                    return;
                }
                for (int64_t i = 0; i < n; i++)
                {
                    // the rows folded at row i, from the last reset on
                    int64_t from = 0;
                    for (int64_t j = 0; j <= i; j++)
                        if (bin[j] == bin[i] && in(j) && rs(j))
                            from = j;
                    auto has = [&](int64_t j)
                    {
                        return bin[j] == bin[i] && in(j) && j >= from;
                    };
                    if (func == CUMSUM || func == CUMPROD)
                    {
                        typedef std::conditional_t<isF, T, std::conditional_t<std::is_signed_v<T> || std::is_same_v<T, bool>, int64_t, uint64_t>> U;
                        sym_assert(sameType(rt_type(y), NpyOf<U>::v), "dtype");
                        U want = func == CUMPROD;
                        for (int64_t j = 0; j <= i; j++)
                            if (has(j))
                            {
                                if (func == CUMPROD)
                                    want *= (U)x[j];
                                else
                                    want += (U)x[j];
                            }
                        if (!bin[i])
                            want = invalidOf<U>();
                        sym_assert(sameVal<U>(D<U>(y)[i], want), "accumulated value");
                    }
                    else if (ema)
                    {
                        sym_assert(rt_type(y) == NPY_DOUBLE, "dtype");
                        double want = 0;
                        int64_t last = -1;
                        if (bin[i] && !in(i))
                            continue;
                        for (int64_t j = 0; j <= i; j++)
                            if (has(j))
                            {
                                double v = (double)x[j];
                                // the decay is complete or none at all
                                bool same = last >= 0 && tm[j] == tm[last];
                                if (func == DECAY)
                                    want = same ? want + v : v;
                                else if (func == NORMAL)
                                    want = same ? want : v;
                                else
                                {
                                    // the average starts at the first row of the bin, or at 0 after a reset
                                    double before = rs(j) ? 0 : last < 0 ? v : want;
                                    want = v * (1 - param) + before * param;
                                }
                                last = j;
                            }
                        if (!bin[i])
                            want = NAN;
                        sym_assert(sameVal<double>(D<double>(y)[i], want), "decayed value");
                    }
                    else
                    {
                        sym_assert(sameType(rt_type(y), dt), "dtype");
                        T best = invalidOf<T>();
                        int have = 0, bad = 0;
                        const int nan = func == CUMNANMAX || func == CUMNANMIN, mx = func == CUMNANMAX || func == CUMMAX;
                        for (int64_t j = 0; j <= i; j++)
                            if (has(j))
                            {
                                int inv = isInvalid<T>(x[j]);
                                int take = !inv & (!have | (mx ? x[j] > best : x[j] < best));
                                best = sel<T>(take, x[j], best);
                                have |= !inv;
                                bad |= inv;
                            }
                        if (!nan)
                            best = sel<T>(bad, invalidOf<T>(), best);
                        if (!bin[i])
                            best = invalidOf<T>();
                        sym_assert(sameVal<T>(D<T>(y)[i], best), "extreme so far");
                    }
                }
            });
}
