// C33: IsSorted and NanInfCountFromSort.
#include "h.h"
// dtype, n, layout, symbolic elements
extern "C" void c33sorted()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int layout = sym_arg(2);
    if (sym_arg(3))
        rt_share(1, sym_arg(3));
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, layout, "a", 3, 100);
                n = a.n;
                if (n > 100)
                { // ascending background
                    T * p = D<T>(a.a);
                    int64_t q = -1;
                    for (int64_t i = 0; i < n; i++)
                    {
                        bool probe = false;
                        for (int k = 0; k < NPROBE; k++)
                            probe |= probeAt(n, k) == i;
                        if (!probe)
                            p[i] = (T)(sizeof(T) == 1 ? (std::is_same_v<T, bool> ? i > n / 2 : i * 100 / n) : i / 2);
                    }
                }
                T * x = a.rows();
                PyObject * r = rt_call("IsSorted", 1, A0(a.a));
                if (!r)
                {
                    sym_assert(rt_error() != nullptr, "declined with an error");
                    sym_assert(layout != 0 && layout != 1, "contiguous arrays are not declined");
                    sym_reach("declined");
                    return;
                }
                sym_reach("end");
                // sorted: every element follows its predecessor or is a NaN
                int ok = 1;
                for (int64_t i = 1; i < n; i++)
                    ok &= isNan<T>(x[i]) | (x[i] >= x[i - 1]);
                sym_assert(r == Py_True || r == Py_False, "a boolean");
                sym_assert((r == Py_True) == ok, "sorted");
                for (int64_t i = 0; i < n; i++)
                    sym_assert(bitsOf(a.row(i)) == bitsOf(x[i]), "input unchanged");
            });
}
// strings: dtype, n, width in bytes
extern "C" void c33str()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1), w = sym_arg(2);
    PyArrayObject * a = rt_array(dt, n, w);
    uint8_t * p = D<uint8_t>(a);
    int cw = dt == 19 ? 4 : 1;
    int64_t k = w / cw;
    if (cw == 4)
        sym_make(p, 4, n * k, "s");
    else
        sym_make(p, 1, n * w, "s");
    PyObject * r = rt_call("IsSorted", 1, A0(a));
    sym_assert(r == Py_True || r == Py_False, "a boolean");
    sym_reach("end");
    int ok = 1;
    for (int64_t i = 1; i < n; i++)
    {
        int lt = 0, eq = 1; // item i below item i-1, over the whole width
        for (int64_t j = 0; j < k; j++)
        {
            uint32_t u, v;
            if (cw == 4)
            {
                u = ((uint32_t *)p)[i * k + j];
                v = ((uint32_t *)p)[(i - 1) * k + j];
            }
            else
            {
                u = p[i * k + j];
                v = p[(i - 1) * k + j];
            }
            lt |= eq & (u < v);
            eq &= u == v;
        }
        ok &= !lt;
    }
    sym_assert((r == Py_True) == ok, "sorted");
}
// dtype, index dtype, n: counts from a sort order
extern "C" void c33count()
{
    int dt = sym_arg(0), it = sym_arg(1);
    int64_t n = sym_arg(2);
    int fullperm = sym_arg(3);
    forType(dt,
            [&]<typename T>()
            {
                PyArrayObject * a = newArr<T>(n, "a");
                T * x = D<T>(a);
                PyArrayObject * ia = rt_array(it, n);
                int64_t * ix = (int64_t *)malloc(n * 8 + 8);
                uint64_t used = 0;
                for (int64_t i = 0; i < n; i++)
                {
                    int64_t q = fullperm ? sym_choose("i", 0, n - 1) : (i * 3 + 1) % n;
                    sym_assume(!(used >> q & 1));
                    used |= 1ull << q;
                    ix[i] = q;
                    if (it == NPY_INT32)
                        D<int32_t>(ia)[i] = (int32_t)q;
                    else
                        D<int64_t>(ia)[i] = q;
                }
                for (int64_t i = 1; i < n; i++)
                    sym_assume(isNan<T>(x[ix[i]]) | (x[ix[i]] >= x[ix[i - 1]]));
                PyObject * r = rt_call("NanInfCountFromSort", 2, A0(a), A0(ia));
                sym_assert(r && r != Py_None && rt_len(r) == 3, "three counts");
                sym_reach("end");
                int64_t nans = 0, hi = 0, lo = 0;
                for (int64_t i = 0; i < n; i++)
                {
                    if constexpr (std::is_floating_point_v<T>)
                    {
                        nans += isNan<T>(x[i]);
                        hi += x[i] == (T)INFINITY;
                        lo += x[i] == -(T)INFINITY;
                    }
                    else if constexpr (std::is_signed_v<T>)
                        lo += isInvalid<T>(x[i]);
                    else
                        hi += isInvalid<T>(x[i]);
                }
                sym_assert(rt_asint(rt_item(r, 0)) == nans, "NaNs");
                sym_assert(rt_asint(rt_item(r, 1)) == hi, "positive infinities, or invalid unsigned integers");
                sym_assert(rt_asint(rt_item(r, 2)) == lo, "negative infinities, or invalid signed integers");
            });
}
// void items are ordered by some total order in which only identical items are equal: width
extern "C" void c33void()
{
    int64_t w = sym_arg(0);
    uint8_t * it = (uint8_t *)malloc(3 * w);
    sym_make(it, 1, 3 * w, "v");
    auto le = [&](int i, int j)
    {
        PyArrayObject * a = rt_array(NPY_VOID, 2, w);
        memcpy(D<uint8_t>(a), it + i * w, w);
        memcpy(D<uint8_t>(a) + w, it + j * w, w);
        PyObject * r = rt_call("IsSorted", 1, A0(a));
        sym_assert(r == Py_True || r == Py_False, "a boolean");
        return r == Py_True;
    };
    bool ab = le(0, 1), ba = le(1, 0);
    int eq = 1;
    for (int64_t i = 0; i < w; i++)
        eq &= it[i] == it[w + i];
    sym_assert((ab && ba) == eq, "equal exactly when identical");
    sym_assert(ab || ba, "one of two orders is sorted");
    if (w <= 8 && ab && le(1, 2))
        sym_assert(le(0, 2), "transitive");
    sym_reach("end");
}
