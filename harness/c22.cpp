// C22: ReIndexGroups, ReverseShuffle and ReIndex.
#include "h.h"
// key dtype, rows, number of partitions, symbolic rows at a time, uniques
extern "C" void c22groups()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1), parts = sym_arg(2), nu = sym_arg(3), layout = sym_arg(4);
    if (sym_arg(5))
        rt_share(1, sym_arg(5));
    forType(dt,
            [&]<typename K>()
            {
                if constexpr (std::is_signed_v<K> && !std::is_floating_point_v<K>)
                {
                    Shaped<K> key(dt, n, layout, "k", 3, 40);
                    Shaped<int32_t> u(NPY_INT32, nu, 1, "u", 5, 8);
                    // cut points: non-decreasing, the last at the end
                    PyArrayObject * uc = rt_array(NPY_INT64, parts), * ic = rt_array(NPY_INT64, parts);
                    int64_t lu = 0, li = 0;
                    for (int64_t p = 0; p < parts; p++)
                    {
                        if (n <= 40)
                        {
                            lu = p == parts - 1 ? nu : sym_choose("ucut", lu, nu);
                            li = p == parts - 1 ? n : sym_choose("icut", li, n);
                        }
                        else
                        {
                            lu = nu * (p + 1) / parts;
                            li = n * (p + 1) / parts;
                        }
                        D<int64_t>(uc)[p] = lu;
                        D<int64_t>(ic)[p] = li;
                    }
                    K * k = key.rows();
                    int32_t * w = u.rows();
                    PyObject * r = rt_call("ReIndexGroups", 4, A0(key.a), A0(u.a), A0(uc), A0(ic));
                    if (!r)
                    {
                        sym_assert(rt_error() != nullptr && layout != 1, "declined with an error");
                        sym_reach("declined");
                        int ok = 1;
                        for (int64_t i = 0; i < n; i++)
                            ok &= key.row(i) == k[i];
                        sym_assert(ok, "keys unchanged");
                        return;
                    }
                    sym_reach("end");
                    sym_assert(r == A0(key.a), "reindexed in place");
                    int64_t p = 0, first = 0;
                    for (int64_t i = 0; i < n; i++)
                    {
                        while (i >= D<int64_t>(ic)[p])
                            first = D<int64_t>(uc)[p++];
                        int64_t x = k[i], lim = nu - first;
                        int in = (x > 0) & (x <= lim);
                        K e = 0;
                        if (nu <= 8)
                        {
                            for (int64_t q = 0; q < lim; q++)
                                e = sel<K>(x == q + 1, (K)w[first + q], e);
                        }
                        else
                            e = in ? (K)w[first + (in ? x - 1 : 0)] : (K)0;
                        sym_assert(key.row(i) == e, "code of the row");
                    }
                }
            });
}
// dtype, n, layout, worker blocks
extern "C" void c22rev()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1), layout = sym_arg(2);
    if (sym_arg(3))
        rt_share(1, sym_arg(3));
    forType(dt,
            [&]<typename K>()
            {
                if constexpr (std::is_signed_v<K> && !std::is_floating_point_v<K>)
                {
                    Shaped<K> a(dt, n, layout, "k", 3, 16);
                    if (n <= 16)
                    {
                        // any permutation
                        for (int64_t i = 0; i < n; i++)
                        {
                            sym_assume((a.row(i) >= 0) & (a.row(i) < n));
                            for (int64_t j = 0; j < i; j++)
                                sym_assume(a.row(i) != a.row(j));
                        }
                    }
                    else
                    {
                        // a concrete permutation with the images of two positions exchanged or not
                        for (int64_t i = 0; i < n; i++)
                            a.at(i) = (K)((i * 7 + 5) % n);
                        int64_t p = sym_choose("p", 0, 3), q = p == 0 ? 0 : p == 1 ? 16383 : p == 2 ? 16384 : n - 1, s = n / 2 + 1;
                        bool sw;
                        sym_make_bool(&sw, 1, "swap");
                        K x = a.at(q), y = a.at(s);
                        a.at(q) = sel<K>(sw, y, x);
                        a.at(s) = sel<K>(sw, x, y);
                    }
                    K * k = a.rows();
                    PyObject * r = rt_call("ReverseShuffle", 1, A0(a.a));
                    if (!r)
                    {
                        sym_assert(rt_error() != nullptr && layout != 1 && layout != 0, "declined with an error");
                        sym_reach("declined");
                        return;
                    }
                    sym_reach("end");
                    sym_assert(rt_isarray(r) && r != A0(a.a) && rt_len(r) == n && sameType(rt_type(r), dt), "a new array of the same kind");
                    K * y = D<K>(r);
                    int ok = 1;
                    for (int64_t i = 0; i < n; i++)
                        ok &= y[(int64_t)k[i]] == (K)i;
                    sym_assert(ok, "the inverse permutation");
                    ok = 1;
                    for (int64_t i = 0; i < n; i++)
                        ok &= a.row(i) == k[i];
                    sym_assert(ok, "input unchanged");
                }
            });
}
// index dtype, value dtype, n, index layout, value layout, worker blocks
extern "C" void c22idx()
{
    int it = sym_arg(0), dt = sym_arg(1);
    int64_t n = sym_arg(2);
    int il = sym_arg(3), vl = sym_arg(4);
    if (sym_arg(5))
        rt_share(1, sym_arg(5));
    forType(it,
            [&]<typename I>()
            {
                forType(dt,
                        [&]<typename T>()
                        {
                            if constexpr (!std::is_floating_point_v<I> && !std::is_same_v<I, bool>)
                            {
                                Shaped<I> ix(it, n, il, "i", 3, 8);
                                Shaped<T> v(dt, n, vl, "v", 5, 8);
                                if (n <= 8)
                                    for (int64_t i = 0; i < n; i++)
                                        sym_assume((ix.row(i) >= 0) & (ix.row(i) < (I)n));
                                else
                                {
                                    for (int64_t i = 0; i < n; i++)
                                        ix.at(i) = (I)((i * 7 + 5) % n);
                                    int64_t p = probeAt(n, sym_choose("p", 0, NPROBE - 1));
                                    uint8_t o;
                                    sym_make(&o, 1, 1, "o");
                                    ix.at(p) = (I)(n - 1 - (o & 63));
                                }
                                I * k = ix.rows();
                                T * x = v.rows();
                                PyObject * r = rt_call("ReIndex", 2, A0(ix.a), A0(v.a));
                                if (!r || r == Py_None)
                                {
                                    sym_assert(rt_error() != nullptr, "declined with an error");
                                    sym_reach("declined");
                                    return;
                                }
                                sym_reach("end");
                                sym_assert(rt_isarray(r) && rt_len(r) == n && sameType(rt_type(r), dt), "dtype and length");
                                T * y = D<T>(r);
                                for (int64_t i = 0; i < n; i++)
                                {
                                    int64_t at = (int64_t)k[i];
                                    sym_assert(same<T>(y[i], x[at]), "the indexed element");
                                }
                            }
                        });
            });
}
// string items: index dtype, item size, n
extern "C" void c22item()
{
    int it = sym_arg(0);
    int64_t sz = sym_arg(1), n = sym_arg(2);
    forType(it,
            [&]<typename I>()
            {
                if constexpr (!std::is_floating_point_v<I> && !std::is_same_v<I, bool>)
                {
                    Shaped<I> ix(it, n, 1, "i", 3, 8);
                    for (int64_t i = 0; i < n; i++)
                        sym_assume((ix.row(i) >= 0) & (ix.row(i) < (I)n));
                    PyArrayObject * a = rt_array(18, n, sz);
                    char * x = PyArray_BYTES(a);
                    for (int64_t i = 0; i < n * sz; i++)
                        x[i] = 1 + i * 31 % 100;
                    for (int64_t i = 0; i < n; i++)
                        symFill((uint8_t *)x + i * sz + sz - 1, 1, "a");
                    PyObject * r = rt_call("ReIndex", 2, A0(ix.a), A0(a));
                    sym_assert(r && r != Py_None && rt_isarray(r), "handled");
                    if (!r || r == Py_None)
                        return;
                    sym_reach("end");
                    char * y = PyArray_BYTES((PyArrayObject *)r);
                    sym_assert(rt_len(r) == n && PyArray_ITEMSIZE((PyArrayObject *)r) == sz && rt_type(r) == 18, "dtype, width and length");
                    for (int64_t i = 0; i < n; i++)
                    {
                        int64_t at = sym_concretize((int64_t)ix.row(i));
                        int ok = 1;
                        for (int64_t k = 0; k < sz; k++)
                            ok &= y[i * sz + k] == x[at * sz + k];
                        sym_assert(ok, "the indexed item");
                    }
                }
            });
}
