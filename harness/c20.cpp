// C20: folding a filter into group numbers (CombineFilter, CombineAccum2Filter, CombineAccum1Filter).
#include "h.h"
static int allOne(PyArrayObject * a)
{
    return PyArray_IS_C_CONTIGUOUS(a) || PyArray_IS_F_CONTIGUOUS(a);
}
// declined or not: arrays laid out alike without gaps have to be handled
static bool declined(PyObject * r, PyArrayObject * a, PyArrayObject * b, int forder)
{
    if (r)
        return false;
    sym_assert(rt_error() != nullptr, "declined with an error");
    bool like = PyArray_IS_C_CONTIGUOUS(a) && PyArray_IS_C_CONTIGUOUS(b);
    if (forder)
        like = like || (PyArray_IS_F_CONTIGUOUS(a) && PyArray_IS_F_CONTIGUOUS(b) && PyArray_SAMESHAPE(a, b));
    sym_assert(!like, "contiguous arrays are not declined");
    sym_reach("declined");
    return true;
}
// dtype, length, layout of the index, layout of the filter, worker blocks
extern "C" void c20filter()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int il = sym_arg(2), fl = sym_arg(3);
    if (sym_arg(4))
        rt_share(1, sym_arg(4));
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, il, "a", 3, 48);
                Shaped<bool> f(NPY_BOOL, n, fl, "f", 5, 48);
                n = a.n;
                T * x = a.rows();
                bool * m = f.rows();
                PyObject * r = rt_call("CombineFilter", 2, A0(a.a), A0(f.a));
                if (declined(r, a.a, f.a, 1))
                    return;
                sym_reach("end");
                sym_assert(rt_isarray(r) && sameType(rt_type(r), dt) && PyArray_NDIM((PyArrayObject *)r) == PyArray_NDIM(a.a), "type and shape");
                int ok = 1, un = 1;
                for (int64_t i = 0; i < n; i++)
                {
                    T y = rowOf<T>(r, i);
                    ok &= same<T>(y, sel<T>(m[i], x[i], (T)0));
                    un &= same<T>(a.row(i), x[i]) & (f.row(i) == m[i]);
                }
                sym_assert(ok, "filtered rows are 0, others unchanged");
                sym_assert(un, "inputs unchanged");
            });
}
static int64_t maxOf(int c)
{
    switch (c)
    {
    case 0:
    {
        int64_t k = sym_choose("max", 0, 2);
        return k == 0 ? 0 : k == 1 ? 3 : 12;
    }
    case 1: // around the change to 16 bits
        return sym_choose("max", 9, 11);
    case 5:
        return 10;
    case 2: // 32 bits
        return sym_choose("max", 176, 180);
    case 3: // 64 bits
        return sym_choose("max", 44719, 44722);
    default:
        return sym_choose("max", 1000000000, 1000000003);
    }
}
// first index dtype, second index dtype, length, layouts 1, 2 and of the filter (-9: none), size class, in range only, worker blocks
extern "C" void c20two()
{
    int d1 = sym_arg(0), d2 = sym_arg(1);
    int64_t n = sym_arg(2);
    int l1 = sym_arg(3), l2 = sym_arg(4), fl = sym_arg(5), cl = sym_arg(6);
    if (sym_arg(7))
        rt_share(1, sym_arg(7));
    forType(d1,
            [&]<typename T>()
            {
                forType(d2,
                        [&]<typename U>()
                        {
                            if constexpr (std::is_signed_v<T> && std::is_signed_v<U> && !std::is_floating_point_v<T> && !std::is_floating_point_v<U>)
                            {
                                Shaped<T> a(d1, n, l1, "a", 3, 48);
                                Shaped<U> b(d2, n, l2, "b", 4, 48);
                                bool nof = fl == -9;
                                Shaped<bool> f(NPY_BOOL, n, nof ? 1 : fl, "f", 5, 48);
                                n = a.n;
                                int64_t ma = cl == 9 ? -3 : maxOf(cl), mb = cl == 9 ? -3 : cl == 4 ? 1999999990 : maxOf(cl);
                                if (n > 48)
                                {
                                    int64_t p = probeAt(n, sym_choose("probe", 0, NPROBE - 1));
                                    for (int64_t i = 0; i < n; i++)
                                        a.row(i) = i % (ma + 1), b.row(i) = i % 7, f.row(i) = i % 3 != 0;
                                    symFill(&a.row(p), 1, "a");
                                    symFill(&b.row(p), 1, "b");
                                    symFill(&f.row(p), 1, "f");
                                }
                                T * x = a.rows();
                                U * y = b.rows();
                                bool * m = f.rows();
                                PyObject * r = rt_call("CombineAccum2Filter", 5, A0(a.a), A0(b.a), rt_int(ma), rt_int(mb), nof ? rt_none() : A0(f.a));
                                if (cl == 9)
                                {
                                    sym_assert(!r && rt_error(), "negative sizes are refused");
                                    sym_reach("end");
                                    return;
                                }
                                if (!r)
                                {
                                    sym_assert(rt_error() != nullptr, "declined with an error");
                                    bool cc = PyArray_IS_C_CONTIGUOUS(a.a) && PyArray_IS_C_CONTIGUOUS(b.a) && (nof || PyArray_IS_C_CONTIGUOUS(f.a));
                                    sym_assert(!cc, "contiguous arrays are not declined");
                                    sym_reach("declined");
                                    return;
                                }
                                sym_reach("end");
                                PyObject * o = rt_item(r, 0);
                                sym_assert(rt_len(o) == n, "length");
                                int es = rt_itemsize(rt_type(o));
                                __int128 size = (__int128)(ma + 1) * (mb + 1);
                                sym_assert(es == 8 || size <= ((__int128)1 << (8 * es - 1)), "the result type holds every combined number");
                                sym_assert(PyArray_NDIM((PyArrayObject *)o) == PyArray_NDIM(a.a), "shape");
                                int ok = 1;
                                forType(rt_type(o),
                                        [&]<typename V>()
                                        {
                                            for (int64_t i = 0; i < n; i++)
                                            {
                                                V w = rowOf<V>(o, i);
                                                int64_t p = (int64_t)x[i], q = (int64_t)y[i];
                                                int in = (p >= 0) & (p <= ma) & (q >= 0) & (q <= mb);
                                                int64_t c = q * (ma + 1) + p;
                                                int64_t got = (int64_t)w;
                                                if (nof)
                                                    ok &= !in | (got == c);
                                                else
                                                {
                                                    // products out of the 64-bit range are left out
                                                    int small = (q >= -(1LL << 30)) & (q <= (1LL << 30)) & (p >= -(1LL << 62)) & (p <= (1LL << 61));
                                                    int64_t want = sel<int64_t>(m[i] & (c >= 0) & (c < (int64_t)size), c, 0);
                                                    ok &= !(in | small | !m[i]) | (got == want);
                                                }
                                            }
                                        });
                                sym_assert(ok, "combined numbers");
                                sym_assert(rt_item(r, 1) == rt_none(), "no counts");
                            }
                        });
            });
}
// dtype, length, layouts of the index and the filter (-9: none), largest bin
extern "C" void c20one()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int il = sym_arg(2), fl = sym_arg(3);
    int64_t mx = sym_arg(4);
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, il, "a", 3, 7);
                bool nof = fl == -9;
                Shaped<bool> f(NPY_BOOL, n, nof ? 1 : fl, "f", 5, 7);
                n = a.n;
                int small = n <= 7;
                if (!small)
                    for (int64_t i = 0; i < n; i++)
                        if (i > 3 && i != n - 1)
                            a.row(i) = (T)(i % (mx + 3) - 1), f.row(i) = i % 3 != 0;
                T * x = a.rows();
                bool * m = f.rows();
                PyObject * r = rt_call("CombineAccum1Filter", 3, A0(a.a), rt_int(mx), nof ? rt_none() : A0(f.a));
                if (declined(r, a.a, nof ? a.a : f.a, 0))
                    return;
                sym_reach("end");
                PyObject *o = rt_item(r, 0), *fi = rt_item(r, 1);
                sym_assert(rt_isarray(o) && sameType(rt_type(o), dt) && rt_len(o) == n, "index array");
                int64_t k = sym_concretize(rt_asint(rt_item(r, 2)));
                sym_assert(rt_type(fi) == NPY_INT32 && rt_len(fi) == k, "first rows: one for each bin");
                // reference: renumber in order of first appearance
                int32_t * map = (int32_t *)calloc(mx + 2, 4);
                int32_t u = 0;
                int ok = 1, okf = 1;
                for (int64_t i = 0; i < n; i++)
                {
                    int64_t v = 0;
                    if (x[i] > 0 && (int64_t)x[i] <= mx && (nof || m[i]))
                    {
                        int64_t b = sym_concretize((int64_t)x[i]);
                        if (!map[b])
                        {
                            map[b] = ++u;
                            okf &= u <= k && D<int32_t>(fi)[u - 1] == i;
                        }
                        v = map[b];
                    }
                    ok &= (int64_t)D<T>(o)[i] == v;
                }
                sym_assert(ok, "bins in order of first appearance");
                sym_assert(okf, "first row of each bin");
                sym_assert(u == k, "number of bins");
                int un = 1;
                for (int64_t i = 0; i < n; i++)
                    un &= same<T>(a.row(i), x[i]) & (nof || f.row(i) == m[i]);
                sym_assert(un, "inputs unchanged");
                free(map);
            });
}
// what is not an index, a filter or a matching length is refused: function (0 CombineFilter, 1 two, 2 one), case
extern "C" void c20bad()
{
    int fn = sym_arg(0), c = sym_arg(1);
    PyArrayObject * a = c == 1 ? newArr<double>(5, "a") : newArr<int32_t>(5, "a");
    PyObject * f = A0(newArr<bool>(c == 0 ? 4 : 5, "f"));
    if (c == 2)
        f = A0(newArr<int8_t>(5, "f"));
    if (c == 3)
        f = fn ? rt_int(1) : A0(newArr<int64_t>(5, "f"));
    PyObject * r = nullptr;
    if (fn == 0)
        r = rt_call("CombineFilter", 2, A0(a), f);
    else if (fn == 1)
        r = rt_call("CombineAccum2Filter", 5, A0(a), A0(newArr<int32_t>(c == 4 ? 4 : 5, "b")), rt_int(c == 5 ? INT64_MAX / 4 : 5), rt_int(5), f);
    else
        r = rt_call("CombineAccum1Filter", 3, A0(a), rt_int(c == 4 ? -5 : c == 5 ? 3000000000LL : 5), f);
    sym_assert(!r && rt_error(), "refused with an error");
    sym_reach("end");
}
