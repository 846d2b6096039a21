// C11: group structures built from bin numbers (BinCount, GroupFromBinCount, GroupByPack32, MakeiNext, MakeiFirst).
#include "h.h"
// the bin of every row, one path per value; -1: out of range
template <typename T>
static int64_t * bins(Shaped<T> & a, int64_t n, int64_t nb)
{
    if (n > 8)
    {
        for (int64_t i = 0; i < n; i++)
            a.row(i) = (T)(i * 7 % (nb + 1) - (i % 5 == 0));
        int64_t p = n > 1000 ? sym_choose("probe", 0, 3) : sym_choose("probe", 0, NPROBE - 1);
        p = probeAt(n, n > 1000 && p > 1 ? p == 2 ? 3 : 6 : p);
        if (p < 0 || p >= n)
            p = n / 3;
        symFill(&a.row(p), 1, "k");
        if (n < 1000)
            symFill(&a.row(p > 2 ? p - 2 : p + 2), 1, "k");
    }
    int64_t * b = (int64_t *)malloc((n + 1) * 8);
    for (int64_t i = 0; i < n; i++)
    {
        int64_t v = (int64_t)a.row(i);
        b[i] = v >= 0 && v < nb ? sym_concretize(v) : -1;
    }
    return b;
}
template <typename T>
static void unchanged(Shaped<T> & a, T * x, int64_t n)
{
    int ok = 1;
    for (int64_t i = 0; i < n; i++)
        ok &= same<T>(a.row(i), x[i]);
    sym_assert(ok, "keys unchanged");
}
static bool refused(PyObject * r, PyArrayObject * a, bool odd = false)
{
    if (r)
        return false;
    sym_assert(rt_error() != nullptr, "refused with an error");
    sym_assert(odd || !PyArray_IS_C_CONTIGUOUS(a), "contiguous keys are not refused");
    sym_reach("declined");
    return true;
}
#define KEYS(dt, ...)                                                                     \
    forType(dt,                                                                           \
            [&]<typename T>()                                                             \
            {                                                                             \
                if constexpr (std::is_signed_v<T> && !std::is_floating_point_v<T>)        \
                    __VA_ARGS__                                                                 \
            })
// dtype, rows, layout, number of bins, mode (0 next, 1 previous)
extern "C" void c11next()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int l = sym_arg(2);
    int64_t u = sym_arg(3);
    int mode = sym_arg(4);
    KEYS(dt, {
        Shaped<T> a(dt, n, l, "k", 3, 8);
        n = a.n;
        int64_t * b = bins<T>(a, n, u + 1);
        T * x = a.rows();
        PyObject * r = rt_call("MakeiNext", 3, A0(a.a), rt_int(u), rt_int(mode));
        if (refused(r, a.a))
            return;
        sym_reach("end");
        sym_assert(rt_isarray(r) && rt_len(r) == n, "length");
        int es = rt_itemsize(rt_type(r));
        sym_assert(es >= (int)sizeof(T) && (es == 8 || n <= 1LL << (8 * es - 1)), "dtype holds the row numbers");
        int64_t * last = (int64_t *)malloc((u + 1) * 8);
        for (int64_t i = 0; i <= u; i++)
            last[i] = -1;
        forType(rt_type(r),
                [&]<typename V>()
                {
                    int ok = 1;
                    for (int64_t k = 0; k < n; k++)
                    {
                        int64_t i = mode ? k : n - 1 - k;
                        int64_t w = -1;
                        if (b[i] >= 0)
                        {
                            w = last[b[i]];
                            last[b[i]] = i;
                        }
                        ok &= same<V>(D<V>(r)[i], w < 0 ? invalidOf<V>() : (V)w);
                    }
                    sym_assert(ok, "next or previous row of the same bin");
                });
        unchanged<T>(a, x, n);
    });
}
static void packed(int64_t * b, int64_t n, int64_t nb, int32_t * grp, int32_t * first, int32_t * cnt, bool emptyFirst)
{
    // counts, offsets and rows in ascending order
    int64_t * c = (int64_t *)calloc(nb + 1, 8);
    for (int64_t i = 0; i < n; i++)
        if (b[i] >= 0)
            c[b[i]]++;
    int ok = 1, okf = 1, okg = 1;
    int64_t sum = 0;
    for (int64_t k = 0; k < nb; k++)
    {
        if (cnt)
            ok &= cnt[k] == c[k];
        if (first && (c[k] || !emptyFirst))
            okf &= first[k] == sum;
        int64_t s = first && c[k] ? first[k] : sum;
        if (grp)
        {
            sym_assert(s >= 0 && s + c[k] <= n, "segment inside the group array");
        }
        c[k] = s; // the next place of the bin
        sum += cnt ? cnt[k] : 0;
    }
    if (grp)
        for (int64_t i = 0; i < n; i++)
            if (b[i] >= 0)
                okg &= grp[c[b[i]]++] == i;
    sym_assert(ok, "counts");
    sym_assert(okf, "offsets");
    sym_assert(okg, "rows of each bin in ascending order");
}
// dtype, rows, layout, number of uniques, next given
extern "C" void c11pack()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int l = sym_arg(2);
    int64_t u = sym_arg(3);
    int nx = sym_arg(4);
    KEYS(dt, {
        Shaped<T> a(dt, n, l, "k", 3, 8);
        n = a.n;
        int64_t * b = bins<T>(a, n, u + 1);
        T * x = a.rows();
        bool outside = false;
        for (int64_t i = 0; i < n; i++)
            outside |= b[i] < 0;
        PyObject * next = rt_none();
        if (nx)
        {
            // as hash grouping makes them: numbered by first appearance, every bin present, linked to the next row
            int64_t seen = 0;
            for (int64_t i = 0; i < n; i++)
            {
                sym_assume(b[i] >= 0 && b[i] <= seen + 1);
                if (b[i] > seen)
                    seen = b[i];
            }
            sym_assume(seen == u);
            PyArrayObject * q = rt_array(NPY_INT32, n);
            for (int64_t i = 0; i < n; i++)
            {
                D<int32_t>(q)[i] = nx == 1 ? -1 : INT32_MIN; // as the hash, as MakeiNext
                for (int64_t j = n - 1; j > i; j--)
                    if (b[j] == b[i])
                        D<int32_t>(q)[i] = j;
            }
            next = A0(q);
        }
        PyObject * r = rt_call("GroupByPack32", 3, A0(a.a), next, rt_int(u));
        if (refused(r, a.a, outside))
            return;
        sym_reach("end");
        sym_assert(!outside, "bins out of range are refused");
        PyObject *g = rt_item(r, 0), *f = rt_item(r, 1), *c = rt_item(r, 2);
        sym_assert(rt_type(g) == NPY_INT32 && rt_type(f) == NPY_INT32 && rt_type(c) == NPY_INT32, "types");
        sym_assert(rt_len(g) == n && rt_len(f) == u + 1 && rt_len(c) == u + 1, "lengths");
        if (!nx)
            packed(b, n, u + 1, D<int32_t>(g), D<int32_t>(f), D<int32_t>(c), true);
        else
        {
            // bin 0 comes first or last
            int32_t * cn = D<int32_t>(c);
            int64_t own = 0;
            int ok = 1, okf = 1, okg = 1;
            int64_t at[12] = { 0 }, tot = 0;
            for (int64_t k = 0; k <= u; k++)
            {
                own = 0;
                for (int64_t i = 0; i < n; i++)
                    own += b[i] == k;
                ok &= cn[k] == own;
                at[k] = D<int32_t>(f)[k];
                okf &= !own || (at[k] >= 0 && at[k] + own <= n);
                tot += own;
            }
            sym_assert(ok && tot == n, "counts");
            sym_assert(okf, "offsets");
            for (int64_t i = 0; i < n; i++)
                okg &= D<int32_t>(g)[at[b[i]]++] == i;
            sym_assert(okg, "rows of each bin in ascending order");
        }
        unchanged<T>(a, x, n);
    });
}
// dtype, rows, layout, number of bins, pack, blocks taken by a worker
extern "C" void c11count()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int l = sym_arg(2);
    int64_t nb = sym_arg(3);
    int pack = sym_arg(4);
    if (sym_arg(5))
        rt_share(1, sym_arg(5));
    KEYS(dt, {
        Shaped<T> a(dt, n, l, "k", 3, 8);
        n = a.n;
        int64_t * b = bins<T>(a, n, nb);
        T * x = a.rows();
        PyObject * kw = nullptr;
        if (pack)
        {
            kw = PyDict_New();
            PyDict_SetItemString(kw, "pack", Py_True);
        }
        PyObject * r = rt_calltuple("BinCount", rt_tuple(2, A0(a.a), rt_int(nb)), kw);
        if (refused(r, a.a, !n || !nb))
            return;
        sym_reach("end");
        PyObject * c = pack ? rt_item(r, 0) : r;
        sym_assert(rt_type(c) == NPY_INT32 && rt_len(c) == nb, "counts");
        int32_t *gp = nullptr, *fp = nullptr;
        if (pack)
        {
            PyObject *g = rt_item(r, 1), *f = rt_item(r, 2);
            sym_assert(rt_type(g) == NPY_INT32 && rt_len(g) == n && rt_type(f) == NPY_INT32 && rt_len(f) == nb, "packed arrays");
            gp = D<int32_t>(g);
            fp = D<int32_t>(f);
        }
        packed(b, n, nb, gp, fp, D<int32_t>(c), false);
        unchanged<T>(a, x, n);
    });
}
// dtype, rows, layout, number of bins, blocks taken by a worker: with the true counts
extern "C" void c11group()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int l = sym_arg(2);
    int64_t nb = sym_arg(3);
    if (sym_arg(4))
        rt_share(1, sym_arg(4));
    KEYS(dt, {
        Shaped<T> a(dt, n, l, "k", 3, 8);
        n = a.n;
        int64_t * b = bins<T>(a, n, nb);
        T * x = a.rows();
        PyArrayObject * c = rt_array(NPY_INT32, nb);
        for (int64_t k = 0; k < nb; k++)
            D<int32_t>(c)[k] = 0;
        for (int64_t i = 0; i < n; i++)
            if (b[i] >= 0)
                D<int32_t>(c)[b[i]]++;
        PyObject * r = rt_call("GroupFromBinCount", 2, A0(a.a), A0(c));
        if (refused(r, a.a))
            return;
        sym_reach("end");
        PyObject *g = rt_item(r, 0), *f = rt_item(r, 1);
        sym_assert(rt_type(g) == NPY_INT32 && rt_len(g) == n && rt_type(f) == NPY_INT32 && rt_len(f) == nb, "packed arrays");
        packed(b, n, nb, D<int32_t>(g), D<int32_t>(f), D<int32_t>(c), false);
        unchanged<T>(a, x, n);
    });
}
// dtype, rows, layout, largest bin, filter layout (-9: none), last
extern "C" void c11first()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int l = sym_arg(2);
    int64_t u = sym_arg(3);
    int fl = sym_arg(4), last = sym_arg(5);
    KEYS(dt, {
        Shaped<T> a(dt, n, l, "k", 3, 8);
        n = a.n;
        bool nof = fl == -9;
        Shaped<bool> m(NPY_BOOL, n, nof ? 1 : fl, "f", 3, 8);
        int64_t * b = bins<T>(a, n, u + 1);
        T * x = a.rows();
        PyObject * r = rt_call("MakeiFirst", 4, A0(a.a), rt_int(u), nof ? rt_none() : A0(m.a), rt_int(last));
        if (refused(r, a.a, !nof && !PyArray_IS_C_CONTIGUOUS(m.a)))
            return;
        sym_reach("end");
        sym_assert(sameType(rt_type(r), NPY_INT64) && rt_len(r) == u + 1, "one entry for each bin");
        int64_t * w = (int64_t *)malloc((u + 2) * 8);
        for (int64_t k = 0; k <= u; k++)
            w[k] = INT64_MIN;
        for (int64_t i = 0; i < n; i++)
        {
            int take = nof ? 1 : m.row(i);
            if (b[i] > 0)
            {
                int64_t & q = w[b[i]];
                if (last)
                    q = sel<int64_t>(take, i, q);
                else
                    q = sel<int64_t>(take & (q == INT64_MIN), i, q);
            }
        }
        int ok = 1;
        for (int64_t k = 0; k <= u; k++)
            ok &= D<int64_t>(r)[k] == w[k];
        sym_assert(ok, "first or last row of each bin");
        unchanged<T>(a, x, n);
    });
}
// what is no grouping is refused: function, case
extern "C" void c11bad()
{
    int fn = sym_arg(0), c = sym_arg(1);
    PyArrayObject * a = c == 0 ? newArr<double>(5, "k") : c == 1 ? newArr<uint32_t>(5, "k") : newArr<int32_t>(5, "k");
    int64_t u = c == 2 ? -7 : 3;
    PyObject * r = nullptr;
    if (fn == 0)
        r = rt_call("MakeiNext", 3, A0(a), rt_int(u), rt_int(0));
    else if (fn == 1)
        r = rt_call("GroupByPack32", 3, A0(a), rt_none(), rt_int(u));
    else if (fn == 2)
        r = rt_call("BinCount", 2, A0(a), rt_int(u));
    else if (fn == 3)
        r = rt_call("GroupFromBinCount", 2, A0(a), c == 2 ? A0(newArr<int64_t>(3, "c")) : A0(newArr<int32_t>(3, "c")));
    else
        r = rt_call("MakeiFirst", 4, A0(a), rt_int(u), c == 3 ? A0(newArr<bool>(4, "f")) : rt_none(), rt_int(1));
    sym_assert(!r && rt_error(), "refused with an error");
    sym_reach("end");
}
