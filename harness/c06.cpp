// C06: Sort, SortInPlace, LexSort32, LexSort64.
#include "h.h"
// does x have to come before y
template <typename T>
static bool before(T x, T y, int asc)
{
    bool v = asc ? x < y : x > y;
    if constexpr (std::is_floating_point_v<T>)
        v |= (y != y) & (x == x);
    return v;
}
// background of few distinct values: kind 0 cyclic, 1 ascending, 2 descending, 3 constant
template <typename T>
static T backVal(int64_t i, int64_t n, int kind)
{
    if constexpr (std::is_same_v<T, bool>)
        return kind == 0 ? i & 1 : kind == 1 ? i > n / 2 : kind == 2 ? i < n / 3 : true;
    else
    {
        int64_t k = kind == 0 ? (i * 7) % 5 : kind == 1 ? i * 5 / n : kind == 2 ? 4 - i * 5 / n : 2;
        return (T)(10 + 10 * k);
    }
}
template <typename T>
static PyArrayObject * keys(int dt, int64_t n, int layout, int kind, int nsym, const char * name)
{
    if (nsym < 0)
    {
        Shaped<T> s(dt, n, layout, name);
        return s.a;
    }
    PyArrayObject * a = rt_array(dt, n);
    T * p = D<T>(a);
    for (int64_t i = 0; i < n; i++)
        p[i] = backVal<T>(i, n, kind);
    // symbolic elements spread over the array, at the borders of the recursion
    for (int k = 0; k < nsym; k++)
    {
        int64_t q = nsym == 1 ? sym_choose("p", 0, 3) : k;
        q = q == 0 ? 0 : q == 1 ? n - 1 : q == 2 ? n / 2 : n / 4 - 1;
        symFill(p + q, 1, name);
    }
    return a;
}
// dtype, n, mode, in place, layout, background kind, symbolic elements (-1 all)
extern "C" void c06sort()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int mode = sym_arg(2), inplace = sym_arg(3), layout = sym_arg(4), kind = sym_arg(5), nsym = sym_arg(6);
    forType(dt,
            [&]<typename T>()
            {
                PyArrayObject * a = keys<T>(dt, n, layout, kind, nsym, "a");
                n = rt_len(A0(a));
                T * x = (T *)malloc(n * sizeof(T) + 1);
                for (int64_t i = 0; i < n; i++)
                    x[i] = rowOf<T>(A0(a), i);
                PyObject * r = rt_call(inplace ? "SortInPlace" : "Sort", 2, A0(a), rt_int(mode));
                if (!r)
                {
                    sym_assert(rt_error() != nullptr, "declined with an error");
                    sym_assert(layout != 0 && layout != 1 && layout != 100 && layout != 110, "contiguous arrays are not declined");
                    for (int64_t i = 0; i < n; i++)
                        sym_assert(bitsOf(rowOf<T>(A0(a), i)) == bitsOf(x[i]), "left untouched");
                    sym_reach("declined");
                    return;
                }
                sym_reach("end");
                sym_assert(rt_isarray(r) && sameType(rt_type(r), dt) && rt_len(r) == n, "same dtype and length");
                if (inplace)
                    sym_assert(D<T>(r) == D<T>(a), "in place");
                else
                    for (int64_t i = 0; i < n; i++)
                        sym_assert(bitsOf(rowOf<T>(A0(a), i)) == bitsOf(x[i]), "input unchanged");
                T * y = (T *)malloc(n * sizeof(T) + 1);
                for (int64_t i = 0; i < n; i++)
                    y[i] = rowOf<T>(r, i);
                int ok = 1;
                for (int64_t i = 1; i < n; i++)
                    ok &= !before(y[i], y[i - 1], 1);
                sym_assert(ok, "ascending, NaN last");
                // every input element is found in the output, each in a place of its own; what cannot be matched as the same term is counted
                bool * used = (bool *)calloc(n + 1, 1), *hit = (bool *)calloc(n + 1, 1);
                for (int64_t i = 0; i < n; i++)
                    for (int64_t j = 0; j < n; j++)
                        if (!used[j] && sym_known(bitsOf(y[j]) == bitsOf(x[i])))
                        {
                            used[j] = hit[i] = true;
                            break;
                        }
                for (int64_t i = 0; i < n; i++)
                    if (!hit[i])
                    {
                        int64_t c = 0, d = 0;
                        for (int64_t j = 0; j < n; j++)
                        {
                            c += !hit[j] & (bitsOf(x[j]) == bitsOf(x[i]));
                            d += !used[j] & (bitsOf(y[j]) == bitsOf(x[i]));
                        }
                        sym_assert(c == d, "as often as before");
                    }
            });
}
// an unsupported request is declined: dtype, mode, in place
extern "C" void c06bad()
{
    PyArrayObject * a = rt_array(sym_arg(0), 5, 4);
    sym_make(D<uint8_t>(a), 1, 20, "a");
    uint8_t x[20];
    memcpy(x, D<uint8_t>(a), 20);
    PyObject * r = rt_call(sym_arg(2) ? "SortInPlace" : "Sort", 2, A0(a), rt_int(sym_arg(1)));
    sym_assert(!r && rt_error(), "declined with an error");
    for (int i = 0; i < 20; i++)
        sym_assert(D<uint8_t>(a)[i] == x[i], "left untouched");
    sym_reach("end");
}
struct Key
{
    PyArrayObject * a;
    int dt, asc, w;
};
// must row i come before row j by key k
static bool less(Key & k, int64_t i, int64_t j)
{
    bool r = false;
    if (k.dt == NPY_STRING || k.dt == NPY_UNICODE)
    {
        int cw = k.dt == NPY_UNICODE ? 4 : 1;
        bool eq = true;
        for (int q = 0; q < k.w; q += cw)
        {
            uint32_t u = 0, v = 0;
            memcpy(&u, D<char>(k.a) + i * k.w + q, cw);
            memcpy(&v, D<char>(k.a) + j * k.w + q, cw);
            r |= eq & (k.asc ? u < v : u > v);
            eq &= u == v;
        }
        return r;
    }
    forType(k.dt,
            [&]<typename T>()
            {
                r = before(rowOf<T>(A0(k.a), i), rowOf<T>(A0(k.a), j), k.asc);
            });
    return r;
}
static Key makeKey(int dt, int64_t n, int layout, int kind, int nsym, const char * name)
{
    Key k;
    k.dt = dt;
    k.w = 0;
    if (dt == NPY_STRING || dt == NPY_UNICODE)
    {
        k.w = layout;
        k.a = rt_array(dt, n, k.w);
        int cw = dt == NPY_UNICODE ? 4 : 1;
        if (nsym < 0)
            sym_make(D<char>(k.a), cw, n * k.w / cw, name);
        else
        {
            for (int64_t i = 0; i < n; i++)
            {
                memset(D<char>(k.a) + i * k.w, 0, k.w);
                D<char>(k.a)[i * k.w] = 'a' + backVal<int8_t>(i, n, kind) / 10;
                D<char>(k.a)[i * k.w + k.w / cw / 2 * cw] = 'x';
            }
            int64_t q = sym_choose("p", 0, 3);
            q = q == 0 ? 0 : q == 1 ? n - 1 : q == 2 ? n / 2 : n / 4 - 1;
            sym_make(D<char>(k.a) + q * k.w, cw, k.w / cw, name);
        }
        return k;
    }
    forType(dt,
            [&]<typename T>()
            {
                k.a = keys<T>(dt, n, layout, kind, nsym, name);
            });
    return k;
}
// index bits, n, dtype 1, dtype 2 (-1 none), ascending mode (1 none given, 2 False, 3 True, 4.. array of bits), layout (width of strings), background, symbolic elements (-1 all), blocks of a worker, start index
// (0 none, else every mth row), cutoffs (0 none, c: two partitions, the first of c rows)
extern "C" void c06lex()
{
    int bits = sym_arg(0);
    int64_t n = sym_arg(1);
    int d1 = sym_arg(2), d2 = sym_arg(3), am = sym_arg(4), layout = sym_arg(5), kind = sym_arg(6), nsym = sym_arg(7), share = sym_arg(8), start = sym_arg(9);
    int64_t cut = sym_arg(10);
    if (share)
        rt_share(1, share);
    Key k[2];
    int nk = d2 >= 0 ? 2 : 1;
    k[0] = makeKey(d1, n, layout, kind, nsym, "k");
    if (nk == 2)
        k[1] = makeKey(d2, n, d2 == NPY_STRING || d2 == NPY_UNICODE ? 4 : 1, 3 - kind, nsym, "l");
    n = rt_len(A0(k[0].a));
    for (int i = 0; i < nk; i++)
        k[i].asc = am == 1 || am == 3 ? 1 : am == 2 ? 0 : ((am - 4) >> i) & 1;
    PyObject * kw = nullptr;
    int64_t m = n;
    PyArrayObject * si = nullptr;
    int64_t * sv = nullptr;
    if (am > 1 || start || cut)
        kw = PyDict_New();
    if (am == 2 || am == 3)
        PyDict_SetItemString(kw, "ascending", rt_bool(am == 3));
    else if (am >= 4)
    {
        PyArrayObject * b = rt_array(NPY_BOOL, nk);
        for (int i = 0; i < nk; i++)
            D<bool>(b)[i] = k[i].asc;
        PyDict_SetItemString(kw, "ascending", A0(b));
    }
    auto idx = [&](PyArrayObject * a, int64_t i)
    {
        return bits == 32 ? (int64_t)D<int32_t>(a)[i] : D<int64_t>(a)[i];
    };
    if (start)
    {
        m = (n + start - 1) / start;
        si = rt_array(bits == 32 ? NPY_INT32 : NPY_INT64, m);
        sv = (int64_t *)malloc(m * 8 + 8);
        for (int64_t i = 0; i < m; i++)
        {
            // descending start order, so stability is with respect to it
            sv[i] = (m - 1 - i) * start;
            if (bits == 32)
                D<int32_t>(si)[i] = (int32_t)sv[i];
            else
                D<int64_t>(si)[i] = sv[i];
        }
        PyDict_SetItemString(kw, "index", A0(si));
    }
    if (cut)
    {
        PyArrayObject * c = rt_array(NPY_INT64, 2);
        D<int64_t>(c)[0] = cut;
        D<int64_t>(c)[1] = n;
        PyDict_SetItemString(kw, "cutoffs", A0(c));
    }
    PyObject * args = nk == 2 ? rt_tuple(2, A0(k[0].a), A0(k[1].a)) : rt_tuple(1, A0(k[0].a));
    PyObject * r = rt_calltuple(bits == 32 ? "LexSort32" : "LexSort64", args, kw);
    if (!r || r == Py_None)
    {
        sym_assert(rt_error() != nullptr, "declined with an error");
        sym_assert(k[0].w == 0 && layout != 0 && layout != 1 && layout != 2 && layout != -1, "one-dimensional arrays are not declined");
        sym_reach("declined");
        return;
    }
    sym_reach("end");
    sym_assert(rt_isarray(r) && sameType(rt_type(r), bits == 32 ? NPY_INT32 : NPY_INT64) && rt_len(r) == m, "index type and length");
    PyArrayObject * o = (PyArrayObject *)r;
    if (si)
        sym_assert(o == si, "the start index itself");
    // position of each row in the start order
    int64_t * rank = (int64_t *)malloc(n * 8 + 8);
    uint8_t * seen = (uint8_t *)calloc(n + 1, 1);
    for (int64_t i = 0; i < n; i++)
        rank[i] = si ? -1 : i;
    for (int64_t i = 0; si && i < m; i++)
        rank[sv[i]] = i;
    for (int part = 0; part < (cut ? 2 : 1); part++)
    {
        int64_t lo = part ? cut : 0, hi = cut && !part ? cut : m;
        int ok = 1;
        int64_t prev = -1;
        for (int64_t i = lo; i < hi; i++)
        {
            int64_t q = sym_concretize(idx(o, i)) + lo;
            bool in = q >= lo && q < (cut ? hi : n) && !seen[q] && rank[q] >= 0;
            sym_assert(in, "a permutation of the rows");
            if (!in)
                return;
            seen[q] = 1;
            if (prev >= 0)
            {
                bool o = rank[prev] < rank[q];
                o = less(k[0], prev, q) | (!less(k[0], q, prev) & o);
                if (nk == 2)
                    o = less(k[1], prev, q) | (!less(k[1], q, prev) & o);
                ok &= o;
            }
            prev = q;
        }
        sym_assert(ok, "ordered by the keys, ties in row order");
    }
}
// void items: descending is the reverse of ascending for distinct items; equal items keep their order: width
extern "C" void c06void()
{
    int64_t w = sym_arg(0);
    PyArrayObject * a = rt_array(NPY_VOID, 2, w);
    sym_make(D<uint8_t>(a), 1, 2 * w, "v");
    int64_t o[2];
    for (int d = 0; d < 2; d++)
    {
        PyObject * kw = PyDict_New();
        PyDict_SetItemString(kw, "ascending", rt_bool(!d));
        PyObject * r = rt_calltuple("LexSort32", rt_tuple(1, A0(a)), kw);
        sym_assert(r && rt_len(r) == 2, "sorted");
        o[d] = sym_concretize(D<int32_t>(r)[0]);
        sym_assert((o[d] == 0 && D<int32_t>(r)[1] == 1) || (o[d] == 1 && D<int32_t>(r)[1] == 0), "a permutation");
    }
    int eq = 1;
    for (int64_t i = 0; i < w; i++)
        eq &= D<uint8_t>(a)[i] == D<uint8_t>(a)[w + i];
    sym_assert(eq ? (o[0] == 0) & (o[1] == 0) : o[0] != o[1], "descending reverses ascending, equal items keep their order");
    PyArrayObject * b = rt_array(NPY_VOID, 2, w);
    memcpy(D<uint8_t>(b), D<uint8_t>(a) + o[0] * w, w);
    memcpy(D<uint8_t>(b) + w, D<uint8_t>(a) + (1 - o[0]) * w, w);
    sym_assert(rt_call("IsSorted", 1, A0(b)) == Py_True, "as IsSorted sees it");
    sym_reach("end");
}
