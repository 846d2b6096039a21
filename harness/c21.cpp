// C21: BinsToCutsBSearch, BinsToCutsSorted, NanInfCountFromSort.
#include "h.h"
// x < y for values of different types: integers exactly, otherwise as double
template <typename A, typename B>
static bool lt(A x, B y)
{
    if constexpr (std::is_floating_point_v<A> && std::is_same_v<A, B>)
        return x < y;
    else if constexpr (std::is_integral_v<A> && std::is_integral_v<B> &&
                       (std::is_signed_v<A> == std::is_signed_v<B> || (!std::is_same_v<A, uint64_t> && !std::is_same_v<B, uint64_t>)))
        return std::conditional_t<std::is_signed_v<A> || std::is_signed_v<B>, int64_t, uint64_t>(x) <
               std::conditional_t<std::is_signed_v<A> || std::is_signed_v<B>, int64_t, uint64_t>(y);
    else
        return (double)x < (double)y;
}
template <typename A>
static bool isFinite(A x)
{
    if constexpr (std::is_floating_point_v<A>)
        return (x == x) & (x <= std::numeric_limits<A>::max()) & (x >= std::numeric_limits<A>::lowest());
    else
        return true;
}
// the bin number r of value x among the n cuts
template <typename A, typename B>
static bool right(int64_t r, A x, B * c, int64_t n, int mode)
{
    if (mode == 0)
    {
        bool out = isInvalid(x) | !isFinite(x) | lt(x, c[0]) | lt(c[n - 1], x);
        bool in = (r >= 1) & (r <= (n > 1 ? n - 1 : 1));
        if (in)
        {
            int64_t k = sym_concretize(r);
            in = n == 1 ? true : !lt(c[k], x);
            in &= k == 1 ? true : lt(c[k - 1], x);
        }
        return out ? r == 0 : in;
    }
    if constexpr (std::is_floating_point_v<A>)
        if (x != x)
            return r == n;
    if (r < 0 || r > n)
        return false;
    int64_t k = sym_concretize(r);
    bool ok = true;
    if (mode == 1) // the first cut that is not below
    {
        ok &= k == n ? true : !lt(c[k], x);
        ok &= k == 0 ? true : lt(c[k - 1], x);
    }
    else // the first cut above
    {
        ok &= k == n ? true : lt(x, c[k]);
        ok &= k == 0 ? true : !lt(x, c[k - 1]);
    }
    return ok;
}
static int64_t getBin(PyObject * r, int64_t i)
{
    switch (rt_type(r))
    {
    case NPY_INT8: return D<int8_t>(r)[i];
    case NPY_INT16: return D<int16_t>(r)[i];
    case NPY_INT32: return D<int32_t>(r)[i];
    default: return -100;
    }
}
static int binType(int64_t n)
{
    return n > 30000 ? NPY_INT32 : n > 100 ? NPY_INT16 : NPY_INT8;
}
template <typename B>
static void cuts(PyArrayObject * c, int64_t n, bool strict)
{
    B * p = D<B>(c);
    symFill(p, n, "cut");
    for (int64_t i = 0; i < n; i++)
    {
        if constexpr (std::is_floating_point_v<B>)
            sym_assume(p[i] == p[i]);
        if (i)
            sym_assume(strict ? p[i - 1] < p[i] : !(p[i] < p[i - 1]));
    }
}
// dtype of values, of cuts, mode, values, cuts, layout of the values
extern "C" void c21bsearch()
{
    int dt = sym_arg(0), bt = sym_arg(1), mode = sym_arg(2);
    int64_t n = sym_arg(3), nb = sym_arg(4);
    forType(dt,
            [&]<typename T>()
            {
                forType(bt,
                        [&]<typename B>()
                        {
                            Shaped<T> a(dt, n, sym_arg(5), "a");
                            PyArrayObject * c = rt_array(bt, nb);
                            cuts<B>(c, nb, mode == 0);
                            PyObject * r = rt_call("BinsToCutsBSearch", 3, A0(a.a), A0(c), rt_int(mode));
                            if (!r)
                            {
                                sym_assert(rt_error() != nullptr, "declined with an error");
                                sym_assert(sym_arg(5) != 1 && sym_arg(5) != 100 && sym_arg(5) != 101, "contiguous arrays are not declined");
                                sym_reach("declined");
                                return;
                            }
                            sym_reach("end");
                            sym_assert(rt_isarray(r) && rt_type(r) == binType(nb) && rt_len(r) == a.n, "a bin for every value");
                            Shaped<int8_t> * q = nullptr;
                            (void)q;
                            for (int64_t i = 0; i < a.n; i++)
                            {
                                // the result has the layout of the values
                                int64_t at = sym_arg(5) == 101 ? -1 : i;
                                T x = at < 0 ? D<T>(a.a)[i] : rowOf<T>(A0(a.a), i);
                                sym_assert(right(getBin(r, i), x, D<B>(c), nb, mode), "bin between the neighbouring cuts");
                            }
                        });
            });
}
// many cuts 10 apart; a symbolic value near one of them: dtype of values, of cuts, mode, cuts
extern "C" void c21many()
{
    int dt = sym_arg(0), bt = sym_arg(1), mode = sym_arg(2);
    int64_t nb = sym_arg(3);
    forType(dt,
            [&]<typename T>()
            {
                forType(bt,
                        [&]<typename B>()
                        {
                            PyArrayObject *a = rt_array(dt, 1), *c = rt_array(bt, nb);
                            B * p = D<B>(c);
                            for (int64_t i = 0; i < nb; i++)
                                p[i] = (B)(i * 10 - 500);
                            symFill(D<T>(a), 1, "a");
                            T x = D<T>(a)[0];
                            int64_t where[6] = { 0, 1, nb / 2, nb / 2 + 1, nb - 2, nb - 1 };
                            int64_t w = sym_choose("near", 0, 6);
                            if (w < 6)
                                sym_assume(!lt(x, (T)(p[where[w]] - 7)) & !lt((T)(p[where[w]] + 7), x));
                            else
                                sym_assume(lt(x, p[0]) | lt(p[nb - 1], x));
                            PyObject * r = rt_call("BinsToCutsBSearch", 3, A0(a), A0(c), rt_int(mode));
                            sym_assert(r != nullptr, "returned");
                            if (!r)
                                return;
                            sym_reach("end");
                            sym_assert(rt_type(r) == binType(nb) && rt_len(r) == 1, "a bin for every value");
                            sym_assert(right(getBin(r, 0), x, p, nb, mode), "bin between the neighbouring cuts");
                        });
            });
}
// many values with symbolic ones at the borders of the blocks: dtype, mode, values, shared
extern "C" void c21blocks()
{
    int dt = sym_arg(0), mode = sym_arg(1);
    int64_t n = sym_arg(2);
    forType(dt,
            [&]<typename T>()
            {
                PyArrayObject *a = rt_array(dt, n), *c = rt_array(dt, 3);
                T *x = D<T>(a), *p = D<T>(c);
                p[0] = 10, p[1] = 20, p[2] = 50;
                for (int64_t i = 0; i < n; i++)
                    x[i] = (T)(i % 61);
                int64_t q = probeAt(n, sym_choose("probe", 0, NPROBE - 1));
                if (q < 0 || q >= n)
                    return;
                symFill(x + q, 1, "a");
                if (sym_arg(3))
                    rt_share(1, 2);
                PyObject * r = rt_call("BinsToCutsBSearch", 3, A0(a), A0(c), rt_int(mode));
                sym_assert(r != nullptr, "returned");
                if (!r)
                    return;
                sym_reach("end");
                sym_assert(rt_type(r) == NPY_INT8 && rt_len(r) == n, "a bin for every value");
                bool ok = true;
                for (int64_t i = 0; i < n; i++)
                    if (i != q)
                        ok &= right(D<int8_t>(r)[i], x[i], p, 3, mode);
                sym_assert(ok, "bins of the other values");
                sym_assert(right(D<int8_t>(r)[q], x[q], p, 3, mode), "bin between the neighbouring cuts");
            });
}
// x < y: strings padded with zeros
static bool slt(const char * x, int wx, const char * y, int wy)
{
    bool less = false, eq = true;
    for (int k = 0; k < wx || k < wy; k++)
    {
        uint8_t a = k < wx ? x[k] : 0, b = k < wy ? y[k] : 0;
        less |= eq & (a < b);
        eq &= a == b;
    }
    return less;
}
// strings end with their first zero
static void str(char * p, int w)
{
    sym_make(p, 1, w, "s");
    for (int k = 1; k < w; k++)
        sym_assume((p[k - 1] != 0) | (p[k] == 0));
}
// width of values, of cuts, values, cuts, symbolic row (-1 all), shared
extern "C" void c21string()
{
    int w = sym_arg(0), wc = sym_arg(1);
    int64_t n = sym_arg(2), nb = sym_arg(3);
    PyArrayObject *a = rt_array(NPY_STRING, n, w), *c = rt_array(NPY_STRING, nb, wc);
    char *x = D<char>(a), *p = D<char>(c);
    if (n < 10)
        for (int64_t i = 0; i < n; i++)
            str(x + i * w, w);
    else
        for (int64_t i = 0; i < n; i++)
        {
            memset(x + i * w, 0, w);
            x[i * w] = 'a' + i % 23;
        }
    for (int64_t i = 0; i < nb; i++)
    {
        if (n < 10)
            str(p + i * wc, wc);
        else
        {
            memset(p + i * wc, 0, wc);
            p[i * wc] = 'c' + 5 * i;
        }
        if (i)
            sym_assume(slt(p + (i - 1) * wc, wc, p + i * wc, wc));
    }
    int64_t q = -1;
    if (n >= 10)
    {
        q = probeAt(n, sym_choose("probe", 0, NPROBE - 1));
        if (q < 0 || q >= n)
            return;
        str(x + q * w, w);
    }
    if (sym_arg(4))
        rt_share(1, 2);
    PyObject * r = rt_call("BinsToCutsBSearch", 3, A0(a), A0(c), rt_int(0));
    sym_assert(r != nullptr, "returned");
    if (!r)
        return;
    sym_reach("end");
    sym_assert(rt_type(r) == NPY_INT8 && rt_len(r) == n, "a bin for every value");
    bool rest = true;
    for (int64_t i = 0; i < n; i++)
    {
        char * s = x + i * w;
        int64_t b = D<int8_t>(r)[i];
        bool out = (s[0] == 0) | slt(s, w, p, wc) | slt(p + (nb - 1) * wc, wc, s, w);
        bool in = (b >= 1) & (b <= (nb > 1 ? nb - 1 : 1));
        if (in)
        {
            int64_t k = sym_concretize(b);
            in = nb == 1 ? true : !slt(p + k * wc, wc, s, w);
            in &= k == 1 ? true : slt(p + (k - 1) * wc, wc, s, w);
        }
        if (i == q || n < 10)
            sym_assert(out ? b == 0 : in, "bin between the neighbouring cuts");
        else
            rest &= out ? b == 0 : in;
    }
    sym_assert(rest, "bins of the other values");
}
// dtype, index bits, values, cuts, arrangement, cuts at integers or float32 values
extern "C" void c21sorted()
{
    int dt = sym_arg(0), bits = sym_arg(1);
    int64_t n = sym_arg(2), nb = sym_arg(3);
    int perm = sym_arg(4);
    forType(dt,
            [&]<typename T>()
            {
                PyArrayObject *a = rt_array(dt, n), *index = rt_array(bits == 32 ? NPY_INT32 : NPY_INT64, n), *c = rt_array(NPY_FLOAT64, nb);
                T * x = D<T>(a);
                double * p = D<double>(c);
                symFill(x, n, "a");
                if (sym_arg(5)) // cuts at integers or float32 values
                {
                    using Z = std::conditional_t<std::is_floating_point_v<T>, float, int32_t>;
                    PyArrayObject * z = rt_array(std::is_floating_point_v<T> ? NPY_FLOAT32 : NPY_INT32, nb);
                    cuts<Z>(z, nb, true);
                    for (int64_t i = 0; i < nb; i++)
                        p[i] = D<Z>(z)[i];
                }
                else if (nb < 10)
                    cuts<double>(c, nb, true);
                else
                    for (int64_t i = 0; i < nb; i++)
                        p[i] = i;
                if (nb > 10) // near the ends, or two near the middle
                    for (int64_t i = 0; i < n; i++)
                    {
                        T m = (T)(i < 2 ? nb / 2 : 2);
                        sym_assume(isInvalid(x[i]) | (!(x[i] < m - 2) & !(x[i] > m + 2)) | (i > 1 ? x[i] > (T)(nb - 3) : false));
                    }
                int64_t * row = (int64_t *)malloc(n * 8 + 8);
                int64_t nan = 0, inf = 0, ninf = 0;
                for (int64_t i = 0; i < n; i++)
                {
                    row[i] = perm == 0 ? i : perm == 1 ? n - 1 - i : (i * 7 + 2) % n;
                    if (bits == 32)
                        D<int32_t>(index)[i] = row[i];
                    else
                        D<int64_t>(index)[i] = row[i];
                    if (i)
                    {
                        T u = x[row[i - 1]], v = x[row[i]];
                        bool asc = u <= v;
                        if constexpr (std::is_floating_point_v<T>)
                            asc |= v != v;
                        sym_assume(asc);
                    }
                    T v = x[row[i]];
                    if constexpr (std::is_floating_point_v<T>)
                    {
                        nan += sym_concretize(v != v);
                        inf += sym_concretize(v == INFINITY);
                        ninf += sym_concretize(v == -INFINITY);
                    }
                    else if (std::is_signed_v<T>)
                        ninf += sym_concretize(isInvalid(v));
                    else
                        inf += sym_concretize(isInvalid(v));
                }
                PyObject * counts = rt_call("NanInfCountFromSort", 2, A0(a), A0(index));
                sym_assert(counts != nullptr, "counts returned");
                if (!counts)
                    return;
                sym_assert(rt_asint(rt_item(counts, 0)) == nan && rt_asint(rt_item(counts, 1)) == inf && rt_asint(rt_item(counts, 2)) == ninf,
                           "NaN, inf and -inf counted");
                PyObject * r = rt_call("BinsToCutsSorted", 5, A0(a), A0(c), A0(index), rt_tuple(3, rt_int(nan), rt_int(inf), rt_int(ninf)), rt_int(1));
                sym_assert(r != nullptr, "returned");
                if (!r)
                    return;
                sym_reach("end");
                sym_assert(rt_isarray(r) && rt_type(r) == binType(nb) && rt_len(r) == n, "a bin for every value");
                for (int64_t i = 0; i < n; i++)
                {
                    T v = x[i];
                    int64_t b = getBin(r, i);
                    bool bad = isInvalid(v) | !isFinite(v);
                    bool out = lt(v, p[0]) | lt(p[nb - 1], v) | (nb == 1);
                    // one more than the bin of the binary search, whose bin 0 is 1
                    sym_assert(bad ? b == 0 : out ? b == 1 : b >= 2 && right(b - 1, v, p, nb, 0), "bin between the neighbouring cuts");
                }
            });
}
// declined: 0 no cuts, 1 strided cuts, 2 dtype of cuts, 3 unicode, 4 strings with mode 1, 5 sorted: no cuts, 6 strided values, 7 strided index, 8 float32 cuts,
// 9 counts beyond the values, 10 negative counts, 11 short index, 12 index dtype, 13 counts of arrays of different length
extern "C" void c21bad()
{
    int k = sym_arg(0);
    PyObject *a = A0(rt_array(NPY_INT32, 4)), *c = A0(rt_array(NPY_FLOAT64, k == 0 || k == 5 ? 0 : 3)), *ix = A0(rt_array(k == 12 ? NPY_INT16 : NPY_INT32, k == 11 || k == 13 ? 3 : 4)), *r;
    if (k == 1)
        c = A0(rt_array_strided(NPY_FLOAT64, 3, 16));
    if (k == 2)
        c = A0(rt_array(NPY_UINT8, 3));
    if (k == 3 || k == 4)
    {
        a = A0(rt_array(k == 3 ? NPY_UNICODE : NPY_STRING, 2, 8));
        c = A0(rt_array(k == 3 ? NPY_UNICODE : NPY_STRING, 2, 8));
    }
    if (k == 6)
        a = A0(rt_array_strided(NPY_INT32, 4, 8));
    if (k == 7)
        ix = A0(rt_array_strided(NPY_INT32, 4, 8));
    if (k == 8)
        c = A0(rt_array(NPY_FLOAT32, 3));
    int64_t cnt[3] = { 0, 0, 0 };
    if (k == 9 || k == 10)
    {
        sym_make(cnt, 8, 3, "n");
        bool neg = (cnt[0] < 0) | (cnt[1] < 0) | (cnt[2] < 0);
        if (k == 10)
            sym_assume(neg);
        else
            sym_assume(!neg & ((cnt[0] > 4) | (cnt[1] > 4) | (cnt[2] > 4) | ((cnt[0] & 7) + (cnt[1] & 7) + (cnt[2] & 7) > 4)));
        for (int i = 0; i < 3; i++)
            cnt[i] = sym_choose("n", 0, 1) ? cnt[i] : cnt[i];
    }
    if (k < 5)
        r = rt_call("BinsToCutsBSearch", 3, a, c, rt_int(k == 4));
    else if (k == 13)
        r = rt_call("NanInfCountFromSort", 2, a, ix);
    else
        r = rt_call("BinsToCutsSorted", 5, a, c, ix, rt_tuple(3, rt_int(cnt[0]), rt_int(cnt[1]), rt_int(cnt[2])), rt_int(1));
    sym_assert(!r && rt_error(), "declined with an error");
    sym_reach("end");
}
