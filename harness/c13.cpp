// C13: order based functions by group through GroupByAllPack32.
#include "h.h"
enum
{
    FIRST = 100,
    NTH,
    LAST,
    MEDIAN,
    MODE,
    QUANTILE = 106,
    RSUM = 200,
    RNANSUM,
    RDIFF,
    RSHIFT,
    RCOUNT,
    RMEAN,
    RNANMEAN
};
static bool sums(int func)
{
    return func == RSUM || func == RNANSUM || func == RMEAN || func == RNANMEAN;
}
static int outType(int func, int dt)
{
    bool isF = dt == NPY_FLOAT32 || dt == NPY_FLOAT64;
    if (func == QUANTILE)
        return dt == NPY_BOOL || dt == NPY_FLOAT32 ? dt : NPY_FLOAT64;
    if (func == RCOUNT)
        return NPY_INT32;
    if (func == RMEAN || func == RNANMEAN)
        return NPY_FLOAT64;
    if (func == RSUM || func == RNANSUM)
        return isF ? dt : NPY_INT64;
    return dt;
}
template <typename T>
static void value(T * p, int func)
{
    const bool isF = std::is_floating_point_v<T>, boolean = std::is_same_v<T, bool>;
    if (sums(func))
    {
        bool nan = func == RNANSUM || func == RNANMEAN;
        int kind = boolean ? 0 : sym_choose("kind", 0, isF ? 2 : nan ? 1 : 0);
        if (kind)
        {
            *p = kind == 1 ? invalidOf<T>() : (T)INFINITY;
            return;
        }
        int8_t k;
        sym_make(&k, 1, 1, "k");
        if (boolean)
            k &= 1;
        else if (!std::is_signed_v<T>)
            k &= 127;
        else if (sizeof(T) == 1)
            k &= 63;
        *p = (T)k;
        return;
    }
    symFill(p, 1, "x");
    if ((func == MEDIAN || func == MODE) && !isF && !boolean)
        sym_assume(!isInvalid(*p));
}
// rows: the values of the rows of the bin, in order
template <typename T, typename U>
static U one(int func, const T * v, int64_t m, int64_t param)
{
    if (func <= LAST)
    {
        int64_t k = func == FIRST ? 0 : func == LAST ? m - 1 : param >= 0 ? param : m + param;
        return k >= 0 && k < m ? (U)v[k] : invalidOf<U>();
    }
    // the rest works on the valid values in ascending order
    T s[8];
    int64_t n = 0;
    bool nanq = param > 1000000000;
    for (int64_t i = 0; i < m; i++)
    {
        if (func == QUANTILE ? isInvalid(v[i]) : isNan(v[i]))
        {
            if (func == QUANTILE && !nanq)
                return invalidOf<U>();
            continue;
        }
        int64_t k = n++;
        for (; k > 0 && v[i] < s[k - 1]; k--)
            s[k] = s[k - 1];
        s[k] = v[i];
    }
    if (!n)
        return invalidOf<U>();
    if (func == MODE)
    {
        int64_t best = 0;
        T r = s[0];
        for (int64_t i = 0; i < n; i++)
        {
            int64_t c = 0;
            for (int64_t k = 0; k < n; k++)
                if (s[k] == s[i])
                    c++;
            if (c > best)
            {
                best = c;
                r = s[i];
            }
        }
        return (U)r;
    }
    if (func == MEDIAN)
    {
        if (n & 1)
            return (U)s[n / 2];
        T a = s[n / 2], b = s[n / 2 - 1];
        if constexpr (std::is_same_v<T, bool>)
            return (U)(a | b);
        else if constexpr (std::is_floating_point_v<T>)
            return (U)((a + b) / (T)2);
        else
            return (U)(((__int128)a + (__int128)b) / 2);
    }
    double f = (double)(n - 1) * ((double)(nanq ? param - 1000000001 : param) / 1e9);
    int64_t up = (int64_t)ceil(f), down = (int64_t)floor(f);
    if (up == down)
        return (U)s[up];
    if constexpr (std::is_same_v<T, bool>)
        return (U)(s[up] | s[down]);
    else if constexpr (std::is_same_v<T, float>)
        return (U)((s[up] + s[down]) / 2.0f);
    else
        return (U)(((double)s[up] + (double)s[down]) / 2.0);
}
template <typename T, typename U>
static U window(int func, const T * v, int64_t m, int64_t i, int64_t w)
{
    if (func == RSHIFT || func == RDIFF)
    {
        bool in = w >= 0 ? i >= w : w >= i - m + 1;
        if (!in)
            return invalidOf<U>();
        return func == RSHIFT ? (U)v[i - w] : (U)((U)v[i] - (U)v[i - w]);
    }
    if (func == RCOUNT)
        return (U)(w >= 0 ? i : m - 1 - i);
    bool nan = func == RNANSUM || func == RNANMEAN;
    double s = 0;
    int64_t c = 0, lo = i + 1 - w < 0 || w > m ? 0 : i + 1 - w;
    int64_t is = 0;
    for (int64_t k = lo; k <= i; k++)
    {
        if (nan && isInvalid(v[k]))
            continue;
        s += (double)v[k];
        is += std::is_floating_point_v<T> ? 0 : (int64_t)v[k];
        c++;
    }
    if (func == RSUM || func == RNANSUM)
        return std::is_floating_point_v<T> ? (U)s : (U)is;
    if (!c)
        return invalidOf<U>();
    return (U)(s / (double)c);
}
template <typename U>
static bool equal(U a, U b)
{
    return (isNan(a) & isNan(b)) | (a == b);
}
struct Groups
{
    PyArrayObject *key, *group, *first, *count;
    int64_t bin[8], cnt[8], row[8][8];
};
static void groups(Groups & g, int gt, int64_t n, int64_t nu, int gl)
{
    for (int b = 0; b < 8; b++)
        g.cnt[b] = 0;
    int is = gt == NPY_INT32 ? 4 : 8;
    g.key = rt_array(NPY_INT8, n);
    g.group = rt_array_strided(gt, n, gl * is);
    g.first = rt_array(gt, nu + 1);
    g.count = rt_array(gt, nu + 1);
    for (int64_t i = 0; i < n; i++)
    {
        int64_t b = sym_choose("bin", 0, nu);
        g.bin[i] = b;
        D<int8_t>(g.key)[i] = b;
        g.row[b][g.cnt[b]++] = i;
    }
    forType(gt,
            [&]<typename V>()
            {
                int64_t at0 = 0;
                for (int64_t b = 0; b <= nu; b++)
                {
                    D<V>(g.first)[b] = at0;
                    D<V>(g.count)[b] = g.cnt[b];
                    for (int64_t k = 0; k < g.cnt[b]; k++)
                        at<V>(g.group, at0++) = g.row[b][k];
                }
            });
}
static PyObject * call(PyObject * list, Groups & g, int64_t nu, PyObject * fn, PyObject * bl, PyObject * bh, int64_t param)
{
    return rt_call("GroupByAllPack32", 10, list, A0(g.key), A0(g.group), A0(g.first), A0(g.count), rt_int(nu), fn, bl, bh, rt_int(param));
}
template <typename T>
static void compare(PyObject * y, int func, int dt, const T * x, Groups & g, int64_t n, int64_t nu, int64_t lo, int64_t param)
{
    int ot = outType(func, dt);
    sym_assert(sameType(rt_type(y), ot), "result dtype");
    sym_assert(rt_len(y) == (func >= RSUM ? n : nu + 1), "length of the result");
    forType(ot,
            [&]<typename U>()
            {
                for (int64_t b = lo; b <= nu; b++)
                {
                    T v[8];
                    int64_t m = g.cnt[b];
                    for (int64_t k = 0; k < m; k++)
                        v[k] = x[g.row[b][k]];
                    if (func < RSUM)
                    {
                        U got = D<U>(y)[b], want = one<T, U>(func, v, m, param);
                        if (func <= LAST)
                            sym_assert(sameVal(got, want), "the element of the bin");
                        else
                            sym_assert(equal(got, want), "the order statistic of the bin's own rows");
                    }
                    else
                        for (int64_t k = 0; k < m; k++)
                        {
                            U got = D<U>(y)[g.row[b][k]], want = b ? window<T, U>(func, v, m, k, param) : invalidOf<U>();
                            sym_assert(equal(got, want), "the window of the bin's own rows");
                        }
                }
            });
}
// func, dtype, group dtype, n, uniques, binLow, param, layout of values, stride of the group index, second func or -1
extern "C" void c13()
{
    int func = sym_arg(0), dt = sym_arg(1), gt = sym_arg(2);
    int64_t n = sym_arg(3), nu = sym_arg(4), lo = sym_arg(5), param = sym_arg(6);
    int vl = sym_arg(7), gl = sym_arg(8), f2 = sym_arg(9);
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, vl, "x", 3, 0);
                Groups g;
                groups(g, gt, n, nu, gl);
                for (int64_t i = 0; i < n; i++)
                    value<T>(&a.row(i), func);
                T * x = a.rows();
                int cols = f2 >= 0 ? 2 : 1;
                PyArrayObject * c2 = nullptr;
                PyObject * list = PyList_New(cols), * fn = PyList_New(cols), * bl = PyList_New(cols), * bh = PyList_New(cols);
                PyList_SetItem(list, 0, A0(a.a));
                PyList_SetItem(fn, 0, rt_int(func));
                PyList_SetItem(bl, 0, rt_int(lo));
                PyList_SetItem(bh, 0, rt_int(nu + 1));
                if (f2 >= 0)
                {
                    c2 = rt_array(NPY_INT32, n);
                    for (int64_t i = 0; i < n; i++)
                        value<int32_t>(D<int32_t>(c2) + i, f2);
                    PyList_SetItem(list, 1, A0(c2));
                    PyList_SetItem(fn, 1, rt_int(f2));
                    PyList_SetItem(bl, 1, rt_int(0));
                    PyList_SetItem(bh, 1, rt_int(nu + 1));
                }
                PyObject * res = call(list, g, nu, fn, bl, bh, param);
                if (!res)
                {
                    sym_assert(rt_error() != nullptr && (vl != 1 || gl != 1 || (sums(func) && param < 0)), "declined with an error");
                    sym_reach("declined");
                    rt_clear();
                    return;
                }
                compare<T>(rt_item(res, 0), func, dt, x, g, n, nu, lo, param);
                if (f2 >= 0)
                    compare<int32_t>(rt_item(res, 1), f2, NPY_INT32, D<int32_t>(c2), g, n, nu, 0, param);
                sym_reach("end");
            });
}
// strings and other items of fixed width: func, dtype, width, group dtype, n, uniques, param
extern "C" void c13_items()
{
    int func = sym_arg(0), dt = sym_arg(1), w = sym_arg(2), gt = sym_arg(3);
    int64_t n = sym_arg(4), nu = sym_arg(5), param = sym_arg(6);
    PyArrayObject * a = rt_array(dt, n, w);
    Groups g;
    groups(g, gt, n, nu, 1);
    char * x = (char *)PyArray_DATA(a);
    for (int64_t i = 0; i < n * w; i++)
        sym_make(x + i, 1, 1, "c");
    PyObject * res = call(rt_list(1, A0(a)), g, nu, rt_list(1, rt_int(func)), rt_list(1, rt_int(0)), rt_list(1, rt_int(nu + 1)), param);
    sym_assert(res != nullptr, "accepted");
    if (!res)
        return;
    PyObject * y = rt_item(res, 0);
    sym_assert(rt_type(y) == dt && PyArray_ITEMSIZE((PyArrayObject *)y) == w && rt_len(y) == (func >= RSUM ? n : nu + 1), "shape of the result");
    const char * d = D<char>(y);
    for (int64_t b = 0; b <= nu; b++)
        for (int64_t i = 0; i < (func >= RSUM ? g.cnt[b] : 1); i++)
        {
            int64_t m = g.cnt[b], k = func == FIRST ? 0 : func == LAST ? m - 1 : func == NTH ? (param >= 0 ? param : m + param) : b == 0 ? -1 : i - param;
            const char * p = d + (func >= RSUM ? g.row[b][i] : b) * w;
            bool in = k >= 0 && k < m;
            for (int c = 0; c < w; c++)
                sym_assert(p[c] == (in ? x[g.row[b][k] * w + c] : 0), "the item of the bin");
        }
    sym_reach("end");
}
// many rows: the bins are split over the workers. func, dtype, group dtype, n, uniques, param, blocks taken by a worker
extern "C" void c13_bands()
{
    int func = sym_arg(0), dt = sym_arg(1), gt = sym_arg(2);
    int64_t n = sym_arg(3), nu = sym_arg(4), param = sym_arg(5), blocks = sym_arg(6);
    if (blocks)
        rt_share(1, blocks);
    forType(dt,
            [&]<typename T>()
            {
                // the last rows are those of bins 1 to nu, two each, all others are in bin 0
                PyArrayObject * a = rt_array(dt, n), * key = rt_array(NPY_INT8, n), * group = rt_array(gt, n), * first = rt_array(gt, nu + 1), * count = rt_array(gt, nu + 1);
                T * x = D<T>(a);
                int64_t z = n - 2 * nu;
                memset(PyArray_DATA(key), 0, n);
                T v[16];
                for (int64_t i = 0; i < n; i++)
                    x[i] = (T)1;
                for (int64_t k = 0; k < 2 * nu; k++)
                    x[z + k] = (T)(k % 5 + 1);
                int64_t pb = sym_choose("bin", 1, nu);
                value<T>(x + z + 2 * pb - 2, func);
                value<T>(x + z + 2 * pb - 1, func);
                for (int64_t k = 0; k < 2 * nu; k++)
                    v[k] = x[z + k];
                forType(gt,
                        [&]<typename V>()
                        {
                            for (int64_t i = 0; i < n; i++)
                                D<V>(group)[i] = i;
                            D<V>(first)[0] = 0;
                            D<V>(count)[0] = z;
                            for (int64_t b = 1; b <= nu; b++)
                            {
                                D<V>(first)[b] = z + 2 * b - 2;
                                D<V>(count)[b] = 2;
                            }
                        });
                PyObject * res = rt_call("GroupByAllPack32", 10, rt_list(1, A0(a)), A0(key), A0(group), A0(first), A0(count), rt_int(nu), rt_list(1, rt_int(func)),
                                         rt_list(1, rt_int(1)), rt_list(1, rt_int(nu + 1)), rt_int(param));
                sym_assert(res != nullptr, "accepted");
                if (!res)
                    return;
                PyObject * y = rt_item(res, 0);
                int ot = outType(func, dt);
                sym_assert(sameType(rt_type(y), ot) && rt_len(y) == nu + 1, "shape of the result");
                forType(ot,
                        [&]<typename U>()
                        {
                            for (int64_t b = 1; b <= nu; b++)
                                sym_assert(equal(D<U>(y)[b], one<T, U>(func, v + 2 * b - 2, 2, param)), "the order statistic of the bin's own rows");
                        });
                sym_reach("end");
            });
}
