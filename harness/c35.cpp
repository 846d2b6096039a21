// C35: fixed-width strings: concatenation and trimming.
#include "h.h"
// characters up to the first null of an item of w characters
template <typename C>
static int64_t slen(const C * p, int64_t w)
{
    int64_t k = 0;
    while (k < w && p[k])
        k++;
    return k;
}
template <typename C>
static void symChars(C * p, int64_t n)
{
    sym_make(p, sizeof(C), n, "s");
}
// an array of n strings of w characters with the given byte distance; symbolic characters in the first items
template <typename C>
static PyArrayObject * strs(int dt, int64_t n, int64_t w, int64_t stride, int64_t full, int seed)
{
    int64_t es = w * sizeof(C);
    int64_t step = stride < 0 ? -stride : stride;
    char * buf = (char *)malloc(step * (n ? n - 1 : 0) + es + 1);
    char * b0 = stride < 0 ? buf + step * (n - 1) : buf;
    for (int64_t i = 0; i < step * (n ? n - 1 : 0) + es; i++)
        buf[i] = 'A' + (i + seed) % 26;
    for (int64_t i = 0; i < n; i++)
    {
        C * p = (C *)(b0 + i * stride);
        int64_t k = (i * 3 + seed) % (w + 1);
        for (int64_t j = 0; j < w; j++)
            p[j] = j < k ? (C)('a' + (i + j) % 26) : (C)0;
        bool probe = i < full;
        for (int q = 0; q < NPROBE && n > full; q++)
            probe |= probeAt(n, q) == i;
        if (probe)
            symChars<C>(p, w);
    }
    npy_intp d[1] = { n }, s[1] = { stride };
    return rt_view(dt, 1, d, s, buf + (b0 - buf), es);
}
template <typename C>
static void concat(int dt, int64_t n1, int64_t w1, int64_t n2, int64_t w2, int mode, int64_t f1, int64_t f2)
{
    int64_t n = n1 > n2 ? n1 : n2;
    PyArrayObject * a = nullptr, * b = nullptr;
    PyObject * o1, * o2;
    C * c1 = nullptr, * c2 = nullptr;
    int64_t m1 = n1, m2 = n2;
    if (mode == 1 || mode == 2)
    { // a Python scalar of exactly w characters, none of them null
        int64_t w = mode == 1 ? w1 : w2;
        char t[64];
        for (int64_t i = 0; i < w; i++)
            t[i] = 'p' + i % 9;
        t[w] = 0;
        PyObject * o = dt == 18 ? rt_bytes(t, w) : rt_str(t);
        C * c = (C *)calloc(w + 1, sizeof(C));
        for (int64_t i = 0; i < w; i++)
            c[i] = t[i];
        if (mode == 1)
        {
            o1 = o;
            c1 = c;
            m1 = 0;
            n = n2;
        }
        else
        {
            o2 = o;
            c2 = c;
            m2 = 0;
            n = n1;
        }
    }
    int64_t k1 = mode == 3 ? -1 : mode == 4 ? 2 : 1, k2 = mode == 5 ? -1 : mode == 6 ? 2 : 1;
    if (!c1)
    {
        a = strs<C>(dt, n1, w1, k1 * w1 * (int64_t)sizeof(C), f1, 1);
        o1 = A0(a);
        c1 = (C *)calloc(n1 * w1 + 1, sizeof(C));
        for (int64_t i = 0; i < n1; i++)
            memcpy(c1 + i * w1, PyArray_BYTES(a) + i * PyArray_STRIDE(a, 0), w1 * sizeof(C));
    }
    if (!c2)
    {
        b = strs<C>(dt, n2, w2, k2 * w2 * (int64_t)sizeof(C), f2, 2);
        o2 = A0(b);
        c2 = (C *)calloc(n2 * w2 + 1, sizeof(C));
        for (int64_t i = 0; i < n2; i++)
            memcpy(c2 + i * w2, PyArray_BYTES(b) + i * PyArray_STRIDE(b, 0), w2 * sizeof(C));
    }
    PyObject * r = rt_call("BasicMathTwoInputs", 3, rt_tuple(2, o1, o2), rt_int(1), rt_int(dt));
    if (!r || r == Py_None)
    {
        sym_assert(r || rt_error() != nullptr, "declined");
        sym_assert(mode >= 3 || n1 != n2, "contiguous arrays of one length and scalars are handled");
        sym_reach("declined");
        return;
    }
    sym_reach("end");
    sym_assert(n1 == n2 || n1 == 1 || n2 == 1 || mode == 1 || mode == 2, "lengths that do not match are declined");
    sym_assert(rt_type(r) == dt && rt_len(r) == n && PyArray_ITEMSIZE((PyArrayObject *)r) == (w1 + w2) * (int64_t)sizeof(C), "dtype, length and width");
    C * z = D<C>(r);
    for (int64_t i = 0; i < n; i++)
    {
        C * p = c1 + (m1 <= 1 ? 0 : i * w1), * q = c2 + (m2 <= 1 ? 0 : i * w2);
        int64_t k = sym_concretize(slen(p, w1)), l = sym_concretize(slen(q, w2));
        int ok = 1;
        for (int64_t j = 0; j < w1 + w2; j++)
            ok &= z[i * (w1 + w2) + j] == (j < k ? p[j] : j < k + l ? q[j - k] : (C)0);
        sym_assert(ok, "both strings in order");
    }
    for (int64_t i = 0; a && i < n1; i++)
        sym_assert(!memcmp(c1 + i * w1, PyArray_BYTES(a) + i * PyArray_STRIDE(a, 0), w1 * sizeof(C)), "first argument unchanged");
    for (int64_t i = 0; b && i < n2; i++)
        sym_assert(!memcmp(c2 + i * w2, PyArray_BYTES(b) + i * PyArray_STRIDE(b, 0), w2 * sizeof(C)), "second argument unchanged");
}
// dtype, n1, w1, n2, w2, mode (1: the first is a scalar, 2: the second, 3..6: reversed and strided arrays), symbolic items of each
extern "C" void c35add()
{
    int dt = sym_arg(0);
    if (dt == 18)
        concat<uint8_t>(dt, sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4), sym_arg(5), sym_arg(6), sym_arg(7));
    else
        concat<uint32_t>(dt, sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4), sym_arg(5), sym_arg(6), sym_arg(7));
}
template <typename C>
static void trim(int dt, int64_t n, int64_t w, int64_t k, int64_t full)
{
    PyArrayObject * a = strs<C>(dt, n, w, k * w * (int64_t)sizeof(C), full, 1);
    int64_t st = PyArray_STRIDE(a, 0), tot = (n - 1) * (st < 0 ? -st : st) + w * sizeof(C);
    char * lo = PyArray_BYTES(a) + (st < 0 ? (n - 1) * st : 0);
    char * was = (char *)malloc(tot + 1);
    memcpy(was, lo, n ? tot : 0);
    C * c = (C *)calloc(n * w + 1, sizeof(C));
    for (int64_t i = 0; i < n; i++)
        memcpy(c + i * w, PyArray_BYTES(a) + i * st, w * sizeof(C));
    PyObject * r = rt_call("RemoveTrailingSpaces", 1, A0(a));
    if (!r)
    {
        sym_assert(rt_error() != nullptr, "declined with an error");
        sym_assert(k != 1, "contiguous arrays are handled");
        sym_assert(!memcmp(lo, was, n ? tot : 0), "declined: array unchanged");
        sym_reach("declined");
        return;
    }
    sym_reach("end");
    sym_assert(r == A0(a), "the array itself");
    for (int64_t i = 0; i < n; i++)
    {
        C * p = c + i * w, * z = (C *)(PyArray_BYTES(a) + i * st);
        // keep[j]: some character at or after j is neither a space nor null
        int keep = 0, ok = 1;
        for (int64_t j = w; j-- > 0;)
        {
            keep |= (p[j] != ' ') & (p[j] != 0);
            ok &= z[j] == (C)sel<uint32_t>(keep, p[j], 0);
        }
        sym_assert(ok, "trailing spaces removed");
    }
}
// dtype, n, w, stride in items, symbolic items
extern "C" void c35trim()
{
    int dt = sym_arg(0);
    if (dt == 18)
        trim<uint8_t>(dt, sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4));
    else
        trim<uint32_t>(dt, sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4));
}
// two dimensions: dtype, rows, columns, layout (0 row-major, 1 column-major, 2 every second column), whether the second is a scalar
extern "C" void c35add2()
{
    int dt = sym_arg(0);
    int64_t d0 = sym_arg(1), d1 = sym_arg(2);
    int layout = sym_arg(3), scal = sym_arg(4), es = dt == 18 ? 2 : 8;
    char * buf = (char *)calloc(d0 * d1 * 2, es);
    symFill((uint8_t *)buf, 1, "s");
    for (int64_t i = 1; i < d0 * d1 * 2; i++)
        buf[i * es] = 'a' + i;
    npy_intp d[2] = { d0, d1 }, s[2] = { d1 * es, es };
    if (layout == 1)
    {
        s[0] = es;
        s[1] = d0 * es;
    }
    if (layout == 2)
    {
        s[0] = 2 * d1 * es;
        s[1] = 2 * es;
    }
    PyArrayObject * a = rt_view(dt, 2, d, s, buf, es);
    PyObject * o2 = !scal ? A0(a) : dt == 18 ? rt_bytes("x", 1) : rt_str("x");
    PyObject * r = rt_call("BasicMathTwoInputs", 3, rt_tuple(2, A0(a), o2), rt_int(1), rt_int(dt));
    if (!r || r == Py_None)
    {
        sym_assert(r || rt_error() != nullptr, "declined");
        sym_reach("declined");
        return;
    }
    PyArrayObject * q = (PyArrayObject *)r;
    sym_assert(PyArray_NDIM(q) == 2 && PyArray_DIM(q, 0) == d0 && PyArray_DIM(q, 1) == d1, "shape");
    int ow = scal ? es + es / 2 : es * 2, cw = es / 2;
    for (int64_t i = 0; i < d0; i++)
        for (int64_t j = 0; j < d1; j++)
        {
            char * z = PyArray_BYTES(q) + i * PyArray_STRIDE(q, 0) + j * PyArray_STRIDE(q, 1), * p = buf + i * s[0] + j * s[1];
            int k = p[0] != 0;
            sym_assert(PyArray_ITEMSIZE(q) == ow && (!k || z[0] == p[0]) && z[k * cw] == (scal ? 'x' : p[0]), "both strings in order");
        }
}
