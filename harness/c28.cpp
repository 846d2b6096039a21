// C28: Where.
#include "h.h"
template <typename T>
static PyObject * scalar(int kind, T & v)
{
    switch (kind)
    {
    case 1:
        v = (T)100;
        return rt_int(100);
    case 2:
        v = (T)2.5;
        return rt_float(2.5);
    case 3:
        v = (T)1;
        return rt_bool(true);
    case 4:
        v = (T)-7;
        return rt_int(-7);
    default:
        v = (T)0;
        return rt_int(0);
    }
}
// dtype, n, condition layout, layout of the first choice (1000+k: a scalar), of the second, worker blocks
extern "C" void c28()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int cl = sym_arg(2), l1 = sym_arg(3), l2 = sym_arg(4);
    if (sym_arg(5))
        rt_share(1, sym_arg(5));
    forType(dt,
            [&]<typename T>()
            {
                Shaped<bool> c(NPY_BOOL, n, cl, "c", 3, 12);
                n = c.n;
                T s1 = 0, s2 = 0;
                bool a1 = l1 < 1000, a2 = l2 < 1000;
                Shaped<T> x(dt, a1 ? n : 1, a1 ? l1 : 1, "x", 3, 100), y(dt, a2 ? n : 1, a2 ? l2 : 1, "y", 5, 100);
                T * u = x.rows(), * v = y.rows();
                bool * b = c.rows();
                PyObject * o1 = A0(x.a), * o2 = A0(y.a);
                if (!a1)
                    o1 = scalar<T>(l1 - 1000, s1);
                if (!a2)
                    o2 = scalar<T>(l2 - 1000, s2);
                PyObject * r = rt_call("Where", 4, A0(c.a), rt_tuple(2, o1, o2), rt_int(dt), rt_int(sizeof(T)));
                if (!r || r == Py_None)
                {
                    sym_assert(r || rt_error() != nullptr, "declined");
                    sym_assert((cl != 1 && cl != 0) || (a1 && l1 != 1 && l1 != 0) || (a2 && l2 != 1 && l2 != 0), "contiguous arrays are handled");
                    sym_reach("declined");
                    return;
                }
                sym_reach("end");
                sym_assert(rt_isarray(r) && sameType(rt_type(r), dt) && rt_len(r) == n, "dtype and length");
                sym_assert(PyArray_NDIM((PyArrayObject *)r) == 1 && PyArray_NDIM(c.a) == 1, "one dimension");
                T * z = D<T>(r);
                for (int64_t i = 0; i < n; i++)
                {
                    T e = sel<T>(b[i], a1 ? u[i] : s1, a2 ? v[i] : s2);
                    sym_assert(same<T>(z[i], e), "the chosen element");
                }
                int ok = 1;
                for (int64_t i = 0; i < n; i++)
                {
                    ok &= c.row(i) == b[i];
                    if (a1)
                        ok &= same<T>(x.row(i), u[i]);
                    if (a2)
                        ok &= same<T>(y.row(i), v[i]);
                }
                sym_assert(ok, "inputs unchanged");
            });
}
// strings: dtype (18 bytes, 19 unicode), output item size, n, width of the first choice (negative: a scalar of -k characters), of the second
extern "C" void c28item()
{
    int dt = sym_arg(0);
    int64_t sz = sym_arg(1), n = sym_arg(2), w1 = sym_arg(3), w2 = sym_arg(4);
    if (sym_arg(5))
        rt_share(1, sym_arg(5));
    Shaped<bool> c(NPY_BOOL, n, 1, "c", 3, 12);
    int64_t w[2] = { w1, w2 };
    char * base[2];
    PyObject * o[2];
    int cw = dt == 18 ? 1 : 4;
    for (int k = 0; k < 2; k++)
    {
        if (w[k] > 0)
        {
            PyArrayObject * a = rt_array(dt, n, w[k]);
            char * p = PyArray_BYTES(a);
            for (int64_t i = 0; i < n * w[k]; i++)
                p[i] = 1 + (i * 31 + k) % 100;
            for (int64_t i = 0; i < n && i < 12; i++)
                symFill((uint8_t *)p + i * w[k] + w[k] - 1, 1, "s");
            base[k] = (char *)malloc(n * w[k] + 1);
            memcpy(base[k], p, n * w[k]);
            o[k] = A0(a);
        }
        else
        {
            char t[64];
            int64_t len = -w[k];
            for (int64_t i = 0; i < len; i++)
                t[i] = 'a' + (i + k * 5) % 26;
            t[len] = 0;
            base[k] = (char *)calloc(sz + 1, 1);
            for (int64_t i = 0; i < len && (i + 1) * cw <= sz; i++)
                base[k][i * cw] = t[i];
            o[k] = dt == 18 ? rt_bytes(t, len) : rt_str(t);
        }
    }
    PyObject * r = rt_call("Where", 4, A0(c.a), rt_tuple(2, o[0], o[1]), rt_int(dt), rt_int(sz));
    if (!r || r == Py_None)
    {
        sym_assert(r || rt_error() != nullptr, "declined");
        sym_assert((w1 > 0 && w1 != sz) || (w2 > 0 && w2 != sz), "arrays of the output width are handled");
        sym_reach("declined");
        return;
    }
    sym_reach("end");
    sym_assert(rt_type(r) == dt && rt_len(r) == n && PyArray_ITEMSIZE((PyArrayObject *)r) == sz, "dtype, width and length");
    char * z = PyArray_BYTES((PyArrayObject *)r);
    for (int64_t i = 0; i < n; i++)
    {
        int ok = 1;
        bool b = c.row(i);
        for (int64_t k = 0; k < sz; k++)
            ok &= z[i * sz + k] == (char)sel<uint8_t>(b, base[0][(w1 > 0 ? i * sz : 0) + k], base[1][(w2 > 0 ? i * sz : 0) + k]);
        sym_assert(ok, "the chosen item");
    }
}
