// C18: SetItem with a boolean mask, and PutMask.
#include "h.h"
static void shapeMask(Shaped<bool> & m, int mode)
{
    if (mode == 0)
    {
        for (int64_t i = 0; i < m.d0; i++)
            for (int64_t j = 0; j < m.d1; j++)
                sym_concretize(m.at(i, j));
        return;
    }
    for (int64_t i = 0; i < m.d0; i++)
        for (int64_t j = 0; j < m.d1; j++)
            m.at(i, j) = mode == 1 ? pat<bool>(i * m.d1 + j, 3) : mode == 3;
    int64_t n = m.n;
    int64_t k = sym_choose("probe", 0, n <= 64 ? n - 1 : 2);
    int64_t p = n <= 64 ? k : k == 0 ? 0x3fff : k == 1 ? n - 1 : 0x7fff;
    if (p >= n || p < 0)
        return;
    for (int k = 0; k < 2; k++)
    {
        symFill(&m.at(p / m.d1, p % m.d1), 1, "m");
        sym_concretize(m.at(p / m.d1, p % m.d1));
        p = (p + 1) % n;
    }
}
// dtype, n, array layout, mask layout, values layout, mask mode, extra values (values = true entries + extra), worker blocks
extern "C" void c18set()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int al = sym_arg(2), ml = sym_arg(3), vl = sym_arg(4), mode = sym_arg(5), extra = sym_arg(6);
    if (sym_arg(7))
        rt_share(1, sym_arg(7));
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, al, "a", 3, 40);
                Shaped<bool> m(NPY_BOOL, n, ml, "m", 3, mode ? 0 : 600);
                shapeMask(m, mode);
                n = a.n;
                int64_t cnt = 0;
                for (int64_t i = 0; i < n; i++)
                    cnt += sym_concretize(m.row(i));
                int64_t nv = extra == 100 ? 1 : cnt + extra;
                if (nv < 0)
                    nv = 0;
                Shaped<T> v(dt, nv, vl, "v", 5, 40);
                T * x = a.rows(), * w = v.rows();
                bool * b = m.rows();
                PyObject * r = rt_call("SetItem", 3, A0(a.a), A0(m.a), A0(v.a));
                if (!r)
                    sym_assert(rt_error() != nullptr, "an exception is set");
                bool did = r == Py_True;
                sym_assert(!r || r == Py_True || r == Py_False, "returns a bool");
                if (did)
                {
                    sym_assert(nv == cnt || nv == 1, "done only with one value or one per true entry");
                    sym_reach("end");
                }
                else
                {
                    sym_reach("declined");
                    if (al == 1 && ml == 1 && vl == 1 && nv == cnt && cnt > 0)
                        sym_assert(0, "matching contiguous arrays are handled");
                }
                int64_t o = 0;
                int ok = 1;
                for (int64_t i = 0; i < n; i++)
                {
                    T e = x[i];
                    if (did && b[i])
                        e = w[nv == 1 && nv != cnt ? 0 : o++];
                    ok &= same<T>(a.row(i), e);
                }
                sym_assert(ok, "exactly the addressed elements change");
                ok = 1;
                for (int64_t i = 0; i < n; i++)
                    ok &= m.row(i) == b[i];
                for (int64_t i = 0; i < nv; i++)
                    ok &= same<T>(v.row(i), w[i]);
                sym_assert(ok, "mask and values unchanged");
            });
}
// string items: item size, n, mask mode
extern "C" void c18item()
{
    int64_t sz = sym_arg(0), n = sym_arg(1);
    int mode = sym_arg(2);
    PyArrayObject * a = rt_array(18, n, sz);
    char * x = PyArray_BYTES(a);
    for (int64_t i = 0; i < n * sz; i++)
        x[i] = 1 + i * 31 % 100;
    for (int64_t i = 0; i < n && i < 8; i++)
        symFill((uint8_t *)x + i * sz, 1, "a");
    Shaped<bool> m(NPY_BOOL, n, 1, "m", 3, mode ? 0 : 600);
    shapeMask(m, mode);
    int64_t cnt = 0;
    for (int64_t i = 0; i < n; i++)
        cnt += sym_concretize(m.row(i));
    PyArrayObject * v = rt_array(18, cnt, sz);
    char * y = PyArray_BYTES(v);
    for (int64_t i = 0; i < cnt * sz; i++)
        y[i] = 100 + i * 13 % 27;
    for (int64_t i = 0; i < cnt && i < 8; i++)
        symFill((uint8_t *)y + i * sz + sz - 1, 1, "v");
    char * c = (char *)malloc(n * sz + 1);
    memcpy(c, x, n * sz);
    PyObject * r = rt_call("SetItem", 3, A0(a), A0(m.a), A0(v));
    sym_assert(r == (cnt ? Py_True : Py_False), "handled");
    sym_reach("end");
    int ok = 1;
    for (int64_t i = 0, o = 0; i < n; i++)
    {
        const char * e = c + i * sz;
        if (m.row(i))
            e = y + o++ * sz;
        for (int64_t k = 0; k < sz; k++)
            ok &= x[i * sz + k] == e[k];
    }
    sym_assert(ok, "exactly the addressed items change");
}
// dtype of the array, dtype of the values, n, array layout, mask layout, values layout, mask mode, worker blocks
extern "C" void c18put()
{
    int d1 = sym_arg(0), d2 = sym_arg(1);
    int64_t n = sym_arg(2);
    int al = sym_arg(3), ml = sym_arg(4), vl = sym_arg(5), mode = sym_arg(6);
    if (sym_arg(7))
        rt_share(1, sym_arg(7));
    forType(d1,
            [&]<typename T>()
            {
                forType(d2,
                        [&]<typename V>()
                        {
                            Shaped<T> a(d1, n, al, "a", 3, 40);
                            Shaped<bool> m(NPY_BOOL, n, ml, "m", 3, mode ? 0 : 600);
                            shapeMask(m, mode);
                            Shaped<V> v(d2, n, vl, "v", 5, 40);
                            n = a.n;
                            T * x = a.rows();
                            V * w = v.rows();
                            bool * b = m.rows();
                            PyObject * r = rt_call("PutMask", 3, A0(a.a), A0(m.a), A0(v.a));
                            bool did = r == Py_True;
                            sym_assert(r == Py_True || r == Py_False, "returns a bool");
                            if (did)
                                sym_reach("end");
                            else
                            {
                                sym_reach("declined");
                                sym_assert(al != 1 || ml != 1 || vl != 1, "contiguous arrays are handled");
                            }
                            for (int64_t i = 0; i < n; i++)
                                if (did && b[i])
                                {
                                    int def;
                                    T e = conv<V, T>(1, w[i], def);
                                    sym_assert(same<T>(a.row(i), e) | !def, "addressed element");
                                }
                                else
                                    sym_assert(same<T>(a.row(i), x[i]), "other element unchanged");
                            int ok = 1;
                            for (int64_t i = 0; i < n; i++)
                                ok &= (m.row(i) == b[i]) & same<V>(v.row(i), w[i]);
                            sym_assert(ok, "mask and values unchanged");
                        });
            });
}
