// C17: boolean selection (BooleanIndex), mask to indices (BooleanToFancy) and counting (BooleanSum).
#include "h.h"
// a mask: mode 0 all symbolic; mode 1 concrete background with two neighbouring symbolic entries somewhere; mode 2: mostly false; mode 3: mostly true
static void shapeMask(Shaped<bool> & m, int mode)
{
    if (mode == 0)
    {
        // one path per mask
        for (int64_t i = 0; i < m.d0; i++)
            for (int64_t j = 0; j < m.d1; j++)
                sym_concretize(m.at(i, j));
        return;
    }
    for (int64_t i = 0; i < m.d0; i++)
        for (int64_t j = 0; j < m.d1; j++)
            m.at(i, j) = mode == 1 ? pat<bool>(i * m.d1 + j, 3) : mode == 3;
    int64_t n = m.n;
    int64_t k = sym_choose("probe", 0, n <= 64 ? n - 1 : 2);
    int64_t p = n <= 64 ? k : k == 0 ? 0x3fff : k == 1 ? n - 1 : 0x7fff;
    if (p >= n || p < 0)
        return;
    for (int k = 0; k < 2; k++)
    {
        symFill(&m.at(p / m.d1, p % m.d1), 1, "m");
        sym_concretize(m.at(p / m.d1, p % m.d1));
        p = (p + 1) % n;
    }
}
// dtype, n, value layout, mask layout, mask mode, worker blocks
extern "C" void c17index()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int vl = sym_arg(2), ml = sym_arg(3), mode = sym_arg(4);
    if (sym_arg(5))
        rt_share(1, sym_arg(5));
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, vl, "a", 3, 64);
                Shaped<bool> m(NPY_BOOL, n, ml, "m", 3, mode ? 0 : 600);
                shapeMask(m, mode);
                n = a.n;
                T * x = a.rows();
                bool * b = m.rows();
                PyObject * r = rt_call("BooleanIndex", 2, A0(a.a), A0(m.a));
                if (!r)
                {
                    sym_assert(rt_error() != nullptr, "declined with an error");
                    sym_assert(vl >= 100 || ml >= 100, "one-dimensional arrays are not declined");
                    sym_reach("declined");
                    return;
                }
                sym_reach("end");
                // the path has decided every mask entry
                int64_t cnt = 0;
                for (int64_t i = 0; i < n; i++)
                    cnt += sym_concretize(b[i]);
                sym_assert(rt_isarray(r) && rt_type(r) == dt, "dtype");
                sym_assert(rt_len(r) == cnt, "number of selected elements");
                int64_t o = 0;
                int ok = 1;
                for (int64_t i = 0; i < n; i++)
                    if (b[i])
                        ok &= same<T>(at<T>(r, o), x[i]), o++;
                sym_assert(ok, "selected elements in order");
                ok = 1;
                for (int64_t i = 0; i < n; i++)
                    ok &= same<T>(a.row(i), x[i]) & (m.row(i) == b[i]);
                sym_assert(ok, "inputs unchanged");
            });
}
// fixed-width items of any size: item size, n, item stride in bytes, mask stride, mask mode, dtype (18 bytes, 19 unicode, 20 void)
extern "C" void c17item()
{
    int64_t sz = sym_arg(0), n = sym_arg(1), st = sym_arg(2);
    int ml = sym_arg(3), mode = sym_arg(4), dt = sym_arg(5);
    PyArrayObject * a = st == sz ? rt_array(dt, n, sz) : rt_array_strided(dt, n, st, sz);
    char * x = PyArray_BYTES(a);
    for (int64_t i = 0; i < n; i++)
        for (int64_t k = 0; k < sz; k++)
            x[i * st + k] = 1 + (i * 31 + k * 7) % 100;
    for (int64_t i = 0; i < n && i < 12; i++)
    {
        symFill((uint8_t *)x + i * st, 1, "a");
        symFill((uint8_t *)x + i * st + sz - 1, 1, "a");
    }
    char * c = (char *)malloc(n * sz + 1);
    for (int64_t i = 0; i < n; i++)
        memcpy(c + i * sz, x + i * st, sz);
    Shaped<bool> m(NPY_BOOL, n, ml, "m", 3, mode ? 0 : 600);
    shapeMask(m, mode);
    bool * b = m.rows();
    PyObject * r = rt_call("BooleanIndex", 2, A0(a), A0(m.a));
    sym_assert(r != nullptr, "not declined");
    if (!r)
        return;
    sym_reach("end");
    int64_t cnt = 0;
    for (int64_t i = 0; i < n; i++)
        cnt += sym_concretize(b[i]);
    sym_assert(rt_type(r) == dt && PyArray_ITEMSIZE((PyArrayObject *)r) == sz, "dtype and width");
    sym_assert(rt_len(r) == cnt, "number of selected elements");
    int64_t o = 0;
    int ok = 1;
    char * y = PyArray_BYTES((PyArrayObject *)r);
    int64_t ys = PyArray_STRIDES((PyArrayObject *)r)[0];
    for (int64_t i = 0; i < n; i++)
        if (b[i])
        {
            for (int64_t k = 0; k < sz; k++)
                ok &= y[o * ys + k] == c[i * sz + k];
            o++;
        }
    sym_assert(ok, "selected items in order");
}
// n, layout, mode, both, worker blocks
extern "C" void c17fancy()
{
    int64_t n = sym_arg(0);
    int ml = sym_arg(1), mode = sym_arg(2), both = sym_arg(3);
    if (sym_arg(4))
        rt_share(1, sym_arg(4));
    Shaped<bool> m(NPY_BOOL, n, ml, "m", 3, mode ? 0 : 600);
    shapeMask(m, mode);
    n = m.n;
    bool * b = m.rows();
    PyObject * kw = nullptr;
    if (both)
    {
        kw = PyDict_New();
        PyDict_SetItemString(kw, "both", rt_bool(true));
    }
    PyObject * r = rt_calltuple("BooleanToFancy", rt_tuple(1, A0(m.a)), kw);
    if (!r)
    {
        sym_assert(rt_error() != nullptr, "declined with an error");
        sym_assert(ml >= 100, "one-dimensional masks are not declined");
        sym_reach("declined");
        return;
    }
    sym_reach("end");
    int64_t cnt = 0;
    for (int64_t i = 0; i < n; i++)
        cnt += sym_concretize(b[i]);
    PyObject * t = r;
    if (both)
    {
        sym_assert(rt_len(r) == 2 && rt_asint(rt_item(r, 1)) == cnt, "number of true entries");
        t = rt_item(r, 0);
    }
    sym_assert(rt_type(t) == NPY_INT32 && rt_len(t) == (both ? n : cnt), "dtype and length");
    int64_t o = 0;
    int ok = 1;
    for (int64_t i = 0; i < n; i++)
        if (b[i])
            ok &= at<int32_t>(t, o++) == i;
    sym_assert(ok, "true positions ascending");
    ok = 1;
    if (both)
        for (int64_t i = 0; i < n; i++)
            if (!b[i])
                ok &= at<int32_t>(t, o++) == i;
    sym_assert(ok, "false positions ascending");
}
// n, layout, mode, worker blocks
extern "C" void c17sum()
{
    int64_t n = sym_arg(0);
    int ml = sym_arg(1), mode = sym_arg(2);
    if (sym_arg(3))
        rt_share(1, sym_arg(3));
    Shaped<bool> m(NPY_BOOL, n, ml, "m", 3, mode ? 0 : 1000000);
    if (mode)
        shapeMask(m, mode);
    bool * b = m.rows();
    n = m.n;
    PyObject * r = rt_call("BooleanSum", 1, A0(m.a));
    if (!r)
    {
        sym_assert(rt_error() != nullptr, "declined with an error");
        sym_assert(ml >= 100, "one-dimensional masks are not declined");
        sym_reach("declined");
        return;
    }
    sym_reach("end");
    int64_t cnt = 0;
    for (int64_t i = 0; i < n; i++)
        cnt += b[i];
    sym_assert(rt_asint(r) == cnt, "number of true entries");
}
