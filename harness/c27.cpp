// C27: BitCount.
#include "h.h"
template <typename T>
static int ones(T v)
{
    uint64_t u = bitsOf(v);
    int c = 0;
    for (int i = 0; i < (int)sizeof(T) * 8; i++)
        c += (int)(u >> i & 1);
    return c;
}
// dtype, n, layout
extern "C" void c27()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1);
    int layout = sym_arg(2);
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, layout, "a", 3, 200);
                T * x = a.rows();
                PyObject * r = rt_call("BitCount", 1, A0(a.a));
                if (!r)
                {
                    sym_assert(rt_error() != nullptr, "declined with an error");
                    sym_assert(layout != 0 && layout != 1, "contiguous arrays are not declined");
                    sym_reach("declined");
                    return;
                }
                sym_reach("end");
                PyArrayObject * q = (PyArrayObject *)r;
                sym_assert(rt_isarray(r) && rt_type(r) == NPY_INT8 && rt_len(r) == a.n && PyArray_NDIM(q) == PyArray_NDIM(a.a), "an int8 array of the same shape");
                for (int k = 0; k < PyArray_NDIM(q); k++)
                    sym_assert(PyArray_DIM(q, k) == PyArray_DIM(a.a, k), "dimensions");
                int8_t * y = D<int8_t>(r);
                for (int64_t i = 0; i < a.n; i++)
                {
                    sym_assert(y[i] == (int8_t)ones<T>(x[i]), "number of one bits");
                    sym_assert(bitsOf(a.row(i)) == bitsOf(x[i]), "input unchanged");
                }
            });
}
