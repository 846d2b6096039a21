// C26: CalculateCRC is the CRC-64 (ECMA-182, reflected, complemented) of the bytes.
#include "h.h"
static uint64_t crc64(const uint8_t * p, int64_t n)
{
    uint64_t crc = ~0ull;
    for (int64_t i = 0; i < n; i++)
    {
        crc ^= p[i];
        for (int k = 0; k < 8; k++)
            crc = (crc >> 1) ^ ((0 - (crc & 1)) & 0xC96C5795D7870F42ull);
    }
    return ~crc;
}
static void check(PyArrayObject * a, const uint8_t * p, int64_t n)
{
    uint8_t * was = (uint8_t *)malloc(n + 1);
    memcpy(was, p, n);
    PyObject * r = rt_call("CalculateCRC", 1, A0(a));
    sym_assert(r != nullptr, "contiguous arrays are handled");
    sym_reach("end");
    sym_assert((uint64_t)rt_asint(r) == crc64(was, n), "checksum");
    sym_assert(!memcmp(was, p, n), "bytes unchanged");
}
// bytes, misalignment, symbolic bytes at the front and at the back (the rest concrete)
extern "C" void c26()
{
    int64_t n = sym_arg(0), mis = sym_arg(1), front = sym_arg(2), back = sym_arg(3);
    uint8_t * buf = (uint8_t *)aligned_alloc(64, (n + mis + 64) & -64);
    uint8_t * p = buf + mis;
    for (int64_t i = 0; i < n; i++)
        p[i] = (uint8_t)(i * 7 + (i >> 8) * 3 + 1);
    if (front + back >= n)
        sym_make(p, 1, n, "b");
    else
    {
        sym_make(p, 1, front, "b");
        sym_make(p + n - back, 1, back, "e");
    }
    npy_intp d[1] = { n }, s[1] = { 1 };
    check(rt_view(NPY_UINT8, 1, d, s, p), p, n);
}
// other shapes and dtypes: layout
extern "C" void c26shape()
{
    int dt = sym_arg(0);
    int layout = sym_arg(2);
    int64_t n = sym_arg(1);
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n, layout, "a");
                if (PyArray_IS_C_CONTIGUOUS(a.a))
                    check(a.a, (uint8_t *)PyArray_DATA(a.a), a.n * sizeof(T));
                else
                {
                    PyObject * r = rt_call("CalculateCRC", 1, A0(a.a));
                    sym_assert(!r && rt_error() != nullptr, "arrays that are not contiguous are rejected");
                    sym_reach("declined");
                }
            });
}
