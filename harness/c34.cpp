// C34: record arrays to columns.
#include "h.h"
struct Field
{
    int off, size;
};
static const struct
{
    int itemSize, n;
    Field f[8];
} LAYOUTS[] = {
    { 1, 1, { { 0, 1 } } },
    { 8, 4, { { 0, 1 }, { 1, 2 }, { 3, 4 }, { 7, 1 } } },
    { 12, 2, { { 0, 8 }, { 8, 4 } } },
    { 13, 3, { { 0, 8 }, { 8, 4 }, { 12, 1 } } },
    { 31, 5, { { 0, 8 }, { 8, 3 }, { 11, 4 }, { 15, 2 }, { 17, 14 } } },
    { 40, 4, { { 0, 16 }, { 16, 9 }, { 25, 7 }, { 32, 8 } } },
    { 64, 3, { { 60, 4 }, { 0, 8 }, { 33, 24 } } }, // fields in another order, gaps between them
    { 20000, 3, { { 0, 8 }, { 19996, 4 }, { 100, 2 } } },
    { 17000, 2, { { 16992, 8 }, { 5, 5 } } },
    { 24, 0, {} },
    { 16, 2, { { 0, 8 }, { 4, 8 } } }, // overlapping
};
// layout, records, symbolic records
extern "C" void c34()
{
    auto & L = LAYOUTS[sym_arg(0)];
    int64_t n = sym_arg(1), full = sym_arg(2);
    if (sym_arg(3))
        rt_share(1, sym_arg(3));
    int64_t es = L.itemSize;
    PyArrayObject * a = rt_array(NPY_VOID, n, es);
    uint8_t * p = (uint8_t *)PyArray_DATA(a);
    memset(p, 0, n * es);
    for (int64_t i = 0; i < n; i++)
    {
        bool probe = i < full;
        for (int k = 0; k < NPROBE; k++)
            probe |= n > full && probeAt(n, k) == i;
        for (int k = 0; k < L.n; k++)
            for (int j = 0; j < L.f[k].size; j++)
                p[i * es + L.f[k].off + j] = (uint8_t)(i * 7 + (i >> 8) * 5 + k * 13 + j * 3 + 1);
        if (probe && es < 1000)
            symFill(p + i * es, es, "r");
        else if (probe)
            for (int k = 0; k < L.n; k++)
                symFill(p + i * es + L.f[k].off, L.f[k].size, "r");
    }
    uint8_t * was = (uint8_t *)malloc(n * es + 1);
    memcpy(was, p, n * es);
    PyArrayObject * offs = rt_array(NPY_INT64, L.n);
    PyArrayObject * cols[8];
    for (int k = 0; k < L.n; k++)
    {
        D<int64_t>(offs)[k] = L.f[k].off;
        int s = L.f[k].size;
        cols[k] = s == 1 ? rt_array(NPY_INT8, n) : s == 2 ? rt_array(NPY_UINT16, n) : s == 4 ? rt_array(NPY_FLOAT32, n) : s == 8 ? rt_array(NPY_INT64, n) : rt_array(NPY_STRING, n, s);
    }
    void ** ptrs = (void **)malloc(L.n * 8 + 8);
    for (int k = 0; k < L.n; k++)
        ptrs[k] = cols[k];
    npy_intp d[1] = { L.n }, st[1] = { 8 };
    PyArrayObject * list = rt_view(NPY_OBJECT, 1, d, st, ptrs, 8);
    PyObject * r = rt_call("RecordArrayToColMajor", 3, A0(a), A0(offs), A0(list));
    sym_assert(r == Py_None, "handled");
    sym_reach("end");
    for (int64_t i = 0; i < n; i++)
        for (int k = 0; k < L.n; k++)
        {
            uint8_t * z = (uint8_t *)PyArray_DATA(cols[k]) + i * L.f[k].size;
            sym_assert(!memcmp(z, was + i * es + L.f[k].off, L.f[k].size), "field of the record");
        }
    sym_assert(!memcmp(was, p, n * es), "records unchanged");
}
// layout, records, stride in records: records that are not adjacent are declined
extern "C" void c34strided()
{
    auto & L = LAYOUTS[sym_arg(0)];
    int64_t n = sym_arg(1), k = sym_arg(2), es = L.itemSize;
    uint8_t * buf = (uint8_t *)calloc((n + 1) * (k < 0 ? -k : k), es);
    symFill(buf + (k < 0 ? 0 : (n - 1) * k * es), es, "r");
    npy_intp d[1] = { n }, s[1] = { k * es };
    PyArrayObject * a = rt_view(NPY_VOID, 1, d, s, buf + (k < 0 ? (n - 1) * -k * es : 0), es);
    PyArrayObject * offs = rt_array(NPY_INT64, 1), * col = L.f[0].size == 1 ? rt_array(NPY_INT8, n) : rt_array(NPY_INT64, n);
    D<int64_t>(offs)[0] = L.f[0].off;
    void * ptrs[1] = { col };
    npy_intp d1[1] = { 1 }, s1[1] = { 8 };
    PyObject * r = rt_call("RecordArrayToColMajor", 3, A0(a), A0(offs), A0(rt_view(NPY_OBJECT, 1, d1, s1, ptrs, 8)));
    if (!r)
    {
        sym_assert(n > 1 && rt_error() != nullptr, "declined with an error");
        sym_reach("declined");
        return;
    }
    sym_reach("end");
    for (int64_t i = 0; i < n; i++)
        sym_assert(!memcmp(PyArray_BYTES(col) + i * L.f[0].size, PyArray_BYTES(a) + i * k * es + L.f[0].off, L.f[0].size), "field of the record");
}
