// C07: GroupFromLexSort.
#include "h.h"
static int W;
static bool equal(PyArrayObject * a, int dt, int64_t i, int64_t j)
{
    char *x = (char *)D<char>(a) + i * W, *y = (char *)D<char>(a) + j * W;
    if (dt == NPY_FLOAT32)
        return (*(float *)x == *(float *)y) | (isNan(*(float *)x) & isNan(*(float *)y));
    if (dt == NPY_FLOAT64)
        return (*(double *)x == *(double *)y) | (isNan(*(double *)x) & isNan(*(double *)y));
    bool e = true;
    for (int q = 0; q < W; q++)
        e &= x[q] == y[q];
    return e;
}
// the m rows of the index: an arrangement of rows of 0..n-1
static int64_t arranged(int64_t i, int64_t n, int perm)
{
    switch (perm)
    {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return (i * 7 + 2) % n;
    default: return i < n / 2 ? 2 * i + 1 : 2 * (i - n / 2);
    }
}
template <typename I>
static void check(int idt)
{
    int dt = sym_arg(1), w = sym_arg(2);
    int64_t n = sym_arg(3), m = sym_arg(4);
    int base = sym_arg(5), perm = sym_arg(6), cuts = sym_arg(7), nsym = sym_arg(8);
    PyArrayObject * v = w ? rt_array(dt, n, w) : rt_array(dt, n);
    W = w ? w : rt_itemsize(dt);
    char * p = D<char>(v);
    PyArrayObject * index = rt_array(idt, m);
    // partitions: 1 one, 2 two and an empty one in the middle, 3 one per row
    int64_t cut[64], nc = 0;
    if (cuts == 1)
        cut[nc++] = m;
    if (cuts == 2)
    {
        cut[nc++] = m / 3;
        cut[nc++] = m / 3;
        cut[nc++] = m;
    }
    if (cuts == 3)
        for (int64_t i = 0; i < m; i++)
            cut[nc++] = i + 1;
    int64_t * row = (int64_t *)malloc((m + 1) * 8), *start = (int64_t *)malloc((m + 1) * 8);
    for (int64_t i = 0, c = 0; i < m; i++)
    {
        while (nc && i >= cut[c])
            c++;
        start[i] = c ? cut[c - 1] : 0;
        int64_t len = nc ? cut[c] - start[i] : n;
        int64_t local = arranged(i - start[i], len, perm);
        D<I>(index)[i] = local;
        row[i] = local + start[i];
    }
    // all keys symbolic, or runs of equal keys with some symbolic ones among them
    if (nsym < 0)
        w ? sym_make(p, 1, n * W, "v") : sym_make(p, W, n, "v");
    else
    {
        for (int64_t i = 0; i < m; i++)
            for (int q = 0; q < W; q++)
                p[row[i] * W + q] = dt == NPY_BOOL ? i > m / 2 : q == 0 ? i / 5 + 1 : 0;
        for (int k = 0; k < nsym; k++)
            w ? sym_make(p + row[(k * 7 + 4) % m] * W, 1, W, "v") : sym_make(p + row[(k * 7 + 4) % m] * W, W, 1, "v");
    }
    if (dt == NPY_BOOL)
        for (int64_t i = 0; i < n; i++)
            sym_assume((uint8_t)p[i] <= 1);
    // the index sorts: equal keys are next to each other
    bool * same = (bool *)calloc(m + 1, 1);
    for (int64_t i = 1; i < m; i++)
        same[i] = start[i] == start[i - 1] && sym_concretize(equal(v, dt, row[i], row[i - 1]));
    for (int64_t i = 0; i < m; i++)
        for (int64_t j = i + 2; j < m && start[j] == start[i]; j++)
            if (nsym < 0 || j - i < 12)
            {
                bool run = true;
                for (int64_t k = i + 1; k <= j; k++)
                    run &= same[k];
                sym_assume((equal(v, dt, row[i], row[j]) ? 1 : 0) == (run ? 1 : 0));
            }
    char * before = (char *)malloc(n * W + 1);
    memcpy(before, p, n * W);
    PyObject * kw = PyDict_New();
    if (base >= 0)
        PyDict_SetItemString(kw, "base_index", rt_int(base));
    if (nc)
    {
        PyArrayObject * c = rt_array(NPY_INT64, nc);
        memcpy(D<char>(c), cut, nc * 8);
        PyDict_SetItemString(kw, "cutoffs", A0(c));
        if (sym_arg(9))
            rt_share(1, 1);
    }
    if (base < 0)
        base = 1;
    PyObject * r = rt_calltuple("GroupFromLexSort", rt_tuple(2, A0(index), A0(v)), kw);
    sym_assert(r != nullptr, "returned");
    if (!r)
        return;
    sym_reach("end");
    PyObject *keys = rt_item(r, 0), *first = rt_item(r, 1), *count = rt_item(r, 2);
    sym_assert(rt_type(keys) == idt && rt_type(first) == idt && rt_type(count) == idt, "dtype of the index");
    if (nc)
        base = 1; // what the partitions have in common reserves the zero bin
    sym_assert(rt_len(keys) == n, "a bin for every row");
    int64_t bin = -1, ingroup = 0;
    int64_t nb = rt_len(first);
    sym_assert(rt_len(count) == nb + 1 && at<I>(count, 0) == 0, "nothing in the zero bin");
    bool * seen = (bool *)calloc(n + 1, 1);
    for (int64_t i = 0, c = 0; i < m; i++)
    {
        if (i == 0 || !same[i])
        {
            if (bin >= 0)
                sym_assert(at<I>(count, bin + 1) == ingroup, "rows in the bin");
            bin++;
            ingroup = 0;
            sym_assert(bin < nb, "no fewer bins");
            sym_assert(at<I>(first, bin) == row[i], "first row of the bin");
        }
        while (nc && i >= cut[c])
        {
            sym_assert(D<int64_t>(rt_item(r, 3))[c] == bin, "bins up to the end of the partition");
            c++;
        }
        ingroup++;
        seen[row[i]] = true;
        sym_assert(at<I>(keys, row[i]) == bin + base, "bin of the row");
        sym_assert(D<I>(index)[i] == row[i], "the index refers to whole rows");
    }
    if (bin >= 0)
        sym_assert(at<I>(count, bin + 1) == ingroup, "rows in the last bin");
    sym_assert(nb == bin + 1, "no more bins");
    if (nc)
        sym_assert(rt_len(rt_item(r, 3)) == nc && D<int64_t>(rt_item(r, 3))[nc - 1] == nb, "bins up to the end");
    for (int64_t i = 0; i < n; i++)
        if (!seen[i])
            sym_assert(at<I>(keys, i) == 0, "rows left out are in the zero bin");
    bool ok = true;
    for (int64_t i = 0; i < n * W; i++)
        ok &= p[i] == before[i];
    sym_assert(ok, "keys unchanged");
}
// index bits, dtype, width, rows, rows in the index, base index (-1 none), arrangement, cutoffs, symbolic keys (-1 all), shared
extern "C" void c07()
{
    if (sym_arg(0) == 32)
        check<int32_t>(NPY_INT32);
    else
        check<int64_t>(NPY_INT64);
}
// declined: 0 strided keys, 1 strided index, 2 index longer than the keys, 3 last cutoff, 4 descending cutoffs, 5 dtype of the index, 6 dtype of cutoffs
extern "C" void c07bad()
{
    int kind = sym_arg(0);
    PyObject * v = A0(rt_array(NPY_INT32, 8)), *index = A0(rt_array(kind == 5 ? NPY_INT16 : NPY_INT32, kind == 2 ? 9 : 4));
    sym_make(D<char>(v), 32, 1, "v");
    PyObject * kw = PyDict_New();
    if (kind == 0)
        v = A0(rt_array_strided(NPY_INT32, 4, 8));
    if (kind == 1)
        index = A0(rt_array_strided(NPY_INT32, 4, 8));
    if (kind == 3 || kind == 4 || kind == 6)
    {
        PyObject * c = A0(rt_array(kind == 6 ? NPY_INT32 : NPY_INT64, 2));
        if (kind == 6)
            D<int32_t>(c)[0] = 1, D<int32_t>(c)[1] = 4;
        else
            D<int64_t>(c)[0] = kind == 4 ? 5 : 2, D<int64_t>(c)[1] = kind == 3 ? 3 : 4;
        PyDict_SetItemString(kw, "cutoffs", c);
    }
    PyObject * r = rt_calltuple("GroupFromLexSort", rt_tuple(2, index, v), kw);
    sym_assert(!r && rt_error(), "declined with an error");
    sym_reach("end");
}
