// C16: fancy indexing (MBGet).
#include "h.h"
// index array: all symbolic up to a limit, else a concrete background (values in and out of range) with probes
template <typename I>
static void fillIndex(Shaped<I> & ix, int64_t len)
{
    if (ix.n <= 40)
        return; // Shaped made every entry symbolic
    for (int64_t i = 0; i < ix.d0; i++)
        ix.at(i) = (I)((i * 7919 + 13) % (len + 3) - (std::is_signed_v<I> ? len / 2 : 0));
    int64_t k = sym_choose("probe", 0, NPROBE - 1), p = probeAt(ix.n, k);
    if (p >= 0 && p < ix.n)
        symFill(&ix.at(p), 1, "i");
}
template <typename I>
static int inRange(I v, int64_t len, int64_t & at)
{
    if constexpr (std::is_signed_v<I>)
    {
        int64_t w = (int64_t)v;
        int ok = (w >= -len) & (w < len);
        at = w + (len & ((w >> 63)));
        return ok;
    }
    else
    {
        uint64_t w = (uint64_t)v;
        at = (int64_t)w;
        return w < (uint64_t)len;
    }
}
// splits into one path per value of a small range
static int64_t pick(int64_t at, int64_t n, int64_t ni)
{
    if (n <= 5 && ni <= 3)
        return sym_concretize(at);
    return at;
}
// dtype, index dtype, number of values, number of indexes, value layout, index layout, default (0 none, 1 int, 2 float), worker blocks
extern "C" void c16get()
{
    int dt = sym_arg(0), it = sym_arg(1);
    int64_t nv = sym_arg(2), ni = sym_arg(3);
    int vl = sym_arg(4), il = sym_arg(5), df = sym_arg(6);
    if (sym_arg(7))
        rt_share(1, sym_arg(7));
    forType(dt,
            [&]<typename T>()
            {
                forType(it,
                        [&]<typename I>()
                        {
                            if constexpr (!std::is_same_v<I, bool> && !std::is_floating_point_v<I>)
                            {
                                Shaped<T> a(dt, nv, vl, "a", 3, 32);
                                Shaped<I> ix(it, ni, il, "i", 3, 40);
                                nv = a.n;
                                ni = ix.n;
                                fillIndex<I>(ix, nv);
                                T * x = a.rows();
                                I * b = ix.rows();
                                T d = invalidOf<T>();
                                PyObject * r;
                                if (df == 1)
                                {
                                    int8_t v = -5;
                                    d = std::is_same_v<T, bool> ? (T)1 : (T)v;
                                    r = rt_call("MBGet", 3, A0(a.a), A0(ix.a), rt_int(std::is_same_v<T, bool> ? 1 : v));
                                }
                                else if (df == 2)
                                {
                                    d = (T)2.5;
                                    r = rt_call("MBGet", 3, A0(a.a), A0(ix.a), rt_float(2.5));
                                }
                                else
                                    r = rt_call("MBGet", 2, A0(a.a), A0(ix.a));
                                if (!r)
                                {
                                    sym_assert(rt_error() != nullptr, "declined with an error");
                                    sym_assert(vl >= 100 || il >= 100, "one-dimensional arrays are not declined");
                                    sym_reach("declined");
                                    return;
                                }
                                sym_reach("end");
                                sym_assert(rt_isarray(r) && sameType(rt_type(r), dt), "dtype");
                                sym_assert(rt_len(r) == ni, "length");
                                T * y = D<T>(r);
                                for (int64_t i = 0; i < ni; i++)
                                {
                                    int64_t k;
                                    int ok = inRange<I>(b[i], nv, k);
                                    T w = d;
                                    if (ok)
                                        w = x[pick(k, nv, ni)];
                                    sym_assert(same<T>(y[i], w), "element or default");
                                }
                                int ok = 1;
                                for (int64_t i = 0; i < ni; i++)
                                    ok &= ix.row(i) == b[i];
                                for (int64_t i = 0; i < nv; i++)
                                    ok &= same<T>(a.row(i), x[i]);
                                sym_assert(ok, "inputs unchanged");
                            }
                        });
            });
}
// fixed width items: dtype (18 bytes, 19 unicode), item size, index dtype, values, indexes, value stride in items, index layout, length of the default (-1 none)
extern "C" void c16item()
{
    int dt = sym_arg(0);
    int64_t sz = sym_arg(1);
    int it = sym_arg(2);
    int64_t nv = sym_arg(3), ni = sym_arg(4), st = sym_arg(5);
    int il = sym_arg(6);
    int64_t dl = sym_arg(7);
    forType(it,
            [&]<typename I>()
            {
                if constexpr (!std::is_same_v<I, bool> && !std::is_floating_point_v<I>)
                {
                    PyArrayObject * a = st == 1 ? rt_array(dt, nv, sz) : rt_array_strided(dt, nv, st * sz, sz);
                    char * x = PyArray_BYTES(a);
                    for (int64_t i = 0; i < nv; i++)
                    {
                        for (int64_t k = 0; k < sz; k++)
                            x[i * st * sz + k] = 1 + (i * 31 + k * 7) % 100;
                        symFill((uint8_t *)x + i * st * sz, 1, "a");
                        symFill((uint8_t *)x + i * st * sz + sz - 1, 1, "a");
                    }
                    char * c = (char *)malloc(nv * sz + 1);
                    for (int64_t i = 0; i < nv; i++)
                        memcpy(c + i * sz, x + i * st * sz, sz);
                    Shaped<I> ix(it, ni, il, "i", 3, 40);
                    I * b = ix.rows();
                    char * d = (char *)calloc(sz + 1, 1);
                    char buf[64], *s = buf;
                    PyObject * r;
                    if (dl >= 0)
                    {
                        for (int64_t k = 0; k < dl; k++)
                            s[k] = 'a' + k % 26;
                        s[dl] = 0;
                        int w = dt == 18 ? 1 : 4;
                        for (int64_t k = 0; k < dl && (k + 1) * w <= sz; k++)
                            d[k * w] = s[k];
                        r = rt_call("MBGet", 3, A0(a), A0(ix.a), dt == 18 ? rt_bytes(s, dl) : rt_str(s));
                    }
                    else
                        r = rt_call("MBGet", 2, A0(a), A0(ix.a));
                    sym_assert(r != nullptr, "not declined");
                    if (!r)
                        return;
                    sym_reach("end");
                    sym_assert(rt_type(r) == dt && PyArray_ITEMSIZE((PyArrayObject *)r) == sz, "dtype and width");
                    sym_assert(rt_len(r) == ni, "length");
                    char * y = PyArray_BYTES((PyArrayObject *)r);
                    for (int64_t i = 0; i < ni; i++)
                    {
                        int64_t at;
                        int ok = inRange<I>(b[i], nv, at), eq = 1;
                        const char * e = d;
                        if (ok)
                            e = c + pick(at, nv, ni) * sz;
                        for (int64_t k = 0; k < sz; k++)
                            eq &= y[i * sz + k] == e[k];
                        sym_assert(eq, "item or default");
                    }
                }
            });
}
