// Helpers shared by the property harnesses: dtype dispatch, exact comparison, invalid values, argument shapes.
#pragma once
#include "rt.h"
#include <string.h>
#include <math.h>
#include <type_traits>

template <int N>
struct UIntOf;
template <>
struct UIntOf<1>
{
    typedef uint8_t t;
};
template <>
struct UIntOf<2>
{
    typedef uint16_t t;
};
template <>
struct UIntOf<4>
{
    typedef uint32_t t;
};
template <>
struct UIntOf<8>
{
    typedef uint64_t t;
};
template <typename T>
static inline typename UIntOf<sizeof(T)>::t bitsOf(T v)
{
    typename UIntOf<sizeof(T)>::t u;
    memcpy(&u, &v, sizeof u);
    return u;
}
template <typename T>
static inline int isNan(T v)
{
    if constexpr (std::is_floating_point_v<T>)
        return v != v;
    else
        return 0;
}
// same value: identical bits, or both NaN
template <typename T>
static inline int same(T a, T b)
{
    return (bitsOf(a) == bitsOf(b)) | (isNan(a) & isNan(b));
}
// same up to the sign of zero
template <typename T>
static inline int sameVal(T a, T b)
{
    if constexpr (std::is_floating_point_v<T>)
        return (a == b) | (isNan(a) & isNan(b));
    else
        return a == b;
}
// branch-free select
template <typename T>
static inline T sel(int c, T a, T b)
{
    typedef typename UIntOf<sizeof(T)>::t U;
    U m = (U)0 - (U)(c & 1);
    U r = (bitsOf(a) & m) | (bitsOf(b) & (U)~m);
    T o;
    memcpy(&o, &r, sizeof o);
    return o;
}
template <typename T>
static inline T invalidOf()
{
    if constexpr (std::is_same_v<T, bool>)
        return false;
    else if constexpr (std::is_floating_point_v<T>)
        return (T)NAN;
    else if constexpr (std::is_signed_v<T>)
        return (T)((typename UIntOf<sizeof(T)>::t)1 << (sizeof(T) * 8 - 1));
    else
        return (T) ~(T)0;
}
template <typename T>
static inline int isInvalid(T v)
{
    if constexpr (std::is_same_v<T, bool>)
        return 0;
    else if constexpr (std::is_floating_point_v<T>)
        return v != v;
    else
        return v == invalidOf<T>();
}
template <typename T>
struct NpyOf;
#define NPYOF(T, N)                 \
    template <>                     \
    struct NpyOf<T>                 \
    {                               \
        static const int v = N;     \
    };
NPYOF(bool, NPY_BOOL)
NPYOF(int8_t, NPY_INT8)
NPYOF(uint8_t, NPY_UINT8)
NPYOF(int16_t, NPY_INT16)
NPYOF(uint16_t, NPY_UINT16)
NPYOF(int32_t, NPY_INT32)
NPYOF(uint32_t, NPY_UINT32)
NPYOF(int64_t, NPY_INT64)
NPYOF(uint64_t, NPY_UINT64)
NPYOF(float, NPY_FLOAT32)
NPYOF(double, NPY_FLOAT64)

// calls f.template operator()<T>() for the element type of a NumPy type number
template <typename F>
static inline void forType(int64_t dt, F f)
{
    switch (dt)
    {
    case NPY_BOOL:
        f.template operator()<bool>();
        break;
    case NPY_INT8:
        f.template operator()<int8_t>();
        break;
    case NPY_UINT8:
        f.template operator()<uint8_t>();
        break;
    case NPY_INT16:
        f.template operator()<int16_t>();
        break;
    case NPY_UINT16:
        f.template operator()<uint16_t>();
        break;
    case NPY_INT32:
        f.template operator()<int32_t>();
        break;
    case NPY_UINT32:
        f.template operator()<uint32_t>();
        break;
    case NPY_LONG:
    case NPY_LONGLONG:
        f.template operator()<int64_t>();
        break;
    case NPY_ULONG:
    case NPY_ULONGLONG:
        f.template operator()<uint64_t>();
        break;
    case NPY_FLOAT32:
        f.template operator()<float>();
        break;
    case NPY_FLOAT64:
        f.template operator()<double>();
        break;
    default:
        sym_unsupported("harness: dtype");
    }
}
// the same element type, whichever of the two NumPy numbers of a 64-bit integer is used
static inline int normType(int t)
{
    return t == NPY_LONGLONG ? (int)NPY_LONG : t == NPY_ULONGLONG ? (int)NPY_ULONG : t;
}
static inline int sameType(int a, int b)
{
    return normType(a) == normType(b);
}
// a concrete background pattern: distinct-ish small values
template <typename T>
static inline T pat(int64_t i, int64_t seed)
{
    if constexpr (std::is_same_v<T, bool>)
        return ((i * 7 + seed * 3) % 5) < 2;
    else
        return (T)((i * 37 + seed * 11) % 101 + 1);
}
template <typename T>
static inline void symFill(T * p, int64_t n, const char * name)
{
    if constexpr (std::is_same_v<T, bool>)
        sym_make_bool(p, n, name);
    else
        sym_make(p, sizeof(T), n, name);
}
// n elements: all symbolic when n <= full; else a concrete background with symbolic probes at chosen positions.
// probes: first, last, around the multiples of the work-block size and a middle one
static inline int64_t probeAt(int64_t n, int k)
{
    const int64_t C = 0x4000;
    int64_t last = (n - 1) / C * C;
    switch (k)
    {
    case 0:
        return 0;
    case 1:
        return n - 1;
    case 2:
        return C - 1;
    case 3:
        return C;
    case 4:
        return last;
    case 5:
        return last - 1;
    case 6:
        return n / 2 + 3;
    default:
        return 2 * C;
    }
}
const int NPROBE = 8;
template <typename T>
static inline void fill(T * p, int64_t n, const char * name, int64_t seed, int64_t full = 600, int64_t stride = sizeof(T))
{
    if (n <= full)
    {
        if (stride == (int64_t)sizeof(T))
            symFill(p, n, name);
        else
            for (int64_t i = 0; i < n; i++)
                symFill((T *)((char *)p + i * stride), 1, name);
        return;
    }
    for (int64_t i = 0; i < n; i++)
        *(T *)((char *)p + i * stride) = pat<T>(i, seed);
    for (int k = 0; k < NPROBE; k++)
    {
        int64_t q = probeAt(n, k);
        bool dup = q >= n || q < 0;
        for (int j = 0; j < k; j++)
            dup |= probeAt(n, j) == q;
        if (!dup)
            symFill((T *)((char *)p + q * stride), 1, name);
    }
}
// element i of a one-dimensional array, honouring its stride
template <typename T>
static inline T & at(PyArrayObject * a, int64_t i)
{
    return *(T *)(PyArray_BYTES(a) + i * PyArray_STRIDES(a)[0]);
}
template <typename T>
static inline T & at(PyObject * a, int64_t i)
{
    return at<T>((PyArrayObject *)a, i);
}
template <typename T>
static inline PyArrayObject * newArr(int64_t n, const char * name, int64_t seed = 1, int64_t stride = sizeof(T), int64_t full = 600)
{
    PyArrayObject * a = stride == (int64_t)sizeof(T) ? rt_array(NpyOf<T>::v, n) : rt_array_strided(NpyOf<T>::v, n, stride);
    fill<T>((T *)PyArray_DATA(a), n, name, seed, full, stride);
    return a;
}
template <typename T>
static inline void observe(const char * name, PyObject * a)
{
    PyArrayObject * r = (PyArrayObject *)a;
    int64_t n = rt_len(a);
    if (n <= 600 && (PyArray_NDIM(r) == 0 || PyArray_STRIDES(r)[0] == (int64_t)sizeof(T)))
        sym_observe(name, PyArray_DATA(r), sizeof(T), n);
}
// an array of one of the layouts the functions under test distinguish.
// layout: 1-d stride multiple s (0 = contiguous but not aligned for vectors), or 2-d with 3 rows: 100 C-contiguous, 101 Fortran, 102 rows of a wider C array,
// 103 columns of a taller Fortran array, 104 every second column of a C array, 105 every second row of a C array, 106 every second row of a Fortran array,
// 107 reversed rows; 3-d (3 x m x 2): 110 C, 111 Fortran, 112 with a shorter middle of a Fortran array, 113 with a shorter middle of a C array; 114 1 x m x 3 with
// shorter rows; 115 the first two axes of a C array swapped
template <typename T>
struct Shaped
{
    PyArrayObject * a;
    int64_t n, d0, d1 = 1, s0, s1 = 0; // d1: all but the first dimension
    int64_t e1 = 1, s2 = 0;            // size of the second dimension, stride of the third
    bool two;
    Shaped(int dt, int64_t len, int layout, const char * name, int64_t seed = 3, int64_t full = 600)
    {
        const int64_t es = sizeof(T);
        n = d0 = len;
        two = layout >= 100;
        if (two)
        {
            d0 = 3;
            d1 = n / 3;
            int64_t d2 = 1;
            if (layout >= 110)
            {
                d0 = layout == 114 ? 1 : 3;
                d2 = layout == 114 ? 3 : 2;
                d1 = n / d0 / d2;
            }
            e1 = d1;
            n = d0 * d1 * d2;
            int64_t cap = 4 * n + 3 * (d0 + d1) + 16, start = 0;
            char * buf = (char *)aligned_alloc(64, cap * es);
            for (int64_t i = 0; i < cap; i++)
                ((T *)buf)[i] = pat<T>(i, seed + 2);
            switch (layout)
            {
            case 100:
                s0 = d1 * es;
                s1 = es;
                break;
            case 101:
                s0 = es;
                s1 = d0 * es;
                break;
            case 102:
                s0 = (d1 + 3) * es;
                s1 = es;
                break;
            case 103:
                s0 = es;
                s1 = (d0 + 3) * es;
                break;
            case 104:
                s0 = 2 * d1 * es;
                s1 = 2 * es;
                break;
            case 105:
                s0 = 2 * d1 * es;
                s1 = es;
                break;
            case 106:
                s0 = 2 * es;
                s1 = 2 * d0 * es;
                break;
            case 107:
                s0 = -d1 * es;
                s1 = es;
                start = (d0 - 1) * d1 * es;
                break;
            case 110:
                s2 = es;
                s1 = d2 * es;
                s0 = d1 * d2 * es;
                break;
            case 111:
                s0 = es;
                s1 = d0 * es;
                s2 = d0 * d1 * es;
                break;
            case 112:
                s0 = es;
                s1 = d0 * es;
                s2 = d0 * (d1 + 1) * es;
                break;
            case 113:
                s2 = es;
                s1 = d2 * es;
                s0 = (d1 + 1) * d2 * es;
                break;
            case 115:
                s2 = es;
                s0 = d2 * es;
                s1 = d0 * d2 * es;
                break;
            default:
                s2 = es;
                s1 = (d2 + 2) * es;
                s0 = d1 * (d2 + 2) * es;
            }
            npy_intp d[3] = { d0, d1, d2 }, s[3] = { s0, s1, s2 };
            d1 *= d2;
            buf += start;
            a = rt_view(dt, layout >= 110 ? 3 : 2, d, s, buf);
            for (int64_t i = 0; i < d0; i++)
                for (int64_t j = 0; j < d1; j++)
                    symFill(&at(i, j), 1, name);
        }
        else if (layout == 0)
        {
            char * buf = (char *)aligned_alloc(64, (n + 1) * es);
            *(T *)buf = 0;
            fill<T>((T *)(buf + es), n, name, seed, full);
            npy_intp d[1] = { n }, s[1] = { es };
            a = rt_view(dt, 1, d, s, buf + es);
            s0 = es;
        }
        else
        {
            a = newArr<T>(n, name, seed, layout * es, full);
            s0 = layout * es;
        }
    }
    T & at(int64_t i, int64_t j = 0)
    {
        return *(T *)(PyArray_BYTES(a) + i * s0 + j % e1 * s1 + j / e1 * s2);
    }
    // element t in row-major order
    T & row(int64_t t)
    {
        int64_t d2 = d1 / (e1 ? e1 : 1), r = d1 ? t % d1 : 0, i = d1 ? t / d1 : 0;
        return at(i, d2 ? r / d2 + r % d2 * e1 : 0);
    }
    T * rows()
    {
        T * c = (T *)calloc(n + 1, sizeof(T));
        for (int64_t t = 0; t < n; t++)
            c[t] = row(t);
        return c;
    }
    T * copy()
    {
        T * c = (T *)malloc(n * sizeof(T) + 1);
        for (int64_t i = 0; i < d0; i++)
            for (int64_t j = 0; j < d1; j++)
                c[i * d1 + j] = at(i, j);
        return c;
    }
};
// element (i, j) of an array of one or two dimensions
template <typename T>
static inline T & at2(PyObject * o, int64_t i, int64_t j)
{
    PyArrayObject * q = (PyArrayObject *)o;
    int nd = PyArray_NDIM(q);
    int64_t e1 = nd > 1 ? PyArray_DIM(q, 1) : 1;
    return *(T *)(PyArray_BYTES(q) + i * PyArray_STRIDE(q, 0) + (nd > 1 ? j % e1 * PyArray_STRIDE(q, 1) : 0) + (nd > 2 ? j / e1 * PyArray_STRIDE(q, 2) : 0));
}
// element t of an array in row-major order
template <typename T>
static inline T & rowOf(PyObject * o, int64_t t)
{
    PyArrayObject * q = (PyArrayObject *)o;
    char * p = PyArray_BYTES(q);
    for (int d = PyArray_NDIM(q) - 1; d >= 0; d--)
    {
        int64_t m = PyArray_DIM(q, d);
        p += t % m * PyArray_STRIDE(q, d);
        t /= m;
    }
    return *(T *)p;
}
// conversion of a value; ok tells whether C defines it
template <typename A, typename B>
static B conv(int safe, A x, int & ok)
{
    ok = 1;
    if constexpr (std::is_same_v<A, B>)
        return x;
    else if constexpr (std::is_same_v<B, bool>)
        return x != 0;
    else if constexpr (std::is_floating_point_v<A> && !std::is_floating_point_v<B>)
    {
        int fin = x - x == 0;
        // the range in which truncation gives a value of the type
        const double two = 2.0;
        const int bits = sizeof(B) * 8 - (std::is_signed_v<B> ? 1 : 0);
        double hi = __builtin_ldexp(1.0, bits), lo = std::is_signed_v<B> ? -hi : 0.0;
        double t = sizeof(A) == 4 ? (double)__builtin_truncf((float)x) : __builtin_trunc((double)x);
        int in = (t < hi) & (t >= lo);
        ok = in | (safe & !fin);
        A y = sel<A>(fin & in, x, (A)0);
        B r = (B)y;
        if (safe)
            return sel<B>(fin, r, invalidOf<B>());
        return r;
    }
    else if constexpr (std::is_same_v<A, bool>)
        return (B)(uint8_t)bitsOf(x);
    else if constexpr (std::is_floating_point_v<A>)
        return (B)x;
    else
    {
        B r = (B)x;
        if (safe)
            return sel<B>(isInvalid<A>(x), invalidOf<B>(), r);
        return r;
    }
}
