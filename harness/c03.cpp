// C03: element-wise unary functions through BasicMathOneInput / BasicMathUnaryOp.
#include "h.h"
enum
{
    ABS = 201,
    NEG = 202,
    INVERT = 204,
    FLOOR = 205,
    CEIL = 206,
    TRUNC = 207,
    ROUND = 208,
    NEGATIVE = 212,
    SIGN = 214,
    SQRT = 301,
    LNOT = 601,
    ISINF = 603,
    ISNAN,
    ISFINITE,
    ISNORMAL,
    ISNOTINF,
    ISNOTNAN,
    ISNOTFINITE,
    ISNOTNORMAL,
    ISNANORZERO,
    SIGNBIT,
    BNOT = 701
};
static bool isPredicate(int op)
{
    return op > 600 && op < 700;
}
template <typename T>
static int pred(int op, T x)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        typedef typename UIntOf<sizeof(T)>::t U;
        const int M = sizeof(T) == 4 ? 23 : 52;
        U u = bitsOf(x), sgn = (U)1 << (sizeof(T) * 8 - 1);
        U mant = u & (((U)1 << M) - 1), ex = (u & (U)~sgn) >> M, exMax = (((U)1 << (sizeof(T) * 8 - 1 - M)) - 1);
        int inf = (ex == exMax) & (mant == 0), nan = (ex == exMax) & (mant != 0), fin = ex != exMax, zero = (ex == 0) & (mant == 0),
            norm = (ex != 0) & fin;
        switch (op)
        {
        case LNOT:
            return zero;
        case ISINF:
            return inf;
        case ISNAN:
            return nan;
        case ISFINITE:
            return fin;
        case ISNORMAL:
            return norm;
        case ISNOTINF:
            return !inf;
        case ISNOTNAN:
            return !nan;
        case ISNOTFINITE:
            return !fin;
        case ISNOTNORMAL:
            return !norm;
        case ISNANORZERO:
            return nan | zero;
        default:
            return (u & sgn) != 0;
        }
    }
    else
    {
        int inv = isInvalid<T>(x);
        switch (op)
        {
        case LNOT:
            return x == 0;
        case ISINF:
            return 0;
        case ISNOTINF:
            return 1;
        case ISNAN:
        case ISNOTFINITE:
            return inv;
        case ISNOTNAN:
        case ISFINITE:
            return !inv;
        case ISNORMAL:
            return 1;
        case ISNOTNORMAL:
            return 0;
        case ISNANORZERO:
            return inv | (x == 0);
        default:
            return 0;
        }
    }
}
template <typename T>
static T val(int op, T x)
{
    typedef typename UIntOf<sizeof(T)>::t U;
    if constexpr (std::is_floating_point_v<T>)
    {
        U sgn = (U)1 << (sizeof(T) * 8 - 1), u = bitsOf(x);
        T o;
        switch (op)
        {
        case ABS:
            u &= (U)~sgn;
            break;
        case NEG:
        case NEGATIVE:
            u ^= sgn;
            break;
        case SIGN:
            return sel<T>(x > 0, 1, sel<T>(x < 0, -1, sel<T>(x == x, 0, x)));
        case FLOOR:
            return sizeof(T) == 4 ? (T)__builtin_floorf((float)x) : (T)__builtin_floor((double)x);
        case CEIL:
            return sizeof(T) == 4 ? (T)__builtin_ceilf((float)x) : (T)__builtin_ceil((double)x);
        case TRUNC:
            return sizeof(T) == 4 ? (T)__builtin_truncf((float)x) : (T)__builtin_trunc((double)x);
        case ROUND:
            return sizeof(T) == 4 ? (T)__builtin_rintf((float)x) : (T)__builtin_rint((double)x);
        case SQRT:
            return sizeof(T) == 4 ? (T)__builtin_sqrtf((float)x) : (T)__builtin_sqrt((double)x);
        default:
            sym_unsupported("harness: op");
        }
        memcpy(&o, &u, sizeof o);
        return o;
    }
    else
    {
        U u = (U)x;
        switch (op)
        {
        case ABS:
            return sel<T>(x < 0, (T)(U)(0 - u), x);
        case NEG:
        case NEGATIVE:
            return (T)(U)(0 - u);
        case SIGN:
            return sel<T>(x > 0, (T)1, sel<T>(x < 0, (T)-1, (T)0));
        case INVERT:
        case BNOT:
            if constexpr (std::is_same_v<T, bool>)
                return sel<T>(x, false, true);
            return (T)(U)~u;
        default:
            sym_unsupported("harness: op");
            return 0;
        }
    }
}
// layout as in Shaped; out: 0 allocated, 1 given, 2 in place, 3 BasicMathUnaryOp, 4 given with stride 2, 5 given in the other memory order
extern "C" void c03()
{
    int op = sym_arg(0), dt = sym_arg(1), n0 = sym_arg(2), layout = sym_arg(3), outk = sym_arg(4);
    forType(dt,
            [&]<typename T>()
            {
                Shaped<T> a(dt, n0, layout, "a");
                const int64_t n = a.n, es = sizeof(T);
                bool p = isPredicate(op);
                int ot = p ? NPY_BOOL : op == SQRT && dt != NPY_FLOAT32 ? NPY_FLOAT64 : dt;
                int64_t oes = p ? 1 : es;
                T * copy = a.copy();
                PyArrayObject * o = nullptr;
                bool f = layout == 101 || layout == 103 || layout == 106 || layout == 111 || layout == 112;
                if (outk == 1 || outk == 5)
                {
                    int nd = PyArray_NDIM(a.a);
                    npy_intp * d = PyArray_DIMS(a.a);
                    npy_intp s[3];
                    bool of = f != (outk == 5);
                    int64_t x = oes;
                    for (int i = 0; i < nd; i++)
                    {
                        int k = of ? i : nd - 1 - i;
                        s[k] = x;
                        x *= d[k];
                    }
                    o = rt_view(ot, nd, d, s, aligned_alloc(64, n * oes));
                }
                if (outk == 4)
                    o = rt_array_strided(ot, n, 2 * oes);
                if (outk == 2)
                    o = a.a;
                PyObject * r;
                if (outk == 3)
                    r = rt_call("BasicMathUnaryOp", 2, A0(a.a), rt_int(op));
                else
                    r = rt_call("BasicMathOneInput", 3, o ? rt_tuple(2, a.a, o) : A0(a.a), rt_int(op), rt_int(0));
                sym_assert(r != nullptr, "no exception");
                if (!r || !rt_isarray(r))
                {
                    if (outk == 2)
                        for (int64_t i = 0; i < a.d0; i++)
                            for (int64_t j = 0; j < a.d1; j++)
                                sym_assert(same(a.at(i, j), copy[i * a.d1 + j]), "declined request leaves the input alone");
                    sym_reach("declined");
                    return;
                }
                PyArrayObject * q = (PyArrayObject *)r;
                sym_assert(sameType(rt_type(r), ot), "result dtype");
                sym_assert(rt_len(r) == n && PyArray_NDIM(q) == PyArray_NDIM(a.a) && PyArray_DIM(q, 0) == a.d0, "result shape");
                if (o)
                    sym_assert(q == o, "the given output is returned");
                for (int64_t i = 0; i < a.d0; i++)
                    for (int64_t j = 0; j < a.d1; j++)
                    {
                        T x = copy[i * a.d1 + j];
                        if (p)
                            sym_assert(at2<uint8_t>(r, i, j) == pred<T>(op, x), "predicate value");
                        else
                            sym_assert(same(at2<T>(r, i, j), val<T>(op, x)), "value");
                        if (outk != 2)
                            sym_assert(same(a.at(i, j), x), "input unchanged");
                    }
                if (!a.two)
                {
                    if (p)
                        observe<uint8_t>("r", r);
                    else
                        observe<T>("r", r);
                }
                sym_reach("end");
            });
}
