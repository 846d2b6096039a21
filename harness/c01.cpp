// C01: two-input arithmetic through BasicMathTwoInputs.
#include "h.h"
enum
{
    ADD = 1,
    SUB = 2,
    MUL = 3,
    MOD = 5,
    MIN_ = 6,
    MAX_ = 7,
    NANMIN = 8,
    NANMAX = 9,
    FLOORDIV = 10,
    POWER = 11,
    REMAINDER = 12,
    FMOD = 13,
    DIV = 101,
    SUBDATETIMES = 102,
    SUBDATES = 103,
    LSHIFT = 501,
    RSHIFT = 502,
    AND = 503,
    XOR = 504,
    OR = 505,
    ANDNOT = 506,
    NOTAND = 507,
    LAND = 407,
    LXOR = 408,
    LOR = 409
};
// operand restrictions under which the scalar operation is defined
template <typename T>
static int okArgs(int op, T x, T y)
{
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
    {
        if (op == MOD || op == REMAINDER || op == FMOD)
        {
            int c = y != 0;
            if constexpr (std::is_signed_v<T>)
                c &= !((x == invalidOf<T>()) & (y == (T)-1));
            return c;
        }
        if (op == FLOORDIV)
        {
            if constexpr (std::is_signed_v<T>)
                return !((x == invalidOf<T>()) & (y == (T)-1));
        }
        if (op == LSHIFT || op == RSHIFT)
            return (y >= 0) & ((uint64_t)y < 8 * (sizeof(T) < 4 ? 4 : sizeof(T)));
    }
    return 1;
}
template <typename T>
static T refSame(int op, T x, T y)
{
    typedef typename UIntOf<sizeof(T)>::t U;
    if constexpr (std::is_same_v<T, bool>)
    {
        int a = x, b = y;
        switch (op)
        {
        case ADD:
        case OR:
        case LOR:
        case MAX_:
            return a | b;
        case MUL:
        case AND:
        case LAND:
        case MIN_:
            return a & b;
        case SUB:
            return a & !b;
        case MOD:
        case XOR:
        case LXOR:
            return a ^ b;
        case ANDNOT:
            return a & !b;
        case NOTAND:
            return !a & b;
        }
    }
    else if constexpr (std::is_floating_point_v<T>)
    {
        switch (op)
        {
        case ADD:
            return x + y;
        case SUB:
            return x - y;
        case MUL:
            return x * y;
        case DIV:
            return x / y;
        case MIN_:
            return sel<T>(isNan(x) | isNan(y), NAN, sel<T>(x < y, x, y));
        case MAX_:
            return sel<T>(isNan(x) | isNan(y), NAN, sel<T>(x > y, x, y));
        case NANMIN:
            return sel<T>(isNan(x), y, sel<T>(isNan(y), x, sel<T>(x < y, x, y)));
        case NANMAX:
            return sel<T>(isNan(x), y, sel<T>(isNan(y), x, sel<T>(x > y, x, y)));
        case MOD:
        case REMAINDER:
            return x - y * (T)floor(x / y);
        case FLOORDIV:
            return (T)floor(x / y);
        }
    }
    else
    {
        switch (op)
        {
        case ADD:
            return (T)(U)((uint64_t)x + (uint64_t)y);
        case SUB:
            return (T)(U)((uint64_t)x - (uint64_t)y);
        case MUL:
            return (T)(U)((uint64_t)x * (uint64_t)y);
        case MIN_:
        case NANMIN:
            return sel<T>(x < y, x, y);
        case MAX_:
        case NANMAX:
            return sel<T>(x > y, x, y);
        case MOD:
        case REMAINDER:
            return (T)(x % y);
        case FLOORDIV:
        {
            if (y == 0)
                return 0;
            T q = (T)(x / y), r = (T)(x % y);
            if constexpr (std::is_signed_v<T>)
                return sel<T>((r != 0) & ((x < 0) != (y < 0)), (T)(q - 1), q);
            return q;
        }
        case AND:
            return (T)(x & y);
        case OR:
            return (T)(x | y);
        case XOR:
            return (T)(x ^ y);
        case ANDNOT:
            return (T)(x & ~y);
        case NOTAND:
            return (T)(~x & y);
        case LSHIFT:
            return (T)(x << (y & 63));
        case RSHIFT:
            return (T)(x >> (y & 63));
        }
    }
    sym_unsupported("harness: operator");
    return x;
}
template <typename T>
static int64_t asI64(PyObject * r, int64_t i)
{
    return (int64_t)at<T>(r, i);
}
// op, dtype, mode (0 arrays, 1 second scalar array, 2 first scalar array, 3 second Python scalar, 4 first Python scalar, 5 and 6 a Python integer as second or first operand of a float array),
// n, stride multiple of both inputs, output (0 new, 1 given, 2 first input)
extern "C" void c01()
{
    int op = sym_arg(0), dt = sym_arg(1), mode = sym_arg(2), n = sym_arg(3), sm1 = sym_arg(4), sm2 = sym_arg(5), outk = sym_arg(6);
    forType(dt,
            [&]<typename T>()
            {
                const int K = sizeof(T);
                bool s1 = mode == 2 || mode == 4 || mode == 6, s2 = mode == 1 || mode == 3 || mode == 5;
                int full = 200;
                PyArrayObject * a = newArr<T>(s1 ? 1 : n, "a", 3, s1 ? K : sm1 * K, full);
                PyArrayObject * b = newArr<T>(s2 ? 1 : n, "b", 8, s2 ? K : sm2 * K, full);
                int64_t na = s1 ? 1 : n, nb = s2 ? 1 : n;
                for (int64_t i = 0; i < n && i < full; i++)
                    sym_assume(okArgs<T>(op, at<T>(a, s1 ? 0 : i), at<T>(b, s2 ? 0 : i)));
                if (n > full)
                    for (int64_t i = 0; i < n; i++)
                        sym_assume(okArgs<T>(op, at<T>(a, s1 ? 0 : i), at<T>(b, s2 ? 0 : i)));
                T * ca = (T *)malloc((na + 1) * K);
                T * cb = (T *)malloc((nb + 1) * K);
                for (int64_t i = 0; i < na; i++)
                    ca[i] = at<T>(a, i);
                for (int64_t i = 0; i < nb; i++)
                    cb[i] = at<T>(b, i);
                PyObject *pa = A0(a), *pb = A0(b);
                auto scalar = [&](T v) -> PyObject *
                {
                    if constexpr (std::is_same_v<T, bool>)
                        return rt_bool(v);
                    else if constexpr (std::is_floating_point_v<T>)
                        return rt_float(v);
                    else if constexpr (std::is_unsigned_v<T>)
                        return PyLong_FromUnsignedLongLong(v);
                    else
                        return rt_int(v);
                };
                if (mode == 5 || mode == 6)
                {
                    // a Python integer against a floating-point array, up to 2^64-1
                    uint64_t u = sym_u64("int");
                    int kind = sym_choose("kind", 0, 1); // 1: 2^63 and above
                    sym_assume(kind == 0 || (int64_t)u < 0);
                    (mode == 5 ? pb : pa) = kind ? PyLong_FromUnsignedLongLong(u) : rt_int((int64_t)u);
                    T v;
                    if constexpr (std::is_floating_point_v<T>)
                        v = kind ? (T)(double)u : (T)(double)(int64_t)u;
                    else
                        v = 0;
                    (mode == 5 ? cb : ca)[0] = v;
                }
                if (mode == 3)
                    pb = scalar(cb[0]);
                if (mode == 4)
                    pa = scalar(ca[0]);
                PyObject * tup;
                PyArrayObject * o = nullptr;
                if (outk == 0)
                    tup = rt_tuple(2, pa, pb);
                else
                {
                    o = outk == 1 ? rt_array(dt, n) : outk == 2 ? a : b;
                    tup = rt_tuple(3, pa, pb, o);
                }
                PyObject * r = rt_call("BasicMathTwoInputs", 3, tup, rt_int(op), rt_int(dt));
                sym_assert(r != nullptr, "no exception");
                if (!r || !rt_isarray(r))
                {
                    sym_reach("declined"); // left to NumPy
                    return;
                }
                sym_assert(rt_len(r) == n, "result length");
                if (outk && sameType(rt_type(r), dt))
                    sym_assert(r == A0(o) || PyArray_DATA((PyArrayObject *)r) == PyArray_DATA(o), "result stored in the given array");
                if (op == DIV)
                {
                    int want = dt == NPY_FLOAT32 ? NPY_FLOAT32 : NPY_FLOAT64;
                    sym_assert(rt_type(r) == want, "result dtype");
                    for (int64_t i = 0; i < n; i++)
                    {
                        T x = ca[s1 ? 0 : i], y = cb[s2 ? 0 : i];
                        if (want == NPY_FLOAT32)
                            sym_assert(same<float>(at<float>(r, i), (float)x / (float)y), "quotient");
                        else
                            sym_assert(same<double>(at<double>(r, i), (double)x / (double)y), "quotient");
                    }
                }
                else if (op == SUBDATETIMES)
                {
                    sym_assert(rt_type(r) == NPY_FLOAT64, "result dtype");
                    for (int64_t i = 0; i < n; i++)
                    {
                        T x = ca[s1 ? 0 : i], y = cb[s2 ? 0 : i];
                        int bad = (x == 0) | isInvalid<T>(x) | (y == 0) | isInvalid<T>(y);
                        T d = (T)((uint64_t)x - (uint64_t)y);
                        sym_assert(same<double>(at<double>(r, i), sel<double>(bad, NAN, (double)d)), "time difference");
                    }
                }
                else if (op == SUBDATES)
                {
                    sym_assert(sameType(rt_type(r), dt), "result dtype");
                    for (int64_t i = 0; i < n; i++)
                    {
                        T x = ca[s1 ? 0 : i], y = cb[s2 ? 0 : i];
                        int bad = (x == 0) | isInvalid<T>(x) | (y == 0) | isInvalid<T>(y);
                        T d = (T)((uint64_t)x - (uint64_t)y);
                        sym_assert(at<T>(r, i) == sel<T>(bad, 0, d), "date difference");
                    }
                }
                else if ((op >= LAND && op <= LOR) && dt != NPY_BOOL)
                {
                    sym_assert(rt_type(r) == NPY_BOOL, "result dtype");
                    for (int64_t i = 0; i < n; i++)
                    {
                        int x = ca[s1 ? 0 : i] != 0, y = cb[s2 ? 0 : i] != 0;
                        int w = op == LAND ? (x & y) : op == LOR ? (x | y) : (x ^ y);
                        sym_assert(at<uint8_t>(r, i) == w, "logical result");
                    }
                    observe<uint8_t>("r", r);
                }
                else
                {
                    sym_assert(sameType(rt_type(r), dt), "result dtype");
                    if (!sameType(rt_type(r), dt))
                        return;
                    bool mm = op >= MIN_ && op <= NANMAX;
                    for (int64_t i = 0; i < n; i++)
                    {
                        T w = refSame<T>(op, ca[s1 ? 0 : i], cb[s2 ? 0 : i]);
                        sym_assert(mm ? sameVal<T>(at<T>(r, i), w) : same<T>(at<T>(r, i), w), "element");
                    }
                    observe<T>("r", r);
                }
                sym_reach("end");
            });
}
