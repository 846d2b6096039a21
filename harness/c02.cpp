// C02: the six comparison operators through BasicMathTwoInputs.
#include "h.h"
enum
{
    EQ = 401,
    NE,
    LT,
    GT,
    LE,
    GE
};
template <typename A, typename B>
static int ref(int op, A x, B y)
{
    int lt, eq;
    if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>)
    {
        double a = (double)x, b = (double)y;
        lt = a < b;
        eq = a == b;
        int gt = a > b;
        switch (op)
        {
        case EQ:
            return eq;
        case NE:
            return !eq;
        case LT:
            return lt;
        case GT:
            return gt;
        case LE:
            return lt | eq;
        default:
            return gt | eq;
        }
    }
    else if constexpr (std::is_same_v<A, B>)
    {
        lt = x < y;
        eq = x == y;
    }
    else if constexpr (std::is_signed_v<A> && !std::is_signed_v<B>)
    {
        lt = (x < 0) | ((uint64_t)x < (uint64_t)y);
        eq = (x >= 0) & ((uint64_t)x == (uint64_t)y);
    }
    else if constexpr (!std::is_signed_v<A> && std::is_signed_v<B>)
    {
        lt = (y >= 0) & ((uint64_t)x < (uint64_t)y);
        eq = (y >= 0) & ((uint64_t)x == (uint64_t)y);
    }
    else
    {
        lt = x < y;
        eq = x == y;
    }
    switch (op)
    {
    case EQ:
        return eq;
    case NE:
        return !eq;
    case LT:
        return lt;
    case GT:
        return !lt & !eq;
    case LE:
        return lt | eq;
    default:
        return !lt;
    }
}
// op, dt1, dt2, mode (as in c01), n, stride multiples, output (0 new, 1 given)
extern "C" void c02()
{
    int op = sym_arg(0), d1 = sym_arg(1), d2 = sym_arg(2), mode = sym_arg(3), n = sym_arg(4), sm1 = sym_arg(5), sm2 = sym_arg(6), outk = sym_arg(7);
    forType(d1,
            [&]<typename A>()
            {
                forType(d2,
                        [&]<typename B>()
                        {
                            bool s1 = mode == 2 || mode == 4, s2 = mode == 1 || mode == 3;
                            PyArrayObject * a = newArr<A>(s1 ? 1 : n, "a", 3, (s1 ? 1 : sm1) * (int)sizeof(A), 200);
                            PyArrayObject * b = newArr<B>(s2 ? 1 : n, "b", 8, (s2 ? 1 : sm2) * (int)sizeof(B), 200);
                            auto scalar = [&]<typename T>(T v) -> PyObject *
                            {
                                if constexpr (std::is_same_v<T, bool>)
                                    return rt_bool(v);
                                else if constexpr (std::is_floating_point_v<T>)
                                    return rt_float(v);
                                else if constexpr (std::is_unsigned_v<T>)
                                    return PyLong_FromUnsignedLongLong(v);
                                else
                                    return rt_int(v);
                            };
                            if (n > 200 && s1)
                                at<A>(a, 0) = (A)-1; // the small arrays cover every scalar
                            if (n > 200 && s2)
                                at<B>(b, 0) = (B)40;
                            bool mixed = d1 != d2 && !(sizeof(A) == 8 && sizeof(B) == 8 && d1 < 11 && d2 < 11);
                            if (mixed)
                                // differing dtypes are converted to a common one first; invalid markers are C04's subject
                                for (int i = 0; i < n; i++)
                                {
                                    sym_assume(!isInvalid<A>(at<A>(a, s1 ? 0 : i)));
                                    sym_assume(!isInvalid<B>(at<B>(b, s2 ? 0 : i)));
                                }
                            PyObject *pa = A0(a), *pb = A0(b);
                            if (mode == 3)
                                pb = scalar(at<B>(b, 0));
                            if (mode == 4)
                                pa = scalar(at<A>(a, 0));
                            PyArrayObject * o = outk ? rt_array(NPY_BOOL, n) : nullptr;
                            PyObject * r = rt_call("BasicMathTwoInputs", 3, outk ? rt_tuple(3, pa, pb, o) : rt_tuple(2, pa, pb), rt_int(op), rt_int(0));
                            sym_assert(r != nullptr, "no exception");
                            if (!r || !rt_isarray(r))
                            {
                                sym_reach("declined");
                                return;
                            }
                            sym_assert(rt_len(r) == n && rt_type(r) == NPY_BOOL, "boolean result of the same length");
                            for (int64_t i = 0; i < n; i++)
                                sym_assert(at<uint8_t>(r, i) == ref<A, B>(op, at<A>(a, s1 ? 0 : i), at<B>(b, s2 ? 0 : i)), "truth value");
                            observe<uint8_t>("r", r);
                            sym_reach("end");
                        });
            });
}
