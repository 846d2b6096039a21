// C04: ConvertSafe / ConvertUnsafe.
#include "h.h"
// safe, dt in, dt out, n, layout, how (0 direct, 1 ensure: not used)
extern "C" void c04()
{
    int safe = sym_arg(0), d1 = sym_arg(1), d2 = sym_arg(2), n0 = sym_arg(3), layout = sym_arg(4);
    forType(d1,
            [&]<typename A>()
            {
                forType(d2,
                        [&]<typename B>()
                        {
                            Shaped<A> a(d1, n0, layout, "a");
                            A * c = a.copy();
                            PyObject * r = rt_call(safe ? "ConvertSafe" : "ConvertUnsafe", 2, A0(a.a), rt_int(d2));
                            sym_assert(r != nullptr, "no exception");
                            if (!r || !rt_isarray(r))
                                return;
                            PyArrayObject * q = (PyArrayObject *)r;
                            sym_assert(q != a.a, "a new array");
                            sym_assert(sameType(rt_type(r), d2), "result dtype");
                            sym_assert(rt_len(r) == a.n && PyArray_NDIM(q) == PyArray_NDIM(a.a) && PyArray_DIM(q, 0) == a.d0, "result shape");
                            for (int64_t i = 0; i < a.d0; i++)
                                for (int64_t j = 0; j < a.d1; j++)
                                {
                                    A x = c[i * a.d1 + j];
                                    int ok;
                                    B w = conv<A, B>(safe, x, ok);
                                    sym_assert(same(at2<B>(r, i, j), w) | !ok, "converted value");
                                    sym_assert(same(a.at(i, j), x), "input unchanged");
                                }
                            if (!a.two && !(std::is_floating_point_v<A> && !std::is_floating_point_v<B>))
                                observe<B>("r", r);
                            sym_reach("end");
                        });
            });
}
