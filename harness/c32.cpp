// C32: InterpExtrap2d.
#include "h.h"
// dtype, rows, knots, clip, mode (1: the knots shared by all rows, 2: knots for each row), layout of x, worker blocks
extern "C" void c32()
{
    int dt = sym_arg(0);
    int64_t n = sym_arg(1), m = sym_arg(2), clip = sym_arg(3), mode = sym_arg(4), layout = sym_arg(5);
    if (sym_arg(6))
        rt_share(1, sym_arg(6));
    forType(dt,
            [&]<typename T>()
            {
                if constexpr (std::is_floating_point_v<T>)
                {
                    Shaped<T> x(dt, n, layout, "x", 3, 16);
                    int64_t rows = mode == 2 ? n : 1;
                    npy_intp d[2] = { rows, m };
                    PyArrayObject *xp, *yp;
                    if (mode == 2)
                        xp = rt_array2(dt, n, m, false), yp = rt_array2(dt, n, m, false);
                    else
                        xp = rt_array(dt, m), yp = rt_array(dt, m);
                    T *kx = D<T>(xp), *ky = D<T>(yp);
                    int64_t probe = -1;
                    if (n <= 16)
                    {
                        symFill(kx, rows * m, "xp");
                        symFill(ky, rows * m, "yp");
                        for (int64_t r = 0; r < rows; r++)
                            for (int64_t j = 0; j < m; j++)
                            {
                                T v = kx[r * m + j];
                                sym_assume((v > (T)-1e6) & (v < (T)1e6));
                                if (j)
                                    sym_assume(v > kx[r * m + j - 1]);
                                sym_assume(ky[r * m + j] == ky[r * m + j]);
                            }
                    }
                    else
                    {
                        for (int64_t r = 0; r < rows; r++)
                            for (int64_t j = 0; j < m; j++)
                            {
                                kx[r * m + j] = (T)(j * 4 + r % 3);
                                ky[r * m + j] = (T)((j * j * 3 + r) % 17);
                            }
                        for (int64_t i = 0; i < n; i++)
                            x.row(i) = (T)(i % 13) - 2;
                        probe = probeAt(n, sym_choose("probe", 0, NPROBE - 1));
                        symFill(&x.row(probe), 1, "x");
                    }
                    T * q = x.rows();
                    PyObject * res = clip < 0 ? rt_call("InterpExtrap2d", 3, A0(x.a), A0(xp), A0(yp)) : rt_call("InterpExtrap2d", 4, A0(x.a), A0(xp), A0(yp), rt_int(clip));
                    if (!res)
                    {
                        sym_assert(rt_error() != nullptr && (m < 2 || (layout != 1 && layout != 0)), "declined with an error");
                        sym_reach("declined");
                        rt_clear();
                        return;
                    }
                    sym_reach("end");
                    sym_assert(rt_isarray(res) && rt_type(res) == dt && rt_len(res) == n, "a result for every row");
                    int ok = 1;
                    for (int64_t i = 0; i < n; i++)
                    {
                        T *p = kx + (mode == 2 ? i * m : 0), *y = ky + (mode == 2 ? i * m : 0), v = q[i], got = D<T>(res)[i];
                        if (v != v)
                        {
                            sym_assert(isNan(got), "NaN for NaN");
                            continue;
                        }
                        // the segment that brackets x
                        int64_t s = 0;
                        while (s < m && p[s] < v)
                            s++;
                        T want;
                        if (s == 0 && clip > 0)
                            want = y[0];
                        else if (s == m && clip > 0)
                            want = y[m - 1];
                        else if (s == 0)
                            want = y[0] + (y[1] - y[0]) / (p[1] - p[0]) * (v - p[0]);
                        else if (s == m)
                            want = y[m - 1] + (y[m - 1] - y[m - 2]) / (p[m - 1] - p[m - 2]) * (v - p[m - 1]);
                        else
                            want = (y[s] - y[s - 1]) * (v - p[s - 1]) / (p[s] - p[s - 1]) + y[s - 1];
                        if (n <= 16)
                            sym_assert(sym_known(same<T>(got, want)) || same<T>(got, want), "value on the segment");
                        else
                            ok &= same<T>(got, want);
                    }
                    sym_assert(ok, "every row");
                }
            });
}
