#include <functional>
#include "solver.h"
#include "order.h"
#include <algorithm>
#include <chrono>
#include <unordered_set>
#include <z3.h>

SolverStats g_sstats;
unsigned g_queryTimeoutMs = 20000;

namespace
{
    Z3_context C;
    std::unordered_map<u32, Z3_ast> g_abs, g_prec; // expr id -> ast
    std::unordered_map<u32, Z3_ast> g_symAst;
    Z3_sort g_bv[129];
    Z3_sort g_fs[3];
    Z3_ast g_rm[5];
    void onErr(Z3_context c, Z3_error_code e)
    {
        fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
    }
    Z3_sort bv(unsigned w)
    {
        if (! g_bv[w])
        {
            g_bv[w] = Z3_mk_bv_sort(C, w);
            Z3_inc_ref(C, Z3_sort_to_ast(C, g_bv[w]));
        }
        return g_bv[w];
    }
    void init()
    {
        if (C)
            return;
        Z3_config cfg = Z3_mk_config();
        C = Z3_mk_context_rc(cfg);
        Z3_set_error_handler(C, onErr);
        auto keepS = [](Z3_sort s) {
            Z3_inc_ref(C, Z3_sort_to_ast(C, s));
            return s;
        };
        g_fs[0] = keepS(Z3_mk_fpa_sort(C, 8, 24));
        g_fs[1] = keepS(Z3_mk_fpa_sort(C, 11, 53));
        g_fs[2] = keepS(Z3_mk_fpa_sort(C, 15, 64));
        auto keep = [](Z3_ast a) {
            Z3_inc_ref(C, a);
            return a;
        };
        g_rm[0] = keep(Z3_mk_fpa_rne(C));
        g_rm[1] = keep(Z3_mk_fpa_rtn(C));
        g_rm[2] = keep(Z3_mk_fpa_rtp(C));
        g_rm[3] = keep(Z3_mk_fpa_rtz(C));
        g_rm[4] = keep(Z3_mk_fpa_rna(C));
    }
    // numerals are kept alive for the whole run
    Z3_ast mkC(u128 v, unsigned w)
    {
        static std::unordered_map<u64, Z3_ast> cache[129];
        bool small = (v >> 64) == 0;
        if (small)
        {
            auto it = cache[w].find((u64)v);
            if (it != cache[w].end())
                return it->second;
        }
        Z3_ast r;
        if (w <= 64)
            r = Z3_mk_unsigned_int64(C, (u64)v, bv(w));
        else
        {
            Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(v >> 64), bv(w - 64));
            Z3_inc_ref(C, hi);
            Z3_ast lo = Z3_mk_unsigned_int64(C, (u64)v, bv(64));
            Z3_inc_ref(C, lo);
            r = Z3_mk_concat(C, hi, lo);
        }
        Z3_inc_ref(C, r);
        if (small)
            cache[w][(u64)v] = r;
        return r;
    }
    int fidx(unsigned w)
    {
        return w == 32 ? 0 : w == 64 ? 1 : 2;
    }
    Z3_ast keepA(Z3_ast a)
    {
        Z3_inc_ref(C, a);
        return a;
    }
    // pattern -> fp
    Z3_ast toFp(Z3_ast a, unsigned w)
    {
        Z3_inc_ref(C, a);
        if (w != 80)
            return keepA(Z3_mk_fpa_to_fp_bv(C, a, g_fs[fidx(w)]));
        Z3_ast s = Z3_mk_extract(C, 79, 79, a);
        Z3_inc_ref(C, s);
        Z3_ast e = Z3_mk_extract(C, 78, 64, a);
        Z3_inc_ref(C, e);
        Z3_ast f = Z3_mk_extract(C, 62, 0, a);
        Z3_inc_ref(C, f);
        return keepA(Z3_mk_fpa_fp(C, s, e, f));
    }
    Z3_ast fromFp(Z3_ast f, unsigned w)
    {
        Z3_inc_ref(C, f);
        Z3_ast b = Z3_mk_fpa_to_ieee_bv(C, f);
        Z3_inc_ref(C, b);
        Z3_ast isnan = Z3_mk_fpa_is_nan(C, f);
        Z3_inc_ref(C, isnan);
        if (w == 32)
            return keepA(Z3_mk_ite(C, isnan, mkC(0x7fc00000u, 32), b));
        if (w == 64)
            return keepA(Z3_mk_ite(C, isnan, mkC(0x7ff8000000000000ull, 64), b));
        // 79 bit: s e15 f63 -> insert integer bit = (e != 0)
        Z3_ast se = Z3_mk_extract(C, 78, 63, b);
        Z3_inc_ref(C, se);
        Z3_ast e = Z3_mk_extract(C, 77, 63, b);
        Z3_inc_ref(C, e);
        Z3_ast fr = Z3_mk_extract(C, 62, 0, b);
        Z3_inc_ref(C, fr);
        Z3_ast z = mkC(0, 15);
        Z3_inc_ref(C, z);
        Z3_ast eq = Z3_mk_eq(C, e, z);
        Z3_inc_ref(C, eq);
        Z3_ast ib = Z3_mk_ite(C, eq, mkC(0, 1), mkC(1, 1));
        Z3_inc_ref(C, ib);
        Z3_ast lo = Z3_mk_concat(C, ib, fr);
        Z3_inc_ref(C, lo);
        Z3_ast all = Z3_mk_concat(C, se, lo);
        Z3_inc_ref(C, all);
        Z3_ast nanv = mkC(((u128)0x7fff << 64) | ((u128)3 << 62), 80);
        Z3_inc_ref(C, nanv);
        return keepA(Z3_mk_ite(C, isnan, nanv, all));
    }
    Z3_ast symAst(u32 id)
    {
        auto it = g_symAst.find(id);
        if (it != g_symAst.end())
            return it->second;
        char nm[32];
        snprintf(nm, sizeof nm, "s%u", id);
        Z3_ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bv(g_syms[id].width));
        Z3_inc_ref(C, a);
        g_symAst[id] = a;
        return a;
    }
    Z3_ast b2bv(Z3_ast b)
    {
        Z3_inc_ref(C, b);
        return Z3_mk_ite(C, b, mkC(1, 1), mkC(0, 1));
    }
    // all width-1 values are bv1 in the AST; boolean structure recovered by Z3 preprocessing
    Z3_ast build(Expr * root, bool precise)
    {
        auto & memo = precise ? g_prec : g_abs;
        std::vector<Expr *> st{ root };
        while (! st.empty())
        {
            Expr * e = st.back();
            if (memo.count(e->id))
            {
                st.pop_back();
                continue;
            }
            bool addZero = e->op == Op::FAdd && (isC(e->a, 0) || isC(e->b, 0)) && (e->width == 32 || e->width == 64);
            bool widen = e->op == Op::FExt && e->width == 64 && e->a->width == 32;
            bool abstracted = ! precise && e->op >= Op::FAdd && ! addZero && ! widen;
            if (e->op == Op::LibM)
                abstracted = true;
            Z3_ast r = nullptr;
            if (e->op == Op::Const)
                r = mkC(e->k, e->width);
            else if (e->op == Op::Sym)
                r = symAst(e->aux);
            else if (abstracted)
            {
                char nm[32];
                snprintf(nm, sizeof nm, "f%u", e->id);
                if (getenv("RSYM_DUMP"))
                {
                    std::function<std::string(Expr *, int)> str = [&](Expr * x, int d) -> std::string
                    {
                        if (! x)
                            return "";
                        if (x->op == Op::Const)
                            return std::to_string((u64)x->k) + ":" + std::to_string(x->width);
                        if (x->op == Op::Sym)
                            return "s" + std::to_string(x->aux);
                        if (! d)
                            return "...";
                        return "(" + std::to_string((int)x->op) + ":" + std::to_string(x->width) + " " + str(x->a, d - 1) + " " + str(x->b, d - 1) + " " + str(x->c, d - 1) + ")";
                    };
                    fprintf(stderr, "FP %s = %s\n", nm, str(e, 5).c_str());
                }
                r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bv(e->width));
            }
            else
            {
                bool ready = true;
                for (Expr * x : { e->a, e->b, e->c })
                    if (x && ! memo.count(x->id))
                    {
                        st.push_back(x);
                        ready = false;
                    }
                if (! ready)
                    continue;
                Z3_ast a = memo[e->a->id], b = e->b ? memo[e->b->id] : nullptr, c = e->c ? memo[e->c->id] : nullptr;
                switch (e->op)
                {
                case Op::Add: r = Z3_mk_bvadd(C, a, b); break;
                case Op::Sub: r = Z3_mk_bvsub(C, a, b); break;
                case Op::Mul: r = Z3_mk_bvmul(C, a, b); break;
                case Op::UDiv: r = Z3_mk_bvudiv(C, a, b); break;
                case Op::SDiv: r = Z3_mk_bvsdiv(C, a, b); break;
                case Op::URem: r = Z3_mk_bvurem(C, a, b); break;
                case Op::SRem: r = Z3_mk_bvsrem(C, a, b); break;
                case Op::And: r = Z3_mk_bvand(C, a, b); break;
                case Op::Or: r = Z3_mk_bvor(C, a, b); break;
                case Op::Xor:
                    if (isC(e->b, maskw(e->width)))
                        r = Z3_mk_bvnot(C, a);
                    else
                        r = Z3_mk_bvxor(C, a, b);
                    break;
                case Op::Shl: r = Z3_mk_bvshl(C, a, b); break;
                case Op::LShr: r = Z3_mk_bvlshr(C, a, b); break;
                case Op::AShr: r = Z3_mk_bvashr(C, a, b); break;
                case Op::Concat: r = Z3_mk_concat(C, a, b); break;
                case Op::Extract: r = Z3_mk_extract(C, e->aux + e->width - 1, e->aux, a); break;
                case Op::ZExt: r = Z3_mk_zero_ext(C, e->width - e->a->width, a); break;
                case Op::SExt: r = Z3_mk_sign_ext(C, e->width - e->a->width, a); break;
                case Op::Eq: r = b2bv(Z3_mk_eq(C, a, b)); break;
                case Op::Ult: r = b2bv(Z3_mk_bvult(C, a, b)); break;
                case Op::Ule: r = b2bv(Z3_mk_bvule(C, a, b)); break;
                case Op::Slt: r = b2bv(Z3_mk_bvslt(C, a, b)); break;
                case Op::Sle: r = b2bv(Z3_mk_bvsle(C, a, b)); break;
                case Op::Ite:
                    {
                        Z3_ast one = mkC(1, 1);
                        Z3_inc_ref(C, one);
                        Z3_ast q = Z3_mk_eq(C, a, one);
                        Z3_inc_ref(C, q);
                        r = Z3_mk_ite(C, q, b, c);
                        break;
                    }
                case Op::FAdd:
                    if (addZero)
                    {
                        // x + 0: a NaN becomes quiet, -0 becomes +0, everything else stays
                        Z3_ast x = isC(e->a, 0) ? b : a;
                        unsigned w = e->width, m = w == 32 ? 23 : 52;
                        u128 inf = (((u128)1 << (w - 1 - m)) - 1) << m;
                        Z3_ast mag = Z3_mk_extract(C, w - 2, 0, x);
                        Z3_inc_ref(C, mag);
                        Z3_ast nan = Z3_mk_bvugt(C, mag, mkC(inf, w - 1));
                        Z3_inc_ref(C, nan);
                        Z3_ast quiet = Z3_mk_bvor(C, x, mkC((u128)1 << (m - 1), w));
                        Z3_inc_ref(C, quiet);
                        Z3_ast neg0 = Z3_mk_eq(C, x, mkC((u128)1 << (w - 1), w));
                        Z3_inc_ref(C, neg0);
                        Z3_ast other = Z3_mk_ite(C, neg0, mkC(0, w), x);
                        Z3_inc_ref(C, other);
                        r = Z3_mk_ite(C, nan, quiet, other);
                        break;
                    }
                case Op::FSub:
                case Op::FMul:
                case Op::FDiv:
                    {
                        Z3_ast x = toFp(a, e->width), y = toFp(b, e->width);
                        Z3_inc_ref(C, x);
                        Z3_inc_ref(C, y);
                        Z3_ast z = e->op == Op::FAdd ? Z3_mk_fpa_add(C, g_rm[0], x, y) :
                                   e->op == Op::FSub ? Z3_mk_fpa_sub(C, g_rm[0], x, y) :
                                   e->op == Op::FMul ? Z3_mk_fpa_mul(C, g_rm[0], x, y) :
                                                       Z3_mk_fpa_div(C, g_rm[0], x, y);
                        r = fromFp(z, e->width);
                        break;
                    }
                case Op::FSqrt: r = fromFp(Z3_mk_fpa_sqrt(C, g_rm[0], toFp(a, e->width)), e->width); break;
                case Op::FRound: r = fromFp(Z3_mk_fpa_round_to_integral(C, g_rm[e->aux], toFp(a, e->width)), e->width); break;
                case Op::FExt:
                    if (widen)
                    {
                        auto K = [](Z3_ast z)
                        {
                            Z3_inc_ref(C, z);
                            return z;
                        };
                        Z3_ast sign = K(Z3_mk_extract(C, 31, 31, a)), ex = K(Z3_mk_extract(C, 30, 23, a)), man = K(Z3_mk_extract(C, 22, 0, a));
                        // denormals: shift the leading one into place
                        Z3_ast reg = K(Z3_mk_concat(C, mkC(0, 1), man)), sh = mkC(0, 11);
                        for (unsigned k = 16; k; k /= 2)
                        {
                            Z3_ast top = K(Z3_mk_eq(C, K(Z3_mk_extract(C, 23, 24 - k, reg)), mkC(0, k)));
                            reg = K(Z3_mk_ite(C, top, K(Z3_mk_bvshl(C, reg, mkC(k, 24))), reg));
                            sh = K(Z3_mk_ite(C, top, K(Z3_mk_bvadd(C, sh, mkC(k, 11))), sh));
                        }
                        Z3_ast den = K(Z3_mk_concat(C, K(Z3_mk_bvsub(C, mkC(897, 11), sh)), K(Z3_mk_extract(C, 22, 0, reg))));
                        Z3_ast man0 = K(Z3_mk_eq(C, man, mkC(0, 23)));
                        den = K(Z3_mk_ite(C, man0, mkC(0, 34), den));
                        Z3_ast nor = K(Z3_mk_concat(C, K(Z3_mk_bvadd(C, K(Z3_mk_zero_ext(C, 3, ex)), mkC(896, 11))), man));
                        Z3_ast qman = K(Z3_mk_ite(C, man0, man, K(Z3_mk_bvor(C, man, mkC(1u << 22, 23)))));
                        Z3_ast spe = K(Z3_mk_concat(C, mkC(2047, 11), qman));
                        Z3_ast low = K(Z3_mk_ite(C, K(Z3_mk_eq(C, ex, mkC(0, 8))), den, K(Z3_mk_ite(C, K(Z3_mk_eq(C, ex, mkC(255, 8))), spe, nor))));
                        r = Z3_mk_concat(C, sign, K(Z3_mk_concat(C, low, mkC(0, 29))));
                        break;
                    }
                case Op::FTrunc:
                    r = fromFp(Z3_mk_fpa_to_fp_float(C, g_rm[0], toFp(a, e->a->width), g_fs[fidx(e->width)]), e->width);
                    break;
                case Op::SToF: r = fromFp(Z3_mk_fpa_to_fp_signed(C, g_rm[0], a, g_fs[fidx(e->width)]), e->width); break;
                case Op::UToF: r = fromFp(Z3_mk_fpa_to_fp_unsigned(C, g_rm[0], a, g_fs[fidx(e->width)]), e->width); break;
                case Op::FToS:
                    {
                        // x86: out of range or NaN -> INT_MIN
                        Z3_ast x = toFp(a, e->a->width);
                        Z3_inc_ref(C, x);
                        Z3_ast t = Z3_mk_fpa_round_to_integral(C, g_rm[3], x);
                        Z3_inc_ref(C, t);
                        Z3_sort fs = g_fs[fidx(e->a->width)];
                        Z3_ast lim = Z3_mk_fpa_numeral_double(C, std::ldexp(1.0, e->width - 1), fs);
                        Z3_inc_ref(C, lim);
                        Z3_ast nlim = Z3_mk_fpa_neg(C, lim);
                        Z3_inc_ref(C, nlim);
                        Z3_ast lt = Z3_mk_fpa_lt(C, t, lim);
                        Z3_inc_ref(C, lt);
                        Z3_ast ge = Z3_mk_fpa_geq(C, t, nlim);
                        Z3_inc_ref(C, ge);
                        Z3_ast args[2] = { lt, ge };
                        Z3_ast ok = Z3_mk_and(C, 2, args);
                        Z3_inc_ref(C, ok);
                        Z3_ast v = Z3_mk_fpa_to_sbv(C, g_rm[3], x, e->width);
                        Z3_inc_ref(C, v);
                        r = Z3_mk_ite(C, ok, v, mkC((u128)1 << (e->width - 1), e->width));
                        break;
                    }
                default: abort();
                }
            }
            Z3_inc_ref(C, r);
            memo[e->id] = r;
            st.pop_back();
        }
        return memo[root->id];
    }
    Z3_ast asBool(Expr * e, bool precise)
    {
        Z3_ast a = build(e, precise);
        Z3_ast one = mkC(1, 1);
        Z3_inc_ref(C, one);
        Z3_ast q = Z3_mk_eq(C, a, one);
        return q;
    }
    u128 numeral(Z3_ast v, unsigned w)
    {
        u64 x = 0;
        if (w <= 64)
        {
            if (Z3_get_numeral_uint64(C, v, &x))
                return x;
        }
        std::string s = Z3_get_numeral_string(C, v);
        u128 r = 0;
        for (char ch : s)
            r = r * 10 + (ch - '0');
        return r;
    }
    u128 modelVal(Z3_model m, Z3_ast a, unsigned w)
    {
        Z3_ast out = nullptr;
        if (! Z3_model_eval(C, m, a, true, &out))
            return 0;
        Z3_inc_ref(C, out);
        u128 v = numeral(out, w);
        Z3_dec_ref(C, out);
        return v;
    }
    void collectFP(Expr * root, std::unordered_set<u32> & seen, std::vector<Expr *> & out)
    {
        std::vector<Expr *> st{ root };
        while (! st.empty())
        {
            Expr * e = st.back();
            st.pop_back();
            if (! e || ! e->hasFP || ! seen.insert(e->id).second)
                continue;
            if (e->op >= Op::FAdd)
                out.push_back(e);
            st.push_back(e->a);
            st.push_back(e->b);
            st.push_back(e->c);
        }
    }
    Z3_solver newSolver(const char * logic, unsigned timeout)
    {
        Z3_solver s = logic ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic)) : Z3_mk_solver(C);
        Z3_solver_inc_ref(C, s);
        Z3_params p = Z3_mk_params(C);
        Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeout);
        Z3_solver_set_params(C, s, p);
        Z3_params_dec_ref(C, p);
        return s;
    }
    bool allTrue(const std::vector<Expr *> & cs, Model & m)
    {
        m.memo.clear();
        for (Expr * e : cs)
            if (! evalExpr(e, m))
                return false;
        return true;
    }

    struct CacheEnt
    {
        std::vector<u32> key;
        Res r;
        std::unordered_map<u32, u128> model;
    };
    std::unordered_map<u64, std::vector<CacheEnt>> g_cache;

    // Small queries go to one solver that keeps the translated constraints, each guarded by a literal. Renewed when it has grown.
    Z3_solver g_inc = nullptr;
    std::unordered_map<u32, Z3_ast> g_guard;
    u64 g_incSize = 0;
    bool incremental(const std::vector<Expr *> & cs, const std::vector<u32> & syms, Model & m, Res & res)
    {
        if (g_inc && g_incSize > 6000)
        {
            Z3_solver_dec_ref(C, g_inc);
            g_inc = nullptr;
            for (auto & g : g_guard)
                Z3_dec_ref(C, g.second);
            g_guard.clear();
        }
        if (! g_inc)
        {
            g_inc = newSolver("QF_BV", 250);
            g_incSize = 0;
            // the solver works incrementally from the start
            Z3_solver_push(C, g_inc);
        }
        std::vector<Z3_ast> as;
        for (Expr * e : cs)
        {
            auto it = g_guard.find(e->id);
            if (it == g_guard.end())
            {
                Z3_ast b = asBool(e, false);
                Z3_inc_ref(C, b);
                Z3_ast l = Z3_mk_fresh_const(C, "g", Z3_mk_bool_sort(C));
                Z3_inc_ref(C, l);
                Z3_ast imp = Z3_mk_implies(C, l, b);
                Z3_inc_ref(C, imp);
                Z3_solver_assert(C, g_inc, imp);
                Z3_dec_ref(C, imp);
                it = g_guard.emplace(e->id, l).first;
                g_incSize += e->size;
            }
            as.push_back(it->second);
        }
        Z3_lbool r = Z3_solver_check_assumptions(C, g_inc, as.size(), as.data());
        if (r == Z3_L_FALSE)
        {
            res = Res::Unsat;
            return true;
        }
        if (r != Z3_L_TRUE)
            return false;
        Z3_model zm = Z3_solver_get_model(C, g_inc);
        Z3_model_inc_ref(C, zm);
        m.v.clear();
        m.memo.clear();
        for (u32 id : syms)
            m.v[id] = modelVal(zm, symAst(id), g_syms[id].width);
        Z3_model_dec_ref(C, zm);
        if (! allTrue(cs, m))
            return false;
        res = Res::Sat;
        return true;
    }

    Res solveRaw(const std::vector<Expr *> & cs, const std::vector<u32> & syms, Model & m)
    {
        init();
        bool fp = false;
        for (Expr * e : cs)
            fp |= e->hasFP;
        auto fill = [&](Z3_solver s) {
            Z3_model zm = Z3_solver_get_model(C, s);
            Z3_model_inc_ref(C, zm);
            m.v.clear();
            m.memo.clear();
            for (u32 id : syms)
                m.v[id] = modelVal(zm, symAst(id), g_syms[id].width);
            Z3_model_dec_ref(C, zm);
        };
        Res res = Res::Unknown;
        if (! fp)
        {
            u64 total = 0;
            for (Expr * e : cs)
                total += e->size;
            // not tried for a while after it was slow
            static int rest = 0;
            if (total < 4000 && --rest < 0)
            {
                auto t0 = std::chrono::steady_clock::now();
                bool done = incremental(cs, syms, m, res);
                if (! done || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0.1)
                    rest = 100;
                if (done)
                    return res;
            }
        }
        Z3_solver s = newSolver("QF_BV", g_queryTimeoutMs);
        for (Expr * e : cs)
            Z3_solver_assert(C, s, asBool(e, false));
        if (getenv("RSYM_DUMP"))
            fprintf(stderr, "QUERY %s\n", Z3_solver_to_string(C, s));
        if (! fp)
        {
            Z3_lbool r = Z3_solver_check(C, s);
            if (r == Z3_L_FALSE)
                res = Res::Unsat;
            else if (r == Z3_L_TRUE)
            {
                fill(s);
                if (allTrue(cs, m))
                    res = Res::Sat;
                else
                {
                    g_sstats.validationFailures++;
                    fprintf(stderr, "solver model does not satisfy the query\n");
                }
            }
            Z3_solver_dec_ref(C, s);
            return res;
        }
        g_sstats.fpQueries++;
        std::vector<Expr *> fps;
        std::unordered_set<u32> seen;
        for (Expr * e : cs)
            collectFP(e, seen, fps);
        // equal arguments give equal results
        if (fps.size() <= 24)
            for (size_t i = 0; i < fps.size(); i++)
                for (size_t j = 0; j < i; j++)
                {
                    Expr *x = fps[i], *y = fps[j];
                    if (x->op != y->op || x->width != y->width || x->aux != y->aux || x->a->width != y->a->width || ! x->b != ! y->b)
                        continue;
                    auto K = [](Z3_ast z)
                    {
                        Z3_inc_ref(C, z);
                        return z;
                    };
                    Z3_ast cond = K(Z3_mk_eq(C, build(x->a, false), build(y->a, false)));
                    if (x->b)
                    {
                        Z3_ast args[2] = { cond, K(Z3_mk_eq(C, build(x->b, false), build(y->b, false))) };
                        cond = K(Z3_mk_and(C, 2, args));
                    }
                    Z3_solver_assert(C, s, Z3_mk_implies(C, cond, K(Z3_mk_eq(C, build(x, false), build(y, false)))));
                }
        for (int iter = 0; iter < 24; iter++)
        {
            Z3_lbool r = Z3_solver_check(C, s);
            if (r == Z3_L_FALSE)
            {
                res = Res::Unsat;
                break;
            }
            if (r != Z3_L_TRUE)
                break;
            fill(s);
            if (allTrue(cs, m))
            {
                res = Res::Sat;
                break;
            }
            // lemmas: at these argument values the operation has this result
            for (Expr * f : fps)
            {
                u128 av = evalExpr(f->a, m), bvv = f->b ? evalExpr(f->b, m) : 0;
                u128 rv = evalExpr(f, m);
                Z3_ast cond = Z3_mk_eq(C, build(f->a, false), mkC(av, f->a->width));
                Z3_inc_ref(C, cond);
                if (f->b)
                {
                    Z3_ast c2 = Z3_mk_eq(C, build(f->b, false), mkC(bvv, f->b->width));
                    Z3_inc_ref(C, c2);
                    Z3_ast args[2] = { cond, c2 };
                    cond = Z3_mk_and(C, 2, args);
                    Z3_inc_ref(C, cond);
                }
                Z3_ast val = mkC(rv, f->width);
                Z3_inc_ref(C, val);
                Z3_ast eq = Z3_mk_eq(C, build(f, false), val);
                Z3_inc_ref(C, eq);
                Z3_solver_assert(C, s, Z3_mk_implies(C, cond, eq));
            }
        }
        Z3_solver_dec_ref(C, s);
        if (res != Res::Unknown)
            return res;
        // exact floating point
        g_sstats.fpPrecise++;
        s = newSolver("QF_BVFP", g_queryTimeoutMs);
        for (Expr * e : cs)
            Z3_solver_assert(C, s, asBool(e, true));
        Z3_lbool r = Z3_solver_check(C, s);
        if (r == Z3_L_FALSE)
            res = Res::Unsat;
        else if (r == Z3_L_TRUE)
        {
            fill(s);
            if (allTrue(cs, m))
                res = Res::Sat;
            else
                g_sstats.validationFailures++;
        }
        Z3_solver_dec_ref(C, s);
        return res;
    }
}

void slice(const std::vector<Expr *> & pc, Expr * e, std::vector<Expr *> & out)
{
    if (e->syms->empty())
        return;
    std::unordered_set<u32> S(e->syms->begin(), e->syms->end());
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++)
            if (! used[i])
            {
                bool hit = false;
                for (u32 s : *pc[i]->syms)
                    if (S.count(s))
                    {
                        hit = true;
                        break;
                    }
                if (hit)
                {
                    used[i] = 1;
                    ch = true;
                    for (u32 s : *pc[i]->syms)
                        S.insert(s);
                }
            }
    }
    for (size_t i = 0; i < pc.size(); i++)
        if (used[i])
            out.push_back(pc[i]);
}

Res solve(const std::vector<Expr *> & cs0, Model & m)
{
    std::vector<Expr *> cs;
    std::vector<u32> key;
    for (Expr * e : cs0)
    {
        if (isC(e, 1))
            continue;
        if (isC(e, 0))
            return Res::Unsat;
        cs.push_back(e);
    }
    std::sort(cs.begin(), cs.end(), [](Expr * a, Expr * b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    m.v.clear();
    m.memo.clear();
    if (cs.empty())
        return Res::Sat;
    u64 h = 1469598103934665603ull;
    for (Expr * e : cs)
    {
        key.push_back(e->id);
        h = (h ^ e->id) * 1099511628211ull;
    }
    auto & bucket = g_cache[h];
    for (auto & c : bucket)
        if (c.key == key)
        {
            g_sstats.cacheHits++;
            m.v = c.model;
            return c.r;
        }
    std::vector<u32> syms;
    {
        std::unordered_set<u32> S;
        for (Expr * e : cs)
            for (u32 s : *e->syms)
                if (S.insert(s).second)
                    syms.push_back(s);
    }
    g_sstats.queries++;
    auto t0 = std::chrono::steady_clock::now();
    Res r;
    int o = orderSolve(cs, m);
    if (o >= 0)
    {
        g_sstats.order++;
        r = o ? Res::Sat : Res::Unsat;
        static bool cross = getenv("RSYM_CHECKORDER");
        if (cross)
        {
            Model m2;
            if (solveRaw(cs, syms, m2) != r)
                fprintf(stderr, "order solver disagrees\n");
        }
    }
    else
        r = solveRaw(cs, syms, m);
    g_sstats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    (r == Res::Sat ? g_sstats.sat : r == Res::Unsat ? g_sstats.unsat : g_sstats.unknown)++;
    bucket.push_back({ key, r, m.v });
    return r;
}
