// Symbolic executor: runs KFuncs over States, forking on undecided branches.
#include "engine.h"
#include "gf2.h"
#include <algorithm>
#include <chrono>
#include <cxxabi.h>
#include <fstream>
#include <sstream>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace llvm;

// ---------------------------------------------------------------- globals
static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout * DLp;
static std::unordered_map<const Function *, KFunc *> g_funcs;
static std::vector<KFunc *> g_byAddr;
static std::unordered_map<const GlobalValue *, u64> g_gaddr;
static std::set<std::string> g_repoDefs;
static std::map<std::string, std::string> g_redirect;
static std::vector<i64> g_args;
static double g_deadline = 1e18;
static bool g_trace = false;
static bool g_inInit = true;
static std::map<std::string, std::vector<u128>> g_fixed; // concrete-run values
static bool g_concreteRun = false;
static u32 g_maxSwitches = 2;
static u32 g_sampleWanted = 2;
static u64 g_maxSteps = 400000000ull;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void fatal(const std::string & s)
{
    fprintf(stderr, "rsym: fatal: %s\n", s.c_str());
    fflush(stderr);
    _exit(3);
}

struct Terminate
{
    int kind; // 0 ok, 1 error path (violation recorded), 2 infeasible/assume, 3 unsupported, 4 limit
    std::string why;
};
struct Violation
{
    std::string kind, msg, where;
    std::vector<std::pair<std::string, std::pair<int, u128>>> vals;
    bool validated;
};
struct JobResult
{
    u64 paths = 0, infeasible = 0, errpaths = 0, unsupported = 0, limit = 0, forks = 0, steps = 0;
    u64 assertsChecked = 0, assertsTrivial = 0, assertsProved = 0, assertsUnknown = 0, memChecks = 0, linearProved = 0;
    std::vector<Violation> viol;
    std::map<std::string, int> reach;
    std::map<std::string, int> problems;
    std::vector<std::string> samples;
    bool timeout = false;
    u32 maxSyms = 0;
} g_res;
static std::vector<State *> g_stack;

static std::string demangle(const std::string & n)
{
    int st = 0;
    char * d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    if (! d)
        return n;
    std::string r = d;
    free(d);
    return r;
}

// ---------------------------------------------------------------- values
static inline Expr * toE(const Val & v, unsigned w)
{
    return v.e ? v.e : mkConst(v.c, w);
}
static inline Val fromE(Expr * e)
{
    if (e->op == Op::Const && e->width <= 64)
        return { nullptr, (u64)e->k };
    return { e, 0 };
}
static inline bool isConc(const Val & v)
{
    return ! v.e || v.e->op == Op::Const;
}
static inline u128 concV(const Val & v)
{
    return v.e ? v.e->k : v.c;
}
static inline i64 sx64(u64 v, unsigned w)
{
    if (w >= 64)
        return (i64)v;
    u64 m = 1ull << (w - 1);
    return (i64)(((v & mask64(w)) ^ m) - m);
}
// x86 masks shift amounts; for other widths an amount past the width is poison, taken modulo the width
static inline u32 shamt(u64 y, u32 w)
{
    return (w & (w - 1)) == 0 ? (u32)(y & (w - 1)) : (u32)(y % w);
}
static Val binop(Op op, unsigned w, const Val & a, const Val & b)
{
    if (! a.e && ! b.e)
    {
        u64 x = a.c, y = b.c, m = mask64(w);
        switch (op)
        {
        case Op::Add: return { nullptr, (x + y) & m };
        case Op::Sub: return { nullptr, (x - y) & m };
        case Op::Mul: return { nullptr, (x * y) & m };
        case Op::And: return { nullptr, x & y };
        case Op::Or: return { nullptr, x | y };
        case Op::Xor: return { nullptr, x ^ y };
        case Op::Shl: return { nullptr, (x << (shamt(y, w))) & m };
        case Op::LShr: return { nullptr, x >> (shamt(y, w)) };
        case Op::AShr: return { nullptr, (u64)(sx64(x, w) >> (shamt(y, w))) & m };
        case Op::Eq: return { nullptr, x == y };
        case Op::Ult: return { nullptr, x < y };
        case Op::Ule: return { nullptr, x <= y };
        case Op::Slt: return { nullptr, sx64(x, w) < sx64(y, w) };
        case Op::Sle: return { nullptr, sx64(x, w) <= sx64(y, w) };
        default: break;
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    if (op == Op::Shl || op == Op::LShr || op == Op::AShr)
    {
        if ((w & (w - 1)) == 0)
            y = mk2(Op::And, y, mkConst(w - 1, w));
    }
    return fromE(mk2(op, x, y));
}
static double asD(u64 c)
{
    double d;
    memcpy(&d, &c, 8);
    return d;
}
static float asF(u64 c)
{
    float d;
    u32 x = (u32)c;
    memcpy(&d, &x, 4);
    return d;
}
static u64 dBits(double d)
{
    if (d != d)
        return 0x7ff8000000000000ull;
    u64 c;
    memcpy(&c, &d, 8);
    return c;
}
static u64 fBits(float d)
{
    if (d != d)
        return 0x7fc00000u;
    u32 c;
    memcpy(&c, &d, 4);
    return c;
}
static Val fbin(Op op, unsigned w, const Val & a, const Val & b)
{
    if (! a.e && ! b.e)
    {
        if (w == 64)
        {
            double x = asD(a.c), y = asD(b.c);
            return { nullptr, dBits(op == Op::FAdd ? x + y : op == Op::FSub ? x - y : op == Op::FMul ? x * y : x / y) };
        }
        if (w == 32)
        {
            float x = asF(a.c), y = asF(b.c);
            return { nullptr, fBits(op == Op::FAdd ? x + y : op == Op::FSub ? x - y : op == Op::FMul ? x * y : x / y) };
        }
    }
    return fromE(mkF(op, w, toE(a, w), toE(b, w)));
}
static Val fcast(unsigned from, unsigned to, const Val & a)
{
    if (! a.e)
    {
        if (from == 32 && to == 64)
            return { nullptr, dBits((double)asF(a.c)) };
        if (from == 64 && to == 32)
            return { nullptr, fBits((float)asD(a.c)) };
    }
    return fromE(mkF(from < to ? Op::FExt : Op::FTrunc, to, toE(a, from)));
}
static Val ftoi(unsigned fw, unsigned iw, bool uns, const Val & a)
{
    Expr * x = toE(a, fw);
    if (! uns || iw < 32)
    {
        if (iw <= 32)
            return fromE(mkExtract(mkF(Op::FToS, 32, x), 0, iw));
        return fromE(mkF(Op::FToS, 64, x));
    }
    if (iw == 32)
        return fromE(mkExtract(mkF(Op::FToS, 64, x), 0, 32));
    // x86 sequence for 64-bit unsigned
    Expr * lim;
    if (fw == 32)
        lim = mkConst(fBits(9223372036854775808.0f), 32);
    else if (fw == 64)
        lim = mkConst(dBits(9223372036854775808.0), 64);
    else
        lim = mkConst(((u128)(16383 + 63) << 64) | ((u128)1 << 63), 80);
    Expr * ge = mk2(Op::Or, mkFLt(lim, x), mkFOeq(lim, x));
    Expr * lo = mkF(Op::FToS, 64, x);
    Expr * hi = mk2(Op::Xor, mkF(Op::FToS, 64, mkF(Op::FSub, fw, x, lim)), mkConst(1ull << 63, 64));
    return fromE(mkIte(ge, hi, lo));
}
static Val itof(unsigned iw, unsigned fw, bool uns, const Val & a)
{
    Expr * x = toE(a, iw);
    if (uns && iw == 64)
        return fromE(mkF(Op::UToF, fw, x));
    x = uns ? mkZExt(x, 64) : mkSExt(x, 64);
    return fromE(mkF(Op::SToF, fw, x));
}
static Val fcmp(unsigned pred, unsigned w, const Val & a, const Val & b)
{
    // pred bits: 1 eq, 2 gt, 4 lt, 8 uno
    if (! a.e && ! b.e && (w == 32 || w == 64))
    {
        double x = w == 64 ? asD(a.c) : asF(a.c), y = w == 64 ? asD(b.c) : asF(b.c);
        bool r = (x != x || y != y) ? (pred & 8) : x == y ? (pred & 1) : x > y ? (pred & 2) : (pred & 4);
        return { nullptr, r ? 1u : 0u };
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    Expr * r = mkConst(0, 1);
    unsigned p = pred;
    if (p == 15)
        return { nullptr, 1 };
    if (p == 0)
        return { nullptr, 0 };
    if (p & 8)
    {
        // unordered or <rest> == not (ordered and not rest)
        unsigned inv = (~p) & 7;
        Expr * o = mkConst(0, 1);
        if (inv == 7)
            o = mk2(Op::And, mkNot(mkFIsNan(x)), mkNot(mkFIsNan(y)));
        else
        {
            if (inv & 1)
                o = mk2(Op::Or, o, mkFOeq(x, y));
            if (inv & 2)
                o = mk2(Op::Or, o, mkFLt(y, x));
            if (inv & 4)
                o = mk2(Op::Or, o, mkFLt(x, y));
        }
        return fromE(mkNot(o));
    }
    if (p == 7)
        r = mk2(Op::And, mkNot(mkFIsNan(x)), mkNot(mkFIsNan(y)));
    else
    {
        if (p & 1)
            r = mk2(Op::Or, r, mkFOeq(x, y));
        if (p & 2)
            r = mk2(Op::Or, r, mkFLt(y, x));
        if (p & 4)
            r = mk2(Op::Or, r, mkFLt(x, y));
    }
    return fromE(r);
}
static Val icmp(unsigned pred, unsigned w, const Val & a, const Val & b)
{
    auto neg = [](Val v) { return v.e ? fromE(mkNot(v.e)) : Val{ nullptr, v.c ^ 1 }; };
    switch (pred)
    {
    case CmpInst::ICMP_EQ: return binop(Op::Eq, w, a, b);
    case CmpInst::ICMP_NE: return neg(binop(Op::Eq, w, a, b));
    case CmpInst::ICMP_ULT: return binop(Op::Ult, w, a, b);
    case CmpInst::ICMP_ULE: return binop(Op::Ule, w, a, b);
    case CmpInst::ICMP_UGT: return binop(Op::Ult, w, b, a);
    case CmpInst::ICMP_UGE: return binop(Op::Ule, w, b, a);
    case CmpInst::ICMP_SLT: return binop(Op::Slt, w, a, b);
    case CmpInst::ICMP_SLE: return binop(Op::Sle, w, a, b);
    case CmpInst::ICMP_SGT: return binop(Op::Slt, w, b, a);
    case CmpInst::ICMP_SGE: return binop(Op::Sle, w, b, a);
    }
    fatal("icmp pred");
}
static Val selectV(const Val & c, unsigned w, const Val & a, const Val & b)
{
    if (isConc(c))
        return concV(c) & 1 ? a : b;
    if (! a.e && ! b.e && a.c == b.c)
        return a;
    return fromE(mkIte(c.e, toE(a, w), toE(b, w)));
}

// ---------------------------------------------------------------- path condition
static bool g_forkPtr = false; // a pointer advanced by a condition forks on it
static bool inPC(State & st, Expr * c)
{
    for (size_t i = st.pc.size(); i-- > 0;)
        if (st.pc[i] == c)
            return true;
    return false;
}
static void mergeModel(Model & base, const Model & m)
{
    base.memo.clear();
    for (auto & kv : m.v)
        base.v[kv.first] = kv.second;
}
static bool modelOk(State & st, Model & m)
{
    for (Expr * e : st.pc)
        if (! evalExpr(e, m))
            return false;
    return true;
}
static Res query(State & st, Expr * c, Model & m)
{
    if (isC(c))
        return c->k ? Res::Sat : Res::Unsat;
    std::vector<Expr *> cs;
    slice(st.pc, c, cs);
    cs.push_back(c);
    return solve(cs, m);
}
static u64 g_fixedVer = 0, g_memoVer = 0;
static std::unordered_map<u32, Expr *> g_fixedMemo;
static void addPC(State & st, Expr * c)
{
    if (isC(c, 1) || inPC(st, c))
        return;
    if (c->op == Op::And && c->width == 1)
    {
        addPC(st, c->a);
        addPC(st, c->b);
        return;
    }
    st.pc.push_back(c);
    // a constraint over one symbol that leaves a single value
    if (c->syms->size() == 1)
    {
        u32 s = (*c->syms)[0];
        if (st.fixed.count(s))
            return;
        Expr * x = mkSymOf(s);
        if (c->op == Op::Eq && c->a == x && isC(c->b))
            st.fixed[s] = c->b->k;
        else if (x->width == 1)
        {
            Model m;
            m.v[s] = 0;
            bool f = evalExpr(c, m) != 0;
            m.v[s] = 1;
            m.memo.clear();
            bool t = evalExpr(c, m) != 0;
            if (f == t)
                return;
            st.fixed[s] = t;
        }
        else
            return;
        st.fixedVer = ++g_fixedVer;
    }
}
// e under the symbols that the path condition determines
static Expr * known(State & st, Expr * e)
{
    if (st.fixed.empty() || isC(e))
        return e;
    if (g_memoVer != st.fixedVer)
    {
        g_fixedMemo.clear();
        g_memoVer = st.fixedVer;
    }
    return substExpr(e, st.fixed, g_fixedMemo);
}
static void checkTime()
{
    if (now() > g_deadline)
    {
        g_res.timeout = true;
        throw Terminate{ 4, "time" };
    }
}
static std::string where(State & st)
{
    std::string s;
    auto & fr = st.fr();
    int n = 0;
    for (size_t i = fr.size(); i-- > 0 && n < 6; n++)
    {
        std::string d = demangle(fr[i].f->name);
        size_t p = d.find('(');
        if (p != std::string::npos && p > 0)
            d = d.substr(0, p);
        if (d.size() > 160)
            d = d.substr(0, 160);
        if (n)
            s += " < ";
        s += d;
    }
    return s;
}
// Makes st.model a model of the path condition if it is not one; false when infeasible
static bool ensureModel(State & st, bool & infeasible)
{
    infeasible = false;
    if (st.model)
        return true;
    Model m;
    Res r = solve(st.pc, m);
    if (r == Res::Sat)
    {
        st.model = std::make_shared<Model>();
        st.model->v = m.v;
        return true;
    }
    infeasible = r == Res::Unsat;
    return false;
}
static void recordViolation(State & st, const std::string & kind, const std::string & msg, Model & m, bool validated)
{
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = where(st);
    v.validated = validated;
    for (auto & o : g_res.viol)
        if (o.kind == kind && o.msg == msg && (o.where == v.where || kind == "assert"))
            return;
    for (auto & s : st.syms)
        v.vals.push_back({ s.first, { s.second->width, evalExpr(s.second, m) } });
    g_res.viol.push_back(v);
    if (g_res.viol.size() >= 8)
    {
        g_res.timeout = true; // enough: stop exploring
        throw Terminate{ 4, "enough violations" };
    }
}
// Require ok on this path: reports a violation for values where it fails, continues with it assumed.
static void require(State & st, Expr * ok, const std::string & kind, const std::string & msg)
{
    ok = known(st, ok);
    if (isC(ok, 1) || inPC(st, ok))
        return;
    bool isAssert = kind == "assert";
    if (isC(ok, 0))
    {
        bool inf;
        if (ensureModel(st, inf))
        {
            Model m;
            m.v = st.model->v;
            recordViolation(st, kind, msg, m, true);
            throw Terminate{ 1, msg };
        }
        if (inf)
            throw Terminate{ 2, "infeasible" };
        g_res.assertsUnknown++;
        g_res.problems["undecided: " + kind + ": " + msg]++;
        throw Terminate{ 3, "undecided" };
    }
    Expr * bad = mkNot(ok);
    bool mayFail = false, mayHold = true;
    Model m;
    Res r = Res::Unknown;
    bool linear = false;
    if (isAssert && ok->op == Op::Eq && ok->a->width > 1 && ok->size > 200)
    { // exclusive ors of input bits only
        std::vector<std::pair<u32, u32>> flips;
        bool mustFlip = false, inf;
        int q = ensureModel(st, inf) ? gf2Equal(ok->a, ok->b, flips, *st.model, mustFlip) : -1;
        if (q == 1)
        {
            g_res.linearProved++;
            r = Res::Unsat;
            linear = true;
        }
        else if (q == 0)
        {
            Model t;
            t.v = st.model->v;
            if (! mustFlip && modelOk(st, t) && evalExpr(bad, t))
            {
                r = Res::Sat;
                m.v = t.v;
                linear = true;
            }
            for (size_t i = 0; ! linear && i < flips.size() && i < 64; i++)
            {
                Model u;
                u.v = st.model->v;
                u.v[flips[i].first] = u.get(flips[i].first) ^ ((u128)1 << flips[i].second);
                if (modelOk(st, u) && evalExpr(bad, u))
                {
                    r = Res::Sat;
                    m.v = u.v;
                    linear = true;
                }
            }
        }
    }
    if (! linear)
        r = query(st, bad, m);
    if (r == Res::Unsat)
    {
        if (isAssert)
            g_res.assertsProved++;
        else
            g_res.memChecks++;
        return; // implied, no need to add
    }
    if (r == Res::Sat)
    {
        bool inf;
        Model full;
        bool good = false;
        if (ensureModel(st, inf))
        {
            full.v = st.model->v;
            mergeModel(full, m);
            good = modelOk(st, full) && evalExpr(bad, full);
        }
        else if (inf)
            throw Terminate{ 2, "infeasible" };
        if (! good)
        {
            std::vector<Expr *> cs = st.pc;
            cs.push_back(bad);
            Model m2;
            Res r2 = solve(cs, m2);
            if (r2 == Res::Sat)
            {
                full.v = m2.v;
                full.memo.clear();
                good = true;
            }
            else if (r2 == Res::Unsat)
                throw Terminate{ 2, "infeasible" };
        }
        if (good)
        {
            mayFail = true;
            recordViolation(st, kind, msg, full, true);
        }
        else
        {
            g_res.assertsUnknown++;
            g_res.problems["undecided: " + kind + ": " + msg]++;
        }
    }
    else
    {
        g_res.assertsUnknown++;
        g_res.problems["undecided: " + kind + ": " + msg]++;
    }
    (void)mayFail;
    // continue where it holds
    if (st.model && evalExpr(ok, *st.model))
    {
        addPC(st, ok);
        return;
    }
    Model mh;
    Res rh = query(st, ok, mh);
    if (rh == Res::Unsat)
        mayHold = false;
    if (! mayHold)
        throw Terminate{ 1, msg };
    if (rh == Res::Sat && st.model)
    {
        auto nm = std::make_shared<Model>();
        nm->v = st.model->v;
        mergeModel(*nm, mh);
        st.model = nm;
        if (! modelOk(st, *st.model))
            st.model = nullptr;
    }
    else
        st.model = nullptr;
    addPC(st, ok);
}
static void violate(State & st, const std::string & kind, const std::string & msg)
{
    if (getenv("RSYM_TRACE"))
        fprintf(stderr, "violate: %s\n", msg.c_str());
    require(st, mkConst(0, 1), kind, msg);
}
static State * forkState(State & st)
{
    g_res.forks++;
    State * n = new State(st);
    return n;
}
// Decide a condition, forking when both outcomes are possible. The forked state re-executes the current instruction.
static bool decide(State & st, Expr * c)
{
    c = known(st, c);
    if (isC(c))
        return c->k != 0;
    if (inPC(st, c))
        return true;
    Expr * nc = mkNot(c);
    if (inPC(st, nc))
        return false;
    checkTime();
    if (st.model)
    {
        bool v = evalExpr(c, *st.model) != 0;
        Expr *taken = v ? c : nc, *other = v ? nc : c;
        Model m;
        Res r = query(st, other, m);
        if (r == Res::Unsat)
            return v;
        State * o = forkState(st);
        addPC(*o, other);
        if (r == Res::Sat)
        {
            auto nm = std::make_shared<Model>();
            nm->v = st.model->v;
            mergeModel(*nm, m);
            if (modelOk(*o, *nm))
                o->model = nm;
            else
                o->model = nullptr;
        }
        else
        {
            o->model = nullptr;
            o->unsure = true;
        }
        g_stack.push_back(o);
        addPC(st, taken);
        return v;
    }
    Model mt, mf;
    Res rt = query(st, c, mt);
    if (rt == Res::Unsat)
        return false;
    Res rf = query(st, nc, mf);
    if (rf == Res::Unsat)
        return true;
    State * o = forkState(st);
    addPC(*o, nc);
    g_stack.push_back(o);
    addPC(st, c);
    return true;
}
static u64 concretize(State & st, const Val & v0, unsigned w)
{
    if (isConc(v0))
        return (u64)concV(v0);
    Val v = fromE(known(st, v0.e));
    if (isConc(v))
        return (u64)concV(v);
    for (Expr * p : st.pc)
        if (p->op == Op::Eq && p->a == v.e && isC(p->b))
            return (u64)p->b->k;
    bool inf;
    u128 k = 0;
    if (ensureModel(st, inf))
        k = evalExpr(v.e, *st.model);
    else
    {
        if (inf)
            throw Terminate{ 2, "infeasible" };
        throw Terminate{ 3, "undecided value" };
    }
    Expr * eq = mkEq(v.e, mkConst(k, v.e->width));
    if (! decide(st, eq))
        fatal("concretize");
    // implied when it is the only value left: recorded so that later uses are constant
    if (! isC(known(st, eq)) && ! inPC(st, eq))
        addPC(st, eq);
    return (u64)k;
}

// ---------------------------------------------------------------- memory access
static inline u32 nbytes(u32 w)
{
    return (w + 7) / 8;
}
static Val readLane(State & st, Obj *& o, u64 off, u32 w)
{
    u32 nb = nbytes(w);
    u64 po = off % PS;
    if (po + nb <= PS && nb <= 8)
    {
        Page * p = o->pages[off / PS];
        if (! p)
        {
            if (o->zero)
                return { nullptr, 0 };
        }
        else if (! p->sym && ! p->anyUninit)
        {
            u64 v = 0;
            memcpy(&v, p->data + po, nb);
            return { nullptr, v & mask64(w) };
        }
    }
    // general path
    Expr * first = nullptr;
    bool whole = true, allc = true;
    u128 cv = 0;
    ByteRef refs[16];
    for (u32 i = 0; i < nb; i++)
    {
        u64 a = off + i;
        Page * p = o->pages[a / PS];
        bool uninit = p ? (p->anyUninit && (p->uninit[(a % PS) / 64] >> (a % 64) & 1)) : ! o->zero;
        if (uninit)
        {
            if (g_inInit || g_concreteRun)
            {
                refs[i] = { nullptr, g_inInit ? 0u : 0xA5u };
                cv |= (u128)refs[i].off << (8 * i);
                whole = false;
                continue;
            }
            o = st.mem.writable(o->id);
            Page * wp = st.mem.wpage(o, a);
            char nm[64];
            snprintf(nm, sizeof nm, "uninit%u", st.uninitCount++);
            // names are shared between paths, so that equal histories give equal expressions
            static std::map<std::string, Expr *> pool;
            Expr *& s = pool[nm];
            if (! s)
                s = mkSym(nm, 8, true);
            if (! wp->sym)
            {
                wp->sym = new ByteRef[PS];
                memset((void *)wp->sym, 0, sizeof(ByteRef) * PS);
            }
            wp->sym[a % PS] = { s, 0 };
            wp->uninit[(a % PS) / 64] &= ~(1ull << (a % 64));
            p = wp;
        }
        if (p && p->sym && p->sym[a % PS].e)
        {
            refs[i] = p->sym[a % PS];
            allc = false;
            if (i == 0)
                first = refs[0].e;
            if (refs[i].e != first || refs[i].off != refs[0].off + i)
                whole = false;
        }
        else
        {
            u32 b = p ? p->data[a % PS] : 0;
            refs[i] = { nullptr, b };
            cv |= (u128)b << (8 * i);
            whole = false;
        }
    }
    if (allc)
    {
        if (w <= 64)
            return { nullptr, (u64)cv & mask64(w) };
        return { mkConst(cv, w), 0 };
    }
    Expr * r;
    if (whole)
    {
        u32 lo = refs[0].off * 8;
        u32 avail = first->width - lo;
        if (avail >= nb * 8)
            r = mkExtract(first, lo, nb * 8);
        else
            r = mkZExt(mkExtract(first, lo, avail), nb * 8);
    }
    else
    {
        r = nullptr;
        for (u32 i = 0; i < nb; i++)
        {
            Expr * b;
            if (refs[i].e)
            {
                u32 lo = refs[i].off * 8;
                u32 av = std::min<u32>(8, refs[i].e->width - lo);
                b = mkZExt(mkExtract(refs[i].e, lo, av), 8);
            }
            else
                b = mkConst(refs[i].off, 8);
            r = r ? mkConcat(b, r) : b;
        }
    }
    if (r->width > w)
        r = mkExtract(r, 0, w);
    return fromE(known(st, r));
}
static inline void clearUninit(Page * p, u64 po, u32 nb)
{
    if (p->anyUninit)
        for (u32 i = 0; i < nb; i++)
            p->uninit[(po + i) / 64] &= ~(1ull << ((po + i) % 64));
}
static void writeLane(State & st, Obj * o, u64 off, u32 w, const Val & v)
{
    u32 nb = nbytes(w);
    u64 po = off % PS;
    if (isConc(v))
    {
        u128 c = concV(v);
        if (po + nb <= PS)
        {
            Page * p = st.mem.wpage(o, off);
            memcpy(p->data + po, &c, nb);
            clearUninit(p, po, nb);
            if (p->sym)
                memset((void *)(p->sym + po), 0, nb * sizeof(ByteRef));
        }
        else
            for (u32 i = 0; i < nb; i++)
            {
                Page * p = st.mem.wpage(o, off + i);
                p->data[(off + i) % PS] = (u8)(c >> (8 * i));
                clearUninit(p, (off + i) % PS, 1);
                if (p->sym)
                    p->sym[(off + i) % PS].e = nullptr;
            }
        return;
    }
    Expr * e = v.e;
    if (e->width < nb * 8)
        e = mkZExt(e, nb * 8);
    for (u32 i = 0; i < nb; i++)
    {
        Page * p = st.mem.wpage(o, off + i);
        if (! p->sym)
        {
            p->sym = new ByteRef[PS];
            memset((void *)p->sym, 0, sizeof(ByteRef) * PS);
        }
        p->sym[(off + i) % PS] = { e, i };
        clearUninit(p, (off + i) % PS, 1);
    }
}
struct Ptr
{
    Obj * o;
    u64 off;
    Expr * soff; // non-null: symbolic offset
};
static std::string describe(Obj * o)
{
    char b[64];
    snprintf(b, sizeof b, " of %llu bytes", (unsigned long long)o->size);
    return std::string(o->name) + b;
}
// collect constants that point into some object
// the constant parts an address can have, one per choice made in it
static bool bases(Expr * e, std::set<u64> & out, int depth)
{
    out.clear();
    if (depth > 40)
        return false;
    if (e->op == Op::Const)
        out.insert((u64)e->k);
    else if (e->op == Op::Add || e->op == Op::Sub)
    {
        std::set<u64> l, r;
        if (! bases(e->a, l, depth + 1) || ! bases(e->b, r, depth + 1) || l.size() * r.size() > 64)
            return false;
        for (u64 x : l)
            for (u64 y : r)
                out.insert(e->op == Op::Add ? x + y : x - y);
    }
    else if (e->op == Op::Ite)
    {
        std::set<u64> r;
        if (! bases(e->b, out, depth + 1) || ! bases(e->c, r, depth + 1))
            return false;
        out.insert(r.begin(), r.end());
    }
    else
    {
        // a difference of two addresses times a flag, or masked by one: not an offset in an object
        if (e->op == Op::Mul || e->op == Op::And)
            for (Expr * x : { e->a, e->b })
                if (x && x->op == Op::Const)
                {
                    i64 k = (i64)(u64)x->k;
                    if ((k > 0 ? k : -k) >= (i64)(1ull << SLOT) && e->op == Op::Mul)
                        return false;
                    if (e->op == Op::And && (k >= (i64)(1ull << SLOT)) && ((u64)k & ((1ull << SLOT) - 1)) != 0)
                        return false;
                }
        out.insert(0);
    }
    return out.size() <= 64;
}
static void provenance(Expr * e, std::set<u32> & ids)
{
    std::set<u64> b;
    if (! bases(e, b, 0))
        return;
    for (u64 c : b)
        if (c >= REGION && c < (1ull << 48))
            ids.insert((u32)((c - REGION + (1u << 20)) >> SLOT)); // just below an object counts as it
}
static Ptr resolve(State & st, const Val & a0, u64 n, bool write)
{
    Val a = isConc(a0) ? a0 : fromE(known(st, a0.e));
    const char * rw = write ? "write" : "read";
    if (isConc(a))
    {
        u64 c = (u64)concV(a);
        Obj * o = st.mem.find(c);
        if (! o)
        {
            violate(st, "memory", std::string("invalid pointer ") + rw);
        }
        u64 off = c - o->base;
        if (o->freed)
            violate(st, "memory", std::string(rw) + " after free of " + describe(o));
        if (off > o->size || n > o->size - off)
        {
            char b[96];
            snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at offset %lld in ", rw, (unsigned long long)n, (long long)off);
            violate(st, "memory", b + describe(o));
        }
        if (write && o->kind == OK_Const)
            violate(st, "memory", "write to constant " + describe(o));
        return { o, off, nullptr };
    }
    Expr * e = a.e;
    std::set<u32> ids;
    provenance(e, ids);
    Obj * o = nullptr;
    if (ids.size() == 1)
        o = st.mem.byId(*ids.begin());
    if (! o)
    {
        bool inf;
        if (! ensureModel(st, inf))
            throw Terminate{ inf ? 2 : 3, "undecided pointer" };
        u64 c = (u64)evalExpr(e, *st.model);
        u64 id = (c - REGION) >> SLOT;
        if (c < REGION)
        {
            // possibly a null pointer on this assignment
            decide(st, mk2(Op::Ult, e, mkConst(REGION, 64)));
            violate(st, "memory", std::string("invalid pointer ") + rw);
        }
        Expr * in = mk2(Op::Ult, mk2(Op::Sub, e, mkConst(REGION + (id << SLOT), 64)), mkConst(1ull << SLOT, 64));
        if (! decide(st, in))
            fatal("resolve");
        o = st.mem.byId((u32)id);
        if (! o)
            violate(st, "memory", std::string("invalid pointer ") + rw);
    }
    if (o->freed)
        violate(st, "memory", std::string(rw) + " after free of " + describe(o));
    Expr * off = mk2(Op::Sub, e, mkConst(o->base, 64));
    if (n > o->size)
        violate(st, "memory", std::string("out-of-bounds ") + rw + " in " + describe(o));
    char b[96];
    snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at an input-dependent offset in ", rw, (unsigned long long)n);
    if (getenv("RSYM_TRACE"))
        fprintf(stderr, "resolve %s base %llx in %s\n", show(e, 8).c_str(), (unsigned long long)o->base, describe(o).c_str());
    u128 rl, rh;
    unsignedRange(off, rl, rh);
    unsigned tz = trailingZeros(off);
    if (tz < 64)
        rh = rh >> tz << tz;
    if (rh > o->size - n)
        require(st, mk2(Op::Ule, off, mkConst(o->size - n, 64)), "memory", b + describe(o));
    if (write && o->kind == OK_Const)
        violate(st, "memory", "write to constant " + describe(o));
    if (isC(off))
        return { o, (u64)off->k, nullptr };
    return { o, 0, off };
}
static const u64 MAXCAND_R = 1u << 14, MAXCAND_W = 1u << 12;
// candidate offsets [lo,hi] step; tightened with the solver when large
static void candidates(State & st, Expr * off, u64 limitHi, u64 & lo, u64 & hi, u64 & step)
{
    u128 l, h;
    unsignedRange(off, l, h);
    if (h > limitHi)
        h = limitHi;
    lo = (u64)l;
    hi = (u64)h;
    unsigned tz = trailingZeros(off);
    if (tz > 12)
        tz = 12;
    step = 1ull << tz;
    lo = (lo + step - 1) / step * step;
    hi = hi / step * step;
    if ((hi - lo) / step + 1 > 24 && ! g_concreteRun)
    {
        bool inf;
        if (! ensureModel(st, inf))
            return;
        u64 v = (u64)evalExpr(off, *st.model);
        // binary search for the largest and the smallest reachable offset
        u64 a = v / step, z = hi / step;
        while (a < z)
        {
            u64 mid = a + (z - a) / 2;
            Model m;
            Res r = query(st, mk2(Op::Ult, mkConst(mid * step, 64), off), m);
            if (r == Res::Unsat)
                z = mid;
            else if (r == Res::Sat)
            {
                Model full;
                full.v = st.model->v;
                mergeModel(full, m);
                u64 nv = (u64)evalExpr(off, full) / step;
                a = std::max(mid + 1, std::min(nv, z));
            }
            else
                break;
        }
        hi = z * step;
        u64 y = lo / step;
        a = v / step;
        while (y < a)
        {
            u64 mid = y + (a - y) / 2;
            Model m;
            Res r = query(st, mk2(Op::Ule, off, mkConst(mid * step, 64)), m);
            if (r == Res::Unsat)
                y = mid + 1;
            else if (r == Res::Sat)
                a = mid;
            else
                break;
        }
        lo = y * step;
    }
}
static Val symRead(State & st, Obj * o, Expr * off, u64 laneOff, u32 w, u64 lo, u64 hi, u64 step)
{
    struct Run
    {
        u64 lo, hi;
        Val v;
    };
    std::vector<Run> runs;
    struct KV
    {
        Expr * e;
        u64 c;
        bool operator==(const KV & o) const { return e == o.e && c == o.c; }
    };
    struct KVH
    {
        size_t operator()(const KV & k) const { return (size_t)k.e * 31 + k.c * 0x9E3779B97F4A7C15ull; }
    };
    std::unordered_map<KV, u64, KVH> cnt;
    for (u64 x = lo; x <= hi; x += step)
    {
        Val v = readLane(st, o, x + laneOff, w);
        if (! runs.empty() && runs.back().v.e == v.e && runs.back().v.c == v.c)
            runs.back().hi = x;
        else
            runs.push_back({ x, x, v });
        cnt[{ v.e, v.c }]++;
    }
    KV best{ runs[0].v.e, runs[0].v.c };
    u64 bc = 0;
    // fewest run conditions: prefer the value with most runs
    std::unordered_map<KV, u64, KVH> rc;
    for (auto & r : runs)
        rc[{ r.v.e, r.v.c }]++;
    for (auto & kv : rc)
        if (kv.second > bc)
        {
            bc = kv.second;
            best = kv.first;
        }
    Expr * r = toE(Val{ best.e, best.c }, w);
    for (size_t i = runs.size(); i-- > 0;)
    {
        auto & q = runs[i];
        if (q.v.e == best.e && q.v.c == best.c)
            continue;
        Expr * c;
        if (q.lo == q.hi)
            c = mkEq(off, mkConst(q.lo, 64));
        else
        {
            c = mkConst(1, 1);
            if (q.lo > lo)
                c = mk2(Op::And, c, mk2(Op::Ule, mkConst(q.lo, 64), off));
            if (q.hi < hi)
                c = mk2(Op::And, c, mk2(Op::Ule, off, mkConst(q.hi, 64)));
        }
        r = mkIte(c, toE(q.v, w), r);
    }
    return fromE(r);
}
// a table of a linear function, such as those of checksums
static Expr * linearTable(State & st, Obj * o, Expr * off, u64 laneOff, u32 w, u64 size)
{
    u128 l, h;
    unsignedRange(off, l, h);
    unsigned s = trailingZeros(off);
    h = h >> (s < 64 ? s : 0) << (s < 64 ? s : 0);
    if (s > 12 || w > 64 || l || h > o->size - size)
        return nullptr;
    u64 entries = ((u64)h >> s) + 1;
    if (entries < 16 || entries > 65536 || (entries & (entries - 1)))
        return nullptr;
    std::vector<u64> t;
    for (u64 i = 0; i < entries; i++)
    {
        Val v = readLane(st, o, (i << s) + laneOff, w);
        if (v.e)
            return nullptr;
        t.push_back((u64)v.c);
        if (t.size() == 4 && t[3] != (t[0] ^ t[1] ^ t[2]))
            return nullptr;
    }
    return gf2Table(t, w, s ? mk2(Op::LShr, off, mkConst(s, 64)) : off);
}
static void load(State & st, const Val & a, u64 size, const std::vector<LaneTy> & lanes, Val * out)
{
    Ptr p = resolve(st, a, size, false);
    if (! p.soff)
    {
        for (size_t i = 0; i < lanes.size(); i++)
            out[i] = readLane(st, p.o, p.off + lanes[i].off, lanes[i].w);
        return;
    }
    if (lanes.size() == 1)
        if (Expr * f = linearTable(st, p.o, p.soff, lanes[0].off, lanes[0].w, size))
        {
            out[0] = fromE(f);
            return;
        }
    u64 lo, hi, step;
    candidates(st, p.soff, p.o->size - size, lo, hi, step);
    if ((hi - lo) / step + 1 > MAXCAND_R)
    {
        u64 c = concretize(st, Val{ p.soff, 0 }, 64);
        for (size_t i = 0; i < lanes.size(); i++)
            out[i] = readLane(st, p.o, c + lanes[i].off, lanes[i].w);
        return;
    }
    for (size_t i = 0; i < lanes.size(); i++)
        out[i] = symRead(st, p.o, p.soff, lanes[i].off, lanes[i].w, lo, hi, step);
}
static void store(State & st, const Val & a, u64 size, const std::vector<LaneTy> & lanes, const Val * v)
{
    Ptr p = resolve(st, a, size, true);
    if (p.soff)
    {
        u64 lo, hi, step;
        candidates(st, p.soff, p.o->size - size, lo, hi, step);
        if ((hi - lo) / step + 1 > MAXCAND_W)
        {
            p.off = concretize(st, Val{ p.soff, 0 }, 64);
            p.soff = nullptr;
        }
        else
        {
            Obj * o = st.mem.writable(p.o->id);
            if (step < size && lanes.size() == 1)
            {
                // overlapping candidates: byte-wise
                u32 nb = nbytes(lanes[0].w);
                Expr * e = toE(v[0], lanes[0].w);
                if (e->width < nb * 8)
                    e = mkZExt(e, nb * 8);
                for (u64 b = lo; b <= hi + nb - 1; b++)
                {
                    Val old = readLane(st, o, b, 8);
                    o = st.mem.writable(o->id);
                    Expr * r = toE(old, 8);
                    for (u32 i = 0; i < nb; i++)
                        if (b >= i && b - i >= lo && b - i <= hi && (b - i) % step == 0)
                            r = mkIte(mkEq(p.soff, mkConst(b - i, 64)), mkExtract(e, i * 8, 8), r);
                    writeLane(st, o, b, 8, fromE(r));
                }
                return;
            }
            for (u64 x = lo; x <= hi; x += step)
            {
                Expr * c = mkEq(p.soff, mkConst(x, 64));
                for (size_t i = 0; i < lanes.size(); i++)
                {
                    Val old = readLane(st, o, x + lanes[i].off, lanes[i].w);
                    o = st.mem.writable(o->id);
                    writeLane(st, o, x + lanes[i].off, lanes[i].w, fromE(mkIte(c, toE(v[i], lanes[i].w), toE(old, lanes[i].w))));
                }
            }
            return;
        }
    }
    Obj * o = st.mem.writable(p.o->id);
    for (size_t i = 0; i < lanes.size(); i++)
        writeLane(st, o, p.off + lanes[i].off, lanes[i].w, v[i]);
}
static void copyBytes(State & st, u64 dst, u64 src, u64 n)
{
    if (! n || dst == src)
        return;
    Ptr s = resolve(st, Val{ nullptr, src }, n, false);
    Ptr d = resolve(st, Val{ nullptr, dst }, n, true);
    Obj * dobj = st.mem.writable(d.o->id);
    Obj * sobj = st.mem.byId(s.o->id);
    bool back = sobj == dobj && dst > src;
    u64 done = 0;
    while (done < n)
    {
        u64 so, dof, k;
        if (! back)
        {
            so = s.off + done;
            dof = d.off + done;
            k = std::min({ n - done, PS - so % PS, PS - dof % PS });
        }
        else
        {
            u64 se = s.off + (n - done), de = d.off + (n - done);
            u64 a = se % PS ? se % PS : PS, b = de % PS ? de % PS : PS;
            k = std::min({ n - done, a, b });
            so = se - k;
            dof = de - k;
        }
        done += k;
        Page * dp = st.mem.wpage(dobj, dof);
        Page * sp = sobj->pages[so / PS];
        u64 a = so % PS, b = dof % PS;
        if (! sp)
        {
            if (sobj->zero)
            {
                memset(dp->data + b, 0, k);
                clearUninit(dp, b, k);
            }
            else
            {
                dp->anyUninit = dp->anyUninit ? true : (memset(dp->uninit, 0, sizeof dp->uninit), true);
                for (u64 i = 0; i < k; i++)
                    dp->uninit[(b + i) / 64] |= 1ull << ((b + i) % 64);
            }
            if (dp->sym)
                memset((void *)(dp->sym + b), 0, k * sizeof(ByteRef));
            continue;
        }
        memmove(dp->data + b, sp->data + a, k);
        if (sp->sym)
        {
            if (! dp->sym)
            {
                dp->sym = new ByteRef[PS];
                memset((void *)dp->sym, 0, sizeof(ByteRef) * PS);
            }
            memmove((void *)(dp->sym + b), sp->sym + a, k * sizeof(ByteRef));
        }
        else if (dp->sym)
            memset((void *)(dp->sym + b), 0, k * sizeof(ByteRef));
        if (sp->anyUninit)
        {
            if (! dp->anyUninit)
            {
                memset(dp->uninit, 0, sizeof dp->uninit);
                dp->anyUninit = true;
            }
            std::vector<bool> u(k);
            for (u64 i = 0; i < k; i++)
                u[i] = sp->uninit[(a + i) / 64] >> ((a + i) % 64) & 1;
            for (u64 i = 0; i < k; i++)
            {
                u64 m = 1ull << ((b + i) % 64);
                if (u[i])
                    dp->uninit[(b + i) / 64] |= m;
                else
                    dp->uninit[(b + i) / 64] &= ~m;
            }
        }
        else
            clearUninit(dp, b, k);
    }
}
static void setBytes(State & st, u64 dst, const Val & v, u64 n)
{
    if (! n)
        return;
    Ptr d = resolve(st, Val{ nullptr, dst }, n, true);
    Obj * o = st.mem.writable(d.o->id);
    if (isConc(v))
    {
        int c = (int)(u8)concV(v);
        u64 done = 0;
        while (done < n)
        {
            u64 off = d.off + done, k = std::min(n - done, PS - off % PS);
            Page * p = st.mem.wpage(o, off);
            memset(p->data + off % PS, c, k);
            if (k == PS)
                p->anyUninit = false;
            else
                clearUninit(p, off % PS, k);
            if (p->sym)
                memset((void *)(p->sym + off % PS), 0, k * sizeof(ByteRef));
            done += k;
        }
        return;
    }
    for (u64 i = 0; i < n; i++)
        writeLane(st, o, d.off + i, 8, v);
}
static std::string cstr(State & st, u64 a)
{
    std::string s;
    if (! a)
        return "(null)";
    for (int i = 0; i < 4096; i++)
    {
        Obj * o = st.mem.find(a + i);
        if (! o || o->freed || a + i - o->base >= o->size)
            break;
        Val v = readLane(st, o, a + i - o->base, 8);
        if (! isConc(v))
        {
            s += '?';
            continue;
        }
        if (! concV(v))
            break;
        s += (char)concV(v);
    }
    return s;
}

// ---------------------------------------------------------------- functions and globals
static KFunc * kfuncOf(const Function * F)
{
    auto it = g_funcs.find(F);
    if (it != g_funcs.end())
        return it->second;
    KFunc * k = new KFunc;
    k->F = F;
    k->name = F->getName().str();
    k->fromRepo = g_repoDefs.count(k->name);
    k->addr = FNBASE + g_byAddr.size() * 16;
    g_byAddr.push_back(k);
    g_funcs[F] = k;
    return k;
}
static State * g_init;
static const char * keepName(const std::string & s)
{
    return (new std::string(s))->c_str();
}
u64 globalAddress(const GlobalValue * GV)
{
    if (auto * F = dyn_cast<Function>(GV))
    {
        auto it = g_redirect.find(F->getName().str());
        if (it != g_redirect.end())
            F = g_mod->getFunction(it->second);
        return kfuncOf(F)->addr;
    }
    if (auto * A = dyn_cast<GlobalAlias>(GV))
    {
        std::vector<Val> l;
        constLanes(A->getAliasee(), l);
        return l[0].c;
    }
    auto it = g_gaddr.find(GV);
    if (it == g_gaddr.end())
        fatal("unknown global " + GV->getName().str());
    return it->second;
}
static void initConst(State & st, Obj * o, u64 off, const Constant * C)
{
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || C->isNullValue())
        return;
    Type * T = C->getType();
    if (auto * CD = dyn_cast<ConstantDataSequential>(C))
    {
        StringRef raw = CD->getRawDataValues();
        for (size_t i = 0; i < raw.size();)
        {
            u64 a = off + i, k = std::min<u64>(raw.size() - i, PS - a % PS);
            Page * p = st.mem.wpage(o, a);
            memcpy(p->data + a % PS, raw.data() + i, k);
            i += k;
        }
        return;
    }
    if (auto * CA = dyn_cast<ConstantAggregate>(C))
    {
        for (unsigned i = 0; i < CA->getNumOperands(); i++)
        {
            u64 eo;
            if (auto * S = dyn_cast<StructType>(T))
                eo = DLp->getStructLayout(S)->getElementOffset(i);
            else if (auto * A = dyn_cast<ArrayType>(T))
                eo = i * DLp->getTypeAllocSize(A->getElementType());
            else
                eo = i * (DLp->getTypeSizeInBits(cast<VectorType>(T)->getElementType()) / 8);
            initConst(st, o, off + eo, CA->getOperand(i));
        }
        return;
    }
    std::vector<Val> v;
    constLanes(C, v);
    std::vector<LaneTy> l;
    lanesOf(T, 0, l);
    for (size_t i = 0; i < v.size(); i++)
        writeLane(st, o, off + l[i].off, l[i].w, v[i]);
}

// ---------------------------------------------------------------- call handlers
typedef void (*Handler)(State &, Frame &, KInst &, std::vector<const Val *> &, Val * ret);
struct HEnt
{
    std::string name;
    Handler h;
};
static std::vector<HEnt> g_handlers;
static std::unordered_map<std::string, int> g_hmap;

static u32 crcTab[32];
static u64 crcTab64[64];
static u32 crcBits(u32 crc, int n)
{
    for (int i = 0; i < n; i++)
        crc = (crc >> 1) ^ (crc & 1 ? 0x82F63B78u : 0);
    return crc;
}
static u32 crc64step(u64 x) // crc of 64 message bits (crc already xored into the low 32)
{
    u64 v = x;
    for (int i = 0; i < 64; i++)
        v = (v >> 1) ^ (v & 1 ? (u64)0x82F63B78u : 0);
    // the polynomial division of the low part leaves the remainder in the low 32 bits
    return (u32)v;
}
#define H(N) static void N(State & st, Frame & fr, KInst & ki, std::vector<const Val *> & a, Val * ret)
#define UNUSED (void)st, (void)fr, (void)ki, (void)a, (void)ret
H(h_nop)
{
    UNUSED;
    if (ret)
        for (u32 i = 0; i < ki.n; i++)
            ret[i] = { ki.lanes[i].w > 64 ? mkConst(0, ki.lanes[i].w) : nullptr, 0 };
}
static u64 doMalloc(State & st, u64 n, bool zero)
{
    Obj * o = st.mem.alloc(n, OK_Heap, zero, "heap block");
    if (! o)
        throw Terminate{ 3, "allocation too large: " + std::to_string(n) };
    return o->base;
}
H(h_malloc)
{
    UNUSED;
    *ret = { nullptr, doMalloc(st, concretize(st, a[0][0], 64), false) };
}
H(h_calloc)
{
    UNUSED;
    u64 x = concretize(st, a[0][0], 64), y = concretize(st, a[1][0], 64);
    *ret = { nullptr, doMalloc(st, x * y, true) };
}
H(h_alignedAlloc) // aligned_alloc(al, size)
{
    UNUSED;
    *ret = { nullptr, doMalloc(st, concretize(st, a[1][0], 64), false) };
}
H(h_posix_memalign)
{
    UNUSED;
    u64 sz = concretize(st, a[2][0], 64);
    Val p = { nullptr, doMalloc(st, sz, false) };
    store(st, a[0][0], 8, { { 0, 64, false } }, &p);
    *ret = { nullptr, 0 };
}
static void doFree(State & st, u64 p)
{
    if (! p)
        return;
    Obj * o = st.mem.find(p);
    if (! o)
        violate(st, "memory", "free of an invalid pointer");
    if (o->freed)
        violate(st, "memory", "double free of " + describe(o));
    if (o->kind != OK_Heap || p != o->base)
        violate(st, "memory", "free of a pointer not from malloc: " + describe(o));
    st.mem.dropPages(o->id);
}
H(h_free)
{
    UNUSED;
    doFree(st, concretize(st, a[0][0], 64));
}
H(h_realloc)
{
    UNUSED;
    u64 p = concretize(st, a[0][0], 64), n = concretize(st, a[1][0], 64);
    u64 q = doMalloc(st, n, false);
    if (p)
    {
        Obj * o = st.mem.find(p);
        if (! o || o->freed)
            violate(st, "memory", "realloc of an invalid pointer");
        copyBytes(st, q, p, std::min<u64>(n, o->size));
        doFree(st, p);
    }
    *ret = { nullptr, q };
}
H(h_memcpy)
{
    UNUSED;
    u64 n = concretize(st, a[2][0], 64), d = concretize(st, a[0][0], 64), s = concretize(st, a[1][0], 64);
    copyBytes(st, d, s, n);
    if (ret && ki.n)
        *ret = a[0][0];
}
H(h_memset)
{
    UNUSED;
    u64 n = concretize(st, a[2][0], 64), d = concretize(st, a[0][0], 64);
    Val v = a[1][0];
    if (v.e)
        v = fromE(mkExtract(v.e, 0, 8));
    setBytes(st, d, v, n);
    if (ret && ki.n)
        *ret = a[0][0];
}
H(h_minmax)
{
    UNUSED;
    StringRef nm = ki.mnem;
    bool mx = nm.contains("max"), sg = nm.contains("smin") || nm.contains("smax");
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        Val lt = binop(sg ? Op::Slt : Op::Ult, w, a[0][i], a[1][i]); // a < b
        ret[i] = mx ? selectV(lt, w, a[1][i], a[0][i]) : selectV(lt, w, a[0][i], a[1][i]);
    }
}
H(h_abs)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        Val z{ nullptr, 0 };
        Val lt = binop(Op::Slt, w, a[0][i], z);
        ret[i] = selectV(lt, w, binop(Op::Sub, w, z, a[0][i]), a[0][i]);
    }
}
H(h_ctlz)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        Expr * x = toE(a[0][i], w);
        Expr * r = mkConst(w, w);
        for (u32 b = 0; b < w; b++)
            r = mkIte(mkExtract(x, b, 1), mkConst(w - 1 - b, w), r);
        ret[i] = fromE(r);
    }
}
H(h_cttz)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        Expr * x = toE(a[0][i], w);
        Expr * r = mkConst(w, w);
        for (u32 b = w; b-- > 0;)
            r = mkIte(mkExtract(x, b, 1), mkConst(b, w), r);
        ret[i] = fromE(r);
    }
}
H(h_ctpop)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        if (! a[0][i].e)
        {
            ret[i] = { nullptr, (u64)__builtin_popcountll(a[0][i].c) };
            continue;
        }
        Expr * x = toE(a[0][i], w);
        Expr * r = mkConst(0, w);
        for (u32 b = 0; b < w; b++)
            r = mk2(Op::Add, r, mkZExt(mkExtract(x, b, 1), w));
        ret[i] = fromE(r);
    }
}
H(h_bswap)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        Expr * x = toE(a[0][i], w);
        Expr * r = mkExtract(x, 0, 8);
        for (u32 b = 8; b < w; b += 8)
            r = mkConcat(r, mkExtract(x, b, 8));
        ret[i] = fromE(r);
    }
}
H(h_fshl)
{
    UNUSED;
    bool left = StringRef(ki.mnem).contains("fshl");
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        u64 s = concretize(st, a[2][i], w) % w;
        Expr *x = toE(a[0][i], w), *y = toE(a[1][i], w);
        u32 lo = left ? (w - (u32)s) : (u32)s;
        ret[i] = fromE(mkExtract(mkConcat(x, y), lo, w));
    }
}
H(h_fabs)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = fromE(mk2(Op::And, toE(a[0][i], w), mkConst(maskw(w - 1), w)));
    }
}
H(h_copysign)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = fromE(mkConcat(mkExtract(toE(a[1][i], w), w - 1, 1), mkExtract(toE(a[0][i], w), 0, w - 1)));
    }
}
static void fround(KInst & ki, std::vector<const Val *> & a, Val * ret, unsigned mode)
{
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = fromE(mkF(Op::FRound, w, toE(a[0][i], w), nullptr, mode));
    }
}
H(h_floor)
{
    UNUSED;
    fround(ki, a, ret, 1);
}
H(h_ceil)
{
    UNUSED;
    fround(ki, a, ret, 2);
}
H(h_trunc)
{
    UNUSED;
    fround(ki, a, ret, 3);
}
H(h_rint)
{
    UNUSED;
    fround(ki, a, ret, 0);
}
H(h_round)
{
    UNUSED;
    fround(ki, a, ret, 4);
}
H(h_x86round)
{
    UNUSED;
    u64 imm = concretize(st, a[1][0], 32) & 7;
    fround(ki, a, ret, imm & 4 ? 0 : (unsigned)imm);
}
H(h_x86max)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = selectV(fcmp(2, w, a[0][i], a[1][i]), w, a[0][i], a[1][i]);
    }
}
H(h_x86min)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = selectV(fcmp(4, w, a[0][i], a[1][i]), w, a[0][i], a[1][i]);
    }
}
H(h_ssemin) // scalar in lane 0
{
    UNUSED;
    bool mx = StringRef(ki.mnem).contains("max");
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = i ? a[0][i] : selectV(fcmp(mx ? 2 : 4, w, a[0][i], a[1][i]), w, a[0][i], a[1][i]);
    }
}
H(h_sqrt)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = fromE(mkF(Op::FSqrt, w, toE(a[0][i], w)));
    }
}
H(h_fmuladd)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = fbin(Op::FAdd, w, fbin(Op::FMul, w, a[0][i], a[1][i]), a[2][i]);
    }
}
H(h_isfpclass)
{
    UNUSED;
    u64 mask = concretize(st, a[1][0], 32);
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.argRaw[0];
        Expr * x = toE(a[0][i], w);
        Expr * sgn = mkExtract(x, w - 1, 1);
        u32 mant = w == 32 ? 23 : w == 64 ? 52 : 64;
        u32 ew = w - 1 - mant;
        Expr * e = mkExtract(x, mant, ew);
        Expr * f = mkExtract(x, 0, w == 80 ? 63 : mant);
        Expr * e1 = mkEq(e, mkConst(maskw(ew), ew));
        Expr * e0 = mkEq(e, mkConst(0, ew));
        Expr * f0 = mkEq(f, mkConst(0, f->width));
        Expr * q = mkExtract(f, f->width - 1, 1);
        auto A = [](Expr * p, Expr * r) { return mk2(Op::And, p, r); };
        Expr * nan = A(e1, mkNot(f0));
        Expr * cls[10] = { A(nan, mkNot(q)), A(nan, q),
                           A(sgn, A(e1, f0)), A(sgn, A(mkNot(e1), mkNot(e0))), A(sgn, A(e0, mkNot(f0))), A(sgn, A(e0, f0)),
                           A(mkNot(sgn), A(e0, f0)), A(mkNot(sgn), A(e0, mkNot(f0))), A(mkNot(sgn), A(mkNot(e1), mkNot(e0))), A(mkNot(sgn), A(e1, f0)) };
        Expr * r = mkConst(0, 1);
        for (int b = 0; b < 10; b++)
            if (mask >> b & 1)
                r = mk2(Op::Or, r, cls[b]);
        ret[i] = fromE(r);
    }
}
H(h_usubsat)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        ret[i] = selectV(binop(Op::Ult, w, a[0][i], a[1][i]), w, Val{ nullptr, 0 }, binop(Op::Sub, w, a[0][i], a[1][i]));
    }
}
H(h_ovf)
{
    UNUSED;
    StringRef nm = ki.mnem;
    u32 w = ki.lanes[0].w;
    Expr *x = toE(a[0][0], w), *y = toE(a[1][0], w);
    bool sg = nm.contains(".s");
    Op op = nm.contains("add.with") ? Op::Add : nm.contains("sub.with") ? Op::Sub : Op::Mul;
    Expr * r = mk2(op, x, y);
    unsigned w2 = std::min<unsigned>(128, op == Op::Mul ? 2 * w : w + 1);
    Expr *X = sg ? mkSExt(x, w2) : mkZExt(x, w2), *Y = sg ? mkSExt(y, w2) : mkZExt(y, w2);
    Expr * R = mk2(op, X, Y);
    ret[0] = fromE(r);
    ret[1] = fromE(mkNot(mkEq(R, sg ? mkSExt(r, w2) : mkZExt(r, w2))));
}
H(h_packsswb)
{
    UNUSED;
    // 256-bit: per 128-bit lane, a.lo8 then b.lo8
    for (u32 half = 0; half < 2; half++)
        for (u32 i = 0; i < 16; i++)
        {
            const Val & v = i < 8 ? a[0][half * 8 + i] : a[1][half * 8 + i - 8];
            Val lt = binop(Op::Slt, 16, v, Val{ nullptr, 0xff80 }), gt = binop(Op::Slt, 16, Val{ nullptr, 127 }, v);
            Val t = v.e ? fromE(mkExtract(v.e, 0, 8)) : Val{ nullptr, v.c & 0xff };
            ret[half * 16 + i] = selectV(lt, 8, Val{ nullptr, 0x80 }, selectV(gt, 8, Val{ nullptr, 127 }, t));
        }
}
H(h_movmsk)
{
    UNUSED;
    // number of lanes = operand lanes
    u32 n = ki.argLanes[0], w = ki.argRaw[0];
    Expr * r = mkConst(0, 32);
    for (u32 i = 0; i < n; i++)
        r = mk2(Op::Or, r, mk2(Op::Shl, mkZExt(mkExtract(toE(a[0][i], w), w - 1, 1), 32), mkConst(i, 32)));
    ret[0] = fromE(r);
}
H(h_gather)
{
    UNUSED;
    // (src, base, index, mask, scale)
    u64 scale = concretize(st, a[4][0], 8);
    u32 iw = ki.argRaw[2], mw = ki.argRaw[3];
    for (u32 i = 0; i < ki.n; i++)
    {
        u32 w = ki.lanes[i].w;
        Expr * mb = mkExtract(toE(a[3][i], mw), mw - 1, 1);
        if (! decide(st, mb))
        {
            ret[i] = a[0][i];
            continue;
        }
        Val ix = a[2][i];
        Val off = ix.e ? fromE(mkSExt(ix.e, 64)) : Val{ nullptr, (u64)sx64(ix.c, iw) };
        Val addr = binop(Op::Add, 64, a[1][0], binop(Op::Mul, 64, off, Val{ nullptr, scale }));
        Val out;
        load(st, addr, w / 8, { { 0, (uint16_t)w, false } }, &out);
        ret[i] = out;
    }
}
H(h_crc32_32)
{
    UNUSED;
    // x86 crc32 r32, r32/r16/r8
    u32 dw = ki.argRaw[1];
    Expr * crc = toE(a[0][0], 32);
    Expr * d = mkZExt(toE(a[1][0], dw), 32);
    Expr * x = mk2(Op::Xor, crc, d);
    Expr * r = dw == 32 ? mkConst(0, 32) : mk2(Op::LShr, crc, mkConst(dw, 32));
    for (u32 b = 0; b < dw; b++)
        r = mk2(Op::Xor, r, mk2(Op::And, mkSExt(mkExtract(x, b, 1), 32), mkConst(crcBits(1u << b, dw), 32)));
    if (dw != 32)
        fatal("crc width");
    ret[0] = fromE(r);
}
H(h_crc32_64)
{
    UNUSED;
    Expr * crc = toE(a[0][0], 64);
    Expr * x = mk2(Op::Xor, mkZExt(mkExtract(crc, 0, 32), 64), toE(a[1][0], 64));
    if (isC(x))
    {
        ret[0] = { nullptr, crc64step((u64)x->k) };
        return;
    }
    Expr * r = mkConst(0, 32);
    for (u32 b = 0; b < 64; b++)
        r = mk2(Op::Xor, r, mk2(Op::And, mkSExt(mkExtract(x, b, 1), 32), mkConst((u32)crcTab64[b], 32)));
    ret[0] = fromE(mkZExt(r, 64));
}
H(h_frexp)
{
    UNUSED;
    if (! isConc(a[0][0]))
        throw Terminate{ 3, "symbolic frexp" };
    u32 w = ki.lanes[0].w;
    int ex = 0;
    if (w == 64)
        ret[0] = { nullptr, dBits(std::frexp(asD((u64)concV(a[0][0])), &ex)) };
    else
        throw Terminate{ 3, "frexp width" };
    ret[1] = { nullptr, (u64)(u32)ex };
}
H(h_libm)
{
    UNUSED;
    std::string nm = ki.mnem;
    u32 w = ki.lanes[0].w;
    if (nm.compare(0, 5, "llvm.") == 0)
    {
        nm = nm.substr(5);
        nm = nm.substr(0, nm.find('.'));
    }
    else if (w != 64)
        nm.pop_back();
    u32 two = ki.argLanes.size() > 1;
    for (u32 i = 0; i < ki.n; i++)
        ret[i] = fromE(mkLibM(libmId(nm), w, toE(a[0][i], w), two ? toE(a[1][i], w) : nullptr));
}
H(h_ret0)
{
    UNUSED;
    h_nop(st, fr, ki, a, ret);
}
H(h_self1)
{
    UNUSED;
    *ret = a[0][0];
}
H(h_vastart)
{
    UNUSED;
    // va_list: gp_offset, fp_offset, overflow_arg_area, reg_save_area; all arguments are in the overflow area
    u64 p = concretize(st, a[0][0], 64);
    Val v[4] = { { nullptr, 48 }, { nullptr, 304 }, { nullptr, fr.va ? st.mem.byId(fr.va)->base : 0 }, { nullptr, 0 } };
    store(st, Val{ nullptr, p }, 24, { { 0, 32, false }, { 4, 32, false }, { 8, 64, false }, { 16, 64, false } }, v);
}
H(h_vacopy)
{
    UNUSED;
    copyBytes(st, concretize(st, a[0][0], 64), concretize(st, a[1][0], 64), 24);
}
H(h_rdtsc)
{
    UNUSED;
    st.clock += 100;
    ret[0] = { nullptr, st.clock };
}
H(h_cpuid)
{
    UNUSED;
    for (u32 i = 0; i < ki.n; i++)
        ret[i] = { nullptr, 0 };
}
static u64 typeidOf(u64 tinfo)
{
    return ((tinfo - REGION) >> SLOT) & 0x7fffffff;
}
H(h_typeid)
{
    UNUSED;
    ret[0] = { nullptr, typeidOf(a[0][0].c) };
}
// exceptions
struct Unwind
{
};
H(h_cxa_alloc)
{
    UNUSED;
    *ret = { nullptr, doMalloc(st, concretize(st, a[0][0], 64), true) };
}
H(h_cxa_throw)
{
    UNUSED;
    st.curExc = concretize(st, a[0][0], 64);
    st.curTinfo = concretize(st, a[1][0], 64);
    throw Unwind{};
}
H(h_cxa_begin)
{
    UNUSED;
    st.caught.push_back(st.curExc);
    st.caught.push_back(st.curTinfo);
    *ret = a[0][0];
}
H(h_cxa_end)
{
    UNUSED;
    if (st.caught.size() >= 2)
        st.caught.resize(st.caught.size() - 2);
}
H(h_cxa_rethrow)
{
    UNUSED;
    if (st.caught.size() < 2)
        throw Terminate{ 3, "rethrow" };
    st.curTinfo = st.caught.back();
    st.curExc = st.caught[st.caught.size() - 2];
    throw Unwind{};
}
H(h_cxa_throwlib)
{
    UNUSED;
    // std::__throw_*: an exception of unknown dynamic type derived from std::exception
    st.curExc = doMalloc(st, 16, true);
    st.curTinfo = 0;
    throw Unwind{};
}
H(h_abort)
{
    UNUSED;
    violate(st, "abort", std::string("call of ") + ki.mnem);
}
H(h_exit)
{
    UNUSED;
    violate(st, "abort", std::string("call of ") + ki.mnem);
}
static u64 strLen(State & st, u64 p)
{
    u64 n = 0;
    for (;; n++)
    {
        Ptr q = resolve(st, Val{ nullptr, p + n }, 1, false);
        Val v = readLane(st, q.o, q.off, 8);
        if (isConc(v))
        {
            if (! concV(v))
                return n;
        }
        else if (decide(st, mkEq(v.e, mkConst(0, 8))))
            return n;
    }
}
H(h_strlen)
{
    UNUSED;
    *ret = { nullptr, strLen(st, concretize(st, a[0][0], 64)) };
}
H(h_memcmp)
{
    UNUSED;
    u64 p = concretize(st, a[0][0], 64), q = concretize(st, a[1][0], 64), n = concretize(st, a[2][0], 64);
    if (n)
    {
        resolve(st, Val{ nullptr, p }, n, false);
        resolve(st, Val{ nullptr, q }, n, false);
    }
    Expr * r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;)
    {
        Obj *x = st.mem.find(p + i), *y = st.mem.find(q + i);
        Expr * u = mkZExt(toE(readLane(st, x, p + i - x->base, 8), 8), 32);
        y = st.mem.find(q + i);
        Expr * v = mkZExt(toE(readLane(st, y, q + i - y->base, 8), 8), 32);
        r = mkIte(mkEq(u, v), r, mk2(Op::Sub, u, v));
    }
    *ret = fromE(r);
}
static void doStrcmp(State & st, u64 p, u64 q, u64 n, Val * ret)
{
    for (u64 i = 0; i < n; i++)
    {
        Ptr x = resolve(st, Val{ nullptr, p + i }, 1, false);
        Expr * u = toE(readLane(st, x.o, x.off, 8), 8);
        Ptr y = resolve(st, Val{ nullptr, q + i }, 1, false);
        Expr * v = toE(readLane(st, y.o, y.off, 8), 8);
        if (! decide(st, mkEq(u, v)))
        {
            *ret = fromE(mk2(Op::Sub, mkZExt(u, 32), mkZExt(v, 32)));
            return;
        }
        if (decide(st, mkEq(u, mkConst(0, 8))))
            break;
    }
    *ret = { nullptr, 0 };
}
H(h_strcmp)
{
    UNUSED;
    doStrcmp(st, concretize(st, a[0][0], 64), concretize(st, a[1][0], 64), ~0ull, ret);
}
H(h_strncmp)
{
    UNUSED;
    doStrcmp(st, concretize(st, a[0][0], 64), concretize(st, a[1][0], 64), concretize(st, a[2][0], 64), ret);
}
H(h_strcpy)
{
    UNUSED;
    u64 d = concretize(st, a[0][0], 64), s = concretize(st, a[1][0], 64);
    u64 n = strLen(st, s);
    copyBytes(st, d, s, n + 1);
    *ret = { nullptr, d };
}
H(h_strdup)
{
    UNUSED;
    u64 s = concretize(st, a[0][0], 64);
    u64 n = strLen(st, s);
    u64 d = doMalloc(st, n + 1, false);
    copyBytes(st, d, s, n + 1);
    *ret = { nullptr, d };
}
H(h_snprintf)
{
    UNUSED;
    // diagnostics only: the produced text is empty
    u64 p = concretize(st, a[0][0], 64);
    if (p)
        setBytes(st, p, Val{ nullptr, 0 }, 1);
    *ret = { nullptr, 0 };
}
// --- sym API
static Expr * freshSym(State & st, const std::string & base, unsigned w)
{
    static std::map<std::pair<std::string, unsigned>, Expr *> pool;
    int n = st.nameCount[base]++;
    std::string nm = n ? base + "#" + std::to_string(n) : base;
    if (g_concreteRun)
    {
        auto it = g_fixed.find(nm);
        u128 v = it == g_fixed.end() || it->second.empty() ? 0 : it->second[0];
        Expr * e = mkConst(v, w);
        st.syms.push_back({ nm, e });
        return e;
    }
    Expr *& s = pool[{ nm, w }];
    if (! s)
        s = mkSym(nm, w);
    st.syms.push_back({ nm, s });
    return s;
}
H(h_sym_make)
{
    UNUSED;
    u64 p = concretize(st, a[0][0], 64), es = concretize(st, a[1][0], 32), n = concretize(st, a[2][0], 64);
    std::string nm = cstr(st, concretize(st, a[3][0], 64));
    if (! n)
        return;
    Ptr d = resolve(st, Val{ nullptr, p }, es * n, true);
    Obj * o = st.mem.writable(d.o->id);
    for (u64 i = 0; i < n; i++)
        writeLane(st, o, d.off + i * es, es * 8, fromE(freshSym(st, nm + "[" + std::to_string(i) + "]", es * 8)));
}
H(h_sym_make_bool)
{
    UNUSED;
    u64 p = concretize(st, a[0][0], 64), n = concretize(st, a[1][0], 64);
    std::string nm = cstr(st, concretize(st, a[2][0], 64));
    if (! n)
        return;
    Ptr d = resolve(st, Val{ nullptr, p }, n, true);
    Obj * o = st.mem.writable(d.o->id);
    for (u64 i = 0; i < n; i++)
        writeLane(st, o, d.off + i, 8, fromE(mkZExt(freshSym(st, nm + "[" + std::to_string(i) + "]", 1), 8)));
}
H(h_sym_u64)
{
    UNUSED;
    std::string nm = cstr(st, concretize(st, a[0][0], 64));
    *ret = fromE(freshSym(st, nm, 64));
}
static void assume(State & st, Expr * c)
{
    c = known(st, c);
    if (isC(c, 1) || inPC(st, c))
        return;
    if (isC(c, 0))
        throw Terminate{ 2, "assumption" };
    if (st.model && evalExpr(c, *st.model))
    {
        addPC(st, c);
        return;
    }
    Model m;
    Res r = query(st, c, m);
    if (r == Res::Unsat)
        throw Terminate{ 2, "assumption" };
    addPC(st, c);
    if (r == Res::Sat && st.model)
    {
        auto nm = std::make_shared<Model>();
        nm->v = st.model->v;
        mergeModel(*nm, m);
        st.model = modelOk(st, *nm) ? nm : nullptr;
    }
    else
        st.model = nullptr;
    if (r == Res::Unknown)
        st.unsure = true;
}
static Expr * nonzero(const Val & v, unsigned w)
{
    if (! v.e)
        return mkConst(v.c != 0, 1);
    return mkNot(mkEq(v.e, mkConst(0, v.e->width)));
}
H(h_sym_assume)
{
    UNUSED;
    assume(st, nonzero(a[0][0], 32));
}
H(h_sym_assert)
{
    UNUSED;
    g_res.assertsChecked++;
    Expr * c = known(st, nonzero(a[0][0], 32));
    if (isC(c, 1))
    {
        g_res.assertsTrivial++;
        return;
    }
    require(st, c, "assert", cstr(st, concretize(st, a[1][0], 64)));
}
H(h_sym_choose)
{
    UNUSED;
    std::string nm = cstr(st, concretize(st, a[0][0], 64));
    i64 lo = (i64)concretize(st, a[1][0], 64), hi = (i64)concretize(st, a[2][0], 64);
    // re-executed after forks: reuse the symbol that this occurrence created
    std::string key = "choose:" + nm;
    Expr * e;
    auto it = st.nameCount.find(key);
    bool pending = it != st.nameCount.end() && it->second > 0;
    if (pending)
        e = st.syms[it->second - 1].second;
    else
    {
        e = freshSym(st, nm, 64);
        st.nameCount[key] = (int)st.syms.size();
        if (hi < lo)
            throw Terminate{ 2, "empty choice" };
        auto pick = [&](State & t, i64 v)
        {
            addPC(t, mkEq(e, mkConst((u64)v, 64)));
            if (t.model)
            {
                auto nm = std::make_shared<Model>();
                nm->v = t.model->v;
                nm->v[e->aux] = (u64)v;
                t.model = nm;
            }
        };
        for (i64 v = hi; v > lo; v--)
        {
            State * o = forkState(st);
            pick(*o, v);
            g_stack.push_back(o);
        }
        pick(st, lo);
    }
    u64 v = concretize(st, fromE(e), 64);
    st.nameCount[key] = 0;
    *ret = { nullptr, v };
}
// 1 when the condition is known without a query: the same terms on both sides
H(h_sym_known)
{
    UNUSED;
    Val v = a[0][0];
    if (! isConc(v))
        v = fromE(known(st, v.e));
    *ret = { nullptr, isConc(v) ? (u64)(concV(v) != 0) : 0 };
}
H(h_sym_concretize)
{
    UNUSED;
    *ret = { nullptr, concretize(st, a[0][0], 64) };
}
H(h_sym_observe)
{
    UNUSED;
    std::string nm = cstr(st, concretize(st, a[0][0], 64));
    u64 p = concretize(st, a[1][0], 64), es = concretize(st, a[2][0], 32), n = concretize(st, a[3][0], 64);
    if (! n)
        return;
    Ptr d = resolve(st, Val{ nullptr, p }, es * n, false);
    Observation ob;
    ob.name = nm;
    Obj * o = d.o;
    for (u64 i = 0; i < n; i++)
    {
        Val v = readLane(st, o, d.off + i * es, es * 8);
        ob.v.push_back({ v.e ? v.e : mkConst(v.c, es * 8), 0 });
    }
    st.obs.push_back(ob);
}
H(h_sym_arg)
{
    UNUSED;
    u64 i = concretize(st, a[0][0], 32);
    *ret = { nullptr, i < g_args.size() ? (u64)g_args[i] : 0 };
}
H(h_sym_reach)
{
    UNUSED;
    g_res.reach[cstr(st, concretize(st, a[0][0], 64))]++;
}
H(h_sym_symbolic)
{
    UNUSED;
    *ret = { nullptr, 1 };
}
H(h_sym_is_const)
{
    UNUSED;
    *ret = { nullptr, isConc(a[0][0]) };
}
H(h_sym_print)
{
    UNUSED;
    std::string nm = cstr(st, concretize(st, a[0][0], 64));
    if (isConc(a[1][0]))
        fprintf(stderr, "[sym_print] %s = %llx\n", nm.c_str(), (unsigned long long)concV(a[1][0]));
    else
        fprintf(stderr, "[sym_print] %s = %s\n", nm.c_str(), show(a[1][0].e).c_str());
}
H(h_sym_size)
{
    UNUSED;
    u64 p = concretize(st, a[0][0], 64);
    Obj * o = st.mem.find(p);
    *ret = { nullptr, o && ! o->freed ? o->size - (p - o->base) : 0 };
}
H(h_sym_unsupported)
{
    UNUSED;
    throw Terminate{ 3, cstr(st, concretize(st, a[0][0], 64)) };
}
// --- threads
H(h_sym_thread)
{
    UNUSED;
    // sym_thread(void *(*fn)(void*), void* arg) -> id
    u64 fn = concretize(st, a[0][0], 64), arg = concretize(st, a[1][0], 64);
    u64 idx = (fn - FNBASE) / 16;
    if (fn < FNBASE || idx >= g_byAddr.size())
        throw Terminate{ 3, "thread function" };
    KFunc * kf = g_byAddr[idx];
    if (! kf->translated)
        translate(kf);
    Thread t;
    Frame f;
    f.f = kf;
    f.regs.resize(kf->nslots, Val{ nullptr, 0 });
    f.regs[kf->argSlot[0]] = { nullptr, arg };
    t.fr.push_back(std::move(f));
    u64 id = st.th.size();
    *ret = { nullptr, id };
    st.th.push_back(std::move(t)); // invalidates frame references; the caller returns immediately
}
static void blockOn(State & st, u64 addr, u64 val, int kind)
{
    st.th[st.cur].status = kind;
    st.th[st.cur].blockAddr = addr;
    st.th[st.cur].blockVal = val;
}
H(h_sym_wait_eq) // wait until *(int32*)p != v  (used to model futex / spin waits)
{
    UNUSED;
    u64 p = concretize(st, a[0][0], 64), v = concretize(st, a[1][0], 32);
    blockOn(st, p, v, 2);
}
H(h_sym_join)
{
    UNUSED;
    u64 id = concretize(st, a[0][0], 64);
    if (id >= st.th.size())
        throw Terminate{ 3, "join" };
    if (st.th[id].status != 1)
        blockOn(st, id, 0, 3);
}

static void initHandlers()
{
    auto add = [](const char * n, Handler h) {
        g_hmap[n] = (int)g_handlers.size();
        g_handlers.push_back({ n, h });
    };
    for (auto n : { "malloc", "_Znwm", "_Znam" })
        add(n, h_malloc);
    add("_ZnwmSt11align_val_t", h_malloc);
    add("_ZnamSt11align_val_t", h_malloc);
    add("_ZnwmRKSt9nothrow_t", h_malloc);
    add("_ZnamRKSt9nothrow_t", h_malloc);
    add("_mm_malloc", h_malloc);
    add("_mm_free", h_free);
    add("calloc", h_calloc);
    add("realloc", h_realloc);
    add("aligned_alloc", h_alignedAlloc);
    add("memalign", h_alignedAlloc);
    add("posix_memalign", h_posix_memalign);
    for (auto n : { "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t",
                    "_ZdaPvmSt11align_val_t" })
        add(n, h_free);
    for (auto n : { "memcpy", "memmove" })
        add(n, h_memcpy);
    add("memset", h_memset);
    add("memcmp", h_memcmp);
    add("bcmp", h_memcmp);
    add("strlen", h_strlen);
    add("strcmp", h_strcmp);
    add("strncmp", h_strncmp);
    add("strcpy", h_strcpy);
    add("strdup", h_strdup);
    add("snprintf", h_snprintf);
    add("sprintf", h_snprintf);
    add("vsnprintf", h_snprintf);
    for (auto n : { "printf", "fprintf", "vfprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "fflush", "vprintf", "fiprintf", "__cxa_atexit", "getenv",
                    "secure_getenv", "atexit", "__cxa_guard_abort", "__cxa_guard_release", "__cxa_free_exception", "usleep", "sched_yield",
                    "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_cond_init", "pthread_cond_broadcast", "pthread_cond_signal",
                    "pthread_setaffinity_np", "pthread_self", "getpid", "perror", "__cxa_thread_atexit", "llvm.donothing", "pthread_once",
                    "pthread_create", "pthread_join", "pthread_detach", "pthread_attr_init", "pthread_attr_setdetachstate", "pthread_mutex_destroy", "pthread_cond_destroy" })
        add(n, h_ret0);
    add("__cxa_guard_acquire", h_self1); // replaced below
    add("__cxa_allocate_exception", h_cxa_alloc);
    add("__cxa_throw", h_cxa_throw);
    add("__cxa_begin_catch", h_cxa_begin);
    add("__cxa_end_catch", h_cxa_end);
    add("__cxa_rethrow", h_cxa_rethrow);
    add("__cxa_get_exception_ptr", h_self1);
    for (auto n : { "abort", "_ZSt9terminatev", "__assert_fail", "__cxa_pure_virtual", "__clang_call_terminate", "__stack_chk_fail" })
        add(n, h_abort);
    add("exit", h_exit);
    add("_exit", h_exit);
    add("sym_make", h_sym_make);
    add("sym_make_bool", h_sym_make_bool);
    add("sym_u64", h_sym_u64);
    add("sym_assume", h_sym_assume);
    add("sym_assert", h_sym_assert);
    add("sym_choose", h_sym_choose);
    add("sym_concretize", h_sym_concretize);
    add("sym_known", h_sym_known);
    add("sym_observe", h_sym_observe);
    add("sym_arg", h_sym_arg);
    add("sym_reach", h_sym_reach);
    add("sym_symbolic", h_sym_symbolic);
    add("sym_is_const", h_sym_is_const);
    add("sym_print", h_sym_print);
    add("sym_size", h_sym_size);
    add("sym_unsupported", h_sym_unsupported);
    add("sym_thread", h_sym_thread);
    add("sym_wait_eq", h_sym_wait_eq);
    add("sym_join", h_sym_join);
    for (std::string n : { "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "sin", "cos", "tan", "pow", "fmod", "remainder", "atan2" })
        for (std::string s : { "", "f", "l" })
            add(strdup((n + s).c_str()), h_libm);
    struct
    {
        const char * n;
        Handler h;
    } rnd[] = { { "floor", h_floor }, { "ceil", h_ceil }, { "trunc", h_trunc }, { "rint", h_rint }, { "nearbyint", h_rint }, { "round", h_round }, { "sqrt", h_sqrt }, { "fabs", h_fabs }, { "copysign", h_copysign } };
    for (auto & r : rnd)
        for (std::string s : { "", "f", "l" })
            add(strdup((std::string(r.n) + s).c_str()), r.h);
    add("asm", h_nop);
    add("asm.cpuid", h_cpuid);
    add("asm.rdtsc", h_rdtsc);
    // intrinsics by prefix
    add("llvm.va_start", h_vastart);
    add("llvm.va_copy", h_vacopy);
    add("llvm.va_end", h_nop);
    add("llvm.memcpy", h_memcpy);
    add("llvm.memmove", h_memcpy);
    add("llvm.memset", h_memset);
    for (auto n : { "llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax" })
        add(n, h_minmax);
    add("llvm.abs", h_abs);
    add("llvm.ctlz", h_ctlz);
    add("llvm.cttz", h_cttz);
    add("llvm.ctpop", h_ctpop);
    add("llvm.bswap", h_bswap);
    add("llvm.fshl", h_fshl);
    add("llvm.fshr", h_fshl);
    add("llvm.fabs", h_fabs);
    add("llvm.copysign", h_copysign);
    add("llvm.floor", h_floor);
    add("llvm.ceil", h_ceil);
    add("llvm.trunc", h_trunc);
    add("llvm.rint", h_rint);
    add("llvm.nearbyint", h_rint);
    add("llvm.round", h_round);
    add("llvm.sqrt", h_sqrt);
    add("llvm.fmuladd", h_fmuladd);
    add("llvm.is.fpclass", h_isfpclass);
    add("llvm.usub.sat", h_usubsat);
    for (auto n : { "llvm.uadd.with.overflow", "llvm.sadd.with.overflow", "llvm.usub.with.overflow", "llvm.ssub.with.overflow", "llvm.umul.with.overflow",
                    "llvm.smul.with.overflow" })
        add(n, h_ovf);
    add("llvm.x86.avx.max", h_x86max);
    add("llvm.x86.avx.min", h_x86min);
    add("llvm.x86.sse.max.ss", h_ssemin);
    add("llvm.x86.sse.min.ss", h_ssemin);
    add("llvm.x86.sse2.min.sd", h_ssemin);
    add("llvm.x86.sse2.max.sd", h_ssemin);
    add("llvm.x86.sse.min.ps", h_x86min);
    add("llvm.x86.sse.max.ps", h_x86max);
    add("llvm.x86.sse2.min.pd", h_x86min);
    add("llvm.x86.sse2.max.pd", h_x86max);
    add("llvm.x86.avx.round", h_x86round);
    add("llvm.x86.avx2.gather", h_gather);
    add("llvm.x86.avx2.packsswb", h_packsswb);
    add("llvm.x86.avx2.pmovmskb", h_movmsk);
    add("llvm.x86.avx.movmsk", h_movmsk);
    add("llvm.x86.sse.movmsk", h_movmsk);
    add("llvm.x86.sse2.movmsk", h_movmsk);
    add("llvm.x86.sse2.pmovmskb", h_movmsk);
    add("llvm.x86.sse42.crc32.32.32", h_crc32_32);
    add("llvm.x86.sse42.crc32.64.64", h_crc32_64);
    add("llvm.x86.rdtsc", h_rdtsc);
    add("llvm.x86.sse2.pause", h_nop);
    add("llvm.x86.avx.vzeroupper", h_nop);
    for (auto n : { "llvm.prefetch", "llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant" })
        add(n, h_nop);
    add("llvm.stacksave", h_nop);
    add("llvm.stackrestore", h_nop);
    add("llvm.frexp", h_frexp);
    add("llvm.eh.typeid.for", h_typeid);
    add("llvm.threadlocal.address", h_self1);
    add("llvm.launder.invariant.group", h_self1);
    add("llvm.expect", h_self1);
    add("llvm.trap", h_abort);
    for (auto n : { "llvm.exp", "llvm.exp2", "llvm.log", "llvm.log2", "llvm.log10", "llvm.sin", "llvm.cos", "llvm.pow" })
        add(n, h_libm);
    for (int i = 0; i < 32; i++)
        crcTab[i] = crcBits(1u << i, 32);
    for (int i = 0; i < 64; i++)
        crcTab64[i] = crc64step(1ull << i);
}
static int findHandler(const std::string & n)
{
    auto it = g_hmap.find(n);
    if (it != g_hmap.end())
        return it->second;
    if (n.compare(0, 5, "llvm.") == 0)
    {
        std::string p = n;
        while (true)
        {
            size_t d = p.rfind('.');
            if (d == std::string::npos || d < 5)
                break;
            p = p.substr(0, d);
            it = g_hmap.find(p);
            if (it != g_hmap.end())
                return it->second;
        }
    }
    if (n.compare(0, 11, "_ZSt20__thr") == 0 || (n.compare(0, 4, "_ZSt") == 0 && n.find("__throw_") != std::string::npos))
        return g_hmap["std::__throw"];
    return -1;
}
int asmHandler(const std::string & s)
{
    if (s.find("cpuid") != std::string::npos)
        return g_hmap["asm.cpuid"];
    if (s.find("rdtsc") != std::string::npos)
        return g_hmap["asm.rdtsc"];
    if (s.find("xgetbv") != std::string::npos)
        return g_hmap["asm.cpuid"];
    return g_hmap["asm"];
}
void resolveCallee(const Function * F, KInst & k)
{
    std::string n = F->getName().str();
    auto it = g_redirect.find(n);
    if (it != g_redirect.end())
    {
        k.callee = kfuncOf(g_mod->getFunction(it->second));
        return;
    }
    if (n.compare(0, 4, "sym_") == 0 || n == "memcpy" || n == "memset" || n == "memmove" || n == "memcmp" || n == "strlen" || F->isDeclaration())
    {
        int h = findHandler(n);
        if (h >= 0)
        {
            k.handler = h;
            return;
        }
    }
    k.callee = kfuncOf(F);
}

// ---------------------------------------------------------------- interpreter
static inline const Val * opv(Frame & fr, int i)
{
    return i >= 0 ? &fr.regs[i] : &fr.f->consts[-1 - i];
}
static void takeEdge(Frame & fr, Edge & e)
{
    if (! e.copies.empty())
    {
        static std::vector<Val> tmp;
        tmp.clear();
        for (auto & c : e.copies)
        {
            const Val * s = opv(fr, c.src);
            tmp.insert(tmp.end(), s, s + c.n);
        }
        size_t t = 0;
        for (auto & c : e.copies)
            for (u32 i = 0; i < c.n; i++)
                fr.regs[c.dst + i] = tmp[t++];
    }
    fr.pc = fr.f->blockStart[e.block];
}
static void popFrame(State & st)
{
    Frame & f = st.fr().back();
    for (u32 id : f.allocas)
        st.mem.dropPages(id);
    if (f.va)
        st.mem.dropPages(f.va);
    st.fr().pop_back();
}
static void doUnwind(State & st)
{
    auto & frames = st.fr();
    while (! frames.empty())
    {
        Frame & f = frames.back();
        KInst & ki = f.f->insts[f.pc];
        if (ki.k == K::Call && ki.sub == 1)
        {
            takeEdge(f, ki.edges[1]);
            return;
        }
        popFrame(st);
    }
    throw Terminate{ 3, "uncaught exception" };
}
static std::string g_tname;
static void enter(State & st, Frame & caller, KInst & ki, KFunc * kf, std::vector<const Val *> & args)
{
    if (! kf->translated)
    {
        if (kf->F->isDeclaration())
            throw Terminate{ 3, "external function " + demangle(kf->name) };
        translate(kf);
    }
    kf->entered = true;
    if (st.fr().size() > 400)
        throw Terminate{ 3, "call depth" };
    Frame nf;
    nf.f = kf;
    nf.regs.resize(kf->nslots, Val{ nullptr, 0 });
    size_t na = kf->argSlot.size();
    if (args.size() < na)
        throw Terminate{ 3, "argument count for " + kf->name };
    for (size_t i = 0; i < na; i++)
    {
        if (ki.aux[i])
        {
            u64 sz = ki.aux[i];
            u64 src = concretize(st, args[i][0], 64);
            Obj * o = st.mem.alloc(sz, OK_Stack, false, "byval copy");
            nf.allocas.push_back(o->id);
            copyBytes(st, o->base, src, sz);
            nf.regs[kf->argSlot[i]] = { nullptr, o->base };
            continue;
        }
        for (u32 j = 0; j < kf->argLaneN[i]; j++)
            nf.regs[kf->argSlot[i] + j] = args[i][j];
    }
    if (kf->variadic && args.size() > na)
    {
        u64 off = 0;
        std::vector<u64> offs;
        for (size_t i = na; i < args.size(); i++)
        {
            if (ki.argRaw[i] == 80)
                off = (off + 15) & ~15ull;
            offs.push_back(off);
            off += ki.aux[i] ? (ki.aux[i] + 7) / 8 * 8 : ki.argRaw[i] == 80 ? 16 : 8;
        }
        Obj * o = st.mem.alloc(off, OK_Stack, true, "variadic arguments");
        nf.va = o->id;
        u64 base = o->base;
        for (size_t i = na; i < args.size(); i++)
        {
            if (ki.aux[i])
                copyBytes(st, base + offs[i - na], concretize(st, args[i][0], 64), ki.aux[i]);
            else
                writeLane(st, st.mem.writable(nf.va), offs[i - na], ki.argRaw[i], args[i][0]);
        }
    }
    (void)caller;
    st.fr().push_back(std::move(nf));
}
static int slice64(const Val & v)
{
    return (int)v.c;
}
static bool runnable(State & st, u32 t)
{
    Thread & th = st.th[t];
    if (th.status == 0)
        return true;
    if (th.status == 2)
    {
        Obj * o = st.mem.find(th.blockAddr);
        Val v = readLane(st, o, th.blockAddr - o->base, 32);
        if (! isConc(v))
            throw Terminate{ 3, "symbolic wait word" };
        return (u32)concV(v) != (u32)th.blockVal;
    }
    if (th.status == 3)
        return st.th[th.blockAddr].status == 1;
    return false;
}
// Scheduling point. Returns after possibly forking other schedules.
static void schedPoint(State & st)
{
    if (st.th.size() < 2 || st.yieldPoint)
        return;
    if (st.switches < g_maxSwitches)
        for (u32 t = 0; t < st.th.size(); t++)
            if (t != st.cur && runnable(st, t))
            {
                State * o = forkState(st);
                o->th[t].status = 0;
                o->cur = t;
                o->switches++;
                o->yieldPoint = true;
                g_stack.push_back(o);
            }
}
// current thread cannot run: pick others
static void reschedule(State & st)
{
    std::vector<u32> r;
    bool allDone = true;
    for (u32 t = 0; t < st.th.size(); t++)
    {
        if (st.th[t].status != 1)
            allDone = false;
        if (runnable(st, t))
            r.push_back(t);
    }
    if (allDone)
        throw Terminate{ 0, "" };
    if (r.empty())
        violate(st, "deadlock", "no thread can make progress");
    for (size_t i = 1; i < r.size(); i++)
    {
        State * o = forkState(st);
        o->th[r[i]].status = 0;
        o->cur = r[i];
        g_stack.push_back(o);
    }
    st.th[r[0]].status = 0;
    st.cur = r[0];
}

static void step(State & st)
{
    Frame & fr = st.fr().back();
    KInst & ki = fr.f->insts[fr.pc];
    Val * D = ki.dst >= 0 ? &fr.regs[ki.dst] : nullptr;
    switch (ki.k)
    {
    case K::Bin:
        {
            const Val *a = opv(fr, ki.ops[0]), *b = opv(fr, ki.ops[1]);
            Op op = (Op)ki.sub;
            if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem)
            {
                Val tmp[64];
                for (u32 i = 0; i < ki.n; i++)
                {
                    if (! b[i].e)
                    {
                        if (! b[i].c)
                            violate(st, "arithmetic", "integer division by zero");
                        if ((op == Op::SDiv || op == Op::SRem) && ki.w >= 32 && b[i].c == mask64(ki.w) )
                        {
                            Expr * x = toE(a[i], ki.w);
                            require(st, mkNot(mkEq(x, mkConst((u128)1 << (ki.w - 1), ki.w))), "arithmetic", "integer division overflow");
                        }
                    }
                    else
                    {
                        require(st, mkNot(mkEq(b[i].e, mkConst(0, ki.w))), "arithmetic", "integer division by zero");
                        if ((op == Op::SDiv || op == Op::SRem) && ki.w >= 32)
                        {
                            Expr * x = toE(a[i], ki.w);
                            require(st,
                                    mkNot(mk2(Op::And, mkEq(x, mkConst((u128)1 << (ki.w - 1), ki.w)),
                                              mkEq(b[i].e, mkConst(maskw(ki.w), ki.w)))),
                                    "arithmetic", "integer division overflow");
                        }
                    }
                    tmp[i] = binop(op, ki.w, a[i], b[i]);
                }
                for (u32 i = 0; i < ki.n; i++)
                    D[i] = tmp[i];
                break;
            }
            for (u32 i = 0; i < ki.n; i++)
                D[i] = binop(op, ki.w, a[i], b[i]);
            break;
        }
    case K::FBin:
        {
            const Val *a = opv(fr, ki.ops[0]), *b = opv(fr, ki.ops[1]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = fbin((Op)ki.sub, ki.w, a[i], b[i]);
            break;
        }
    case K::FRem:
        {
            const Val *a = opv(fr, ki.ops[0]), *b = opv(fr, ki.ops[1]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = fromE(mkLibM(libmId("fmod"), ki.w, toE(a[i], ki.w), toE(b[i], ki.w)));
            break;
        }
    case K::FNeg:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = a[i].e || ki.w > 64 ? fromE(mk2(Op::Xor, toE(a[i], ki.w), mkConst((u128)1 << (ki.w - 1), ki.w))) :
                                             Val{ nullptr, a[i].c ^ (1ull << (ki.w - 1)) };
            break;
        }
    case K::ICmp:
        {
            const Val *a = opv(fr, ki.ops[0]), *b = opv(fr, ki.ops[1]);
            for (u32 i = 0; i < ki.n; i++)
            {
                D[i] = icmp(ki.sub, ki.w, a[i], b[i]);
                // a comparison of one symbol that the path has decided already
                if (D[i].e && D[i].e->syms->size() == 1 && st.pc.size() <= 48)
                {
                    if (inPC(st, D[i].e))
                        D[i] = { nullptr, 1 };
                    else if (inPC(st, mkNot(D[i].e)))
                        D[i] = { nullptr, 0 };
                }
            }
            break;
        }
    case K::FCmp:
        {
            const Val *a = opv(fr, ki.ops[0]), *b = opv(fr, ki.ops[1]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = fcmp(ki.sub, ki.w, a[i], b[i]);
            break;
        }
    case K::Select:
        {
            const Val *c = opv(fr, ki.ops[0]), *a = opv(fr, ki.ops[1]), *b = opv(fr, ki.ops[2]);
            bool vec = ki.aux[0];
            Val c0 = c[0];
            if (g_forkPtr && ! vec && c0.e && fr.f->fromRepo && ki.n == 1 && ki.lanes[0].w > 1)
                c0 = { nullptr, decide(st, c0.e) };
            for (u32 i = 0; i < ki.n; i++)
                D[i] = selectV(vec ? c[i] : c0, ki.lanes[i].w, a[i], b[i]);
            break;
        }
    case K::Br: takeEdge(fr, ki.edges[0]); return;
    case K::CondBr:
        {
            const Val & c = *opv(fr, ki.ops[0]);
            bool v;
            if (! c.e)
                v = c.c & 1;
            else
                v = decide(st, c.e);
            takeEdge(fr, ki.edges[v ? 0 : 1]);
            return;
        }
    case K::Switch:
        {
            const Val & c = *opv(fr, ki.ops[0]);
            if (isConc(c))
            {
                u64 v = (u64)concV(c);
                for (auto & cs : ki.cases)
                    if (cs.first == v)
                    {
                        takeEdge(fr, ki.edges[cs.second]);
                        return;
                    }
                takeEdge(fr, ki.edges[0]);
                return;
            }
            for (auto & cs : ki.cases)
                if (decide(st, mkEq(c.e, mkConst(cs.first, ki.w))))
                {
                    takeEdge(fr, ki.edges[cs.second]);
                    return;
                }
            takeEdge(fr, ki.edges[0]);
            return;
        }
    case K::Ret:
        {
            static std::vector<Val> rv;
            rv.clear();
            if (ki.n)
            {
                const Val * a = opv(fr, ki.ops[0]);
                rv.insert(rv.end(), a, a + ki.n);
            }
            popFrame(st);
            if (st.fr().empty())
            {
                if (st.cur == 0)
                    throw Terminate{ 0, "" };
                st.th[st.cur].status = 1;
                reschedule(st);
                return;
            }
            Frame & c = st.fr().back();
            KInst & ci = c.f->insts[c.pc];
            if (ci.dst >= 0)
                for (u32 i = 0; i < ci.n && i < rv.size(); i++)
                    c.regs[ci.dst + i] = rv[i];
            if (ci.sub == 1)
                takeEdge(c, ci.edges[0]);
            else
                c.pc++;
            return;
        }
    case K::Unreachable: throw Terminate{ 3, "unreachable executed in " + demangle(fr.f->name) };
    case K::Call:
        {
            std::vector<const Val *> args;
            size_t na = ki.argLanes.size();
            args.reserve(na);
            for (size_t i = 0; i < na; i++)
                args.push_back(ki.argLanes[i] ? opv(fr, ki.ops[i]) : nullptr);
            KFunc * kf = ki.callee;
            int h = ki.handler;
            if (! kf && h < 0)
            {
                if (ki.ops.size() == na)
                    break; // ignored intrinsic
                u64 fn = concretize(st, *opv(fr, ki.ops[na]), 64);
                u64 idx = (fn - FNBASE) / 16;
                if (fn < FNBASE || idx >= g_byAddr.size())
                    violate(st, "memory", "call through an invalid function pointer");
                kf = g_byAddr[idx];
                if (kf->F->isDeclaration())
                {
                    h = findHandler(kf->name);
                }
            }
            if (h >= 0)
            {
                bool inv = ki.sub == 1;
                size_t cur = st.cur;
                g_handlers[h].h(st, fr, ki, args, D);
                Frame & f2 = st.th[cur].fr.back();
                if (inv)
                    takeEdge(f2, ki.edges[0]);
                else
                    f2.pc++;
                if (st.th[cur].status == 2 || st.th[cur].status == 3)
                {
                    if (runnable(st, (u32)cur))
                        st.th[cur].status = 0;
                    else
                        reschedule(st);
                }
                return;
            }
            enter(st, fr, ki, kf, args);
            return;
        }
    case K::Alloca:
        {
            u64 n = concretize(st, *opv(fr, ki.ops[0]), 64);
            Obj * o = st.mem.alloc(n * ki.aux[0], OK_Stack, false, "stack variable");
            if (! o)
                throw Terminate{ 3, "alloca size" };
            fr.allocas.push_back(o->id);
            *D = { nullptr, o->base };
            break;
        }
    case K::Load:
        {
            if (ki.isVol || ki.isAtomic)
                schedPoint(st);
            Val tmp[256];
            if (ki.lanes.size() > 256)
                throw Terminate{ 3, "wide load" };
            load(st, *opv(fr, ki.ops[0]), ki.aux[0], ki.lanes, tmp);
            for (size_t i = 0; i < ki.lanes.size(); i++)
                D[i] = tmp[i];
            break;
        }
    case K::Store:
        if (ki.isVol || ki.isAtomic)
            schedPoint(st);
        store(st, *opv(fr, ki.ops[1]), ki.aux[0], ki.lanes, opv(fr, ki.ops[0]));
        break;
    case K::Gep:
        {
            Val r = *opv(fr, ki.ops[0]);
            u64 c = ki.aux.back();
            for (size_t i = 1; i < ki.ops.size(); i++)
            {
                const Val & ix = *opv(fr, ki.ops[i]);
                u64 sz = ki.aux[2 * (i - 1)];
                u32 w = (u32)ki.aux[2 * (i - 1) + 1];
                if (! ix.e)
                    c += (u64)sx64(ix.c, w) * sz;
                else if (g_forkPtr && (ix.e->op == Op::ZExt || ix.e->op == Op::SExt) && ix.e->a->width == 1)
                    c += decide(st, ix.e->a) ? (ix.e->op == Op::ZExt ? sz : -sz) : 0;
                else
                {
                    Expr * e = w < 64 ? mkSExt(ix.e, 64) : ix.e;
                    e = (sz & (sz - 1)) == 0 ? mk2(Op::Shl, e, mkConst(__builtin_ctzll(sz ? sz : 1), 64)) : mk2(Op::Mul, e, mkConst(sz, 64));
                    if (sz == 0)
                        e = mkConst(0, 64);
                    r = fromE(mk2(Op::Add, toE(r, 64), e));
                }
            }
            if (! r.e)
                *D = { nullptr, r.c + c };
            else
                *D = fromE(mk2(Op::Add, r.e, mkConst(c, 64)));
            break;
        }
    case K::Trunc:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = a[i].e ? fromE(mkExtract(a[i].e, 0, ki.w)) : Val{ nullptr, a[i].c & mask64(ki.w) };
            break;
        }
    case K::ZExt:
        {
            const Val * a = opv(fr, ki.ops[0]);
            if (g_forkPtr && ki.n == 1 && a->e && ki.w2 == 1 && ki.w >= 32 && fr.f->fromRepo)
            {
                *D = { nullptr, decide(st, a->e) };
                break;
            }
            for (u32 i = 0; i < ki.n; i++)
                D[i] = a[i].e || ki.w > 64 ? fromE(mkZExt(toE(a[i], ki.w2), ki.w)) : a[i];
            break;
        }
    case K::SExt:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = a[i].e || ki.w > 64 ? fromE(mkSExt(toE(a[i], ki.w2), ki.w)) : Val{ nullptr, (u64)sx64(a[i].c, ki.w2) & mask64(ki.w) };
            break;
        }
    case K::FToI:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = ftoi(ki.w2, ki.w, ki.sub, a[i]);
            break;
        }
    case K::IToF:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = itof(ki.w2, ki.w, ki.sub, a[i]);
            break;
        }
    case K::FCast:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = fcast(ki.w2, ki.w, a[i]);
            break;
        }
    case K::Move:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = a[i];
            break;
        }
    case K::BitCast:
        {
            const Val * a = opv(fr, ki.ops[0]);
            u32 w1 = ki.lanes2[0].w, w2 = ki.lanes[0].w;
            Val tmp[64];
            if (w2 < w1)
            {
                u32 f = w1 / w2;
                for (u32 i = 0; i < ki.n; i++)
                    tmp[i] = a[i / f].e ? fromE(mkExtract(a[i / f].e, (i % f) * w2, w2)) : Val{ nullptr, (a[i / f].c >> ((i % f) * w2)) & mask64(w2) };
            }
            else
            {
                u32 f = w2 / w1;
                for (u32 i = 0; i < ki.n; i++)
                {
                    bool conc = w2 <= 64;
                    for (u32 j = 0; j < f; j++)
                        conc &= ! a[i * f + j].e;
                    if (conc)
                    {
                        u64 v = 0;
                        for (u32 j = 0; j < f; j++)
                            v |= a[i * f + j].c << (j * w1);
                        tmp[i] = { nullptr, v };
                        continue;
                    }
                    if (w2 > 128)
                        throw Terminate{ 3, "wide bitcast" };
                    Expr * e = toE(a[i * f], w1);
                    for (u32 j = 1; j < f; j++)
                        e = mkConcat(toE(a[i * f + j], w1), e);
                    tmp[i] = fromE(e);
                }
            }
            for (u32 i = 0; i < ki.n; i++)
                D[i] = tmp[i];
            break;
        }
    case K::ExtractElt:
        {
            const Val * a = opv(fr, ki.ops[0]);
            u64 i = concretize(st, *opv(fr, ki.ops[1]), 64);
            *D = a[i % ki.n];
            break;
        }
    case K::InsertElt:
        {
            const Val *a = opv(fr, ki.ops[0]), *v = opv(fr, ki.ops[1]);
            u64 ix = concretize(st, *opv(fr, ki.ops[2]), 64);
            Val x = *v;
            for (u32 i = 0; i < ki.n; i++)
                D[i] = a[i];
            D[ix % ki.n] = x;
            break;
        }
    case K::Shuffle:
        {
            const Val *a = opv(fr, ki.ops[0]), *b = opv(fr, ki.ops[1]);
            u64 n0 = ki.aux.back();
            Val tmp[64];
            for (u32 i = 0; i < ki.n; i++)
                tmp[i] = ki.aux[i] < n0 ? a[ki.aux[i]] : b[ki.aux[i] - n0];
            for (u32 i = 0; i < ki.n; i++)
                D[i] = tmp[i];
            break;
        }
    case K::ExtractVal:
        {
            const Val * a = opv(fr, ki.ops[0]);
            for (u32 i = 0; i < ki.aux[1]; i++)
                D[i] = a[ki.aux[0] + i];
            break;
        }
    case K::InsertVal:
        {
            const Val *a = opv(fr, ki.ops[0]), *v = opv(fr, ki.ops[1]);
            for (u32 i = 0; i < ki.n; i++)
                D[i] = a[i];
            for (u32 i = 0; i < ki.aux[1]; i++)
                D[ki.aux[0] + i] = v[i];
            break;
        }
    case K::Rmw:
        {
            schedPoint(st);
            Val old, p = *opv(fr, ki.ops[0]), v = *opv(fr, ki.ops[1]);
            u32 w = ki.lanes[0].w;
            load(st, p, w / 8, ki.lanes, &old);
            Val nv;
            switch (ki.sub)
            {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: nv = binop(Op::Add, w, old, v); break;
            case AtomicRMWInst::Sub: nv = binop(Op::Sub, w, old, v); break;
            case AtomicRMWInst::And: nv = binop(Op::And, w, old, v); break;
            case AtomicRMWInst::Or: nv = binop(Op::Or, w, old, v); break;
            case AtomicRMWInst::Xor: nv = binop(Op::Xor, w, old, v); break;
            default: throw Terminate{ 3, "atomicrmw" };
            }
            store(st, p, w / 8, ki.lanes, &nv);
            *D = old;
            break;
        }
    case K::CmpXchg:
        {
            schedPoint(st);
            Val old, p = *opv(fr, ki.ops[0]), cmp = *opv(fr, ki.ops[1]), nv = *opv(fr, ki.ops[2]);
            u32 w = ki.lanes[0].w;
            load(st, p, w / 8, ki.lanes, &old);
            Val eq = binop(Op::Eq, w, old, cmp);
            bool t = isConc(eq) ? concV(eq) & 1 : decide(st, eq.e);
            if (t)
                store(st, p, w / 8, ki.lanes, &nv);
            D[0] = old;
            D[1] = { nullptr, t };
            break;
        }
    case K::Fence: break;
    case K::LandingPad:
        {
            u64 sel = 0;
            bool match = ki.sub; // cleanup
            for (u64 t : ki.aux)
            {
                if (t == 1)
                    continue;
                bool m = t == 0 || t == st.curTinfo;
                if (! m)
                {
                    Obj * o = st.mem.find(t);
                    m = o && ! strcmp(o->name, "_ZTISt9exception");
                }
                if (m)
                {
                    sel = t ? typeidOf(t) : 1;
                    match = true;
                    break;
                }
            }
            if (! match)
            {
                popFrame(st);
                doUnwind(st);
                return;
            }
            D[0] = { nullptr, st.curExc };
            D[1] = { nullptr, sel };
            break;
        }
    case K::Resume:
        popFrame(st);
        doUnwind(st);
        return;
    default: throw Terminate{ 3, std::string("instruction ") + ki.mnem + " in " + demangle(fr.f->name) };
    }
    fr.pc++;
}
H(h_guard_acquire)
{
    UNUSED;
    u64 p = concretize(st, a[0][0], 64);
    Obj * o = st.mem.find(p);
    Val v = readLane(st, o, p - o->base, 8);
    bool first = concV(v) == 0;
    if (first)
        writeLane(st, st.mem.writable(o->id), p - o->base, 8, Val{ nullptr, 1 });
    *ret = { nullptr, first };
}

static void addSample(State & st)
{
    if (g_res.samples.size() >= g_sampleWanted)
    {
        // keep later paths too: exponentially rarer
        if ((g_res.paths & (g_res.paths - 1)) != 0)
            return;
        if (g_res.samples.size() >= 4 * g_sampleWanted)
            return;
    }
    if (! st.model || st.unsure)
        return;
    // vary the model: random values for every symbol while they satisfy the path condition, else only for the others
    Model rm;
    {
        static u64 seed = 0x9e3779b97f4a7c15ull;
        auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
        std::set<u32> all, inpc;
        for (auto & s : st.syms)
            all.insert(s.second->syms->begin(), s.second->syms->end());
        for (Expr * c : st.pc)
            inpc.insert(c->syms->begin(), c->syms->end());
        auto value = [&](u32 y) -> u128
        {
            unsigned w = g_syms[y].width;
            u128 v = (u128)rnd() << 64 | rnd();
            switch (rnd() % 8)
            {
            case 0: v = rnd() % 4; break;
            case 1: v = (u128)1 << (w - 1) | (rnd() % 2); break;
            case 2: v = ~(u128)0 - rnd() % 3; break;
            case 3: v = w == 32 ? 0x3f800000u + (rnd() % 64 << 20) : w == 64 ? 0x3ff0000000000000ull + (rnd() % 64 << 48) : rnd() % 16; break;
            case 4: v = w == 32 ? 0x7fc00000u : w == 64 ? 0x7ff8000000000000ull : v; break;
            case 5: v = rnd() % 100; break;
            }
            return v & maskw(w);
        };
        bool done = false;
        for (int tries = 0; tries < 12 && ! done; tries++)
        {
            rm = Model();
            rm.v = st.model->v;
            bool part = tries >= 8;
            for (u32 y : all)
                if (! g_syms[y].uninit && (! part || ! inpc.count(y)))
                    rm.v[y] = value(y);
            done = true;
            for (Expr * c : st.pc)
                if (! (evalExpr(c, rm) & 1))
                {
                    done = false;
                    break;
                }
        }
        if (! done)
        {
            rm = Model();
            rm.v = st.model->v;
        }
    }
    std::ostringstream o;
    o << "{\"vals\":{";
    bool first = true;
    for (auto & s : st.syms)
    {
        u128 v = evalExpr(s.second, rm);
        char b[64];
        if (v >> 64)
            snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
        else
            snprintf(b, sizeof b, "%llx", (unsigned long long)v);
        o << (first ? "" : ",") << "\"" << s.first << "\":\"" << b << "\"";
        first = false;
    }
    o << "},\"obs\":[";
    first = true;
    for (auto & ob : st.obs)
    {
        o << (first ? "" : ",") << "[\"" << ob.name << "\"";
        first = false;
        for (auto & p : ob.v)
        {
            u128 v = p.first ? evalExpr(p.first, rm) : p.second;
            bool un = false;
            if (p.first)
                for (u32 s : *p.first->syms)
                    un |= g_syms[s].uninit;
            char b[64];
            if (un)
                snprintf(b, sizeof b, "uninit");
            else if (v >> 64)
                snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
            else
                snprintf(b, sizeof b, "%llx", (unsigned long long)v);
            o << ",\"" << b << "\"";
        }
        o << "]";
    }
    o << "]}";
    g_res.samples.push_back(o.str());
}
static void runState(State * s)
{
    State & st = *s;
    u64 n = 0;
    try
    {
        while (true)
        {
            try
            {
                for (;;)
                {
                    Frame & f = st.fr().back();
                    f.f->icount++;
                    if ((++n & 0xfff) == 0)
                    {
                        if (! g_inInit)
                            checkTime();
                        if (n > g_maxSteps)
                            throw Terminate{ 3, "step limit" };
                    }
                    bool yp = st.yieldPoint;
                    if (g_trace)
                    {
                        std::string t;
                        raw_string_ostream os(t);
                        KInst & ki = f.f->insts[f.pc];
                        if (ki.I)
                            ki.I->print(os);
                        int dst = ki.dst;
                        size_t depth = st.fr().size();
                        step(st);
                        std::string v;
                        if (dst >= 0 && st.fr().size() == depth)
                        {
                            Val x = st.fr().back().regs[dst];
                            if (x.e)
                                v = show(x.e, 4);
                            else
                            {
                                char b[32];
                                snprintf(b, sizeof b, "0x%llx", (unsigned long long)x.c);
                                v = b;
                            }
                        }
                        fprintf(stderr, "%zu %s   => %s\n", depth, os.str().c_str(), v.c_str());
                    }
                    else
                        step(st);
                    if (yp)
                        st.yieldPoint = false;
                }
            }
            catch (Unwind &)
            {
                doUnwind(st);
            }
        }
    }
    catch (Terminate & t)
    {
        g_res.steps += n;
        switch (t.kind)
        {
        case 0:
            g_res.paths++;
            if (st.syms.size() > g_res.maxSyms)
                g_res.maxSyms = (u32)st.syms.size();
            if (! g_inInit)
                addSample(st);
            break;
        case 1: g_res.errpaths++; break;
        case 2: g_res.infeasible++; break;
        case 3:
            g_res.unsupported++;
            g_res.problems[t.why + " @ " + where(st)]++;
            break;
        case 4: g_res.limit++; break;
        }
    }
}
static void startCall(State & st, KFunc * kf)
{
    if (! kf->translated)
        translate(kf);
    kf->entered = true;
    Frame f;
    f.f = kf;
    f.regs.resize(kf->nslots, Val{ nullptr, 0 });
    st.th.clear();
    st.th.push_back(Thread());
    st.th[0].fr.push_back(std::move(f));
    st.cur = 0;
}
static void runConcrete(const std::string & fn)
{
    Function * F = g_mod->getFunction(fn);
    if (! F || F->isDeclaration())
        fatal("no function " + fn);
    startCall(*g_init, kfuncOf(F));
    u64 before = g_res.paths;
    runState(g_init);
    if (g_res.paths != before + 1)
    {
        for (auto & p : g_res.problems)
            fprintf(stderr, "init problem: %s\n", p.first.c_str());
        for (auto & v : g_res.viol)
            fprintf(stderr, "init violation: %s %s @ %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str());
        fatal("initialisation failed in " + fn);
    }
}
static std::string jesc(const std::string & s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if ((unsigned char)c < 32)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r;
}
struct Job
{
    std::string id, fn, args;
    double timeout;
};
static void runJob(const Job & j, FILE * out)
{
    g_res = JobResult();
    g_inInit = false;
    g_args.clear();
    std::stringstream ss(j.args);
    std::string t;
    while (std::getline(ss, t, ','))
        if (! t.empty())
            g_args.push_back(std::stoll(t));
    double t0 = now();
    g_deadline = t0 + j.timeout;
    for (auto & kv : g_funcs)
        kv.second->entered = false;
    Function * F = g_mod->getFunction(j.fn);
    if (! F || F->isDeclaration())
        fatal("no function " + j.fn);
    State * s = new State(*g_init);
    s->model = std::make_shared<Model>();
    startCall(*s, kfuncOf(F));
    g_stack.push_back(s);
    u64 left = 0;
    while (! g_stack.empty())
    {
        if (now() > g_deadline)
            g_res.timeout = true;
        if (g_res.timeout)
        {
            left = g_stack.size();
            break;
        }
        State * x = g_stack.back();
        g_stack.pop_back();
        runState(x);
        delete x;
    }
    bool complete = ! g_res.timeout && ! g_res.unsupported && ! g_res.limit && ! g_res.assertsUnknown;
    std::ostringstream o;
    o << "{\"id\":\"" << jesc(j.id) << "\",\"complete\":" << (complete ? "true" : "false") << ",\"timeout\":" << (g_res.timeout ? "true" : "false")
      << ",\"paths\":" << g_res.paths << ",\"errpaths\":" << g_res.errpaths << ",\"infeasible\":" << g_res.infeasible << ",\"left\":" << left
      << ",\"unsupported\":" << g_res.unsupported << ",\"forks\":" << g_res.forks << ",\"steps\":" << g_res.steps << ",\"asserts\":" << g_res.assertsChecked
      << ",\"trivial\":" << g_res.assertsTrivial << ",\"proved\":" << g_res.assertsProved << ",\"order\":" << g_sstats.order << ",\"linear\":" << g_res.linearProved << ",\"undecided\":" << g_res.assertsUnknown
      << ",\"memchecks\":" << g_res.memChecks << ",\"syms\":" << g_res.maxSyms << ",\"queries\":" << g_sstats.queries << ",\"cache\":" << g_sstats.cacheHits
      << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown << ",\"fpq\":" << g_sstats.fpQueries
      << ",\"fpexact\":" << g_sstats.fpPrecise << ",\"badmodels\":" << g_sstats.validationFailures << ",\"solver_s\":" << g_sstats.seconds
      << ",\"wall_s\":" << (now() - t0) << ",\"exprs\":" << exprCount();
    o << ",\"reach\":{";
    bool first = true;
    for (auto & r : g_res.reach)
    {
        o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second;
        first = false;
    }
    o << "},\"problems\":{";
    first = true;
    for (auto & r : g_res.problems)
    {
        o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second;
        first = false;
    }
    o << "},\"violations\":[";
    first = true;
    for (auto & v : g_res.viol)
    {
        o << (first ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"vals\":{";
        bool f2 = true;
        for (auto & kv : v.vals)
        {
            char b[64];
            u128 x = kv.second.second;
            if (x >> 64)
                snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x);
            else
                snprintf(b, sizeof b, "%llx", (unsigned long long)x);
            o << (f2 ? "" : ",") << "\"" << jesc(kv.first) << "\":\"" << b << "\"";
            f2 = false;
        }
        o << "}}";
        first = false;
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < g_res.samples.size(); i++)
        o << (i ? "," : "") << g_res.samples[i];
    o << "],\"functions\":[";
    first = true;
    for (auto & kv : g_funcs)
        if (kv.second->entered && kv.second->fromRepo)
        {
            std::string d = demangle(kv.second->name);
            if (d.find("std::") == 0 || d.find("__gnu") == 0)
                continue;
            o << (first ? "" : ",") << "\"" << jesc(d.substr(0, 240)) << "\"";
            first = false;
        }
    o << "]}\n";
    fputs(o.str().c_str(), out);
    fflush(out);
}

int main(int argc, char ** argv)
{
    std::vector<std::string> repo, aux;
    std::string jobsFile, outFile = "/dev/stdout", init, fixedFile;
    int par = 8;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--repo")
            repo.push_back(nx());
        else if (a == "--aux")
            aux.push_back(nx());
        else if (a == "--jobs")
            jobsFile = nx();
        else if (a == "--out")
            outFile = nx();
        else if (a == "--init")
            init = nx();
        else if (a == "--par")
            par = std::stoi(nx());
        else if (a == "--trace")
            g_trace = true;
        else if (a == "--qtimeout")
            g_queryTimeoutMs = std::stoi(nx());
        else if (a == "--samples")
            g_sampleWanted = std::stoi(nx());
        else if (a == "--switches")
            g_maxSwitches = std::stoi(nx());
        else if (a == "--forkptr")
            g_forkPtr = true;
        else if (a == "--maxsteps")
            g_maxSteps = std::stoull(nx());
        else if (a == "--fixed")
            fixedFile = nx();
        else
            fatal("argument " + a);
    }
    initHandlers();
    g_handlers.push_back({ "std::__throw", h_cxa_throwlib });
    g_hmap["std::__throw"] = (int)g_handlers.size() - 1;
    g_handlers[g_hmap["__cxa_guard_acquire"]].h = h_guard_acquire;
    double t0 = now();
    auto loadOne = [&](const std::string & f) {
        SMDiagnostic err;
        auto m = parseIRFile(f, err, g_ctx);
        if (! m)
            fatal("cannot read " + f);
        return m;
    };
    std::unique_ptr<Linker> L;
    std::vector<std::string> all = aux;
    all.insert(all.end(), repo.begin(), repo.end());
    for (size_t i = 0; i < all.size(); i++)
    {
        auto m = loadOne(all[i]);
        bool isRepo = i >= aux.size();
        if (isRepo)
            for (auto & F : *m)
                if (! F.isDeclaration())
                    g_repoDefs.insert(F.getName().str());
        if (! g_mod)
        {
            g_mod = std::move(m);
            L = std::make_unique<Linker>(*g_mod);
        }
        else if (L->linkInModule(std::move(m)))
            fatal("link " + all[i]);
    }
    DLp = &g_mod->getDataLayout();
    setDataLayout(DLp);
    for (auto & F : *g_mod)
        if (F.getName().starts_with("stub_") && ! F.isDeclaration())
            g_redirect[F.getName().substr(5).str()] = F.getName().str();
    for (auto & F : *g_mod)
        kfuncOf(&F);
    g_init = new State;
    g_init->th.push_back(Thread());
    std::vector<std::pair<GlobalVariable *, u32>> gl;
    for (auto & G : g_mod->globals())
    {
        if (G.getName().starts_with("llvm."))
            continue;
        u64 sz = DLp->getTypeAllocSize(G.getValueType());
        Obj * o = g_init->mem.alloc(sz ? sz : 8, OK_Global, true, keepName(G.getName().str()));
        if (! o)
            fatal("global size " + G.getName().str());
        g_gaddr[&G] = o->base;
        gl.push_back({ &G, o->id });
    }
    for (auto & g : gl)
        if (g.first->hasInitializer())
        {
            Obj * o = g_init->mem.writable(g.second);
            initConst(*g_init, o, 0, g.first->getInitializer());
            if (g.first->isConstant())
                o->kind = OK_Const;
        }
    // constructors
    if (auto * CT = g_mod->getGlobalVariable("llvm.global_ctors"))
        if (CT->hasInitializer())
            if (auto * CA = dyn_cast<ConstantArray>(CT->getInitializer()))
            {
                std::vector<std::pair<u64, Function *>> v;
                for (auto & op : CA->operands())
                {
                    auto * S = cast<ConstantStruct>(op);
                    if (auto * F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts()))
                        v.push_back({ cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F });
                }
                std::stable_sort(v.begin(), v.end(), [](auto & a, auto & b) { return a.first < b.first; });
                for (auto & p : v)
                {
                    if (getenv("RSYM_VERBOSE"))
                        fprintf(stderr, "ctor %s\n", p.second->getName().str().c_str());
                    runConcrete(p.second->getName().str());
                }
            }
    if (! init.empty())
        runConcrete(init);
    g_init->syms.clear();
    double tInit = now() - t0;
    if (getenv("RSYM_VERBOSE"))
        fprintf(stderr, "init %.2fs, %llu steps, %zu globals\n", tInit, (unsigned long long)g_res.steps, gl.size());
    if (! fixedFile.empty())
    {
        g_concreteRun = true;
        std::ifstream in(fixedFile);
        std::string n, h;
        while (in >> n >> h)
        {
            u128 v = 0;
            for (char c : h)
                v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
            g_fixed[n].push_back(v);
        }
    }
    std::vector<Job> jobs;
    {
        std::ifstream in(jobsFile);
        std::string line;
        while (std::getline(in, line))
        {
            if (line.empty())
                continue;
            std::stringstream ss(line);
            Job j;
            std::string t;
            std::getline(ss, j.id, '|');
            std::getline(ss, j.fn, '|');
            std::getline(ss, j.args, '|');
            std::getline(ss, t, '|');
            j.timeout = t.empty() ? 60 : std::stod(t);
            jobs.push_back(j);
        }
    }
    int ofd = open(outFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    std::map<pid_t, std::pair<size_t, double>> run;
    std::map<pid_t, std::string> tmp;
    size_t next = 0;
    auto emitDead = [&](size_t ji, const char * why) {
        std::string s = "{\"id\":\"" + jesc(jobs[ji].id) + "\",\"complete\":false,\"crashed\":\"" + why + "\"}\n";
        if (write(ofd, s.c_str(), s.size()) < 0)
            perror("write");
    };
    while (next < jobs.size() || ! run.empty())
    {
        while (next < jobs.size() && (int)run.size() < par)
        {
            size_t ji = next++;
            std::string tf = outFile + "." + std::to_string(getpid()) + "." + std::to_string(ji);
            fflush(stdout);
            pid_t p = fork();
            if (p == 0)
            {
                struct rlimit rl = { 12ull << 30, 12ull << 30 };
                setrlimit(RLIMIT_AS, &rl);
                FILE * f = fopen(tf.c_str(), "w");
                runJob(jobs[ji], f);
                fclose(f);
                _exit(0);
            }
            run[p] = { ji, now() };
            tmp[p] = tf;
        }
        int status;
        pid_t p = waitpid(-1, &status, WNOHANG);
        if (p <= 0)
        {
            usleep(5000);
            for (auto & r : run)
                if (now() - r.second.second > jobs[r.second.first].timeout + 45)
                    kill(r.first, SIGKILL);
            continue;
        }
        auto it = run.find(p);
        if (it == run.end())
            continue;
        std::ifstream in(tmp[p]);
        std::stringstream b;
        b << in.rdbuf();
        std::string s = b.str();
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && ! s.empty() && s.back() == '\n')
        {
            if (write(ofd, s.c_str(), s.size()) < 0)
                perror("write");
        }
        else
        {
            char why[64];
            snprintf(why, sizeof why, "status %d", status);
            emitDead(it->second.first, why);
        }
        unlink(tmp[p].c_str());
        tmp.erase(p);
        run.erase(it);
    }
    close(ofd);
    _exit(0);
}
