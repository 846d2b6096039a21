#include "expr.h"
#include "order.h"
#include "piecewise.h"
#include <algorithm>
#include <sstream>
#include <map>

std::vector<SymInfo> g_syms;

namespace
{
    struct Key
    {
        Op op;
        uint8_t w;
        u32 aux;
        Expr *a, *b, *c;
        u128 k;
        bool operator==(const Key & o) const
        {
            return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && k == o.k;
        }
    };
    struct KH
    {
        size_t operator()(const Key & k) const
        {
            u64 h = (u64)k.op * 0x9E3779B97F4A7C15ull + k.w * 0x100000001b3ull + k.aux * 0xff51afd7ed558ccdull;
            h ^= (u64)k.a * 0xc4ceb9fe1a85ec53ull;
            h = (h << 13) | (h >> 51);
            h ^= (u64)k.b * 0x9FB21C651E98DF25ull;
            h = (h << 13) | (h >> 51);
            h ^= (u64)k.c * 0xD6E8FEB86659FD93ull;
            h ^= (u64)k.k * 0xA0761D6478BD642Full + (u64)(k.k >> 64);
            return h ^ (h >> 29);
        }
    };
    std::unordered_map<Key, Expr *, KH> g_tab;
    std::vector<Expr *> g_all;
    std::vector<u32> g_nosyms;
    std::map<std::vector<u32>, std::vector<u32> *> g_symsets;

    const std::vector<u32> * unionSyms(const std::vector<u32> * a, const std::vector<u32> * b)
    {
        if (a == b || b->empty())
            return a;
        if (a->empty())
            return b;
        std::vector<u32> r;
        std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
        if (r.size() == a->size())
            return a;
        if (r.size() == b->size())
            return b;
        auto it = g_symsets.find(r);
        if (it != g_symsets.end())
            return it->second;
        auto p = new std::vector<u32>(r);
        g_symsets[r] = p;
        return p;
    }

    Expr * intern(Op op, unsigned w, u32 aux, Expr * a, Expr * b, Expr * c, u128 k = 0)
    {
        Key key{ op, (uint8_t)w, aux, a, b, c, k };
        auto it = g_tab.find(key);
        if (it != g_tab.end())
            return it->second;
        Expr * e = new Expr;
        e->op = op;
        e->width = w;
        e->aux = aux;
        e->a = a;
        e->b = b;
        e->c = c;
        e->k = k;
        e->id = g_all.size();
        const std::vector<u32> * s = &g_nosyms;
        e->hasFP = op >= Op::FAdd;
        u64 size = 1;
        for (Expr * x : { a, b, c })
            if (x)
            {
                s = unionSyms(s, x->syms);
                e->hasFP |= x->hasFP;
                size += x->size;
            }
        if (op == Op::Sym)
        {
            auto p = new std::vector<u32>{ aux };
            s = p;
        }
        e->size = size > 0x7fffffff ? 0x7fffffff : size;
        e->syms = s;
        g_all.push_back(e);
        g_tab.emplace(key, e);
        if (s->size() == 1)
        {
            Expr * q = pwCanon(e);
            if (q != e)
            {
                g_tab[key] = q;
                return q;
            }
        }
        return e;
    }
    std::vector<std::string> g_libm;

    u128 foldBin(Op op, unsigned w, u128 a, u128 b)
    {
        u128 m = maskw(w);
        switch (op)
        {
        case Op::Add: return (a + b) & m;
        case Op::Sub: return (a - b) & m;
        case Op::Mul: return (a * b) & m;
        case Op::UDiv: return b ? (a / b) : m;
        case Op::URem: return b ? (a % b) : a;
        case Op::SDiv:
            {
                i128 x = sx(a, w), y = sx(b, w);
                if (y == 0)
                    return x < 0 ? 1 : m;
                if (y == -1)
                    return (u128)(-x) & m;
                return (u128)(x / y) & m;
            }
        case Op::SRem:
            {
                i128 x = sx(a, w), y = sx(b, w);
                if (y == 0)
                    return a;
                if (y == -1)
                    return 0;
                return (u128)(x % y) & m;
            }
        case Op::And: return a & b;
        case Op::Or: return a | b;
        case Op::Xor: return a ^ b;
        case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
        case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
        case Op::AShr: return (u128)(sx(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & m;
        case Op::Eq: return a == b;
        case Op::Ult: return a < b;
        case Op::Ule: return a <= b;
        case Op::Slt: return sx(a, w) < sx(b, w);
        case Op::Sle: return sx(a, w) <= sx(b, w);
        default: abort();
        }
    }
    template <typename T>
    T fromBits(u128 v)
    {
        T r;
        unsigned char buf[16];
        memcpy(buf, &v, 16);
        memset(&r, 0, sizeof(T));
        memcpy((void *)&r, buf, sizeof(T) == 16 ? 10 : sizeof(T));
        return r;
    }
    template <typename T>
    u128 toBits(T x)
    {
        u128 v = 0;
        memcpy(&v, &x, sizeof(T) == 16 ? 10 : sizeof(T));
        // canonical NaN
        if (x != x)
        {
            if (sizeof(T) == 4)
                return 0x7fc00000u;
            if (sizeof(T) == 8)
                return 0x7ff8000000000000ull;
            return ((u128)0x7fff << 64) | 0xC000000000000000ull;
        }
        return v;
    }
    template <typename T>
    u128 foldFT(Op op, u128 a, u128 b, unsigned aux, unsigned w)
    {
        T x = fromBits<T>(a), y = fromBits<T>(b);
        switch (op)
        {
        case Op::FAdd: return toBits<T>(x + y);
        case Op::FSub: return toBits<T>(x - y);
        case Op::FMul: return toBits<T>(x * y);
        case Op::FDiv: return toBits<T>(x / y);
        case Op::FSqrt: return toBits<T>(std::sqrt(x));
        case Op::FRound:
            switch (aux)
            {
            case 0: return toBits<T>(std::nearbyint(x));
            case 1: return toBits<T>(std::floor(x));
            case 2: return toBits<T>(std::ceil(x));
            case 3: return toBits<T>(std::trunc(x));
            case 4: return toBits<T>(std::round(x));
            }
            abort();
        case Op::FToS:
            {
                if (w == 32)
                {
                    if (x != x || x >= (T)2147483648.0 || x <= (T)-2147483649.0L)
                    {
                        // careful with float where -2147483649 rounds to -2147483648
                        if (x != x || x >= (T)2147483648.0 || (long double)x <= -2147483649.0L)
                            return 0x80000000u;
                    }
                    return (u32)(int32_t)x;
                }
                if (x != x || (long double)x >= 9223372036854775808.0L || (long double)x < -9223372036854775808.0L)
                    return (u64)1 << 63;
                return (u64)(i64)x;
            }
        default: abort();
        }
    }
}

u128 foldF(Op op, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux)
{
    switch (op)
    {
    case Op::SToF:
        {
            i64 v = (i64)sx(a, aw);
            if (w == 32)
                return toBits<float>((float)v);
            if (w == 64)
                return toBits<double>((double)v);
            return toBits<long double>((long double)v);
        }
    case Op::UToF:
        {
            u64 v = (u64)a;
            if (w == 32)
                return toBits<float>((float)v);
            if (w == 64)
                return toBits<double>((double)v);
            return toBits<long double>((long double)v);
        }
    case Op::FExt:
    case Op::FTrunc:
        {
            long double v = aw == 32 ? (long double)fromBits<float>(a) :
                            aw == 64 ? (long double)fromBits<double>(a) :
                                       fromBits<long double>(a);
            if (w == 32)
                return toBits<float>((float)v);
            if (w == 64)
                return toBits<double>((double)v);
            return toBits<long double>(v);
        }
    case Op::LibM:
        {
            const std::string & n = g_libm[aux];
            std::string base = n;
            long double r;
            auto call = [&](auto x, auto y) -> u128
            {
                using T = decltype(x);
                if (base == "exp") return toBits<T>(std::exp(x));
                if (base == "exp2") return toBits<T>(std::exp2(x));
                if (base == "expm1") return toBits<T>(std::expm1(x));
                if (base == "log") return toBits<T>(std::log(x));
                if (base == "log2") return toBits<T>(std::log2(x));
                if (base == "log10") return toBits<T>(std::log10(x));
                if (base == "log1p") return toBits<T>(std::log1p(x));
                if (base == "cbrt") return toBits<T>(std::cbrt(x));
                if (base == "sin") return toBits<T>(std::sin(x));
                if (base == "cos") return toBits<T>(std::cos(x));
                if (base == "tan") return toBits<T>(std::tan(x));
                if (base == "pow") return toBits<T>(std::pow(x, y));
                if (base == "fmod") return toBits<T>(std::fmod(x, y));
                if (base == "remainder") return toBits<T>(std::remainder(x, y));
                if (base == "atan2") return toBits<T>(std::atan2(x, y));
                fprintf(stderr, "libm fold %s\n", n.c_str());
                abort();
            };
            (void)r;
            if (w == 32)
                return call(fromBits<float>(a), fromBits<float>(b));
            if (w == 64)
                return call(fromBits<double>(a), fromBits<double>(b));
            return call(fromBits<long double>(a), fromBits<long double>(b));
        }
    default:
        if (aw == 32)
            return foldFT<float>(op, a, b, aux, w);
        if (aw == 64)
            return foldFT<double>(op, a, b, aux, w);
        return foldFT<long double>(op, a, b, aux, w);
    }
}

int libmId(const std::string & n)
{
    for (size_t i = 0; i < g_libm.size(); i++)
        if (g_libm[i] == n)
            return i;
    g_libm.push_back(n);
    return g_libm.size() - 1;
}
const std::string & libmName(unsigned id)
{
    return g_libm[id];
}
size_t exprCount()
{
    return g_all.size();
}

Expr * mkConst(u128 v, unsigned w)
{
    return intern(Op::Const, w, 0, nullptr, nullptr, nullptr, v & maskw(w));
}
static std::vector<Expr *> g_symExprs;
Expr * mkSym(const std::string & name, unsigned w, bool uninit)
{
    u32 id = g_syms.size();
    g_syms.push_back({ name, (int)w, uninit });
    Expr * e = intern(Op::Sym, w, id, nullptr, nullptr, nullptr);
    g_symExprs.resize(id + 1);
    g_symExprs[id] = e;
    return e;
}
Expr * mkSymOf(u32 id)
{
    return g_symExprs[id];
}
extern bool g_pwBusy;
Expr * rawIntern(Op op, unsigned w, u32 aux, Expr * a, Expr * b, Expr * c)
{
    bool old = g_pwBusy;
    g_pwBusy = true;
    Expr * e = intern(op, w, aux, a, b, c);
    g_pwBusy = old;
    return e;
}

static unsigned lesserZeros(Expr * a, Expr * b)
{
    if (a->size > b->size)
        std::swap(a, b);
    unsigned t = trailingZeros(a);
    return t && b->size < 20000 ? std::min(t, trailingZeros(b)) : 0;
}
unsigned trailingZeros(Expr * e)
{
    switch (e->op)
    {
    case Op::Const:
        if (e->k == 0)
            return e->width;
        {
            unsigned n = 0;
            u128 k = e->k;
            while (! (k & 1))
            {
                k >>= 1;
                n++;
            }
            return n;
        }
    case Op::Shl:
        if (isC(e->b))
            return (unsigned)std::min<u128>(e->width, (u128)trailingZeros(e->a) + e->b->k);
        return trailingZeros(e->a);
    case Op::Mul: return std::min<unsigned>(e->width, trailingZeros(e->a) + trailingZeros(e->b));
    case Op::Add:
    case Op::Sub:
    case Op::Or:
    case Op::Xor: return lesserZeros(e->a, e->b);
    case Op::And: return std::max(trailingZeros(e->a), trailingZeros(e->b));
    case Op::Ite: return lesserZeros(e->b, e->c);
    case Op::ZExt:
    case Op::SExt:
        {
            unsigned t = trailingZeros(e->a);
            return t >= e->a->width ? (unsigned)e->width : t;
        }
    case Op::Concat:
        {
            unsigned t = trailingZeros(e->b);
            return t >= e->b->width ? e->b->width + trailingZeros(e->a) : t;
        }
    default: return 0;
    }
}

// conservative unsigned range
void unsignedRange(Expr * e, u128 & lo, u128 & hi)
{
    lo = 0;
    hi = maskw(e->width);
    switch (e->op)
    {
    case Op::Const: lo = hi = e->k; return;
    case Op::ZExt: unsignedRange(e->a, lo, hi); return;
    case Op::And:
        {
            u128 l1, h1, l2, h2;
            unsignedRange(e->a, l1, h1);
            unsignedRange(e->b, l2, h2);
            hi = std::min(h1, h2);
            return;
        }
    case Op::Ite:
        {
            if (e->size > 400)
                return;
            u128 l1, h1, l2, h2;
            unsignedRange(e->b, l1, h1);
            unsignedRange(e->c, l2, h2);
            lo = std::min(l1, l2);
            hi = std::max(h1, h2);
            return;
        }
    case Op::LShr:
        if (isC(e->b) && e->b->k < e->width)
        {
            u128 l1, h1;
            unsignedRange(e->a, l1, h1);
            lo = l1 >> (unsigned)e->b->k;
            hi = h1 >> (unsigned)e->b->k;
        }
        return;
    case Op::Or:
        if (e->size < 200 && e->width < 128)
        {
            u128 l1, h1, l2, h2;
            unsignedRange(e->a, l1, h1);
            unsignedRange(e->b, l2, h2);
            lo = std::max(l1, l2);
            u128 ones = h1 | h2;
            for (unsigned i = 1; i < e->width; i *= 2)
                ones |= ones >> i;
            hi = std::min(h1 + h2, ones);
        }
        return;
    case Op::URem:
        if (isC(e->b) && e->b->k)
            hi = e->b->k - 1;
        return;
    case Op::UDiv:
        if (isC(e->b) && e->b->k)
        {
            u128 l1, h1;
            unsignedRange(e->a, l1, h1);
            lo = l1 / e->b->k;
            hi = h1 / e->b->k;
        }
        return;
    case Op::Add:
        {
            static std::unordered_map<u32, std::pair<u128, u128>> cache;
            if (e->size >= 64)
            {
                auto it = cache.find(e->id);
                if (it != cache.end())
                {
                    lo = it->second.first;
                    hi = it->second.second;
                    return;
                }
            }
            u128 l1, h1, l2, h2;
            unsignedRange(e->a, l1, h1);
            unsignedRange(e->b, l2, h2);
            if (e->width < 128 && h1 + h2 <= maskw(e->width))
            {
                lo = l1 + l2;
                hi = h1 + h2;
            }
            if (e->size >= 64)
                cache[e->id] = { lo, hi };
        }
        return;
    case Op::Mul:
        if (isC(e->b) && e->width <= 64)
        {
            u128 l1, h1;
            unsignedRange(e->a, l1, h1);
            if (h1 * e->b->k <= maskw(e->width))
            {
                lo = l1 * e->b->k;
                hi = h1 * e->b->k;
            }
        }
        return;
    case Op::Shl:
        if (isC(e->b) && e->width <= 64 && e->b->k < e->width)
        {
            u128 l1, h1;
            unsignedRange(e->a, l1, h1);
            if ((h1 << (unsigned)e->b->k) <= maskw(e->width))
            {
                lo = l1 << (unsigned)e->b->k;
                hi = h1 << (unsigned)e->b->k;
            }
        }
        return;
    default: return;
    }
}

Expr * mkNot(Expr * a)
{
    return mk2(Op::Xor, a, mkConst(maskw(a->width), a->width));
}
Expr * mkNeg(Expr * a)
{
    return mk2(Op::Sub, mkConst(0, a->width), a);
}
// adds sign * e to the linear combination over the operands of additions, subtractions and multiplications by constants; false when too large
static bool linearAdd(Expr * e0, u128 f0, std::unordered_map<Expr *, u128> & m, u128 & k, int & budget)
{
    std::vector<std::pair<Expr *, u128>> todo{ { e0, f0 } };
    while (! todo.empty())
    {
        auto [e, f] = todo.back();
        todo.pop_back();
        if (--budget < 0)
            return false;
        if (isC(e))
            k += f * e->k;
        else if (e->op == Op::Add)
        {
            todo.push_back({ e->a, f });
            todo.push_back({ e->b, f });
        }
        else if (e->op == Op::Sub)
        {
            todo.push_back({ e->a, f });
            todo.push_back({ e->b, (u128)0 - f });
        }
        else if (e->op == Op::Mul && isC(e->b))
            todo.push_back({ e->a, f * e->b->k });
        else if (e->op == Op::Shl && isC(e->b) && e->b->k < e->width)
            todo.push_back({ e->a, f << (unsigned)e->b->k });
        else
            m[e] += f;
    }
    return true;
}
Expr * mkEq(Expr * a, Expr * b)
{
    auto sum = [](Expr * e) { return e->op == Op::Add || e->op == Op::Sub; };
    if (a != b && (sum(a) || sum(b)) && a->width > 1 && a->syms->size() > 1 && (isC(b) || a->syms->size() == b->syms->size()))
    {
        std::unordered_map<Expr *, u128> m;
        u128 k = 0;
        int budget = 60000;
        if (! isC(a) && ! isC(b) && linearAdd(a, 1, m, k, budget) && linearAdd(b, (u128)0 - 1, m, k, budget))
        {
            bool zero = true;
            for (auto & p : m)
                if (p.second & maskw(a->width))
                {
                    zero = false;
                    break;
                }
            if (zero)
                return mkConst((k & maskw(a->width)) == 0, 1);
        }
    }
    return mk2(Op::Eq, a, b);
}

static bool isCommut(Op op)
{
    return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
}
static bool isNotOf(Expr * x, Expr * y) // x == ~y
{
    if (x->op == Op::Xor && isC(x->b, maskw(x->width)) && x->a == y)
        return true;
    if (y->op == Op::Xor && isC(y->b, maskw(y->width)) && y->a == x)
        return true;
    return false;
}

std::pair<i128, i128> signedRange(Expr * e);
Expr * mk2(Op op, Expr * a, Expr * b)
{
    unsigned w = a->width;
    if (a->width != b->width)
    {
        fprintf(stderr, "width mismatch op %d: %d %d\n", (int)op, a->width, b->width);
        abort();
    }
    bool cmp = op >= Op::Eq && op <= Op::Sle;
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b))
        return mkConst(foldBin(op, w, a->k, b->k), rw);
    if (isCommut(op))
    {
        if (isC(a) || (! isC(b) && a->id > b->id))
            std::swap(a, b);
    }
    u128 full = maskw(w);
    switch (op)
    {
    case Op::Add:
        if (isC(b, 0))
            return a;
        if (isC(b))
        {
            if (a->op == Op::Add && isC(a->b))
                return mk2(Op::Add, a->a, mkConst(a->b->k + b->k, w));
            if (a->op == Op::Sub && isC(a->a))
                return mk2(Op::Sub, mkConst(a->a->k + b->k, w), a->b);
            if (a->op == Op::Ite && isC(a->b) && isC(a->c))
                return mkIte(a->a, mkConst(a->b->k + b->k, w), mkConst(a->c->k + b->k, w));
        }
        else
        {
            // move constants outward
            if (a->op == Op::Add && isC(a->b))
                return mk2(Op::Add, mk2(Op::Add, a->a, b), a->b);
            if (b->op == Op::Add && isC(b->b))
                return mk2(Op::Add, mk2(Op::Add, a, b->a), b->b);
            if (a->op == Op::Sub && a->b == b)
                return a->a;
            if (b->op == Op::Sub && b->b == a)
                return b->a;
            if (w == 1)
                return mk2(Op::Xor, a, b);
        }
        break;
    case Op::Sub:
        if (a == b)
            return mkConst(0, w);
        if (isC(b))
            return mk2(Op::Add, a, mkConst((u128)0 - b->k, w));
        if (a->op == Op::Add)
        {
            if (a->a == b)
                return a->b;
            if (a->b == b)
                return a->a;
            if (isC(a->b))
                return mk2(Op::Add, mk2(Op::Sub, a->a, b), a->b);
        }
        if (b->op == Op::Add && isC(b->b))
            return mk2(Op::Add, mk2(Op::Sub, a, b->a), mkConst((u128)0 - b->b->k, w));
        if (b->op == Op::Add && b->a == a)
            return mkNeg(b->b);
        if (b->op == Op::Add && b->b == a)
            return mkNeg(b->a);
        if (w == 1)
            return mk2(Op::Xor, a, b);
        break;
    case Op::Mul:
        if (isC(b, 0))
            return b;
        if (isC(b, 1))
            return a;
        if (isC(b))
        {
            u128 k = b->k;
            if ((k & (k - 1)) == 0)
            {
                unsigned s = 0;
                while (! ((k >> s) & 1))
                    s++;
                return mk2(Op::Shl, a, mkConst(s, w));
            }
            if (a->op == Op::Mul && isC(a->b))
                return mk2(Op::Mul, a->a, mkConst(a->b->k * k, w));
        }
        if (w == 1)
            return mk2(Op::And, a, b);
        break;
    case Op::UDiv:
        if (isC(b, 1))
            return a;
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0)
        {
            unsigned s = 0;
            while (! ((b->k >> s) & 1))
                s++;
            return mk2(Op::LShr, a, mkConst(s, w));
        }
        break;
    case Op::URem:
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0)
            return mk2(Op::And, a, mkConst(b->k - 1, w));
        break;
    case Op::SDiv:
        if (isC(b, 1))
            return a;
        break;
    case Op::And:
        if (isC(b, 0))
            return b;
        if (isC(b, full))
            return a;
        if (a == b)
            return a;
        if (isNotOf(a, b))
            return mkConst(0, w);
        if (isC(b))
        {
            if (a->op == Op::And && isC(a->b))
                return mk2(Op::And, a->a, mkConst(a->b->k & b->k, w));
            // low mask -> zext(extract)
            u128 k = b->k;
            if ((k & (k + 1)) == 0)
            {
                unsigned n = 0;
                while (n < w && ((k >> n) & 1))
                    n++;
                return mkZExt(mkExtract(a, 0, n), w);
            }
            if (a->op == Op::ZExt && a->a->width < w)
                return mkZExt(mk2(Op::And, a->a, mkConst(k, a->a->width)), w);
            if (a->op == Op::Ite && (isC(a->b) || isC(a->c)))
                return mkIte(a->a, mk2(Op::And, a->b, b), mk2(Op::And, a->c, b));
            if (a->op == Op::Concat)
            {
                unsigned lw = a->b->width;
                return mkConcat(mk2(Op::And, a->a, mkConst(k >> lw, a->a->width)), mk2(Op::And, a->b, mkConst(k, lw)));
            }
        }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
            return mkZExt(mk2(Op::And, a->a, b->a), w);
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width)
            return mkSExt(mk2(Op::And, a->a, b->a), w);
        // mask with sign-extended bit
        if (a->op == Op::SExt && a->a->width == 1 && w > 1)
            return mkIte(a->a, b, mkConst(0, w));
        if (b->op == Op::SExt && b->a->width == 1 && w > 1)
            return mkIte(b->a, a, mkConst(0, w));
        if (w == 1)
        {
            if (a->op == Op::And && (a->a == b || a->b == b))
                return a;
            if (b->op == Op::And && (b->a == a || b->b == a))
                return b;
        }
        break;
    case Op::Or:
        if (isC(b, 0))
            return a;
        if (isC(b, full))
            return b;
        if (a == b)
            return a;
        if (isNotOf(a, b))
            return mkConst(full, w);
        if (isC(b) && a->op == Op::Or && isC(a->b))
            return mk2(Op::Or, a->a, mkConst(a->b->k | b->k, w));
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
            return mkZExt(mk2(Op::Or, a->a, b->a), w);
        // zext(x) | shl(y, n) with n >= width(x) -> concat
        for (int s = 0; s < 2; s++)
        {
            Expr *x = s ? b : a, *y = s ? a : b;
            if (x->op == Op::ZExt && y->op == Op::Shl && isC(y->b) && y->b->k >= x->a->width && y->b->k < w)
            {
                unsigned n = (unsigned)y->b->k;
                return mkConcat(mkExtract(y->a, 0, w - n), mkZExt(x->a, n));
            }
            if (x->op == Op::ZExt && y->op == Op::Concat && isC(y->b, 0) && y->b->width >= x->a->width)
                return mkConcat(y->a, mkZExt(x->a, y->b->width));
            if (y->op == Op::Concat && isC(y->b, 0))
            {
                u128 lo, hi;
                unsignedRange(x, lo, hi);
                if (hi <= maskw(y->b->width))
                    return mkConcat(y->a, mkExtract(x, 0, y->b->width));
            }
        }
        if (a->op == Op::Concat && b->op == Op::Concat && a->b->width == b->b->width)
            return mkConcat(mk2(Op::Or, a->a, b->a), mk2(Op::Or, a->b, b->b));
        if (isC(b) && a->op == Op::Concat)
        {
            unsigned lw = a->b->width;
            return mkConcat(mk2(Op::Or, a->a, mkConst(b->k >> lw, a->a->width)), mk2(Op::Or, a->b, mkConst(b->k, lw)));
        }
        if (isC(b) && a->op == Op::Ite && isC(a->b) && isC(a->c))
            return mkIte(a->a, mkConst(a->b->k | b->k, w), mkConst(a->c->k | b->k, w));
        if (a->op == Op::Ite && b->op == Op::Ite && a->a == b->a && (isC(a->b) || isC(a->c) || isC(b->b) || isC(b->c)))
            return mkIte(a->a, mk2(Op::Or, a->b, b->b), mk2(Op::Or, a->c, b->c));
        if (a->op == Op::Ite && b->op == Op::Ite && isNotOf(a->a, b->a) && (isC(a->b) || isC(a->c) || isC(b->b) || isC(b->c)))
            return mkIte(a->a, mk2(Op::Or, a->b, b->c), mk2(Op::Or, a->c, b->b));
        if (a->op == Op::SExt && a->a->width == 1 && w > 1)
            return mkIte(a->a, mkConst(full, w), b);
        if (b->op == Op::SExt && b->a->width == 1 && w > 1)
            return mkIte(b->a, mkConst(full, w), a);
        break;
    case Op::Xor:
        if (isC(b, 0))
            return a;
        if (a == b)
            return mkConst(0, w);
        if (isNotOf(a, b))
            return mkConst(full, w);
        if (isC(b))
        {
            if (a->op == Op::Xor && isC(a->b))
                return mk2(Op::Xor, a->a, mkConst(a->b->k ^ b->k, w));
            if (a->op == Op::Ite && isC(a->b) && isC(a->c))
                return mkIte(a->a, mkConst(a->b->k ^ b->k, w), mkConst(a->c->k ^ b->k, w));
            if (a->op == Op::SExt && b->k == full)
                return mkSExt(mk2(Op::Xor, a->a, mkConst(full, a->a->width)), w);
            if (w == 1)
            {
                // not of comparison
                if (a->op == Op::Ult)
                    return mk2(Op::Ule, a->b, a->a);
                if (a->op == Op::Ule)
                    return mk2(Op::Ult, a->b, a->a);
                if (a->op == Op::Slt)
                    return mk2(Op::Sle, a->b, a->a);
                if (a->op == Op::Sle)
                    return mk2(Op::Slt, a->b, a->a);
            }
            if (a->op == Op::ZExt && b->k <= maskw(a->a->width))
                return mkZExt(mk2(Op::Xor, a->a, mkConst(b->k, a->a->width)), w);
        }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
            return mkZExt(mk2(Op::Xor, a->a, b->a), w);
        break;
    case Op::Shl:
        if (isC(b, 0))
            return a;
        if (isC(b))
        {
            if (b->k >= w)
                return mkConst(0, w);
            unsigned n = (unsigned)b->k;
            if (a->op == Op::Shl && isC(a->b))
                return mk2(Op::Shl, a->a, mkConst(a->b->k + n, w));
            if (a->op == Op::ZExt && a->a->width + n <= w)
            {
                Expr * c = mkConcat(a->a, mkConst(0, n));
                return mkZExt(c, w);
            }
            if (a->op == Op::Add && isC(a->b))
                return mk2(Op::Add, mk2(Op::Shl, a->a, b), mkConst(a->b->k << n, w));
        }
        break;
    case Op::LShr:
        if (isC(b, 0))
            return a;
        if (isC(b))
        {
            if (b->k >= w)
                return mkConst(0, w);
            return mkZExt(mkExtract(a, (unsigned)b->k, w - (unsigned)b->k), w);
        }
        break;
    case Op::AShr:
        if (isC(b, 0))
            return a;
        if (isC(b))
        {
            unsigned n = b->k >= w ? w - 1 : (unsigned)b->k;
            return mkSExt(mkExtract(a, n, w - n), w);
        }
        break;
    case Op::Eq:
        if (a == b)
            return mkConst(1, 1);
        if (isNotOf(a, b))
            return mkConst(0, 1);
        if (w == 1)
        {
            if (isC(b))
                return b->k ? a : mkNot(a);
            break;
        }
        if (isC(b))
        {
            if (a->op == Op::ZExt)
            {
                if (b->k > maskw(a->a->width))
                    return mkConst(0, 1);
                return mkEq(a->a, mkConst(b->k, a->a->width));
            }
            if (a->op == Op::SExt)
            {
                u128 low = b->k & maskw(a->a->width);
                if (((u128)sx(low, a->a->width) & full) != b->k)
                    return mkConst(0, 1);
                return mkEq(a->a, mkConst(low, a->a->width));
            }
            if (a->op == Op::Add && isC(a->b))
                return mkEq(a->a, mkConst(b->k - a->b->k, w));
            if (a->op == Op::Sub && isC(a->a))
                return mkEq(a->b, mkConst(a->a->k - b->k, w));
            if (a->op == Op::Xor && isC(a->b))
                return mkEq(a->a, mkConst(b->k ^ a->b->k, w));
            if (a->op == Op::Ite)
            {
                bool cb = isC(a->b), cc = isC(a->c);
                if (cb && cc)
                {
                    bool eb = a->b->k == b->k, ec = a->c->k == b->k;
                    if (eb && ec)
                        return mkConst(1, 1);
                    if (eb)
                        return a->a;
                    if (ec)
                        return mkNot(a->a);
                    return mkConst(0, 1);
                }
                if (cb)
                    return a->b->k == b->k ? mk2(Op::Or, a->a, mkEq(a->c, b)) :
                                             mk2(Op::And, mkNot(a->a), mkEq(a->c, b));
                if (cc)
                    return a->c->k == b->k ? mk2(Op::Or, mkNot(a->a), mkEq(a->b, b)) : mk2(Op::And, a->a, mkEq(a->b, b));
            }
            if (a->op == Op::Concat && a->size < 200)
            {
                unsigned lw = a->b->width;
                return mk2(Op::And, mkEq(a->a, mkConst(b->k >> lw, a->a->width)), mkEq(a->b, mkConst(b->k, lw)));
            }
            if (a->op == Op::Sub && b->k == 0)
                return mkEq(a->a, a->b);
            if (a->op == Op::Or && b->k == 0)
                return mk2(Op::And, mkEq(a->a, b), mkEq(a->b, b));
            if (a->op == Op::Xor && b->k == 0)
                return mkEq(a->a, a->b);
            u128 lo, hi;
            unsignedRange(a, lo, hi);
            if (b->k < lo || b->k > hi)
                return mkConst(0, 1);
        }
        if ((a->op == Op::ZExt && b->op == Op::ZExt) || (a->op == Op::SExt && b->op == Op::SExt))
        {
            if (a->a->width == b->a->width)
                return mkEq(a->a, b->a);
            unsigned m = std::max(a->a->width, b->a->width);
            if (m < w)
                return a->op == Op::ZExt ? mkEq(mkZExt(a->a, m), mkZExt(b->a, m)) : mkEq(mkSExt(a->a, m), mkSExt(b->a, m));
        }
        if (a->op == Op::Add && b->op == Op::Add && isC(a->b) && isC(b->b))
        {
            if (a->a == b->a)
                return mkConst(a->b->k == b->b->k, 1);
        }
        if (a->op == Op::Add && isC(a->b) && a->a == b)
            return mkConst(0, 1); // constant nonzero
        if (b->op == Op::Add && isC(b->b) && b->a == a)
            return mkConst(0, 1);
        if (w <= 64 && (isC(a) || isC(b)))
        {
            Expr *k = isC(a) ? a : b, *x = isC(a) ? b : a;
            if (x->op == Op::Mul || x->op == Op::Add || x->op == Op::Sub || x->op == Op::SExt)
            {
                auto r = signedRange(x);
                i128 v = sx(k->k, w);
                if (v < r.first || v > r.second)
                    return mkConst(0, 1);
            }
        }
        break;
    case Op::Ult:
        if (a == b)
            return mkConst(0, 1);
        if (isC(b, 0))
            return mkConst(0, 1);
        if (isC(b, 1))
            return mkEq(a, mkConst(0, w));
        if (isC(a, 0))
            return mkNot(mkEq(b, a));
        if (isC(a, full))
            return mkConst(0, 1);
        goto ucommon;
    case Op::Ule:
        if (a == b)
            return mkConst(1, 1);
        if (isC(a, 0) || isC(b, full))
            return mkConst(1, 1);
        if (isC(b))
            return mk2(Op::Ult, a, mkConst(b->k + 1, w));
        if (isC(a))
            return mk2(Op::Ult, mkConst(a->k - 1, w), b);
    ucommon:
        {
            u128 l1, h1, l2, h2;
            unsignedRange(a, l1, h1);
            unsignedRange(b, l2, h2);
            if (op == Op::Ult)
            {
                if (h1 < l2)
                    return mkConst(1, 1);
                if (l1 >= h2)
                    return mkConst(0, 1);
            }
            else
            {
                if (h1 <= l2)
                    return mkConst(1, 1);
                if (l1 > h2)
                    return mkConst(0, 1);
            }
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
                return mk2(op, a->a, b->a);
            if (a->op == Op::ZExt && isC(b))
                return mk2(op, a->a, mkConst(b->k, a->a->width)); // range check above ensured b fits
            if (isC(a) && b->op == Op::ZExt)
                return mk2(op, mkConst(a->k, b->a->width), b->a);
            if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width)
                return mk2(op, a->a, b->a);
            if (w > 1 && a->op == Op::Ite && isC(b) && isC(a->b) && isC(a->c))
                return mkIte(a->a, mk2(op, a->b, b), mk2(op, a->c, b));
        }
        break;
    case Op::Slt:
    case Op::Sle:
        if (a == b)
            return mkConst(op == Op::Sle, 1);
        {
            u128 smin = (u128)1 << (w - 1), smax = smin - 1;
            if (w <= 64 && (isC(a) || isC(b)))
            {
                Expr * x = isC(a) ? b : a;
                if (x->op == Op::Mul || x->op == Op::Add || x->op == Op::Sub || x->op == Op::SExt)
                {
                    auto p = signedRange(a), q = signedRange(b);
                    if (p.second < q.first)
                        return mkConst(1, 1);
                    if (p.first > q.second)
                        return mkConst(0, 1);
                }
            }
            if (op == Op::Slt)
            {
                if (isC(b, smin) || isC(a, smax))
                    return mkConst(0, 1);
            }
            else
            {
                if (isC(a, smin) || isC(b, smax))
                    return mkConst(1, 1);
                if (isC(b))
                    return mk2(Op::Slt, a, mkConst(b->k + 1, w));
                if (isC(a))
                    return mk2(Op::Slt, mkConst(a->k - 1, w), b);
            }
            u128 l1, h1, l2, h2;
            unsignedRange(a, l1, h1);
            unsignedRange(b, l2, h2);
            if (h1 <= smax && h2 <= smax)
                return mk2(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
            if (h1 <= smax && l2 > smax)
                return mkConst(0, 1);
            if (l1 > smax && h2 <= smax)
                return mkConst(1, 1);
            if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width)
                return mk2(op, a->a, b->a);
            if (a->op == Op::SExt && isC(b))
            {
                unsigned aw = a->a->width;
                i128 bv = sx(b->k, w);
                i128 mn = -((i128)1 << (aw - 1)), mx = ((i128)1 << (aw - 1)) - 1;
                if (bv > mx)
                    return mkConst(1, 1);
                if (bv < mn)
                    return mkConst(0, 1);
                return mk2(op, a->a, mkConst((u128)bv, aw));
            }
            if (b->op == Op::SExt && isC(a))
            {
                unsigned bw = b->a->width;
                i128 av = sx(a->k, w);
                i128 mn = -((i128)1 << (bw - 1)), mx = ((i128)1 << (bw - 1)) - 1;
                if (av > mx)
                    return mkConst(0, 1);
                if (av < mn)
                    return mkConst(1, 1);
                return mk2(op, mkConst((u128)av, bw), b->a);
            }
            if (w > 1 && a->op == Op::Ite && isC(b) && isC(a->b) && isC(a->c))
                return mkIte(a->a, mk2(op, a->b, b), mk2(op, a->c, b));
        }
        break;
    default: break;
    }
    return intern(op, rw, 0, a, b, nullptr);
}

Expr * mkExtract(Expr * a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->width)
        return a;
    if (lo + w > a->width)
    {
        fprintf(stderr, "bad extract\n");
        abort();
    }
    switch (a->op)
    {
    case Op::Const: return mkConst(a->k >> lo, w);
    case Op::Extract: return mkExtract(a->a, a->aux + lo, w);
    case Op::Concat:
        {
            unsigned lw = a->b->width;
            if (lo >= lw)
                return mkExtract(a->a, lo - lw, w);
            if (lo + w <= lw)
                return mkExtract(a->b, lo, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
        }
    case Op::ZExt:
        if (lo >= a->a->width)
            return mkConst(0, w);
        if (lo + w <= a->a->width)
            return mkExtract(a->a, lo, w);
        return mkZExt(mkExtract(a->a, lo, a->a->width - lo), w);
    case Op::SExt:
        if (lo + w <= a->a->width)
            return mkExtract(a->a, lo, w);
        if (lo < a->a->width)
            return mkSExt(mkExtract(a->a, lo, a->a->width - lo), w);
        return mkSExt(mkExtract(a->a, a->a->width - 1, 1), w);
    case Op::Ite:
        if (isC(a->b) || isC(a->c) || a->size < 64)
            return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    case Op::Add:
    case Op::Sub:
    case Op::Mul:
        if (lo == 0)
            return mk2(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case Op::And:
    case Op::Or:
    case Op::Xor: return mk2(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case Op::Shl:
        if (isC(a->b))
        {
            unsigned n = (unsigned)a->b->k;
            if (lo >= n)
                return mkExtract(a->a, lo - n, w);
            if (lo + w <= n)
                return mkConst(0, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - n), mkConst(0, n - lo));
        }
        break;
    default: break;
    }
    return intern(Op::Extract, w, lo, a, nullptr, nullptr);
}

Expr * mkZExt(Expr * a, unsigned w)
{
    if (w == a->width)
        return a;
    if (isC(a))
        return mkConst(a->k, w);
    if (a->op == Op::ZExt)
        return mkZExt(a->a, w);
    // a sum that cannot wrap
    if (a->op == Op::Add && a->width <= 64)
    {
        u128 l1, h1, l2, h2;
        unsignedRange(a->a, l1, h1);
        unsignedRange(a->b, l2, h2);
        if (h1 + h2 <= maskw(a->width))
            return mk2(Op::Add, mkZExt(a->a, w), mkZExt(a->b, w));
    }
    return intern(Op::ZExt, w, 0, a, nullptr, nullptr);
}
Expr * mkSExt(Expr * a, unsigned w)
{
    if (w == a->width)
        return a;
    if (isC(a))
        return mkConst((u128)sx(a->k, a->width), w);
    if (a->op == Op::SExt)
        return mkSExt(a->a, w);
    if (a->op == Op::ZExt)
        return mkZExt(a->a, w);
    return intern(Op::SExt, w, 0, a, nullptr, nullptr);
}
Expr * mkConcat(Expr * hi, Expr * lo)
{
    unsigned w = hi->width + lo->width;
    if (isC(hi) && isC(lo))
        return mkConst((hi->k << lo->width) | lo->k, w);
    if (isC(hi, 0))
        return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
        return mkExtract(hi->a, lo->aux, w);
    if (hi->op == Op::Extract && hi->a == lo && hi->aux == lo->width)
        return mkExtract(hi->a, 0, w);
    // sign/zero fill pieces: concat(zext-high part) handled by: hi is extract of same sext source
    if (lo->op == Op::Concat)
    {
        // right-nested: (hi, (x, y)) -> ((hi,x), y) only if hi,x merge
        Expr * x = lo->a;
        if (hi->op == Op::Extract && x->op == Op::Extract && hi->a == x->a && hi->aux == x->aux + x->width)
            return mkConcat(mkExtract(hi->a, x->aux, hi->width + x->width), lo->b);
        if (isC(hi) && isC(x))
            return mkConcat(mkConst((hi->k << x->width) | x->k, hi->width + x->width), lo->b);
    }
    if (hi->op == Op::Concat)
    {
        Expr * y = hi->b;
        if (y->op == Op::Extract && lo->op == Op::Extract && y->a == lo->a && y->aux == lo->aux + lo->width)
            return mkConcat(hi->a, mkExtract(y->a, lo->aux, y->width + lo->width));
        if (isC(y) && isC(lo))
            return mkConcat(hi->a, mkConst((y->k << lo->width) | lo->k, y->width + lo->width));
    }
    // concat(sext(1 bit) , sext(same 1 bit)) -> sext
    {
        Expr * h = hi->op == Op::SExt ? hi->a : hi;
        Expr * l = lo->op == Op::SExt ? lo->a : lo;
        if (h == l && h->width == 1)
            return mkSExt(h, w);
    }
    if (hi->op == Op::ZExt && hi->a->width < hi->width)
        return mkZExt(mkConcat(hi->a, lo), w);
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->op == Op::Ite && isC(hi->b) && isC(hi->c) && isC(lo))
        return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    return intern(Op::Concat, w, 0, hi, lo, nullptr);
}
Expr * mkIte(Expr * c, Expr * a, Expr * b)
{
    if (isC(c))
        return c->k ? a : b;
    if (a == b)
        return a;
    if (c->op == Op::Xor && isC(c->b, 1)) // not
        return mkIte(c->a, b, a);
    unsigned w = a->width;
    if (w == 1)
    {
        if (isC(a) && isC(b))
            return a->k ? c : mkNot(c);
        if (isC(a))
            return a->k ? mk2(Op::Or, c, b) : mk2(Op::And, mkNot(c), b);
        if (isC(b))
            return b->k ? mk2(Op::Or, mkNot(c), a) : mk2(Op::And, c, a);
    }
    if (isC(a, maskw(w)) && isC(b, 0))
        return mkSExt(c, w);
    if (isC(a, 1) && isC(b, 0))
        return mkZExt(c, w);
    if (a->op == Op::Ite && a->a == c)
        return mkIte(c, a->b, b);
    if (b->op == Op::Ite && b->a == c)
        return mkIte(c, a, b->c);
    if (b->op == Op::Ite && b->b == a)
        return mkIte(mk2(Op::Or, c, b->a), a, b->c);
    if (a->op == Op::Ite && a->c == b)
        return mkIte(mk2(Op::And, c, a->a), a->b, b);
    // ite(x==k, k, x)?  leave
    if (c->op == Op::Eq && ((c->a == a && c->b == b) || (c->a == b && c->b == a)))
        return b; // ite(a==b, a, b) = b
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
        return mkZExt(mkIte(c, a->a, b->a), w);
    if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width)
        return mkSExt(mkIte(c, a->a, b->a), w);
    return intern(Op::Ite, w, 0, c, a, b);
}

static unsigned fmant(unsigned w)
{
    return w == 32 ? 23 : w == 64 ? 52 : 63;
}
// bounds of the signed value (widths up to 64); sound, not tight
static std::unordered_map<u32, std::pair<i128, i128>> g_srange;
std::pair<i128, i128> signedRange(Expr * e)
{
    unsigned w = e->width;
    i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
    if (isC(e))
        return { sx(e->k, w), sx(e->k, w) };
    if (w > 64)
        return { mn, mx };
    auto it = g_srange.find(e->id);
    if (it != g_srange.end())
        return it->second;
    std::pair<i128, i128> r{ mn, mx };
    auto fit = [&](i128 lo, i128 hi)
    {
        if (lo >= mn && hi <= mx)
            r = { lo, hi };
    };
    switch (e->op)
    {
    case Op::SExt: r = signedRange(e->a); break;
    case Op::ZExt:
        {
            u128 l, h;
            unsignedRange(e->a, l, h);
            fit((i128)l, (i128)h);
            break;
        }
    case Op::Add:
        {
            auto x = signedRange(e->a), y = signedRange(e->b);
            fit(x.first + y.first, x.second + y.second);
            break;
        }
    case Op::Sub:
        {
            auto x = signedRange(e->a), y = signedRange(e->b);
            fit(x.first - y.second, x.second - y.first);
            break;
        }
    case Op::Mul:
        {
            auto x = signedRange(e->a), y = signedRange(e->b);
            i128 lim = (i128)1 << 62;
            if (x.first > -lim && x.second < lim && y.first > -lim && y.second < lim)
            {
                i128 c[4] = { x.first * y.first, x.first * y.second, x.second * y.first, x.second * y.second };
                i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
                if (e->a == e->b && lo < 0)
                    lo = 0;
                fit(lo, hi);
            }
            break;
        }
    case Op::Shl:
        if (isC(e->b) && e->b->k < w)
        {
            auto x = signedRange(e->a);
            i128 f = (i128)1 << (unsigned)e->b->k;
            fit(x.first * f, x.second * f);
        }
        break;
    case Op::AShr:
        if (isC(e->b) && e->b->k < w)
        {
            auto x = signedRange(e->a);
            r = { x.first >> (unsigned)e->b->k, x.second >> (unsigned)e->b->k };
        }
        break;
    case Op::Ite:
        {
            auto x = signedRange(e->b), y = signedRange(e->c);
            r = { std::min(x.first, y.first), std::max(x.second, y.second) };
            break;
        }
    case Op::And:
    case Op::LShr:
    case Op::URem:
    case Op::UDiv:
        {
            u128 l, h;
            unsignedRange(e, l, h);
            if (h <= (u128)mx)
                r = { (i128)l, (i128)h };
            break;
        }
    default: break;
    }
    g_srange[e->id] = r;
    return r;
}
// e is the conversion of a 64-bit integer that the format holds exactly (never -0)
static bool asInt(Expr * e, Expr *& ie, int depth = 0)
{
    unsigned w = e->width;
    if (w != 32 && w != 64)
        return false;
    if (isC(e))
    {
        double d;
        if (w == 32)
        {
            float f;
            u32 u = (u32)e->k;
            memcpy(&f, &u, 4);
            d = f;
        }
        else
        {
            u64 u = (u64)e->k;
            memcpy(&d, &u, 8);
        }
        if (! (std::fabs(d) <= 9007199254740992.0) || d != std::floor(d) || (d == 0 && std::signbit(d)))
            return false;
        ie = mkConst((u128)(i128)(i64)d, 64);
        return true;
    }
    if (e->op == Op::FExt && e->a->width == 32)
        return asInt(e->a, ie, depth);
    if (e->op == Op::SToF && e->a->width <= 64)
    {
        auto r = signedRange(e->a);
        i128 lim = (i128)1 << (fmant(w) + 1);
        if (r.first < -lim || r.second > lim)
            return false;
        ie = e->a->width == 64 ? e->a : mkSExt(e->a, 64);
        return true;
    }
    if (e->op == Op::Ite && depth < 6)
    {
        Expr *x, *y;
        if (! asInt(e->b, x, depth + 1) || ! asInt(e->c, y, depth + 1))
            return false;
        ie = mkIte(e->a, x, y);
        return true;
    }
    return false;
}
// an upper bound of |e| when e is certainly finite, else infinity
static std::unordered_map<u32, double> g_fbound;
static double fpBound(Expr * e)
{
    unsigned w = e->width;
    const double inf = INFINITY;
    if (w != 32 && w != 64)
        return inf;
    double cap = w == 32 ? 3e38 : 1e308;
    if (isC(e))
    {
        double d;
        if (w == 32)
        {
            float f;
            u32 u = (u32)e->k;
            memcpy(&f, &u, 4);
            d = f;
        }
        else
        {
            u64 u = (u64)e->k;
            memcpy(&d, &u, 8);
        }
        return std::isfinite(d) ? std::fabs(d) : inf;
    }
    if (e->op != Op::SToF && e->op != Op::UToF && e->op != Op::FExt && e->op != Op::FAdd && e->op != Op::FSub && e->op != Op::FMul && e->op != Op::Ite)
        return inf;
    auto it = g_fbound.find(e->id);
    if (it != g_fbound.end())
        return it->second;
    double r = inf;
    const double up = 1.0000005;
    switch (e->op)
    {
    case Op::SToF:
        if (e->a->width <= 64)
        {
            auto x = signedRange(e->a);
            r = std::max(std::fabs((double)x.first), std::fabs((double)x.second)) * up;
        }
        break;
    case Op::UToF:
        if (e->a->width <= 64)
        {
            u128 l, h;
            unsignedRange(e->a, l, h);
            r = (double)h * up;
        }
        break;
    case Op::FExt: r = fpBound(e->a); break;
    case Op::FAdd:
    case Op::FSub: r = (fpBound(e->a) + fpBound(e->b)) * up; break;
    case Op::FMul: r = fpBound(e->a) * fpBound(e->b) * up + 1e-300; break;
    case Op::Ite: r = std::max(fpBound(e->b), fpBound(e->c)); break;
    default: break;
    }
    if (! (r < cap))
        r = inf;
    g_fbound[e->id] = r;
    return r;
}
static bool isNanC(Expr * e)
{
    if (! isC(e) || (e->width != 32 && e->width != 64))
        return false;
    u128 mag = e->k & maskw(e->width - 1);
    return e->width == 32 ? mag > 0x7f800000u : mag > (u128)0x7ff0000000000000ull;
}
// ite(c, NaN, x) or ite(c, x, NaN): the other branch and the condition of the NaN
static bool nanIte(Expr * e, Expr *& cond, Expr *& nan, Expr *& other)
{
    if (e->op != Op::Ite)
        return false;
    if (isNanC(e->b))
    {
        cond = e->a, nan = e->b, other = e->c;
        return true;
    }
    if (isNanC(e->c))
    {
        cond = mkNot(e->a), nan = e->c, other = e->b;
        return true;
    }
    return false;
}
static Expr * orderAtom(int kind, Expr * a, Expr * b, Expr * r)
{
    if (! isC(r) && (a->width == 32 || a->width == 64))
    {
        g_orderAtoms.emplace(r->id, OrderAtom{ kind, a, b, false });
        g_orderAtoms.emplace(mkNot(r)->id, OrderAtom{ kind, a, b, true });
    }
    return r;
}
Expr * mkFIsNan(Expr * a)
{
    unsigned w = a->width;
    // magnitude bits > inf
    u128 inf = w == 32 ? (u128)0x7f800000u : w == 64 ? (u128)0x7ff0000000000000ull : (((u128)0x7fff << 64) | ((u128)1 << 63));
    if (a->op == Op::SToF || a->op == Op::UToF)
        return mkConst(0, 1);
    if (a->op == Op::FExt)
        return mkFIsNan(a->a);
    if (a->op >= Op::FAdd && std::isfinite(fpBound(a)))
        return mkConst(0, 1);
    if (a->op == Op::Ite && (isC(a->b) || isC(a->c)))
        return mkIte(a->a, mkFIsNan(a->b), mkFIsNan(a->c));
    Expr * mag = mkExtract(a, 0, w - 1);
    return orderAtom(2, a, nullptr, mk2(Op::Ult, mkConst(inf, w - 1), mag));
}
Expr * mkFLt(Expr * a, Expr * b)
{
    unsigned w = a->width;
    if (a == b)
        return mkConst(0, 1);
    if (a->op == Op::FExt && b->op == Op::FExt && a->a->width == b->a->width)
        return mkFLt(a->a, b->a);
    Expr *nc, *nn0, *no;
    if (nanIte(a, nc, nn0, no))
        return mk2(Op::And, mkNot(nc), mkFLt(no, b));
    if (nanIte(b, nc, nn0, no))
        return mk2(Op::And, mkNot(nc), mkFLt(a, no));
    Expr *ia, *ib;
    if ((! isC(a) || ! isC(b)) && asInt(a, ia) && asInt(b, ib))
        return mk2(Op::Slt, ia, ib);
    if (isC(b) && ! isC(a) && fpBound(b) < INFINITY && fpBound(a) < fpBound(b))
        return mkConst(! ((b->k >> (w - 1)) & 1), 1);
    if (isC(a) && ! isC(b) && fpBound(a) < INFINITY && fpBound(b) < fpBound(a))
        return mkConst((a->k >> (w - 1)) & 1, 1);
    Expr * nn = mkNot(mk2(Op::Or, mkFIsNan(a), mkFIsNan(b)));
    Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1);
    Expr *ma = mkExtract(a, 0, w - 1), *mb = mkExtract(b, 0, w - 1);
    Expr * zero = mkConst(0, w - 1);
    Expr * bothz = mk2(Op::And, mkEq(ma, zero), mkEq(mb, zero));
    Expr * r = mkIte(sa, mkIte(sb, mk2(Op::Ult, mb, ma), mkNot(bothz)), mkIte(sb, mkConst(0, 1), mk2(Op::Ult, ma, mb)));
    return mk2(Op::And, nn, orderAtom(0, a, b, r));
}
Expr * mkFOeq(Expr * a, Expr * b)
{
    unsigned w = a->width;
    if (a == b)
        return mkNot(mkFIsNan(a));
    if (a->op == Op::FExt && b->op == Op::FExt && a->a->width == b->a->width)
        return mkFOeq(a->a, b->a);
    Expr *nc, *nn0, *no;
    if (a != b && nanIte(a, nc, nn0, no))
        return mk2(Op::And, mkNot(nc), mkFOeq(no, b));
    if (a != b && nanIte(b, nc, nn0, no))
        return mk2(Op::And, mkNot(nc), mkFOeq(a, no));
    Expr *ia, *ib;
    if ((! isC(a) || ! isC(b)) && asInt(a, ia) && asInt(b, ib))
        return mkEq(ia, ib);
    Expr * zero = mkConst(0, w - 1);
    Expr *ma = mkExtract(a, 0, w - 1), *mb = mkExtract(b, 0, w - 1);
    Expr * bothz = mk2(Op::And, mkEq(ma, zero), mkEq(mb, zero));
    Expr * nn = mkNot(mk2(Op::Or, mkFIsNan(a), mkFIsNan(b)));
    return mk2(Op::And, nn, orderAtom(1, a, b, mk2(Op::Or, bothz, mkEq(a, b))));
}

// the integer e / c when e is visibly a multiple of c > 0
static bool divExact(Expr * e, i128 c, Expr *& out, int depth = 0)
{
    unsigned w = e->width;
    if (w > 64 || depth > 40)
        return false;
    if (isC(e))
    {
        i128 v = sx(e->k, w);
        if (v % c)
            return false;
        out = mkConst((u128)(v / c) & maskw(w), w);
        return true;
    }
    i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
    if ((e->op == Op::Mul && isC(e->b)) || (e->op == Op::Shl && isC(e->b) && e->b->k < w - 1))
    {
        i128 k = e->op == Op::Mul ? (i128)sx(e->b->k, w) : (i128)1 << (unsigned)e->b->k;
        auto r = signedRange(e->a);
        i128 lim = (i128)1 << 62;
        if (k % c || k <= -lim || k >= lim)
            return false;
        i128 x = r.first * k, y = r.second * k;
        if (std::min(x, y) < mn || std::max(x, y) > mx)
            return false;
        out = mk2(Op::Mul, e->a, mkConst((u128)(k / c) & maskw(w), w));
        return true;
    }
    Expr *x, *y;
    if (e->op == Op::Add || e->op == Op::Sub)
    {
        auto p = signedRange(e->a), q = signedRange(e->b);
        i128 lo = e->op == Op::Add ? p.first + q.first : p.first - q.second, hi = e->op == Op::Add ? p.second + q.second : p.second - q.first;
        if (lo < mn || hi > mx || ! divExact(e->a, c, x, depth + 1) || ! divExact(e->b, c, y, depth + 1))
            return false;
        out = mk2(e->op, x, y);
        return true;
    }
    if (e->op == Op::SExt && divExact(e->a, c, x, depth + 1))
    {
        out = mkSExt(x, w);
        return true;
    }
    if (e->op == Op::Ite && divExact(e->b, c, x, depth + 10) && divExact(e->c, c, y, depth + 10))
    {
        out = mkIte(e->a, x, y);
        return true;
    }
    return false;
}
// its NaNs are quiet
static bool quiet(Expr * e, int depth = 0)
{
    if (isC(e))
        return ! isNanC(e);
    if (e->op >= Op::FAdd && e->op != Op::FToS && e->op != Op::LibM)
        return true;
    if (e->op == Op::Ite && depth < 6)
        return quiet(e->b, depth + 1) && quiet(e->c, depth + 1);
    return false;
}
// an arithmetic result (its NaNs are quiet) that is never -0
static bool neverNegZero(Expr * e, int depth = 0)
{
    unsigned w = e->width;
    if (isC(e))
        return e->k != (u128)1 << (w - 1);
    if (e->op == Op::SToF || e->op == Op::UToF)
        return true;
    if (depth > 8)
        return false;
    if (e->op == Op::FAdd)
        return neverNegZero(e->a, depth + 1) || neverNegZero(e->b, depth + 1);
    if (e->op == Op::FExt)
        return neverNegZero(e->a, depth + 1);
    if (e->op == Op::Ite)
        return neverNegZero(e->b, depth + 1) && neverNegZero(e->c, depth + 1);
    return false;
}
Expr * mkF(Op op, unsigned w, Expr * a, Expr * b, unsigned aux)
{
    if (isC(a) && (! b || isC(b)))
        return mkConst(foldF(op, w, a->width, a->k, b ? b->k : 0, aux), w);
    if ((op == Op::FAdd || op == Op::FMul) && b && (a->id > b->id))
        std::swap(a, b);
    if (op == Op::FAdd && (w == 32 || w == 64))
    {
        u128 nz = (u128)1 << (w - 1);
        if (isC(b, nz) && quiet(a))
            return a;
        if (isC(a, nz) && quiet(b))
            return b;
    }
    if (op == Op::FAdd && isC(b, 0) && neverNegZero(a))
        return a;
    if (op == Op::FAdd && isC(a, 0) && neverNegZero(b))
        return b;
    if ((op == Op::FExt || op == Op::FTrunc) && a->width == w)
        return a;
    if (op == Op::FTrunc && a->op == Op::FExt && a->a->width == w)
        return a->a; // exact (NaN payload aside)
    if (op == Op::FExt && a->op == Op::FExt)
        return mkF(Op::FExt, w, a->a);
    if (op >= Op::FAdd && op <= Op::FTrunc && op != Op::FToS && op != Op::SToF && op != Op::UToF && (w == 32 || w == 64))
    {
        // a NaN is a NaN whatever is done to it
        Expr *nc, *nn, *no;
        if (nanIte(a, nc, nn, no))
        {
            Expr * k = b ? mkConst(nn->k | ((u128)1 << (fmant(nn->width) - 1)), w) : mkConst(foldF(op, w, nn->width, nn->k, 0, aux), w);
            return mkIte(nc, k, mkF(op, w, no, b == a ? no : b, aux));
        }
        if (b && nanIte(b, nc, nn, no))
            return mkIte(nc, mkConst(nn->k | ((u128)1 << (fmant(nn->width) - 1)), w), mkF(op, w, a, no, aux));
    }
    if (w == 32 || w == 64 || op == Op::FToS)
    {
        Expr *x, *y;
        i128 lim = (i128)1 << (fmant(w == 32 ? 32 : 64) + 1);
        if (op == Op::SToF && a->width < 64)
            return mkF(Op::SToF, w, mkSExt(a, 64));
        if (op == Op::UToF && a->width == 64 && ! isC(a) && signedRange(a).first >= 0)
            return mkF(Op::SToF, w, a);
        if (op == Op::UToF && a->width < 64)
            return mkF(Op::SToF, w, mkZExt(a, 64));
        if ((op == Op::FAdd || op == Op::FSub || op == Op::FMul) && asInt(a, x) && asInt(b, y))
        {
            auto p = signedRange(x), q = signedRange(y);
            bool zeroOk = op != Op::FMul || a == b || (p.first >= 0 && q.first >= 0) || (p.first > 0) || (q.first > 0);
            if (zeroOk)
            {
                Expr * r = mk2(op == Op::FAdd ? Op::Add : op == Op::FSub ? Op::Sub : Op::Mul, x, y);
                i128 lo, hi;
                if (op == Op::FAdd)
                    lo = p.first + q.first, hi = p.second + q.second;
                else if (op == Op::FSub)
                    lo = p.first - q.second, hi = p.second - q.first;
                else
                {
                    i128 c[4] = { p.first * q.first, p.first * q.second, p.second * q.first, p.second * q.second };
                    lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
                }
                auto rr = signedRange(r);
                // the true result fits 64 bits, so the range of the 64-bit expression bounds it too
                if (lo >= -((i128)1 << 62) && hi <= ((i128)1 << 62))
                    lo = std::max(lo, rr.first), hi = std::min(hi, rr.second);
                if (lo >= -lim && hi <= lim)
                    return mkF(Op::SToF, w, r);
            }
        }
        if (op == Op::FDiv && isC(b) && a->op == Op::SToF && asInt(b, y) && asInt(a, x))
        {
            i128 c = sx(y->k, 64);
            if (c > 0 && divExact(x, c, y))
                return mkF(Op::SToF, w, y);
        }
        if (op == Op::FExt && a->op == Op::SToF && asInt(a, x))
            return mkF(Op::SToF, w, x);
        if (op == Op::FTrunc && a->op == Op::SToF && asInt(a, x))
        {
            auto p = signedRange(x);
            if (p.first >= -lim && p.second <= lim)
                return mkF(Op::SToF, w, x);
        }
        if (op == Op::FRound && a->op == Op::SToF && asInt(a, x))
            return a;
        if (op == Op::FToS && w <= 64 && asInt(a, x))
        {
            auto p = signedRange(x);
            i128 m = (i128)1 << (w - 1);
            if (p.first >= -m && p.second < m)
                return w == 64 ? x : mkExtract(x, 0, w);
        }
    }
    // int (<= 32 bits) -> f64/f80, then comparisons are handled by the solver; FExt(SToF32(x)) for |x| < 2^24 is exact
    return intern(op, w, aux, a, b, nullptr);
}
Expr * mkLibM(unsigned fid, unsigned w, Expr * a, Expr * b)
{
    if (isC(a) && (! b || isC(b)))
        return mkConst(foldF(Op::LibM, w, w, a->k, b ? b->k : 0, fid), w);
    return intern(Op::LibM, w, fid, a, b, nullptr);
}

u128 evalExpr(Expr * root, Model & m)
{
    // iterative post-order to avoid deep recursion
    std::vector<Expr *> st{ root };
    while (! st.empty())
    {
        Expr * e = st.back();
        if (e->op == Op::Const || m.memo.count(e->id))
        {
            st.pop_back();
            continue;
        }
        if (e->op == Op::Sym)
        {
            m.memo[e->id] = m.get(e->aux) & maskw(e->width);
            st.pop_back();
            continue;
        }
        auto val = [&](Expr * x, u128 & out) -> bool
        {
            if (x->op == Op::Const)
            {
                out = x->k;
                return true;
            }
            auto it = m.memo.find(x->id);
            if (it == m.memo.end())
                return false;
            out = it->second;
            return true;
        };
        u128 a = 0, b = 0, c = 0;
        if (e->op == Op::Ite)
        {
            if (! val(e->a, c))
            {
                st.push_back(e->a);
                continue;
            }
            Expr * t = c ? e->b : e->c;
            if (! val(t, a))
            {
                st.push_back(t);
                continue;
            }
            m.memo[e->id] = a;
            st.pop_back();
            continue;
        }
        bool ok = true;
        if (! val(e->a, a))
        {
            st.push_back(e->a);
            ok = false;
        }
        if (e->b && ! val(e->b, b))
        {
            st.push_back(e->b);
            ok = false;
        }
        if (! ok)
            continue;
        u128 r;
        switch (e->op)
        {
        case Op::Concat: r = (a << e->b->width) | b; break;
        case Op::Extract: r = (a >> e->aux) & maskw(e->width); break;
        case Op::ZExt: r = a; break;
        case Op::SExt: r = (u128)sx(a, e->a->width) & maskw(e->width); break;
        default:
            if (e->op >= Op::FAdd)
                r = foldF(e->op, e->width, e->a->width, a, b, e->aux);
            else
                r = foldBin(e->op, e->a->width, a, b);
        }
        m.memo[e->id] = r;
        st.pop_back();
    }
    if (root->op == Op::Const)
        return root->k;
    return m.memo[root->id];
}

static const char * opn[] = { "const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat",
                              "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "fround",
                              "ftos", "stof", "utof", "fext", "ftrunc", "libm" };
std::string show(Expr * e, int depth)
{
    std::ostringstream o;
    if (e->op == Op::Const)
    {
        if (e->k >> 64)
            o << "0x" << std::hex << (u64)(e->k >> 64) << "_" << (u64)e->k;
        else
            o << "0x" << std::hex << (u64)e->k;
        o << ":" << std::dec << (int)e->width;
        return o.str();
    }
    if (e->op == Op::Sym)
        return g_syms[e->aux].name;
    if (depth == 0)
        return "...";
    o << "(" << opn[(int)e->op];
    if (e->op == Op::Extract)
        o << "[" << e->aux + e->width - 1 << ":" << e->aux << "]";
    if (e->op == Op::LibM)
        o << ":" << libmName(e->aux);
    if (e->op == Op::ZExt || e->op == Op::SExt)
        o << (int)e->width;
    for (Expr * x : { e->a, e->b, e->c })
        if (x)
            o << " " << show(x, depth - 1);
    o << ")";
    return o.str();
}

// e with some symbols replaced by constants
Expr * substExpr(Expr * e, std::unordered_map<u32, u128> const & fixed, std::unordered_map<u32, Expr *> & memo)
{
    bool hit = false;
    for (u32 s : *e->syms)
        if (fixed.count(s))
        {
            hit = true;
            break;
        }
    if (! hit)
        return e;
    if (e->op == Op::Sym)
        return mkConst(fixed.at(e->aux), e->width);
    auto it = memo.find(e->id);
    if (it != memo.end())
        return it->second;
    Expr * a = e->a ? substExpr(e->a, fixed, memo) : nullptr;
    Expr * r;
    if (e->op == Op::Ite && isC(a))
        r = substExpr(a->k ? e->b : e->c, fixed, memo);
    else
    {
        Expr * b = e->b ? substExpr(e->b, fixed, memo) : nullptr;
        switch (e->op)
        {
        case Op::Concat:
            r = mkConcat(a, b);
            break;
        case Op::Extract:
            r = mkExtract(a, e->aux, e->width);
            break;
        case Op::ZExt:
            r = mkZExt(a, e->width);
            break;
        case Op::SExt:
            r = mkSExt(a, e->width);
            break;
        case Op::Ite:
            r = mkIte(a, b, substExpr(e->c, fixed, memo));
            break;
        case Op::LibM:
            r = mkLibM(e->aux, e->width, a, b);
            break;
        default:
            r = e->op >= Op::FAdd ? mkF(e->op, e->width, a, b, e->aux) : mk2(e->op, a, b);
        }
    }
    memo[e->id] = r;
    return r;
}
