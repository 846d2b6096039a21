#include "piecewise.h"
#include <algorithm>
#include <map>

static const size_t MAXP = 16;
static std::unordered_map<u32, std::unique_ptr<PW>> g_pw;
static std::unordered_map<std::string, Expr *> g_rep;
extern bool g_pwBusy;
bool g_pwBusy = false;
Expr * rawIntern(Op op, unsigned w, u32 aux, Expr * a, Expr * b, Expr * c);

static unsigned symWidth(Expr * e)
{
    return g_syms[(*e->syms)[0]].width;
}
static u128 valAt(const Piece & p, u128 x)
{
    return (u128)(p.k + (i128)p.s * (i128)x);
}
static void push(PW & r, Piece p)
{
    if (! p.s || p.lo == p.hi)
    {
        p.k = (i128)valAt(p, p.lo);
        p.s = 0;
    }
    if (! r.empty() && r.back().hi + 1 == p.lo)
    {
        Piece & q = r.back();
        if (q.s == p.s && q.k == p.k)
        {
            q.hi = p.hi;
            return;
        }
        // single points that continue the neighbour
        if (p.lo == p.hi && q.s && valAt(q, p.lo) == (u128)p.k && q.k + (i128)q.s * (i128)p.lo >= 0)
        {
            q.hi = p.hi;
            return;
        }
        if (q.lo == q.hi && p.s && (i128)valAt(p, q.lo) == q.k && p.k + (i128)p.s * (i128)q.lo >= 0)
        {
            u128 lo = q.lo;
            q = p;
            q.lo = lo;
            return;
        }
    }
    r.push_back(p);
}
static i128 floorDiv(i128 a, i128 b)
{
    i128 q = a / b;
    if (a % b && ((a < 0) != (b < 0)))
        q--;
    return q;
}
// splits p so that the value divided by m (rounded down) is the same on every part; values may be negative
static bool splitAt(const Piece & p, i128 m, std::vector<Piece> & out)
{
    if (! p.s)
    {
        out.push_back(p);
        return true;
    }
    i128 v0 = p.k + (i128)p.s * (i128)p.lo, v1 = p.k + (i128)p.s * (i128)p.hi;
    i128 q0 = floorDiv(v0, m), q1 = floorDiv(v1, m);
    if ((q0 < q1 ? q1 - q0 : q0 - q1) > 4)
        return false;
    u128 lo = p.lo;
    i128 q = q0;
    while (true)
    {
        Piece t = p;
        t.lo = lo;
        if (q == q1)
        {
            out.push_back(t);
            return true;
        }
        // last x with value in block q
        i128 last = p.s > 0 ? (q + 1) * m - 1 - p.k : p.k - q * m;
        t.hi = (u128)last;
        out.push_back(t);
        lo = (u128)last + 1;
        q += p.s > 0 ? 1 : -1;
    }
}
// reduces every value modulo 2^w
static bool wrap(const Piece & p, unsigned w, PW & r)
{
    std::vector<Piece> t;
    i128 m = (i128)1 << w;
    if (! splitAt(p, m, t))
        return false;
    for (auto & q : t)
    {
        i128 v = q.k + (i128)q.s * (i128)q.lo;
        q.k -= floorDiv(v, m) * m;
        push(r, q);
    }
    return r.size() <= MAXP;
}
template <typename F>
static bool overlay(const PW & a, const PW & b, F f)
{
    size_t i = 0, j = 0;
    u128 lo = 0;
    while (i < a.size() && j < b.size())
    {
        u128 hi = std::min(a[i].hi, b[j].hi);
        Piece p = a[i], q = b[j];
        p.lo = q.lo = lo;
        p.hi = q.hi = hi;
        if (! f(p, q))
            return false;
        if (a[i].hi == hi)
            i++;
        if (b[j].hi == hi)
            j++;
        lo = hi + 1;
    }
    return true;
}
static void constPiece(PW & r, u128 lo, u128 hi, u128 v)
{
    push(r, Piece{ lo, hi, 0, (i128)v });
}
// compares two values on one interval
static bool compare(Op op, const Piece & p, const Piece & q, PW & r)
{
    i128 s = p.s - q.s, k = p.k - q.k; // d(x) = s x + k
    auto truth = [&](i128 d) { return op == Op::Eq ? d == 0 : op == Op::Ult ? d < 0 : d <= 0; };
    if (! s)
    {
        constPiece(r, p.lo, p.hi, truth(k));
        return true;
    }
    // breakpoints around the zero of d
    i128 z = floorDiv(-k, s);
    i128 lo = (i128)p.lo, hi = (i128)p.hi, at = lo;
    i128 bps[3] = { z - 1, z, z + 1 };
    for (i128 b : bps)
    {
        if (b < at || b > hi)
            continue;
        // [at, b-1] on one side, then b itself
        if (b > at)
            constPiece(r, (u128)at, (u128)(b - 1), truth(s * at + k));
        constPiece(r, (u128)b, (u128)b, truth(s * b + k));
        at = b + 1;
    }
    if (at <= hi)
        constPiece(r, (u128)at, (u128)hi, truth(s * at + k));
    return r.size() <= MAXP;
}
static bool compute(Expr * e, PW & r)
{
    unsigned w = e->width;
    if (w > 64)
        return false;
    unsigned sw = symWidth(e);
    if (sw > 64)
        return false;
    u128 xmax = maskw(sw);
    if (e->op == Op::Sym && sw == 1)
    {
        constPiece(r, 0, 0, 0);
        constPiece(r, 1, 1, 1);
        return true;
    }
    if (e->op == Op::Sym)
    {
        r.push_back(Piece{ 0, xmax, 1, 0 });
        return true;
    }
    PW ca, cb;
    auto get = [&](Expr * x, PW & c) -> const PW *
    {
        if (isC(x))
        {
            if (x->width > 64)
                return nullptr;
            c.push_back(Piece{ 0, xmax, 0, (i128)x->k });
            return &c;
        }
        return pwOf(x);
    };
    switch (e->op)
    {
    case Op::Add:
    case Op::Sub:
    case Op::And:
    case Op::Or:
    case Op::Xor:
    case Op::Shl:
    case Op::LShr:
    case Op::AShr:
    case Op::Concat:
    case Op::Eq:
    case Op::Ult:
    case Op::Ule:
    case Op::Slt:
    case Op::Sle:
        {
            const PW *a = get(e->a, ca), *b = get(e->b, cb);
            if (! a || ! b)
                return false;
            unsigned aw = e->a->width;
            u128 am = maskw(aw);
            return overlay(*a, *b,
                           [&](Piece p, Piece q)
                           {
                               if (r.size() > MAXP)
                                   return false;
                               switch (e->op)
                               {
                               case Op::Add:
                               case Op::Sub:
                                   {
                                       int sg = e->op == Op::Add ? 1 : -1;
                                       Piece t = p;
                                       t.s = p.s + sg * q.s;
                                       t.k = p.k + sg * q.k;
                                       if (t.s > 1 || t.s < -1)
                                       {
                                           if (p.lo != p.hi)
                                               return false;
                                           t.k += (i128)t.s * (i128)p.lo;
                                           t.s = 0;
                                       }
                                       if (! t.s)
                                       {
                                           t.k = (i128)((u128)t.k & maskw(w));
                                           push(r, t);
                                           return true;
                                       }
                                       return wrap(t, w, r);
                                   }
                               case Op::And:
                               case Op::Or:
                               case Op::Xor:
                                   if (! p.s && ! q.s)
                                   {
                                       u128 x = (u128)p.k, y = (u128)q.k;
                                       constPiece(r, p.lo, p.hi, e->op == Op::And ? x & y : e->op == Op::Or ? x | y : x ^ y);
                                       return true;
                                   }
                                   if (p.s && q.s)
                                   {
                                       if (p.s == q.s && p.k == q.k)
                                       {
                                           if (e->op == Op::Xor)
                                               constPiece(r, p.lo, p.hi, 0);
                                           else
                                               push(r, p);
                                           return true;
                                       }
                                       return false;
                                   }
                                   if (! p.s)
                                       std::swap(p, q);
                                   {
                                       u128 c = (u128)q.k;
                                       if (e->op == Op::And)
                                       {
                                           if (c == 0)
                                           {
                                               constPiece(r, p.lo, p.hi, 0);
                                               return true;
                                           }
                                           if (c == am)
                                           {
                                               push(r, p);
                                               return true;
                                           }
                                           if ((c & (c + 1)) == 0)
                                           {
                                               unsigned l = 0;
                                               while ((c >> l) & 1)
                                                   l++;
                                               return wrap(p, l, r);
                                           }
                                           if (c == ((u128)1 << (aw - 1)))
                                           {
                                               std::vector<Piece> t;
                                               if (! splitAt(p, (i128)c, t))
                                                   return false;
                                               for (auto & x : t)
                                                   constPiece(r, x.lo, x.hi, valAt(x, x.lo) & c);
                                               return true;
                                           }
                                           return false;
                                       }
                                       if (e->op == Op::Or)
                                       {
                                           if (c == 0)
                                           {
                                               push(r, p);
                                               return true;
                                           }
                                           if (c == am)
                                           {
                                               constPiece(r, p.lo, p.hi, am);
                                               return true;
                                           }
                                           return false;
                                       }
                                       if (c == 0)
                                       {
                                           push(r, p);
                                           return true;
                                       }
                                       if (c == am)
                                       {
                                           p.s = -p.s;
                                           p.k = (i128)am - p.k;
                                           push(r, p);
                                           return true;
                                       }
                                       if (c == ((u128)1 << (aw - 1)))
                                       {
                                           p.k += (i128)c;
                                           return wrap(p, aw, r);
                                       }
                                       return false;
                                   }
                               case Op::Shl:
                                   if (q.s)
                                       return false;
                                   if (! p.s)
                                   {
                                       constPiece(r, p.lo, p.hi, (u128)q.k >= w ? 0 : ((u128)p.k << (unsigned)q.k) & maskw(w));
                                       return true;
                                   }
                                   return false;
                               case Op::LShr:
                               case Op::AShr:
                                   {
                                       if (q.s || (u128)q.k >= w)
                                           return false;
                                       unsigned sh = (unsigned)q.k;
                                       std::vector<Piece> t;
                                       if (! splitAt(p, (i128)1 << sh, t))
                                           return false;
                                       for (auto & x : t)
                                       {
                                           u128 v = valAt(x, x.lo);
                                           constPiece(r, x.lo, x.hi, e->op == Op::LShr ? v >> sh : (u128)(sx(v, w) >> sh) & maskw(w));
                                       }
                                       return r.size() <= MAXP;
                                   }
                               case Op::Concat:
                                   if (p.s)
                                       return false;
                                   q.k += (i128)((u128)p.k << e->b->width);
                                   push(r, q);
                                   return true;
                               case Op::Eq:
                               case Op::Ult:
                               case Op::Ule: return compare(e->op, p, q, r);
                               default:
                                   {
                                       // signed: exchange the halves
                                       i128 h = (i128)1 << (aw - 1);
                                       PW pp, qq;
                                       Piece p2 = p, q2 = q;
                                       p2.k += h;
                                       q2.k += h;
                                       if (! wrap(p2, aw, pp) || ! wrap(q2, aw, qq))
                                           return false;
                                       // overlay starts at zero: shift the intervals
                                       for (auto & x : pp)
                                           x.k += (i128)x.s * (i128)p.lo, x.lo -= p.lo, x.hi -= p.lo;
                                       for (auto & x : qq)
                                           x.k += (i128)x.s * (i128)p.lo, x.lo -= p.lo, x.hi -= p.lo;
                                       return overlay(pp, qq,
                                                      [&](Piece a2, Piece b2)
                                                      {
                                                          PW t;
                                                          if (! compare(e->op == Op::Slt ? Op::Ult : Op::Ule, a2, b2, t))
                                                              return false;
                                                          for (auto & x : t)
                                                              constPiece(r, x.lo + p.lo, x.hi + p.lo, (u128)x.k);
                                                          return r.size() <= MAXP;
                                                      });
                                   }
                               }
                           }) &&
                   r.size() <= MAXP;
        }
    case Op::Extract:
        {
            const PW * a = get(e->a, ca);
            if (! a)
                return false;
            for (auto p : *a)
            {
                if (e->aux)
                {
                    std::vector<Piece> t;
                    if (! splitAt(p, (i128)1 << e->aux, t))
                        return false;
                    for (auto & x : t)
                        constPiece(r, x.lo, x.hi, (valAt(x, x.lo) >> e->aux) & maskw(w));
                }
                else if (! p.s)
                    constPiece(r, p.lo, p.hi, (u128)p.k & maskw(w));
                else if (! wrap(p, w, r))
                    return false;
                if (r.size() > MAXP)
                    return false;
            }
            return true;
        }
    case Op::ZExt:
        {
            const PW * a = get(e->a, ca);
            if (! a)
                return false;
            r = *a;
            return true;
        }
    case Op::SExt:
        {
            const PW * a = get(e->a, ca);
            if (! a)
                return false;
            unsigned aw = e->a->width;
            for (auto p : *a)
            {
                std::vector<Piece> t;
                if (! splitAt(p, (i128)1 << (aw - 1), t))
                    return false;
                for (auto & x : t)
                {
                    if (valAt(x, x.lo) >> (aw - 1))
                        x.k += (i128)(maskw(w) - maskw(aw));
                    push(r, x);
                }
                if (r.size() > MAXP)
                    return false;
            }
            return true;
        }
    case Op::Ite:
        {
            const PW * c = get(e->a, ca);
            if (! c)
                return false;
            PW cc;
            const PW *a = get(e->b, cb), *b = get(e->c, cc);
            if (! a || ! b)
                return false;
            PW t;
            for (auto & p : *c)
                if (p.s)
                    return false;
            for (auto & p : *c)
            {
                for (auto q : (p.k & 1) ? *a : *b)
                {
                    if (q.hi < p.lo || q.lo > p.hi)
                        continue;
                    q.lo = std::max(q.lo, p.lo);
                    q.hi = std::min(q.hi, p.hi);
                    push(r, q);
                }
                if (r.size() > MAXP)
                    return false;
            }
            return true;
        }
    default: return false;
    }
}
const PW * pwOf(Expr * e)
{
    if (e->syms->size() != 1 || e->hasFP)
        return nullptr;
    auto it = g_pw.find(e->id);
    if (it != g_pw.end())
        return it->second.get();
    auto r = std::make_unique<PW>();
    bool ok = compute(e, *r) && r->size() <= MAXP && ! r->empty() && r->back().hi == maskw(symWidth(e));
    // width-one values that vary inside an interval are split into points
    if (! ok)
        r.reset();
    return (g_pw[e->id] = std::move(r)).get();
}
static Expr * mk(Op op, Expr * a, Expr * b)
{
    bool pred = op == Op::Eq || op == Op::Ult || op == Op::Slt;
    return rawIntern(op, pred ? 1 : a->width, 0, a, b, nullptr);
}
static Expr * test(Expr * x, u128 l, u128 h)
{
    unsigned w = x->width;
    u128 m = maskw(w);
    u128 half = (u128)1 << (w - 1);
    if (l == h)
        return mk(Op::Eq, x, mkConst(l, w));
    if (l == 0)
        return mk(Op::Ult, x, mkConst(h + 1, w));
    if (h == m)
        return mk(Op::Ult, mkConst(l - 1, w), x);
    if (h == half - 1)
        return mk(Op::Slt, mkConst(l - 1, w), x);
    if (l == half)
        return mk(Op::Slt, x, mkConst(h + 1, w));
    return mk(Op::And, mk(Op::Ult, mkConst(l - 1, w), x), mk(Op::Ult, x, mkConst(h + 1, w)));
}
static Expr * neg(Expr * a)
{
    return mk(Op::Xor, a, mkConst(1, 1));
}
typedef std::vector<std::pair<u128, u128>> Set;
static Set complement(const Set & s, u128 m)
{
    Set r;
    u128 at = 0;
    for (auto & i : s)
    {
        if (i.first > at)
            r.push_back({ at, i.first - 1 });
        at = i.second + 1;
    }
    if (s.empty() || s.back().second != m)
        r.push_back({ at, m });
    return r;
}
static Expr * member(Expr * x, const Set & s)
{
    u128 m = maskw(x->width), half = (u128)1 << (x->width - 1);
    Set c = complement(s, m);
    // one interval of the signed order
    auto rot = [&](const Set & q, u128 & l, u128 & h)
    {
        if (q.size() == 2 && q[0].first == 0 && q[1].second == m && q[0].second < half && q[1].first >= half)
        {
            l = q[1].first;
            h = q[0].second;
            return true;
        }
        return false;
    };
    u128 l, h;
    auto one = [&](const Set & q) -> Expr *
    {
        if (q.size() == 1)
            return test(x, q[0].first, q[0].second);
        if (rot(q, l, h))
        {
            Expr *lo = l == half ? nullptr : mk(Op::Slt, mkConst(l - 1, x->width), x), *hi = h == half - 1 ? nullptr : mk(Op::Slt, x, mkConst(h + 1, x->width));
            if (! lo || ! hi)
                return lo ? lo : hi;
            return mk(Op::And, lo, hi);
        }
        return nullptr;
    };
    if (Expr * e = one(s))
        return e;
    if (Expr * e = one(c))
        return neg(e);
    if (s.size() > 4 && c.size() > 4)
        return nullptr;
    bool flip = c.size() < s.size();
    Expr * r = nullptr;
    for (auto & i : flip ? c : s)
    {
        Expr * t = test(x, i.first, i.second);
        r = r ? mk(Op::Or, r, t) : t;
    }
    return flip ? neg(r) : r;
}
static Expr * build(Expr * x, const PW & p, unsigned w)
{
    // the distinct functions and where they apply
    std::vector<std::pair<std::pair<int, i128>, Set>> fs;
    for (auto & q : p)
    {
        auto key = std::make_pair(q.s, q.k);
        size_t i = 0;
        while (i < fs.size() && fs[i].first != key)
            i++;
        if (i == fs.size())
            fs.push_back({ key, {} });
        if (! fs[i].second.empty() && fs[i].second.back().second + 1 == q.lo)
            fs[i].second.back().second = q.hi;
        else
            fs[i].second.push_back({ q.lo, q.hi });
    }
    if (fs.size() > 4)
        return nullptr;
    auto val = [&](const std::pair<int, i128> & f) -> Expr *
    {
        if (! f.first)
            return mkConst((u128)f.second & maskw(w), w);
        Expr * b = x->width == w ? x : x->width < w ? rawIntern(Op::ZExt, w, 0, x, nullptr, nullptr) : rawIntern(Op::Extract, w, 0, x, nullptr, nullptr);
        u128 k = (u128)f.second & maskw(w);
        if (f.first == 1)
            return k ? mk(Op::Add, b, mkConst(k, w)) : b;
        if (k == maskw(w))
            return mk(Op::Xor, b, mkConst(k, w));
        return mk(Op::Sub, mkConst(k, w), b);
    };
    if (w == 1)
    {
        for (auto & f : fs)
            if (f.first.first)
                return nullptr;
        for (auto & f : fs)
            if (f.first.second == 1)
                return member(x, f.second);
        return mkConst(0, 1);
    }
    // the function with the most intervals comes last
    std::stable_sort(fs.begin(), fs.end(), [](auto & a, auto & b) { return a.second.size() < b.second.size(); });
    Expr * r = val(fs.back().first);
    for (int i = (int)fs.size() - 2; i >= 0; i--)
    {
        Expr * c = member(x, fs[i].second);
        if (! c)
            return nullptr;
        r = rawIntern(Op::Ite, w, 0, c, val(fs[i].first), r);
    }
    return r;
}
static Expr * symExpr(u32 s)
{
    return mkSymOf(s);
}
Expr * pwCanon(Expr * e)
{
    if (g_pwBusy || e->op == Op::Sym || e->op == Op::Const || e->hasFP || e->syms->size() != 1 || e->width > 64)
        return e;
    g_pwBusy = true;
    Expr * out = e;
    const PW * p = pwOf(e);
    if (p)
    {
        std::string key((const char *)&(*e->syms)[0], 4);
        key.push_back((char)e->width);
        for (auto & q : *p)
        {
            key.append((const char *)&q.hi, 8);
            key.push_back((char)q.s);
            key.append((const char *)&q.k, 16);
        }
        auto it = g_rep.find(key);
        if (it != g_rep.end())
            out = it->second;
        else
        {
            if (p->size() == 1 && ! (*p)[0].s)
                out = mkConst((u128)(*p)[0].k, e->width);
            else
            {
                Expr * c = build(symExpr((*e->syms)[0]), *p, e->width);
                if (c && c->size < e->size)
                    out = c;
            }
            g_rep[key] = out;
        }
    }
    g_pwBusy = false;
    return out;
}
