// Decides conjunctions of comparisons between symbols and constants (integers of either sign, floats through their ordered bit patterns):
// difference bounds with case splits over the disjunctions. Unsatisfiability only uses the constraints understood; a model is checked against all.
#include "expr.h"
#include "solver.h"
#include "order.h"
#include <unordered_map>
std::unordered_map<u32, OrderAtom> g_orderAtoms;
namespace
{
struct Lit
{
    int kind; // 0 v[b] >= v[a] + w; 1 conjunction; 2 disjunction; 3 true; 4 false; 5 not understood
    int a = 0, b = 0, w = 0;
    std::vector<Lit> sub;
};
struct Node
{
    Expr * e;
    int interp; // 0 undecided, 1 unsigned, 2 signed, 3 float
    i128 lo, hi;
};
struct Ctx
{
    std::vector<Node> n;
    std::unordered_map<u32, int> idx;
    std::vector<Lit> edges;
    std::vector<i128> lb;
    int budget = 1500;
    int nodeOf(Expr * s, int interp)
    {
        auto it = idx.find(s->id);
        if (it == idx.end())
        {
            it = idx.emplace(s->id, n.size()).first;
            n.push_back({ s, 0, 0, 0 });
        }
        Node & q = n[it->second];
        if (! q.interp && interp)
        {
            q.interp = interp;
            unsigned w = s->width;
            if (interp == 1)
            {
                q.lo = 0;
                q.hi = (i128)maskw(w);
            }
            else if (interp == 2)
            {
                q.lo = -((i128)1 << (w - 1));
                q.hi = ((i128)1 << (w - 1)) - 1;
            }
            else
            {
                q.hi = ((i128)1 << (w - 1)) - 1;
                q.lo = -q.hi;
            }
        }
        if (q.interp != interp)
            return -1;
        return it->second;
    }
    int constOf(i128 v)
    {
        u32 key = 0x80000000u ^ (u32)((u128)v * 2654435761u >> 7);
        for (size_t i = 0; i < n.size(); i++)
            if (! n[i].e && n[i].lo == v)
                return i;
        (void)key;
        n.push_back({ nullptr, 1, v, v });
        return n.size() - 1;
    }
    int interpOf(Expr * s)
    {
        auto it = idx.find(s->id);
        return it == idx.end() ? 0 : n[it->second].interp;
    }
};
i128 keyOf(u128 bits, unsigned w)
{
    u128 m = bits & maskw(w - 1);
    return (bits >> (w - 1)) & 1 ? -(i128)m : (i128)m;
}
i128 infKey(unsigned w)
{
    return w == 32 ? (i128)0x7f800000 : (i128)0x7ff0000000000000ull;
}
const Lit UNK = { 5 };
// an operand of an integer comparison as a node; strips extensions that keep the value
int operand(Ctx & c, Expr * e, bool sgn)
{
    if (isC(e))
        return c.constOf(sgn ? sx(e->k, e->width) : (i128)e->k);
    if (e->op == Op::ZExt && e->a->op == Op::Sym)
        return c.nodeOf(e->a, 1);
    if (e->op == Op::SExt && e->a->op == Op::Sym && sgn)
        return c.nodeOf(e->a, 2);
    if (e->op == Op::Sym && e->width > 1)
        return c.nodeOf(e, sgn ? 2 : 1);
    return -1;
}
Lit edge(int a, int b, int w)
{
    if (a < 0 || b < 0)
        return UNK;
    Lit l{ 0 };
    l.a = a;
    l.b = b;
    l.w = w;
    return l;
}
Lit both(Lit x, Lit y)
{
    Lit l{ 1 };
    l.sub = { x, y };
    return l;
}
Lit either(Lit x, Lit y)
{
    if (x.kind == 5 || y.kind == 5)
        return UNK;
    Lit l{ 2 };
    l.sub = { x, y };
    return l;
}
Lit parse(Ctx & c, Expr * e, bool neg, int depth)
{
    if (isC(e))
        return Lit{ (e->k != 0) != neg ? 3 : 4 };
    if (depth > 40)
        return UNK;
    auto it = g_orderAtoms.find(e->id);
    if (it != g_orderAtoms.end())
    {
        OrderAtom & A = it->second;
        neg ^= A.neg;
        auto node = [&](Expr * x) { return isC(x) ? c.constOf(keyOf(x->k, x->width)) : x->op == Op::Sym ? c.nodeOf(x, 3) : -1; };
        int a = node(A.a);
        if (A.kind == 2)
        {
            int hi = c.constOf(infKey(A.a->width)), lo = c.constOf(-infKey(A.a->width));
            return neg ? both(edge(lo, a, 0), edge(a, hi, 0)) : either(edge(hi, a, 1), edge(a, lo, 1));
        }
        int b = node(A.b);
        if (a < 0 || b < 0)
            return UNK;
        if (A.kind == 0)
            return neg ? edge(b, a, 0) : edge(a, b, 1);
        return neg ? either(edge(a, b, 1), edge(b, a, 1)) : both(edge(a, b, 0), edge(b, a, 0));
    }
    switch (e->op)
    {
    case Op::Xor:
        if (e->width == 1 && isC(e->b, 1))
            return parse(c, e->a, ! neg, depth + 1);
        if (e->width == 1 && isC(e->a, 1))
            return parse(c, e->b, ! neg, depth + 1);
        return UNK;
    case Op::And:
    case Op::Or:
        {
            if (e->width != 1)
                return UNK;
            Lit x = parse(c, e->a, neg, depth + 1), y = parse(c, e->b, neg, depth + 1);
            return (e->op == Op::And) != neg ? both(x, y) : either(x, y);
        }
    case Op::Ult:
    case Op::Ule:
    case Op::Slt:
    case Op::Sle:
        {
            bool s = e->op == Op::Slt || e->op == Op::Sle, strict = e->op == Op::Ult || e->op == Op::Slt;
            int a = operand(c, e->a, s), b = operand(c, e->b, s);
            return neg ? edge(b, a, ! strict) : edge(a, b, strict);
        }
    case Op::Eq:
        {
            Expr *x = e->a, *y = e->b;
            if (x->width == 1)
                return UNK;
            if (isC(x))
                std::swap(x, y);
            int i = x->op == Op::Sym ? c.interpOf(x) : 0;
            if (! i && y->op == Op::Sym)
                i = c.interpOf(y);
            if (i == 3)
            {
                if (neg)
                    return UNK;
                int a = x->op == Op::Sym ? c.nodeOf(x, 3) : -1, b = isC(y) ? c.constOf(keyOf(y->k, y->width)) : y->op == Op::Sym ? c.nodeOf(y, 3) : -1;
                return a < 0 || b < 0 ? UNK : both(edge(a, b, 0), edge(b, a, 0));
            }
            bool s = i == 2 || x->op == Op::SExt || y->op == Op::SExt;
            int a = operand(c, x, s), b = operand(c, y, s);
            if (a < 0 || b < 0)
                return UNK;
            return neg ? either(edge(a, b, 1), edge(b, a, 1)) : both(edge(a, b, 0), edge(b, a, 0));
        }
    case Op::Ite:
        {
            if (e->width != 1)
                return UNK;
            Lit p = parse(c, e->a, false, depth + 1), q = parse(c, e->a, true, depth + 1);
            Lit t = parse(c, e->b, neg, depth + 1), f = parse(c, e->c, neg, depth + 1);
            return either(both(p, t), both(q, f));
        }
    default: return UNK;
    }
}
// least solution of the bounds; false when there is none
bool bounds(Ctx & c)
{
    size_t N = c.n.size();
    c.lb.resize(N);
    for (size_t i = 0; i < N; i++)
        c.lb[i] = c.n[i].interp ? c.n[i].lo : 0;
    for (size_t r = 0;; r++)
    {
        bool ch = false;
        for (auto & e : c.edges)
            if (c.lb[e.b] < c.lb[e.a] + e.w)
            {
                c.lb[e.b] = c.lb[e.a] + e.w;
                if (c.lb[e.b] > c.n[e.b].hi)
                    return false;
                ch = true;
            }
        if (! ch)
            return true;
        if (r > N)
            return false; // a cycle
    }
}
bool holds(Ctx & c, const Lit & l)
{
    switch (l.kind)
    {
    case 0: return c.lb[l.b] >= c.lb[l.a] + l.w;
    case 1:
        for (auto & s : l.sub)
            if (! holds(c, s))
                return false;
        return true;
    case 2:
        for (auto & s : l.sub)
            if (holds(c, s))
                return true;
        return false;
    case 4: return false;
    default: return true;
    }
}
// adds the conjunctive part to the edges, the disjunctions to ors; false when it contains false
bool add(Ctx & c, const Lit & l, std::vector<const Lit *> & ors)
{
    switch (l.kind)
    {
    case 0: c.edges.push_back(l); return true;
    case 1:
        for (auto & s : l.sub)
            if (! add(c, s, ors))
                return false;
        return true;
    case 2: ors.push_back(&l); return true;
    case 4: return false;
    default: return true;
    }
}
// 1 satisfiable (least solution in lb), 0 not, -1 gave up
int search(Ctx & c, std::vector<const Lit *> ors)
{
    if (--c.budget < 0)
        return -1;
    if (! bounds(c))
        return 0;
    for (;;)
    {
        bool all = true;
        for (auto * o : ors)
            all &= holds(c, *o);
        if (all)
            return 1;
        bool progress = false;
        for (size_t i = 0; i < ors.size(); i++)
        {
            const Lit * only = nullptr;
            int viable = 0;
            size_t mark = c.edges.size();
            for (auto & s : ors[i]->sub)
            {
                std::vector<const Lit *> tmp;
                bool ok = add(c, s, tmp);
                if (ok && c.edges.size() > mark)
                {
                    if (--c.budget < 0)
                    {
                        c.edges.resize(mark);
                        return -1;
                    }
                    ok = bounds(c);
                }
                c.edges.resize(mark);
                if (ok)
                {
                    viable++;
                    only = &s;
                }
            }
            if (! viable)
                return 0;
            if (viable == 1)
            {
                ors.erase(ors.begin() + i);
                add(c, *only, ors);
                progress = true;
                i--;
            }
        }
        if (! bounds(c))
            return 0;
        if (! progress)
            break;
    }
    for (size_t i = 0; i < ors.size(); i++)
        if (! holds(c, *ors[i]))
        {
            const Lit * o = ors[i];
            std::vector<const Lit *> rest = ors;
            rest.erase(rest.begin() + i);
            bool gave = false;
            for (auto & s : o->sub)
            {
                size_t mark = c.edges.size();
                std::vector<const Lit *> r = rest;
                int q = add(c, s, r) ? search(c, r) : 0;
                if (q == 1)
                    return 1;
                c.edges.resize(mark);
                gave |= q < 0;
            }
            return gave ? -1 : 0;
        }
    return bounds(c) ? 1 : 0;
}
}
int orderSolve(const std::vector<Expr *> & cs, Model & m)
{
    Ctx c;
    std::vector<Lit> lits;
    lits.reserve(cs.size());
    if (cs.size() > 200)
        return -1;
    // comparisons first: they determine how the symbols are read
    for (int pass = 0; pass < 2; pass++)
        for (Expr * e : cs)
        {
            Expr * x = e;
            if (x->op == Op::Xor && x->width == 1 && isC(x->b, 1))
                x = x->a;
            if ((x->op == Op::Eq) != (pass == 1))
                continue;
            lits.push_back(parse(c, e, false, 0));
            static bool dbg = getenv("RSYM_ORDERDBG");
            if (dbg && lits.back().kind == 5)
                fprintf(stderr, "not understood: %s\n", show(e, 6).c_str());
        }
    if (c.n.size() > 150)
        return -1;
    std::vector<const Lit *> ors;
    for (auto & l : lits)
        if (! add(c, l, ors))
            return 0;
    int r = search(c, ors);
    if (r < 0 && getenv("RSYM_ORDERDBG"))
        fprintf(stderr, "gave up: %zu nodes %zu edges %zu disjunctions\n", c.n.size(), c.edges.size(), ors.size());
    if (r != 1)
        return r;
    m.v.clear();
    m.memo.clear();
    for (size_t i = 0; i < c.n.size(); i++)
        if (c.n[i].e && c.n[i].interp)
        {
            i128 v = c.lb[i];
            unsigned w = c.n[i].e->width;
            u128 bits = c.n[i].interp == 3 && v < 0 ? (((u128)1 << (w - 1)) | (u128)-v) : (u128)v & maskw(w);
            m.v[c.n[i].e->aux] = bits;
        }
    for (Expr * e : cs)
        if (! evalExpr(e, m))
        {
            if (getenv("RSYM_ORDERDBG"))
            {
                fprintf(stderr, "model fails: %s\n", show(e, 9).c_str());
                for (auto & kv : m.v)
                    fprintf(stderr, "   %u = %llx\n", kv.first, (unsigned long long)kv.second);
            }
            return -1;
        }
    for (Expr * e : cs)
        for (u32 s : *e->syms)
            m.v.emplace(s, 0);
    return 1;
}
