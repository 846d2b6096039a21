// Decides equalities between terms that are affine over GF(2): each bit of a term is a sum (xor) of input bits and a constant.
#include "gf2.h"
namespace
{
    struct Row
    {
        std::vector<u64> w;
        bool k = false;
        bool isConst() const
        {
            for (u64 x : w)
                if (x)
                    return false;
            return true;
        }
        void add(const Row & o)
        {
            if (o.w.size() > w.size())
                w.resize(o.w.size());
            for (size_t i = 0; i < o.w.size(); i++)
                w[i] ^= o.w[i];
            k ^= o.k;
        }
    };
    typedef std::vector<Row> Form;
    struct Ctx
    {
        std::unordered_map<Expr *, std::shared_ptr<Form>> memo;
        std::unordered_map<u32, u32> base; // symbol -> first bit number
        std::vector<std::pair<u32, u32>> bits;
        size_t cells = 0;
    };
    typedef std::shared_ptr<Form> F;
    F lin(Ctx & c, Expr * e);
    F compute(Ctx & c, Expr * e)
    {
        auto r = std::make_shared<Form>(e->width);
        auto & f = *r;
        unsigned w = e->width;
        switch (e->op)
        {
        case Op::Const:
            for (unsigned i = 0; i < w; i++)
                f[i].k = e->k >> i & 1;
            return r;
        case Op::Sym:
        {
            auto it = c.base.find(e->aux);
            if (it == c.base.end())
            {
                it = c.base.emplace(e->aux, (u32)c.bits.size()).first;
                for (unsigned i = 0; i < w; i++)
                    c.bits.push_back({ e->aux, i });
            }
            for (unsigned i = 0; i < w; i++)
            {
                u32 n = it->second + i;
                f[i].w.resize(n / 64 + 1);
                f[i].w[n / 64] |= 1ull << (n % 64);
            }
            return r;
        }
        case Op::Xor:
        {
            F a = lin(c, e->a), b = lin(c, e->b);
            if (! a || ! b)
                return nullptr;
            f = *a;
            for (unsigned i = 0; i < w; i++)
                f[i].add((*b)[i]);
            return r;
        }
        case Op::And:
        case Op::Or:
        case Op::Add:
        {
            F a = lin(c, e->a), b = lin(c, e->b);
            if (! a || ! b)
                return nullptr;
            for (unsigned i = 0; i < w; i++)
            {
                Row & x = (*a)[i];
                Row & y = (*b)[i];
                bool cx = x.isConst(), cy = y.isConst();
                if (e->op == Op::Add)
                { // no carries: in every position one of them is zero
                    if (cx && ! x.k)
                        f[i] = y;
                    else if (cy && ! y.k)
                        f[i] = x;
                    else
                        return nullptr;
                }
                else if (cx)
                {
                    if (e->op == Op::And)
                        f[i] = x.k ? y : Row();
                    else if (x.k)
                        f[i].k = true;
                    else
                        f[i] = y;
                }
                else if (cy)
                {
                    if (e->op == Op::And)
                        f[i] = y.k ? x : Row();
                    else if (y.k)
                        f[i].k = true;
                    else
                        f[i] = x;
                }
                else
                {
                    Row d = x;
                    d.add(y);
                    if (! d.isConst() || d.k)
                        return nullptr;
                    f[i] = x;
                }
            }
            return r;
        }
        case Op::Shl:
        case Op::LShr:
        case Op::AShr:
        {
            if (e->b->op != Op::Const || e->b->k >= w)
                return nullptr;
            F a = lin(c, e->a);
            if (! a)
                return nullptr;
            unsigned s = (unsigned)e->b->k;
            for (unsigned i = 0; i < w; i++)
                if (e->op == Op::Shl)
                    f[i] = i >= s ? (*a)[i - s] : Row();
                else
                    f[i] = i + s < w ? (*a)[i + s] : e->op == Op::AShr ? (*a)[w - 1] : Row();
            return r;
        }
        case Op::Concat:
        {
            F a = lin(c, e->a), b = lin(c, e->b);
            if (! a || ! b)
                return nullptr;
            f = *b;
            f.insert(f.end(), a->begin(), a->end());
            return r;
        }
        case Op::Extract:
        {
            F a = lin(c, e->a);
            if (! a)
                return nullptr;
            f.assign(a->begin() + e->aux, a->begin() + e->aux + w);
            return r;
        }
        case Op::ZExt:
        case Op::SExt:
        {
            F a = lin(c, e->a);
            if (! a)
                return nullptr;
            Row top = e->op == Op::SExt ? a->back() : Row();
            f = *a;
            f.resize(w, top);
            return r;
        }
        case Op::Sub:
        case Op::Mul:
        { // a flag times a constant
            Expr * x = e->op == Op::Sub ? e->b : e->a;
            Expr * k = e->op == Op::Sub ? e->a : e->b;
            if (e->op == Op::Mul && k->op != Op::Const)
                std::swap(x, k);
            if (k->op != Op::Const || (e->op == Op::Sub && k->k))
                return nullptr;
            F a = lin(c, x);
            if (! a)
                return nullptr;
            for (unsigned i = 1; i < w; i++)
                if (! (*a)[i].isConst() || (*a)[i].k)
                    return nullptr;
            u128 m = e->op == Op::Sub ? maskw(w) : k->k;
            for (unsigned i = 0; i < w; i++)
                if (m >> i & 1)
                    f[i] = (*a)[0];
            return r;
        }
        case Op::Eq:
        {
            F a = lin(c, e->a), b = lin(c, e->b);
            if (! a || ! b)
                return nullptr;
            int n = -1;
            Row only;
            for (size_t i = 0; i < a->size(); i++)
            {
                Row d = (*a)[i];
                d.add((*b)[i]);
                if (d.isConst())
                {
                    if (d.k)
                        return r; // never equal
                }
                else if (n >= 0)
                    return nullptr;
                else
                {
                    n = (int)i;
                    only = d;
                }
            }
            if (n >= 0)
                f[0] = only;
            f[0].k ^= true;
            return r;
        }
        case Op::Ult:
        case Op::Ule:
        { // the top bit, written as a comparison
            unsigned n = e->a->width;
            u128 half = (u128)1 << (n - 1);
            bool below; // the other operand is below the middle
            Expr * x;
            if (e->b->op == Op::Const && e->b->k == (e->op == Op::Ult ? half : half - 1))
            {
                x = e->a;
                below = true;
            }
            else if (e->a->op == Op::Const && e->a->k == (e->op == Op::Ult ? half - 1 : half))
            {
                x = e->b;
                below = false;
            }
            else
                return nullptr;
            F a = lin(c, x);
            if (! a)
                return nullptr;
            f[0] = a->back();
            f[0].k ^= below;
            return r;
        }
        case Op::Slt:
        {
            if (e->b->op != Op::Const || e->b->k)
                return nullptr;
            F a = lin(c, e->a);
            if (! a)
                return nullptr;
            f[0] = a->back();
            return r;
        }
        case Op::Ite:
        {
            F q = lin(c, e->a), a = lin(c, e->b), b = lin(c, e->c);
            if (! q || ! a || ! b)
                return nullptr;
            for (unsigned i = 0; i < w; i++)
            {
                Row d = (*a)[i];
                d.add((*b)[i]);
                if (! d.isConst())
                    return nullptr;
                f[i] = (*b)[i];
                if (d.k)
                    f[i].add((*q)[0]);
            }
            return r;
        }
        default:
            return nullptr;
        }
    }
    // a term over one byte: by its values
    F tabulate(Ctx & c, Expr * e)
    {
        u32 s = (*e->syms)[0];
        unsigned n = g_syms[s].width;
        std::vector<u64> t;
        for (u64 v = 0; v < (1ull << n); v++)
        {
            Model m;
            m.v[s] = v;
            t.push_back((u64)evalExpr(e, m));
        }
        for (size_t i = 1; i < t.size(); i++)
            if (t[i] != (t[i & (i - 1)] ^ t[i & -i] ^ t[0]))
                return nullptr;
        F in = lin(c, mkSymOf(s));
        auto r = std::make_shared<Form>(e->width);
        for (unsigned i = 0; i < e->width; i++)
        {
            (*r)[i].k = t[0] >> i & 1;
            for (unsigned b = 0; b < n; b++)
                if ((t[1ull << b] ^ t[0]) >> i & 1)
                    (*r)[i].add((*in)[b]);
        }
        return r;
    }
    F lin(Ctx & c, Expr * e)
    {
        auto it = c.memo.find(e);
        if (it != c.memo.end())
            return it->second;
        if (c.cells > (1u << 28))
            return nullptr;
        F r = compute(c, e);
        if (! r && e->syms->size() == 1 && e->size < 3000 && e->width <= 64 && g_syms[(*e->syms)[0]].width <= 8)
            r = tabulate(c, e);
        if (! r && getenv("RSYM_GF2"))
            fprintf(stderr, "gf2: %s\n", show(e, 4).c_str());
        if (r)
            for (auto & x : *r)
                c.cells += x.w.size() + 4;
        c.memo[e] = r;
        return r;
    }
}
// 1: equal for every input; 0: differ for some, and flip is an input bit their difference (in some position) depends on, or -1 when it is constant; -1: not affine
int gf2Equal(Expr * a, Expr * b, std::vector<std::pair<u32, u32>> & flips, Model & at, bool & mustFlip)
{
    Ctx c;
    F x = lin(c, a), y = x ? lin(c, b) : nullptr;
    if (! x || ! y)
        return -1;
    for (size_t i = 0; i < x->size(); i++)
    {
        Row d = (*x)[i];
        d.add((*y)[i]);
        if (d.isConst() && ! d.k)
            continue;
        bool v = d.k;
        for (size_t j = 0; j < c.bits.size(); j++)
            if (j / 64 < d.w.size() && d.w[j / 64] >> (j % 64) & 1)
            {
                flips.push_back(c.bits[j]);
                v ^= (bool)(at.get(c.bits[j].first) >> c.bits[j].second & 1);
            }
        mustFlip = ! v;
        return 0;
    }
    return 1;
}
// the table as an affine function of the bits of its index, or null
Expr * gf2Table(std::vector<u64> const & t, unsigned w, Expr * index)
{
    unsigned bits = 0;
    while ((1u << bits) < t.size())
        bits++;
    if (t.size() != (1u << bits) || bits < 4 || index->width < bits)
        return nullptr;
    unsigned dense = 0;
    for (unsigned b = 0; b < bits; b++)
        dense += __builtin_popcountll(t[1u << b] ^ t[0]) > 3;
    if (dense < bits / 2)
        return nullptr;
    for (size_t i = 1; i < t.size(); i++)
    {
        size_t low = i & (i - 1), bit = i & -i;
        if (t[i] != (t[low] ^ t[bit] ^ t[0]))
            return nullptr;
    }
    Expr * r = mkConst(t[0], w);
    for (unsigned b = 0; b < bits; b++)
        r = mk2(Op::Xor, r, mkIte(mkExtract(index, b, 1), mkConst(t[1u << b] ^ t[0], w), mkConst(0, w)));
    return r;
}
