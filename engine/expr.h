// Hash-consed bit-vector expression DAG (widths 1..128) with simplification, host evaluation and symbol tracking.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum class Op : uint8_t
{
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat,  // a = high, b = low
    Extract, // aux = low bit
    ZExt, SExt,
    Eq, Ult, Ule, Slt, Sle, // width 1
    Ite,
    // floating point over bit patterns; aux selects details
    FAdd, FSub, FMul, FDiv, FSqrt, FRound /*aux: 0 rne,1 floor,2 ceil,3 trunc,4 rna*/, FToS /*f->signed int width*/, SToF, UToF, FExt, FTrunc,
    LibM, // aux = function id, uninterpreted, host evaluated
};

struct Expr
{
    Op op;
    uint8_t width;
    uint32_t aux; // sym id, extract low, rounding mode, libm id
    uint32_t id;
    Expr *a, *b, *c;
    u128 k;                        // Const value
    std::vector<u32> const * syms; // sorted symbol ids
    bool hasFP;
    uint32_t size; // approximate tree size (saturating)
};

struct SymInfo
{
    std::string name;
    int width;
    bool uninit;
};
extern std::vector<SymInfo> g_syms;

inline u128 maskw(unsigned w)
{
    return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline u64 mask64(unsigned w)
{
    return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1);
}
inline i128 sx(u128 v, unsigned w)
{
    if (w >= 128)
        return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

Expr * mkConst(u128 v, unsigned w);
Expr * mkSym(const std::string & name, unsigned w, bool uninit = false);
Expr * mkSymOf(u32 id); // the expression of a symbol
Expr * mk2(Op op, Expr * a, Expr * b);
Expr * mkExtract(Expr * a, unsigned lo, unsigned w);
Expr * mkZExt(Expr * a, unsigned w);
Expr * mkSExt(Expr * a, unsigned w);
Expr * mkConcat(Expr * hi, Expr * lo);
Expr * mkIte(Expr * c, Expr * a, Expr * b);
Expr * mkNot(Expr * a); // bitwise not
Expr * mkNeg(Expr * a);
Expr * mkEq(Expr * a, Expr * b);
Expr * mkF(Op op, unsigned w, Expr * a, Expr * b = nullptr, unsigned aux = 0);
Expr * mkLibM(unsigned fid, unsigned w, Expr * a, Expr * b);
Expr * mkFIsNan(Expr * a);
Expr * mkFLt(Expr * a, Expr * b);  // ordered <
Expr * mkFOeq(Expr * a, Expr * b); // ordered ==
inline bool isC(Expr * e)
{
    return e->op == Op::Const;
}
inline bool isC(Expr * e, u128 v)
{
    return e->op == Op::Const && e->k == (v & maskw(e->width));
}
unsigned trailingZeros(Expr * e); // known trailing zero bits
u128 evalExpr(Expr * e, struct Model & m);
std::string show(Expr * e, int depth = 6);
int libmId(const std::string & name);
const std::string & libmName(unsigned id);
size_t exprCount();
u128 foldF(Op op, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux);
void unsignedRange(Expr * e, u128 & lo, u128 & hi);

struct Model
{
    std::unordered_map<u32, u128> v;
    std::unordered_map<u32, u128> memo; // expr id -> value
    u128 get(u32 s) const
    {
        auto it = v.find(s);
        return it == v.end() ? 0 : it->second;
    }
};

Expr * substExpr(Expr * e, std::unordered_map<u32, u128> const & fixed, std::unordered_map<u32, Expr *> & memo);
