// Canonical forms of expressions over one symbol: on intervals of the symbol x the value is k, x + k or k - x.
#pragma once
#include "expr.h"
#include <memory>
struct Piece
{
    u128 lo, hi; // of x, inclusive
    int s;       // slope: 0, 1 or -1
    i128 k;
};
typedef std::vector<Piece> PW;
// null when e is not of this form
const PW * pwOf(Expr * e);
// an equal expression, possibly simpler: called once for every new node
Expr * pwCanon(Expr * e);
