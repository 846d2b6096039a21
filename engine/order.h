#pragma once
#include "expr.h"
// what an expression built for floats means: 0 key(a) < key(b), 1 key(a) == key(b), 2 a is a NaN; keys order the bit patterns, zeros equal
struct OrderAtom
{
    int kind;
    Expr *a, *b;
    bool neg; // this is the negation
};
extern std::unordered_map<u32, OrderAtom> g_orderAtoms;
// 1 satisfiable with a checked model, 0 unsatisfiable, -1 not decided
int orderSolve(const std::vector<Expr *> & cs, Model & m);
