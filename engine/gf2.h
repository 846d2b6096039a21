#pragma once
#include "expr.h"
int gf2Equal(Expr * a, Expr * b, std::vector<std::pair<u32, u32>> & flips, Model & at, bool & mustFlip);
Expr * gf2Table(std::vector<u64> const & t, unsigned w, Expr * index);
