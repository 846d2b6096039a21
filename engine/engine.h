#pragma once
#include "exec.h"
#include <llvm/IR/Constants.h>
void setDataLayout(const llvm::DataLayout *);
void lanesOf(llvm::Type * T, u32 off, std::vector<LaneTy> & out);
void constLanes(const llvm::Constant * C, std::vector<Val> & out);
void translate(KFunc *);
u64 globalAddress(const llvm::GlobalValue *);
void resolveCallee(const llvm::Function *, KInst &);
int asmHandler(const std::string &);
[[noreturn]] void fatal(const std::string &);
