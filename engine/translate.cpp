// LLVM IR function -> compact instruction list.
#include "exec.h"
#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static const DataLayout * DL;
void setDataLayout(const DataLayout * dl)
{
    DL = dl;
}

void lanesOf(Type * T, u32 off, std::vector<LaneTy> & out)
{
    if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy())
        return;
    if (auto * S = dyn_cast<StructType>(T))
    {
        auto * L = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++)
            lanesOf(S->getElementType(i), off + (u32)L->getElementOffset(i), out);
        return;
    }
    if (auto * A = dyn_cast<ArrayType>(T))
    {
        u64 es = DL->getTypeAllocSize(A->getElementType());
        for (u64 i = 0; i < A->getNumElements(); i++)
            lanesOf(A->getElementType(), off + (u32)(i * es), out);
        return;
    }
    if (auto * V = dyn_cast<FixedVectorType>(T))
    {
        u64 bits = DL->getTypeSizeInBits(V->getElementType());
        for (u64 i = 0; i < V->getNumElements(); i++)
        {
            u32 o = off + (u32)(i * bits / 8);
            lanesOf(V->getElementType(), o, out);
        }
        return;
    }
    out.push_back({ off, (uint16_t)DL->getTypeSizeInBits(T).getFixedValue(), T->isFloatingPointTy() });
}
static u32 laneCount(Type * T)
{
    std::vector<LaneTy> l;
    lanesOf(T, 0, l);
    return l.size();
}

static Val mkV(u128 v, unsigned w)
{
    if (w <= 64)
        return { nullptr, (u64)v & mask64(w) };
    return { mkConst(v, w), 0 };
}

void constLanes(const Constant * Cn, std::vector<Val> & out)
{
    Type * T = Cn->getType();
    if (auto * CI = dyn_cast<ConstantInt>(Cn))
    {
        const APInt & a = CI->getValue();
        u128 v = a.getRawData()[0];
        if (a.getBitWidth() > 64)
            v |= (u128)a.getRawData()[1] << 64;
        out.push_back(mkV(v, a.getBitWidth()));
        return;
    }
    if (auto * CF = dyn_cast<ConstantFP>(Cn))
    {
        APInt a = CF->getValueAPF().bitcastToAPInt();
        u128 v = a.getRawData()[0];
        if (a.getBitWidth() > 64)
            v |= (u128)a.getRawData()[1] << 64;
        out.push_back(mkV(v, a.getBitWidth()));
        return;
    }
    if (isa<ConstantPointerNull>(Cn))
    {
        out.push_back({ nullptr, 0 });
        return;
    }
    if (isa<UndefValue>(Cn) || isa<ConstantAggregateZero>(Cn))
    {
        std::vector<LaneTy> l;
        lanesOf(T, 0, l);
        for (auto & x : l)
            out.push_back(mkV(0, x.w));
        return;
    }
    if (auto * CA = dyn_cast<ConstantAggregate>(Cn))
    {
        for (unsigned i = 0; i < CA->getNumOperands(); i++)
            constLanes(CA->getOperand(i), out);
        return;
    }
    if (auto * CD = dyn_cast<ConstantDataSequential>(Cn))
    {
        for (unsigned i = 0; i < CD->getNumElements(); i++)
            constLanes(CD->getElementAsConstant(i), out);
        return;
    }
    if (auto * GV = dyn_cast<GlobalValue>(Cn))
    {
        out.push_back({ nullptr, globalAddress(GV) });
        return;
    }
    if (auto * CE = dyn_cast<ConstantExpr>(Cn))
    {
        std::vector<Val> a;
        switch (CE->getOpcode())
        {
        case Instruction::GetElementPtr:
            {
                constLanes(CE->getOperand(0), a);
                APInt off(64, 0);
                if (! cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off))
                    fatal("constant gep");
                out.push_back({ nullptr, a[0].c + off.getZExtValue() });
                return;
            }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast:
            constLanes(CE->getOperand(0), a);
            if (a.size() == 1 && ! a[0].e)
            {
                out.push_back({ nullptr, a[0].c & mask64(DL->getTypeSizeInBits(T)) });
                return;
            }
            break;
        case Instruction::Trunc:
            constLanes(CE->getOperand(0), a);
            out.push_back({ nullptr, a[0].c & mask64(DL->getTypeSizeInBits(T)) });
            return;
        case Instruction::Add:
        case Instruction::Sub:
            {
                std::vector<Val> b;
                constLanes(CE->getOperand(0), a);
                constLanes(CE->getOperand(1), b);
                u64 r = CE->getOpcode() == Instruction::Add ? a[0].c + b[0].c : a[0].c - b[0].c;
                out.push_back({ nullptr, r & mask64(DL->getTypeSizeInBits(T)) });
                return;
            }
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    Cn->print(os);
    fatal("unsupported constant: " + os.str());
}

namespace
{
    struct Tr
    {
        KFunc & kf;
        const Function & F;
        std::unordered_map<const Value *, int> slot;
        std::unordered_map<const Value *, int> cst;
        std::unordered_map<const BasicBlock *, u32> bidx;
        int opnd(const Value * v)
        {
            auto it = slot.find(v);
            if (it != slot.end())
                return it->second;
            auto * Cn = dyn_cast<Constant>(v);
            if (! Cn)
            {
                if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v))
                    return -1;
                fatal("operand not found");
            }
            auto ic = cst.find(v);
            if (ic != cst.end())
                return ic->second;
            std::vector<Val> l;
            constLanes(Cn, l);
            int idx = -1 - (int)kf.consts.size();
            // negative indexes run downwards; lanes are stored in order and addressed from the base
            kf.consts.insert(kf.consts.end(), l.begin(), l.end());
            cst[v] = idx;
            return idx;
        }
        u32 edge(KInst & ki, const BasicBlock * from, const BasicBlock * to)
        {
            Edge e;
            e.block = bidx[to];
            for (auto & phi : to->phis())
            {
                PhiCopy c;
                c.dst = slot[&phi];
                c.src = opnd(phi.getIncomingValueForBlock(from));
                c.n = laneCount(phi.getType());
                e.copies.push_back(c);
            }
            ki.edges.push_back(std::move(e));
            return ki.edges.size() - 1;
        }
        void run();
        void inst(const Instruction & I);
    };
    void scalarTy(Type * T, KInst & k)
    {
        std::vector<LaneTy> l;
        lanesOf(T, 0, l);
        k.n = l.size();
        k.w = l.empty() ? 0 : l[0].w;
    }
}

void Tr::run()
{
    for (auto & A : F.args())
    {
        u32 n = laneCount(A.getType());
        kf.argSlot.push_back(kf.nslots);
        kf.argLaneN.push_back(n);
        slot[&A] = kf.nslots;
        kf.nslots += n;
    }
    kf.variadic = F.isVarArg();
    u32 b = 0;
    for (auto & BB : F)
    {
        bidx[&BB] = b++;
        for (auto & I : BB)
            if (! I.getType()->isVoidTy() && ! I.getType()->isTokenTy())
            {
                slot[&I] = kf.nslots;
                kf.nslots += laneCount(I.getType());
            }
    }
    for (auto & BB : F)
    {
        kf.blockStart.push_back(kf.insts.size());
        for (auto & I : BB)
            if (! isa<PHINode>(I))
                inst(I);
    }
    kf.translated = true;
}

void Tr::inst(const Instruction & I)
{
    KInst k;
    k.I = &I;
    k.k = K::Unsupported;
    k.mnem = I.getOpcodeName();
    auto si = slot.find(&I);
    if (si != slot.end())
        k.dst = si->second;
    auto op = [&](unsigned i) { return opnd(I.getOperand(i)); };
    switch (I.getOpcode())
    {
#define BINOP(N, O)                   \
    case Instruction::N:              \
        k.k = K::Bin;                 \
        k.sub = (uint16_t)Op::O;      \
        scalarTy(I.getType(), k);     \
        k.ops = { op(0), op(1) };     \
        break;
        BINOP(Add, Add)
        BINOP(Sub, Sub)
        BINOP(Mul, Mul)
        BINOP(UDiv, UDiv)
        BINOP(SDiv, SDiv)
        BINOP(URem, URem)
        BINOP(SRem, SRem)
        BINOP(And, And)
        BINOP(Or, Or)
        BINOP(Xor, Xor)
        BINOP(Shl, Shl)
        BINOP(LShr, LShr)
        BINOP(AShr, AShr)
#define FBINOP(N, O)                  \
    case Instruction::N:              \
        k.k = K::FBin;                \
        k.sub = (uint16_t)Op::O;      \
        scalarTy(I.getType(), k);     \
        k.ops = { op(0), op(1) };     \
        break;
        FBINOP(FAdd, FAdd)
        FBINOP(FSub, FSub)
        FBINOP(FMul, FMul)
        FBINOP(FDiv, FDiv)
    case Instruction::FRem:
        k.k = K::FRem;
        scalarTy(I.getType(), k);
        k.ops = { op(0), op(1) };
        break;
    case Instruction::FNeg:
        k.k = K::FNeg;
        scalarTy(I.getType(), k);
        k.ops = { op(0) };
        break;
    case Instruction::ICmp:
    case Instruction::FCmp:
        k.k = I.getOpcode() == Instruction::ICmp ? K::ICmp : K::FCmp;
        k.sub = cast<CmpInst>(I).getPredicate();
        scalarTy(I.getOperand(0)->getType(), k);
        k.ops = { op(0), op(1) };
        break;
    case Instruction::Select:
        k.k = K::Select;
        k.aux = { I.getOperand(0)->getType()->isVectorTy() ? 1u : 0u };
        k.ops = { op(0), op(1), op(2) };
        lanesOf(I.getType(), 0, k.lanes);
        k.n = k.lanes.size();
        break;
    case Instruction::Br:
        {
            auto & B = cast<BranchInst>(I);
            if (B.isConditional())
            {
                k.k = K::CondBr;
                k.ops = { op(0) };
                edge(k, I.getParent(), B.getSuccessor(0));
                edge(k, I.getParent(), B.getSuccessor(1));
            }
            else
            {
                k.k = K::Br;
                edge(k, I.getParent(), B.getSuccessor(0));
            }
            break;
        }
    case Instruction::Switch:
        {
            auto & S = cast<SwitchInst>(I);
            k.k = K::Switch;
            scalarTy(S.getCondition()->getType(), k);
            k.ops = { op(0) };
            edge(k, I.getParent(), S.getDefaultDest());
            for (auto & c : S.cases())
            {
                u32 e = edge(k, I.getParent(), c.getCaseSuccessor());
                k.cases.push_back({ c.getCaseValue()->getZExtValue(), e });
            }
            break;
        }
    case Instruction::Ret:
        k.k = K::Ret;
        k.n = 0;
        if (I.getNumOperands())
        {
            k.ops = { op(0) };
            k.n = laneCount(I.getOperand(0)->getType());
        }
        break;
    case Instruction::Unreachable: k.k = K::Unreachable; break;
    case Instruction::Alloca:
        {
            auto & A = cast<AllocaInst>(I);
            k.k = K::Alloca;
            k.aux = { (u64)DL->getTypeAllocSize(A.getAllocatedType()) };
            k.ops = { op(0) };
            break;
        }
    case Instruction::Load:
        k.k = K::Load;
        lanesOf(I.getType(), 0, k.lanes);
        k.ops = { op(0) };
        k.aux = { (u64)DL->getTypeStoreSize(I.getType()) };
        k.isVol = cast<LoadInst>(I).isVolatile();
        k.isAtomic = cast<LoadInst>(I).isAtomic();
        if (auto * V = dyn_cast<FixedVectorType>(I.getType()))
            if (DL->getTypeSizeInBits(V->getElementType()) % 8)
                k.k = K::Unsupported;
        break;
    case Instruction::Store:
        k.k = K::Store;
        lanesOf(I.getOperand(0)->getType(), 0, k.lanes);
        k.ops = { op(0), op(1) };
        k.aux = { (u64)DL->getTypeStoreSize(I.getOperand(0)->getType()) };
        k.isVol = cast<StoreInst>(I).isVolatile();
        k.isAtomic = cast<StoreInst>(I).isAtomic();
        if (auto * V = dyn_cast<FixedVectorType>(I.getOperand(0)->getType()))
            if (DL->getTypeSizeInBits(V->getElementType()) % 8)
                k.k = K::Unsupported;
        break;
    case Instruction::GetElementPtr:
        {
            auto & G = cast<GetElementPtrInst>(I);
            if (I.getType()->isVectorTy())
                break;
            k.k = K::Gep;
            k.ops = { op(0) };
            u64 c = 0;
            Type * cur = G.getSourceElementType();
            bool first = true;
            for (unsigned i = 1; i < G.getNumOperands(); i++)
            {
                const Value * ix = G.getOperand(i);
                if (! first && cur->isStructTy())
                {
                    unsigned f = (unsigned)cast<ConstantInt>(ix)->getZExtValue();
                    c += DL->getStructLayout(cast<StructType>(cur))->getElementOffset(f);
                    cur = cast<StructType>(cur)->getElementType(f);
                    continue;
                }
                Type * el = cur;
                if (! first)
                {
                    if (auto * A = dyn_cast<ArrayType>(cur))
                        el = A->getElementType();
                    else
                        el = cast<VectorType>(cur)->getElementType();
                }
                u64 sz = DL->getTypeAllocSize(el);
                if (! first && cur->isVectorTy())
                    sz = DL->getTypeSizeInBits(el) / 8;
                if (auto * ci = dyn_cast<ConstantInt>(ix))
                    c += (u64)ci->getSExtValue() * sz;
                else
                {
                    k.ops.push_back(opnd(ix));
                    k.aux.push_back(sz);
                    k.aux.push_back(DL->getTypeSizeInBits(ix->getType()));
                }
                cur = el;
                first = false;
            }
            k.aux.push_back(c);
            break;
        }
    case Instruction::Trunc:
    case Instruction::ZExt:
    case Instruction::SExt:
        k.k = I.getOpcode() == Instruction::Trunc ? K::Trunc : I.getOpcode() == Instruction::ZExt ? K::ZExt : K::SExt;
        scalarTy(I.getOperand(0)->getType(), k);
        k.w2 = k.w;
        scalarTy(I.getType(), k);
        k.ops = { op(0) };
        break;
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    case Instruction::FPTrunc:
    case Instruction::FPExt:
        k.k = I.getOpcode() == Instruction::FPToUI || I.getOpcode() == Instruction::FPToSI ? K::FToI :
              I.getOpcode() == Instruction::UIToFP || I.getOpcode() == Instruction::SIToFP ? K::IToF :
                                                                                              K::FCast;
        k.sub = I.getOpcode() == Instruction::FPToUI || I.getOpcode() == Instruction::UIToFP;
        scalarTy(I.getOperand(0)->getType(), k);
        k.w2 = k.w;
        scalarTy(I.getType(), k);
        k.ops = { op(0) };
        break;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
        {
            scalarTy(I.getOperand(0)->getType(), k);
            k.w2 = k.w;
            scalarTy(I.getType(), k);
            k.ops = { op(0) };
            k.k = k.w == k.w2 ? K::Move : k.w < k.w2 ? K::Trunc : K::ZExt;
            break;
        }
    case Instruction::Freeze:
    case Instruction::AddrSpaceCast:
        k.k = K::Move;
        k.n = laneCount(I.getType());
        k.ops = { op(0) };
        break;
    case Instruction::BitCast:
        lanesOf(I.getOperand(0)->getType(), 0, k.lanes2);
        lanesOf(I.getType(), 0, k.lanes);
        k.ops = { op(0) };
        k.n = k.lanes.size();
        k.k = k.lanes.size() == k.lanes2.size() ? K::Move : K::BitCast;
        break;
    case Instruction::ExtractElement:
        k.k = K::ExtractElt;
        k.n = laneCount(I.getOperand(0)->getType());
        lanesOf(I.getType(), 0, k.lanes);
        k.ops = { op(0), op(1) };
        break;
    case Instruction::InsertElement:
        k.k = K::InsertElt;
        k.n = laneCount(I.getType());
        lanesOf(I.getOperand(1)->getType(), 0, k.lanes);
        k.ops = { op(0), op(1), op(2) };
        break;
    case Instruction::ShuffleVector:
        {
            auto & S = cast<ShuffleVectorInst>(I);
            k.k = K::Shuffle;
            k.n = laneCount(I.getType());
            u32 n0 = laneCount(I.getOperand(0)->getType());
            k.ops = { op(0), op(1) };
            for (int m : S.getShuffleMask())
                k.aux.push_back(m < 0 ? 0 : (u64)m);
            k.aux.push_back(n0);
            break;
        }
    case Instruction::ExtractValue:
    case Instruction::InsertValue:
        {
            bool ex = I.getOpcode() == Instruction::ExtractValue;
            Type * T = I.getOperand(0)->getType();
            ArrayRef<unsigned> idx = ex ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
            u32 off = 0;
            for (unsigned x : idx)
            {
                if (auto * S = dyn_cast<StructType>(T))
                {
                    for (unsigned j = 0; j < x; j++)
                        off += laneCount(S->getElementType(j));
                    T = S->getElementType(x);
                }
                else
                {
                    T = cast<ArrayType>(T)->getElementType();
                    off += x * laneCount(T);
                }
            }
            k.k = ex ? K::ExtractVal : K::InsertVal;
            k.aux = { off, laneCount(T) };
            k.n = laneCount(I.getOperand(0)->getType());
            k.ops = { op(0) };
            if (! ex)
                k.ops.push_back(op(1));
            break;
        }
    case Instruction::AtomicRMW:
        {
            auto & A = cast<AtomicRMWInst>(I);
            k.k = K::Rmw;
            k.sub = A.getOperation();
            lanesOf(I.getType(), 0, k.lanes);
            k.ops = { op(0), op(1) };
            k.isAtomic = true;
            break;
        }
    case Instruction::AtomicCmpXchg:
        k.k = K::CmpXchg;
        lanesOf(I.getOperand(1)->getType(), 0, k.lanes);
        k.ops = { op(0), op(1), op(2) };
        k.isAtomic = true;
        break;
    case Instruction::Fence: k.k = K::Fence; break;
    case Instruction::LandingPad:
        {
            auto & L = cast<LandingPadInst>(I);
            k.k = K::LandingPad;
            k.sub = L.isCleanup();
            for (unsigned i = 0; i < L.getNumClauses(); i++)
            {
                if (L.isCatch(i))
                {
                    std::vector<Val> l;
                    constLanes(L.getClause(i), l);
                    k.aux.push_back(l[0].c);
                }
                else
                    k.aux.push_back(1); // filter: never matches
            }
            break;
        }
    case Instruction::Resume:
        k.k = K::Resume;
        k.ops = { op(0) };
        break;
    case Instruction::Call:
    case Instruction::Invoke:
        {
            auto & CB = cast<CallBase>(I);
            k.k = K::Call;
            lanesOf(I.getType(), 0, k.lanes);
            k.n = k.lanes.size();
            const Value * cv = CB.getCalledOperand()->stripPointerCasts();
            k.w2 = CB.isInlineAsm();
            const Function * CF = dyn_cast<Function>(cv);
            bool dbg = CF && (CF->getName().starts_with("llvm.dbg") || CF->getName().starts_with("llvm.lifetime") ||
                              CF->getName().starts_with("llvm.experimental.noalias") || CF->getName() == "llvm.assume");
            if (! dbg)
                for (unsigned i = 0; i < CB.arg_size(); i++)
                {
                    Value * a = CB.getArgOperand(i);
                    k.ops.push_back(opnd(a));
                    k.argLanes.push_back(a->getType()->isMetadataTy() ? 0 : laneCount(a->getType()));
                    std::vector<LaneTy> l;
                    lanesOf(a->getType(), 0, l);
                    k.aux.push_back(CB.isByValArgument(i) ? (u64)DL->getTypeAllocSize(CB.getParamByValType(i)) : 0);
                    k.argRaw.push_back(l.empty() ? 0 : l[0].w);
                }
            if (CF)
            {
                k.mnem = CF->getName().data();
                resolveCallee(CF, k);
            }
            else if (k.w2)
                k.handler = asmHandler(cast<InlineAsm>(cv)->getAsmString());
            else
                k.ops.push_back(opnd(CB.getCalledOperand())); // last operand: function pointer
            k.sub = 0;
            if (auto * IV = dyn_cast<InvokeInst>(&I))
            {
                k.sub = 1;
                edge(k, I.getParent(), IV->getNormalDest());
                edge(k, I.getParent(), IV->getUnwindDest());
            }
            break;
        }
    default: break;
    }
    kf.insts.push_back(std::move(k));
}

void translate(KFunc * kf)
{
    Tr t{ *kf, *kf->F, {}, {}, {} };
    t.run();
}
