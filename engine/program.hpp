// LLVM module -> compact pre-decoded form.
#pragma once
#include "engine.hpp"

constexpr uint64_t BASE = 0x10000;
enum { R_GLOBAL = 1, R_FUNC = 2, R_TLS = 3, R_HEAP = 0x10, R_STACK = 0x30 };
inline uint64_t mkAddr(uint32_t region, uint32_t idx, uint64_t off = 0) {
    return ((uint64_t)((region << 24) | idx) << 32) + BASE + off;
}

class Program {
public:
    LLVMContext lc;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    Ctx& cx;
    std::vector<Val> pool;
    std::unordered_map<const Function*, FnInfo*> fns;
    std::vector<FnInfo*> fnList;
    std::unordered_map<const GlobalVariable*, uint64_t> gaddr;
    std::vector<const GlobalVariable*> gList;
    std::unordered_map<uint64_t, const GlobalVariable*> gByAddr;
    std::unordered_map<std::string, int> builtins;

    Program(Ctx& c) : cx(c) {}

    void load(const std::string& path) {
        SMDiagnostic err;
        M = parseIRFile(path, err, lc);
        if (!M) die("cannot read bitcode " + path + ": " + err.getMessage().str());
        DL = &M->getDataLayout();
        // type descriptors of fundamental types live in the C++ runtime: give them a name
        std::vector<GlobalVariable*> ext;
        for (auto& g : M->globals())
            if (!g.hasInitializer() && g.getName().starts_with("_ZTI")) ext.push_back(&g);
        for (auto* g : ext) {
            auto* str = ConstantDataArray::getString(lc, g->getName().substr(4));
            auto* sv = new GlobalVariable(*M, str->getType(), true, GlobalValue::PrivateLinkage, str, "tiname");
            auto* pt = PointerType::get(lc, 0);
            auto* init = ConstantStruct::getAnon({ConstantPointerNull::get(pt), sv});
            auto* ng = new GlobalVariable(*M, init->getType(), true, GlobalValue::InternalLinkage, init, "");
            ng->takeName(g);
            g->replaceAllUsesWith(ng);
            g->eraseFromParent();
        }
        uint32_t gi = 1;
        for (auto& g : M->globals()) {
            gaddr[&g] = mkAddr(R_GLOBAL, gi++);
            gList.push_back(&g);
            gByAddr[gaddr[&g]] = &g;
        }
        uint32_t fi = 1;
        for (auto& F : *M) {
            auto* f = new FnInfo();
            f->F = &F;
            f->name = F.getName().str();
            f->addr = mkAddr(R_FUNC, fi++);
            fns[&F] = f;
            fnList.push_back(f);
        }
    }
    FnInfo* fnAt(uint64_t a) {
        uint32_t id = a >> 32;
        if ((id >> 24) != R_FUNC || (a & 0xffffffff) != BASE) return nullptr;
        uint32_t i = (id & 0xffffff) - 1;
        return i < fnList.size() ? fnList[i] : nullptr;
    }

    void leaves(Type* T, uint32_t off, std::vector<Leaf>& out) {
        if (T->isVoidTy()) return;
        if (auto* ST = dyn_cast<StructType>(T)) {
            auto* L = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++)
                leaves(ST->getElementType(i), off + (uint32_t)L->getElementOffset(i).getFixedValue(), out);
            return;
        }
        if (auto* AT = dyn_cast<ArrayType>(T)) {
            uint64_t es = DL->getTypeAllocSize(AT->getElementType());
            for (uint64_t i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), off + i * es, out);
            return;
        }
        if (auto* VT = dyn_cast<FixedVectorType>(T)) {
            uint64_t eb = DL->getTypeSizeInBits(VT->getElementType());
            for (unsigned i = 0; i < VT->getNumElements(); i++) {
                out.push_back({(uint16_t)eb, (uint32_t)(off + i * ((eb + 7) / 8))});
            }
            return;
        }
        if (T->isX86_FP80Ty()) { out.push_back({80, off}); return; }
        out.push_back({(uint16_t)DL->getTypeSizeInBits(T).getFixedValue(), off});
    }
    unsigned nleaves(Type* T) {
        if (T->isVoidTy()) return 0;
        if (auto* ST = dyn_cast<StructType>(T)) {
            unsigned n = 0;
            for (auto* e : ST->elements()) n += nleaves(e);
            return n;
        }
        if (auto* AT = dyn_cast<ArrayType>(T)) return AT->getNumElements() * nleaves(AT->getElementType());
        if (auto* VT = dyn_cast<FixedVectorType>(T)) return VT->getNumElements();
        return 1;
    }
    Val wide(u128 v, unsigned w) {
        if (w <= 64) return Val((uint64_t)(v & maskw(w)));
        return Val(cx.con(v, w));
    }
    uint64_t constAddr(const Constant* C) {
        std::vector<Val> v;
        flat(C, v);
        if (v.size() != 1 || !v[0].conc()) die("constant address expected");
        return v[0].c;
    }
    void flat(const Constant* C, std::vector<Val>& out) {
        Type* T = C->getType();
        if (isa<UndefValue>(C)) {
            std::vector<Leaf> ls;
            leaves(T, 0, ls);
            for (auto& l : ls) out.push_back(Val(cx.undef(l.w)));
            return;
        }
        if (isa<ConstantAggregateZero>(C)) {
            std::vector<Leaf> ls;
            leaves(T, 0, ls);
            for (auto& l : ls) out.push_back(wide(0, l.w));
            return;
        }
        if (auto* I = dyn_cast<ConstantInt>(C)) {
            u128 v = I->getValue().getRawData()[0];
            if (I->getBitWidth() > 64) v |= (u128)I->getValue().getRawData()[1] << 64;
            out.push_back(wide(v, I->getBitWidth()));
            return;
        }
        if (auto* F = dyn_cast<ConstantFP>(C)) {
            APInt b = F->getValueAPF().bitcastToAPInt();
            u128 v = b.getRawData()[0];
            if (b.getBitWidth() > 64) v |= (u128)b.getRawData()[1] << 64;
            out.push_back(wide(v, b.getBitWidth()));
            return;
        }
        if (isa<ConstantPointerNull>(C) || isa<ConstantTokenNone>(C)) { out.push_back(Val(0)); return; }
        if (auto* A = dyn_cast<ConstantDataSequential>(C)) {
            for (unsigned i = 0; i < A->getNumElements(); i++) flat(A->getElementAsConstant(i), out);
            return;
        }
        if (isa<ConstantAggregate>(C)) {
            for (auto& o : C->operands()) flat(cast<Constant>(&o), out);
            return;
        }
        if (auto* G = dyn_cast<GlobalVariable>(C)) { out.push_back(Val(gaddr[G])); return; }
        if (auto* F = dyn_cast<Function>(C)) { out.push_back(Val(fns[F]->addr)); return; }
        if (auto* A = dyn_cast<GlobalAlias>(C)) { flat(A->getAliasee(), out); return; }
        if (auto* E = dyn_cast<ConstantExpr>(C)) {
            switch (E->getOpcode()) {
                case Instruction::GetElementPtr: {
                    auto* G = cast<GEPOperator>(E);
                    APInt off(64, 0);
                    if (!G->accumulateConstantOffset(*DL, off)) die("constant gep");
                    out.push_back(Val(constAddr(cast<Constant>(G->getPointerOperand())) + (uint64_t)off.getSExtValue()));
                    return;
                }
                case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
                case Instruction::AddrSpaceCast: case Instruction::Trunc: {
                    std::vector<Val> v;
                    flat(E->getOperand(0), v);
                    unsigned w = DL->getTypeSizeInBits(T);
                    if (w < 64) v[0].c &= maskw(w);
                    out.push_back(v[0]);
                    return;
                }
                case Instruction::Sub: case Instruction::Add: {
                    uint64_t a = constAddr(E->getOperand(0)), b = constAddr(E->getOperand(1));
                    out.push_back(Val(E->getOpcode() == Instruction::Sub ? a - b : a + b));
                    return;
                }
                default: break;
            }
        }
        if (isa<DSOLocalEquivalent>(C)) { flat(cast<DSOLocalEquivalent>(C)->getGlobalValue(), out); return; }
        std::string s;
        raw_string_ostream os(s);
        C->print(os);
        die("unsupported constant " + s);
    }

    // ---- function decoding ------------------------------------------------------------------
    struct Dec {
        Program& P;
        FnInfo* f;
        std::unordered_map<const Value*, int32_t> slot;
        std::unordered_map<const BasicBlock*, uint32_t> bbStart;
    };

    int32_t opnd(Dec& d, const Value* v) {
        auto it = d.slot.find(v);
        if (it != d.slot.end()) return it->second;
        if (auto* C = dyn_cast<Constant>(v)) {
            int32_t i = -(int32_t)pool.size() - 1;
            std::vector<Val> t;
            flat(C, t);
            for (auto& x : t) pool.push_back(x);
            d.slot[v] = i;
            return i;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0;
        die("operand without slot in " + d.f->name);
        return 0;
    }
    // operand index + k (slots go up, pool goes down)
    static int32_t opk(int32_t o, unsigned k) { return o >= 0 ? o + (int32_t)k : o - (int32_t)k; }

    unsigned width(Type* T) { return (unsigned)DL->getTypeSizeInBits(T).getFixedValue(); }

    unsigned aggIndex(Type* T, ArrayRef<unsigned> idx, Type*& sub) {
        unsigned n = 0;
        for (unsigned i : idx) {
            if (auto* ST = dyn_cast<StructType>(T)) {
                for (unsigned k = 0; k < i; k++) n += nleaves(ST->getElementType(k));
                T = ST->getElementType(i);
            } else {
                auto* AT = cast<ArrayType>(T);
                n += i * nleaves(AT->getElementType());
                T = AT->getElementType();
            }
        }
        sub = T;
        return n;
    }

    static bool addUnused(const AtomicRMWInst* R) {
        if (R->getOperation() != AtomicRMWInst::Add || !R->use_empty()) return false;
        auto* C = dyn_cast<ConstantInt>(R->getValOperand());
        return C && C->getSExtValue() > 0;
    }

    void decode(FnInfo* f) {
        f->decoded = true;
        Function& F = *f->F;
        Dec d{*this, f};
        uint32_t ns = 0;
        for (auto& a : F.args()) {
            d.slot[&a] = ns;
            ns += nleaves(a.getType());
        }
        f->nargs = ns;
        uint32_t n = 0;
        for (auto& B : F) {
            d.bbStart[&B] = n;
            for (auto& I : B) {
                if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) {
                    d.slot[&I] = ns;
                    ns += nleaves(I.getType());
                } else if (I.getType()->isTokenTy()) {
                    d.slot[&I] = ns++;
                }
                if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                n++;
            }
        }
        f->nslots = ns;
        if (auto* sp = F.getSubprogram()) {
            std::string file = sp->getDirectory().str() + "/" + sp->getFilename().str();
            f->inRepo = sp->getFilename().contains("/repo/") || file.find("/repo/") != std::string::npos;
        }
        for (auto& B : F)
            for (auto& I : B) {
                if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                f->code.emplace_back();
                decodeInst(d, f->code.back(), I);
            }
        liveness(d);
    }

    Edge mkEdge(Dec& d, const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.target = d.bbStart[to];
        for (auto& I : *to) {
            auto* P = dyn_cast<PHINode>(&I);
            if (!P) break;
            int32_t o = opnd(d, P->getIncomingValueForBlock(from));
            unsigned k = nleaves(P->getType());
            for (unsigned j = 0; j < k; j++) e.moves.push_back({d.slot[P] + (int32_t)j, opk(o, j)});
        }
        return e;
    }

    static uint8_t ordBits(AtomicOrdering o) {
        uint8_t r = 0x80;
        if (isAcquireOrStronger(o)) r |= 1;
        if (isReleaseOrStronger(o)) r |= 2;
        return r;
    }

    void decodeInst(Dec& d, Inst& i, const Instruction& I) {
        i.I = &I;
        i.fn = d.f;
        Type* T = I.getType();
        if (!T->isVoidTy()) {
            i.dst = d.slot.count(&I) ? d.slot[&I] : -1;
            i.nd = T->isTokenTy() ? 1 : nleaves(T);
            if (i.nd == 1 && !T->isTokenTy()) i.w = width(T->isVectorTy() ? cast<VectorType>(T)->getElementType() : T);
        }
        bool vec = T->isVectorTy();
        auto unsup = [&] { i.op = I_UNSUP; };
        switch (I.getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv:
            case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And:
            case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
            case Instruction::AShr: {
                i.op = I_BIN;
                static const std::map<unsigned, Op> m = {
                    {Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL},
                    {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM},
                    {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR},
                    {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR},
                    {Instruction::AShr, O_ASHR}};
                i.sub = m.at(I.getOpcode());
                i.a = opnd(d, I.getOperand(0));
                i.b = opnd(d, I.getOperand(1));
                i.w = width(T->getScalarType());
                return;
            }
            case Instruction::ICmp: {
                i.op = I_ICMP;
                i.sub = cast<ICmpInst>(I).getPredicate();
                i.a = opnd(d, I.getOperand(0));
                i.b = opnd(d, I.getOperand(1));
                i.w2 = width(I.getOperand(0)->getType()->getScalarType());
                return;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
            case Instruction::FRem:
                i.op = I_FBIN;
                i.sub = I.getOpcode() - Instruction::FAdd;
                i.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1
                        : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4;
                i.a = opnd(d, I.getOperand(0));
                i.b = opnd(d, I.getOperand(1));
                i.w = width(T->getScalarType());
                return;
            case Instruction::FNeg:
                i.op = I_FNEG;
                i.a = opnd(d, I.getOperand(0));
                i.w = width(T->getScalarType());
                return;
            case Instruction::FCmp:
                i.op = I_FCMP;
                i.sub = cast<FCmpInst>(I).getPredicate();
                i.a = opnd(d, I.getOperand(0));
                i.b = opnd(d, I.getOperand(1));
                i.w2 = width(I.getOperand(0)->getType()->getScalarType());
                return;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt:
            case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
                Type* S = I.getOperand(0)->getType();
                i.a = opnd(d, I.getOperand(0));
                if (I.getOpcode() == Instruction::BitCast) {
                    if (nleaves(S) == nleaves(T)) { i.op = I_COPY; return; }
                    unsup();
                    return;
                }
                i.op = I_CAST;
                i.w = width(T->getScalarType());
                i.w2 = width(S->getScalarType());
                i.sub = I.getOpcode() == Instruction::SExt;
                return;
            }
            case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
            case Instruction::FPTrunc: case Instruction::FPExt:
                i.op = I_FCAST;
                i.sub = I.getOpcode();
                i.a = opnd(d, I.getOperand(0));
                i.w = width(T);
                i.w2 = width(I.getOperand(0)->getType());
                if (vec) unsup();
                return;
            case Instruction::Freeze: i.op = I_FREEZE; i.a = opnd(d, I.getOperand(0)); {
                i.x = new Extra();
                leaves(T, 0, i.x->leaves);
                return;
            }
            case Instruction::Select:
                i.op = I_SELECT;
                i.a = opnd(d, I.getOperand(0));
                i.b = opnd(d, I.getOperand(1));
                i.c = opnd(d, I.getOperand(2));
                i.x = new Extra();
                leaves(T, 0, i.x->leaves);
                if (I.getOperand(0)->getType()->isVectorTy()) unsup();
                return;
            case Instruction::Load: {
                auto& L = cast<LoadInst>(I);
                i.op = I_LOAD;
                i.a = opnd(d, L.getPointerOperand());
                i.x = new Extra();
                leaves(T, 0, i.x->leaves);
                i.x->off = L.getAlign().value() - 1;
                if (L.isAtomic()) { i.ord = ordBits(L.getOrdering()); i.visible = true; }
                return;
            }
            case Instruction::Store: {
                auto& S = cast<StoreInst>(I);
                i.op = I_STORE;
                i.a = opnd(d, S.getPointerOperand());
                i.b = opnd(d, S.getValueOperand());
                i.x = new Extra();
                leaves(S.getValueOperand()->getType(), 0, i.x->leaves);
                i.x->off = S.getAlign().value() - 1;
                if (S.isAtomic()) { i.ord = ordBits(S.getOrdering()); i.visible = true; }
                return;
            }
            case Instruction::Alloca: {
                auto& A = cast<AllocaInst>(I);
                i.op = I_ALLOCA;
                i.x = new Extra();
                i.x->off = DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue();
                i.a = opnd(d, A.getArraySize());
                return;
            }
            case Instruction::GetElementPtr: {
                auto& G = cast<GetElementPtrInst>(I);
                if (vec) { unsup(); return; }
                i.op = I_GEP;
                i.x = new Extra();
                MapVector<Value*, APInt> vo;
                APInt co(64, 0);
                if (!cast<GEPOperator>(G).collectOffset(*DL, 64, vo, co)) { unsup(); return; }
                i.a = opnd(d, G.getPointerOperand());
                i.x->off = co.getSExtValue();
                for (auto& kv : vo) {
                    i.x->gep.push_back({opnd(d, kv.first), (uint64_t)kv.second.getSExtValue()});
                    i.x->gepw.push_back(width(kv.first->getType()));
                }
                return;
            }
            case Instruction::Br: {
                auto& B = cast<BranchInst>(I);
                i.x = new Extra();
                if (B.isUnconditional()) {
                    i.op = I_BR;
                    i.x->edges.push_back(mkEdge(d, I.getParent(), B.getSuccessor(0)));
                } else {
                    i.op = I_CONDBR;
                    i.a = opnd(d, B.getCondition());
                    i.x->edges.push_back(mkEdge(d, I.getParent(), B.getSuccessor(0)));
                    i.x->edges.push_back(mkEdge(d, I.getParent(), B.getSuccessor(1)));
                }
                return;
            }
            case Instruction::Switch: {
                auto& S = cast<SwitchInst>(I);
                i.op = I_SWITCH;
                i.x = new Extra();
                i.a = opnd(d, S.getCondition());
                i.w2 = width(S.getCondition()->getType());
                i.x->edges.push_back(mkEdge(d, I.getParent(), S.getDefaultDest()));
                for (auto& c : S.cases()) {
                    i.x->cases.push_back({c.getCaseValue()->getZExtValue(), (uint32_t)i.x->edges.size()});
                    i.x->edges.push_back(mkEdge(d, I.getParent(), c.getCaseSuccessor()));
                }
                return;
            }
            case Instruction::Ret: {
                i.op = I_RET;
                auto* v = cast<ReturnInst>(I).getReturnValue();
                i.nd = 0;
                i.w2 = 0;
                i.x = new Extra();
                if (v) { i.a = opnd(d, v); i.x->nret = nleaves(v->getType()); }
                return;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto& C = cast<CallBase>(I);
                i.op = I_CALL;
                i.x = new Extra();
                if (C.isInlineAsm()) { // compiler barriers only
                    if (T->isVoidTy() && C.arg_size() == 0) { i.op = I_FENCE; i.sub = 1; return; }
                    unsup();
                    return;
                }
                auto* cal = C.getCalledOperand()->stripPointerCasts();
                if (auto* A = dyn_cast<GlobalAlias>(cal)) cal = A->getAliaseeObject();
                if (auto* F = dyn_cast<Function>(cal)) { i.x->callee = fns[F]; i.visible = i.x->callee->visibleCall; }
                else i.a = opnd(d, C.getCalledOperand());
                for (unsigned k = 0; k < C.arg_size(); k++) {
                    Value* v = C.getArgOperand(k);
                    if (isa<MetadataAsValue>(v)) continue;
                    unsigned nl = v->getType()->isTokenTy() ? 1 : nleaves(v->getType());
                    int32_t o = opnd(d, v);
                    for (unsigned j = 0; j < nl; j++) {
                        i.x->args.push_back(opk(o, j));
                        i.x->argByval.push_back(
                            C.isByValArgument(k) ? (uint32_t)DL->getTypeAllocSize(C.getParamByValType(k)) : 0);
                    }
                }
                if (auto* IV = dyn_cast<InvokeInst>(&I)) {
                    i.invoke = true;
                    i.x->edges.push_back(mkEdge(d, I.getParent(), IV->getNormalDest()));
                    i.x->edges.push_back(mkEdge(d, I.getParent(), IV->getUnwindDest()));
                    auto* LP = IV->getLandingPadInst();
                    i.x->lpCleanup = LP->isCleanup();
                    for (unsigned k = 0; k < LP->getNumClauses(); k++) {
                        LPClause c;
                        c.isCatch = LP->isCatch(k);
                        if (c.isCatch) c.ti.push_back(constAddr(LP->getClause(k)));
                        else {
                            std::vector<Val> v;
                            flat(LP->getClause(k), v);
                            for (auto& x : v) c.ti.push_back(x.c);
                        }
                        i.x->clauses.push_back(c);
                    }
                }
                return;
            }
            case Instruction::Unreachable: i.op = I_UNREACH; return;
            case Instruction::Resume: i.op = I_RESUME; i.a = opnd(d, I.getOperand(0)); return;
            case Instruction::LandingPad: i.op = I_LANDINGPAD; return;
            case Instruction::ExtractValue: {
                auto& E = cast<ExtractValueInst>(I);
                Type* sub;
                unsigned k = aggIndex(E.getAggregateOperand()->getType(), E.getIndices(), sub);
                i.op = I_COPY;
                i.a = opk(opnd(d, E.getAggregateOperand()), k);
                return;
            }
            case Instruction::InsertValue: {
                auto& E = cast<InsertValueInst>(I);
                Type* sub;
                unsigned k = aggIndex(T, E.getIndices(), sub);
                i.op = I_INSERTV;
                i.a = opnd(d, E.getAggregateOperand());
                i.b = opnd(d, E.getInsertedValueOperand());
                i.c = k;
                i.x = new Extra();
                i.x->nret = nleaves(sub);
                return;
            }
            case Instruction::ExtractElement: {
                auto& E = cast<ExtractElementInst>(I);
                auto* ci = dyn_cast<ConstantInt>(E.getIndexOperand());
                if (!ci) { unsup(); return; }
                i.op = I_COPY;
                i.a = opk(opnd(d, E.getVectorOperand()), ci->getZExtValue());
                return;
            }
            case Instruction::InsertElement: {
                auto* ci = dyn_cast<ConstantInt>(I.getOperand(2));
                if (!ci) { unsup(); return; }
                i.op = I_INSERTV;
                i.a = opnd(d, I.getOperand(0));
                i.b = opnd(d, I.getOperand(1));
                i.c = ci->getZExtValue();
                i.x = new Extra();
                i.x->nret = 1;
                return;
            }
            case Instruction::AtomicRMW: {
                auto& R = cast<AtomicRMWInst>(I);
                i.op = I_RMW;
                i.sub = R.getOperation();
                i.a = opnd(d, R.getPointerOperand());
                i.b = opnd(d, R.getValOperand());
                i.ord = ordBits(R.getOrdering());
                i.visible = !addUnused(&R);
                i.w = width(T);
                return;
            }
            case Instruction::AtomicCmpXchg: {
                auto& R = cast<AtomicCmpXchgInst>(I);
                i.op = I_CMPXCHG;
                i.a = opnd(d, R.getPointerOperand());
                i.b = opnd(d, R.getCompareOperand());
                i.c = opnd(d, R.getNewValOperand());
                i.ord = ordBits(R.getSuccessOrdering());
                i.visible = true;
                i.w = width(R.getCompareOperand()->getType());
                return;
            }
            case Instruction::Fence: i.op = I_FENCE; i.ord = ordBits(cast<FenceInst>(I).getOrdering()); return;
            default: unsup(); return;
        }
    }

    void liveness(Dec& d) {
        FnInfo* f = d.f;
        Function& F = *f->F;
        // live-in per block over SSA values
        std::unordered_map<const BasicBlock*, std::unordered_set<const Value*>> in, out;
        bool ch = true;
        std::vector<const BasicBlock*> order;
        for (auto& B : F) order.push_back(&B);
        auto use = [&](std::unordered_set<const Value*>& s, const Value* v) {
            if (isa<Instruction>(v) || isa<Argument>(v)) s.insert(v);
        };
        auto blockIn = [&](const BasicBlock* B, std::unordered_set<const Value*> live) {
            for (auto it = B->rbegin(); it != B->rend(); ++it) {
                const Instruction& I = *it;
                live.erase(&I);
                if (isa<PHINode>(I)) continue;
                for (auto& o : I.operands()) use(live, o.get());
            }
            return live;
        };
        auto outOf = [&](const BasicBlock* B) {
            std::unordered_set<const Value*> o;
            for (auto* S : successors(B)) {
                for (auto* v : in[S]) o.insert(v);
                for (auto& I : *S) {
                    auto* P = dyn_cast<PHINode>(&I);
                    if (!P) break;
                    use(o, P->getIncomingValueForBlock(B));
                }
            }
            return o;
        };
        while (ch) {
            ch = false;
            for (auto it = order.rbegin(); it != order.rend(); ++it) {
                auto n = blockIn(*it, outOf(*it));
                if (n.size() != in[*it].size()) { in[*it] = std::move(n); ch = true; }
            }
        }
        for (auto* B : order) {
            auto live = outOf(B);
            uint32_t idx = d.bbStart[B], cnt = 0;
            for (auto& I : *B)
                if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) cnt++;
            uint32_t k = idx + cnt;
            for (auto it = B->rbegin(); it != B->rend(); ++it) {
                const Instruction& I = *it;
                if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                --k;
                live.erase(&I);
                Inst& in_ = f->code[k];
                bool want = in_.visible || in_.op == I_CALL;
                // operands of a pending call are only needed before it starts; keep them (small)
                for (auto& o : I.operands()) use(live, o.get());
                if (want) {
                    in_.live = new std::vector<uint32_t>();
                    for (auto* v : live) {
                        auto s = d.slot.find(v);
                        if (s == d.slot.end() || s->second < 0) continue;
                        unsigned n = v->getType()->isTokenTy() ? 1 : nleaves(v->getType());
                        for (unsigned j = 0; j < n; j++) in_.live->push_back(s->second + j);
                    }
                    std::sort(in_.live->begin(), in_.live->end());
                }
            }
        }
    }
};
