#include "engine.h"
using namespace llvm;

// ---------------------------------------------------------------- types & constants
void Engine::flatten(Type* t, std::vector<Leaf>& out, uint64_t off) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 128) throw Unsupported{"int width " + std::to_string(w)}; out.push_back({w, off}); return; }
    if (t->isPointerTy()) { out.push_back({64, off}); return; }
    if (t->isFloatTy()) { out.push_back({32, off}); return; }
    if (t->isDoubleTy()) { out.push_back({64, off}); return; }
    if (t->isHalfTy() || t->isBFloatTy()) { out.push_back({16, off}); return; }
    if (t->isX86_FP80Ty()) { out.push_back({80, off}); return; }
    if (t->isFP128Ty()) { out.push_back({128, off}); return; }
    if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), out, off + L->getElementOffset(i)); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), out, off + i * sz); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t bits = DL->getTypeSizeInBits(v->getElementType()); if (bits % 8) { for (unsigned i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), out, off); return; } for (uint64_t i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), out, off + i * bits / 8); return; }
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
    std::string s; raw_string_ostream os(s); t->print(os);
    throw Unsupported{"type " + s};
}
static u128 apToU(const APInt& a) { u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v & maskw(a.getBitWidth()); }

uint64_t Engine::globalAddr(const GlobalValue* g) {
    if (auto* al = dyn_cast<GlobalAlias>(g)) { std::vector<Val> v; constVals(al->getAliasee(), v); return v[0].c; }
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    throw Unsupported{"global " + g->getName().str()};
}
void Engine::constVals(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    auto push = [&](u128 v, unsigned w) { if (w <= 64) out.push_back({nullptr, (uint64_t)(v & maskw(w))}); else out.push_back({X.cst(v, w), 0}); };
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { std::vector<Leaf> l; flatten(t, l); for (auto& x : l) push(0, x.w); return; }
    if (auto* i = dyn_cast<ConstantInt>(c)) { 
        if (t->isVectorTy()) { std::vector<Leaf> l; flatten(t, l); for (auto& x : l) push(apToU(i->getValue()), x.w); return; }
        push(apToU(i->getValue()), t->getIntegerBitWidth()); return; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); std::vector<Leaf> l; flatten(t, l); for (auto& x : l) push(apToU(a), x.w); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { push(globalAddr(g), 64); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) constVals(d->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        std::vector<Val> a, b;
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constexpr gep"};
                constVals(ce->getOperand(0), a); push(a[0].c + off.getZExtValue(), 64); return; }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
                constVals(ce->getOperand(0), a); std::vector<Leaf> l; flatten(t, l); push(a[0].c, l[0].w); return; }
            case Instruction::Add: case Instruction::Sub: case Instruction::Xor: {
                constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b);
                uint64_t r = ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : ce->getOpcode() == Instruction::Sub ? a[0].c - b[0].c : a[0].c ^ b[0].c; push(r, t->getIntegerBitWidth()); return; }
        }
    }
    if (auto* no = dyn_cast<NoCFIValue>(c)) { push(globalAddr(no->getGlobalValue()), 64); return; }
    if (auto* de = dyn_cast<DSOLocalEquivalent>(c)) { push(globalAddr(de->getGlobalValue()), 64); return; }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw Unsupported{"constant " + s};
}
int32_t Engine::constOp(const Constant* c) {
    static std::unordered_map<const Constant*, int32_t> memo;
    auto it = memo.find(c); if (it != memo.end()) return it->second;
    std::vector<Val> v; constVals(c, v);
    int32_t idx = ~(int32_t)consts.size(); // operand of leaf i is idx - i
    // leaves are stored so that ~(idx - i) = base + i
    for (auto& x : v) consts.push_back(x);
    if (v.empty()) consts.push_back({nullptr, 0});
    memo[c] = idx; return idx;
}
static inline int32_t leafOp(int32_t o, int i) { return o >= 0 ? o + i : o - i; }

// ---------------------------------------------------------------- loading
Fn* Engine::getFn(Function* f) {
    auto it = fns.find(f); if (it != fns.end()) return it->second;
    Fn* n = new Fn(); n->F = f; n->name = f->getName().str(); fns[f] = n;
    return n;
}
void Engine::initGlobal(Mem& m, uint64_t id, uint64_t off, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    Type* t = c->getType();
    Obj* o = m.getw(id);
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { auto s = d->getRawDataValues(); memcpy(o->d + off, s.data(), s.size()); return; }
    if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(m, id, off + L->getElementOffset(i), s->getOperand(i)); return; }
    if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(m, id, off + i * sz, a->getOperand(i)); return; }
    std::vector<Leaf> l; flatten(t, l); std::vector<Val> v; constVals(c, v);
    for (size_t i = 0; i < l.size(); i++) { u128 x = v[i].e ? v[i].e->c : v[i].c; for (unsigned k = 0; k < (l[i].w + 7) / 8; k++) o->d[off + l[i].off + k] = (uint8_t)(x >> (8 * k)); }
}
static Mem* initMem;
void Engine::load(const std::string& bc) {
    SMDiagnostic err; M = parseIRFile(bc, err, lctx);
    if (!M) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); exit(2); }
    DL = &M->getDataLayout();
    registerBuiltins();
    initMem = new Mem();
    for (auto& f : *M) {
        Fn* n = getFn(&f);
        Obj* o = Obj::make(1, OK_FUNC, false); uint64_t id = initMem->alloc(o);
        gaddr[&f] = addrOf(id); fnById[id] = n; n->id = id; nameById[id] = n->name;
        if (auto* sp = f.getSubprogram()) { n->file = (sp->getDirectory().empty() || sp->getFilename().starts_with("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str(); n->repo = n->file.find("/repo/") != std::string::npos || getenv("DSYM_REPO") && n->file.find(getenv("DSYM_REPO")) != std::string::npos; }
    }
    for (auto& g : M->globals()) {
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
        bool ext = g.isDeclaration();
        if (ext && sz < 128) sz = 128;
        Obj* o = Obj::make(sz, ext ? OK_EXT : g.isConstant() ? OK_CONST : OK_GLOBAL, false);
        uint64_t id = initMem->alloc(o); gaddr[&g] = addrOf(id); gByName[g.getName().str()] = id; nameById[id] = g.getName().str();
    }
    for (auto& g : M->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used" && g.getName() != "llvm.global_dtors")
        initGlobal(*initMem, gaddr[&g] >> OFFBITS, 0, g.getInitializer());
    if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (auto* a = dyn_cast_or_null<ConstantArray>(g->getInitializer())) {
        std::vector<std::pair<uint64_t, Fn*>> v;
        for (auto& op : a->operands()) { auto* s = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), getFn(f)}); }
        std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
        for (auto& p : v) starts.push_back(p.second);
    }
}

// ---------------------------------------------------------------- function preparation
void Engine::prepare(Fn* f) {
    if (f->prepared) return; f->prepared = true;
    Function& F = *f->F;
    std::unordered_map<const Value*, int32_t> slot; unsigned ns = 0;
    auto leavesOf = [&](Type* t) { std::vector<Leaf> l; flatten(t, l); return l; };
    for (auto& a : F.args()) { slot[&a] = ns; ns += leavesOf(a.getType()).size(); }
    f->nargs = ns;
    std::unordered_map<const BasicBlock*, uint32_t> bstart;
    for (auto& bb : F) for (auto& i : bb) if (!i.getType()->isVoidTy()) { slot[&i] = ns; ns += std::max<size_t>(1, leavesOf(i.getType()).size()); }
    f->nslots = ns;
    auto op = [&](const Value* v) -> int32_t { if (auto* c = dyn_cast<Constant>(v)) return constOp(c); auto it = slot.find(v); if (it == slot.end()) throw Unsupported{"operand"}; return it->second; };
    std::vector<std::tuple<size_t, const BasicBlock*, unsigned, unsigned>> fix; // ins idx, target, edge idx
    auto mkEdge = [&](Aux* x, const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.pc = 0;
        for (auto& phi : to->phis()) {
            const Value* v = phi.getIncomingValueForBlock(from);
            int n = (int)leavesOf(phi.getType()).size();
            int32_t s = op(v), d = slot[&phi];
            for (int k = 0; k < n; k++) { int32_t sk = leafOp(s, k); if (sk != d + k) e.copies.push_back({d + k, sk, 0}); }
        }
        // detect need of parallel copy: mark third=1 on first when any src is a dst
        bool par = false; for (auto& c : e.copies) for (auto& d : e.copies) if (c[1] == d[0]) par = true;
        if (par && !e.copies.empty()) e.copies[0][2] = 1;
        x->edges.push_back(e);
        fix.push_back({f->code.size(), to, (unsigned)x->edges.size() - 1, 0});
    };
    for (auto& bb : F) {
        bstart[&bb] = f->code.size();
        for (auto& I : bb) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Ins in{}; in.src = &I; in.n = 1; in.dst = I.getType()->isVoidTy() ? (int32_t)NOSLOT : slot[&I];
            try {
                switch (I.getOpcode()) {
                    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
                    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
                        auto l = leavesOf(I.getType()); in.n = l.size(); in.w = l[0].w; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1));
                        in.op = I_BIN;
                        switch (I.getOpcode()) { case Instruction::Add: in.sub = ADD; break; case Instruction::Sub: in.sub = SUB; break; case Instruction::Mul: in.sub = MUL; break; case Instruction::And: in.sub = AND; break;
                            case Instruction::Or: in.sub = OR; break; case Instruction::Xor: in.sub = XOR; break; case Instruction::Shl: in.sub = SHL; break; case Instruction::LShr: in.sub = LSHR; break; case Instruction::AShr: in.sub = ASHR; break;
                            case Instruction::UDiv: in.sub = UDIV; in.op = I_DIVREM; break; case Instruction::SDiv: in.sub = SDIV; in.op = I_DIVREM; break; case Instruction::URem: in.sub = UREM; in.op = I_DIVREM; break; case Instruction::SRem: in.sub = SREM; in.op = I_DIVREM; break; }
                        break; }
                    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                        auto l = leavesOf(I.getType()); in.n = l.size(); in.w = l[0].w; if (in.w != 32 && in.w != 64) throw Unsupported{"fp width"}; in.op = I_FBIN; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1));
                        in.sub = I.getOpcode() == Instruction::FAdd ? FADD : I.getOpcode() == Instruction::FSub ? FSUB : I.getOpcode() == Instruction::FMul ? FMUL : I.getOpcode() == Instruction::FDiv ? FDIV : FREM; break; }
                    case Instruction::FNeg: { auto l = leavesOf(I.getType()); in.n = l.size(); in.w = l[0].w; in.op = I_FNEG; in.a = op(I.getOperand(0)); break; }
                    case Instruction::ICmp: { auto l = leavesOf(I.getOperand(0)->getType()); in.n = l.size(); in.w = l[0].w; in.op = I_ICMP; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.sub = cast<ICmpInst>(I).getPredicate(); break; }
                    case Instruction::FCmp: { auto l = leavesOf(I.getOperand(0)->getType()); in.n = l.size(); in.w = l[0].w; if (in.w != 32 && in.w != 64) throw Unsupported{"fp width"}; in.op = I_FCMP; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.sub = cast<FCmpInst>(I).getPredicate(); break; }
                    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: {
                        auto l = leavesOf(I.getType()), l2 = leavesOf(I.getOperand(0)->getType()); in.n = l.size(); in.w = l[0].w; in.w2 = l2[0].w; in.op = I_CAST; in.sub = I.getOpcode(); in.a = op(I.getOperand(0));
                        if (I.getOpcode() == Instruction::FPTrunc || I.getOpcode() == Instruction::FPExt || I.getOpcode() == Instruction::SIToFP || I.getOpcode() == Instruction::UIToFP) if (in.w != 32 && in.w != 64) throw Unsupported{"fp width"};
                        break; }
                    case Instruction::AddrSpaceCast: case Instruction::BitCast: {
                        in.op = I_BITCAST; in.x = new Aux(); in.x->leaves = leavesOf(I.getOperand(0)->getType()); auto l = leavesOf(I.getType()); for (auto& y : l) in.x->retw.push_back(y.w); in.a = op(I.getOperand(0)); in.n = l.size();
                        break; }
                    case Instruction::Select: { auto l = leavesOf(I.getType()); in.op = I_SELECT; in.n = l.size(); in.x = new Aux(); in.x->leaves = l; in.fl = I.getOperand(0)->getType()->isVectorTy(); in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); break; }
                    case Instruction::Load: { in.op = I_LOAD; in.x = new Aux(); in.x->leaves = leavesOf(I.getType()); in.n = in.x->leaves.size(); in.a = op(cast<LoadInst>(I).getPointerOperand()); in.fl = cast<LoadInst>(I).isAtomic(); break; }
                    case Instruction::Store: { auto& st = cast<StoreInst>(I); in.op = I_STORE; in.x = new Aux(); in.x->leaves = leavesOf(st.getValueOperand()->getType()); in.n = in.x->leaves.size(); in.a = op(st.getPointerOperand()); in.b = op(st.getValueOperand()); in.fl = st.isAtomic(); break; }
                    case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(al.getAllocatedType()); in.a = op(al.getArraySize()); break; }
                    case Instruction::GetElementPtr: {
                        in.op = I_GEP; in.x = new Aux(); auto* g = cast<GEPOperator>(&I); if (g->getType()->isVectorTy()) throw Unsupported{"vector gep"};
                        in.a = op(g->getPointerOperand()); uint64_t off = 0;
                        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                            Value* idx = gi.getOperand();
                            if (auto* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                            uint64_t sz = gi.getSequentialElementStride(*DL);
                            if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += sz * (uint64_t)ci->getSExtValue(); continue; }
                            in.x->gep.push_back({op(idx), (int64_t)idx->getType()->getIntegerBitWidth(), (int64_t)sz});
                        }
                        in.imm = off; break; }
                    case Instruction::Br: { auto& b = cast<BranchInst>(I); in.x = new Aux(); if (b.isConditional()) { in.op = I_CBR; in.a = op(b.getCondition()); } else in.op = I_BR; for (unsigned k = 0; k < b.getNumSuccessors(); k++) mkEdge(in.x, &bb, b.getSuccessor(k)); break; }
                    case Instruction::Switch: { auto& sw = cast<SwitchInst>(I); in.op = I_SWITCH; in.x = new Aux(); in.a = op(sw.getCondition()); in.w = sw.getCondition()->getType()->getIntegerBitWidth(); mkEdge(in.x, &bb, sw.getDefaultDest()); for (auto& c : sw.cases()) { mkEdge(in.x, &bb, c.getCaseSuccessor()); in.x->cases.push_back({apToU(c.getCaseValue()->getValue()), (unsigned)in.x->edges.size() - 1}); } break; }
                    case Instruction::Ret: { in.op = I_RET; if (I.getNumOperands()) { in.n = leavesOf(I.getOperand(0)->getType()).size(); in.a = op(I.getOperand(0)); } else in.n = 0; break; }
                    case Instruction::Unreachable: in.op = I_UNREACH; break;
                    case Instruction::ExtractValue: { auto& ev = cast<ExtractValueInst>(I); in.op = I_COPY; unsigned base = 0; Type* t = ev.getAggregateOperand()->getType(); for (unsigned ix : ev.indices()) { unsigned k = 0; if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) k += leavesOf(st->getElementType(q)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); k = ix * leavesOf(t).size(); } base += k; } in.n = leavesOf(t).size(); in.a = leafOp(op(ev.getAggregateOperand()), base); break; }
                    case Instruction::InsertValue: { auto& ev = cast<InsertValueInst>(I); in.op = I_INSERT; unsigned base = 0; Type* t = ev.getAggregateOperand()->getType(); in.n = leavesOf(t).size(); for (unsigned ix : ev.indices()) { unsigned k = 0; if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) k += leavesOf(st->getElementType(q)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); k = ix * leavesOf(t).size(); } base += k; } in.imm = base; in.c = leavesOf(t).size(); in.a = op(ev.getAggregateOperand()); in.b = op(ev.getInsertedValueOperand()); break; }
                    case Instruction::ExtractElement: { in.op = I_EXTELT; in.n = leavesOf(I.getOperand(0)->getType()).size(); in.w = leavesOf(I.getType())[0].w; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); break; }
                    case Instruction::InsertElement: { in.op = I_INSELT; in.n = leavesOf(I.getType()).size(); in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); break; }
                    case Instruction::ShuffleVector: {
                        auto& sv = cast<ShuffleVectorInst>(I); in.op = I_COPY; in.x = new Aux(); int n0 = leavesOf(I.getOperand(0)->getType()).size(); int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1));
                        for (int m : sv.getShuffleMask()) in.x->args.push_back(m < 0 ? leafOp(a, 0) : m < n0 ? leafOp(a, m) : leafOp(b, m - n0)); in.n = in.x->args.size(); break; }
                    case Instruction::Freeze: { auto l = leavesOf(I.getType()); in.op = I_FREEZE; in.n = l.size(); in.x = new Aux(); in.x->leaves = l; in.a = op(I.getOperand(0)); break; }
                    case Instruction::LandingPad: { auto& lp = cast<LandingPadInst>(I); in.op = I_LPAD; in.x = new Aux(); in.x->cleanup = lp.isCleanup();
                        for (unsigned k = 0; k < lp.getNumClauses(); k++) { if (lp.isCatch(k)) { std::vector<Val> v; constVals(lp.getClause(k), v); in.x->clauses.push_back({0, v[0].c}); } else in.x->clauses.push_back({1, 0}); } break; }
                    case Instruction::Resume: in.op = I_RESUME; in.a = op(I.getOperand(0)); break;
                    case Instruction::Fence: in.op = I_NOP; break;
                    case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); in.op = I_RMW; in.w = leavesOf(I.getType())[0].w; in.sub = r.getOperation(); in.a = op(r.getPointerOperand()); in.b = op(r.getValOperand()); break; }
                    case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(I); in.op = I_CMPXCHG; in.w = leavesOf(r.getCompareOperand()->getType())[0].w; in.a = op(r.getPointerOperand()); in.b = op(r.getCompareOperand()); in.c = op(r.getNewValOperand()); break; }
                    case Instruction::Call: case Instruction::Invoke: {
                        auto& cb = cast<CallBase>(I); in.op = I.getOpcode() == Instruction::Call ? I_CALL : I_INVOKE; in.x = new Aux();
                        if (cb.isInlineAsm()) { if (cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty()) { in.op = I_NOP; if (!I.getType()->isVoidTy() && cb.arg_size() == 1) { in.op = I_COPY; in.n = leavesOf(I.getType()).size(); in.a = op(cb.getArgOperand(0)); } break; } throw Unsupported{"inline asm"}; }
                        Function* cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
                        if (!cf) if (auto* al = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliaseeObject());
                        if (cf && cf->isIntrinsic()) {
                            auto nm = cf->getName();
                            if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.va_end") || nm.starts_with("llvm.stackrestore") || nm == "llvm.donothing") { in.op = I_NOP; break; }
                            if (nm.starts_with("llvm.stacksave")) { in.op = I_COPY; in.n = 1; in.a = constOp(ConstantInt::get(Type::getInt64Ty(lctx), 0)); break; }
                            if (nm.starts_with("llvm.expect") || nm.starts_with("llvm.launder") || nm.starts_with("llvm.strip") || nm.starts_with("llvm.threadlocal.address") || nm.starts_with("llvm.ssa.copy") || nm.starts_with("llvm.ptr.annotation")) { in.op = I_COPY; in.n = 1; in.a = op(cb.getArgOperand(0)); break; }
                        }
                        unsigned li = 0;
                        for (unsigned k = 0; k < cb.arg_size(); k++) {
                            Value* a = cb.getArgOperand(k); if (a->getType()->isMetadataTy()) continue;
                            auto l = leavesOf(a->getType()); int32_t o = op(a);
                            if (cb.isByValArgument(k)) in.x->byval.push_back({li, (uint64_t)DL->getTypeAllocSize(cb.getParamByValType(k))});
                            for (size_t q = 0; q < l.size(); q++) { in.x->args.push_back(leafOp(o, q)); in.x->argw.push_back(l[q].w); li++; }
                            if (k + 1 == cb.getFunctionType()->getNumParams()) in.x->nfixedLeaves = li;
                        }
                        if (cb.getFunctionType()->getNumParams() == 0) in.x->nfixedLeaves = 0;
                        auto rl = leavesOf(I.getType()); in.x->retLeaves = rl.size(); for (auto& r : rl) in.x->retw.push_back(r.w);
                        in.w = rl.empty() ? 0 : rl[0].w;
                        if (cf) {
                            in.x->callee = getFn(cf);
                            if (cf->isDeclaration()) { uint64_t imm = 0; in.x->biName = cf->getName().str(); in.x->bi = lookupBuiltin(in.x->biName, imm); in.x->bimm = imm; }
                            else { auto it = bis.find(cf->getName().str()); (void)it; }
                        } else in.x->calleeOp = op(cb.getCalledOperand());
                        if (auto* iv = dyn_cast<InvokeInst>(&I)) { mkEdge(in.x, &bb, iv->getNormalDest()); mkEdge(in.x, &bb, iv->getUnwindDest()); }
                        break; }
                    default: throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
                }
            } catch (Unsupported& u) { in.op = I_UNSUP; in.x = new Aux(); in.x->biName = u.msg; }
            f->code.push_back(in);
        }
    }
    for (auto& [ci, bbp, ei, z] : fix) f->code[ci].x->edges[ei].pc = bstart[bbp];
}

// ---------------------------------------------------------------- value ops
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; unsigned s = 64 - w; return ((int64_t)(v << s)) >> s; }
Val Engine::binop(Op op, unsigned w, const Val& a, const Val& b) {
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c, r;
        switch (op) {
            case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
            case SHL: r = y >= w ? 0 : x << y; break; case LSHR: r = y >= w ? 0 : x >> y; break; case ASHR: r = (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
            case UDIV: r = y ? x / y : ~0ull; break; case UREM: r = y ? x % y : x; break;
            default: return fromE(X.cst(Exprs::ev(op, w, 0, w, x, y, 0, w), w));
        }
        return {nullptr, r & m64(w)};
    }
    return fromE(X.bin(op, toE(a, w), toE(b, w)));
}
Val Engine::cmpop(Op op, unsigned w, const Val& a, const Val& b) {
    if (!a.e && !b.e && w <= 64) {
        bool r;
        switch (op) { case EQ: r = a.c == b.c; break; case ULT: r = a.c < b.c; break; case ULE: r = a.c <= b.c; break; case SLT: r = sx(a.c, w) < sx(b.c, w); break; case SLE: r = sx(a.c, w) <= sx(b.c, w); break; default: r = (bool)Exprs::ev(op, 1, 0, w, a.c, b.c, 0, w); }
        return {nullptr, r};
    }
    if (S.realMode && op >= FEQ && op <= FLE && w <= 64) { // reals are finite: decide comparisons with a non-finite constant
        auto nf = [&](const Val& v, int& k) { if (v.e) return false; double d = Exprs::asD(v.c, w); if (std::isfinite(d)) return false; k = d != d ? 0 : d > 0 ? 1 : -1; return true; }; int k;
        if (nf(b, k)) return {nullptr, (uint64_t)(k == 1 && op != FEQ)};
        if (nf(a, k)) return {nullptr, (uint64_t)(k == -1 && op != FEQ)};
        if (op != FLT && a.e == b.e && a.e) return {nullptr, 1};
    }
    return fromE(X.bin(op, toE(a, w), toE(b, w)));
}
Val Engine::icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
    switch (p) {
        case CmpInst::ICMP_EQ: return cmpop(EQ, w, a, b);
        case CmpInst::ICMP_NE: return binop(XOR, 1, cmpop(EQ, w, a, b), {nullptr, 1});
        case CmpInst::ICMP_ULT: return cmpop(ULT, w, a, b); case CmpInst::ICMP_ULE: return cmpop(ULE, w, a, b);
        case CmpInst::ICMP_UGT: return cmpop(ULT, w, b, a); case CmpInst::ICMP_UGE: return cmpop(ULE, w, b, a);
        case CmpInst::ICMP_SLT: return cmpop(SLT, w, a, b); case CmpInst::ICMP_SLE: return cmpop(SLE, w, a, b);
        case CmpInst::ICMP_SGT: return cmpop(SLT, w, b, a); case CmpInst::ICMP_SGE: return cmpop(SLE, w, b, a);
    }
    throw Unsupported{"icmp"};
}
Val Engine::fcmp(unsigned p, unsigned w, const Val& a, const Val& b) {
    auto N = [&](Val v) { return binop(XOR, 1, v, {nullptr, 1}); };
    auto O = [&](Val x, Val y) { return binop(OR, 1, x, y); };
    auto eq = [&] { return cmpop(FEQ, w, a, b); }; auto lt = [&] { return cmpop(FLT, w, a, b); }; auto gt = [&] { return cmpop(FLT, w, b, a); };
    auto le = [&] { return cmpop(FLE, w, a, b); }; auto ge = [&] { return cmpop(FLE, w, b, a); };
    auto uno = [&] { if (S.realMode) return Val{nullptr, 0}; return O(N(cmpop(FEQ, w, a, a)), N(cmpop(FEQ, w, b, b))); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return {nullptr, 0}; case CmpInst::FCMP_TRUE: return {nullptr, 1};
        case CmpInst::FCMP_OEQ: return eq(); case CmpInst::FCMP_OLT: return lt(); case CmpInst::FCMP_OGT: return gt(); case CmpInst::FCMP_OLE: return le(); case CmpInst::FCMP_OGE: return ge();
        case CmpInst::FCMP_ONE: return O(lt(), gt()); case CmpInst::FCMP_ORD: return N(uno()); case CmpInst::FCMP_UNO: return uno();
        case CmpInst::FCMP_UEQ: return N(O(lt(), gt())); case CmpInst::FCMP_UNE: return N(eq());
        case CmpInst::FCMP_ULT: return N(ge()); case CmpInst::FCMP_ULE: return N(gt()); case CmpInst::FCMP_UGT: return N(le()); case CmpInst::FCMP_UGE: return N(lt());
    }
    throw Unsupported{"fcmp"};
}
Val Engine::select(const Val& c, const Val& t, const Val& f, unsigned w) {
    if (!c.e) return c.c & 1 ? t : f;
    if (!t.e && !f.e && t.c == f.c) return t;
    return fromE(X.ite(c.e, toE(t, w), toE(f, w)));
}
Val Engine::castop(unsigned op, unsigned wf, unsigned wt, const Val& a) {
    switch (op) {
        case Instruction::Trunc: if (!a.e) return {nullptr, a.c & m64(wt)}; return fromE(X.extract(a.e, 0, wt));
        case Instruction::ZExt: if (!a.e && wt <= 64) return a; return fromE(X.zext(toE(a, wf), wt));
        case Instruction::SExt: if (!a.e && wt <= 64) return {nullptr, (uint64_t)sx(a.c, wf) & m64(wt)}; return fromE(X.sext(toE(a, wf), wt));
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (wf == wt) return a; if (wt < wf) return castop(Instruction::Trunc, wf, wt, a); return castop(Instruction::ZExt, wf, wt, a);
        case Instruction::FPTrunc: return fromE(X.un(FTRUNC, wt, toE(a, wf))); case Instruction::FPExt: return fromE(X.un(FEXT, wt, toE(a, wf)));
        case Instruction::FPToSI: return fromE(X.un(FPTOSI, wt, toE(a, wf))); case Instruction::FPToUI: return fromE(X.un(FPTOUI, wt, toE(a, wf)));
        case Instruction::SIToFP: return fromE(X.un(SITOFP, wt, toE(a, wf))); case Instruction::UIToFP: return fromE(X.un(UITOFP, wt, toE(a, wf)));
    }
    throw Unsupported{"cast"};
}

// ---------------------------------------------------------------- path conditions
void Engine::slice(State& s, E c, std::vector<E>& out) {
    static std::vector<uint32_t> mark; static uint32_t stamp = 0; stamp++;
    if (mark.size() < X.vars.size()) mark.resize(X.vars.size() + 64, 0);
    for (uint32_t v : X.varsOf(c)) mark[v] = stamp;
    std::vector<char> in(s.cons.size(), 0); bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.cons.size(); i++) if (!in[i]) {
            auto& vs = X.varsOf(s.cons[i]); bool hit = false;
            for (uint32_t v : vs) if (mark[v] == stamp) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; for (uint32_t v : vs) mark[v] = stamp; out.push_back(s.cons[i]); }
        }
    }
}
// inputs that reach a point the encoding cannot decide; the driver runs them on the compiled code
void Engine::partial(State& s) {
    if (partials.size() >= 16) return; std::string j = "{\"inputs\":["; bool f = true;
    for (uint32_t i : s.inputs) { j += std::string(f ? "" : ",") + "[\"" + inName(i) + "\"," + std::to_string(X.vars[i].w) + "," + std::to_string(i < s.model->size() ? (*s.model)[i] : 0) + "]"; f = false; }
    j += "]}"; for (auto& x : partials) if (x == j) return; partials.push_back(j);
}
Res Engine::query(State& s, E c, std::vector<std::pair<uint32_t, uint64_t>>* asg) {
    std::vector<E> cs; slice(s, c, cs); cs.push_back(c);
    Res r = S.check(cs, asg);
    if (r == UNKNOWN) { partial(s); limitHits++; static int n = 0; if (n++ < 5) fprintf(stderr, "dsym: solver returned unknown (%zu constraints) %s\n", cs.size(), X.str(c).c_str()); }
    return r;
}
ModelP Engine::overlay(const ModelP& m, const std::vector<std::pair<uint32_t, uint64_t>>& asg) {
    auto n = std::make_shared<Model>(*m);
    for (auto& p : asg) { if (n->size() <= p.first) n->resize(p.first + 1, 0); (*n)[p.first] = p.second; }
    return n;
}
void Engine::addCons(State& s, E c) {
    if (Exprs::isC(c)) return;
    if (c->op == AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
    for (E x : s.cons) if (x == c) return;
    s.cons.push_back(c);
}
State* Engine::cloneState(State& s) { State* n = new State(s); n->id = nextState++; if (n->acc) n->acc = std::make_shared<std::unordered_map<uint64_t, Access>>(*n->acc); forks++; return n; }
bool Engine::branch(State& s, E c, bool uninitOk) {
    if (Exprs::isC(c)) return c->c;
    bool d = (bool)S.evalUnder(c, *s.model);
    E pos = d ? c : X.not1(c), neg = d ? X.not1(c) : c;
    if (S.realMode && (c->flags & XF_FP)) {
        std::vector<std::pair<uint32_t, uint64_t>> a1; Res r = query(s, pos, &a1);
        if (r == UNSAT) { // model evaluation was inexact
            std::vector<std::pair<uint32_t, uint64_t>> a2; if (query(s, neg, &a2) == UNSAT) throw Kill(); s.model = overlay(s.model, a2); addCons(s, neg); return !d; }
        if (r == SAT) s.model = overlay(s.model, a1);
    }
    std::vector<std::pair<uint32_t, uint64_t>> asg;
    Res r = query(s, neg, &asg);
    if (r == SAT) {
        if (uninitCheck && !uninitOk && (c->flags & XF_UNINIT)) {
            // does the decision really depend on uninitialised data?  fix all other variables to the model's values
            E q = neg;
            std::vector<E> cs; slice(s, c, cs); cs.push_back(q);
            std::set<uint32_t> vs; for (E e : cs) for (uint32_t v : X.varsOf(e)) vs.insert(v);
            for (uint32_t v : vs) if (!(X.vars[v].flags & XF_UNINIT)) { E ve = X.varByName[X.vars[v].name]; cs.push_back(X.bin(EQ, ve, X.cst(v < s.model->size() ? (*s.model)[v] : 0, ve->w))); }
            std::vector<std::pair<uint32_t, uint64_t>> a2;
            if (S.check(cs, &a2) == SAT) fail(s, "uninit", "branch depends on uninitialised memory");
        }
        State* n = cloneState(s); n->model = overlay(s.model, asg); addCons(*n, neg); n->depth++;
        work.push_back(n); s.depth++;
        addCons(s, pos);
    }
    return d;
}
uint64_t Engine::concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c;
    if (Exprs::isC(v.e)) return (uint64_t)v.e->c;
    for (int guard = 0;; guard++) {
        uint64_t x = (uint64_t)S.evalUnder(v.e, *s.model);
        if (branch(s, X.bin(EQ, v.e, X.cst(x, v.e->w)))) return x;
        if (guard > 4) throw Unsupported{"concretize"};
    }
}
void Engine::assume(State& s, E c) {
    if (Exprs::isC(c)) { if (!c->c) throw Kill(); return; }
    if (!S.evalUnder(c, *s.model) || (S.realMode && (c->flags & XF_FP))) {
        std::vector<std::pair<uint32_t, uint64_t>> asg; Res r = query(s, c, &asg);
        if (r != SAT) throw Kill();
        s.model = overlay(s.model, asg);
    }
    addCons(s, c);
}
void Engine::checkAssert(State& s, E c, const std::string& kind, const std::string& label) {
    assertsChecked[label]++;
    if (Exprs::isC(c)) { if (!c->c) { report(s, s.model, kind, label); throw Kill(); } return; }
    E neg = X.not1(c);
    std::vector<std::pair<uint32_t, uint64_t>> asg;
    if (verbose) fprintf(stderr, "ASSERT %s : %s\n", label.c_str(), X.str(c, 12).c_str());
    bool viol = !S.evalUnder(c, *s.model) && !(S.realMode && (c->flags & XF_FP));
    if (viol) report(s, s.model, kind, label);
    else { Res r = query(s, neg, &asg); if (r == SAT) { report(s, overlay(s.model, asg), kind, label); viol = true; } else return; }
    // continue under the assertion, when possible
    assume(s, c);
}
std::string Engine::stackTrace(State& s, std::string* top) {
    std::string out; int n = 0;
    for (size_t i = s.fr.size(); i-- > 0 && n < 14; n++) {
        Frame& f = s.fr[i]; std::string l = f.fn->name; unsigned line = 0;
        if (f.pc < f.fn->code.size()) if (auto* I = f.fn->code[f.pc].src) if (auto& dl = I->getDebugLoc()) {
            line = dl.getLine(); l += " (" + dl->getFilename().str() + ":" + std::to_string(line) + ")";
            if (top && top->empty()) { *top = dl->getFilename().str() + ":" + std::to_string(line); }
            for (auto* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) l += " <- " + ia->getFilename().str() + ":" + std::to_string(ia->getLine());
        }
        out += l + "\n";
    }
    return out;
}
void Engine::report(State& s, const ModelP& m, const std::string& kind, const std::string& label) {
    nErr++;
    if (verbose) for (E c : s.cons) fprintf(stderr, "PC %s\n", X.str(c, 12).c_str());
    std::string loc; std::string st = stackTrace(s, &loc);
    std::string key = kind + "|" + label + (kind == "assert" ? "" : "|" + loc);
    auto& v = errors[key];
    if (v.size() >= maxErrPer) return;
    ErrorRec r; r.kind = kind; r.label = label; r.loc = loc; r.stack = st; r.notes = s.notes;
    for (uint32_t i : s.inputs) r.inputs.push_back({inName(i), {X.vars[i].w, i < m->size() ? (*m)[i] : 0}});
    v.push_back(r);
    if (verbose) fprintf(stderr, "ERROR %s %s\n%s", kind.c_str(), label.c_str(), st.c_str());
}

// ---------------------------------------------------------------- memory
void Engine::access(State& s, uint64_t id, uint64_t off, unsigned n, bool write) {
    const Obj* o = s.mem.get(id); if (!o || o->kind == OK_STACK || o->kind == OK_CONST || o->kind == OK_FUNC) return;
    for (unsigned i = 0; i < n; i++) {
        auto& a = (*s.acc)[(id << OFFBITS) + off + i];
        if (!a.tids_r && !a.tids_w) a.locks = ~0ull;
        bool conflict = write ? ((a.tids_r | a.tids_w) & ~(1 << s.tid)) : (a.tids_w & ~(1 << s.tid));
        uint64_t l = a.locks & s.heldLocks;
        if (conflict && !l) fail(s, "race", "unsynchronised conflicting access to shared memory");
        a.locks = l; if (write) a.tids_w |= 1 << s.tid; else a.tids_r |= 1 << s.tid;
    }
}
static bool ptrIds(E e, std::set<uint64_t>& ids, int& budget) {
    if (--budget < 0) return false;
    switch (e->op) {
        case CONST: ids.insert((uint64_t)e->c >> OFFBITS); return true;
        case ITE: return ptrIds(e->b, ids, budget) && ptrIds(e->d, ids, budget);
        case ADD: {
            if (e->b->op == CONST && ((uint64_t)e->b->c >> OFFBITS) != 0 && ((uint64_t)e->b->c >> OFFBITS) < (1ull << 35)) { ids.insert((uint64_t)e->b->c >> OFFBITS); return true; }
            if (e->b->op == CONST) { return ptrIds(e->a, ids, budget); }
            std::set<uint64_t> i1; int b2 = budget;
            if (e->a->op == ITE && ptrIds(e->a, i1, b2) && !i1.count(0)) { ids.insert(i1.begin(), i1.end()); return true; }
            i1.clear(); b2 = budget;
            if (e->b->op == ITE && ptrIds(e->b, i1, b2) && !i1.count(0)) { ids.insert(i1.begin(), i1.end()); return true; }
            return false; }
        case SUB: return ptrIds(e->a, ids, budget);
        default: return false;
    }
}
// returns object id; off = byte offset value (relative to object start) guaranteed in bounds for n bytes
uint64_t Engine::resolve(State& s, const Val& addr, unsigned n, bool write, Val& off, const char* what) {
    uint64_t a;
    if (addr.e) {
        std::set<uint64_t> ids; int budget = 5000;
        bool ok = ptrIds(addr.e, ids, budget);
        if (ok && ids.size() == 1 && *ids.begin() != 0) {
            uint64_t id = *ids.begin(); const Obj* o = s.mem.get(id);
            if (!o) fail(s, "uaf", std::string(what) + " of freed or invalid object");
            E o64 = X.bin(SUB, addr.e, X.cst(addrOf(id), 64));
            if (o->size < n) fail(s, "oob", std::string("out-of-bounds ") + what);
            E inb = X.bin(ULE, o64, X.cst(o->size - n, 64));
            if (!Exprs::isC(inb, 1)) {
                std::vector<std::pair<uint32_t, uint64_t>> asg; E neg = X.not1(inb);
                if (query(s, neg, &asg) == SAT) { report(s, overlay(s.model, asg), "oob", std::string("out-of-bounds ") + what); assume(s, inb); }
            }
            if (write && (o->kind == OK_CONST || o->kind == OK_FUNC)) fail(s, "rodata", "write to read-only memory");
            off = fromE(o64); return id;
        }
        if (ok && ids.size() > 1) {
            // fork on the outermost ITE
            E e = addr.e; E base = nullptr;
            while (e->op == ADD || e->op == SUB) e = (e->a->op == ITE || e->b->op == CONST) ? e->a : e->b;
            if (e->op == ITE) { bool d = branch(s, e->a); 
                // substitute and retry
                E arm = d ? e->b : e->d; 
                std::function<E(E)> sub = [&](E x) -> E { if (x == e) return arm; if (x->op == ADD || x->op == SUB) return X.bin(x->op, sub(x->a), sub(x->b)); return x; };
                Val nv = fromE(sub(addr.e)); return resolve(s, nv, n, write, off, what); }
            (void)base;
        }
        a = concretize(s, addr, 64);
    } else a = addr.c;
    uint64_t id = a >> OFFBITS, of = (a & OFFMASK) - BASEOFF;
    const Obj* o = s.mem.get(id);
    if (!o) { if (a < 65536 || id == 0) fail(s, "null", std::string("null-pointer ") + what); fail(s, "uaf", std::string(what) + " of freed or invalid object"); }
    if (of > o->size || o->size - of < n) fail(s, "oob", std::string("out-of-bounds ") + what);
    if (write && (o->kind == OK_CONST || o->kind == OK_FUNC)) fail(s, "rodata", "write to read-only memory");
    off = {nullptr, of}; return id;
}
E Engine::readByte(State& s, uint64_t id, uint64_t off) {
    const Obj* o = s.mem.get(id);
    if (!o->hasSt || o->st[off] == 0) return X.cst(o->d[off], 8);
    if (o->st[off] == 1) return o->sym[off];
    // uninitialised: materialise
    E v = X.var("uninit!" + std::to_string(X.vars.size()), 8, XF_UNINIT);
    Obj* w = s.mem.getw(id);
    if (!w->sym) w->sym = (E*)calloc(w->size, sizeof(E));
    w->st[off] = 1; w->sym[off] = v;
    return v;
}
Val Engine::readObj(State& s, uint64_t id, uint64_t off, unsigned w) {
    unsigned n = (w + 7) / 8; const Obj* o = s.mem.get(id);
    bool plain = !o->hasSt;
    if (!plain) { plain = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { plain = false; break; } }
    if (plain) {
        if (n <= 8) { uint64_t v = 0; memcpy(&v, o->d + off, n); return {nullptr, v & m64(w)}; }
        u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)o->d[off + i] << (8 * i); return {X.cst(v, w), 0};
    }
    if (n > 1 && o->sym && o->st[off] == 1 && o->sym[off]->op == EXTRACT) { // the bytes of one stored value
        E f = o->sym[off]; unsigned i = 1; for (; i < n && o->st[off + i] == 1; i++) { E b = o->sym[off + i]; if (b->op != EXTRACT || b->a != f->a || b->imm != f->imm + 8 * i) break; }
        if (i == n && f->imm + w <= f->a->w) return fromE(X.extract(f->a, f->imm, w));
    }
    E r = readByte(s, id, off);
    if (n == 1 && r->op == EXTRACT) r = X.extract(r->a, r->imm, r->w);
    for (unsigned i = 1; i < n; i++) r = X.concat(readByte(s, id, off + i), r);
    if (r->w != w) r = X.extract(r, 0, w);
    return fromE(r);
}
void Engine::writeObj(State& s, Obj* o, uint64_t off, unsigned w, const Val& v) {
    unsigned n = (w + 7) / 8;
    if (!v.e && n <= 8) { memcpy(o->d + off, &v.c, n); if (o->hasSt) memset(o->st + off, 0, n); return; }
    E e = v.e ? v.e : X.cst(v.c, w);
    if (e->w % 8) e = X.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        E b = X.extract(e, 8 * i, 8);
        if (n > 1 && !Exprs::isC(b)) switch (e->op) { case ADD: case SUB: case MUL: case AND: case OR: case XOR: case ITE: case SHL: case LSHR: b = X.raw(EXTRACT, 8, 8 * i, 0, e, nullptr, nullptr); default: break; } // keep it re-assemblable
        if (Exprs::isC(b)) { o->d[off + i] = (uint8_t)b->c; if (o->hasSt) o->st[off + i] = 0; }
        else {
            if (!o->st) { o->st = (uint8_t*)calloc(1, o->size); } o->hasSt = true;
            if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
            o->st[off + i] = 1; o->sym[off + i] = b;
        }
    }
}
static void candidates(Exprs& X, E off, uint64_t max, std::vector<uint64_t>& out) {
    // trailing zero bits of a CONCAT(.., 0) give the stride; additive constant shifts it
    uint64_t add = 0; E e = off; 
    if (e->op == ADD && e->b->op == CONST) { add = (uint64_t)e->b->c; e = e->a; }
    unsigned tz = 0; if (e->op == CONCAT && e->b->op == CONST && e->b->c == 0) tz = e->b->w; 
    if (e->op == ZEXT && e->a->op == CONCAT && Exprs::isC(e->a->b, 0)) tz = e->a->b->w;
    uint64_t stride = tz < 20 ? 1ull << tz : 1;
    u128 um = X.umax(e, 8);
    uint64_t st = add % stride; // add may be "negative": congruence holds mod stride (power of two)
    uint64_t hi = max; if (add < (1ull << 40) && um + add < hi) hi = (uint64_t)(um + add);
    uint64_t lo = st; if (add < (1ull << 40)) lo = add;
    for (uint64_t x = lo; x <= hi; x += stride) out.push_back(x);
}
Val Engine::loadVal(State& s, const Val& addr, unsigned w) {
    unsigned n = (w + 7) / 8; Val off; uint64_t id = resolve(s, addr, n, false, off, "read");
    if (!off.e) { if (s.tid) access(s, id, off.c, n, false); return readObj(s, id, off.c, w); }
    const Obj* o = s.mem.get(id);
    // ITE tree with constant leaves: follow it instead of enumerating the object
    int budget = 300; std::vector<uint64_t> cand;
    if (off.e->op == ITE && X.iteConstLeaves(off.e, budget)) {
        std::function<Val(E)> rec = [&](E e) -> Val { if (Exprs::isC(e)) { if ((uint64_t)e->c + n > s.mem.get(id)->size) return {nullptr, 0}; return readObj(s, id, (uint64_t)e->c, w); } Val t = rec(e->b), f = rec(e->d); return select({e->a, 0}, t, f, w); };
        return rec(off.e);
    }
    candidates(X, off.e, o->size - n, cand);
    if (cand.size() > 1100) { uint64_t x = concretize(s, off, 64); return readObj(s, id, x, w); }
    // drop candidates that are infeasible only cheaply (not by solver); build chain grouping equal values
    Val r{nullptr, 0}; bool first = true;
    for (size_t i = cand.size(); i-- > 0;) {
        Val v = readObj(s, id, cand[i], w);
        if (first) { r = v; first = false; continue; }
        r = select(fromE(X.bin(EQ, off.e, X.cst(cand[i], 64))), v, r, w);
    }
    if (first) throw Kill();
    return r;
}
void Engine::storeVal(State& s, const Val& addr, unsigned w, const Val& v) {
    unsigned n = (w + 7) / 8; Val off; uint64_t id = resolve(s, addr, n, true, off, "write");
    if (!off.e) { if (s.tid) access(s, id, off.c, n, true); writeObj(s, s.mem.getw(id), off.c, w, v); return; }
    std::vector<uint64_t> cand; candidates(X, off.e, s.mem.get(id)->size - n, cand);
    if (cand.size() > 260) { uint64_t x = concretize(s, off, 64); writeObj(s, s.mem.getw(id), x, w, v); return; }
    for (uint64_t x : cand) {
        Val old = readObj(s, id, x, w); Val nv = select(fromE(X.bin(EQ, off.e, X.cst(x, 64))), v, old, w);
        writeObj(s, s.mem.getw(id), x, w, nv);
    }
}
std::string Engine::rdStr(State& s, uint64_t addr) {
    std::string r; for (;;) { Val v = loadVal(s, {nullptr, addr + r.size()}, 8); char c = (char)concretize(s, v, 8); if (!c) return r; r += c; if (r.size() > 100000) throw Unsupported{"string too long"}; }
}
void Engine::copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n, const char* what) {
    if (!n) return; Val o1, o2;
    uint64_t si = resolve(s, {nullptr, src}, n, false, o2, "read (memcpy)"), di = resolve(s, {nullptr, dst}, n, true, o1, "write (memcpy)");
    if (s.tid) { access(s, si, o2.c, n, false); access(s, di, o1.c, n, true); }
    Obj* d = s.mem.getw(di); const Obj* o = s.mem.get(si);
    uint64_t so = o2.c, dof = o1.c;
    bool srcSt = o->hasSt;
    if (!srcSt) { memmove(d->d + dof, o->d + so, n); if (d->hasSt) memset(d->st + dof, 0, n); return; }
    if (!d->st) { d->st = (uint8_t*)calloc(1, d->size); } d->hasSt = true;
    if (o->sym && !d->sym) d->sym = (E*)calloc(d->size, sizeof(E));
    memmove(d->d + dof, o->d + so, n); memmove(d->st + dof, o->st + so, n); if (o->sym) memmove(d->sym + dof, o->sym + so, n * sizeof(E));
}

// ---------------------------------------------------------------- control
void Engine::takeEdge(State& s, Frame& f, Edge& e) {
    if (!e.copies.empty()) {
        if (e.copies[0][2]) { std::vector<Val> t; t.reserve(e.copies.size()); for (auto& c : e.copies) t.push_back(get(f, c[1])); for (size_t i = 0; i < t.size(); i++) f.regs[e.copies[i][0]] = t[i]; }
        else for (auto& c : e.copies) f.regs[c[0]] = get(f, c[1]);
    }
    f.pc = e.pc;
}
void Engine::pushFrame(State& s, Fn* f, const std::vector<Val>& args) {
    prepare(f); f->entered = true;
    if (s.fr.size() > 3000) fail(s, "stack", "stack overflow (recursion depth > 3000)");
    s.fr.emplace_back(); Frame& n = s.fr.back(); n.fn = f; n.pc = 0; n.regs.assign(f->nslots ? f->nslots : 1, Val{nullptr, 0});
    for (size_t i = 0; i < args.size() && i < f->nargs; i++) n.regs[i] = args[i];
}
void Engine::popFrame(State& s) { for (uint64_t id : s.fr.back().allocas) s.mem.free_(id); s.fr.pop_back(); }
void Engine::endPath(State& s, const char* how) {
    done++;
    for (auto& r : s.reach) reach[r]++;
    uint64_t k = done; bool take = samples.size() < nSamples && (k <= 6 || (k & (k - 1)) == 0 || k % 97 == 0);
    if (take) {
        std::string j = "{\"inputs\":["; bool f = true;
        for (uint32_t i : s.inputs) { j += std::string(f ? "" : ",") + "[\"" + inName(i) + "\"," + std::to_string(X.vars[i].w) + "," + std::to_string(i < s.model->size() ? (*s.model)[i] : 0) + "]"; f = false; }
        j += "],\"end\":\"" + std::string(how) + "\",\"observed\":["; f = true;
        for (auto& o : s.observed) { uint64_t v = o.second.e ? (uint64_t)S.evalUnder(o.second.e, *s.model) : o.second.c; j += std::string(f ? "" : ",") + "[\"" + o.first + "\"," + std::to_string(v) + "]"; f = false; }
        samples.push_back(j + "]}");
    }
    throw Kill();
}
void Engine::finishCall(State& s, const Val* rv, unsigned n) {
    Frame& f = s.fr.back(); Ins& in = f.fn->code[f.pc];
    if (in.dst != (int32_t)NOSLOT) for (unsigned i = 0; i < n && i < in.x->retLeaves; i++) f.regs[in.dst + i] = rv[i];
    if (in.op == I_INVOKE) takeEdge(s, f, in.x->edges[0]); else f.pc++;
}
void Engine::doCall(State& s, Ins& in, Fn* fn, std::vector<Val>& args) {
    if (fn->F->isDeclaration()) {
        Builtin b = in.x->bi; uint64_t imm = in.x->bimm;
        if (!b || in.x->callee != fn) { b = lookupBuiltin(fn->name, imm); }
        if (!b) throw Unsupported{"call to external function " + fn->name};
        uint64_t save = in.x->bimm; in.x->bimm = imm; b(*this, s, in, args); in.x->bimm = save; return;
    }
    for (auto& bv : in.x->byval) {
        uint64_t p = newObj(s, bv.second, OK_STACK, true); uint64_t src = concretize(s, args[bv.first], 64);
        copyMem(s, p, src, bv.second, "byval"); args[bv.first] = {nullptr, p}; s.fr.back().allocas.push_back(p >> OFFBITS);
    }
    std::vector<std::pair<Val, unsigned>> va;
    if (fn->F->isVarArg()) for (size_t i = in.x->nfixedLeaves; i < args.size(); i++) va.push_back({args[i], in.x->argw[i]});
    pushFrame(s, fn, args); s.fr.back().va = std::move(va);
}
bool Engine::tiMatch(State& s, uint64_t ti, uint64_t cti, uint64_t& off, int depth) {
    if (ti == cti) return true;
    if (depth > 12) return false;
    uint64_t vt = rd64(s, ti); std::string& k = nameById[vt >> OFFBITS];
    uint64_t n1 = rd64(s, ti + 8), n2 = rd64(s, cti + 8); if (n1 == n2) return true;
    if (k.find("__si_class_type_info") != std::string::npos) return tiMatch(s, rd64(s, ti + 16), cti, off, depth + 1);
    if (k.find("__vmi_class_type_info") != std::string::npos) {
        uint64_t w = rd64(s, ti + 16); unsigned cnt = w >> 32;
        for (unsigned i = 0; i < cnt; i++) { uint64_t b = rd64(s, ti + 24 + 16 * i), fl = rd64(s, ti + 32 + 16 * i); uint64_t o = off; if (!(fl & 1)) { uint64_t o2 = o + (uint64_t)((int64_t)fl >> 8); if (tiMatch(s, b, cti, o2, depth + 1)) { off = o2; return true; } } }
    }
    return false;
}
void Engine::unwind(State& s, uint64_t obj, bool skipTop) {
    ExcRec* er = nullptr; for (auto& x : s.excs) if (x.obj == obj) er = &x;
    if (!er) throw Unsupported{"unwind of unknown exception"};
    auto sel = [&](Ins& lp, bool& cleanupOnly, uint64_t& adj) -> int {
        cleanupOnly = false; adj = 0;
        for (auto& c : lp.x->clauses) {
            if (c.first == 1) { return -1; }
            if (c.second == 0) { int& t = tids[0]; if (!t) t = tids.size(); return t; }
            uint64_t off = 0;
            if (tiMatch(s, er->ti, c.second, off)) { adj = off; int& t = tids[c.second]; if (!t) t = tids.size(); return t; }
        }
        cleanupOnly = true; return 0;
    };
    // search phase
    bool found = false;
    for (size_t i = s.fr.size() - (skipTop ? 1 : 0); i-- > 0;) {
        Ins& c = s.fr[i].fn->code[s.fr[i].pc];
        if (c.op != I_INVOKE) continue;
        Ins& lp = s.fr[i].fn->code[c.x->edges[1].pc]; bool co; uint64_t adj;
        if (lp.op != I_LPAD) throw Unsupported{"landingpad"};
        sel(lp, co, adj); if (!co) { found = true; break; }
    }
    if (!found) { std::string nm = "?"; try { nm = rdStr(s, rd64(s, er->ti + 8)); } catch (Unsupported&) {} 
        std::string what; fail(s, "uncaught", "uncaught exception of type " + nm); }
    if (skipTop) popFrame(s);
    while (!s.fr.empty()) {
        Frame& f = s.fr.back(); Ins& c = f.fn->code[f.pc];
        if (c.op == I_INVOKE) {
            Ins& lp = f.fn->code[c.x->edges[1].pc]; bool co; uint64_t adj; int t = sel(lp, co, adj);
            if (!co || lp.x->cleanup) {
                if (!co) er->adj = obj + adj;
                takeEdge(s, f, c.x->edges[1]);
                f.regs[lp.dst] = {nullptr, obj}; f.regs[lp.dst + 1] = {nullptr, (uint64_t)(uint32_t)t};
                f.pc++; return;
            }
        }
        popFrame(s);
    }
    throw Unsupported{"unwind fell off"};
}
std::string Engine::inName(uint32_t i) { const std::string& n = X.vars[i].name; size_t p = n.rfind('@'); return p == std::string::npos ? n : n.substr(0, p); }
E Engine::symVar(State& s, const std::string& name, unsigned w, bool input, const char* suffix) {
    int k = s.nameCnt[name]++;
    E v = X.var(name + "#" + std::to_string(k) + (w == 8 ? "" : ":" + std::to_string(w)) + suffix, w);
    if (input) s.inputs.push_back((uint32_t)v->imm);
    return v;
}

void Engine::step(State& s) {
    Frame& f = s.fr.back(); Ins& in = f.fn->code[f.pc]; in.cov = true;
    insts++;
    if (++s.steps > maxSteps) { limitHits++; fail(s, "steps", "step limit reached (possible non-termination)"); }
    switch (in.op) {
        case I_NOP: f.pc++; return;
        case I_BIN:
            if (in.n == 1) f.regs[in.dst] = binop((Op)in.sub, in.w, get(f, in.a), get(f, in.b));
            else for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = binop((Op)in.sub, in.w, get(f, leafOp(in.a, i)), get(f, leafOp(in.b, i)));
            f.pc++; return;
        case I_DIVREM: {
            for (int i = 0; i < in.n; i++) {
                Val a = get(f, leafOp(in.a, i)), b = get(f, leafOp(in.b, i));
                E z = X.bin(EQ, toE(b, in.w), X.cst(0, in.w));
                if (Exprs::isC(z, 1)) fail(s, "divzero", "division by zero");
                if (!Exprs::isC(z)) checkAssert(s, X.not1(z), "divzero", "division by zero");
                if (in.sub == SDIV || in.sub == SREM) {
                    E ov = X.bin(AND, X.bin(EQ, toE(a, in.w), X.cst((u128)1 << (in.w - 1), in.w)), X.bin(EQ, toE(b, in.w), X.cst(maskw(in.w), in.w)));
                    if (Exprs::isC(ov, 1)) fail(s, "divovf", "signed division overflow");
                    if (!Exprs::isC(ov)) checkAssert(s, X.not1(ov), "divovf", "signed division overflow");
                }
            }
            for (int i = 0; i < in.n; i++) s.fr.back().regs[in.dst + i] = binop((Op)in.sub, in.w, get(f, leafOp(in.a, i)), get(f, leafOp(in.b, i)));
            f.pc++; return; }
        case I_ICMP: for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = icmp(in.sub, in.w, get(f, leafOp(in.a, i)), get(f, leafOp(in.b, i))); f.pc++; return;
        case I_FCMP: for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = fcmp(in.sub, in.w, get(f, leafOp(in.a, i)), get(f, leafOp(in.b, i))); f.pc++; return;
        case I_FBIN: for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = fromE(X.bin((Op)in.sub, toE(get(f, leafOp(in.a, i)), in.w), toE(get(f, leafOp(in.b, i)), in.w))); f.pc++; return;
        case I_FNEG: for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = fromE(X.bin(XOR, toE(get(f, leafOp(in.a, i)), in.w), X.cst((u128)1 << (in.w - 1), in.w))); f.pc++; return;
        case I_CAST: for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = castop(in.sub, in.w2, in.w, get(f, leafOp(in.a, i))); f.pc++; return;
        case I_SELECT: for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = select(get(f, in.fl ? leafOp(in.a, i) : in.a), get(f, leafOp(in.b, i)), get(f, leafOp(in.c, i)), in.x->leaves[i].w); f.pc++; return;
        case I_COPY:
            if (in.x && !in.x->args.empty()) { std::vector<Val> t; for (auto o : in.x->args) t.push_back(get(f, o)); for (size_t i = 0; i < t.size(); i++) f.regs[in.dst + i] = t[i]; }
            else for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = get(f, leafOp(in.a, i));
            f.pc++; return;
        case I_INSERT: for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = ((uint64_t)i >= in.imm && (uint64_t)i < in.imm + in.c) ? get(f, leafOp(in.b, i - in.imm)) : get(f, leafOp(in.a, i)); f.pc++; return;
        case I_EXTELT: { uint64_t k = concretize(s, get(f, in.b), 64); f.regs[in.dst] = k < in.n ? get(f, leafOp(in.a, k)) : Val{nullptr, 0}; f.pc++; return; }
        case I_INSELT: { uint64_t k = concretize(s, get(f, in.c), 64); Val v = get(f, in.b); for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = (uint64_t)i == k ? v : get(f, leafOp(in.a, i)); f.pc++; return; }
        case I_FREEZE: for (int i = 0; i < in.n; i++) { Val v = get(f, leafOp(in.a, i)); if (v.e && (v.e->flags & XF_UNINIT)) v = {X.var("freeze!" + std::to_string(X.vars.size()), in.x->leaves[i].w), 0}; f.regs[in.dst + i] = v; } f.pc++; return;
        case I_BITCAST: {
            auto& L = in.x->leaves;
            if (L.size() == in.n) { bool same = true; for (size_t i = 0; i < L.size(); i++) if (L[i].w != in.x->retw[i]) same = false; if (same) { for (int i = 0; i < in.n; i++) f.regs[in.dst + i] = get(f, leafOp(in.a, i)); f.pc++; return; } }
            E e = nullptr; for (size_t i = 0; i < L.size(); i++) { E x = toE(get(f, leafOp(in.a, i)), L[i].w); e = e ? X.concat(x, e) : x; if (e->w > 128) throw Unsupported{"bitcast"}; }
            unsigned lo = 0; for (int i = 0; i < in.n; i++) { f.regs[in.dst + i] = fromE(X.extract(e, lo, in.x->retw[i])); lo += in.x->retw[i]; }
            f.pc++; return; }
        case I_LOAD: {
            Val a = get(f, in.a); auto& L = in.x->leaves; int st = s.tid; if (in.fl) s.tid = 0;
            struct R { State& s; int t; ~R() { s.tid = t; } } rr{s, st};
            if (L.size() == 1) { f.regs[in.dst] = loadVal(s, a, L[0].w); f.pc++; return; }
            std::vector<Val> t; for (auto& l : L) t.push_back(loadVal(s, binop(ADD, 64, a, {nullptr, l.off}), l.w));
            for (size_t i = 0; i < t.size(); i++) f.regs[in.dst + i] = t[i];
            f.pc++; return; }
        case I_STORE: {
            Val a = get(f, in.a); auto& L = in.x->leaves; int st = s.tid; if (in.fl) s.tid = 0;
            struct R { State& s; int t; ~R() { s.tid = t; } } rr{s, st};
            if (L.size() > 1 && a.e) a = {nullptr, concretize(s, a, 64)};
            for (size_t i = 0; i < L.size(); i++) storeVal(s, L[i].off ? binop(ADD, 64, a, {nullptr, L[i].off}) : a, L[i].w, get(f, leafOp(in.b, i)));
            f.pc++; return; }
        case I_ALLOCA: { uint64_t n = concretize(s, get(f, in.a), 64); uint64_t p = newObj(s, in.imm * n, OK_STACK, true); f.allocas.push_back(p >> OFFBITS); f.regs[in.dst] = {nullptr, p}; f.pc++; return; }
        case I_GEP: {
            Val a = get(f, in.a); if (in.imm) a = binop(ADD, 64, a, {nullptr, in.imm});
            for (auto& g : in.x->gep) { Val i = get(f, (int32_t)g[0]); if (g[1] < 64) i = castop(Instruction::SExt, g[1], 64, i); else if (g[1] > 64) i = castop(Instruction::Trunc, g[1], 64, i); if (g[2] != 1) i = binop(MUL, 64, i, {nullptr, (uint64_t)g[2]}); a = binop(ADD, 64, a, i); }
            f.regs[in.dst] = a; f.pc++; return; }
        case I_BR: takeEdge(s, f, in.x->edges[0]); return;
        case I_CBR: { Val c = get(f, in.a); bool d = c.e ? branch(s, c.e) : (c.c & 1); takeEdge(s, f, in.x->edges[d ? 0 : 1]); return; }
        case I_SWITCH: {
            Val v = get(f, in.a);
            if (!v.e) { for (auto& c : in.x->cases) if ((uint64_t)c.first == v.c) { takeEdge(s, f, in.x->edges[c.second]); return; } takeEdge(s, f, in.x->edges[0]); return; }
            // group cases by destination
            std::map<uint32_t, std::vector<unsigned>> g; for (unsigned i = 0; i < in.x->cases.size(); i++) g[in.x->edges[in.x->cases[i].second].pc].push_back(i);
            for (auto& [pc, is] : g) {
                // same block but possibly different phi inputs: then split
                bool phi = false; for (unsigned i : is) if (!in.x->edges[in.x->cases[i].second].copies.empty()) phi = true;
                if (phi) { for (unsigned i : is) if (branch(s, X.bin(EQ, v.e, X.cst(in.x->cases[i].first, in.w)))) { takeEdge(s, f, in.x->edges[in.x->cases[i].second]); return; } }
                else { E c = X.cst(0, 1); for (unsigned i : is) c = X.bin(OR, c, X.bin(EQ, v.e, X.cst(in.x->cases[i].first, in.w))); if (branch(s, c)) { takeEdge(s, f, in.x->edges[in.x->cases[is[0]].second]); return; } }
            }
            takeEdge(s, f, in.x->edges[0]); return; }
        case I_RET: {
            std::vector<Val> rv; for (int i = 0; i < in.n; i++) rv.push_back(get(f, leafOp(in.a, i)));
            popFrame(s);
            if (s.fr.empty()) {
                if (s.startIdx < starts.size()) { Fn* n = starts[s.startIdx++]; pushFrame(s, n, {}); return; }
                if (s.startIdx == starts.size()) { s.startIdx++; pushFrame(s, mainFn, {}); return; }
                endPath(s, "return");
            }
            finishCall(s, rv.data(), rv.size()); return; }
        case I_CALL: case I_INVOKE: {
            std::vector<Val> args; args.reserve(in.x->args.size()); for (auto o : in.x->args) args.push_back(get(f, o));
            Fn* fn = in.x->callee;
            if (!fn) {
                uint64_t a = concretize(s, get(f, in.x->calleeOp), 64);
                auto it = fnById.find(a >> OFFBITS);
                if (it == fnById.end() || (a & OFFMASK) != BASEOFF) fail(s, "badcall", a < 65536 ? "call through null function pointer" : "call through invalid function pointer");
                fn = it->second;
            }
            doCall(s, in, fn, args); return; }
        case I_UNREACH: fail(s, "unreachable", "unreachable code executed (undefined behaviour)");
        case I_LPAD: f.pc++; return;
        case I_RESUME: { uint64_t o = concretize(s, get(f, in.a), 64); unwind(s, o, true); return; }
        case I_RMW: {
            int st = s.tid; s.tid = 0; struct R { State& s; int t; ~R() { s.tid = t; } } rr{s, st};
            Val a = get(f, in.a), b = get(f, in.b); if (a.e) a = {nullptr, concretize(s, a, 64)}; Val o = loadVal(s, a, in.w), n;
            switch (in.sub) { case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = binop(ADD, in.w, o, b); break; case AtomicRMWInst::Sub: n = binop(SUB, in.w, o, b); break; case AtomicRMWInst::And: n = binop(AND, in.w, o, b); break; case AtomicRMWInst::Or: n = binop(OR, in.w, o, b); break; case AtomicRMWInst::Xor: n = binop(XOR, in.w, o, b); break; default: throw Unsupported{"rmw"}; }
            storeVal(s, a, in.w, n); f.regs[in.dst] = o; f.pc++; return; }
        case I_CMPXCHG: {
            int st = s.tid; s.tid = 0; struct R { State& s; int t; ~R() { s.tid = t; } } rr{s, st};
            Val a = get(f, in.a); if (a.e) a = {nullptr, concretize(s, a, 64)}; Val o = loadVal(s, a, in.w); Val eq = cmpop(EQ, in.w, o, get(f, in.b)); Val n = select(eq, get(f, in.c), o, in.w); storeVal(s, a, in.w, n); f.regs[in.dst] = o; f.regs[in.dst + 1] = eq; f.pc++; return; }
        case I_UNSUP: throw Unsupported{in.x->biName + " in " + f.fn->name};
        default: throw Unsupported{"opcode"};
    }
}
void Engine::explore() {
    while (!work.empty()) {
        if (nowS() - t0 > maxTime || done + killed > maxPaths) { timedOut = true; break; }
        State* s = work.back(); work.pop_back(); cur = s;
        try {
            uint64_t k = 0;
            for (;;) { step(*s); if ((++k & 0xffff) == 0 && nowS() - t0 > maxTime) { timedOut = true; break; } }
        } catch (Kill&) { killed++; }
        catch (Unsupported& u) {
            std::string st = stackTrace(*s, nullptr); partial(*s);
            unsup.push_back(u.msg + "\n" + st); if (verbose || unsup.size() < 3) fprintf(stderr, "UNSUPPORTED: %s\n%s", u.msg.c_str(), st.c_str()); }
        delete s;
    }
    killed -= std::min(killed, done);
}
void Engine::run(const std::string& harness) {
    auto* f = M->getFunction(harness); if (!f) { fprintf(stderr, "no harness %s\n", harness.c_str()); exit(2); }
    mainFn = getFn(f); if (auto* e = M->getFunction("dsym_on_exit")) if (!e->isDeclaration()) onExit = getFn(e);
    State* s = new State(); new (&s->mem) Mem(*initMem); s->model = std::make_shared<Model>();
    if (!starts.empty()) { Fn* n = starts[s->startIdx++]; pushFrame(*s, n, {}); } else { s->startIdx = 1; pushFrame(*s, mainFn, {}); }
    work.push_back(s); explore();
}
