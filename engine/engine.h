#pragma once
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APFloat.h>
#include <unordered_set>
#include <deque>
#include <functional>

struct Val { E e; uint64_t c; };

static const unsigned OFFBITS = 28;
static const uint64_t OFFMASK = (1ull << OFFBITS) - 1;
static const uint64_t BASEOFF = 1ull << 20;
static const uint32_t NOSLOT = 0x7fffffff;

enum ObjKind : uint8_t { OK_HEAP, OK_STACK, OK_GLOBAL, OK_CONST, OK_FUNC, OK_EXT };
struct Obj {
    int refs; uint32_t size; ObjKind kind; uint8_t family; bool hasSt; // hasSt: some byte is not plain concrete
    uint8_t* d; uint8_t* st; E* sym; const void* site;
    static Obj* make(uint32_t size, ObjKind k, bool uninit) {
        Obj* o = new Obj{1, size, k, 0, false, nullptr, nullptr, nullptr, nullptr};
        o->d = (uint8_t*)calloc(1, size ? size : 1);
        if (uninit && size) { o->st = (uint8_t*)malloc(size); memset(o->st, 2, size); o->hasSt = true; }
        return o;
    }
    Obj* clone() const {
        Obj* o = new Obj(*this); o->refs = 1;
        o->d = (uint8_t*)malloc(size ? size : 1); memcpy(o->d, d, size);
        if (st) { o->st = (uint8_t*)malloc(size); memcpy(o->st, st, size); }
        if (sym) { o->sym = (E*)malloc(size * sizeof(E)); memcpy(o->sym, sym, size * sizeof(E)); }
        return o;
    }
    void unref() { if (--refs == 0) { free(d); free(st); free(sym); delete this; } }
};
struct Chunk {
    int refs = 1; int live = 0; Obj* o[256];
    Chunk() { memset(o, 0, sizeof o); }
    void unref() { if (--refs == 0) { for (Obj* x : o) if (x) x->unref(); delete this; } }
};
struct Mem {
    std::vector<Chunk*> top; uint64_t next = 1;
    Mem() {}
    Mem(const Mem& m) : top(m.top), next(m.next) { for (auto c : top) if (c) c->refs++; }
    Mem& operator=(const Mem&) = delete;
    ~Mem() { for (auto c : top) if (c) c->unref(); }
    const Obj* get(uint64_t id) const { uint64_t k = id >> 8; if (k >= top.size() || !top[k]) return nullptr; return top[k]->o[id & 255]; }
    Chunk* wchunk(uint64_t k) {
        if (k >= top.size()) top.resize(k + 1, nullptr);
        Chunk*& c = top[k];
        if (!c) { c = new Chunk(); return c; }
        if (c->refs > 1) { Chunk* n = new Chunk(); n->live = c->live; for (int i = 0; i < 256; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->refs++; } c->refs--; c = n; }
        return c;
    }
    Obj* getw(uint64_t id) {
        Chunk* c = wchunk(id >> 8); Obj*& o = c->o[id & 255];
        if (o && o->refs > 1) { Obj* n = o->clone(); o->refs--; o = n; }
        return o;
    }
    uint64_t alloc(Obj* o) { uint64_t id = next++; Chunk* c = wchunk(id >> 8); c->o[id & 255] = o; c->live++; return id; }
    void free_(uint64_t id) {
        Chunk* c = wchunk(id >> 8); Obj*& o = c->o[id & 255]; if (!o) return; o->unref(); o = nullptr;
        if (--c->live == 0 && (id >> 8) != (next >> 8)) { c->unref(); top[id >> 8] = nullptr; }
    }
};
static inline uint64_t addrOf(uint64_t id) { return (id << OFFBITS) + BASEOFF; }

enum IOp : uint16_t {
    I_NOP, I_BIN, I_DIVREM, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_CAST, I_SELECT, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CBR, I_SWITCH,
    I_RET, I_CALL, I_INVOKE, I_UNREACH, I_COPY, I_EXTRACT, I_INSERT, I_LPAD, I_RESUME, I_BITCAST, I_RMW, I_CMPXCHG, I_FREEZE, I_BUILTIN, I_UNSUP,
    I_EXTELT, I_INSELT
};
struct Fn; struct Engine; struct State; struct Ins;
typedef void (*Builtin)(Engine&, State&, Ins&, std::vector<Val>&);
struct Leaf { unsigned w; uint64_t off; };
struct Edge { uint32_t pc; std::vector<std::array<int32_t, 3>> copies; };
struct Aux {
    std::vector<Edge> edges;
    std::vector<int32_t> args; std::vector<uint8_t> argw; unsigned nfixedLeaves = 0;
    std::vector<std::pair<unsigned, uint64_t>> byval;  // leaf index, size
    std::vector<std::array<int64_t, 3>> gep;           // operand, bits, scale
    std::vector<Leaf> leaves;
    std::vector<std::pair<u128, unsigned>> cases;
    Fn* callee = nullptr; int32_t calleeOp = 0; Builtin bi = nullptr; uint64_t bimm = 0; std::string biName;
    std::vector<std::pair<int, uint64_t>> clauses; bool cleanup = false; // (0 catch,1 filter-any), typeinfo addr
    unsigned retLeaves = 0; std::vector<unsigned> retw;
};
struct Ins {
    IOp op; uint8_t w, w2; uint16_t n; uint8_t sub, fl; bool cov;
    int32_t dst, a, b, c; uint64_t imm; Aux* x; const llvm::Instruction* src;
};
struct Fn {
    llvm::Function* F; std::string name; bool prepared = false; Builtin bi = nullptr;
    std::vector<Ins> code; unsigned nslots = 0, nargs = 0; bool repo = false; std::string file; uint64_t id = 0; bool entered = false;
};
struct Frame {
    Fn* fn; uint32_t pc; std::vector<Val> regs; std::vector<uint64_t> allocas; std::vector<std::pair<Val, unsigned>> va;
};
struct ExcRec { uint64_t obj, ti, dtor; int handlers; bool rethrown; uint64_t adj; };
struct Access { uint8_t tids_r, tids_w; uint64_t locks; };
struct State {
    uint64_t id = 0;
    std::vector<Frame> fr; Mem mem;
    std::vector<E> cons; ModelP model;
    std::vector<uint32_t> inputs; std::vector<std::pair<std::string, Val>> observed;
    std::map<std::string, int> nameCnt;
    std::vector<ExcRec> excs; std::vector<uint64_t> caught; int uncaught = 0;
    std::set<std::string> reach;
    uint64_t steps = 0; size_t startIdx = 0;
    int tid = 0; uint64_t heldLocks = 0; std::shared_ptr<std::unordered_map<uint64_t, Access>> acc; std::map<uint64_t, int> lockIds;
    unsigned depth = 0; std::vector<std::string> notes;
};
struct Kill {};
struct Unsupported { std::string msg; };

struct ErrorRec { std::string kind, label, loc, stack; std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> inputs; std::vector<std::string> notes; };

struct Engine {
    llvm::LLVMContext lctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL = nullptr;
    Exprs X; Solver S;
    std::vector<Val> consts;
    std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
    std::unordered_map<uint64_t, Fn*> fnById; std::unordered_map<const llvm::Function*, Fn*> fns;
    std::unordered_map<std::string, uint64_t> gByName; std::unordered_map<uint64_t, std::string> nameById;
    std::unordered_map<uint64_t, int> tids; // typeinfo -> selector id
    std::vector<Fn*> starts; Fn* mainFn = nullptr; Fn* onExit = nullptr;
    std::vector<State*> work; uint64_t nextState = 1;
    std::map<std::string, int64_t> cfg;
    // stats
    uint64_t done = 0, killed = 0, forks = 0, insts = 0, nErr = 0, limitHits = 0, exits = 0; 
    std::map<std::string, std::vector<ErrorRec>> errors; std::map<std::string, uint64_t> reach, assertsChecked;
    std::vector<std::string> samples, partials; void partial(State& s); std::vector<std::string> unsup;
    uint64_t maxSteps = 50000000; double maxTime = 600; bool timedOut = false; size_t maxPaths = ~0ull; unsigned nSamples = 25; unsigned maxErrPer = 4;
    double t0 = nowS(); bool verbose = false; bool uninitCheck = true;
    State* cur = nullptr;
    std::vector<State*> clones;

    Engine() : S(X) {}
    // ---- values ----
    E toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
    Val fromE(E e) { if (e->op == CONST && e->w <= 64) return {nullptr, (uint64_t)e->c}; return {e, 0}; }
    static bool isConc(const Val& v) { return !v.e; }
    // in interp.cpp
    void load(const std::string& bc); void run(const std::string& harness); void explore();
    void flatten(llvm::Type* t, std::vector<Leaf>& out, uint64_t off = 0);
    void constVals(const llvm::Constant* c, std::vector<Val>& out);
    int32_t constOp(const llvm::Constant* c);
    uint64_t globalAddr(const llvm::GlobalValue* g);
    void initGlobal(Mem& m, uint64_t id, uint64_t off, const llvm::Constant* c);
    void prepare(Fn* f);
    Fn* getFn(llvm::Function* f);
    void step(State& s);
    // path condition
    void slice(State& s, E c, std::vector<E>& out);
    Res query(State& s, E c, std::vector<std::pair<uint32_t, uint64_t>>* asg);
    ModelP overlay(const ModelP& m, const std::vector<std::pair<uint32_t, uint64_t>>& asg);
    void addCons(State& s, E c);
    bool branch(State& s, E c, bool uninitOk = false);
    uint64_t concretize(State& s, const Val& v, unsigned w);
    void assume(State& s, E c);
    void checkAssert(State& s, E c, const std::string& kind, const std::string& label);
    State* cloneState(State& s);
    // errors
    void report(State& s, const ModelP& m, const std::string& kind, const std::string& label);
    [[noreturn]] void fail(State& s, const std::string& kind, const std::string& label) { report(s, s.model, kind, label); throw Kill(); }
    std::string stackTrace(State& s, std::string* top);
    // memory
    uint64_t resolve(State& s, const Val& addr, unsigned n, bool write, Val& off, const char* what);
    Val readObj(State& s, uint64_t id, uint64_t off, unsigned w);
    void writeObj(State& s, Obj* o, uint64_t off, unsigned w, const Val& v);
    E readByte(State& s, uint64_t id, uint64_t off);
    Val loadVal(State& s, const Val& addr, unsigned w);
    void storeVal(State& s, const Val& addr, unsigned w, const Val& v);
    void access(State& s, uint64_t id, uint64_t off, unsigned n, bool write);
    uint64_t rd64(State& s, uint64_t addr) { Val v = loadVal(s, {nullptr, addr}, 64); return concretize(s, v, 64); }
    std::string rdStr(State& s, uint64_t addr);
    void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n, const char* what);
    uint64_t newObj(State& s, uint64_t size, ObjKind k, bool uninit, uint8_t family = 0) {
        if (size > (1ull << 27)) fail(s, "alloc", "allocation of " + std::to_string(size) + " bytes exceeds engine limit");
        Obj* o = Obj::make((uint32_t)size, k, uninit); o->family = family; return addrOf(s.mem.alloc(o));
    }
    // control
    Val get(Frame& f, int32_t o) { return o >= 0 ? f.regs[o] : consts[~o]; }
    void takeEdge(State& s, Frame& f, Edge& e);
    void doCall(State& s, Ins& in, Fn* f, std::vector<Val>& args);
    void finishCall(State& s, const Val* rv, unsigned n);
    void unwind(State& s, uint64_t obj, bool skipTop);
    bool tiMatch(State& s, uint64_t ti, uint64_t cti, uint64_t& off, int depth = 0);
    void pushFrame(State& s, Fn* f, const std::vector<Val>& args);
    void popFrame(State& s);
    void endPath(State& s, const char* how);
    // value ops
    Val binop(Op op, unsigned w, const Val& a, const Val& b);
    Val cmpop(Op op, unsigned w, const Val& a, const Val& b);
    Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b);
    Val fcmp(unsigned pred, unsigned w, const Val& a, const Val& b);
    Val select(const Val& c, const Val& t, const Val& f, unsigned w);
    Val castop(unsigned op, unsigned wf, unsigned wt, const Val& a);
    E symVar(State& s, const std::string& name, unsigned w, bool input = true, const char* suffix = "");
    std::string inName(uint32_t var);
    void registerBuiltins();
    std::unordered_map<std::string, std::pair<Builtin, uint64_t>> bis;
    Builtin lookupBuiltin(const std::string& n, uint64_t& imm);
    void ret(State& s, Ins& in, const Val& v) { (void)in; finishCall(s, &v, 1); }
    void retv(State& s) { finishCall(s, nullptr, 0); }
    void emitSummary(const std::string& path, const std::string& harness);
};
