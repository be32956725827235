// Symbolic executor for LLVM bitcode.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>

namespace ms {

static const uint64_t BASE_OFF = 0x10000;
static const uint64_t FN_BASE = 1ULL << 62;
static inline uint64_t objBase(uint32_t id) { return ((uint64_t)id << 32) | BASE_OFF; }

struct Agg;
struct Val { uint64_t c = 0; E e = nullptr; const Agg* a = nullptr; };
struct Agg { std::vector<Val> v; };

// a path that cannot be continued by the engine (reported as inconclusive, never as a pass)
struct Incomplete : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathEnd {};                  // state finished/killed silently

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FREED };
struct Obj {
    uint64_t size = 0;
    std::vector<uint8_t> data;
    std::vector<E> sym;             // empty, or one entry per byte (nullptr: concrete)
    ObjKind kind = OK_HEAP;
    bool ro = false;
    uint8_t allocFn = 0;            // 'm' malloc, 'n' new, 'a' new[]
    std::string name;
};
struct Page { std::shared_ptr<Obj> o[64]; };

struct FnInfo {
    llvm::DenseMap<const llvm::Value*, unsigned> slot;
    unsigned nslots = 0;
    bool repo = false;
    std::string file;
};
struct Frame {
    const llvm::Function* f = nullptr;
    FnInfo* fi = nullptr;
    const llvm::BasicBlock* bb = nullptr;
    llvm::BasicBlock::const_iterator it;
    std::vector<Val> loc;
    std::vector<uint32_t> allocas;
    uint32_t vaobj = 0;
};
struct Exc { uint64_t obj, ti; int handlers = 0; };
struct InputRec { std::string name; unsigned input; uint64_t size; };

struct State {
    std::vector<Frame> stack;
    std::vector<std::shared_ptr<Page>> mem;
    uint32_t nextId = 1;
    std::vector<E> pc;
    Model model; bool modelValid = true;
    std::vector<Exc> caught;        // stack of caught exceptions
    Exc flying{0, 0, 0}; bool isFlying = false;
    std::vector<InputRec> inputs;
    std::vector<std::pair<std::string, Val>> observed;
    std::map<const llvm::Instruction*, unsigned> conc;
    std::set<std::string> reached;
    uint64_t steps = 0;
    unsigned depth = 0;
    bool inexact = false;           // an UNKNOWN branch was taken
    std::string choices;
};

struct ErrorRec {
    std::string kind, msg, loc, trace, witness;
    bool modelConfirmed = true;
};

struct Options {
    std::string entry = "harness", out = ".", repo = "/repo";
    double timeLimit = 600;
    uint64_t maxSteps = 50000000, maxPaths = 1000000, maxConc = 600;
    unsigned branchTimeout = 10000, assertTimeout = 60000;
    unsigned witnesses = 4;
    unsigned maxErrPerSite = 3;
    bool hangIsError = false;
    bool stopOnError = false;
    uint64_t seed = 1;
    uint64_t maxAlloc = 256u << 20;
    bool verbose = false;
};

class Executor {
public:
    llvm::Module& M;
    const llvm::DataLayout& DL;
    Options opt;
    Solver solver;

    llvm::DenseMap<const llvm::Function*, FnInfo*> fninfo;
    llvm::DenseMap<const llvm::Constant*, Val> constCache;
    llvm::DenseMap<const llvm::GlobalValue*, uint64_t> gaddr;
    std::vector<const llvm::Function*> fnByIdx;
    std::map<uint64_t, const llvm::GlobalValue*> globalAt;
    std::unordered_map<std::string, unsigned> tiIds; // by address
    std::map<uint64_t, unsigned> typeIds;
    typedef bool (Executor::*DummyH)();
    typedef std::function<bool(State&, const llvm::CallBase&, std::vector<Val>&, Val&)> Handler;
    std::unordered_map<std::string, Handler> handlers;
    llvm::DenseMap<const llvm::Function*, const Handler*> handlerOf;
    llvm::DenseMap<const llvm::Function*, int> handlerKnown;

    std::vector<std::unique_ptr<State>> work;
    // statistics
    uint64_t nInst = 0, nForks = 0, nPaths = 0, nAssumeKilled = 0, nAsserts = 0, nAssertsConcrete = 0, nProbed = 0, nInconclAsserts = 0, nTransitions = 0;
    uint64_t nMemChecks = 0;
    std::map<std::string, uint64_t> incomplete, reach, assertSites, errCount;
    std::set<const llvm::Function*> executed;
    std::set<const llvm::BasicBlock*> visited;
    std::vector<ErrorRec> errors;
    std::vector<std::string> witnessFiles;
    unsigned witnessCount = 0;
    double t0 = 0;
    bool timedOut = false;

    Executor(llvm::Module& m, const Options& o);
    void run();
    void writeJson(const std::string& fn);
    double now();

private:
    State* cur = nullptr;
    // values
    unsigned widthOf(llvm::Type* t) { return (unsigned)DL.getTypeSizeInBits(t).getFixedValue(); }
    E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
    Val fromE(E e) { Val v; if (isConst(e)) v.c = e->val; else v.e = e; return v; }
    Val eval(State& s, const llvm::Value* v);
    Val evalConst(const llvm::Constant* c);
    FnInfo* info(const llvm::Function* f);
    // memory
    std::shared_ptr<Obj>* slotOf(State& s, uint32_t id);
    Obj* findObj(State& s, uint32_t id);
    Obj* writable(State& s, uint32_t id);
    uint64_t alloc(State& s, uint64_t size, ObjKind k, const std::string& name, bool undef, uint8_t fn = 0);
    void freeObj(State& s, uint32_t id);
    E byteAt(State& s, Obj*& o, uint32_t id, uint64_t off);
    Val loadBytes(State& s, uint32_t id, uint64_t off, unsigned nbytes);
    void storeBytes(State& s, uint32_t id, uint64_t off, const Val& v, unsigned nbytes);
    Val loadT(State& s, const Val& addr, llvm::Type* t);
    void storeT(State& s, const Val& addr, const Val& v, llvm::Type* t);
    Val loadScalar(State& s, const Val& addr, unsigned nbytes);
    void storeScalar(State& s, const Val& addr, const Val& v, unsigned nbytes);
    struct Loc { uint32_t id; uint64_t off; E offE; };
    Loc resolve(State& s, const Val& addr, uint64_t nbytes, const char* what, bool write);
    std::string readCString(State& s, uint64_t addr);
    void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n);
    void writeConst(Obj& o, uint64_t off, const llvm::Constant* c);
    // control
    void addPC(State& s, E c);
    R may(State& s, E c, Model* m, bool* valid, unsigned tmo);
    bool branch(State& s, E c);      // forks if both feasible; returns the side taken by s
    uint64_t concretize(State& s, const Val& v, unsigned w);
    void step(State& s);
    void runState(State& s);
    void enterBlock(State& s, Frame& f, const llvm::BasicBlock* to);
    void call(State& s, const llvm::CallBase& cb);
    void pushFrame(State& s, const llvm::Function* f, std::vector<Val>& args);
    void ret(State& s, const Val& v, bool hasVal);
    void finishCall(State& s, const llvm::CallBase& cb, const Val& v);
    void throwExc(State& s);
    bool tiMatches(State& s, uint64_t thrown, uint64_t want);
    std::vector<uint64_t> tiBases(State& s, uint64_t ti);
    std::string symName(uint64_t addr);
    void error(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr, bool confirmed = true, bool fatal = true);
    std::string location(State& s, std::string* trace, bool repoFirst);
    std::string writeWitness(State& s, const Model& m, const std::string& fn, bool expect);
    bool fullModel(State& s, Model& m);
    void endPath(State& s);
    void setupHandlers();
    void raise(State& s, const char* typeinfo, const char* vtable);
    bool constRange(State& s, const Val& addr, uint64_t n, uint32_t& id, uint64_t& off);
    E byteE(State& s, uint32_t id, uint64_t off) { Obj* o = findObj(s, id); return byteAt(s, o, id, off); }
    void setupGlobals(State& s);
    bool intrinsic(State& s, const llvm::CallBase& cb, const llvm::Function* f, std::vector<Val>& a, Val& r);
    Val binop(State& s, unsigned opc, const Val& a, const Val& b, unsigned w, llvm::Type* t);
    E icmpE(unsigned pred, E a, E b);
    Val castop(State& s, unsigned opc, const Val& a, llvm::Type* from, llvm::Type* to);
    E fcmpE(unsigned pred, E a, E b);
    bool probe(State& s, E bad, Model& out);
    void doAssert(State& s, E c, const std::string& msg);
    E libm(const std::string& n, unsigned w, std::vector<E> a);
};
} // namespace ms
