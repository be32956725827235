// Hash-consed bit-vector / IEEE-754 expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

namespace ms {

enum class K : uint8_t {
    CONST, VAR,
    ADD, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE,
    ITE, CONCAT, EXTRACT, SEXT,
    FADD, FSUB, FMUL, FDIV, FREM, FSQRT,
    FOEQ, FOLT, FOLE, FUNO,
    FCVT,            // width -> width (32<->64)
    SITOFP, UITOFP, FPTOSI, FPTOUI,
    FROUND,          // val: 0 floor 1 ceil 2 trunc 3 rint(RNE) 4 round(RNA)
    UF               // val: function index (see ufNames)
};

struct Expr {
    K kind;
    uint16_t width;
    uint32_t id;
    uint64_t val;      // CONST value, VAR index, EXTRACT low bit, FROUND mode, UF index
    const Expr* k[3];
    uint64_t umin, umax;   // unsigned range (valid if width <= 64)
    bool hasFP;        // contains a floating point arithmetic node
    bool hasNL;        // contains a product or division of two non-constant terms
    bool hasDiv;       // contains an integer division by a constant
    bool hasUF;        // contains an uninterpreted (libm) function
    const std::vector<uint32_t>* vars;  // sorted variable indices
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned width; unsigned input; unsigned off; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> ufNames;
unsigned ufIndex(const std::string& name);

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w, unsigned input, unsigned off);
E mkBin(K k, E a, E b);            // integer arithmetic/bitwise/comparison
E mkSub(E a, E b);
E mkNot(E a);                       // bitwise not
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkZExt(E x, unsigned w);
E mkSExt(E x, unsigned w);
E mkFBin(K k, E a, E b);            // FADD.. FREM, FOEQ..
E mkFSqrt(E a);
E mkFCvt(E a, unsigned w);
E mkIToFP(K k, E a, unsigned w);
E mkFToI(K k, E a, unsigned w);
E mkFRound(E a, unsigned mode);
E mkUF(unsigned fn, unsigned w, E a, E b = nullptr, E c = nullptr);
static inline bool isConst(E e) { return e->kind == K::CONST; }
static inline bool isTrue(E e) { return e->kind == K::CONST && (e->val & 1); }
static inline bool isFalse(E e) { return e->kind == K::CONST && !(e->val & 1); }

// native folding
uint64_t foldInt(K k, uint64_t a, uint64_t b, unsigned w, bool& ok);
uint64_t foldF(K k, uint64_t a, uint64_t b, unsigned w);
uint64_t foldFCvt(uint64_t a, unsigned from, unsigned to);
uint64_t foldIToF(K k, uint64_t a, unsigned from, unsigned to);
uint64_t foldFToI(K k, uint64_t a, unsigned from, unsigned to);
uint64_t foldFRound(uint64_t a, unsigned w, unsigned mode);
uint64_t foldUF(unsigned fn, unsigned w, uint64_t a, uint64_t b, uint64_t c);

// assignment: variable index -> value
typedef std::vector<uint64_t> Model;    // indexed by variable (missing = 0)
struct Evaluator {
    const Model& m;
    std::unordered_map<E, uint64_t> memo;
    explicit Evaluator(const Model& m) : m(m) {}
    unsigned __int128 eval128(E e);
    uint64_t eval(E e);                 // value (low 64 bits); wide nodes unsupported except via extract
};
std::string str(E e, int depth = 6);
uint64_t exprCount();
} // namespace ms
