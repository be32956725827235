#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <stdexcept>
#include <cstdlib>
#include <cfenv>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>

namespace ms {
std::vector<VarInfo> g_vars;
std::vector<std::string> ufNames;
static std::unordered_map<std::string, unsigned> ufMap;
unsigned ufIndex(const std::string& n) {
    auto it = ufMap.find(n);
    if (it != ufMap.end()) return it->second;
    unsigned i = ufNames.size();
    ufNames.push_back(n);
    ufMap[n] = i;
    return i;
}

struct HKey { size_t operator()(const Expr* e) const {
    uint64_t h = (uint64_t)e->kind * 0x9E3779B97F4A7C15ULL ^ e->width * 0xC2B2AE3D27D4EB4FULL;
    h ^= e->val + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    for (int i = 0; i < 3; ++i) h ^= (uint64_t)(uintptr_t)e->k[i] * 0xff51afd7ed558ccdULL + (h << 6) + (h >> 2);
    h ^= h >> 29;
    return h; } };
struct HEq { bool operator()(const Expr* a, const Expr* b) const {
    return a->kind == b->kind && a->width == b->width && a->val == b->val && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
static std::unordered_set<const Expr*, HKey, HEq> table;
static std::deque<Expr> arena;
static std::set<std::vector<uint32_t>> varsets;
static const std::vector<uint32_t>* internVars(std::vector<uint32_t>&& v) { return &*varsets.insert(std::move(v)).first; }
static std::map<std::pair<const void*, const void*>, const std::vector<uint32_t>*> unionCache;
uint64_t exprCount() { return arena.size(); }

static const std::vector<uint32_t>* unionVars(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    auto key = std::make_pair((const void*)a, (const void*)b);
    auto it = unionCache.find(key);
    if (it != unionCache.end()) return it->second;
    std::vector<uint32_t> r;
    r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    auto p = internVars(std::move(r));
    unionCache[key] = p;
    return p;
}

static void computeRange(Expr& e) {
    e.umin = 0; e.umax = maskw(e.width);
    if (e.width > 64) { e.umax = ~0ULL; return; }
    uint64_t M = maskw(e.width);
    E a = e.k[0], b = e.k[1];
    switch (e.kind) {
        case K::CONST: e.umin = e.umax = e.val; break;
        case K::CONCAT:
            if (b->width < 64 && a->width <= 64) {
                e.umin = (a->umin << b->width) | b->umin;
                e.umax = (a->umax << b->width) | b->umax;
            }
            break;
        case K::ADD: {
            unsigned __int128 mx = (unsigned __int128)a->umax + b->umax;
            if (mx <= M) { e.umin = a->umin + b->umin; e.umax = (uint64_t)mx; }
            break; }
        case K::MUL: {
            unsigned __int128 mx = (unsigned __int128)a->umax * b->umax;
            if (mx <= M) { e.umin = a->umin * b->umin; e.umax = (uint64_t)mx; }
            break; }
        case K::UDIV: if (b->umin > 0) { e.umin = a->umin / b->umax; e.umax = a->umax / b->umin; } break;
        case K::UREM: if (b->umax > 0 && b->umin > 0) { e.umax = std::min(a->umax, b->umax - 1); } break;
        case K::AND: e.umax = std::min(a->umax, b->umax); break;
        case K::OR: { e.umin = std::max(a->umin, b->umin); uint64_t m = a->umax | b->umax; unsigned bits = m ? 64 - __builtin_clzll(m) : 0; e.umax = maskw(bits) & M; break; }
        case K::XOR: { uint64_t m = a->umax | b->umax; unsigned bits = m ? 64 - __builtin_clzll(m) : 0; e.umax = maskw(bits) & M; break; }
        case K::LSHR: e.umax = a->umax; if (b->kind == K::CONST && b->val < 64) { e.umin = a->umin >> b->val; e.umax = a->umax >> b->val; } break;
        case K::ITE: e.umin = std::min(b->umin, e.k[2]->umin); e.umax = std::max(b->umax, e.k[2]->umax); break;
        case K::EXTRACT: if (e.val == 0 && a->width <= 64 && a->umax <= M) { e.umin = a->umin; e.umax = a->umax; } break;
        default: break;
    }
}

static E mk(K kind, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr) {
    Expr t;
    t.kind = kind; t.width = w; t.val = val; t.k[0] = a; t.k[1] = b; t.k[2] = c;
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    t.id = arena.size();
    t.hasFP = (kind >= K::FADD && kind <= K::FSQRT) || kind == K::FCVT || (kind >= K::SITOFP && kind <= K::FROUND);
    t.hasUF = kind == K::UF;
    t.hasNL = kind >= K::MUL && kind <= K::SREM && !isConst(a) && !isConst(b);
    t.hasDiv = kind >= K::UDIV && kind <= K::SREM && isConst(b);
    static const std::vector<uint32_t>* none = internVars({});
    t.vars = none;
    if (kind == K::VAR) t.vars = internVars({(uint32_t)val});
    for (int i = 0; i < 3; ++i) if (t.k[i]) {
        t.hasFP |= t.k[i]->hasFP; t.hasUF |= t.k[i]->hasUF; t.hasDiv |= t.k[i]->hasDiv; t.hasNL |= t.k[i]->hasNL;
        t.vars = unionVars(t.vars, t.k[i]->vars);
    }
    computeRange(t);
    arena.push_back(t);
    E r = &arena.back();
    table.insert(r);
    return r;
}

E mkConst(uint64_t v, unsigned w) {
    if (w > 64) return mkConcat(mk(K::CONST, w - 64, 0), mk(K::CONST, 64, v));
    return mk(K::CONST, w, v & maskw(w));
}
E mkVar(const std::string& name, unsigned w, unsigned input, unsigned off) {
    uint64_t i = g_vars.size();
    g_vars.push_back({name, w, input, off});
    return mk(K::VAR, w, i);
}

uint64_t foldInt(K k, uint64_t a, uint64_t b, unsigned w, bool& ok) {
    uint64_t M = maskw(w);
    a &= M; b &= M;
    ok = true;
    switch (k) {
        case K::ADD: return (a + b) & M;
        case K::MUL: return (a * b) & M;
        case K::UDIV: if (!b) { ok = false; return 0; } return a / b;
        case K::UREM: if (!b) { ok = false; return 0; } return a % b;
        case K::SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) { ok = false; return 0; } if (y == -1) return (0 - a) & M; return (uint64_t)(x / y) & M; }
        case K::SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) { ok = false; return 0; } if (y == -1) return 0; return (uint64_t)(x % y) & M; }
        case K::AND: return a & b;
        case K::OR: return a | b;
        case K::XOR: return a ^ b;
        case K::SHL: return b >= w ? 0 : (a << b) & M;
        case K::LSHR: return b >= w ? 0 : a >> b;
        case K::ASHR: return b >= w ? (sx(a, w) < 0 ? M : 0) : (uint64_t)(sx(a, w) >> b) & M;
        case K::EQ: return a == b;
        case K::ULT: return a < b;
        case K::ULE: return a <= b;
        case K::SLT: return sx(a, w) < sx(b, w);
        case K::SLE: return sx(a, w) <= sx(b, w);
        default: ok = false; return 0;
    }
}
template<class T, class U> static T bits(U u) { T t; memcpy(&t, &u, sizeof t); return t; }
static inline double D(uint64_t a) { return bits<double>(a); }
static inline float F(uint64_t a) { return bits<float>((uint32_t)a); }
static inline uint64_t B(double d) { return bits<uint64_t>(d); }
static inline uint64_t BF(float f) { return bits<uint32_t>(f); }
template<class T> static T fop(K k, T a, T b) {
    volatile T x = a, y = b;
    switch (k) {
        case K::FADD: return x + y;
        case K::FSUB: return x - y;
        case K::FMUL: return x * y;
        case K::FDIV: return x / y;
        case K::FREM: return std::fmod((T)x, (T)y);
        case K::FSQRT: return std::sqrt((T)x);
        default: abort();
    }
}
uint64_t foldF(K k, uint64_t a, uint64_t b, unsigned w) {
    switch (k) {
        case K::FOEQ: return w == 64 ? D(a) == D(b) : F(a) == F(b);
        case K::FOLT: return w == 64 ? D(a) < D(b) : F(a) < F(b);
        case K::FOLE: return w == 64 ? D(a) <= D(b) : F(a) <= F(b);
        case K::FUNO: return w == 64 ? (std::isnan(D(a)) || std::isnan(D(b))) : (std::isnan(F(a)) || std::isnan(F(b)));
        default: break;
    }
    if (w == 64) return B(fop<double>(k, D(a), D(b)));
    return BF(fop<float>(k, F(a), F(b)));
}
uint64_t foldFCvt(uint64_t a, unsigned from, unsigned to) {
    if (from == to) return a;
    if (from == 32) return B((double)F(a));
    return BF((float)D(a));
}
uint64_t foldIToF(K k, uint64_t a, unsigned from, unsigned to) {
    if (k == K::SITOFP) { int64_t x = sx(a, from); return to == 64 ? B((double)x) : BF((float)x); }
    a &= maskw(from);
    return to == 64 ? B((double)a) : BF((float)a);
}
// x86-64 semantics of cvttsd2si for out of range values ("integer indefinite")
uint64_t foldFToI(K k, uint64_t a, unsigned from, unsigned to) {
    double d = from == 64 ? D(a) : (double)F(a);
    if (k == K::FPTOSI) {
        if (to == 64) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 1ULL << 63; return (uint64_t)(int64_t)d; }
        // narrower: via 32 bit conversion, then truncation
        if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ULL & maskw(to);
        return (uint64_t)(int64_t)(int32_t)d & maskw(to);
    }
    if (to == 64) {
        if (d >= 9223372036854775808.0 && d < 18446744073709551616.0) return (uint64_t)d;
        if (d > -9223372036854775809.0 && d < 9223372036854775808.0) return (uint64_t)(int64_t)d;
        return 1ULL << 63;
    }
    // uint32 and narrower: via 64 bit signed conversion, then truncation
    if (to == 32) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; return (uint64_t)(int64_t)d & maskw(32); }
    if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ULL & maskw(to);
    return (uint64_t)(int64_t)(int32_t)d & maskw(to);
}
uint64_t foldFRound(uint64_t a, unsigned w, unsigned mode) {
    double d = w == 64 ? D(a) : (double)F(a);
    switch (mode) {
        case 0: d = std::floor(d); break;
        case 1: d = std::ceil(d); break;
        case 2: d = std::trunc(d); break;
        case 3: d = std::nearbyint(d); break;
        case 4: d = std::round(d); break;
    }
    return w == 64 ? B(d) : BF((float)d);
}
uint64_t foldUF(unsigned fn, unsigned w, uint64_t a, uint64_t b, uint64_t) {
    const std::string& n = ufNames[fn];
    static const std::unordered_map<std::string, double(*)(double)> f1 = {
        {"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"exp", exp}, {"log", log}, {"log10", log10}, {"log2", log2},
        {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"exp2", exp2}, {"exp10", exp10}, {"cbrt", cbrt}, {"expm1", expm1}, {"log1p", log1p}};
    static const std::unordered_map<std::string, float(*)(float)> f1f = {
        {"sin", sinf}, {"cos", cosf}, {"tan", tanf}, {"asin", asinf}, {"acos", acosf}, {"atan", atanf}, {"exp", expf}, {"log", logf}, {"log10", log10f}, {"log2", log2f},
        {"sinh", sinhf}, {"cosh", coshf}, {"tanh", tanhf}, {"exp2", exp2f}, {"exp10", exp10f}, {"cbrt", cbrtf}, {"expm1", expm1f}, {"log1p", log1pf}};
    static const std::unordered_map<std::string, double(*)(double, double)> f2 = {{"pow", pow}, {"atan2", atan2}, {"hypot", hypot}};
    static const std::unordered_map<std::string, float(*)(float, float)> f2f = {{"pow", powf}, {"atan2", atan2f}, {"hypot", hypotf}};
    if (w == 64) {
        auto i = f1.find(n); if (i != f1.end()) return B(i->second(D(a)));
        auto j = f2.find(n); if (j != f2.end()) return B(j->second(D(a), D(b)));
    } else {
        auto i = f1f.find(n); if (i != f1f.end()) return BF(i->second(F(a)));
        auto j = f2f.find(n); if (j != f2f.end()) return BF(j->second(F(a), F(b)));
    }
    fprintf(stderr, "foldUF: unknown function %s\n", n.c_str());
    abort();
}

E mkNot(E a) { return mkBin(K::XOR, a, mkConst(~0ULL, a->width)); }
E mkSub(E a, E b) {
    if (isConst(b)) return mkBin(K::ADD, a, mkConst(0 - b->val, a->width));
    if (a == b) return mkConst(0, a->width);
    if (a->width > 64) { throw std::runtime_error("wide sub"); }
    // (x + y) - x  => y
    if (a->kind == K::ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0];
        // (x + c) - (y + d), (x+c) - y => (x-y)+c
        if (isConst(a->k[1])) return mkBin(K::ADD, mkSub(a->k[0], b), a->k[1]); }
    if (b->kind == K::ADD && isConst(b->k[1])) return mkBin(K::ADD, mkSub(a, b->k[0]), mkConst(0 - b->k[1]->val, a->width));
    return mkBin(K::ADD, a, mkBin(K::MUL, b, mkConst(~0ULL, b->width)));
}

static bool runsOf(uint64_t m, unsigned w, unsigned& runs) {
    runs = 0; bool prev = false;
    for (unsigned i = 0; i < w; ++i) { bool b = (m >> i) & 1; if (b && !prev) runs++; prev = b; }
    return true;
}

// Split bitwise operation at a boundary
static E splitBit(K k, E a, E b, unsigned low) {
    unsigned w = a->width;
    E hi = mkBin(k, mkExtract(a, low, w - low), mkExtract(b, low, w - low));
    E lo = mkBin(k, mkExtract(a, 0, low), mkExtract(b, 0, low));
    return mkConcat(hi, lo);
}

static E mkBitwise(K k, E a, E b) {
    unsigned w = a->width;
    if (a == b) { if (k == K::XOR) return mkConst(0, w); return a; }
    if (w <= 64) {
        if (isConst(a)) std::swap(a, b);
        if (isConst(b)) {
            uint64_t M = maskw(w), v = b->val;
            if (k == K::AND) { if (v == 0) return b; if (v == M) return a; }
            if (k == K::OR) { if (v == 0) return a; if (v == M) return b; }
            if (k == K::XOR) { if (v == 0) return a;
                if (w == 1) {
                    if (a->kind == K::XOR && isConst(a->k[1])) return a->k[0];
                    if (a->kind == K::ULT) return mkBin(K::ULE, a->k[1], a->k[0]);
                    if (a->kind == K::ULE) return mkBin(K::ULT, a->k[1], a->k[0]);
                    if (a->kind == K::SLT) return mkBin(K::SLE, a->k[1], a->k[0]);
                    if (a->kind == K::SLE) return mkBin(K::SLT, a->k[1], a->k[0]);
                }
            }
            if (a->kind == k && isConst(a->k[1])) { bool ok; return mkBin(k, a->k[0], mkConst(foldInt(k, a->k[1]->val, v, w, ok), w)); }
            if (k == K::AND || k == K::OR) {
                unsigned runs; runsOf(v, w, runs);
                if (w > 1 && runs <= 3) {
                    // split at first bit change from the bottom
                    bool b0 = v & 1; unsigned i = 1;
                    while (i < w && (((v >> i) & 1) == b0)) ++i;
                    if (i < w) return splitBit(k, a, b, i);
                }
            }
            if (w > 1 && a->kind == K::CONCAT) return splitBit(k, a, b, a->k[1]->width);
            if (a->kind == K::ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
        }
    }
    if (w == 1) {
        // boolean simplifications
        if (k == K::AND) { if (isFalse(a) || isFalse(b)) return mkConst(0, 1); if (mkNot(a) == b) return mkConst(0, 1); }
        if (k == K::OR) { if (mkNot(a) == b) return mkConst(1, 1); }
    } else if (a->kind == K::CONCAT && b->kind == K::CONCAT) {
        // split at the lowest common boundary of either
        unsigned la = a->k[1]->width, lb = b->k[1]->width;
        // use boundary giving head piece smaller on both: take the max (higher) boundary
        return splitBit(k, a, b, std::max(la, lb));
    } else if (a->kind == K::CONCAT || b->kind == K::CONCAT) {
        E c = a->kind == K::CONCAT ? a : b;
        // only if some piece is constant
        bool anyc = false;
        for (E p = c; ; p = p->k[1]) { if (p->kind != K::CONCAT) { anyc |= isConst(p); break; } anyc |= isConst(p->k[0]); }
        if (anyc) return splitBit(k, a, b, c->k[1]->width);
    }
    if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
    return mk(k, w, 0, a, b);
}

static E mkCmp(K k, E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkConst(k == K::EQ || k == K::ULE || k == K::SLE, 1);
    if (k == K::EQ) {
        if (isConst(a)) std::swap(a, b);
        if (w <= 64) { if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1); }
        if (w == 1) {
            if (isConst(b)) return b->val ? a : mkNot(a);
            return mkNot(mkBin(K::XOR, a, b));
        }
        if (a->kind == K::CONCAT && (isConst(b) || b->kind == K::CONCAT)) {
            unsigned lo = a->k[1]->width;
            if (b->kind == K::CONCAT) lo = std::max<unsigned>(lo, b->k[1]->width);
            return mkBin(K::AND, mkCmp(K::EQ, mkExtract(a, lo, w - lo), mkExtract(b, lo, w - lo)), mkCmp(K::EQ, mkExtract(a, 0, lo), mkExtract(b, 0, lo)));
        }
        if (b->kind == K::CONCAT && a->kind != K::CONCAT && isConst(b->k[0])) std::swap(a, b);
        if (a->kind == K::CONCAT && isConst(a->k[0])) {
            unsigned lo = a->k[1]->width;
            return mkBin(K::AND, mkCmp(K::EQ, a->k[0], mkExtract(b, lo, w - lo)), mkCmp(K::EQ, a->k[1], mkExtract(b, 0, lo)));
        }
        if (isConst(b)) {
            if (a->kind == K::ADD && isConst(a->k[1])) return mkCmp(K::EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
            if (a->kind == K::XOR && isConst(a->k[1])) return mkCmp(K::EQ, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
            if (a->kind == K::ITE) {
                E t = a->k[1], f = a->k[2];
                if (isConst(t) || isConst(f)) {
                    E te = mkCmp(K::EQ, t, b), fe = mkCmp(K::EQ, f, b);
                    return mkIte(a->k[0], te, fe);
                }
            }
            if (a->kind == K::SEXT) {
                unsigned iw = a->k[0]->width;
                if (sx(b->val, w) != sx(b->val & maskw(iw), iw)) return mkConst(0, 1);
                return mkCmp(K::EQ, a->k[0], mkConst(b->val, iw));
            }
        } else if (a->kind == K::SEXT && b->kind == K::SEXT && a->k[0]->width == b->k[0]->width) return mkCmp(K::EQ, a->k[0], b->k[0]);
        if (a->kind == K::ADD && b->kind == K::ADD && isConst(a->k[1]) && a->k[1] == b->k[1]) return mkCmp(K::EQ, a->k[0], b->k[0]);
        if (!isConst(b) && a->id > b->id) std::swap(a, b);
        return mk(K::EQ, 1, 0, a, b);
    }
    if (w <= 64) {
        if (k == K::SLT || k == K::SLE) {
            uint64_t sb = 1ULL << (w - 1);
            bool apos = a->umax < sb, bpos = b->umax < sb, aneg = a->umin >= sb, bneg = b->umin >= sb;
            if ((apos || aneg) && (bpos || bneg)) {
                if (aneg && bpos) return mkConst(1, 1);
                if (apos && bneg) return mkConst(0, 1);
                return mkCmp(k == K::SLT ? K::ULT : K::ULE, a, b);
            }
            // sign extension of both sides
            if (a->kind == K::SEXT && b->kind == K::SEXT && a->k[0]->width == b->k[0]->width) return mkCmp(k, a->k[0], b->k[0]);
            if (a->kind == K::SEXT && isConst(b)) { unsigned iw = a->k[0]->width; int64_t v = sx(b->val, w);
                int64_t mn = -(1LL << (iw - 1)), mx = (1LL << (iw - 1)) - 1;
                if (v < mn) return mkConst(0, 1);
                if (v > mx) return mkConst(1, 1);
                return mkCmp(k, a->k[0], mkConst((uint64_t)v, iw)); }
            if (b->kind == K::SEXT && isConst(a)) { unsigned iw = b->k[0]->width; int64_t v = sx(a->val, w);
                int64_t mn = -(1LL << (iw - 1)), mx = (1LL << (iw - 1)) - 1;
                if (v < mn) return mkConst(1, 1);
                if (v > mx) return mkConst(0, 1);
                return mkCmp(k, mkConst((uint64_t)v, iw), b->k[0]); }
        } else {
            if (k == K::ULT) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
            else { if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1); }
            // strip common zero high parts
            auto zeroHigh = [](E x) -> unsigned { if (x->kind == K::CONCAT && isConst(x->k[0]) && x->k[0]->val == 0) return x->k[0]->width; if (isConst(x)) { return x->val ? x->width - (64 - __builtin_clzll(x->val)) : x->width; } return 0; };
            unsigned z = std::min(zeroHigh(a), zeroHigh(b));
            if (z > 0 && z < w) return mkCmp(k, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
            if (k == K::ULT && isConst(b) && b->val == 1) return mkCmp(K::EQ, a, mkConst(0, w));
            if (k == K::ULE && isConst(b) && b->val == 0) return mkCmp(K::EQ, a, mkConst(0, w));
            if (k == K::ULT && isConst(a) && a->val == 0) return mkNot(mkCmp(K::EQ, b, mkConst(0, w)));
        }
        if (a->kind == K::ITE && isConst(b) && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkCmp(k, a->k[1], b), mkCmp(k, a->k[2], b));
        if (b->kind == K::ITE && isConst(a) && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkCmp(k, a, b->k[1]), mkCmp(k, a, b->k[2]));
    }
    return mk(k, 1, 0, a, b);
}

E mkBin(K k, E a, E b) {
    unsigned w = a->width;
    if (a->width != b->width) { throw std::runtime_error("width mismatch"); }
    if (isConst(a) && isConst(b)) {
        bool ok; uint64_t r = foldInt(k, a->val, b->val, w, ok);
        if (ok) return mkConst(r, (k >= K::EQ && k <= K::SLE) ? 1 : w);
    }
    switch (k) {
        case K::AND: case K::OR: case K::XOR: return mkBitwise(k, a, b);
        case K::EQ: case K::ULT: case K::ULE: case K::SLT: case K::SLE: return mkCmp(k, a, b);
        case K::ADD:
            if (isConst(a)) std::swap(a, b);
            if (isConst(b)) {
                if (b->val == 0) return a;
                if (a->kind == K::ADD && isConst(a->k[1])) return mkBin(K::ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
                if (a->kind == K::ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
            } else {
                // float constants outwards
                if (a->kind == K::ADD && isConst(a->k[1])) return mkBin(K::ADD, mkBin(K::ADD, a->k[0], b), a->k[1]);
                if (b->kind == K::ADD && isConst(b->k[1])) return mkBin(K::ADD, mkBin(K::ADD, a, b->k[0]), b->k[1]);
                // x + (-1)*x
                auto isNeg = [](E x, E y) { return x->kind == K::MUL && isConst(x->k[1]) && x->k[1]->val == maskw(x->width) && x->k[0] == y; };
                if (isNeg(a, b) || isNeg(b, a)) return mkConst(0, w);
                // y + (x + (-1)*y) => x
                auto cancel = [&](E s, E y) -> E { if (s->kind == K::ADD) { if (isNeg(s->k[0], y)) return s->k[1]; if (isNeg(s->k[1], y)) return s->k[0]; } return nullptr; };
                if (E r = cancel(a, b)) return r;
                if (E r = cancel(b, a)) return r;
                auto cancel2 = [&](E s, E n) -> E { if (s->kind == K::ADD) { if (isNeg(n, s->k[0])) return s->k[1]; if (isNeg(n, s->k[1])) return s->k[0]; } return nullptr; };
                if (E r = cancel2(a, b)) return r;
                if (E r = cancel2(b, a)) return r;
            }
            if (!isConst(b) && a->id > b->id) std::swap(a, b);
            return mk(K::ADD, w, 0, a, b);
        case K::MUL:
            if (isConst(a)) std::swap(a, b);
            if (isConst(b)) {
                if (b->val == 0) return b;
                if (b->val == 1) return a;
                if ((b->val & (b->val - 1)) == 0) return mkBin(K::SHL, a, mkConst(__builtin_ctzll(b->val), w));
                if (a->kind == K::MUL && isConst(a->k[1])) return mkBin(K::MUL, a->k[0], mkConst(a->k[1]->val * b->val, w));
                if (a->kind == K::ADD && isConst(a->k[1])) return mkBin(K::ADD, mkBin(K::MUL, a->k[0], b), mkConst(a->k[1]->val * b->val, w));
                if (a->kind == K::ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
                // -1 * (x + -1*y): distribute
                if (b->val == maskw(w) && a->kind == K::ADD) return mkBin(K::ADD, mkBin(K::MUL, a->k[0], b), mkBin(K::MUL, a->k[1], b));
            }
            if (!isConst(b) && a->id > b->id) std::swap(a, b);
            return mk(K::MUL, w, 0, a, b);
        case K::SHL:
            if (isConst(b)) {
                if (b->val == 0) return a;
                if (b->val >= w) return mkConst(0, w);
                return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val));
            }
            break;
        case K::LSHR:
            if (isConst(b)) {
                if (b->val == 0) return a;
                if (b->val >= w) return mkConst(0, w);
                return mkZExt(mkExtract(a, b->val, w - b->val), w);
            }
            break;
        case K::ASHR:
            if (isConst(b)) {
                if (b->val == 0) return a;
                uint64_t s = std::min<uint64_t>(b->val, w - 1);
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            break;
        case K::UDIV:
            if (isConst(b)) {
                if (b->val == 1) return a;
                if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(K::LSHR, a, mkConst(__builtin_ctzll(b->val), w));
            }
            if (w <= 64 && b->umin > a->umax) return mkConst(0, w);
            // narrow
            if (w > 8 && w <= 64 && isConst(b) && b->val) {
                uint64_t m = std::max(a->umax, b->umax); unsigned n = 64 - __builtin_clzll(m | 1);
                if (n < w) return mkZExt(mkBin(K::UDIV, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
            }
            break;
        case K::UREM:
            if (isConst(b)) {
                if (b->val == 1) return mkConst(0, w);
                if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(K::AND, a, mkConst(b->val - 1, w));
            }
            if (w <= 64 && b->umin > a->umax) return a;
            if (w > 8 && w <= 64 && isConst(b) && b->val) {
                uint64_t m = std::max(a->umax, b->umax); unsigned n = 64 - __builtin_clzll(m | 1);
                if (n < w) return mkZExt(mkBin(K::UREM, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
            }
            break;
        case K::SDIV: case K::SREM:
            if (w <= 64) {
                uint64_t sb = 1ULL << (w - 1);
                if (a->umax < sb && b->umax < sb) return mkBin(k == K::SDIV ? K::UDIV : K::UREM, a, b);
            }
            break;
        default: break;
    }
    if (w > 64) { throw std::runtime_error("wide arithmetic"); }
    return mk(k, w, 0, a, b);
}

E mkIte(E c, E a, E b) {
    if (isConst(c)) return c->val ? a : b;
    if (a == b) return a;
    if (a->width == 1) {
        if (isConst(a) && isConst(b)) return a->val ? c : mkNot(c);
        if (isTrue(a)) return mkBin(K::OR, c, b);
        if (isFalse(a)) return mkBin(K::AND, mkNot(c), b);
        if (isTrue(b)) return mkBin(K::OR, mkNot(c), a);
        if (isFalse(b)) return mkBin(K::AND, c, a);
    }
    if (c->kind == K::XOR && isConst(c->k[1])) return mkIte(c->k[0], b, a);
    if (a->kind == K::ITE && a->k[0] == c) a = a->k[1];
    if (b->kind == K::ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (a->kind == K::CONCAT && b->kind == K::CONCAT && a->k[1]->width == b->k[1]->width && (a->k[0] == b->k[0] || a->k[1] == b->k[1]))
        return mkConcat(mkIte(c, a->k[0], b->k[0]), mkIte(c, a->k[1], b->k[1]));
    return mk(K::ITE, a->width, 0, c, a, b);
}

E mkConcat(E hi, E lo) {
    if (hi->kind == K::CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    E head = lo->kind == K::CONCAT ? lo->k[0] : lo;
    E rest = lo->kind == K::CONCAT ? lo->k[1] : nullptr;
    E m = nullptr;
    if (isConst(hi) && isConst(head) && hi->width + head->width <= 64) m = mkConst((hi->val << head->width) | head->val, hi->width + head->width);
    else if (hi->kind == K::EXTRACT && head->kind == K::EXTRACT && hi->k[0] == head->k[0] && hi->val == head->val + head->width)
        m = mkExtract(hi->k[0], head->val, hi->width + head->width);
    else if (hi->kind == K::EXTRACT && hi->k[0] == head && hi->val == head->width) m = nullptr;
    else if (hi->kind == K::ITE && head->kind == K::ITE && hi->k[0] == head->k[0]) {
        // keep bytes of one ite together
        E t = mkConcat(hi->k[1], head->k[1]), f = mkConcat(hi->k[2], head->k[2]);
        m = mkIte(hi->k[0], t, f);
        if (m->kind != K::ITE) { if (rest) return mkConcat(m, rest); return m; }
    }
    if (m) { if (rest) return mkConcat(m, rest); return m; }
    return mk(K::CONCAT, hi->width + lo->width, 0, hi, lo);
}

E mkExtract(E x, unsigned lo, unsigned w) {
    if (lo == 0 && w == x->width) return x;
    if (lo + w > x->width || w == 0) { throw std::runtime_error("bad extract"); }
    switch (x->kind) {
        case K::CONST: return mkConst(x->val >> lo, w);
        case K::EXTRACT: return mkExtract(x->k[0], x->val + lo, w);
        case K::CONCAT: {
            unsigned lw = x->k[1]->width;
            if (lo + w <= lw) return mkExtract(x->k[1], lo, w);
            if (lo >= lw) return mkExtract(x->k[0], lo - lw, w);
            return mkConcat(mkExtract(x->k[0], 0, lo + w - lw), mkExtract(x->k[1], lo, lw - lo));
        }
        case K::SEXT: {
            unsigned iw = x->k[0]->width;
            if (lo + w <= iw) return mkExtract(x->k[0], lo, w);
            if (lo < iw) return mkSExt(mkExtract(x->k[0], lo, iw - lo), w);
            return mkSExt(mkExtract(x->k[0], iw - 1, 1), w);
        }
        case K::ITE: 
            return mkIte(x->k[0], mkExtract(x->k[1], lo, w), mkExtract(x->k[2], lo, w));
        case K::AND: case K::OR: case K::XOR:
            return mkBin(x->kind, mkExtract(x->k[0], lo, w), mkExtract(x->k[1], lo, w));
        case K::ADD: case K::MUL:
            if (x->kind == K::MUL && x->width <= 64 && !isConst(x->k[0]) && !isConst(x->k[1])) break;   // keep one product term
            if (lo == 0) return mkBin(x->kind, mkExtract(x->k[0], 0, w), mkExtract(x->k[1], 0, w));
            break;
        default: break;
    }
    if (x->width <= 64 && lo < 64 && (x->umax >> lo) == 0) return mkConst(0, w);
    return mk(K::EXTRACT, w, lo, x);
}
E mkZExt(E x, unsigned w) {
    if (w == x->width) return x;
    E r = x; unsigned need = w - x->width;
    while (need > 0) { unsigned n = std::min(need, 64u); r = mkConcat(mkConst(0, n), r); need -= n; }
    return r;
}
E mkSExt(E x, unsigned w) {
    if (w == x->width) return x;
    if (isConst(x) && w <= 64) return mkConst((uint64_t)sx(x->val, x->width), w);
    if (x->width <= 64 && x->umax < (1ULL << (x->width - 1))) return mkZExt(x, w);
    if (x->kind == K::SEXT) return mkSExt(x->k[0], w);
    if (x->kind == K::ITE && isConst(x->k[1]) && isConst(x->k[2])) return mkIte(x->k[0], mkSExt(x->k[1], w), mkSExt(x->k[2], w));
    return mk(K::SEXT, w, 0, x);
}
E mkFBin(K k, E a, E b) {
    unsigned w = a->width;
    bool cmp = k >= K::FOEQ && k <= K::FUNO;
    if (isConst(a) && isConst(b)) return mkConst(foldF(k, a->val, b->val, w), cmp ? 1 : w);
    if (k == K::FADD || k == K::FMUL || k == K::FOEQ || k == K::FUNO) if (a->id > b->id) std::swap(a, b);
    if (cmp) {
        uint64_t inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL, ab = w == 64 ? ~(1ULL << 63) : 0x7fffffffULL;
        auto nan = [&](E x) { return isConst(x) && (x->val & ab) > inf; };
        if (k != K::FUNO && (nan(a) || nan(b))) return mkConst(0, 1);
        if (k == K::FUNO && (nan(a) || nan(b))) return mkConst(1, 1);
        auto notnan = [&](E x) { return (isConst(x) && !nan(x)) || x->kind == K::SITOFP || x->kind == K::UITOFP; };
        if (k == K::FUNO) {
            if (notnan(a) && notnan(b)) return mkConst(0, 1);
            if (notnan(a)) a = b;
            else if (notnan(b)) b = a;
        }
        if (a == b && k == K::FOLT) return mkConst(0, 1);
        if (a == b && (k == K::FOEQ || k == K::FOLE)) return mkNot(mkFBin(K::FUNO, a, a));
        // comparisons of small-integer conversions with constants stay FP
        if (a->kind == K::ITE && isConst(b) && (isConst(a->k[1]) || isConst(a->k[2]))) return mkIte(a->k[0], mkFBin(k, a->k[1], b), mkFBin(k, a->k[2], b));
        if (b->kind == K::ITE && isConst(a) && (isConst(b->k[1]) || isConst(b->k[2]))) return mkIte(b->k[0], mkFBin(k, a, b->k[1]), mkFBin(k, a, b->k[2]));
    }
    return mk(k, cmp ? 1 : w, 0, a, b);
}
E mkFSqrt(E a) { if (isConst(a)) return mkConst(foldF(K::FSQRT, a->val, 0, a->width), a->width); return mk(K::FSQRT, a->width, 0, a); }
E mkFCvt(E a, unsigned w) {
    if (a->width == w) return a;
    if (isConst(a)) return mkConst(foldFCvt(a->val, a->width, w), w);
    if (a->kind == K::FCVT && w == 32 && a->k[0]->width == 32) return a->k[0];
    if (a->kind == K::ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkFCvt(a->k[1], w), mkFCvt(a->k[2], w));
    return mk(K::FCVT, w, 0, a);
}
E mkIToFP(K k, E a, unsigned w) {
    if (isConst(a)) return mkConst(foldIToF(k, a->val, a->width, w), w);
    // normalise: strip sign/zero extension
    if (k == K::SITOFP && a->kind == K::SEXT) return mkIToFP(K::SITOFP, a->k[0], w);
    if (a->width <= 64 && k == K::SITOFP && a->umax < (1ULL << (a->width - 1))) k = K::UITOFP;
    if (k == K::UITOFP && a->width <= 64) { unsigned n = 64 - __builtin_clzll(a->umax | 1); if (n < a->width) a = mkExtract(a, 0, n); }
    if (a->kind == K::ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkIToFP(k, a->k[1], w), mkIToFP(k, a->k[2], w));
    return mk(k, w, 0, a);
}
E mkFToI(K k, E a, unsigned w) {
    if (isConst(a)) return mkConst(foldFToI(k, a->val, a->width, w), w);
    // exact round trip of an integer of at most 53 (24) significant bits
    if ((a->kind == K::SITOFP || a->kind == K::UITOFP)) {
        E i = a->k[0]; unsigned prec = a->width == 64 ? 53 : 24;
        if (i->width <= prec && i->width <= w) {
            if (a->kind == K::SITOFP && k == K::FPTOSI) return mkSExt(i, w);
            if (a->kind == K::UITOFP && (k == K::FPTOUI || i->width < w)) return mkZExt(i, w);
        }
    }
    return mk(k, w, 0, a);
}
E mkFRound(E a, unsigned mode) {
    if (isConst(a)) return mkConst(foldFRound(a->val, a->width, mode), a->width);
    if (a->kind == K::SITOFP || a->kind == K::UITOFP || a->kind == K::FROUND) return a;
    return mk(K::FROUND, a->width, mode, a);
}
E mkUF(unsigned fn, unsigned w, E a, E b, E c) {
    if (isConst(a) && (!b || isConst(b)) && (!c || isConst(c))) return mkConst(foldUF(fn, w, a->val, b ? b->val : 0, c ? c->val : 0), w);
    return mk(K::UF, w, fn, a, b, c);
}

unsigned __int128 Evaluator::eval128(E e) {
    typedef unsigned __int128 U;
    if (e->width <= 64) return eval(e);
    if (e->width > 128) { fprintf(stderr, "eval: width %u\n", e->width); abort(); }
    U M = e->width == 128 ? ~(U)0 : (((U)1 << e->width) - 1);
    switch (e->kind) {
        case K::ITE: return eval(e->k[0]) ? eval128(e->k[1]) : eval128(e->k[2]);
        case K::CONCAT: return ((eval128(e->k[0]) << e->k[1]->width) | eval128(e->k[1])) & M;
        case K::MUL: return (eval128(e->k[0]) * eval128(e->k[1])) & M;
        case K::ADD: return (eval128(e->k[0]) + eval128(e->k[1])) & M;
        case K::AND: return eval128(e->k[0]) & eval128(e->k[1]);
        case K::OR: return eval128(e->k[0]) | eval128(e->k[1]);
        case K::XOR: return eval128(e->k[0]) ^ eval128(e->k[1]);
        case K::SEXT: { unsigned iw = e->k[0]->width; U v = eval128(e->k[0]); if ((v >> (iw - 1)) & 1) v |= ~(((U)1 << iw) - 1); return v & M; }
        case K::EXTRACT: return (eval128(e->k[0]) >> e->val) & M;
        default: fprintf(stderr, "eval: wide kind %d\n", (int)e->kind); abort();
    }
}
uint64_t Evaluator::eval(E e) {
    if (e->kind == K::CONST) return e->val;
    if (e->kind == K::VAR) return e->val < m.size() ? m[e->val] : 0;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    uint64_t r = 0; unsigned w = e->width;
    switch (e->kind) {
        case K::ITE: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
        case K::CONCAT: {
            uint64_t lo = eval(e->k[1]);
            if (e->k[1]->width >= 64) r = lo; else r = (eval(e->k[0]) << e->k[1]->width) | lo;
            break; }
        case K::EXTRACT: {
            E x = e->k[0];
            if (x->width <= 64) r = eval(x) >> e->val;
            else r = (uint64_t)(eval128(x) >> e->val);
            break; }
        case K::SEXT: r = (uint64_t)sx(eval(e->k[0]), e->k[0]->width); break;
        case K::FADD: case K::FSUB: case K::FMUL: case K::FDIV: case K::FREM: r = foldF(e->kind, eval(e->k[0]), eval(e->k[1]), w); break;
        case K::FSQRT: r = foldF(e->kind, eval(e->k[0]), 0, w); break;
        case K::FOEQ: case K::FOLT: case K::FOLE: case K::FUNO: r = foldF(e->kind, eval(e->k[0]), eval(e->k[1]), e->k[0]->width); break;
        case K::FCVT: r = foldFCvt(eval(e->k[0]), e->k[0]->width, w); break;
        case K::SITOFP: case K::UITOFP: r = foldIToF(e->kind, eval(e->k[0]), e->k[0]->width, w); break;
        case K::FPTOSI: case K::FPTOUI: r = foldFToI(e->kind, eval(e->k[0]), e->k[0]->width, w); break;
        case K::FROUND: r = foldFRound(eval(e->k[0]), w, e->val); break;
        case K::UF: r = foldUF(e->val, w, eval(e->k[0]), e->k[1] ? eval(e->k[1]) : 0, e->k[2] ? eval(e->k[2]) : 0); break;
        default: {
            bool ok; uint64_t a = eval(e->k[0]), b = eval(e->k[1]);
            r = foldInt(e->kind, a, b, e->k[0]->width, ok);
            if (!ok) { // SMT-LIB division by zero semantics
                unsigned iw = e->k[0]->width;
                if (e->kind == K::UDIV) r = maskw(iw);
                else if (e->kind == K::UREM || e->kind == K::SREM) r = a;
                else if (e->kind == K::SDIV) r = sx(a, iw) < 0 ? 1 : maskw(iw);
            }
        }
    }
    r &= maskw(w);
    memo[e] = r;
    return r;
}

static const char* kn[] = {"const","var","add","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","foeq","folt","fole","funo","fcvt","sitofp","uitofp","fptosi","fptoui","fround","uf"};
std::string str(E e, int depth) {
    char buf[64];
    if (isConst(e)) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->val, e->width); return buf; }
    if (e->kind == K::VAR) return g_vars[e->val].name;
    if (depth == 0) { snprintf(buf, sizeof buf, "#%u", e->id); return buf; }
    std::string r = "(";
    r += e->kind == K::UF ? ufNames[e->val] : kn[(int)e->kind];
    if (e->kind == K::EXTRACT) { snprintf(buf, sizeof buf, "[%llu+%u]", (unsigned long long)e->val, e->width); r += buf; }
    else { snprintf(buf, sizeof buf, ":%u", e->width); r += buf; }
    for (int i = 0; i < 3; ++i) if (e->k[i]) { r += " "; r += str(e->k[i], depth - 1); }
    return r + ")";
}
} // namespace ms
namespace ms {
// extract without pushing it into the operand (so that reassembling the bytes restores it)
E mkRawExtract(E x, unsigned lo, unsigned w) {
    if (lo == 0 && w == x->width) return x;
    if (x->kind == K::CONST || x->kind == K::EXTRACT || x->kind == K::CONCAT) return mkExtract(x, lo, w);
    return mk(K::EXTRACT, w, lo, x);
}
}
