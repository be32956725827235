#include "solver.h"
#include "interval.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
#include <set>
#include <unordered_set>
#include <z3++.h>

namespace ms {

struct Solver::Impl {
    z3::context c;
    // tier 0: FP arithmetic abstracted; tier 1: precise
    std::unordered_map<E, z3::expr> bvMemo[2], fpMemo[2];
    std::unordered_map<E, z3::expr> ufVars[2];
    std::map<std::vector<uint32_t>, std::pair<R, std::pair<Model, bool>>> cache;
    z3::sort f32, f64;
    Impl() : f32(c), f64(c) {
        f32 = z3::sort(c, Z3_mk_fpa_sort_32(c));
        f64 = z3::sort(c, Z3_mk_fpa_sort_64(c));
        Z3_set_ast_print_mode(c, Z3_PRINT_SMTLIB2_COMPLIANT);
    }
    z3::sort fs(unsigned w) { return w == 64 ? f64 : f32; }
    z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
    z3::expr rm(unsigned mode) {
        switch (mode) {
            case 0: return z3::expr(c, Z3_mk_fpa_rtn(c));
            case 1: return z3::expr(c, Z3_mk_fpa_rtp(c));
            case 2: return z3::expr(c, Z3_mk_fpa_rtz(c));
            case 3: return z3::expr(c, Z3_mk_fpa_rne(c));
            default: return z3::expr(c, Z3_mk_fpa_rna(c));
        }
    }
    static bool isFpArith(K k) { return (k >= K::FADD && k <= K::FSQRT) || k == K::FCVT || k == K::SITOFP || k == K::UITOFP || k == K::FROUND; }
    static bool abstracted(E e, int tier) {
        if (e->kind == K::UF) return true;
        if (tier == 0 && (e->kind == K::FADD || e->kind == K::FSUB || e->kind == K::FMUL || e->kind == K::FDIV || e->kind == K::FREM || e->kind == K::FSQRT)) return true;
        if (tier == 0 && e->kind >= K::MUL && e->kind <= K::SREM && e->width <= 64 && e->width >= 16 && !isConst(e->k[0]) && !isConst(e->k[1])) return true;
        return false;
    }
    z3::expr freshFor(E e, int tier) {
        auto it = ufVars[tier].find(e);
        if (it != ufVars[tier].end()) return it->second;
        std::string n = "uf" + std::to_string(e->id);
        z3::expr v = c.bv_const(n.c_str(), e->width);
        ufVars[tier].emplace(e, v);
        return v;
    }
    z3::expr b1(const z3::expr& cond) { return z3::ite(cond, c.bv_val(1, 1), c.bv_val(0, 1)); }

    // Division by a constant is encoded relationally (q*c + r == x, r < c): far easier to bit-blast
    // than a divider circuit.  The defining constraints accompany every query that uses the node.
    std::map<std::pair<E, std::pair<uint64_t, bool>>, std::pair<z3::expr, z3::expr>> quotVars[2];
    std::unordered_map<E, std::vector<z3::expr>> quotDefs[2];
    static bool constDiv(E e) {
        if (!isConst(e->k[1]) || e->width > 64 || e->width < 4) return false;
        uint64_t c = e->k[1]->val;
        if (c < 2) return false;
        if (e->kind == K::SDIV || e->kind == K::SREM) return c < (1ULL << (e->width - 1));
        return true;
    }
    z3::expr quot(E e, int t, bool rem) {
        bool sg = e->kind == K::SDIV || e->kind == K::SREM;
        uint64_t cv = e->k[1]->val; unsigned w = e->width;
        auto key = std::make_pair(e->k[0], std::make_pair(cv, sg));
        auto it = quotVars[t].find(key);
        if (it == quotVars[t].end()) {
            z3::expr x = bv(e->k[0], t), C = c.bv_val((uint64_t)cv, w);
            std::string n = std::to_string(e->id);
            z3::expr q = c.bv_const(("q" + n).c_str(), w), r = c.bv_const(("r" + n).c_str(), w);
            it = quotVars[t].emplace(key, std::make_pair(q, r)).first;
        }
        z3::expr q = it->second.first, r = it->second.second;
        if (!quotDefs[t].count(e)) {
            z3::expr x = bv(e->k[0], t), C = c.bv_val((uint64_t)cv, w), Z = c.bv_val(0, w);
            std::vector<z3::expr> d;
            d.push_back(q * C + r == x);
            if (!sg) {
                d.push_back(z3::ule(q, c.bv_val((uint64_t)((w <= 64 ? e->k[0]->umax : maskw(w)) / cv), w)));
                d.push_back(z3::ult(r, C));
                d.push_back(z3::ule(r, x));
            } else {
                uint64_t mx = (maskw(w) >> 1) / cv;
                d.push_back(q <= c.bv_val((uint64_t)mx, w));
                d.push_back(q >= c.bv_val((uint64_t)((0 - (1ULL << (w - 1)) / cv) & maskw(w)), w));
                d.push_back(z3::ite(x >= Z, r >= Z && r < C && q >= Z, r <= Z && r > -C && q <= Z));
            }
            quotDefs[t].emplace(e, d);
        }
        return rem ? r : q;
    }
    z3::expr fp(E e, int t) {
        auto it = fpMemo[t].find(e);
        if (it != fpMemo[t].end()) return it->second;
        z3::expr r(c);
        if (isFpArith(e->kind) && !abstracted(e, t)) {
            Z3_ast a = nullptr;
            switch (e->kind) {
                case K::FADD: a = Z3_mk_fpa_add(c, rne(), fp(e->k[0], t), fp(e->k[1], t)); break;
                case K::FSUB: a = Z3_mk_fpa_sub(c, rne(), fp(e->k[0], t), fp(e->k[1], t)); break;
                case K::FMUL: a = Z3_mk_fpa_mul(c, rne(), fp(e->k[0], t), fp(e->k[1], t)); break;
                case K::FDIV: a = Z3_mk_fpa_div(c, rne(), fp(e->k[0], t), fp(e->k[1], t)); break;
                case K::FREM: { // C fmod: x - y*trunc(x/y); expressed through IEEE remainder
                    z3::expr x = fp(e->k[0], t), y = fp(e->k[1], t);
                    z3::expr ax(c, Z3_mk_fpa_abs(c, x)), ay(c, Z3_mk_fpa_abs(c, y));
                    z3::expr rr(c, Z3_mk_fpa_rem(c, ax, ay));
                    z3::expr neg(c, Z3_mk_fpa_is_negative(c, rr));
                    z3::expr zero(c, Z3_mk_fpa_is_zero(c, rr));
                    z3::expr adj(c, Z3_mk_fpa_add(c, rne(), rr, ay));
                    z3::expr pos = z3::ite(neg && !zero, adj, z3::expr(c, Z3_mk_fpa_abs(c, rr)));
                    z3::expr xn(c, Z3_mk_fpa_is_negative(c, x));
                    z3::expr res = z3::ite(xn, z3::expr(c, Z3_mk_fpa_neg(c, pos)), pos);
                    fpMemo[t].emplace(e, res);
                    return res; }
                case K::FSQRT: a = Z3_mk_fpa_sqrt(c, rne(), fp(e->k[0], t)); break;
                case K::FCVT: a = Z3_mk_fpa_to_fp_float(c, rne(), fp(e->k[0], t), fs(e->width)); break;
                case K::SITOFP: a = Z3_mk_fpa_to_fp_signed(c, rne(), bv(e->k[0], t), fs(e->width)); break;
                case K::UITOFP: a = Z3_mk_fpa_to_fp_unsigned(c, rne(), bv(e->k[0], t), fs(e->width)); break;
                case K::FROUND: a = Z3_mk_fpa_round_to_integral(c, rm(e->val), fp(e->k[0], t)); break;
                default: abort();
            }
            r = z3::expr(c, a);
        } else if (e->kind == K::ITE) {
            r = z3::ite(bv(e->k[0], t) == c.bv_val(1, 1), fp(e->k[1], t), fp(e->k[2], t));
        } else {
            r = z3::expr(c, Z3_mk_fpa_to_fp_bv(c, bv(e, t), fs(e->width)));
        }
        fpMemo[t].emplace(e, r);
        return r;
    }
    z3::expr bv(E e, int t) {
        auto it = bvMemo[t].find(e);
        if (it != bvMemo[t].end()) return it->second;
        z3::expr r(c);
        auto A = [&](int i) { return bv(e->k[i], t); };
        if (abstracted(e, t)) r = freshFor(e, t);
        else if (isFpArith(e->kind)) r = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, fp(e, t)));
        else switch (e->kind) {
            case K::CONST: r = c.bv_val((uint64_t)e->val, e->width); break;
            case K::VAR: r = c.bv_const(("v" + std::to_string(e->val)).c_str(), e->width); break;
            case K::ADD: r = A(0) + A(1); break;
            case K::MUL: r = A(0) * A(1); break;
            case K::UDIV: case K::UREM:
                if (constDiv(e)) { r = quot(e, t, e->kind == K::UREM); break; }
                r = e->kind == K::UDIV ? z3::udiv(A(0), A(1)) : z3::urem(A(0), A(1)); break;
            case K::SDIV: case K::SREM:
                if (constDiv(e)) { r = quot(e, t, e->kind == K::SREM); break; }
                r = e->kind == K::SDIV ? A(0) / A(1) : z3::srem(A(0), A(1)); break;
            case K::AND: r = A(0) & A(1); break;
            case K::OR: r = A(0) | A(1); break;
            case K::XOR: r = A(0) ^ A(1); break;
            case K::SHL: r = z3::shl(A(0), A(1)); break;
            case K::LSHR: r = z3::lshr(A(0), A(1)); break;
            case K::ASHR: r = z3::ashr(A(0), A(1)); break;
            case K::EQ: r = b1(A(0) == A(1)); break;
            case K::ULT: r = b1(z3::ult(A(0), A(1))); break;
            case K::ULE: r = b1(z3::ule(A(0), A(1))); break;
            case K::SLT: r = b1(A(0) < A(1)); break;
            case K::SLE: r = b1(A(0) <= A(1)); break;
            case K::ITE: r = z3::ite(A(0) == c.bv_val(1, 1), A(1), A(2)); break;
            case K::CONCAT: r = z3::concat(A(0), A(1)); break;
            case K::EXTRACT: r = A(0).extract(e->val + e->width - 1, e->val); break;
            case K::SEXT: r = z3::sext(A(0), e->width - e->k[0]->width); break;
            case K::FOEQ: case K::FOLT: case K::FOLE: case K::FUNO: {
                // comparisons of plain bit patterns stay in the bit-vector theory
                auto plain = [&](E x) { return !x->hasFP || abstracted(x, t); };
                if (plain(e->k[0]) && plain(e->k[1])) {
                    z3::expr x = A(0), y = A(1); unsigned w = e->k[0]->width;
                    z3::expr mag = c.bv_val((uint64_t)(w == 64 ? 0x7fffffffffffffffULL : 0x7fffffffULL), w), inf = c.bv_val((uint64_t)(w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL), w), top = ~mag;
                    z3::expr nan = z3::ugt(x & mag, inf) || z3::ugt(y & mag, inf), zero = (((x | y) & mag) == c.bv_val(0, w));
                    auto key = [&](const z3::expr& v) { return z3::ite((v & top) == top, ~v, v | top); };   // monotonic in the value
                    if (e->kind == K::FUNO) r = b1(nan);
                    else if (e->kind == K::FOEQ) r = b1(!nan && (x == y || zero));
                    else if (e->kind == K::FOLE) r = b1(!nan && (z3::ule(key(x), key(y)) || zero));
                    else r = b1(!nan && z3::ult(key(x), key(y)) && !zero);
                    break;
                }
                z3::expr x = fp(e->k[0], t), y = fp(e->k[1], t);
                if (e->kind == K::FUNO) r = b1(z3::expr(c, Z3_mk_fpa_is_nan(c, x)) || z3::expr(c, Z3_mk_fpa_is_nan(c, y)));
                else r = b1(z3::expr(c, e->kind == K::FOEQ ? Z3_mk_fpa_eq(c, x, y) : e->kind == K::FOLT ? Z3_mk_fpa_lt(c, x, y) : Z3_mk_fpa_leq(c, x, y)));
                break; }
            case K::FPTOSI: case K::FPTOUI: {
                bool sgn = e->kind == K::FPTOSI;
                z3::expr x = fp(e->k[0], t);
                unsigned sw = e->k[0]->width, w = e->width;
                auto lit = [&](double d) { return z3::expr(c, Z3_mk_fpa_numeral_double(c, d, fs(sw))); };
                auto lt = [&](const z3::expr& a, const z3::expr& b) { return z3::expr(c, Z3_mk_fpa_lt(c, a, b)); };
                auto le = [&](const z3::expr& a, const z3::expr& b) { return z3::expr(c, Z3_mk_fpa_leq(c, a, b)); };
                z3::expr rtz(c, Z3_mk_fpa_rtz(c));
                if (sgn && w == 64) {
                    z3::expr in = le(lit(-9223372036854775808.0), x) && lt(x, lit(9223372036854775808.0));
                    r = z3::ite(in, z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz, x, 64)), c.bv_val((uint64_t)1 << 63, 64));
                } else if (sgn || w < 32) {
                    z3::expr in = sw == 64 ? lt(lit(-2147483649.0), x) && lt(x, lit(2147483648.0)) : le(lit(-2147483648.0), x) && lt(x, lit(2147483648.0));
                    r = z3::ite(in, z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz, x, 32)), c.bv_val((uint64_t)0x80000000u, 32));
                    if (w < 32) r = r.extract(w - 1, 0);
                } else if (w == 32) {
                    z3::expr in = le(lit(-9223372036854775808.0), x) && lt(x, lit(9223372036854775808.0));
                    r = z3::ite(in, z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz, x, 64)), c.bv_val((uint64_t)0, 64)).extract(31, 0);
                } else {
                    z3::expr in1 = le(lit(9223372036854775808.0), x) && lt(x, lit(18446744073709551616.0));
                    z3::expr in2 = le(lit(-9223372036854775808.0), x) && lt(x, lit(9223372036854775808.0));
                    r = z3::ite(in1, z3::expr(c, Z3_mk_fpa_to_ubv(c, rtz, x, 64)),
                        z3::ite(in2, z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz, x, 64)), c.bv_val((uint64_t)1 << 63, 64)));
                }
                break; }
            default: fprintf(stderr, "bv: bad kind %d\n", (int)e->kind); abort();
        }
        bvMemo[t].emplace(e, r);
        return r;
    }
};

Solver::Solver() : im(new Impl) {}
Solver::~Solver() {}

std::vector<E> slice(const std::vector<E>& pc, E e) {
    std::vector<E> out;
    std::vector<char> used(pc.size(), 0);
    std::unordered_set<uint32_t> vs(e->vars->begin(), e->vars->end());
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (used[i]) continue;
            bool hit = false;
            for (uint32_t v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; changed = true;
            vs.insert(pc[i]->vars->begin(), pc[i]->vars->end());
        }
    }
    for (size_t i = 0; i < pc.size(); ++i) if (used[i]) out.push_back(pc[i]);
    return out;
}

static void collect(E e, std::unordered_set<E>& seen, std::vector<E>& abs, int tier) {
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (!seen.insert(x).second) continue;
        if (Solver::Impl::abstracted(x, tier)) abs.push_back(x);
        for (int i = 0; i < 3; ++i) if (x->k[i] && (x->k[i]->hasFP || x->k[i]->hasUF || x->k[i]->hasNL)) st.push_back(x->k[i]);
    }
}

// z3's own timeout is not honoured in some preprocessing steps
struct Watch {
    std::mutex m; std::condition_variable cv; bool done = false; std::thread th;
    Watch(z3::context& c, double secs) : th([this, &c, secs] {
        std::unique_lock<std::mutex> l(m);
        while (!cv.wait_for(l, std::chrono::duration<double>(secs), [this] { return done; })) c.interrupt();
    }) {}
    ~Watch() { { std::lock_guard<std::mutex> l(m); done = true; } cv.notify_all(); th.join(); }
};
static void collectDiv(E e, std::unordered_set<E>& seen, std::vector<E>& out) {
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (!x->hasDiv || !seen.insert(x).second) continue;
        if (x->kind >= K::UDIV && x->kind <= K::SREM && Solver::Impl::constDiv(x)) out.push_back(x);
        for (int i = 0; i < 3; ++i) if (x->k[i]) st.push_back(x->k[i]);
    }
}

R Solver::check(const std::vector<E>& cs0, Model* m, bool* valid, unsigned tmo) {
    if (valid) *valid = true;
    std::vector<E> cs;
    bool fp = false, uf = false, nl = false;
    for (E e : cs0) { if (isFalse(e)) return R::UNSAT; if (isTrue(e)) continue; cs.push_back(e); fp |= e->hasFP; uf |= e->hasUF; nl |= e->hasNL; }
    if (cs.empty()) return R::SAT;
    std::vector<uint32_t> key;
    for (E e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto hit = im->cache.find(key);
    if (hit != im->cache.end() && hit->second.first != R::UNKNOWN) {
        stats.cacheHits++;
        if (hit->second.first == R::SAT) {
            std::set<uint32_t> vs;
            for (E e : cs) vs.insert(e->vars->begin(), e->vars->end());
            if (m) for (uint32_t v : vs) { if (m->size() <= v) m->resize(v + 1, 0); (*m)[v] = v < hit->second.second.first.size() ? hit->second.second.first[v] : 0; }
            if (valid) *valid = hit->second.second.second;
        }
        return hit->second.first;
    }
    auto t0 = std::chrono::steady_clock::now();
    if (deadline > 0) {
        double rest = deadline - std::chrono::duration<double>(t0.time_since_epoch()).count();
        tmo = (unsigned)std::min<double>(tmo, std::max(300.0, rest * 1000));
    }
    stats.queries++;
    R result = R::UNKNOWN;
    Model mod; bool ok = true;
    bool byInterval = (fp || uf) && intervalUnsat(cs);
    if (byInterval) { result = R::UNSAT; stats.intervalUnsat++; }
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::vector<E> varNodes;
    auto boxes = [&](double secs) {
        if (varNodes.empty() || varNodes.size() > 64) return;
        Model bm; int r = branchAndPrune(cs, varNodes, secs, bm, stats.boxes);
        if (r == 1) result = R::SAT, mod = bm, ok = true;
        if (r == 0) result = R::UNSAT;
        if (r >= 0) stats.byBoxes++;
    };
    if (!byInterval && (fp || uf)) {
        std::unordered_set<E> seen; std::vector<E> st(cs.begin(), cs.end());
        while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->kind == K::VAR) varNodes.push_back(x); for (int i = 0; i < 3; ++i) if (x->k[i]) st.push_back(x->k[i]); }
        std::sort(varNodes.begin(), varNodes.end(), [](E a, E b) { return a->val < b->val; });
        boxes(std::min(3.0, tmo / 3000.0));
        if (result != R::UNKNOWN) byInterval = true;
    }
    if (!byInterval) try {
        std::set<uint32_t> vs;
        for (E e : cs) vs.insert(e->vars->begin(), e->vars->end());
        std::vector<E> facts; // extra constraints from refinement (valid native point facts)
        for (int tier = fp || nl ? 0 : 1; tier < 2 && result == R::UNKNOWN; ++tier) {
            if (tier == 0) {
                // the abstraction is only worthwhile if something gets abstracted
                std::unordered_set<E> seen; std::vector<E> abs;
                for (E e : cs) collect(e, seen, abs, 0);
                bool any = false; for (E a : abs) any |= a->kind != K::UF;
                if (!any) continue;
            }
            for (int round = 0; round < (uf || tier == 0 ? 24 : 1); ++round) {
                std::vector<E> all = cs;
                all.insert(all.end(), facts.begin(), facts.end());
                std::unordered_set<E> seen; std::vector<E> abs;
                for (E e : all) collect(e, seen, abs, tier);
                z3::solver s = (!fp && !uf) ? z3::solver(im->c, "QF_BV") : z3::solver(im->c, "QF_BVFP");
                z3::params p(im->c);
                double left = tmo / 1000.0 - elapsed();
                if (tier == 0) left = std::min(left, tmo / 4000.0 + 1);
                if (left < 0.2) left = 0.2;
                p.set("timeout", (unsigned)(left * 1000));
                s.set(p);
                for (E e : all) s.add(im->bv(e, tier) == im->c.bv_val(1, 1));
                {
                    std::unordered_set<E> sd; std::vector<E> divs;
                    for (E e : all) collectDiv(e, sd, divs);
                    for (E e : divs) { im->bv(e, tier); for (auto& d : im->quotDefs[tier].at(e)) s.add(d); }
                }
                // congruence + range axioms for abstracted functions
                std::map<std::pair<int, uint64_t>, std::vector<E>> groups;
                for (E a : abs) groups[{(int)a->kind * 128 + a->width, a->kind == K::UF ? a->val : 0}].push_back(a);
                for (auto& g : groups) {
                    auto& v = g.second;
                    for (size_t i = 0; i < v.size() && v.size() <= 64; ++i) for (size_t j = i + 1; j < v.size(); ++j) {
                        z3::expr eq = im->c.bool_val(true);
                        for (int q = 0; q < 3; ++q) if (v[i]->k[q]) eq = eq && im->bv(v[i]->k[q], tier) == im->bv(v[j]->k[q], tier);
                        s.add(z3::implies(eq, im->freshFor(v[i], tier) == im->freshFor(v[j], tier)));
                    }
                }
                for (E a : abs) if (a->kind != K::UF && a->width <= 64 && !(a->kind >= K::FADD)) {
                    if (a->umax < maskw(a->width)) s.add(z3::ule(im->freshFor(a, tier), im->c.bv_val((uint64_t)a->umax, a->width)));
                    if (a->umin > 0) s.add(z3::uge(im->freshFor(a, tier), im->c.bv_val((uint64_t)a->umin, a->width)));
                }
                {
                    std::vector<E> fa; for (E a : abs) if (a->kind >= K::FADD) fa.push_back(a);
                    std::vector<FBound> fb; intervalBounds(all, fa, fb);
                    for (size_t q = 0; q < fa.size(); ++q) {
                        if (!(fb[q].lo <= fb[q].hi)) continue;
                        auto& c = im->c; unsigned w = fa[q]->width; z3::expr x = im->freshFor(fa[q], tier);
                        z3::expr mag = c.bv_val((uint64_t)(w == 64 ? 0x7fffffffffffffffULL : 0x7fffffffULL), w), inf = c.bv_val((uint64_t)(w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL), w), top = ~mag;
                        auto key = [&](const z3::expr& v) { return z3::ite((v & top) == top, ~v, v | top); };
                        auto lit = [&](double d) { uint64_t u = 0; if (w == 64) memcpy(&u, &d, 8); else { float f = (float)d; uint32_t t; memcpy(&t, &f, 4); u = t; } return c.bv_val(u, w); };
                        z3::expr nan = z3::ugt(x & mag, inf);
                        double lo = fb[q].lo == 0 ? -0.0 : fb[q].lo, hi = fb[q].hi == 0 ? 0.0 : fb[q].hi;
                        z3::expr in = z3::ule(key(lit(lo)), key(x)) && z3::ule(key(x), key(lit(hi)));
                        s.add(fb[q].nan ? nan || in : !nan && in);
                    }
                }
                for (E a : abs) if (a->kind == K::UF) {
                    const std::string& n = ufNames[a->val];
                    auto& c = im->c;
                    z3::expr r(c, Z3_mk_fpa_to_fp_bv(c, im->freshFor(a, tier), im->fs(a->width)));
                    auto lit = [&](double d) { return z3::expr(c, Z3_mk_fpa_numeral_double(c, d, im->fs(a->width))); };
                    auto le = [&](const z3::expr& x, const z3::expr& y) { return z3::expr(c, Z3_mk_fpa_leq(c, x, y)); };
                    z3::expr nan(c, Z3_mk_fpa_is_nan(c, r));
                    double lo = 0, hi = 0; bool has = true;
                    if (n == "sin" || n == "cos" || n == "tanh") lo = -1, hi = 1;
                    else if (n == "acos") lo = 0, hi = 3.1415929;
                    else if (n == "asin" || n == "atan") lo = -1.5707965, hi = 1.5707965;
                    else if (n == "atan2") lo = -3.1415929, hi = 3.1415929;
                    else has = false;
                    if (has) s.add(nan || (le(lit(lo), r) && le(r, lit(hi))));
                    if (n == "exp" || n == "exp2" || n == "hypot" || n == "cosh") s.add(nan || le(lit(0), r));
                    // finite, not NaN argument gives a non-NaN result
                    if (n == "sin" || n == "cos" || n == "atan" || n == "exp" || n == "tanh" || n == "tan") {
                        z3::expr x = im->fp(a->k[0], tier);
                        z3::expr xn(c, Z3_mk_fpa_is_nan(c, x)), xi(c, Z3_mk_fpa_is_infinite(c, x));
                        if (n == "sin" || n == "cos" || n == "tan") s.add(z3::implies(!xn && !xi, !nan));
                        else s.add(z3::implies(!xn, !nan));
                        s.add(z3::implies(xn, nan));
                    }
                }
                if (!dumpDir.empty()) {
                    std::string fn = dumpDir + "/q" + std::to_string(stats.queries) + "_t" + std::to_string(tier) + "_" + std::to_string(round) + ".smt2";
                    if (FILE* f = fopen(fn.c_str(), "w")) { fprintf(f, "%s", s.to_smt2().c_str()); fclose(f); }
                }
                z3::check_result cr;
                {
                    Watch w(im->c, left + 1.5);
                    cr = s.check();
                }
                if (cr == z3::unsat) { result = R::UNSAT; if (tier == 0) stats.abstractUnsat++; break; }
                if (cr == z3::unknown) break;
                // SAT: extract and confirm natively
                z3::model zm = s.get_model();
                Model cand;
                for (uint32_t v : vs) {
                    if (cand.size() <= v) cand.resize(v + 1, 0);
                    z3::expr val = zm.eval(im->c.bv_const(("v" + std::to_string(v)).c_str(), g_vars[v].width), true);
                    uint64_t u = 0;
                    if (!val.is_numeral_u64(u)) u = 0;
                    cand[v] = u;
                }
                Evaluator ev(cand);
                bool good = true;
                for (E e : cs) if (!(ev.eval(e) & 1)) { good = false; break; }
                if (good) { result = R::SAT; mod = cand; ok = true; break; }
                // refine: pin each abstracted function at the arguments of this candidate
                stats.ufRefinements++;
                bool added = false;
                for (E a : abs) {
                    E cond = mkConst(1, 1);
                    uint64_t r = ev.eval(a);
                    for (int q = 0; q < 3; ++q) if (a->k[q]) cond = mkBin(K::AND, cond, mkBin(K::EQ, a->k[q], mkConst(ev.eval(a->k[q]), a->k[q]->width)));
                    E fact = mkBin(K::OR, mkNot(cond), mkBin(K::EQ, a, mkConst(r, a->width)));
                    if (!isTrue(fact) && std::find(facts.begin(), facts.end(), fact) == facts.end()) { facts.push_back(fact); added = true; }
                }
                if (tier == 0 && round >= 3) break; // go precise
                if (tier == 1) { result = R::UNKNOWN; mod = cand; ok = false; }
                if (!added) { if (tier == 1) { result = R::SAT; } break; }
                if (elapsed() * 1000 > tmo) { if (tier == 1) result = R::SAT; break; }
                if (tier == 1 && round == 23) result = R::SAT;
            }
            if (tier == 1 && result == R::UNKNOWN && !ok) result = R::SAT;
        }
    } catch (z3::exception& ex) {
        fprintf(stderr, "z3: %s\n", ex.msg());
        result = R::UNKNOWN;
    }
    if (!byInterval && (fp || uf) && (result == R::UNKNOWN || (result == R::SAT && !ok))) {
        R before = result; result = R::UNKNOWN; boxes(std::min(5.0, tmo / 2000.0)); if (result == R::UNKNOWN) result = before;
    }
    double dt = elapsed();
    stats.seconds += dt;
    stats.maxSeconds = std::max(stats.maxSeconds, dt);
    if (result == R::SAT) stats.sat++; else if (result == R::UNSAT) stats.unsat++; else stats.unknown++;
    im->cache[key] = {result, {mod, ok}};
    if (result == R::SAT) {
        if (m) { for (size_t v = 0; v < mod.size(); ++v) { bool in = false; (void)in; }
            std::set<uint32_t> vs; for (E e : cs) vs.insert(e->vars->begin(), e->vars->end());
            for (uint32_t v : vs) { if (m->size() <= v) m->resize(v + 1, 0); (*m)[v] = v < mod.size() ? mod[v] : 0; } }
        if (valid) *valid = ok;
    }
    return result;
}
} // namespace ms
