// Interval reasoning over a conjunction: proves it unsatisfiable without bit blasting the floating point arithmetic.
// IEEE operations with round to nearest are monotone, so evaluating them at the end points bounds the result exactly.
#include "expr.h"
#include "interval.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <unordered_map>
namespace ms {
namespace {
struct F { double lo, hi; bool nan; };                 // all values of a floating point term: [lo,hi], and NaN if flagged
struct I { __int128 lo, hi; };                         // signed value of an integer term
const double INF = INFINITY;
double toD(uint64_t v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
struct Ctx {
    std::unordered_map<E, F> fenv; std::unordered_map<E, I> ienv;      // facts from the constraints
    std::unordered_map<E, F> fm; std::unordered_map<E, I> im; std::unordered_map<E, int> bm;
    bool bottom = false;
    static double rnd(double d, unsigned w) { return w == 32 ? (double)(float)d : d; }
    F top() { return {-INF, INF, true}; }
    static I iTop(unsigned w) { return w > 64 ? I{-((__int128)1 << 120), (__int128)1 << 120} : I{-((__int128)1 << (w - 1)), ((__int128)1 << (w - 1)) - 1}; }
    // one IEEE operation at concrete end points
    static double op(K k, double a, double b, unsigned w) {
        if (w == 32) { float x = (float)a, y = (float)b; switch (k) { case K::FADD: return x + y; case K::FSUB: return x - y; case K::FMUL: return x * y; default: return x / y; } }
        switch (k) { case K::FADD: return a + b; case K::FSUB: return a - b; case K::FMUL: return a * b; default: return a / b; }
    }
    F f(E e) {
        auto it = fm.find(e); if (it != fm.end()) return it->second;
        fm[e] = top();
        F r = f0(e);
        auto k = fenv.find(e);
        if (k != fenv.end()) { r.lo = std::max(r.lo, k->second.lo); r.hi = std::min(r.hi, k->second.hi); r.nan = r.nan && k->second.nan; }
        if (!(r.lo <= r.hi) && !r.nan) bottom = true;
        return fm[e] = r;
    }
    F f0(E e) {
        unsigned w = e->width;
        switch (e->kind) {
            case K::CONST: { double d = toD(e->val, w); return std::isnan(d) ? F{INF, -INF, true} : F{d, d, false}; }
            case K::ITE: { int c = b(e->k[0]); F x = f(e->k[1]), y = f(e->k[2]); if (c == 1) return x; if (c == 0) return y;
                return {std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.nan || y.nan}; }
            case K::AND: if (isConst(e->k[1]) && e->k[1]->val == (w == 64 ? 0x7fffffffffffffffULL : 0x7fffffffULL)) { // fabs
                F x = f(e->k[0]); double l = x.lo <= 0 && x.hi >= 0 ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)); return {l, std::max(std::fabs(x.lo), std::fabs(x.hi)), x.nan}; }
                return top();
            case K::CONCAT: if (isConst(e->k[0]) && e->k[0]->width == 1 && e->k[1]->kind == K::EXTRACT && e->k[1]->val == 0 && e->k[1]->k[0]->width == w) { // sign bit replaced
                F x = f(e->k[1]->k[0]); double l = x.lo <= 0 && x.hi >= 0 ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)), h = std::max(std::fabs(x.lo), std::fabs(x.hi)); return e->k[0]->val ? F{-h, -l, x.nan} : F{l, h, x.nan}; }
                return top();
            case K::XOR: if (isConst(e->k[1]) && e->k[1]->val == (w == 64 ? 0x8000000000000000ULL : 0x80000000ULL)) { F x = f(e->k[0]); return {-x.hi, -x.lo, x.nan}; } return top();
            case K::FADD: case K::FSUB: case K::FMUL: case K::FDIV: {
                F x = f(e->k[0]), y = f(e->k[1]); bool nan = x.nan || y.nan;
                if (!(x.lo <= x.hi) || !(y.lo <= y.hi)) return {INF, -INF, true};
                if (e->kind == K::FMUL && e->k[0] == e->k[1]) { double a = op(K::FMUL, x.lo, x.lo, w), c = op(K::FMUL, x.hi, x.hi, w); return {x.lo <= 0 && x.hi >= 0 ? 0 : std::min(a, c), std::max(a, c), nan}; }
                if (e->kind == K::FSUB) { double t = -y.lo; y.lo = -y.hi; y.hi = t; }
                bool xinf = std::isinf(x.lo) || std::isinf(x.hi), yinf = std::isinf(y.lo) || std::isinf(y.hi);
                bool x0 = x.lo <= 0 && x.hi >= 0, y0 = y.lo <= 0 && y.hi >= 0;
                if (e->kind == K::FADD || e->kind == K::FSUB) {
                    if ((x.hi == INF && y.lo == -INF) || (x.lo == -INF && y.hi == INF)) nan = true;
                    double l = op(K::FADD, x.lo, y.lo, w), h = op(K::FADD, x.hi, y.hi, w);
                    return {std::isnan(l) ? -INF : l, std::isnan(h) ? INF : h, nan};
                }
                if (e->kind == K::FDIV) { if (y0) return {-INF, INF, nan || x0 || (xinf && yinf)}; if (xinf && yinf) return {-INF, INF, true}; }
                else if ((x0 && yinf) || (y0 && xinf)) return {-INF, INF, true};
                double v[4] = {op(e->kind, x.lo, y.lo, w), op(e->kind, x.lo, y.hi, w), op(e->kind, x.hi, y.lo, w), op(e->kind, x.hi, y.hi, w)};
                return {*std::min_element(v, v + 4), *std::max_element(v, v + 4), nan};
            }
            case K::FSQRT: { F x = f(e->k[0]); if (x.hi < 0) return {INF, -INF, true}; return {rnd(x.lo > 0 ? (w == 32 ? sqrtf((float)x.lo) : sqrt(x.lo)) : 0, w), w == 32 ? sqrtf((float)x.hi) : sqrt(x.hi), x.nan || x.lo < 0}; }
            case K::FCVT: { F x = f(e->k[0]); return {rnd(x.lo, w), rnd(x.hi, w), x.nan}; }
            case K::SITOFP: { I x = i(e->k[0]); return {w == 32 ? (double)(float)(int64_t)x.lo : (double)(int64_t)x.lo, w == 32 ? (double)(float)(int64_t)x.hi : (double)(int64_t)x.hi, false}; }
            case K::UITOFP: { uint64_t lo = e->k[0]->umin, hi = e->k[0]->umax; I x = i(e->k[0]); if (x.lo >= 0) { lo = std::max<uint64_t>(lo, (uint64_t)x.lo); hi = std::min<uint64_t>(hi, (uint64_t)x.hi); }
                return {w == 32 ? (double)(float)lo : (double)lo, w == 32 ? (double)(float)hi : (double)hi, false}; }
            case K::FROUND: { F x = f(e->k[0]); auto g = [&](double d) { return std::isinf(d) ? d : toD(foldFRound([&] { uint64_t u = 0; if (w == 64) memcpy(&u, &d, 8); else { float q = (float)d; uint32_t t; memcpy(&t, &q, 4); u = t; } return u; }(), w, e->val), w); };
                return {g(x.lo), g(x.hi), x.nan}; }
            case K::UF: {
                std::string n = ufNames[e->val]; if (w == 32 && !n.empty() && n.back() == 'f') n.pop_back();
                F x = e->k[0] ? f(e->k[0]) : top(); bool fin = !x.nan && x.lo > -INF && x.hi < INF; const double E = 1e-6;
                if (n == "sin" || n == "cos") {
                    if (!fin || std::fabs(x.lo) > 1e6 || std::fabs(x.hi) > 1e6 || x.hi - x.lo > 7) return {-1, 1, !fin};
                    // extrema lie at phase + k pi
                    double a = n == "sin" ? sin(x.lo) : cos(x.lo), b = n == "sin" ? sin(x.hi) : cos(x.hi), ph = n == "sin" ? M_PI_2 : 0, lo = std::min(a, b), hi = std::max(a, b);
                    for (double k = std::floor((x.lo - ph) / M_PI) - 1; k <= std::ceil((x.hi - ph) / M_PI) + 1; ++k) { double q = ph + k * M_PI; if (q >= x.lo - 1e-9 && q <= x.hi + 1e-9) { if (std::fmod(std::fabs(k), 2) < 0.5) hi = 1; else lo = -1; } }
                    double e = w == 32 ? 1e-6 : 1e-12; return {std::max(-1.0, lo - e), std::min(1.0, hi + e), false};
                }
                if ((n == "atan" || n == "asin" || n == "acos") && !x.nan && (n == "atan" || (x.lo >= -1 && x.hi <= 1))) { double e = w == 32 ? 1e-6 : 1e-12, a = n == "atan" ? atan(x.lo) : n == "asin" ? asin(x.lo) : acos(x.hi), b = n == "atan" ? atan(x.hi) : n == "asin" ? asin(x.hi) : acos(x.lo); return {a - e, b + e, false}; }
                if (n == "pow" && e->k[1] && isConst(e->k[1])) { // constant exponent, base not negative (or even exponent)
                    double y = toD(e->k[1]->val, w); bool even = y == std::floor(y) && std::fmod(std::fabs(y), 2) == 0; double l = x.lo, h = x.hi;
                    if (y > 0 && (l >= 0 || even)) { if (l < 0) { double m = std::max(-l, h); l = h < 0 ? -h : 0; h = m; } double a = std::pow(l, y), b = std::pow(h, y); const double q = w == 32 ? 1e-6 : 1e-12; return {a - q * a, std::isinf(b) ? b : b + q * b, x.nan}; }
                    return top();
                }
                if (n == "atan") return {x.lo >= 0 ? 0 : -1.5707965, x.hi <= 0 ? 0 : 1.5707965, x.nan};
                if (n == "tanh") return {-1, 1, x.nan};
                if (n == "asin") return {x.lo >= 0 ? 0 : -1.5707965, x.hi <= 0 ? 0 : 1.5707965, x.nan || x.lo < -1 || x.hi > 1};
                if (n == "acos") return {0, 3.1415929, x.nan || x.lo < -1 || x.hi > 1};
                if (n == "atan2") return {-3.1415929, 3.1415929, x.nan || f(e->k[1]).nan};
                // monotone library functions, with slack for their rounding
                auto mono = [&](double (*g)(double), double lim) -> F { double l = x.lo < lim ? -INF : g(x.lo), h = g(std::max(x.hi, lim)); if (std::isnan(l)) l = -INF; if (std::isnan(h)) h = INF; return {l - E * std::fabs(l) - (std::isinf(l) ? 0 : 1e-300), h + E * std::fabs(h), x.nan || x.lo < lim}; };
                if (n == "exp") { F r = mono(exp, -INF); r.lo = std::max(r.lo, 0.0); return r; }
                if (n == "log") return mono(log, 0);
                if (n == "log10") return mono(log10, 0);
                if (n == "tan" && fin && x.lo > -1.57 && x.hi < 1.57) return mono(tan, -INF);
                if (n == "hypot") return {0, INF, true};
                return top();
            }
            default: return top();
        }
    }
    // unsigned range of a constant or of the magnitude bits of a floating point value
    bool umag(E e, I& r) {
        if (isConst(e)) { r = {(__int128)e->val, (__int128)e->val}; return true; }
        if (e->kind != K::EXTRACT || e->val != 0) return false;
        E x = e->k[0]; unsigned v = x->width; if ((v != 64 && v != 32) || e->width != v - 1) return false;
        if (!(x->kind >= K::FADD && x->kind <= K::FSQRT) && x->kind != K::FCVT && x->kind != K::SITOFP && x->kind != K::UITOFP && x->kind != K::FROUND && x->kind != K::UF && !fenv.count(x)) return false;
        F q = f(x); if (q.nan || !(q.lo <= q.hi)) return false;
        auto bits = [&](double d) -> __int128 { if (v == 64) { uint64_t u; memcpy(&u, &d, 8); return (__int128)u; } float s = (float)d; uint32_t u; memcpy(&u, &s, 4); return (__int128)u; };
        r = {bits(q.lo <= 0 && q.hi >= 0 ? 0.0 : std::min(std::fabs(q.lo), std::fabs(q.hi))), bits(std::max(std::fabs(q.lo), std::fabs(q.hi)))}; return true;
    }
    I meet(I a, I c) { return {std::max(a.lo, c.lo), std::min(a.hi, c.hi)}; }
    I i(E e) {
        auto it = im.find(e); if (it != im.end()) return it->second;
        im[e] = iTop(e->width);
        I r = i0(e);
        if (e->width <= 64) { // unsigned range, where it does not cross the sign
            __int128 half = (__int128)1 << (e->width - 1), full = half * 2;
            if ((__int128)e->umax < half) r = meet(r, {(__int128)e->umin, (__int128)e->umax});
            else if ((__int128)e->umin >= half) r = meet(r, {(__int128)e->umin - full, (__int128)e->umax - full});
        }
        auto k = ienv.find(e); if (k != ienv.end()) r = meet(r, k->second);
        if (r.lo > r.hi) { bottom = true; r = iTop(e->width); }
        return im[e] = r;
    }
    I i0(E e) {
        unsigned w = e->width; I t = iTop(w);
        if (w > 64) return t;
        auto fit = [&](__int128 lo, __int128 hi) { return lo >= t.lo && hi <= t.hi ? I{lo, hi} : t; };
        switch (e->kind) {
            case K::CONST: { __int128 v = (__int128)e->val; if (v > t.hi) v -= (__int128)1 << w; return {v, v}; }
            case K::ITE: { int c = b(e->k[0]); I x = i(e->k[1]), y = i(e->k[2]); if (c == 1) return x; if (c == 0) return y; return {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; }
            case K::SEXT: return i(e->k[0]);
            case K::CONCAT: {
                if (e->k[0]->width > 62 || e->k[1]->width > 62) return t;
                I h = i(e->k[0]), x = i(e->k[1]); __int128 m = (__int128)1 << e->k[1]->width; if (x.lo < 0) x = {0, m - 1};
                return {h.lo * m + x.lo, h.hi * m + x.hi};
            }
            case K::EXTRACT: if (e->val == 0 && e->k[0]->width <= 64) { I x = i(e->k[0]); return fit(x.lo, x.hi); } return t;
            case K::ADD: { I x = i(e->k[0]), y = i(e->k[1]); return fit(x.lo + y.lo, x.hi + y.hi); }
            case K::MUL: { I x = i(e->k[0]), y = i(e->k[1]); if (w > 60) { auto big = [](I z) { return z.lo < -((__int128)1 << 62) || z.hi > ((__int128)1 << 62); }; if (big(x) || big(y)) return t; }
                __int128 v[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; return fit(*std::min_element(v, v + 4), *std::max_element(v, v + 4)); }
            case K::FPTOSI: { F x = f(e->k[0]); if (x.nan || !(x.lo > (double)t.lo) || !(x.hi < (double)t.hi)) return t; return fit((__int128)std::trunc(x.lo), (__int128)std::trunc(x.hi)); }
            case K::FPTOUI: { F x = f(e->k[0]); if (x.nan || !(x.lo > -1) || !(x.hi < (double)t.hi)) return t; return fit((__int128)std::trunc(x.lo), (__int128)std::trunc(x.hi)); }
            default: return t;
        }
    }
    // 1 true, 0 false, -1 unknown
    int b(E e) {
        if (isConst(e)) return e->val & 1;
        auto it = bm.find(e); if (it != bm.end()) return it->second;
        bm[e] = -1;
        return bm[e] = b0(e);
    }
    int b0(E e) {
        switch (e->kind) {
            case K::AND: if (e->width == 1) { int x = b(e->k[0]), y = b(e->k[1]); return x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1; } return -1;
            case K::OR: if (e->width == 1) { int x = b(e->k[0]), y = b(e->k[1]); return x == 1 || y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1; } return -1;
            case K::XOR: if (e->width == 1) { int x = b(e->k[0]), y = b(e->k[1]); return x < 0 || y < 0 ? -1 : x ^ y; } return -1;
            case K::ITE: { int c = b(e->k[0]), x = b(e->k[1]), y = b(e->k[2]); return c == 1 ? x : c == 0 ? y : x == y ? x : -1; }
            case K::FOEQ: case K::FOLT: case K::FOLE: case K::FUNO: {
                F x = f(e->k[0]), y = f(e->k[1]); bool xn = !(x.lo <= x.hi), yn = !(y.lo <= y.hi);
                if (e->kind == K::FUNO) return xn || yn ? 1 : !x.nan && !y.nan ? 0 : -1;
                if (xn || yn) return 0;
                bool nan = x.nan || y.nan;
                if (e->kind == K::FOLT) return x.lo >= y.hi ? 0 : !nan && x.hi < y.lo ? 1 : -1;
                if (e->kind == K::FOLE) return x.lo > y.hi ? 0 : !nan && x.hi <= y.lo ? 1 : -1;
                return x.lo > y.hi || y.lo > x.hi ? 0 : !nan && x.lo == x.hi && y.lo == y.hi && x.lo == y.lo ? 1 : -1;
            }
            case K::EQ: { if (e->k[0]->width > 64) return -1; I x = i(e->k[0]), y = i(e->k[1]); if (e->k[0]->width == 1) { int p = b(e->k[0]), q = b(e->k[1]); return p < 0 || q < 0 ? -1 : p == q; } return x.lo > y.hi || y.lo > x.hi ? 0 : x.lo == x.hi && y.lo == y.hi ? 1 : -1; }
            case K::SLT: { I x = i(e->k[0]), y = i(e->k[1]); return x.lo >= y.hi ? 0 : x.hi < y.lo ? 1 : -1; }
            case K::SLE: { I x = i(e->k[0]), y = i(e->k[1]); return x.lo > y.hi ? 0 : x.hi <= y.lo ? 1 : -1; }
            case K::ULT: case K::ULE: { I p, q; if (!(isConst(e->k[0]) && isConst(e->k[1])) && umag(e->k[0], p) && umag(e->k[1], q)) return e->kind == K::ULT ? (p.lo >= q.hi ? 0 : p.hi < q.lo ? 1 : -1) : (p.lo > q.hi ? 0 : p.hi <= q.lo ? 1 : -1);
                I x = i(e->k[0]), y = i(e->k[1]); if (e->k[0]->width > 64 || x.lo < 0 || y.lo < 0) return -1; return e->kind == K::ULT ? (x.lo >= y.hi ? 0 : x.hi < y.lo ? 1 : -1) : (x.lo > y.hi ? 0 : x.hi <= y.lo ? 1 : -1); }
            default: return -1;
        }
    }
    void fLearn(E e, double lo, double hi, bool nan) { auto it = fenv.find(e); if (it == fenv.end()) fenv[e] = {lo, hi, nan}; else { it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); it->second.nan = it->second.nan && nan; } }
    void iLearn(E e, __int128 lo, __int128 hi) {
        if (e->kind == K::CONCAT && isConst(e->k[0]) && e->k[0]->val == 0 && hi < ((__int128)1 << e->k[1]->width) / 2) iLearn(e->k[1], lo, hi);
        if (e->kind == K::SEXT) iLearn(e->k[0], lo, hi); auto it = ienv.find(e); if (it == ienv.end()) ienv[e] = {lo, hi}; else it->second = meet(it->second, {lo, hi}); }
    static double up(double d, unsigned w) { return w == 32 ? (double)std::nextafterf((float)d, INFINITY) : std::nextafter(d, INFINITY); }
    static double down(double d, unsigned w) { return w == 32 ? (double)std::nextafterf((float)d, -INFINITY) : std::nextafter(d, -INFINITY); }
    // the constraint e has the value v: remember what follows for its operands
    void learn(E e, bool v, int depth = 0) {
        if (depth > 60 || isConst(e)) return;
        switch (e->kind) {
            case K::XOR: if (e->width == 1 && isConst(e->k[1])) learn(e->k[0], v ^ (e->k[1]->val & 1), depth + 1); break;
            case K::AND: if (e->width == 1) { if (v) { learn(e->k[0], true, depth + 1); learn(e->k[1], true, depth + 1); } else { if (b(e->k[0]) == 1) learn(e->k[1], false, depth + 1); if (b(e->k[1]) == 1) learn(e->k[0], false, depth + 1); } } break;
            case K::OR: if (e->width == 1) { if (!v) { learn(e->k[0], false, depth + 1); learn(e->k[1], false, depth + 1); } else { if (b(e->k[0]) == 0) learn(e->k[1], true, depth + 1); if (b(e->k[1]) == 0) learn(e->k[0], true, depth + 1); } } break;
            case K::FOLT: case K::FOLE: case K::FOEQ: {
                E x = e->k[0], y = e->k[1]; F fx = f(x), fy = f(y); unsigned w = x->width; bool lt = e->kind == K::FOLT;
                if (v) {
                    fLearn(x, -INF, lt ? down(fy.hi, w) : fy.hi, false); fLearn(y, lt ? up(fx.lo, w) : fx.lo, INF, false);
                    if (e->kind == K::FOEQ) { fLearn(x, fy.lo, INF, false); fLearn(y, -INF, fx.hi, false); }
                } else if (e->kind != K::FOEQ) { // not (x < y): x >= y or NaN
                    if (!fy.nan) fLearn(x, lt ? fy.lo : up(fy.lo, w), INF, true);
                    if (!fx.nan) fLearn(y, -INF, lt ? fx.hi : down(fx.hi, w), true);
                }
                break;
            }
            case K::FUNO: if (!v) { fLearn(e->k[0], -INF, INF, false); fLearn(e->k[1], -INF, INF, false); } break;
            case K::EQ: if (v && e->k[0]->width <= 64 && e->k[0]->width > 1) { I x = i(e->k[0]), y = i(e->k[1]); iLearn(e->k[0], y.lo, y.hi); iLearn(e->k[1], x.lo, x.hi); if (isConst(e->k[1]) && (e->k[0]->width == 64 || e->k[0]->width == 32)) { F c = f(e->k[1]); if (!c.nan) fLearn(e->k[0], c.lo, c.hi, false); } } break;
            case K::SLT: case K::SLE: {
                if (e->k[0]->width > 64) break;
                bool lt = e->kind == K::SLT; I x = i(e->k[0]), y = i(e->k[1]); __int128 big = (__int128)1 << 100;
                if (v) { iLearn(e->k[0], -big, y.hi - lt); iLearn(e->k[1], x.lo + lt, big); }
                else { iLearn(e->k[0], y.lo + !lt, big); iLearn(e->k[1], -big, x.hi - !lt); }
                break;
            }
            case K::ULT: case K::ULE: {
                if (e->k[0]->width > 64) break;
                bool lt = e->kind == K::ULT; I x = i(e->k[0]), y = i(e->k[1]); __int128 big = (__int128)1 << 100;
                if (v && y.lo >= 0) iLearn(e->k[0], 0, y.hi - lt);                    // x <u y, y not negative
                if (v && x.lo >= 0 && y.lo >= 0) iLearn(e->k[1], x.lo + lt, big);
                if (!v && x.lo >= 0 && y.lo >= 0) iLearn(e->k[0], y.lo + !lt, big);
                if (!v && x.lo >= 0) iLearn(e->k[1], 0, x.hi - !lt);
                break;
            }
            default: break;
        }
    }
};
}
bool intervalUnsat(const std::vector<E>& cs) {
    Ctx c;
    for (int round = 0; round < 4; ++round) {
        c.fm.clear(); c.im.clear(); c.bm.clear();
        for (E e : cs) { if (c.b(e) == 0 || c.bottom) return true; }
        for (E e : cs) c.learn(e, true);
        for (auto& k : c.fenv) if (!(k.second.lo <= k.second.hi) && !k.second.nan) return true;
        for (auto& k : c.ienv) if (k.second.lo > k.second.hi) return true;
    }
    c.fm.clear(); c.im.clear(); c.bm.clear();
    for (E e : cs) if (c.b(e) == 0 || c.bottom) return true;
    return false;
}
// Branch and prune: split the domains of the variables into boxes, discard the boxes on which interval reasoning refutes
// the conjunction, and try points of the others.  Complete on integer variables, given enough boxes.
namespace {
struct Dom { E e; bool fp; std::vector<std::pair<uint32_t, unsigned>> parts; std::vector<unsigned> widths; };
// a term made of whole variables only: the variables and their positions
bool parts(E e, unsigned at, Dom& d) { if (e->kind == K::VAR) { d.parts.push_back({(uint32_t)e->val, at}); d.widths.push_back(e->width); return true; } return e->kind == K::CONCAT && parts(e->k[1], at, d) && parts(e->k[0], at + e->k[1]->width, d); }
int64_t okey(double d, unsigned w) { if (w == 64) { int64_t u; memcpy(&u, &d, 8); return u < 0 ? (int64_t)(0x8000000000000000ULL - (uint64_t)u) : u; } float f = (float)d; int32_t u; memcpy(&u, &f, 4); return u < 0 ? (int64_t)(int32_t)(0x80000000U - (uint32_t)u) : u; }
double unkey(int64_t k, unsigned w) { if (w == 64) { uint64_t u = k < 0 ? 0x8000000000000000ULL - (uint64_t)k : (uint64_t)k; double d; memcpy(&d, &u, 8); return d; } uint32_t u = k < 0 ? 0x80000000U - (uint32_t)(int32_t)k : (uint32_t)k; float f; memcpy(&f, &u, 4); return f; }
uint64_t fbits(double d, unsigned w) { if (w == 64) { uint64_t u; memcpy(&u, &d, 8); return u; } float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
}
int branchAndPrune(const std::vector<E>& cs, const std::vector<E>& varNodes, double seconds, Model& model, uint64_t& boxes) {
    std::unordered_map<E, bool> fpvar; std::unordered_map<E, bool> seen;
    { std::vector<E> st(cs.begin(), cs.end());
      while (!st.empty()) { E x = st.back(); st.pop_back(); if (seen[x]) continue; seen[x] = true;
        bool f = (x->kind >= K::FADD && x->kind <= K::FUNO) || x->kind == K::FCVT || x->kind == K::FPTOSI || x->kind == K::FPTOUI || x->kind == K::FROUND || x->kind == K::UF;
        for (int q = 0; q < 3; ++q) if (x->k[q]) { if (f && (x->k[q]->kind == K::VAR || x->k[q]->kind == K::CONCAT)) fpvar[x->k[q]] = true; st.push_back(x->k[q]); } } }
    // values of several octets are split as one number, where the octets only occur as part of it in arithmetic
    std::vector<Dom> dom; std::unordered_map<uint32_t, int> owned;
    { std::vector<Dom> cand; for (auto& k : seen) if (k.first->kind == K::CONCAT && k.first->width <= 64) { Dom d; if (parts(k.first, 0, d)) { d.e = k.first; d.fp = fpvar.count(k.first) && (k.first->width == 32 || k.first->width == 64); cand.push_back(d); } }
      std::sort(cand.begin(), cand.end(), [](const Dom& x, const Dom& y) { return x.e->width != y.e->width ? x.e->width > y.e->width : x.e->id < y.e->id; });
      for (auto& d : cand) { bool free = true; for (auto& q : d.parts) free &= !owned.count(q.first); std::unordered_map<uint32_t, int> own; for (auto& q : d.parts) free &= !own.count(q.first), own[q.first] = 1; if (!free) continue; for (auto& q : d.parts) owned[q.first] = 1; dom.push_back(d); } }
    for (E v : varNodes) { if (owned.count((uint32_t)v->val)) continue; if (v->width > 64) return -1; Dom d; parts(v, 0, d); d.e = v; d.fp = fpvar.count(v) && (v->width == 32 || v->width == 64); dom.push_back(d); }
    typedef std::vector<std::pair<int64_t, int64_t>> Box;
    Ctx c; bool hole = false;
    for (int round = 0; round < 3; ++round) { c.fm.clear(); c.im.clear(); c.bm.clear(); for (E e : cs) c.learn(e, true); }
    c.fm.clear(); c.im.clear(); c.bm.clear();
    Box root; for (auto& d : dom) {
        if (d.fp) { F f = c.f(d.e); if (!(f.lo <= f.hi)) return -1; if (f.nan) hole = true; root.push_back({okey(f.lo, d.e->width), okey(f.hi, d.e->width)}); }
        else { I r = c.i(d.e); root.push_back({(int64_t)r.lo, (int64_t)r.hi}); } }
    auto val = [&](size_t q, int64_t k) -> uint64_t { return dom[q].fp ? fbits(unkey(k, dom[q].e->width), dom[q].e->width) : (uint64_t)k & maskw(dom[q].e->width); };
    auto tryAt = [&](const std::vector<int64_t>& pt) { Model m; for (size_t q = 0; q < dom.size(); ++q) { uint64_t v = val(q, pt[q]); for (size_t z = 0; z < dom[q].parts.size(); ++z) { uint32_t id = dom[q].parts[z].first; if (m.size() <= id) m.resize(id + 1, 0); m[id] = (v >> dom[q].parts[z].second) & maskw(dom[q].widths[z]); } }
        Evaluator ev(m); for (E e : cs) if (!(ev.eval(e) & 1)) return false; model = m; return true; };
    auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    uint64_t rs = 0x9e3779b97f4a7c15ULL; auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    auto within = [&](const std::pair<int64_t, int64_t>& r, uint64_t x) { uint64_t n = (uint64_t)r.second - (uint64_t)r.first; return (int64_t)((uint64_t)r.first + (n == ~0ULL ? x : x % (n + 1))); };
    std::vector<int64_t> pt(dom.size());
    for (int n = 0; n < 24; ++n) { for (size_t q = 0; q < dom.size(); ++q) pt[q] = n == 0 ? root[q].first : n == 1 ? root[q].second : within(root[q], rnd()); ++boxes; if (tryAt(pt)) return 1; }
    bool anyfp = false; for (auto& d : dom) anyfp |= d.fp;
    for (int n = 0; n < (anyfp ? 160 : 40); ++n) { // ordinary magnitudes
        for (size_t q = 0; q < dom.size(); ++q) {
            if (dom[q].fp) { static const double sc[] = {1, 0.25, 10, 300, 0.01, 1000, 1e5, 1e-4}; double v = sc[rnd() % 8] * (double)(1 + rnd() % 4000) / 2000; if (rnd() % 4 == 0) v = -v; if (rnd() % 8 == 0) v = std::floor(v); pt[q] = okey(v, dom[q].e->width); }
            else { uint64_t z = rnd() % 64; z = rnd() & (z >= 63 ? ~0ULL : ((2ULL << (z % 20)) - 1)); pt[q] = root[q].first <= 0 && root[q].second >= 0 ? (int64_t)(rnd() % 2 && root[q].first < 0 ? (uint64_t)0 - z : z) : (int64_t)((uint64_t)root[q].first + z); }
            pt[q] = std::max(root[q].first, std::min(root[q].second, pt[q]));
        }
        ++boxes; if (tryAt(pt)) return 1;
    }
    std::vector<std::pair<Box, double>> st; st.push_back({root, 1.0}); double left = 1.0; double first = std::min(seconds, 0.3);
    while (!st.empty()) {
        double t = el(); if (t > seconds || (t > first && left > 0.6)) return -1;
        Box b = st.back().first; double vol = st.back().second; st.pop_back(); ++boxes;
        Ctx k; for (size_t q = 0; q < dom.size(); ++q) { if (dom[q].fp) k.fenv[dom[q].e] = {unkey(b[q].first, dom[q].e->width), unkey(b[q].second, dom[q].e->width), false}; else k.ienv[dom[q].e] = {b[q].first, b[q].second}; }
        bool dead = false;
        for (int round = 0; round < 2 && !dead; ++round) {
            k.fm.clear(); k.im.clear(); k.bm.clear();
            for (E e : cs) if (k.b(e) == 0 || k.bottom) { dead = true; break; }
            if (dead) break;
            for (E e : cs) k.learn(e, true);
            for (auto& z : k.fenv) if (!(z.second.lo <= z.second.hi) && !z.second.nan) dead = true;
            for (auto& z : k.ienv) if (z.second.lo > z.second.hi) dead = true;
        }
        if (dead) { left -= vol; continue; }
        // what was learnt about the variables narrows the box
        for (size_t q = 0; q < dom.size(); ++q) { if (dom[q].fp) { F f = k.fenv[dom[q].e]; if (f.lo <= f.hi) { b[q].first = std::max(b[q].first, okey(f.lo, dom[q].e->width)); b[q].second = std::min(b[q].second, okey(f.hi, dom[q].e->width)); } } else { I r = k.ienv[dom[q].e]; if ((__int128)b[q].first < r.lo) b[q].first = (int64_t)r.lo; if ((__int128)b[q].second > r.hi) b[q].second = (int64_t)r.hi; } if (b[q].first > b[q].second) dead = true; }
        if (dead) { left -= vol; continue; }
        size_t split = dom.size(); uint64_t best = 0; for (size_t q = 0; q < dom.size(); ++q) { uint64_t n = (uint64_t)b[q].second - (uint64_t)b[q].first; if (n > best) best = n, split = q; pt[q] = (int64_t)((uint64_t)b[q].first + n / 2); }
        if (tryAt(pt)) return 1;
        if (split == dom.size()) { left -= vol; for (size_t q = 0; q < dom.size(); ++q) if (dom[q].fp && pt[q] == 0) hole = true; continue; }     // a single point, refuted by evaluation
        int64_t mid = (int64_t)((uint64_t)b[split].first + best / 2); Box l = b, h = b; l[split].second = mid; h[split].first = mid + 1; st.push_back({l, vol / 2}); st.push_back({h, vol / 2});
    }
    return hole ? -1 : 0;
}
void intervalBounds(const std::vector<E>& cs, const std::vector<E>& nodes, std::vector<FBound>& out) {
    Ctx c;
    for (int round = 0; round < 4; ++round) {
        c.fm.clear(); c.im.clear(); c.bm.clear();
        for (E e : cs) c.learn(e, true);
    }
    c.fm.clear(); c.im.clear(); c.bm.clear();
    for (E n : nodes) { F f = c.f(n); out.push_back({f.lo, f.hi, f.nan}); }
}
} // namespace ms
