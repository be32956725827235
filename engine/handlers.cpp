// Native models: memory allocation, C++ runtime, libm, LLVM intrinsics and the msym_* harness API.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/GlobalVariable.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>

using namespace llvm;
namespace ms {

static inline uint32_t idOf(uint64_t a) { return a >> 32; }
static inline uint64_t offOf(uint64_t a) { return (a & 0xffffffff) - BASE_OFF; }

// raise an exception object of a standard type from a native handler
void Executor::raise(State& s, const char* tin, const char* vtn) {
    auto* ti = M.getNamedGlobal(tin);
    if (!ti) throw Incomplete(std::string("typeinfo missing: ") + tin);
    uint64_t a = alloc(s, 32, OK_HEAP, "exception", false);
    if (auto* vt = M.getNamedGlobal(vtn)) { Val v; v.c = gaddr[vt] + 16; storeBytes(s, idOf(a), 0, v, 8); }
    s.flying = Exc{a, gaddr[ti], 0};
    s.isFlying = true;
    throwExc(s);
}

void Executor::setupHandlers() {
    auto H = [&](std::initializer_list<const char*> names, Handler h) { for (auto n : names) handlers[n] = h; };

    // ------------------------------------------------------------ harness API
    H({"msym_make_symbolic"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) {
        uint64_t n = concretize(s, a[1], 64);
        std::string name = readCString(s, a[2].c);
        Loc l = resolve(s, a[0], n, "make_symbolic", true);
        if (l.offE) throw Incomplete("make_symbolic at symbolic address");
        unsigned input = (unsigned)s.inputs.size();
        s.inputs.push_back({name, input, n});
        Obj* o = writable(s, l.id);
        if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        for (uint64_t i = 0; i < n; ++i) {
            static std::map<std::tuple<unsigned, uint64_t, std::string>, E> vars;   // same position in every path: same variable
            E& v = vars[{input, i, name}];
            if (!v) v = mkVar(name + "[" + std::to_string(i) + "]", 8, input, i);
            o->sym[l.off + i] = v;
        }
        return true; });
    H({"msym_assume"}, [this](State& s, const CallBase& cb, std::vector<Val>& a, Val&) {
        unsigned w = widthOf(cb.getArgOperand(0)->getType());
        E c = mkNot(mkBin(K::EQ, toE(a[0], w), mkConst(0, w)));
        if (isTrue(c)) return true;
        Model m; bool ok = true;
        R r = may(s, c, &m, &ok, opt.branchTimeout);
        if (r == R::UNSAT) { nAssumeKilled++; throw PathEnd(); }
        addPC(s, c);
        if (r == R::SAT) { s.model = m; s.modelValid = ok; } else s.modelValid = false;
        return true; });
    H({"msym_assert_"}, [this](State& s, const CallBase& cb, std::vector<Val>& a, Val&) {
        unsigned w = widthOf(cb.getArgOperand(0)->getType());
        std::string msg = readCString(s, a[1].c);
        doAssert(s, mkNot(mkBin(K::EQ, toE(a[0], w), mkConst(0, w))), msg);
        return true; });
    H({"msym_reach"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) { s.reached.insert(readCString(s, a[0].c)); return true; });
    H({"msym_observe"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) { s.observed.push_back({readCString(s, a[0].c), a[1]}); return true; });
    H({"msym_engine"}, [](State&, const CallBase&, std::vector<Val>&, Val& r) { r.c = 1; return true; });
    H({"msym_is_symbolic"}, [](State&, const CallBase&, std::vector<Val>& a, Val& r) { r.c = a[0].e != nullptr; return true; });
    H({"msym_concretize"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) { r.c = concretize(s, a[0], 64); return true; });
    H({"msym_concretize_bytes"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) {
        Loc l = resolve(s, a[0], a[1].c, "read", false);
        for (uint64_t i = 0; i < a[1].c; ++i) { Val v = loadBytes(s, l.id, l.off + i, 1); if (v.e) { uint64_t c = concretize(s, v, 8); Val k; k.c = c; storeBytes(s, l.id, l.off + i, k, 1); } }
        return true; });
    H({"msym_kill"}, [](State&, const CallBase&, std::vector<Val>&, Val&) -> bool { throw PathEnd(); });
    H({"msym_unsupported"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) -> bool { throw Incomplete("model: " + readCString(s, a[0].c) + " at " + location(s, nullptr, true)); });
    H({"msym_error"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) -> bool { error(s, "model", readCString(s, a[0].c)); return true; });
    // boolean if-then-else without forking
    H({"msym_ite"}, [this](State&, const CallBase& cb, std::vector<Val>& a, Val& r) {
        unsigned w = widthOf(cb.getArgOperand(0)->getType());
        E c = mkNot(mkBin(K::EQ, toE(a[0], w), mkConst(0, w)));
        r = fromE(mkIte(c, toE(a[1], 64), toE(a[2], 64))); return true; });
    // number of bytes available from p to the end of its object (concrete pointers; 0 if not an object)
    H({"msym_object_bytes"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        uint64_t p = concretize(s, a[0], 64);
        Obj* o = findObj(s, idOf(p));
        r.c = (o && o->kind != OK_FREED && offOf(p) <= o->size) ? o->size - offOf(p) : 0;
        return true; });
    H({"msym_trace"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) {
        if (opt.verbose) fprintf(stderr, "trace %s: %s\n", readCString(s, a[0].c).c_str(), a[1].e ? str(a[1].e, 4).c_str() : std::to_string(a[1].c).c_str());
        return true; });
    H({"msym_format_double"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        // (char* buf, size_t n, const char* fmt, double v) -> length
        uint64_t v = concretize(s, a[3], 64);
        std::string fmt = readCString(s, a[2].c);
        double d; memcpy(&d, &v, 8);
        char buf[512]; int n = snprintf(buf, sizeof buf, fmt.c_str(), d);
        uint64_t cap = a[1].c;
        if (cap) {
            uint64_t m = std::min<uint64_t>(cap - 1, n);
            for (uint64_t i = 0; i < m; ++i) { Val c; c.c = (uint8_t)buf[i]; storeBytes(s, idOf(a[0].c), offOf(a[0].c) + i, c, 1); }
            Val z; storeBytes(s, idOf(a[0].c), offOf(a[0].c) + m, z, 1);
        }
        r.c = (uint64_t)(int64_t)n; return true; });
    H({"msym_parse_double"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        // (const char* text (concrete), uint64_t* used) -> double
        std::string t;
        Obj* o = findObj(s, idOf(a[0].c));
        for (uint64_t off = offOf(a[0].c); off < o->size; ++off) {
            Val b = loadBytes(s, idOf(a[0].c), off, 1);
            uint64_t c = concretize(s, b, 8);
            if (!c) break;
            t += (char)c;
        }
        char* e; double d = strtod(t.c_str(), &e);
        Val u; u.c = e - t.c_str();
        storeBytes(s, idOf(a[1].c), offOf(a[1].c), u, 8);
        memcpy(&r.c, &d, 8);
        return true; });

    // ------------------------------------------------------------ allocation
    auto doAlloc = [this](State& s, const Val& size, uint8_t fn, bool zero, Val& r) -> bool {
        // returns false when the allocation fails
        if (size.e) {
            E big = mkBin(K::ULT, mkConst(opt.maxAlloc, 64), size.e);
            if (branch(s, big)) { r.c = 0; return false; }
        } else if (size.c > opt.maxAlloc) { r.c = 0; return false; }
        uint64_t n = concretize(s, size, 64);
        r.c = alloc(s, n, OK_HEAP, fn == 'm' ? "malloc" : "new", !zero, fn);
        return true;
    };
    H({"malloc"}, [doAlloc](State& s, const CallBase&, std::vector<Val>& a, Val& r) { doAlloc(s, a[0], 'm', false, r); return true; });
    H({"calloc"}, [this, doAlloc](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        Val n;
        if (!a[0].e && !a[1].e) { unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; n.c = p > ~0ULL ? ~0ULL : (uint64_t)p; }
        else n = fromE(mkBin(K::MUL, toE(a[0], 64), toE(a[1], 64)));
        doAlloc(s, n, 'm', true, r); return true; });
    H({"realloc"}, [this, doAlloc](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        uint64_t p = concretize(s, a[0], 64);
        uint64_t n = concretize(s, a[1], 64);
        Val nv; nv.c = n;
        if (p) { Obj* o = findObj(s, idOf(p)); if (!o || o->kind != OK_HEAP || offOf(p)) error(s, "memory", "realloc of an invalid pointer"); }
        if (!doAlloc(s, nv, 'm', false, r)) return true;
        if (p) { Obj* o = findObj(s, idOf(p)); copyMem(s, r.c, p, std::min<uint64_t>(o->size, n)); freeObj(s, idOf(p)); }
        return true; });
    auto freeH = [this](uint8_t fn) { return [this, fn](State& s, const CallBase&, std::vector<Val>& a, Val&) {
        uint64_t p = concretize(s, a[0], 64);
        if (!p) return true;
        Obj* o = findObj(s, idOf(p));
        if (o && o->kind == OK_FREED) error(s, "memory", "double free");
        if (!o || o->kind != OK_HEAP || offOf(p) != 0) error(s, "memory", "free of an invalid pointer");
        if (o->allocFn && fn && o->allocFn != fn) error(s, "memory", std::string("mismatched deallocation (allocated with ") + (o->allocFn == 'm' ? "malloc" : o->allocFn == 'n' ? "new" : "new[]") + ", released with " + (fn == 'm' ? "free" : fn == 'n' ? "delete" : "delete[]") + ")", nullptr, true, false);
        freeObj(s, idOf(p));
        return true; }; };
    H({"free", "cfree"}, freeH('m'));
    H({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, freeH('n'));
    H({"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t"}, freeH('a'));
    auto newH = [this, doAlloc](uint8_t fn) { return [this, doAlloc, fn](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        if (!doAlloc(s, a[0], fn, false, r)) raise(s, "_ZTISt9bad_alloc", "_ZTVSt9bad_alloc");
        return true; }; };
    H({"_Znwm", "_ZnwmSt11align_val_t"}, newH('n'));
    H({"_Znam", "_ZnamSt11align_val_t"}, newH('a'));
    H({"_ZnwmRKSt9nothrow_t"}, [doAlloc](State& s, const CallBase&, std::vector<Val>& a, Val& r) { doAlloc(s, a[0], 'n', false, r); return true; });
    H({"_ZnamRKSt9nothrow_t"}, [doAlloc](State& s, const CallBase&, std::vector<Val>& a, Val& r) { doAlloc(s, a[0], 'a', false, r); return true; });
    H({"posix_memalign"}, [this, doAlloc](State& s, const CallBase&, std::vector<Val>& a, Val& r) { Val p; if (!doAlloc(s, a[2], 'm', false, p)) { r.c = 12; return true; } storeScalar(s, a[0], p, 8); r.c = 0; return true; });

    // ------------------------------------------------------------ memory blocks
    auto mcpy = [this](const char* what) { return [this, what](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        uint64_t n = concretize(s, a[2], 64);
        r = a[0];
        if (!n) return true;
        if (n > 0x7fffffff) error(s, "memory", std::string(what) + " with huge size");
        Loc d = resolve(s, a[0], n, what, true);
        Loc sr = resolve(s, a[1], n, what, false);
        uint64_t so = sr.off, dof = d.off;
        if (sr.offE && n <= 64 && !d.offE) {
            // small symbolic-source copy: byte-wise symbolic loads
            std::vector<Val> tmp;
            for (uint64_t i = 0; i < n; ++i) tmp.push_back(loadScalar(s, fromE(mkBin(K::ADD, a[1].e, mkConst(i, 64))), 1));
            for (uint64_t i = 0; i < n; ++i) storeBytes(s, d.id, dof + i, tmp[i], 1);
            return true;
        }
        if (sr.offE) so = concretize(s, fromE(sr.offE), 64);
        if (d.offE) dof = concretize(s, fromE(d.offE), 64);
        copyMem(s, objBase(d.id) + dof, objBase(sr.id) + so, n);
        return true; }; };
    H({"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}, mcpy("memcpy"));
    H({"memset", "__memset_chk"}, [this](State& s, const CallBase& cb, std::vector<Val>& a, Val& r) {
        uint64_t n = concretize(s, a[2], 64);
        r = a[0];
        if (!n) return true;
        if (n > 0x7fffffff) error(s, "memory", "memset with huge size");
        Loc d = resolve(s, a[0], n, "memset", true);
        uint64_t off = d.off;
        if (d.offE) off = concretize(s, fromE(d.offE), 64);
        unsigned w = widthOf(cb.getArgOperand(1)->getType());
        Val b = fromE(mkExtract(toE(a[1], w), 0, 8));
        Obj* o = writable(s, d.id);
        if (!b.e) {
            memset(o->data.data() + off, (int)b.c, n);
            if (!o->sym.empty()) {
                if (off == 0 && n == o->size) o->sym.clear();
                else std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr);
            }
        } else for (uint64_t i = 0; i < n; ++i) storeBytes(s, d.id, off + i, b, 1);
        return true; });

    // comparison of blocks/strings as one expression (no forking)
    // returns an expression of sign(-1/0/1) as 32-bit, built from the end
    auto cmpBytes = [this](std::vector<std::pair<E, E>>& bs, bool stopAtNul) -> E {
        E r = mkConst(0, 32);
        for (size_t i = bs.size(); i-- > 0;) {
            E x = bs[i].first, y = bs[i].second;
            if (stopAtNul) r = mkIte(mkBin(K::EQ, x, mkConst(0, 8)), mkConst(0, 32), r);
            E ne = mkIte(mkBin(K::ULT, x, y), mkConst(0xffffffff, 32), mkConst(1, 32));
            r = mkIte(mkBin(K::EQ, x, y), r, ne);
        }
        return r; };
    H({"memcmp", "bcmp"}, [this, cmpBytes](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        uint64_t n = concretize(s, a[2], 64);
        if (!n) { r.c = 0; return true; }
        Loc x = resolve(s, a[0], n, "memcmp", false);
        Loc y = resolve(s, a[1], n, "memcmp", false);
        if (x.offE) x.off = concretize(s, fromE(x.offE), 64);
        if (y.offE) y.off = concretize(s, fromE(y.offE), 64);
        std::vector<std::pair<E, E>> bs;
        for (uint64_t i = 0; i < n; ++i) {
            E p = byteE(s, x.id, x.off + i), q = byteE(s, y.id, y.off + i);
            bs.push_back({p, q});
            if (isConst(p) && isConst(q) && p->val != q->val) break;
        }
        r = fromE(cmpBytes(bs, false)); return true; });
    // string functions: fast path only when a terminator is certain to be met inside the objects
    auto strcmpH = [this, cmpBytes](bool bounded, bool icase) { return [this, cmpBytes, bounded, icase](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        uint64_t lim = ~0ULL;
        if (bounded) { lim = concretize(s, a[2], 64); if (!lim) { r.c = 0; return true; } }
        if (a[0].e || a[1].e) return false;
        Obj* o = findObj(s, idOf(a[0].c)); Obj* p = findObj(s, idOf(a[1].c));
        if (!o || !p || o->kind == OK_FREED || p->kind == OK_FREED) return false;
        uint64_t oo = offOf(a[0].c), po = offOf(a[1].c);
        std::vector<std::pair<E, E>> bs;
        for (uint64_t i = 0; i < lim; ++i) {
            if (oo + i >= o->size || po + i >= p->size) return false;
            E x = byteE(s, idOf(a[0].c), oo + i), y = byteE(s, idOf(a[1].c), po + i);
            o = findObj(s, idOf(a[0].c)); p = findObj(s, idOf(a[1].c));
            if (icase) {
                auto low = [](E b) { E up = mkBin(K::AND, mkBin(K::ULE, mkConst('A', 8), b), mkBin(K::ULE, b, mkConst('Z', 8))); return mkIte(up, mkBin(K::ADD, b, mkConst(32, 8)), b); };
                x = low(x); y = low(y);
            }
            bs.push_back({x, y});
            if (isConst(x) && x->val == 0) break;
            if (isConst(y) && y->val == 0) break;
            if (isConst(x) && isConst(y) && x->val != y->val) break;
            E eq = mkBin(K::EQ, x, y);
            if (isFalse(eq)) break;
        }
        r = fromE(cmpBytes(bs, true)); return true; }; };
    H({"strcmp", "strcoll"}, strcmpH(false, false));
    H({"strncmp"}, strcmpH(true, false));
    H({"strcasecmp"}, strcmpH(false, true));
    H({"strncasecmp"}, strcmpH(true, true));
    H({"strlen"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        if (a[0].e) return false;
        Obj* o = findObj(s, idOf(a[0].c));
        if (!o || o->kind == OK_FREED || offOf(a[0].c) > o->size) return false;
        for (uint64_t off = offOf(a[0].c); off < o->size; ++off) {
            if (!o->sym.empty() && o->sym[off]) {
                // symbolic byte: only a fast path when it can be decided without the solver
                E b = byteE(s, idOf(a[0].c), off); o = findObj(s, idOf(a[0].c));
                if (b->umin > 0) continue;
                return false;
            }
            if (!o->data[off]) { r.c = off - offOf(a[0].c); return true; }
        }
        return false; });

    // ------------------------------------------------------------ C++ runtime
    H({"__cxa_allocate_exception"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) { r.c = alloc(s, a[0].c, OK_HEAP, "exception", true); return true; });
    H({"__cxa_free_exception"}, [](State&, const CallBase&, std::vector<Val>&, Val&) { return true; });
    H({"__cxa_throw"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) {
        s.flying = Exc{a[0].c, a[1].c, 0};
        s.isFlying = true;
        throwExc(s);
        return true; });
    H({"__cxa_begin_catch", "__cxa_get_exception_ptr"}, [this](State& s, const CallBase& cb, std::vector<Val>& a, Val& r) {
        uint64_t obj = a[0].c;
        uint64_t ti = s.flying.ti;
        if (cb.getCalledFunction() && cb.getCalledFunction()->getName() == "__cxa_begin_catch") {
            bool again = !s.caught.empty() && s.caught.back().obj == obj && s.caught.back().handlers < 0;
            if (again) s.caught.back().handlers = 1 - s.caught.back().handlers;
            else s.caught.push_back(Exc{obj, ti, 1});
            s.isFlying = false;
        }
        r.c = obj;
        Obj* o = findObj(s, idOf(ti));
        if (o && o->size >= 16) {
            uint64_t vp; memcpy(&vp, o->data.data(), 8);
            if (symName(vp) == "_ZTVN10__cxxabiv119__pointer_type_infoE") r = loadBytes(s, idOf(obj), offOf(obj), 8);
        }
        return true; });
    H({"__cxa_end_catch"}, [](State& s, const CallBase&, std::vector<Val>&, Val&) {
        if (s.caught.empty()) return true;
        Exc& e = s.caught.back();
        if (e.handlers < 0) { if (++e.handlers == 0) s.caught.pop_back(); }
        else if (--e.handlers == 0) s.caught.pop_back();
        return true; });
    H({"__cxa_rethrow"}, [this](State& s, const CallBase&, std::vector<Val>&, Val&) {
        if (s.caught.empty()) error(s, "terminate", "'throw;' with no active exception (std::terminate)");
        Exc& e = s.caught.back();
        if (e.handlers > 0) e.handlers = -e.handlers;
        s.flying = Exc{e.obj, e.ti, 0};
        s.isFlying = true;
        throwExc(s);
        return true; });
    H({"__cxa_current_exception_type"}, [](State& s, const CallBase&, std::vector<Val>&, Val& r) { r.c = s.caught.empty() ? 0 : s.caught.back().ti; return true; });
    H({"_ZSt18uncaught_exceptionv"}, [](State& s, const CallBase&, std::vector<Val>&, Val& r) { r.c = s.isFlying; return true; });
    H({"_ZSt19uncaught_exceptionsv"}, [](State& s, const CallBase&, std::vector<Val>&, Val& r) { r.c = s.isFlying; return true; });
    H({"_ZSt9terminatev", "__clang_call_terminate"}, [this](State& s, const CallBase&, std::vector<Val>&, Val&) { error(s, "terminate", "std::terminate called"); return true; });
    H({"abort"}, [this](State& s, const CallBase&, std::vector<Val>&, Val&) { error(s, "terminate", "abort() called"); return true; });
    H({"exit", "_exit", "_Exit", "quick_exit"}, [this](State& s, const CallBase&, std::vector<Val>&, Val&) { error(s, "terminate", "process exit requested"); return true; });
    H({"__assert_fail"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) { error(s, "terminate", "assert failed: " + readCString(s, a[0].c)); return true; });
    H({"__cxa_pure_virtual"}, [this](State& s, const CallBase&, std::vector<Val>&, Val&) { error(s, "terminate", "pure virtual method called"); return true; });
    H({"__cxa_atexit", "__cxa_thread_atexit", "atexit"}, [](State&, const CallBase&, std::vector<Val>&, Val& r) { r.c = 0; return true; });
    H({"__cxa_guard_acquire"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) { Val g = loadScalar(s, a[0], 1); r.c = (g.c & 1) ? 0 : 1; return true; });
    H({"__cxa_guard_release"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val&) { Val g; g.c = 1; storeScalar(s, a[0], g, 1); return true; });
    H({"__cxa_guard_abort"}, [](State&, const CallBase&, std::vector<Val>&, Val&) { return true; });
    H({"__dynamic_cast"}, [this](State& s, const CallBase&, std::vector<Val>& a, Val& r) {
        uint64_t p = concretize(s, a[0], 64);
        if (!p) { r.c = 0; return true; }
        Val vp = loadScalar(s, a[0], 8);
        int64_t top = (int64_t)loadBytes(s, idOf(vp.c), offOf(vp.c) - 16, 8).c;
        uint64_t ti = loadBytes(s, idOf(vp.c), offOf(vp.c) - 8, 8).c;
        uint64_t whole = p + top, want = a[2].c;
        std::function<uint64_t(uint64_t, uint64_t)> find = [&](uint64_t t, uint64_t base) -> uint64_t {
            if (t == want) return base;
            Obj* o = findObj(s, idOf(t));
            uint64_t v; memcpy(&v, o->data.data(), 8);
            std::string n = symName(v);
            if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") { uint64_t b; memcpy(&b, o->data.data() + 16, 8); return find(b, base); }
            if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
                uint32_t cnt; memcpy(&cnt, o->data.data() + 20, 4);
                for (uint32_t i = 0; i < cnt; ++i) {
                    uint64_t b; int64_t fl; memcpy(&b, o->data.data() + 24 + 16 * i, 8); memcpy(&fl, o->data.data() + 32 + 16 * i, 8);
                    int64_t off = fl >> 8;
                    if (fl & 1) { uint64_t vpt = loadBytes(s, idOf(base), offOf(base), 8).c; off = (int64_t)loadBytes(s, idOf(vpt), offOf(vpt) + off, 8).c; }
                    if (uint64_t x = find(b, base + off)) return x;
                }
            }
            return 0; };
        r.c = find(ti, whole); return true; });

    // ------------------------------------------------------------ libm
    struct LM { const char* n; unsigned ar; };
    static const char* one[] = {"sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","exp","exp2","exp10","log","log2","log10","expm1","log1p","cbrt"};
    for (auto n : one) {
        std::string nm = n;
        handlers[nm] = [this, nm](State&, const CallBase&, std::vector<Val>& a, Val& r) { r = fromE(libm(nm, 64, {toE(a[0], 64)})); return true; };
        handlers[nm + "f"] = [this, nm](State&, const CallBase&, std::vector<Val>& a, Val& r) { r = fromE(libm(nm, 32, {toE(a[0], 32)})); return true; };
    }
    for (std::string nm : {"pow", "atan2", "hypot"}) {
        handlers[nm] = [this, nm](State&, const CallBase&, std::vector<Val>& a, Val& r) { r = fromE(libm(nm, 64, {toE(a[0], 64), toE(a[1], 64)})); return true; };
        handlers[nm + "f"] = [this, nm](State&, const CallBase&, std::vector<Val>& a, Val& r) { r = fromE(libm(nm, 32, {toE(a[0], 32), toE(a[1], 32)})); return true; };
    }
    auto unary = [this](unsigned w, std::function<E(E)> f) { return [this, w, f](State&, const CallBase&, std::vector<Val>& a, Val& r) { r = fromE(f(toE(a[0], w))); return true; }; };
    for (unsigned w : {64u, 32u}) {
        std::string sf = w == 32 ? "f" : "";
        handlers["sqrt" + sf] = unary(w, [](E x) { return mkFSqrt(x); });
        handlers["floor" + sf] = unary(w, [](E x) { return mkFRound(x, 0); });
        handlers["ceil" + sf] = unary(w, [](E x) { return mkFRound(x, 1); });
        handlers["trunc" + sf] = unary(w, [](E x) { return mkFRound(x, 2); });
        handlers["rint" + sf] = unary(w, [](E x) { return mkFRound(x, 3); });
        handlers["nearbyint" + sf] = handlers["rint" + sf];
        handlers["round" + sf] = unary(w, [](E x) { return mkFRound(x, 4); });
        handlers["fabs" + sf] = unary(w, [w](E x) { return mkBin(K::AND, x, mkConst(maskw(w - 1), w)); });
        handlers["lround" + sf] = unary(w, [](E x) { return mkFToI(K::FPTOSI, mkFRound(x, 4), 64); });
        handlers["llround" + sf] = handlers["lround" + sf];
        handlers["lrint" + sf] = unary(w, [](E x) { return mkFToI(K::FPTOSI, mkFRound(x, 3), 64); });
        handlers["fmod" + sf] = [this, w](State&, const CallBase&, std::vector<Val>& a, Val& r) { r = fromE(mkFBin(K::FREM, toE(a[0], w), toE(a[1], w))); return true; };
        handlers["fmin" + sf] = [this, w](State&, const CallBase&, std::vector<Val>& a, Val& r) { E x = toE(a[0], w), y = toE(a[1], w);
            r = fromE(mkIte(mkFBin(K::FUNO, x, x), y, mkIte(mkFBin(K::FUNO, y, y), x, mkIte(mkFBin(K::FOLT, y, x), y, x)))); return true; };
        handlers["fmax" + sf] = [this, w](State&, const CallBase&, std::vector<Val>& a, Val& r) { E x = toE(a[0], w), y = toE(a[1], w);
            r = fromE(mkIte(mkFBin(K::FUNO, x, x), y, mkIte(mkFBin(K::FUNO, y, y), x, mkIte(mkFBin(K::FOLT, x, y), y, x)))); return true; };
    }
    H({"isnan", "__isnan"}, [this](State&, const CallBase&, std::vector<Val>& a, Val& r) { E x = toE(a[0], 64); r = fromE(mkZExt(mkFBin(K::FUNO, x, x), 32)); return true; });
    H({"abs"}, [this](State&, const CallBase&, std::vector<Val>& a, Val& r) { E x = toE(a[0], 32); r = fromE(mkIte(mkBin(K::SLT, x, mkConst(0, 32)), mkSub(mkConst(0, 32), x), x)); return true; });
    H({"labs", "llabs"}, [this](State&, const CallBase&, std::vector<Val>& a, Val& r) { E x = toE(a[0], 64); r = fromE(mkIte(mkBin(K::SLT, x, mkConst(0, 64)), mkSub(mkConst(0, 64), x), x)); return true; });

    // no concurrency: pthread-related calls used by libstdc++ headers
    H({"__gthread_active_p", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once"}, [](State&, const CallBase&, std::vector<Val>&, Val& r) { r.c = 0; return true; });
}

bool Executor::intrinsic(State& s, const CallBase& cb, const Function* f, std::vector<Val>& a, Val& r) {
    auto mapv = [&](std::function<Val(std::vector<Val>&, unsigned)> fn) {
        Type* t = cb.getType();
        if (t->isVectorTy()) {
            unsigned w = widthOf(cast<VectorType>(t)->getElementType());
            auto* ag = new Agg;
            for (unsigned i = 0; i < cast<FixedVectorType>(t)->getNumElements(); ++i) {
                std::vector<Val> el;
                for (unsigned q = 0; q < a.size(); ++q) el.push_back(a[q].a ? a[q].a->v[i] : a[q]);
                ag->v.push_back(fn(el, w));
            }
            r.a = ag;
        } else { if (t->isX86_FP80Ty()) throw Incomplete("x86_fp80 intrinsic"); r = fn(a, widthOf(t)); }
        return true; };
    auto ext = [&](const char* n) { auto it = handlers.find(n); std::vector<Val> b = a; return it->second(s, cb, b, r); };
    switch (f->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return ext("memcpy");
        case Intrinsic::memset: return ext("memset");
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::sideeffect: return true;
        case Intrinsic::stacksave: return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = a[0]; return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: error(s, "terminate", "trap"); return true;
        case Intrinsic::vastart: {
            Frame& fr = s.stack.back();
            Val v; v.c = 48; uint64_t p = a[0].c;
            storeBytes(s, idOf(p), offOf(p), v, 4);
            v.c = 304; storeBytes(s, idOf(p), offOf(p) + 4, v, 4);
            v.c = objBase(fr.vaobj); storeBytes(s, idOf(p), offOf(p) + 8, v, 8);
            v.c = 0; storeBytes(s, idOf(p), offOf(p) + 16, v, 8);
            return true; }
        case Intrinsic::vaend: return true;
        case Intrinsic::vacopy: copyMem(s, a[0].c, a[1].c, 24); return true;
        case Intrinsic::eh_typeid_for: {
            auto it = typeIds.find(a[0].c);
            if (it == typeIds.end()) it = typeIds.insert({a[0].c, (unsigned)typeIds.size() + 1}).first;
            r.c = it->second; return true; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
            unsigned w = widthOf(cb.getArgOperand(0)->getType());
            auto id = f->getIntrinsicID();
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            unsigned W = 2 * w;
            E x = sg ? mkSExt(toE(a[0], w), W) : mkZExt(toE(a[0], w), W), y = sg ? mkSExt(toE(a[1], w), W) : mkZExt(toE(a[1], w), W), z;
            if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) z = mkBin(K::ADD, x, y);
            else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) z = mkSub(x, y);
            else z = mkBin(K::MUL, x, y);
            E lo = mkExtract(z, 0, w);
            E back = sg ? mkSExt(lo, W) : mkZExt(lo, W);
            auto* ag = new Agg; ag->v.push_back(fromE(lo)); ag->v.push_back(fromE(mkNot(mkBin(K::EQ, back, z))));
            r.a = ag; return true; }
        case Intrinsic::smin: return mapv([&](std::vector<Val>& v, unsigned w) { E x = toE(v[0], w), y = toE(v[1], w); return fromE(mkIte(mkBin(K::SLT, y, x), y, x)); });
        case Intrinsic::smax: return mapv([&](std::vector<Val>& v, unsigned w) { E x = toE(v[0], w), y = toE(v[1], w); return fromE(mkIte(mkBin(K::SLT, x, y), y, x)); });
        case Intrinsic::umin: return mapv([&](std::vector<Val>& v, unsigned w) { E x = toE(v[0], w), y = toE(v[1], w); return fromE(mkIte(mkBin(K::ULT, y, x), y, x)); });
        case Intrinsic::umax: return mapv([&](std::vector<Val>& v, unsigned w) { E x = toE(v[0], w), y = toE(v[1], w); return fromE(mkIte(mkBin(K::ULT, x, y), y, x)); });
        case Intrinsic::abs: return mapv([&](std::vector<Val>& v, unsigned w) { E x = toE(v[0], w); return fromE(mkIte(mkBin(K::SLT, x, mkConst(0, w)), mkSub(mkConst(0, w), x), x)); });
        case Intrinsic::usub_sat: return mapv([&](std::vector<Val>& v, unsigned w) { E x = toE(v[0], w), y = toE(v[1], w); return fromE(mkIte(mkBin(K::ULT, x, y), mkConst(0, w), mkSub(x, y))); });
        case Intrinsic::fabs: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkBin(K::AND, toE(v[0], w), mkConst(maskw(w - 1), w))); });
        case Intrinsic::copysign: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkBin(K::OR, mkBin(K::AND, toE(v[0], w), mkConst(maskw(w - 1), w)), mkBin(K::AND, toE(v[1], w), mkConst(1ULL << (w - 1), w)))); });
        case Intrinsic::sqrt: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkFSqrt(toE(v[0], w))); });
        case Intrinsic::floor: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkFRound(toE(v[0], w), 0)); });
        case Intrinsic::ceil: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkFRound(toE(v[0], w), 1)); });
        case Intrinsic::trunc: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkFRound(toE(v[0], w), 2)); });
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkFRound(toE(v[0], w), 3)); });
        case Intrinsic::round: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkFRound(toE(v[0], w), 4)); });
        case Intrinsic::lround: case Intrinsic::llround: { unsigned w = widthOf(cb.getArgOperand(0)->getType()); r = fromE(mkFToI(K::FPTOSI, mkFRound(toE(a[0], w), 4), widthOf(cb.getType()))); return true; }
        case Intrinsic::lrint: case Intrinsic::llrint: { unsigned w = widthOf(cb.getArgOperand(0)->getType()); r = fromE(mkFToI(K::FPTOSI, mkFRound(toE(a[0], w), 3), widthOf(cb.getType()))); return true; }
        case Intrinsic::fmuladd: return mapv([&](std::vector<Val>& v, unsigned w) { return fromE(mkFBin(K::FADD, mkFBin(K::FMUL, toE(v[0], w), toE(v[1], w)), toE(v[2], w))); });
        case Intrinsic::minnum: return ext(widthOf(cb.getType()) == 32 ? "fminf" : "fmin");
        case Intrinsic::maxnum: return ext(widthOf(cb.getType()) == 32 ? "fmaxf" : "fmax");
        case Intrinsic::pow: return ext(widthOf(cb.getType()) == 32 ? "powf" : "pow");
        case Intrinsic::exp: return ext(widthOf(cb.getType()) == 32 ? "expf" : "exp");
        case Intrinsic::exp2: return ext(widthOf(cb.getType()) == 32 ? "exp2f" : "exp2");
        case Intrinsic::log: return ext(widthOf(cb.getType()) == 32 ? "logf" : "log");
        case Intrinsic::log2: return ext(widthOf(cb.getType()) == 32 ? "log2f" : "log2");
        case Intrinsic::log10: return ext(widthOf(cb.getType()) == 32 ? "log10f" : "log10");
        case Intrinsic::sin: return ext(widthOf(cb.getType()) == 32 ? "sinf" : "sin");
        case Intrinsic::cos: return ext(widthOf(cb.getType()) == 32 ? "cosf" : "cos");
        case Intrinsic::bswap: return mapv([&](std::vector<Val>& v, unsigned w) {
            E x = toE(v[0], w), z = nullptr;
            for (unsigned lo = 0; lo < w; lo += 8) { E b = mkExtract(x, lo, 8); z = z ? mkConcat(z, b) : b; }
            return fromE(z); });
        case Intrinsic::ctpop: return mapv([&](std::vector<Val>& v, unsigned w) {
            E x = toE(v[0], w), z = mkConst(0, w);
            for (unsigned i = 0; i < w; ++i) z = mkBin(K::ADD, z, mkZExt(mkExtract(x, i, 1), w));
            return fromE(z); });
        case Intrinsic::ctlz: return mapv([&](std::vector<Val>& v, unsigned w) {
            E x = toE(v[0], w), z = mkConst(w, w);
            for (unsigned i = 0; i < w; ++i) z = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), z);
            return fromE(z); });
        case Intrinsic::cttz: return mapv([&](std::vector<Val>& v, unsigned w) {
            E x = toE(v[0], w), z = mkConst(w, w);
            for (unsigned i = w; i-- > 0;) z = mkIte(mkExtract(x, i, 1), mkConst(i, w), z);
            return fromE(z); });
        case Intrinsic::fshl: return mapv([&](std::vector<Val>& v, unsigned w) {
            if (v[2].e) throw Incomplete("symbolic funnel shift");
            unsigned n = v[2].c % w; E x = toE(v[0], w), y = toE(v[1], w);
            return fromE(n ? mkConcat(mkExtract(x, 0, w - n), mkExtract(y, w - n, n)) : x); });
        case Intrinsic::fshr: return mapv([&](std::vector<Val>& v, unsigned w) {
            if (v[2].e) throw Incomplete("symbolic funnel shift");
            unsigned n = v[2].c % w; E x = toE(v[0], w), y = toE(v[1], w);
            return fromE(n ? mkConcat(mkExtract(x, 0, n), mkExtract(y, n, w - n)) : y); });
        case Intrinsic::objectsize: r.c = maskw(widthOf(cb.getType())); return true;
        case Intrinsic::is_constant: r.c = 0; return true;
        case Intrinsic::is_fpclass: {
            unsigned w = widthOf(cb.getArgOperand(0)->getType());
            E x = toE(a[0], w); uint64_t mask = a[1].c;
            unsigned mb = w == 64 ? 52 : 23;
            E ex = mkExtract(x, mb, w - 1 - mb), man = mkExtract(x, 0, mb), sg = mkExtract(x, w - 1, 1);
            E e1 = mkBin(K::EQ, ex, mkConst(maskw(ex->width), ex->width)), e0 = mkBin(K::EQ, ex, mkConst(0, ex->width)), m0 = mkBin(K::EQ, man, mkConst(0, mb));
            auto A = [](E p, E q) { return mkBin(K::AND, p, q); };
            E nan = A(e1, mkNot(m0)), q = mkExtract(man, mb - 1, 1), inf = A(e1, m0), zero = A(e0, m0), sub = A(e0, mkNot(m0)), nrm = A(mkNot(e0), mkNot(e1)), ns = mkNot(sg);
            E cl[10] = {A(nan, mkNot(q)), A(nan, q), A(inf, sg), A(nrm, sg), A(sub, sg), A(zero, sg), A(zero, ns), A(sub, ns), A(nrm, ns), A(inf, ns)};
            E z = mkConst(0, 1);
            for (int i = 0; i < 10; ++i) if (mask & (1u << i)) z = mkBin(K::OR, z, cl[i]);
            r = fromE(z); return true; }
        case Intrinsic::fptosi_sat: { unsigned w = widthOf(cb.getArgOperand(0)->getType()), t = widthOf(cb.getType()); r = fromE(mkFToI(K::FPTOSI, toE(a[0], w), t)); return true; }
        default: return false;
    }
}
} // namespace ms
