#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sys/resource.h>

using namespace llvm;

namespace ms {

static Expr undefStorage;
static E const UNDEF = &undefStorage;

double Executor::now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

Executor::Executor(Module& m, const Options& o) : M(m), DL(m.getDataLayout()), opt(o) { t0 = now(); setupHandlers(); }

// ---------------------------------------------------------------- memory
std::shared_ptr<Obj>* Executor::slotOf(State& s, uint32_t id) {
    uint32_t p = id / 64;
    if (p >= s.mem.size() || !s.mem[p]) return nullptr;
    return &s.mem[p]->o[id % 64];
}
Obj* Executor::findObj(State& s, uint32_t id) {
    auto p = slotOf(s, id);
    return p ? p->get() : nullptr;
}
static std::shared_ptr<Page> emptyPage() { return std::make_shared<Page>(); }
Obj* Executor::writable(State& s, uint32_t id) {
    uint32_t p = id / 64;
    auto& pg = s.mem[p];
    if (pg.use_count() > 1) pg = std::make_shared<Page>(*pg);
    auto& o = pg->o[id % 64];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
}
uint64_t Executor::alloc(State& s, uint64_t size, ObjKind k, const std::string& name, bool undef, uint8_t fn) {
    if (s.nextId >= 0x3fffffff) throw Incomplete("out of object ids");
    uint32_t id = s.nextId++;
    uint32_t p = id / 64;
    if (p >= s.mem.size()) s.mem.resize(p + 1);
    if (!s.mem[p]) s.mem[p] = emptyPage();
    else if (s.mem[p].use_count() > 1) s.mem[p] = std::make_shared<Page>(*s.mem[p]);
    auto o = std::make_shared<Obj>();
    o->size = size; o->kind = k; o->name = name; o->allocFn = fn;
    o->data.resize(size);
    if (undef && size) o->sym.assign(size, UNDEF);
    s.mem[p]->o[id % 64] = o;
    return objBase(id);
}
static std::shared_ptr<Obj> freedObj() { static std::shared_ptr<Obj> o = [] { auto x = std::make_shared<Obj>(); x->kind = OK_FREED; x->name = "freed"; return x; }(); return o; }
void Executor::freeObj(State& s, uint32_t id) {
    uint32_t p = id / 64;
    auto& pg = s.mem[p];
    if (pg.use_count() > 1) pg = std::make_shared<Page>(*pg);
    pg->o[id % 64] = freedObj();
}

// materialise the byte at an offset (UNDEF bytes become fresh unconstrained variables)
E Executor::byteAt(State& s, Obj*& o, uint32_t id, uint64_t off) {
    if (o->sym.empty() || !o->sym[off]) return mkConst(o->data[off], 8);
    if (o->sym[off] == UNDEF) {
        static unsigned nu = 0;
        o = writable(s, id);
        E v = mkVar("undef_" + o->name + "_" + std::to_string(off) + "#" + std::to_string(nu++), 8, ~0u, 0);
        o->sym[off] = v;
        return v;
    }
    return o->sym[off];
}

static E extractByte(E x, unsigned lo);
static E rawExtract(E x, unsigned lo, unsigned w);

Val Executor::loadBytes(State& s, uint32_t id, uint64_t off, unsigned n) {
    Obj* o = findObj(s, id);
    Val v;
    bool conc = true;
    if (!o->sym.empty()) for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { conc = false; break; }
    if (conc && n <= 8) {
        uint64_t c = 0;
        memcpy(&c, o->data.data() + off, n);
        v.c = c;
        return v;
    }
    E r = byteAt(s, o, id, off);
    for (unsigned i = 1; i < n; ++i) r = mkConcat(byteAt(s, o, id, off + i), r);
    return fromE(r);
}
void Executor::storeBytes(State& s, uint32_t id, uint64_t off, const Val& v, unsigned n) {
    Obj* o = writable(s, id);
    if (!v.e) {
        uint64_t c = v.c;
        if (n <= 8) memcpy(o->data.data() + off, &c, n);
        else { memcpy(o->data.data() + off, &c, 8); memset(o->data.data() + off + 8, 0, n - 8); }
        if (!o->sym.empty()) for (unsigned i = 0; i < n; ++i) o->sym[off + i] = nullptr;
        return;
    }
    E e = v.e;
    if (e->width < n * 8) e = mkZExt(e, n * 8);
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    for (unsigned i = 0; i < n; ++i) {
        E b = extractByte(e, i * 8);
        if (isConst(b)) { o->data[off + i] = b->val; o->sym[off + i] = nullptr; }
        else o->sym[off + i] = b;
    }
}

std::string Executor::readCString(State& s, uint64_t addr) {
    uint32_t id = addr >> 32; uint64_t off = (addr & 0xffffffff) - BASE_OFF;
    Obj* o = findObj(s, id);
    std::string r;
    if (!o) return "?";
    while (off < o->size) {
        if (!o->sym.empty() && o->sym[off]) { r += '?'; ++off; if (r.size() > 256) break; continue; }
        if (!o->data[off]) break;
        r += (char)o->data[off++];
    }
    return r;
}

// ---------------------------------------------------------------- path condition
void Executor::addPC(State& s, E c) {
    if (isTrue(c)) return;
    if (c->kind == K::AND && c->width == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    s.pc.push_back(c);
}
R Executor::may(State& s, E c, Model* m, bool* valid, unsigned tmo) {
    if (isFalse(c)) return R::UNSAT;
    if (isTrue(c)) { if (m) *m = s.model; if (valid) *valid = s.modelValid; return R::SAT; }
    if (s.modelValid) {
        Evaluator ev(s.model);
        if (ev.eval(c) & 1) { solver.stats.modelHits++; if (m) *m = s.model; if (valid) *valid = true; return R::SAT; }
    }
    std::vector<E> cs = slice(s.pc, c);
    cs.push_back(c);
    Model mm = s.model; bool ok = true;
    R r = solver.check(cs, &mm, &ok, tmo);
    if (r == R::SAT) { if (m) *m = mm; if (valid) *valid = ok && s.modelValid; }
    return r;
}
bool Executor::branch(State& s, E c) {
    if (isConst(c)) return c->val & 1;
    nTransitions++;
    E nc = mkNot(c);
    for (size_t i = s.pc.size(), n = 0; i-- > 0 && n < 64; ++n) {
        if (s.pc[i] == c) return true;
        if (s.pc[i] == nc) return false;
    }
    Model mt, mf; bool vt = true, vf = true;
    R rt = may(s, c, &mt, &vt, opt.branchTimeout);
    if (rt == R::UNSAT) { return false; }
    R rf = may(s, nc, &mf, &vf, opt.branchTimeout);
    if (rf == R::UNSAT) { return true; }
    nForks++;
    auto o = std::make_unique<State>(s);
    o->depth++; s.depth++;
    o->pc = s.pc;
    // other state takes the false side and re-executes the instruction
    addPC(*o, nc);
    if (rf == R::SAT) { o->model = mf; o->modelValid = vf; } else { o->modelValid = false; o->inexact = true; }
    addPC(s, c);
    if (rt == R::SAT) { s.model = mt; s.modelValid = vt; } else { s.modelValid = false; s.inexact = true; }
    work.push_back(std::move(o));
    return true;
}
bool Executor::fullModel(State& s, Model& m) {
    if (s.modelValid) { m = s.model; return true; }
    m = s.model;
    bool ok = true;
    R r = solver.check(s.pc, &m, &ok, opt.assertTimeout);
    if (r == R::SAT && ok) { s.model = m; s.modelValid = true; return true; }
    return false;
}
uint64_t Executor::concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c;
    // implied constant?
    const Instruction* I = &*s.stack.back().it;
    Model m;
    if (!s.modelValid) {
        bool ok = true; Model mm = s.model;
        R r = solver.check(s.pc, &mm, &ok, opt.branchTimeout);
        if (r == R::UNSAT) throw PathEnd();
        if (r == R::UNKNOWN) throw Incomplete("concretize: solver unknown");
        s.model = mm; s.modelValid = ok;
        if (!ok) {
            // take the value from the (unconfirmed) model
        }
    }
    Evaluator ev(s.model);
    uint64_t val = ev.eval(v.e);
    E eq = mkBin(K::EQ, v.e, mkConst(val, w));
    Model mo; bool vo = true;
    R r = may(s, mkNot(eq), &mo, &vo, opt.branchTimeout);
    if (r != R::UNSAT) {
        unsigned& n = s.conc[I];
        if (++n > opt.maxConc) throw Incomplete("too many values to enumerate at " + location(s, nullptr, true));
        nForks++; nTransitions++;
        auto o = std::make_unique<State>(s);
        o->depth++;
        addPC(*o, mkNot(eq));
        if (r == R::SAT) { o->model = mo; o->modelValid = vo; } else { o->modelValid = false; o->inexact = true; }
        work.push_back(std::move(o));
        s.conc[I] = 0;
        addPC(s, eq);
    }
    return val;
}

// ---------------------------------------------------------------- diagnostics
FnInfo* Executor::info(const Function* f) {
    auto it = fninfo.find(f);
    if (it != fninfo.end()) return it->second;
    auto* fi = new FnInfo;
    unsigned n = 0;
    for (auto& a : f->args()) fi->slot[&a] = n++;
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) fi->slot[&i] = n++;
    fi->nslots = n;
    if (auto* sp = f->getSubprogram()) {
        fi->file = sp->getFilename().str();
        if (!fi->file.empty() && fi->file[0] != '/') fi->file = sp->getDirectory().str() + "/" + fi->file;
        fi->repo = fi->file.compare(0, opt.repo.size() + 1, opt.repo + "/") == 0;
    }
    fninfo[f] = fi;
    return fi;
}
std::string Executor::location(State& s, std::string* trace, bool repoFirst) {
    std::string first, repo;
    for (int i = (int)s.stack.size() - 1; i >= 0; --i) {
        auto& f = s.stack[i];
        std::string l;
        const DILocation* dl = nullptr;
        if (f.it != f.bb->end()) dl = f.it->getDebugLoc().get();
        if (dl) l = dl->getFilename().str() + ":" + std::to_string(dl->getLine());
        else l = f.fi->file;
        std::string full = f.f->getName().str() + " @ " + l;
        if (first.empty()) first = full;
        if (repo.empty() && f.fi->repo) repo = full;
        if (trace && s.stack.size() - i < 14) { if (!trace->empty()) *trace += " < "; *trace += full; }
    }
    return repoFirst && !repo.empty() ? repo : first;
}
std::string Executor::writeWitness(State& s, const Model& m, const std::string& fn, bool expect) {
    std::string path = opt.out + "/" + fn;
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return "";
    fprintf(f, "# msym witness entry=%s\n", opt.entry.c_str());
    // group variables by input
    std::map<unsigned, std::vector<uint32_t>> byInput;
    for (uint32_t i = 0; i < g_vars.size(); ++i) if (g_vars[i].input != ~0u) byInput[g_vars[i].input].push_back(i);
    for (auto& in : s.inputs) {
        fprintf(f, "input %s %llu ", in.name.c_str(), (unsigned long long)in.size);
        std::vector<uint8_t> bytes(in.size, 0);
        for (uint32_t v : byInput[in.input]) if (g_vars[v].off < in.size && g_vars[v].name == in.name + "[" + std::to_string(g_vars[v].off) + "]") bytes[g_vars[v].off] = v < m.size() ? m[v] : 0;
        for (uint8_t b : bytes) fprintf(f, "%02x", b);
        fprintf(f, "\n");
    }
    if (expect) {
        Evaluator ev(m);
        for (auto& o : s.observed) fprintf(f, "observe %s %llx\n", o.first.c_str(), (unsigned long long)(o.second.e ? ev.eval(o.second.e) : o.second.c));
    }
    fclose(f);
    return path;
}
void Executor::error(State& s, const std::string& kind, const std::string& msg, const Model* pm, bool confirmed, bool fatal) {
    std::string trace;
    std::string loc = location(s, &trace, true);
    std::string key = kind + "|" + (kind == "assert" ? msg : loc);
    uint64_t& n = errCount[key];
    if (n++ < opt.maxErrPerSite) {
        Model m; bool ok = true;
        if (pm) { m = *pm; ok = confirmed; }
        else ok = fullModel(s, m);
        ErrorRec r;
        r.kind = kind; r.msg = msg; r.loc = loc; r.trace = trace; r.modelConfirmed = ok;
        r.witness = writeWitness(s, m, "cex-" + std::to_string(errors.size()) + ".txt", false);
        errors.push_back(r);
        if (opt.verbose) fprintf(stderr, "ERROR %s: %s at %s\n   %s\n", kind.c_str(), msg.c_str(), loc.c_str(), trace.c_str());
    }
    if (fatal) throw PathEnd();
}
void Executor::endPath(State& s) {
    nPaths++;
    for (auto& r : s.reached) reach[r]++;
    if (s.inexact) incomplete["path with an undecided branch"]; // informational (over-approximation only)
    // the first two paths, then paths 4, 8, 16, ... (spreads the natively replayed sample over the exploration)
    if (witnessCount < opt.witnesses && (nPaths <= 2 || (nPaths & (nPaths - 1)) == 0)) {
        Model m;
        if (fullModel(s, m)) {
            std::string fn = writeWitness(s, m, "path-" + std::to_string(witnessCount) + ".txt", true);
            witnessFiles.push_back(fn);
            witnessCount++;
        }
    }
}

// ---------------------------------------------------------------- address resolution
static unsigned trailZeros(E e, int d = 0) {
    if (d > 20) return 0;
    switch (e->kind) {
        case K::CONST: return e->val ? __builtin_ctzll(e->val) : e->width;
        case K::CONCAT: { unsigned t = trailZeros(e->k[1], d + 1); if (t < e->k[1]->width) return t; return t + trailZeros(e->k[0], d + 1); }
        case K::ADD: return std::min(trailZeros(e->k[0], d + 1), trailZeros(e->k[1], d + 1));
        case K::MUL: return std::min<unsigned>(63, trailZeros(e->k[0], d + 1) + trailZeros(e->k[1], d + 1));
        case K::ITE: return std::min(trailZeros(e->k[1], d + 1), trailZeros(e->k[2], d + 1));
        case K::SEXT: return trailZeros(e->k[0], d + 1);
        default: return 0;
    }
}

Executor::Loc Executor::resolve(State& s, const Val& addr, uint64_t n, const char* what, bool write) {
    auto describe = [&](uint64_t a) {
        char buf[200]; uint32_t id = a >> 32; Obj* o = findObj(s, id);
        if (a < 4096) snprintf(buf, sizeof buf, "null pointer access (%s of %llu bytes at address %llu)", what, (unsigned long long)n, (unsigned long long)a);
        else if (o && o->kind == OK_FREED) snprintf(buf, sizeof buf, "use after free (%s of %llu bytes)", what, (unsigned long long)n);
        else if (o) snprintf(buf, sizeof buf, "out of bounds %s of %llu bytes at offset %lld of %llu-byte object %.60s", what, (unsigned long long)n, (long long)((a & 0xffffffff) - BASE_OFF), (unsigned long long)o->size, o->name.c_str());
        else snprintf(buf, sizeof buf, "wild pointer %s of %llu bytes at 0x%llx", what, (unsigned long long)n, (unsigned long long)a);
        return std::string(buf);
    };
    if (!addr.e) {
        uint32_t id = addr.c >> 32; uint64_t off = (addr.c & 0xffffffff) - BASE_OFF;
        Obj* o = findObj(s, id);
        if (!o || o->kind == OK_FREED || off > o->size || n > o->size - off) error(s, "memory", describe(addr.c));
        if (write && o->ro) error(s, "memory", "write to read-only object " + o->name);
        return {id, off, nullptr};
    }
    nMemChecks++;
    E a = addr.e;
    for (;;) {
        if (!s.modelValid) {
            Model mm = s.model; bool ok = true;
            R r = solver.check(s.pc, &mm, &ok, opt.branchTimeout);
            if (r == R::UNSAT) throw PathEnd();
            if (r == R::UNKNOWN) throw Incomplete("address resolution: solver unknown");
            s.model = mm; s.modelValid = ok;
        }
        Evaluator ev(s.model);
        uint64_t v = ev.eval(a);
        uint32_t id = v >> 32;
        Obj* o = findObj(s, id);
        uint64_t base = objBase(id);
        bool good = o && o->kind != OK_FREED && o->size >= n && (v - base) <= o->size - n;
        if (!good) {
            // error for this address class; continue with the complement
            E win;
            if (o && o->kind != OK_FREED && o->size >= n) {
                E off = mkSub(a, mkConst(base, 64));
                win = mkBin(K::AND, mkNot(mkBin(K::ULE, off, mkConst(o->size - n, 64))), mkBin(K::EQ, mkExtract(a, 32, 32), mkConst(id, 32)));
            } else win = mkBin(K::EQ, mkExtract(a, 32, 32), mkConst(id, 32));
            Model me = s.model;
            error(s, "memory", describe(v), &me, s.modelValid, false);
            Model mo; bool vo = true;
            // one report is enough for a wild pointer: restrict to in-bounds objects reachable by other models
            R r = may(s, mkNot(win), &mo, &vo, opt.branchTimeout);
            if (r == R::UNSAT) throw PathEnd();
            if (++s.conc[&*s.stack.back().it] > 40) throw PathEnd();
            addPC(s, mkNot(win));
            if (r == R::SAT) { s.model = mo; s.modelValid = vo; } else { s.modelValid = false; s.inexact = true; }
            continue;
        }
        if (write && o->ro) error(s, "memory", "write to read-only object " + o->name);
        E off = mkSub(a, mkConst(base, 64));
        E in = mkBin(K::ULE, off, mkConst(o->size - n, 64));
        if (!isTrue(in)) {
            Model mo; bool vo = true;
            R r = may(s, mkNot(in), &mo, &vo, opt.branchTimeout);
            if (r != R::UNSAT) {
                nForks++; nTransitions++;
                auto os = std::make_unique<State>(s);
                os->depth++;
                addPC(*os, mkNot(in));
                if (r == R::SAT) { os->model = mo; os->modelValid = vo; } else { os->modelValid = false; os->inexact = true; }
                if (++os->conc[&*s.stack.back().it] > 200) throw Incomplete("too many objects for one pointer");
                work.push_back(std::move(os));
                addPC(s, in);
            }
        }
        if (isConst(off)) return {id, off->val, nullptr};
        return {id, 0, off};
    }
}

Val Executor::loadScalar(State& s, const Val& addr, unsigned n) {
    if (!addr.e) {
        uint32_t id = addr.c >> 32; uint64_t off = (addr.c & 0xffffffff) - BASE_OFF;
        Obj* o = findObj(s, id);
        if (o && o->kind != OK_FREED && off <= o->size && n <= o->size - off) return loadBytes(s, id, off, n);
    }
    Loc l = resolve(s, addr, n, "read", false);
    if (!l.offE) return loadBytes(s, l.id, l.off, n);
    Obj* o = findObj(s, l.id);
    uint64_t hi = std::min<uint64_t>(l.offE->umax, o->size - n), lo = l.offE->umin;
    unsigned tz = std::min(12u, trailZeros(l.offE));
    uint64_t stepv = 1ULL << tz;
    lo = (lo + stepv - 1) / stepv * stepv;
    uint64_t cnt = hi >= lo ? (hi - lo) / stepv + 1 : 0;
    if (cnt > 20000 || cnt == 0) {
        uint64_t off = concretize(s, fromE(l.offE), 64);
        return loadBytes(s, l.id, off, n);
    }
    if (cnt > 64) {
        // narrow the range with the solver (bounded binary search)
        auto tighten = [&](bool upper) {
            uint64_t a = lo, b = hi;
            for (int i = 0; i < 12 && a < b; ++i) {
                uint64_t mid = a + (b - a) / 2;
                E q = upper ? mkBin(K::ULT, mkConst(mid, 64), l.offE) : mkBin(K::ULE, l.offE, mkConst(mid, 64));
                R r = may(s, q, nullptr, nullptr, 3000);
                if (r == R::UNSAT) { if (upper) b = mid; else a = mid + 1; }
                else { if (upper) a = mid + 1; else b = mid; if (r == R::UNKNOWN) break; }
            }
            return upper ? b : a;
        };
        hi = tighten(true);
        lo = tighten(false);
        lo = lo / stepv * stepv;
    }
    uint64_t lastOff = lo + (hi - lo) / stepv * stepv;
    Val last = loadBytes(s, l.id, lastOff, n);
    E r = toE(last, n * 8);
    for (uint64_t off = lastOff; off > lo; ) {
        off -= stepv;
        E v = toE(loadBytes(s, l.id, off, n), n * 8);
        if (v == r) continue;   // equal values collapse
        r = mkIte(mkBin(K::ULE, l.offE, mkConst(off, 64)), v, r);
    }
    return fromE(r);
}
void Executor::storeScalar(State& s, const Val& addr, const Val& v, unsigned n) {
    Loc l = resolve(s, addr, n, "write", true);
    if (!l.offE) { storeBytes(s, l.id, l.off, v, n); return; }
    Obj* o = findObj(s, l.id);
    uint64_t hi = std::min<uint64_t>(l.offE->umax, o->size - n), lo = l.offE->umin;
    unsigned tz = std::min(12u, trailZeros(l.offE));
    uint64_t stepv = 1ULL << tz;
    lo = (lo + stepv - 1) / stepv * stepv;
    uint64_t cnt = hi >= lo ? (hi - lo) / stepv + 1 : 0;
    if (cnt > 1024 || cnt == 0) {
        uint64_t off = concretize(s, fromE(l.offE), 64);
        storeBytes(s, l.id, off, v, n);
        return;
    }
    E ve = toE(v, n * 8);
    for (uint64_t off = lo; off <= hi; off += stepv) {
        E old = toE(loadBytes(s, l.id, off, n), n * 8);
        E nv = mkIte(mkBin(K::EQ, l.offE, mkConst(off, 64)), ve, old);
        storeBytes(s, l.id, off, fromE(nv), n);
    }
}

Val Executor::loadT(State& s, const Val& addr, Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        auto* ag = new Agg;
        unsigned n; 
        if (auto* st = dyn_cast<StructType>(t)) {
            n = st->getNumElements();
            auto* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < n; ++i) {
                Val a = addr.e ? fromE(mkBin(K::ADD, addr.e, mkConst(sl->getElementOffset(i), 64))) : Val{addr.c + sl->getElementOffset(i)};
                ag->v.push_back(loadT(s, a, st->getElementType(i)));
            }
        } else {
            Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
            n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            uint64_t es = t->isArrayTy() ? DL.getTypeAllocSize(et).getFixedValue() : DL.getTypeStoreSize(et).getFixedValue();
            for (unsigned i = 0; i < n; ++i) {
                Val a = addr.e ? fromE(mkBin(K::ADD, addr.e, mkConst(es * i, 64))) : Val{addr.c + es * i};
                ag->v.push_back(loadT(s, a, et));
            }
        }
        Val v; v.a = ag; return v;
    }
    if (t->isX86_FP80Ty()) throw Incomplete("x86_fp80 load");
    unsigned bits = widthOf(t), n = (bits + 7) / 8;
    Val v = loadScalar(s, addr, n);
    if (bits < n * 8) {
        if (!v.e) v.c &= maskw(bits);
        else v = fromE(mkExtract(v.e, 0, bits));
    }
    return v;
}
void Executor::storeT(State& s, const Val& addr, const Val& v, Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned n;
        if (auto* st = dyn_cast<StructType>(t)) {
            n = st->getNumElements();
            auto* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < n; ++i) {
                Val a = addr.e ? fromE(mkBin(K::ADD, addr.e, mkConst(sl->getElementOffset(i), 64))) : Val{addr.c + sl->getElementOffset(i)};
                storeT(s, a, v.a ? v.a->v[i] : Val(), st->getElementType(i));
            }
        } else {
            Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
            n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            uint64_t es = t->isArrayTy() ? DL.getTypeAllocSize(et).getFixedValue() : DL.getTypeStoreSize(et).getFixedValue();
            for (unsigned i = 0; i < n; ++i) {
                Val a = addr.e ? fromE(mkBin(K::ADD, addr.e, mkConst(es * i, 64))) : Val{addr.c + es * i};
                storeT(s, a, v.a ? v.a->v[i] : Val(), et);
            }
        }
        return;
    }
    if (t->isX86_FP80Ty()) throw Incomplete("x86_fp80 store");
    unsigned bits = widthOf(t), n = (bits + 7) / 8;
    storeScalar(s, addr, v, n);
}
void Executor::copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n || dst == src) return;
    uint32_t di = dst >> 32, si = src >> 32;
    uint64_t doff = (dst & 0xffffffff) - BASE_OFF, soff = (src & 0xffffffff) - BASE_OFF;
    Obj* d = writable(s, di);
    Obj* o = findObj(s, si);
    bool srcSym = false;
    if (!o->sym.empty()) for (uint64_t i = 0; i < n; ++i) if (o->sym[soff + i]) { srcSym = true; break; }
    memmove(d->data.data() + doff, o->data.data() + soff, n);
    if (srcSym) {
        if (d->sym.empty()) d->sym.assign(d->size, nullptr);
        o = findObj(s, si);
        std::memmove(d->sym.data() + doff, o->sym.data() + soff, n * sizeof(E));
    } else if (!d->sym.empty()) std::fill(d->sym.begin() + doff, d->sym.begin() + doff + n, nullptr);
}

// ---------------------------------------------------------------- constants and globals
void Executor::writeConst(Obj& o, uint64_t off, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeConst(o, off + es * i, ca->getOperand(i));
        return;
    }
    if (auto* cv = dyn_cast<ConstantVector>(c)) {
        uint64_t es = DL.getTypeStoreSize(cv->getType()->getElementType()).getFixedValue();
        for (unsigned i = 0; i < cv->getNumOperands(); ++i) writeConst(o, off + es * i, cv->getOperand(i));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = cd->getElementByteSize();
        StringRef raw = cd->getRawDataValues();
        (void)es;
        memcpy(o.data.data() + off, raw.data(), raw.size());
        return;
    }
    Val v = evalConst(c);
    unsigned n = (widthOf(c->getType()) + 7) / 8;
    if (c->getType()->isX86_FP80Ty()) return;
    uint64_t x = v.c;
    memcpy(o.data.data() + off, &x, std::min(n, 8u));
}

Val Executor::evalConst(const Constant* c) {
    auto it = constCache.find(c);
    if (it != constCache.end()) return it->second;
    Val v;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) v.c = ci->getZExtValue();
        else {
            E r = nullptr; unsigned w = ci->getBitWidth();
            for (unsigned lo = 0; lo < w; lo += 64) { unsigned n = std::min(64u, w - lo); E p = mkConst(ci->getValue().extractBitsAsZExtValue(n, lo), n); r = r ? mkConcat(p, r) : p; }
            v = fromE(r);
        }
    } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (cf->getType()->isX86_FP80Ty()) v.c = 0;
        else v.c = cf->getValueAPF().bitcastToAPInt().getZExtValue();
    } else if (isa<ConstantPointerNull>(c)) v.c = 0;
    else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        Type* t = c->getType();
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            auto* ag = new Agg;
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; ++i) {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
                ag->v.push_back(evalConst(Constant::getNullValue(et)));
            }
            v.a = ag;
        }
    } else if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        auto* ag = new Agg;
        unsigned n = isa<ConstantAggregate>(c) ? c->getNumOperands() : cast<ConstantDataSequential>(c)->getNumElements();
        for (unsigned i = 0; i < n; ++i) ag->v.push_back(evalConst(c->getAggregateElement(i)));
        v.a = ag;
    } else if (auto* gv = dyn_cast<GlobalAlias>(c)) {
        v = evalConst(gv->getAliasee());
    } else if (auto* g = dyn_cast<GlobalValue>(c)) {
        auto gi = gaddr.find(g);
        if (gi == gaddr.end()) throw Incomplete("address of unknown global " + g->getName().str());
        v.c = gi->second;
    } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(DL, off)) throw Incomplete("constexpr gep");
                v.c = evalConst(cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue();
                break; }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: v = evalConst(ce->getOperand(0)); break;
            case Instruction::PtrToInt: { v = evalConst(ce->getOperand(0)); unsigned w = widthOf(ce->getType()); v.c &= maskw(w); break; }
            case Instruction::IntToPtr: v = evalConst(ce->getOperand(0)); break;
            case Instruction::Trunc: v = evalConst(ce->getOperand(0)); v.c &= maskw(widthOf(ce->getType())); break;
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: {
                State dummy;
                v = binop(dummy, ce->getOpcode(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), widthOf(ce->getType()), ce->getType());
                break; }
            case Instruction::ICmp: {
                E e = icmpE(cast<ConstantExpr>(ce)->getPredicate(), toE(evalConst(ce->getOperand(0)), widthOf(ce->getOperand(0)->getType())), toE(evalConst(ce->getOperand(1)), widthOf(ce->getOperand(1)->getType())));
                v = fromE(e);
                break; }
            default: throw Incomplete(std::string("constant expression ") + ce->getOpcodeName());
        }
    } else if (isa<ConstantTokenNone>(c)) {
    } else throw Incomplete("unsupported constant");
    constCache[c] = v;
    return v;
}
Val Executor::eval(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return evalConst(c);
    Frame& f = s.stack.back();
    auto it = f.fi->slot.find(v);
    if (it == f.fi->slot.end()) return Val();   // metadata, inline asm ...
    return f.loc[it->second];
}

void Executor::setupGlobals(State& s) {
    uint64_t idx = 0;
    for (auto& f : M) { gaddr[&f] = FN_BASE + 16 * idx++; fnByIdx.push_back(&f); globalAt[gaddr[&f]] = &f; }
    for (auto& g : M.globals()) {
        uint64_t size = 0;
        if (g.getValueType()->isSized()) size = DL.getTypeAllocSize(g.getValueType()).getFixedValue();
        if (g.isDeclaration() && size < 512) size = 512;
        uint64_t a = alloc(s, size, OK_GLOBAL, g.getName().str(), false);
        gaddr[&g] = a;
        globalAt[a] = &g;
    }
    for (auto& g : M.globals()) if (g.hasInitializer()) {
        uint32_t id = gaddr[&g] >> 32;
        Obj* o = findObj(s, id);
        try { writeConst(*o, 0, g.getInitializer()); } catch (Incomplete& e) { fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), e.what()); }
        if (g.isConstant()) o->ro = true;
    }
}
std::string Executor::symName(uint64_t a) {
    auto it = globalAt.upper_bound(a);
    if (it == globalAt.begin()) return "";
    --it;
    if (a >= FN_BASE && it->first != a) return "";
    if (a < FN_BASE && (it->first >> 32) != (a >> 32)) return "";
    return it->second->getName().str();
}

// ---------------------------------------------------------------- operations
E Executor::icmpE(unsigned p, E a, E b) {
    switch (p) {
        case CmpInst::ICMP_EQ: return mkBin(K::EQ, a, b);
        case CmpInst::ICMP_NE: return mkNot(mkBin(K::EQ, a, b));
        case CmpInst::ICMP_ULT: return mkBin(K::ULT, a, b);
        case CmpInst::ICMP_ULE: return mkBin(K::ULE, a, b);
        case CmpInst::ICMP_UGT: return mkBin(K::ULT, b, a);
        case CmpInst::ICMP_UGE: return mkBin(K::ULE, b, a);
        case CmpInst::ICMP_SLT: return mkBin(K::SLT, a, b);
        case CmpInst::ICMP_SLE: return mkBin(K::SLE, a, b);
        case CmpInst::ICMP_SGT: return mkBin(K::SLT, b, a);
        case CmpInst::ICMP_SGE: return mkBin(K::SLE, b, a);
    }
    throw Incomplete("icmp predicate");
}
E Executor::fcmpE(unsigned p, E a, E b) {
    auto uno = [&] { return mkFBin(K::FUNO, a, b); };
    auto ord = [&] { return mkNot(uno()); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return mkConst(0, 1);
        case CmpInst::FCMP_TRUE: return mkConst(1, 1);
        case CmpInst::FCMP_OEQ: return mkFBin(K::FOEQ, a, b);
        case CmpInst::FCMP_OGT: return mkFBin(K::FOLT, b, a);
        case CmpInst::FCMP_OGE: return mkFBin(K::FOLE, b, a);
        case CmpInst::FCMP_OLT: return mkFBin(K::FOLT, a, b);
        case CmpInst::FCMP_OLE: return mkFBin(K::FOLE, a, b);
        case CmpInst::FCMP_ONE: return mkBin(K::AND, mkNot(mkFBin(K::FOEQ, a, b)), ord());
        case CmpInst::FCMP_ORD: return ord();
        case CmpInst::FCMP_UNO: return uno();
        case CmpInst::FCMP_UEQ: return mkBin(K::OR, mkFBin(K::FOEQ, a, b), uno());
        case CmpInst::FCMP_UGT: return mkNot(mkFBin(K::FOLE, a, b));
        case CmpInst::FCMP_UGE: return mkNot(mkFBin(K::FOLT, a, b));
        case CmpInst::FCMP_ULT: return mkNot(mkFBin(K::FOLE, b, a));
        case CmpInst::FCMP_ULE: return mkNot(mkFBin(K::FOLT, b, a));
        case CmpInst::FCMP_UNE: return mkNot(mkFBin(K::FOEQ, a, b));
    }
    throw Incomplete("fcmp predicate");
}
Val Executor::binop(State& s, unsigned opc, const Val& a, const Val& b, unsigned w, Type* t) {
    if (t && t->isVectorTy()) {
        Type* et = cast<VectorType>(t)->getElementType();
        auto* ag = new Agg;
        for (unsigned i = 0; i < a.a->v.size(); ++i) ag->v.push_back(binop(s, opc, a.a->v[i], b.a->v[i], widthOf(et), et));
        Val v; v.a = ag; return v;
    }
    if (t && t->isX86_FP80Ty()) throw Incomplete("x86_fp80 arithmetic");
    K k;
    switch (opc) {
        case Instruction::Add: k = K::ADD; break;
        case Instruction::Sub: {
            if (!a.e && !b.e && w <= 64) { Val v; v.c = (a.c - b.c) & maskw(w); return v; }
            return fromE(mkSub(toE(a, w), toE(b, w))); }
        case Instruction::Mul: k = K::MUL; break;
        case Instruction::UDiv: k = K::UDIV; break;
        case Instruction::SDiv: k = K::SDIV; break;
        case Instruction::URem: k = K::UREM; break;
        case Instruction::SRem: k = K::SREM; break;
        case Instruction::And: k = K::AND; break;
        case Instruction::Or: k = K::OR; break;
        case Instruction::Xor: k = K::XOR; break;
        case Instruction::Shl: k = K::SHL; break;
        case Instruction::LShr: k = K::LSHR; break;
        case Instruction::AShr: k = K::ASHR; break;
        case Instruction::FAdd: k = K::FADD; break;
        case Instruction::FSub: k = K::FSUB; break;
        case Instruction::FMul: k = K::FMUL; break;
        case Instruction::FDiv: k = K::FDIV; break;
        case Instruction::FRem: k = K::FREM; break;
        default: throw Incomplete("binary opcode");
    }
    if (k >= K::FADD) {
        if (!a.e && !b.e) { Val v; v.c = foldF(k, a.c, b.c, w); return v; }
        return fromE(mkFBin(k, toE(a, w), toE(b, w)));
    }
    if (k == K::UDIV || k == K::SDIV || k == K::UREM || k == K::SREM) {
        E be = toE(b, w);
        E z = mkBin(K::EQ, be, mkConst(0, w));
        if (!isFalse(z)) {
            Model m; bool ok = true;
            R r = may(s, z, &m, &ok, opt.branchTimeout);
            if (r == R::SAT) {
                error(s, "arith", "division by zero", &m, ok, false);
                if (isTrue(z)) throw PathEnd();
                E nz = mkNot(z);
                Model m2; bool ok2 = true;
                R r2 = may(s, nz, &m2, &ok2, opt.branchTimeout);
                if (r2 == R::UNSAT) throw PathEnd();
                addPC(s, nz);
                if (r2 == R::SAT) { s.model = m2; s.modelValid = ok2; } else s.modelValid = false;
            } else if (r == R::UNKNOWN) incomplete["division-by-zero query undecided"]++;
        }
    }
    if (!a.e && !b.e && w <= 64) {
        bool ok; uint64_t r = foldInt(k, a.c, b.c, w, ok);
        if (ok) { Val v; v.c = r; return v; }
    }
    return fromE(mkBin(k, toE(a, w), toE(b, w)));
}
Val Executor::castop(State& s, unsigned opc, const Val& a, Type* from, Type* to) {
    if (from->isVectorTy() || to->isVectorTy()) {
        if (opc == Instruction::BitCast) {
            // via flat bits
            auto flat = [&](const Val& v, Type* t) -> E {
                if (!t->isVectorTy()) return toE(v, widthOf(t));
                E r = nullptr; Type* et = cast<VectorType>(t)->getElementType();
                for (auto& x : v.a->v) { E e = toE(x, widthOf(et)); r = r ? mkConcat(e, r) : e; }
                return r; };
            E f = flat(a, from);
            if (!to->isVectorTy()) return fromE(f);
            auto* ag = new Agg; Type* et = cast<VectorType>(to)->getElementType(); unsigned w = widthOf(et);
            for (unsigned i = 0; i < cast<FixedVectorType>(to)->getNumElements(); ++i) ag->v.push_back(fromE(mkExtract(f, i * w, w)));
            Val v; v.a = ag; return v;
        }
        auto* ag = new Agg;
        for (auto& x : a.a->v) ag->v.push_back(castop(s, opc, x, cast<VectorType>(from)->getElementType(), cast<VectorType>(to)->getElementType()));
        Val v; v.a = ag; return v;
    }
    if (from->isX86_FP80Ty() || to->isX86_FP80Ty()) throw Incomplete("x86_fp80 cast");
    unsigned fw = widthOf(from), tw = widthOf(to);
    Val v;
    switch (opc) {
        case Instruction::Trunc:
            if (!a.e) { v.c = a.c & maskw(tw); return v; }
            return fromE(mkExtract(a.e, 0, tw));
        case Instruction::ZExt:
            if (!a.e && tw <= 64) return a;
            return fromE(mkZExt(toE(a, fw), tw));
        case Instruction::SExt:
            if (!a.e && tw <= 64) { v.c = (uint64_t)sx(a.c, fw) & maskw(tw); return v; }
            return fromE(mkSExt(toE(a, fw), tw));
        case Instruction::PtrToInt: case Instruction::IntToPtr:
            if (fw == tw) return a;
            if (fw > tw) return castop(s, Instruction::Trunc, a, from, to);
            return fromE(mkZExt(toE(a, fw), tw));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
        case Instruction::FPTrunc: case Instruction::FPExt: return fromE(mkFCvt(toE(a, fw), tw));
        case Instruction::SIToFP: return fromE(mkIToFP(K::SITOFP, toE(a, fw), tw));
        case Instruction::UIToFP: return fromE(mkIToFP(K::UITOFP, toE(a, fw), tw));
        case Instruction::FPToSI: return fromE(mkFToI(K::FPTOSI, toE(a, fw), tw));
        case Instruction::FPToUI: return fromE(mkFToI(K::FPTOUI, toE(a, fw), tw));
    }
    throw Incomplete("cast");
}
E Executor::libm(const std::string& n, unsigned w, std::vector<E> a) {
    return mkUF(ufIndex(n), w, a[0], a.size() > 1 ? a[1] : nullptr, a.size() > 2 ? a[2] : nullptr);
}

// ---------------------------------------------------------------- control flow
void Executor::enterBlock(State& s, Frame& f, const BasicBlock* to) {
    const BasicBlock* from = f.bb;
    std::vector<std::pair<unsigned, Val>> vals;
    auto it = to->begin();
    for (; it != to->end(); ++it) {
        auto* phi = dyn_cast<PHINode>(&*it);
        if (!phi) break;
        vals.push_back({f.fi->slot[phi], eval(s, phi->getIncomingValueForBlock(from))});
    }
    for (auto& p : vals) f.loc[p.first] = p.second;
    f.bb = to;
    f.it = it;
    if (f.fi->repo) visited.insert(to);
}
void Executor::pushFrame(State& s, const Function* f, std::vector<Val>& args) {
    if (s.stack.size() > 2000) error(s, "stack", "stack overflow (unbounded recursion)");
    FnInfo* fi = info(f);
    executed.insert(f);
    Frame fr;
    fr.f = f; fr.fi = fi; fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin();
    if (fi->repo) visited.insert(fr.bb);
    fr.loc.resize(fi->nslots);
    unsigned n = f->arg_size();
    for (unsigned i = 0; i < n && i < args.size(); ++i) {
        if (f->hasParamAttribute(i, Attribute::ByVal)) {
            Type* bt = f->getParamByValType(i);
            uint64_t sz = DL.getTypeAllocSize(bt).getFixedValue();
            uint64_t a = alloc(s, sz, OK_STACK, "byval", true);
            Loc l = resolve(s, args[i], sz, "read", false);
            if (l.offE) throw Incomplete("byval symbolic address");
            copyMem(s, a, objBase(l.id) + l.off, sz);
            fr.allocas.push_back(a >> 32);
            fr.loc[i].c = a; fr.loc[i].e = nullptr;
        } else fr.loc[i] = args[i];
    }
    if (f->isVarArg()) {
        unsigned extra = args.size() > n ? args.size() - n : 0;
        uint64_t a = alloc(s, extra * 8 + 8, OK_STACK, "varargs", false);
        for (unsigned i = 0; i < extra; ++i) storeBytes(s, a >> 32, i * 8, args[n + i], 8);
        fr.vaobj = a >> 32;
        fr.allocas.push_back(fr.vaobj);
    }
    s.stack.push_back(std::move(fr));
}
void Executor::finishCall(State& s, const CallBase& cb, const Val& v) {
    Frame& f = s.stack.back();
    if (!cb.getType()->isVoidTy()) f.loc[f.fi->slot[&cb]] = v;
    if (auto* inv = dyn_cast<InvokeInst>(&cb)) enterBlock(s, f, inv->getNormalDest());
    else ++f.it;
}
void Executor::ret(State& s, const Val& v, bool) {
    for (uint32_t id : s.stack.back().allocas) freeObj(s, id);
    s.stack.pop_back();
    if (s.stack.empty()) { throw PathEnd(); }
    Frame& f = s.stack.back();
    finishCall(s, cast<CallBase>(*f.it), v);
}

std::vector<uint64_t> Executor::tiBases(State& s, uint64_t ti) {
    std::vector<uint64_t> r;
    uint32_t id = ti >> 32;
    Obj* o = findObj(s, id);
    if (!o || o->size < 16) return r;
    uint64_t vp; memcpy(&vp, o->data.data(), 8);
    std::string n = symName(vp);
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") { uint64_t b; memcpy(&b, o->data.data() + 16, 8); r.push_back(b); }
    else if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        uint32_t cnt; memcpy(&cnt, o->data.data() + 20, 4);
        for (uint32_t i = 0; i < cnt; ++i) { uint64_t b; memcpy(&b, o->data.data() + 24 + 16 * i, 8); r.push_back(b); }
    }
    return r;
}
bool Executor::tiMatches(State& s, uint64_t thrown, uint64_t want) {
    if (want == 0 || thrown == want) return true;
    for (uint64_t b : tiBases(s, thrown)) if (tiMatches(s, b, want)) return true;
    return false;
}
// unwind the in-flight exception
void Executor::throwExc(State& s) {
    // search phase: is there any handler?
    bool handled = false;
    for (int i = (int)s.stack.size() - 1; i >= 0 && !handled; --i) {
        Frame& f = s.stack[i];
        if (f.it == f.bb->end()) continue;
        auto* inv = dyn_cast<InvokeInst>(&*f.it);
        if (!inv) continue;
        auto* lp = inv->getLandingPadInst();
        for (unsigned c = 0; c < lp->getNumClauses(); ++c) {
            if (lp->isCatch(c)) {
                Val t = evalConst(lp->getClause(c));
                if (tiMatches(s, s.flying.ti, t.c)) { handled = true; break; }
            } else handled = true;
        }
    }
    if (!handled) error(s, "terminate", "uncaught exception of type " + symName(s.flying.ti));
    for (;;) {
        if (s.stack.empty()) throw PathEnd();
        Frame& f = s.stack.back();
        if (auto* inv = dyn_cast<InvokeInst>(&*f.it)) {
            auto* lp = inv->getLandingPadInst();
            int sel = 0; bool enter = lp->isCleanup();
            for (unsigned c = 0; c < lp->getNumClauses(); ++c) {
                if (lp->isCatch(c)) {
                    Val t = evalConst(lp->getClause(c));
                    if (tiMatches(s, s.flying.ti, t.c)) {
                        auto it = typeIds.find(t.c);
                        if (it == typeIds.end()) it = typeIds.insert({t.c, (unsigned)typeIds.size() + 1}).first;
                        sel = it->second; enter = true; break;
                    }
                } else { // filter (exception specification)
                    auto* ca = lp->getClause(c);
                    bool ok = false;
                    if (auto* arr = dyn_cast<ConstantArray>(ca)) for (unsigned q = 0; q < arr->getNumOperands(); ++q) ok |= tiMatches(s, s.flying.ti, evalConst(arr->getOperand(q)).c);
                    if (!ok) { sel = -1; enter = true; break; }
                }
            }
            if (enter) {
                enterBlock(s, f, inv->getUnwindDest());
                auto* ag = new Agg;
                Val a; a.c = s.flying.obj; ag->v.push_back(a);
                Val b; b.c = (uint32_t)sel; ag->v.push_back(b);
                Val v; v.a = ag;
                f.loc[f.fi->slot[lp]] = v;
                // enterBlock leaves the iterator at the landingpad (first non-phi)
                ++f.it;
                return;
            }
        }
        for (uint32_t id : f.allocas) freeObj(s, id);
        s.stack.pop_back();
    }
}

// The solver gave up: look for a refutation among a few assignments (never used to conclude that the assertion holds).
bool Executor::probe(State& s, E bad, Model& out) {
    std::vector<E> cs = slice(s.pc, bad);
    cs.push_back(bad);
    std::set<uint32_t> vs;
    for (E e : cs) vs.insert(e->vars->begin(), e->vars->end());
    std::map<unsigned, std::vector<uint32_t>> byInput;
    for (uint32_t v : vs) byInput[g_vars[v].input].push_back(v);
    Model base = s.model;
    if (base.size() < g_vars.size()) base.resize(g_vars.size(), 0);
    uint64_t rng = opt.seed * 0x9e3779b97f4a7c15ull + nAsserts;
    auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    auto value = [&]() -> double {
        static const double sp[] = {0, 1, -1, 0.5, 2, 45, -45, 90, 180, 100, 1000, 0.01, 3000.5, 1e-3, 10, 0.25};
        uint64_t k = rnd() % 4;
        if (k == 0) return sp[rnd() % 16];
        double u = (double)(rnd() >> 11) / 9007199254740992.0;
        return (rnd() & 1 ? 1 : -1) * u * (k == 1 ? 1.0 : k == 2 ? 90.0 : 10000.0);
    };
    auto t0 = std::chrono::steady_clock::now();
    for (int t = 0; t < 400; ++t) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 5) break;
        Model m = base;
        if (t) for (auto& g : byInput) {
            if (t > 40 && rnd() % 3 == 0) continue;
            unsigned hi = 0; for (uint32_t v : g.second) hi = std::max(hi, g_vars[v].off + 1);
            std::vector<unsigned char> b((hi + 7) & ~7u);
            int mode = rnd() % 4; // raw octets, little endian or big endian reals, small integers
            for (unsigned o = 0; o < b.size();) {
                if (mode == 0) { b[o++] = (unsigned char)rnd(); continue; }
                if (mode == 3) { b[o] = (unsigned char)(rnd() % 20); o += hi <= 4 ? 4 : hi <= 8 ? 8 : 1; continue; }
                unsigned n = hi == 4 ? 4 : 8; unsigned char x[8]; double d = value(); float f = (float)d;
                if (n == 8) memcpy(x, &d, 8); else memcpy(x, &f, 4);
                for (unsigned i = 0; i < n && o + i < b.size(); ++i) b[o + i] = x[mode == 1 || hi <= 8 ? i : n - 1 - i];
                o += n;
            }
            for (uint32_t v : g.second) m[v] = b[g_vars[v].off];
        }
        Evaluator ev(m);
        bool good = true;
        for (size_t i = cs.size(); i-- > 0 && good;) good = ev.eval(cs[i]) & 1;
        if (good) { out = m; return true; }
    }
    return false;
}
void Executor::doAssert(State& s, E c, const std::string& msg) {
    nAsserts++;
    assertSites[msg]++;
    if (isTrue(c)) { nAssertsConcrete++; return; }
    Model m; bool ok = true;
    R r = may(s, mkNot(c), &m, &ok, opt.assertTimeout);
    if (r == R::UNSAT) return;
    if (r == R::UNKNOWN && probe(s, mkNot(c), m)) { r = R::SAT; ok = true; nProbed++; }
    if (r == R::UNKNOWN) { nInconclAsserts++; incomplete["assertion undecided by the solver: " + msg]++; addPC(s, c); s.modelValid = false; return; }
    error(s, "assert", msg, &m, ok, false);
    Model m2; bool ok2 = true;
    R r2 = may(s, c, &m2, &ok2, opt.branchTimeout);
    if (r2 == R::UNSAT) throw PathEnd();
    addPC(s, c);
    if (r2 == R::SAT) { s.model = m2; s.modelValid = ok2; } else s.modelValid = false;
}

void Executor::call(State& s, const CallBase& cb) {
    const Function* f = cb.getCalledFunction();
    if (!f) {
        const Value* cv = cb.getCalledOperand()->stripPointerCastsAndAliases();
        f = dyn_cast<Function>(cv);
        if (!f) {
            if (isa<InlineAsm>(cv)) { // compiler barriers only
                Val v; finishCall(s, cb, v); return; }
            uint64_t a = concretize(s, eval(s, cb.getCalledOperand()), 64);
            if (a < FN_BASE || (a - FN_BASE) % 16 || (a - FN_BASE) / 16 >= fnByIdx.size()) error(s, "memory", "call through invalid function pointer");
            f = fnByIdx[(a - FN_BASE) / 16];
        }
    }
    std::vector<Val> args;
    args.reserve(cb.arg_size());
    for (auto& a : cb.args()) {
        if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
        args.push_back(eval(s, a.get()));
    }
    int known = 0;
    auto hk = handlerKnown.find(f);
    const Handler* h = nullptr;
    if (hk == handlerKnown.end()) {
        auto it = handlers.find(f->getName().str());
        if (it != handlers.end()) h = &it->second;
        handlerKnown[f] = 1;
        handlerOf[f] = h;
    } else { known = hk->second; h = handlerOf[f]; }
    (void)known;
    if (f->isIntrinsic()) {
        Val r;
        if (!intrinsic(s, cb, f, args, r)) throw Incomplete("unsupported intrinsic " + f->getName().str());
        finishCall(s, cb, r);
        return;
    }
    if (h) {
        Val r;
        size_t depth = s.stack.size(); const Instruction* at = &*s.stack.back().it;
        if ((*h)(s, cb, args, r)) {
            // a handler that raised an exception has already moved the instruction pointer
            if (s.stack.size() == depth && &*s.stack.back().it == at) finishCall(s, cb, r);
            return;
        }
    }
    if (f->isDeclaration()) throw Incomplete("call of unmodelled function " + f->getName().str() + " at " + location(s, nullptr, true));
    // promote/demote mismatched varargs etc. is not needed with opaque pointers
    pushFrame(s, f, args);
}

static std::string firstLine(const std::string& a) { return a.substr(0, a.find('\n')); }

void Executor::step(State& s) {
    Frame& f = s.stack.back();
    const Instruction& I = *f.it;
    nInst++; s.steps++;
    switch (I.getOpcode()) {
        case Instruction::Br: {
            auto& br = cast<BranchInst>(I);
            if (br.isUnconditional()) { enterBlock(s, f, br.getSuccessor(0)); return; }
            Val c = eval(s, br.getCondition());
            bool t;
            if (!c.e) t = c.c & 1; else t = branch(s, c.e);
            Frame& g = s.stack.back();
            enterBlock(s, g, br.getSuccessor(t ? 0 : 1));
            return; }
        case Instruction::Switch: {
            auto& sw = cast<SwitchInst>(I);
            Val c = eval(s, sw.getCondition());
            unsigned w = widthOf(sw.getCondition()->getType());
            if (!c.e) {
                auto* ci = ConstantInt::get(cast<IntegerType>(sw.getCondition()->getType()), c.c);
                enterBlock(s, f, sw.findCaseValue(ci)->getCaseSuccessor());
                return;
            }
            // decide case groups one destination at a time; other states re-execute the switch
            std::map<const BasicBlock*, E> dest; std::vector<const BasicBlock*> order; E def = mkConst(1, 1);
            for (auto& cs : sw.cases()) {
                E eq = mkBin(K::EQ, c.e, mkConst(cs.getCaseValue()->getZExtValue(), w));
                def = mkBin(K::AND, def, mkNot(eq));
                auto it = dest.find(cs.getCaseSuccessor());
                if (it == dest.end()) { dest[cs.getCaseSuccessor()] = eq; order.push_back(cs.getCaseSuccessor()); }
                else it->second = mkBin(K::OR, it->second, eq);
            }
            for (auto* bb : order) {
                E e = dest[bb];
                if (bb == sw.getDefaultDest()) continue;
                if (branch(s, e)) { enterBlock(s, s.stack.back(), bb); return; }
            }
            (void)def;
            enterBlock(s, s.stack.back(), sw.getDefaultDest());
            return; }
        case Instruction::Ret: {
            auto& r = cast<ReturnInst>(I);
            Val v; if (r.getReturnValue()) v = eval(s, r.getReturnValue());
            ret(s, v, true);
            return; }
        case Instruction::Call: case Instruction::Invoke: call(s, cast<CallBase>(I)); return;
        case Instruction::Resume: {
            s.flying = Exc{eval(s, I.getOperand(0)).a->v[0].c, s.flying.ti, 0};
            // pop this frame's own landing pads: continue unwinding above the current frame
            for (uint32_t id : f.allocas) freeObj(s, id);
            s.stack.pop_back();
            if (s.stack.empty()) error(s, "terminate", "uncaught exception");
            throwExc(s);
            return; }
        case Instruction::Unreachable: error(s, "unreachable", "reached code marked unreachable"); return;
        case Instruction::Alloca: {
            auto& ai = cast<AllocaInst>(I);
            uint64_t n = 1;
            if (ai.isArrayAllocation()) {
                Val c = eval(s, ai.getArraySize());
                n = concretize(s, c, widthOf(ai.getArraySize()->getType()));
            }
            uint64_t sz = n * DL.getTypeAllocSize(ai.getAllocatedType()).getFixedValue();
            if (sz > std::min<uint64_t>(opt.maxAlloc, 8u << 20)) error(s, "stack", "stack overflow: variable length array of " + std::to_string(sz) + " bytes");
            uint64_t a = alloc(s, sz, OK_STACK, ai.hasName() ? ai.getName().str() : "alloca", true);
            Frame& g = s.stack.back();
            g.allocas.push_back(a >> 32);
            Val v; v.c = a;
            g.loc[g.fi->slot[&I]] = v;
            ++g.it;
            return; }
        case Instruction::Load: {
            Val v = loadT(s, eval(s, I.getOperand(0)), I.getType());
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::Store: {
            storeT(s, eval(s, I.getOperand(1)), eval(s, I.getOperand(0)), I.getOperand(0)->getType());
            ++f.it; return; }
        case Instruction::GetElementPtr: {
            auto& gep = cast<GetElementPtrInst>(I);
            if (I.getType()->isVectorTy()) throw Incomplete("vector gep");
            Val b = eval(s, gep.getPointerOperand());
            uint64_t coff = 0; E soff = nullptr;
            for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
                if (StructType* st = gi.getStructTypeOrNull()) {
                    coff += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                } else {
                    uint64_t es = DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                    Val i = eval(s, gi.getOperand());
                    unsigned w = widthOf(gi.getOperand()->getType());
                    if (!i.e) coff += (uint64_t)sx(i.c, w) * es;
                    else {
                        E x = mkBin(K::MUL, mkSExt(i.e, 64), mkConst(es, 64));
                        soff = soff ? mkBin(K::ADD, soff, x) : x;
                    }
                }
            }
            Val v;
            if (!b.e && !soff) v.c = b.c + coff;
            else {
                E e = toE(b, 64);
                if (soff) e = mkBin(K::ADD, e, soff);
                e = mkBin(K::ADD, e, mkConst(coff, 64));
                v = fromE(e);
            }
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::ICmp: {
            auto& ic = cast<ICmpInst>(I);
            Val a = eval(s, I.getOperand(0)), b = eval(s, I.getOperand(1));
            Val v;
            if (a.a) { // vector compare
                auto* ag = new Agg; unsigned w = widthOf(cast<VectorType>(I.getOperand(0)->getType())->getElementType());
                for (unsigned i = 0; i < a.a->v.size(); ++i) ag->v.push_back(fromE(icmpE(ic.getPredicate(), toE(a.a->v[i], w), toE(b.a->v[i], w))));
                v.a = ag;
            } else {
                unsigned w = widthOf(I.getOperand(0)->getType());
                if (!a.e && !b.e && w <= 64) {
                    bool r = false; uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sxx = sx(x, w), sy = sx(y, w);
                    switch (ic.getPredicate()) {
                        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
                        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
                        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
                        case CmpInst::ICMP_SLT: r = sxx < sy; break; case CmpInst::ICMP_SLE: r = sxx <= sy; break;
                        case CmpInst::ICMP_SGT: r = sxx > sy; break; case CmpInst::ICMP_SGE: r = sxx >= sy; break;
                        default: break;
                    }
                    v.c = r;
                } else v = fromE(icmpE(ic.getPredicate(), toE(a, w), toE(b, w)));
            }
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::FCmp: {
            auto& fc = cast<FCmpInst>(I);
            Type* t = I.getOperand(0)->getType();
            Val a = eval(s, I.getOperand(0)), b = eval(s, I.getOperand(1));
            if (t->isX86_FP80Ty()) throw Incomplete("x86_fp80 compare");
            Val v;
            if (a.a) {
                auto* ag = new Agg; unsigned w = widthOf(cast<VectorType>(t)->getElementType());
                for (unsigned i = 0; i < a.a->v.size(); ++i) ag->v.push_back(fromE(fcmpE(fc.getPredicate(), toE(a.a->v[i], w), toE(b.a->v[i], w))));
                v.a = ag;
            } else { unsigned w = widthOf(t); v = fromE(fcmpE(fc.getPredicate(), toE(a, w), toE(b, w))); }
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::Select: {
            Val c = eval(s, I.getOperand(0));
            Val a = eval(s, I.getOperand(1)), b = eval(s, I.getOperand(2));
            Val v;
            if (c.a) {
                auto* ag = new Agg; unsigned w = widthOf(cast<VectorType>(I.getType())->getElementType());
                for (unsigned i = 0; i < c.a->v.size(); ++i) {
                    const Val& ci = c.a->v[i];
                    if (!ci.e) ag->v.push_back((ci.c & 1) ? a.a->v[i] : b.a->v[i]);
                    else ag->v.push_back(fromE(mkIte(ci.e, toE(a.a->v[i], w), toE(b.a->v[i], w))));
                }
                v.a = ag;
            } else if (!c.e) v = (c.c & 1) ? a : b;
            else if (a.a || b.a) { bool t = branch(s, c.e); v = t ? a : b; }
            else if (I.getType()->isPointerTy() ) {
                // pointers into different objects: fork rather than build mixed addresses
                uint32_t ia = a.e ? 0 : a.c >> 32, ib = b.e ? 0 : b.c >> 32;
                if (!a.e && !b.e && ia == ib) v = fromE(mkIte(c.e, toE(a, 64), toE(b, 64)));
                else { bool t = branch(s, c.e); v = t ? a : b; }
            } else { unsigned w = widthOf(I.getType()); v = fromE(mkIte(c.e, toE(a, w), toE(b, w))); }
            Frame& g = s.stack.back();
            g.loc[g.fi->slot[&I]] = v; ++g.it; return; }
        case Instruction::ExtractValue: {
            auto& ev = cast<ExtractValueInst>(I);
            Val a = eval(s, I.getOperand(0));
            for (unsigned i : ev.indices()) { if (!a.a) { a = Val(); break; } Val t = a.a->v[i]; a = t; }
            f.loc[f.fi->slot[&I]] = a; ++f.it; return; }
        case Instruction::InsertValue: {
            auto& iv = cast<InsertValueInst>(I);
            Val a = eval(s, I.getOperand(0)), b = eval(s, I.getOperand(1));
            std::function<Val(const Val&, unsigned, Type*)> ins = [&](const Val& x, unsigned d, Type* t) -> Val {
                if (d == iv.getNumIndices()) return b;
                auto* ag = new Agg;
                if (x.a) *ag = *x.a; else ag->v.resize(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements());
                unsigned i = iv.getIndices()[d];
                ag->v[i] = ins(ag->v[i], d + 1, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
                Val r; r.a = ag; return r; };
            Val v = ins(a, 0, I.getType());
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::ExtractElement: {
            Val a = eval(s, I.getOperand(0)), i = eval(s, I.getOperand(1));
            if (i.e) throw Incomplete("symbolic vector index");
            f.loc[f.fi->slot[&I]] = a.a->v[i.c]; ++f.it; return; }
        case Instruction::InsertElement: {
            Val a = eval(s, I.getOperand(0)), b = eval(s, I.getOperand(1)), i = eval(s, I.getOperand(2));
            if (i.e) throw Incomplete("symbolic vector index");
            auto* ag = new Agg(*a.a); ag->v[i.c] = b;
            Val v; v.a = ag;
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(I);
            Val a = eval(s, I.getOperand(0)), b = eval(s, I.getOperand(1));
            auto* ag = new Agg; unsigned n = a.a->v.size();
            for (int m : sv.getShuffleMask()) ag->v.push_back(m < 0 ? Val() : (unsigned)m < n ? a.a->v[m] : b.a->v[m - n]);
            Val v; v.a = ag;
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::FNeg: {
            Val a = eval(s, I.getOperand(0)); unsigned w = widthOf(I.getType());
            if (I.getType()->isX86_FP80Ty() || a.a) throw Incomplete("fneg type");
            Val v = fromE(mkBin(K::XOR, toE(a, w), mkConst(1ULL << (w - 1), w)));
            f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::Freeze: { Val v = eval(s, I.getOperand(0)); f.loc[f.fi->slot[&I]] = v; ++f.it; return; }
        case Instruction::AtomicRMW: {
            auto& rmw = cast<AtomicRMWInst>(I);
            Type* t = I.getType(); unsigned w = widthOf(t);
            Val p = eval(s, rmw.getPointerOperand()), x = eval(s, rmw.getValOperand());
            Val old = loadT(s, p, t), nv;
            switch (rmw.getOperation()) {
                case AtomicRMWInst::Xchg: nv = x; break;
                case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, x, w, t); break;
                case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, x, w, t); break;
                case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, x, w, t); break;
                case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, x, w, t); break;
                default: throw Incomplete("atomicrmw");
            }
            storeT(s, p, nv, t);
            f.loc[f.fi->slot[&I]] = old; ++f.it; return; }
        case Instruction::AtomicCmpXchg: {
            auto& cx = cast<AtomicCmpXchgInst>(I);
            Type* t = cx.getCompareOperand()->getType(); unsigned w = widthOf(t);
            Val p = eval(s, cx.getPointerOperand()), c = eval(s, cx.getCompareOperand()), n = eval(s, cx.getNewValOperand());
            Val old = loadT(s, p, t);
            E eq = mkBin(K::EQ, toE(old, w), toE(c, w));
            bool t1 = branch(s, eq);
            if (t1) storeT(s, p, n, t);
            auto* ag = new Agg; ag->v.push_back(old); Val b; b.c = t1; ag->v.push_back(b);
            Val v; v.a = ag;
            Frame& g = s.stack.back();
            g.loc[g.fi->slot[&I]] = v; ++g.it; return; }
        case Instruction::Fence: ++f.it; return;
        case Instruction::LandingPad: throw Incomplete("landingpad reached directly");
        default: break;
    }
    if (I.isBinaryOp()) {
        Val v = binop(s, I.getOpcode(), eval(s, I.getOperand(0)), eval(s, I.getOperand(1)), I.getType()->isVectorTy() ? 0 : widthOf(I.getType()), I.getType());
        f.loc[f.fi->slot[&I]] = v; ++f.it; return;
    }
    if (I.isCast()) {
        Val v = castop(s, I.getOpcode(), eval(s, I.getOperand(0)), I.getOperand(0)->getType(), I.getType());
        f.loc[f.fi->slot[&I]] = v; ++f.it; return;
    }
    throw Incomplete(std::string("unsupported instruction ") + I.getOpcodeName());
}

void Executor::runState(State& s) {
    cur = &s;
    try {
        while (true) {
            step(s);
            if ((s.steps & 1023) == 0) {
                if (now() - t0 > opt.timeLimit) { timedOut = true; throw Incomplete("time limit"); }
                if (s.steps > opt.maxSteps) {
                    if (opt.hangIsError) error(s, "hang", "step limit exceeded (endless loop)");
                    throw Incomplete("step limit per path");
                }
            }
        }
    } catch (PathEnd&) {
        if (s.stack.empty()) endPath(s);
    } catch (Incomplete& e) {
        incomplete[firstLine(e.what())]++;
        if (opt.verbose) { std::string tr; location(s, &tr, false); fprintf(stderr, "INCOMPLETE %s\n    %s\n", e.what(), tr.c_str()); }
    } catch (std::exception& e) {
        incomplete[std::string("engine: ") + e.what()]++;
        if (opt.verbose) { std::string tr; location(s, &tr, false); fprintf(stderr, "INCOMPLETE(engine) %s\n    %s\n", e.what(), tr.c_str()); }
    }
}

void Executor::run() {
    solver.deadline = now() + opt.timeLimit;
    auto init = std::make_unique<State>();
    setupGlobals(*init);
    // run static constructors, then the entry point, in one state
    std::vector<const Function*> seq;
    if (auto* gc = M.getGlobalVariable("llvm.global_ctors")) {
        if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<uint64_t, const Function*>> v;
            for (unsigned i = 0; i < arr->getNumOperands(); ++i) {
                auto* st = cast<ConstantStruct>(arr->getOperand(i));
                if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
            }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v) seq.push_back(p.second);
        }
    }
    const Function* entry = M.getFunction(opt.entry);
    if (!entry) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); incomplete["entry point missing"]++; return; }
    State& s = *init;
    for (auto* fn : seq) {
        std::vector<Val> a;
        try {
            pushFrame(s, fn, a);
            while (!s.stack.empty()) step(s);
        } catch (PathEnd&) { if (!s.stack.empty()) { incomplete["static constructor failed"]++; s.stack.clear(); } }
        catch (Incomplete& e) {
            std::string tr; location(s, &tr, false);
            if (opt.verbose) fprintf(stderr, "ctor %s: %s\n   %s\n", fn->getName().str().c_str(), e.what(), tr.c_str());
            incomplete[std::string("static constructor: ") + firstLine(e.what())]++;
            s.stack.clear();
        }
    }
    if (opt.verbose) fprintf(stderr, "static constructors done (%zu), %llu instructions\n", seq.size(), (unsigned long long)nInst);
    executed.clear(); visited.clear();
    std::vector<Val> a;
    for (unsigned i = 0; i < entry->arg_size(); ++i) a.push_back(Val());
    pushFrame(s, entry, a);
    s.steps = 0;
    work.push_back(std::move(init));
    while (!work.empty()) {
        auto st = std::move(work.back());
        work.pop_back();
        if (now() - t0 > opt.timeLimit) { timedOut = true; incomplete["time limit"] += 1 + work.size(); break; }
        if (nPaths >= opt.maxPaths) { incomplete["path limit"] += 1 + work.size(); break; }
        if (opt.stopOnError && !errors.empty()) break;
        runState(*st);
    }
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
void Executor::writeJson(const std::string& fn) {
    FILE* f = fopen(fn.c_str(), "w");
    if (!f) return;
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(f, "{\n\"entry\":%s,\n\"paths\":%llu,\"assume_killed\":%llu,\"forks\":%llu,\"transitions\":%llu,\"instructions\":%llu,\n", jstr(opt.entry).c_str(),
        (unsigned long long)nPaths, (unsigned long long)nAssumeKilled, (unsigned long long)nForks, (unsigned long long)nTransitions, (unsigned long long)nInst);
    fprintf(f, "\"asserts\":%llu,\"asserts_folded\":%llu,\"asserts_inconclusive\":%llu,\"mem_checks\":%llu,\n", (unsigned long long)nAsserts, (unsigned long long)nAssertsConcrete, (unsigned long long)nInconclAsserts, (unsigned long long)nMemChecks);
    auto& st = solver.stats;
    fprintf(f, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"abstract_unsat\":%llu,\"refinements\":%llu,\"boxes\":%llu,\"by_boxes\":%llu,\"seconds\":%.3f,\"max_seconds\":%.3f},\n",
        (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.abstractUnsat, (unsigned long long)st.ufRefinements, (unsigned long long)st.boxes, (unsigned long long)st.byBoxes, st.seconds, st.maxSeconds);
    auto dump = [&](const char* n, std::map<std::string, uint64_t>& m) {
        fprintf(f, "%s:{", jstr(n).c_str());
        bool first = true;
        for (auto& p : m) { if (!p.second) continue; fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
        fprintf(f, "},\n");
    };
    dump("incomplete", incomplete);
    dump("reach", reach);
    dump("assert_sites", assertSites);
    fprintf(f, "\"timed_out\":%s,\"wall\":%.3f,\"max_rss_kb\":%ld,\"exprs\":%llu,\n", timedOut ? "true" : "false", now() - t0, ru.ru_maxrss, (unsigned long long)exprCount());
    if (const char* lf = getenv("MSYM_LINES")) {        // source lines of the repository that were executed
        if (FILE* l = fopen((std::string(lf) + "." + opt.entry).c_str(), "w")) {
            for (auto* bb : visited) for (auto& in : *bb) if (const DILocation* d = in.getDebugLoc().get()) {
                std::string fn = d->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = d->getDirectory().str() + "/" + fn;
                fprintf(l, "%s:%u\n", fn.c_str(), d->getLine());
            }
            fclose(l);
        }
    }
    fprintf(f, "\"functions\":[");
    bool first = true;
    std::set<std::string> names;
    for (auto* fn : executed) { FnInfo* fi = info(fn); if (fi->repo) names.insert(fn->getName().str() + "|" + fi->file); }
    for (auto& n : names) { fprintf(f, "%s%s", first ? "" : ",", jstr(n).c_str()); first = false; }
    fprintf(f, "],\n\"errors\":[");
    first = true;
    for (auto& e : errors) {
        fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"trace\":%s,\"witness\":%s,\"confirmed\":%s}", first ? "" : ",\n", jstr(e.kind).c_str(), jstr(e.msg).c_str(), jstr(e.loc).c_str(), jstr(e.trace).c_str(), jstr(e.witness).c_str(), e.modelConfirmed ? "true" : "false");
        first = false;
    }
    fprintf(f, "],\n\"witnesses\":[");
    first = true;
    for (auto& w : witnessFiles) { fprintf(f, "%s%s", first ? "" : ",", jstr(w).c_str()); first = false; }
    fprintf(f, "]\n}\n");
    fclose(f);
}

static E extractByte(E x, unsigned lo) {
    switch (x->kind) {
        case K::CONST: return mkConst(x->val >> lo, 8);
        case K::EXTRACT: return rawExtract(x->k[0], x->val + lo, 8);
        case K::CONCAT: {
            unsigned lw = x->k[1]->width;
            if (lo + 8 <= lw) return x->k[1]->width == 8 ? x->k[1] : extractByte(x->k[1], lo);
            if (lo >= lw) return x->k[0]->width == 8 ? x->k[0] : extractByte(x->k[0], lo - lw);
            return mkExtract(x, lo, 8);
        }
        default: return rawExtract(x, lo, 8);
    }
}
E mkRawExtract(E x, unsigned lo, unsigned w);
static E rawExtract(E x, unsigned lo, unsigned w) { return mkRawExtract(x, lo, w); }
} // namespace ms
