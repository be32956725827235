// Native side of the harness interface (counterexample replay / path validation).
#include "msym.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <exception>
#include <dlfcn.h>
#include <cerrno>
static const char* g_denied;
extern "C" void msym_deny_open(const char* p) { g_denied = p; }
template<typename F> static FILE* real_open(const char* n, const char* p, const char* m) { if (g_denied && p && !strcmp(p, g_denied)) { errno = EACCES; return nullptr; } static F f = (F)dlsym(RTLD_NEXT, n); return f(p, m); }
extern "C" FILE* my_fopen(const char* p, const char* m) __asm__("fopen");
extern "C" FILE* my_fopen64(const char* p, const char* m) __asm__("fopen64");
extern "C" FILE* my_fopen(const char* p, const char* m) { return real_open<FILE* (*)(const char*, const char*)>("fopen", p, m); }
extern "C" FILE* my_fopen64(const char* p, const char* m) { return real_open<FILE* (*)(const char*, const char*)>("fopen64", p, m); }
struct In { std::string name; std::vector<unsigned char> bytes; };
static std::vector<In> g_in; static size_t g_next = 0;
struct Ob { std::string name; unsigned long long v; };
static std::vector<Ob> g_ob; static size_t g_obn = 0; static bool g_mismatch = false;
static void load()
{
    static bool done = false; if (done) return; done = true;
    const char* f = getenv("MSYM_REPLAY"); if (!f) return;
    std::ifstream i(f); std::string line;
    while (std::getline(i, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "input") { In in; size_t n; std::string hex; s >> in.name >> n >> hex; for (size_t q = 0; q + 1 < hex.size(); q += 2) in.bytes.push_back((unsigned char)strtoul(hex.substr(q, 2).c_str(), 0, 16)); in.bytes.resize(n); g_in.push_back(in); }
        else if (k == "observe") { Ob o; s >> o.name >> std::hex >> o.v; g_ob.push_back(o); }
    }
}
static void fin(int code) { fflush(stdout); fflush(stderr); _exit(code); }
extern "C" {
void msym_make_symbolic(void* p, size_t n, const char* name)
{
    load();
    if (g_next >= g_in.size() || g_in[g_next].bytes.size() != n) { fprintf(stderr, "REPLAY: input %s out of step\n", name); fin(44); }
    memcpy(p, g_in[g_next++].bytes.data(), n);
}
void msym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); fin(43); } }
void msym_assert_(int c, const char* msg) { if (!c) { fprintf(stderr, "REPLAY: assertion violated: %s\n", msg); fin(42); } }
void msym_reach(const char*) {}
void msym_observe(const char* n, uint64_t v)
{
    load();
    if (g_obn < g_ob.size()) { if (g_ob[g_obn].v != v) { fprintf(stderr, "REPLAY: observation %s differs: engine %llx, real %llx\n", n, g_ob[g_obn].v, (unsigned long long)v); g_mismatch = true; } ++g_obn; }
}
int msym_engine(void) { return 0; }
int msym_is_symbolic(uint64_t) { return 0; }
uint64_t msym_concretize(uint64_t v) { return v; }
void msym_concretize_bytes(void*, size_t) {}
uint64_t msym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void msym_kill(void) { fin(43); }
void msym_trace(const char*, uint64_t) {}
void msym_file(const char* path, const void* data, size_t n)
{
    std::string p(path);
    for (size_t i = 1; i < p.size(); ++i) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
    if (p.empty() || p[0] == '/' || p.find("..") != std::string::npos) { fprintf(stderr, "REPLAY: refusing path %s\n", path); fin(44); }
    FILE* f = fopen(path, "wb"); if (!f) { fprintf(stderr, "REPLAY: cannot create %s\n", path); fin(44); }
    fwrite(data, 1, n, f); fclose(f);
}
long msym_file_get(const char* path, void* buf, size_t cap)
{
    FILE* f = fopen(path, "rb"); if (!f) return -1;
    fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET);
    size_t r = fread(buf, 1, cap, f); (void)r; fclose(f); return n;
}
void MSYM_ENTRY(void);
}
// leave something recognisable in the memory of the locals to come, for replays that depend on uninitialised ones
__attribute__((noinline, no_sanitize("address"))) static void paint(int v) { volatile unsigned char b[4 << 20]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (unsigned char)v; }
int main()
{
    load(); if (const char* f = getenv("MSYM_FILL")) paint(atoi(f));
    MSYM_ENTRY();
    fprintf(stderr, "REPLAY: completed\n");
    fin(g_mismatch ? 45 : 0);
}

// AddressSanitizer's interceptor of glob() does not know GLOB_DOOFFS: call the C library's own (a harness may define its own stand-in)
#include <dlfcn.h>
static void* libc_sym(const char* n) { static void* h = dlopen("libc.so.6", RTLD_LAZY | RTLD_NOLOAD); return dlsym(h, n); }
extern "C" {
__attribute__((weak)) int v_glob64(const char* p, int f, void* e, void* g) __asm__("glob64");
__attribute__((weak)) void v_globfree64(void* g) __asm__("globfree64");
__attribute__((weak)) int v_glob(const char* p, int f, void* e, void* g) __asm__("glob");
__attribute__((weak)) void v_globfree(void* g) __asm__("globfree");
int v_glob64(const char* p, int f, void* e, void* g) { return ((int (*)(const char*, int, void*, void*))libc_sym("glob64"))(p, f, e, g); }
void v_globfree64(void* g) { ((void (*)(void*))libc_sym("globfree64"))(g); }
int v_glob(const char* p, int f, void* e, void* g) { return ((int (*)(const char*, int, void*, void*))libc_sym("glob"))(p, f, e, g); }
void v_globfree(void* g) { ((void (*)(void*))libc_sym("globfree"))(g); }
}
