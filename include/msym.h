// Harness interface.  The same harness runs in two modes:
//  - under the symbolic executor (every msym_* call is interpreted by the engine), and
//  - natively, replaying the concrete inputs of a witness file against the real compiled code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void msym_make_symbolic(void* p, size_t n, const char* name);
void msym_assume(int c);
void msym_assert_(int c, const char* msg);
void msym_reach(const char* tag);
void msym_observe(const char* name, uint64_t v);
int msym_engine(void);
int msym_is_symbolic(uint64_t v);
uint64_t msym_concretize(uint64_t v);
void msym_concretize_bytes(void* p, size_t n);
uint64_t msym_ite(int c, uint64_t a, uint64_t b);
void msym_kill(void);
void msym_trace(const char* n, uint64_t v);
// in-memory (engine) or scratch-directory (native) files
void msym_file(const char* path, const void* data, size_t n);
// reads back a file written by the code under test; returns its size or -1
long msym_file_get(const char* path, void* buf, size_t cap);
// from now on this path cannot be opened with fopen
void msym_deny_open(const char* path);
}
#define MSYM_STR2(x) #x
#define MSYM_STR(x) MSYM_STR2(x)
#define msym_assert(c, msg) msym_assert_((c) ? 1 : 0, msg)

static inline uint64_t msym_u64(const char* n) { uint64_t v; msym_make_symbolic(&v, 8, n); return v; }
static inline uint32_t msym_u32(const char* n) { uint32_t v; msym_make_symbolic(&v, 4, n); return v; }
static inline uint16_t msym_u16(const char* n) { uint16_t v; msym_make_symbolic(&v, 2, n); return v; }
static inline uint8_t msym_u8(const char* n) { uint8_t v; msym_make_symbolic(&v, 1, n); return v; }
static inline double msym_f64(const char* n) { double v; msym_make_symbolic(&v, 8, n); return v; }
static inline float msym_f32(const char* n) { float v; msym_make_symbolic(&v, 4, n); return v; }
// lo..hi inclusive (signed)
static inline int64_t msym_range(const char* n, int64_t lo, int64_t hi)
{
    if (lo >= 0 && hi < 256) { uint8_t b = msym_u8(n); msym_assume((b >= lo) & (b <= hi)); return b; }
    if (lo >= 0 && hi < 65536) { uint16_t b = msym_u16(n); msym_assume((b >= lo) & (b <= hi)); return b; }
    if (lo >= INT32_MIN && hi <= INT32_MAX) { int32_t b = (int32_t)msym_u32(n); msym_assume((b >= (int32_t)lo) & (b <= (int32_t)hi)); return b; }
    int64_t v = (int64_t)msym_u64(n); msym_assume((v >= lo) & (v <= hi)); return v;
}
static inline uint64_t msym_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline uint64_t msym_bitsf(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static inline int msym_finite(double d) { return (int)(d >= -1.7976931348623157e308) & (int)(d <= 1.7976931348623157e308); }
