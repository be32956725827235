// Small vocabulary shared by the harnesses.
#pragma once
#include "msym.h"
#include <string>
#include <cstring>
#include <cstdio>
#include <ctime>
#include <vector>
#ifndef THOROUGH
#define THOROUGH 0
#endif
#define ENTRY(n) extern "C" void n(void); extern "C" void n(void)
static inline uint16_t be16(const unsigned char* p) { return (uint16_t)((p[0] << 8) | p[1]); }
static inline uint32_t be32(const unsigned char* p) { return ((uint32_t)p[0] << 24) | ((uint32_t)p[1] << 16) | ((uint32_t)p[2] << 8) | p[3]; }
static inline uint64_t be64(const unsigned char* p) { return ((uint64_t)be32(p) << 32) | be32(p + 4); }
static inline void put16(unsigned char* p, uint32_t v) { p[0] = (unsigned char)(v >> 8); p[1] = (unsigned char)v; }
static inline void put32(unsigned char* p, uint32_t v) { put16(p, v >> 16); put16(p + 2, v & 0xffff); }
static inline void put64(unsigned char* p, uint64_t v) { put32(p, (uint32_t)(v >> 32)); put32(p + 4, (uint32_t)v); }
static inline void put_r8(unsigned char* p, double d) { put64(p, msym_bits(d)); }
static inline void put_r4(unsigned char* p, float d) { put32(p, (uint32_t)msym_bitsf(d)); }
// bitwise equality (NaN payloads included)
static inline int sameD(double a, double b) { return msym_bits(a) == msym_bits(b); }
static inline int sameF(float a, float b) { return msym_bitsf(a) == msym_bitsf(b); }
static inline int isnanD(double d) { uint64_t u = msym_bits(d) & 0x7fffffffffffffffULL; return u > 0x7ff0000000000000ULL; }
static inline int isnanF(float d) { uint32_t u = (uint32_t)msym_bitsf(d) & 0x7fffffffu; return u > 0x7f800000u; }
// fresh heap buffer of exactly n symbolic bytes (so an out of range access is an error)
static inline unsigned char* sym_buf(size_t n, const char* name) { unsigned char* p = new unsigned char[n]; msym_make_symbolic(p, n, name); return p; }
static inline int eqbytes(const void* a, const void* b, size_t n) { int r = 1; for (size_t i = 0; i < n; ++i) r &= ((const unsigned char*)a)[i] == ((const unsigned char*)b)[i]; return r; }
static inline int eqstr(const std::string& a, const std::string& b) { return a.size() == b.size() && eqbytes(a.data(), b.data(), a.size()); }
static inline void observe_str(const char* n, const std::string& s) { msym_observe(n, s.size()); for (size_t i = 0; i < s.size(); ++i) msym_observe(n, (unsigned char)s[i]); }
// the file written by the code under test holds exactly these n octets
static inline int file_is(const char* path, const void* data, size_t n)
{
    std::vector<unsigned char> b(n + 1); long m = msym_file_get(path, b.data(), n + 1);
    return m == (long)n && eqbytes(b.data(), data, n);
}
// equal as reals up to rounding (NaN matches NaN): keeps re-associated arithmetic from being reported
// (without branches, so that the whole of it is one question to the solver)
static inline int closeD(double a, double b) { double t = 1e-6 * __builtin_fabs(b) + 1e-9; return sameD(a, b) | ((int)(a != a) & (int)(b != b)) | (int)(a == b) | ((int)(a - b <= t) & (int)(b - a <= t)); }
static inline int closeF(float a, float b) { double x = (double)a * 1e-2, y = (double)b * 1e-2, t = 1e-6 * __builtin_fabs(y) + 1e-9; return sameF(a, b) | ((int)(a != a) & (int)(b != b)) | (int)(a == b) | ((int)(x - y <= t) & (int)(y - x <= t)); }
