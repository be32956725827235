// In-memory xRIT products: segment, prologue and epilogue files under their conventional names.
#pragma once
#include "h.h"
#include <msat/hrit/MSG_HRIT.h>
#include "decomp.h"
struct Seg { unsigned cols = 3, lines = 2, chan = 9, seq = 1, end = 3, fmt = 2, flag = 1, sat = 321, bpp = 10; int32_t cfac = -13642337, lfac = -13642337; int skip = 0; unsigned type = 0; };
static const char* const LONS[] = {"GEOS(+000.0)                    ", "GEOS(-003.4)                    ", "GEOS(+009.5)                    "};
static unsigned lonk = 0;
// records to leave out: 1 structure, 2 navigation, 4 segment identification
static std::vector<unsigned char> seg_bytes(const Seg& s, const unsigned char* data, size_t n)
{
    std::vector<unsigned char> f(16); auto rec = [&](unsigned t, unsigned len) { size_t o = f.size(); f.resize(o + len); f[o] = (unsigned char)t; put16(&f[o + 1], len); return &f[o]; };
    if (!(s.skip & 1)) { unsigned char* p = rec(1, 9); p[3] = (unsigned char)s.bpp; put16(p + 4, s.cols); put16(p + 6, s.lines); p[8] = (unsigned char)s.flag; }
    if (!(s.skip & 2)) { unsigned char* p = rec(2, 51); memcpy(p + 3, LONS[lonk], 32); put32(p + 35, (uint32_t)s.cfac); put32(p + 39, (uint32_t)s.lfac); put32(p + 43, 1856); put32(p + 47, 1856); }
    if (!(s.skip & 4)) { unsigned char* p = rec(128, 13); put16(p + 3, s.sat); p[5] = (unsigned char)s.chan; put16(p + 6, s.seq); put16(p + 8, 1); put16(p + 10, s.end); p[12] = (unsigned char)s.fmt; }
    f[0] = 0; put16(&f[1], 16); f[3] = (unsigned char)s.type; put32(&f[4], (uint32_t)f.size()); put64(&f[8], 8 * (uint64_t)n);
    f.insert(f.end(), data, data + n); return f;
}
static std::string seg_name(int num, const char* chan = "IR_108___") { char b[80]; snprintf(b, sizeof b, "H-000-MSG1__-MSG1________-%s-%06d___-200611141200-C_", chan, num); return b; }
static void seg_file(const std::string& name, const Seg& s, const unsigned char* data, size_t n) { auto f = seg_bytes(s, data, n); msym_file(name.c_str(), f.data(), f.size()); }
#define PRO_NAME "H-000-MSG1__-MSG1________-_________-PRO______-200611141200-__"
#define EPI_NAME "H-000-MSG1__-MSG1________-_________-EPI______-200611141200-__"
// a prologue or epilogue of the given product with n payload octets
static void pe_file(int epi, const char* pid, const unsigned char* data, size_t n)
{
    std::vector<unsigned char> f(80); unsigned char* p = &f[16]; p[0] = 4; put16(p + 1, 64); memset(p + 3, '_', 61); memcpy(p + 16, pid, strlen(pid));
    put16(&f[1], 16); f[3] = (unsigned char)(128 + epi); put32(&f[4], 80); put64(&f[8], 8 * (uint64_t)n); f.insert(f.end(), data, data + n); msym_file(epi ? EPI_NAME : PRO_NAME, f.data(), f.size());
}
// a SEVIRI prologue: acquisition start, grid steps and calibration as given, everything else blank
struct Pro { unsigned day = 17849, msec = 43200000; float line = 3.0004034f, col = 3.0004034f, hline = 1.0001343f, hcol = 1.0001343f; double slope[12] = {0}, off[12] = {0}; };
static const size_t PRO_ACQ = 60134, PRO_CEL = PRO_ACQ + 700, PRO_DESC = PRO_CEL + 326058, PRO_RAD = PRO_DESC + 101, PRO_LEN = PRO_RAD + 20815 + 17653;
static void pro_file(const Pro& p, const char* pid = "MSG1________")
{
    static unsigned char f[PRO_LEN]; memset(f, 0, sizeof f); put16(f + PRO_ACQ, p.day); put32(f + PRO_ACQ + 2, p.msec);
    memcpy(f + PRO_CEL + 12, "20061114120000Z", 15); memcpy(f + PRO_CEL + 27, "20061114120000Z", 15);
    put_r4(f + PRO_DESC + 13, p.line); put_r4(f + PRO_DESC + 17, p.col); put_r4(f + PRO_DESC + 30, p.hline); put_r4(f + PRO_DESC + 34, p.hcol);
    for (int i = 0; i < 12; ++i) { put_r8(f + PRO_RAD + 72 + 16 * i, p.slope[i]); put_r8(f + PRO_RAD + 80 + 16 * i, p.off[i]); }
    pe_file(0, pid, f, sizeof f);
}
