#include "h.h"
#include <msat/hrit/MSG_machine.h>
#include <msat/hrit/MSG_time_cds.h>
ENTRY(be_integers)
{
    unsigned char* b = sym_buf(16, "b");
    unsigned o = (unsigned)msym_range("o", 0, 8);
    o = (unsigned)msym_concretize(o);
    check_endianess();
    const unsigned char* p = b + o;
    msym_assert((unsigned char)get_i1(p) == p[0] && get_ui1(p) == p[0], "1-byte integers are the byte itself");
    msym_assert(get_ui2(p) == be16(p), "unsigned 2-byte integer is big-endian");
    msym_assert(get_i2(p) == (int16_t)be16(p), "signed 2-byte integer is big-endian two's complement");
    msym_assert(get_ui4(p) == be32(p), "unsigned 4-byte integer is big-endian");
    msym_assert(get_i4(p) == (int32_t)be32(p), "signed 4-byte integer is big-endian two's complement");
    msym_assert(get_ui8(p) == be64(p), "unsigned 8-byte integer is big-endian");
    msym_assert(get_i8(p) == (long long)be64(p), "signed 8-byte integer is big-endian two's complement");
    float f = get_r4(p); double d = get_r8(p);
    msym_assert(msym_bitsf(f) == be32(p), "4-byte real has the bits stored big-endian");
    msym_assert(msym_bits(d) == be64(p), "8-byte real has the bits stored big-endian");
    unsigned char out[8]; get_mem(p, out, 8);
    msym_assert(eqbytes(out, p, 8), "byte strings are copied unchanged");
    msym_observe("ui8", get_ui8(p)); msym_observe("i2", (uint64_t)(int64_t)get_i2(p));
    delete[] b;
}
static const long EPOCH1958 = -378691200L;
static void expect_string(const std::string& got, long t, unsigned ms, const char* sub)
{
    char e[128]; time_t tt = t; struct tm* g = gmtime(&tt);
    strftime(e, sizeof e, "%Y-%m-%d %H:%M:%S", g);
    std::string x = e;
    sprintf(e, " +%03u%s msecs", ms, sub);
    x += e;
    msym_assert(eqstr(got, x), "printed time is the calendar time with millisecond fraction");
}
ENTRY(cds_short)
{
    unsigned char* b = sym_buf(6, "b");
    MSG_time_cds_short t; size_t n = t.read_from(b);
    msym_assert(n == 6, "short CDS time occupies 6 bytes");
    unsigned day = be16(b), ms = be32(b + 2);
    msym_assert(t.get_day_from_epoch() == day, "day count");
    msym_assert(t.get_msec_in_day() == ms, "milliseconds of day");
    msym_assert(t.get_unixtime() == EPOCH1958 + 86400L * day + ms / 1000, "seconds since 1970 of a day count since 1958");
    msym_observe("ut", (uint64_t)t.get_unixtime());
    const MSG_time_cds_short c(b);
    msym_assert(c.get_day_from_epoch() == day && c.get_msec_in_day() == ms, "decoded by the constructor");
    delete[] b;
}
ENTRY(cds_strings)
{
    unsigned char b[10]; msym_make_symbolic(b, 10, "b");
    unsigned day = be16(b), ms = be32(b + 2), us = be16(b + 6), ns = be16(b + 8);
    msym_assume(day >= 1); msym_assume(day < 40000); msym_assume(ms < 86400000); msym_assume(us < 1000); msym_assume(ns < 1000);
    long ut = EPOCH1958 + 86400L * day + ms / 1000;
    int kind = (int)msym_concretize(msym_range("kind", 0, 2));
    char sub[32];
    if (kind == 0) { MSG_time_cds_short t(b); expect_string(t.get_timestring(), ut, ms % 1000, ""); }
    if (kind == 1) { MSG_time_cds t(b); msym_assert(t.get_microsecs() == us, "microseconds"); sprintf(sub, ".%03u", us); expect_string(t.get_timestring(), ut, ms % 1000, sub); }
    if (kind == 2) { MSG_time_cds_expanded t(b); msym_assert(t.get_microsecs() == us && t.get_nanosecs() == ns, "micro/nanoseconds"); sprintf(sub, ".%03u%03u", us, ns); expect_string(t.get_timestring(), ut, ms % 1000, sub); }
}
ENTRY(cds_timestruct)
{
    unsigned char b[6]; msym_make_symbolic(b, 6, "b");
    unsigned day = be16(b), ms = be32(b + 2);
    msym_assume(ms < 86400000);
    MSG_time_cds_short t(b);
    struct tm g = *t.get_timestruct();
    msym_assert((g.tm_hour >= 0) & (g.tm_hour < 24) & (g.tm_min >= 0) & (g.tm_min < 60) & (g.tm_sec >= 0) & (g.tm_sec < 60), "time of day fields in range");
    time_t e = EPOCH1958 + 86400L * day + ms / 1000; struct tm h = *gmtime(&e);
    msym_assert((g.tm_year == h.tm_year) & (g.tm_mon == h.tm_mon) & (g.tm_mday == h.tm_mday) & (g.tm_yday == h.tm_yday) & (g.tm_hour == h.tm_hour) & (g.tm_min == h.tm_min) & (g.tm_sec == h.tm_sec), "calendar fields denote the decoded instant");
    msym_observe("year", g.tm_year); msym_observe("yday", g.tm_yday);
}
ENTRY(cuc_time)
{
    // any two of the seven octets arbitrary, the others zero
    unsigned char* b = new unsigned char[7](); unsigned char v[2]; msym_make_symbolic(v, 2, "v");
    int i = (int)msym_concretize(msym_range("i", 0, 5)), j = (int)msym_concretize(msym_range("j", 1, 6));
    if (j <= i) return;
    if (!THOROUGH) { msym_assume(v[1] == 0x5a); v[1] = 0x5a; if (j != i + 1 && j != 6) return; }
    b[i] = v[0]; b[j] = v[1];
    MSG_time_cuc t; msym_assert(t.read_from(b) == 7, "CUC time occupies 7 bytes");
    uint64_t fixed = ((uint64_t)v[0] << (8 * (6 - i))) | ((uint64_t)v[1] << (8 * (6 - j)));
    double want = (double)fixed / 16777216.0;
    msym_assert(t.get_time_cuc_r8() == want, "CUC value is the 4.3 byte fixed point number");
    msym_observe("cuc", msym_bits(t.get_time_cuc_r8()));
    char e[64]; sprintf(e, "%03u %03u %03u %03u", b[0], b[1], b[2], b[3]);
    msym_assert(eqstr(t.get_coarse_time(), e), "coarse time text");
    sprintf(e, "%03u %03u %03u", b[4], b[5], b[6]);
    msym_assert(eqstr(t.get_fine_time(), e), "fine time text");
    delete[] b;
}
ENTRY(generalized_time)
{
    // "YYYYMMDDHHMMSSZ"
    unsigned char* b = sym_buf(15, "b");   // exactly the field
    for (int i = 0; i < 14; ++i) msym_assume((b[i] >= '0') & (b[i] <= '9'));
    b[14] = 'Z';
    MSG_time_generalized t; msym_assert(t.read_from(b) == 15, "generalized time occupies 15 bytes");
    auto dig = [&](int o, int n) { int v = 0; for (int i = 0; i < n; ++i) v = v * 10 + (b[o + i] - '0'); return v; };
    struct tm* g = t.get_timestruct();
    msym_assert(g->tm_year == dig(0, 4) - 1900, "year"); msym_assert(g->tm_mon == dig(4, 2) - 1, "month"); msym_assert(g->tm_mday == dig(6, 2), "day");
    msym_assert(g->tm_hour == dig(8, 2), "hour"); msym_assert(g->tm_min == dig(10, 2), "minute"); msym_assert(g->tm_sec == dig(12, 2), "second");
    delete[] b;
}
