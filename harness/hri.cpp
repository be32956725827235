// Meteosat HRI files: numerals, header subframes, images of all disseminated formats, calibration, bad files.
#include "h.h"
#include <msat/hri/HRI.h>
#include <stdexcept>
#include <cmath>
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
// ---- numbers: decimal digits (a space counts as nothing) with the point at a fixed place
static double dec(const char* p, int n, double first) { double v = 0; for (int i = 0; i < n; ++i) { if (p[i] != ' ') v += (p[i] - '0') * first; first *= 0.1; } return v; }
static char digit(const char* n) { char ch = (char)msym_u8(n); msym_assume((ch >= '0' && ch <= '9') | (ch == ' ')); return ch; }
static int numClose(float a, double b) { double d = (double)a - b, t = 1e-4; return (int)(d <= t) & (int)(-d <= t); }
ENTRY(numerals)
{
    HRI_machine m; unsigned k = pick("kind", 0, 6); static const int N[] = {6, 3, 5, 3, 5, 3, 2}; static const double FIRST[] = {100, 1, 100, 10, 0.1, 100, 10}; char* b = new char[N[k]]; for (int i = 0; i < N[k]; ++i) b[i] = (char)('0' + (3 * i + 7) % 10); unsigned at = pick("at", 0, N[k] - 1); b[at] = digit("d"); if (at + 1 < (unsigned)N[k]) b[at + 1] = digit("d"); double want = dec(b, N[k], FIRST[k]);
    switch (k) {
        case 0: msym_assert(numClose(m.r4_from_char6(b), want), "three digits before, three after the point"); break;
        case 1: msym_assert(numClose(m.r4_from_char3(b), want), "one digit before, two after the point"); break;
        case 2: msym_assert(numClose(m.r4_from_char5(b), want), "three digits before, two after the point"); break;
        case 3: msym_assert(numClose(m.r4f_from_char3(b), want), "two digits before, one after the point"); break;
        case 4: { float f = m.r4f_from_char5(b); double d = (double)f - want; msym_assert((int)(d <= 1e-7) & (int)(-d <= 1e-7), "five digits after the point"); break; }
        case 5: { int v = 0; for (int i = 0; i < 3; ++i) v = 10 * v + (b[i] == ' ' ? 0 : b[i] - '0'); msym_assert(m.i2_from_char3(b) == v, "three digits"); break; }
        case 6: { int v = 0; for (int i = 0; i < 2; ++i) v = 10 * v + (b[i] == ' ' ? 0 : b[i] - '0'); msym_assert(m.i2_from_char2(b) == v, "two digits"); break; }
    }
    delete[] b;
}
// hexadecimal floating point: sign, exponent of 16 with excess 64, fraction
ENTRY(float4)
{
    HRI_machine m; unsigned char* b = sym_buf(4, "b"); uint32_t w = be32(b), fr = w & 0xffffff; int e = (int)(w >> 24 & 127); unsigned lead = pick("lead", 0, 24); msym_assume(lead == 24 ? fr == 0 : fr >> (23 - lead) == 1); // lead: zero bits before the first one of the fraction
    float f = m.r4_from_buff(b); uint32_t got = (uint32_t)msym_bitsf(f); delete[] b; uint32_t s = w & 0x80000000u; if (lead == 24) { msym_assert((got & 0x7fffffff) == 0, "zero"); msym_reach("zero"); return; }
    int E = 4 * (e - 64) - 1 - (int)lead + 127; if (E >= 255) { msym_assert(got == (s | 0x7f7fffffu), "the largest number"); msym_reach("large"); } else if (E <= 0) { msym_assert((got & 0x7fffffff) < 0x00800000u, "too small"); msym_reach("small"); } else { msym_assert(got == (s | (uint32_t)E << 23 | (fr << lead & 0x7fffff)), "value"); msym_reach("value"); }
}
ENTRY(float8)
{
    HRI_machine m; unsigned char* b = sym_buf(8, "b"); uint64_t w = be64(b), fr = w & 0xffffffffffffffull; int e = (int)(w >> 56 & 127); unsigned k = pick("lead", 0, THOROUGH ? 56 : 13), lead = THOROUGH ? k : (k < 5 ? k : k < 13 ? 5 + (k - 5) * 7 : 56); msym_assume(lead == 56 ? fr == 0 : fr >> (55 - lead) == 1);
    double f = m.r8_from_buff(b); uint64_t got = msym_bits(f); delete[] b; uint64_t s = w & 0x8000000000000000ull; if (lead == 56) { msym_assert(got << 1 == 0, "zero"); return; }
    int E = 4 * (e - 64) - 1 - (int)lead + 1023; uint64_t frac = lead >= 3 ? fr << (lead - 3) : fr >> (3 - lead); msym_assert(got == (s | (uint64_t)E << 52 | (frac & 0xfffffffffffffull)), "value"); msym_reach("value");
}
ENTRY(integers) { HRI_machine m; unsigned char* b = sym_buf(4, "b"); unsigned char* d = new unsigned char[2]; memcpy(d, b, 2); msym_assert(m.i4_from_buff(b) == (int)be32(b) && m.i2_from_buff(d) == (short)be16(b), "integers"); delete[] b; delete[] d; }
// ---- subframes
ENTRY(label)
{
    char* b = (char*)sym_buf(24, "b"); const unsigned char* u = (unsigned char*)b; HRI_subframe_label l; l.readfrom(b);
    msym_assert(l.number_of_frames_in_subframe == be16(u) && l.total_number_of_subframes == be16(u + 2) && l.current_subframe_number == be16(u + 4) && l.image_line_number == be16(u + 6) && l.image_number_from_mission_start == be32(u + 8), "numbers");
    msym_assert(l.format_indicator == u[12] && l.VISs_indicator == u[13] && l.VISn_indicator == u[14] && l.IR_indicator == u[15] && l.WV_indicator == u[16] && l.grid_indicator == u[17] && l.encryption_indicator == u[18] && l.scan_direction_indicator == u[19] && l.key_number_VIS_s_indicator == u[20] && l.key_number_VIS_n_indicator == u[21] && l.key_number_IR_indicator == u[22] && l.key_number_WV_indicator == u[23], "indicators");
    msym_assert(l.is_A_format() == (u[12] == 0) && l.is_B_format() == (u[12] == 255) && l.is_X_format() == (u[12] == 15), "format");
    msym_assert(l.is_VISs_present() == (u[13] != 0) && l.is_VISn_present() == (u[14] != 0) && l.is_IR_present() == (u[15] != 0) && l.is_WV_present() == (u[16] != 0) && l.is_grid_present() == (u[17] != 0), "presence");
    msym_assert(l.is_VISs_1st_half_present() == (u[13] == 240) && l.is_VISs_2nd_half_present() == (u[13] == 15) && l.is_VISs_reduced() == (u[13] == 255) && l.is_VISn_1st_half_present() == (u[14] == 240) && l.is_VISn_2nd_half_present() == (u[14] == 15) && l.is_VISn_reduced() == (u[14] == 255), "visible channels");
    msym_assert(l.is_VISs_encrypted() == (u[18] >> 3 & 1) && l.is_VISn_encrypted() == (u[18] >> 2 & 1) && l.is_IR_encrypted() == (u[18] >> 1 & 1) && l.is_WV_encrypted() == (u[18] & 1), "encryption");
    msym_assert(l.is_scan_SN_EW() == (u[19] == 0) && l.is_scan_NS_EW() == (u[19] == 240) && l.is_scan_SN_WE() == (u[19] == 15) && l.is_scan_NS_WE() == (u[19] == 255), "scan direction"); delete[] b;
}
ENTRY(format_codes)
{
    char* b = (char*)sym_buf(24, "b"); const unsigned char* u = (unsigned char*)b; HRI_subframe_label l; l.readfrom(b); std::string want; want = u[12] == 0 ? "A" : u[12] == 255 ? "B" : u[12] == 15 ? "X" : ""; int known = want.size() == 1; if (u[15]) want += "I"; if (u[13] || u[14]) want += "V"; if (u[16]) want += "W"; else if (u[13] == 255 || u[14] == 255) want += "H";
    std::string got; int ok = 1; try { got = l.format_code(); } catch (std::exception&) { ok = 0; } msym_assert(ok == known && (!ok || got == want), "the code names the format and the channels"); if (ok) msym_reach("code"); else msym_reach("unknown"); delete[] b;
}
ENTRY(satellites)
{
    char* b = (char*)sym_buf(32, "b"); unsigned char* u = (unsigned char*)b; put16(u + 2, 1998); put16(u + 4, 60); put16(u + 6, 1230); unsigned s1 = 0; if (pick("known", 0, 1)) { u[0] = pick("first", 0, 1) ? 212 : 0; s1 = u[1] = (unsigned char)pick("second", 0, 255); } else msym_assume(u[0] != 212 && u[0] != 0); int meteosat = u[0] == 212, ok = 1;
    HRI_subframe_identification id; try { id.readfrom(b); } catch (std::exception&) { ok = 0; } if (!ok) { msym_assert(u[0] != 212 && (u[0] != 0 || s1 > 3), "a known satellite is refused"); msym_reach("unknown"); delete[] b; return; } msym_assert(meteosat || (u[0] == 0 && s1 <= 3), "an unknown satellite is accepted"); msym_reach("known");
    std::string want; if (meteosat) { want = "METEOSAT"; int n = 1; if (s1 > 240) { n = (int)s1 - 240; char t[8]; snprintf(t, 8, "-%d", n); want += t; } msym_assert(id.meteosat_id == n, "number"); } else { static const char* const NAME[] = {"GOES-E", "GOES-W", "GMS", "GOMS"}; want = NAME[s1]; }
    msym_assert(id.satellite == want && id.is_Meteosat() == meteosat && id.is_GOES_E() == (!meteosat && s1 == 0) && id.is_GOES_W() == (!meteosat && s1 == 1) && id.is_GMS() == (!meteosat && s1 == 2) && id.is_GOMS() == (!meteosat && s1 == 3), "satellite"); msym_assert(id.column_offset == be16(u + 20) && id.line_offset == be16(u + 22) && id.longitude == (double)(short)be16(u + 24), "offsets and longitude"); delete[] b;
}
ENTRY(dates)
{
    char b[32] = {0}; unsigned char* u = (unsigned char*)b; u[0] = 212; unsigned leap, y, doy; if (pick("year_kind", 0, 1)) { y = 1977 + pick("year", 0, 33); doy = 59 + pick("day", 0, 2); } else { y = pick("leap", 0, 1) ? 1996 : 2003; doy = pick("doy", 1, 366); } leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; if (doy == 366 && !leap) return; put16(u + 2, y); put16(u + 4, doy); unsigned hm = pick("hm", 0, 3), hh = hm * 7, mm = hm * 19; put16(u + 6, hh * 100 + mm); HRI_subframe_identification id(b);
    static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; static const char* const MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; int m = 0, d = (int)doy; while (d > ML[m] + (m == 1 && leap)) { d -= ML[m] + (m == 1 && leap); ++m; }
    msym_assert(id.year == (int)y && id.julian_day == doy && id.month == m + 1 && id.day == d && id.hour == (int)hh && id.minute == (int)mm && id.nominal_time == hh * 100 + mm, "date and time"); msym_assert(id.tmtime.tm_year == (int)y - 1900 && id.tmtime.tm_mon == m && id.tmtime.tm_mday == d && id.tmtime.tm_hour == (int)hh && id.tmtime.tm_min == (int)mm && id.tmtime.tm_sec == 0, "broken down time");
    static const char* const WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; long days = (long)(y - 1) * 365 + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + doy; char t[64]; snprintf(t, sizeof t, "%s %s %2d %02u:%02u:00 %u\n", WD[days % 7], MN[m], d, hh, mm, y); msym_assert(id.datetime == t, "date as text");
}
#define I2(f, o) msym_assert((unsigned short)i.f == be16(u + (o)), #f)
#define R4(f, o) msym_assert(sameF(i.f, m.r4_from_buff(u + (o))), #f)
#define R8(f, o) msym_assert(sameD(i.f, m.r8_from_buff(u + (o))), #f)
#define BL(f, o) msym_assert(i.f == (u[o] != 0), #f)
// every value of the interpretation data comes from its own octets: all values in a window of it are symbolic
static unsigned char* table(HRI_subframe_interpretation& i, unsigned from, unsigned n) { static unsigned char t[1360]; memset(t, '0', 104); for (unsigned k = 104; k < 560; ++k) t[k] = (unsigned char)(0x40 + k % 7); msym_make_symbolic(t + from, n, "t"); i.readfrom((char*)t); return t; }
ENTRY(table_calibration)
{
    HRI_subframe_interpretation i; HRI_machine m; static char t[1360]; for (int k = 0; k < 104; ++k) t[k] = (char)('0' + (k * 7 + k / 10) % 10); unsigned at = pick("at", 0, 99); t[at] = (char)('0' + pick("d", 0, 9)); i.readfrom(t);
    msym_assert(numClose(i.cal.bbc1ir, dec(t, 6, 100)) && numClose(i.cal.bbsd1i, dec(t + 6, 3, 1)) && numClose(i.cal.bbc1wv, dec(t + 9, 6, 100)) && numClose(i.cal.bbsd1w, dec(t + 15, 3, 1)) && numClose(i.cal.bb1t, dec(t + 18, 5, 100)) && numClose(i.cal.bb2t, dec(t + 23, 5, 100)) && numClose(i.cal.bbc2ir, dec(t + 28, 6, 100)) && numClose(i.cal.bbsd2i, dec(t + 34, 3, 1)) && numClose(i.cal.bbc2wv, dec(t + 37, 6, 100)) && numClose(i.cal.bbsd2w, dec(t + 43, 3, 1)), "black body values");
    msym_assert(i.cal.time1_day == (int)(dec(t + 46, 3, 100) + .5) && i.cal.time1_slot == (int)(dec(t + 49, 2, 10) + .5) && i.cal.time2_day == (int)(dec(t + 59, 3, 100) + .5) && i.cal.time2_slot == (int)(dec(t + 62, 2, 10) + .5) && i.cal.time3_day == (int)(dec(t + 72, 3, 100) + .5) && i.cal.time3_slot == (int)(dec(t + 75, 2, 10) + .5), "times"); double a = i.cal.calir - dec(t + 51, 5, .1), c = i.cal.calwv - dec(t + 64, 5, .1);
    msym_assert(fabs(a) < 1e-7 && fabs(c) < 1e-7 && numClose(i.cal.irspc, dec(t + 56, 3, 10)) && numClose(i.cal.wvspc, dec(t + 69, 3, 10)), "coefficients and space counts"); msym_assert(i.cal.ir_gain == (int)(dec(t + 92, 2, 10) + .5) && i.cal.wv_gain == (int)(dec(t + 94, 2, 10) + .5) && i.cal.v1_gain == (int)(dec(t + 96, 2, 10) + .5) && i.cal.v2_gain == (int)(dec(t + 98, 2, 10) + .5), "gains");
}
ENTRY(table_flags)
{
    HRI_subframe_interpretation i; unsigned char* u = table(i, 184, 12 + 64); BL(oper.flecl, 184); BL(oper.fldec, 185); BL(oper.flman, 186); BL(oper.flmode, 187); BL(oper.flir1, 188); BL(oper.flir2, 189); BL(oper.flwv1, 190); BL(oper.flwv2, 191); BL(oper.flvis1, 192); BL(oper.flvis2, 193); BL(oper.flvis3, 194); BL(oper.flvis4, 195);
    BL(imag.imstat_1, 232); BL(imag.imstat_2, 233); BL(imag.imstat_3, 234); BL(imag.imstat_4, 235); BL(imag.imstat_5, 236); BL(imag.imstat_6, 237); BL(imag.imstat_7, 238); BL(imag.imstat_8, 239); BL(imag.imstat_9, 240); BL(imag.imstat_10, 241); BL(imag.imstat_11, 242);
}
ENTRY(table_integers)
{
    HRI_subframe_interpretation i; unsigned char* u = table(i, 248, 24); I2(imag.limhor_1, 248); I2(imag.limhor_2, 250); I2(imag.limhor_3, 252); I2(imag.limhor_4, 254); I2(imag.limhor_5, 256); I2(imag.limhor_6, 258); I2(imag.limhor_7, 260); I2(imag.limhor_8, 262); I2(imag.limhor_9, 264); I2(imag.limhor_10, 266); I2(imag.limhor_11, 268); I2(imag.limhor_12, 270);
    u = table(i, 344, 20); BL(imag.conds_1, 344); BL(imag.conds_2, 345); BL(imag.conds_3, 346); BL(imag.conds_4, 347); I2(imag.lowdyn_ir, 348); I2(imag.lowdyn_v1, 350); I2(imag.lowdyn_v2, 352); I2(imag.lowdyn_wv, 354); I2(imag.higdyn_ir, 356); I2(imag.higdyn_v1, 358); I2(imag.higdyn_v2, 360); I2(imag.higdyn_wv, 362);
    u = table(i, 456, 16); I2(imag.snmxep_ir, 456); I2(imag.snmxep_v1, 458); I2(imag.snmxep_v2, 460); I2(imag.snmxep_wv, 462); I2(imag.snmxwp_ir, 464); I2(imag.snmxwp_v1, 466); I2(imag.snmxwp_v2, 468); I2(imag.snmxwp_wv, 470); u = table(i, 176, 4); msym_assert((uint32_t)i.oper.nrslot == be32(u + 176), "slot"); u = table(i, 388, 4); msym_assert((uint32_t)i.imag.snnlin == be32(u + 388), "lines"); u = table(i, 560, 800); msym_assert(eqbytes(i.mesg.admin_message, u + 560, 800), "message");
}
ENTRY(table_reals)
{
    HRI_subframe_interpretation i; HRI_machine m; static unsigned char u[1360]; memset(u, '0', 104); for (unsigned k = 104; k < 560; ++k) u[k] = (unsigned char)(k * 37 + k / 5); unsigned at = 104 + 4 * pick("at", 0, 113); u[at] = (unsigned char)pick("e", 0x3e, 0x44); u[at + 1] = (unsigned char)(16 + pick("f", 0, 15) * 14); i.readfrom((char*)u);
    R8(oper.degsra, 104); R8(oper.degsde, 112); R8(oper.degnra, 120); R8(oper.degnde, 128); R8(oper.finatt_x, 136); R8(oper.finatt_y, 144); R8(oper.finatt_z, 152); R8(oper.farade_1, 160); R8(oper.farade_2, 168); R4(oper.spndur, 180); R8(imag.satdis, 272); R8(imag.sorbof_x, 280); R8(imag.sorbof_y, 288); R8(imag.sorbof_z, 296); R8(imag.norbof_x, 304); R8(imag.norbof_y, 312); R8(imag.norbof_z, 320); R4(imag.xddifm, 328); R4(imag.yddifm, 332); R4(imag.xscm, 336); R4(imag.yscm, 340);
    R4(imag.mvis1, 364); R4(imag.mvis2, 368); R4(imag.snnom_ir, 372); R4(imag.snnom_v1, 376); R4(imag.snnom_v2, 380); R4(imag.snnom_wv, 384); R4(imag.snrep_ir, 392); R4(imag.snrep_v1, 396); R4(imag.snrep_v2, 400); R4(imag.snrep_wv, 404); R4(imag.snrwp_ir, 408); R4(imag.snrwp_v1, 412); R4(imag.snrwp_v2, 416); R4(imag.snrwp_wv, 420); R4(imag.swmnep_ir, 424); R4(imag.swmnep_v1, 428); R4(imag.swmnep_v2, 432); R4(imag.swmnep_wv, 436); R4(imag.swmnwp_ir, 440); R4(imag.swmnwp_v1, 444); R4(imag.swmnwp_v2, 448); R4(imag.swmnwp_wv, 452);
}
ENTRY(keyslots)
{
    static unsigned char b[1440]; unsigned a = pick("slot", 0, 119), o = (a + 37) % 120; unsigned char *p = b + 12 * a, *q = b + 12 * o; unsigned char s[12]; msym_make_symbolic(s, 12, "slot"); memcpy(p, s, 12); q[0] = 1; q[1] = 5; q[2] = 2; q[3] = 7; memcpy(q + 4, "ABCDEFGH", 8); char* in = new char[1440]; memcpy(in, b, 1440); HRI_subframe_keyslot k; k.readfrom(in); delete[] in;
    short st = (short)msym_u16("station"), kn = (short)msym_u16("key"); int first = a < o, here = s[0] != 0 && 16 * s[2] + s[3] == st, there = st == 2 * 16 + 7; msym_assert(k.has_keys(st) == (here || there), "a station has keys if one of the slots in use is its own");
    int hk = here && s[1] == kn, tk = there && kn == 5; HRI_keyslot& g = k.get_key(st, kn); if (!hk && !tk) { msym_assert(!g.usage && g.key_number == 0 && g.station_number == 0, "no such key"); msym_reach("none"); } else if (hk && (first || !tk)) { msym_assert(g.usage && g.key_number == s[1] && g.station_number == 16 * s[2] + s[3] && eqbytes(g.message_key, s + 4, 8), "key"); msym_reach("found"); } else msym_assert(g.usage && g.key_number == 5 && eqbytes(g.message_key, "ABCDEFGH", 8), "the other key");
}
// ---- images
ENTRY(image_bounds)
{
    HRI_image im; unsigned char* none = im.get_line(0); msym_assert(!none && im.get_pixel(0, 0) == 0 && im.nlines == 0 && im.npixels == 0, "no image yet"); im.set_format_band(METEOSAT, B_FORMAT, IR_BAND); if (pick("again", 0, 1)) im.set_format_band(METEOSAT, B_FORMAT, WV_BAND); unsigned char* img = im.get_image(); memset(img, 9, 781250); static unsigned char line[2600]; memset(line, 4, 2600); unsigned op = pick("op", 0, 4); int n = (int)msym_u32("n"), at = (int)msym_u32("at"); unsigned near = pick("near", 0, 2);
    if (near == 0) msym_assume(at >= -1 && at <= 1); else if (near == 1) msym_assume(at >= 623 && at <= 626); if (near < 2) at = (int)msym_concretize((uint64_t)(int64_t)at); if (op < 2) { if (near == 0) n = 1250; else if (near == 1) msym_assume(n >= 624 && n <= 626); else msym_assume(n != 1250 && n != 625); } else if (op == 3 && near < 2) { msym_assume(n >= 1248 && n <= 1251); n = (int)msym_concretize((uint64_t)(int64_t)n); } else if (op == 3) msym_assume(n < 0 || n > 1249);
    if (near == 2) { if (op == 3) at = 3; else msym_assume(at < 0 || at > 624); } int ok = 1, line_ok = at >= 0 && at <= 624, fine = 0; try { switch (op) { case 0: fine = line_ok && n == 1250; im.put_line(line, n, at); break; case 1: fine = line_ok && n == 625; im.put_halfline(line, n, at, true); break; case 2: fine = line_ok; msym_assert(im.get_line(at)[1249] == 9, "line"); break; case 3: fine = line_ok && n >= 0 && n <= 1249; msym_assert(im.get_pixel(at, n) == 9, "pixel"); break; case 4: n = 625; fine = line_ok; im.put_halfline(line, n, at, false); break; } } catch (std::exception&) { ok = 0; }
    msym_assert(ok == fine, "lines and pixels outside the image, and lines of another size, are refused"); if (!ok) { msym_reach("refused"); return; } msym_reach("accepted"); unsigned from = op == 4 ? 623 : 0, to = op == 0 ? 1250 : op == 1 ? 625 : op == 4 ? 1248 : 0; for (unsigned x = 0; x < 1250; ++x) msym_assert(img[at * 1250 + x] == (x >= from && x < to ? 4 : 9), "put at its place"); msym_assert(at == 0 || (img[at * 1250 - 1] == 9), "line before"); msym_assert(at == 624 || img[at * 1250 + 1250] == 9, "line after");
}
ENTRY(image_sizes)
{
    static const struct { HRI_image_format f; HRI_image_band b; int ok, px, ln; float sample; const char *name, *units; } T[] = {{A_FORMAT, IR_BAND, 1, 2500, 2500, 1, "IR", "K"}, {A_FORMAT, WV_BAND, 1, 2500, 2500, 1, "WV", "K"}, {A_FORMAT, VH_BAND, 1, 2500, 2500, 1, "VIS", "%"}, {A_FORMAT, VIS_BAND, 1, 5000, 5000, 1, "VIS", "%"}, {B_FORMAT, IR_BAND, 1, 1250, 625, 2, "IR", "K"}, {B_FORMAT, WV_BAND, 1, 1250, 625, 2, "WV", "K"}, {B_FORMAT, VIS_BAND, 1, 2500, 1250, 1, "VIS", "%"}, {B_FORMAT, VH_BAND, 0, 0, 0, 0, "", ""}, {X_FORMAT, IR_BAND, 1, 1250, 1250, 2, "IR", "K"}, {X_FORMAT, WV_BAND, 1, 1250, 1250, 2, "WV", "K"}, {X_FORMAT, VH_BAND, 1, 1250, 1250, 2, "VH", "%"}, {X_FORMAT, VIS_BAND, 0, 0, 0, 0, "", ""}, {(HRI_image_format)7, IR_BAND, 0, 0, 0, 0, "", ""}};
    auto& t = T[pick("t", 0, 12)]; int ok = 1; unsigned ctor = pick("ctor", 0, 1); try { if (ctor) { HRI_image im(GMS, t.f, t.b); msym_assert(im.npixels == t.px && im.nlines == t.ln && im.get_image_band() == t.b, "image"); } else { HRI_image im; im.set_format_band(GMS, t.f, t.b); msym_assert(im.npixels == t.px && im.nlines == t.ln && im.samplex == t.sample && im.sampley == t.sample && im.name == t.name && im.units == t.units && im.get_image_band() == t.b, "image"); im.get_image()[t.px * t.ln - 1] = 3; msym_assert(im.get_pixel(t.ln - 1, t.px - 1) == 3 && im.get_line(t.ln - 1)[t.px - 1] == 3, "all of it can be used"); } } catch (std::exception&) { ok = 0; } msym_assert(ok == t.ok, "bands of each format"); if (ok) msym_reach("image");
}
static int calClose(float a, float b) { return closeF(a, b); }
ENTRY(calibration)
{
    HRI_image im; calibration_coefficients c; float cc; static const float SC[] = {0, 5, 6.5f, 19.9f}; c.space_count = SC[pick("sc", 0, 3)]; uint32_t bits = msym_u32("cc"); msym_assume(bits >= 0x3a83126fu && bits <= 0x3f800000u); memcpy(&cc, &bits, 4); c.mpef_absolute = cc; unsigned k = pick("k", 0, 5), used = pick("set", 0, 1); static const HRI_image_satellite S[] = {METEOSAT, METEOSAT, METEOSAT, METEOSAT, INDOX, INDOX}; static const HRI_image_band B[] = {IR_BAND, WV_BAND, VIS_BAND, VH_BAND, IR_BAND, WV_BAND}; static const float A[] = {1255.5465f, 2233.4882f, 0, 0, 1272.2f, 2264.9f}, D[] = {6.9618f, 9.2477f, 0, 0, 6.7348f, 9.1124f}; im.set_format_band(S[k], k == 3 || k > 3 ? (k == 3 ? A_FORMAT : X_FORMAT) : B_FORMAT, B[k]); if (used) im.set_calibration(&c); float sc = c.space_count; if (!used && k == 4) { cc = 0.074f; sc = 5; } if (!used && k == 5) { cc = 0.0078f; sc = 6; } float* t = im.get_calibration();
    static const double AD[] = {1255.5465, 2233.4882, 0, 0, 1272.2, 2264.9}, DD[] = {6.9618, 9.2477, 0, 0, 6.7348, 9.1124}; for (int i = 0; i < 256; ++i) { float want; if (k == 2 || k == 3) want = (float)(100.0 * ((float)i / 255.0)); else if (!used && k < 2) want = 1; else { float rad = i < sc ? 0 : cc * ((float)i - sc); want = (float)(-AD[k] / (logf(rad) - DD[k])); } msym_assert(calClose(t[i], want), "a count stands for its temperature or reflectance"); } msym_reach("table");
}
ENTRY(calibration_fixed)
{
    static const HRI_image_satellite S[] = {GOES_E, GOES_W, GMS}; static const HRI_image_band B[] = {IR_BAND, WV_BAND, VH_BAND}; unsigned s = pick("s", 0, 2), b = pick("b", 0, 2); HRI_image im; im.set_format_band(S[s], X_FORMAT, B[b]); float* t = im.get_calibration(); for (int i = 0; i < 256; ++i) { if (b == 1) msym_assert(t[i] == 1, "not calibrated"); else if (b == 0 && s == 0) msym_assert(t[i] == (i < 79 ? 163.f + i : (i + 405.f) / 2), "GOES E"); else if (b == 0 && s == 1) msym_assert(closeF(t[i], (float)(159.1 + i * (318.1 - 159.1) / 255)), "GOES W"); else if (b == 2 && s < 2) msym_assert(closeF(t[i], (float)(i * 100. / 255)), "visible"); else if (b == 0) msym_assert(t[i] >= 130 && t[i] < 327.8f && (i == 0 || t[i] >= t[i - 1]), "GMS"); else { double q = i / 4 * 4 / 252.0; msym_assert(fabs(t[i] - q * q) < 2e-6, "GMS visible"); } }
}
// ---- whole files
struct Format { const char* code; unsigned char fi, viss, visn, ir, wv; int nimages; HRI_image_band band[2]; long cfac, coff, loff; };
static const Format FORMATS[] = {
    {"AV", 0, 240, 15, 0, 0, 1, {VIS_BAND}, -18204444, 2500, 2500}, {"AVH", 0, 255, 0, 0, 0, 1, {VH_BAND}, -9102222, 1248, 1249}, {"AW", 0, 0, 0, 0, 255, 1, {WV_BAND}, -9102222, 1248, 1249}, {"AIW", 0, 0, 0, 1, 1, 2, {IR_BAND, WV_BAND}, -9102222, 1248, 1249}, {"AIVH", 0, 0, 255, 255, 0, 2, {IR_BAND, VH_BAND}, -9102222, 1248, 1249},
    {"BW", 255, 0, 0, 0, 1, 1, {WV_BAND}, -18204444, 1248, -1118}, {"BIV", 255, 240, 0, 1, 0, 2, {IR_BAND, VIS_BAND}, -18204444, 1248, -1118}, {"BIVH", 255, 255, 255, 1, 0, 2, {IR_BAND, VIS_BAND}, -18204444, 1248, -1118}, {"BIW", 255, 0, 0, 1, 1, 2, {IR_BAND, WV_BAND}, -18204444, 1248, -1118},
    {"XI", 15, 0, 0, 1, 0, 1, {IR_BAND}, -9102222, 1250, 1250}, {"XW", 15, 0, 0, 0, 1, 1, {WV_BAND}, -9102222, 1250, 1250}, {"XVH", 15, 255, 0, 0, 0, 1, {VH_BAND}, -9102222, 1250, 1250}};
static unsigned char* F; static size_t flen;
static void frame(size_t n) { F[flen] = 5; F[flen + 1] = 12; F[flen + 2] = 0xdf; flen += n; }
// the header; returns where the data lines start
static void header(const Format& f, int tec, unsigned char s0, unsigned char s1, const unsigned char* interp, const unsigned char* keys)
{
    unsigned char id = f.fi == 0 ? 112 : 48, *p = F + (tec ? 512 : 0); flen = 0; if (tec) flen = 512; frame(tec ? 2048 - 512 : 364); p[3] = id; p[16] = f.fi; p[17] = f.viss; p[18] = f.visn; p[19] = f.ir; p[20] = f.wv; memcpy(p + 28, "seedSEED", 8); p[36] = s0; p[37] = s1; put16(p + 38, 1999); put16(p + 40, 61); put16(p + 42, 1430); put16(p + 60, 10); 
    if (tec) { memcpy(p + 84, interp, 1360); memcpy(p + 84 + 1360, keys, 92); if (f.fi == 0) { memcpy(F + flen, keys + 92, 1348); flen += 1536; } return; }
    memcpy(p + 84, interp, 280); for (int k = 0; k < 3; ++k) { memcpy(F + flen + 4, interp + 280 + 360 * k, 360); frame(364); } if (f.fi == 0) for (int k = 0; k < 4; ++k) { memcpy(F + flen + 4, keys + 360 * k, 360); frame(364); }
}
static void put_data(const Format& f, int tec, const unsigned char* d)
{
    if (f.fi == 0 && tec) { memcpy(F + flen + 388, d, 1660); frame(2048); memcpy(F + flen, d + 1660, 840); flen += 1024; }
    else if (f.fi == 0) { memcpy(F + flen + 68, d, 296); frame(364); for (int k = 0; k < 7; ++k) { memcpy(F + flen + 4, d + 296 + 360 * k, k < 6 ? 360 : 44); frame(364); } }
    else if (tec) { memcpy(F + flen + 196, d, 168); frame(364); memcpy(F + flen, d + 168, 1082); flen += 1172; }
    else { memcpy(F + flen + 36, d, 328); frame(364); for (int k = 0; k < 3; ++k) { memcpy(F + flen + 4, d + 328 + 360 * k, k < 2 ? 360 : 202); frame(364); } }
}
static unsigned char fill(int im, int y, int half) { return (unsigned char)(1 + (im * 101 + y * 7 + half * 50 + y / 256) % 251); }
static int visible(const Format& f, int im) { return f.band[im] == VIS_BAND; }
static int rows(const Format& f) { return f.fi == 0 ? 2500 : f.fi == 255 ? 625 : 1250; } // data lines of a non visible image, pairs of lines of a visible one
static void geometry(const Format& f, int tec, int nrows, int part)
{
    size_t line = f.fi == 0 ? (tec ? 3072 : 8 * 364) : tec ? 1536 : 4 * 364, per = 0; for (int i = 0; i < f.nimages; ++i) per += visible(f, i) ? 4 : 1; F = (unsigned char*)calloc(1, 4096 + 12 * 364 + (size_t)nrows * per * line); (void)part;
}
static void file_images(const Format& f, int tec, int nrows, int at)
{
    static unsigned char interp[1360], keys[1440], d[2500], sy[4][2500]; memset(interp, '0', 104); memcpy(interp + 51, "07412", 5); memcpy(interp + 56, " 50", 3); memcpy(interp + 64, "00801", 5); memcpy(interp + 69, "062", 3); unsigned char goes = f.fi == 15; keys[12 * 119] = 1; keys[12 * 119 + 1] = 3; keys[12 * 119 + 3] = 9; static const unsigned char DIST[] = {0x44, 0xa4, 0xb1, 0, 0, 0, 0, 0}; memcpy(interp + 272, DIST, 8);
    geometry(f, tec, nrows, 0); header(f, tec, goes ? 0 : 212, goes ? 3 : 247, interp, keys); unsigned npx = f.fi == 0 ? 2500 : 1250; for (int i = 0; i < 4; ++i) msym_make_symbolic(sy[i], npx, "line"); int single = at % 2, whole = at / 2; (void)single; (void)whole;
    for (int y = 0; y < nrows; ++y) for (int im = 0; im < f.nimages; ++im) for (int h = 0; h < (visible(f, im) ? 4 : 1); ++h) { if (y == at) { put_data(f, tec, f.nimages == 2 && im == 0 ? sy[3] : sy[h]); continue; } memset(d, fill(im, visible(f, im) ? 2 * y + h / 2 : y, h % 2), npx); put_data(f, tec, d); }
    msym_file("i.hri", F, flen); Hri* hri = new Hri; char name[] = "i.hri"; hri->readfrom(name, tec); msym_assert(hri->nimages == f.nimages && !strcmp(hri->get_format(), f.code) && !memcmp(hri->seed, "seedSEED", 8), "format");
    msym_assert(!strcmp(hri->get_satellite_name(), goes ? "GOMS" : "METEOSAT-7") && hri->get_satellite_longitude() == 10 && hri->get_orbit_radius() == 42161.f && !strcmp(hri->get_area_name(), f.fi == 0 ? "AFormat" : f.fi == 15 ? "XFormat" : "BFormat"), "satellite"); struct tm* t = hri->get_datetime(); msym_assert(t->tm_year == 99 && t->tm_mon == 2 && t->tm_mday == 2 && t->tm_hour == 14 && t->tm_min == 30, "time"); geolocation* g = hri->get_geolocation(); msym_assert(g->CFAC == f.cfac && g->LFAC == f.cfac && g->COFF == f.coff && g->LOFF == f.loff, "geolocation");
    for (int im = 0; im < f.nimages; ++im) {
        HRI_image& g = hri->image[im]; int vis = visible(f, im), W = vis ? 2 * (int)npx : (int)npx, H = vis ? 2 * rows(f) : rows(f); msym_assert(g.npixels == W && g.nlines == H && g.get_image_band() == f.band[im], "image"); unsigned char* q = g.get_image();
        for (int y = 0; y < H; ++y) { unsigned char* r = q + (size_t)y * W; int have = y < (vis ? 2 : 1) * nrows, row = vis ? y / 2 : y; if (have && row == at) continue; unsigned char a = have ? fill(im, y, 0) : 0, b = !vis ? a : have ? fill(im, y, 1) : 0; int h = vis ? W / 2 - 2 : W - 2; msym_assert(r[0] == a && r[h - 1] == a && r[h] == b && r[h + 1] == b && r[vis ? W - 3 : W - 1] == b, "each line at its place, nothing where the file has none"); }
        if (at < nrows) { for (int k = 0; k < (vis ? 2 : 1); ++k) { unsigned char* r = q + (size_t)(vis ? 2 * at + k : at) * W; const unsigned char* s = f.nimages == 2 && im == 0 ? sy[3] : sy[2 * k]; msym_assert(eqbytes(r, s, vis ? npx - 2 : npx), "samples of a line"); if (vis) msym_assert(eqbytes(r + npx - 2, sy[2 * k + 1], npx), "samples of the second half"); } msym_assert(g.get_pixel(vis ? 2 * at : at, 5) == q[(size_t)(vis ? 2 * at : at) * W + 5], "pixel"); }
        float* c = g.get_calibration(); double cc = f.band[im] == IR_BAND ? .07412 : .00801, sc = f.band[im] == IR_BAND ? 5 : 6.2; if (f.band[im] == IR_BAND || f.band[im] == WV_BAND) { int ir = f.band[im] == IR_BAND; double A = goes ? (ir ? 1272.2 : 2264.9) : (ir ? 1255.5465 : 2233.4882), D = goes ? (ir ? 6.7348 : 9.1124) : (ir ? 6.9618 : 9.2477); for (int i = 0; i < 256; i += 51) { double w = i < sc ? 0 : -A / (log(cc * (i - sc)) - D); msym_assert(fabs(c[i] - w) < 0.01, "calibration from the header"); } } else msym_assert(c[255] == 100 && c[0] == 0, "reflectance");
    }
    delete hri; free(F); msym_reach("file");
}
ENTRY(files_b) { unsigned k = 5 + pick("format", 0, 3), tec = pick("tecnavia", 0, 1); static const int AT[] = {0, 311, 624}; unsigned w = pick("at", 0, 2); file_images(FORMATS[k], (int)tec, 625, AT[w]); }
ENTRY(files_x) { unsigned k = 9 + pick("format", 0, 2), tec = pick("tecnavia", 0, 1); static const int AT[] = {0, 1249}; unsigned w = pick("at", 0, 1); file_images(FORMATS[k], (int)tec, 1250, AT[w]); }
ENTRY(files_a) { unsigned k = pick("format", 0, 4), tec = pick("tecnavia", 0, 1); static const int AT[] = {0, 2499}; unsigned w = pick("at", 0, 1); file_images(FORMATS[k], (int)tec, 2500, AT[w]); }
// a file that ends early: what it has is read, the rest of the image is empty; an incomplete Tecnavia file is refused
ENTRY(files_short) { unsigned k = pick("format", THOROUGH ? 0 : 5, 11); unsigned n = pick("rows", 0, 2); file_images(FORMATS[k], 0, (int)n, 0); }
static int refuses(const char* n, int tec) { char name[16]; snprintf(name, sizeof name, "%s", n); Hri* h = new Hri; int no = 0; try { h->readfrom(name, tec); } catch (std::exception&) { no = 1; } delete h; return no; }
ENTRY(files_bad)
{
    static unsigned char interp[1360], keys[1440], d[2500]; memset(interp, '0', 104); unsigned k = pick("format", 0, 4), tec = pick("tecnavia", 0, 1), what = pick("what", 0, 6); static const int KIND[] = {2, 5, 6, 9, 11}; const Format& f = FORMATS[KIND[k]]; geometry(f, (int)tec, 4, 0); header(f, (int)tec, 0, 2, interp, keys); size_t data = flen; for (int i = 0; i < 4; ++i) put_data(f, (int)tec, d); unsigned char* p = F + (tec ? 512 : 0); int bad = 1; const char* name = "b.hri";
    switch (what) {
        case 0: name = "none.hri"; break;
        case 1: flen = tec ? pick("cut", 0, 3) * 90 : 0; break; // ends in the first frame
        case 2: { int at = (int)pick("frame", 0, 2); unsigned char* s = at == 0 ? p : at == 1 ? F + data : F + data + (tec ? (f.fi == 0 ? 3072 : 1536) : 364); msym_make_symbolic(s, 3, "sync"); msym_assume((s[0] != 5 || s[1] != 12) & (s[2] != 0xdf)); break; }
        case 3: p[3] = (unsigned char)msym_u8("id"); msym_assume(p[3] != 112 && p[3] != 48); break;
        case 4: p[16] = (unsigned char)msym_u8("format"); msym_assume(p[16] != 0 && p[16] != 255 && p[16] != 15); break;
        case 5: p[36] = (unsigned char)msym_u8("satellite"); msym_assume(p[36] != 212 && p[36] != 0); break;
        case 6: { for (int i = 0; i < 4; ++i) p[17 + i] = pick("ch", 0, 1) ? 240 : 0; std::string c = f.fi == 0 ? "A" : f.fi == 255 ? "B" : "X"; if (p[19]) c += "I"; if (p[17] || p[18]) c += "V"; if (p[20]) c += "W"; bad = 1; for (auto& g : FORMATS) if (c == g.code) return; break; }
    }
    msym_file("b.hri", F, flen); msym_assert(refuses(name, (int)tec) == bad, "a file that is not a disseminated image is refused"); free(F); msym_reach("refused");
}
ENTRY(files_cut)
{
    static unsigned char interp[1360], keys[1440], d[2500]; memset(interp, '0', 104); unsigned k = pick("format", 0, 2); static const int KIND[] = {2, 5, 9}; const Format& f = FORMATS[KIND[k]]; geometry(f, 1, 2, 0); header(f, 1, 0, 2, interp, keys); size_t data = flen; for (int i = 0; i < 2; ++i) put_data(f, 1, d); flen = pick("cut", 0, 11) * flen / 11; (void)data; msym_file("b.hri", F, flen); msym_assert(refuses("b.hri", 1), "an incomplete Tecnavia file is refused"); free(F);
}
