// INI files and Thorn SDS DB1 directories.
#include "h.h"
#include <cmath>
#include <cctype>
#include <climits>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <cstdlib>
#include <config.h>
#undef PACKAGE_STRING
static const char PACKAGE_STRING[] = "meteosatlib";
#include "Magick++.h"
#include <msat/iniparser.h>
#include <limits.h>
#define main tool_main
#include <tools/thornsds_db1/db1_to_image.cpp>
#undef main
using std::string;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static void store(const char* name, const string& t) { msym_file(name, t.data(), t.size()); }
static dictionary* load(const string& t) { store("a.ini", t); char n[] = "a.ini"; return iniparser_new(n); }
static char* text(const char* s) { static char b[8][1200]; static int k = 0; k = (k + 1) % 8; strcpy(b[k], s); return b[k]; }
static const char* get(dictionary* d, const string& k) { return iniparser_getstring(d, text(k.c_str()), nullptr); }
static int gives(dictionary* d, const string& k, const string& v) { const char* s = get(d, k); return s && strlen(s) == v.size() && eqbytes(s, v.data(), v.size()); }
// letters of either case, of which keys keep the lower case one
static string letters(unsigned n, string& lower) { string s; lower.clear(); for (unsigned i = 0; i < n; ++i) { static const char C[] = "aQmZ"; char c = i ? C[2 + i % 2] : C[pick("letter", 0, 1)]; s += c; lower += (char)(c | 32); } return s; }
static string value(unsigned n) { string s; for (unsigned i = 0; i < n; ++i) { unsigned char c = msym_u8("value"); msym_assume((c > ' ') & (c < 127) & (c != '"') & (c != '\'') & (c != ';') & (c != '#')); s += (char)c; } return s; }
static const char* const BLANKS[] = {"", " ", "\t "};
ENTRY(line)
{
    string lower, sl; unsigned section = pick("section", 0, 1), nk = pick("key", 1, THOROUGH ? 3 : 2), nv = pick("value", 0, THOROUGH ? 3 : 2), form = pick("form", 0, 4), sp = pick("blanks", 0, 2), end = pick("end", 0, 3); string s = section ? letters(2, sl) : "", k = letters(nk, lower), v = value(nv); if (form < 2 && !nv) return;
    string t = section ? string(BLANKS[sp]) + "[" + s + "]" + (end == 1 ? "\r\n" : "\n") : ""; t += string(BLANKS[sp]) + k + BLANKS[(sp + 1) % 3] + "=" + BLANKS[sp]; switch (form) { case 0: t += v; break; case 1: t += v + (sp ? " " : "") + "; comment = 3"; break; case 2: t += "\"" + v + "\""; break; case 3: t += "'" + v + "'"; break; default: t += nv == 2 ? "\"" + v.substr(0, 1) + "; #" + v.substr(1) + "\"" : "\"" + v + "\" ; comment"; } t += end == 0 ? "" : end == 1 ? "\r\n" : end == 2 ? "  \n" : "\n"; string want = form == 4 && nv == 2 ? v.substr(0, 1) + "; #" + v.substr(1) : v;
    dictionary* d = load(t); msym_assert(d != nullptr, "read"); msym_assert(gives(d, sl + ":" + lower, want), "the value of its key"); msym_assert(gives(d, s + ":" + k, want), "upper and lower case are the same"); msym_assert(!get(d, sl + ":" + lower + "x") && !get(d, "zz9:" + lower), "no other key"); msym_assert(iniparser_getnsec(d) == (int)section, "sections"); if (section) { const char* n = iniparser_getsecname(d, 0); msym_assert(n && string(n).size() == 2 && eqbytes(n, sl.data(), 2), "name of the section"); } iniparser_free(d); msym_reach("value");
}
// the last of several values counts, in its section; lines that are neither a section nor a value are passed over
ENTRY(file)
{
    static const char* const SKIP[] = {"", "; a = 1\n", "# a = 1\n", "\n", "  \n", "no value\n", " ;[x]\n", "= \n"}; string t, section, lower; std::map<string, string> want; int nsec = 0; std::map<string, int> known; for (unsigned i = 0; i < (THOROUGH ? 4u : 3u); ++i) { unsigned what = pick("what", 0, 4); t += SKIP[pick("skip", 0, i ? 1 : 7)]; if (what == 0) { section = "one"; t += "[One]\n"; } else if (what == 1) { section = "two"; t += "[two] ; comment\n"; } else { string k = what == 2 ? "a" : what == 3 ? "b" : "long name", v(1, (char)('1' + i)); t += k + " = " + v + "\n"; want[section + ":" + k] = v; continue; } if (!known[section]++) ++nsec; }
    dictionary* d = load(t); msym_assert(iniparser_getnsec(d) == nsec, "sections"); for (const char* s : {"", "one", "two"}) for (const char* k : {"a", "b", "long name", "no value"}) { string key = string(s) + ":" + k; auto i = want.find(key); if (i == want.end()) msym_assert(!get(d, key), "not there"); else msym_assert(gives(d, key, i->second), "value"); } for (int i = 0; i < nsec; ++i) msym_assert(known[iniparser_getsecname(d, i)] > 0, "a section"); msym_assert(!iniparser_getsecname(d, nsec) && !iniparser_getsecname(d, -1), "no other section"); msym_assert(iniparser_find_entry(d, text("one")) == (known["one"] > 0) && iniparser_find_entry(d, text("Two")) == (known["two"] > 0), "sections are entries"); iniparser_free(d); msym_reach("file");
}
ENTRY(numbers)
{
    unsigned char c = msym_u8("c"); msym_assume((c > ' ') & (c < 127) & (c != '"') & (c != '\'') & (c != ';') & (c != '#')); dictionary* d = load(string("[s]\nb = ") + (char)c + "xyz\n"); int yes = c == 'y' || c == 'Y' || c == 't' || c == 'T' || c == '1', no = c == 'n' || c == 'N' || c == 'f' || c == 'F' || c == '0'; msym_assert(iniparser_getboolean(d, text("s:b"), 7) == (yes ? 1 : no ? 0 : 7) && iniparser_getboolean(d, text("s:c"), 5) == 5, "yes, no, or what was asked for"); iniparser_free(d); msym_reach(yes ? "yes" : no ? "no" : "other");
}
ENTRY(integers)
{
    int v = (int)msym_range("v", -9, THOROUGH ? 999 : 99); static const int FAR[] = {2147483647, -2147483647 - 1, 10937, 65536}; unsigned k = pick("far", 0, 4); if (k < 4) v = FAR[k]; v = (int)(int64_t)msym_concretize((uint64_t)(int64_t)v); dictionary* d = load("[s]\ni = " + std::to_string(v) + " ; x\nf = " + std::to_string(v) + ".25\n"); msym_assert(iniparser_getint(d, text("s:I"), 3) == v && iniparser_getint(d, text("s:j"), 3) == 3, "number"); double w = v < 0 ? v - 0.25 : v + 0.25; msym_assert(iniparser_getdouble(d, text("s:f"), 1.5) == w && iniparser_getdouble(d, text("s:g"), 1.5) == 1.5, "decimal number"); iniparser_free(d);
}
// what has no value has the value asked for, and nothing can go wrong
ENTRY(nothing)
{
    dictionary* d = load("[sec]\na = 1\n"); unsigned unset = pick("unset", 0, 1); if (unset) { iniparser_unset(d, text("SEC:a")); iniparser_unset(d, text("sec:none")); } static const char* const KEYS[] = {"sec", "sec:b", "", ":", "sec:", "sec:a"}; const char* k = KEYS[pick("key", 0, unset ? 5 : 4)]; msym_assert(iniparser_getint(d, text(k), 42) == 42 && iniparser_getdouble(d, text(k), 2.5) == 2.5 && iniparser_getboolean(d, text(k), 9) == 9, "the value asked for"); msym_assert(iniparser_find_entry(d, text(k)) == !strcmp(k, "sec"), "entry"); if (strcmp(k, "sec")) msym_assert(!strcmp(iniparser_getstring(d, text(k), text("none")), "none"), "text"); iniparser_free(d);
    msym_assert(iniparser_getint(nullptr, text("a:b"), 8) == 8 && iniparser_getdouble(nullptr, text("a:b"), 0.5) == 0.5 && iniparser_getboolean(nullptr, text("a:b"), 1) == 1 && !strcmp(iniparser_getstring(nullptr, text("a"), text("n")), "n") && iniparser_getnsec(nullptr) == -1 && !iniparser_getsecname(nullptr, 0) && !iniparser_find_entry(nullptr, text("a")), "no file"); msym_assert(!iniparser_new(text("none.ini")), "a file that is not there"); iniparser_free(nullptr);
}
// edits: the file as a map from names to values
ENTRY(edits)
{
    dictionary* d = load("[s]\na = 1\n"); std::map<string, string> want; want["s:a"] = "1"; want["s"] = ""; static const char* const KEYS[] = {"s:a", "s:b", "t:a"}; static const char* const UP[] = {"S:A", "s:B", "T:a"}; for (unsigned i = 0; i < (THOROUGH ? 5u : 4u); ++i) { unsigned k = pick("key", 0, 2), op = pick("op", 0, 1); if (op) { string v = "v" + std::to_string(i); iniparser_setstr(d, text(UP[k]), text(v.c_str())); want[KEYS[k]] = v; } else { iniparser_unset(d, text(UP[k])); want.erase(KEYS[k]); } for (const char* q : KEYS) { auto f = want.find(q); if (f == want.end()) msym_assert(!iniparser_find_entry(d, text(q)), "not there"); else msym_assert(gives(d, q, f->second), "the last value set"); } msym_assert(iniparser_getnsec(d) == 1, "sections"); } iniparser_free(d);
}
ENTRY(many)
{
    unsigned n = pick("n", 126, THOROUGH ? 131 : 129), extra = pick("extra", 0, 1); string t = "[s]\n"; for (unsigned i = 0; i < n; ++i) t += "key" + std::to_string(i) + " = " + std::to_string(i * 7) + "\n"; dictionary* d = load(t); if (extra) { iniparser_unset(d, text("s:key5")); for (unsigned i = 0; i < 3; ++i) { string k = "s:more" + std::to_string(i); iniparser_setstr(d, text(k.c_str()), text("x")); } } for (unsigned i = 0; i < n; ++i) { string k = "s:key" + std::to_string(i); msym_assert(iniparser_getint(d, text(k.c_str()), -1) == (extra && i == 5 ? -1 : (int)(i * 7)), "each of many values"); } if (extra) msym_assert(gives(d, "s:more0", "x") && gives(d, "s:more2", "x"), "and of those added"); iniparser_free(d);
}
// written and read again
ENTRY(written)
{
    string lower; unsigned section = pick("section", 0, 1), second = pick("second", 0, 1); string k = letters(2, lower), v = value(pick("value", 1, 2)); msym_assume((unsigned char)v[0] != '='); string t = (section ? "[sec]\n" : "") + k + " = " + v + "\nzz9 = 5\n" + (section && second ? "[other]\nzz9 = 6\n" : ""); dictionary* d = load(t); FILE* f = fopen("w.ini", "w"); iniparser_dump_ini(d, f); fclose(f); iniparser_free(d); d = iniparser_new(text("w.ini")); string s = section ? "sec:" : ":"; if (!section) s = "::"; if (section) { msym_assert(gives(d, s + lower, v) && gives(d, s + "zz9", "5"), "read again"); if (second) msym_assert(gives(d, "other:zz9", "6") && !get(d, "other:" + lower), "each in its section"); } iniparser_free(d);
}
// lines of any length
ENTRY(long_lines)
{
    static const unsigned LEN[] = {900, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 2100}; unsigned n = LEN[pick("n", 0, 8)], kind = pick("kind", 0, 2); string fill(n, 'x'), t = kind == 0 ? "[" + fill + "]\na = 1\n" : kind == 1 ? "[s]\na = " + fill + "\nb = 2\n" : "[s]\n" + fill + " = 1\nb = 2\n"; dictionary* d = load(t); msym_assert(d != nullptr, "read"); if (kind) msym_assert(gives(d, "s:b", "2"), "the next line"); if (n + 6 < 1023) { if (kind == 1) msym_assert(gives(d, "s:a", fill), "value"); else if (kind == 2) msym_assert(gives(d, "s:" + fill, "1"), "key"); else msym_assert(gives(d, fill + ":a", "1"), "section"); } FILE* f = fopen("w.ini", "w"); iniparser_dump_ini(d, f); iniparser_dump(d, f); fclose(f); iniparser_free(d);
}
// ---- DB1 directories: AoI, INFO.DBI, and for each channel its samples and its calibration
struct Line { const char *section, *key, *value; };
static const Line AOI[] = {{"", "Name", "Europe"}, {"", "nPixels", "3"}, {"", "nLines", "2"}, {"", "Projection", "GEOS"}, {"", "CFAC", "13642337"}, {"", "LFAC", "-13642338"}, {"", "COFF", "1856"}, {"", "LOFF", "1857"}};
static const Line INFO[] = {{"Station", "Name", "Rome"}, {"Satellite", "Name", "MSG1"}, {"Satellite", "ID", "321"}, {"Satellite", "Orbit", "17"}, {"Schedule", "Start", "02/03/2006 10:15:00.000"}, {"Schedule", "End", "02/03/2006 10:30:00.000"}, {"Schedule", "Elevation", "37.5"}, {"Schedule", "NorthSouth", "Yes"}, {"Schedule", "Location", "XY"}, {"Schedule", "Day", "No"}, {"Schedule", "Slot", "LRIT"}, {"Image", "Sensor", "SEV"}, {"Image", "Pixels", "3"}, {"Image", "Lines", "2"}, {"Image", "BitsPerPixel", "3"}, {"Image", "Protected", "true"}, {"Image", "nChannels", "11"}, {"Image", "nProducts", "4"}};
static string lines(const Line* l, unsigned n, unsigned without) { string r, s; for (unsigned i = 0; i < n; ++i) { if (l[i].section != s) r += "[" + (s = l[i].section) + "]\n"; if (i != without) r += string(l[i].key) + " = " + l[i].value + "\n"; } return r; }
static const char* const CH[] = {"", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV"};
static string channel(unsigned at, const char* name, const char* var, int table) { return "[Channel" + std::to_string(at) + "]\nName = " + name + "\nVariable = " + var + "\nUnits = K\nBitsPerPixel = 9\nTable = " + (table ? "Yes" : "No") + "\n"; }
static string calibration(const string& var, const string& code, unsigned n) { string r = "[Calibration]\nSlope = 0.25\nTargetCount = 51\nVc = 930.5\nA = 0.625\nB = -3.5\n[" + var + "]\n"; for (unsigned i = 0; i < n; ++i) r += code + "(" + std::to_string(i) + ") = " + std::to_string(100 + 3 * i) + ".5\n"; return r; }
static unsigned char raw[12];
static void directory(unsigned no_aoi, unsigned no_info, unsigned at, unsigned ch, const char* var, const char* code, unsigned ncal, int table = 1) { store("db/AoI", lines(AOI, 8, no_aoi)); store("db/INFO.DBI", lines(INFO, 18, no_info) + channel(at, CH[ch], var, table)); msym_make_symbolic(raw, 12, "raw"); string f = string("db/") + CH[ch]; store((f + ".RAW").c_str(), string((char*)raw, 12)); store((f + ".Calibration").c_str(), calibration(var, code, ncal)); }
struct Quiet { std::ostringstream err; std::streambuf* e; Quiet() : e(std::cerr.rdbuf(err.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(e); } };
static int same(const char* a, const char* b) { return a && !strcmp(a, b); }
ENTRY(fields)
{
    unsigned a = pick("AoI", 0, 8), i = a == 8 ? pick("INFO", 0, 18) : 18; directory(a, i, 9, 9, "Temperature", "T", 8); MSG_db1_data d; d.open(text("db")); msym_assert(!d.is_data_ok() && d.has_channel(text("IR_108")) && !d.has_channel(text("IR_120")), "channels that are there"); d.set_channel(text("IR_108")); msym_assert(d.is_data_ok(), "a channel is chosen");
    msym_assert(same(d.get_AoI_name(), a == 0 ? "Undefined" : "Europe") && d.get_AoI_npixels() == (a == 1 ? 6 : 3) && d.get_AoI_nlines() == (a == 2 ? 1 : 2) && same(d.get_AoI_projection(), a == 3 ? "GRID" : "GEOS") && d.get_AoI_cfac() == (a == 4 ? 0 : 13642337) && d.get_AoI_lfac() == (a == 5 ? 0 : -13642338) && d.get_AoI_coff() == (a == 6 ? 0 : 1856) && d.get_AoI_loff() == (a == 7 ? 0 : 1857), "area");
    msym_assert(same(d.get_INFO_station_name(), i == 0 ? "Undefined" : "Rome") && same(d.get_INFO_satellite_name(), i == 1 ? "Undefined" : "MSG1") && d.get_INFO_satellite_id() == (i == 2 ? 0 : 321) && d.get_INFO_satellite_orbit() == (i == 3 ? 0 : 17), "satellite"); msym_assert(same(d.get_INFO_schedule_start(), i == 4 ? "01/01/2000 00:00:00.000" : "02/03/2006 10:15:00.000") && same(d.get_INFO_schedule_end(), i == 5 ? "01/01/2000 00:00:00.000" : "02/03/2006 10:30:00.000") && d.get_INFO_schedule_elevation() == (i == 6 ? 90.0f : 37.5f) && d.get_INFO_schedule_northsouth() == (i != 7) && same(d.get_INFO_schedule_location(), i == 8 ? "OH" : "XY") && d.get_INFO_schedule_day() == (i == 9) && same(d.get_INFO_schedule_slot(), i == 10 ? "HRIT" : "LRIT"), "schedule");
    msym_assert(same(d.get_INFO_image_sensor(), i == 11 ? "Seviri" : "SEV") && d.get_INFO_image_pixels() == (i == 12 ? 6 : 3) && d.get_INFO_image_lines() == (i == 13 ? 1 : 2) && d.get_INFO_image_bitsperpixel() == (i == 14 ? 10 : 3) && d.get_INFO_image_protected() == (i != 15) && d.get_INFO_image_nchannels() == (i == 16 ? 10 : 11) && d.get_INFO_image_nproducts() == (i == 17 ? 10 : 4), "image"); msym_assert(d.get_raw_data_size() == 12 && d.get_raw_data_nvals() == 6 && eqbytes(d.get_RAW_data(), raw, 12), "samples"); msym_assert(d.get_number_of_calibration() == (i == 14 ? 1024 : 8), "as many calibrated values as counts"); d.close(); msym_assert(!d.is_data_ok(), "closed"); msym_reach("read");
}
ENTRY(channels)
{
    unsigned ch = pick("channel", 1, 12), at = pick("at", 0, 2); at = at == 0 ? ch : at == 1 ? 13 - ch : 1; static const char* const VAR[] = {"Temperature", "T", "Radiance", "R", "Albedo", "radiance"}; unsigned v = pick("variable", 0, 5), table = pick("table", 0, 1); const char* code = v < 2 ? "T" : v < 4 ? (ch <= 3 ? "V" : "N") : "U"; directory(8, 18, at, ch, VAR[v], code, 7, (int)table); MSG_db1_data d; d.open(text("db")); d.set_channel(text(CH[ch])); msym_assert(d.is_data_ok(), "a channel is chosen"); msym_assert(same(d.get_channel_INFO_name(), CH[ch]) && same(d.get_channel_INFO_variable(), VAR[v]) && same(d.get_channel_INFO_variable_code(), code) && same(d.get_channel_INFO_units(), "K") && d.get_channel_INFO_bitsperpixel() == 9 && d.get_channel_INFO_table() == (table != 0), "channel"); msym_assert(d.chname_to_chnum(text(CH[ch])) == (int)ch && d.chname_to_chnum(text("IR_999")) == 0, "numbers of channels");
    msym_assert(d.get_channel_Calibration_Slope() == 0.25f && d.get_channel_Calibration_TargetCount() == 51 && d.get_channel_Calibration_Vc() == 930.5f && d.get_channel_Calibration_A() == 0.625f && d.get_channel_Calibration_B() == -3.5f, "calibration"); const float* c = d.get_calibration(); msym_assert(c && d.get_number_of_calibration() == 8, "calibrated values"); for (int i = 0; i < 8; ++i) { float want = i < 7 ? 100 + 3 * i + 0.5f : 0; msym_assert(c[i] == want && d.get_channel_Calibration_value_calibrated(i) == want, "the calibrated value of each count"); } msym_assert(d.get_channel_Calibration_value_calibrated(-1) == 0 && d.get_channel_Calibration_value_calibrated(8) == 0, "no other count"); msym_reach("channel");
}
// several channels, one after the other, and several directories
ENTRY(again)
{
    directory(8, 18, 4, 4, "Temperature", "T", 8); unsigned char first[12]; memcpy(first, raw, 12); unsigned char other[6]; msym_make_symbolic(other, 6, "other"); store("db/IR_120.RAW", string((char*)other, 6)); store("db/IR_120.Calibration", calibration("Radiance", "N", 3)); store("db/INFO.DBI", lines(INFO, 18, 18) + channel(4, "IR_039", "Temperature", 1) + channel(10, "IR_120", "Radiance", 0)); MSG_db1_data d; unsigned how = pick("how", 0, 3); d.open(text("db")); d.set_channel(text("IR_039")); if (how == 1) d.close(); if (how == 1 || how == 2) { Quiet q; d.open(text("db")); } if (how == 3) { Quiet q; d.set_channel(text("WV_062")); msym_assert(!d.is_data_ok() && !d.get_RAW_data(), "not that channel"); } else d.set_channel(text("IR_120")); if (how == 3) d.set_channel(text("IR_120")); msym_assert(d.is_data_ok() && d.get_raw_data_size() == 6 && eqbytes(d.get_RAW_data(), other, 6) && same(d.get_channel_INFO_name(), "IR_120") && same(d.get_channel_INFO_variable_code(), "N"), "the second channel"); msym_assert(d.get_calibration()[2] == 106.5f && d.get_calibration()[3] == 0, "its calibration"); d.set_channel(text("IR_039")); msym_assert(d.is_data_ok() && d.get_raw_data_size() == 12 && eqbytes(d.get_RAW_data(), first, 12) && d.get_calibration()[7] == 121.5f, "the first channel again"); msym_reach("read");
}
static void not_there(MSG_db1_data& d) { msym_assert(!d.is_data_ok() && !d.get_RAW_data() && !d.get_calibration() && d.get_number_of_calibration() == 0 && d.get_raw_data_size() == 0 && d.get_raw_data_nvals() == 0 && d.get_AoI_npixels() == -1 && d.get_AoI_nlines() == -1 && !d.get_AoI_name() && !d.get_INFO_station_name() && d.get_INFO_image_pixels() == 0 && !d.get_channel_INFO_name() && !d.get_channel_INFO_variable_code() && d.get_channel_Calibration_Slope() == 0 && d.get_channel_Calibration_value_calibrated(3) == 0, "no data, and nothing that looks like it"); }
ENTRY(incomplete)
{
    Quiet q; MSG_db1_data d; unsigned k = pick("k", 0, 8); if (k == 0) { msym_assert(!d.has_channel(text("IR_108")), "not opened"); d.set_channel(text("IR_108")); not_there(d); return; } directory(8, 18, 9, 9, "Temperature", "T", 8); const char* ch = "IR_108"; if (k == 1) ch = "IR_120"; else if (k == 2) msym_deny_open("db/IR_108.RAW"); else if (k == 3) store("db/IR_108.RAW", ""); else if (k == 4) store("db/INFO.DBI", lines(INFO, 18, 18)); else if (k == 5) msym_deny_open("db/INFO.DBI"); else if (k == 6) { static const char* const BITS[] = {"0", "-3", "17", "31", "32", "64", "2000000000", "none"}; string s = lines(INFO, 18, 14); s.replace(s.find("[Image]"), 7, string("[Image]\nBitsPerPixel = ") + BITS[pick("bits", 0, 7)]); store("db/INFO.DBI", s + channel(9, CH[9], "Temperature", 1)); } else if (k == 7) msym_deny_open("db/AoI"); else msym_deny_open("db/IR_108.Calibration");
    d.open(text("db")); d.set_channel(text(ch)); if (k < 7) { not_there(d); msym_assert(q.err.str().size() > 10 || k == 4, "says so"); msym_reach("refused"); } else { msym_assert(d.is_data_ok() && eqbytes(d.get_RAW_data(), raw, 12), "samples"); if (k == 7) msym_assert(d.get_AoI_npixels() == 6 && same(d.get_AoI_name(), "Undefined"), "no area"); else msym_assert(d.get_calibration()[3] == 0 && d.get_channel_Calibration_Slope() == 0, "no calibration"); msym_reach("partly"); }
}
ENTRY(db1_listing)
{
    directory(8, 18, 12, 12, "Radiance", "N", 8); MSG_db1_data d; d.open(text("db")); d.set_channel(text("HRV")); std::ostringstream o; o << d; string t = o.str(); static const char* const WANT[] = {"AoI Name         : Europe", "AoI nPixels      : 3", "AoI nLines       : 2", "AoI Projection   : GEOS", "AoI CFAC         : 13642337", "AoI LFAC         : -13642338", "AoI COFF         : 1856", "AoI LOFF         : 1857", "Station Name     : Rome", "Satellite Name   : MSG1", "Satellite ID     : 321", "Satellite Orbit  : 17", "Schedule Start   : 02/03/2006 10:15:00.000", "Schedule End     : 02/03/2006 10:30:00.000", "Elevation        : 37.5", "NorthSouth       : 1", "Location         : XY", "Day              : 0", "Slot             : LRIT", "Image Sensor     : SEV", "Image Pixels     : 3", "Image Lines      : 2", "Bits per Pixel   : 3", "Image Protected  : 1", "Image Channels   : 11", "Image Products   : 4", "Channel Name     : HRV", "Channel Variable : Radiance", "Channel Units    : K", "Channel BPP      : 9", "Channel Table    : 1", "Slope            : 0.25", "Target Count     : 51", "Vc               : 930.5", "A                : 0.625", "B                : -3.5"}; for (const char* w : WANT) msym_assert(t.find(string(w) + "\n") != string::npos, "listed");
}
// ---- the tool that draws a channel
static int draw(const char* dir, const char* ch, const char* scale, const char* overlay) { char name[] = "db1_to_image", f[] = "gif"; char* argv[] = {name, dir ? text(dir) : nullptr, text(ch), f, text(scale), overlay ? text(overlay) : nullptr, nullptr}; Quiet q; std::ostringstream out; std::streambuf* o = std::cout.rdbuf(out.rdbuf()); int r = 0; try { r = tool_main(dir ? overlay ? 6 : 5 : 1, argv); } catch (const std::exception&) { r = 1000; } std::cout.rdbuf(o); if (r && r != 1000) msym_assert(!q.err.str().empty(), "says what is wrong"); return r; }
ENTRY(drawing)
{
    unsigned south = pick("south", 0, 1), over = pick("overlay", 0, 1), k = pick("scale", 0, 2); directory(8, 18, 9, 9, "Temperature", "T", 8); string s = lines(INFO, 18, 18); if (south) s.replace(s.find("NorthSouth = Yes"), 16, "NorthSouth = No"); if (k == 1) s.replace(s.find("Pixels = 3"), 10, "Pixels = 2"); store("db/INFO.DBI", s + channel(9, "IR_108", "Temperature", 1)); picture_there = "coast.pgm"; static const char* const SCALE[] = {"1", "2.5", "3"}; static const size_t W[] = {3, 5, 9}, H[] = {2, 5, 6}; int r = draw("db", "IR_108", SCALE[k], over ? "coast.pgm" : nullptr); msym_assert(r == 0 && pictures.size() == 1, "drawn"); Picture& p = pictures[0]; size_t w = k == 1 ? 2 : 3; msym_assert(p.w == w && p.h == 2 && p.px16.size() == 2 * w && eqbytes(p.px16.data(), raw, 4 * w), "each sample in its place"); msym_assert(p.file == "MSG1_IR_108_02-03-2006_10-15-00.000.gif", "named after satellite, channel and time"); msym_assert(p.done == string("n") + (south ? "r" : "") + (over ? "ccoast.pgm" : "") + "s" && p.sw == W[k] && p.sh == H[k], "turned, overlaid and scaled"); msym_reach("drawn");
}
ENTRY(drawing_refused)
{
    unsigned k = pick("k", 0, 7); directory(8, 18, 9, 9, "Temperature", "T", 8); if (k == 1) store("db/INFO.DBI", lines(INFO, 18, 12) + channel(9, "IR_108", "Temperature", 1)); else if (k == 2) store("db/IR_108.RAW", string((char*)raw, 11)); else if (k == 3) msym_deny_open("db/IR_108.RAW"); else if (k == 4) picture_fails = 1; else if (k == 5) store("db/INFO.DBI", lines(INFO, 18, 18)); int r = k == 0 ? draw(nullptr, "", "1", nullptr) : draw("db", k == 6 ? "IR_120" : "IR_108", "1", k == 7 ? "none.pgm" : nullptr); msym_assert(r != 0 && r != 1000, "reported"); msym_assert(pictures.empty(), "nothing drawn"); msym_reach("refused");
}
