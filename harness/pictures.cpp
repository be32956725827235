// The picture and listing tools: XRIT2Image, native2Image, nativedump, xritdump.
#include "nfiles.h"
#include "xfiles.h"
#include <msat/msg-native/MSG_native.h>
#include <msat/xrit/dataaccess.h>
#include <msat/xrit/fileaccess.h>
#include <algorithm>
#include <climits>
#include <fstream>
#include <glob.h>
#include <iomanip>
#include <iostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <config.h>
#undef PACKAGE_STRING
static const char PACKAGE_STRING[] = "meteosatlib";
#include "optstub.h"
#include "Magick++.h"
#define main tool_main
namespace xrit_tool {
#include <tools/hrit/XRIT2Image.cpp>
}
namespace native_tool {
#include <tools/msg-native/native2Image.cpp>
}
namespace ndump_tool {
#include <tools/msg-native/nativedump.cpp>
}
namespace xdump_tool {
#include <tools/hrit/xritdump.cpp>
}
#undef main
static std::string shown;
static int run(int (*tool)(int, char**), std::vector<std::string> args) { args.insert(args.begin(), "tool"); std::vector<char*> argv; for (auto& a : args) argv.push_back((char*)a.c_str()); argv.push_back(nullptr); optind = 1; pictures.clear(); std::ostringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf()); int r = tool((int)args.size(), argv.data()); std::cout.rdbuf(old); shown = out.str(); return r; }
// ---- XRIT2Image
static std::string in_dir(const std::string& n) { return "d/" + n; }
static std::vector<std::string> ask(std::initializer_list<std::string> more = {}) { std::vector<std::string> a{"-d", "d", "-r", "H", "-s", "MSG1", "-c", "IR_108", "-t", "200611141200"}; a.insert(a.end(), more.begin(), more.end()); return a; }
static Seg sseg(unsigned seq) { Seg s; s.cols = 3; s.lines = 2; s.seq = seq; s.end = 3; s.flag = 0; s.bpp = 16; return s; }
#define NAME "H-MSG1-IR_108-200611141200"
ENTRY(xrit_picture)
{
    unsigned have = pick("have", 1, 7), order = pick("packed", 0, 1); unsigned char d[3][12]; msym_make_symbolic(d, sizeof d, "d"); for (unsigned i = 0; i < 3; ++i) if (have >> i & 1) { Seg s = sseg(i + 1); if (order) { s.flag = 1; seg_file(in_dir(seg_name(i + 1)), s, d[i], 1); } else seg_file(in_dir(seg_name(i + 1)), s, d[i], 12); }
    // others that are not asked for
    Seg s = sseg(1); seg_file(in_dir(seg_name(1, "IR_120___")), s, d[0], 12); unsigned char junk[20] = {9}; msym_file("d/H-000-MSG1__-MSG1________-IR_108___-000001___-200611141215-C_", junk, 20);
    msym_assert(run(xrit_tool::tool_main, ask()) == 0 && pictures.size() == 1, "made"); const Picture& p = pictures[0]; msym_assert(p.file == NAME ".jpg" && p.done == "r" && p.w == 3 && p.h == 6 && pictures_alive == 0, "a picture of the whole image, turned");
    int r = 1; for (unsigned i = 0; i < 3; ++i) for (unsigned k = 0; k < 6; ++k) { uint16_t v = 0; if (have >> i & 1) { if (order) v = (uint16_t)(d[i][0] + 3 * k); else memcpy(&v, d[i] + 2 * k, 2); } r &= p.px16[6 * i + k] == v; } msym_assert(r, "the samples of each segment at its place, zero where there is none"); msym_reach("picture");
}
ENTRY(xrit_options)
{
    unsigned char d[12]; msym_make_symbolic(d, 12, "d"); Seg s = sseg(2); unsigned hrv = pick("hrv", 0, 1); s.chan = hrv ? 12 : 9; seg_file(in_dir(seg_name(2)), s, d, 12); picture_there = "coast.png"; std::vector<std::string> a; unsigned n = pick("normalize", 0, 1), o = pick("overlay", 0, 1), g = pick("scale", 0, 3), f = pick("format", 0, 1); if (n) a.push_back("-n"); if (o) { a.push_back("--overlay=coast.png"); } static const char* const G[] = {"", "0.5", "1.0", "2"}; if (g) { a.push_back("-g"); a.push_back(G[g]); } if (f) { a.push_back("-f"); a.push_back("png"); }
    auto all = ask(); all.insert(all.end(), a.begin(), a.end()); msym_assert(run(xrit_tool::tool_main, all) == 0 && pictures.size() == 1 && pictures_alive == 0, "made"); const Picture& p = pictures[0]; std::string want = std::string(n ? "n" : "") + "r" + (o && !hrv ? "ccoast.png" : "") + (g == 1 ? "s" : ""); msym_assert(p.done == want && p.file == (f ? NAME ".png" : NAME ".jpg"), "what was asked for"); if (g == 1) msym_assert(p.sw == 1 && p.sh == 3, "size"); msym_assert(eqbytes(&p.px16[6], d, 12), "samples");
}
ENTRY(xrit_refused)
{
    unsigned char d[12] = {1, 2, 3}; unsigned k = pick("k", 0, 13); Seg s = sseg(1), t = sseg(2); std::vector<std::string> a = ask(); size_t n = 12, m = 12; static const int DROP[] = {2, 4, 6, 8};
    switch (k) { case 0: s.skip = 4; break; case 1: t.skip = 4; break; case 2: t.skip = 1; break; case 3: t.seq = 0; break; case 4: t.seq = (unsigned)msym_range("seq", 4, 65535); break; case 5: t.end = 4; t.seq = 4; break; case 6: n = pick("len", 0, 11); break; case 7: m = pick("len", 0, 11); break; case 8: t.type = 3; break; case 9: picture_fails = 1; break; case 10: a.push_back("--overlay=none.png"); break; case 11: a[9] = "200611141230"; break; case 12: { unsigned w = DROP[pick("drop", 0, 3)]; a.erase(a.begin() + w, a.begin() + w + 2); break; } case 13: break; }
    seg_file(in_dir(seg_name(1)), s, d, n); seg_file(in_dir(seg_name(2)), t, d, m); if (k == 13) { msym_file(in_dir(seg_name(2)).c_str(), d, 12); } msym_assert(run(xrit_tool::tool_main, a) != 0 && pictures.empty(), "reported"); msym_reach("refused");
}
// headers whose numbers are anything: a picture or a report
ENTRY(xrit_numbers)
{
    unsigned char d[12] = {1, 2, 3}; Seg s = sseg(1), t = sseg(2); unsigned k = pick("k", 0, 3); static const unsigned V[] = {0, 1, 2, 3, 255, 32768, 65535}; unsigned v = V[pick("v", 0, 6)]; if (k == 0) s.cols = v; if (k == 1) s.lines = v; if (k == 2) s.end = v; if (k == 3) t.cols = v; seg_file(in_dir(seg_name(1)), s, d, 12); seg_file(in_dir(seg_name(2)), t, d, 12); int r = run(xrit_tool::tool_main, ask()); msym_assert((r == 0) == (pictures.size() == 1), "a picture or a report"); if (r) msym_reach("refused");
}
ENTRY(xrit_here) { unsigned char d[12]; msym_make_symbolic(d, 12, "d"); seg_file("./" + seg_name(1), sseg(1), d, 12); auto a = ask(); a.erase(a.begin(), a.begin() + 2); msym_assert(run(xrit_tool::tool_main, a) == 0 && pictures.size() == 1 && eqbytes(pictures[0].px16.data(), d, 12), "of the current directory"); msym_assert(run(xrit_tool::tool_main, {"-V"}) == 0 && pictures.empty(), "asked about itself"); }
// ---- native2Image, nativedump
ENTRY(native_picture)
{
    Product p; p.sel = "-X---------X"; p.lines = 2; p.cols = 4; p.hlines = 6; p.hcols = 8; write_product(p); unsigned ch = pick("ch", 0, 1) ? 11 : 1, half = pick("half", 0, 1); int L = ch == 11 ? 6 : 2, C = ch == 11 ? 8 : 4; msym_assert(run(native_tool::tool_main, {"product.nat", ch == 11 ? "11" : "1", "gif", half ? "0.5" : "2"}) == 0 && pictures.size() == 1 && pictures_alive == 0, "made");
    const Picture& q = pictures[0]; msym_assert(q.w == (size_t)C && q.h == (size_t)L && q.file == "MSG1.gif" && q.done == "nrs" && q.sw == (size_t)(half ? C / 2 : 2 * C) && q.sh == (size_t)(half ? L / 2 : 2 * L), "size"); int r = 1; for (int y = 0; y < L; ++y) for (int x = 0; x < C; ++x) r &= q.px16[y * C + x] == bits10(samples_of[ch][y].data(), x); msym_assert(r, "samples"); msym_reach("picture");
}
ENTRY(native_refused)
{
    Product p; p.sel = "-X---------X"; p.lines = 2; unsigned k = pick("k", 0, 5); static const char* const CH[] = {"0", "-1", "12", "1", "1", "1"}; if (k == 3) { p.bad = 39; p.bad_text = ""; } if (k == 5) picture_fails = 1; write_product(p); msym_assert(run(native_tool::tool_main, {k == 4 ? "none.nat" : "product.nat", CH[k], "gif", "1"}) != 0 && pictures.empty(), "reported"); if (k == 3 || k == 4) msym_assert(run(ndump_tool::tool_main, {k == 4 ? "none.nat" : "product.nat"}) != 0, "reported"); msym_assert(run(ndump_tool::tool_main, {}) != 0 && run(native_tool::tool_main, {"product.nat", "1", "gif"}) != 0, "no file"); msym_reach("refused");
}
// ---- xritdump
static std::string num(size_t v) { char b[30]; snprintf(b, sizeof b, "%zu", v); return b; }
static bool has(const std::string& t) { return shown.find(t) != std::string::npos; }
static char art(unsigned v, unsigned lo, unsigned hi) { static const char C[] = " .,-:=$#"; if (v <= lo) return C[0]; if (v >= hi) return C[7]; return C[(v - lo) * 8 / (hi - lo)]; }
static void dump_files(unsigned have, const Seg& base, const uint16_t (*v)[6])
{
    Pro pro; pro_file(pro); static unsigned char epi[EPI]; pe_file(1, "MSG1________", epi, sizeof epi); for (unsigned i = 0; i < 3; ++i) if (have >> i & 1) { Seg s = base; s.seq = i + 1; seg_file(seg_name(i + 1), s, (const unsigned char*)v[i], 12); }
}
ENTRY(xrit_dump)
{
    unsigned have = pick("have", 1, 7); static const uint16_t V[][6] = {{0, 1, 2, 3, 4, 5}, {7, 7, 7, 7, 7, 7}, {0, 65535, 9, 1000, 65534, 40000}, {0, 0, 0, 0, 0, 0}, {65535, 65535, 65535, 65535, 65535, 65535}}; unsigned a = pick("a", 0, 4); uint16_t v[3][6]; for (int i = 0; i < 3; ++i) memcpy(v[i], V[i == 2 ? a : (a + i) % 5], 12); Seg s = sseg(1); dump_files(have, s, v);
    msym_assert(run(xdump_tool::tool_main, {seg_name(have & 1 ? 1 : have & 2 ? 2 : 3)}) == 0, "shown"); msym_assert(has("Columns: 3\n") && has("Lines: 6\n") && has("Pixels per segment: 6\n") && has("Scanlines per segment: 2\n") && has("HRV: no\n"), "what it is");
    for (unsigned i = 0; i < 3; ++i) { if (!(have >> i & 1)) { msym_assert(has("Segment " + num(i) + ": missing.\n") || !(have >> i), "missing"); continue; } unsigned lo = 65535, hi = 0; for (unsigned x : v[i]) { if (x < lo) lo = x; if (x > hi) hi = x; } std::string want = "Segment " + num(i) + ": min " + num(lo) + " max " + num(hi) + "\n"; for (unsigned y = 0; y < 3; ++y) { want += "0" + num(i) + " "; for (unsigned x = 0; x < 50; ++x) want += art(v[i][(y * 2 / 3) * 3 + x * 3 / 50], lo, hi); want += "\n"; } msym_assert(has(want), "drawn from darkest to brightest"); }
    msym_assert(has("Composite image:\n"), "whole image"); size_t at = shown.find("Composite image:\n") + 17; msym_assert(shown.size() == at + 24 * 51 + 1, "24 lines of 50 characters"); for (size_t i = at; i < shown.size(); ++i) msym_assert(shown[i] == '\n' || (shown[i] && strchr(" .,-:=$#", shown[i])), "drawn"); msym_reach("dump");
}
ENTRY(xrit_dump_sizes)
{
    Seg s = sseg(1); static const unsigned W[] = {0, 1, 3712, 3713, 6000}; unsigned k = pick("k", 0, 4); s.cols = W[k]; s.lines = 1; s.end = 1; static uint16_t d[6000]; for (int i = 0; i < 6000; ++i) d[i] = (uint16_t)i; Pro pro; pro_file(pro); static unsigned char epi[EPI]; pe_file(1, "MSG1________", epi, sizeof epi); s.seq = pick("seq", 1, 3); seg_file(seg_name(s.seq), s, (const unsigned char*)d, 2 * W[k]); msym_assert(run(xdump_tool::tool_main, {seg_name(s.seq)}) == 0 && has("Columns: " + num(W[k]) + "\n") && has("Composite image:\n"), "shown"); msym_reach("dump");
}
ENTRY(xrit_dump_whole)
{
    static uint16_t v[464][300]; for (int y = 0; y < 464; ++y) for (int x = 0; x < 300; ++x) v[y][x] = (uint16_t)(60000 - (y * 50 + x) * 2); Pro pro; pro_file(pro); static unsigned char epi[EPI]; pe_file(1, "MSG1________", epi, sizeof epi); static const unsigned SEQ[] = {1, 4, 8}; Seg s; s.flag = 0; s.cols = 300; s.lines = 464; s.end = 8; s.seq = SEQ[pick("seq", 0, 2)]; int turned = pick("turned", 0, 1); if (!turned) s.cfac = -s.cfac; seg_file(seg_name(s.seq), s, (const unsigned char*)v, sizeof v);
    msym_assert(run(xdump_tool::tool_main, {seg_name(s.seq)}) == 0, "shown"); std::string want = "Composite image:\n"; for (unsigned r = 0; r < 24; ++r) { unsigned l = 3711 - r * 3712 / 24; for (unsigned c = 0; c < 50; ++c) { unsigned x = c * 3712 / 50, t = 0; if (l / 464 == s.seq - 1 && x < 300) t = v[l % 464][turned ? 299 - x : x]; want += art(t, v[463][299], v[0][0]); } want += "\n"; } msym_assert(has(want), "the image in its place"); msym_reach("dump");
}
ENTRY(xrit_dump_refused)
{
    unsigned k = pick("k", 0, 5); uint16_t v[3][6] = {}; Seg s = sseg(1); if (k == 0) s.skip = 4; if (k == 1) s.skip = 1; if (k == 2) s.cols = 4; if (k == 3) s.lines = 0; if (k == 4) s.fmt = 0; dump_files(3, s, v); std::vector<std::string> a; if (k < 5) a.push_back(seg_name(k == 5 ? 3 : 1)); else { static const char* const A[] = {"", "-x", "nothing"}; unsigned j = pick("args", 0, 2); if (j) a.push_back(A[j]); } msym_assert(run(xdump_tool::tool_main, a) != 0, "reported"); msym_reach("refused");
}
