// The OpenMTP-IDS tools: sector, pictures, copy, listing.
#include "h.h"
#include <algorithm>
#include <iostream>
#include <fstream>
#include <iterator>
#include <cstdlib>
#include <cmath>
#include <sstream>
#include <msat/omtp-ids/OpenMTP-IDS.hh>
#include <config.h>
#define main tool_main
namespace sector_tool {
#include <tools/omtp-ids/OpenMTP-IDS_sector.cc>
}
namespace pgm_tool {
#include <tools/omtp-ids/OpenMTP-IDS_to_pgm.cc>
}
namespace write_tool {
#include <tools/omtp-ids/OpenMTP-IDS_write.cc>
}
namespace debug_tool {
#include <tools/omtp-ids/OpenMTP-IDS_debug.cc>
}
#undef main
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static std::string shown;
static int run(int (*tool)(int, char**), const char* arg) { char name[] = "tool", a[64]; strcpy(a, arg ? arg : ""); char* argv[] = {name, arg ? a : nullptr, nullptr}; std::ostringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf()); int r = tool(arg ? 2 : 1, argv); std::cout.rdbuf(old); shown = out.str(); return r; }
static std::string u16(unsigned v) { return std::string(1, (char)(v >> 8)) + (char)v; }
static std::string head(unsigned nrec, unsigned vis, unsigned wv, unsigned ir) { std::string s = std::string("\0\1", 2) + u16(nrec + 1); for (unsigned i = 0; i < 9; ++i) s += u16(10 + i); s += u16(vis) + u16(wv) + u16(ir) + "METEOSAT" + u16(21) + u16(58); while (s.size() < 60) s += u16((unsigned)s.size()); return s; }
static std::string rec(unsigned lines) { return std::string("\0\1", 2) + u16(8) + u16(lines) + u16(100) + u16(0); }
static std::string line(unsigned no, unsigned channel, const std::string& px) { return u16(16 + px.size()) + u16(no) + u16(1) + u16(px.size()) + u16(channel) + u16(1) + u16(0) + u16(0) + px; }
// ---- sector: lines 2655 to 3164, pixels 546 to 801
static int sector_is(const std::vector<ScanLine>& v, unsigned from, unsigned count, const std::vector<std::string>& px)
{
    if (v.size() < count) return 0; int r = 1; for (unsigned i = 0; i < v.size(); ++i) { const LineHeader& h = v[i].lineheader(); if (v[i].linepixel().size() != 256 || h.no_pixels() != 256 || h.length() != 272) return 0; if (i < count) { r &= (h.line() == (int)(from + i)) & (h.start() == 546) & (h.channel_id() == 4); for (unsigned j = 0; j < 256; ++j) r &= v[i][j] == (unsigned char)px[i][546 + j]; } else for (unsigned j = 0; j < 256; ++j) r &= v[i][j] == 0; } return r;
}
static std::string symtext(unsigned n, unsigned row) { std::string s(n, '\0'); for (unsigned i = 0; i < n; ++i) s[i] = (char)(i * 7 + row); unsigned char b[4]; msym_make_symbolic(b, 4, "px"); s[545] = (char)b[0]; s[546] = (char)b[1]; s[801] = (char)b[2]; if (n > 802) s[802] = (char)b[3]; return s; }
static void sector_of(unsigned before, unsigned count, unsigned wide, int missing_px)
{
    std::string t = head(2, 0, 0, 4) + std::string(0, 0) + rec(before); for (unsigned i = 0; i < before; ++i) t += line(i, 4, ""); t += rec(count); std::vector<std::string> px; for (unsigned i = 0; i < count; ++i) { px.push_back(symtext(wide, i)); t += line(before + i, 4, missing_px == (int)i ? px[i].substr(0, 801) : px[i]); } msym_file("in.ids", t.data(), t.size()); int r = run(sector_tool::tool_main, "in.ids");
    unsigned char b[2]; long made = msym_file_get("omtp-ids-sector.ids", b, 2); if (before < 2655 || count == 0 || missing_px >= 0) { msym_assert(r == EXIT_FAILURE && made <= 0 && shown.size() > 10, "an image that does not cover the sector is reported"); msym_reach("refused"); return; }
    msym_assert(r == EXIT_SUCCESS, "done"); OpenMTP_IDS m("omtp-ids-sector.ids"); unsigned n = count > 510 ? 510 : count; std::vector<ScanLine> v = m.scanline(); msym_assert(sector_is(v, before, n, px), "the lines and pixels of the sector, then empty lines"); unsigned per = m.record()[0].scanline().size(); for (const Record& q : m.record()) msym_assert(q.scanline().size() == per && q.recordheader().no_scanlines() == (int)per && q.recordheader().record_length() == m.fileheader().record_length(), "records of the same size"); msym_assert(v.size() - n < per, "no more records than needed"); msym_assert(m.fileheader().ir_id() == 4 && m.fileheader().year() == 10 && m.fileheader().satellite_id() == 21, "header of the image"); msym_reach("sector");
}
ENTRY(sector) { static const unsigned N[] = {1, 2, 7, 40}; unsigned n = N[pick("lines", 0, THOROUGH ? 3 : 2)], w = 802 + pick("more", 0, 1); sector_of(2655, n, w, -1); }
ENTRY(sector_whole) { sector_of(2655, 512, 802, -1); }
ENTRY(sector_rest) { static const unsigned N[] = {73, 202}; sector_of(2655, N[pick("lines", 0, 1)], 802, -1); }
ENTRY(sector_outside) { unsigned k = pick("what", 0, 3); sector_of(k < 2 ? 2 + k : 2655, k == 1 ? 2 : k == 2 ? 0 : 3, 802, k == 3 ? (int)pick("row", 0, 2) : -1); }
// ---- pictures
ENTRY(pictures)
{
    static const unsigned ID[] = {0, 1, 2, 4, 6, 9, 20}; unsigned vis = ID[pick("vis", 0, 2)], ir = pick("ir", 0, 1) ? 4 : 0, wv = pick("wv", 0, 1) ? 6 : 0; unsigned n = pick("lines", 0, 3), split = pick("split", 0, 1); std::string t = head(2, vis, wv, ir), body[2]; unsigned k[2] = {0, 0}; std::string want[3]; unsigned rows[3] = {0, 0, 0}; for (unsigned i = 0; i < n; ++i) { unsigned c = ID[pick("channel", 1, 5)]; unsigned char b[3]; msym_make_symbolic(b, 3, "px"); std::string p((char*)b, 3); unsigned r = split && i >= 2; body[r] += line(i, c, p); ++k[r]; unsigned id[] = {vis, ir, wv}; for (unsigned q = 0; q < 3; ++q) if (id[q] && c == id[q]) { want[q] += p; ++rows[q]; } }
    t += rec(k[0]) + body[0] + rec(k[1]) + body[1]; msym_file("in.ids", t.data(), t.size()); int r = run(pgm_tool::tool_main, "in.ids"); static const char* const F[] = {"vis.pgm", "ir.pgm", "wv.pgm"}; int any = 0; for (unsigned q = 0; q < 3; ++q) { if (!rows[q]) { unsigned char b[2]; msym_assert(msym_file_get(F[q], b, 2) <= 0, "no picture of what is not there"); continue; } any = 1; std::string w = "P5\n3 " + std::to_string(rows[q]) + "\n255\n" + want[q]; msym_assert(file_is(F[q], w.data(), w.size()), "the lines of the channel in their order"); }
    msym_assert((r == EXIT_SUCCESS) == any, "success if there is a picture"); if (any) msym_reach("drawn");
}
ENTRY(uneven_picture) { unsigned a = pick("a", 0, 3), b = pick("b", 0, 3); std::string t = head(1, 0, 0, 5) + rec(2) + line(1, 5, std::string(a, 'x')) + line(2, 5, std::string(b, 'y')); msym_file("in.ids", t.data(), t.size()); int r = run(pgm_tool::tool_main, "in.ids"), ok = a == b && a; unsigned char c[2]; msym_assert((r == EXIT_SUCCESS) == ok && (msym_file_get("ir.pgm", c, 2) > 0) == ok, "lines of different widths are no picture"); }
// ---- copy and listing
ENTRY(copied)
{
    unsigned char px[6]; msym_make_symbolic(px, 6, "px"); std::string t = head(2, 1, 6, 4) + rec(1) + line(msym_u16("no"), 4, std::string((char*)px, 3)) + rec(1) + line(2, 6, std::string((char*)px + 3, 3)); msym_file("in.ids", t.data(), t.size()); msym_assert(run(write_tool::tool_main, "in.ids") == EXIT_SUCCESS && file_is("test.omtp-ids", t.data(), t.size()), "the same octets");
}
ENTRY(listed)
{
    unsigned nrec = pick("records", 0, 3); std::string t = head(nrec, 1, 6, 4); for (unsigned i = 0; i < nrec; ++i) t += rec(1) + line(700 + i, 4, "abc"); msym_file("in.ids", t.data(), t.size()); msym_assert(run(debug_tool::tool_main, "in.ids") == EXIT_SUCCESS, "listed"); unsigned n = 0; for (size_t p = shown.find("number of linepixels : 3\n"); p != std::string::npos; p = shown.find("number of linepixels : 3\n", p + 1)) ++n; msym_assert(n == nrec && shown.find("METEOSAT") != std::string::npos && shown.find("702") != std::string::npos == (nrec == 3), "every line of every record");
}
// ---- files that cannot be used
ENTRY(unusable)
{
    static int (*const T[])(int, char**) = {sector_tool::tool_main, pgm_tool::tool_main, write_tool::tool_main, debug_tool::tool_main}; int (*tool)(int, char**) = T[pick("tool", 0, 3)]; unsigned k = pick("what", 0, 4); std::string t = head(2, 1, 6, 4) + rec(1) + line(1, 4, "abc") + rec(1) + line(2, 4, "def"); if (k == 1) t = t.substr(0, 40); if (k == 2) t = t.substr(0, t.size() - pick("cut", 1, 3)); if (k) msym_file("in.ids", t.data(), t.size()); if (k == 3) { msym_assert(run(tool, nullptr) == EXIT_FAILURE && shown.find("Usage") == 0, "usage"); return; } if (k == 4) { msym_assert(run(tool, "-V") == 0 && !shown.empty(), "version"); return; } msym_assert(run(tool, "in.ids") == EXIT_FAILURE && shown.size() > 10, "reported"); unsigned char b[2]; static const char* const F[] = {"omtp-ids-sector.ids", "ir.pgm", "test.omtp-ids"}; for (const char* f : F) msym_assert(msym_file_get(f, b, 2) <= 0, "nothing written"); msym_reach("refused");
}
