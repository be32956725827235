// OpenMTP-IDS files: numbers, headers, scan lines, records, whole files, damaged files.
#include "h.h"
#include <msat/omtp-ids/OpenMTP-IDS.hh>
#include <msat/omtp-ids/ByteSex.hh>
#include <sstream>
#include <fstream>
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static std::string bytes(const unsigned char* p, size_t n) { return std::string((const char*)p, n); }
ENTRY(numbers)
{
    unsigned char b[4]; msym_make_symbolic(b, 4, "b"); unsigned n = pick("n", 0, 4), little = pick("little", 0, 1); uint32_t want = 0; for (unsigned i = 0; i < n; ++i) want |= (uint32_t)b[i] << (8 * (little ? i : n - 1 - i)); std::istringstream is(bytes(b, 4)); uint32_t got = little ? ByteSex::little::read4(is, (int)n) : ByteSex::big::read4(is, (int)n); msym_assert(got == want && (unsigned)is.tellg() == n, "four octets");
    std::ostringstream os; if (little) ByteSex::little::write4(os, got, (int)n); else ByteSex::big::write4(os, got, (int)n); msym_assert(os.str() == bytes(b, n), "four octets written");
    if (n <= 2) { std::istringstream i2(bytes(b, 4)); uint16_t g = little ? ByteSex::little::read2(i2, (int)n) : ByteSex::big::read2(i2, (int)n); msym_assert(g == want && (unsigned)i2.tellg() == n, "two octets"); std::ostringstream o2; if (little) ByteSex::little::write2(o2, g, (int)n); else ByteSex::big::write2(o2, g, (int)n); msym_assert(o2.str() == bytes(b, n), "two octets written"); }
}
static int header_is(const FileHeader& h, const unsigned char* b)
{
    const int v[] = {h.no_records(), h.year(), h.julian_day(), h.hour(), h.minute(), h.process_year(), h.process_julian_day(), h.process_hour(), h.process_minute(), h.no_channels(), h.vis_id(), h.wv_id(), h.ir_id()}, w[] = {h.satellite_id(), h.record_length(), h.no_vis_average(), h.no_wv_average(), h.no_ir_average(), h.averaging_type(), h.sample_interval(), h.ir_calibration(), h.wv_calibration(), h.fine_adjustment(), h.ir_space_count(), h.wv_space_count()};
    int r = eqbytes(h.fortran(), b, 2); for (int i = 0; i < 13; ++i) r &= v[i] == be16(b + 2 + 2 * i); r &= eqbytes(h.satellite(), b + 28, 8) & (h.satellite()[8] == 0); for (int i = 0; i < 12; ++i) r &= w[i] == be16(b + 36 + 2 * i); return r;
}
ENTRY(file_header)
{
    static unsigned char b[128]; msym_make_symbolic(b, 60, "b"); static const unsigned LEN[] = {58, 59, 70, 57, 0}; unsigned len = LEN[pick("len", 0, 4)], pad = len > 58 ? len - 58 : 0; put16(b + 38, len); std::istringstream is(bytes(b, 100)); FileHeader h; h.year(3); is >> h; msym_assert(is.good() == (len >= 58), "the record holds the header"); if (!is.good()) { msym_reach("short"); return; } msym_assert(header_is(h, b), "fields"); msym_assert((unsigned)is.tellg() == 60 + pad, "the next record follows");
    std::ostringstream os; os << h; msym_assert(os.str() == bytes(b, 60) + std::string(pad, '\0'), "written as read"); msym_reach("header");
}
ENTRY(set_header)
{
    FileHeader h; msym_assert(h.no_records() == 0 && h.record_length() == 0 && !strcmp(h.satellite(), "METEOSAT") && h.fortran()[0] == 0 && h.fortran()[1] == 1, "an empty header"); unsigned char b[60] = {0, 1}; int v[25]; for (int i = 0; i < 25; ++i) { char n[8]; v[i] = msym_u16("v"); (void)n; put16(b + (i < 13 ? 2 + 2 * i : 10 + 2 * i), (unsigned)v[i]); } v[14] = 58; put16(b + 38, 58);
    h.no_records(v[0]); h.year(v[1]); h.julian_day(v[2]); h.hour(v[3]); h.minute(v[4]); h.process_year(v[5]); h.process_julian_day(v[6]); h.process_hour(v[7]); h.process_minute(v[8]); h.no_channels(v[9]); h.vis_id(v[10]); h.wv_id(v[11]); h.ir_id(v[12]); h.satellite_id(v[13]); h.record_length(v[14]); h.no_vis_average(v[15]); h.no_wv_average(v[16]); h.no_ir_average(v[17]); h.averaging_type(v[18]); h.sample_interval(v[19]); h.ir_calibration(v[20]); h.wv_calibration(v[21]); h.fine_adjustment(v[22]); h.ir_space_count(v[23]); h.wv_space_count(v[24]);
    char name[12]; unsigned n = pick("name", 0, 10); for (unsigned i = 0; i < n; ++i) { name[i] = (char)msym_u8("c"); msym_assume(name[i] != 0); } name[n] = 0; h.satellite(name); memset(b + 28, 0, 8); memcpy(b + 28, name, n > 8 ? 8 : n); msym_assert(header_is(h, b), "each field holds what was set"); std::ostringstream os; os << h; msym_assert(os.str() == bytes(b, 60), "written");
}
// a scan line as octets: line header, pixels, padding to its length
static std::string line_bytes(const unsigned char* head, const unsigned char* px, unsigned n, unsigned len, unsigned total) { unsigned char h[16]; memcpy(h, head, 16); put16(h, len); put16(h + 6, n); std::string s = bytes(h, 16) + bytes(px, n); if (s.size() < total) s.append(total - s.size(), '\0'); return s; }
static int line_is(const ScanLine& l, const unsigned char* h, const unsigned char* px, unsigned n, unsigned len) { const LineHeader& q = l.lineheader(); int r = q.length() == (int)len && q.line() == be16(h + 2) && q.start() == be16(h + 4) && q.no_pixels() == (int)n && q.channel_id() == be16(h + 8) && q.quality() == be16(h + 10) && q.pad()[0] == be16(h + 12) && q.pad()[1] == be16(h + 14) && l.linepixel().size() == n; if (!r) return 0; for (unsigned i = 0; i < n; ++i) r &= l[i] == px[i]; return r; }
ENTRY(scan_line)
{
    unsigned char h[16], px[6]; msym_make_symbolic(h, 16, "h"); msym_make_symbolic(px, 6, "px"); unsigned n = pick("n", 0, 5); int slack = (int)pick("slack", 0, 4) - 1; unsigned len = 16 + n + slack, total = slack > 0 ? len : 16 + n, cut = pick("cut", 0, 2) * pick("by", 1, 8); std::string s = line_bytes(h, px, n, len, total), in = cut < s.size() ? s.substr(0, s.size() - cut) : ""; if (!cut) in += "next";
    std::istringstream is(in); ScanLine l; int thrown = 0; try { is >> l; } catch (const char*) { thrown = 1; } int ok = !thrown && is.good(); msym_assert(ok == (slack >= 0 && cut == 0), "a line that is not there completely, or longer than its length, is an error"); if (!ok) { msym_reach("refused"); return; }
    msym_assert(line_is(l, h, px, n, len) && (size_t)is.tellg() == s.size(), "line"); std::ostringstream os; os << l; msym_assert(os.str() == s, "written as read"); LineHeader q; q.length((int)len); q.line(be16(h + 2)); q.start(be16(h + 4)); q.no_pixels((int)n); q.channel_id(be16(h + 8)); q.quality(be16(h + 10)); int pad[] = {be16(h + 12), be16(h + 14)}; q.pad(pad); ScanLine m; m.lineheader(q); m.linepixel(std::vector<unsigned char>(px, px + n)); std::ostringstream o2; o2 << m; msym_assert(o2.str() == s && line_is(m, h, px, n, len), "built and written"); msym_reach("line");
}
// whole files: up to 3 records of up to 3 lines
struct File { unsigned nrec, lines[3], n[9]; unsigned char head[60], rec[3][10], lh[9][16], px[9][4]; std::string text; std::vector<size_t> ends; };
static int concrete; static void content(unsigned char* p, size_t n, const char* name) { if (concrete) memset(p, 7, n); else msym_make_symbolic(p, n, name); }
static File& make(unsigned nrec, unsigned a, unsigned b, unsigned c)
{
    static File f; f.nrec = nrec; f.lines[0] = a; f.lines[1] = b; f.lines[2] = c; content(f.head, 60, "head"); put16(f.head + 38, 60); put16(f.head + 2, nrec + 1); f.text = bytes(f.head, 60) + std::string(2, '\0'); f.ends.push_back(f.text.size()); unsigned k = 0;
    for (unsigned i = 0; i < nrec; ++i) { content(f.rec[i], 10, "rec"); put16(f.rec[i] + 4, f.lines[i]); f.text += bytes(f.rec[i], 10); f.ends.push_back(f.text.size()); for (unsigned j = 0; j < f.lines[i]; ++j, ++k) { f.n[k] = (k * 2 + 1) % 4; content(f.lh[k], 16, "lh"); content(f.px[k], 4, "px"); f.text += line_bytes(f.lh[k], f.px[k], f.n[k], 20, 20); f.ends.push_back(f.text.size()); } } return f;
}
static int same(const std::vector<ScanLine>& v, const File& f, unsigned from, unsigned to) { unsigned total = 0; for (unsigned i = 0; i < f.nrec; ++i) total += f.lines[i]; if (to > total) to = total; if (from > to) from = to; if (v.size() != to - from) return 0; int r = 1; for (unsigned i = from; i < to; ++i) r &= line_is(v[i - from], f.lh[i], f.px[i], f.n[i], 20); return r; }
ENTRY(whole_file)
{
    unsigned nrec = pick("records", 0, 3), a = pick("a", 0, THOROUGH ? 3 : 2), b = pick("b", 0, 3), c = pick("c", 0, THOROUGH ? 3 : 1); if ((nrec < 3 && c) || (nrec < 2 && b) || (nrec < 1 && a)) return; File& f = make(nrec, a, b, c); msym_file("f.ids", f.text.data(), f.text.size()); OpenMTP_IDS m("f.ids"); msym_assert(header_is(m.fileheader(), f.head) && m.record().size() == nrec, "header"); unsigned k = 0;
    for (unsigned i = 0; i < nrec; ++i) { const Record& r = m.record()[i]; const RecordHeader& h = r.recordheader(); msym_assert(eqbytes(h.fortran(), f.rec[i], 2) && h.record_header_length() == be16(f.rec[i] + 2) && h.no_scanlines() == (int)f.lines[i] && h.record_length() == be16(f.rec[i] + 6) && h.zero() == be16(f.rec[i] + 8) && r.scanline().size() == f.lines[i], "record"); for (unsigned j = 0; j < f.lines[i]; ++j, ++k) msym_assert(line_is(r[j], f.lh[k], f.px[k], f.n[k], 20), "line"); }
    msym_assert(same(m.scanline(), f, 0, k), "all scan lines"); unsigned from = pick("from", 0, k + 1), to = pick("to", 0, k + 2); msym_assert(same(m.scanline(from, to), f, from, to), "a range of scan lines"); msym_assert(same(m.scanline(from), f, from, from + 1), "one scan line");
    OpenMTP_IDS copy(m); copy.write("g.ids"); msym_assert(file_is("g.ids", f.text.data(), f.text.size()), "written as read"); copy.read("f.ids"); msym_assert(copy.record().size() == nrec, "read again"); msym_reach("file");
}
// lines and records as large as they come
ENTRY(large_file)
{
    unsigned char head[60], rec[10] = {0}, lh[16]; memset(head, 3, 60); memset(lh, 5, 16); put16(head + 38, 60); put16(head + 2, 3); static const unsigned L[] = {300, 2, 3}, N[] = {3, 5000, 803}; unsigned order = pick("order", 0, 1); std::vector<std::string> px; unsigned char edge = msym_u8("edge"); std::string t = bytes(head, 60) + std::string(2, '\0'); for (unsigned r = 0; r < 2; ++r) { unsigned k = order ? 1 - r : r; if (order && r == 1) k = 2; put16(rec + 4, L[k]); t += bytes(rec, 10); for (unsigned j = 0; j < L[k]; ++j) { std::string p; for (unsigned i = 0; i < N[k]; ++i) p += (char)(i * 7 + j * 3 + i / 256); if (j == L[k] - 1) p[N[k] - 1] = (char)edge; px.push_back(p); put16(lh + 2, j); t += line_bytes(lh, (const unsigned char*)p.data(), N[k], 16 + N[k] + 4, 16 + N[k] + 4); } }
    msym_file("f.ids", t.data(), t.size()); OpenMTP_IDS m("f.ids"); msym_assert(m.record().size() == 2 && m.scanline().size() == px.size(), "all lines"); int ok = 1; unsigned n = 0; for (auto& l : m.scanline()) { ok &= l.linepixel().size() == px[n].size() && l.lineheader().no_pixels() == (int)px[n].size() && eqbytes(l.linepixel().data(), px[n].data(), px[n].size()); ++n; } msym_assert(ok, "all pixels"); unsigned from = (unsigned)px.size() - 2; msym_assert(m.scanline(from, from + 2).size() == 2 && m.scanline(from, from + 2)[1].linepixel().size() == px.back().size(), "the last lines"); m.write("g.ids"); msym_assert(file_is("g.ids", t.data(), t.size()), "written as read"); msym_reach("large");
}
// a file that is cut off anywhere, or announces more than it has, is an error
ENTRY(damaged)
{
    concrete = 1; File& f = make(2, 1, 2, 0); unsigned k = pick("k", 0, 4); std::string t = f.text; size_t at = f.ends[pick("end", 0, f.ends.size() - 1)], back = pick("back", 0, 3); if (k == 0) { t = t.substr(0, at - (at == t.size() ? back + 1 : back)); } else if (k == 1) { unsigned n = msym_u16("records"); msym_assume(n != 1 && n != 2 && n != 3); if (n > 5) { n = 60000; } else n = (unsigned)msym_concretize(n); t[2] = (char)(n >> 8); t[3] = (char)n; } else if (k == 2) t[39] = 57, t[38] = 0; else if (k == 3) { size_t r = f.ends[0] + 4; t[r] = 0; t[r + 1] = 9; t = t.substr(0, t.size() - back * 20); } else { size_t l = f.ends[1]; t[l + 6] = (char)0xff; t[l + 7] = (char)0xff; }
    msym_file("d.ids", t.data(), t.size()); const char* what = 0; OpenMTP_IDS m; try { m.read(k == 1 && back == 3 ? "none.ids" : "d.ids"); } catch (const char* e) { what = e; } msym_assert(what && strlen(what) > 5 && strlen(what) < 100, "refused with a message"); msym_reach("refused");
}
// announced lengths and counts that contradict the contents, whichever line or record they belong to
ENTRY(contradictory)
{
    concrete = 1; File& f = make(2, 1, 2, 0); unsigned k = pick("k", 0, 4), which = pick("line", 0, 2); std::string t = f.text; size_t l = f.ends[which == 0 ? 1 : which + 2], need = 16 + f.n[which]; auto put = [&](size_t o, unsigned v) { t[o] = (char)(v >> 8); t[o + 1] = (char)v; };
    switch (k) { case 0: put(l, pick("length", 0, (unsigned)need - 1)); break; case 1: { if (which != 2) return; unsigned v = pick("longer", 21, 30); put(l, v); break; } case 2: { unsigned v = pick("pixels", 5, 30); put(l + 6, v); break; } case 3: { if (which == 2) return; size_t r = f.ends[which ? 2 : 0]; put(r + 4, (which ? 2 : 1) + pick("more lines", which ? 1 : 3, 5)); break; } case 4: put(38, pick("header", 0, 57)); break; }
    msym_file("d.ids", t.data(), t.size()); const char* what = 0; OpenMTP_IDS m; try { m.read("d.ids"); } catch (const char* e) { what = e; } msym_assert(what && strlen(what) > 5 && strlen(what) < 100, "refused with a message"); msym_reach("refused");
}
ENTRY(empty_object) { OpenMTP_IDS m; std::ostringstream os; os << m; msym_assert(m.scanline().empty() && m.scanline(0).empty() && m.scanline(0, 5).empty() && os.str().size() == 60, "an object without records can be written"); std::istringstream is(os.str()); OpenMTP_IDS n; int thrown = 0; try { is >> n; } catch (const char*) { thrown = 1; } msym_assert(thrown || !is.good(), "but is no file"); }
