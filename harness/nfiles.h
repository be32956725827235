// In-memory MSG native products.
#pragma once
#include "l15.h"
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static unsigned bits10(const unsigned char* p, unsigned i) { unsigned o = 10 * i / 8, s = 10 * i % 8; return (((unsigned)p[o] << 8 | p[o + 1]) >> (6 - s)) & 1023; }
static size_t t_off(unsigned i) { return i < 6 ? 80 * i : i < 11 ? 480 + 62 * (i - 6) : 2154 + 80 * (i - 11); }
static void l15_windows(unsigned char* f) { memcpy(f + PSTART[2] + 12, TIMES[0], 15); memcpy(f + PSTART[2] + 27, TIMES[1], 15); }
static void put_line(std::vector<unsigned char>& f, const unsigned char* data, size_t n, uint32_t len, unsigned chan, unsigned line) { size_t o = f.size(); f.resize(o + 65 + n); put32(&f[o + 18], len); put32(&f[o + 38 + 13], line); f[o + 38 + 17] = (unsigned char)chan; if (n) memcpy(&f[o + 65], data, n); }
// ---- whole products
struct Product { const char* sel = "XXXXXXXXXXXX"; int lines = 2, cols = 4, hlines = 6, hcols = 8; int trailer_first = 0; unsigned octets = 5, hoctets = 10; int drop_lines = 0, plain = 0; int bad = -1; const char* bad_text = ""; };
static void text(unsigned char* f, unsigned i, const char* t) { size_t n = strlen(t); memset(f + t_off(i), ' ', 79); f[t_off(i) + 79] = '\n'; memcpy(f + t_off(i), t, n); }
static void number(unsigned char* f, unsigned i, const char* key, int v) { char t[80]; snprintf(t, sizeof t, "%-30s: %d", key, v); text(f, i, t); }
static void place(unsigned char* f, unsigned i, const char* key, size_t size, size_t at) { char t[80]; snprintf(t, sizeof t, "%-28s: %-16zu%-16zu", key, size, at); memcpy(f + t_off(i), t, 62); }
// returns the packed samples of each channel, in the order of its lines
static std::vector<std::vector<unsigned char>> samples_of[12];
static int selected(const char* s, int i) { return i < (int)strlen(s) && s[i] == 'X'; }
static void write_product(const Product& p)
{
    static unsigned char head[5114 + 38 + 445248], tail[38 + EPI]; memset(head, ' ', 5114); put32(head + 5114 + 18, 445248 + 15); l15_windows(head + 5114 + 39); put32(tail + 18, EPI + 15); std::vector<unsigned char> d;
    for (int il = 0; il < p.lines - p.drop_lines; ++il) for (int ch = 0; ch < 12; ++ch) if (selected(p.sel, ch)) for (int r = 0; r < (ch == 11 ? 3 : 1); ++r) { unsigned n = ch == 11 ? p.hoctets : p.octets; std::vector<unsigned char> s(n); if (n && !p.plain) msym_make_symbolic(s.data(), n, "s"); if (p.plain) for (unsigned i = 0; i < n; ++i) s[i] = (unsigned char)(i * 37 + il * 11 + ch * 5 + r + 1); put_line(d, s.data(), n, n + 42, ch + 1, il + 1); samples_of[ch].push_back(s); }
    size_t dat = sizeof head + (p.trailer_first ? sizeof tail : 0), tra = p.trailer_first ? sizeof head : sizeof head + d.size();
    place(head, 8, "15Header", 445286, 5114); place(head, 9, "15Data", d.size(), dat); place(head, 10, "15Trailer", 380363, tra); char sel[80]; snprintf(sel, sizeof sel, "%-30s: %s", "SelectedBandIDs", p.sel); text(head, 39, sel);
    number(head, 40, "SouthLineSelectedRectangle", 11); number(head, 41, "NorthLineSelectedRectangle", 10 + p.lines); number(head, 42, "EastColumnSelectedRectangle", 21); number(head, 43, "WestColumnSelectedRectangle", 20 + p.cols); number(head, 44, "NumberLinesVISIR", p.lines); number(head, 45, "NumberColumnsVISIR", p.cols); number(head, 46, "NumberLinesHRV", p.hlines); number(head, 47, "NumberColumnsHRV", p.hcols);
    if (p.bad >= 0) text(head, (unsigned)p.bad, p.bad_text); std::vector<unsigned char> f(head, head + sizeof head); if (p.trailer_first) f.insert(f.end(), tail, tail + sizeof tail); f.insert(f.end(), d.begin(), d.end()); if (!p.trailer_first) f.insert(f.end(), tail, tail + sizeof tail); msym_file("product.nat", f.data(), f.size());
}
