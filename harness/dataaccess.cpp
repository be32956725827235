// Assembling an image from its segments: scanning, line addressing, missing segments, caching.
#include "xfiles.h"
#include <msat/xrit/dataaccess.h>
#include <msat/xrit/fileaccess.h>
#include <stdexcept>
using msat::xrit::DataAccess; using msat::xrit::FileAccess;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static FileAccess product() { return FileAccess("H:MSG1:IR_108:200611141200"); }
static void no_prologue() { unsigned char z[1] = {0}; pe_file(0, "MET5________", z, 1); pe_file(1, "MET5________", z, 1); }
struct Scanned { DataAccess da; MSG_data pro, epi; MSG_header h; int ok; Scanned() { try { da.scan(product(), pro, epi, h); ok = 1; } catch (std::exception&) { ok = 0; } } };

// segments present in any combination, numbered independently of their file names
ENTRY(scan_segments)
{
    no_prologue(); Seg s; s.end = 4; s.cols = msym_u16("cols"); s.lines = msym_u16("lines"); s.chan = msym_u8("chan"); msym_assume((s.lines != 0) & (s.chan != 12)); s.cfac = (int32_t)msym_u32("cfac"); s.lfac = (int32_t)msym_u32("lfac"); s.end = msym_u16("end");
    unsigned n = pick("n", 1, 3); unsigned char d[1] = {0}; unsigned seq[3]; std::string names[5];
    for (unsigned i = 0; i < n; ++i) { char nm[8] = "seq0"; nm[3] = (char)('0' + i); seq[i] = pick(nm, 0, 4); for (unsigned j = 0; j < i; ++j) if (seq[j] == seq[i]) return; }
    for (unsigned i = 0; i < n; ++i) { s.seq = seq[i]; seg_file(seg_name(i + 1), s, d, 1); names[seq[i]] = "./" + seg_name(i + 1); }
    Scanned r; unsigned top = 0; for (unsigned i = 0; i < n; ++i) top = std::max(top, seq[i]);
    msym_assert(r.ok == (top > 0), "a product with at least one numbered segment is accepted"); if (!r.ok) { msym_reach("no segments"); return; }
    msym_assert(r.da.segnames.size() == top, "segments up to the last present one are known");
    for (unsigned k = 1; k <= top; ++k) msym_assert(r.da.segnames[k - 1] == names[k], "each segment is found by its sequence number");
    msym_assert(r.da.columns == s.cols && r.da.seglines == s.lines, "segment size"); msym_assert(r.da.lines == (size_t)s.lines * s.end, "image lines"); msym_assert(r.da.npixperseg == (size_t)s.cols * s.lines, "segment pixels");
    msym_assert(!r.da.hrv, "not HRV"); msym_assert(r.da.swapX == (s.cfac < 0) && r.da.swapY == (s.lfac < 0), "images scanned backwards are recognised by negative scaling factors"); msym_reach("scanned");
}
ENTRY(scan_hrv)
{
    static unsigned char E[380325]; memset(E, '0', sizeof E); E[0] = 0; unsigned char z[1] = {0}; pe_file(0, "MET5________", z, 1);
    // version octet, satellite, scanning summary, radiometer behaviour, reception statistics, image validity, VIS/IR coverage
    const size_t at = 1 + 2 + 14 + 12 + 192 + 72 + 16; msym_make_symbolic(E + at, 32, "coverage"); for (int i = 0; i < 8; ++i) msym_assume(E[at + 4 * i] < 0x7f);
    pe_file(1, "MSG1________", E, sizeof E); Seg s; s.chan = 12; s.end = 24; seg_file(seg_name(1), s, z, 1);
    Scanned r; msym_assert(r.ok, "an HRV product is accepted"); msym_assert(r.da.hrv, "HRV is recognised");
    uint32_t v[8]; for (int i = 0; i < 8; ++i) v[i] = be32(E + at + 4 * i); // lower S N E W, upper S N E W
    msym_assert(r.da.LowerSouthLineActual == v[0] && r.da.LowerNorthLineActual == v[1] && r.da.LowerEastColumnActual == v[2] && r.da.LowerWestColumnActual == v[3], "lower HRV window");
    msym_assert(r.da.UpperSouthLineActual == v[4] && r.da.UpperNorthLineActual == v[5] && r.da.UpperEastColumnActual == v[6] && r.da.UpperWestColumnActual == v[7], "upper HRV window");
    msym_assert(r.da.MaxLineActual == (v[1] > v[5] ? v[1] : v[5]), "northernmost line of either window"); msym_reach("hrv");
}
// products that cannot be assembled are refused
ENTRY(scan_refused)
{
    no_prologue(); unsigned k = pick("k", 0, 7); Seg s; unsigned char d[1] = {0};
    switch (k) {
        case 0: s.skip = 1; break; case 1: s.skip = 2; break; case 2: s.skip = 4; break; case 3: s.fmt = 0; break; case 4: s.lines = 0; break; case 5: s.seq = 0; break;
        case 6: s.chan = 12; break; // HRV without an epilogue
        case 7: break; }
    if (k == 7) { auto f = seg_bytes(s, d, 1); msym_file(seg_name(1).c_str(), f.data(), pick("cut", 0, 80)); }
    else { seg_file(seg_name(1), s, d, 1); if (pick("also", 0, 1)) { Seg g; g.seq = 2; if (k == 6) g.chan = 12; if (k == 4 || k == 5 || k < 2) { g = s; } seg_file(seg_name(k == 2 || k == 3 ? 0 : 2), g, d, 1); } }
    Scanned r; msym_assert(!r.ok, "a product that cannot be assembled is refused"); msym_reach("refused");
}
// column where an HRV line starts
ENTRY(line_start)
{
    DataAccess da; da.hrv = msym_concretize(msym_range("hrv", 0, 1)); da.WestColumnActual = 1;
    uint64_t v[8]; static const char* const nm[] = {"ls", "ln", "le", "lw", "us", "un", "ue", "uw"}; for (int i = 0; i < 8; ++i) v[i] = msym_range(nm[i], 0, 11136);
    msym_assume((v[0] <= v[1]) & (v[1] < v[4]) & (v[4] <= v[5])); // the lower window lies south of the upper one
    da.LowerSouthLineActual = v[0]; da.LowerNorthLineActual = v[1]; da.LowerEastColumnActual = v[2]; da.LowerWestColumnActual = v[3]; da.UpperSouthLineActual = v[4]; da.UpperNorthLineActual = v[5]; da.UpperEastColumnActual = v[6]; da.UpperWestColumnActual = v[7];
    da.MaxLineActual = v[5]; size_t line = msym_range("line", 0, 20000), got = da.line_start(line);
    if (!da.hrv) { msym_assert(got == 0, "normal channels start at the first column"); return; }
    uint64_t grid = v[5] - line; uint64_t want = 0;
    if (line < v[5]) { if (grid >= v[0] && grid <= v[1]) { want = 11136 - v[3]; msym_reach("lower"); } else if (grid >= v[4] && grid <= v[5]) { want = 11136 - v[7]; msym_reach("upper"); } }
    msym_assert(got == want, "an HRV line starts at the west column of its window"); msym_assert(got <= 11136, "start lies within the image");
}
// rapid scan: only the lower window is used
ENTRY(line_start_rss)
{
    DataAccess da; da.hrv = true; uint64_t s = msym_range("ls", 1, 11136), n = msym_range("ln", 1, 11136), w = msym_range("lw", 0, 11136); msym_assume(s <= n);
    da.LowerSouthLineActual = s; da.LowerNorthLineActual = n; da.LowerWestColumnActual = w; da.LowerEastColumnActual = 1; da.UpperSouthLineActual = da.UpperNorthLineActual = da.UpperWestColumnActual = da.UpperEastColumnActual = 0; da.MaxLineActual = n;
    size_t line = msym_range("line", 0, 20000); size_t got = da.line_start(line); uint64_t grid = n - line; msym_assert(got == (line < n && grid >= s ? 11136 - w : 0), "a rapid scan line starts at the west column of its window");
}
// what sample column c of grid line g (0 southernmost... first scanned) holds: segment data starts with octet b[seg]
struct Image { unsigned cols, slines, nseg; unsigned char b[32]; int have[32]; };
static int32_t sample(const Image& im, int64_t g, unsigned c, int swap)
{
    if (g < 0) return 0; uint64_t seg = (uint64_t)g / im.slines, l = (uint64_t)g % im.slines;
    if (seg >= im.nseg || !im.have[seg]) return 0; unsigned x = swap ? im.cols - 1 - c : c;
    return (uint16_t)(im.b[seg] + 3 * (l * im.cols + x));
}
static void files(Image& im, unsigned chan, int swap, unsigned flag = 1)
{
    Seg s; s.cols = im.cols; s.lines = im.slines; s.chan = chan; s.end = im.nseg; s.cfac = swap ? -13642337 : 13642337; s.flag = flag;
    for (unsigned i = 0; i < im.nseg; ++i) { char nm[4] = "b0"; nm[1] = (char)('0' + i % 10), nm[2] = i > 9 ? (char)('0' + i / 10) : 0; im.b[i] = msym_u8(nm); if (!im.have[i]) continue; s.seq = i + 1; seg_file(seg_name(i + 1), s, &im.b[i], 1); }
}
static void read_check(DataAccess& da, const Image& im, int64_t g, size_t line, int swap, const char* what)
{
    MSG_SAMPLE* buf = new MSG_SAMPLE[im.cols]; for (unsigned i = 0; i < im.cols; ++i) buf[i] = 0xdead;
    da.line_read(line, buf); for (unsigned c = 0; c < im.cols; ++c) msym_assert(buf[c] == sample(im, g, c, swap), what); delete[] buf;
}
// normal channels: line 0 is the northernmost, the last one scanned
ENTRY(lines_normal)
{
    no_prologue(); int swap = (int)pick("swap", 0, 1); Image im; im.cols = 3; im.slines = 464; im.nseg = 8; unsigned miss = pick("missing", 0, 3);
    for (unsigned i = 0; i < 8; ++i) im.have[i] = miss == 0 || (miss == 1 && i != 3) || (miss == 2 && i >= 5) || (miss == 3 && i < 2); // complete, a gap, rapid scan, cut short
    files(im, 9, swap); Scanned r; msym_assert(r.ok, "accepted");
    static const unsigned at[] = {0, 1, 231, 463}; size_t line = (size_t)pick("seg", 0, 7) * 464 + at[pick("at", 0, 3)];
    read_check(r.da, im, 3711 - (int64_t)line, line, swap, "samples of a line, west to east, zero where missing"); if (miss == 0) msym_reach("complete");
}
ENTRY(lines_small)
{
    // any segment height: every line of the image belongs to exactly one segment line
    no_prologue(); Image im; im.cols = pick("cols", 1, 3); im.slines = pick("height", 1, THOROUGH ? 9 : 5); im.nseg = 3; im.have[0] = 1; im.have[1] = (int)pick("middle", 0, 1); im.have[2] = 1;
    int swap = (int)pick("swap", 0, 1); files(im, 4, swap); Scanned r; msym_assert(r.ok, "accepted"); size_t line = 3711 - pick("up", 0, 3 * im.slines + 1);
    read_check(r.da, im, 3711 - (int64_t)line, line, swap, "samples of a line");
}
ENTRY(lines_outside)
{
    no_prologue(); Image im; im.cols = 2; im.slines = 4; im.nseg = 2; im.have[0] = im.have[1] = 1; files(im, 9, 1); Scanned r; static const size_t L[] = {3712, 3713, 5000, 11136}; size_t line = L[pick("line", 0, 3)];
    MSG_SAMPLE buf[2] = {7, 7}; r.da.line_read(line, buf); msym_assert(buf[0] == 0 && buf[1] == 0, "lines beyond the image are empty");
}
ENTRY(lines_hrv)
{
    int swap = (int)pick("swap", 0, 1); Image im; im.cols = 3; im.slines = 4; im.nseg = 3; for (unsigned i = 0; i < 3; ++i) im.have[i] = (int)(i == 1 ? pick("middle", 0, 1) : 1);
    files(im, 12, swap); DataAccess da; da.hrv = true; da.columns = 3; da.seglines = 4; da.npixperseg = 12; da.swapX = swap; da.swapY = true; da.MaxLineActual = pick("max", 9, 13);
    for (unsigned i = 0; i < 3; ++i) da.segnames.push_back(im.have[i] ? seg_name(i + 1) : std::string());
    size_t line = pick("line", 0, 15); read_check(da, im, (int64_t)da.MaxLineActual - (int64_t)line - 1, line, swap, "samples of an HRV line");
}
// images as large as they come: 24 segments, 5568 columns or 464 lines to a segment, any of them missing
static void scale(unsigned hrv)
{
    int swap = (int)pick("swap", 0, 1); Image im; im.nseg = hrv ? 24 : 8; unsigned wide = pick("wide", 0, 1); im.cols = wide ? (hrv ? 5568 : 3712) : 3; im.slines = wide ? 2 : 464;
    static const unsigned SEGS[] = {0, 9, 10, 15, 16, 23}; unsigned seg = hrv ? SEGS[pick("segment", 0, 5)] : 7, miss = pick("missing", 0, 1); for (unsigned i = 0; i < im.nseg; ++i) im.have[i] = !miss || i == seg || i % 3 == 1;
    if (hrv) { static unsigned char E[380325]; memset(E, '0', sizeof E); E[0] = 0; unsigned char z[1] = {0}; pe_file(0, "MET5________", z, 1); const size_t at = 1 + 2 + 14 + 12 + 192 + 72 + 16; const uint32_t v[8] = {1, 20, 1, 5568, 21, im.nseg * im.slines, 3001, 8568}; for (int i = 0; i < 8; ++i) put32(E + at + 4 * i, v[i]); pe_file(1, "MSG1________", E, sizeof E); } else no_prologue();
    files(im, hrv ? 12 : 4, swap); Scanned r; msym_assert(r.ok, "accepted"); msym_assert(r.da.columns == im.cols && r.da.seglines == im.slines && r.da.segnames.size() == (im.have[im.nseg - 1] ? im.nseg : 23), "size");
    int64_t g = (int64_t)seg * im.slines + (pick("last", 0, 1) ? im.slines - 1 : im.slines / 2); size_t line = (size_t)((hrv ? (int64_t)im.nseg * im.slines - 1 : 3711) - g); unsigned turns = pick("turns", 0, 1);
    for (unsigned t = 0; t <= turns; ++t) { MSG_SAMPLE* buf = new MSG_SAMPLE[im.cols]; r.da.line_read(line, buf); int ok = 1; for (unsigned c = 0; c < im.cols; ++c) ok &= buf[c] == sample(im, g, c, swap); msym_assert(ok, "every sample of a line"); delete[] buf; if (t < turns) { g = 1; line = (size_t)((hrv ? (int64_t)im.nseg * im.slines - 1 : 3711) - g); } }
    msym_reach("read");
}
ENTRY(scale_normal) { scale(0); }
ENTRY(scale_hrv) { scale(1); }
// any sequence of reads gives what each read gives on its own
ENTRY(read_sequences)
{
    no_prologue(); Image im; im.cols = 2; im.slines = 2; im.nseg = 4; im.have[0] = im.have[1] = im.have[3] = 1; im.have[2] = 0; files(im, 9, 0); Scanned r; msym_assert(r.ok, "accepted");
    unsigned n = THOROUGH ? 5 : 4; for (unsigned i = 0; i < n; ++i) { char nm[4] = "s0"; nm[1] = (char)('0' + i); unsigned g = 2 * pick(nm, 0, 3) + (i & 1); read_check(r.da, im, g, 3711 - g, 0, "a read does not depend on the reads before it"); }
    msym_reach("sequence");
}
// a segment that cannot be read is reported each time and disturbs no other
ENTRY(read_faults)
{
    no_prologue(); Image im; im.cols = 2; im.slines = 2; im.nseg = 3; im.have[0] = im.have[1] = im.have[2] = 1; files(im, 9, 0); Scanned r; msym_assert(r.ok, "accepted");
    unsigned k = pick("k", 0, 4); Seg s; s.cols = 2; s.lines = 2; s.seq = 2; unsigned char d[2] = {1, 2};
    switch (k) { case 0: s.cols = 1; break; case 1: s.lines = 1; break; case 2: s.type = 130; break; case 3: s.fmt = 0; break; case 4: break; }
    if (k == 4) { auto f = seg_bytes(s, d, 1); msym_file(seg_name(2).c_str(), f.data(), f.size() - 1); } else seg_file(seg_name(2), s, d, 1);
    for (unsigned i = 0; i < 4; ++i) { char nm[4] = "s0"; nm[1] = (char)('0' + i); unsigned seg = pick(nm, 0, 2); if (seg != 1) { read_check(r.da, im, 2 * seg, 3711 - 2 * seg, 0, "other segments are unaffected"); continue; }
        MSG_SAMPLE buf[2]; int threw = 0; try { r.da.line_read(3711 - 2, buf); } catch (std::runtime_error&) { threw = 1; } msym_assert(threw, "a damaged segment is reported"); msym_reach("reported"); }
}
// uncompressed segments are only used if they hold two octets for every sample
ENTRY(uncompressed_size)
{
    no_prologue(); Seg s; s.cols = 2; s.lines = 2; s.flag = 0; s.fmt = 1; unsigned n = pick("n", 0, 9); unsigned char* d = sym_buf(n + 1, "d"); seg_file(seg_name(1), s, d, n); Scanned r; msym_assert(r.ok, "accepted");
    MSG_SAMPLE buf[2]; int threw = 0; try { r.da.line_read(3711 - 1, buf); } catch (std::runtime_error&) { threw = 1; } msym_assert(threw == (n < 8), "a segment is refused exactly if it holds fewer samples than its image"); delete[] d;
}
