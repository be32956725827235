// MSG native (U-MARF) files: packet and line headers, 10 bit samples, product header and trailer, image assembly, bad files.
#include "nfiles.h"
#include <msat/msg-native/MSG_native.h>
#include <stdexcept>
static void d_packet(IMPF_Packet_Header& p)
{
    auto& h = p.gp_packet_header; F(u1, h.HeaderVersionNo); F(u1, h.PacketType); F(u1, h.SubHeaderType); F(u1, h.SourceFacilityId); F(u1, h.SourceEnvId); F(u1, h.SourceInstanceId); F(u4, (uint32_t)h.SourceSUId); FA(u1, 4, h.SourceCPUId[i]); F(u1, h.DestFacilityId); F(u1, h.DestEnvId); F(u2, h.SequenceCount); F(u4, (uint32_t)h.PacketLength);
    auto& s = p.gp_packet_subheader; F(u1, s.SubHeaderVersionNo); F(u1, s.ChecksumFlag); FA(u1, 4, s.Acknowledgement[i]); F(u1, s.ServiceType); F(u1, s.ServiceSubtype); F(cds6, s.PacketTime); F(u2, s.SpacecraftId);
}
static void d_line(MSG_native_lineheader& l)
{
    F(u1, l.LINE1_5Version); F(u2, l.SatelliteId); F(cds10, l.TrueRepeatCycleStart); F(u4, (uint32_t)l.LineNumberInGrid); F(u1, l.ChannelId); F(cds6, l.L10LineMeanAcquisitionTime); F(u1, l.LineValidity.value); F(u1, l.LineRadiometricQuality.value); F(u1, l.LineGeometricQuality.value);
}
ENTRY(packet_header) { unsigned char* b = sym_buf(38, "b"); IMPF_Packet_Header p; p.read_from(b); c = b; d_packet(p); msym_assert(c == b + 38, "packet header size"); delete[] b; }
ENTRY(line_header) { unsigned char* b = sym_buf(27, "b"); MSG_native_lineheader l; l.read_from(b); c = b; d_line(l); msym_assert(c == b + 27 && l.lhlen == 27, "line header size"); delete[] b; }
// samples of a line of any number of octets, into a new buffer or one of exactly that many samples
ENTRY(samples)
{
    unsigned n = pick("n", 0, THOROUGH ? 40 : 17), own = pick("own", 0, 1); MSG_native_linedata d; d.datasize = n; d.data_10bit = sym_buf(n, "d"); unsigned want = 8 * n / 10; unsigned short* s = own ? new unsigned short[want] : 0; long ns = -1; d.to_sample(&s, &ns);
    msym_assert(ns == (long)want, "one sample per ten bits"); for (unsigned i = 0; i < want; ++i) msym_assert(s[i] == bits10(d.data_10bit, i), "sample"); delete[] s;
    MSG_native_linedata e(d), g; g = d; msym_assert(e.datasize == n && g.datasize == n && (n == 0 || (e.data_10bit != d.data_10bit && g.data_10bit != e.data_10bit)) && eqbytes(e.data_10bit, d.data_10bit, n) && eqbytes(g.data_10bit, d.data_10bit, n), "a copy has its own samples"); e = e; msym_assert(e.datasize == n && eqbytes(e.data_10bit, d.data_10bit, n), "self assignment");
}
// ---- the text header
ENTRY(text_fields)
{
    unsigned char* b = new unsigned char[5114]; memset(b, 'a', 5114); unsigned k = pick("field", 0, 47), w = k >= 6 && k < 11 ? 62 : 80, nul = pick("nul", 0, 3), at = nul == 0 ? 1000 : nul == 1 ? 0 : nul == 2 ? 5 : 45; unsigned char* f = b + t_off(k);
    if (at < w) f[at] = 0; std::string want; for (unsigned i = 0; i < 3; ++i) { unsigned o = i == 0 ? 2 : i == 1 ? 40 : w - 1; char ch = (char)msym_u8("ch"); msym_assume(ch != 0); if (o != at) f[o] = (unsigned char)ch; }
    if (w == 80) want.assign((char*)f, at < 80 ? at : 80); else { want.assign((char*)f, at < 46 ? at : 46); want.append((char*)f + 46, 16); }
    if (k > 0) b[t_off(k - 1) + 10] = 'z'; U_MARF_Header h; h.read_from(b); msym_assert(eqstr(h.mphinfo[k], want), "a text field is the text of its own octets"); delete[] b;
}
// ---- level 1.5 header and trailer packets
ENTRY(file_header)
{
    static unsigned char f[5114 + 38 + 445248]; memset(f, ' ', 5114); unsigned char *q = f + 5114, *p = q + 38 + 1; msym_make_symbolic(q, 18, "pkt"); msym_make_symbolic(q + 22, 16, "pkt"); put32(q + 18, 445248 + 15);
    static const int recs[] = {1, 3, 5, 6}; int k = recs[pick("window", 0, 3)]; msym_make_symbolic(p + PSTART[k], PSTART[k + 1] - PSTART[k], "rec"); l15_windows(p); p[0] = 1; p[1] = 0x41; msym_file("n.nat", f, sizeof f);
    MSG_native_header h; { std::ifstream in("n.nat", std::ios::binary); h.read(in); msym_assert((size_t)in.tellg() == sizeof f, "the header is consumed"); } c = q; d_packet(h.impf_packet_header); c = p + PSTART[k];
    switch (k) { case 1: d_acquisition(h.l15.image_acquisition); break; case 3: d_description(h.l15.image_description); break; case 5: d_geometric(h.l15.geometric_proc); break; case 6: d_impf(h.l15.IMPF_config); break; }
    c = p; F(u2, (unsigned)h.l15.sat_status.SatelliteDefinition.SatelliteId); c = p + PSTART[2] + 12; F(gtime, h.l15.celestial_events.CelestialBodiesPosition.Ephemeris.RelatedOrbitFileTime); c = p + PSTART[4] + 72; F(r8, h.l15.radiometric_proc.ImageCalibration[0].Cal_Slope); msym_reach("header");
}
ENTRY(file_trailer)
{
    static unsigned char f[38 + EPI]; static const size_t S[6] = {1, 341, 6021, 377277, 380193, 380325}; int k = (int)pick("window", 0, 4); unsigned char* p = f + 38; if (k == 2) { msym_make_symbolic(p + S[2], 6188, "rec"); msym_make_symbolic(p + S[3] - 5112, 5112, "rec"); } else msym_make_symbolic(p + S[k], S[k + 1] - S[k], "rec");
    msym_make_symbolic(f, 18, "pkt"); put32(f + 18, EPI + 15); msym_file("t.nat", f, sizeof f); MSG_native_trailer t; { std::ifstream in("t.nat", std::ios::binary); t.read(in); msym_assert((size_t)in.tellg() == sizeof f, "the trailer is consumed"); } c = f; d_packet(t.impf_packet_header); c = p + S[k];
    switch (k) { case 0: d_prodstats(t.l15.product_stats); break; case 1: d_navig(t.l15.navig_result); break; case 2: d_radqlty(t.l15.radiometric_qlty); break; case 3: d_geoqlty(t.l15.geometric_qlty); break; case 4: d_timelin(t.l15.timelin_comple); break; } msym_reach("trailer");
}
ENTRY(packet_lengths)
{
    static unsigned char f[5114 + 38 + 445248]; memset(f, ' ', 5114); unsigned tr = pick("trailer", 0, 1); uint32_t len = msym_u32("len"); unsigned char* q = tr ? f : f + 5114; put32(q + 18, len); if (!tr) { l15_windows(q + 39); } size_t need = tr ? 38 + EPI : sizeof f, cut = pick("cut", 0, 4); static const size_t CUT[] = {0, 1, 100, 5000, 400000}; size_t n = need > CUT[cut] ? need - CUT[cut] : 0;
    msym_file("p.nat", f, n); int ok = 1; std::ifstream in("p.nat", std::ios::binary); try { if (tr) { MSG_native_trailer t; t.read(in); } else { MSG_native_header h; h.read(in); } } catch (std::exception&) { ok = 0; }
    msym_assert(ok == (cut == 0 && len == (tr ? EPI : 445248) + 15), "a header or trailer of any other length, or incomplete, is refused"); if (ok) msym_reach("accepted"); else msym_reach("refused");
}
// ---- a line packet
ENTRY(line_packet)
{
    unsigned n = pick("n", 0, 6); unsigned char d[6]; msym_make_symbolic(d, n, "d"); std::vector<unsigned char> f; unsigned k = pick("len", 0, 6); static const int EX[] = {0, 1, -1, 7, -42, -43, 0}; int64_t len = 42 + (int64_t)n + EX[k]; if (k == 4) len = 42; if (k == 5) len = pick("short", 0, 41); unsigned cut = k == 6 ? pick("cut", 0, 70) : 0; if (len < 0) return; put_line(f, d, n, (uint32_t)len, 7, 99); size_t have = f.size() > cut ? f.size() - cut : 0;
    msym_file("l.nat", f.data(), have); MSG_native_line l; int ok = 1; std::ifstream in("l.nat", std::ios::binary); try { l.read(in); } catch (std::exception&) { ok = 0; } size_t size = len >= 42 ? (size_t)(len - 42) : 0;
    msym_assert(ok == (len >= 42 && have >= 65 + size), "a line packet is read if it is there completely"); if (!ok) { msym_reach("refused"); return; } msym_assert(l.data.datasize == size && eqbytes(l.data.data_10bit, d, size) && l.header.LineNumberInGrid == 99 && l.header.ChannelId == 7 && l.pkh.gp_packet_header.PacketLength == (unsigned long)len, "line"); msym_assert((size_t)in.tellg() == 65 + size, "the next packet follows"); msym_reach("line");
}
// ---- whole products
static void check_image(MSG_native& m, const Product& p, int ch)
{
    unsigned short* s = m.data(ch); if (!selected(p.sel, ch)) { msym_assert(!s && m.lines(ch) == 0 && m.pixels(ch) == 0, "nothing for a channel that is not there"); return; }
    int L = ch == 11 ? p.hlines : p.lines, C = ch == 11 ? p.hcols : p.cols; msym_assert(s && m.lines(ch) == L && m.pixels(ch) == C, "image size"); for (int y = 0; y < L; ++y) for (int x = 0; x < C; ++x) { unsigned v = 0; if (y < (int)samples_of[ch].size() && x < (int)(samples_of[ch][y].size() * 8 / 10)) v = bits10(samples_of[ch][y].data(), x); msym_assert(s[y * C + x] == v, "each line's samples at its place, zero where there is none"); } delete[] s;
}
ENTRY(product)
{
    Product p; static const char* const SEL[] = {"XXXXXXXXXXXX", "X----------X", "---X-----X--", "-----------X", "------------"}; p.sel = SEL[pick("bands", 0, 4)]; p.trailer_first = pick("order", 0, 1); p.lines = p.sel[1] == 'X' ? 1 : 2; p.hlines = 3 * p.lines; write_product(p);
    char name[] = "product.nat"; MSG_native m; msym_assert(m.open(name), "the file is opened"); m.read(); for (int ch = 0; ch < 12; ++ch) { check_image(m, p, ch); msym_assert(m.line[ch].size() == samples_of[ch].size(), "all lines are kept"); int k = 0; for (auto& l : m.line[ch]) { msym_assert(l.header.ChannelId == ch + 1 && l.header.LineNumberInGrid == (unsigned)(k / (ch == 11 ? 3 : 1) + 1), "in order"); ++k; } }
    msym_assert(!m.data(-1) && !m.data(12) && m.lines(12) == 0 && m.lines(-1) == 0 && m.pixels(12) == 0 && m.pixels(-1) == 0, "no other channels"); m.close(); msym_assert(!m.data(0) && m.lines(3) == 0 && m.line[11].empty(), "nothing is left after closing"); msym_reach("product");
}
// what the text header says and what the lines hold need not agree
ENTRY(product_sizes)
{
    Product p; p.sel = pick("hrv", 0, 1) ? "-----------X" : "--X---------"; p.lines = 2; static const unsigned COLS[] = {4, 0, 3, 6, 1}, OCT[] = {5, 4, 0, 7, 1}; int hrv = p.sel[0] == '-' && p.sel[2] == '-'; p.cols = (int)COLS[pick("cols", 0, THOROUGH ? 4 : 3)]; p.octets = OCT[pick("octets", 0, THOROUGH ? 4 : 3)]; p.hcols = p.cols; p.hoctets = p.octets; p.hlines = hrv ? 4 + 4 * (int)pick("hlines", 0, 1) : 6; write_product(p); char name[] = "product.nat"; MSG_native m; m.open(name); m.read(); check_image(m, p, 2); check_image(m, p, 11); msym_reach("product");
}
ENTRY(product_dump)
{
    Product p; p.sel = "-X----------"; p.octets = 5; p.cols = 4; p.lines = 2; write_product(p); char name[] = "product.nat", out[] = "out.pgm", none[] = "none.pgm"; MSG_native m; m.open(name); m.read(); msym_assert(!m.pgmdump(0, none) && !m.pgmdump(-1, none) && !m.pgmdump(12, none) && msym_file_get(none, 0, 0) < 0, "no dump of other channels"); msym_assert(m.pgmdump(1, out), "dump");
    static unsigned char b[20000]; long n = msym_file_get(out, b, sizeof b); static const char end[] = "4 2\n1024\n"; msym_assert(n > 25 && n < (long)sizeof b && !memcmp(b, "P5\n# ", 5) && !memcmp(b + n - 16 - 9, end, 9), "a grey map of the image's size"); for (unsigned i = 0; i < 8; ++i) { unsigned short v; memcpy(&v, b + n - 16 + 2 * i, 2); msym_assert(v == bits10(samples_of[1][i / 4].data(), i % 4), "its samples"); }
}
// images as large as they come
ENTRY(product_full)
{
    Product p; p.plain = 1; unsigned k = pick("k", 0, 3); p.sel = k == 1 ? "-----------X" : "X--X--------"; if (k < 2) { p.cols = 3712; p.octets = 4640; p.hcols = 5568; p.hoctets = 6960; p.lines = 2; } else if (k == 2) p.lines = 300; else { p.cols = 1031; p.octets = 1289; p.lines = 17; } p.hlines = 3 * p.lines; write_product(p); char name[] = "product.nat"; MSG_native m; msym_assert(m.open(name), "the file is opened"); m.read(); for (int ch = 0; ch < 12; ++ch) { check_image(m, p, ch); msym_assert(m.line[ch].size() == samples_of[ch].size(), "all lines are kept"); } msym_reach("full");
}
ENTRY(product_broken)
{
    Product p; p.sel = "-X----------"; unsigned k = pick("k", 0, 15); static const struct { int i; const char* t; } BAD[] = {{8, ""}, {9, ""}, {10, ""}, {39, ""}, {39, "SelectedBandIDs : "}, {40, "x"}, {41, "NorthLine : north"}, {42, ""}, {43, ""}, {44, "NumberLines :"}, {44, "NumberLines : -3"}, {45, ""}, {45, "NumberColumns : -1"}, {44, "NumberLines : 3000000000"}};
    if (k < 14) { p.bad = BAD[k].i; p.bad_text = BAD[k].t; } if (k == 14) p.drop_lines = 1; if (k == 15) { p.bad = 10; p.bad_text = "15Trailer : 380363 999999999"; } if (k >= 14) p.trailer_first = 1; write_product(p); char name[] = "product.nat"; MSG_native m; m.open(name); int ok = 1; try { m.read(); } catch (std::exception&) { ok = 0; } msym_assert(!ok, "an incomplete text header or product is refused"); msym_reach("refused");
}
ENTRY(product_bands)
{
    Product p; static const char* const SEL[] = {"-X-----------------XXXX", "X", "-X----------XXX", "XXXXXXXXXXXXXXXXXXXXXXXXXXXXXX"}; unsigned k = pick("k", 0, 3); p.lines = 1; p.hlines = 3; p.sel = SEL[k]; write_product(p); char name[] = "product.nat"; MSG_native m; m.open(name); m.read(); for (int ch = 0; ch < 12; ++ch) check_image(m, p, ch);
}
ENTRY(no_file) { MSG_native m; char n[] = "missing.nat"; msym_assert(!m.open(n), "a file that is not there"); }
