// HRIT/LRIT file headers: every record decodes from its documented position, in any order.
#include "h.h"
#include <msat/hrit/MSG_header.h>
#include <fstream>
#include <stdexcept>

static unsigned char F[200000]; static size_t N;
static void begin() { N = 16; }
static size_t finish(unsigned type, uint64_t bits)
{
    F[0] = 0; put16(F + 1, 16); F[3] = (unsigned char)type; put32(F + 4, (uint32_t)N); put64(F + 8, bits);
    return N;
}
static unsigned char* rec(unsigned type, unsigned len)
{
    unsigned char* p = F + N; N += len; p[0] = (unsigned char)type; put16(p + 1, len); return p;
}
enum { R_STRUCT, R_NAVIG, R_FUNC, R_ANN, R_TIME, R_TEXT, R_KEY, R_SEG, R_QUAL, R_COUNT };
struct Rec { int kind; unsigned char* p; unsigned len; unsigned nlines; };
static const char* const NAV[] = {"GEOS(+000.0)                    ", "GEOS(-003.4)                    ", "GEOS(9.5)                       "};
static const float LON[] = {0.0f, -3.4f, 9.5f};
static unsigned navk;
// one record of the given kind with symbolic payload
static Rec add(int kind, unsigned nlines = 0, unsigned textlen = 5)
{
    Rec r; r.kind = kind; r.nlines = nlines; r.p = nullptr; r.len = 0;
    switch (kind) {
        case R_STRUCT: r.len = 9; r.p = rec(1, 9); msym_make_symbolic(r.p + 3, 6, "struct"); msym_assume(r.p[3] <= 64); break;
        case R_NAVIG: r.len = 51; r.p = rec(2, 51); memcpy(r.p + 3, NAV[navk], 32); msym_make_symbolic(r.p + 35, 16, "navig"); break;
        case R_FUNC: r.len = 3 + textlen; r.p = rec(3, r.len); msym_make_symbolic(r.p + 3, textlen, "func"); for (unsigned i = 0; i < textlen; ++i) msym_assume(r.p[3 + i] != 0); break;
        case R_ANN: r.len = 64; r.p = rec(4, 64); msym_make_symbolic(r.p + 3, 61, "ann"); for (unsigned i = 0; i < 61; ++i) msym_assume(r.p[3 + i] != 0); break;
        case R_TIME: r.len = 10; r.p = rec(5, 10); msym_make_symbolic(r.p + 3, 7, "time"); break;
        case R_TEXT: r.len = 3 + textlen; r.p = rec(6, r.len); msym_make_symbolic(r.p + 3, textlen, "text"); for (unsigned i = 0; i < textlen; ++i) msym_assume(r.p[3 + i] != 0); break;
        case R_KEY: r.len = 12; r.p = rec(7, 12); msym_make_symbolic(r.p + 3, 9, "key"); break;
        case R_SEG: r.len = 13; r.p = rec(128, 13); msym_make_symbolic(r.p + 3, 10, "seg"); break;
        case R_QUAL: r.len = 3 + 13 * nlines; r.p = rec(129, r.len); if (nlines) msym_make_symbolic(r.p + 3, 13 * nlines, "qual"); break;
    }
    return r;
}
static void check(const MSG_header& h, const Rec& r)
{
    const unsigned char* p = r.p;
    switch (r.kind) {
        case R_STRUCT: {
            msym_assert(h.image_structure != 0, "image structure record is available");
            auto& s = *h.image_structure;
            uint64_t px = (uint64_t)be16(p + 4) * be16(p + 6);
            msym_assert(s.number_of_bits_per_pixel == p[3], "bits per pixel");
            msym_assert(s.number_of_columns == be16(p + 4), "columns"); msym_assert(s.number_of_lines == be16(p + 6), "lines");
            msym_assert((unsigned)s.compression_flag == p[8], "compression flag");
            msym_assert(s.image_pixels == px, "image pixels is columns times lines");
            msym_assert(s.image_size == (px * p[3] + 7) / 8, "image size is the number of octets holding the pixels");
            break; }
        case R_NAVIG: {
            msym_assert(h.image_navigation != 0, "image navigation record is available");
            auto& s = *h.image_navigation;
            msym_assert(s.CFAC == (int32_t)be32(p + 35) && s.column_scaling_factor == s.CFAC, "column scaling factor");
            msym_assert(s.LFAC == (int32_t)be32(p + 39) && s.line_scaling_factor == s.LFAC, "line scaling factor");
            msym_assert(s.COFF == (int32_t)be32(p + 43) && s.column_offset == s.COFF, "column offset");
            msym_assert(s.LOFF == (int32_t)be32(p + 47) && s.line_offset == s.LOFF, "line offset");
            msym_assert(s.subsatellite_longitude == LON[navk], "sub-satellite longitude");
            msym_assert(s.get_projection_code() == MSG_PROJECTION_GEOS, "projection is geostationary");
            break; }
        case R_FUNC:
            msym_assert(h.image_data_function != 0, "data function record is available");
            msym_assert(eqstr(h.image_data_function->data_definition_block, std::string((const char*)p + 3, r.len - 3)), "data definition text");
            break;
        case R_ANN: {
            msym_assert(h.annotation != 0, "annotation record is available");
            auto& s = *h.annotation; std::string a((const char*)p + 3, 61);
            // L-000-MSG1__-MSG1________-IR_108___-000003___-200507010000-CE
            msym_assert(eqstr(s.annotation, a), "annotation text");
            msym_assert(eqstr(s.xrit_channel_id, a.substr(0, 1)), "xRIT channel"); msym_assert(eqstr(s.annotation_version, a.substr(2, 3)), "annotation version");
            msym_assert(eqstr(s.disseminating_s_c, a.substr(6, 6)), "disseminating spacecraft"); msym_assert(eqstr(s.product_id_1, a.substr(13, 12)), "product id 1");
            msym_assert(eqstr(s.product_id_2, a.substr(26, 9)), "product id 2"); msym_assert(eqstr(s.product_id_3, a.substr(36, 9)), "product id 3");
            msym_assert(eqstr(s.product_id_4, a.substr(46, 12)), "product id 4"); msym_assert(eqstr(s.flags, a.substr(59, 2)), "flags");
            break; }
        case R_TIME:
            msym_assert(h.timestamp != 0, "timestamp record is available");
            msym_assert(h.timestamp->get_day_from_epoch() == be16(p + 4), "timestamp day"); msym_assert(h.timestamp->get_msec_in_day() == be32(p + 6), "timestamp milliseconds");
            msym_assert(h.timestamp->get_unixtime() == -378691200L + 86400L * be16(p + 4) + be32(p + 6) / 1000, "timestamp instant");
            break;
        case R_TEXT:
            msym_assert(h.ancillary_text != 0, "ancillary text record is available");
            msym_assert(eqbytes(h.ancillary_text->ancillary_text, p + 3, r.len - 3), "ancillary text");
            break;
        case R_KEY: {
            msym_assert(h.key != 0, "key record is available");
            auto& s = *h.key; unsigned k = p[3];
            msym_assert(s.key_number == k, "key number"); msym_assert(s.seed == be64(p + 4), "key seed");
            msym_assert(s.is_key_group_1() == ((k >= 64) & (k < 128)), "key group 1"); msym_assert(s.is_key_group_2() == (k >= 192), "key group 2");
            msym_assert(s.is_key_reserved() == !(((k >= 64) & (k < 128)) | (k >= 192)), "reserved key");
            break; }
        case R_SEG: {
            msym_assert(h.segment_id != 0, "segment identification record is available");
            auto& s = *h.segment_id;
            msym_assert((unsigned)s.spacecraft_id == be16(p + 3), "spacecraft"); msym_assert(s.spectral_channel_id == p[5], "spectral channel");
            msym_assert(s.sequence_number == be16(p + 6), "segment sequence number");
            msym_assert(s.planned_start_segment_sequence_number == be16(p + 8), "first planned segment"); msym_assert(s.planned_end_segment_sequence_number == be16(p + 10), "last planned segment");
            msym_assert((unsigned)s.data_field_format == p[12], "data field format");
            break; }
        case R_QUAL: {
            msym_assert(h.segment_quality != 0, "line quality record is available");
            auto& s = *h.segment_quality;
            msym_assert(s.nlines == (int)r.nlines, "one quality entry per line");
            for (unsigned i = 0; i < r.nlines; ++i) {
                const unsigned char* q = p + 3 + 13 * i; auto& l = s.lq[i];
                msym_assert(l.line_number_in_grid == (int32_t)be32(q), "quality: line number");
                msym_assert(l.line_mean_acquisition.get_day_from_epoch() == be16(q + 4) && l.line_mean_acquisition.get_msec_in_day() == be32(q + 6), "quality: acquisition time");
                msym_assert((unsigned)l.line_validity == q[10] && (unsigned)l.line_radiometric_quality == q[11] && (unsigned)l.line_geometric_quality == q[12], "quality: flags");
            }
            break; }
    }
}
static void primary(const MSG_header& h, unsigned type, uint64_t bits)
{
    msym_assert((unsigned)h.f_typecode == type, "file type"); msym_assert(h.total_header_length == N, "header length");
    msym_assert(h.data_field_length == bits, "data field length"); msym_assert(h.filesize == bits / 8 + N, "file size is header plus data octets");
}
static void load(MSG_header& h, const char* name)
{
    // data following the header must not influence it
    unsigned char tail[8]; msym_make_symbolic(tail, 8, "tail"); memcpy(F + N, tail, 8);
    msym_file(name, F, N + 8);
    std::ifstream in(name, std::ios::binary);
    h.read_from(in);
    msym_assert((size_t)in.tellg() == N, "reading stops at the end of the header");
}
ENTRY(header_each)
{
    int kind = (int)msym_concretize(msym_range("kind", 0, R_COUNT - 1));
    navk = kind == R_NAVIG ? (unsigned)msym_concretize(msym_range("nav", 0, 2)) : 0;
    unsigned type = msym_u8("type"); uint64_t bits = msym_u64("bits"); msym_assume(bits <= (1ULL << 40));
    unsigned tl = 1 + (unsigned)msym_concretize(msym_range("textlen", 0, (kind == R_FUNC || kind == R_TEXT) ? (THOROUGH ? 40 : 9) : 0));
    unsigned nl = kind == R_QUAL ? (unsigned)msym_concretize(msym_range("lines", 0, THOROUGH ? 8 : 3)) : 0;
    begin();
    Rec s{}; if (kind == R_QUAL) { s = add(R_STRUCT); put16(s.p + 6, nl); }
    Rec r = add(kind, nl, tl);
    finish(type, bits);
    MSG_header h; load(h, "h1.bin");
    primary(h, type, bits); check(h, r); if (s.p) check(h, s);
    msym_observe("fsize", h.filesize);
}
ENTRY(header_pairs)
{
    int a = (int)msym_concretize(msym_range("first", 0, R_COUNT - 2)), b = (int)msym_concretize(msym_range("second", 0, R_COUNT - 1));
    if (a == b || (b == R_QUAL && a != R_STRUCT)) return;
    navk = 1; begin();
    Rec x = add(a, 0, 2); if (b == R_QUAL) put16(x.p + 6, 2);
    Rec y = add(b, 2, 4); finish(0, 0);
    MSG_header h; load(h, "h2.bin");
    primary(h, 0, 0); check(h, x); check(h, y);
    msym_reach("pair decoded");
}
ENTRY(header_full)
{
    static const int orders[4][R_COUNT] = {{0, 1, 2, 3, 4, 5, 6, 7, 8}, {7, 6, 5, 4, 3, 2, 1, 0, 8}, {3, 4, 0, 8, 1, 7, 2, 6, 5}, {5, 0, 4, 2, 7, 8, 3, 1, 6}};
    int o = (int)msym_concretize(msym_range("order", 0, 3)); navk = 0; begin();
    std::vector<Rec> rs; uint64_t bits = msym_u64("bits"); msym_assume(bits <= (1ULL << 40));
    for (int i = 0; i < R_COUNT; ++i) { Rec r = add(orders[o][i], 3, 3 + i); if (r.kind == R_STRUCT) put16(r.p + 6, 3); rs.push_back(r); }
    finish(128, bits);
    MSG_header h; load(h, "h3.bin");
    primary(h, 128, bits); for (auto& r : rs) check(h, r);
    msym_reach("full header decoded");
}
// records as long as their 16 bit length allows
ENTRY(header_long)
{
    begin(); static const unsigned TEXTS[] = {124, 125, 252, 253, 256, 1000, 32765, 65532}, LINES[] = {9, 10, 19, 20, 464, 2520, 5040}; Rec rs[4]; unsigned kind = (unsigned)msym_concretize(msym_range("kind", 0, 2)), n = 2, tl = 0, nl = 0;
    rs[0] = add(R_STRUCT); rs[0].p[3] = 10; put16(rs[0].p + 4, 3712); put16(rs[0].p + 6, 464); if (kind < 2) { tl = TEXTS[msym_concretize(msym_range("long", 0, 7))]; unsigned char* p = rec(kind ? 6 : 3, 3 + tl); memset(p + 3, 'x', tl); msym_make_symbolic(p + 3, 1, "first"); msym_make_symbolic(p + 2 + tl, 1, "last"); msym_assume((p[3] != 0) & (p[2 + tl] != 0)); rs[1] = Rec{kind ? R_TEXT : R_FUNC, p, 3 + tl, 0}; }
    else { nl = LINES[msym_concretize(msym_range("long", 0, 6))]; put16(rs[0].p + 6, nl); unsigned char* p = rec(129, 3 + 13 * nl); for (unsigned i = 0; i < nl; ++i) { unsigned char* q = p + 3 + 13 * i; put32(q, i); put16(q + 5, i % 30000); put32(q + 7, i); q[4] = 64; q[10] = 2; q[11] = 1; q[12] = 3; } unsigned at = msym_concretize(msym_range("at", 0, 1)) ? nl - 1 : nl / 2; msym_make_symbolic(p + 3 + 13 * at, 13, "qual"); rs[1] = Rec{R_QUAL, p, 3 + 13 * nl, nl}; }
    rs[n++] = add(R_SEG); uint64_t bits = msym_u64("bits"); finish(0, bits); MSG_header h; load(h, "hl.bin"); primary(h, 0, bits); for (unsigned i = 0; i < n; ++i) check(h, rs[i]); msym_reach(kind < 2 ? "text" : "lines");
}
// a header object read again describes the second file only
ENTRY(header_again)
{
    int a = (int)msym_concretize(msym_range("first", 0, R_COUNT - 2)), b = (int)msym_concretize(msym_range("second", 0, R_COUNT - 2)); navk = 1;
    MSG_header h; begin(); add(a, 0, 2); finish(0, 0); load(h, "h5.bin");
    begin(); Rec y = add(b, 2, 4); finish(128, 80); load(h, "h6.bin"); primary(h, 128, 80); check(h, y);
    int have[R_COUNT] = {h.image_structure != 0, h.image_navigation != 0, h.image_data_function != 0, h.annotation != 0, h.timestamp != 0, h.ancillary_text != 0, h.key != 0, h.segment_id != 0, h.segment_quality != 0};
    for (int i = 0; i < R_COUNT; ++i) msym_assert(have[i] == (i == b), "exactly the records of the file are available");
}
