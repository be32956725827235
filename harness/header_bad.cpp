// Arbitrary octets presented as an HRIT file header.
#include "h.h"
#include <msat/hrit/MSG_header.h>
#include <fstream>
#include <stdexcept>
// 1 decoded, 0 refused with an exception
static int try_read(const unsigned char* f, size_t n, const char* name)
{
    msym_file(name, f, n);
    int r = -1;
    { MSG_header h;
      try { std::ifstream in(name, std::ios::binary); h.read_from(in); r = 1; } catch (std::exception&) { r = 0; } }
    return r;
}
// every value of the primary header, any file length up to the header itself plus 6 octets
ENTRY(bad_primary)
{
    unsigned char f[22]; msym_make_symbolic(f, 22, "f");
    static const unsigned ns[] = {0, 15, 16, 19, 1, 8, 17, 20, 22};
    unsigned n = ns[msym_concretize(msym_range("n", 0, THOROUGH ? 8 : 3))];
    msym_assume((be32(f + 4) <= 24) | (be32(f + 4) == 65552));
    int r = try_read(f, n, "p.bin");
    msym_assert(r >= 0, "a header is either decoded or refused");
    uint32_t thl = be32(f + 4);
    if (n < 16 || f[0] != 0 || be16(f + 1) != 16 || thl < 16 || thl > n) msym_assert(r == 0, "a header that is not complete or not primary is refused");
    if (n >= 16 && f[0] == 0 && be16(f + 1) == 16 && thl == 16) { msym_assert(r == 1, "a bare primary header is accepted"); msym_reach("accepted"); }
    msym_observe("r", (uint64_t)r);
}
// well formed primary header, arbitrary record octets
ENTRY(bad_records)
{
    const unsigned K = THOROUGH ? 13 : 8;
    unsigned char f[64] = {0}; unsigned n = (unsigned)msym_concretize(msym_range("n", 1, K));
    msym_make_symbolic(f + 16, n, "records");
    put16(f + 1, 16); put32(f + 4, 16 + n);
    int r = try_read(f, 16 + n, "q.bin");
    msym_assert(r >= 0, "records are either decoded or refused");
    // walk the records independently: accepted only if they tile the header
    unsigned left = n, o = 16; int tiles = 1;
    for (int i = 0; i < 12 && left && tiles; ++i) {
        if (left < 3) { tiles = 0; break; }
        unsigned len = be16(f + o + 1);
        if (len < 3 || len > left) { tiles = 0; break; }
        len = (unsigned)msym_concretize(len);
        o += len; left -= len;
    }
    if (!tiles) { msym_assert(r == 0, "records that do not tile the header are refused"); msym_reach("refused"); }
    msym_observe("r", (uint64_t)r);
}
// one record of each fixed length kind with an arbitrary length field, in a header of arbitrary size
ENTRY(bad_lengths)
{
    static const unsigned char types[] = {1, 2, 3, 4, 5, 6, 7, 8, 128, 129, 130, 0, 255};
    unsigned char f[128] = {0}; unsigned t = types[msym_concretize(msym_range("t", 0, sizeof types - 1))];
    static const unsigned sizes[] = {3, 4, 8, 9, 10, 12, 13, 16, 29, 51, 64, 70};
    unsigned n = sizes[msym_concretize(msym_range("n", 0, 11))];
    put16(f + 1, 16); put32(f + 4, 16 + n);
    unsigned char* p = f + 16; p[0] = (unsigned char)t; uint16_t len = msym_u16("len"); put16(p + 1, len);
    memset(p + 3, '1', n - 3);
    if (t == 2) memcpy(p + 3, "GEOS(", n - 3 < 5 ? n - 3 : 5);
    int r = try_read(f, 16 + n, "l.bin");
    msym_assert(r >= 0, "a record is either decoded or refused");
    if (len < 3 || len > n) msym_assert(r == 0, "a record reaching outside the header is refused");
    unsigned fixed = t == 1 ? 9 : t == 2 ? 51 : t == 4 ? 64 : t == 5 ? 10 : t == 7 ? 12 : t == 128 ? 13 : 0; if (fixed && len != fixed) msym_assert(r == 0, "a record whose length is not that of its kind is refused");
    if (t == 8 || t == 130 || t == 0 || t == 255) msym_assert(r == 0, "an unknown record is refused");
    msym_observe("r", (uint64_t)r);
}
// a fixed length record with any length field, followed by an intact record where it should end
ENTRY(bad_overlap)
{
    static const unsigned char T[] = {1, 2, 4, 5, 7, 128}, L[] = {9, 51, 64, 10, 12, 13}; unsigned k = (unsigned)msym_concretize(msym_range("k", 0, 5)), fixed = L[k], next = (unsigned)msym_concretize(msym_range("next", 0, 1));
    unsigned char f[160] = {0}; unsigned n = 16 + fixed + (next ? 10 : 3); put16(f + 1, 16); put32(f + 4, n); unsigned char* p = f + 16; p[0] = T[k]; uint16_t len = msym_u16("len"); put16(p + 1, len); memset(p + 3, ' ', fixed - 3); if (T[k] == 2) memcpy(p + 3, "GEOS(0)", 7);
    p += fixed; p[0] = next ? 5 : 6; p[2] = next ? 10 : 3; int r = try_read(f, n, "o.bin"); msym_assert(r == (len == fixed), "a record is accepted exactly with the length of its kind"); msym_observe("r", (uint64_t)r);
}
// line quality: any number of lines against any record length
ENTRY(bad_quality)
{
    unsigned char f[16 + 9 + 3 + 13 * 3] = {0};
    unsigned q = (unsigned)msym_concretize(msym_range("q", 3, 42));
    put16(f + 1, 16); unsigned char* s = f + 16; int first = (int)msym_concretize(msym_range("first", 0, 2));
    unsigned n = 16;
    uint16_t lines = msym_u16("lines"); msym_assume((lines <= 5) | (lines >= 65530));
    auto structure = [&]() { unsigned char* p = f + n; p[0] = 1; put16(p + 1, 9); p[3] = 10; put16(p + 4, 8); put16(p + 6, lines); p[8] = 0; n += 9; };
    auto quality = [&]() { unsigned char* p = f + n; p[0] = 129; put16(p + 1, q); n += q; };
    if (first == 0) { structure(); quality(); } else if (first == 1) { quality(); structure(); } else quality();
    (void)s; put32(f + 4, n);
    int r = try_read(f, n, "s.bin");
    msym_assert(r >= 0, "line quality is either decoded or refused");
    if (first == 0) msym_assert(r == (3 + 13 * (unsigned)lines <= q), "line quality is decoded exactly if the record holds every line");
    msym_observe("r", (uint64_t)r);
}
// projection text: any of the known names followed by arbitrary octets
ENTRY(bad_projection)
{
    static const char* const heads[] = {"GEOS(", "POLAR(", "PSD", "MERCATOR", "GEOS", "POLAR(1,2)", "GEOS(7)", "X"};
    unsigned char b[51]; memset(b, '(', sizeof b); b[0] = 2; put16(b + 1, 51);
    int h = (int)msym_concretize(msym_range("head", 0, 7)); unsigned hl = (unsigned)strlen(heads[h]);
    memcpy(b + 3, heads[h], hl);
    unsigned char x[3]; msym_make_symbolic(x, 3, "x"); for (int i = 0; i < 3; ++i) msym_assume((x[i] == 0) | (x[i] == ' ') | (x[i] == ')') | (x[i] == ',') | (x[i] == '5'));
    for (int i = 0; i < 3; ++i) b[3 + hl + i] = x[i];
    for (unsigned i = hl + 3; i < 32; ++i) b[3 + i] = (i & 1) ? '(' : 'a';
    MSG_header_image_navig n(b);
    if (h == 5) { msym_assert(n.get_projection_code() == MSG_PROJECTION_POLAR, "polar projection is recognised"); msym_assert(n.projection_plane == 1.0f && n.projection_longitude == 2.0f, "polar projection parameters"); }
    if (h == 6) msym_assert(n.get_projection_code() == MSG_PROJECTION_GEOS && n.subsatellite_longitude == 7.0f, "geostationary longitude");
}
