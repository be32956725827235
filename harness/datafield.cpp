// The data field of an HRIT file: payload dispatch by file type, message payloads, and refusal of what does not fit.
#include "h.h"
#include <msat/hrit/MSG_data.h>
#include "decomp.h"
#include <stdexcept>
#include <sstream>

static void annotate(MSG_header& h, const char* pid) { unsigned char b[64] = {4, 0, 64}; memset(b + 3, '_', 61); memcpy(b + 16, pid, strlen(pid)); h.annotation = new MSG_header_annotation(b); }
static void structure(MSG_header& h, unsigned bpp, unsigned cols, unsigned lines, unsigned flag) { unsigned char b[9] = {1, 0, 9, (unsigned char)bpp}; put16(b + 4, cols); put16(b + 6, lines); b[8] = (unsigned char)flag; h.image_structure = new MSG_header_image_struct(b); }
static void segment(MSG_header& h, unsigned format) { unsigned char b[13] = {128, 0, 13}; b[12] = (unsigned char)format; h.segment_id = new MSG_header_segment_id(b); }
static int payloads(const MSG_data& d) { return (d.key_message != 0) + 2 * (d.gts_message != 0) + 4 * (d.text_message != 0) + 8 * (d.prologue != 0) + 16 * (d.epilogue != 0) + 32 * (d.sdsprologue != 0) + 64 * (d.image != 0); }
// 1 decoded, 0 refused
static int load(MSG_data& d, MSG_header& h, unsigned type, const unsigned char* f, size_t n, uint64_t bits, const char* name)
{
    msym_file(name, f, n); h.f_typecode = (t_enum_MSG_filetype)type; h.data_field_length = bits;
    try { std::ifstream in(name, std::ios::binary); d.read_from(in, h); return 1; } catch (std::exception&) { return 0; }
}
ENTRY(image_plain)
{
    unsigned n = (unsigned)msym_concretize(msym_range("n", 0, THOROUGH ? 40 : 12)), extra = (unsigned)msym_concretize(msym_range("bits", 0, 1)) * 7;
    unsigned char* f = sym_buf(n + 4, "f");
    MSG_header h; structure(h, 16, 4, 2, 0); MSG_data d;
    msym_assert(load(d, h, 0, f, n + 4, 8 * n + extra, "img.bin") == 1, "uncompressed image is decoded");
    msym_assert(payloads(d) == 64, "an image and nothing else is decoded");
    msym_assert(d.image->len == n, "image length"); msym_assert(eqbytes(d.image->data, f, n), "image octets are kept"); delete[] f;
}
ENTRY(image_compressed)
{
    unsigned char* f = sym_buf(5, "f"); unsigned flag = 1 + (unsigned)msym_concretize(msym_range("flag", 0, 1)), fmt = msym_u8("format");
    unsigned cols = 3, lines = (unsigned)msym_concretize(msym_range("lines", 1, 4)); unsigned bpp = msym_u8("bpp");
    MSG_header h; structure(h, bpp, cols, lines, flag); segment(h, fmt); MSG_data d;
    msym_assert(load(d, h, 0, f, 5, 40, "cmp.bin") == 1, "compressed image is decoded"); msym_assert(payloads(d) == 64, "an image and nothing else is decoded");
    msym_assert(decode_request.calls == 1 && decode_request.len == 5 && decode_request.nx == (int)cols && decode_request.ny == (int)lines, "decompressor is given the image size");
    msym_assert(decode_request.bpp == (int)bpp && decode_request.format == fmt, "decompressor is given depth and format");
    msym_assert(d.image->len == cols * lines, "sample count"); for (unsigned i = 0; i < cols * lines; ++i) msym_assert(d.image->data[i] == f[0] + 3 * i, "decompressed samples"); delete[] f;
}
ENTRY(message_text)
{
    unsigned n = (unsigned)msym_concretize(msym_range("n", 0, THOROUGH ? 30 : 9)); unsigned char* f = sym_buf(n + 1, "f"); MSG_header h; MSG_data d;
    int r = load(d, h, 2, f, n, 8 * n, "txt.bin"); msym_assert(r == (n > 0), "a text message is decoded unless empty");
    if (r) { msym_assert(payloads(d) == 4, "a text message and nothing else is decoded"); d.text_message->dump(std::string("txt.out")); msym_assert(file_is("txt.out", f, n), "text is kept"); }
    delete[] f;
}
ENTRY(message_gts)
{
    unsigned n = (unsigned)msym_concretize(msym_range("n", 0, THOROUGH ? 30 : 9)); unsigned char* f = sym_buf(n + 1, "f"); MSG_header h; annotate(h, "GTS"); MSG_data d;
    int r = load(d, h, 1, f, n, 8 * n, "gts.bin"); msym_assert(r == (n > 0), "a GTS message is decoded unless empty");
    if (r) { msym_assert(payloads(d) == 2, "a GTS message and nothing else is decoded"); std::string name = h.annotation->annotation + ".bin"; msym_assert(file_is(name.c_str(), f, n), "GTS message is saved under the annotation name"); }
    delete[] f;
}
ENTRY(message_binary)
{
    unsigned n = (unsigned)msym_concretize(msym_range("n", 0, THOROUGH ? 30 : 9)); unsigned char* f = sym_buf(n + 1, "f"); MSG_header h; annotate(h, "BIN"); MSG_data d;
    msym_assert(load(d, h, 144, f, n, 8 * n, "bin.bin") == 1, "a binary message is accepted"); msym_assert(payloads(d) == 0, "nothing is decoded from a binary message");
    std::string name = h.annotation->annotation + ".bin"; msym_assert(file_is(name.c_str(), f, n), "binary message is saved under the annotation name"); delete[] f;
}
ENTRY(message_keys)
{
    unsigned k = (unsigned)msym_concretize(msym_range("k", 0, THOROUGH ? 5 : 2)), extra = (unsigned)msym_concretize(msym_range("extra", 0, 1)) * 196; size_t n = 197 * k + extra;
    unsigned char* f = sym_buf(n + 1, "f"); MSG_header h; MSG_data d;
    int r = load(d, h, 3, f, n, 8 * n, "key.bin"); msym_assert(r == (k > 0), "key messages are decoded if there is at least one");
    if (r) {
        msym_assert(payloads(d) == 1, "keys and nothing else are decoded"); msym_assert(d.key_message->nkeys == (int)k, "number of keys");
        for (unsigned i = 0; i < k; ++i) { auto& e = d.key_message->keys[i]; const unsigned char* p = f + 197 * i;
            msym_assert(e.User_Station_number == be16(p), "user station number"); msym_assert(e.Key_Number == p[2], "key number"); msym_assert(eqbytes(e.Public_key, p + 3, 192), "public key"); msym_assert(e.Public_Key_CRC == be16(p + 195), "public key CRC"); }
    }
    delete[] f;
}
// payloads longer than 8 and 16 bit counts can tell
ENTRY(long_payloads)
{
    static const size_t SIZES[] = {255, 256, 8191, 8192, 32768, 65536, 70001, 140000}; size_t n = SIZES[msym_concretize(msym_range("size", 0, 7))]; unsigned what = (unsigned)msym_concretize(msym_range("what", 0, 4)); if (what == 4) n -= n % 197; if (!n) return;
    unsigned char* f = new unsigned char[n]; for (size_t i = 0; i < n; ++i) f[i] = (unsigned char)(i * 7 + i / 251 + 1); f[n - 1] = msym_u8("last"); f[n / 2] = msym_u8("middle"); MSG_header h; annotate(h, what == 2 ? "GTS" : "BIN"); if (what == 0) structure(h, 16, 3712, 464, 0); MSG_data d; static const unsigned TYPES[] = {0, 2, 1, 144, 3};
    msym_assert(load(d, h, TYPES[what], f, n, 8 * (uint64_t)n, "long.bin") == 1, "decoded"); static const int KIND[] = {64, 4, 2, 0, 1}; msym_assert(payloads(d) == KIND[what], "payload"); std::string name = h.annotation->annotation + ".bin";
    switch (what) { case 0: msym_assert(d.image->len == n && eqbytes(d.image->data, f, n), "image octets are kept"); break; case 1: d.text_message->dump(std::string("txt.out")); msym_assert(file_is("txt.out", f, n), "text is kept"); break; case 4: msym_assert(d.key_message->nkeys == (int)(n / 197), "number of keys"); { auto& e = d.key_message->keys[n / 197 - 1]; const unsigned char* p = f + n - 197; msym_assert(e.User_Station_number == be16(p) && e.Key_Number == p[2] && eqbytes(e.Public_key, p + 3, 192) && e.Public_Key_CRC == be16(p + 195), "the last key"); } break; default: msym_assert(file_is(name.c_str(), f, n), "the message is saved"); }
    msym_reach("long"); delete[] f;
}
ENTRY(foreign_prologue)
{
    static const char* const pids[] = {"GOES11______", "GMS5________", "MTSAT1R_____", "NOAA17______", "METOP_______"}; const char* pid = pids[msym_concretize(msym_range("sat", 0, THOROUGH ? 4 : 1))];
    unsigned n = (unsigned)msym_concretize(msym_range("n", 44, THOROUGH ? 70 : 60)); unsigned char* f = sym_buf(n, "f"); MSG_header h; annotate(h, pid); MSG_data d;
    int r = load(d, h, 128, f, n, 8 * n, "sgs.bin");
    uint32_t len = n >= 54 ? be32(f + 50) : 0; msym_assert(r == (n >= 54 && len >= 8 && len <= n - 46), "a foreign satellite prologue is decoded exactly if its headers fit");
    if (!r) return;
    msym_assert(payloads(d) == 32, "a foreign satellite prologue and nothing else is decoded"); auto& s = d.sdsprologue->SGSCommonHeader;
    msym_assert(s.NominalSGSProductTime.get_day_from_epoch() == be16(f + 4) && s.NominalSGSProductTime.get_msec_in_day() == be32(f + 6), "nominal product time");
    msym_assert(s.SGSProductQuality == f[10] && s.SGSProductCompleteness == f[11] && s.SGSProductTimeliness == f[12] && s.SGSProcessingInstanceId == f[13], "product quality octets");
    msym_assert(eqbytes(s.BaseAlgorithmVersion, f + 14, 16) && eqbytes(s.ProductAlgorithmVersion, f + 30, 16), "algorithm versions");
    auto& p = d.sdsprologue->SGSProductSpecificHeader.ImageProductSpecificHeader; msym_assert(p.ImageProductSpecificHeaderLenght == len, "product header length");
    msym_assert(eqbytes(p.ImageProductSpecificHeaderData, f + 54, (size_t)msym_concretize(len - 8)), "product header data"); msym_reach("foreign prologue decoded"); delete[] f;
}
// any file type, any declared length, fewer octets than declared
ENTRY(truncated)
{
    unsigned type = msym_u8("type"); msym_assume(type != 130);
    uint64_t bits = msym_u64("bits"); msym_assume(bits < 8 * 3000);
    unsigned have = (unsigned)msym_concretize(msym_range("have", 0, 3)) * 20; msym_assume(bits / 8 > have); bits = 8 * msym_concretize(msym_range("octets", 0, 7)) * 11 + bits % 8; msym_assume(bits / 8 > have);
    unsigned char* f = sym_buf(have + 1, "f"); MSG_header h; annotate(h, "MSG1________"); structure(h, 10, 4, 4, 0); MSG_data d;
    msym_assert(load(d, h, type, f, have, bits, "cut.bin") == 0, "a data field shorter than declared is refused"); msym_reach("refused"); delete[] f;
}
ENTRY(unknown_type)
{
    unsigned type = msym_u8("type"); msym_assume((type > 3) & (type != 128) & (type != 129) & (type != 130) & (type != 144));
    unsigned char f[4] = {1, 2, 3, 4}; MSG_header h; annotate(h, "MSG1________"); MSG_data d; msym_assert(load(d, h, type, f, 4, 32, "unk.bin") == 0, "an unknown file type is refused"); msym_assert(payloads(d) == 0, "nothing is decoded");
    MSG_header g; MSG_data e; msym_assert(load(e, g, 130, f, 4, 32, "dcp.bin") == 1 && payloads(e) == 0, "a DCP message is accepted and not decoded");
}
ENTRY(missing_records)
{
    static const unsigned types[] = {0, 0, 1, 128, 129, 144}; int k = (int)msym_concretize(msym_range("k", 0, 5)); unsigned char* f = sym_buf(64, "f"); MSG_header h; MSG_data d;
    if (k == 1) structure(h, 10, 2, 2, 1);
    msym_assert(load(d, h, types[k], f, 64, 512, "mis.bin") == 0, "a data field whose header record is missing is refused"); delete[] f;
    MSG_header g; unsigned char z[1] = {0}; msym_file("c.bin", z, 1); g.f_typecode = MSG_FILE_DCP_MESSAGE; std::ifstream in("c.bin"); MSG_data e(in, g); msym_assert(payloads(e) == 0, "constructing from a file starts empty");
}
// SEVIRI prologue and epilogue of the wrong length
ENTRY(short_seviri)
{
    static unsigned char f[425462]; static const size_t P[] = {0, 1, 60133, 60140, 386892, 425460, 425461}, Q[] = {0, 1, 340, 6021, 380193, 380324, 380325};
    int k = (int)msym_concretize(msym_range("k", 0, 6)), epi = (int)msym_concretize(msym_range("epi", 0, 1)); size_t n = epi ? Q[k] : P[k];
    memset(f, '0', sizeof f); MSG_header h; annotate(h, "MSG1________"); MSG_data d; int r = load(d, h, epi ? 129 : 128, f, n, 8 * n, "sho.bin");
    msym_assert(r == (k == 6), "a prologue or epilogue is decoded exactly if complete"); if (r) msym_reach(epi ? "epilogue" : "prologue");
}
ENTRY(other_products)
{
    // prologues and epilogues of unknown satellites are not decoded, whatever the octets
    unsigned epi = (unsigned)msym_concretize(msym_range("epi", 0, 1)), k = (unsigned)msym_concretize(msym_range("k", 0, 2)); static const char* const pids[] = {"MET5________", "FY2C________", "MS1G________"};
    unsigned char* f = sym_buf(9, "f"); MSG_header h; annotate(h, pids[k]); MSG_data d; msym_assert(load(d, h, 128 + epi, f, 9, 72, "oth.bin") == 1 && payloads(d) == 0, "prologue of another satellite is left alone"); delete[] f;
}
