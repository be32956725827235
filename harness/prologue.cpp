// Every field of the SEVIRI prologue and epilogue records against an independent description of the record layout.
#include "l15.h"
// decode a record of len symbolic octets from an exact buffer
template<class T> static void one(size_t len, void (*describe)(T&), const char* name, size_t gt = 0, size_t cuc = 0)
{
    unsigned char* b = new unsigned char[len]; msym_make_symbolic(b, len, name);
    if (gt) { memcpy(b + gt, TIMES[0], 15); memcpy(b + gt + 15, TIMES[1], 15); }
    if (cuc) memset(b + cuc, 7, 7);   // the CUC time value itself is decided by B01
    T* t = new T; size_t n = t->read_from(b);
    msym_assert(n == len, "record length"); c = b; describe(*t); msym_assert(c == b + len, "description covers the record");
    delete t; delete[] b;
}
// the days of all but one orbit and attitude polynomial are fixed (their being zero decides "present")
ENTRY(rec_status)
{
    const size_t len = 60134; unsigned char* b = new unsigned char[len]; msym_make_symbolic(b, len, "status");
    static const int which[] = {0, 99, 1, 37}; int w = which[msym_concretize(msym_range("which", 0, THOROUGH ? 3 : 1))];
    for (int k = 0; k < 100; ++k) { size_t o = 47 + 396 * (size_t)k, a = 39667 + 204 * (size_t)k; if (k != w) { put16(b + o, k % 2 ? 0 : 300 + k); put16(b + a, k % 2 ? 7 : 0); } }
    memset(b + len - 47, 7, 7);   // the CUC time value itself is decided by B01
    auto* t = new MSG_data_SatelliteStatus; size_t n = t->read_from(b);
    msym_assert(n == len, "record length"); c = b; d_status(*t); msym_assert(c == b + len, "description covers the record");
    delete t; delete[] b;
}
ENTRY(rec_acquisition) { one(700, d_acquisition, "acq"); }
ENTRY(rec_celestial) { one(326058, d_celestial, "cel", 12); }
ENTRY(rec_description) { one(101, d_description, "desc"); }
ENTRY(rec_radiometric) { one(20815, d_radiometric, "rad", 0, 72 + 192 + 10); }
ENTRY(rec_geometric) { one(17653, d_geometric, "geo"); }
ENTRY(rec_impf) { one(19786, d_impf, "impf"); }
ENTRY(rec_prodstats) { one(340, d_prodstats, "stats"); }
ENTRY(rec_navig) { one(5680, d_navig, "navig"); }
ENTRY(rec_radqlty) { one(371256, d_radqlty, "radq"); }
ENTRY(rec_geoqlty) { one(2916, d_geoqlty, "geoq"); }
ENTRY(rec_timelin) { one(132, d_timelin, "time"); }

// ---- whole files: each record is read from its place in the data field ----
static void header(MSG_header& h, unsigned type, size_t octets, const char* pid)
{
    h.f_typecode = (t_enum_MSG_filetype)type; h.data_field_length = (uint64_t)octets * 8;
    unsigned char b[64] = {4, 0, 64}; memset(b + 3, '_', 61); memcpy(b + 3, "L-000-MSG1__-", 13); memcpy(b + 3 + 13, pid, strlen(pid));
    h.annotation = new MSG_header_annotation(b);
}
// a data field of zeroes with an arbitrary window
ENTRY(file_prologue)
{
    static unsigned char f[PRO + IMPF];
    // one record symbolic at a time: the other records must not move
    int w = (int)msym_concretize(msym_range("window", 0, 4)); static const int recs[] = {1, 3, 5, 4, 6};
    int k = recs[w]; bool impf = k == 6 || msym_concretize(msym_range("impf", 0, 1));
    if (!THOROUGH && k == 4) return;
    msym_make_symbolic(f + PSTART[k], PSTART[k + 1] - PSTART[k], "rec");
    if (k == 4) memset(f + PSTART[4] + 274, 0, 7);
    memcpy(f + PSTART[2] + 12, TIMES[0], 15); memcpy(f + PSTART[2] + 27, TIMES[1], 15);
    size_t n = impf ? PRO + IMPF : PRO; msym_file("pro.bin", f, n);
    MSG_header h; header(h, 128, n, "MSG1________"); MSG_data d; { std::ifstream in("pro.bin", std::ios::binary); d.read_from(in, h); msym_assert((size_t)in.tellg() == n, "the data field is consumed"); }
    msym_assert(d.prologue != 0, "a prologue is decoded"); msym_assert(!d.epilogue && !d.image && !d.sdsprologue && !d.text_message && !d.gts_message && !d.key_message, "nothing else is decoded");
    auto& p = *d.prologue; c = f + PSTART[k];
    switch (k) {
        case 1: d_acquisition(p.image_acquisition); break;
        case 3: d_description(p.image_description); break;
        case 4: d_radiometric(p.radiometric_proc); break;
        case 5: d_geometric(p.geometric_proc); break;
        case 6: d_impf(p.IMPF_config); break;
    }
    c = f; F(u2, (unsigned)p.sat_status.SatelliteDefinition.SatelliteId);
    c = f + PSTART[2] + 12; F(gtime, p.celestial_events.CelestialBodiesPosition.Ephemeris.RelatedOrbitFileTime);
    msym_reach("prologue decoded");
}
ENTRY(file_epilogue)
{
    static unsigned char f[EPI]; static const size_t S[6] = {1, 341, 6021, 377277, 380193, 380325};
    int k = (int)msym_concretize(msym_range("window", 0, 4)); if (k == 2) { msym_make_symbolic(f + S[2], 6188, "rec"); msym_make_symbolic(f + S[3] - 5112, 5112, "rec"); } else msym_make_symbolic(f + S[k], S[k + 1] - S[k], "rec");
    f[0] = msym_u8("version");
    msym_file("epi.bin", f, EPI);
    MSG_header h; header(h, 129, EPI, "MSG2________"); MSG_data d; { std::ifstream in("epi.bin", std::ios::binary); d.read_from(in, h); }
    msym_assert(d.epilogue != 0, "an epilogue is decoded"); msym_assert(!d.prologue && !d.image && !d.sdsprologue && !d.text_message && !d.gts_message && !d.key_message, "nothing else is decoded");
    auto& p = *d.epilogue; c = f + S[k];
    switch (k) {
        case 0: d_prodstats(p.product_stats); break;
        case 1: d_navig(p.navig_result); break;
        case 2: d_radqlty(p.radiometric_qlty); break;
        case 3: d_geoqlty(p.geometric_qlty); break;
        case 4: d_timelin(p.timelin_comple); break;
    }
    msym_reach("epilogue decoded");
}
