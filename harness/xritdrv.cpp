// The GDAL driver for xRIT products.
#include "xfiles.h"
#include "fakect.h"
#include <msat/gdal/const.h>
#include <msat/facts.h>
#include <gdal/xrit/dataset.h>
#include <gdal/xrit/rasterband.h>
#include <gdal/reflectance/reflectance.h>
#include <gdal/reflectance/cos_sol_za.h>
#include <gdal/reflectance/sat_za.h>
#include <gdal/reflectance/jday.h>
#include <stdexcept>
namespace msat { namespace xrit { GDALDataset* XRITOpen(GDALOpenInfo*); } }
using msat::xrit::XRITDataset; using msat::xrit::XRITRasterBand;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
#define PRODUCT "H:MSG1:IR_108:200611141200"
static GDALDataset* open(const char* name = PRODUCT, const char* option = nullptr)
{
    GDALOpenInfo i(name, 0); char opt[64]; char* opts[2] = {opt, nullptr}; if (option) { snprintf(opt, sizeof opt, "MSAT_COMPUTE=%s", option); i.papszOpenOptions = opts; }
    GDALDataset* r = nullptr; int threw = 0; try { r = msat::xrit::XRITOpen(&i); } catch (...) { threw = 1; } i.papszOpenOptions = nullptr;
    msym_assert(!threw, "no exception leaves the driver"); return r;
}
static std::string md(GDALMajorObject* o, const char* k) { const char* v = o->GetMetadataItem(k, MD_DOMAIN_MSAT); return v ? v : "(none)"; }
static void no_epilogue() { unsigned char z[1] = {0}; pe_file(1, "MET5________", z, 1); }
static const char* const NAMES[] = {"", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV"};
static const int HRIT[] = {321, 322, 323, 324}; static const int WMO[] = {55, 56, 57, 70};
static double finite(const char* n, double lo, double hi) { double d = msym_f64(n); msym_assume((d >= lo) & (d <= hi)); return d; }
static int nearD(double a, double b) { return (int)sameD(a, b) | (int)closeD(a, b); }
static void check_geo(GDALDataset* ds, int off, float sx, float sy, float lon)
{
    double gt[6]; msym_assert(ds->GetGeoTransform(gt) == CE_None, "geotransform");
    double px = 1000 * sx, py = 1000 * sy;
    msym_assert(nearD(gt[0], -off * fabs(px)) & nearD(gt[1], fabs(px)) & (gt[2] == 0) & nearD(gt[3], off * fabs(py)) & (gt[4] == 0) & nearD(gt[5], -fabs(py)), "north-up geotransform around the sub-satellite point, from the reference grid");
    OGRErr e; const OGRSpatialReference* o = ds->GetSpatialRef(); msym_assert(o && closeD(o->GetProjParm("central_meridian", 99.0, &e), lon), "the projection is seen from the satellite's longitude"); msym_assert(closeD(o->GetProjParm("satellite_height", 0.0, &e), 35785831.0), "satellite height");
}
// ---- description of the image
ENTRY(open_normal)
{
    Pro p; unsigned sat = pick("sat", 0, 3); Seg s; s.sat = HRIT[sat]; s.chan = pick("chan", 1, 11); s.cols = 3; s.bpp = 2; lonk = pick("lon", 0, 2);
    p.col = msym_f32("col"); p.line = msym_f32("line"); msym_assume((p.col > -100) & (p.col < 100) & (p.line > -100) & (p.line < 100)); p.hcol = p.hline = 77; double sl = finite("slope", 0.0001, 10), of = finite("offset", -100, 100);
    bool lin = s.chan < 4; for (int i = 0; i < 12; ++i) { p.slope[i] = lin ? 55 + i : 0.25; p.off[i] = lin ? 66 + i : 1; } if (lin) { p.slope[s.chan - 1] = sl; p.off[s.chan - 1] = of; }
    no_epilogue(); pro_file(p); unsigned char d[1] = {9}; seg_file(seg_name(1), s, d, 1);
    GDALDataset* ds = open(); msym_assert(ds != nullptr, "a complete product is opened"); msym_assert(dynamic_cast<XRITDataset*>(ds) != nullptr, "as it is");
    msym_assert(ds->GetRasterXSize() == 3712 && ds->GetRasterYSize() == 3712 && ds->GetRasterCount() == 1, "full disk size"); char b[16]; snprintf(b, sizeof b, "%d", WMO[sat]);
    msym_assert(md(ds, MD_MSAT_SPACECRAFT_ID) == b && md(ds, MD_MSAT_SPACECRAFT) == (sat == 3 ? "MSG4" : sat == 2 ? "MSG3" : sat == 1 ? "MSG2" : "MSG1"), "spacecraft"); msym_assert(md(ds, MD_MSAT_DATETIME) == "2006-11-14 12:00:00", "image time");
    static const float LON[] = {0.0f, -3.4f, 9.5f}; check_geo(ds, 1856, p.col, p.line, LON[lonk]);
    GDALRasterBand* rb = ds->GetRasterBand(1); snprintf(b, sizeof b, "%u", s.chan); msym_assert(md(rb, MD_MSAT_CHANNEL_ID) == b && md(rb, MD_MSAT_CHANNEL) == NAMES[s.chan] && std::string(rb->GetDescription()) == NAMES[s.chan], "channel");
    msym_assert(std::string(rb->GetUnitType()) == msat::facts::channelUnit(WMO[sat], s.chan), "unit"); msym_assert(rb->GetRasterDataType() == (lin ? GDT_UInt16 : GDT_Float32), "counts of the linear channels, temperatures of the others");
    int bx, by; rb->GetBlockSize(&bx, &by); msym_assert(bx == 3712 && by == 1, "one line at a time"); int ok1 = 0, ok2 = 0, ok3 = 0; double gs = rb->GetScale(&ok1), go = rb->GetOffset(&ok2), nd = rb->GetNoDataValue(&ok3);
    msym_assert(ok1 && ok2 && ok3 && nd == 0, "calibration and missing value are known"); msym_assert(sameD(gs, lin ? sl : 1.0) && sameD(go, lin ? of : 0.0), "slope and offset"); msym_reach("opened"); delete ds;
}
ENTRY(open_time)
{
    Pro p; static const unsigned short DAY[] = {16436, 16494, 16495, 16800, 16801, 18262, 23500}, MIN[] = {0, 1, 719, 720, 1425, 1439}; unsigned di = pick("day", 0, 6), mi = THOROUGH ? pick("min", 0, 5) : (di + 2) % 6; p.day = DAY[di]; unsigned hm = MIN[mi], h = hm / 60, m = hm % 60; unsigned ms = (p.day + hm) % 3 * 29500 + (unsigned)msym_range("ms", 0, 999); p.msec = hm * 60000 + ms;
    no_epilogue(); p.slope[0] = 1; pro_file(p); Seg s; s.chan = 1; unsigned char d[1] = {9}; seg_file(seg_name(1), s, d, 1); GDALDataset* ds = open(); msym_assert(ds != nullptr, "opened");
    time_t t = ((time_t)p.day - 4383) * 86400 + h * 3600 + m * 60; struct tm* tm = gmtime(&t); char b[32]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:00", tm); msym_assert(md(ds, MD_MSAT_DATETIME) == b, "the image time is the minute its repeat cycle really started"); delete ds;
}
static void hrv_epilogue(const uint32_t* v) { static unsigned char E[380325]; memset(E, '0', sizeof E); E[0] = 0; const size_t at = 1 + 2 + 14 + 12 + 192 + 72 + 16; for (int i = 0; i < 8; ++i) put32(E + at + 4 * i, v[i]); pe_file(1, "MSG1________", E, sizeof E); }
ENTRY(open_hrv)
{
    Pro p; p.hcol = msym_f32("col"); p.hline = msym_f32("line"); msym_assume((p.hcol > -100) & (p.hcol < 100) & (p.hline > -100) & (p.hline < 100)); p.col = p.line = 77; double sl = finite("slope", 0.0001, 10), of = finite("offset", -100, 100);
    p.slope[11] = sl; p.off[11] = of; pro_file(p); uint32_t v[8] = {1, 8, 1, 5568, 9, 12, 3000, 8567}; hrv_epilogue(v); Seg s; s.chan = 12; s.cols = 5568; s.end = 24; unsigned char d[1] = {9}; seg_file(seg_name(1), s, d, 1);
    GDALDataset* ds = open(); msym_assert(ds != nullptr, "an HRV product is opened"); msym_assert(ds->GetRasterXSize() == 11136 && ds->GetRasterYSize() == 11136, "full HRV size"); check_geo(ds, 5568, p.hcol, p.hline, 0.0f);
    GDALRasterBand* rb = ds->GetRasterBand(1); int bx, by; rb->GetBlockSize(&bx, &by); msym_assert(bx == 11136 && by == 1 && rb->GetRasterDataType() == GDT_UInt16, "counts, one line at a time"); msym_assert(sameD(rb->GetScale(), sl) && sameD(rb->GetOffset(), of), "slope and offset"); msym_reach("opened"); delete ds;
}
// ---- samples
ENTRY(read_counts)
{
    Pro p; p.slope[0] = 1; pro_file(p); no_epilogue(); Seg s; s.chan = 1; s.cols = 3; s.lines = 2; int swap = (int)pick("swap", 0, 1); s.cfac = swap ? -13642337 : 13642337; unsigned char b = msym_u8("b"); s.seq = 2; seg_file(seg_name(1), s, &b, 1);
    GDALDataset* ds = open(); msym_assert(ds != nullptr, "opened"); GDALRasterBand* rb = ds->GetRasterBand(1); unsigned up = pick("up", 0, 5); uint16_t* buf = new uint16_t[3712]; memset(buf, 0xff, 7424);
    msym_assert(rb->ReadBlock(0, (int)(3711 - up), buf) == CE_None, "a line is read"); for (unsigned c = 0; c < 3; ++c) msym_assert(buf[c] == ((up / 2 == 1) ? (uint16_t)(b + 3 * ((up % 2) * 3 + (swap ? 2 - c : c))) : 0), "the line's counts, west to east"); int z = 1; for (int c = 3; c < 3712; ++c) z &= buf[c] == 0; msym_assert(z, "zero where there is no data");
    XRITRasterBand* xb = dynamic_cast<XRITRasterBand*>(rb); msym_assert(xb->IReadBlock(1, 0, buf) == CE_Failure, "there is one block per line"); delete[] buf; delete ds;
}
ENTRY(read_temperatures)
{
    Pro p; p.slope[8] = 0.25; p.off[8] = -1; pro_file(p); no_epilogue(); Seg s; s.chan = 9; s.cols = 3; s.lines = 2; s.bpp = 5; s.cfac = 13642337; unsigned char b = msym_u8("b"); seg_file(seg_name(1), s, &b, 1);
    GDALDataset* ds = open(); msym_assert(ds != nullptr, "opened"); GDALRasterBand* rb = ds->GetRasterBand(1); unsigned up = pick("up", 0, 2); float* buf = new float[3712]; memset(buf, 0xff, 4 * 3712); msym_assert(rb->ReadBlock(0, (int)(3711 - up), buf) == CE_None, "a line is read");
    for (unsigned c = 0; c < 3; ++c) { unsigned k = b + 3 * (up * 3 + c); float w = 0; if (up == 2) k = 0; for (unsigned i = 0; i < 32; ++i) { double L = i * 0.25 - 1; if (L > 0) { double nu = 930.659, t = (1.43877 * nu / std::log(0.0000119104 * std::pow(nu, 3.0) / L + 1.0) - 0.627) / 0.9983; if (k == i) w = (float)t; } } msym_assert(closeF(buf[c], w), "the count's brightness temperature; zero for counts without one"); }
    int z = 1; for (int c = 3; c < 3712; ++c) z &= buf[c] == 0; msym_assert(z, "zero where there is no data"); delete[] buf; delete ds;
}
ENTRY(read_hrv)
{
    Pro p; p.slope[11] = 1; pro_file(p); uint32_t v[8]; v[0] = 1; v[1] = 2; v[4] = 3; v[5] = 4; v[2] = v[6] = 1; static const unsigned W[] = {0, 2, 3, 4, 5568, 8567, 11135, 11136, 11137, 11139, 40000}; v[3] = W[pick("west1", 0, 10)]; v[7] = W[(pick("west2", 0, 1) * 5 + v[3]) % 11]; hrv_epilogue(v);
    Seg s; s.chan = 12; s.cols = 3; s.lines = 4; s.cfac = 13642337; s.end = 24; unsigned char b = msym_u8("b"); seg_file(seg_name(1), s, &b, 1); GDALDataset* ds = open(); msym_assert(ds != nullptr, "opened");
    unsigned line = pick("line", 0, 3); uint32_t west = line < 2 ? v[7] : v[3]; uint16_t* buf = new uint16_t[11136]; memset(buf, 0xff, 2 * 11136); CPLErr r = ds->GetRasterBand(1)->ReadBlock(0, (int)line, buf);
    bool fits = west <= 11136 && west >= 3; msym_assert((r == CE_None) == fits, "a line is read unless its window lies outside of the image"); if (r != CE_None) { msym_reach("outside"); delete[] buf; delete ds; return; }
    uint32_t at = 11136 - west; for (unsigned c = 0; c < 3; ++c) msym_assert(buf[at + c] == (uint16_t)(b + 3 * ((3 - line) * 3 + c)), "an HRV line lies in its own window"); int z = 1; for (uint32_t c = 0; c < 11136; ++c) if (c < at || c >= at + 3) z &= buf[c] == 0; msym_assert(z, "zero outside of it"); msym_reach("inside"); delete[] buf; delete ds;
}
// lines as wide as they come, of two products read in turn: eight segments of 3712 columns
ENTRY(read_full)
{
    Pro p; p.slope[0] = 1; p.slope[8] = 0.25; p.off[8] = -1; pro_file(p); no_epilogue(); Seg s; s.cols = 3712; s.lines = 2; s.end = 8; s.cfac = pick("swap", 0, 1) ? -13642337 : 13642337; static const unsigned MISS[] = {0, 1, 4, 8}; unsigned miss = MISS[pick("missing", 0, 3)];
    for (unsigned i = 0; i < 8; ++i) for (unsigned k = 0; k < 2; ++k) { if (k && i + 1 == miss) continue; s.chan = k ? 9 : 1; s.seq = i + 1; unsigned char b = (unsigned char)(1 + i * 20 + k * 7); seg_file(seg_name(i + 1, k ? "IR_108___" : "VIS006___"), s, &b, 1); }
    GDALDataset* ds[2] = {open("H:MSG1:VIS006:200611141200"), open()}; msym_assert(ds[0] && ds[1], "opened"); float table[1024]; for (unsigned i = 0; i < 1024; ++i) { double L = i * 0.25 - 1, nu = 930.659; table[i] = L > 0 ? (float)((1.43877 * nu / std::log(0.0000119104 * std::pow(nu, 3.0) / L + 1.0) - 0.627) / 0.9983) : 0; }
    uint16_t* a = new uint16_t[3712]; float* f = new float[3712];
    for (unsigned n = 0; n < 2; ++n) { static const char* const WHICH[] = {"which0", "which1"}; static const char* const LINE[] = {"line0", "line1"}; unsigned k = pick(WHICH[n], 0, 1); static const unsigned UP[] = {0, 15, 6, 9}; unsigned up = UP[pick(LINE[n], 0, n ? 3 : 1)], seg = up / 2; GDALRasterBand* rb = ds[k]->GetRasterBand(1); memset(a, 0xff, 7424); memset(f, 0xff, 2 * 7424); msym_assert(rb->ReadBlock(0, (int)(3711 - up), k ? (void*)f : (void*)a) == CE_None, "a line is read"); int ok = 1, near = 1;
        for (unsigned c = 0; c < 3712; ++c) { unsigned x = s.cfac < 0 ? 3711 - c : c, v = (1 + seg * 20 + k * 7 + 3 * (up % 2 * 3712 + x)) & 0xffff; if (k && seg + 1 == miss) v = 0; if (k) near &= closeF(f[c], v < 1024 ? table[v] : 0); else ok &= a[c] == v; } msym_assert(ok, "every count of a line"); msym_assert(near, "every temperature of a line"); }
    delete[] a; delete[] f; delete ds[0]; delete ds[1]; msym_reach("full");
}
// every count of tables of 6 to 16 bits
ENTRY(read_widths)
{
    static const unsigned BITS[] = {6, 8, 10, 12, 16}; unsigned bpp = BITS[pick("bits", 0, 4)], from = pick("from", 0, 2); Pro p; p.slope[8] = 0.25; p.off[8] = -1; pro_file(p); no_epilogue(); Seg s; s.chan = 9; s.cols = 3712; s.lines = 1; s.bpp = bpp; s.cfac = 13642337; unsigned char b = (unsigned char)from; seg_file(seg_name(1), s, &b, 1);
    GDALDataset* ds = open(); msym_assert(ds != nullptr, "opened"); float* buf = new float[3712]; memset(buf, 0xff, 4 * 3712); msym_assert(ds->GetRasterBand(1)->ReadBlock(0, 3711, buf) == CE_None, "a line is read"); int ok = 1;
    for (unsigned c = 0; c < 3712; ++c) { unsigned k = from + 3 * c; double L = k * 0.25 - 1, nu = 930.659; float w = k < (1u << bpp) && L > 0 ? (float)((1.43877 * nu / std::log(0.0000119104 * std::pow(nu, 3.0) / L + 1.0) - 0.627) / 0.9983) : 0; ok &= closeF(buf[c], w); } msym_assert(ok, "every count of the table, and none beyond"); delete[] buf; delete ds; msym_reach("table");
}
// ---- what is not a usable product is refused, with no exception, no crash and no dataset
ENTRY(open_names)
{
    unsigned n = pick("n", 0, THOROUGH ? 7 : 6); std::vector<char> f(n + 1); for (unsigned i = 0; i < n; ++i) { char k[4] = "c0"; k[1] = (char)('0' + i); f[i] = (char)msym_u8(k); msym_assume((f[i] != 0) & (f[i] != '*') & (f[i] != '?') & (f[i] != '[') & (f[i] != '\\') & (f[i] > 31) & (f[i] < 127)); } f[n] = 0;
    GDALDataset* ds = open(f.data()); msym_assert(ds == nullptr, "a name without a product is not opened");
}
ENTRY(open_broken)
{
    unsigned k = pick("k", 0, 10); Pro p; Seg s; s.chan = 9; s.bpp = 2; for (int i = 0; i < 12; ++i) p.slope[i] = 1; unsigned char d[1] = {9}; const char* name = PRODUCT;
    switch (k) { case 0: break; case 1: break; case 2: break; case 3: s.bpp = 0; break; case 4: s.bpp = 17 + pick("bpp", 0, 2) * 119; break; case 5: s.chan = 0; break; case 6: s.chan = 13 + pick("chan", 0, 2) * 121; break; case 7: s.chan = 12; break; case 8: s.fmt = 0; break; case 9: s.lines = 0; break; case 10: name = "dir:with:colons:and/H-000.txt"; break; }
    no_epilogue(); if (k == 1) pe_file(0, "MET5________", d, 1); else if (k != 0) pro_file(p); if (k != 2) seg_file(seg_name(1), s, d, 1);
    msym_assert(open(name) == nullptr, "an unusable product is not opened"); msym_reach("refused");
}
ENTRY(read_broken)
{
    Pro p; for (int i = 0; i < 12; ++i) p.slope[i] = 1; pro_file(p); no_epilogue(); Seg s; s.chan = pick("linear", 0, 1) ? 1 : 9; s.cols = 3; s.lines = 2; s.bpp = 2; s.seq = 1; unsigned char d[1] = {9}; seg_file(seg_name(1), s, d, 1);
    unsigned k = pick("k", 0, 2); Seg w = s; w.seq = 2; if (k == 0) { s.cols = 3713 + pick("wide", 0, 2) * 20000; w.cols = s.cols; seg_file(seg_name(1), s, d, 1); } seg_file(seg_name(2), w, d, 1);
    GDALDataset* ds = open(); msym_assert(ds != nullptr, "opened"); if (k == 1) { w.cols = 2; seg_file(seg_name(2), w, d, 1); } if (k == 2) { auto f = seg_bytes(w, d, 1); msym_file(seg_name(2).c_str(), f.data(), f.size() - 1); }
    float* buf = new float[3712]; CPLErr r = CE_None; int threw = 0; try { r = ds->GetRasterBand(1)->ReadBlock(0, 3711 - 2, buf); } catch (...) { threw = 1; } msym_assert(!threw && r == CE_Failure, "a damaged segment is a read error"); msym_reach("failed");
    if (k != 0) msym_assert(ds->GetRasterBand(1)->ReadBlock(0, 3711, buf) == CE_None, "other lines can still be read"); delete[] buf; delete ds;
}
// ---- derived products
static void seg_for(const char* nm, unsigned chan) { Seg s; s.chan = chan; s.bpp = 2; unsigned char d[1] = {9}; seg_file(seg_name(1, nm), s, d, 1); }
ENTRY(suffixes)
{
    Pro p; for (int i = 0; i < 12; ++i) { p.slope[i] = 1; p.off[i] = 1; } pro_file(p); no_epilogue(); unsigned k = pick("k", 0, 6), miss = k == 1 ? pick("miss", 0, 3) : 0; static const char* const nm[] = {"VIS006r", "IR_039r", "IR_039a", "IR_108r", "VIS006a", "IR_108", "IR_120r"};
    if (miss != 1) seg_for("IR_039___", 4); if (miss != 2) seg_for("IR_108___", 9); if (miss != 3) seg_for("IR_134___", 11); seg_for("VIS006___", 1); seg_for("IR_120___", 10);
    std::string n = std::string("H:MSG1:") + nm[k] + ":200611141200"; GDALDataset* ds = open(n.c_str());
    auto* r = dynamic_cast<msat::utils::ReflectanceDataset*>(ds); auto* a = dynamic_cast<msat::utils::CosSolZADataset*>(ds); auto* x = dynamic_cast<XRITDataset*>(ds);
    switch (k) {
        case 0: msym_assert(r && r->channel_id == 1, "suffix r: reflectance of the channel"); break;
        case 1: msym_assert(miss ? ds == nullptr : r && r->channel_id == 4, "3.9 um reflectance needs the 10.8 and 13.4 um channels"); if (r) { auto xb = dynamic_cast<XRITRasterBand*>(r->sources[3]), yb = dynamic_cast<XRITRasterBand*>(r->sources[8]), zb = dynamic_cast<XRITRasterBand*>(r->sources[10]); msym_assert(xb && yb && zb && xb->channel_id == 4 && yb->channel_id == 9 && zb->channel_id == 11, "each source is its own channel"); msym_reach("r39"); } break;
        case 2: case 4: msym_assert(a != nullptr, "suffix a: cosine of the solar zenith angle"); break;
        case 3: case 6: msym_assert(ds == nullptr, "no reflectance of thermal channels"); break;
        case 5: msym_assert(x != nullptr, "no suffix: the channel"); break; }
    if (ds) { msym_assert(ds->GetRasterXSize() == 3712 && ds->GetRasterYSize() == 3712 && md(ds, MD_MSAT_DATETIME) == "2006-11-14 12:00:00", "derived products keep size and time"); check_geo(ds, 1856, Pro().col, Pro().line, 0.0f); int bx, by; ds->GetRasterBand(1)->GetBlockSize(&bx, &by); msym_assert(bx == 3712 && by == 1, "blocks of the source"); delete ds; }
}
ENTRY(options)
{
    Pro p; for (int i = 0; i < 12; ++i) { p.slope[i] = 1; p.off[i] = 1; } pro_file(p); no_epilogue(); unsigned k = pick("k", 0, 5); static const char* const o[] = {"reflectance", "sat_za", "cos_sol_za", "jday", "nonsense", ""}; static const unsigned CH[] = {1, 3, 4, 9}; unsigned chan = CH[pick("chan", 0, 3)]; Seg s; s.chan = chan; s.bpp = 2; unsigned char d[1] = {9}; seg_file(seg_name(1), s, d, 1);
    GDALDataset* ds = open(PRODUCT, o[k]); bool ok = false;
    switch (k) { case 0: { auto* r = dynamic_cast<msat::utils::ReflectanceDataset*>(ds); ok = chan < 4 ? r && r->channel_id == (int)chan : ds == nullptr; break; } case 1: ok = dynamic_cast<msat::utils::SatZADataset*>(ds); break; case 2: ok = dynamic_cast<msat::utils::CosSolZADataset*>(ds); break; case 3: ok = dynamic_cast<msat::utils::JDayDataset*>(ds); break; default: ok = ds == nullptr; }
    msym_assert(ok, "MSAT_COMPUTE selects the derived product; anything else is refused"); delete ds;
}
// registration
extern "C" void GDALRegister_MsatXRIT();
ENTRY(registered) { GDALRegister_MsatXRIT(); GDALDriver* d = (GDALDriver*)GDALGetDriverByName("MsatXRIT"); msym_assert(d && d->pfnOpen == msat::xrit::XRITOpen, "the driver opens xRIT products"); GDALRegister_MsatXRIT(); msym_assert(GDALGetDriverByName("MsatXRIT") == d, "registering again changes nothing"); }
