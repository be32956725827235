// The GDAL driver for GRIB.
#include "gribstub.h"
#include "fakeds.h"
#include <msat/facts.h>
#include <msat/gdal/dataset.h>
#include <gdal/grib/grib.h>
#include <cmath>
namespace msat { namespace grib { GDALDataset* GRIBOpen(GDALOpenInfo*); GDALDataset* GRIBCreateCopy(const char*, GDALDataset*, int, char**, GDALProgressFunc, void*); } }
namespace facts = msat::facts;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static double finite(const char* n, double lo, double hi) { double d = msym_f64(n); msym_assume((d >= lo) & (d <= hi)); return d; }
static GDALDataset* open(const char* f) { GDALOpenInfo i(f, 0); GDALDataset* r = nullptr; int threw = 0; try { r = msat::grib::GRIBOpen(&i); } catch (...) { threw = 1; } msym_assert(!threw, "no exception leaves the driver when opening"); return r; }
extern "C" GDALDatasetH GDALOpen(const char* f, GDALAccess) { return open(f); }
static GDALDataset* copy(GDALDataset* src, const char* templ, const char* f = "o.grib")
{
    char opt[64]; char* opts[2] = {opt, nullptr}; if (templ) snprintf(opt, sizeof opt, "TEMPLATE=%s", templ);
    GDALDataset* r = nullptr; int threw = 0; try { r = msat::grib::GRIBCreateCopy(f, src, 1, templ ? opts : nullptr, nullptr, nullptr); } catch (...) { threw = 1; }
    msym_assert(!threw, "no exception leaves the driver when writing"); return r;
}
static std::string md(GDALMajorObject* o, const char* k) { const char* v = o->GetMetadataItem(k, MD_DOMAIN_MSAT); return v ? v : "(none)"; }
static const char* const TEMPLATES[] = {"msat/wmo", "msat/ecmwf", "msat/msat", nullptr};
static const int SATS[] = {55, 56, 57, 70};
static const char* const NAMES[] = {"", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV"};
static void quiet() { msym_deny_open("/tmp/trace-gribapi"); }
struct Src : FakeDS
{
    FakeBand* b;
    Src(int w = 3, int h = 2, bool hrv = false, int sat = 57, const char* chan = "9", const char* when = "2010-03-04 05:06:00", int x = 700, int y = 300, double lon = 0) : FakeDS(w, h)
    {
        msat::dataset::set_spaceview(osr, lon); double px = hrv ? METEOSAT_PIXELSIZE_X_HRV : METEOSAT_PIXELSIZE_X; int c = hrv ? METEOSAT_IMAGE_NCOLUMNS_HRV / 2 : METEOSAT_IMAGE_NCOLUMNS / 2;
        double g[6] = {-(c - x) * px, px, 0, (c - y) * px, 0, -px}; memcpy(gt, g, sizeof g); if (when) time(when); char s[16]; snprintf(s, sizeof s, "%d", sat); if (sat) SetMetadataItem(MD_MSAT_SPACECRAFT_ID, s, MD_DOMAIN_MSAT);
        b = band(GDT_Float64, w, 1, chan); for (int i = 0; i < w * h; ++i) b->px[i] = 200 + 7 * i; b->nodata = -1;
    }
};
static int drop_all(GDALDataset* d) { delete d; return g_handles == 0; }
// ---- writing and reading back
ENTRY(values)
{
    quiet(); unsigned t = pick("template", 0, 3); bool hrv = t && pick("hrv", 0, 1); Src s(2, 2, hrv); s.b->has_nodata = 1; s.b->nodata = pick("nodata", 0, 1) ? 0 : 65535; unsigned kind = pick("pixels", 0, 2); static const double SL[] = {1, 0.5, -0.0625, 0.2051}, OF[] = {0, 10, 3000, -10.46}; unsigned k = pick("scale", 0, 3); s.b->slope = SL[k]; s.b->off = OF[k];
    int missing = 0; double miss[4]; for (int i = 0; i < 4; ++i) { if (kind == 2 || (kind == 1 && i != 2)) s.b->px[i] = s.b->nodata; else if (i & 1) s.b->px[i] = 700 + i; else s.b->px[i] = (double)msym_range("value", 0, 65535); miss[i] = s.b->px[i] == s.b->nodata; missing += (int)miss[i]; }
    GDALDataset* d = copy(&s, TEMPLATES[t]);
    if (missing == 4) { msym_assert(!d, "an image without data cannot be written"); unsigned char z; msym_assert(msym_file_get("o.grib", &z, 1) < 0, "and nothing is"); msym_reach("nothing"); return; }
    msym_assert(d != nullptr, "the image is written"); msym_assert(d->GetRasterXSize() == 2 && d->GetRasterYSize() == 2 && d->GetRasterCount() == 1, "size"); GDALRasterBand* b = d->GetRasterBand(1); msym_assert(b->GetRasterDataType() == GDT_Float64, "type");
    double* v = new double[4]; msym_assert(b->ReadBlock(0, 0, v) == CE_None, "and can be read back"); int ok1 = 0, ok2 = 0, ok3 = 0; double nd = b->GetNoDataValue(&ok1); msym_assert(ok1 && b->GetScale(&ok2) == 1 && ok2 && b->GetOffset(&ok3) == 0 && ok3, "values are final");
    for (int i = 0; i < 4; ++i) { if (miss[i]) { msym_assert(closeD(v[i], nd), "missing values stay missing"); msym_reach("missing"); } else { msym_assert(closeD(v[i], s.b->px[i] * s.b->slope + s.b->off), "values keep their meaning and place"); msym_reach("value"); } }
    delete[] v; msym_assert(drop_all(d), "messages are released");
}
ENTRY(channels)
{
    quiet(); unsigned t = pick("template", 0, 3), k = pick("sat", 0, 3), c = pick("channel", 1, 12); char cs[8]; snprintf(cs, sizeof cs, "%u", c); Src s(3, 2, c == 12, SATS[k], cs); GDALDataset* d = copy(&s, TEMPLATES[t]); msym_assert(d != nullptr, "written");
    char b[16]; snprintf(b, sizeof b, "%d", SATS[k]); msym_assert(md(d, MD_MSAT_SPACECRAFT_ID) == b && md(d, MD_MSAT_SPACECRAFT) == facts::spacecraftName(SATS[k]), "spacecraft");
    GDALRasterBand* rb = d->GetRasterBand(1); msym_assert(md(rb, MD_MSAT_CHANNEL_ID) == cs && md(rb, MD_MSAT_CHANNEL) == NAMES[c] && std::string(rb->GetDescription()) == NAMES[c], "channel"); msym_assert(std::string(rb->GetUnitType()) == facts::channelUnit(SATS[k], c), "unit");
    msym_assert(sameD(rb->GetNoDataValue(), facts::defaultScaledMissing(c)), "missing value of the channel"); msym_assert(drop_all(d), "released"); msym_reach("read");
}
ENTRY(times)
{
    quiet(); static const char* const T[] = {"1999-12-31 23:59:00", "2000-01-01 00:00:00", "2000-02-29 12:30:00", "2001-01-01 00:15:00", "2005-12-19 14:15:00", "2010-10-10 10:10:00", "2021-06-30 06:45:00", "2099-12-31 23:45:00", "2100-03-01 01:01:00"};
    unsigned t = pick("template", 0, 2), i = pick("time", 0, 8); Src s(3, 2, false, 57, "9", T[i]); GDALDataset* d = copy(&s, TEMPLATES[t]); msym_assert(d && md(d, MD_MSAT_DATETIME) == T[i], "the image time"); msym_assert(drop_all(d), "released");
    Src s2(3, 2, false, 57, "9", "2011-12-13 14:15:59"); d = copy(&s2, TEMPLATES[t]); msym_assert(d && md(d, MD_MSAT_DATETIME) == (t ? "2011-12-13 14:15:00" : "2011-12-13 14:15:59"), "seconds, where the edition has them"); msym_assert(drop_all(d), "released"); msym_reach("read");
}
ENTRY(bad_times)
{
    quiet(); static const char* const T[] = {"", "2010", "2010-03-04", "2010-03-04 05:06", "yesterday", "2010/03/04 05:06:07"}; unsigned t = pick("template", 0, 2), i = pick("time", 0, 5); Src s(3, 2, false, 57, "9", T[i]);
    msym_assert(!copy(&s, TEMPLATES[t]), "a time that cannot be understood is refused"); msym_assert(g_handles == 0, "released");
}
ENTRY(place)
{
    quiet(); unsigned t = pick("template", 0, 2); bool hrv = pick("hrv", 0, 1); int c = hrv ? 5568 : 1856; Src s(3, 2, hrv); double px = s.gt[1]; s.b->px.assign(6, 5);
    int x = (int)msym_range("x", 0, hrv ? 11135 : 3711), y = (int)msym_range("y", 0, hrv ? 11135 : 3711); bool vary_x = pick("axis", 0, 1); if (vary_x) y = 123; else x = 77;
    s.gt[0] = -(c - x) * px; s.gt[3] = (c - y) * px; double lon = finite("lon", -180, 180); msat::dataset::set_spaceview(s.osr, lon);
    GDALDataset* d = copy(&s, TEMPLATES[t]); msym_assert(d != nullptr, "written"); double g[6]; msym_assert(d->GetGeoTransform(g) == CE_None, "geotransform"); double q = hrv ? 1000.12 : 3000.4;
    msym_assert(g[1] - q < 0.05 && q - g[1] < 0.05 && g[5] + q < 0.05 && -q - g[5] < 0.05 && g[2] == 0 && g[4] == 0, "pixel size"); double ex = g[0] + (c - x) * g[1], ey = g[3] - (c - y) * g[1]; msym_assert((ex < 0.01) & (ex > -0.01) & (ey < 0.01) & (ey > -0.01), "the image stays in place, to the pixel");
    OGRErr e; const OGRSpatialReference* o = d->GetSpatialRef(); msym_assert(o && closeD(o->GetProjParm("central_meridian", 999.0, &e), lon) && o->GetProjParm("satellite_height", 0.0, &e) == 35785831, "projection"); msym_assert(drop_all(d), "released"); msym_reach("read");
}
ENTRY(shapes)
{
    quiet(); static const int W[] = {1, 1, 5, 7, 13, 300, 9}, H[] = {1, 6, 1, 3, 2, 7, 260}; unsigned t = pick("template", 0, 2), k = pick("shape", 0, 6); int w = W[k], h = H[k]; Src s(w, h); for (int i = 0; i < w * h; ++i) s.b->px[i] = 100 + i; s.b->has_slope = s.b->has_off = s.b->has_nodata = 0; s.b->nodata = -1e10;
    GDALDataset* d = copy(&s, TEMPLATES[t]); msym_assert(d && d->GetRasterXSize() == w && d->GetRasterYSize() == h, "size"); double* v = new double[w * h]; msym_assert(d->GetRasterBand(1)->ReadBlock(0, 0, v) == CE_None, "read"); int ok = 1; for (int i = 0; i < w * h; ++i) ok &= v[i] == 100 + i; msym_assert(ok, "values in order"); delete[] v; msym_assert(drop_all(d), "released"); msym_reach("read");
}
// more missing pixels than 16 bits count
ENTRY(sparse)
{
    quiet(); unsigned t = pick("template", 0, 2), n = THOROUGH ? pick("present", 0, 2) : 1; const int w = 258, h = 256; static const int N[] = {1, 512, 450}; int at = (int)pick("at", 0, 1) * 65000; Src s(w, h); s.b->has_nodata = 1; s.b->nodata = 65535; s.b->has_slope = s.b->has_off = 0; for (int i = 0; i < w * h; ++i) s.b->px[i] = i >= at && i < at + N[n] ? 100 + i % 250 : 65535;
    GDALDataset* d = copy(&s, TEMPLATES[t]); msym_assert(d != nullptr, "written"); double* v = new double[w * h]; GDALRasterBand* b = d->GetRasterBand(1); msym_assert(b->ReadBlock(0, 0, v) == CE_None, "read"); double nd = b->GetNoDataValue(); int ok = 1, none = 1; for (int i = 0; i < w * h; ++i) if (i >= at && i < at + N[n]) ok &= v[i] == 100 + i % 250; else none &= v[i] == nd; msym_assert(ok, "the few values in place"); msym_assert(none, "missing elsewhere"); delete[] v; msym_assert(drop_all(d), "released"); msym_reach("sparse");
}
ENTRY(without_metadata)
{
    quiet(); Src s(3, 2, false, 0, nullptr, nullptr); unsigned t = pick("template", 0, 2); GDALDataset* d = copy(&s, TEMPLATES[t]); if (d) { double v[6]; msym_assert(d->GetRasterBand(1)->ReadBlock(0, 0, v) == CE_None && v[5] == 235, "values"); } msym_assert(drop_all(d), "released");
}
// ---- what cannot be written
ENTRY(unsupported)
{
    quiet(); unsigned t = pick("template", 0, 2), k = pick("what", 0, 11); bool hrv = pick("hrv", 0, 1); Src s(3, 2, hrv); const char* tn = TEMPLATES[t]; double v; FakeDS none(3, 2); GDALDataset* src = &s;
    switch (k)
    {
        case 0: v = finite("rot", -1e6, 1e6); msym_assume(v != 0); s.gt[2] = v; break;
        case 1: v = finite("rot", -1e6, 1e6); msym_assume(v != 0); s.gt[4] = v; break;
        case 2: v = finite("px", -1e5, 1e5); msym_assume(((v < 2999) | (v > 3002)) & ((v < 999) | (v > 1002))); s.gt[1] = v; break;
        case 3: v = finite("py", -1e5, 1e5); msym_assume((v < -3002) | ((v > -2999) & (v < -1002)) | (v > -999)); s.gt[5] = v; break;
        case 4: s.gt[5] = hrv ? -METEOSAT_PIXELSIZE_Y : -METEOSAT_PIXELSIZE_Y_HRV; break;
        case 5: s.osr.SetGEOS(0, 35785830, 0, 0); break;
        case 6: { OGRSpatialReference o; s.osr = o; break; }
        case 7: s.has_osr = false; break;
        case 8: src = &none; break;
        case 9: tn = "msat/none"; break;
        case 10: s.b->fail = 1; break;
        case 11: g_no_sample = 1; break;
    }
    msym_assert(!copy(src, tn), "what GRIB cannot hold is refused"); unsigned char z; msym_assert(msym_file_get("o.grib", &z, 1) < 0, "and nothing is written"); msym_assert(g_handles == 0, "released"); msym_reach("refused");
}
ENTRY(write_fails)
{
    quiet(); unsigned t = pick("template", 0, 2), k = pick("what", 0, 3); Src first(3, 2), s(3, 2, false, 56, "10"); GDALDataset* d = copy(&first, TEMPLATES[t], "old.grib"); msym_assert(d != nullptr, "an older file"); delete d;
    const char* f = "old.grib"; if (k == 0) f = "nodir/x.grib"; if (k == 1) f = "/dev/full"; if (k == 2) g_no_message = 1; if (k == 3) f = "";
    msym_assert(!copy(&s, TEMPLATES[t], f), "a write that fails is a failed copy"); msym_assert(g_handles == 0, "released"); msym_reach("failed");
}
static int copy_calls(unsigned t) { Src s; g_fail_at = -1; g_calls = 0; GDALDataset* d = copy(&s, TEMPLATES[t], "ok.grib"); msym_assert(d != nullptr, "works without faults"); delete d; return g_calls; }
ENTRY(copy_faults)
{
    quiet(); unsigned t = pick("template", 0, 2); int n = copy_calls(t), at = (int)pick("at", 0, 120); if (at >= n) { msym_reach("past"); return; } unsigned code = pick("code", 0, 1);
    Src s(3, 2, false, 56, "10"); g_calls = 0; g_fail_at = at; g_fail_code = code ? -9 : GRIB_NOT_FOUND; GDALDataset* d = copy(&s, TEMPLATES[t]);
    if (d) { double v[6], g[6]; OGRErr e; g_fail_at = -1; msym_assert(d->GetRasterBand(1)->ReadBlock(0, 0, v) == CE_None && v[0] == 200 && v[5] == 235 && md(d, MD_MSAT_SPACECRAFT_ID) == "56" && md(d->GetRasterBand(1), MD_MSAT_CHANNEL_ID) == "10" && md(d, MD_MSAT_DATETIME) == "2010-03-04 05:06:00" && d->GetGeoTransform(g) == CE_None && fabs(g[0] - s.gt[0]) < 1000 && fabs(g[3] - s.gt[3]) < 1000, "a copy that is reported as done is complete"); msym_reach("harmless"); }
    else msym_reach("failed");
    msym_assert(drop_all(d), "released");
}
ENTRY(read_faults)
{
    quiet(); unsigned t = pick("template", 0, 2); Src s; GDALDataset* d = copy(&s, TEMPLATES[t]); msym_assert(d != nullptr, "written"); int at = (int)pick("at", 0, 12); double v[6], g[6]; g_calls = 0; g_fail_at = at; int threw = 0; CPLErr r1 = CE_Failure, r2 = CE_Failure;
    try { r1 = d->GetRasterBand(1)->ReadBlock(0, 0, v); r2 = d->GetGeoTransform(g); } catch (...) { threw = 1; } msym_assert(!threw, "no exception leaves the driver when reading");
    if (at == 0) { msym_assert(r1 == CE_Failure, "a failed read is reported"); msym_reach("failed"); } else msym_assert(r1 == CE_None && v[5] == 235, "read"); if (r2 == CE_None) msym_assert(fabs(g[0] - s.gt[0]) < 1000 && fabs(g[3] - s.gt[3]) < 1000, "a geotransform that is given is right");
    g_fail_at = -1; try { r1 = ((GDALRasterBand*)d->GetRasterBand(1))->ReadBlock(0, 0, v); } catch (...) { threw = 1; } msym_assert(!threw && r1 == CE_None, "and the next read works"); msym_assert(drop_all(d), "released");
}
// ---- GRIB files from elsewhere
static grib_handle* foreign(int edition)
{
    static grib_handle h; h = grib_handle(); h.edition = edition; for (auto k : {"numberOfPointsAlongXAxis", "numberOfPointsAlongYAxis"}) set_l(&h, k, 2); set_l(&h, "month", 7); set_l(&h, "day", 8); set_l(&h, "hour", 9); set_l(&h, "minute", 10); set_l(&h, "bitmapPresent", 0); set_d(&h, "missingValue", 9999);
    if (edition == 1) { set_l(&h, "dataRepresentationType", 90); set_l(&h, "centuryOfReferenceTimeOfData", 21); set_l(&h, "yearOfCentury", 7); set_l(&h, "indicatorOfTypeOfLevel", 55); set_l(&h, "level", 9); }
    else { set_l(&h, "gridDefinitionTemplateNumber", 90); set_l(&h, "productDefinitionTemplateNumber", 31); set_l(&h, "year", 2007); set_l(&h, "second", 11); set_l(&h, "satelliteNumber", 55); set_l(&h, "scaleFactorOfCentralWaveNumber", 0); set_l(&h, "scaledValueOfCentralWaveNumber", 92593); }
    set_d(&h, "longitudeOfSubSatellitePointInDegrees", 0); set_l(&h, "XpInGridLengths", 1856); set_l(&h, "YpInGridLengths", 1856); set_l(&h, "Xo", 5); set_l(&h, "Yo", 6); set_l(&h, "dx", 3622); set_l(&h, "dy", 3622); h.vals = {1, 2, 3, 4}; h.miss = {0, 0, 0, 0}; return &h;
}
static void foreign_file(grib_handle* h, const char* f = "f.grib") { save(h); unsigned char b[16]; token(b, g_nsaved - 1); msym_file(f, b, sizeof b); }
ENTRY(any_wave_number)
{
    quiet(); grib_handle* h = foreign(2); static const long SAT[] = {0, 54, 55, 56, 57, 58, 70, 71, 255, 65535, -1, 2147483647L}; static const long V[] = {0, 1, -1, 16667, 12500, 6250, 25641, 16129, 13699, 11494, 10309, 9259, 92593, 925926, 8333, 7463, 14286, 142857, 1428571, 500000, 2147483647L}; static const long S[] = {0, 1, 2, -1, -2, 255};
    long sat = SAT[pick("sat", 0, 11)], v = V[pick("value", 0, 20)], sc = S[pick("scale", 0, 5)]; set_l(h, "satelliteNumber", sat); set_l(h, "scaledValueOfCentralWaveNumber", v); set_l(h, "scaleFactorOfCentralWaveNumber", sc); foreign_file(h);
    bool known = sat == 55 || sat == 56 || sat == 57 || sat == 70; double wl = 1e7 / (v * std::pow(10.0, (double)-sc)); static const int WL[] = {0, 6, 8, 16, 39, 62, 73, 87, 97, 108, 120, 134, 7}; int ch = 0; for (int i = 1; i <= 12; ++i) if (wl > WL[i] - 0.45 && wl < WL[i] + 0.45) ch = i;
    GDALDataset* d = open("f.grib"); if (!known) { msym_assert(!d, "the channels of other satellites are not known"); msym_reach("refused"); } else if (ch) { char b[8]; snprintf(b, sizeof b, "%d", ch); msym_assert(d && md(d->GetRasterBand(1), MD_MSAT_CHANNEL_ID) == b, "the channel with that wave number"); msym_reach("known"); } else msym_reach("other");
    msym_assert(drop_all(d), "released");
}
ENTRY(any_level)
{
    quiet(); grib_handle* h = foreign(1); static const long SAT[] = {0, 1, 54, 55, 56, 57, 70, 112, 255}, L[] = {0, 1, 2, 3, 4, 9, 12, 13, 14, 15, 16, 17, 100, 1000, 65535}; long sat = SAT[pick("sat", 0, 8)], l = L[pick("level", 0, 14)]; set_l(h, "indicatorOfTypeOfLevel", sat); set_l(h, "level", l); foreign_file(h); GDALDataset* d = open("f.grib");
    msym_assert(d != nullptr, "opened"); char b[16]; snprintf(b, sizeof b, "%ld", l); GDALRasterBand* rb = d->GetRasterBand(1); msym_assert(md(rb, MD_MSAT_CHANNEL_ID) == b, "channel"); if (sat >= 55 && sat <= 57 && l >= 1 && l <= 12) { msym_assert(md(rb, MD_MSAT_CHANNEL) == NAMES[l], "name"); msym_reach("known"); } double v[4]; msym_assert(rb->ReadBlock(0, 0, v) == CE_None && v[0] == 1 && v[3] == 4, "values"); msym_assert(drop_all(d), "released");
}
ENTRY(any_grid)
{
    quiet(); grib_handle* h = foreign(1 + (int)pick("edition", 0, 1)); long xp = msym_range("xp", 0, 12000), yp = msym_range("yp", 0, 12000), xo = msym_range("xo", 0, 12000), yo = msym_range("yo", 0, 12000); static const long D[] = {3622, 10866, 3608, 1}; long dx = D[pick("dx", 0, 3)], dy = D[pick("dy", 0, 1)];
    set_l(h, "XpInGridLengths", xp); set_l(h, "YpInGridLengths", yp); set_l(h, "Xo", xo); set_l(h, "Yo", yo); set_l(h, "dx", dx); set_l(h, "dy", dy); double lon = finite("lon", -180, 180); set_d(h, "longitudeOfSubSatellitePointInDegrees", lon); foreign_file(h);
    GDALDataset* d = open("f.grib"); msym_assert(d != nullptr, "opened"); double g[6]; msym_assert(d->GetGeoTransform(g) == CE_None, "geotransform"); double px = facts::pixelHSizeFromSeviriDX(dx), py = facts::pixelVSizeFromSeviriDY(dy);
    msym_assert(closeD(g[0], (double)(xo - xp) * px) & closeD(g[3], (double)(yp - yo) * py) & closeD(g[1], px) & closeD(g[5], -py) & (g[2] == 0) & (g[4] == 0), "origin and pixel size"); OGRErr e; msym_assert(closeD(d->GetSpatialRef()->GetProjParm("central_meridian", 999.0, &e), lon), "projection");
    msym_assert(md(d, MD_MSAT_DATETIME) == (h->edition == 1 ? "2007-07-08 09:10:00" : "2007-07-08 09:10:11"), "time"); msym_assert(drop_all(d), "released"); msym_reach("read");
}
ENTRY(local_keys)
{
    quiet(); grib_handle* h = foreign(1); set_l(h, "localDefinitionNumber", 24); set_l(h, "satelliteIdentifier", 56); set_l(h, "channelNumber", 3); foreign_file(h); GDALDataset* d = open("f.grib"); msym_assert(d && md(d, MD_MSAT_SPACECRAFT_ID) == "56" && md(d->GetRasterBand(1), MD_MSAT_CHANNEL_ID) == "3", "the local section comes first"); msym_assert(drop_all(d), "released");
}
ENTRY(missing_keys)
{
    quiet(); int ed = 1 + (int)pick("edition", 0, 1); grib_handle* h = foreign(ed); unsigned k = pick("key", 0, 40); if (k >= h->keys.size()) { msym_reach("past"); return; } const char* n = h->keys[k].name; bool optional = !strcmp(n, "bitmapPresent") || !strcmp(n, "missingValue") || !strcmp(n, "gridDefinitionTemplateNumber"), geo = in_list(n, SPACE) && strncmp(n, "numberOf", 8) && strncmp(n, "long", 4);
    drop(h, n); foreign_file(h); GDALDataset* d = open("f.grib"); double g[6]; if (!optional) { if (geo) msym_assert(d && d->GetGeoTransform(g) == CE_Failure, "no geotransform without its keys"); else if (ed == 1 && (!strcmp(n, "indicatorOfTypeOfLevel") || !strcmp(n, "level"))) msym_assert(!d, "refused"); else if (strcmp(n, "dataRepresentationType") && strcmp(n, "productDefinitionTemplateNumber")) msym_assert(!d, "an image without one of its keys is refused"); msym_reach("checked"); }
    msym_assert(drop_all(d), "released");
}
ENTRY(edition)
{
    quiet(); grib_handle* h = foreign(2); h->edition = 3; foreign_file(h); msym_assert(!open("f.grib"), "other editions are refused"); msym_assert(g_handles == 0, "released");
}
ENTRY(wrong_amount)
{
    quiet(); unsigned n = pick("n", 0, 8); grib_handle* h = foreign(1); h->vals.assign(n, 6.5); h->miss.assign(n, 0); foreign_file(h); GDALDataset* d = open("f.grib"); msym_assert(d != nullptr, "opened"); double* v = new double[4]; CPLErr r = d->GetRasterBand(1)->ReadBlock(0, 0, v); msym_assert((r == CE_None) == (n == 4), "another number of values is an error"); delete[] v; msym_assert(drop_all(d), "released");
}
ENTRY(recognised)
{
    quiet(); foreign_file(foreign(1), "x"); unsigned char t[16]; token(t, g_nsaved - 1); unsigned lead = pick("lead", 0, 20), fill = pick("fill", 0, 2); std::string f(lead, fill == 0 ? 'A' : fill == 1 ? '\0' : '\r'); f.append((char*)t, 16); msym_file("lead", f.data(), f.size()); GDALDataset* d = open("lead"); msym_assert(d != nullptr, "a GRIB message after a header is found"); msym_assert(drop_all(d), "released");
}
ENTRY(others)
{
    quiet(); unsigned char t[16]; unsigned n = pick("n", 0, THOROUGH ? 12 : 7); unsigned char o[16]; msym_make_symbolic(o, n, "octets"); int grib = 0; for (unsigned i = 0; i + 4 <= n; ++i) grib |= (o[i] == 'G') & (o[i + 1] == 'R') & (o[i + 2] == 'I') & (o[i + 3] == 'B'); msym_assume(!grib); msym_file("other", o, n); msym_assert(!open("other"), "other files are left to other drivers"); msym_assert(!open("nowhere"), "and so are files that are not there");
    token(t, 7); msym_file("broken", t, 16); msym_assert(!open("broken"), "a message that cannot be decoded is refused"); msym_assert(g_handles == 0, "released"); msym_reach("left");
}
ENTRY(traced) { Src s; unsigned t = pick("template", 0, 2); GDALDataset* d = copy(&s, TEMPLATES[t]); double v[6]; msym_assert(d && d->GetRasterBand(1)->ReadBlock(0, 0, v) == CE_None && v[5] == 235, "the trace does not change the result"); msym_assert(drop_all(d), "released"); }
ENTRY(registered) { quiet(); GDALRegister_MsatGRIB(); GDALDriver* r = (GDALDriver*)GDALGetDriverByName("MsatGRIB"); msym_assert(r && r->pfnOpen == msat::grib::GRIBOpen && r->pfnCreateCopy == msat::grib::GRIBCreateCopy, "the driver is registered"); GDALRegister_MsatGRIB(); msym_assert(GDALGetDriverByName("MsatGRIB") == r, "once"); }
