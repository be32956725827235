// Reflectances and the other computed datasets of the GDAL plugin.
#include "fakeds.h"
#include <msat/facts.h>
#include <gdal/reflectance/reflectance.h>
#include <gdal/reflectance/cos_sol_za.h>
#include <gdal/reflectance/sat_za.h>
#include <gdal/reflectance/jday.h>
#include <gdal/utils.h>
#include <stdexcept>
using namespace msat::utils;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static const struct { const char* s; int y, mo, d, h, mi; } WHEN[] = {{"2013-06-21 12:15:00", 2013, 6, 21, 12, 15}, {"2012-12-31 06:30:59", 2012, 12, 31, 6, 30}, {"2010-01-03 23:45:10", 2010, 1, 3, 23, 45}, {"2008-03-01 00:00:00", 2008, 3, 1, 0, 0}};
// position of a pixel with the stand-in projection
static double lat_of(const double* g, int x, int y) { double v = g[3] + g[4] * x + g[5] * y; return v / 65536; }
static double lon_of(const double* g, int x, int y) { double v = g[0] + g[1] * x + g[2] * y; return v / 65536; }
static double esd(int jd) { return 1.0 - 0.0167 * cos(2.0 * M_PI * (jd - 3) / 365.0); }
static float percent(double v) { float f = v; if (f != f || f < 0) return 0; if (f > 100) return 100; if (f < 1.17549435e-38f) return 0; return f; }
// symbolic geotransform; cosine and arc functions of symbolic angles are decided by interval reasoning
static void sym_gt(double* g) { unsigned k = pick("moves", 0, 5); static const double B[] = {-1835008, 65536, 2048, 1310720, -4096, -131072}; for (int i = 0; i < 6; ++i) g[i] = B[i]; g[k] = (double)((int)msym_range("gt", 0, 2000) - 1000) * (k % 3 == 0 ? 4096 : 512); }
static void pick_gt(double* g)
{
    static const double G[][6] = {{-65536, 32768, 512, 131072, 256, -65536}, {65536.0 * 60, 65536 * 5, 0, 65536.0 * -55, 0, 65536 * -7}, {65536.0 * -80, 65536 * 40, 4096, 65536.0 * 5, 8192, 65536 * 3}};
    memcpy(g, G[pick("where", 0, 2)], 6 * sizeof(double));
}
// ---- reflectance of the visible channels
ENTRY(visible)
{
    static const int CH[] = {1, 2, 3, 12}; static const double TR[] = {20.76, 23.24, 19.85, 25.11}, SL[] = {0.02, 0.5, -0.25, 4}, OF[] = {-1.02, 0, 30, -200}; unsigned c = pick("channel", 0, 3), k = pick("slope", 0, 3); const auto& w = WHEN[THOROUGH ? pick("when", 0, 3) : (c + k) % 4]; char id[4]; snprintf(id, 4, "%d", CH[c]);
    FakeDS* src = new FakeDS(4, 4); src->time(w.s); FakeBand* b = src->band(GDT_UInt16, 2, 2, id); pick_gt(src->gt); b->slope = SL[k]; b->off = OF[k]; unsigned short raw[4]; for (int i = 0; i < 4; ++i) { char nm[4] = {'r', (char)('0' + i), 0}; raw[i] = (unsigned short)msym_range(nm, 0, 1023); b->px[(2 + i / 2) * 4 + i % 2] = raw[i]; }
    ReflectanceDataset* ds = new ReflectanceDataset(CH[c]); ds->add_source(src, true); ds->init_rasterband(); GDALRasterBand* rb = ds->GetRasterBand(1); msym_assert(rb && rb->GetRasterDataType() == GDT_Float32 && std::string(rb->GetUnitType()) == "%", "reflectance is a percentage");
    int ok1 = 0, ok2 = 0, ok3 = 0; msym_assert(rb->GetScale(&ok1) == 1 && rb->GetOffset(&ok2) == 0 && rb->GetNoDataValue(&ok3) == 0 && ok1 && ok2 && ok3, "not packed; zero where there is none");
    float out[4]; msym_assert(rb->ReadBlock(0, 1, out) == CE_None, "a block is read"); int jd = msat::facts::jday(w.y, w.mo, w.d); double hour = (double)w.h + ((double)w.mi) / 60.0, tr = TR[c] / (esd(jd) * esd(jd));
    for (int i = 0; i < 4; ++i) { int x = i % 2, y = 2 + i / 2; double cz = msat::facts::cos_sol_za(jd, hour, lat_of(src->gt, x, y), lon_of(src->gt, x, y)); if (cz < 0.173648178) cz = 0.173648178; double R = (double)raw[i] * b->slope + b->off; float want = percent(100.0 * R / tr / cz); msym_assert(closeF(out[i], want), "reflectance of the calibrated radiance, at the pixel's sun angle, limited to 0..100"); }
    msym_reach("reflectance"); delete ds; msym_assert(fake_alive == 0, "an entrusted source is released");
}
// ---- reflectance of the 3.9 um channel
ENTRY(ir39)
{
    const auto& w = WHEN[pick("when", 0, 3)]; static const double SL[] = {0.25, 1, 0.5}, OF[] = {150, 0, 100}; double bt[3]; int raw[3]; ReflectanceDataset ds(4); FakeDS* src[3]; unsigned where = pick("where", 0, 2); double g[6] = {0}; g[0] = where == 0 ? 0 : where == 1 ? 65536.0 * 70 : -65536.0 * 30; g[3] = where == 0 ? 0 : where == 1 ? 65536.0 * -35 : 65536.0 * 60; g[1] = 65536; g[5] = -65536;
    static const char* const id[] = {"4", "9", "11"}; unsigned order = pick("order", 0, 2);
    static const int T[][3] = {{290, 280, 260}, {300, 290, 280}, {250, 290, 270}, {310, 270, 230}, {290, 290, 290}, {0, 0, 0}}; unsigned t = pick("t", 0, 5); for (int i = 0; i < 3; ++i) raw[i] = (int)((T[t][i] - OF[i]) / SL[i]); if (t < 5) { raw[0] += (int)msym_concretize(msym_range("near", 0, THOROUGH ? 40 : 4)) * 8; }
    for (int i = 0; i < 3; ++i) { src[i] = new FakeDS(1, 1); memcpy(src[i]->gt, g, sizeof g); src[i]->time(w.s); FakeBand* b = src[i]->band(GDT_Float32, 1, 1, id[i]); b->slope = SL[i]; b->off = OF[i]; b->px[0] = raw[i]; bt[i] = raw[i] * SL[i] + OF[i]; }
    for (unsigned i = 0; i < 3; ++i) ds.add_source(src[(i + order) % 3], true); ds.init_rasterband(); float out; msym_assert(ds.GetRasterBand(1)->ReadBlock(0, 0, &out) == CE_None, "a block is read");
    const double c1 = 1.19104e-5, c2 = 1.43877, nu = 2569.094, A = 0.9959, B = 3.471, Tc = bt[1] - (bt[1] - bt[2]) / 4; double T39 = pow(pow(bt[0], 4) + pow(bt[1], 4) - pow(Tc, 4), 0.25); int jd = msat::facts::jday(w.y, w.mo, w.d); double la = g[3] / 65536, lo = g[0] / 65536, cz = msat::facts::cos_sol_za(jd, w.h + w.mi / 60.0, la, lo), co2 = pow(Tc / bt[1], 4); if (cz < 0.173648178) cz = 0.173648178;
    double tot = c1 * nu * nu * nu / (exp(c2 * nu / (A * T39 + B)) - 1) + 0.015, therm = co2 * c1 * nu * nu * nu / (exp(c2 * nu / (A * bt[1] + B)) - 1), sun = 4.92 / esd(jd) / esd(jd) * pow(cz, 0.75) * exp(-(1 - co2) * cz) * exp(-(1 - co2) / cos(msat::facts::sat_za(la, lo)));
    if (tot <= therm) tot = therm + 1e-7; if (sun <= therm) sun = therm + 1e-7; msym_assert(closeF(out, percent(100 * (tot - therm) / sun)), "3.9 um reflectance: the CO2 corrected solar part of the radiance, limited to 0..100"); msym_reach("reflectance");
}
// wide and tall images, lines read in any order and again, two images at once
ENTRY(wide)
{
    static const int W[] = {700, 5, 130}, H[] = {3, 600, 2}, BW[] = {700, 5, 65}; unsigned shape = pick("shape", 0, 2); int w = W[shape], h = H[shape], bw = BW[shape]; const auto& t = WHEN[0]; const auto& t2 = WHEN[2]; double g[6] = {-65536.0 * 35, 65536.0 * 70 / w, 0, 65536.0 * 40, 0, -65536.0 * 80 / h}; int jd[2] = {msat::facts::jday(t.y, t.mo, t.d), msat::facts::jday(t2.y, t2.mo, t2.d)}; double hour[2] = {t.h + t.mi / 60.0, t2.h + t2.mi / 60.0};
    ReflectanceDataset* ds[2]; CosSolZADataset* sun[2]; FakeDS* keep[2]; for (int k = 0; k < 2; ++k) { FakeDS* src = keep[k] = new FakeDS(w, h); src->time(k ? t2.s : t.s); memcpy(src->gt, g, sizeof g); FakeBand* b = src->band(GDT_UInt16, bw, 1, "1"); b->slope = 0.02; b->off = -1.02; for (int i = 0; i < w * h; ++i) b->px[i] = (i * 31 + k * 500) % 1024; ds[k] = new ReflectanceDataset(1); ds[k]->add_source(src, false); ds[k]->init_rasterband(); sun[k] = new CosSolZADataset(src); }
    float* out = new float[bw]; double* ang = new double[bw]; for (unsigned n = 0; n < 2; ++n) { unsigned k = pick(n ? "image1" : "image0", 0, 1), yy = pick(n ? "line1" : "line0", 0, 1); int y = yy ? h - 1 : h / 2, bx = pick(n ? "block1" : "block0", 0, 1); if (w == bw && bx) return; msym_assert(ds[k]->GetRasterBand(1)->ReadBlock(bx, y, out) == CE_None, "a block is read"); 
        int ok = 1, sok = 1; for (int i = 0; i < bw; ++i) { int x = bx * bw + i; double cz = msat::facts::cos_sol_za(jd[k], hour[k], lat_of(g, x, y), lon_of(g, x, y)); double z = cz > 0 ? cz : 0; if (cz < 0.173648178) cz = 0.173648178; double R = ((y * w + x) * 31 + k * 500) % 1024 * 0.02 - 1.02; float want = percent(100.0 * R / (20.76 / (esd(jd[k]) * esd(jd[k]))) / cz); ok &= (int)closeF(out[i], want); ang[i] = z; } msym_assert(ok, "the reflectance of every pixel of the block");
        if (w == bw) { double* a = new double[w]; msym_assert(sun[k]->GetRasterBand(1)->ReadBlock(0, y, a) == CE_None, "a line is read"); for (int i = 0; i < w; ++i) sok &= (int)closeD(a[i], ang[i]); msym_assert(sok, "the sun angle of every pixel of the line"); delete[] a; } }
    delete[] out; delete[] ang; for (int k = 0; k < 2; ++k) { delete ds[k]; delete sun[k]; delete keep[k]; } msym_reach("wide");
}
// images read in tiles, each derived kind, in any order
ENTRY(tiled)
{
    const int w = 6, h = 6, bw = 2, bh = 3; const auto& t = WHEN[pick("when", 0, 1) * 2]; FakeDS* src = new FakeDS(w, h); src->time(t.s); double g[6] = {-65536.0 * 20, 65536.0 * 7, 512, 65536.0 * 30, 256, -65536.0 * 9}; memcpy(src->gt, g, sizeof g); static const char* const ID[] = {"1", "4", "9", "11"}; FakeBand* b[4]; for (int k = 0; k < 4; ++k) { b[k] = src->band(k ? GDT_Float32 : GDT_UInt16, bw, bh, ID[k]); b[k]->slope = k ? 0.5 : 0.02; b[k]->off = k ? 100 : -1.02; for (int i = 0; i < w * h; ++i) b[k]->px[i] = k ? 380 - k * 12 + i : (i * 31) % 1024; }
    CosSolZADataset sun(src); SatZADataset sat(src); JDayDataset day(src); ReflectanceDataset r(1), ir(4); r.add_source(src, false); ir.add_source(src, false); r.init_rasterband(); ir.init_rasterband(); int jd = msat::facts::jday(t.y, t.mo, t.d); double hour = t.h + t.mi / 60.0;
    const double c1 = 1.19104e-5, c2 = 1.43877, nu = 2569.094, A = 0.9959, B = 3.471;
    for (unsigned n = 0; n < 2; ++n) { int bx = pick(n ? "column1" : "column0", 0, 2), by = pick(n ? "row1" : "row0", 0, 1); double z[6], s[6]; float f[6], q[6]; short d[6]; msym_assert(sun.GetRasterBand(1)->ReadBlock(bx, by, z) == CE_None && sat.GetRasterBand(1)->ReadBlock(bx, by, s) == CE_None && day.GetRasterBand(1)->ReadBlock(bx, by, d) == CE_None && r.GetRasterBand(1)->ReadBlock(bx, by, f) == CE_None && ir.GetRasterBand(1)->ReadBlock(bx, by, q) == CE_None, "a tile is read"); int zok = 1, sok = 1, dok = 1, fok = 1, qok = 1;
        for (int i = 0; i < 6; ++i) { int x = bx * bw + i % bw, y = by * bh + i / bw, at = y * w + x; double la = lat_of(g, x, y), lo = lon_of(g, x, y), c = msat::facts::cos_sol_za(jd, hour, la, lo), v = msat::facts::sat_za(la, lo); zok &= closeD(z[i], c > 0 ? c : 0); double vv = v; if (vv > 1) vv = 1; sok &= closeD(s[i], vv); dok &= d[i] == jd; if (c < 0.173648178) c = 0.173648178; fok &= closeF(f[i], percent(100.0 * (b[0]->px[at] * 0.02 - 1.02) / (20.76 / (esd(jd) * esd(jd))) / c));
            double T[3]; for (int k = 0; k < 3; ++k) T[k] = b[k + 1]->px[at] * 0.5 + 100; double Tc = T[1] - (T[1] - T[2]) / 4, T39 = pow(pow(T[0], 4) + pow(T[1], 4) - pow(Tc, 4), 0.25), co2 = pow(Tc / T[1], 4), tot = c1 * nu * nu * nu / (exp(c2 * nu / (A * T39 + B)) - 1) + 0.015, therm = co2 * c1 * nu * nu * nu / (exp(c2 * nu / (A * T[1] + B)) - 1), su = 4.92 / esd(jd) / esd(jd) * pow(c, 0.75) * exp(-(1 - co2) * c) * exp(-(1 - co2) / cos(v)); if (tot <= therm) tot = therm + 1e-7; if (su <= therm) su = therm + 1e-7; qok &= closeF(q[i], percent(100 * (tot - therm) / su)); }
        msym_assert(zok, "sun angles of the tile"); msym_assert(sok, "satellite angles of the tile"); msym_assert(dok, "day of the tile"); msym_assert(fok, "reflectance of the tile"); msym_assert(qok, "3.9 um reflectance of the tile"); }
    delete src; msym_reach("tiles");
}
// ---- angles and day
static FakeDS* prototype(const char* t, int w = 3, int h = 2, int bw = 3, int bh = 1) { FakeDS* d = new FakeDS(w, h, 9.5); d->time(t); d->band(GDT_UInt16, bw, bh, "9"); return d; }
ENTRY(sun_angle)
{
    const auto& w = WHEN[pick("when", 0, 3)]; FakeDS* src = prototype(w.s); sym_gt(src->gt); double g[6]; memcpy(g, src->gt, sizeof g); CosSolZADataset* ds = new CosSolZADataset(src); delete src; msym_assert(fake_alive == 0, "the source is not needed any more"); GDALRasterBand* rb = ds->GetRasterBand(1);
    msym_assert(rb && rb->GetRasterDataType() == GDT_Float64 && ds->GetRasterXSize() == 3 && ds->GetRasterYSize() == 2, "size of the source"); unsigned y = pick("y", 0, 1); double out[3]; msym_assert(rb->ReadBlock(0, y, out) == CE_None, "a block is read");
    int jd = msat::facts::jday(w.y, w.mo, w.d); double hour = (double)w.h + ((double)w.mi) / 60.0; for (int x = 0; x < 3; ++x) { double z = msat::facts::cos_sol_za(jd, hour, lat_of(g, x, y), lon_of(g, x, y)); if (!(z > 0)) z = 0; if (z > 1) z = 1; msym_assert(closeD(out[x], z), "cosine of the solar zenith angle of each pixel, zero at night"); }
    delete ds;
}
ENTRY(satellite_angle)
{
    FakeDS* src = prototype("2013-06-21 12:00:00"); sym_gt(src->gt); double g[6]; memcpy(g, src->gt, sizeof g); SatZADataset* ds = new SatZADataset(src); delete src; GDALRasterBand* rb = ds->GetRasterBand(1); msym_assert(rb && rb->GetRasterDataType() == GDT_Float64, "angles"); unsigned y = pick("y", 0, 1); double out[3]; msym_assert(rb->ReadBlock(0, y, out) == CE_None, "a block is read");
    for (int x = 0; x < 3; ++x) { double z = msat::facts::sat_za(lat_of(g, x, y), lon_of(g, x, y)); if (!(z > 0)) z = 0; if (z > 1) z = 1; msym_assert(closeD(out[x], z), "satellite zenith angle of each pixel in radians, limited to 0..1"); }
    delete ds;
}
ENTRY(day)
{
    int y = 2000 + (int)pick("year", 0, 4) * 3, m = (int)pick("month", 1, 12); int d = (int)(m % 3 == 0 ? 1 : 28); char t[32]; snprintf(t, sizeof t, "%04d-%02d-%02d 23:59:59", y, m, d); FakeDS* src = prototype(t, 4, 2, 2, 2); JDayDataset ds(src); delete src; short out[4] = {-1, -1, -1, -1}; msym_assert(ds.GetRasterBand(1)->GetRasterDataType() == GDT_Int16 && ds.GetRasterBand(1)->ReadBlock(1, 0, out) == CE_None, "a block is read"); int j = msat::facts::jday(y, m, d);
    for (int i = 0; i < 4; ++i) msym_assert(out[i] == j, "day of the year everywhere"); msym_assert(std::string(ds.GetRasterBand(1)->GetUnitType()) == "day", "unit");
}
// points that are not on the Earth
ENTRY(off_earth)
{
    FakeDS* src = prototype("2013-06-21 12:00:00"); src->gt[3] = HUGE_VAL; src->gt[0] = HUGE_VAL; FakeDS* vis = new FakeDS(3, 2, 9.5); vis->time("2013-06-21 12:00:00"); memcpy(vis->gt, src->gt, sizeof vis->gt); FakeBand* b = vis->band(GDT_UInt16, 3, 1, "1"); b->px[0] = (double)msym_range("raw", 0, 1023); b->slope = 0.5; b->off = 1;
    CosSolZADataset c(src); SatZADataset s(src); ReflectanceDataset r(1); r.add_source(vis, true); r.init_rasterband(); double o[3]; float f[3]; msym_assert(c.GetRasterBand(1)->ReadBlock(0, 0, o) == CE_None && o[0] == 0 && o[2] == 0, "sun"); msym_assert(s.GetRasterBand(1)->ReadBlock(0, 0, o) == CE_None && o[0] == 0 && o[2] == 0, "satellite"); msym_assert(r.GetRasterBand(1)->ReadBlock(0, 0, f) == CE_None && f[0] == 0 && f[2] == 0, "pixels that do not see the Earth are zero"); delete src;
}
// ---- sources
static int adds(ReflectanceDataset& r, FakeDS* d) { try { r.add_source(d, true); return 1; } catch (std::runtime_error&) { return 0; } }
ENTRY(consistency)
{
    ReflectanceDataset r(4); FakeDS* a = new FakeDS(3, 2, 9.5); a->time("2013-06-21 12:00:00"); a->SetMetadataItem("X", "1", MD_DOMAIN_MSAT); a->band(GDT_UInt16, 3, 1, "4"); double lon = 9.5; int w = 3, h = 2; const char* t = "2013-06-21 12:00:00"; unsigned k = pick("k", 0, 8); int ok = 1, has_time = 1;
    switch (k) { case 1: lon = pick("lon", 0, 1) ? 0 : 41.5; ok = 0; break; case 2: w = pick("w", 0, 1) ? 4 : 2; ok = 0; break; case 3: h = pick("h", 0, 1) ? 1 : 3; ok = 0; break; case 4: t = pick("t", 0, 1) ? "2013-06-21 12:15:00" : "2013-06-21 11:45:00"; ok = 0; break; case 5: has_time = ok = 0; break; default: break; }
    FakeDS* b = new FakeDS(w, h, lon); if (has_time) b->time(t); b->band(GDT_UInt16, 3, 1, "9"); if (k == 6) b->has_osr = ok = 0; if (k == 7) b->has_gt = ok = 0; if (k == 8) { double d = msym_f64("gt"); unsigned i = pick("i", 0, 5); ok = sameD(b->gt[i], d); b->gt[i] = d; }
    if (k == 6 && pick("first", 0, 1)) { ReflectanceDataset q(9); msym_assert(!adds(q, b), "a source without a projection"); delete a; delete b; return; }
    msym_assert(adds(r, a), "first source"); if (k == 6) { delete b; return; } msym_assert(adds(r, b) == ok, "sources must agree on projection, geotransform, time and size"); if (!ok) { msym_assert(r.sources[8] == nullptr && r.owned_datasets.size() == 1, "a refused source is not used"); delete b; }
    else msym_assert(r.sources[3] == a->GetRasterBand(1) && r.sources[8] == b->GetRasterBand(1), "bands by channel");
    double g[6]; r.GetGeoTransform(g); msym_assert(!memcmp(g, a->gt, sizeof g) && r.GetRasterXSize() == 3 && r.GetRasterYSize() == 2 && r.datetime == "2013-06-21 12:00:00" && std::string(r.GetMetadataItem("X", MD_DOMAIN_MSAT)) == "1" && r.GetSpatialRef()->IsSame(a->GetSpatialRef()), "description of the first source");
}
ENTRY(channels)
{
    unsigned ch = pick("ch", 0, 16); char id[8]; snprintf(id, sizeof id, "%u", ch); FakeDS* a = new FakeDS(2, 1); a->time("2013-06-21 12:00:00"); FakeBand* none = a->band(GDT_UInt16, 2, 1, nullptr); FakeBand* b = a->band(GDT_UInt16, 2, 1, id); (void)none; ReflectanceDataset r((int)pick("want", 1, 12)); r.add_source(a, false); int n = 0; for (auto s : r.sources) n += s != nullptr; bool in = ch >= 1 && ch <= 12;
    msym_assert(n == in && (!in || r.sources[ch - 1] == b), "a band is the source of the channel its metadata names"); int made = 1; try { r.init_rasterband(); } catch (std::runtime_error&) { made = 0; } msym_assert(made == (r.channel_id == (int)ch && (ch < 4 || ch == 12)), "there is a reflectance only of available solar channels"); if (made) { const char* c = r.GetRasterBand(1)->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT); msym_assert(c && std::string(c) == id, "metadata of the source band"); } delete a;
}
ENTRY(unusable)
{
    unsigned k = pick("k", 0, 9); FakeDS* d[3]; static const char* const id[] = {"4", "9", "11"}; ReflectanceDataset r(4); for (int i = 0; i < 3; ++i) { d[i] = new FakeDS(2, 1); d[i]->time(k == 9 ? "2013-06-21" : "2013-06-21 12:00:00"); FakeBand* b = d[i]->band(GDT_Float32, 2, 1, id[i]); if ((int)k / 2 == i) { if (k % 2) b->has_off = 0; else b->has_slope = 0; } if (!(k >= 6 && k < 9 && (int)k - 6 == i)) r.add_source(d[i], true); else delete d[i]; }
    int made = 1; try { r.init_rasterband(); } catch (std::runtime_error&) { made = 0; } msym_assert(!made, "no 3.9 um reflectance without its three calibrated channels and a time");
}
ENTRY(read_fails)
{
    unsigned k = pick("k", 0, 3); static const char* const id[] = {"4", "9", "11", "1"}; ReflectanceDataset r(k == 3 ? 1 : 4); for (unsigned i = 0; i < 4; ++i) { FakeDS* d = new FakeDS(2, 1); d->time("2013-06-21 12:00:00"); d->band(GDT_Float32, 2, 1, id[i])->fail = i == k; r.add_source(d, true); } r.init_rasterband(); float o[2]; msym_assert(r.GetRasterBand(1)->ReadBlock(0, 0, o) == CE_Failure, "a source that cannot be read is a read error");
}
