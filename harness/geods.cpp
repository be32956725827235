// Georeferencing helpers and dataset wrappers of msat/gdal/dataset.
#include "fakeds.h"
#include <msat/facts.h>
#include <msat/gdal/dataset.h>
using namespace msat::dataset;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static double finite(const char* n, double lo, double hi) { double d = msym_f64(n); msym_assume((d >= lo) & (d <= hi)); return d; }
static void quiet(CPLErr, CPLErrorNum, const char*) {}
static void hush() { if (!msym_engine()) CPLPushErrorHandler(quiet); }
static const double FULL = 3000.403165817, HRV = 1000.134348869, ICO = 1000.1;
static void pick_gt(double* g)
{
    static const double G[][6] = {{-1856 * FULL, FULL, 0, 1856 * FULL, 0, -FULL}, {-5568 * HRV, HRV, 0, 5568 * HRV, 0, -HRV}, {-46000.5, 3000.25, 0, 1200000, 0, -3000.75}, {1000, 250, 0, -777, 0, 500}, {-100, 0, 25, 80, -16, 0}, {0, 3, 4, 0, 4, -3}, {100000, 30, 5, -50000, -7, -20}};
    memcpy(g, G[pick("geotransform", 0, 6)], 6 * sizeof(double));
}
ENTRY(spaceview)
{
    double lon = finite("lon", -180, 180); OGRSpatialReference o; set_spaceview(o, lon); OGRErr e = OGRERR_NONE;
    msym_assert(closeD(o.GetProjParm("central_meridian", 777, &e), lon), "the sub-satellite longitude"); msym_assert(o.GetProjParm("satellite_height", 0, &e) == ORBIT_RADIUS_FOR_GDAL && ORBIT_RADIUS_FOR_GDAL == 35785831, "the height of the orbit"); msym_assert(o.GetProjParm("false_easting", 1, &e) == 0 && o.GetProjParm("false_northing", 1, &e) == 0, "no displacement");
    msym_assert(o.GetSemiMajor(&e) == 6378169 && o.GetInvFlattening(&e) == 295.488065897, "the ellipsoid of the projection");
}
ENTRY(wkt)
{
    static const double LON[] = {0, 9.5, -3.5, 41.5, 57}; double lon = LON[pick("lon", 0, 4)]; std::string w = spaceviewWKT(lon); OGRSpatialReference o; set_spaceview(o, lon); char* x = nullptr; o.exportToWkt(&x); msym_assert(w == x, "the text of the projection"); CPLFree(x); if (lon == 0) msym_assert(spaceviewWKT() == w, "Greenwich unless told otherwise");
}
ENTRY(decode)
{
    static const double PX[] = {FULL, HRV, ICO, 3000.4, 3712, 0.5}; double px = PX[pick("px", 0, 5)], py = PX[pick("py", 0, 5)]; int x = (int)msym_range("x", 0, 11136) - 200, y = (int)msym_range("y", 0, 11136) - 200; FakeDS ds(4, 4); ds.gt[0] = -x * px; ds.gt[1] = px; ds.gt[3] = y * py; ds.gt[5] = -py; int xs = -1, ys = -1; double sx = 0, sy = 0;
    decodeGeotransform(&ds, xs, ys, sx, sy); msym_assert(xs == x, "column of the centre"); msym_assert(ys == y, "line of the centre"); msym_assert(sx == px && sy == py, "size of a pixel");
}
ENTRY(invert)
{
    hush(); double g[6], i[6]; pick_gt(g); msym_assert(invertGeoTransform(g, i) == CE_None, "invertible"); double x = (int)msym_range("x", 0, 4000), y = 17; if (pick("swap", 0, 1)) { double t = x; x = y; y = t; }
    double px = g[0] + g[1] * x + g[2] * y, py = g[3] + g[4] * x + g[5] * y, bx = i[0] + px * i[1] + py * i[2], by = i[3] + px * i[4] + py * i[5]; msym_assert((bx - x < 0.01) & (x - bx < 0.01), "there and back: column"); msym_assert((by - y < 0.01) & (y - by < 0.01), "there and back: line");
}
ENTRY(singular)
{
    hush(); int a = (int)msym_range("a", -4, 4), b = (int)msym_range("b", -4, 4), c = (int)msym_range("c", -4, 4), d = (int)msym_range("d", -4, 4); double g[6] = {1, (double)a, (double)b, 2, (double)c, (double)d}, i[6]; CPLErr e = invertGeoTransform(g, i); msym_assert((e == CE_None) == (a * d - b * c != 0), "only what cannot be inverted is refused"); if (e == CE_None) msym_reach("inverted"); else msym_reach("refused");
}
ENTRY(pixels)
{
    hush(); FakeDS ds(4, 4); pick_gt(ds.gt); GeoReferencer g; msym_assert(g.init(&ds) == CE_None, "georeferenced"); bool rot = ds.gt[2] != 0 && ds.gt[1] != 0; int x = (int)msym_range("x", 0, rot ? 300 : 11136) - 100, y = rot ? (int)msym_range("y", 0, 20) : 333; if (!rot && pick("swap", 0, 1)) { int t = x; x = y; y = t; }
    double px, py; g.pixelToProjected(x, y, px, py); msym_assert(closeD(px, ds.gt[0] + ds.gt[1] * x + ds.gt[2] * y), "easting of a pixel"); msym_assert(closeD(py, ds.gt[3] + ds.gt[4] * x + ds.gt[5] * y), "northing of a pixel");
    int bx = -9999, by = -9999; g.projectedToPixel(px, py, bx, by); msym_assert(bx == x, "there and back: column"); msym_assert(by == y, "there and back: line");
}
ENTRY(nearest)
{
    hush(); FakeDS ds(4, 4); unsigned k = pick("geotransform", 0, 1); double px = k ? 250 : FULL, g0 = k ? 1000 : -1856 * FULL; ds.gt[0] = g0; ds.gt[1] = px; ds.gt[3] = -g0; ds.gt[5] = -px; GeoReferencer g; g.init(&ds); int k16 = (int)msym_range("k", 0, 640) - 320; double at = k16 * (px / 16); int line = pick("line", 0, 1), x, y; double e = line ? g0 : g0 + at, n = line ? -g0 + at : -g0; g.projectedToPixel(e, n, x, y);
    double d = line ? -at - y * px : at - x * px; msym_assert((d <= px * 0.5001) & (d >= -px * 0.5001), "the nearest pixel"); msym_assert((line ? x : y) == 0, "the other coordinate stays");
}
ENTRY(latlon)
{
    hush(); FakeDS ds(4, 4); double g0[6] = {-1835008, 65536, 0, 1310720, 0, -131072}; memcpy(ds.gt, g0, sizeof g0); GeoReferencer g; msym_assert(g.init(&ds) == CE_None && ct_alive == 2, "both ways");
    double px = finite("px", -6e6, 6e6), py = finite("py", -6e6, 6e6), lat, lon; msym_assert(g.projectedToLatlon(px, py, lat, lon) == CE_None, "converted"); msym_assert(closeD(lon, px / 65536) & closeD(lat, py / 65536), "longitude from east, latitude from north");
    double x2, y2; msym_assert(g.latlonToProjected(lat, lon, x2, y2) == CE_None, "converted"); msym_assert(closeD(x2, lon * 65536) & closeD(y2, lat * 65536), "and back");
    int X = (int)msym_range("X", 0, 100), Y = (int)msym_range("Y", 0, 100); double la, lo; msym_assert(g.pixelToLatlon(X, Y, la, lo) == CE_None, "converted"); msym_assert(closeD(lo, (double)(X - 28)) & closeD(la, (double)(10 - Y) * 2 + 0), "place of a pixel"); int bx, by; msym_assert(g.latlonToPixel(la, lo, bx, by) == CE_None && bx == X, "there and back: column"); msym_assert(by == Y, "there and back: line");
    if (pick("again", 0, 1)) { ds.gt[0] = 0; msym_assert(g.init(&ds) == CE_None && ct_alive == 2, "initialised again"); g.pixelToProjected(1, 1, px, py); msym_assert(px == 65536, "for the new dataset"); }
}
ENTRY(latlon_released) { hush(); { FakeDS ds(4, 4); GeoReferencer g, h; g.init(&ds); g.init(&ds); h.init(&ds); } msym_assert(ct_alive == 0, "released"); }
ENTRY(not_georeferenced)
{
    hush(); FakeDS ds(4, 4); unsigned k = pick("what", 0, 5); double v = finite("v", -100, 100); if (k == 0) ds.has_gt = false; else if (k == 1) ds.has_osr = false; else if (k == 2) { ds.gt[1] = v; ds.gt[4] = 2; ds.gt[2] = 0; ds.gt[5] = 0; } else ct_fail = k - 1;
    { GeoReferencer g; msym_assert(g.init(&ds) == CE_Failure, "refused"); } msym_assert(ct_alive == 0, "released"); msym_reach("refused");
}
ENTRY(no_coordinates)
{
    hush(); FakeDS ds(4, 4); GeoReferencer g; msym_assert(g.init(&ds) == CE_None, "georeferenced"); ct_fail = 1; int x = (int)msym_range("x", 0, 10000), y = (int)msym_range("y", 0, 10000), bx = -5, by = -5; double a = finite("a", -90, 90), b = finite("b", -90, 90), r, s; msym_assert(g.projectedToLatlon(a, b, r, s) == CE_Failure && g.latlonToProjected(a, b, r, s) == CE_Failure && g.pixelToLatlon(x, y, r, s) == CE_Failure && g.latlonToPixel(a, b, bx, by) == CE_Failure, "points off the Earth are reported"); msym_assert(bx == -5 && by == -5, "and give no pixel");
}
// ---- wrappers
static GDAL_GCP GCPS[2];
struct FullBand : FakeBand
{
    double lo = 3, hi = 900; int has_lo = 1, has_hi = 1; char* cat[3] = {(char*)"sea", (char*)"land", nullptr};
    FullBand(GDALDataset* ds, int n, GDALDataType t, int w, int h, int bw, int bh, const char* c) : FakeBand(ds, n, t, w, h, bw, bh, c) {}
    double GetMinimum(int* ok) override { if (ok) *ok = has_lo; return lo; }
    double GetMaximum(int* ok) override { if (ok) *ok = has_hi; return hi; }
    char** GetCategoryNames() override { return cat; }
    GDALColorInterp GetColorInterpretation() override { return GCI_GreenBand; }
    GDALColorTable* GetColorTable() override { return (GDALColorTable*)cat; }
};
struct FullDS : FakeDS
{
    OGRSpatialReference gcp; GDALDriver* drv = (GDALDriver*)&GCPS; 
    FullDS(int w, int h) : FakeDS(w, h) { gcp.SetGEOS(9.5, 35785831, 0, 0); }
    FullBand* full(GDALDataType t, int bw, int bh, const char* ch) { int n = GetRasterCount() + 1; FullBand* b = new FullBand(this, n, t, nRasterXSize, nRasterYSize, bw, bh, ch); SetBand(n, b); return b; }
    int GetGCPCount() override { return 2; } const GDAL_GCP* GetGCPs() override { return GCPS; } const OGRSpatialReference* GetGCPSpatialRef() const override { return &gcp; } GDALDriver* GetDriver() override { return drv; }
    char** GetFileList() override { return CSLAddString(nullptr, "a.file"); }
};
struct OpenProxy : ProxyDataset { OpenProxy(GDALDataset& d) : ProxyDataset(d) { for (int i = 1; i <= d.GetRasterCount(); ++i) SetBand(i, new ProxyRasterBand(*this, *d.GetRasterBand(i), i)); } };
static void same(GDALDataset& p, FullDS& s)
{
    msym_assert(p.GetRasterXSize() == s.GetRasterXSize() && p.GetRasterYSize() == s.GetRasterYSize() && p.GetRasterCount() == s.GetRasterCount(), "size"); msym_assert(std::string(p.GetDescription()) == "source", "description"); msym_assert(std::string(p.GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT)) == "2010-03-04 05:06:07", "metadata"); msym_assert(std::string(p.GetMetadataItem("k", "other")) == "v" && CSLCount(p.GetMetadata("other")) == 1 && !p.GetMetadataItem("k"), "metadata by domain");
    msym_assert(p.GetSpatialRef() == s.GetSpatialRef(), "spatial reference"); double a[6], b[6]; msym_assert(p.GetGeoTransform(a) == s.GetGeoTransform(b) && (!s.has_gt || eqbytes(a, b, sizeof a)), "geotransform"); msym_assert(p.GetDriver() == s.drv, "driver"); char** f = p.GetFileList(); msym_assert(CSLCount(f) == 1 && std::string(f[0]) == "a.file", "files"); CSLDestroy(f);
    msym_assert(p.GetGCPCount() == 2 && p.GetGCPs() == GCPS, "control points"); msym_assert(p.GetGCPSpatialRef() == &s.gcp, "spatial reference of the control points"); msym_assert(std::string(p.GetGCPProjection()) == s.GetGCPProjection(), "the same as text");
}
static void fill(FullDS& s) { s.SetDescription("source"); s.time("2010-03-04 05:06:07"); s.SetMetadataItem("k", "v", "other"); }
static void band_same(GDALRasterBand* p, FullBand* s, bool cal)
{
    msym_assert(p->GetXSize() == s->GetXSize() && p->GetYSize() == s->GetYSize(), "size of a band"); int a, b, c, d; p->GetBlockSize(&a, &b); s->GetBlockSize(&c, &d); msym_assert(a == c && b == d, "block size"); msym_assert(std::string(p->GetDescription()) == s->GetDescription() && std::string(p->GetUnitType()) == "K", "description and unit"); msym_assert(std::string(p->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT)) == "9" && CSLCount(p->GetMetadata("x")) == 1 && std::string(p->GetMetadataItem("y", "x")) == "z", "metadata of a band");
    msym_assert(p->GetCategoryNames() == s->cat && p->GetColorInterpretation() == GCI_GreenBand && (void*)p->GetColorTable() == (void*)s->cat, "categories and colours"); if (cal) return; int o1, o2, o3, o4, o5; msym_assert(p->GetRasterDataType() == s->GetRasterDataType() && p->GetNoDataValue(&o1) == s->nodata && p->GetMinimum(&o2) == s->lo && p->GetMaximum(&o3) == s->hi && closeD(p->GetOffset(&o4), s->has_off ? s->off : 0) && closeD(p->GetScale(&o5), s->has_slope ? s->slope : 1), "values"); msym_assert(o1 == s->has_nodata && o2 == s->has_lo && o3 == s->has_hi && o4 == s->has_off && o5 == s->has_slope, "what is not known stays unknown");
}
static void describe(FullBand* b, unsigned k) { b->SetDescription("band"); b->unit = "K"; b->SetMetadataItem("y", "z", "x"); b->slope = 0.5; b->off = -20; b->nodata = 7; if (k == 1) b->has_slope = 0; if (k == 2) b->has_off = 0; if (k == 3) b->has_nodata = 0; if (k == 4) b->has_lo = 0; if (k == 5) b->has_hi = 0; }
ENTRY(proxy)
{
    hush(); unsigned t = pick("type", 0, 2), k = pick("unknown", 0, 5); static const GDALDataType T[] = {GDT_UInt16, GDT_Float32, GDT_Float64}; FullDS s(5, 3); fill(s); s.has_gt = k != 1; s.has_osr = k != 2; FullBand* b = s.full(T[t], 2, 2, "9"); describe(b, k); double v = (int)msym_range("v", 0, 65535); b->px[3 + 5] = v; OpenProxy p(s); same(p, s); band_same(p.GetRasterBand(1), b, false);
    double r[8] = {0}; msym_assert(p.GetRasterBand(1)->ReadBlock(1, 0, r) == CE_None, "a block"); double got = t == 0 ? (double)((uint16_t*)r)[3] : t == 1 ? (double)((float*)r)[3] : r[3]; msym_assert(got == v, "the same values"); b->fail = 1; msym_assert(p.GetRasterBand(1)->ReadBlock(0, 0, r) == CE_Failure, "failures are passed on");
}
ENTRY(calibrated)
{
    hush(); static const double SL[] = {0.5, 0.00390625, 7, 1}, OF[] = {-20, 0, 1.5, 300}; unsigned c = pick("calibration", 0, 3), k = pick("unknown", 0, 5); FullDS s(5, 3); fill(s); FullBand* b = s.full(GDT_UInt16, 2, 2, "9"); describe(b, k); b->slope = SL[c]; b->off = OF[c]; unsigned raw[2]; raw[0] = msym_u16("a"); raw[1] = msym_u16("b"); b->px[0] = raw[0]; b->px[6] = raw[1]; b->nodata = pick("nodata", 0, 1) * 5; CalibratedDataset p(s); same(p, s); GDALRasterBand* q = p.GetRasterBand(1); band_same(q, b, true);
    double slope = b->has_slope ? SL[c] : 1, off = b->has_off ? OF[c] : 0; int o1 = 0, o2 = 0, o3 = 0, o4 = 9, o5 = 9; msym_assert(q->GetRasterDataType() == GDT_Float32 && q->GetScale(&o1) == 1 && q->GetOffset(&o2) == 0 && q->GetNoDataValue(&o3) == 0 && o1 && o2 && o3, "values are not packed"); double lo = q->GetMinimum(&o4), hi = q->GetMaximum(&o5); msym_assert(o4 == b->has_lo && o5 == b->has_hi, "unknown extremes stay unknown"); if (o4 && o5) msym_assert(lo == 3 * slope + off && hi == 900 * slope + off, "calibrated extremes");
    float r[4]; msym_assert(q->ReadBlock(0, 0, r) == CE_None, "a block"); for (int i = 0; i < 2; ++i) { unsigned w = raw[i]; float f = (float)(w * slope + off); if (b->has_nodata && w == b->nodata) f = 0; msym_assert(closeF(r[3 * i], f), "calibrated value, missing stays missing"); } b->fail = 1; msym_assert(q->ReadBlock(1, 0, r) == CE_Failure, "failures are passed on"); msym_reach("calibrated");
}
ENTRY(calibrated_mixed)
{
    hush(); static const unsigned AT[] = {1, 2, 8, 9, 12, 40}; unsigned t = pick("type", 0, 2), ai = pick("at", 0, 5), n = pick("bands", 0, 1) ? 40 : 3, at = AT[ai]; static const GDALDataType T[] = {GDT_Byte, GDT_Float32, GDT_Int16}; FullDS s(3, 2); fill(s); for (unsigned i = 1; i <= n; ++i) { FullBand* b = s.full(i == at ? T[t] : GDT_UInt16, 3, 1, "9"); describe(b, 0); } CalibratedDataset p(s); msym_assert(p.GetRasterCount() == (int)n, "all bands"); for (unsigned i = 1; i <= n; ++i) { GDALRasterBand* q = p.GetRasterBand(i); msym_assert(q->GetBand() == (int)i, "in their place"); if (i == at) band_same(q, (FullBand*)s.GetRasterBand(i), false); else msym_assert(q->GetRasterDataType() == GDT_Float32 && q->GetScale(nullptr) == 1, "counts are calibrated"); }
}
ENTRY(calibrated_large)
{
    hush(); static const int W[] = {3712, 11136}, H[] = {1, 464}; unsigned k = pick("block", 0, 1); FullDS s(W[k], H[k]); FullBand b(&s, 1, GDT_UInt16, 1, 1, W[k], H[k], nullptr); b.fail = 1; CalibratedRasterBand q(s, b, 1); float r[4]; msym_assert(q.IReadBlock(0, 0, r) == CE_Failure, "a block of any size");
}
