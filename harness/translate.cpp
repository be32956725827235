// Cropping, scaling, band selection and conversion (msat/gdal/gdaltranslate, recode).
#include "vrt.h"
#include <msat/gdal/gdaltranslate.h>
static VDS* run(GDALTranslate& t, Src& s) { GDALDataset* r = t.translate((GDALDatasetH)(GDALDataset*)&s); msym_assert(r != (GDALDataset*)&s, "something to do"); return (VDS*)r; }
static int eq(double a, double b) { return closeD(a, b); }
// the window of a band that the new image shows
static void shows(VDS* v, int n, GDALRasterBand* src, int x, int y, int w, int h, int ow, int oh)
{
    VBand* b = v->band(n); msym_assert(b->sources.size() == 1, "one source for a band"); Source& s = b->sources[0]; msym_assert(s.band == src, "from the requested band"); msym_assert(eq(s.sx, x) & eq(s.sy, y) & eq(s.sw, w) & eq(s.sh, h), "the requested window"); msym_assert(eq(s.dx, 0) & eq(s.dy, 0) & eq(s.dw, ow) & eq(s.dh, oh), "fills the new image");
}
static void window(GDALTranslate& t, int x, int y, int w, int h) { t.anSrcWin[0] = x; t.anSrcWin[1] = y; t.anSrcWin[2] = w; t.anSrcWin[3] = h; }
// ---- nothing to change
ENTRY(unchanged)
{
    hush(); Src s(7, 5, pick("bands", 1, 3)); GDALTranslate t; unsigned k = pick("how", 0, 1); if (k) window(t, 0, 0, 7, 5); msym_assert(t.translate((GDALDatasetH)(GDALDataset*)&s) == &s, "the dataset itself"); msym_assert(vds_alive == 0, "and nothing else");
}
ENTRY(window_any)
{
    hush(); int W = 3712, H = 464; Src s(W, H); GDALTranslate t; int x = (int)msym_u32("x"), y = (int)msym_u32("y"), w = (int)msym_u32("w"), h = (int)msym_u32("h"); msym_assume((w != 0) | (h != 0)); window(t, x, y, w, h); s.has_gt = false; GDALDataset* r = t.translate((GDALDatasetH)(GDALDataset*)&s);
    int inside = (x >= 0) & (y >= 0) & (w > 0) & (h > 0) & ((long)x + w <= W) & ((long)y + h <= H); msym_assert((r != nullptr) == inside, "windows outside the image are refused, all others accepted"); if (!r) { msym_assert(vds_alive == 0, "nothing left over"); msym_reach("refused"); return; }
    if (r == &s) { msym_assert((x == 0) & (y == 0) & (w == W) & (h == H), "the whole image"); msym_reach("whole"); return; }
    msym_assert((r->GetRasterXSize() == w) & (r->GetRasterYSize() == h), "size of the window"); VDS* v = (VDS*)r; msym_assert(v->band(1)->sources.size() == 1, "one source"); Source& q = v->band(1)->sources[0]; msym_assert((q.sx == (double)x) & (q.sy == (double)y) & (q.sw == (double)w) & (q.sh == (double)h), "the requested window"); msym_assert((q.dx == 0) & (q.dy == 0) & (q.dw == (double)w) & (q.dh == (double)h), "fills the new image"); msym_reach("window"); delete r;
}
ENTRY(window_moves)
{
    hush(); Src s(3712, 464); GDALTranslate t; bool across = pick("across", 0, 1); int p = (int)msym_range("p", 1, across ? 3700 : 450); int x = across ? p : 3, y = across ? 5 : p; window(t, x, y, 12, 10); VDS* v = run(t, s); shows(v, 1, s.GetRasterBand(1), x, y, 12, 10, 12, 10); msym_assert(v->has_gt, "georeferenced"); msym_assert(eq(v->gt[0], -1000 + 16.0 * x) & eq(v->gt[3], 2000 - 8.0 * y), "the corner moves"); msym_assert(eq(v->gt[1], 16) & eq(v->gt[2], 0) & eq(v->gt[4], 0) & eq(v->gt[5], -8), "the pixels stay"); delete v;
}
ENTRY(kept)
{
    hush(); unsigned n = pick("bands", 1, 3), k = pick("lacks", 0, 2); Src s(7, 5, n); s.has_gt = k != 1; s.has_osr = k != 2; s.SetMetadataItem("other", "thing"); GDALTranslate t; window(t, 1, 2, 3, 2); VDS* v = run(t, s); msym_assert(v && v->GetRasterCount() == (int)n, "all the bands"); for (unsigned i = 1; i <= n; ++i) { shows(v, i, s.GetRasterBand(i), 1, 2, 3, 2, 3, 2); msym_assert(v->band(i)->like == s.GetRasterBand(i) && v->band(i)->GetRasterDataType() == s.GetRasterBand(i)->GetRasterDataType() && !v->band(i)->has_nodata, "type and attributes of a band"); msym_assert(num(i) == v->band(i)->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT), "channel"); }
    msym_assert(string(v->GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT)) == "2010-03-04 05:06:07" && string(v->GetMetadataItem("other")) == "thing", "metadata"); msym_assert(v->has_gt == s.has_gt, "georeferencing where there is one"); msym_assert(v->srs.size() == s.has_osr && (!s.has_osr || v->srs[0].IsSame(&s.osr)), "projection where there is one"); delete v;
}
ENTRY(rotated)
{
    hush(); static const double G[][6] = {{100, 4, 2, 50, 1, -4}, {0, 0, 3, 10, -5, 0}}; Src s(20, 10); memcpy(s.gt, G[pick("geotransform", 0, 1)], sizeof s.gt); int x = (int)msym_range("x", 0, 15), y = (int)msym_range("y", 1, 6); GDALTranslate t; window(t, x, y, 5, 4); bool twice = pick("scaled", 0, 1); if (twice) { t.pszOXSize = "10"; t.pszOYSize = "2"; } VDS* v = run(t, s); double fx = twice ? 0.5 : 1, fy = twice ? 2 : 1;
    msym_assert(eq(v->gt[0], s.gt[0] + s.gt[1] * x + s.gt[2] * y) & eq(v->gt[3], s.gt[3] + s.gt[4] * x + s.gt[5] * y), "the corner moves"); msym_assert(eq(v->gt[1], s.gt[1] * fx) & eq(v->gt[5], s.gt[5] * fy), "size of a pixel"); msym_assert(eq(v->gt[2], s.gt[2] * fy) & eq(v->gt[4], s.gt[4] * fx), "rotation"); delete v;
}
ENTRY(projected)
{
    hush(); Src s(40, 30); GDALTranslate t; bool across = pick("across", 0, 1); int p = (int)msym_range("p", 0, 60) - 10, n = THOROUGH ? (int)msym_range("n", 1, 50) : (int)pick("n", 1, 4) * 9; int x = across ? p : 3, w = across ? n : 20, y = across ? 4 : p, h = across ? 11 : n; t.dfULX = -1000 + 16.0 * x; t.dfULY = 2000 - 8.0 * y; t.dfLRX = t.dfULX + 16.0 * w; t.dfLRY = t.dfULY - 8.0 * h; GDALDataset* r = t.translate((GDALDatasetH)(GDALDataset*)&s); int inside = (x >= 0) & (y >= 0) & (x + w <= 40) & (y + h <= 30); msym_assert((r != nullptr) == inside, "only windows inside"); if (!r) { msym_reach("refused"); return; } if (r == &s) return;
    VDS* v = (VDS*)r; shows(v, 1, s.GetRasterBand(1), x, y, w, h, w, h); msym_assert(eq(v->gt[0], t.dfULX) & eq(v->gt[3], t.dfULY), "the requested corner"); msym_reach("window"); delete r;
}
ENTRY(projected_part)
{
    hush(); Src s(40, 30); GDALTranslate t; double* f[] = {&t.dfULX, &t.dfULY, &t.dfLRX, &t.dfLRY}; t.dfULX = -1000; t.dfULY = 2000; t.dfLRX = -1000 + 16 * 40; t.dfLRY = 2000 - 8 * 30; unsigned k = pick("which", 0, 3); int n = (int)msym_range("n", 0, 400000) - 200000; *f[k] = n * 0.25; GDALDataset* r = t.translate((GDALDatasetH)(GDALDataset*)&s); if (!r) { msym_reach("refused"); return; } if (r == &s) { msym_reach("whole"); return; }
    VDS* v = (VDS*)r; Source& q = v->band(1)->sources[0]; int x = (int)q.sx, y = (int)q.sy, w = (int)q.sw, h = (int)q.sh; msym_assert((x >= 0) & (y >= 0) & (w >= 1) & (h >= 1) & (x + w <= 40) & (y + h <= 30), "within the image"); msym_reach("window"); delete v;
}
ENTRY(projected_any)
{
    hush(); Src s(40, 30); GDALTranslate t; double* f[] = {&t.dfULX, &t.dfULY, &t.dfLRX, &t.dfLRY}; t.dfULX = -1000; t.dfULY = 2000; t.dfLRX = -1000 + 16 * 40; t.dfLRY = 2000 - 8 * 30; unsigned which = pick("which", 0, 3); double any = msym_f64("v"); msym_assume((any != any) | (any < -1e11) | (any > 1e11)); *f[which] = any; unsigned k = pick("what", 0, 2); if (k == 1) { s.gt[2] = 1; } if (k == 2) { s.gt[1] = 0; } GDALDataset* r = t.translate((GDALDatasetH)(GDALDataset*)&s); if (k) { msym_assert(!r, "not on rotated or empty grids"); return; } if (!r) { msym_assert(vds_alive == 0, "nothing left over"); msym_reach("refused"); return; } if (r == &s) { msym_reach("whole"); return; }
    VDS* v = (VDS*)r; Source& q = v->band(1)->sources[0]; msym_assert((q.sx >= 0) & (q.sy >= 0) & (q.sw >= 1) & (q.sh >= 1) & (q.sx + q.sw <= 40) & (q.sy + q.sh <= 30), "within the image"); msym_reach("window"); delete v;
}
// ---- output size
ENTRY(size_pixels)
{
    hush(); int w = pick("w", 1, THOROUGH ? 12 : 5) * 3, h = pick("h", 1, 3) * 2; Src s(40, 30); GDALTranslate t; window(t, 4, 6, 8, 4); string a = num(w), b = num(h); t.pszOXSize = a.c_str(); t.pszOYSize = b.c_str(); VDS* v = run(t, s); msym_assert(v && v->GetRasterXSize() == w && v->GetRasterYSize() == h, "the requested size"); shows(v, 1, s.GetRasterBand(1), 4, 6, 8, 4, w, h); msym_assert(eq(v->gt[1], 16 * 8.0 / w) & eq(v->gt[5], -8 * 4.0 / h) & eq(v->gt[0], -1000 + 64) & eq(v->gt[3], 2000 - 48), "the same area"); delete v;
}
ENTRY(size_percent)
{
    hush(); static const int P[] = {100, 50, 200, 25, 13}; int p = P[pick("p", 0, 4)], q = P[pick("q", 0, 4)]; Src s(400, 300); GDALTranslate t; bool whole = pick("whole", 0, 1); if (!whole) window(t, 4, 6, 80, 40); string a = num(p) + "%", b = num(q) + "%"; t.pszOXSize = a.c_str(); t.pszOYSize = b.c_str(); VDS* v = run(t, s); int W = whole ? 400 : 80, H = whole ? 300 : 40; msym_assert(v && v->GetRasterXSize() == W * p / 100 && v->GetRasterYSize() == H * q / 100, "the requested part"); delete v;
}
ENTRY(size_bad)
{
    hush(); static const char* const B[] = {"0", "-3", "", "%", "0%", "-50%", "1e30%", "x", nullptr, "0.1%", "nan%"}; unsigned k = pick("size", 0, 10); bool other = pick("which", 0, 1); Src s(40, 30); GDALTranslate t; window(t, 0, 0, 10, 10); if (!B[k] && !other) return; t.pszOXSize = other ? "5" : B[k]; t.pszOYSize = other ? B[k] : "5"; msym_assert(!t.translate((GDALDatasetH)(GDALDataset*)&s), "refused"); msym_assert(vds_alive == 0, "nothing left over"); msym_reach("refused");
}
// ---- bands
ENTRY(bands)
{
    hush(); int n = pick("count", 1, 3), list[3]; Src s(7, 5, 3); GDALTranslate t; t.panBandList = (int*)CPLMalloc(n * sizeof(int)); t.nBandCount = n; t.bDefBands = FALSE; int ok = 1; for (int i = 0; i < n; ++i) { list[i] = (int)pick(i == 0 ? "b0" : i == 1 ? "b1" : "b2", 0, 4); t.panBandList[i] = list[i]; ok &= list[i] >= 1 && list[i] <= 3; } bool crop = pick("crop", 0, 1); if (crop) window(t, 2, 1, 3, 3);
    GDALDataset* r = t.translate((GDALDatasetH)(GDALDataset*)&s); msym_assert((r != nullptr) == ok, "bands that do not exist are refused"); if (!r) return; VDS* v = (VDS*)r; msym_assert(r != &s && v->GetRasterCount() == n, "as many bands as requested"); for (int i = 0; i < n; ++i) { if (crop) shows(v, i + 1, s.GetRasterBand(list[i]), 2, 1, 3, 3, 3, 3); else shows(v, i + 1, s.GetRasterBand(list[i]), 0, 0, 7, 5, 7, 5); msym_assert(v->band(i + 1)->GetRasterDataType() == s.GetRasterBand(list[i])->GetRasterDataType() && v->band(i + 1)->like == s.GetRasterBand(list[i]), "its type and attributes"); } msym_reach("selected"); delete v;
}
ENTRY(no_bands) { hush(); Src s(7, 5, 0); GDALTranslate t; if (pick("crop", 0, 1)) window(t, 1, 1, 2, 2); msym_assert(!t.translate((GDALDatasetH)(GDALDataset*)&s), "refused"); }
struct ColorBand : FakeBand { bool has = true; ColorBand(GDALDataset* d, int n, int w, int h) : FakeBand(d, n, GDT_UInt16, w, h, w, 1, "1") {} GDALColorTable* GetColorTable() override { return has ? (GDALColorTable*)this : nullptr; } };
ENTRY(expand)
{
    hush(); int k = pick("components", 3, 4), n = pick("bands", 1, 3), pal = pick("palette", 1, 3); bool list = pick("list", 0, 1), has = pick("has", 0, 1); if (pal > n || (!list && pal != 1)) return; Src s(7, 5, 0); for (int i = 1; i <= n; ++i) { GDALRasterBand* b; if (i == pal) { ColorBand* c = new ColorBand(&s, i, 7, 5); c->has = has; b = c; } else b = new FakeBand(&s, i, GDT_Float32, 7, 5, 7, 1, "2"); s.SetBand(i, b); }
    GDALTranslate t; t.nRGBExpand = k; std::vector<int> want; want.push_back(pal); for (int i = 1; i <= n; ++i) if (i != pal) want.push_back(i); if (list) { t.panBandList = (int*)CPLMalloc(n * sizeof(int)); t.nBandCount = n; t.bDefBands = FALSE; for (int i = 0; i < n; ++i) t.panBandList[i] = want[i]; }
    GDALDataset* r = t.translate((GDALDatasetH)(GDALDataset*)&s); if (!has) { msym_assert(!r && vds_alive == 0, "a band without palette cannot be expanded"); return; } VDS* v = (VDS*)r; msym_assert(r && r != &s && v->GetRasterCount() == n - 1 + k, "the components, then the other bands"); for (int i = 1; i <= n - 1 + k; ++i) { Source& q = v->band(i)->sources[0]; if (i <= k) msym_assert(q.complex && q.component == i && q.band == s.GetRasterBand(pal) && v->band(i)->color == GCI_RedBand + i - 1, "a component"); else msym_assert(!q.complex && q.band == s.GetRasterBand(want[i - k]) && v->band(i)->like == q.band, "another band"); } msym_reach("expanded"); delete v;
}
ENTRY(types) { hush(); Src s(7, 5, 2); GDALTranslate t; static const GDALDataType T[] = {GDT_Byte, GDT_Float64, GDT_Int16}; t.eOutputType = T[pick("type", 0, 2)]; bool nd = pick("nodata", 0, 1); double v0 = msym_f64("nd"); if (nd) { t.bSetNoData = TRUE; t.dfNoDataReal = v0; } VDS* v = run(t, s); for (int i = 1; i <= 2; ++i) { msym_assert(v->band(i)->GetRasterDataType() == t.eOutputType, "the requested type"); msym_assert(v->band(i)->has_nodata == nd && (!nd || sameD(v->band(i)->nodata, v0)), "the requested missing value"); shows(v, i, s.GetRasterBand(i), 0, 0, 7, 5, 7, 5); } delete v; }
// ---- values
ENTRY(scaling)
{
    hush(); static const double V[] = {0, 255, 10, -40}; GDALTranslate t; t.bScale = TRUE; t.bHaveScaleSrc = pick("have", 0, 1); t.dfScaleSrcMin = V[pick("smin", 0, 3)]; t.dfScaleSrcMax = V[pick("smax", 0, 3)]; t.dfScaleDstMin = V[pick("dmin", 0, 3)]; t.dfScaleDstMax = V[pick("dmax", 0, 3)]; double s0 = t.dfScaleSrcMin, s1 = t.dfScaleSrcMax, d0 = t.dfScaleDstMin, d1 = t.dfScaleDstMax; bool have = t.bHaveScaleSrc, flat = pick("flat", 0, 1); if (flat) g_max = g_min;
    Src s(7, 5, 2); VDS* v = run(t, s); for (int i = 1; i <= 2; ++i) { double lo = have ? s0 : g_min + i - 1, hi = have ? s1 : g_max + i - 1; Source& q = v->band(i)->sources[0]; msym_assert(q.complex && q.component == 0, "scaled"); double a = lo * q.ratio + q.off, b = hi * q.ratio + q.off; msym_assert(a - d0 < 1e-6 && d0 - a < 1e-6, "lowest to lowest"); if (lo != hi && d0 != d1) msym_assert(b - d1 < 1e-6 && d1 - b < 1e-6, "highest to highest"); msym_assert(q.ratio == q.ratio && q.ratio - q.ratio == 0, "finite"); } delete v;
}
// ---- georeferencing
ENTRY(bounds)
{
    hush(); Src s(8, 4); GDALTranslate t; t.bGotBounds = TRUE; double* a = t.adfULLR; a[0] = (int)msym_range("ulx", -1000, 1000); a[1] = (int)msym_range("uly", -1000, 1000); a[2] = (int)msym_range("lrx", -1000, 1000); a[3] = (int)msym_range("lry", -1000, 1000); bool crop = pick("crop", 0, 1); if (crop) window(t, 1, 1, 4, 2); VDS* v = run(t, s); double w = crop ? 4 : 8, h = crop ? 2 : 4; msym_assert(eq(v->gt[0], a[0]) & eq(v->gt[3], a[1]), "corner"); msym_assert(eq(v->gt[1], (a[2] - a[0]) / w) & eq(v->gt[5], (a[3] - a[1]) / h) & eq(v->gt[2], 0) & eq(v->gt[4], 0), "pixels"); delete v;
}
ENTRY(reprojected) { hush(); OGRSpatialReference o; o.SetGEOS(41.5, 35785831, 0, 0); char* w = nullptr; o.exportToWkt(&w); string text = w; CPLFree(w); Src s(8, 4); GDALTranslate t; t.pszOutputSRS = (char*)text.c_str(); VDS* v = run(t, s); msym_assert(v->srs.size() == 1 && v->srs[0].IsSame(&o), "the requested projection"); delete v; }
ENTRY(source_points)
{
    hush(); Src s(20, 10); s.points(); GDALTranslate t; int x = (int)msym_range("x", 0, 10), y = (int)msym_range("y", 1, 5); window(t, x, y, 8, 4); bool sc = pick("scaled", 0, 1); if (sc) { t.pszOXSize = "16"; t.pszOYSize = "2"; } VDS* v = run(t, s); double fx = sc ? 2 : 1, fy = sc ? 0.5 : 1; msym_assert(v->gcps.size() == 2 && v->ids[0] == "p1" && v->ids[1] == "p2", "all the points"); for (int i = 0; i < 2; ++i) { msym_assert(eq(v->gcps[i].dfGCPPixel, (3 + 4 * i - x) * fx) & eq(v->gcps[i].dfGCPLine, (2 + i - y) * fy), "move with the window"); msym_assert(v->gcps[i].dfGCPX == 100 * i && v->gcps[i].dfGCPY == 7, "and stay on the Earth"); } msym_assert(v->gcp_srs.size() == 1 && v->gcp_srs[0].IsSame(&s.gsrs), "with their projection"); msym_assert(s.gcp[0].dfGCPPixel == 3, "those of the source are left alone"); delete v;
}
static GDAL_GCP* own_points(GDALTranslate& t, int n) { t.nGCPCount = n; t.pasGCPs = (GDAL_GCP*)CPLMalloc(n * sizeof(GDAL_GCP)); for (int i = 0; i < n; ++i) { GDAL_GCP& p = t.pasGCPs[i]; memset(&p, 0, sizeof p); p.pszId = CPLStrdup(num(i).c_str()); p.pszInfo = CPLStrdup(""); p.dfGCPPixel = i; p.dfGCPLine = 2 * i; p.dfGCPX = 3 * i; } return t.pasGCPs; }
ENTRY(given_points)
{
    hush(); Src s(20, 10), s2(20, 10); if (pick("has", 0, 1)) s.points(); { GDALTranslate t; own_points(t, 3); for (int k = 0; k < 2; ++k) { VDS* v = run(t, k ? s2 : s); msym_assert(v->gcps.size() == 3 && v->ids[2] == "2" && v->gcps[2].dfGCPLine == 4 && v->gcps[2].dfGCPX == 6, "the given points, each time"); msym_assert(!v->has_gt && v->srs.empty(), "instead of the georeferencing"); delete v; } }
}
// ---- metadata options, and using the same settings again
ENTRY(again)
{
    hush(); unsigned k = pick("what", 0, 5); GDALTranslate t; t.papszMetadataOptions = CSLAddString(nullptr, "note=one"); t.papszMetadataOptions = CSLAddString(t.papszMetadataOptions, "x=y=z"); Src a(20, 10, 1), b(12, 30, 3); if (k == 1) t.eOutputType = GDT_Float64; if (k == 2) { t.bScale = TRUE; } if (k == 3) { t.dfULX = -1000 + 32; t.dfULY = 2000 - 8; t.dfLRX = -1000 + 64; t.dfLRY = 2000 - 40; } if (k == 4) { t.pszOXSize = "50%"; t.pszOYSize = "50%"; } if (k == 5) { t.panBandList = (int*)CPLMalloc(sizeof(int)); t.panBandList[0] = 1; t.nBandCount = 1; }
    bool first = pick("first", 0, 1); if (first) { VDS* v = run(t, a); msym_assert(string(v->GetMetadataItem("note")) == "one", "metadata"); delete v; } VDS* v = run(t, b); msym_assert(v != nullptr, "a second dataset"); msym_assert(string(v->GetMetadataItem("note")) == "one" && string(v->GetMetadataItem("x")) == "y=z", "metadata"); int w = 12, h = 30, x = 0, y = 0; if (k == 3) { x = 2; y = 1; w = 2; h = 4; } int ow = k == 4 ? w / 2 : w, oh = k == 4 ? h / 2 : h; msym_assert(v->GetRasterXSize() == ow && v->GetRasterYSize() == oh && v->GetRasterCount() == (k == 5 ? 1 : 3), "with its own size and bands"); for (int i = 1; i <= v->GetRasterCount(); ++i) shows(v, i, b.GetRasterBand(i), x, y, w, h, ow, oh); if (k == 2) msym_assert(eq(v->band(1)->sources[0].ratio, 255 / 240.0), "and its own values"); delete v;
}
// ---- recode
static int the_driver, the_result;
ENTRY(recode)
{
    hush(); Src s(40, 30, 2); unsigned k = pick("form", 0, 2), no = pick("options", 0, 3); g_copy.fail = pick("fail", 0, 1); g_copy.result = (GDALDatasetH)&the_result; int x = pick("x", 0, 3), y = pick("y", 0, 2), w = pick("w", 1, 3) * 8, h = 12, sx = w, sy = h; string o1 = no > 0 ? "A=1" : "", o2 = no > 1 ? "B=2" : "", o3 = no > 2 ? "C=3" : ""; msat::proj::ImageBox box(msat::proj::ImagePoint(x, y), msat::proj::ImagePoint(x + w, y + h)); GDALDriver* d = (GDALDriver*)&the_driver; GDALDataset* r;
    if (k == 0) r = msat::dataset::recode(&s, box, "out", d, o1, o2, o3); else { sx = pick("sx", 1, 3) * 6; sy = pick("sy", 1, 2) * 6; if (k == 1) { r = msat::dataset::recode(&s, box, sx, sy, "out", d, o1, o2, o3); } else { x = y = 0; w = 40; h = 30; r = msat::dataset::recode(&s, sx, sy, "out", d, o1, o2, o3); } }
    msym_assert(r == (g_copy.fail ? nullptr : (GDALDataset*)&the_result), "the new dataset, or none"); msym_assert(g_copy.calls == 1 && g_copy.drv == (GDALDriverH)&the_driver && g_copy.name == "out", "by the requested driver"); msym_assert(g_copy.opts == (no == 0 ? "" : no == 1 ? "A=1;" : no == 2 ? "A=1;B=2;" : "A=1;B=2;C=3;"), "with its options"); msym_assert(g_copy.w == sx && g_copy.h == sy, "of the requested size"); Source& q = g_copy.s; msym_assert(q.sx == x && q.sy == y && q.sw == w && q.sh == h && q.dw == sx && q.dh == sy, "of the requested area"); msym_assert(vds_alive == 0, "released"); msym_reach("copied");
}
ENTRY(recode_bad)
{
    hush(); Src s(40, 30, 2); g_copy.result = (GDALDatasetH)&the_result; int x = (int)msym_range("x", -5, 50), y = (int)msym_range("y", -5, 50), x2 = (int)msym_range("x2", -5, 50), y2 = (int)msym_range("y2", -5, 50); int bad = (x < 0) | (y < 0) | (x2 <= x) | (y2 <= y) | (x2 > 40) | (y2 > 30), empty = (x2 == x) & (y2 == y); msym_assume(bad & !empty); GDALDataset* r = msat::dataset::recode(&s, msat::proj::ImageBox(msat::proj::ImagePoint(x, y), msat::proj::ImagePoint(x2, y2)), 10, 10, "out", (GDALDriver*)&the_driver); msym_assert(!r && g_copy.calls == 0, "areas outside the image are refused"); msym_reach("refused");
}
