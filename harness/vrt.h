// Stand-in for GDAL's virtual datasets and copies, which records what is asked of it, and a source for them.
#pragma once
#include "fakeds.h"
#include <vrtdataset.h>
#include <msat/gdal/dataset.h>
using std::string;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static void quiet(CPLErr, CPLErrorNum, const char*) {}
static void hush() { if (!msym_engine()) CPLPushErrorHandler(quiet); }
static string num(int v) { return std::to_string(v); }
struct Source { GDALRasterBand* band; bool complex; double sx, sy, sw, sh, dx, dy, dw, dh, off, ratio; int component; };
static bool vrt_reads = false; static std::vector<std::pair<int, int>> vrt_sizes;
struct VBand : GDALRasterBand
{
    std::vector<Source> sources; GDALRasterBand* like = nullptr; GDALColorInterp color = GCI_Undefined; int has_nodata = 0; double nodata = 0;
    VBand(GDALDataset* d, int n, GDALDataType t) { poDS = d; nBand = n; eDataType = t; nBlockXSize = 128; nBlockYSize = 128; }
    CPLErr IReadBlock(int, int, void* b) override { if (!vrt_reads) return CE_Failure; memset(b, 0, 128 * 128 * GDALGetDataTypeSizeBytes(eDataType)); return CE_None; }
    CPLErr SetNoDataValue(double v) override { has_nodata = 1; nodata = v; return CE_None; }
    CPLErr SetColorInterpretation(GDALColorInterp c) override { color = c; return CE_None; }
};
static int vds_alive = 0;
struct VDS : GDALDataset
{
    bool has_gt = false; double gt[6]; std::vector<OGRSpatialReference> srs, gcp_srs; std::vector<GDAL_GCP> gcps; std::vector<string> ids;
    VDS(int w, int h) { ++vds_alive; nRasterXSize = w; nRasterYSize = h; }
    ~VDS() { --vds_alive; }
    CPLErr AddBand(GDALDataType t, char**) override { int n = GetRasterCount() + 1; SetBand(n, new VBand(this, n, t)); return CE_None; }
    CPLErr SetGeoTransform(double* g) override { memcpy(gt, g, sizeof gt); has_gt = true; return CE_None; }
    CPLErr SetSpatialRef(const OGRSpatialReference* o) override { srs.clear(); if (o) srs.push_back(*o); return CE_None; }
    CPLErr SetGCPs(int n, const GDAL_GCP* g, const OGRSpatialReference* o) override { gcps.assign(g, g + n); ids.clear(); for (int i = 0; i < n; ++i) ids.push_back(g[i].pszId ? g[i].pszId : ""); gcp_srs.clear(); if (o) gcp_srs.push_back(*o); return CE_None; }
    VBand* band(int n) { return (VBand*)GetRasterBand(n); }
};
VRTDatasetH VRTCreate(int w, int h) { vrt_sizes.emplace_back(w, h); return (VRTDatasetH)(GDALDataset*)new VDS(w, h); }
static VBand* vb(VRTRasterBand* b) { return (VBand*)(GDALRasterBand*)b; }
CPLErr VRTSourcedRasterBand::AddSimpleSource(GDALRasterBand* b, double sx, double sy, double sw, double sh, double dx, double dy, double dw, double dh, const char*, double) { vb(this)->sources.push_back({b, false, sx, sy, sw, sh, dx, dy, dw, dh, 0, 1, 0}); return CE_None; }
CPLErr VRTSourcedRasterBand::AddComplexSource(GDALRasterBand* b, double sx, double sy, double sw, double sh, double dx, double dy, double dw, double dh, double off, double ratio, double, int c) { vb(this)->sources.push_back({b, true, sx, sy, sw, sh, dx, dy, dw, dh, off, ratio, c}); return CE_None; }
CPLErr VRTRasterBand::CopyCommonInfoFrom(GDALRasterBand* b) { vb(this)->like = b; vb(this)->SetMetadata(b->GetMetadata()); return CE_None; }
static double g_min = 10, g_max = 250;
extern "C" CPLErr GDALComputeRasterMinMax(GDALRasterBandH b, int, double* mm) { int n = ((GDALRasterBand*)b)->GetBand(); mm[0] = g_min + n - 1; mm[1] = g_max + n - 1; return CE_None; }
static struct Copy { int calls = 0; GDALDatasetH src = nullptr; GDALDriverH drv = nullptr; string name, opts; int w = 0, h = 0, strict = 0, fail = 0; Source s; GDALDatasetH result = nullptr; bool fresh = false, whole = false; std::vector<int> bands; } g_copy;
static std::vector<Copy> g_copies; static void (*g_oncopy)(GDALDataset*) = nullptr;
extern "C" GDALDatasetH GDALCreateCopy(GDALDriverH d, const char* n, GDALDatasetH s, int strict, CSLConstList o, GDALProgressFunc, void*)
{
    if (!s) { g_copy.calls += 100; return nullptr; } ++g_copy.calls; g_copy.drv = d; g_copy.name = n; g_copy.src = s; g_copy.strict = strict; for (; o && *o; ++o) g_copy.opts += string(*o) + ";"; GDALDataset* ds = (GDALDataset*)s; g_copy.w = ds->GetRasterXSize(); g_copy.h = ds->GetRasterYSize(); g_copy.whole = !vds_alive; g_copy.bands.clear(); if (vds_alive && !((VDS*)ds)->band(1)->sources.empty()) { g_copy.s = ((VDS*)ds)->band(1)->sources[0]; for (int i = 1; i <= ds->GetRasterCount(); ++i) g_copy.bands.push_back(((VDS*)ds)->band(i)->sources[0].band->GetBand()); } if (g_oncopy) g_oncopy(ds); g_copies.push_back(g_copy); if (g_copy.fresh) return g_copy.fail ? nullptr : (GDALDatasetH)(GDALDataset*)new FakeDS(1, 1); return g_copy.fail ? nullptr : g_copy.result;
}
struct Src : FakeDS
{
    std::vector<GDAL_GCP> gcp; OGRSpatialReference gsrs; char id[2][3] = {"p1", "p2"};
    Src(int w, int h, int n = 1, GDALDataType t = GDT_UInt16) : FakeDS(w, h, 9.5)
    {
        double g[6] = {-1000, 16, 0, 2000, 0, -8}; memcpy(gt, g, sizeof g); time("2010-03-04 05:06:07"); for (int i = 0; i < n; ++i) { string c = num(i + 1); GDALRasterBand* b = new FakeBand(this, i + 1, i == 1 ? GDT_Float32 : t, w > 64 ? 1 : w, h > 64 ? 1 : h, w, 1, c.c_str()); SetBand(i + 1, b); }
        gsrs.SetGEOS(57, 35785831, 0, 0);
    }
    void points() { for (int i = 0; i < 2; ++i) { GDAL_GCP p; memset(&p, 0, sizeof p); p.pszId = id[i]; p.pszInfo = (char*)""; p.dfGCPPixel = 3 + 4 * i; p.dfGCPLine = 2 + i; p.dfGCPX = 100 * i; p.dfGCPY = 7; gcp.push_back(p); } }
    int GetGCPCount() override { return (int)gcp.size(); } const GDAL_GCP* GetGCPs() override { return gcp.empty() ? nullptr : gcp.data(); } const OGRSpatialReference* GetGCPSpatialRef() const override { return gcp.empty() ? nullptr : &gsrs; }
};
