// A source dataset whose metadata, georeferencing and samples the harness chooses.
#pragma once
#include "fakect.h"
#include <msat/gdal/const.h>
struct FakeBand : GDALRasterBand
{
    std::vector<double> px; double slope = 1, off = 0, nodata = 0; int has_slope = 1, has_off = 1, has_nodata = 1, fail = 0; std::string unit;
    FakeBand(GDALDataset* ds, int n, GDALDataType t, int w, int h, int bw, int bh, const char* channel) : px(w * h)
    {
        poDS = ds; nBand = n; eDataType = t; nRasterXSize = w; nRasterYSize = h; nBlockXSize = bw; nBlockYSize = bh;
        if (channel) SetMetadataItem(MD_MSAT_CHANNEL_ID, channel, MD_DOMAIN_MSAT);
    }
    CPLErr IReadBlock(int bx, int by, void* b) override
    {
        if (fail) return CE_Failure;
        for (int y = 0; y < nBlockYSize; ++y) for (int x = 0; x < nBlockXSize; ++x)
        {
            int X = bx * nBlockXSize + x, Y = by * nBlockYSize + y, i = y * nBlockXSize + x; if (X >= nRasterXSize || Y >= nRasterYSize) continue; double v = px[Y * nRasterXSize + X];
            switch (eDataType) { case GDT_Byte: ((uint8_t*)b)[i] = (uint8_t)v; break; case GDT_UInt16: ((uint16_t*)b)[i] = (uint16_t)v; break; case GDT_Float32: ((float*)b)[i] = (float)v; break; default: ((double*)b)[i] = v; }
        }
        return CE_None;
    }
    double GetScale(int* ok) override { if (ok) *ok = has_slope; return has_slope ? slope : 1; }
    double GetOffset(int* ok) override { if (ok) *ok = has_off; return has_off ? off : 0; }
    double GetNoDataValue(int* ok) override { if (ok) *ok = has_nodata; return nodata; }
    const char* GetUnitType() override { return unit.c_str(); }
};
static int fake_alive = 0;
struct FakeDS : GDALDataset
{
    OGRSpatialReference osr; bool has_osr = true, has_gt = true; double gt[6];
    FakeDS(int w, int h, double lon = 0) { ++fake_alive; nRasterXSize = w; nRasterYSize = h; osr.SetGEOS(lon, 35785831, 0, 0); double g[6] = {-10, 1, 0, 10, 0, -1}; memcpy(gt, g, sizeof g); }
    ~FakeDS() { --fake_alive; }
    void time(const char* t) { SetMetadataItem(MD_MSAT_DATETIME, t, MD_DOMAIN_MSAT); }
    FakeBand* band(GDALDataType t, int bw, int bh, const char* ch) { int n = GetRasterCount() + 1; FakeBand* b = new FakeBand(this, n, t, nRasterXSize, nRasterYSize, bw, bh, ch); SetBand(n, b); return b; }
    const OGRSpatialReference* GetSpatialRef() const override { return has_osr ? &osr : nullptr; }
    CPLErr GetGeoTransform(double* t) override { if (!has_gt) return CE_Failure; memcpy(t, gt, sizeof gt); return CE_None; }
};
