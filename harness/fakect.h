// Stand-in for PROJ: projected metres to degrees by a plain scale, so that what the code does with the result is decided apart from it.
#pragma once
#include "h.h"
#include <gdal_priv.h>
#include <ogr_spatialref.h>
#include <cmath>
static int ct_fail = 0, ct_alive = 0; // 1: points cannot be transformed; 2, 3, 4: no transformation either way, from or to projected coordinates
struct FakeCT : OGRCoordinateTransformation
{
    bool inverse; explicit FakeCT(bool i) : inverse(i) { ++ct_alive; }
    ~FakeCT() { --ct_alive; }
    const OGRSpatialReference* GetSourceCS() const override { return nullptr; }
    const OGRSpatialReference* GetTargetCS() const override { return nullptr; }
    int Transform(int n, double* x, double* y, double*, double*, int* ok) override { if (ct_fail == 1) return 0; for (int i = 0; i < n; ++i) { if (inverse) { x[i] = x[i] * 65536; y[i] = y[i] * 65536; } else { x[i] = x[i] / 65536; y[i] = y[i] / 65536; } if (ok) ok[i] = 1; } return 1; }
    OGRCoordinateTransformation* Clone() const override { return new FakeCT(inverse); }
    OGRCoordinateTransformation* GetInverse() const override { return new FakeCT(!inverse); }
};
OGRCoordinateTransformation* OGRCreateCoordinateTransformation(const OGRSpatialReference* a, const OGRSpatialReference*) { OGRErr e; a->GetProjParm("satellite_height", 0.0, &e); bool inv = e != OGRERR_NONE; if (ct_fail == 2 || ct_fail == (inv ? 4 : 3)) return nullptr; return new FakeCT(inv); }
