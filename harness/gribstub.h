// Stand-in for ecCodes: messages are sets of keys.  What it keeps from the real library: which keys each edition and template has,
// the other names of a key, that a bit map marks the values equal to missingValue at the time they are set, that a reader gets its
// own missingValue in their place, and that packing templates decide which keys a reader sees.
#pragma once
#include "h.h"
#include <grib_api.h>
#include <cerrno>
struct GKey { const char* name; bool isd; long l; double d; };
struct grib_handle
{
    long edition = 2; std::vector<GKey> keys; std::vector<double> vals; std::vector<int> miss; bool encoded = false;
    GKey* find(const char* n) { for (auto& k : keys) if (!strcmp(k.name, n)) return &k; return nullptr; }
    long num(const char* n, long def = 0) { GKey* k = find(n); return k ? k->l : def; }
};
static int g_handles, g_calls, g_fail_at = -1, g_fail_code = -9, g_no_sample, g_no_message; static const char* g_failed;
static grib_handle* g_saved[8]; static int g_nsaved;
static int stub_fault(const char* key) { if (g_calls++ == g_fail_at) { g_failed = key; return g_fail_code; } return 0; }
static bool in_list(const char* n, const char* const* l) { for (; *l; ++l) if (!strcmp(*l, n)) return true; return false; }
static const char* const ANY[] = {"centre", "subCentre", "month", "day", "hour", "minute", "bitmapPresent", "missingValue", "generatingProcessIdentifier", "numberOfValues", "numberOfDataPoints", nullptr};
static const char* const G1[] = {"gridDefinition", "indicatorOfParameter", "indicatorOfTypeOfLevel", "level", "centuryOfReferenceTimeOfData", "yearOfCentury", "indicatorOfUnitOfTimeRange", "timeRangeIndicator", "numberIncludedInAverage", "numberMissingFromAveragesOrAccumulations", "dataRepresentationType", "localDefinitionNumber", "numberOfVerticalCoordinateValues", "pvlLocation", nullptr};
static const char* const G1LOCAL[] = {"satelliteIdentifier", "instrumentIdentifier", "channelNumber", "functionCode", nullptr};
static const char* const G2[] = {"discipline", "tablesVersion", "localTablesVersion", "significanceOfReferenceTime", "productionStatusOfProcessedData", "typeOfProcessedData", "year", "second", "sourceOfGridDefinition", "interpretationOfNumberOfPoints", "gridDefinitionTemplateNumber", "productDefinitionTemplateNumber", "dataRepresentationTemplateNumber", "shapeOfTheEarth", nullptr};
static const char* const G2IMAGE[] = {"parameterCategory", "parameterNumber", "typeOfGeneratingProcess", "NB", "satelliteSeries", "satelliteNumber", "instrumentType", "scaleFactorOfCentralWaveNumber", "scaledValueOfCentralWaveNumber", nullptr};
static const char* const SPACE[] = {"numberOfPointsAlongXAxis", "numberOfPointsAlongYAxis", "latitudeOfSubSatellitePointInDegrees", "longitudeOfSubSatellitePointInDegrees", "resolutionAndComponentFlags", "dx", "dy", "XpInGridLengths", "YpInGridLengths", "scanningMode", "orientationOfTheGridInDegrees", "Nr", "Xo", "Yo", nullptr};
static const char* const UNSIGNED[] = {"numberOfPointsAlongXAxis", "numberOfPointsAlongYAxis", "Xo", "Yo", "level", "channelNumber", "satelliteNumber", "indicatorOfTypeOfLevel", "satelliteIdentifier", "year", "month", "day", "hour", "minute", "second", "yearOfCentury", "centuryOfReferenceTimeOfData", nullptr};
static const char* canonical(grib_handle* h, const char* n)
{
    static const char* const A[][2] = {{"geography.dx", "dx"}, {"geography.dy", "dy"}, {"altitudeOfTheCameraFromTheEarthsCentreMeasuredInUnitsOfTheEarthsRadius", "Nr"}};
    for (auto& a : A) if (!strcmp(a[0], n)) return a[1];
    if (h->edition == 2) { if (!strcmp(n, "xCoordinateOfSubSatellitePoint")) return "XpInGridLengths"; if (!strcmp(n, "yCoordinateOfSubSatellitePoint")) return "YpInGridLengths"; }
    return n;
}
// may it be set; is it there to be read
static bool knows(grib_handle* h, const char* n, bool reading)
{
    if (in_list(n, ANY)) return true;
    bool space = h->edition == 1 ? h->num("dataRepresentationType") == 90 : h->num("gridDefinitionTemplateNumber") == 90;
    if (in_list(n, SPACE)) return !reading || space;
    if (h->edition == 1) return in_list(n, G1) || (in_list(n, G1LOCAL) && h->num("localDefinitionNumber") == 24);
    return in_list(n, G2) || (in_list(n, G2IMAGE) && (!reading || h->num("productDefinitionTemplateNumber") == 31));
}
static GKey* put_key(grib_handle* h, const char* n) { if (GKey* k = h->find(n)) return k; const char* keep = nullptr; for (auto l : {ANY, G1, G1LOCAL, G2, G2IMAGE, SPACE}) for (; *l; ++l) if (!strcmp(*l, n)) keep = *l; h->keys.push_back(GKey{keep, false, 0, 0}); return &h->keys.back(); }
static void set_l(grib_handle* h, const char* n, long v) { GKey* k = put_key(h, n); k->isd = false; k->l = v; k->d = (double)v; }
static void set_d(grib_handle* h, const char* n, double v) { GKey* k = put_key(h, n); k->isd = true; k->d = v; }
static void drop(grib_handle* h, const char* n) { for (auto i = h->keys.begin(); i != h->keys.end(); ++i) if (!strcmp(i->name, n)) { h->keys.erase(i); return; } }
// put a message at index i of the store and return the octets that stand for it in a file
static void save(grib_handle* h) { if (g_nsaved == 8) msym_assert(0, "stub: messages"); g_saved[g_nsaved++] = new grib_handle(*h); }
static void token(unsigned char* b, int idx) { memset(b, 0, 16); memcpy(b, "GRIB", 4); b[4] = (unsigned char)idx; memcpy(b + 12, "7777", 4); }
extern "C" {
const char* grib_get_error_message(int) { return "an error"; }
int grib_handle_delete(grib_handle* h) { --g_handles; delete h; return 0; }
grib_handle* grib_handle_new_from_samples(grib_context*, const char* n)
{
    if (g_no_sample) return nullptr; grib_handle* h = new grib_handle; ++g_handles;
    if (!strcmp(n, "GRIB1")) h->edition = 1; else if (strcmp(n, "GRIB2")) { delete h; --g_handles; return nullptr; }
    set_l(h, "month", 1); set_l(h, "day", 1); set_l(h, "hour", 12); set_l(h, "minute", 0); set_l(h, "bitmapPresent", 0); set_d(h, "missingValue", 9999);
    if (h->edition == 1) { set_l(h, "centuryOfReferenceTimeOfData", 21); set_l(h, "yearOfCentury", 8); set_l(h, "level", 0); set_l(h, "indicatorOfTypeOfLevel", 1); set_l(h, "dataRepresentationType", 0); }
    else { set_l(h, "year", 2008); set_l(h, "second", 0); set_l(h, "gridDefinitionTemplateNumber", 0); set_l(h, "productDefinitionTemplateNumber", 0); }
    return h;
}
grib_handle* grib_handle_new_from_file(grib_context*, FILE* f, int* err)
{
    unsigned char b[64]; size_t n = fread(b, 1, sizeof b, f); *err = -1;
    for (size_t i = 0; i + 16 <= n; ++i) if (!memcmp(b + i, "GRIB", 4)) { if (memcmp(b + i + 12, "7777", 4) || b[i + 4] >= g_nsaved) { *err = -5; return nullptr; } ++g_handles; *err = 0; grib_handle* h = new grib_handle(*g_saved[b[i + 4]]); return h; }
    return nullptr;
}
int grib_get_long(const grib_handle* ch, const char* key, long* v)
{
    grib_handle* h = const_cast<grib_handle*>(ch);
    *v = 0; if (int e = stub_fault(key)) return e;
    if (!strcmp(key, "editionNumber")) { *v = h->edition; return 0; }
    const char* n = canonical(h, key); if (!knows(h, n, true) && !(h->edition == 1 && !strcmp(n, "second"))) return GRIB_NOT_FOUND;
    if (h->edition == 1 && !strcmp(n, "second")) { *v = 0; return 0; }
    GKey* k = h->find(n); if (!k) return GRIB_NOT_FOUND; *v = k->isd ? (long)k->d : k->l; return 0;
}
int grib_get_double(const grib_handle* ch, const char* key, double* v)
{
    grib_handle* h = const_cast<grib_handle*>(ch);
    *v = 0; if (int e = stub_fault(key)) return e;
    const char* n = canonical(h, key); if (!knows(h, n, true)) return GRIB_NOT_FOUND; GKey* k = h->find(n); if (!k) return GRIB_NOT_FOUND; *v = k->d; return 0;
}
int grib_set_long(grib_handle* h, const char* key, long v)
{
    if (int e = stub_fault(key)) return e;
    const char* n = canonical(h, key); if (!knows(h, n, false)) return GRIB_NOT_FOUND; if (in_list(n, UNSIGNED) && v < 0) return -14; set_l(h, n, v); return 0;
}
int grib_set_double(grib_handle* h, const char* key, double v)
{
    if (int e = stub_fault(key)) return e;
    const char* n = canonical(h, key); if (!knows(h, n, false)) return GRIB_NOT_FOUND; set_d(h, n, v); return 0;
}
int grib_set_string(grib_handle*, const char*, const char*, size_t*) { return GRIB_NOT_FOUND; }
int grib_set_double_array(grib_handle* h, const char* key, const double* v, size_t n)
{
    if (int e = stub_fault(key)) return e; if (strcmp(key, "values")) return GRIB_NOT_FOUND;
    h->vals.assign(v, v + n); h->miss.assign(n, 0); double mv = h->find("missingValue")->d; if (h->num("bitmapPresent")) for (size_t i = 0; i < n; ++i) h->miss[i] = v[i] == mv; return 0;
}
int grib_get_double_array(const grib_handle* ch, const char* key, double* v, size_t* n)
{
    grib_handle* h = const_cast<grib_handle*>(ch);
    if (int e = stub_fault(key)) return e; if (strcmp(key, "values")) return GRIB_NOT_FOUND; if (*n < h->vals.size()) return -6;
    *n = h->vals.size(); double mv = h->find("missingValue")->d;
    for (size_t i = 0; i < *n; ++i) { uint64_t u = msym_ite(h->miss[i], msym_bits(mv), msym_bits(h->vals[i])); memcpy(v + i, &u, 8); }
    return 0;
}
int grib_get_long_array(const grib_handle*, const char*, long*, size_t*) { return GRIB_NOT_FOUND; }
int grib_get_message(const grib_handle* ch, const void** p, size_t* n)
{
    grib_handle* h = const_cast<grib_handle*>(ch);
    static unsigned char b[16]; if (g_no_message) return -14; if (int e = stub_fault("message")) return e; save(h); token(b, g_nsaved - 1); *p = b; *n = 16; return 0;
}
}
