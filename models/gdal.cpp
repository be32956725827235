// Bitcode model of the parts of GDAL the code under test uses: metadata, datasets and bands, unresampled RasterIO,
// option lists, drivers, and the parameters of spatial references.
#include <gdal_priv.h>
#include <ogr_spatialref.h>
#include <cpl_string.h>
#include <ogr_feature.h>
#include <ogr_api.h>
#include <algorithm>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
extern "C" { void msym_unsupported(const char*) __attribute__((noreturn)); long msym_file_get(const char*, void*, unsigned long); }

// ---- errors, memory, string lists
static int g_errors = 0; static CPLErr g_last = CE_None;
extern "C" {
void CPLError(CPLErr c, CPLErrorNum, const char*, ...) { ++g_errors; g_last = c; }
void CPLErrorReset() { g_last = CE_None; }
CPLErr CPLGetLastErrorType() { return g_last; }
const char* CPLGetLastErrorMsg() { return ""; }
void CPLDebug(const char*, const char*, ...) {}
void* CPLMalloc(size_t n) { return n ? malloc(n) : nullptr; }
void* CPLCalloc(size_t a, size_t b) { return calloc(a, b); }
void* CPLRealloc(void* p, size_t n) { return realloc(p, n); }
char* CPLStrdup(const char* s) { return strdup(s ? s : ""); }
void VSIFree(void* p) { free(p); }
void OGRFree(void* p) { free(p); }
int CSLCount(CSLConstList l) { int n = 0; if (l) while (l[n]) ++n; return n; }
void CSLDestroy(char** l) { if (!l) return; for (char** p = l; *p; ++p) free(*p); free(l); }
char** CSLAddString(char** l, const char* s) { if (!s) return l; int n = CSLCount(l); l = (char**)realloc(l, (n + 2) * sizeof(char*)); l[n] = strdup(s); l[n + 1] = nullptr; return l; }
char** CSLDuplicate(CSLConstList l) { char** r = nullptr; if (l) for (; *l; ++l) r = CSLAddString(r, *l); return r; }
static char** entry_of(CSLConstList l, const char* k)
{
    if (!l || !k) return nullptr; size_t n = strlen(k);
    for (; *l; ++l) if (!strncasecmp(*l, k, n) && ((*l)[n] == '=' || (*l)[n] == ':')) return (char**)l;
    return nullptr;
}
int CSLFindName(CSLConstList l, const char* k) { char** e = entry_of(l, k); return e ? (int)(e - (char**)l) : -1; }
const char* CSLFetchNameValue(CSLConstList l, const char* k) { char** e = entry_of(l, k); return e ? *e + strlen(k) + 1 : nullptr; }
const char* CSLFetchNameValueDef(CSLConstList l, const char* k, const char* d) { const char* r = CSLFetchNameValue(l, k); return r ? r : d; }
int CSLFindString(CSLConstList l, const char* k) { for (int i = 0; l && l[i]; ++i) if (!strcasecmp(l[i], k)) return i; return -1; }
char** CSLSetNameValue(char** l, const char* k, const char* v)
{
    char** e = entry_of(l, k);
    if (e) { free(*e); if (!v) { for (; *e; ++e) e[0] = e[1]; return l; } size_t n = strlen(k) + strlen(v) + 2; *e = (char*)malloc(n); strcpy(*e, k); strcat(*e, "="); strcat(*e, v); return l; }
    if (!v) return l; std::string s = std::string(k) + "=" + v; return CSLAddString(l, s.c_str());
}
const char* CPLParseNameValue(const char* s, char** key)
{
    for (const char* p = s; *p; ++p) if (*p == '=' || *p == ':') { const char* v = p + 1; while (*v == ' ' || *v == '\t') ++v; if (key) { size_t n = p - s; while (n && (s[n - 1] == ' ' || s[n - 1] == '\t')) --n; *key = (char*)malloc(n + 1); memcpy(*key, s, n); (*key)[n] = 0; } return v; }
    return nullptr;
}
double CPLAtof(const char* s) { return atof(s); }
}

// ---- CPLStringList: what inline GDAL code and the plugin use of it
CPLStringList::CPLStringList() {}
CPLStringList::CPLStringList(char** l, int own) : papszList(l), nCount(-1), bOwnList(own != 0) {}
CPLStringList::CPLStringList(CSLConstList l) : papszList(CSLDuplicate(l)), nCount(-1), bOwnList(true) {}
CPLStringList::CPLStringList(const CPLStringList& o) : papszList(CSLDuplicate(o.papszList)), nCount(-1), bOwnList(true) {}
CPLStringList::~CPLStringList() { if (bOwnList) CSLDestroy(papszList); }
CPLStringList& CPLStringList::operator=(const CPLStringList& o) { if (this != &o) { if (bOwnList) CSLDestroy(papszList); papszList = CSLDuplicate(o.papszList); bOwnList = true; } return *this; }
CPLStringList& CPLStringList::Clear() { if (bOwnList) CSLDestroy(papszList); papszList = nullptr; bOwnList = false; return *this; }
int CPLStringList::Count() const { return CSLCount(papszList); }
CPLStringList& CPLStringList::AddString(const char* s) { if (!bOwnList) { papszList = CSLDuplicate(papszList); bOwnList = true; } papszList = CSLAddString(papszList, s); return *this; }
CPLStringList& CPLStringList::SetNameValue(const char* k, const char* v) { if (!bOwnList) { papszList = CSLDuplicate(papszList); bOwnList = true; } papszList = CSLSetNameValue(papszList, k, v); return *this; }
CPLStringList& CPLStringList::AddNameValue(const char* k, const char* v) { std::string s = std::string(k) + "=" + v; return AddString(s.c_str()); }
const char* CPLStringList::FetchNameValue(const char* k) const { return CSLFetchNameValue(papszList, k); }

// ---- metadata
struct Domain { char** items; };
typedef std::map<std::string, Domain> Domains;
#define DOMS(m) (*(Domains*)(m).papoMetadataLists)
static const char* dn(const char* d) { return d ? d : ""; }
GDALMultiDomainMetadata::GDALMultiDomainMetadata() : papszDomainList(nullptr), papoMetadataLists((CPLStringList**)new Domains) {}
GDALMultiDomainMetadata::~GDALMultiDomainMetadata() { for (auto& i : DOMS(*this)) CSLDestroy(i.second.items); delete (Domains*)papoMetadataLists; }
char** GDALMultiDomainMetadata::GetMetadata(const char* d) { auto i = DOMS(*this).find(dn(d)); return i == DOMS(*this).end() ? nullptr : i->second.items; }
CPLErr GDALMultiDomainMetadata::SetMetadata(char** l, const char* d) { Domain& x = DOMS(*this)[dn(d)]; char** c = CSLDuplicate(l); CSLDestroy(x.items); x.items = c; return CE_None; }
const char* GDALMultiDomainMetadata::GetMetadataItem(const char* n, const char* d) { return CSLFetchNameValue(GetMetadata(d), n); }
CPLErr GDALMultiDomainMetadata::SetMetadataItem(const char* n, const char* v, const char* d) { Domain& x = DOMS(*this)[dn(d)]; x.items = CSLSetNameValue(x.items, n, v); return CE_None; }
GDALMajorObject::GDALMajorObject() : nFlags(0) {}
GDALMajorObject::~GDALMajorObject() {}
const char* GDALMajorObject::GetDescription() const { return sDescription.c_str(); }
void GDALMajorObject::SetDescription(const char* s) { sDescription = s; }
char** GDALMajorObject::GetMetadata(const char* d) { return oMDMD.GetMetadata(d); }
CPLErr GDALMajorObject::SetMetadata(char** l, const char* d) { return oMDMD.SetMetadata(l, d); }
const char* GDALMajorObject::GetMetadataItem(const char* n, const char* d) { return oMDMD.GetMetadataItem(n, d); }
CPLErr GDALMajorObject::SetMetadataItem(const char* n, const char* v, const char* d) { return oMDMD.SetMetadataItem(n, v, d); }
extern "C" CPLErr GDALSetMetadataItem(GDALMajorObjectH h, const char* n, const char* v, const char* d) { return ((GDALMajorObject*)h)->SetMetadataItem(n, v, d); }
extern "C" const char* GDALGetMetadataItem(GDALMajorObjectH h, const char* n, const char* d) { return ((GDALMajorObject*)h)->GetMetadataItem(n, d); }

// ---- data types
extern "C" int GDALGetDataTypeSizeBytes(GDALDataType t)
{
    switch (t) { case GDT_Byte: case GDT_Int8: return 1; case GDT_UInt16: case GDT_Int16: return 2; case GDT_UInt32: case GDT_Int32: case GDT_Float32: return 4; case GDT_Float64: return 8; default: return 0; }
}
extern "C" int GDALGetDataTypeSize(GDALDataType t) { return 8 * GDALGetDataTypeSizeBytes(t); }
static double get_px(const void* p, GDALDataType t)
{
    switch (t) { case GDT_Byte: return *(const uint8_t*)p; case GDT_Int8: return *(const int8_t*)p; case GDT_UInt16: return *(const uint16_t*)p; case GDT_Int16: return *(const int16_t*)p; case GDT_UInt32: return *(const uint32_t*)p;
        case GDT_Int32: return *(const int32_t*)p; case GDT_Float32: return *(const float*)p; case GDT_Float64: return *(const double*)p; default: msym_unsupported("GDAL data type"); }
}
template<class T> static void put_int(void* p, double v, double lo, double hi) { if (v != v) { *(T*)p = 0; return; } v = v < 0 && lo < 0 ? v - 0.5 : v + 0.5; *(T*)p = v >= hi ? (T)hi : v <= lo ? (T)lo : (T)v; }
static void put_px(void* p, GDALDataType t, double v)
{
    switch (t) { case GDT_Byte: put_int<uint8_t>(p, v, 0, 255); break; case GDT_Int8: put_int<int8_t>(p, v, -128, 127); break; case GDT_UInt16: put_int<uint16_t>(p, v, 0, 65535); break; case GDT_Int16: put_int<int16_t>(p, v, -32768, 32767); break;
        case GDT_UInt32: put_int<uint32_t>(p, v, 0, 4294967295.0); break; case GDT_Int32: put_int<int32_t>(p, v, -2147483648.0, 2147483647.0); break; case GDT_Float32: *(float*)p = (float)v; break; case GDT_Float64: *(double*)p = v; break; default: msym_unsupported("GDAL data type"); }
}

// ---- raster bands
GDALRasterBand::GDALRasterBand() {}
GDALRasterBand::~GDALRasterBand() {}
int GDALRasterBand::GetXSize() { return nRasterXSize; }
int GDALRasterBand::GetYSize() { return nRasterYSize; }
int GDALRasterBand::GetBand() { return nBand; }
GDALDataset* GDALRasterBand::GetDataset() { return poDS; }
GDALDataType GDALRasterBand::GetRasterDataType() { return eDataType; }
void GDALRasterBand::GetBlockSize(int* x, int* y) { if (x) *x = nBlockXSize; if (y) *y = nBlockYSize; }
const char* GDALRasterBand::GetMetadataItem(const char* n, const char* d) { return GDALMajorObject::GetMetadataItem(n, d); }
char** GDALRasterBand::GetCategoryNames() { return nullptr; }
double GDALRasterBand::GetNoDataValue(int* ok) { if (ok) *ok = FALSE; return -1e10; }
double GDALRasterBand::GetOffset(int* ok) { if (ok) *ok = FALSE; return 0; }
double GDALRasterBand::GetScale(int* ok) { if (ok) *ok = FALSE; return 1; }
const char* GDALRasterBand::GetUnitType() { return ""; }
GDALColorInterp GDALRasterBand::GetColorInterpretation() { return GCI_Undefined; }
GDALColorTable* GDALRasterBand::GetColorTable() { return nullptr; }
double GDALRasterBand::GetMinimum(int* ok) { if (ok) *ok = FALSE; return 0; }
double GDALRasterBand::GetMaximum(int* ok) { if (ok) *ok = FALSE; return 0; }
CPLErr GDALRasterBand::SetNoDataValue(double) { return CE_Failure; }
CPLErr GDALRasterBand::SetColorInterpretation(GDALColorInterp) { return CE_Failure; }
CPLErr GDALRasterBand::IWriteBlock(int, int, void*) { return CE_Failure; }
static int blocks(int n, int b) { return (n + b - 1) / b; }
CPLErr GDALRasterBand::ReadBlock(int x, int y, void* p)
{
    if (nBlockXSize <= 0 || nBlockYSize <= 0) return CE_Failure;
    if (x < 0 || x >= blocks(nRasterXSize, nBlockXSize) || y < 0 || y >= blocks(nRasterYSize, nBlockYSize)) return CE_Failure;
    return IReadBlock(x, y, p);
}
CPLErr GDALRasterBand::GetStatistics(int, int, double*, double*, double*, double*) { return CE_Failure; }
CPLErr GDALRasterBand::IRasterIO(GDALRWFlag, int, int, int, int, void*, int, int, GDALDataType, GSpacing, GSpacing, GDALRasterIOExtraArg*) { return CE_Failure; }
CPLErr GDALRasterBand::RasterIO(GDALRWFlag f, int xo, int yo, int xs, int ys, void* data, int bx, int by, GDALDataType bt, GSpacing px, GSpacing ls, GDALRasterIOExtraArg*)
{
    if (f != GF_Read) msym_unsupported("GDAL raster write");
    if (xs < 1 || ys < 1 || bx < 1 || by < 1) return CE_None;
    if (xo < 0 || xo > INT_MAX - xs || xo + xs > nRasterXSize || yo < 0 || yo > INT_MAX - ys || yo + ys > nRasterYSize) { CPLError(CE_Failure, 0, "window"); return CE_Failure; }
    if (bx != xs || by != ys) msym_unsupported("GDAL resampling");
    if (nBlockXSize <= 0 || nBlockYSize <= 0) return CE_Failure;
    int bs = GDALGetDataTypeSizeBytes(bt), ss = GDALGetDataTypeSizeBytes(eDataType); if (!px) px = bs; if (!ls) ls = px * bx;
    std::vector<char> blk((size_t)nBlockXSize * nBlockYSize * ss);
    for (int b = yo / nBlockYSize; b <= (yo + ys - 1) / nBlockYSize; ++b) for (int a = xo / nBlockXSize; a <= (xo + xs - 1) / nBlockXSize; ++a)
    {
        if (IReadBlock(a, b, blk.data()) != CE_None) return CE_Failure;
        for (int y = std::max(yo, b * nBlockYSize); y < std::min(yo + ys, (b + 1) * nBlockYSize); ++y) for (int x = std::max(xo, a * nBlockXSize); x < std::min(xo + xs, (a + 1) * nBlockXSize); ++x)
        {
            char* d = (char*)data + (y - yo) * ls + (x - xo) * px; const char* s = blk.data() + ((size_t)(y - b * nBlockYSize) * nBlockXSize + (x - a * nBlockXSize)) * ss;
            if (bt == eDataType) memcpy(d, s, ss); else put_px(d, bt, get_px(s, eDataType));
        }
    }
    return CE_None;
}

// ---- datasets
GDALDefaultOverviews::GDALDefaultOverviews() {}
GDALDefaultOverviews::~GDALDefaultOverviews() {}
OGRFieldDomain::~OGRFieldDomain() {}
GDALDataset::GDALDataset() {}
GDALDataset::~GDALDataset() { if (papoBands) { for (int i = 0; i < nBands; ++i) delete papoBands[i]; free(papoBands); } CSLDestroy(papszOpenOptions); }
int GDALDataset::GetRasterXSize() { return nRasterXSize; }
int GDALDataset::GetRasterYSize() { return nRasterYSize; }
int GDALDataset::GetRasterCount() { return nBands; }
GDALRasterBand* GDALDataset::GetRasterBand(int n) { return n < 1 || n > nBands ? nullptr : papoBands[n - 1]; }
void GDALDataset::SetBand(int n, GDALRasterBand* b)
{
    if (n > nBands || !papoBands) { int m = std::max(n, nBands), from = papoBands ? nBands : 0; papoBands = (GDALRasterBand**)realloc(papoBands, m * sizeof(GDALRasterBand*)); for (int i = from; i < m; ++i) papoBands[i] = nullptr; nBands = m; }
    if (papoBands[n - 1]) return;
    papoBands[n - 1] = b; b->nBand = n; b->poDS = this; b->nRasterXSize = nRasterXSize; b->nRasterYSize = nRasterYSize; b->eAccess = eAccess;
}
char** GDALDataset::GetMetadata(const char* d) { return GDALMajorObject::GetMetadata(d); }
char** GDALDataset::GetMetadataDomainList() { return nullptr; }
char** GDALMajorObject::GetMetadataDomainList() { return nullptr; }
const OGRSpatialReference* GDALDataset::GetSpatialRef() const { return nullptr; }
CPLErr GDALDataset::GetGeoTransform(double* t) { t[0] = t[2] = t[3] = t[4] = 0; t[1] = t[5] = 1; return CE_Failure; }
GDALDriver* GDALDataset::GetDriver() { return poDriver; }
char** GDALDataset::GetFileList() { return nullptr; }
int GDALDataset::GetGCPCount() { return 0; }
const GDAL_GCP* GDALDataset::GetGCPs() { return nullptr; }
const char* GDALDataset::GetGCPProjection() { const OGRSpatialReference* o = GetGCPSpatialRef(); if (!o) return ""; char* w; o->exportToWkt(&w); static std::string r; r = w; free(w); return r.c_str(); }
const OGRSpatialReference* GDALDataset::GetGCPSpatialRef() const { return nullptr; }
extern "C" {
int GDALGetRasterXSize(GDALDatasetH h) { return ((GDALDataset*)h)->GetRasterXSize(); }
int GDALGetRasterYSize(GDALDatasetH h) { return ((GDALDataset*)h)->GetRasterYSize(); }
int GDALGetRasterCount(GDALDatasetH h) { return ((GDALDataset*)h)->GetRasterCount(); }
CPLErr GDALGetGeoTransform(GDALDatasetH h, double* t) { return ((GDALDataset*)h)->GetGeoTransform(t); }
int GDALGetGCPCount(GDALDatasetH h) { return ((GDALDataset*)h)->GetGCPCount(); }
const GDAL_GCP* GDALGetGCPs(GDALDatasetH h) { return ((GDALDataset*)h)->GetGCPs(); }
const char* GDALGetGCPProjection(GDALDatasetH h) { return ((GDALDataset*)h)->GetGCPProjection(); }
CPLErr GDALClose(GDALDatasetH h) { delete (GDALDataset*)h; return CE_None; }
int GDALCheckVersion(int, int, const char*) { return TRUE; }
}

// ---- drivers
static GDALDriver* g_drivers[8]; static int g_ndrivers;
GDALDriver::GDALDriver() {}
GDALDriver::~GDALDriver() {}
CPLErr GDALDriver::SetMetadataItem(const char* n, const char* v, const char* d) { return GDALMajorObject::SetMetadataItem(n, v, d); }
int GDALDriverManager::RegisterDriver(GDALDriver* d) { if (g_ndrivers == 8) msym_unsupported("GDAL drivers"); g_drivers[g_ndrivers++] = d; return g_ndrivers - 1; }
extern "C" GDALDriverH GDALGetDriverByName(const char* n) { for (int i = 0; i < g_ndrivers; ++i) if (!strcasecmp(g_drivers[i]->GetDescription(), n)) return g_drivers[i]; return nullptr; }
GDALDriverManager* GetGDALDriverManager() { static char m[sizeof(GDALDriverManager)]; return (GDALDriverManager*)m; }

// ---- opening files: the first octets of an (in-memory) file
GDALOpenInfo::GDALOpenInfo(const char* f, int flags, const char* const*) : bHasGotSiblingFiles(false), papszSiblingFiles(nullptr), nHeaderBytesTried(0), pszFilename(CPLStrdup(f)), papszOpenOptions(nullptr), eAccess(GA_ReadOnly), nOpenFlags(flags), bStatOK(FALSE), bIsDirectory(FALSE), fpL(nullptr), nHeaderBytes(0), pabyHeader(nullptr), papszAllowedDrivers(nullptr)
{
    long n = msym_file_get(f, nullptr, 0); if (n < 0) return;
    bStatOK = TRUE; pabyHeader = (GByte*)calloc(1025, 1); std::vector<unsigned char> b(n + 1); msym_file_get(f, b.data(), n); nHeaderBytes = n > 1024 ? 1024 : (int)n; memcpy(pabyHeader, b.data(), nHeaderBytes); fpL = (VSILFILE*)calloc(1, 8);
}
GDALOpenInfo::~GDALOpenInfo() { free(pabyHeader); free(pszFilename); free(fpL); }

// ---- spatial references: the parameters of the geostationary projection
struct OGRSpatialReference::Private { double lon = 0, h = 0, fe = 0, fn = 0, a = 0, rf = 0; int geos = 0, axis = 0; };
OGRSpatialReference::OGRSpatialReference(const char* w) : d(new Private) { if (w && *w) msym_unsupported("WKT"); }
OGRSpatialReference::OGRSpatialReference(const OGRSpatialReference& o) : d(new Private(*o.d)) {}
OGRSpatialReference::~OGRSpatialReference() {}
OGRSpatialReference& OGRSpatialReference::operator=(const OGRSpatialReference& o) { *d = *o.d; return *this; }
OGRSpatialReference* OGRSpatialReference::Clone() const { return new OGRSpatialReference(*this); }
OGRSpatialReference* OGRSpatialReference::CloneGeogCS() const { if (!d->geos && d->a == 0) return nullptr; OGRSpatialReference* r = new OGRSpatialReference(nullptr); r->d->a = d->a; r->d->rf = d->rf; return r; }
OGRErr OGRSpatialReference::SetGEOS(double lon, double h, double fe, double fn) { d->lon = lon; d->h = h; d->fe = fe; d->fn = fn; d->geos = 1; return OGRERR_NONE; }
OGRErr OGRSpatialReference::SetGeogCS(const char*, const char*, const char*, double a, double rf, const char*, double, const char*, double) { d->a = a; d->rf = rf; return OGRERR_NONE; }
void OGRSpatialReference::SetAxisMappingStrategy(OSRAxisMappingStrategy s) { d->axis = (int)s; }
int OGRSpatialReference::IsSame(const OGRSpatialReference* o) const { return d->geos == o->d->geos && d->lon == o->d->lon && d->h == o->d->h && d->fe == o->d->fe && d->fn == o->d->fn && d->a == o->d->a && d->rf == o->d->rf; }
double OGRSpatialReference::GetProjParm(const char* n, double def, OGRErr* e) const
{
    if (e) *e = OGRERR_NONE;
    if (d->geos) { if (!strcasecmp(n, "central_meridian")) return d->lon; if (!strcasecmp(n, "satellite_height")) return d->h; if (!strcasecmp(n, "false_easting")) return d->fe; if (!strcasecmp(n, "false_northing")) return d->fn; }
    if (e) *e = OGRERR_FAILURE; return def;
}
const char* OGRSpatialReference::GetAttrValue(const char* n, int i) const { if (i == 0 && d->geos && !strcasecmp(n, "PROJECTION")) return "Geostationary_Satellite"; return nullptr; }
int OGRCoordinateTransformation::Transform(int n, double* x, double* y, double* z, int* ok) { std::vector<int> s(n + 1); int r = Transform(n, x, y, z, nullptr, s.data()); if (ok) for (int i = 0; i < n; ++i) ok[i] = s[i]; return r; }
// text form of a spatial reference: a number in a table
static std::vector<OGRSpatialReference*>& srs_table() { static std::vector<OGRSpatialReference*> t; return t; }
OGRErr OGRSpatialReference::exportToWkt(char** w) const { auto& t = srs_table(); size_t i = 0; while (i < t.size() && !t[i]->IsSame(this)) ++i; if (i == t.size()) t.push_back(Clone()); char b[16]; snprintf(b, sizeof b, "SRS%d", (int)i); *w = strdup(b); return OGRERR_NONE; }
static const OGRSpatialReference* srs_of(const char* w) { if (!w || !*w) return nullptr; if (strncmp(w, "SRS", 3)) msym_unsupported("WKT"); int i = atoi(w + 3); if (i < 0 || (size_t)i >= srs_table().size()) msym_unsupported("WKT"); return srs_table()[i]; }
double OGRSpatialReference::GetSemiMajor(OGRErr* e) const { if (e) *e = OGRERR_NONE; return d->a; }
double OGRSpatialReference::GetInvFlattening(OGRErr* e) const { if (e) *e = OGRERR_NONE; return d->rf; }
const char* GDALDataset::GetProjectionRef() const { const OGRSpatialReference* o = GetSpatialRef(); if (!o) return ""; char* w; o->exportToWkt(&w); static std::string r; r = w; free(w); return r.c_str(); }
CPLErr GDALDataset::SetProjection(const char* w) { return SetSpatialRef(srs_of(w)); }
CPLErr GDALDataset::SetSpatialRef(const OGRSpatialReference*) { return CE_Failure; }
CPLErr GDALDataset::SetGeoTransform(double*) { return CE_Failure; }
CPLErr GDALDataset::AddBand(GDALDataType, char**) { return CE_Failure; }
CPLErr GDALDataset::SetGCPs(int, const GDAL_GCP*, const OGRSpatialReference*) { return CE_Failure; }
CPLErr GDALDataset::SetGCPs(int n, const GDAL_GCP* g, const char* w) { return SetGCPs(n, g, srs_of(w)); }
extern "C" const char* GDALGetProjectionRef(GDALDatasetH h) { return ((GDALDataset*)h)->GetProjectionRef(); }
extern "C" GDAL_GCP* GDALDuplicateGCPs(int n, const GDAL_GCP* g) { GDAL_GCP* r = (GDAL_GCP*)malloc(n * sizeof *r); for (int i = 0; i < n; ++i) { r[i] = g[i]; r[i].pszId = CPLStrdup(g[i].pszId); r[i].pszInfo = CPLStrdup(g[i].pszInfo); } return r; }
extern "C" void GDALDeinitGCPs(int n, GDAL_GCP* g) { for (int i = 0; i < n; ++i) { free(g[i].pszId); free(g[i].pszInfo); } }
