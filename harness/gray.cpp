// Gray images of raster bands (tools/image.cpp).
#include "tool.h"
#include <limits>
#include <tools/image.cpp>
struct RawBand : GDALRasterBand
{
    std::vector<uint8_t> raw; size_t size; bool has = true, fail = false; double none = 0;
    RawBand(GDALDataset* d, GDALDataType t, int w, int h, size_t sz) : raw(w * h * sz), size(sz) { poDS = d; nBand = 1; eDataType = t; nRasterXSize = w; nRasterYSize = h; nBlockXSize = w; nBlockYSize = 1; }
    CPLErr IReadBlock(int, int y, void* b) override { if (fail) return CE_Failure; memcpy(b, raw.data() + y * nRasterXSize * size, nRasterXSize * size); return CE_None; }
    double GetNoDataValue(int* ok) override { if (ok) *ok = has; return has ? none : -1e10; }
};
template<typename T> static void put(RawBand& b, int i, T v) { memcpy(b.raw.data() + i * sizeof(T), &v, sizeof(T)); }
static std::vector<uint8_t> gray(RawBand* b, msat::Stretch& s, int w, int h)
{
    pictures.clear(); msym_assert(msat::export_image(b, "out.png", s), "exported"); msym_assert(pictures.size() == 1 && pictures[0].file == "out.png" && pictures[0].w == (size_t)w && pictures[0].h == (size_t)h, "an image of the size of the band"); return pictures[0].px;
}
static double pick_nodata(bool& has) { static const double V[] = {0, 255, 65535, -9999, -1e30, 1e300}; unsigned k = pick("nodata", 0, 7); has = k < 7; return k < 6 ? V[k] : (double)NAN; }
// a is any value, b and c are chosen; all three may be the missing value
template<typename T> static void counts(GDALDataType t, T (*any)(const char*), bool inside)
{
    hush(); static const int C8[] = {0, 3, 77, 255}, C16[] = {0, 90, 4095, 65535}; const int* C = sizeof(T) == 1 ? C8 : C16; FakeDS ds(2, 2); RawBand* b = new RawBand(&ds, t, 2, 2, sizeof(T)); ds.SetBand(1, b); b->none = pick_nodata(b->has); T v[4]; v[0] = any("a"); v[1] = C[pick("b", 0, 3)]; v[2] = C[pick("c", 0, 3)]; v[3] = v[0]; bool real = b->has && b->none >= 0 && b->none <= std::numeric_limits<T>::max(); int miss = real ? (int)b->none : -1;
    if (inside) { if (v[1] >= v[2] || v[1] == miss || v[2] == miss) return; msym_assume((v[0] >= v[1]) & (v[0] <= v[2]) & ((int)v[0] != miss)); } else msym_assume(v[0] < 200);
    for (int i = 0; i < 4; ++i) put<T>(*b, i, v[i]); msat::Stretch s; std::vector<uint8_t> g = gray(b, s, 2, 2); int lo = 1000000, hi = -1; for (int i = 0; i < 3; ++i) { int ok = (int)v[i] != miss; lo = ok & ((int)v[i] < lo) ? v[i] : lo; hi = ok & ((int)v[i] > hi) ? v[i] : hi; }
    msym_assert(g[3] == g[0], "the same value, the same gray"); if (hi < 0) { msym_assert((g[0] == g[1]) & (g[1] == g[2]), "nothing to show"); msym_reach("missing"); return; } if (lo == hi) { for (int i = 0; i < 3; ++i) msym_assert(((int)v[i] == miss) | (g[i] == (lo > 255 ? 255 : lo)), "one value, as far as it can be shown"); msym_reach("constant"); return; }
    for (int i = 0; i < 3; ++i) { int w = v[i]; msym_assert((w > lo) | (g[i] == 0), "lowest black"); msym_assert((w < hi) | (g[i] == 255), "highest white"); int in = (w > lo) & (w < hi), e = in ? (w - lo) * 255 - (int)g[i] * (hi - lo) : 0; msym_assert((e >= 0) & (e < hi - lo), "in proportion"); } msym_reach("gray");
}
ENTRY(octets) { counts<uint8_t>(GDT_Byte, msym_u8, true); }
ENTRY(counts16) { counts<uint16_t>(GDT_UInt16, msym_u16, true); }
ENTRY(octets_any) { counts<uint8_t>(GDT_Byte, msym_u8, false); }
ENTRY(counts16_any) { counts<uint16_t>(GDT_UInt16, msym_u16, false); }
ENTRY(floats)
{
    hush(); const int n = THOROUGH ? 3 : 2; static const float C[] = {0, 250.25f, INFINITY, -INFINITY, NAN}; FakeDS ds(n, 1); RawBand* b = new RawBand(&ds, GDT_Float32, n, 1, 4); ds.SetBand(1, b); static const char* const N[] = {"a", "b", "c"}; float v[3]; for (int i = 0; i < n; ++i) { v[i] = i == 2 ? C[pick("c", 0, 4)] : msym_f32(N[i]); put<float>(*b, i, v[i]); } unsigned k = pick("nodata", 0, 2); b->has = k != 1; b->none = k == 2 ? (double)NAN : 0; msat::Stretch s; std::vector<uint8_t> g = gray(b, s, n, 1); float none = (float)(b->has && b->none <= 3e38 ? b->none : -1e10); if (b->has && b->none != b->none) none = NAN;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j) continue; if (v[i] == none || v[j] == none) continue; if (v[i] < v[j]) msym_assert(g[i] <= g[j], "brighter is larger"); if (v[i] == v[j]) msym_assert(g[i] == g[j], "the same value, the same gray"); }
}
ENTRY(kelvin)
{
    hush(); FakeDS ds(3, 1); RawBand* b = new RawBand(&ds, GDT_Float32, 3, 1, 4); ds.SetBand(1, b); int v[3]; v[0] = (int)msym_range("a", 0, THOROUGH ? 400 : 60); v[1] = 17; v[2] = (int)pick("c", 0, 3) * 16; for (int i = 0; i < 3; ++i) put<float>(*b, i, 200 + (float)v[i] / 4); msat::Stretch s; bool nan = pick("nan", 0, 2); if (nan) { b->none = 0; put<float>(*b, 1, pick("inf", 0, 1) ? INFINITY : NAN); v[1] = v[0]; } std::vector<uint8_t> g = gray(b, s, 3, 1); int lo = v[0], hi = v[0]; for (int i = 1; i < 3; ++i) { lo = v[i] < lo ? v[i] : lo; hi = v[i] > hi ? v[i] : hi; } if (lo == hi) return;
    for (int i = 0; i < 3; ++i) { if (nan && i == 1) continue; msym_assert((v[i] > lo) | (g[i] == 0), "lowest black"); msym_assert((v[i] < hi) | (g[i] == 255), "highest white"); int e = (v[i] - lo) * 255 - (int)g[i] * (hi - lo); msym_assert((e > -(hi - lo)) & (e < 2 * (hi - lo)), "in proportion"); } msym_reach("gray");
}
// bands of any shape, one after another with the same stretch: the extremes are found wherever they are
ENTRY(shapes)
{
    hush(); static const int W[] = {1, 3, 1, 5, 300, 17, 257}, H[] = {3, 1, 300, 2, 7, 257, 256}; msat::Stretch s; unsigned turns = 1 + pick("turns", 0, 1);
    for (unsigned n = 0; n < turns; ++n)
    {
        static const char* const T[] = {"type0", "type1"}; static const char* const S[] = {"shape0", "shape1"}; static const char* const A[] = {"at0", "at1"}; unsigned t = pick(T[n], 0, n ? 1 : 2), k = n ? 3 : pick(S[n], 0, 6); int w = W[k], h = H[k], c = w * h, at = pick(A[n], 0, 3), bright = at == 0 ? 0 : at == 1 ? c - 1 : at == 2 ? w - 1 : c - w, dark = c - 1 - bright; if (bright == dark) dark = 0; if (c == 3 && (at > 1)) continue;
        static const GDALDataType TYPE[] = {GDT_Byte, GDT_UInt16, GDT_Float32}; FakeDS ds(w, h); RawBand* b = new RawBand(&ds, TYPE[t], w, h, t == 0 ? 1 : t == 1 ? 2 : 4); ds.SetBand(1, b); b->none = t == 0 ? 7 : t == 1 ? 7 : -5; std::vector<int> v(c); int lo = n ? 40 : 20, hi = n ? 110 : 220; for (int i = 0; i < c; ++i) { v[i] = i == bright ? hi : i == dark ? lo : i == c / 2 ? (int)b->none : lo + 1 + i * 7 % (hi - lo - 1); if (t == 0) put<uint8_t>(*b, i, v[i]); else if (t == 1) put<uint16_t>(*b, i, v[i]); else put<float>(*b, i, v[i]); }
        std::vector<uint8_t> g = gray(b, s, w, h); int ok = g.size() == (size_t)c; for (int i = 0; ok && i < c; ++i) { int want = v[i] <= lo ? 0 : (v[i] - lo) * 255 / (hi - lo), d = g[i] - want; ok = t == 2 ? d >= -1 && d <= 1 : d == 0; } msym_assert(ok, "each pixel in its place, in proportion between the extremes"); msym_assert(g[bright] == 255 && g[dark] == 0, "black and white"); if (k > 3) break;
    }
    msym_reach("shape");
}
ENTRY(stretched)
{
    hush(); static const double S[] = {0, 10, 200, 255, 300, 70000, -5, 1e300, -1e300}; unsigned t = pick("type", 0, 2); double lo = S[pick("lo", 0, 8)], hi = S[pick("hi", 0, 8)]; if (lo >= hi) return; FakeDS ds(1, 1); static const GDALDataType T[] = {GDT_Byte, GDT_UInt16, GDT_Float32}; RawBand* b = new RawBand(&ds, T[t], 1, 1, t == 0 ? 1 : t == 1 ? 2 : 4); ds.SetBand(1, b); double v; int n = (int)msym_range("v", 0, t == 0 ? 255 : t == 1 ? 65535 : 2000); if (t == 0) { put<uint8_t>(*b, 0, n); v = n; } else if (t == 1) { put<uint16_t>(*b, 0, n); v = n; } else { float f = n - 1000; put<float>(*b, 0, f); v = n - 1000; }
    msat::Stretch s; s.min = lo; s.max = hi; s.compute = false; int g = gray(b, s, 1, 1)[0]; if (lo < -100000 || hi > 100000) { msym_reach("wide"); return; } 
    msym_assert((v >= lo) | (g == 0), "darker is black"); msym_assert((v <= hi) | (g == 255), "brighter is white"); int in = (v >= lo) & (v <= hi); double e = (v - lo) * 255 - g * (hi - lo); msym_assert(!in | ((e > -(hi - lo)) & (e < 2 * (hi - lo))), "in proportion"); msym_reach("gray");
}
ENTRY(unreadable)
{
    hush(); FakeDS ds(2, 2); static const GDALDataType T[] = {GDT_Byte, GDT_UInt16, GDT_Float32}; unsigned t = pick("type", 0, 2); RawBand* b = new RawBand(&ds, T[t], 2, 2, t == 0 ? 1 : t == 1 ? 2 : 4); ds.SetBand(1, b); b->fail = true; msat::Stretch s; msym_assert(!msat::export_image(b, "x.png", s) && !msat::display_image(b, s) && pictures.empty(), "reported"); b->fail = false; msym_assert(!msat::export_image(b, "noextension", s) && pictures.empty(), "a name that does not tell the format"); msym_reach("refused");
}
