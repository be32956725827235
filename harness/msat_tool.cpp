// The msat command (tools/msat.cpp): options, files one after another, failures.
#include "tool.h"
#include "optstub.h"
namespace msat { struct Stretch; }
static std::map<string, GDALDataset* (*)()> g_files; static std::vector<string> g_opened;
extern "C" {
void GDALAllRegister() {}
int GDALGeneralCmdLineProcessor(int argc, char***, int) { return argc; }
GDALDatasetH GDALOpen(const char* n, GDALAccess) { g_opened.push_back(n); auto i = g_files.find(n); if (i == g_files.end()) { CPLError(CE_Failure, CPLE_OpenFailed, "no such file"); return nullptr; } return (GDALDatasetH)i->second(); }
int GDALDummyProgress(double, const char*, void*) { return TRUE; }
}
struct Quit { int code; };
#define exit(c) throw Quit{c}
#define main msat_main
#include <tools/msat.cpp>
#undef main
#undef exit
#include <tools/image.cpp>
static int tool(std::vector<string> args)
{
    args.insert(args.begin(), "msat"); std::vector<char*> argv; for (string& a : args) argv.push_back((char*)a.c_str()); argv.push_back(nullptr); optind = 1; g_opened.clear(); g_copies.clear(); pictures.clear(); g_copy.fresh = true; std::ostringstream err; std::streambuf* old = msym_engine() ? nullptr : std::cerr.rdbuf(err.rdbuf()); int r; try { r = msat_main((int)args.size(), argv.data()); } catch (Quit& q) { r = q.code; } if (old) std::cerr.rdbuf(old); msym_assert(vds_alive == 0 || r, "released"); return r;
}
static void driver(const char* ext = "tst") { static int done = 0; if (done++) return; GDALDriver* d = new GDALDriver; d->SetDescription("TST"); if (ext) d->SetMetadataItem(GDAL_DMD_EXTENSION, ext); GetGDALDriverManager()->RegisterDriver(d); }
static void tag(Src* s, const char* id, const char* name, const char* time) { if (id) s->SetMetadataItem(MD_MSAT_SPACECRAFT_ID, id, MD_DOMAIN_MSAT); if (name) s->SetMetadataItem(MD_MSAT_SPACECRAFT, name, MD_DOMAIN_MSAT); if (time) s->time(time); else s->SetMetadataItem(MD_MSAT_DATETIME, nullptr, MD_DOMAIN_MSAT); for (int i = 1; i <= s->GetRasterCount(); ++i) { string b = "band " + num(i); s->GetRasterBand(i)->SetDescription(b.c_str()); } }
static GDALDataset* plain() { Src* s = new Src(40, 30, 3); tag(s, "55", "MSG1", "2010-03-04 05:06:07"); return s; }
static GDALDataset* other() { Src* s = new Src(20, 10, 2); tag(s, "55", "MSG1", "2010-03-04 05:21:07"); s->GetRasterBand(2)->SetDescription("band 3"); return s; }
static GDALDataset* bare() { Src* s = new Src(8, 6, 1); s->has_gt = s->has_osr = false; return s; }
static void files() { hush(); driver(); g_files["a"] = plain; g_files["b"] = other; g_files["c"] = bare; }
ENTRY(command_line)
{
    files(); static const std::vector<string> BAD[] = {{}, {"--view"}, {"--nonsense", "a"}, {"-x", "a"}, {"--area=1,2,3", "a"}, {"--area=", "a"}, {"--area=x,1,2,3", "a"}, {"--Area=1,2,3", "a"}, {"--around=45,10", "a"}, {"--resize=10", "a"}, {"--conv"}, {"-b"}}; unsigned k = pick("bad", 0, 11); msym_assert(tool(BAD[k]) == 1 && g_opened.empty() && g_copies.empty(), "reported, nothing done"); msym_assert(tool({pick("help", 0, 1) ? "--help" : "--version", "a"}) == 0 && g_opened.empty(), "asked about itself"); msym_reach("refused");
}
ENTRY(whole) { files(); msym_assert(tool({"-c", "TST", "c", "a"}) == 0 && g_copies.size() == 2, "both converted"); for (Copy& c : g_copies) msym_assert(c.whole && c.strict, "as they are"); msym_assert(g_copies[1].name == "MSG1_Seviri_20100304_0506.tst" && g_copies[1].w == 40 && g_copies[1].h == 30 && g_copies[0].w == 8, "name and size"); }
ENTRY(cropped)
{
    files(); static const int X[][4] = {{3, 8, 4, 6}, {0, 40, 0, 15}, {39, 1, 29, 1}}; unsigned k = pick("area", 0, 2), order = pick("order", 0, 1), rs = pick("resize", 0, 2); const int* x = X[k]; string area = "--area=" + num(x[0]) + "," + num(x[1]) + "," + num(x[2]) + "," + num(x[3]); std::vector<string> a{"--conv=TST"}; if (order) a.push_back(area); if (rs) a.push_back(rs == 1 ? "--resize=16,3" : "--resize=200%,300%"); if (!order) a.push_back(area); a.push_back("a");
    msym_assert(tool(a) == 0 && g_copies.size() == 1, "converted"); Copy& c = g_copies[0]; int w = rs == 0 ? x[1] : rs == 1 ? 16 : 2 * x[1], h = rs == 0 ? x[3] : rs == 1 ? 3 : 3 * x[3]; msym_assert(c.w == w && c.h == h && c.s.sx == x[0] && c.s.sy == x[2] && c.s.sw == x[1] && c.s.sh == x[3], "the requested area at the requested size"); msym_assert(c.bands == std::vector<int>({1, 2, 3}), "all the bands");
}
ENTRY(outside) { files(); static const char* const A[] = {"--area=35,8,0,5", "--area=-1,5,0,5", "--area=0,0,0,5", "--resize=0,5", "--resize=,", "--Area=80,89,0,1"}; msym_assert(tool({"-c", "TST", A[pick("area", 0, 5)], "a"}) == 1 && g_copies.empty(), "reported"); msym_reach("refused"); }
// ---- places
static int g_k, g_px; static GDALDataset* placed() { Src* s = new Src(60, 50, 1); tag(s, "55", "MSG1", "2010-03-04 05:06:07"); double g[6] = {(double)-65536 * g_k, 65536.0 / g_px, 0, 65536.0 * 20, 0, -65536.0 / g_px}; memcpy(s->gt, g, sizeof g); return s; }
ENTRY(places)
{
    files(); g_files["p"] = placed; static const int P[][4] = {{15, 18, 3, 8}, {10, 20, -4, 0}, {-3, 2, -1, 9}, {12, 14, 20, 21}, {14, 12, 9, 3}}; const int* p = P[pick("place", 0, 4)]; g_px = pick("px", 1, 4); g_k = (int)msym_range("k", 0, 12) - 6; int la = p[0] < p[1] ? p[0] : p[1], lb = p[0] < p[1] ? p[1] : p[0], oa = p[2] < p[3] ? p[2] : p[3], ob = p[2] < p[3] ? p[3] : p[2]; bool around = pick("around", 0, 1);
    string o = "--Area=" + num(p[0]) + "," + num(p[1]) + "," + num(p[2]) + "," + num(p[3]); if (around) { int c2 = la + lb, d2 = oa + ob; auto half = [](int n) { return string(n < 0 ? "-" : "") + num((n < 0 ? -n : n) / 2) + (n % 2 ? ".5" : ".0"); }; o = "--around=" + half(c2) + "," + half(d2) + "," + num(lb - la) + "," + num(ob - oa); }
    int x0 = (oa + g_k) * g_px, x1 = (ob + g_k) * g_px, y0 = (20 - lb) * g_px, y1 = (20 - la) * g_px; int in = (x0 >= 0) & (x1 <= 60) & (y0 >= 0) & (y1 <= 50); int r = tool({"-c", "TST", o, "p"}); msym_assert((r == 0) == in && g_copies.size() == (size_t)(r == 0), "areas outside are reported"); if (r) { msym_reach("refused"); return; } Copy& c = g_copies[0];
    if (c.whole) { msym_assert((x0 == 0) & (x1 == 60) & (y0 == 0) & (y1 == 50), "the whole image"); return; } msym_assert((c.s.sx == (double)x0) & (c.s.sy == (double)y0) & (c.s.sw == (double)(x1 - x0)) & (c.s.sh == (double)(y1 - y0)), "the area between the given latitudes and longitudes"); msym_reach("cropped");
}
ENTRY(places_each)
{
    files(); g_files["p"] = placed; static GDALDataset* (*second)() = []() -> GDALDataset* { Src* s = (Src*)placed(); s->gt[0] -= 65536; s->gt[3] += 65536; return s; }; g_files["q"] = second; g_k = 2; g_px = 2; bool around = pick("around", 0, 1), swap = pick("swap", 0, 1); msym_assert(tool({"-c", "TST", around ? "--around=15,5,4,6" : "--Area=13,17,2,8", swap ? "q" : "p", swap ? "p" : "q"}) == 0 && g_copies.size() == 2, "both"); for (int i = 0; i < 2; ++i) { Copy& c = g_copies[i]; int d = (i == 1) != swap ? 2 : 0; msym_assert(c.s.sx == 8 + d && c.s.sy == 6 + d && c.s.sw == 12 && c.s.sh == 8, "the same place in each image"); }
}
ENTRY(nowhere) { files(); unsigned k = pick("what", 0, 3); ct_fail = k; msym_assert(tool({"-c", "TST", pick("around", 0, 1) ? "--around=15,5,4,6" : "--Area=13,17,2,8", k ? "a" : "c"}) == 1 && g_copies.empty(), "images without place are reported"); msym_reach("refused"); }
// ---- bands
ENTRY(bands)
{
    files(); static const char* const B[] = {"1", "2", "3", "band 1", "!band 2", "band 3"}; unsigned n = pick("count", 1, 3), i0 = pick("b0", 0, 5), i1 = n > 1 ? pick("b1", 0, 5) : 0, i2 = n > 2 ? pick("b2", 0, THOROUGH ? 5 : 1) : 0; unsigned k[] = {i0, i1, i2}; std::vector<string> a{"-c", "TST"}; std::vector<int> want; for (unsigned i = 0; i < n; ++i) { a.push_back(i % 2 ? "-b" : string("--band=") + B[k[i]]); if (i % 2) a.push_back(B[k[i]]); want.push_back(k[i] % 3 + 1); } a.push_back("a"); msym_assert(tool(a) == 0 && g_copies.size() == 1, "converted"); Copy& c = g_copies[0]; if (c.whole) msym_assert(want == std::vector<int>({1, 2, 3}), "everything"); else msym_assert(c.bands == want, "the requested bands in their order"); msym_reach("bands");
}
ENTRY(bands_each)
{
    files(); static const char* const N[] = {"band 2", "band 3", "band 1", "none", "!3"}; unsigned k = pick("band", 0, 4); std::vector<string> a{"-c", "TST", "-b", N[k], "a", "b"}; static const int A[] = {2, 3, 1, 0, 0}, B[] = {0, 2, 1, 0, 0}; msym_assert(tool(a) == 0, "done"); size_t n = (A[k] != 0) + (B[k] != 0); msym_assert(g_copies.size() == n, "images that have it"); if (A[k]) msym_assert(g_copies[0].bands == std::vector<int>({A[k]}), "by its name"); if (B[k]) msym_assert(g_copies[1].bands == std::vector<int>({B[k]}), "by its name in each image");
}
ENTRY(bands_missing) { files(); static const char* const B[] = {"0", "4", "-1", "4294967297", "99999999999999999999"}; msym_assert(tool({"-c", "TST", "-b", B[pick("band", 0, 4)], "a"}) == 1 && g_copies.empty(), "bands that do not exist are reported"); msym_reach("refused"); }
// ---- names
static string g_name, g_channel, g_id, g_chid, g_time; static int g_lacks, g_bands; static GDALDataset* named()
{
    Src* s = new Src(8, 6, g_bands); tag(s, g_lacks == 1 ? nullptr : g_id.c_str(), g_lacks == 2 ? nullptr : g_name.c_str(), g_lacks == 3 ? nullptr : g_time.c_str()); GDALRasterBand* b = s->GetRasterBand(1); b->SetMetadataItem(MD_MSAT_CHANNEL_ID, g_lacks == 4 ? nullptr : g_chid.c_str(), MD_DOMAIN_MSAT); if (g_lacks != 5) b->SetMetadataItem(MD_MSAT_CHANNEL, g_channel.c_str(), MD_DOMAIN_MSAT); return s;
}
ENTRY(names)
{
    files(); g_files["n"] = named; static const char* const ID[] = {"55", "56", "3", "70", "junk"}; static const char* const CH[] = {"1", "4", "9", "12", "77", ""}; g_id = ID[pick("id", 0, 4)]; g_chid = CH[pick("channel", 0, 5)]; g_lacks = pick("lacks", 0, 5); g_bands = 1; bool sym = pick("text", 0, 1); if (sym) { if (g_id != "55" || g_chid != "4") return; g_lacks = 0; } static char a[3] = "??", b[3] = "??"; if (sym) for (int i = 0; i < 2; ++i) { a[i] = (char)msym_range(i ? "a1" : "a0", 32, 126); b[i] = (char)msym_range(i ? "b1" : "b0", 32, 126); } g_name = sym ? a : "MSG 1.5"; g_channel = sym ? b : "VIS 0.6"; g_time = "2010-03-04 05:06:07";
    msym_assert(tool({"-c", "TST", "n"}) == 0 && g_copies.size() == 1, "converted"); auto plain_ = [](string s) { for (char& c : s) c = (c == ' ') | (c == '.') ? '_' : c; return s; }; int id = g_lacks == 1 ? -1 : atoi(g_id.c_str()), ch = g_lacks == 4 ? -1 : atoi(g_chid.c_str()); string lv = plain_(msat::facts::channelLevel(id, ch)), want = (g_lacks == 2 ? string("unknown") : plain_(g_name)) + "_" + plain_(msat::facts::sensorName(id)) + "_"; if (!lv.empty()) want += lv + "_"; want += (g_lacks == 5 ? string() : plain_(g_channel)) + "_" + (g_lacks == 3 ? "" : "20100304_0506") + ".tst"; const string& n = g_copies[0].name; msym_assert(n.size() == want.size() && eqbytes(n.data(), want.data(), n.size()), "spacecraft, sensor, channel and time in the name"); msym_reach("named");
}
// ---- metadata of another file
static string g_desc, g_md, g_bdesc; static void look(GDALDataset* d) { g_desc = d->GetDescription(); g_md = d->GetMetadataItem("k") ? d->GetMetadataItem("k") : ""; g_bdesc = d->GetRasterBand(1)->GetDescription(); }
static GDALDataset* templ() { Src* s = new Src(4, 4, 1); s->SetDescription("like this"); s->SetMetadataItem("k", "v"); s->GetRasterBand(1)->SetDescription("one"); return s; }
ENTRY(copied_metadata)
{
    files(); g_files["t"] = templ; g_oncopy = look; unsigned k = pick("what", 0, 2); std::vector<string> a{"-c", "TST", k == 2 ? "--copymd=nowhere" : "--copymd=t"}; if (k == 1) a.push_back("--area=1,5,1,5"); a.push_back("a"); int r = tool(a); if (k == 2) { msym_assert(r == 1 && g_copies.empty(), "a missing file is reported"); msym_reach("refused"); return; } msym_assert(r == 0 && g_copies.size() == 1 && g_desc == "like this" && g_md == "v" && g_bdesc == "one", "description and metadata of the other file"); msym_reach("copied");
}
// ---- failures
ENTRY(failures)
{
    files(); unsigned k = pick("what", 0, 3); g_copy.fail = k == 2; std::vector<string> a{"-c", k == 1 ? "NONE" : "TST"}; a.push_back(k == 0 ? "nowhere" : "a"); if (k == 3) { a.push_back("nowhere"); } msym_assert(tool(a) == 1, "reported"); msym_assert(g_copies.size() == (k >= 2), "what could be done first"); msym_reach("reported");
}
// ---- images
static int g_w, g_h; static GDALDataset* sized() { FakeDS* s = new FakeDS(g_w, g_h); s->SetMetadataItem(MD_MSAT_SPACECRAFT, "S", MD_DOMAIN_MSAT); FakeBand* b = new FakeBand(s, 1, GDT_Byte, g_w, g_h, g_w, 1, nullptr); s->SetBand(1, b); return s; }
ENTRY(capped)
{
    files(); g_files["s"] = sized; g_files["t"] = []() -> GDALDataset* { int w = g_w, h = g_h; g_w = 900; g_h = 2; GDALDataset* d = sized(); g_w = w; g_h = h; return d; }; vrt_reads = true; static const int S[][4] = {{1281, 1, 1280, 1}, {2560, 3, 1280, 1}, {5000, 40, 1280, 10}, {3, 2560, 1, 1280}, {1, 1300, 1, 1280}, {1280, 2, 0, 0}, {7, 1280, 0, 0}}; const int* z = S[pick("size", 0, 6)]; g_w = z[0]; g_h = z[1]; unsigned o = pick("option", 0, 2); vrt_sizes.clear(); std::vector<string> a{"--png"}; if (o == 1 && g_w < 2) return; if (o == 1) a.push_back("--resize=50%,100%"); if (o == 2) { a.push_back("--area=0,1,0,1"); } a.push_back("s"); a.push_back("t"); msym_assert(tool(a) == 0 && pictures.size() == 2, "both"); Picture &p = pictures[0], &q = pictures[1]; if (o == 0) { msym_assert((int)p.w == (z[2] ? z[2] : g_w) && (int)p.h == (z[2] ? z[3] : g_h), "no larger than 1280 pixels"); msym_assert(q.w == 900 && q.h == 2, "images that are small enough are left alone"); } else if (o == 1) msym_assert((int)p.w == (g_w / 2 ? g_w / 2 : 1) && (int)p.h == g_h && q.w == 450 && q.h == 2, "the requested size"); else msym_assert(p.w == 1 && p.h == 1 && q.w == 1 && q.h == 1, "the requested area"); msym_reach("capped");
}
ENTRY(pictures_of_bands)
{
    files(); static GDALDataset* (*small)() = []() -> GDALDataset* { FakeDS* s = new FakeDS(3, 2); s->time("2010-03-04 05:06:07"); for (int i = 0; i < 2; ++i) { FakeBand* b = new FakeBand(s, i + 1, GDT_Byte, 3, 2, 3, 1, nullptr); b->SetMetadataItem(MD_MSAT_CHANNEL, i ? "two" : "one", MD_DOMAIN_MSAT); for (int j = 0; j < 6; ++j) b->px[j] = 10 * j + i; b->has_nodata = 0; b->fail = g_w == -1 - i; s->SetBand(i + 1, b); } return s; }; g_files["s"] = small; unsigned k = pick("what", 0, 2), f = pick("fails", 0, 3); g_w = f == 1 || f == 2 ? -(int)f : 0; picture_fails = f == 3; static const char* const O[] = {"--jpg", "--png", "--display"}; int r = tool({O[k], "s"}); msym_assert((r == 0) == (f == 0), "failures are reported"); msym_assert(pictures.size() == (f == 0 ? 2 : f == 2 ? 1 : 0), "a picture of each band"); for (size_t i = 0; i < pictures.size(); ++i) { Picture& p = pictures[i]; msym_assert(p.w == 3 && p.h == 2 && p.px[0] == 0 && p.px[5] == 255 && p.px[1] == 51, "in gray"); if (k < 2) msym_assert(p.file == string("unknown_unknown_") + (i ? "two" : "one") + "_20100304_0506" + (k ? ".png" : ".jpg"), "named after the band"); }
}
ENTRY(stretched)
{
    files(); static GDALDataset* (*two)() = []() -> GDALDataset* { FakeDS* s = new FakeDS(4, 1); for (int i = 0; i < 2; ++i) { FakeBand* b = new FakeBand(s, i + 1, GDT_Byte, 4, 1, 4, 1, nullptr); for (int j = 0; j < 4; ++j) b->px[j] = 40 * j + 20 * i; b->has_nodata = 0; s->SetBand(i + 1, b); } return s; }; g_files["s"] = two;
    unsigned k = pick("limits", 0, 4); static const char* const L[] = {"--stretch=120", "--stretch=20:100", "--stretch=40.5:90.25", "--stretch=-50:200", "--stretch=0:140"}; static const double LO[] = {0, 20, 40.5, -50, 0}, HI[] = {120, 100, 90.25, 200, 140}; int r = tool({"--png", L[k], "s", "s"}); msym_assert(r == 0 && pictures.size() == 4, "drawn"); for (int f = 0; f < 4; ++f) for (int j = 0; j < 4; ++j) { double v = 40 * j + 20 * (f % 2), w = v <= LO[k] ? 0 : v >= HI[k] ? 255 : (v - LO[k]) * 255 / (HI[k] - LO[k]), g = pictures[f].px[j]; msym_assert(g <= w && g > w - 1, "between the given limits, for every band of every file"); }
}
static std::vector<int> g_types; static std::vector<float> g_first; static void types(GDALDataset* d) { g_types.clear(); g_first.clear(); for (int i = 1; i <= d->GetRasterCount(); ++i) { GDALRasterBand* b = d->GetRasterBand(i); g_types.push_back(b->GetRasterDataType()); float v[8]; msym_assert(b->ReadBlock(0, 0, v) == CE_None, "read"); g_first.push_back(v[0]); } }
ENTRY(calibrated)
{
    files(); static GDALDataset* (*counts)() = []() -> GDALDataset* { FakeDS* s = new FakeDS(4, 2); s->time("2010-03-04 05:06:07"); for (int i = 0; i < 2; ++i) { FakeBand* b = new FakeBand(s, i + 1, GDT_UInt16, 4, 2, 4, 1, nullptr); for (int j = 0; j < 8; ++j) b->px[j] = 100 + j; b->has_nodata = 0; b->slope = i ? 0.5 : 2; b->off = -10; s->SetBand(i + 1, b); } return s; }; g_files["s"] = counts; g_oncopy = types; std::vector<string> a{"-c", "TST"}; a.push_back("--force-calibration"); a.push_back("s"); a.push_back("s"); msym_assert(tool(a) == 0 && g_copies.size() == 2, "converted"); msym_assert(g_types == std::vector<int>({GDT_Float32, GDT_Float32}) && g_first[0] == 190 && g_first[1] == 40, "calibrated values");
}
// ---- looking
ENTRY(view)
{
    files(); unsigned k = pick("file", 0, 2); static const char* const F[] = {"a", "b", "c"}; std::ostringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf()); int r = tool({pick("more", 0, 1) ? "--viewmore" : "--view", F[k]}); std::cout.rdbuf(old); string t = out.str(); msym_assert(r == 0, "shown"); auto has = [&](const char* s) { return t.find(s) != string::npos; }; static const char* const S[] = {"Size: 40x30", "Size: 20x10", "Size: 8x6"}; msym_assert(has(S[k]) && has("Raster band 1/") && has(k == 0 ? "Raster band 3/3: band 3" : k == 1 ? "Raster band 2/2: band 3" : "Raster band 1/1") && has("Type: GDT_UInt16"), "size and bands"); if (k < 2) msym_assert(has("-1000,") && has("16,") && has("2000,") && has("MSG1"), "place and metadata"); else msym_assert(!has("Geotransform"), "what is not known is not shown"); msym_reach("shown");
}
