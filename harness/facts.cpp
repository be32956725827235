// Static knowledge about satellites, channels, resolutions and angles.
#include "h.h"
#include <msat/facts.h>
#include <msat/hrit/MSG_spacecraft.h>
#include <msat/hrit/MSG_channel.h>
#include <msat/hrit/MSG_filetype.h>
#include <msat/hrit/MSG_compression.h>
#include <msat/hrit/MSG_data_format.h>
#include <msat/hrit/MSG_quality.h>
#include <stdexcept>
#include <cmath>
using namespace msat::facts;
// HRIT id, WMO C-5 id, name
static const struct { int h, w; const char* n; } SC[] = {
    {11, 3, "METOP1"}, {12, 4, "METOP2"}, {13, 5, "METOP3"}, {16, 50, "METEOSAT3"}, {19, 51, "METEOSAT4"}, {20, 52, "METEOSAT5"}, {21, 53, "METEOSAT6"},
    {321, 55, "MSG1"}, {322, 56, "MSG2"}, {323, 57, "MSG3"}, {324, 70, "MSG4"}, {17012, 204, "NOAA12"}, {17014, 205, "NOAA14"}, {17015, 206, "NOAA15"},
    {18007, 251, "GOES7"}, {18008, 252, "GOES8"}, {18009, 253, "GOES9"}, {18010, 254, "GOES10"}, {18011, 255, "GOES11"}, {18012, 256, "GOES12"},
    {19001, 310, "GOMS1"}, {19002, 311, "GOMS2"}, {20004, 151, "GMS4"}, {20005, 152, "GMS5"}, {21001, 58, "MTSAT1"}, {21002, 59, "MTSAT2"}};
// satellites without an HRIT identifier
static const struct { int w; const char* n; } XC[] = {{54, "METEOSAT7"}, {150, "GMS3"}};
static const int NSC = sizeof SC / sizeof SC[0];

ENTRY(ids_from_hrit)
{
    int h = (int)msym_u32("h"), want = 1023; for (int k = 0; k < NSC; ++k) if (h == SC[k].h) { want = SC[k].w; break; }
    int w = spacecraftIDFromHRIT(h); msym_assert(w == want, "WMO id of an HRIT spacecraft");
    if (w != 1023) { msym_assert(spacecraftIDToHRIT(w) == h, "HRIT id survives the conversion to WMO and back"); msym_assert(MSG_spacecraft_name((t_enum_MSG_spacecraft)h) == spacecraftName(w), "both name tables agree"); }
}
ENTRY(ids_to_hrit)
{
    int w = (int)msym_u32("w"), want = 0; for (int k = 0; k < NSC; ++k) if (w == SC[k].w) { want = SC[k].h; break; }
    msym_assert(spacecraftIDToHRIT(w) == want, "HRIT id of a WMO spacecraft"); if (want) msym_assert(spacecraftIDFromHRIT(want) == w, "WMO id survives the conversion to HRIT and back");
}
ENTRY(spacecraft_names)
{
    int w = (int)msym_u32("w"); const char* want = "unknown"; int named = 0;
    for (int k = 0; k < NSC; ++k) if (w == SC[k].w) { want = SC[k].n; named = 1; break; }
    for (int k = 0; k < 2; ++k) if (w == XC[k].w) { want = XC[k].n; named = 1; }
    if (w == 999 || w == 1023) want = "Non Spacecraft";
    std::string n = spacecraftName(w); msym_assert(eqstr(n, want), "name of a spacecraft"); msym_assert(spacecraftID(n) == (named ? w : -1), "spacecraft name gives back its id");
}
ENTRY(spacecraft_name_parse)
{
    unsigned n = (unsigned)msym_concretize(msym_range("n", 3, 6)); unsigned char* b = sym_buf(n, "b"); std::string s((char*)b, n); int want = -1;
    for (int k = 0; k < NSC; ++k) if (strlen(SC[k].n) == n && eqbytes(SC[k].n, b, n)) { want = SC[k].w; break; }
    for (int k = 0; k < 2; ++k) if (strlen(XC[k].n) == n && eqbytes(XC[k].n, b, n)) want = XC[k].w;
    msym_assert(spacecraftID(s) == want, "spacecraft id of a name"); delete[] b;
}
static const char* const CN[] = {"no-channel", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV"};
static const double WL[] = {0, 0.6, 0.8, 1.6, 3.9, 6.2, 7.3, 8.7, 9.7, 10.8, 12.0, 13.4, 0.7};
ENTRY(channels)
{
    int s = (int)msym_range("s", -1, 1100), c = (int)msym_range("c", -1, 200); bool sev = (s == 55) | (s == 56) | (s == 57) | (s == 70), known = sev & (c >= 0) & (c <= 12);
    if (known) c = (int)msym_concretize(c);
    msym_assert(eqstr(sensorName(s), sev ? "Seviri" : "unknown"), "sensor name");
    msym_assert(eqstr(channelName(s, c), known ? CN[c] : "unknown"), "channel name");
    msym_assert(eqstr(channelLevel(s, c), known ? "1.5" : ""), "channel level");
    msym_assert(eqstr(channelUnit(s, c), !known || c == 0 ? "unknown" : c >= 4 && c <= 11 ? "K" : "mW m^-2 sr^-1 (cm^-1)^-1"), "channel unit");
    double w = 0, n = 0; int ok = 1; try { w = channel_central_wavelength(s, c); } catch (std::runtime_error&) { ok = 0; }
    msym_assert(ok == (known && c > 0), "a wavelength exists exactly for the SEVIRI channels"); if (!ok) return;
    msym_assert(w == WL[c], "central wavelength"); msym_assert(channel_from_central_wavelength(s, w) == c, "channel survives the conversion to wavelength and back");
    n = channel_central_wave_number(s, c); msym_assert(closeD(n * 1e-6, 1.0 / WL[c]), "wave number is the inverse of the wavelength in metres"); msym_assert(channel_from_central_wave_number(s, n) == c, "channel survives the conversion to wave number and back");
    msym_reach("channel");
}
ENTRY(channel_from_wavelength)
{
    // within 0.04 um of a channel
    int s = (int)msym_range("s", 55, 70), k = (int)msym_concretize(msym_range("k", 1, 12)); double w = WL[k] + (double)(int)msym_range("d", -49, 49) / 1000.0; bool sev = (s == 55) | (s == 56) | (s == 57) | (s == 70);
    int c = -1; try { c = channel_from_central_wavelength(s, w); } catch (std::runtime_error&) {}
    msym_assert(c == (sev ? k : -1), "a wavelength close to a channel selects it, for SEVIRI only");
}
ENTRY(wavelength_refused)
{
    // more than 0.06 um away from every channel
    double w = msym_f64("w"); msym_assume((w >= 0) & (w < 20)); for (int k = 1; k <= 12; ++k) msym_assume((w < WL[k] - 0.06) | (w > WL[k] + 0.06));
    int ok = 1; try { channel_from_central_wavelength(57, w); } catch (std::runtime_error&) { ok = 0; } msym_assert(!ok, "a wavelength far from every channel is refused");
}
ENTRY(channel_digits)
{
    int c = (int)msym_u32("c"); bool in = (c >= 0) & (c <= 12); if (in) c = (int)msym_concretize(c);
    msym_assert(significantDigitsForChannel(c) == (!in ? 0 : (c >= 1 && c <= 3) || c == 12 ? 4 : 2), "significant digits");
    double p = defaultPackedMissing(c), v = defaultScaledMissing(c);
    msym_assert(in ? p == 0 : isnanD(p), "packed missing value"); msym_assert(in ? v == (c == 1 ? -1.02691 : c == 12 ? -1.63196 : 0) : isnanD(v), "scaled missing value");
}
ENTRY(hrit_names)
{
    unsigned k = msym_u8("k"), c = msym_u8("c");
    std::string f = MSG_filetype((t_enum_MSG_filetype)k); static const struct { unsigned k; const char* n; } FT[] = {{0, "MSG Image Data File"}, {1, "MSG GTS Message File"}, {2, "MSG Alphanumeric Text File"}, {3, "MSG Encryption Key Message File"}, {128, "MSG Repeat Cycle Prologue"}, {129, "MSG Repeat Cycle Epilogue"}, {130, "MSG DCP Message (unprocessed)"}, {144, "MSG Binary File Message"}};
    int hit = 0; for (auto& t : FT) if (k == t.k) { hit = 1; msym_assert(eqstr(f, t.n), "name of a file type"); break; }
    if (!hit) msym_assert(f.compare(0, 24, "MSG Mission Unknown file") == 0, "unknown file type is named so");
    static const char* const CF[] = {"MSG No Compression", "MSG Lossless Compression", "MSG Lossy Compression", "MSG Compression flag unknown."};
    msym_assert(eqstr(MSG_image_compression((t_enum_MSG_image_compression)c), CF[msym_concretize(c < 3 ? c : 3)]), "name of a compression");
    static const char* const DF[] = {"MSG unformatted data field", "MSG JPEG formatted data field", "MSG T.4 coded data field", "MSG Wavelet coded data field", "MSG undefined format for data field"};
    msym_assert(eqstr(MSG_data_format((t_enum_MSG_data_format)c), DF[msym_concretize(c < 4 ? c : 4)]), "name of a data format");
}
ENTRY(hrit_quality)
{
    unsigned c = msym_u8("c"); c = (unsigned)msym_concretize(c < 6 ? c : 6);
    static const char* const V[] = {"Not derived", "Nominal", "Based on missing data", "Based on corrupted data", "Based on missing or interpolated data"};
    static const char* const Q[] = {"Not derived", "Nominal", "Usable", "Suspect", "Do not use"};
    msym_assert(eqstr(MSG_segment_validity((t_enum_MSG_segment_validity)c), c < 5 ? V[c] : "Validity not defined"), "name of a line validity");
    msym_assert(eqstr(MSG_segment_radiometric_quality((t_enum_MSG_segment_radiometric_quality)c), c < 5 ? Q[c] : "Radiometric quality undefined"), "name of a radiometric quality");
    msym_assert(eqstr(MSG_segment_geometric_quality((t_enum_MSG_segment_geometric_quality)c), c < 5 ? Q[c] : "Geometric quality undefined"), "name of a geometric quality");
}
ENTRY(hrit_channels)
{
    static const int sats[] = {321, 322, 323, 324, 18007, 18012, 20004, 21002, 19001, 19003, 11, 17015, 0, 150, 325, 17016}; int k = (int)msym_concretize(msym_range("sat", 0, 15)); unsigned c = msym_u8("c");
    std::string n = MSG_channel_name((t_enum_MSG_spacecraft)sats[k], c); std::string w;
    static const char* const SV[] = {"", "Visible 0.6", "Visible 0.8", "Infrared 1.6", "Infrared 3.9", "Water Vapour 6.2", "Water Vapour 7.3", "Infrared 8.7", "Infrared 9.7", "Infrared 10.8", "Infrared 12.0", "Infrared 13.4", "HRV"};
    static const char* const GO[] = {"", "Visible", "Infrared 3.9", "Water Vapour 6.8", "Infrared 10.7", "Infrared 12.0"};
    static const char* const GM[] = {"", "Visible", "Infrared 3.8", "Water Vapour 6.7", "Infrared 10.8", "Infrared 12.0"};
    static const char* const RU[] = {"", "Visible", "Water Vapour", "Infrared"};
    static const char* const PO[] = {"", "Visible 0.6", "Visible 0.8", "Near Infrared 1.6", "Infrared 3.8", "Infrared 10.8", "Infrared 12.0"};
    const char* const* t = k < 4 ? SV : k < 6 ? GO : k < 8 ? GM : k < 10 ? RU : PO; unsigned nt = k < 4 ? 13 : k < 6 ? 6 : k < 8 ? 6 : k < 10 ? 4 : 7; const char* pre = k < 4 ? "MSG Seviri 1.5 " : k < 6 ? "GOES " : k < 8 ? "GMS/MTSAT " : k < 10 ? "GOMS " : "Polar orbiter single or composite ";
    if (k >= 12) w = "No channel information";
    else if (c == 0) w = k < 4 ? "Image data, no channel" : std::string(pre) + "unknown channel";
    else if (c < nt) w = std::string(pre) + t[msym_concretize(c)] + " channel"; else w = std::string(pre) + "unknown channel";
    msym_assert(eqstr(n, w), "name of a spectral channel");
}
// ---- resolutions ----
static const double PSX = 3000.40307617188, PSH = 1000.13433837891, FX = 13642337.0 / 65536, FH = 40927000.0 / 65536, KM = 42164.0 - 6378.1370;
ENTRY(pixel_from_factor)
{
    double f = msym_f64("f"); msym_assume((f > -30000) & (f < 30000) & ((f > 1e-3) | (f < -1e-3)));
    double t = round(f * 65536), w = KM * tan(M_PI / 180.0 / f) * 1000.0;
    if (t == 13642337) w = PSX; if (t == -13642337) w = -PSX; if (t == 40927000) w = PSH; if (t == -40927000) w = -PSH;
    msym_assert(closeD(pixelHSizeFromCFAC(f), w), "column width of a scaling factor"); msym_assert(closeD(pixelVSizeFromLFAC(f), w), "line height of a scaling factor");
}
// a pixel size away from the nominal ones
static double odd_pixel(double lim)
{
    const double cut[] = {-lim, -PSX, -PSH, 0, PSH, PSX, lim}; int k = (int)msym_concretize(msym_range("gap", 0, 5)); double p = msym_f64("p");
    msym_assume((p > cut[k] + 0.002) & (p < cut[k + 1] - 0.002)); return p;
}
ENTRY(factor_from_pixel)
{
    double p = odd_pixel(1e6), w = M_PI / atan(p / (KM * 1000.0)) / 180.0;
    msym_assert(closeD(CFACFromPixelHSize(p), w), "scaling factor of a column width"); msym_assert(closeD(LFACFromPixelVSize(p), w), "scaling factor of a line height");
}
ENTRY(known_resolutions)
{
    int sgn = msym_range("s", 0, 1) ? -1 : 1; double e = msym_f64("e"); msym_assume((e > -0.0009) & (e < 0.0009));
    msym_assert(CFACFromPixelHSize(sgn * PSX + e) == sgn * FX && LFACFromPixelVSize(sgn * PSX + e) == sgn * FX, "nominal resolution maps to the nominal scaling factor");
    msym_assert(CFACFromPixelHSize(sgn * PSH + e) == sgn * FH && LFACFromPixelVSize(sgn * PSH + e) == sgn * FH, "HRV resolution maps to the HRV scaling factor");
    msym_assert(pixelHSizeFromCFAC(sgn * FX) == sgn * PSX && pixelVSizeFromLFAC(sgn * FX) == sgn * PSX && pixelHSizeFromCFAC(sgn * FH) == sgn * PSH && pixelVSizeFromLFAC(sgn * FH) == sgn * PSH, "and back");
}
ENTRY(seviri_extent)
{
    double f = msym_f64("f"); msym_assume((f > 1) & (f < 5000)); const double A = asin(6378.1370 / 42164.0);
    double w = round(A * f * 360 / M_PI); 
    msym_assert((double)seviriDXFromColumnRes(f) == w && (double)seviriDYFromLineRes(f) == w && (double)seviriDXFromCFAC(f) == w && (double)seviriDYFromLFAC(f) == w, "earth extent of a resolution");
    int d = (int)msym_range("d", 1, 60000); double r = (double)d * M_PI / (A * 360);
    msym_assert(closeD(columnResFromSeviriDX(d), r) && closeD(lineResFromSeviriDY(d), r) && closeD(CFACFromSeviriDX(d), r) && closeD(LFACFromSeviriDY(d), r), "resolution of an earth extent");
}
ENTRY(seviri_extent_pixels)
{
    double p = odd_pixel(1e5); double w = seviriDXFromCFAC(CFACFromPixelHSize(p));
    msym_assert((double)seviriDXFromPixelHSize(p) == w && (double)seviriDYFromPixelVSize(p) == w, "earth extent of a pixel size");
    double e = msym_f64("e"); msym_assume((e > -0.0009) & (e < 0.0009)); msym_assert(seviriDXFromPixelHSize(PSX + e) == 3622 && seviriDYFromPixelVSize(PSX + e) == 3622, "nominal resolution has an earth of 3622 pixels");
    msym_assert(seviriDXFromPixelHSize(PSH) == 10836 || seviriDXFromPixelHSize(PSH) == (int)round(asin(6378.1370 / 42164.0) * FH * 360 / M_PI), "HRV resolution");
}
ENTRY(seviri_pixels_extent)
{
    int d = (int)msym_concretize(msym_range("k", 0, 6)); static const int lo[] = {1, 3608, 3609, 3622, 3623, 10867, 30000}, hi[] = {3607, 3608, 3621, 3622, 10866, 29999, 60000};
    d = (int)msym_range("d", lo[d], hi[d]); double q = (d == 3608) | (d == 3622) ? PSX : pixelHSizeFromCFAC(CFACFromSeviriDX(d));
    msym_assert(closeD(pixelHSizeFromSeviriDX(d), q) && closeD(pixelVSizeFromSeviriDY(d), q), "pixel size of an earth extent");
}
// ---- angles ----
ENTRY(julian_day)
{
    int y = (int)msym_range("y", 1, 9999), m = (int)msym_concretize(msym_range("m", 1, 12)), d = (int)msym_range("d", 1, 31);
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int leap = ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0), w = d;
    for (int k = 1; k < m; ++k) w += len[k - 1] + (k == 2 ? leap : 0);
    msym_assert(jday(y, m, d) == w, "day of the year");
}
static double sun(int j, double hour, double lat, double lon)
{
    double r = M_PI / 180.0, g = 2.0 * M_PI * (double)(j - 1) / 365.242, noon = 12.0 + 0.123570 * sin(g) - 0.004289 * cos(g) + 0.153809 * sin(2.0 * g) + 0.060783 * cos(2.0 * g), ha = 15.0 * (hour - noon) + lon, a = 279.9348 * r + g,
        sg = (a * (1.0 / r) + 0.4087 * sin(a) + 1.8724 * cos(a) - 0.0182 * sin(2.0 * a) + 0.0083 * cos(2.0 * a)) * r, sd = 0.3978 * sin(sg), cd = sqrt(1.0 - sd * sd);
    return sd * sin(r * lat) + cd * cos(r * lat) * cos(r * ha);
}
ENTRY(sun_angle)
{
    double lat = msym_f64("lat"), lon = msym_f64("lon"), hour = msym_f64("hour"); int j = (int)msym_range("j", 1, 366), h = (int)msym_range("h", 0, 23), mi = (int)msym_range("mi", 0, 59);
    msym_assume((lat >= -90) & (lat <= 90) & (lon >= -180) & (lon <= 180) & (hour >= 0) & (hour <= 24));
    msym_assert(closeD(cos_sol_za(j, hour, lat, lon), sun(j, hour, lat, lon)), "cosine of the solar zenith angle");
    msym_assert(closeD(cos_sol_za(j, h, mi, lat, lon), sun(j, (double)h + (double)mi / 60.0, lat, lon)), "hours and minutes add up");
    int y = (int)msym_range("y", 1970, 2100), m = (int)msym_concretize(msym_range("m", 1, 12)), d = (int)msym_range("d", 1, 28);
    msym_assert(closeD(cos_sol_za(y, m, d, h, mi, lat, lon), sun(jday(y, m, d), (double)h + (double)mi / 60.0, lat, lon)), "calendar dates select their day of the year");
}
ENTRY(satellite_angle)
{
    double lat = msym_f64("lat"), lon = msym_f64("lon"); msym_assume((lat >= -90) & (lat <= 90) & (lon >= -180) & (lon <= 180));
    double r = M_PI / 180.0, cg = cos(lon * M_PI / 180.0) * cos(lat * M_PI / 180.0), w = M_PI / 2 - atan((cg - 6378.1370 / 42164.0) / sqrt(1 - cg * cg)); (void)r;
    msym_assert(closeD(sat_za(lat, lon), w), "satellite zenith angle");
}
