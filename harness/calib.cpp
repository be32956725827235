// Counts to radiance, brightness temperature and reflectance.
#include "h.h"
#include <msat/hrit/MSG_data_RadiometricProc.h>
#include <msat/facts.h>
#include <stdexcept>
#include <cmath>
float radiance_to_reflectance(int chnum, float radiance, int year, int month, int day, int hour, int minute, float lat, float lon);
double scan2zen(double scan, double satheight);

// EUMETSAT, "Conversion from radiances to brightness temperatures": central wave number, A, B per channel 4..11
static const double NU[8] = {2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381};
static const double AA[8] = {0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981};
static const double BB[8] = {3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576};

static void table(int lo, int hi, int maxbpp)
{
    MSG_data_RadiometricProc* r = new MSG_data_RadiometricProc;
    for (int c = 0; c < 12; ++c) { r->ImageCalibration[c].Cal_Slope = msym_f64("slope"); r->ImageCalibration[c].Cal_Offset = msym_f64("offset"); msym_assume(msym_finite(r->ImageCalibration[c].Cal_Slope)); msym_assume(msym_finite(r->ImageCalibration[c].Cal_Offset)); }
    int ch = (int)msym_concretize(msym_range("ch", lo, hi)), bpp = (int)msym_concretize(msym_range("bpp", 0, maxbpp));
    float* t = r->get_calibration(ch, bpp); double S = r->ImageCalibration[ch - 1].Cal_Slope, O = r->ImageCalibration[ch - 1].Cal_Offset;
    for (int i = 0; i < 1 << bpp; ++i) {
        double L = (double)i * S + O;
        if (ch > 3 && ch < 12) {
            double nu = NU[ch - 4], T = (nu * 1.43877 / log(pow(nu, 3.0) * 0.0000119104 / L + 1.0) - BB[ch - 4]) / AA[ch - 4];
            msym_assert(closeF(t[i], (float)T), "brightness temperature of a count");
        } else msym_assert(closeF(t[i], (float)L), "radiance of a count");
    }
    delete[] t;
    double s = 0, o = 0; bool linear = !(ch > 3 && ch < 12); r->get_slope_offset(ch, s, o, linear);
    msym_assert(linear == !(ch > 3 && ch < 12), "infrared channels are not linear");
    if (linear) msym_assert(sameD(s, S) && sameD(o, O), "slope and offset of the channel");
    delete r;
}
ENTRY(table_visible) { table(1, 3, THOROUGH ? 6 : 3); }
ENTRY(table_infrared) { table(4, 11, THOROUGH ? 6 : 3); }
ENTRY(table_hrv) { table(12, 12, THOROUGH ? 6 : 3); }
ENTRY(table_full)
{
    // a whole 10 bit table; the probed count is arbitrary
    MSG_data_RadiometricProc* r = new MSG_data_RadiometricProc;
    int ch = (int)msym_concretize(msym_range("ch", 9, 12)); r->ImageCalibration[ch - 1].Cal_Slope = 0.205034; r->ImageCalibration[ch - 1].Cal_Offset = -10.4568;
    float* t = r->get_calibration(ch, 10); unsigned i = msym_u16("i") & 1023; double L = (double)i * 0.205034 + -10.4568;
    if (ch == 12) msym_assert(closeF(t[i], (float)L), "radiance of a count");
    else {
        msym_assert(i < 52 || t[i] > 0, "temperatures of positive radiances are positive kelvin");
        msym_assert(i < 52 || i == 1023 || t[i] < t[i + 1 > 1023 ? 1023 : i + 1], "temperature grows with the count");
    }
    delete[] t; delete r;
}
ENTRY(reflectance)
{
    int ch = (int)msym_range("ch", -3, 300); float rad = msym_f32("rad"), lat = msym_f32("lat"), lon = msym_f32("lon"); int y = (int)msym_range("y", 1970, 2100), mo = 2 + 6 * (int)msym_concretize(msym_range("mo", 0, 1)), d = (int)msym_range("d", 1, 29), h = (int)msym_range("h", 0, 23), mi = (int)msym_range("mi", 0, 59);
    msym_assume(msym_finite(rad)); msym_assume((rad >= 0) & (rad < 1000) & (lat >= -90) & (lat <= 90) & (lon >= -180) & (lon <= 180));
    float v = 0; int ok = 1;
    try { v = radiance_to_reflectance(ch, rad, y, mo, d, h, mi, lat, lon); } catch (std::runtime_error&) { ok = 0; }
    msym_assert(ok == (int)((ch == 1) | (ch == 2) | (ch == 3) | (ch == 12)), "reflectance exists exactly for the solar channels"); if (!ok) return;
    double esd = 1.0 - 0.0167 * cos(2.0 * M_PI * (msat::facts::jday(y, mo, d) - 3) / 365.0);
    double irr = ch == 1 ? 20.76 : ch == 2 ? 23.24 : ch == 3 ? 19.85 : 25.11;
    double mu = msat::facts::cos_sol_za(y, mo, d, h, mi, lat, lon); if (mu < 0.173648178) mu = 0.173648178;
    double e2 = 1.0 / (esd * esd), want = 100.0 * rad / (irr * e2) / mu;
    msym_assert(closeF(v, (float)want), "reflectance is 100 * radiance / (irradiance at the distance of the sun * cosine of the sun angle, at least cos 80)"); msym_reach("reflectance");
}
ENTRY(scan_angle)
{
    double s = msym_f64("scan"), h = msym_f64("h"); msym_assume((s >= 0) & (s < 1.6) & (h >= 0) & (h < 40000));
    double x = (6357.0 + h) * (sin(s) / 6357.0); if (x > 1.0) x = 1.0;
    msym_assert(closeD(scan2zen(s, h), asin(x)), "zenith angle of a scan angle");
}
