// OpenMTP files: header fields, sections, image and calibration, damaged files, the OpenMTP_info tool.
#include "h.h"
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <config.h>
#include <msat/openmtp/OpenMTP.h>
#define main tool_main
namespace info_tool {
#include <tools/openmtp/OpenMTP_info.cc>
}
#undef main
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
enum { TEXT = 1345, FIRST = 5175, SECOND = 2636, NORMAL = 136704, COMPOSITE = 185188 };
static std::string text() { return std::string(TEXT, 't'); }
// a file from its sections, each an exact number of octets
struct Sections { unsigned char first[FIRST], second[SECOND], third[COMPOSITE]; };
static Sections s;
static unsigned char* field(unsigned o) { return o < FIRST ? s.first + o : o < FIRST + SECOND ? s.second + o - FIRST : s.third + o - FIRST - SECOND; }
static std::string octets(unsigned composite, const std::string& image = "") { return text() + std::string((char*)s.first, FIRST) + std::string((char*)s.second, SECOND) + std::string((char*)s.third, composite ? COMPOSITE : NORMAL) + image; }
static void clear() { memset(&s, 0, sizeof s); }
static void put(unsigned o, uint32_t v) { put32(field(o), v); }
static int i4(unsigned o) { return (int)be32(field(o)); }
static int i2(unsigned o) { return (int16_t)be16(field(o)); }
static double r8(unsigned o) { uint64_t v = be64(field(o)); double d; memcpy(&d, &v, 8); return d; }
static float r4(unsigned o) { uint32_t v = be32(field(o)); float d; memcpy(&d, &v, 4); return d; }
static void symbolic(unsigned from, unsigned to) { msym_make_symbolic(field(from), to - from, "field"); }
static OpenMTP_binary_header& header() { static OpenMTP_binary_header h; std::string t = octets(i4(40) == 3); t = t.substr(TEXT); msym_file("h.omtp", t.data(), t.size()); std::ifstream f("h.omtp", std::ios::in | std::ios::binary); h.read(f); msym_assert((size_t)f.tellg() == t.size(), "the header and nothing else is read"); return h; }
// ---- the first section
ENTRY(numbers)
{
    clear(); symbolic(0, 36); symbolic(44, 155); symbolic(5155, 5159); put(40, 4); put(36, 5); OpenMTP_binary_header& h = header();
    msym_assert(h.year() == i4(8) && h.jday() == i4(12) && h.slot() == i4(16) && h.dtype() == i4(20) && h.date() == i4(24) && h.time() == i4(28), "time and kind");
    msym_assert(h.header_2_record_size() == i4(60) && h.image_line_record_size() == i4(64) && h.offset_first_pixel_in_line() == i4(68), "record sizes");
    msym_assert(h.deformation_model() == i4(87) && h.resampling_method() == i4(91) && sameF(h.subsatellite_point(), r4(95)) && h.origin() == i4(111), "rectification");
    msym_assert(h.first_line() == i4(123) && h.first_pixel() == i4(127) && h.nlines() == i4(131) && h.npixels() == i4(135) && h.image_quality() == i4(5155), "image");
    msym_assert(eqbytes(h.field_name(), field(0), 8) && h.field_name()[8] == 0 && eqbytes(h.satellite_name(), field(32), 2) && h.satellite_name()[2] == 0, "names");
    msym_assert(eqbytes(h.rectification_method_name(), field(72), 15) && h.rectification_method_name()[15] == 0 && eqbytes(h.phenomena_index(), field(115), 8) && h.phenomena_index()[8] == 0, "texts");
}
ENTRY(kinds)
{
    clear(); symbolic(16, 20); symbolic(36, 44); symbolic(87, 95); symbolic(111, 115); symbolic(5155, 5159); int chan = i4(40), proc = i4(36); (void)(chan == 3 ? msym_reach("composite") : msym_reach("other")); OpenMTP_binary_header& h = header();
    msym_assert(h.proc() == proc && h.chan() == chan, "codes"); msym_assert(h.is_raw_data() == (proc == 0) && h.is_ir_processed() == (proc == 1) && h.is_vis_processed() == (proc == 2) && h.is_wv_processed() == (proc == 3) && h.is_rectified() == (proc > 3) && h.is_rectified_to_next_neighbour() == (proc == 5), "processing");
    msym_assert(h.is_no_data() == (chan == 0) && h.is_VISs_data() == (chan == 1) && h.is_VISn_data() == (chan == 2) && h.is_visible_composite() == (chan == 3) && h.is_ir1_data() == (chan == 4) && h.is_ir2_data() == (chan == 5) && h.is_wv1_data() == (chan == 6) && h.is_wv2_data() == (chan == 7), "channel");
    msym_assert(h.is_vis_data() == (chan >= 1 && chan <= 3) && h.is_ir_data() == (chan == 4 || chan == 5) && h.is_wv_data() == (chan == 6 || chan == 7), "band");
    int slot = i4(16), d = i4(87), r = i4(91), o = i4(111), q = i4(5155); msym_assert(h.is_no_data_slot() == (slot == 0) && h.is_normal_slot() == (slot == 1) && h.is_special_slot() == (slot == 2), "slot"); msym_assert(h.is_deformation_none() == (d == 0) && h.is_deformation_batch() == (d == 1) && h.is_deformation_realtime() == (d == 2) && h.is_resampling_none() == (r == 0) && h.is_resampling_nearest_neighbour() == (r == 1) && h.is_resampling_splines_4x4() == (r == 2), "methods");
    msym_assert(h.is_south_east() == (o == 0) && h.is_north_east() == (o == 1) && h.is_north_west() == (o == 2) && h.is_south_west() == (o == 3), "origin"); msym_assert(h.is_image_quality_nominal() == (q == 0) && h.is_image_attitude_unknown() == (q == 1) && h.is_image_orbit_unknown() == (q == 2) && h.is_image_horizon_incomplete() == (q == 3) && h.is_image_deformation_not_calculated() == (q == 4) && h.is_image_RADOPOS_LID_inconsistent() == (q == 5) && h.is_image_HR_not_interpreted() == (q == 6), "quality");
}
ENTRY(missing_lines)
{
    clear(); unsigned l = pick("line", 0, THOROUGH ? 11 : 5); static const unsigned AT[] = {0, 1, 2499, 1250, 2498, 255, 256, 100, 1000, 2000, 2047, 2048}; l = AT[l]; symbolic(155 + l, 156 + l); symbolic(2655 + l, 2656 + l); put(36, 5); put(40, 1); OpenMTP_binary_header& h = header();
    msym_assert(h.is_line_present((int)l) == (*field(155 + l) != 0) && h.is_line_present_VISn((int)l) == (*field(2655 + l) != 0), "present"); msym_assert(!h.is_line_present((int)(l == 2499 ? 0 : l + 1)), "another line"); msym_assert(eqbytes(h.missing_line_table(), field(155), 2500) && eqbytes(h.missing_line_table_VISn(), field(2655), 2500), "tables");
}
static float digit(unsigned char c, double f) { return c == ' ' ? 0 : (float)((c - '0') * f); }
// digits and blanks: the coefficient is .ddddd, the space count dd.d, the day ddd, the slot dd
ENTRY(calibration_texts)
{
    clear(); put(36, 5); put(40, 4); for (unsigned i = 0; i < 13; ++i) { unsigned char c = msym_u8("digit"); msym_assume(((c >= '0') & (c <= '9')) | (c == ' ')); *field(44 + i) = c; } OpenMTP_binary_header& h = header(); const unsigned char* p = field(44);
    int v[13]; for (unsigned i = 0; i < 13; ++i) v[i] = (int)msym_ite(p[i] == ' ', 0, (uint64_t)(p[i] - '0'));
    msym_assert(h.mpef_calibration_day() == v[8] * 100 + v[9] * 10 + v[10] && h.mpef_calibration_slot() == v[11] * 10 + v[12], "day and slot");
}
ENTRY(calibration_numbers)
{
    clear(); put(36, 5); put(40, 4); memset(field(44), '0', 8); unsigned at = pick("at", 0, 7), blank = pick("blank", 0, 8); if (blank < 8) *field(44 + blank) = ' '; unsigned char c = (unsigned char)('0' + pick("digit", 0, 9)); *field(44 + at) = c; unsigned other = pick("other", 0, 7); if (other != at) *field(44 + other) = '7'; OpenMTP_binary_header& h = header(); const unsigned char* p = field(44);
    float k = 0, n = 0; static const double F[] = {0.1, 0.01, 0.001, 0.0001, 0.00001, 10, 1, 0.1}; for (unsigned i = 0; i < 5; ++i) k += digit(p[i], F[i]); for (unsigned i = 5; i < 8; ++i) n += digit(p[i], F[i]); msym_assert(std::fabs(h.mpef_calibration_coefficient() - k) < 1e-6 && std::fabs(h.mpef_calibration_space_count() - n) < 1e-4, "coefficient and space count");
}
// ---- the second section, there for images that are not rectified only
ENTRY(unrectified)
{
    clear(); unsigned proc = pick("proc", 0, 6); put(36, proc); put(40, pick("chan", 3, 4)); symbolic(5175, 7811); symbolic(7811, 7827); OpenMTP_binary_header& h = header(); msym_assert(h.ngridpoints_deformation_matrix() == i4(7811) && h.grid_deformation_start() == i4(7815) && h.grid_deformation_end() == i4(7819) && h.grid_deformation_step() == i4(7823), "the third section follows");
    if (proc > 3) { msym_reach("rectified"); msym_assert(h.urect_nominal_end_time() == 0 && h.urec_start_image() == 0, "no second section"); return; }
    msym_reach("raw"); msym_assert(h.urect_nominal_end_time() == i4(5175) && h.urect_processing_performed() == i4(5179) && h.urect_special_output() == i4(5183) && h.urect_radiometer_refpos() == i4(5187) && h.urect_refpos_line_number() == i4(5191) && h.urect_scanning_law() == i2(5195) && h.urect_number_of_received_subimage() == i2(5197), "processing");
    int p = i4(5179), o = i4(5183); msym_assert(h.is_urect_raw_data() == (p == 0) && h.is_urect_preprocessed_data() == (p == 1) && h.is_urect_special_output_no_data() == (o == 0) && h.is_urect_special_output_VISs_IR_WV() == (o == 1) && h.is_urect_special_output_VISn() == (o == 2) && h.is_urect_special_output_VISs_VISn() == (o == 3), "kinds");
    int ok = 1; const short *a = h.urect_first_line_in_subimage(), *b = h.urect_nlines_in_subimage(), *c = h.urect_curr_decoded_rad_pos_of_first_line_in_subimage(); for (unsigned i = 0; i < 20; ++i) ok &= (a[i] == i2(5199 + 2 * i)) & (b[i] == i2(5239 + 2 * i)) & (c[i] == i2(5279 + 2 * i)); msym_assert(ok, "subimages");
    const int *x = h.urect_raw_image_histogram(), *y = h.urect_raw_image_histogram_VISn(); ok = 1; for (unsigned i = 0; i < 256; ++i) ok &= (x[i] == i4(5319 + 4 * i)) & (y[i] == i4(6343 + 4 * i)); msym_assert(ok, "histograms of 256 counts");
    msym_assert(sameD(h.urec_start_image(), r8(7367)) && sameD(h.urec_end_image(), r8(7375)) && sameD(h.urec_time_of_first_pixel(), r8(7527)), "times"); const double *e = h.urec_orbit_coord_in_geoframe_start(), *g = h.urec_orbit_coord_in_geoframe_end(); ok = 1; for (unsigned i = 0; i < 6; ++i) ok &= sameD(e[i], r8(7383 + 8 * i)) & sameD(g[i], r8(7431 + 8 * i)); msym_assert(ok, "orbit");
    const float *m = h.urec_cartesian_attitude_start(), *n = h.urec_cartesian_attitude_end(); ok = 1; for (unsigned i = 0; i < 3; ++i) ok &= sameF(m[i], r4(7479 + 4 * i)) & sameF(n[i], r4(7491 + 4 * i)); msym_assert(ok, "attitude");
    a = h.urec_horizon_information(); b = h.urec_horizon_limit_information(); ok = 1; for (unsigned i = 0; i < 12; ++i) ok &= (a[i] == i2(7503 + 2 * i)) & (b[i] == i2(7579 + 2 * i)); msym_assert(ok, "horizon"); e = h.urec_times_of_horizon_scan_lines(); msym_assert(sameD(e[0], r8(7603)) && sameD(e[1], r8(7611)), "times of the horizon scan lines");
}
ENTRY(unrectified_flags)
{
    clear(); put(36, 0); put(40, 4); symbolic(7559, 7811); OpenMTP_binary_header& h = header(); const bool f[] = {h.is_urec_horizon_analysis_ok(), h.is_urec_spin_speed_fit_ok(), h.is_urec_orbit_offset_vector_fit_ok(), h.is_urec_pixel_resampling_rate_fit_ok(), h.is_urec_attitude_refinement_ok(), h.is_urec_automatic_landmark_ok(), h.is_urec_actual_image_movement_fit_ok(), h.is_urec_calculation_of_deformation_ok(), h.is_urec_geometrical_LPEF_ok(), h.is_urec_rectification_segmentation_ok(), h.is_urec_amplitude_processing_ok()}; const bool* all = h.urec_status_flags(); int ok = 1; for (unsigned i = 0; i < 16; ++i) ok &= (int)all[i] == (*field(7559 + i) != 0); for (unsigned i = 0; i < 11; ++i) ok &= (int)f[i] == (*field(7559 + i) != 0); msym_assert(ok, "status flags");
    msym_assert(h.urec_ir_channel_in_use() == i2(7575) && h.urec_radiometer_step_offset_start() == i2(7577) && h.urec_radiometer_step_south() == i2(7619) && h.urec_radiometer_step_north() == i2(7621), "steps"); msym_assert(sameF(h.urec_rmid(), r4(7623)) && sameD(h.urec_tmid(), r8(7627)) && sameD(h.urec_distance_es(), r8(7635)), "centre");
    const double v[] = {h.urec_cone_angle_beta_south_obs(), h.urec_cone_angle_beta_north_obs(), h.urec_cone_angle_beta_south_exp(), h.urec_cone_angle_beta_north_exp(), h.urec_etas(), h.urec_etan(), h.urec_betasn(), h.urec_betann(), h.urec_step_parameter_F0_old(), h.urec_step_parameter_F1_old(), h.urec_step_parameter_F0_new(), h.urec_step_parameter_F1_new()}, w[] = {h.urec_spin_deviation_fit_const(), h.urec_spin_deviation_fit_linear(), h.urec_spin_deviation_fit_quad(), h.urec_standard_deviation_spin_fit(), h.urec_maximum_deviation_spin_fit()}; ok = 1; for (unsigned i = 0; i < 12; ++i) ok &= sameD(v[i], r8(7643 + 8 * i)); for (unsigned i = 0; i < 5; ++i) ok &= sameD(w[i], r8(7755 + 8 * i)); msym_assert(ok, "angles and fits");
}
// ---- the third section: each number of each table at its place
static int table(const float* t, unsigned at, unsigned n, unsigned i) { (void)n; return sameF(t[i], r4(at + 4 * i)) && t[i ? i - 1 : i + 1] == 0; }
ENTRY(tables)
{
    clear(); unsigned composite = pick("composite", 0, 1), which = pick("which", 0, composite ? 9 : 5); put(36, pick("proc", 3, 4)); put(40, composite ? 3 : 6); symbolic(96027, 96035); if (composite) symbolic(144515, 144519); static const unsigned AT[] = {7827, 51927, 96035, 108155, 120275, 132395, 144519, 156639, 168759, 180879}; unsigned n = which < 2 ? 11025 : 3030, i; switch (pick("index", 0, THOROUGH ? 5 : 2)) { case 0: i = 0; break; case 1: i = n - 1; break; case 2: i = n / 2; break; case 3: i = 1; break; case 4: i = n - 2; break; default: i = 20; } symbolic(AT[which] + 4 * i, AT[which] + 4 * i + 4); OpenMTP_binary_header& h = header();
    float* (OpenMTP_binary_header::*const GET[])() = {&OpenMTP_binary_header::deformation_matrix_x, &OpenMTP_binary_header::deformation_matrix_y, &OpenMTP_binary_header::line_geometric_correction_EW_1, &OpenMTP_binary_header::line_geometric_correction_NS_1, &OpenMTP_binary_header::line_radiometric_correction_offset_1, &OpenMTP_binary_header::line_radiometric_correction_gain_1, &OpenMTP_binary_header::line_geometric_correction_EW_2, &OpenMTP_binary_header::line_geometric_correction_NS_2, &OpenMTP_binary_header::line_radiometric_correction_offset_2, &OpenMTP_binary_header::line_radiometric_correction_gain_2};
    msym_assert(table((h.*GET[which])(), AT[which], n, i), "table"); msym_assert(h.number_corrected_channels() == i4(96027) && h.chid_first_corrected() == i4(96031), "corrected channels"); if (composite) msym_assert(h.chid_second_corrected() == i4(144515), "second channel");
}
// ---- whole files
static std::string lines(unsigned nl, unsigned np, unsigned char* px) { std::string r; for (unsigned i = 0; i < nl; ++i) { unsigned char h[32]; memset(h, 0x55, 32); r += std::string((char*)h, 32) + std::string((char*)px + i * np, np); } return r; }
static void describe(unsigned proc, unsigned chan, unsigned nl, unsigned np, const char* sat) { clear(); memcpy(field(0), "OPENMTP ", 8); memcpy(field(32), sat, 2); put(36, proc); put(40, chan); put(131, nl); put(135, np); put(64, np + 32); put(68, 32); memcpy(field(44), "0123405008812", 13); }
static void store(const char* name, const std::string& t) { msym_file(name, t.data(), t.size()); }
struct Quiet { std::ostringstream out, err; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
ENTRY(image)
{
    static unsigned char px[64]; OpenMTP m; unsigned again = pick("again", 0, 1); { Quiet q; if (again) { memset(px, 9, 64); describe(5, 4, 2, 1, "M7"); store("o.omtp", octets(0, lines(2, 1, px))); char o[] = "o.omtp"; m.open(o); } unsigned nl = pick("nl", 1, THOROUGH ? 5 : 3), np = pick("np", 1, THOROUGH ? 8 : 5), chan = pick("chan", 1, 7); msym_make_symbolic(px, nl * np, "px"); describe(pick("proc", 3, 4), chan, nl, np, "M7"); store("i.omtp", octets(chan == 3, lines(nl, np, px))); char n[] = "i.omtp"; m.open(n); msym_assert(m.nlines() == (int)nl && m.npixels() == (int)np && m.bits_per_pixel() == 8, "size"); msym_assert(eqbytes(m.get_image(), px, nl * np), "every pixel of every line");
    const char *unit = m.get_chunit(), *name = m.get_chname(); msym_assert(!strcmp(unit, chan < 4 ? "%" : "K") && !strcmp(name, chan < 4 ? "VIS" : chan < 6 ? "IR" : "WV") && m.is_vis_data() == (chan < 4) && m.is_ir_data() == (chan == 4 || chan == 5) && m.is_wv_data() == (chan > 5), "channel"); }
    msym_reach(again ? "second" : "first");
}
// brightness temperatures of infrared and water vapour, percent of the visible, for Meteosat 7
ENTRY(calibration)
{
    unsigned chan = pick("chan", 1, 7), m7 = pick("m7", 0, 1); static unsigned char px[1]; describe(5, chan, 1, 1, m7 ? "M7" : "M6"); static const char* const TEXTS[] = {"01234050", "10000000", "00750 57", "9 9  123"}; unsigned t = pick("text", 0, 3), before = pick("before", 0, t ? 0 : 2); OpenMTP m;
    if (before) { Quiet q; describe(5, before == 1 ? 4 : 1, 1, 1, "M7"); store("b.omtp", octets(0, lines(1, 1, px))); char n[] = "b.omtp"; m.open(n); describe(5, chan, 1, 1, m7 ? "M7" : "M6"); } memcpy(field(44), TEXTS[t], 8); store("c.omtp", octets(chan == 3, lines(1, 1, px))); { Quiet q; char n[] = "c.omtp"; m.open(n); }
    static const double K[] = {0.01234, 0.1, 0.0075, 0.909}, SPACE[] = {5, 0, 5.7, 12.3}; double k = K[t], space = SPACE[t]; const float* c = m.get_calibration(); for (int i = 0; i < 256; ++i) { double want = 1; if (m7) { double d = i - space, rad = d > 0 ? k * d : 0; if (chan < 4) want = 100.0 * i / 255; else if (rad == 0) want = 0; else { double a = chan < 6 ? 1255.5465 : 2233.4882, b = chan < 6 ? 6.9618 : 9.2477; if (std::fabs(d) < 1e-3 || std::fabs(log(rad) - b) < 1e-3) continue; want = -a / (log(rad) - b); } } msym_assert(std::fabs((double)c[i] - want) <= 1e-3 * std::fabs(want) + 1e-3, "calibrated value"); }
    const char* name = 0; try { name = m.get_satellite_name(); } catch (const char*) {} msym_assert(name && !strcmp(name, m7 ? "METEOSAT 7" : "METEOSAT 6") && !strcmp(m.get_satellite_code(), m7 ? "M7" : "M6"), "satellite");
}
static OpenMTP& described() { static OpenMTP m; OpenMTP_binary_header* h = (OpenMTP_binary_header*)0; (void)h; return m; }
// only the description is read here: the image that would follow is cut off
static void only_header(OpenMTP& m) { store("t.omtp", octets(i4(40) == 3)); Quiet q; char n[] = "t.omtp"; try { m.open(n); msym_assert(0, "no image"); } catch (const std::exception&) {} }
ENTRY(times)
{
    describe(5, 4, 2500, 2500, "M7"); int y = (int)msym_range("year", 1977, 2030), mo = (int)msym_range("month", 1, 12), d = (int)msym_range("day", 1, 31), h = (int)msym_range("hour", 0, 23), mi = (int)msym_range("minute", 0, 59); put(8, (uint32_t)y); put(24, (uint32_t)(y * 10000 + mo * 100 + d)); put(28, (uint32_t)(h * 100 + mi)); OpenMTP& m = described(); only_header(m); struct tm& t = m.get_datetime(); msym_assert(t.tm_year == y - 1900 && t.tm_mon == mo - 1 && t.tm_mday == d && t.tm_hour == h && t.tm_min == mi && t.tm_sec == 0, "date and time");
}
ENTRY(time_texts)
{
    static const unsigned Y[] = {1998, 2005, 2024}, MD[] = {101, 1231, 229, 930}, HM[] = {0, 2359, 905, 1200}; unsigned y = Y[pick("year", 0, 2)], md = MD[pick("md", 0, 3)], hm = HM[pick("hm", 0, 3)]; describe(5, 4, 2500, 2500, "M7"); put(8, y); put(24, y * 10000 + md); put(28, hm); OpenMTP& m = described(); only_header(m); char w[64]; snprintf(w, sizeof w, "%04u%04u_%04u", y, md, hm); msym_assert(!strcmp(m.get_timestr(), w), "compact time"); snprintf(w, sizeof w, "%04u-%02u-%02u %02u:%02u:00", y, md / 100, md % 100, hm / 100, hm % 100); msym_assert(!strncmp(m.get_datatimestr(), w, strlen(w)), "readable time");
    memcpy(field(0), "XABCDEFG", 8); only_header(m); msym_assert(!strcmp(m.get_field_name(), "ABCDEFG"), "name of the field"); float r = m.orbit_radius(); msym_assert(r == 42164.0f, "orbit");
}
// formats A and B are the full disk and the European window of their channels; anything else is a window of its own
ENTRY(formats)
{
    unsigned chan = pick("chan", 1, 7); static const unsigned SIZES[] = {2500, 5000, 625, 1250, 100}; unsigned nl = SIZES[pick("nl", 0, 4)], np = SIZES[pick("np", 0, 4)]; describe(5, chan, nl, np, "M7"); symbolic(123, 127); int first = i4(123); OpenMTP& m = described(); only_header(m); unsigned thermal = chan > 3, composite = chan == 3; int a = (thermal && nl == 2500 && np == 2500) || (composite && nl == 5000 && np == 5000), b = (thermal && nl == 625 && np == 1250 && first == 1810) || (composite && nl == 1250 && np == 2500 && first == 3620); msym_assert(m.is_A_format() == (a != 0) && m.is_B_format() == (b != 0) && m.is_subwindow() == (!a && !b), "format"); if (a) msym_reach("A"); if (b) msym_reach("B"); if (!a && !b) msym_reach("window");
}
// ---- damaged files
static int opens(OpenMTP& m, const char* name) { Quiet q; char n[32]; strcpy(n, name); try { m.open(n); return 1; } catch (const std::exception& e) { msym_assert(strlen(e.what()) > 5, "says what is wrong"); return 0; } }
ENTRY(truncated)
{
    static unsigned char px[6]; unsigned chan = pick("chan", 3, 4), proc = pick("proc", 3, 4); describe(proc, chan, 2, 3, "M7"); std::string t = octets(chan == 3, lines(2, 3, px)); unsigned third = chan == 3 ? COMPOSITE : NORMAL; const unsigned ENDS[] = {TEXT, TEXT + FIRST, TEXT + FIRST + SECOND, TEXT + FIRST + SECOND + third, TEXT + FIRST + SECOND + third + 35, (unsigned)t.size()}; unsigned at = pick("at", 0, 5), less = pick("less", 0, 3); static const unsigned LESS[] = {0, 1, 2, 33}; unsigned keep = ENDS[at] - LESS[less]; store("x.omtp", t.substr(0, keep)); OpenMTP m; int ok = opens(m, "x.omtp"); msym_assert(ok == (keep == t.size()), "a file that is cut off is refused"); msym_reach(ok ? "whole" : "refused");
}
ENTRY(sizes)
{
    static unsigned char px[12]; describe(5, 4, 2, 3, "M7"); static const unsigned ODD[] = {0, 0xffffffff, 0x80000000, 5001, 70000, 0x7fffffff, 3, 2}; unsigned nl, np; if (pick("any", 0, 1)) { nl = msym_u32("nl"); np = msym_u32("np"); msym_assume((nl - 1 >= 5000) | (np - 1 >= 5000)); } else { nl = ODD[pick("nl", 0, 7)]; np = ODD[pick("np", 0, 7)]; } put(131, nl); put(135, np); store("s.omtp", octets(0, lines(2, 3, px))); OpenMTP m; int ok = opens(m, "s.omtp"); int fits = (nl == 2 || nl == 3) && (np == 2 || np == 3) && nl * (np + 32) <= 70; msym_assert(ok == fits, "an image that is not there is refused"); if (ok) msym_assert(m.nlines() == (int)nl && m.npixels() == (int)np, "size"); msym_reach(ok ? "read" : "refused");
}
ENTRY(recovers)
{
    static unsigned char px[64]; OpenMTP m; describe(5, 4, 2, 3, "M7"); static const unsigned ODD[] = {0, 5001, 2}; put(131, ODD[pick("nl", 0, 2)]); store("b.omtp", octets(0)); unsigned missing = pick("missing", 0, 1); if (missing) msym_deny_open("b.omtp"); msym_assert(!opens(m, "b.omtp"), "refused"); unsigned np = pick("np", 1, 6); msym_make_symbolic(px, 3 * np, "px"); describe(5, 4, 3, np, "M7"); store("g.omtp", octets(0, lines(3, np, px))); msym_assert(opens(m, "g.omtp") && m.nlines() == 3 && m.npixels() == (int)np && eqbytes(m.get_image(), px, 3 * np), "the next file is read"); msym_reach("read");
}
ENTRY(not_known)
{
    static unsigned char px[1]; describe(5, 0, 1, 1, "M7"); symbolic(40, 44); int chan = i4(40); msym_assume((chan < 1) | (chan > 7)); unsigned char a = msym_u8("a"), b = msym_u8("b"); field(32)[0] = a; field(32)[1] = b; msym_assume((a != 'M') | ((b != '7') & (b != '6'))); store("u.omtp", octets(0, lines(1, 1, px))); OpenMTP m; msym_assert(opens(m, "u.omtp"), "read"); int n = 0; try { m.get_chname(); } catch (const char*) { ++n; } try { m.get_chunit(); } catch (const char*) { ++n; } try { m.get_satellite_name(); } catch (const char*) { ++n; } msym_assert(n == 3, "unknown channels and satellites are not given a name"); const float* c = m.get_calibration(); msym_assert(c[0] == 1 && c[255] == 1, "not calibrated");
}
static int tool(const char* arg, std::string& out, std::string& err) { char name[] = "OpenMTP_info", a[32]; if (arg) strcpy(a, arg); char* argv[] = {name, arg ? a : nullptr, nullptr}; Quiet q; int r = info_tool::tool_main(arg ? 2 : 1, argv); out = q.out.str(); err = q.err.str(); return r; }
ENTRY(tool_refuses)
{
    std::string out, err; unsigned k = pick("k", 0, 5); static unsigned char px[6]; describe(5, 4, 2, 3, "M7"); std::string t = octets(0, lines(2, 3, px)); static const unsigned KEEP[] = {0, TEXT + 10, TEXT + FIRST + 3, 60}; if (k < 4) store("w.omtp", t.substr(0, k == 3 ? t.size() - 1 : KEEP[k])); int r = tool(k == 5 ? nullptr : k == 4 ? "none.omtp" : "w.omtp", out, err); msym_assert(r != 0, "a status other than zero"); if (k == 5) msym_assert(out.find("Usage") != std::string::npos, "usage"); else msym_assert(!err.empty(), "says so"); msym_reach("refused");
}
ENTRY(tool_version) { std::string out, err; int r = tool("-V", out, err); msym_assert(r == 0 && out.find(PACKAGE_STRING) != std::string::npos, "version"); }
ENTRY(tool_lists)
{
    static unsigned char px[6] = {0, 1, 200, 255, 7, 8}; describe(pick("proc", 3, 4), 4, 2, 3, "M7"); put(8, 1999); put(12, 123); put(24, 19990503); put(28, 1230); std::string t = octets(0, lines(2, 3, px)), out, err; store("l.omtp", t); int r = tool("l.omtp", out, err); msym_assert(r == 0 && err.empty(), "listed"); msym_assert(out.compare(0, 10, "Calibratio") == 0 && out.find("Year\t\t1999\n") != std::string::npos && out.find("Jday\t\t123\n") != std::string::npos && out.find("Satellite Name\tM7\n") != std::string::npos && out.find("Npixels\t\t3\n") != std::string::npos && out.find("Pixel (1,2)\t") != std::string::npos && out.find("Pixel (2,0)\t") == std::string::npos && out.find("CalC0\t\t0.01234\n") != std::string::npos, "what it holds");
}
// each field is listed under its own name with the value it has in the file
static int has(const std::string& t, const std::string& tag, long v) { return t.find("\n" + tag + std::to_string(v) + "\n") != std::string::npos; }
ENTRY(listing)
{
    static unsigned char px[1] = {3}; unsigned raw = pick("raw", 0, 1); describe(raw ? 0 : 4, pick("composite", 0, 1) ? 3 : 5, 1, 1, "M7"); struct Int { unsigned at; const char* tag; }; static const Int I[] = {{8, "Year\t\t"}, {12, "Jday\t\t"}, {16, "Slot\t\t"}, {20, "Dtype\t\t"}, {24, "Date\t\t"}, {28, "Time\t\t"}, {60, "Rec2siz\t\t"}, {64, "Lrecsize\t"}, {68, "Loffset\t\t"}, {87, "Dmmod\t\t"}, {91, "Rsmet\t\t"}, {111, "Origin\t\t"}, {123, "Line1\t\t"}, {127, "Pixel1\t\t"}, {5155, "Imgqua\t\t"}, {7811, "Ndgrp\t\t"}, {7815, "Dmstrt\t\t"}, {7819, "Dmend\t\t"}, {7823, "Dmstep\t\t"}, {96027, "Ncor\t\t"}, {96031, "Chid1\t\t"}}, R[] = {{5175, "Int\t\t"}, {5179, "Imp\t\t"}, {5183, "Spr\t\t"}, {5187, "Rpr\t\t"}, {5191, "Lre\t\t"}, {5319, "Hist1 0\t\t"}, {6339, "Hist1 255\t\t"}, {6343, "Hist2 0\t\t"}, {7363, "Hist2 255\t\t"}}, S[] = {{5195, "Lb0\t\t"}, {5197, "Nsi\t\t"}, {5199, "Fls 0\t\t"}, {5237, "Fls 19\t\t"}, {5239, "Nsl 0\t\t"}, {5277, "Nsl 19\t\t"}, {5279, "Rdpsim 0\t\t"}, {5317, "Rdpsim 19\t\t"}, {7503, "Earco (1,1)\t"}, {7525, "Earco (4,3)\t"}, {7575, "Irchan\t\t"}, {7577, "Lstart\t\t"}, {7579, "Horlim (1,1)\t"}, {7601, "Horlim (4,3)\t"}, {7619, "Ls\t\t"}, {7621, "Ln\t\t"}}, D[] = {{7367, "Timef\t\t"}, {7375, "Timel\t\t"}, {7383, "Orbf 0\t\t"}, {7423, "Orbf 5\t\t"}, {7431, "Orbl 0\t\t"}, {7471, "Orbl 5\t\t"}, {7527, "Htime\t\t"}, {7603, "Hortim South\t"}, {7611, "Hortim North\t"}, {7627, "Tmid\t\t"}, {7635, "Distan\t\t"}, {7643, "Betaso\t\t"}, {7651, "Betano\t\t"}, {7659, "Betase\t\t"}, {7667, "Betane\t\t"}, {7675, "Etas\t\t"}, {7683, "Etan\t\t"}, {7691, "Betasn\t\t"}, {7699, "Betann\t\t"}, {7707, "F0old\t\t"}, {7715, "F1old\t\t"}, {7723, "F0new\t\t"}, {7731, "F1new\t\t"}, {7755, "S0\t\t"}, {7763, "S1\t\t"}, {7771, "S2\t\t"}, {7779, "Sigmas\t\t"}}, F[] = {{7479, "Attf 0\t\t"}, {7487, "Attf 2\t\t"}, {7491, "Attl 0\t\t"}, {7499, "Attl 2\t\t"}, {7623, "Rmid\t\t"}}, T[] = {{95, "Ssp\t\t"}, {7827, "Defmax (1,1)\t"}, {7827 + 4 * 11024, "Defmax (105,105)\t"}, {7827 + 4 * 107, "Defmax (2,3)\t"}, {51927, "Defmay (1,1)\t"}, {51927 + 4 * 11024, "Defmay (105,105)\t"}, {96035, "Ewgeo1 0\t"}, {96035 + 4 * 3029, "Ewgeo1 3029\t"}, {108155, "Nsgeo1 0\t"}, {120275, "Roff1 0\t"}, {132395, "Rgain1 0\t"}}, C[] = {{144519, "Ewgeo2 0\t"}, {156639, "Nsgeo2 0\t"}, {168759, "Roff2 0\t"}, {180879 + 4 * 3029, "Rgain2 3029\t"}};
    for (const Int& f : I) put(f.at, f.at); for (const Int& f : T) put_r4(field(f.at), f.at); for (const Int& f : C) put_r4(field(f.at), f.at); put(144515, 144515); if (raw) { for (const Int& f : R) put(f.at, f.at); for (const Int& f : S) put16(field(f.at), f.at); for (const Int& f : D) put_r8(field(f.at), f.at); for (const Int& f : F) put_r4(field(f.at), f.at); *field(7560) = 1; }
    int composite = i4(40) == 3; store("l.omtp", octets(composite, lines(1, 1, px))); std::string out, err; msym_assert(tool("l.omtp", out, err) == 0, "listed"); int ok = 1; for (const Int& f : I) ok &= has(out, f.tag, f.at); for (const Int& f : T) ok &= has(out, f.tag, f.at); msym_assert(ok, "the fields of each file"); ok = 1; for (const Int& f : C) ok &= has(out, f.tag, f.at) == composite; ok &= has(out, "Chid2\t\t", 144515) == composite; msym_assert(ok, "the second channel of a composite"); ok = 1; for (const Int& f : R) ok &= has(out, f.tag, f.at) == (int)raw; for (const Int& f : S) ok &= has(out, f.tag, f.at) == (int)raw; for (const Int& f : D) ok &= has(out, f.tag, f.at) == (int)raw; for (const Int& f : F) ok &= has(out, f.tag, f.at) == (int)raw; msym_assert(ok, "the fields of raw images"); if (raw) msym_assert(has(out, "Status 1\t", 1) && has(out, "Status 0\t", 0) && out.find("Attf 3") == std::string::npos, "flags and vectors"); msym_reach(raw ? "raw" : "rectified");
}
