// An independent description of the layout of the SEVIRI prologue and epilogue records.
#pragma once
#include "h.h"
#include <msat/hrit/MSG_data.h>
#include "decomp.h"
#include <stdexcept>

static const unsigned char* c;  // cursor of the description
static int u1(uint32_t v) { int r = v == c[0]; c += 1; return r; }
static int flag(bool v) { int r = v == (c[0] != 0); c += 1; return r; }
static int u2(uint32_t v) { int r = v == be16(c); c += 2; return r; }
static int u4(uint32_t v) { int r = v == be32(c); c += 4; return r; }
static int i4(int32_t v) { int r = v == (int32_t)be32(c); c += 4; return r; }
static int r4(float v) { int r = (uint32_t)msym_bitsf(v) == be32(c); c += 4; return r; }
static int r8(double v) { int r = msym_bits(v) == be64(c); c += 8; return r; }
static int raw2(const void* v) { int r = eqbytes(v, c, 2); c += 2; return r; }
static int cds6(MSG_time_cds_short& t) { int r = (t.get_day_from_epoch() == be16(c)) & (t.get_msec_in_day() == be32(c + 2)) ; c += 6; return r; }
static int cds8(MSG_time_cds& t) { int r = cds6(t) & (t.get_microsecs() == be16(c)); c += 2; return r; }
static int cds10(MSG_time_cds_expanded& t) { int r = cds6(t) & (t.get_microsecs() == be16(c)) & (t.get_nanosecs() == be16(c + 2)); c += 4; return r; }
#define F(T, x) msym_assert(T(x), #x)
#define FA(T, n, x) do { int ok_ = 1; for (int i = 0; i < (n); ++i) ok_ &= T(x); msym_assert(ok_, #x); } while (0)
#define FA2(T, n, m, x) do { int ok_ = 1; for (int i = 0; i < (n); ++i) for (int j = 0; j < (m); ++j) ok_ &= T(x); msym_assert(ok_, #x); } while (0)

// ---- prologue records ----
static void d_status(MSG_data_SatelliteStatus& s)
{
    auto& d = s.SatelliteDefinition; F(u2, (unsigned)d.SatelliteId); F(r4, d.NominalLongitude); F(u1, (unsigned)d.SatelliteStatus);
    auto& o = s.SatelliteOperations;
    F(flag, o.LastManoeuvreFlag); F(cds6, o.LastManouvreStartTime); F(cds6, o.LastManouvreEndTime); F(u1, (unsigned)o.LastManouvreType);
    F(flag, o.NextManoeuvreFlag); F(cds6, o.NextManouvreStartTime); F(cds6, o.NextManouvreEndTime); F(u1, (unsigned)o.NextManouvreType);
    F(cds6, s.Orbit.PeriodStartTime); F(cds6, s.Orbit.PeriodEndTime);
    for (int k = 0; k < 100; ++k) {
        auto& p = s.Orbit.OrbitPoliniomal[k]; msym_assert(p.is_present() == (be16(c) != 0), "orbit polynomial present");
        F(cds6, p.StartTime); F(cds6, p.EndTime);
        FA(r8, 8, p.X[i]); FA(r8, 8, p.Y[i]); FA(r8, 8, p.Z[i]); FA(r8, 8, p.VX[i]); FA(r8, 8, p.VY[i]); FA(r8, 8, p.VZ[i]);
    }
    F(cds6, s.Attitude.PeriodStartTime); F(cds6, s.Attitude.PeriodEndTime); F(r8, s.Attitude.PrincipalAxisOffsetAngle);
    for (int k = 0; k < 100; ++k) {
        auto& p = s.Attitude.AttitudePolynomial[k]; msym_assert(p.is_present() == (be16(c) != 0), "attitude polynomial present");
        F(cds6, p.StartTime); F(cds6, p.EndTime); FA(r8, 8, p.XOfSpinAxis[i]); FA(r8, 8, p.YOfSpinAxis[i]); FA(r8, 8, p.ZOfSpinAxis[i]);
    }
    F(r8, s.SpinRateatRCStart);
    auto& u = s.UTCCorrelation; F(cds6, u.PeriodStartTime); F(cds6, u.PeriodEndTime);
    msym_assert(eqbytes(u.OnBoardTimeStart.cuctime, c, 7), "OnBoardTimeStart"); c += 7;
    F(r8, u.VarOnBoardTimeStart); F(r8, u.A1); F(r8, u.VarA1); F(r8, u.A2); F(r8, u.VarA2);
}
static void d_acquisition(MSG_data_ImageAcquisition& a)
{
    auto& t = a.PlannedAquisitionTime; F(cds10, t.TrueRepeatCycleStart); F(cds10, t.PlannedForwardScanEnd); F(cds10, t.PlannedRepeatCycleEnd);
    FA(u1, 12, (unsigned)a.RadiometerStatus.ChannelStatus[i]); FA(u1, 42, (unsigned)a.RadiometerStatus.DetectorStatus[i]);
    auto& s = a.RadiometerSettings;
    FA(u2, 42, s.MDUSamplingDelays[i]); F(u2, s.MDUNomHRVDelay1); F(u2, s.MDUNomHRVDelay2); c += 2; F(u2, s.MDUNomHRVBreakline); F(u1, (unsigned)s.DHSSyncSelection);
    FA(u2, 42, s.MDUOutGain[i]); FA(u1, 42, s.MDUCoarseGain[i]); FA(u2, 42, s.MDUFineGain[i]); FA(u2, 42, s.MDUNumericalOffset[i]);
    FA(u2, 42, s.PUGain[i]); FA(u2, 27, s.PUOffset[i]); FA(u2, 15, s.PUBias[i]);
    F(u2, s.L0_LineCounter); F(u2, s.K1_RetraceLines); F(u2, s.K2_PauseDeciseconds); F(u2, s.K3_RetraceLines); F(u2, s.K4_PauseDeciseconds); F(u2, s.K5_RetraceLines);
    F(u1, (unsigned)s.X_DeepSpaceWindowPosition); F(u2, s.RefocusingLines); F(u1, (unsigned)s.RefocusingDirection); F(u2, s.RefocusingPosition);
    F(flag, s.ScanRefPosFlag); F(u2, s.ScanRefPosNumber); F(r4, s.ScanRefPotVal); F(u2, s.ScanFirstLine); F(u2, s.ScanLastLine); F(u2, s.RetraceStartLine);
    auto& o = a.RadiometerOperations;
    F(flag, o.LastGainChangeFlag); F(cds6, o.LastGainChangeTime); F(flag, o.DecontaminationNow); F(cds6, o.DecontaminationStart); F(cds6, o.DecontaminationEnd);
    F(flag, o.BBCalScheduled); F(u1, (unsigned)o.BBCalibrationType); F(u2, o.BBFirstLine); F(u2, o.BBLastLine); F(u2, o.ColdFocalPlaneOpTemp); F(u2, o.WarmFocalPlaneOpTemp);
}
static int gtime(MSG_time_generalized& t)
{
    auto dig = [](int o, int n) { int v = 0; for (int i = 0; i < n; ++i) v = v * 10 + (c[o + i] - '0'); return v; };
    struct tm* g = t.get_timestruct();
    int r = (g->tm_year == dig(0, 4) - 1900) & (g->tm_mon == dig(4, 2) - 1) & (g->tm_mday == dig(6, 2)) & (g->tm_hour == dig(8, 2)) & (g->tm_min == dig(10, 2)) & (g->tm_sec == dig(12, 2));
    c += 15; return r;
}
static void d_celestial(MSG_data_CelestialEvents& e)
{
    auto& m = e.CelestialBodiesPosition.Ephemeris;
    F(cds6, m.PeriodStartTime); F(cds6, m.PeriodEndTime); F(gtime, m.RelatedOrbitFileTime); F(gtime, m.RelatedAttitudeFileTime);
    for (int k = 0; k < 300; ++k) {
        auto& b = k < 100 ? m.EarthEphemeris[k] : k < 200 ? m.MoonEphemeris[k - 100] : m.SunEphemeris[k - 200];
        F(cds6, b.StartTime); F(cds6, b.EndTime); FA(r8, 8, b.AlphaCoef[i]); FA(r8, 8, b.BetaCoef[i]);
    }
    for (int k = 0; k < 100; ++k) for (int n = 0; n < 20; ++n) {
        auto& b = m.StarEphemeris[k]; F(u2, b.StarId[n]); F(cds6, b.StartTime[n]); F(cds6, b.EndTime[n]);
        FA(r8, 8, b.AlphaCoef[n][i]); FA(r8, 8, b.BetaCoef[n][i]);
    }
    auto& r = e.RelationToImage; F(u1, (unsigned)r.TypeofEclypse); F(cds6, r.EclipseStartTime); F(cds6, r.EclipseEndTime);
    F(u1, (unsigned)r.VisibleBodiesInImage); F(u1, (unsigned)r.BodiesClosesttoFOV); F(u1, (unsigned)r.ImpactOnImageQuality);
}
static void d_description(MSG_data_ImageDescription& d)
{
    F(u1, (unsigned)d.ProjectionDescription.TypeOfProjection); F(r4, d.ProjectionDescription.LongitudeOfSSP);
    for (int k = 0; k < 2; ++k) { auto& g = k ? d.ReferenceGridHRV : d.ReferenceGridVIS_IR; F(i4, g.NumberofLines); F(i4, g.NumberofColumns); F(r4, g.LineDirGridStep); F(r4, g.ColumnDirGridStep); F(u1, (unsigned)g.GridOrigin); }
    auto& v = d.PlannedCoverageVIS_IR; F(i4, v.SouthernLinePlanned); F(i4, v.NorthernLinePlanned); F(i4, v.EasternColumnPlanned); F(i4, v.WesternColumnPlanned);
    auto& h = d.PlannedCoverageHRV; F(i4, h.LowerSouthLinePlanned); F(i4, h.LowerNorthLinePlanned); F(i4, h.LowerEastColumnPlanned); F(i4, h.LowerWestColumnPlanned);
    F(i4, h.UpperSouthLinePlanned); F(i4, h.UpperNorthLinePlanned); F(i4, h.UpperEastColumnPlanned); F(i4, h.UpperWestColumnPlanned);
    auto& p = d.Level1_5ImageProduction; F(u1, (unsigned)p.ImageProcDirection); F(u1, (unsigned)p.PixelGenDirection); FA(flag, 12, p.PlannedChanProcessing[i]);
}
static void d_radiometric(MSG_data_RadiometricProc& r)
{
    auto& s = r.RPSummary; FA(flag, 12, s.RadianceLinearization[i]); FA(flag, 12, s.DetectorEqualization[i]); FA(flag, 12, s.OnboardCalibrationResult[i]);
    FA(flag, 12, s.MPEFCalFeedBack[i]); FA(flag, 12, s.MTFAdaptation[i]); FA(flag, 12, s.StraylightCorrectionFlag[i]);
    for (int k = 0; k < 12; ++k) { F(r8, r.ImageCalibration[k].Cal_Slope); F(r8, r.ImageCalibration[k].Cal_Offset); }
    auto& b = r.BlackBodyDataUsed; F(cds10, b.BBObservationUTC); msym_assert(eqbytes(b.OnBoardBBTime.cuctime, c, 7), "OnBoardBBTime"); c += 7;
    FA(u2, 42, b.MDUOutGain[i]); FA(u1, 42, b.MDUCoarseGain[i]); FA(u2, 42, b.MDUFineGain[i]); FA(u2, 42, b.MDUNumerical_Offset[i]); FA(u2, 42, b.PUGain[i]); FA(u2, 27, b.PUOffset[i]); FA(u2, 15, b.PUBias[i]);
    for (int k = 0; k < 42; ++k) { unsigned v = be16(c + k * 3 / 2); v = k % 2 ? v & 0xfff : v >> 4; msym_assert(b.DCRValues[k].Value == v, "DCRValues"); }
    c += 63; F(u1, (unsigned)b.XDeepSpaceWindowPosition);
    F(u2, b.FCUNominalColdFocalPlaneTemp); F(u2, b.FCURedundantColdFocalPlaneTemp); F(u2, b.FCUNominalWarmFocalPlaneVHROTemp); F(u2, b.FCURedundantWarmFocalPlaneVHROTemp);
    F(u2, b.FCUNominalScanMirrorSensor1Temp); F(u2, b.FCURedundantScanMirrorSensor1Temp); F(u2, b.FCUNominalScanMirrorSensor2Temp); F(u2, b.FCURedundantScanMirrorSensor2Temp);
    F(u2, b.FCUNominalM1MirrorSensor1Temp); F(u2, b.FCURedundantM1MirrorSensor1Temp); F(u2, b.FCUNominalM1MirrorSensor2Temp); F(u2, b.FCURedundantM1MirrorSensor2Temp);
    F(u1, b.FCUNominalM23AssemblySensor1Temp); F(u1, b.FCURedundantM23AssemblySensor1Temp); F(u1, b.FCUNominalM23AssemblySensor2Temp); F(u1, b.FCURedundantM23AssemblySensor2Temp);
    F(u2, b.FCUNominalM1BaffleTemp); F(u2, b.FCURedundantM1BaffleTemp); F(u2, b.FCUNominalBlackBodySensorTemp); F(u2, b.FCURedundantBlackBodySensorTemp);
    F(raw2, &b.FCUNominalSMMStatus); F(raw2, &b.FCURedundantSMMStatus);
    for (int k = 0; k < 12; ++k) { auto& e = b.ExtractedBBData[k]; F(u4, e.NumberOfPixelsUsed); F(r4, e.MeanCount); F(r4, e.RMS); F(u2, e.MaxCount); F(u2, e.MinCount); F(r8, e.BB_Processing_Slope); F(r8, e.BB_Processing_Offset); }
    for (int k = 0; k < 12; ++k) {
        auto& m = r.MPEFCalFeedback.IMPF_CAL_Data[k]; F(u1, (unsigned)m.ImageQualityFlag); F(u1, (unsigned)m.ReferenceDataFlag); F(u1, (unsigned)m.AbsCalMethod); c += 1;
        F(r4, m.AbsCalWeightVic); F(r4, m.AbsCalWeightXsat); F(r4, m.AbsCalCoeff); F(r4, m.AbsCalError); F(r4, m.CalMonBias); F(r4, m.CalMonRms); F(r4, m.OffsetCount);
    }
    FA2(r4, 42, 64, r.RadTransform[i][j]);
    auto& f = r.RadProcMTFAdaptation; FA2(r4, 33, 16, f.VIS_IRMTFCorrectionE_W[i][j]); FA2(r4, 33, 16, f.VIS_IRMTFCorrectionN_S[i][j]); FA2(r4, 9, 16, f.HRVIRMTFCorrectionE_W[i][j]); FA2(r4, 9, 16, f.HRVIRMTFCorrectionN_S[i][j]);
    for (int k = 0; k < 12; ++k) FA2(r4, 8, 8, r.StraylightCorrection[k][i][j]);
}
static void d_geometric(MSG_data_GeometricProc& g)
{
    FA(r4, 42, g.OptAxisDistances.E_W_FocalPlane[i]); FA(r4, 42, g.OptAxisDistances.N_S_FocalPlane[i]);
    auto& e = g.EarthModel; F(u1, (unsigned)e.TypeofEarthModel); F(r8, e.EquatorialRadius); F(r8, e.NorthPolarRadius); F(r8, e.SouthPolarRadius);
    FA2(r4, 12, 360, g.AtmosphericModel[i][j]); FA(u1, 12, (unsigned)g.ResamplingFunction[i]);
}
static int version(MSG_GPConfigItemVersion& v) { int r = u2(v.Issue); return r & u2(v.Revision); }
static void d_impf(MSG_data_IMPFConfiguration& p)
{
    F(version, p.GPConfigItemVersion);
    for (int k = 0; k < 50; ++k) {
        auto& s = p.SuDetails[k]; F(u4, s.SoftwareUnitId); F(u1, (unsigned)s.SUIdInstance); F(u1, (unsigned)s.SUMode); F(u1, (unsigned)s.SUState);
        F(version, s.SUConfiguration.SWVersion); FA(version, 10, s.SUConfiguration.InfoBaseVersion[i]);
    }
    auto& w = p.WarmStartParms; FA(r8, 1527, w.ScanningLaw[i]); FA(r8, 3, w.RadFramesAlignment[i]); FA(r4, 2, w.ScanningLawVariation[i]);
    for (int k = 0; k < 42; ++k) { auto& e = w.EqualisationParms[k]; F(r4, e.ConstCoef); F(r4, e.LinearCoef); F(r4, e.QuadraticCoef); }
    auto& b = w.BlackBodyDataWarmStart;
    FA(r8, 12, b.GTotalForMethod1[i]); FA(r8, 12, b.GTotalForMethod2[i]); FA(r8, 12, b.GTotalForMethod3[i]); FA(r8, 12, b.GBackForMethod1[i]); FA(r8, 12, b.GBackForMethod2[i]); FA(r8, 12, b.GBackForMethod3[i]);
    FA(r8, 12, b.RatioGTotalToGBack[i]); FA(r8, 12, b.GainInFrontOpticsCont[i]); FA(r4, 12, b.CalibrationConstants[i]); F(r8, b.TimeOfColdObsSeconds); F(r8, b.TimeOfColdObsNanoSecs);
    FA(r8, 12, b.IncidentRadiance[i]); F(r8, b.TempCal); F(r8, b.TempM1); F(r8, b.TempScan); F(r8, b.TempM1Baf); F(r8, b.TempCalSurround);
    F(r8, b.MirrorParameters.MaxFeedbackVoltage); F(r8, b.MirrorParameters.MinFeedbackVoltage); F(r8, b.MirrorParameters.MirrorSlipEstimate); F(r8, b.LastSpinPeriod);
    auto& h = b.HKTMParameters; F(cds6, h.TimeS0Packet); F(cds6, h.TimeS1Packet); F(cds6, h.TimeS2Packet); F(cds6, h.TimeS3Packet); F(cds6, h.TimeS4Packet); F(cds6, h.TimeS5Packet);
    F(cds6, h.TimeS6Packet); F(cds6, h.TimeS7Packet); F(cds6, h.TimeS8Packet); F(cds6, h.TimeS9Packet); F(cds6, h.TimeSYPacket); F(cds6, h.TimePSPacket);
    c += 3408;
}
// ---- epilogue records ----
static void d_prodstats(MSG_data_ImageProdStats& s)
{
    F(u2, (unsigned)s.SatelliteId); auto& a = s.ActualScanningSummary; F(u1, a.NominalImageScanning); F(u1, a.ReducedScan); F(cds6, a.ForwardScanStart); F(cds6, a.ForwardScanEnd);
    auto& b = s.RadiometerBehaviour; F(u1, b.NominalBehaviour); F(u1, b.RadScanIrregularity); F(u1, b.RadStoppage); F(u1, b.RepeatCycleNotCompleted); F(u1, b.GainChangeTookPlace); F(u1, b.DecontaminationTookPlace);
    F(u1, b.NoBBCalibrationAchieved); F(u1, b.IncorrectTemperature); F(u1, b.InvalidBBData); F(u1, b.InvalidAuxOrHKTMData); F(u1, b.RefocusingMechanismActuated); F(u1, b.MirrorBackToReferencePos);
    auto& r = s.ReceptionSummaryStats; FA(u4, 12, r.PlannedNumberOfL10Lines[i]); FA(u4, 12, r.NumberOfMissingL10Lines[i]); FA(u4, 12, r.NumberOfCorruptedL10Lines[i]); FA(u4, 12, r.NumberOfReplacedL10Lines[i]);
    for (int k = 0; k < 12; ++k) { auto& v = s.L15ImageValidity[k]; F(u1, v.NominalImage); F(u1, v.NonNominalBecauseIncomplete); F(u1, v.NonNominalRadiometricQuality); F(u1, v.NonNominalGeometricQuality); F(u1, v.NonNominalTimeliness); F(u1, v.IncompleteL15); }
    auto& v = s.ActualL15CoverageVIS_IR; F(i4, v.SouthernLineActual); F(i4, v.NorthernLineActual); F(i4, v.EasternColumnActual); F(i4, v.WesternColumnActual);
    auto& h = s.ActualL15CoverageHRV; F(i4, h.LowerSouthLineActual); F(i4, h.LowerNorthLineActual); F(i4, h.LowerEastColumnActual); F(i4, h.LowerWestColumnActual);
    F(i4, h.UpperSouthLineActual); F(i4, h.UpperNorthLineActual); F(i4, h.UpperEastColumnActual); F(i4, h.UpperWestColumnActual);
}
template<class T> static void obs(T& o)
{
    F(r8, o.Alpha); F(r8, o.AlphaConfidence); F(r8, o.Beta); F(r8, o.BetaConfidence); F(cds8, o.ObservationTime); F(r8, o.SpinRate); F(r8, o.AlphaDeviation); F(r8, o.BetaDeviation);
}
static void d_navig(MSG_data_NavigExtrResult& n)
{
    for (int k = 0; k < 4; ++k) { F(u1, (unsigned)n.ExtractedHorizons[k].HorizonId); obs(n.ExtractedHorizons[k]); }
    for (int k = 0; k < 20; ++k) { F(u2, n.ExtractedStars[k].StarId); obs(n.ExtractedStars[k]); }
    for (int k = 0; k < 50; ++k) { auto& l = n.ExtractedLandmarks[k]; F(u2, l.LandmarkId); F(r8, l.LandmarkLongitude); F(r8, l.LandmarkLatitude); obs(l); }
}
static void d_radqlty(MSG_data_RadiometricQuality& q)
{
    for (int k = 0; k < 42; ++k) {
        auto& l = q.L10RadQuality[k];
        F(u2, l.FullImageMinimumCount); F(u2, l.FullImageMaximumCount); F(u2, l.EarthDiskMinimumCount); F(u2, l.EarthDiskMaximumCount); F(u2, l.MoonMinimumCount); F(u2, l.MoonMaximumCount);
        F(r4, l.FullImageMeanCount); F(r4, l.FullImageStandardDeviation); F(r4, l.EarthDiskMeanCount); F(r4, l.EarthDiskStandardDeviation); F(r4, l.MoonMeanCount); F(r4, l.MoonStandardDeviation);
        F(r4, l.SpaceMeanCount); F(r4, l.SpaceStandardDeviation); F(r4, l.SESpaceCornerMeanCount); F(r4, l.SESpaceCornerStandardDeviation); F(r4, l.SWSpaceCornerMeanCount); F(r4, l.SWSpaceCornerStandardDeviation);
        F(r4, l.NESpaceCornerMeanCount); F(r4, l.NESpaceCornerStandardDeviation); F(r4, l.NWSpaceCornerMeanCount); F(r4, l.NWSpaceCornerStandardDeviation); F(r4, l.FourSpaceCornersMeanCount); F(r4, l.FourSpaceCornersStandardDeviation);
        FA(u4, 256, l.FullImageIstogram[i]); FA(u4, 256, l.EarthDiskIstogram[i]); FA(u4, 256, l.ImageCentreSquareIstogram[i]);
        FA(u4, 128, l.SESpaceCornerIstogram[i]); FA(u4, 128, l.SWSpaceCornerIstogram[i]); FA(u4, 128, l.NESpaceCornerIstogram[i]); FA(u4, 128, l.NWSpaceCornerIstogram[i]);
        FA(r4, 3, l.FullImageEntropy[i]); FA(r4, 3, l.EarthDiskEntropy[i]); FA(r4, 3, l.ImageCentreSquareEntropy[i]); FA(r4, 3, l.SESpaceCornerEntropy[i]); FA(r4, 3, l.SWSpaceCornerEntropy[i]);
        FA(r4, 3, l.NESpaceCornerEntropy[i]); FA(r4, 3, l.NWSpaceCornerEntropy[i]); FA(r4, 3, l.FourSpaceCornersEntropy[i]);
        FA(r4, 128, l.ImageCentreSquarePSD_EW[i]); FA(r4, 128, l.FullImagePSD_EW[i]); FA(r4, 128, l.ImageCentreSquarePSD_NS[i]); FA(r4, 128, l.FullImagePSD_NS[i]);
    }
    for (int k = 0; k < 12; ++k) {
        auto& l = q.L15RadQuality[k];
        F(u2, l.FullImageMinimumCount); F(u2, l.FullImageMaximumCount); F(u2, l.EarthDiskMinimumCount); F(u2, l.EarthDiskMaximumCount);
        F(r4, l.FullImageMeanCount); F(r4, l.FullImageStandardDeviation); F(r4, l.EarthDiskMeanCount); F(r4, l.EarthDiskStandardDeviation); F(r4, l.SpaceMeanCount); F(r4, l.SpaceStandardDeviation);
        FA(u4, 256, l.FullImageIstogram[i]); FA(u4, 256, l.EarthDiskIstogram[i]); FA(u4, 256, l.ImageCentreSquareIstogram[i]);
        FA(r4, 3, l.FullImageEntropy[i]); FA(r4, 3, l.EarthDiskEntropy[i]); FA(r4, 3, l.ImageCentreSquareEntropy[i]);
        FA(r4, 128, l.ImageCentreSquarePSD_EW[i]); FA(r4, 128, l.FullImagePSD_EW[i]); FA(r4, 128, l.ImageCentreSquarePSD_NS[i]); FA(r4, 128, l.FullImagePSD_NS[i]);
        F(r4, l.SESpaceCornerL15_RMS); F(r4, l.SESpaceCornerL15_Mean); F(r4, l.SWSpaceCornerL15_RMS); F(r4, l.SWSpaceCornerL15_Mean);
        F(r4, l.NESpaceCornerL15_RMS); F(r4, l.NESpaceCornerL15_Mean); F(r4, l.NWSpaceCornerL15_RMS); F(r4, l.NWSpaceCornerL15_Mean);
    }
}
static void d_geoqlty(MSG_data_GeometricQuality& q)
{
    for (int k = 0; k < 48; ++k) {
        auto& a = k < 12 ? q.AbsoluteAccuracy[k] : k < 24 ? q.RelativeAccuracy[k - 12] : k < 36 ? q.N500PixelsRelativeAccuracy[k - 24] : q.N16PixelsRelativeAccuracy[k - 36];
        F(u1, (unsigned)a.QualityInfoValidity); F(r4, a.EastWestAccuracyRMS); F(r4, a.NorthSouthAccuracyRMS); F(r4, a.MagnitudeRMS); F(r4, a.EastWestUncertaintyRMS); F(r4, a.NorthSouthUncertaintyRMS); F(r4, a.MagnitudeUncertaintyRMS);
        F(r4, a.EastWestMaxDeviation); F(r4, a.NorthSouthMaxDeviation); F(r4, a.MagnitudeMaxDeviation); F(r4, a.EastWestUncertaintyMax); F(r4, a.NorthSouthUncertaintyMax); F(r4, a.MagnitudeUncertaintyMax);
    }
    for (int k = 0; k < 12; ++k) {
        auto& a = q.MisregistrationResiduals[k]; F(u1, (unsigned)a.QualityInfoValidity); F(r4, a.EastWestResiduals); F(r4, a.NorthSouthResiduals); F(r4, a.EastWestUncertainty); F(r4, a.NorthSouthUncertainty);
        F(r4, a.EastWestRMS); F(r4, a.NorthSouthRMS); F(r4, a.EastWestMagnitude); F(r4, a.NorthSouthMagnitude); F(r4, a.EastWestMagnitudeUncertainty); F(r4, a.NorthSouthMagnitudeUncertainty);
    }
    for (int k = 0; k < 12; ++k) { auto& s = q.GeometricQualityStatus[k]; F(u1, s.QualityNominal); F(u1, s.NominalAbsolute); F(u1, s.NominalRelativeToPreviousImage); F(u1, s.NominalForREL500); F(u1, s.NominalForREL16); F(u1, s.NominalForResMisreg); }
}
static void d_timelin(MSG_data_TimelinComple& t)
{
    F(r4, t.Timeliness.MaxDelay); F(r4, t.Timeliness.MinDelay); F(r4, t.Timeliness.MeanDelay);
    for (int k = 0; k < 12; ++k) { auto& m = t.Completeness[k]; F(u2, m.PlannedL15ImageLines); F(u2, m.GeneratedL15ImageLines); F(u2, m.ValidL15ImageLines); F(u2, m.DummyL15ImageLines); F(u2, m.CorruptedL15ImageLines); }
}
static const char* const TIMES[] = {"20051231235959Z", "20060102030405Z"};
static const size_t PRO = 425461, EPI = 380325, IMPF = 19786;
static const size_t PSTART[8] = {0, 60134, 60834, 386892, 386993, 407808, 425461, 445247};
