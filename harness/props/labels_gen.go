// Code generated by tools/gen_labels.py. DO NOT EDIT.

//go:build c25

package props

import (
	acas_ra_fields "github.com/twuillemin/modes/pkg/acas/ra/fields"
	adsb "github.com/twuillemin/modes/pkg/adsb"
	adsb_airborne_position_fields "github.com/twuillemin/modes/pkg/adsb/airborne_position/fields"
	adsb_surface_position_fields "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
	bds_bds05_fields "github.com/twuillemin/modes/pkg/bds/bds05/fields"
	bds_bds06_fields "github.com/twuillemin/modes/pkg/bds/bds06/fields"
	bds_bds07_fields "github.com/twuillemin/modes/pkg/bds/bds07/fields"
	bds_bds08_fields "github.com/twuillemin/modes/pkg/bds/bds08/fields"
	bds_bds09_fields "github.com/twuillemin/modes/pkg/bds/bds09/fields"
	bds_bds10_fields "github.com/twuillemin/modes/pkg/bds/bds10/fields"
	bds_bds40_fields "github.com/twuillemin/modes/pkg/bds/bds40/fields"
	bds_bds44_fields "github.com/twuillemin/modes/pkg/bds/bds44/fields"
	bds_bds45_fields "github.com/twuillemin/modes/pkg/bds/bds45/fields"
	bds_bds61_fields "github.com/twuillemin/modes/pkg/bds/bds61/fields"
	bds_bds62_fields "github.com/twuillemin/modes/pkg/bds/bds62/fields"
	bds_bds65_fields "github.com/twuillemin/modes/pkg/bds/bds65/fields"
	modes_common "github.com/twuillemin/modes/pkg/modes/common"
	modes_fields "github.com/twuillemin/modes/pkg/modes/fields"
)

// A labelled is a type of codes having a text.
type labelled struct {
	name string
	text func(code int) string
}

var labelledTypes = []labelled{
	{"acas/ra/fields.ActiveRAPreventiveCorrective", func(c int) string { v := acas_ra_fields.ActiveRAPreventiveCorrective(c); return v.ToString() }},
	{"acas/ra/fields.ActiveRASense", func(c int) string { v := acas_ra_fields.ActiveRASense(c); return v.ToString() }},
	{"acas/ra/fields.ActiveRAVerticalSpeedLimitOrPositive", func(c int) string { v := acas_ra_fields.ActiveRAVerticalSpeedLimitOrPositive(c); return v.ToString() }},
	{"acas/ra/fields.AltitudeStatus", func(c int) string { v := acas_ra_fields.AltitudeStatus(c); return v.ToString() }},
	{"acas/ra/fields.MultipleThreatEncounter", func(c int) string { v := acas_ra_fields.MultipleThreatEncounter(c); return v.ToString() }},
	{"acas/ra/fields.RATerminatedIndicator", func(c int) string { v := acas_ra_fields.RATerminatedIndicator(c); return v.ToString() }},
	{"acas/ra/fields.ThreatIdentityAddress", func(c int) string { v := acas_ra_fields.ThreatIdentityAddress(c); return v.ToString() }},
	{"acas/ra/fields.ThreatIdentityBearing", func(c int) string { v := acas_ra_fields.ThreatIdentityBearing(c); return v.ToString() }},
	{"acas/ra/fields.ThreatIdentityRange", func(c int) string { v := acas_ra_fields.ThreatIdentityRange(c); return v.ToString() }},
	{"acas/ra/fields.ThreatTypeIndicator", func(c int) string { v := acas_ra_fields.ThreatTypeIndicator(c); return v.ToString() }},
	{"adsb.ADSBVersion", func(c int) string { v := adsb.ADSBVersion(c); return v.ToString() }},
	{"adsb/airborne_position/fields.ContainmentRadius", func(c int) string { v := adsb_airborne_position_fields.ContainmentRadius(c); return v.ToString() }},
	{"adsb/airborne_position/fields.HorizontalContainmentRadiusV1", func(c int) string {
		v := adsb_airborne_position_fields.HorizontalContainmentRadiusV1(c)
		return v.ToString()
	}},
	{"adsb/airborne_position/fields.HorizontalContainmentRadiusV2", func(c int) string {
		v := adsb_airborne_position_fields.HorizontalContainmentRadiusV2(c)
		return v.ToString()
	}},
	{"adsb/airborne_position/fields.HorizontalProtectionLimit", func(c int) string {
		v := adsb_airborne_position_fields.HorizontalProtectionLimit(c)
		return v.ToString()
	}},
	{"adsb/airborne_position/fields.NavigationIntegrityCodeSupplementB", func(c int) string {
		v := adsb_airborne_position_fields.NavigationIntegrityCodeSupplementB(c)
		return v.ToString()
	}},
	{"adsb/surface_position/fields.ContainmentRadius", func(c int) string { v := adsb_surface_position_fields.ContainmentRadius(c); return v.ToString() }},
	{"adsb/surface_position/fields.HorizontalContainmentRadiusV1", func(c int) string {
		v := adsb_surface_position_fields.HorizontalContainmentRadiusV1(c)
		return v.ToString()
	}},
	{"adsb/surface_position/fields.HorizontalContainmentRadiusV2", func(c int) string {
		v := adsb_surface_position_fields.HorizontalContainmentRadiusV2(c)
		return v.ToString()
	}},
	{"adsb/surface_position/fields.HorizontalProtectionLimit", func(c int) string {
		v := adsb_surface_position_fields.HorizontalProtectionLimit(c)
		return v.ToString()
	}},
	{"bds/bds05/fields.AltitudeReportMethod", func(c int) string { v := bds_bds05_fields.AltitudeReportMethod(c); return v.ToString() }},
	{"bds/bds05/fields.AltitudeSource", func(c int) string { v := bds_bds05_fields.AltitudeSource(c); return v.ToString() }},
	{"bds/bds05/fields.CompactPositionReportingFormat", func(c int) string { v := bds_bds05_fields.CompactPositionReportingFormat(c); return v.ToString() }},
	{"bds/bds05/fields.SingleAntennaFlag", func(c int) string { v := bds_bds05_fields.SingleAntennaFlag(c); return v.ToString() }},
	{"bds/bds05/fields.SurveillanceStatus", func(c int) string { v := bds_bds05_fields.SurveillanceStatus(c); return v.ToString() }},
	{"bds/bds05/fields.Time", func(c int) string { v := bds_bds05_fields.Time(c); return v.ToString() }},
	{"bds/bds06/fields.CompactPositionReportingFormat", func(c int) string { v := bds_bds06_fields.CompactPositionReportingFormat(c); return v.ToString() }},
	{"bds/bds06/fields.EncodedLatitude", func(c int) string { v := bds_bds06_fields.EncodedLatitude(c); return v.ToString() }},
	{"bds/bds06/fields.EncodedLongitude", func(c int) string { v := bds_bds06_fields.EncodedLongitude(c); return v.ToString() }},
	{"bds/bds06/fields.MovementStatus", func(c int) string { v := bds_bds06_fields.MovementStatus(c); return v.ToString() }},
	{"bds/bds06/fields.Time", func(c int) string { v := bds_bds06_fields.Time(c); return v.ToString() }},
	{"bds/bds07/fields.AltitudeTypeSubfield", func(c int) string { v := bds_bds07_fields.AltitudeTypeSubfield(c); return v.ToString() }},
	{"bds/bds07/fields.TransmissionRateSubfield", func(c int) string { v := bds_bds07_fields.TransmissionRateSubfield(c); return v.ToString() }},
	{"bds/bds08/fields.AircraftCategorySetA", func(c int) string { v := bds_bds08_fields.AircraftCategorySetA(c); return v.ToString() }},
	{"bds/bds08/fields.AircraftCategorySetB", func(c int) string { v := bds_bds08_fields.AircraftCategorySetB(c); return v.ToString() }},
	{"bds/bds08/fields.AircraftCategorySetC", func(c int) string { v := bds_bds08_fields.AircraftCategorySetC(c); return v.ToString() }},
	{"bds/bds08/fields.AircraftCategorySetD", func(c int) string { v := bds_bds08_fields.AircraftCategorySetD(c); return v.ToString() }},
	{"bds/bds09/fields.DirectionEastWest", func(c int) string { v := bds_bds09_fields.DirectionEastWest(c); return v.ToString() }},
	{"bds/bds09/fields.DirectionNorthSouth", func(c int) string { v := bds_bds09_fields.DirectionNorthSouth(c); return v.ToString() }},
	{"bds/bds09/fields.IFRCapability", func(c int) string { v := bds_bds09_fields.IFRCapability(c); return v.ToString() }},
	{"bds/bds09/fields.IntentChange", func(c int) string { v := bds_bds09_fields.IntentChange(c); return v.ToString() }},
	{"bds/bds09/fields.MagneticHeadingStatus", func(c int) string { v := bds_bds09_fields.MagneticHeadingStatus(c); return v.ToString() }},
	{"bds/bds09/fields.NavigationUncertaintyCategory", func(c int) string { v := bds_bds09_fields.NavigationUncertaintyCategory(c); return v.ToString() }},
	{"bds/bds09/fields.NumericValueStatus", func(c int) string { v := bds_bds09_fields.NumericValueStatus(c); return v.ToString() }},
	{"bds/bds09/fields.Subtype", func(c int) string { v := bds_bds09_fields.Subtype(c); return v.ToString() }},
	{"bds/bds09/fields.VerticalRateSource", func(c int) string { v := bds_bds09_fields.VerticalRateSource(c); return v.ToString() }},
	{"bds/bds10/fields.ACASApplicableDocument", func(c int) string { v := bds_bds10_fields.ACASApplicableDocument(c); return v.ToString() }},
	{"bds/bds10/fields.ACASGenerationCapability", func(c int) string { v := bds_bds10_fields.ACASGenerationCapability(c); return v.ToString() }},
	{"bds/bds10/fields.ACASHybridSurveillanceCapability", func(c int) string { v := bds_bds10_fields.ACASHybridSurveillanceCapability(c); return v.ToString() }},
	{"bds/bds10/fields.ACASStatus", func(c int) string { v := bds_bds10_fields.ACASStatus(c); return v.ToString() }},
	{"bds/bds10/fields.AircraftIdentificationCapability", func(c int) string { v := bds_bds10_fields.AircraftIdentificationCapability(c); return v.ToString() }},
	{"bds/bds10/fields.CommonUsageGICBCapability", func(c int) string { v := bds_bds10_fields.CommonUsageGICBCapability(c); return v.ToString() }},
	{"bds/bds10/fields.ContinuationFlag", func(c int) string { v := bds_bds10_fields.ContinuationFlag(c); return v.ToString() }},
	{"bds/bds10/fields.DTESubAddressStatuses", func(c int) string { v := bds_bds10_fields.DTESubAddressStatuses(c); return v.ToString() }},
	{"bds/bds10/fields.DownlinkELMThroughputCapability", func(c int) string { v := bds_bds10_fields.DownlinkELMThroughputCapability(c); return v.ToString() }},
	{"bds/bds10/fields.ModeSSpecificServicesCapability", func(c int) string { v := bds_bds10_fields.ModeSSpecificServicesCapability(c); return v.ToString() }},
	{"bds/bds10/fields.ModeSSubnetworkVersion", func(c int) string { v := bds_bds10_fields.ModeSSubnetworkVersion(c); return v.ToString() }},
	{"bds/bds10/fields.OverlayCommandCapability", func(c int) string { v := bds_bds10_fields.OverlayCommandCapability(c); return v.ToString() }},
	{"bds/bds10/fields.SquitterCapabilitySubfield", func(c int) string { v := bds_bds10_fields.SquitterCapabilitySubfield(c); return v.ToString() }},
	{"bds/bds10/fields.SurveillanceIdentifierCode", func(c int) string { v := bds_bds10_fields.SurveillanceIdentifierCode(c); return v.ToString() }},
	{"bds/bds10/fields.TransponderEnhancedProtocolIndicator", func(c int) string { v := bds_bds10_fields.TransponderEnhancedProtocolIndicator(c); return v.ToString() }},
	{"bds/bds10/fields.UplinkELMThroughputCapability", func(c int) string { v := bds_bds10_fields.UplinkELMThroughputCapability(c); return v.ToString() }},
	{"bds/bds40/fields.StatusOfModeBits", func(c int) string { v := bds_bds40_fields.StatusOfModeBits(c); return v.ToString() }},
	{"bds/bds40/fields.StatusOfTargetAltitudeSource", func(c int) string { v := bds_bds40_fields.StatusOfTargetAltitudeSource(c); return v.ToString() }},
	{"bds/bds40/fields.TargetAltitudeSource", func(c int) string { v := bds_bds40_fields.TargetAltitudeSource(c); return v.ToString() }},
	{"bds/bds44/fields.Source", func(c int) string { v := bds_bds44_fields.Source(c); return v.ToString() }},
	{"bds/bds44/fields.TurbulenceFlag", func(c int) string { v := bds_bds44_fields.TurbulenceFlag(c); return v.ToString() }},
	{"bds/bds44/fields.TurbulenceLevel", func(c int) string { v := bds_bds44_fields.TurbulenceLevel(c); return v.ToString() }},
	{"bds/bds45/fields.HazardLevel", func(c int) string { v := bds_bds45_fields.HazardLevel(c); return v.ToString() }},
	{"bds/bds61/fields.EmergencyPriorityStatus", func(c int) string { v := bds_bds61_fields.EmergencyPriorityStatus(c); return v.ToString() }},
	{"bds/bds61/fields.Subtype", func(c int) string { v := bds_bds61_fields.Subtype(c); return v.ToString() }},
	{"bds/bds62/fields.CapabilityModeCode", func(c int) string { v := bds_bds62_fields.CapabilityModeCode(c); return v.ToString() }},
	{"bds/bds62/fields.EmergencyPriorityStatus", func(c int) string { v := bds_bds62_fields.EmergencyPriorityStatus(c); return v.ToString() }},
	{"bds/bds62/fields.HorizontalDataAvailableSourceIndicator", func(c int) string {
		v := bds_bds62_fields.HorizontalDataAvailableSourceIndicator(c)
		return v.ToString()
	}},
	{"bds/bds62/fields.HorizontalModeIndicator", func(c int) string { v := bds_bds62_fields.HorizontalModeIndicator(c); return v.ToString() }},
	{"bds/bds62/fields.NICBaro", func(c int) string { v := bds_bds62_fields.NICBaro(c); return v.ToString() }},
	{"bds/bds62/fields.NavigationalAccuracyCategoryPositionV1", func(c int) string {
		v := bds_bds62_fields.NavigationalAccuracyCategoryPositionV1(c)
		return v.ToString()
	}},
	{"bds/bds62/fields.NavigationalAccuracyCategoryPositionV2", func(c int) string {
		v := bds_bds62_fields.NavigationalAccuracyCategoryPositionV2(c)
		return v.ToString()
	}},
	{"bds/bds62/fields.NumericValueStatus", func(c int) string { v := bds_bds62_fields.NumericValueStatus(c); return v.ToString() }},
	{"bds/bds62/fields.SelectedAltitudeType", func(c int) string { v := bds_bds62_fields.SelectedAltitudeType(c); return v.ToString() }},
	{"bds/bds62/fields.SelectedHeadingStatus", func(c int) string { v := bds_bds62_fields.SelectedHeadingStatus(c); return v.ToString() }},
	{"bds/bds62/fields.SourceIntegrityLevel", func(c int) string { v := bds_bds62_fields.SourceIntegrityLevel(c); return v.ToString() }},
	{"bds/bds62/fields.SourceIntegrityLevelSupplement", func(c int) string { v := bds_bds62_fields.SourceIntegrityLevelSupplement(c); return v.ToString() }},
	{"bds/bds62/fields.StatusMCPFCUBits", func(c int) string { v := bds_bds62_fields.StatusMCPFCUBits(c); return v.ToString() }},
	{"bds/bds62/fields.Subtype", func(c int) string { v := bds_bds62_fields.Subtype(c); return v.ToString() }},
	{"bds/bds62/fields.SurveillanceIntegrityLevel", func(c int) string { v := bds_bds62_fields.SurveillanceIntegrityLevel(c); return v.ToString() }},
	{"bds/bds62/fields.TargetAltitudeCapability", func(c int) string { v := bds_bds62_fields.TargetAltitudeCapability(c); return v.ToString() }},
	{"bds/bds62/fields.TargetAltitudeType", func(c int) string { v := bds_bds62_fields.TargetAltitudeType(c); return v.ToString() }},
	{"bds/bds62/fields.TargetHeadingTrackIndicator", func(c int) string { v := bds_bds62_fields.TargetHeadingTrackIndicator(c); return v.ToString() }},
	{"bds/bds62/fields.VerticalDataAvailableSourceIndicator", func(c int) string { v := bds_bds62_fields.VerticalDataAvailableSourceIndicator(c); return v.ToString() }},
	{"bds/bds62/fields.VerticalModeIndicator", func(c int) string { v := bds_bds62_fields.VerticalModeIndicator(c); return v.ToString() }},
	{"bds/bds65/fields.ACASOperational", func(c int) string { v := bds_bds65_fields.ACASOperational(c); return v.ToString() }},
	{"bds/bds65/fields.ACASResolutionAdvisoryActiveV1", func(c int) string { v := bds_bds65_fields.ACASResolutionAdvisoryActiveV1(c); return v.ToString() }},
	{"bds/bds65/fields.ACASResolutionAdvisoryActiveV2", func(c int) string { v := bds_bds65_fields.ACASResolutionAdvisoryActiveV2(c); return v.ToString() }},
	{"bds/bds65/fields.AirReferencedVelocityReportCapability", func(c int) string {
		v := bds_bds65_fields.AirReferencedVelocityReportCapability(c)
		return v.ToString()
	}},
	{"bds/bds65/fields.ApproachLandingOperationalCapabilities", func(c int) string {
		v := bds_bds65_fields.ApproachLandingOperationalCapabilities(c)
		return v.ToString()
	}},
	{"bds/bds65/fields.ApproachLandingOperationalCapabilityStatus", func(c int) string {
		v := bds_bds65_fields.ApproachLandingOperationalCapabilityStatus(c)
		return v.ToString()
	}},
	{"bds/bds65/fields.B2Low", func(c int) string { v := bds_bds65_fields.B2Low(c); return v.ToString() }},
	{"bds/bds65/fields.CockpitDisplayOfTrafficInformationStatus", func(c int) string {
		v := bds_bds65_fields.CockpitDisplayOfTrafficInformationStatus(c)
		return v.ToString()
	}},
	{"bds/bds65/fields.EnRouteOperationalCapabilities", func(c int) string { v := bds_bds65_fields.EnRouteOperationalCapabilities(c); return v.ToString() }},
	{"bds/bds65/fields.EnRouteOperationalCapabilityStatus", func(c int) string { v := bds_bds65_fields.EnRouteOperationalCapabilityStatus(c); return v.ToString() }},
	{"bds/bds65/fields.ExtendedSquitterIn", func(c int) string { v := bds_bds65_fields.ExtendedSquitterIn(c); return v.ToString() }},
	{"bds/bds65/fields.GPSAntennaLateral", func(c int) string { v := bds_bds65_fields.GPSAntennaLateral(c); return v.ToString() }},
	{"bds/bds65/fields.GPSAntennaLongitudinal", func(c int) string { v := bds_bds65_fields.GPSAntennaLongitudinal(c); return v.ToString() }},
	{"bds/bds65/fields.GeometricVerticalAccuracy", func(c int) string { v := bds_bds65_fields.GeometricVerticalAccuracy(c); return v.ToString() }},
	{"bds/bds65/fields.HorizontalReferenceDirection", func(c int) string { v := bds_bds65_fields.HorizontalReferenceDirection(c); return v.ToString() }},
	{"bds/bds65/fields.IdentSwitchActive", func(c int) string { v := bds_bds65_fields.IdentSwitchActive(c); return v.ToString() }},
	{"bds/bds65/fields.LengthWidth", func(c int) string { v := bds_bds65_fields.LengthWidth(c); return v.ToString() }},
	{"bds/bds65/fields.NICBaro", func(c int) string { v := bds_bds65_fields.NICBaro(c); return v.ToString() }},
	{"bds/bds65/fields.NICSupplementA", func(c int) string { v := bds_bds65_fields.NICSupplementA(c); return v.ToString() }},
	{"bds/bds65/fields.NICSupplementC", func(c int) string { v := bds_bds65_fields.NICSupplementC(c); return v.ToString() }},
	{"bds/bds65/fields.NavigationAccuracyCategoryVelocity", func(c int) string { v := bds_bds65_fields.NavigationAccuracyCategoryVelocity(c); return v.ToString() }},
	{"bds/bds65/fields.NavigationalAccuracyCategoryPositionV1", func(c int) string {
		v := bds_bds65_fields.NavigationalAccuracyCategoryPositionV1(c)
		return v.ToString()
	}},
	{"bds/bds65/fields.NavigationalAccuracyCategoryPositionV2", func(c int) string {
		v := bds_bds65_fields.NavigationalAccuracyCategoryPositionV2(c)
		return v.ToString()
	}},
	{"bds/bds65/fields.NotACASStatus", func(c int) string { v := bds_bds65_fields.NotACASStatus(c); return v.ToString() }},
	{"bds/bds65/fields.PositionOffsetApplied", func(c int) string { v := bds_bds65_fields.PositionOffsetApplied(c); return v.ToString() }},
	{"bds/bds65/fields.ReceivingATCServices", func(c int) string { v := bds_bds65_fields.ReceivingATCServices(c); return v.ToString() }},
	{"bds/bds65/fields.SingleAntennaFlag", func(c int) string { v := bds_bds65_fields.SingleAntennaFlag(c); return v.ToString() }},
	{"bds/bds65/fields.SourceIntegrityLevel", func(c int) string { v := bds_bds65_fields.SourceIntegrityLevel(c); return v.ToString() }},
	{"bds/bds65/fields.SourceIntegrityLevelSupplement", func(c int) string { v := bds_bds65_fields.SourceIntegrityLevelSupplement(c); return v.ToString() }},
	{"bds/bds65/fields.Subtype", func(c int) string { v := bds_bds65_fields.Subtype(c); return v.ToString() }},
	{"bds/bds65/fields.SurfaceOperationalCapabilities", func(c int) string { v := bds_bds65_fields.SurfaceOperationalCapabilities(c); return v.ToString() }},
	{"bds/bds65/fields.SurfaceOperationalCapabilityStatus", func(c int) string { v := bds_bds65_fields.SurfaceOperationalCapabilityStatus(c); return v.ToString() }},
	{"bds/bds65/fields.SurveillanceIntegrityLevel", func(c int) string { v := bds_bds65_fields.SurveillanceIntegrityLevel(c); return v.ToString() }},
	{"bds/bds65/fields.SystemDesignAssurance", func(c int) string { v := bds_bds65_fields.SystemDesignAssurance(c); return v.ToString() }},
	{"bds/bds65/fields.TargetChangeReportCapability", func(c int) string { v := bds_bds65_fields.TargetChangeReportCapability(c); return v.ToString() }},
	{"bds/bds65/fields.TargetStateReportCapability", func(c int) string { v := bds_bds65_fields.TargetStateReportCapability(c); return v.ToString() }},
	{"bds/bds65/fields.TerminalAreaOperationalCapabilities", func(c int) string { v := bds_bds65_fields.TerminalAreaOperationalCapabilities(c); return v.ToString() }},
	{"bds/bds65/fields.TerminalAreaOperationalCapabilityStatus", func(c int) string {
		v := bds_bds65_fields.TerminalAreaOperationalCapabilityStatus(c)
		return v.ToString()
	}},
	{"bds/bds65/fields.TrackAngleHeading", func(c int) string { v := bds_bds65_fields.TrackAngleHeading(c); return v.ToString() }},
	{"bds/bds65/fields.UniversalAccessTransceiverCapability", func(c int) string { v := bds_bds65_fields.UniversalAccessTransceiverCapability(c); return v.ToString() }},
	{"bds/bds65/fields.VersionNumber", func(c int) string { v := bds_bds65_fields.VersionNumber(c); return v.ToString() }},
	{"modes/common.ICAOAddress", func(c int) string { v := modes_common.ICAOAddress(c); return v.ToString() }},
	{"modes/fields.AltitudeReportMethod", func(c int) string { v := modes_fields.AltitudeReportMethod(c); return v.ToString() }},
	{"modes/fields.ApplicationField", func(c int) string { v := modes_fields.ApplicationField(c); return v.ToString() }},
	{"modes/fields.Capability", func(c int) string { v := modes_fields.Capability(c); return v.ToString() }},
	{"modes/fields.ControlELM", func(c int) string { v := modes_fields.ControlELM(c); return v.ToString() }},
	{"modes/fields.ControlField", func(c int) string { v := modes_fields.ControlField(c); return v.ToString() }},
	{"modes/fields.CrossLinkCompatibility", func(c int) string { v := modes_fields.CrossLinkCompatibility(c); return v.ToString() }},
	{"modes/fields.DownlinkRequest", func(c int) string { v := modes_fields.DownlinkRequest(c); return v.ToString() }},
	{"modes/fields.FlightStatus", func(c int) string { v := modes_fields.FlightStatus(c); return v.ToString() }},
	{"modes/fields.NumberOfDSegment", func(c int) string { v := modes_fields.NumberOfDSegment(c); return v.ToString() }},
	{"modes/fields.ReplyInformationAirAir", func(c int) string { v := modes_fields.ReplyInformationAirAir(c); return v.ToString() }},
	{"modes/fields.SensitivityLevelReport", func(c int) string { v := modes_fields.SensitivityLevelReport(c); return v.ToString() }},
	{"modes/fields.UtilityMessageIdentifierDesignator", func(c int) string { v := modes_fields.UtilityMessageIdentifierDesignator(c); return v.ToString() }},
	{"modes/fields.VerticalStatus", func(c int) string { v := modes_fields.VerticalStatus(c); return v.ToString() }},
}
