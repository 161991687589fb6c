package props

// A reportLine is a line of a report: its text, where each \x00 stands for a decoded value.
type reportLine struct {
	text  string
	paths []string
}

var reports = map[string][]reportLine{
	"acas/ra/fields.ActiveRAMultipleThreatsDifferentSeparation": {
		{"Type: Multiple threats with separation in different directions", nil},
		{"Require a correction in the upward sense: \x00", []string{"RequiresCorrectionUpwardSense"}},
		{"Requires a positive climb: \x00", []string{"RequiresPositiveClimb"}},
		{"Requires a correction in the downward sense: \x00", []string{"RequiresCorrectionDownwardSense"}},
		{"Requires a positive descend: \x00", []string{"RequiresPositiveDescend"}},
		{"Requires a crossing: \x00", []string{"RequiresCrossing"}},
		{"Is a sense reversal: \x00", []string{"IsSenseReversal"}},
	},
	"acas/ra/fields.ActiveRANoVerticalRAGenerated": {
		{"Type: no Resolution Advisory has been generated", nil},
	},
	"acas/ra/fields.ActiveRAOneThreatOrSameSeparation": {
		{"Type: One threat or multiple threats with separation in same direction", nil},
		{"Preventive/Corrective: \x00", []string{"PreventiveCorrective"}},
		{"Sense generated: \x00", []string{"Sense"}},
		{"Is increased rate: \x00", []string{"IsIncreasedRate"}},
		{"Is sense reversal: \x00", []string{"IsSenseReversal"}},
		{"Is altitude crossing: \x00", []string{"IsAltitudeCrossing"}},
		{"Vertical Speed Limit/Positive: \x00", []string{"VerticalSpeedLimitOrPositive"}},
	},
	"acas/ra/fields.RAComplement": {
		{"Do not pass below: \x00", []string{"DoNotPassBelow"}},
		{"Do not pass above: \x00", []string{"DoNotPassAbove"}},
		{"Do not turn left: \x00", []string{"DoNotTurnLeft"}},
		{"Do not turn right: \x00", []string{"DoNotTurnRight"}},
	},
	"acas/ra/fields.ThreatIdentityAltitude": {
		{"\x00 ft / Status: \x00", []string{"AltitudeInFeet", "AltitudeStatus"}},
	},
	"adsb/airborne_position.AirbornePositionType0": {
		{"\x00", []string{"AirbornePosition"}},
		{"Navigation Integrity Category: \x00", []string{"NavigationIntegrityCategory"}},
	},
	"adsb/airborne_position.AirbornePositionV0": {
		{"\x00", []string{"AirbornePosition"}},
		{"Horizontal Protection Limit: \x00", []string{"HorizontalProtectionLimit"}},
		{"Containment Radius: \x00", []string{"ContainmentRadius"}},
	},
	"adsb/airborne_position.AirbornePositionV1": {
		{"\x00", []string{"AirbornePosition"}},
		{"Navigation Integrity Code A: \x00", []string{"NavigationIntegrityCodeSupplementA"}},
		{"Horizontal Containment Radius: \x00", []string{"HorizontalContainmentRadius"}},
		{"Navigation Integrity Category: \x00", []string{"NavigationIntegrityCategory"}},
	},
	"adsb/airborne_position.AirbornePositionV2": {
		{"\x00", []string{"AirbornePosition"}},
		{"Navigation Integrity Code A: \x00", []string{"NavigationIntegrityCodeSupplementA"}},
		{"Navigation Integrity Code B: \x00", []string{"NavigationIntegrityCodeSupplementB"}},
		{"Horizontal Containment Radius: \x00", []string{"HorizontalContainmentRadius"}},
		{"Navigation Integrity Category: \x00", []string{"NavigationIntegrityCategory"}},
	},
	"adsb/airborne_velocity.AirborneVelocity": {
		{"\x00", []string{"AirborneVelocity"}},
	},
	"adsb/aircraft_identification_and_category.AircraftIdentificationAndCategory": {
		{"\x00", []string{"AircraftIdentificationAndCategory"}},
	},
	"adsb/aircraft_operational_status.AircraftOperationalStatus": {
		{"\x00", []string{"AircraftOperationalStatus"}},
	},
	"adsb/aircraft_status.AircraftStatus": {
		{"\x00", []string{"AircraftStatus"}},
	},
	"adsb/no_position_information.NoPositionInformation": {
		{"Message: No Position Information", nil},
		{"Format Type Code: \x00", []string{"FormatTypeCode"}},
		{"Altitude Report Method: \x00", []string{"AltitudeReportMethod"}},
		{"Altitude Baro (feet): \x00", []string{"AltitudeBarometric"}},
		{"Navigation Integrity Category: \x00", []string{"NavigationIntegrityCategory"}},
	},
	"adsb/surface_position.SurfacePositionV0": {
		{"\x00", []string{"SurfacePosition"}},
		{"Horizontal Protection Limit: \x00", []string{"HorizontalProtectionLimit"}},
		{"Containment Radius: \x00", []string{"ContainmentRadius"}},
	},
	"adsb/surface_position.SurfacePositionV1": {
		{"\x00", []string{"SurfacePosition"}},
		{"Navigation Integrity Code A: \x00", []string{"@A"}},
		{"Horizontal Containment Limit: \x00", []string{"HorizontalContainmentRadius"}},
		{"Navigation Integrity Category: \x00", []string{"NavigationIntegrityCategory"}},
	},
	"adsb/surface_position.SurfacePositionV2": {
		{"\x00", []string{"SurfacePosition"}},
		{"Navigation Integrity Code A: \x00", []string{"@A"}},
		{"Navigation Integrity Code C: \x00", []string{"@C"}},
		{"Horizontal Containment Limit: \x00", []string{"HorizontalContainmentRadius"}},
		{"Navigation Integrity Category: \x00", []string{"NavigationIntegrityCategory"}},
	},
	"adsb/target_state_and_status.TargetStateAndStatus": {
		{"\x00", []string{"TargetStateAndStatus"}},
	},
	"bds/bds00.NoMessageAvailable": {
		{"Message: \x00", []string{"GetRegister()"}},
	},
	"bds/bds05.AirbornePosition": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Format Type Code: \x00", []string{"FormatTypeCode"}},
		{"Surveillance Status: \x00", []string{"SurveillanceStatus"}},
		{"Single Antenna Flag: \x00", []string{"SingleAntennaFlag"}},
		{"Altitude Source: \x00", []string{"AltitudeSource"}},
		{"Altitude Report Method: \x00", []string{"AltitudeReportMethod"}},
		{"Altitude (feet): \x00", []string{"AltitudeInFeet"}},
		{"Time: \x00", []string{"Time"}},
		{"Compact Position Reporting Format: \x00", []string{"CPRFormat"}},
		{"Encoded Latitude: \x00", []string{"EncodedLatitude"}},
		{"Encoded Longitude: \x00", []string{"EncodedLongitude"}},
	},
	"bds/bds06.SurfacePosition": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Format Type Code: \x00", []string{"FormatTypeCode"}},
		{"Movement Status: \x00", []string{"MovementStatus"}},
		{"Movement Speed (knots): \x00", []string{"MovementSpeed"}},
		{"Ground Track Status: \x00", []string{"GroundTrackStatus"}},
		{"Ground Track (degrees): \x00", []string{"GroundTrack"}},
		{"Time: \x00", []string{"Time"}},
		{"Compact Position Reporting Format: \x00", []string{"CPRFormat"}},
		{"Encoded Latitude: \x00", []string{"EncodedLatitude"}},
		{"Encoded Longitude: \x00", []string{"EncodedLongitude"}},
	},
	"bds/bds07.Status": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Transmission Rate Subfield: \x00", []string{"TransmissionRateSubfield"}},
		{"Altitude Type Subfield \x00", []string{"AltitudeTypeSubfield"}},
	},
	"bds/bds08.AircraftIdentificationAndCategory": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Format Type Code: \x00", []string{"FormatTypeCode"}},
		{"Category: \x00", []string{"Category"}},
		{"Identification: \x00", []string{"Identification"}},
	},
	"bds/bds09.AirborneVelocityAirSpeedNormal": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"Intent Change: \x00", []string{"IntentChange"}},
		{"IFR Capability: \x00", []string{"IFRCapability"}},
		{"Navigation Uncertainty Category: \x00", []string{"NavigationUncertaintyCategory"}},
		{"Magnetic Heading Status: \x00", []string{"MagneticHeadingStatus"}},
		{"Magnetic Heading (degrees): \x00", []string{"MagneticHeading"}},
		{"Air Speed Status: \x00", []string{"AirspeedStatus"}},
		{"Air Speed (knots): \x00", []string{"Airspeed"}},
		{"Vertical Rate Source: \x00", []string{"VerticalRateSource"}},
		{"Vertical Rate Status: \x00", []string{"VerticalRateStatus"}},
		{"Vertical Rate (ft/min): \x00", []string{"VerticalRate"}},
		{"Geom. Height Diff. From Baro Status: \x00", []string{"HeightDifferenceFromBaroStatus"}},
		{"Geom. Height Diff. From Baro (ft): \x00", []string{"HeightDifferenceFromBaro"}},
	},
	"bds/bds09.AirborneVelocityAirSpeedSupersonic": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"Intent Change: \x00", []string{"IntentChange"}},
		{"IFR Capability: \x00", []string{"IFRCapability"}},
		{"Navigation Uncertainty Category: \x00", []string{"NavigationUncertaintyCategory"}},
		{"Magnetic Heading Status: \x00", []string{"MagneticHeadingStatus"}},
		{"Magnetic Heading (degrees): \x00", []string{"MagneticHeading"}},
		{"Air Speed Status: \x00", []string{"AirspeedStatus"}},
		{"Air Speed (knots): \x00", []string{"Airspeed"}},
		{"Vertical Rate Source: \x00", []string{"VerticalRateSource"}},
		{"Vertical Rate Status: \x00", []string{"VerticalRateStatus"}},
		{"Vertical Rate (ft/min): \x00", []string{"VerticalRate"}},
		{"Geom. Height Diff. From Baro Status: \x00", []string{"HeightDifferenceFromBaroStatus"}},
		{"Geom. Height Diff. From Baro (ft): \x00", []string{"HeightDifferenceFromBaro"}},
	},
	"bds/bds09.AirborneVelocityGroundSpeedNormal": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"Intent Change: \x00", []string{"IntentChange"}},
		{"IFR Capability: \x00", []string{"IFRCapability"}},
		{"Navigation Uncertainty Category: \x00", []string{"NavigationUncertaintyCategory"}},
		{"Direction EW: \x00", []string{"DirectionEastWest"}},
		{"Velocity EW Status: \x00", []string{"VelocityEWStatus"}},
		{"Velocity EW (knots): \x00", []string{"VelocityEW"}},
		{"Direction NS: \x00", []string{"DirectionNorthSouth"}},
		{"Velocity NS Status: \x00", []string{"VelocityNSStatus"}},
		{"Velocity NS (knots): \x00", []string{"VelocityNS"}},
		{"Vertical Rate Source: \x00", []string{"VerticalRateSource"}},
		{"Vertical Rate Status: \x00", []string{"VerticalRateStatus"}},
		{"Vertical Rate (ft/min): \x00", []string{"VerticalRate"}},
		{"Difference Alt. GNSS Baro Status: \x00", []string{"DifferenceAltitudeGNSSBaroStatus"}},
		{"Difference Alt. GNSS Baro (ft): \x00", []string{"DifferenceAltitudeGNSSBaro"}},
		{"Computed Speed: \x00", []string{"@speed"}},
		{"Computed Track: \x00", []string{"@track"}},
	},
	"bds/bds09.AirborneVelocityGroundSpeedSupersonic": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"Intent Change: \x00", []string{"IntentChange"}},
		{"IFR Capability: \x00", []string{"IFRCapability"}},
		{"Navigation Uncertainty Category: \x00", []string{"NavigationUncertaintyCategory"}},
		{"Direction EW: \x00", []string{"DirectionEastWest"}},
		{"Velocity EW Status: \x00", []string{"VelocityEWStatus"}},
		{"Velocity EW (knots): \x00", []string{"VelocityEW"}},
		{"Direction NS: \x00", []string{"DirectionNorthSouth"}},
		{"Velocity NS Status: \x00", []string{"VelocityNSStatus"}},
		{"Velocity NS (knots): \x00", []string{"VelocityNS"}},
		{"Vertical Rate Source: \x00", []string{"VerticalRateSource"}},
		{"Vertical Rate Status: \x00", []string{"VerticalRateStatus"}},
		{"Vertical Rate (ft/min): \x00", []string{"VerticalRate"}},
		{"Difference Alt. GNSS Baro Status: \x00", []string{"DifferenceAltitudeGNSSBaroStatus"}},
		{"Difference Alt. GNSS Baro (ft): \x00", []string{"DifferenceAltitudeGNSSBaro"}},
		{"Computed Speed: \x00", []string{"@speed"}},
		{"Computed Track: \x00", []string{"@track"}},
	},
	"bds/bds10.DataLinkCapabilityReport": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Continuation Flag: \x00", []string{"ContinuationFlag"}},
		{"Overlay Command Capability: \x00", []string{"OverlayCommandCapability"}},
		{"ACAS Status \x00", []string{"ACASStatus"}},
		{"ModeS Subnetwork Version \x00", []string{"ModeSSubnetworkVersion"}},
		{"Transponder Enhanced Protocol Indicator \x00", []string{"TransponderEnhancedProtocolIndicator"}},
		{"ModeS Specific Services Capability \x00", []string{"ModeSSpecificServicesCapability"}},
		{"Uplink ELM Throughput Capability \x00", []string{"UplinkELMThroughputCapability"}},
		{"Downlink ELM Throughput Capability \x00", []string{"DownlinkELMThroughputCapability"}},
		{"Aircraft Identification Capability \x00", []string{"AircraftIdentificationCapability"}},
		{"Squitter Capability Subfield \x00", []string{"SquitterCapabilitySubfield"}},
		{"Surveillance Identifier Code \x00", []string{"SurveillanceIdentifierCode"}},
		{"Common Usage GICB Capability \x00", []string{"CommonUsageGICBCapability"}},
		{"ACAS Hybrid Surveillance Capability \x00", []string{"ACASHybridSurveillanceCapability"}},
		{"ACAS Generation Capability \x00", []string{"ACASGenerationCapability"}},
		{"ACAS Applicable Document \x00", []string{"ACASApplicableDocument"}},
		{"DTE SubAddress Statuses \x00", []string{"DTESubAddressStatuses"}},
	},
	"bds/bds17.CommonUsageGICBCapabilityReport": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"0,5 Extended squitter airborne position: \x00", []string{"ExtendedSquitterAirbornePosition"}},
		{"0,6 Extended squitter surface position: \x00", []string{"ExtendedSquitterSurfacePosition"}},
		{"0,7 Extended squitter status: \x00", []string{"ExtendedSquitterStatus"}},
		{"0,8 Extended squitter identification and category: \x00", []string{"ExtendedSquitterIdentificationAndCategory"}},
		{"0,9 Extended squitter airborne velocity information: \x00", []string{"ExtendedSquitterAirborneVelocityInformation"}},
		{"0,A Extended squitter event-driven information: \x00", []string{"ExtendedSquitterEventDrivenInformation"}},
		{"2,0 Aircraft identification: \x00", []string{"AircraftIdentification"}},
		{"2,l Aircraft registration number: \x00", []string{"AircraftRegistrationNumber"}},
		{"4,0 Selected vertical intention: \x00", []string{"SelectedVerticalIntention"}},
		{"4,l Next waypoint identifier: \x00", []string{"NextWaypointIdentifier"}},
		{"4,2 Next waypoint position: \x00", []string{"NextWaypointPosition"}},
		{"4,3 Next waypoint information: \x00", []string{"NextWaypointInformation"}},
		{"4,4 Meteorological routine report: \x00", []string{"MeteorologicalRoutineReport"}},
		{"4,5 Meteorological hazard report: \x00", []string{"MeteorologicalHazardReport"}},
		{"4.8 VHF channel report: \x00", []string{"VHFChannelReport"}},
		{"5,0 Track and turn report: \x00", []string{"TrackAndTurnReport"}},
		{"5,1 Position coarse: \x00", []string{"PositionCoarse"}},
		{"5,2 Position fine: \x00", []string{"PositionFine"}},
		{"5,3 Air-referenced state vector: \x00", []string{"AirReferencedStateVector"}},
		{"5,4 Waypoint 1: \x00", []string{"Waypoint1"}},
		{"5,5 Waypoint 2: \x00", []string{"Waypoint2"}},
		{"5,6 Waypoint 3: \x00", []string{"Waypoint3"}},
		{"5,F Quasi-static parameter monitoring: \x00", []string{"QuasiStaticParameterMonitoring"}},
		{"6,0 Heading and speed report: \x00", []string{"HeadingAndSpeedReport"}},
		{"F,1 Military applications: \x00", []string{"MilitaryApplications"}},
	},
	"bds/bds20.AircraftIdentification": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Identification: \x00", []string{"Identification"}},
	},
	"bds/bds30.ACASResolutionAdvisory": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"ACAS Data:", nil},
		{"\x00", []string{"ResolutionAdvisory"}},
	},
	"bds/bds40.SelectedVerticalIntention": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"MCP/FCU Selected Altitude Available: \x00", []string{"MCPFCUSelectedAltitudeAvailable"}},
		{"MCP/FCU Selected Altitude: \x00", []string{"MCPFCUSelectedAltitude"}},
		{"FMS Selected Altitude Available: \x00", []string{"FMSSelectedAltitudeAvailable"}},
		{"FMS Selected Altitude: \x00", []string{"FMSSelectedAltitude"}},
		{"Barometric Pressure Setting Available: \x00", []string{"BarometricPressureSettingAvailable"}},
		{"Barometric Pressure Setting: \x00", []string{"BarometricPressureSetting"}},
		{"Status Of Mode Bits: \x00", []string{"StatusOfModeBits"}},
		{"VNAV Mode: \x00", []string{"VNAVMode"}},
		{"Altitude Hold Mode: \x00", []string{"AltitudeHoldMode"}},
		{"Approach Mode: \x00", []string{"ApproachMode"}},
		{"Status Of Target Altitude Source: \x00", []string{"StatusOfTargetAltitudeSource"}},
		{"Target Altitude Source: \x00", []string{"TargetAltitudeSource"}},
	},
	"bds/bds44.MeteorologicalRoutineAirReportV0": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Source: \x00", []string{"Source"}},
		{"Wind Speed Status: \x00", []string{"WindSpeedStatus"}},
		{"Wind Speed (knot): \x00", []string{"WindSpeed"}},
		{"Wind Direction Status: \x00", []string{"WindDirectionStatus"}},
		{"Wind Direction (degrees): \x00", []string{"WindDirection"}},
		{"Static Air Temperature (degrees C): \x00", []string{"StaticAirTemperature"}},
		{"Average Static Pressure Status: \x00", []string{"AverageStaticPressureStatus"}},
		{"Average Static Pressure (hPa): \x00", []string{"AverageStaticPressure"}},
		{"Turbulence Status: \x00", []string{"TurbulenceStatus"}},
		{"Turbulence: \x00", []string{"Turbulence"}},
		{"Humidity Status: \x00", []string{"HumidityStatus"}},
		{"Humidity (%): \x00", []string{"Humidity"}},
	},
	"bds/bds44.MeteorologicalRoutineAirReportV1": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Wind Speed Status: \x00", []string{"WindSpeedStatus"}},
		{"Wind Speed (knot): \x00", []string{"WindSpeed"}},
		{"Wind Direction Status: \x00", []string{"WindDirectionStatus"}},
		{"Wind Direction (degrees): \x00", []string{"WindDirection"}},
		{"Static Air Temperature Status: \x00", []string{"StaticAirTemperatureStatus"}},
		{"Static Air Temperature (degrees C): \x00", []string{"StaticAirTemperature"}},
		{"Average Static Pressure Status: \x00", []string{"AverageStaticPressureStatus"}},
		{"Average Static Pressure (hPa): \x00", []string{"AverageStaticPressure"}},
		{"Turbulence Flag: \x00", []string{"TurbulenceFlag"}},
		{"Humidity Status: \x00", []string{"HumidityStatus"}},
		{"Humidity (%): \x00", []string{"Humidity"}},
	},
	"bds/bds44.MeteorologicalRoutineAirReportV2": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Source: \x00", []string{"Source"}},
		{"Wind Speed Status: \x00", []string{"WindSpeedStatus"}},
		{"Wind Speed (knot): \x00", []string{"WindSpeed"}},
		{"Wind Direction Status: \x00", []string{"WindDirectionStatus"}},
		{"Wind Direction (degrees): \x00", []string{"WindDirection"}},
		{"Static Air Temperature Status: \x00", []string{"StaticAirTemperatureStatus"}},
		{"Static Air Temperature (degrees C): \x00", []string{"StaticAirTemperature"}},
		{"Average Static Pressure Status: \x00", []string{"AverageStaticPressureStatus"}},
		{"Average Static Pressure (hPa): \x00", []string{"AverageStaticPressure"}},
		{"Turbulence Flag: \x00", []string{"TurbulenceFlag"}},
		{"Humidity Status: \x00", []string{"HumidityStatus"}},
		{"Humidity (%): \x00", []string{"Humidity"}},
	},
	"bds/bds45.MeteorologicalHazardReportV0": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Turbulence Status: \x00", []string{"TurbulenceStatus"}},
		{"Turbulence: \x00", []string{"Turbulence"}},
		{"Wind Shear Status: \x00", []string{"WindShearStatus"}},
		{"Wind Shear: \x00", []string{"WindShear"}},
		{"Micro Burst Status: \x00", []string{"MicroBurstStatus"}},
		{"Micro Burst: \x00", []string{"MicroBurst"}},
		{"Icing Status: \x00", []string{"IcingStatus"}},
		{"Icing: \x00", []string{"Icing"}},
		{"Wake Vortex Status: \x00", []string{"WakeVortexStatus"}},
		{"Wake Vortex: \x00", []string{"WakeVortex"}},
		{"Static Air Temperature Status: \x00", []string{"StaticAirTemperatureStatus"}},
		{"Static Air Temperature (degrees C): \x00", []string{"StaticAirTemperature"}},
		{"Average Static Pressure Status: \x00", []string{"AverageStaticPressureStatus"}},
		{"Average Static Pressure (hPa): \x00", []string{"AverageStaticPressure"}},
		{"Radio Height Status: \x00", []string{"RadioHeightStatus"}},
		{"Radio Height (feet): \x00", []string{"RadioHeight"}},
	},
	"bds/bds45.MeteorologicalHazardReportV1": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Wind Shear Status: \x00", []string{"WindShearStatus"}},
		{"Wind Shear: \x00", []string{"WindShear"}},
		{"Micro Burst Status: \x00", []string{"MicroBurstStatus"}},
		{"Micro Burst: \x00", []string{"MicroBurst"}},
		{"Icing Status: \x00", []string{"IcingStatus"}},
		{"Icing: \x00", []string{"Icing"}},
		{"Wake Vortex Status: \x00", []string{"WakeVortexStatus"}},
		{"Wake Vortex: \x00", []string{"WakeVortex"}},
		{"Static Air Temperature Status: \x00", []string{"StaticAirTemperatureStatus"}},
		{"Static Air Temperature (degrees C): \x00", []string{"StaticAirTemperature"}},
		{"Average Static Pressure Status: \x00", []string{"AverageStaticPressureStatus"}},
		{"Average Static Pressure (hPa): \x00", []string{"AverageStaticPressure"}},
		{"Radio Height Status: \x00", []string{"RadioHeightStatus"}},
		{"Radio Height (feet): \x00", []string{"RadioHeight"}},
		{"Turbulence Status: \x00", []string{"TurbulenceStatus"}},
		{"Average Turbulence EDR Metric \x00", []string{"TurbulenceAverageEDR"}},
		{"Peak Turbulence EDR Metric: \x00", []string{"TurbulencePeakEDR"}},
		{"Turbulence Peak Delay Interval (min): \x00", []string{"TurbulencePeakDelayInterval"}},
	},
	"bds/bds50.TrackAndTurnReport": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Roll Angle Status: \x00", []string{"RollAngleStatus"}},
		{"Roll Angle (degrees): \x00", []string{"RollAngle"}},
		{"True Track Angle Status: \x00", []string{"TrueTrackAngleStatus"}},
		{"True Track (degrees): \x00", []string{"TrueTrackAngle"}},
		{"Ground Speed Status: \x00", []string{"GroundSpeedStatus"}},
		{"Ground Speed (knots): \x00", []string{"GroundSpeed"}},
		{"Track Angle Rate Status: \x00", []string{"TrackAngleRateStatus"}},
		{"Track Angle Rate (degrees/second): \x00", []string{"TrackAngleRate"}},
		{"True Air Speed Status: \x00", []string{"TrueAirSpeedStatus"}},
		{"True Air Speed (knots): \x00", []string{"TrueAirSpeed"}},
	},
	"bds/bds60.HeadingAndTrackReport": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Magnetic Heading Status: \x00", []string{"MagneticHeadingStatus"}},
		{"Magnetic Heading (degrees): \x00", []string{"MagneticHeading"}},
		{"Indicated Air Speed Status: \x00", []string{"IndicatedAirSpeedStatus"}},
		{"Indicated Air Speed (knots): \x00", []string{"IndicatedAirSpeed"}},
		{"Mach Status: \x00", []string{"MachStatus"}},
		{"Mach: \x00", []string{"Mach"}},
		{"Barometric Altitude Rate Status: \x00", []string{"BarometricAltitudeRateStatus"}},
		{"Barometric Altitude Rate (feet/minute): \x00", []string{"BarometricAltitudeRate"}},
		{"Inertial Vertical Velocity Status: \x00", []string{"InitialVerticalVelocityStatus"}},
		{"Inertial Vertical Velocity (feet/minute): \x00", []string{"InitialVerticalVelocity"}},
	},
	"bds/bds61.AircraftStatusACAS": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"ACAS Data:", nil},
		{"\x00", []string{"ResolutionAdvisory"}},
	},
	"bds/bds61.AircraftStatusEmergency": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"Emergency State: \x00", []string{"EmergencyPriorityStatus"}},
		{"Mode A Code: \x00", []string{"ModeACode"}},
	},
	"bds/bds61.AircraftStatusNoInformation": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"Emergency State: \x00", []string{"EmergencyPriorityStatus"}},
	},
	"bds/bds62.TargetStateAndStatus0": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"GetSubtype()"}},
		{"Vertical Data Available / Source Indicator: \x00", []string{"VerticalDataAvailableSourceIndicator"}},
		{"Target Altitude Type: \x00", []string{"TargetAltitudeType"}},
		{"Target Altitude Capability: \x00", []string{"TargetAltitudeCapability"}},
		{"Vertical Mode Indicator: \x00", []string{"VerticalModeIndicator"}},
		{"Target Altitude Status: \x00", []string{"TargetAltitudeStatus"}},
		{"Target Altitude: \x00", []string{"TargetAltitude"}},
		{"Horizontal Data Available / Source Indicator: \x00", []string{"HorizontalDataAvailableSourceIndicator"}},
		{"Target Heading / Track Angle Status: \x00", []string{"TargetHeadingTrackAngleStatus"}},
		{"Target Heading / Track Angle: \x00", []string{"TargetHeadingTrackAngle"}},
		{"Target Heading / Track Indicator: \x00", []string{"TargetHeadingTrackIndicator"}},
		{"Horizontal Mode Indicator: \x00", []string{"HorizontalModeIndicator"}},
		{"Navigation Accuracy Category - Position: \x00", []string{"NavigationalAccuracyCategoryPosition"}},
		{"Navigation Integrity Category - Baro: \x00", []string{"NICBaro"}},
		{"Surveillance Integrity ReaderLevel: \x00", []string{"SurveillanceIntegrityLevel"}},
		{"Capability / Mode Codes: \x00", []string{"CapabilityModeCode"}},
		{"Emergency / Priority Status: \x00", []string{"EmergencyPriorityStatus"}},
	},
	"bds/bds62.TargetStateAndStatus1": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"GetSubtype()"}},
		{"Selected Altitude Type: \x00", []string{"SelectedAltitudeType"}},
		{"Selected Altitude Status: \x00", []string{"SelectedAltitudeStatus"}},
		{"Selected Altitude: \x00", []string{"SelectedAltitude"}},
		{"Barometric Pressure Setting Status: \x00", []string{"BarometricPressureSettingStatus"}},
		{"Barometric Pressure Setting: \x00", []string{"BarometricPressureSetting"}},
		{"Selected Heading Status: \x00", []string{"SelectedHeadingStatus"}},
		{"Selected Heading : \x00", []string{"SelectedHeading"}},
		{"Navigation Accuracy Category - Position: \x00", []string{"NavigationalAccuracyCategoryPosition"}},
		{"Navigation Integrity Category - Baro: \x00", []string{"NICBaro"}},
		{"Source Integrity ReaderLevel: \x00", []string{"SourceIntegrityLevel"}},
		{"Source Integrity ReaderLevel Supplement: \x00", []string{"SourceIntegrityLevelSupplement"}},
		{"Status of MCP/FPU Mode Bits: \x00", []string{"StatusMCPFCUBits"}},
		{"Autopilot Engaged: \x00", []string{"AutopilotEngaged"}},
		{"VNAV Mode Engaged: \x00", []string{"VNAVModeEngaged"}},
		{"Altitude Hold Mode Engaged: \x00", []string{"AltitudeHoldModeEngaged"}},
		{"Approach Mode Engaged: \x00", []string{"ApproachModeEngaged"}},
		{"LNAV Mode Engaged: \x00", []string{"LNAVModeEngaged"}},
		{"TCAS / ACAS Operational : \x00", []string{"TCASACASOperational"}},
	},
	"bds/bds65.AircraftOperationalStatusADSB0": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"En Route Operational Capabilities: \x00", []string{"EnRouteOperationalCapabilities"}},
		{"En Route Operational Capability Status: \x00", []string{"EnRouteOperationalCapabilityStatus"}},
		{"Terminal Area Operational Capabilities: \x00", []string{"TerminalAreaOperationalCapabilities"}},
		{"Terminal Area Operational Capability Status: \x00", []string{"TerminalAreaOperationalCapabilityStatus"}},
		{"Approach/Landing Operational Capabilities: \x00", []string{"ApproachLandingOperationalCapabilities"}},
		{"Approach/Landing Operational Capability Status: \x00", []string{"ApproachLandingOperationalCapabilityStatus"}},
		{"SubtypeSurface Operational Capabilities: \x00", []string{"SurfaceOperationalCapabilities"}},
		{"SubtypeSurface Operational Capability Status: \x00", []string{"SurfaceOperationalCapabilityStatus"}},
	},
	"bds/bds65.AircraftOperationalStatusAirborneADSB1": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"Airborne Capability Class:", nil},
		{"\x00", []string{"AirborneCapabilityClass"}},
		{"Operational Mode:", nil},
		{"\x00", []string{"OperationalMode"}},
		{"ADSB Version Number: \x00", []string{"VersionNumber"}},
		{"NIC Supplement: \x00", []string{"NICSupplement"}},
		{"Navigational Accuracy Category Position: \x00", []string{"NavigationalAccuracyCategoryPosition"}},
		{"Surveillance Integrity ReaderLevel:", nil},
		{"\x00", []string{"SurveillanceIntegrityLevel"}},
		{"NIC Baro: \x00", []string{"NICBaro"}},
		{"Horizontal Reference Direction: \x00", []string{"HorizontalReferenceDirection"}},
	},
	"bds/bds65.AircraftOperationalStatusAirborneADSB2": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"SubtypeAirborne Capability Class:", nil},
		{"\x00", []string{"AirborneCapabilityClass"}},
		{"Operational Mode:", nil},
		{"\x00", []string{"OperationalMode"}},
		{"ADSB Version Number: \x00", []string{"VersionNumber"}},
		{"NIC Supplement: \x00", []string{"NICSupplementA"}},
		{"Navigational Accuracy Category Position: \x00", []string{"NavigationalAccuracyCategoryPosition"}},
		{"Geometric Vertical Accuracy: \x00", []string{"GeometricVerticalAccuracy"}},
		{"Source Integrity ReaderLevel: \x00", []string{"SourceIntegrityLevel"}},
		{"Source Integrity ReaderLevel Supplement: \x00", []string{"SourceIntegrityLevelSupplement"}},
		{"NIC Baro: \x00", []string{"NICBaro"}},
		{"Horizontal Reference Direction: \x00", []string{"HorizontalReferenceDirection"}},
	},
	"bds/bds65.AircraftOperationalStatusSurfaceADSB1": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"SubtypeAirborne Capability Class:", nil},
		{"\x00", []string{"SurfaceCapabilityClass"}},
		{"Aircraft Length And Width \x00", []string{"LengthAndWidth"}},
		{"Operational Mode:", nil},
		{"\x00", []string{"OperationalMode"}},
		{"ADSB Version Number: \x00", []string{"VersionNumber"}},
		{"NIC Supplement: \x00", []string{"NICSupplement"}},
		{"Navigational Accuracy Category Position: \x00", []string{"NavigationalAccuracyCategoryPosition"}},
		{"Surveillance Integrity ReaderLevel:", nil},
		{"\x00", []string{"SurveillanceIntegrityLevel"}},
		{"Track Angle / Heading: \x00", []string{"TrackAngleHeading"}},
		{"Horizontal Reference Direction: \x00", []string{"HorizontalReferenceDirection"}},
	},
	"bds/bds65.AircraftOperationalStatusSurfaceADSB2": {
		{"Message: \x00", []string{"GetRegister()"}},
		{"Subtype: \x00", []string{"Subtype"}},
		{"SubtypeAirborne Capability Class:", nil},
		{"\x00", []string{"SurfaceCapabilityClass"}},
		{"Aircraft Length And Width \x00", []string{"LengthAndWidth"}},
		{"Operational Mode:", nil},
		{"\x00", []string{"OperationalMode"}},
		{"ADSB Version Number: \x00", []string{"VersionNumber"}},
		{"NIC Supplement: \x00", []string{"NICSupplementA"}},
		{"Navigational Accuracy Category Position: \x00", []string{"NavigationalAccuracyCategoryPosition"}},
		{"Source Integrity ReaderLevel: \x00", []string{"SourceIntegrityLevel"}},
		{"Source Integrity ReaderLevel Supplement: \x00", []string{"SourceIntegrityLevelSupplement"}},
		{"Track Angle / Heading: \x00", []string{"TrackAngleHeading"}},
		{"Horizontal Reference Direction: \x00", []string{"HorizontalReferenceDirection"}},
	},
	"bds/bds65/fields.AirborneCapabilityClassV1": {
		{"Not ACAS Status: \x00", []string{"NotACASStatus"}},
		{"Cockpit Display Of Traffic Information Status: \x00", []string{"CockpitDisplayOfTrafficInformationStatus"}},
		{"Air Referenced Velocity Report Capability: \x00", []string{"AirReferencedVelocityReportCapability"}},
		{"Target State Report Capability: \x00", []string{"TargetStateReportCapability"}},
		{"Target Change Report Capability: \x00", []string{"TargetChangeReportCapability"}},
	},
	"bds/bds65/fields.AirborneCapabilityClassV2": {
		{"ACAS Operational: \x00", []string{"ACASOperational"}},
		{"1090ES IN (1090 MHz Extended Squitter): \x00", []string{"ExtendedSquitterIn"}},
		{"ARV (Air-Referenced Velocity Report Capability): \x00", []string{"AirReferencedVelocityReportCapability"}},
		{"Target State Report Capability: \x00", []string{"TargetStateReportCapability"}},
		{"Target Change Report Capability: \x00", []string{"TargetChangeReportCapability"}},
		{"UAT IN (Universal Access Transceiver): \x00", []string{"UniversalAccessTransceiverCapability"}},
	},
	"bds/bds65/fields.AirborneOperationalMode": {
		{"ACAS Resolution Advisory Active: \x00", []string{"ACASResolutionAdvisoryActive"}},
		{"Ident Switch Active: \x00", []string{"IdentSwitchActive"}},
		{"Single Antenna Flag: \x00", []string{"SingleAntennaFlag"}},
		{"System Design Assurance: \x00", []string{"SystemDesignAssurance"}},
	},
	"bds/bds65/fields.GPSAntenna": {
		{"Lateral Axis GPS Antenna: \x00", []string{"GPSAntennaLateral"}},
		{"Longitudinal Axis GPS Antenna: \x00", []string{"GPSAntennaLongitudinal"}},
	},
	"bds/bds65/fields.OperationalMode": {
		{"ACAS Resolution Advisory Active: \x00", []string{"ACASResolutionAdvisoryActive"}},
		{"Ident Switch Active: \x00", []string{"IdentSwitchActive"}},
		{"Receiving ATC Services: \x00", []string{"ReceivingATCServices"}},
	},
	"bds/bds65/fields.SurfaceCapabilityClassV1": {
		{"Position Offset Applied: \x00", []string{"PositionOffsetApplied"}},
		{"Cockpit Display Of Traffic Information Status: \x00", []string{"CockpitDisplayOfTrafficInformationStatus"}},
		{"B2Low: \x00", []string{"B2Low"}},
	},
	"bds/bds65/fields.SurfaceCapabilityClassV2": {
		{"1090ES IN (1090 MHz Extended Squitter): \x00", []string{"ExtendedSquitterIn"}},
		{"B2 Low (Class B2 Transmit Power Less Than 70 Watts): \x00", []string{"B2Low"}},
		{"UAT IN (Universal Access Transceiver): \x00", []string{"UniversalAccessTransceiverCapability"}},
		{"NACV (Navigation Accuracy Category for Velocity): \x00", []string{"NavigationAccuracyCategoryVelocity"}},
		{"NIC Supplement-C (NIC Supplement for use on the Surface): \x00", []string{"NICSupplementC"}},
	},
	"bds/bds65/fields.SurfaceOperationalMode": {
		{"ACAS Resolution Advisory Active: \x00", []string{"ACASResolutionAdvisoryActive"}},
		{"Ident Switch Active: \x00", []string{"IdentSwitchActive"}},
		{"Single Antenna Flag: \x00", []string{"SingleAntennaFlag"}},
		{"System Design Assurance: \x00", []string{"SystemDesignAssurance"}},
		{"GPS Antenna: \x00", []string{"GPSAntenna"}},
	},
	"bds/register.Register": {
		{"\x00 - \x00", []string{"id", "description"}},
	},
	"modes/fields.UtilityMessage": {
		{"InterrogatorIdentifier: \x00, Reservation: \x00", []string{"InterrogatorIdentifier", "IdentifierDesignator"}},
	},
	"modes/messages.MessageDF0": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"VerticalStatus: \x00", []string{"VerticalStatus"}},
		{"CrossLinkCapability: \x00", []string{"CrossLinkCapability"}},
		{"SensitivityLevel: \x00", []string{"SensitivityLevel"}},
		{"ReplyInformation: \x00", []string{"ReplyInformation"}},
		{"AltitudeReportMethod: \x00", []string{"AltitudeReportMethod"}},
		{"Altitude: \x00", []string{"Altitude"}},
	},
	"modes/messages.MessageDF11": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"Capability: \x00", []string{"Capability"}},
		{"AddressAnnounced: \x00", []string{"AddressAnnounced"}},
	},
	"modes/messages.MessageDF16": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"VerticalStatus: \x00", []string{"VerticalStatus"}},
		{"SensitivityLevel: \x00", []string{"SensitivityLevel"}},
		{"ReplyInformation: \x00", []string{"ReplyInformation"}},
		{"AltitudeReportMethod: \x00", []string{"AltitudeReportMethod"}},
		{"Altitude: \x00", []string{"Altitude"}},
		{"Message ACAS: \x00", []string{"MessageACAS"}},
	},
	"modes/messages.MessageDF17": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"Capability: \x00", []string{"Capability"}},
		{"AddressAnnounced: \x00", []string{"AddressAnnounced"}},
		{"MessageExtendedSquitter: \x00", []string{"MessageExtendedSquitter"}},
	},
	"modes/messages.MessageDF18": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"ControlField: \x00", []string{"ControlField"}},
		{"AddressAnnounced: \x00", []string{"AddressAnnounced"}},
		{"MessageExtendedSquitter: \x00", []string{"MessageExtendedSquitter"}},
	},
	"modes/messages.MessageDF19": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"ApplicationField: \x00", []string{"ApplicationField"}},
	},
	"modes/messages.MessageDF20": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"FlightStatus: \x00", []string{"FlightStatus"}},
		{"DownlinkRequest: \x00", []string{"DownlinkRequest"}},
		{"UtilityMessage: \x00", []string{"UtilityMessage"}},
		{"AltitudeReportMethod: \x00", []string{"AltitudeReportMethod"}},
		{"Altitude: \x00", []string{"Altitude"}},
		{"MessageCommB: \x00", []string{"MessageCommB"}},
	},
	"modes/messages.MessageDF21": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"FlightStatus: \x00", []string{"FlightStatus"}},
		{"DownlinkRequest: \x00", []string{"DownlinkRequest"}},
		{"UtilityMessage: \x00", []string{"UtilityMessage"}},
		{"Identity: \x00", []string{"Identity"}},
		{"MessageCommB: \x00", []string{"MessageCommB"}},
	},
	"modes/messages.MessageDF24": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"ControlELM: \x00", []string{"ControlELM"}},
		{"NumberOfDSegment: \x00", []string{"NumberOfDSegment"}},
		{"MessageCommD: \x00", []string{"MessageCommD"}},
	},
	"modes/messages.MessageDF4": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"FlightStatus: \x00", []string{"FlightStatus"}},
		{"DownlinkRequest: \x00", []string{"DownlinkRequest"}},
		{"UtilityMessage: \x00", []string{"UtilityMessage"}},
		{"AltitudeReportMethod: \x00", []string{"AltitudeReportMethod"}},
		{"Altitude: \x00", []string{"Altitude"}},
	},
	"modes/messages.MessageDF5": {
		{"Downlink format: \x00 - \x00", []string{"GetDownLinkFormat()", "GetName()"}},
		{"FlightStatus: \x00", []string{"FlightStatus"}},
		{"DownlinkRequest: \x00", []string{"DownlinkRequest"}},
		{"UtilityMessage: \x00", []string{"UtilityMessage"}},
		{"Identity: \x00", []string{"Identity"}},
	},
}
