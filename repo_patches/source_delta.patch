From a013a09d345572dadf59e873688edd49fa53e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 01/44] fix: report the downward sense of a resolution advisory

---
 .../fields/active_resolution_advisory_one_or_same_separation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
index 5fd7c79..786ff46 100644
--- a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
+++ b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
@@ -119,7 +119,7 @@ const (
 
 // ToString returns a basic, but readable, representation of the field
 func (sense ActiveRASense) ToString() string {
-	switch ActiveRASenseUpward {
+	switch sense {
 	case ActiveRASenseUpward:
 		return "Upward"
 	case ActiveRASenseDownward:
-- 
2.43.0


From f84cc63420ff2d89dc5f9cd2af656d252ee0dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 02/44] fix: read both low bits of the threat range

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index 762e95a..d566ad5 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -39,6 +39,6 @@ func (threatRange ThreatIdentityRange) GetRange() float64 {
 // ReadThreatIdentityRange reads the ThreatIdentityRange
 func ReadThreatIdentityRange(data []byte) ThreatIdentityRange {
 
-	bits := (data[4]&0x1F)<<2 + (data[5]&0xA0)>>6
+	bits := (data[4]&0x1F)<<2 + (data[5]&0xC0)>>6
 	return ThreatIdentityRange(bits)
 }
-- 
2.43.0


From 9472e4cfe865ebbc91357db79cc7e267041f271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 03/44] fix: place the C1 and A1 bits of the threat altitude

---
 pkg/acas/ra/fields/threat_identity_altitude.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_altitude.go b/pkg/acas/ra/fields/threat_identity_altitude.go
index 3cc0894..c256838 100644
--- a/pkg/acas/ra/fields/threat_identity_altitude.go
+++ b/pkg/acas/ra/fields/threat_identity_altitude.go
@@ -37,7 +37,7 @@ func ReadThreatIdentityAltitude(data []byte) (ThreatIdentityAltitude, error) {
 	// Then C2 A2 C4 A4
 	altitudeCode += uint16(data[3]&0xF0) << 2
 	// Then C1 A1
-	altitudeCode += uint16(data[2]&0x03) << 2
+	altitudeCode += uint16(data[2]&0x03) << 10
 
 	// Detect invalid altitude
 	if altitudeCode == 0 {
-- 
2.43.0


From a31df19cea3d9c64ee376d3dad7570b386566557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 04/44] fix: containment radius of surface position type 7
 without supplement A

---
 pkg/adsb/surface_position/surface_position_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/surface_position/surface_position_v1.go b/pkg/adsb/surface_position/surface_position_v1.go
index 9b2ab32..8ca1003 100644
--- a/pkg/adsb/surface_position/surface_position_v1.go
+++ b/pkg/adsb/surface_position/surface_position_v1.go
@@ -65,7 +65,7 @@ func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.Horizon
 		if nicSupplementA {
 			return fields.HCRV1RcLowerThan75M, 9
 		} else {
-			return fields.HCRV1RcGreaterThan0Point1NM, 8
+			return fields.HCRV1RcLowerThan0Point1NM, 8
 		}
 	default:
 		return fields.HCRV1RcGreaterThan0Point1NM, 0
-- 
2.43.0


From 7748b9bb0daf1f0021e1f94f4a575320a5917103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 05/44] fix: check all the reserved bits of BDS 0,7

---
 pkg/bds/bds07/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/status.go b/pkg/bds/bds07/status.go
index fbb4980..b1f4a8c 100644
--- a/pkg/bds/bds07/status.go
+++ b/pkg/bds/bds07/status.go
@@ -49,7 +49,7 @@ func ReadStatus(data []byte) (*Status, error) {
 	}
 
 	// Bits 4 to 8 are reserved and must be 0
-	if data[0]&0x1C != 0 {
+	if data[0]&0x1F != 0 {
 		return nil, errors.New("the bits 4 to 8 are reserved and must be 0")
 	}
 
-- 
2.43.0


From ac5f465420b7023284a31f14a33d20afe80e40ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 06/44] fix: label of the BDS 0,7 transmission rate without
 capability

---
 pkg/bds/bds07/fields/transmission_rate_subfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/fields/transmission_rate_subfield.go b/pkg/bds/bds07/fields/transmission_rate_subfield.go
index cbe7abf..63f32f6 100644
--- a/pkg/bds/bds07/fields/transmission_rate_subfield.go
+++ b/pkg/bds/bds07/fields/transmission_rate_subfield.go
@@ -21,7 +21,7 @@ func (trs TransmissionRateSubfield) ToString() string {
 
 	switch trs {
 	case TransmissionRateNoCapability:
-		return "0 - Barometric altitude"
+		return "0 - No capability to determine surface squitter rate"
 	case TransmissionRateHigh:
 		return "1 - High surface squitter rate selected"
 	case TransmissionRateLow:
-- 
2.43.0


From 25959d677f99d7f4c6525ef812356983e1557219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 07/44] fix: labels of the velocity uncertainty categories

---
 pkg/bds/bds09/fields/navigation_uncertainty_category.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds09/fields/navigation_uncertainty_category.go b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
index 1cd8817..368af79 100644
--- a/pkg/bds/bds09/fields/navigation_uncertainty_category.go
+++ b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
@@ -34,15 +34,15 @@ func (category NavigationUncertaintyCategory) ToString() string {
 			nucpHorizontalLabel, "< 10 m/s",
 			nucpVerticalLabel, "< 15.2 m/s (50 fps)")
 	case NUCPHorizontalLowerThan3VerticalLowerThan4Point6:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("2 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 3 m/s",
 			nucpVerticalLabel, "< 4.6 m/s (15 fps)")
 	case NUCPHorizontalLowerThan1VerticalLowerThan1Point5:
-		return fmt.Sprintf("1 - %v %v / %v %v",
-			nucpHorizontalLabel, "< 2 m/s",
+		return fmt.Sprintf("3 - %v %v / %v %v",
+			nucpHorizontalLabel, "< 1 m/s",
 			nucpVerticalLabel, "< 1.5 m/s (5 fps)")
 	case NUCPHorizontalLowerThan0Point3VerticalLowerThan0Point46:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("4 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 0.3 m/s",
 			nucpVerticalLabel, "< 0.46 m/s (1.5 fps)")
 
-- 
2.43.0


From 6a4c7755281acffcf10413b1d4edfdd3f33f9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 08/44] fix: read the surveillance identifier code capability
 at bit 35 of BDS 1,0

---
 pkg/bds/bds10/fields/surveillance_identifier_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/surveillance_identifier_code.go b/pkg/bds/bds10/fields/surveillance_identifier_code.go
index 07634b5..b49d268 100644
--- a/pkg/bds/bds10/fields/surveillance_identifier_code.go
+++ b/pkg/bds/bds10/fields/surveillance_identifier_code.go
@@ -29,6 +29,6 @@ func (sic SurveillanceIdentifierCode) ToString() string {
 
 // ReadSurveillanceIdentifierCode reads the SurveillanceIdentifierCode from a 56 bits data field
 func ReadSurveillanceIdentifierCode(data []byte) SurveillanceIdentifierCode {
-	bits := (data[2] & 0x40) >> 5
+	bits := (data[4] & 0x20) >> 5
 	return SurveillanceIdentifierCode(bits)
 }
-- 
2.43.0


From 732e965a8770a82e10e874d0eaae1d469c7ec107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 09/44] fix: labels of the Mode S subnetwork versions

---
 pkg/bds/bds10/fields/modes_subnetwork_version.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds10/fields/modes_subnetwork_version.go b/pkg/bds/bds10/fields/modes_subnetwork_version.go
index 098d7a9..33e0250 100644
--- a/pkg/bds/bds10/fields/modes_subnetwork_version.go
+++ b/pkg/bds/bds10/fields/modes_subnetwork_version.go
@@ -31,13 +31,13 @@ func (mssv ModeSSubnetworkVersion) ToString() string {
 	case ModeSSubnetworkVersion1:
 		return "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)"
 	case ModeSSubnetworkVersion2:
-		return "1 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
+		return "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
 	case ModeSSubnetworkVersion3:
-		return "1 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
+		return "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
 	case ModeSSubnetworkVersion4:
-		return "1 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
+		return "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
 	case ModeSSubnetworkVersion5:
-		return "1 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
+		return "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
 	default:
 		return fmt.Sprintf("%v - Unknown code", mssv)
 	}
-- 
2.43.0


From 532d05a30460439e05e6ca04d0398f518e8f16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 10/44] fix: report the continuation flag of BDS 1,0

---
 pkg/bds/bds10/data_link_capability_report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bds/bds10/data_link_capability_report.go b/pkg/bds/bds10/data_link_capability_report.go
index 7026d09..22f106f 100644
--- a/pkg/bds/bds10/data_link_capability_report.go
+++ b/pkg/bds/bds10/data_link_capability_report.go
@@ -74,6 +74,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Continuation Flag:                       %v\n"+
+		"Overlay Command Capability:              %v\n"+
 		"ACAS Status                              %v\n"+
 		"ModeS Subnetwork Version                 %v\n"+
 		"Transponder Enhanced Protocol Indicator  %v\n"+
@@ -89,6 +90,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 		"ACAS Applicable Document                 %v\n"+
 		"DTE SubAddress Statuses                  %v\n",
 		message.GetRegister().ToString(),
+		message.ContinuationFlag.ToString(),
 		message.OverlayCommandCapability.ToString(),
 		message.ACASStatus.ToString(),
 		message.ModeSSubnetworkVersion.ToString(),
-- 
2.43.0


From f16b205477f42d88195c08e9b7daf7ae52441eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 11/44] fix: read the status of the barometric pressure setting
 at bit 27 of BDS 4,0

---
 pkg/bds/bds40/fields/barometric_pressure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 971d522..8d0349f 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -3,7 +3,7 @@ package fields
 import "github.com/twuillemin/modes/pkg/bitutils"
 
 func ReadBarometricPressure(data []byte) (bool, float32) {
-	status := (data[0] & 0x80) != 0
+	status := (data[3] & 0x20) != 0
 
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
-- 
2.43.0


From c25dc2345d6814f7436be56988cb34ed4a642512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 12/44] fix: swap back the MCP/FCU and FMS selected altitudes
 of BDS 4,0

---
 pkg/bds/bds40/fields/fms_selected_altitude.go | 9 +++++----
 pkg/bds/bds40/fields/mcp_selected_altitude.go | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds40/fields/fms_selected_altitude.go b/pkg/bds/bds40/fields/fms_selected_altitude.go
index 4c1ac8f..a4eeab4 100644
--- a/pkg/bds/bds40/fields/fms_selected_altitude.go
+++ b/pkg/bds/bds40/fields/fms_selected_altitude.go
@@ -5,10 +5,11 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadFMSSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[1] & 0x04) != 0
 
-	byte1 := data[0] & 0x7F
-	byte2 := data[1] & 0xF8
-	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
-	fmsAltitude := uint32(allBits) * 16
+	byte1 := data[1] & 0x03
+	byte2 := data[2]
+	byte3 := data[3] & 0xC0
+	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
+	fmsAltitude := allBits * 16
 
 	return status, fmsAltitude
 }
diff --git a/pkg/bds/bds40/fields/mcp_selected_altitude.go b/pkg/bds/bds40/fields/mcp_selected_altitude.go
index 83f3c4c..39c7c79 100644
--- a/pkg/bds/bds40/fields/mcp_selected_altitude.go
+++ b/pkg/bds/bds40/fields/mcp_selected_altitude.go
@@ -5,11 +5,10 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadMCPSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[0] & 0x80) != 0
 
-	byte1 := data[1] & 0x03
-	byte2 := data[2]
-	byte3 := data[3] & 0xC0
-	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
-	altitude := allBits * 16
+	byte1 := data[0] & 0x7F
+	byte2 := data[1] & 0xF8
+	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
+	altitude := uint32(allBits) * 16
 
 	return status, altitude
 }
-- 
2.43.0


From 954e7bdf5fbb3858e49d9549074365306364ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 13/44] fix: accept BDS 4,0 messages without barometric
 pressure setting as coherent

---
 pkg/bds/bds40/selected_vertical_intention.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds40/selected_vertical_intention.go b/pkg/bds/bds40/selected_vertical_intention.go
index 7e2e593..c63782c 100644
--- a/pkg/bds/bds40/selected_vertical_intention.go
+++ b/pkg/bds/bds40/selected_vertical_intention.go
@@ -79,8 +79,8 @@ func (message SelectedVerticalIntention) CheckCoherency() error {
 		return errors.New("the FMS SelectedAltitude status is set to false, but a FMS SelectedAltitude value is given")
 	}
 
-	// If no data available, it is probably not coherent
-	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 0 {
+	// If no data available, it is probably not coherent (a field without value being read as 800)
+	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 800 {
 		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
 	}
 
-- 
2.43.0


From eb75d10b9cdf2fb9332087cca933d63c5fe33c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 14/44] fix: read all the bits of the wind speed of BDS 4,4

---
 pkg/bds/bds44/fields/wind_speed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/wind_speed.go b/pkg/bds/bds44/fields/wind_speed.go
index d296fa0..3e3b4ef 100644
--- a/pkg/bds/bds44/fields/wind_speed.go
+++ b/pkg/bds/bds44/fields/wind_speed.go
@@ -5,7 +5,7 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadWindSpeed(data []byte) (bool, uint32) {
 	status := (data[0] & 0x08) != 0
 
-	byte1 := data[0] & 0x03
+	byte1 := data[0] & 0x07
 	byte2 := data[1] & 0xFC
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 2
 	speed := uint32(allBits)
-- 
2.43.0


From db635c66c1b969619e52d2fa951bc7788dba8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 15/44] fix: sign of the static air temperature of BDS 4,4 V0

---
 pkg/bds/bds44/fields/static_air_temperature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds44/fields/static_air_temperature.go b/pkg/bds/bds44/fields/static_air_temperature.go
index 7a6f5e8..d856061 100644
--- a/pkg/bds/bds44/fields/static_air_temperature.go
+++ b/pkg/bds/bds44/fields/static_air_temperature.go
@@ -10,8 +10,8 @@ func ReadStaticAirTemperatureV0(data []byte) float32 {
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 6
 	temperature := float32(allBits) * 0.25
 
-	if (data[3] & 0x01) != 0 {
-		temperature = temperature - 128
+	if (data[2] & 0x01) != 0 {
+		temperature = temperature - 256
 	}
 
 	return temperature
-- 
2.43.0


From 9c77067a5bc90b9bb283b2e183da88848125fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 16/44] fix: accept the downed aircraft emergency status as
 coherent

---
 pkg/bds/bds61/aircraft_status_emergency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 9e3015d..1a13d99 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -28,7 +28,7 @@ func (message AircraftStatusEmergency) GetRegister() register.Register {
 // CheckCoherency checks that the data of the message are somehow coherent, such as for example: no Reserved values, etc.
 func (message AircraftStatusEmergency) CheckCoherency() error {
 
-	if message.EmergencyPriorityStatus > 5 {
+	if message.EmergencyPriorityStatus > 6 {
 		return errors.New("field EmergencyPriorityStatus is a Reserved value")
 	}
 
-- 
2.43.0


From 548df3268cdb342a5bfe657766ec5d5a0d0d9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 17/44] fix: check all the reserved bits of BDS 6,1 without
 information

---
 pkg/bds/bds61/aircraft_status_no_information.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_no_information.go b/pkg/bds/bds61/aircraft_status_no_information.go
index 2156941..d969495 100644
--- a/pkg/bds/bds61/aircraft_status_no_information.go
+++ b/pkg/bds/bds61/aircraft_status_no_information.go
@@ -67,7 +67,7 @@ func ReadAircraftStatusNoInformation(data []byte) (*AircraftStatusNoInformation,
 	}
 
 	for i := uint(2); i < 7; i++ {
-		if (data[1] & 0x1F) != 0 {
+		if data[i] != 0 {
 			return nil, errors.New("the bits 17 to 56 are expected to be 0")
 		}
 	}
-- 
2.43.0


From 7f36259c348ca66de46b5fe03c329a69168e179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 18/44] fix: report the Mode A code of BDS 6,1

---
 pkg/bds/bds61/aircraft_status_emergency.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 1a13d99..2382180 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -40,10 +40,12 @@ func (message AircraftStatusEmergency) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                   %v\n"+
 		"Subtype:                   %v\n"+
-		"Emergeny State:            %v",
+		"Emergency State:           %v\n"+
+		"Mode A Code:               %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-		message.EmergencyPriorityStatus.ToString())
+		message.EmergencyPriorityStatus.ToString(),
+		message.ModeACode)
 }
 
 // ReadAircraftStatusEmergency reads a AircraftStatus / Subtype 1 (Emergency/priority status)
-- 
2.43.0


From 81008850b516c1e3905b90ad9912af1ecf62e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 19/44] fix: low bits of the target heading of BDS 6,2

---
 pkg/bds/bds62/fields/target_heading_track_angle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/target_heading_track_angle.go b/pkg/bds/bds62/fields/target_heading_track_angle.go
index 1f5d2b5..fa02562 100644
--- a/pkg/bds/bds62/fields/target_heading_track_angle.go
+++ b/pkg/bds/bds62/fields/target_heading_track_angle.go
@@ -40,7 +40,7 @@ func ReadTargetHeadingTrackIndicator(data []byte) TargetHeadingTrackIndicator {
 // Specified in Doc 9871 / B.2.3.9.9
 func ReadTargetHeadingTrackAngle(data []byte) (uint16, NumericValueStatus) {
 	byte1 := data[3] & 0x1F
-	byte2 := data[2] & 0xF0
+	byte2 := data[4] & 0xF0
 	targetHeading := bitutils.Pack2Bytes(byte1, byte2) >> 4
 
 	if targetHeading > 359 {
-- 
2.43.0


From 1a36433680173ed00707eb8e05b13c3751fad724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 20/44] fix: read the selected altitude type at bit 9 of BDS
 6,2

---
 pkg/bds/bds62/fields/selected_altitude_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_altitude_type.go b/pkg/bds/bds62/fields/selected_altitude_type.go
index 7a822bd..d6c5602 100644
--- a/pkg/bds/bds62/fields/selected_altitude_type.go
+++ b/pkg/bds/bds62/fields/selected_altitude_type.go
@@ -29,6 +29,6 @@ func (status SelectedAltitudeType) ToString() string {
 
 // ReadSelectedAltitudeType reads the SelectedAltitudeType from a 56 bits data field
 func ReadSelectedAltitudeType(data []byte) SelectedAltitudeType {
-	bits := data[0] & 0x01
+	bits := (data[1] & 0x80) >> 7
 	return SelectedAltitudeType(bits)
 }
-- 
2.43.0


From 22a14738284e3685effb7d796376cbf6421c174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 21/44] fix: decode negative selected headings as two's
 complement

---
 pkg/bds/bds62/fields/selected_heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_heading.go b/pkg/bds/bds62/fields/selected_heading.go
index bfc65ba..f1b263e 100644
--- a/pkg/bds/bds62/fields/selected_heading.go
+++ b/pkg/bds/bds62/fields/selected_heading.go
@@ -40,7 +40,7 @@ func ReadSelectedHeading(data []byte) (float32, SelectedHeadingStatus) {
 	heading := float32(bitutils.Pack2Bytes(byte1, byte2) >> 1)
 
 	if negative {
-		heading = -heading
+		heading = heading - 256
 	}
 
 	return heading * 180 / 256, status
-- 
2.43.0


From 4e24542a663e73470b7eae4253f71e77c9ec113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 22/44] fix: labels of the source integrity levels of BDS 6,2

---
 pkg/bds/bds62/fields/source_integrity_level.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds62/fields/source_integrity_level.go b/pkg/bds/bds62/fields/source_integrity_level.go
index 2d4488c..8064c0b 100644
--- a/pkg/bds/bds62/fields/source_integrity_level.go
+++ b/pkg/bds/bds62/fields/source_integrity_level.go
@@ -27,9 +27,9 @@ func (level SourceIntegrityLevel) ToString() string {
 	case SILLevel1:
 		return "1 - SIL <= 1 * 10^-3 per flight hour or per sample"
 	case SILLevel2:
-		return "1 - SIL <= 1 * 10^-5 per flight hour or per sample"
+		return "2 - SIL <= 1 * 10^-5 per flight hour or per sample"
 	case SILLevel3:
-		return "1 - SIL <= 1 * 10^-7 per flight hour or per sample"
+		return "3 - SIL <= 1 * 10^-7 per flight hour or per sample"
 	default:
 		return fmt.Sprintf("%v - Unknown code", level)
 	}
-- 
2.43.0


From aa99341656224c0f860973412e98dbe525aa88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 23/44] fix: ADS-B level of the version 2 surface operational
 status

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index 2c4ecd3..ead72a9 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -28,7 +28,7 @@ type AircraftOperationalStatusSurfaceADSB2 struct {
 }
 
 func (message AircraftOperationalStatusSurfaceADSB2) GetADSBLevel() byte {
-	return 1
+	return 2
 }
 
 // GetRegister returns the Register the message
-- 
2.43.0


From 9e4f4cbe6d79cfa91e4c566ef6edef49b7d4df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 24/44] fix: labels of the geometric vertical accuracy

---
 pkg/bds/bds65/fields/geometric_vertical_accuracy.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
index 1ec808a..ea6353a 100644
--- a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
+++ b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
@@ -25,11 +25,11 @@ func (baro GeometricVerticalAccuracy) ToString() string {
 	case GVAUnknownOrGreaterThan150m:
 		return "0 - Unknown or GVA >= 150 meters"
 	case GVALowerThan150m:
-		return "0 - GVA <= 150 meters"
+		return "1 - GVA <= 150 meters"
 	case GVALowerThan45m:
-		return "0 - GVA <= 45 meters"
+		return "2 - GVA <= 45 meters"
 	case GVAReserved3:
-		return "0 - reserved"
+		return "3 - reserved"
 	default:
 		return fmt.Sprintf("%v - Unknown code", baro)
 	}
-- 
2.43.0


From 1befe7b6c5180567891e589817bd5a2e7dd675d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 25/44] fix: label of the aircraft length and width code 10

---
 pkg/bds/bds65/fields/length_width.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds65/fields/length_width.go b/pkg/bds/bds65/fields/length_width.go
index 23b3bde..0fb6708 100644
--- a/pkg/bds/bds65/fields/length_width.go
+++ b/pkg/bds/bds65/fields/length_width.go
@@ -28,7 +28,7 @@ const (
 	LWLength55Width45 LengthWidth = 8
 	// LWLength55Width52 indicates Length lower than 55 meters and Width lower than 52 meters
 	LWLength55Width52 LengthWidth = 9
-	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59 meters
+	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59.5 meters
 	LWLength65Width59Point5 LengthWidth = 10
 	// LWLength65Width67 indicates Length lower than 65 meters and Width lower than 67 meters
 	LWLength65Width67 LengthWidth = 11
@@ -67,7 +67,7 @@ func (status LengthWidth) ToString() string {
 	case LWLength55Width52:
 		return "9 - Length lower than 55 meters and Width lower than 52 meters"
 	case LWLength65Width59Point5:
-		return "10 - Length lower than 65 meters and Width lower than 59 meters"
+		return "10 - Length lower than 65 meters and Width lower than 59.5 meters"
 	case LWLength65Width67:
 		return "11 - Length lower than 65 meters and Width lower than 67 meters"
 	case LWLength75Width72Point5:
-- 
2.43.0


From 517c71726bbbb281b34b6b87854bb84ecf1b3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 26/44] fix: caption of the track angle / heading of the
 surface operational status

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go | 2 +-
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
index 0eb8ff0..cd09843 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
@@ -52,7 +52,7 @@ func (message AircraftOperationalStatusSurfaceADSB1) ToString() string {
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
 		"Surveillance Integrity ReaderLevel:      \n%v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle / Heading:                   %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index ead72a9..61d4772 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -54,7 +54,7 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 		"Navigational Accuracy Category Position: %v\n"+
 		"Source Integrity ReaderLevel:            %v\n"+
 		"Source Integrity ReaderLevel Supplement: %v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle / Heading:                   %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-- 
2.43.0


From 97dd810a6e8d541d704317908946db73b3844281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 27/44] fix: labels of the flight statuses 4, 5 and 7

---
 pkg/modes/fields/flight_status.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/modes/fields/flight_status.go b/pkg/modes/fields/flight_status.go
index c852db0..781ba92 100644
--- a/pkg/modes/fields/flight_status.go
+++ b/pkg/modes/fields/flight_status.go
@@ -25,9 +25,9 @@ const (
 	FlightStatusAlertNoSPIAirborne FlightStatus = 2
 	// FlightStatusAlertNoSPIOnTheGround signifies alert and no SPI, aircraft is on the ground
 	FlightStatusAlertNoSPIOnTheGround FlightStatus = 3
-	// FlightStatusAlertSPIAirborne signifies alert and SPI, aircraft is airborne
+	// FlightStatusAlertSPIAirborne signifies alert and SPI, aircraft is airborne or on the ground
 	FlightStatusAlertSPIAirborne FlightStatus = 4
-	// FlightStatusAlertSPIOnTheGround signifies alert and SPI, aircraft is on the ground
+	// FlightStatusAlertSPIOnTheGround signifies no alert and SPI, aircraft is airborne or on the ground
 	FlightStatusAlertSPIOnTheGround FlightStatus = 5
 	// FlightStatusReserved is reserved
 	FlightStatusReserved FlightStatus = 6
@@ -53,13 +53,13 @@ func (flightStatus FlightStatus) ToString() string {
 	case FlightStatusAlertNoSPIOnTheGround:
 		return "3 - Alert, No SPI, On The Ground"
 	case FlightStatusAlertSPIAirborne:
-		return "4 - Alert, SPI, Airborne"
+		return "4 - Alert, SPI, Airborne or On The Ground"
 	case FlightStatusAlertSPIOnTheGround:
-		return "5 - Alert, SPI, On The Ground"
+		return "5 - No Alert, SPI, Airborne or On The Ground"
 	case FlightStatusReserved:
 		return "6 - Reserved"
 	case FlightStatusNotAssigned:
-		return "7 - Reserved"
+		return "7 - Not Assigned"
 	default:
 		return fmt.Sprintf("%v - Unknown code", flightStatus)
 	}
-- 
2.43.0


From 07b44de76a01266eda5b73b11e3b1cde965ee3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 28/44] fix: accept airborne positions without altitude

---
 .../no_position_information/no_position_information.go   | 5 +++++
 pkg/bds/bds05/fields/altitude.go                         | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index 0e04f6f..5a56743 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -4,11 +4,13 @@ import (
 	"fmt"
 	"github.com/twuillemin/modes/pkg/adsb"
 	"github.com/twuillemin/modes/pkg/bds/bds05"
+	"github.com/twuillemin/modes/pkg/bds/bds05/fields"
 )
 
 type NoPositionInformation struct {
 	adsbVersion                 adsb.ADSBVersion
 	FormatTypeCode              byte
+	AltitudeReportMethod        fields.AltitudeReportMethod
 	AltitudeBarometric          int32
 	NavigationIntegrityCategory byte
 }
@@ -27,9 +29,11 @@ func (message NoPositionInformation) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                           No Position Information\n"+
 		"Format Type Code:                  %v\n"+
+		"Altitude Report Method:            %v\n"+
 		"Altitude Baro (feet):              %v\n"+
 		"Navigation Integrity Category:     %v",
 		message.FormatTypeCode,
+		message.AltitudeReportMethod.ToString(),
 		message.AltitudeBarometric,
 		message.NavigationIntegrityCategory)
 }
@@ -47,6 +51,7 @@ func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPo
 
 	return &NoPositionInformation{
 		FormatTypeCode:              0,
+		AltitudeReportMethod:        bds.AltitudeReportMethod,
 		AltitudeBarometric:          bds.AltitudeInFeet,
 		NavigationIntegrityCategory: 0,
 		adsbVersion:                 adsbVersion,
diff --git a/pkg/bds/bds05/fields/altitude.go b/pkg/bds/bds05/fields/altitude.go
index 71d138e..72d7846 100644
--- a/pkg/bds/bds05/fields/altitude.go
+++ b/pkg/bds/bds05/fields/altitude.go
@@ -36,6 +36,8 @@ const (
 	AltitudeReport100FootIncrements AltitudeReportMethod = 0
 	// AltitudeReport25FootIncrements signifies that altitude is reported in 25-foot increments
 	AltitudeReport25FootIncrements AltitudeReportMethod = 1
+	// AltitudeReportNotAvailable signifies that no altitude is reported
+	AltitudeReportNotAvailable AltitudeReportMethod = 2
 )
 
 // ToString returns a basic, but readable, representation of the field
@@ -45,6 +47,8 @@ func (altitudeReportMethod AltitudeReportMethod) ToString() string {
 		return "0 - 100 Foot Increments"
 	case AltitudeReport25FootIncrements:
 		return "1 - 25 Foot Increments"
+	case AltitudeReportNotAvailable:
+		return "2 - Not Available"
 	default:
 		return fmt.Sprintf("%v - Unknown code", altitudeReportMethod)
 	}
@@ -65,6 +69,11 @@ func ReadAltitude(data []byte) (int32, AltitudeSource, AltitudeReportMethod, err
 	// message     | x  x  x  x  x  x  x  x|  x  x  x  x  _  _  _  _ |
 	// 100 foot    |C1 A1 C2 A2 C4 A4 B1  Q| B2 D2 B4 D4  _  _  _  _ |
 
+	// If all the bits are 0, the altitude is not available
+	if data[1] == 0 && (data[2]&0xF0) == 0 {
+		return 0, source, AltitudeReportNotAvailable, nil
+	}
+
 	// Get the Q bit
 	qBit := (data[1] & 0x01) != 0
 
-- 
2.43.0


From be1a4d782b8c432fbc5e1433b1607ffdc8af9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 29/44] fix: altitude source and status bits of airborne
 positions type 0

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 33a0c0e..85ea751 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,8 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18
+	dataTmp := []byte{0x90 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From cc7562b2c8cc2c48bf2dd4ee04f80a8fa685738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 30/44] fix: reject type 0 positions of a wrong length instead
 of panicking

---
 pkg/adsb/airborne_position/airborne_position_type_0.go      | 4 ++++
 pkg/adsb/no_position_information/no_position_information.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 85ea751..881cb6c 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,6 +36,10 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18
 	dataTmp := []byte{0x90 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index 5a56743..e4d0922 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -41,6 +41,10 @@ func (message NoPositionInformation) ToString() string {
 // ReadNoPositionInformation reads a message at the format NoPositionInformation
 func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPositionInformation, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}
 
-- 
2.43.0


From f0d5fabe914b5bacea7f064200f028b0b32904d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 31/44] fix: bounds of the threat bearings above 252 degrees

---
 pkg/acas/ra/fields/threat_identity_bearing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_bearing.go b/pkg/acas/ra/fields/threat_identity_bearing.go
index f4f39f3..a47044b 100644
--- a/pkg/acas/ra/fields/threat_identity_bearing.go
+++ b/pkg/acas/ra/fields/threat_identity_bearing.go
@@ -14,7 +14,7 @@ func (threatBearing ThreatIdentityBearing) ToString() string {
 	if threatBearing == 0 {
 		return " 0 - No bearing estimate available"
 	} else if 1 <= threatBearing && threatBearing <= 60 {
-		return fmt.Sprintf("%v - between %v and %v", threatBearing, (threatBearing-1)*6, threatBearing*6)
+		return fmt.Sprintf("%v - between %v and %v", threatBearing, (int(threatBearing)-1)*6, int(threatBearing)*6)
 	} else if 61 <= threatBearing && threatBearing <= 63 {
 		return fmt.Sprintf("%v - Not assigned", threatBearing)
 	}
-- 
2.43.0


From ff49e29e2b81a14f31a7c8ac272a73d6163a9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 32/44] fix: reject airborne CPR pairs which correspond to no
 latitude

---
 pkg/geo/cpr_airborne_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_airborne_global_position.go b/pkg/geo/cpr_airborne_global_position.go
index 7da5cbb..aacf514 100644
--- a/pkg/geo/cpr_airborne_global_position.go
+++ b/pkg/geo/cpr_airborne_global_position.go
@@ -49,6 +49,11 @@ func GetCPRAirborneGlobalPosition(
 		latitudeOdd -= 360
 	}
 
+	// A pair of values that were not encoded from (almost) the same position may not correspond to any latitude
+	if latitudeEven > 90 || latitudeOdd > 90 {
+		return 0, 0, errors.New("the encoded values do not correspond to a valid latitude")
+	}
+
 	// Before proceeding to the longitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
 	//values are the same. If not, this means the pair of messages are from different longitude zones,
 	//and it is not possible to compute the correct global position.
-- 
2.43.0


From ed3d056cd857717aae04935a204f7e7d15d5f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 33/44] fix: nearest surface position over the antimeridian

---
 pkg/geo/cpr_surface_global_position.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 771c0b0..ef3c764 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -108,7 +108,8 @@ func GetCPRSurfaceGlobalPosition(
 
 	distancesToRef := [4]float64{}
 	for i, longitudeCorrected := range longitudesCorrected {
-		distancesToRef[i] = math.Abs(referenceLongitude - longitudeCorrected)
+		// The difference of longitude has to be the shortest one, including over the antimeridian
+		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
 	}
 
 	smallestDistance := 10000000.0
-- 
2.43.0


From f4d253d653c1f5392a7c2dfd1f7141511ee2db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 34/44] fix: hemisphere of surface positions near the equator

---
 pkg/geo/cpr_surface_global_position.go | 33 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index ef3c764..7f3479c 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -43,16 +43,9 @@ func GetCPRSurfaceGlobalPosition(
 	latitudeEven := 90 / (4 * Nz) * (mod(latitudeIndex, 4*Nz) + cprLatitudeEven)
 	latitudeOdd := 90 / (4*Nz - 1) * (mod(latitudeIndex, 4*Nz-1) + cprLatitudeOdd)
 
-	// If the reference in the southern hemisphere latitude solution
-	latitudeEvenFixed := latitudeEven
-	if referenceLatitude < 0 {
-		latitudeEvenFixed = latitudeEvenFixed - 90
-	}
-
-	latitudeOddFixed := latitudeOdd
-	if referenceLatitude < 0 {
-		latitudeOddFixed = latitudeOddFixed - 90
-	}
+	// Keep the latitude solution (northern or southern hemisphere) which is the nearest from the reference
+	latitudeEvenFixed := nearestSurfaceLatitude(latitudeEven, referenceLatitude)
+	latitudeOddFixed := nearestSurfaceLatitude(latitudeOdd, referenceLatitude)
 
 	// Before proceeding to the quadrantLongitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
 	//values are the same. If not, this means the pair of messages are from different quadrantLongitude zones,
@@ -125,3 +118,23 @@ func GetCPRSurfaceGlobalPosition(
 
 	return latitude, longitude, nil
 }
+
+// nearestSurfaceLatitude returns the solution for a latitude that is the nearest from the reference. The solutions
+// are 90 degrees apart, so there is one in each hemisphere (and the pole for a latitude at the equator).
+//
+// Params:
+//   - latitude: The northern hemisphere latitude solution
+//   - referenceLatitude: The latitude coming from the reference point
+//
+// Return the nearest latitude.
+func nearestSurfaceLatitude(latitude float64, referenceLatitude float64) float64 {
+
+	nearest := latitude
+	for _, candidate := range []float64{latitude - 90, latitude + 90} {
+		if candidate <= 90 && math.Abs(candidate-referenceLatitude) < math.Abs(nearest-referenceLatitude) {
+			nearest = candidate
+		}
+	}
+
+	return nearest
+}
-- 
2.43.0


From 365a87a2cf3baac69e4ab79671474ce1cbc0f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 35/44] fix: distance between antipodal points

---
 pkg/geo/ground_distance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/geo/ground_distance.go b/pkg/geo/ground_distance.go
index a7ee98d..45cca69 100644
--- a/pkg/geo/ground_distance.go
+++ b/pkg/geo/ground_distance.go
@@ -24,6 +24,9 @@ func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
 
 	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
 
+	// Rounding errors may bring the value slightly over 1 for antipodal points
+	a = math.Min(a, 1)
+
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	metricDistance := earthRadius * c
-- 
2.43.0


From 9d186080cda64c7533963ad48d85e2a6adc63d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 36/44] fix: decode the message given after the options of the
 command line

---
 cmd/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 07d2212..eddeb24 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -44,8 +44,8 @@ func main() {
 		return
 	}
 
-	if len(os.Args) > 1 {
-		processSingleLine(os.Args[1], adsbReaderLevel)
+	if flag.NArg() > 0 {
+		processSingleLine(flag.Arg(0), adsbReaderLevel)
 	} else {
 		fmt.Printf("No data provided")
 	}
-- 
2.43.0


From 19accd7796c0048ad3856dc291af3b4b6d74637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 37/44] fix: end the line of the hexadecimal conversion error

---
 cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index eddeb24..c394b66 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -89,7 +89,7 @@ func processSingleLine(str string, readerLevel adsb.ADSBVersion) {
 
 	binaryData, err := hex.DecodeString(str)
 	if err != nil {
-		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v", err)
+		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v\n", err)
 		return
 	}
 
-- 
2.43.0


From 9fa1056841e8329e2f37a48fc598d0559753301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 38/44] fix: print the content of the rebroadcast ADS-B
 messages

---
 cmd/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index c394b66..219fe38 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -171,7 +171,8 @@ func postProcessMessage17(messageDF17 *modeSMessages.MessageDF17, adsbVersion ad
 func postProcessMessage18(messageDF18 *modeSMessages.MessageDF18, adsbVersion adsb.ADSBVersion) {
 
 	if messageDF18.ControlField == modeSFields.ControlFieldADSB ||
-		messageDF18.ControlField == modeSFields.ControlFieldADSBReserved {
+		messageDF18.ControlField == modeSFields.ControlFieldADSBReserved ||
+		messageDF18.ControlField == modeSFields.ControlFieldADSBRebroadcast {
 		processADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)
 	} else if messageDF18.ControlField == modeSFields.ControlFieldTISBFineFormat ||
 		messageDF18.ControlField == modeSFields.ControlFieldTISBCoarseFormat ||
-- 
2.43.0


From 4dc8b564b97965a37c2e5b438cddc24702c492e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 39/44] fix: do not stop at the overlong lines of a file

---
 cmd/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 219fe38..734b921 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -6,6 +6,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"math"
 	"os"
 
 	resolutionAdvisory "github.com/twuillemin/modes/pkg/acas/ra"
@@ -68,6 +69,8 @@ func readFile(fileName string) []string {
 	result := make([]string, 0, 1000)
 
 	scanner := bufio.NewScanner(file)
+	// Do not stop at a line longer than the default limit of the scanner
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		result = append(result, scanner.Text())
 	}
-- 
2.43.0


From ae88c9875a8d7e77a7c50fbcaa9b9af254cdf742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 40/44] fix: coherency of the unavailable turbulence of BDS 4,4
 V0

---
 pkg/bds/bds44/meteorological_routine_air_report_v0.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bds/bds44/meteorological_routine_air_report_v0.go b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
index 6167636..936c105 100644
--- a/pkg/bds/bds44/meteorological_routine_air_report_v0.go
+++ b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
@@ -89,6 +89,10 @@ func (message MeteorologicalRoutineAirReportV0) CheckCoherency() error {
 		return errors.New("the average static pressure status is set to false, but a average static pressure value is given")
 	}
 
+	if !message.TurbulenceStatus && message.Turbulence != fields.TLNil {
+		return errors.New("the turbulence status is set to false, but a turbulence value is given")
+	}
+
 	if !message.HumidityStatus && message.Humidity != 0 {
 		return errors.New("the humidity status is set to false, but a humidity value is given")
 	}
-- 
2.43.0


From db45b498c831461e003f520168af840901a3aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 41/44] fix: accept BDS 5,0 messages with only one of the
 speeds as coherent

---
 pkg/bds/bds50/track_and_turn_report.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/bds/bds50/track_and_turn_report.go b/pkg/bds/bds50/track_and_turn_report.go
index 080639b..73a59da 100644
--- a/pkg/bds/bds50/track_and_turn_report.go
+++ b/pkg/bds/bds50/track_and_turn_report.go
@@ -95,9 +95,12 @@ func (message TrackAndTurnReport) CheckCoherency() error {
 		return errors.New("the true air speed is too high (above 500 knots)")
 	}
 
-	speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
-	if (speedDifference < -200) || (speedDifference > 200) {
-		return errors.New("the difference between true air speed and ground speed is too high (above 200 knots)")
+	// The speeds can be compared only if both are available
+	if message.GroundSpeedStatus && message.TrueAirSpeedStatus {
+		speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
+		if (speedDifference < -200) || (speedDifference > 200) {
+			return errors.New("the difference between true air speed and ground speed is too high (above 200 knots)")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 53625612d0fd5c1365f31876fe8d38a885c570d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 42/44] fix: coherency of the unavailable modes and target
 altitude source of BDS 4,0

---
 pkg/bds/bds40/selected_vertical_intention.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/bds/bds40/selected_vertical_intention.go b/pkg/bds/bds40/selected_vertical_intention.go
index c63782c..4f56899 100644
--- a/pkg/bds/bds40/selected_vertical_intention.go
+++ b/pkg/bds/bds40/selected_vertical_intention.go
@@ -80,6 +80,14 @@ func (message SelectedVerticalIntention) CheckCoherency() error {
 	}
 
 	// If no data available, it is probably not coherent (a field without value being read as 800)
+	if message.StatusOfModeBits == fields.SMBNoModeInformation && (message.VNAVMode || message.AltitudeHoldMode || message.ApproachMode) {
+		return errors.New("the status of mode bits is set to false, but a mode is given")
+	}
+
+	if message.StatusOfTargetAltitudeSource == fields.STASNoSourceInformation && message.TargetAltitudeSource != 0 {
+		return errors.New("the status of target altitude source is set to false, but a target altitude source is given")
+	}
+
 	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 800 {
 		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
 	}
-- 
2.43.0


From bf14db40ba56db681ca6d0c23713ed0517ecd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 43/44] fix: no panic when reading an airborne position from no
 data

---
 pkg/adsb/airborne_position/airborne_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 70ddabf..219892d 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -8,7 +8,7 @@ import (
 // ReadAirbornePosition reads a message at the format AirbornePosition
 func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool) (adsb.Message, error) {
 
-	if data[0] == 0 {
+	if len(data) > 0 && data[0] == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
 
-- 
2.43.0


From cd72cd1a350fd426d0d848d1fa180c84be008b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 44/44] fix: read type 0 airborne positions having a
 surveillance status

---
 pkg/adsb/airborne_position/airborne_position.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 219892d..b2dfe2b 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -8,7 +8,8 @@ import (
 // ReadAirbornePosition reads a message at the format AirbornePosition
 func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool) (adsb.Message, error) {
 
-	if len(data) > 0 && data[0] == 0 {
+	// The type code is only the 5 first bits
+	if len(data) > 0 && data[0]>>3 == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
 
-- 
2.43.0

