From 1f4cfb3e1cab7ad7f547212e554e67455dc5b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 01/54] fix: do not slice past the end when sizing a VU
 transfer

The size scan sliced data[offset:] after advancing offset by fixed sizes and
stored counts, and panicked when the transfer was truncated.
---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/detailed_speed.go        | 2 +-
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..05e3f8b 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/detailed_speed.go b/internal/vu/detailed_speed.go
index a2b4386..2988c66 100644
--- a/internal/vu/detailed_speed.go
+++ b/internal/vu/detailed_speed.go
@@ -37,7 +37,7 @@ func sizeOfDetailedSpeedGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuDetailedSpeedData: 2 bytes count + variable speed blocks
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpeedBlocks")
 	}
 	noOfSpeedBlocks := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..d52b1ec 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data)-offset)
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From 5b532979f7fd59fa08af46d6724a2388b37e01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 02/54] fix: walk every record array of Gen2 VU activities

The decoder skipped 7 arrays while the size scan (and Appendix 7) has 8 in
version 1 and 10 in version 2, so every well-formed transfer was rejected.
---
 internal/vu/activities_gen2_v1.go |  6 ++++++
 internal/vu/activities_gen2_v2.go | 20 +++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..6e7a458 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -19,6 +19,7 @@ import (
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
 //
@@ -75,6 +76,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..a3b91a3 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -8,7 +8,7 @@ import (
 
 // unmarshalActivitiesGen2V2 parses Gen2 V2 Activities data from the complete transfer value.
 //
-// Gen2 V2 Activities structure is identical to Gen2 V1 (from Data Dictionary):
+// Gen2 V2 Activities structure (from Data Dictionary):
 //
 // ASN.1 Definition:
 //
@@ -19,6 +19,9 @@ import (
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
+//	    vuBorderCrossingRecordArray           VuBorderCrossingRecordArray,
+//	    vuLoadUnloadRecordArray               VuLoadUnloadRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
 //
@@ -75,6 +78,21 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
-- 
2.43.0


From deccabb5c247b0175222fca500f5deb057bb5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 03/54] fix: walk every record array of Gen2 VU events and
 faults

The decoder missed VuOverSpeedingEvent and the version 2 size scan expected an
array that is not part of the transfer, so well-formed transfers were rejected.
---
 internal/vu/events_faults.go         | 8 --------
 internal/vu/events_faults_gen2_v1.go | 5 +++++
 internal/vu/events_faults_gen2_v2.go | 5 +++++
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..198b12b 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,6 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +217,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..cab9245 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,11 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
+
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..6548449 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,11 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
+
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
-- 
2.43.0


From 7988ad2887a5e48bbcd53280f67cf7e215cdb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 04/54] fix: size every record array of Gen2 VU technical data

The size scan covered 4 (version 1) and 7 (version 2) of the 8 arrays, so the
splitter cut the transfer short and the decoder rejected it.
---
 internal/vu/technical_data.go         | 41 +++++++++++++++++++++++++--
 internal/vu/technical_data_gen2_v1.go | 14 ++++-----
 internal/vu/technical_data_gen2_v2.go | 14 ++++-----
 3 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..d4823fe 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -142,7 +170,7 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// SensorExternalGNSSCoupledRecordArray (Gen2 V2+)
+	// SensorExternalGNSSCoupledRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
@@ -156,14 +184,21 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuITSConsentRecordArray (Gen2 V2+)
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
 	}
 	offset += size
 
-	// VuPowerSupplyInterruptionRecordArray (Gen2 V2+)
+	// VuPowerSupplyInterruptionRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
diff --git a/internal/vu/technical_data_gen2_v1.go b/internal/vu/technical_data_gen2_v1.go
index 441cf72..1769ba1 100644
--- a/internal/vu/technical_data_gen2_v1.go
+++ b/internal/vu/technical_data_gen2_v1.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V1(value []byte) (*vuv1.TechnicalDataGen2V1, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
diff --git a/internal/vu/technical_data_gen2_v2.go b/internal/vu/technical_data_gen2_v2.go
index 72fc1d5..14cfaad 100644
--- a/internal/vu/technical_data_gen2_v2.go
+++ b/internal/vu/technical_data_gen2_v2.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V2(value []byte) (*vuv1.TechnicalDataGen2V2, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
-- 
2.43.0


From ca32d33e90ae05efc90086232f58d11eed072a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 05/54] fix: accept card records longer than the scanner's
 default limit

A TLV record may be up to 65540 bytes; bufio.Scanner stops at 65536, so a
well-formed dump with such a record was rejected with 'token too long'.
---
 internal/card/rawcardfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..54d0dfd 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -14,6 +15,9 @@ import (
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	// A record is at most a 5-byte header and a value of 65535 bytes, which is
+	// more than the scanner's default limit.
+	sc.Buffer(nil, 5+math.MaxUint16)
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
-- 
2.43.0


From 0f839939114a66d5f1557c55b17e8ec9dc9ad522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 06/54] fix: look embedded certificates up under their embedded
 path

The embedded file names start with the directory, so no certificate was ever
found in the embedded store and every lookup went to the network.
---
 internal/cert/certcache/embed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index d28f1eb..0268fb3 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -19,7 +19,7 @@ func Root() []byte {
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
 func ReadG1(chr string) ([]byte, bool) {
-	data, err := g1.ReadFile(chr + ".bin")
+	data, err := g1.ReadFile("g1/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
@@ -28,7 +28,7 @@ func ReadG1(chr string) ([]byte, bool) {
 
 // ReadG2 reads a cached Gen2 certificate by its CHR.
 func ReadG2(chr string) ([]byte, bool) {
-	data, err := g2.ReadFile(chr + ".bin")
+	data, err := g2.ReadFile("g2/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
-- 
2.43.0


From db6e94ca4cb9fef8f3795664e144c8be056e000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 07/54] fix: copy card records out of the scanner's buffer

Record bytes kept in the message pointed into the scanner's buffer, which is
refilled while later records are read: with a full set of GNSS records (6048
bytes) earlier records were overwritten.
---
 internal/card/events.go             | 2 +-
 internal/card/faults.go             | 2 +-
 internal/card/gnss_places.go        | 2 +-
 internal/card/vehicle_units_used.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..7908806 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 
 	var records []*cardv1.EventsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..fafe823 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 
 	var records []*cardv1.FaultsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..8e57a1f 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -89,7 +89,7 @@ func parseGNSSAccumulatedDrivingRecords(data []byte, opts UnmarshalOptions) ([]*
 
 	var records []*cardv1.GnssPlaces_Record
 	for scanner.Scan() {
-		record, err := unmarshalGNSSAccumulatedDrivingRecord(scanner.Bytes(), opts)
+		record, err := unmarshalGNSSAccumulatedDrivingRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal GNSS accumulated driving record: %w", err)
 		}
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..bf7a13f 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -91,7 +91,7 @@ func parseCardVehicleUnitRecords(data []byte, opts UnmarshalOptions) ([]*cardv1.
 
 	var records []*cardv1.VehicleUnitsUsed_Record
 	for scanner.Scan() {
-		record, err := unmarshalCardVehicleUnitRecord(scanner.Bytes(), opts)
+		record, err := unmarshalCardVehicleUnitRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal vehicle unit record: %w", err)
 		}
-- 
2.43.0


From 2440d5c28ee946a580397ffe805e60530e39b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 08/54] fix: do not share the caller's bytes with the parsed
 message

Vehicle-unit records, signatures and certificates pointed into the slice given
to UnmarshalFile, so reusing it changed the message.
---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index c9e3cef..43a4219 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -1,6 +1,7 @@
 package tachograph
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -17,6 +18,9 @@ func UnmarshalFile(data []byte) (*tachographv1.File, error) {
 	if len(data) < 2 {
 		return nil, fmt.Errorf("insufficient data for tachograph file: %w", io.ErrUnexpectedEOF)
 	}
+	// Parsed values refer to the bytes they were read from, which must not be the
+	// caller's.
+	data = bytes.Clone(data)
 	var output tachographv1.File
 	switch {
 
-- 
2.43.0


From 786c7f7d9b294b6a46d4a878bc37cb0b940a0a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 09/54] fix: do not share the embedded root key with the root
 certificate

The returned message's modulus and exponent pointed into the package's embedded
copy, so a caller changing the message would have changed the trust anchor.
---
 internal/security/root_certificate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/security/root_certificate.go b/internal/security/root_certificate.go
index 375ab63..af67e09 100644
--- a/internal/security/root_certificate.go
+++ b/internal/security/root_certificate.go
@@ -1,6 +1,7 @@
 package security
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -42,8 +43,8 @@ func UnmarshalRootCertificate(data []byte) (*securityv1.RootCertificate, error)
 	keyIDStr := fmt.Sprintf("%d", keyID)
 
 	// Extract RSA public key components
-	modulus := data[idxModulus : idxModulus+lenModulus]
-	exponent := data[idxExponent : idxExponent+lenExponent]
+	modulus := bytes.Clone(data[idxModulus : idxModulus+lenModulus])
+	exponent := bytes.Clone(data[idxExponent : idxExponent+lenExponent])
 
 	cert := &securityv1.RootCertificate{}
 	cert.SetKeyId(keyIDStr)
-- 
2.43.0


From 92167a1ab17b83eb91fdf02b70f38092a93e9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 10/54] fix: clear the signature-valid flag when a verification
 fails

Early error returns left the flag of an earlier successful verification set.
---
 internal/card/driver_card_file.go |  4 ++++
 internal/security/ecc_verify.go   |  2 ++
 internal/security/rsa_verify.go   | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..25c9f59 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1082,6 +1082,8 @@ func (o VerifyOptions) verifyGen1Certificates(ctx context.Context, tachograph *c
 	if cardCert == nil {
 		return fmt.Errorf("card certificate is missing")
 	}
+	// Not valid until the verification below succeeds.
+	cardCert.SetSignatureValid(false)
 
 	var caCert *securityv1.RsaCertificate
 	var err error
@@ -1134,6 +1136,8 @@ func (o VerifyOptions) verifyGen2Certificates(ctx context.Context, tachographG2
 	if cardSignCert == nil {
 		return fmt.Errorf("card sign certificate is missing")
 	}
+	// Not valid until the verification below succeeds.
+	cardSignCert.SetSignatureValid(false)
 
 	var caCert *securityv1.EccCertificate
 	var err error
diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 42265d4..10b76f9 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -38,6 +38,8 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	// Not valid until the check below succeeds.
+	cert.SetSignatureValid(false)
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 64c5263..531e0dd 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -18,6 +18,11 @@ import (
 //
 // See Appendix 11, Section 3.3 for the complete specification.
 func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securityv1.RsaCertificate) error {
+	if cert == nil {
+		return fmt.Errorf("certificate cannot be nil")
+	}
+	// Not valid until the check below succeeds.
+	cert.SetSignatureValid(false)
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
@@ -38,6 +43,11 @@ func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securit
 // See Appendix 11, Section 2.1 for the root certificate format and Section 3.3 for
 // RSA certificate verification.
 func VerifyRsaCertificateWithRoot(cert *securityv1.RsaCertificate, root *securityv1.RootCertificate) error {
+	if cert == nil {
+		return fmt.Errorf("certificate cannot be nil")
+	}
+	// Not valid until the check below succeeds.
+	cert.SetSignatureValid(false)
 	if root == nil {
 		return fmt.Errorf("root certificate cannot be nil")
 	}
-- 
2.43.0


From 272556270df993a7e73bc33b264d5b7ccc676e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 11/54] fix: refuse an ECC certificate verified with a key it
 does not name

As for RSA certificates, the authority reference must be the holder reference
of the CA certificate whose key is used.
---
 internal/security/ecc_verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 10b76f9..68aab83 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -49,6 +49,11 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 		return fmt.Errorf("invalid certificate length: got %d, want 204-341", len(rawData))
 	}
 
+	// Verify that the certificate names this CA as its issuer
+	if car, chr := cert.GetCertificateAuthorityReference(), caCert.GetCertificateHolderReference(); car != chr {
+		return fmt.Errorf("CAR mismatch: certificate references CAR %s, but CA has CHR %s", car, chr)
+	}
+
 	// Get CA's public key
 	caPubKey := caCert.GetPublicKey()
 	if caPubKey == nil {
-- 
2.43.0


From a7b5a6d25ae12457fc714c7b4c7d0d2b5c7db5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 12/54] fix: pair a card signature only with the file of its
 own generation

A Gen2 signature block following the Gen1 file of the same name (or the other
way round) was stored as that file's signature.
---
 internal/card/driver_card_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 25c9f59..f2bce7a 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -71,7 +71,7 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		var signature []byte
 		if i+1 < len(input.GetRecords()) {
 			nextRecord := input.GetRecords()[i+1]
-			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetGeneration() == record.GetGeneration() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
 				signature = nextRecord.GetValue()
 				i++
 			}
-- 
2.43.0


From bc48c123778fc508ba18ec887ab4e95008356389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 13/54] fix: refuse Gen2-only card files tagged as Gen1

They were stored in the Gen2 application and so written back under a different
tag than they were read from.
---
 internal/card/driver_card_file.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f2bce7a..82162cc 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -450,6 +450,10 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 
 		case cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED:
+			// Only appears in Gen2 DF (Tachograph_G2)
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_VEHICLE_UNITS_USED should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			vehicleUnits, err := opts.unmarshalVehicleUnitsUsed(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -458,13 +462,16 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 				vehicleUnits.SetSignature(signature)
 			}
 
-			// Only Gen2
 			if tachographG2DF == nil {
 				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
 			}
 			tachographG2DF.SetVehicleUnitsUsed(vehicleUnits)
 
 		case cardv1.ElementaryFileType_EF_GNSS_PLACES:
+			// Only appears in Gen2 DF (Tachograph_G2)
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_GNSS_PLACES should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			gnssPlaces, err := opts.unmarshalGnssPlaces(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -473,13 +480,16 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 				gnssPlaces.SetSignature(signature)
 			}
 
-			// Only Gen2
 			if tachographG2DF == nil {
 				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
 			}
 			tachographG2DF.SetGnssPlaces(gnssPlaces)
 
 		case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2:
+			// Only appears in Gen2 DF (Tachograph_G2)
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_APPLICATION_IDENTIFICATION_V2 should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			appIdV2, err := opts.unmarshalApplicationIdentificationV2(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -488,7 +498,6 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 				appIdV2.SetSignature(signature)
 			}
 
-			// Only Gen2
 			if tachographG2DF == nil {
 				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
 			}
-- 
2.43.0


From 88e1462d5045a04daf49b6bea307e445a80068d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 14/54] fix: write every Gen2 card file the parser stores

Identification, driving licence, events, faults, driver activity, current usage,
control activity and card download of the Gen2 application were parsed but
silently left out when serialising.
---
 internal/card/driver_card_file.go | 116 +++++++++++++++++++++++-------
 1 file changed, 92 insertions(+), 24 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 82162cc..e061478 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -658,22 +658,9 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	}
 
 	// 4. EF_IDENTIFICATION (0x0520) - composite file
-	if identification := card.GetTachograph().GetIdentification(); identification != nil {
-		valBuf := make([]byte, 0, 143)
-		valBuf, err = appendCardIdentification(valBuf, identification.GetCard())
-		if err != nil {
-			return nil, err
-		}
-		valBuf, err = appendDriverCardHolderIdentification(valBuf, identification.GetDriverCardHolder())
-		if err != nil {
-			return nil, err
-		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
-			return append(dst, msg.data...), nil
-		})
-		if err != nil {
-			return nil, err
-		}
+	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, card.GetTachograph().GetIdentification(), appendIdentification)
+	if err != nil {
+		return nil, err
 	}
 
 	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, card.GetTachograph().GetEventsData(), appendEventsData)
@@ -731,6 +718,31 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO, tachographG2.GetDrivingLicenceInfo(), appendDrivingLicenceInfo)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, tachographG2.GetIdentification(), appendIdentification)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, tachographG2.GetEventsData(), appendEventsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_FAULTS_DATA, tachographG2.GetFaultsData(), appendFaultsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA, tachographG2.GetDriverActivityData(), appendDriverActivity)
+		if err != nil {
+			return nil, err
+		}
+
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLES_USED, tachographG2.GetVehiclesUsed(), appendVehiclesUsedG2)
 		if err != nil {
 			return nil, err
@@ -741,12 +753,27 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CURRENT_USAGE, tachographG2.GetCurrentUsage(), appendCurrentUsage)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA, tachographG2.GetControlActivityData(), appendCardControlActivityData)
+		if err != nil {
+			return nil, err
+		}
+
 		// SpecificConditions (Gen2)
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS, tachographG2.GetSpecificConditions(), appendCardSpecificConditionsG2)
 		if err != nil {
 			return nil, err
 		}
 
+		dst, err = appendTlvUnsignedG2(dst, cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER, tachographG2.GetCardDownload(), appendCardDownload)
+		if err != nil {
+			return nil, err
+		}
+
 		// Marshal Gen2-exclusive EFs
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED, tachographG2.GetVehicleUnitsUsed(), appendCardVehicleUnitsUsed)
 		if err != nil {
@@ -835,14 +862,14 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	return dst, nil
 }
 
-// compositeMessage is a helper type for marshalling composite TLV values
-type compositeMessage struct {
-	data []byte
-}
-
-// ProtoReflect implements proto.Message
-func (m *compositeMessage) ProtoReflect() protoreflect.Message {
-	return nil // Not needed for our use case
+// appendIdentification appends the card and holder identification that make up
+// EF_Identification.
+func appendIdentification(dst []byte, identification *cardv1.Identification) ([]byte, error) {
+	dst, err := appendCardIdentification(dst, identification.GetCard())
+	if err != nil {
+		return nil, err
+	}
+	return appendDriverCardHolderIdentification(dst, identification.GetDriverCardHolder())
 }
 
 // appendCertificateEF appends a Gen1 certificate EF (which are not signed)
@@ -1022,6 +1049,47 @@ func appendTlvG2[T proto.Message](
 	return dst, nil
 }
 
+// appendTlvUnsignedG2 is like appendTlvG2 but doesn't add a signature block
+func appendTlvUnsignedG2[T proto.Message](
+	dst []byte,
+	fileType cardv1.ElementaryFileType,
+	msg T,
+	appenderFunc func([]byte, T) ([]byte, error),
+) ([]byte, error) {
+	// Use reflection to check if the message is nil
+	msgValue := reflect.ValueOf(msg)
+	if !msgValue.IsValid() || (msgValue.Kind() == reflect.Ptr && msgValue.IsNil()) {
+		return dst, nil // Don't write anything if the message is nil
+	}
+
+	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
+	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
+
+	// Write data tag (FID + appendix 0x02) first - Gen2 DF
+	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
+	dst = append(dst, 0x02) // appendix for Gen2 data
+
+	// Placeholder for length
+	lenPos := len(dst)
+	dst = binary.BigEndian.AppendUint16(dst, 0) // Will be updated later
+
+	valPos := len(dst)
+
+	var err error
+	dst, err = appenderFunc(dst, msg)
+	if err != nil {
+		return nil, err
+	}
+
+	valLen := len(dst) - valPos
+
+	// Update the length field
+	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
+
+	// No signature block for unsigned EFs
+	return dst, nil
+}
+
 // CertificateResolver provides access to tachograph certificates
 // needed for signature verification.
 type CertificateResolver interface {
-- 
2.43.0


From 8fb35b3189596938d469650265d88c02e4796ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 15/54] fix: write the stored signature of a card file

The signature read from the card was dropped and 128 zero bytes written in its
place.
---
 internal/card/driver_card_file.go | 41 ++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index e061478..e0f93b6 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 
 	"google.golang.org/protobuf/proto"
@@ -949,15 +950,28 @@ func appendTlv[T proto.Message](
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x01, 128 bytes of zeros for now)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x01)                       // appendix for signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
+	// Add signature block (FID + appendix 0x01)
+	return appendSignature(dst, uint16(tag), 0x01, msg)
+}
 
-	return dst, nil
+// appendSignature appends the signature block that follows a data block, if the
+// message carries a signature.
+func appendSignature(dst []byte, fid uint16, appendix byte, msg proto.Message) ([]byte, error) {
+	signed, ok := msg.(interface{ GetSignature() []byte })
+	if !ok {
+		return dst, nil
+	}
+	signature := signed.GetSignature()
+	if signature == nil {
+		return dst, nil
+	}
+	if len(signature) > math.MaxUint16 {
+		return nil, fmt.Errorf("signature of card file 0x%04X is too long: %d bytes", fid, len(signature))
+	}
+	dst = binary.BigEndian.AppendUint16(dst, fid)
+	dst = append(dst, appendix)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(len(signature)))
+	return append(dst, signature...), nil
 }
 
 // appendTlvUnsigned is like appendTlv but doesn't add a signature block
@@ -1038,15 +1052,8 @@ func appendTlvG2[T proto.Message](
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x03, 128 bytes of zeros for now) - Gen2 DF
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x03)                       // appendix for Gen2 signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
-
-	return dst, nil
+	// Add signature block (FID + appendix 0x03) - Gen2 DF
+	return appendSignature(dst, uint16(tag), 0x03, msg)
 }
 
 // appendTlvUnsignedG2 is like appendTlvG2 but doesn't add a signature block
-- 
2.43.0


From 5ab6de74b0a60648d78565b7888dc36c13227fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 16/54] fix: refuse card files longer than their length field
 can say

The length was truncated to 16 bits, so the following records were misread.
---
 internal/card/driver_card_file.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index e0f93b6..849b860 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -879,6 +879,9 @@ func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certDat
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("%v is too long: %d bytes", fileType, len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
@@ -899,6 +902,9 @@ func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certD
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("%v is too long: %d bytes", fileType, len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
@@ -946,6 +952,9 @@ func appendTlv[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v is too long: %d bytes", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
@@ -1007,6 +1016,9 @@ func appendTlvUnsigned[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v is too long: %d bytes", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
@@ -1048,6 +1060,9 @@ func appendTlvG2[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v is too long: %d bytes", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
@@ -1089,6 +1104,9 @@ func appendTlvUnsignedG2[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v is too long: %d bytes", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
-- 
2.43.0


From 1f2da043e6f71353c5b5b24fd626f194f80d6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 17/54] fix: keep downloaded certificates inside the output
 directory

The fallback file name came from the website's page unchecked, so '../' in a
link's name made the tool write outside the chosen directory.
---
 tools/cmd/fetch-certs/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 23a3231..d02f429 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -318,7 +318,7 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 			}
 
 			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
+			filename := filepath.Base(meta.name) + ".bin"
 			if chrStr != "" {
 				filename = chrStr + ".bin"
 			}
@@ -417,7 +417,7 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 			}
 
 			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
+			filename := filepath.Base(meta.name) + ".bin"
 			if chrStr != "" {
 				filename = chrStr + ".bin"
 			}
-- 
2.43.0


From 4606cf8c24b8c38e8f05ccb8c325a9152544faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 18/54] fix: report a failure to print the parsed file

'tachograph parse FILE > /dev/full' printed nothing and exited with status 0.
---
 cmd/tachograph/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tachograph/main.go b/cmd/tachograph/main.go
index 0c071e7..297ba43 100644
--- a/cmd/tachograph/main.go
+++ b/cmd/tachograph/main.go
@@ -71,7 +71,9 @@ func newParseCommand() *cobra.Command {
 			if err != nil {
 				return fmt.Errorf("error parsing file %s: %w", filename, err)
 			}
-			fmt.Println(protojson.Format(file))
+			if _, err := fmt.Println(protojson.Format(file)); err != nil {
+				return fmt.Errorf("error printing file %s: %w", filename, err)
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From 117e99f5b9066d5c05501e1d311968848cd8b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 19/54] fix: report enum values without a protocol code instead
 of writing zero

---
 internal/card/application_identification.go    |  5 ++++-
 internal/card/application_identification_g2.go |  5 ++++-
 internal/card/events.go                        |  6 ++++--
 internal/card/faults.go                        |  6 ++++--
 internal/dd/place_record.go                    | 10 ++++++++--
 internal/dd/place_record_g2.go                 | 10 ++++++++--
 internal/dd/vu_card_iw_record.go               |  5 ++++-
 7 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index 83f9c40..072ffd6 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -130,7 +130,10 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card id: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index 72654e3..12fb9de 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -158,7 +158,10 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card id: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/events.go b/internal/card/events.go
index 7908806..ddc5eb2 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -198,10 +198,12 @@ func appendEventRecord(dst []byte, record *cardv1.EventsData_Record) ([]byte, er
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetEventType())
+	protocolValue, err := dd.MarshalEnum(record.GetEventType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal event type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetEventBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append event begin time: %w", err)
diff --git a/internal/card/faults.go b/internal/card/faults.go
index fafe823..7563aed 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -198,10 +198,12 @@ func appendFaultRecord(dst []byte, record *cardv1.FaultsData_Record) ([]byte, er
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetFaultType())
+	protocolValue, err := dd.MarshalEnum(record.GetFaultType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal fault type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetFaultBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append fault begin time: %w", err)
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 79f3c68..7a649bc 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -101,7 +101,10 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		entryTypeProtocol, err = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal entry type: %w", err)
+		}
 	}
 	canvas[4] = entryTypeProtocol
 
@@ -110,7 +113,10 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		countryProtocol, err = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal country: %w", err)
+		}
 	}
 	canvas[5] = countryProtocol
 
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 489dae5..6989aea 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -109,7 +109,10 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		entryTypeProtocol, err = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal entry type: %w", err)
+		}
 	}
 	canvas[4] = entryTypeProtocol
 
@@ -118,7 +121,10 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		countryProtocol, err = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal country: %w", err)
+		}
 	}
 	canvas[5] = countryProtocol
 
diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index c14147f..48ee2e5 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -190,7 +190,10 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 3
 
 	// cardSlotNumber (1 byte)
-	cardSlotNumberByte, _ := MarshalEnum(record.GetCardSlotNumber())
+	cardSlotNumberByte, err := MarshalEnum(record.GetCardSlotNumber())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal card slot number: %w", err)
+	}
 	canvas[offset] = cardSlotNumberByte
 	offset += 1
 
-- 
2.43.0


From bd05f9a3a2a3a470733a36623965425821730577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 20/54] fix: return parse failures instead of dropping what
 follows

---
 internal/card/identification.go         | 79 ++++++++-----------------
 internal/card/specific_conditions.go    |  2 +-
 internal/card/specific_conditions_g2.go |  2 +-
 internal/card/vehicles_used.go          |  4 +-
 internal/card/vehicles_used_g2.go       |  4 +-
 internal/security/rsa_verify.go         |  6 +-
 6 files changed, 34 insertions(+), 63 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..7a216e5 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -87,64 +87,33 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 
 	// Try to parse as driver card first (14 + 1 + 1 format)
 	driverIdentification, err := opts.UnmarshalIa5StringValue(cardNumberData[0:14])
-	if err == nil {
-		// Check if bytes 14 and 15 are single digits (0-9)
-		replacementByte := cardNumberData[14]
-		renewalByte := cardNumberData[15]
-		if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
-			// This looks like a driver card format
-			driverID := &ddv1.DriverIdentification{}
-			driverID.SetDriverIdentificationNumber(driverIdentification)
-
-			// Parse replacement and renewal indices (1 byte each)
-			replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
-			if err == nil {
-				driverID.SetCardReplacementIndex(replacementIndex)
-			}
-			renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
-			if err == nil {
-				driverID.SetCardRenewalIndex(renewalIndex)
-			}
-
-			cardId.SetDriverIdentification(driverID)
-			identification.SetCardType(cardv1.CardType_DRIVER_CARD)
-		} else {
-			// Fall back to other card format
-			ownerID := &ddv1.OwnerIdentification{}
-
-			// Owner identification (13 bytes)
-			ownerIdentification, err := opts.UnmarshalIa5StringValue(cardNumberData[0:13])
-			if err != nil {
-				return nil, fmt.Errorf("failed to read owner identification: %w", err)
-			}
-			ownerID.SetOwnerIdentification(ownerIdentification)
-
-			// Consecutive index (1 byte)
-			consecutiveIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[13:14])
-			if err != nil {
-				return nil, fmt.Errorf("failed to read consecutive index: %w", err)
-			}
-			ownerID.SetConsecutiveIndex(consecutiveIndex)
-
-			// Replacement index (1 byte)
-			replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
-			if err != nil {
-				return nil, fmt.Errorf("failed to read replacement index: %w", err)
-			}
-			ownerID.SetReplacementIndex(replacementIndex)
-
-			// Renewal index (1 byte)
-			renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
-			if err != nil {
-				return nil, fmt.Errorf("failed to read renewal index: %w", err)
-			}
-			ownerID.SetRenewalIndex(renewalIndex)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read driver identification: %w", err)
+	}
+	// Check if bytes 14 and 15 are single digits (0-9)
+	replacementByte := cardNumberData[14]
+	renewalByte := cardNumberData[15]
+	if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
+		// This looks like a driver card format
+		driverID := &ddv1.DriverIdentification{}
+		driverID.SetDriverIdentificationNumber(driverIdentification)
 
-			cardId.SetOwnerIdentification(ownerID)
-			identification.SetCardType(cardv1.CardType_WORKSHOP_CARD) // Default to workshop card
+		// Parse replacement and renewal indices (1 byte each)
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to read replacement index: %w", err)
 		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to read renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
+
+		cardId.SetDriverIdentification(driverID)
+		identification.SetCardType(cardv1.CardType_DRIVER_CARD)
 	} else {
-		// Try to parse as other card format (13 + 1 + 1 + 1 format)
+		// Fall back to other card format
 		ownerID := &ddv1.OwnerIdentification{}
 
 		// Owner identification (13 bytes)
diff --git a/internal/card/specific_conditions.go b/internal/card/specific_conditions.go
index bc62edc..c328047 100644
--- a/internal/card/specific_conditions.go
+++ b/internal/card/specific_conditions.go
@@ -41,7 +41,7 @@ func (opts UnmarshalOptions) unmarshalSpecificConditions(data []byte) (*cardv1.S
 	for offset+lenSpecificConditionRecord <= len(data) {
 		record, err := opts.UnmarshalSpecificConditionRecord(data[offset : offset+lenSpecificConditionRecord])
 		if err != nil {
-			break // Stop parsing on error, but return what we have
+			return nil, fmt.Errorf("failed to parse specific condition record: %w", err)
 		}
 		records = append(records, record)
 		offset += lenSpecificConditionRecord
diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..78576ae 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -47,7 +47,7 @@ func (opts UnmarshalOptions) unmarshalSpecificConditionsG2(data []byte) (*cardv1
 	for offset+lenSpecificConditionRecord <= len(recordsData) {
 		record, err := opts.UnmarshalSpecificConditionRecord(recordsData[offset : offset+lenSpecificConditionRecord])
 		if err != nil {
-			break // Stop parsing on error, but return what we have
+			return nil, fmt.Errorf("failed to parse specific condition record: %w", err)
 		}
 		records = append(records, record)
 		offset += lenSpecificConditionRecord
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index ef945c9..4004dff 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -60,12 +60,12 @@ func parseVehicleRecordsGen1(r *bytes.Reader, opts dd.UnmarshalOptions) ([]*ddv1
 	for r.Len() >= lenCardVehicleRecord {
 		recordBytes := make([]byte, lenCardVehicleRecord)
 		if _, err := r.Read(recordBytes); err != nil {
-			break // Stop parsing on error, but return what we have
+			return nil, fmt.Errorf("failed to read Gen1 vehicle record: %w", err)
 		}
 
 		record, err := opts.UnmarshalCardVehicleRecord(recordBytes)
 		if err != nil {
-			return records, fmt.Errorf("failed to parse Gen1 vehicle record: %w", err)
+			return nil, fmt.Errorf("failed to parse Gen1 vehicle record: %w", err)
 		}
 		records = append(records, record)
 	}
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 1694a59..4f45488 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -60,12 +60,12 @@ func parseVehicleRecordsGen2(r *bytes.Reader, opts dd.UnmarshalOptions) ([]*ddv1
 	for r.Len() >= lenCardVehicleRecord {
 		recordBytes := make([]byte, lenCardVehicleRecord)
 		if _, err := r.Read(recordBytes); err != nil {
-			break // Stop parsing on error, but return what we have
+			return nil, fmt.Errorf("failed to read Gen2 vehicle record: %w", err)
 		}
 
 		record, err := opts.UnmarshalCardVehicleRecordG2(recordBytes)
 		if err != nil {
-			return records, fmt.Errorf("failed to parse Gen2 vehicle record: %w", err)
+			return nil, fmt.Errorf("failed to parse Gen2 vehicle record: %w", err)
 		}
 		records = append(records, record)
 	}
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 531e0dd..dd35141 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -221,9 +221,11 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	chrStr := fmt.Sprintf("%d", chr)
 
 	// Extract EOV (End Of Validity)
-	// If parsing fails (e.g., 0xFFFFFFFF indicating no expiry), we continue anyway
 	eovBytes := cPrime[idxEOV : idxEOV+lenEOV]
-	eov, _ := unmarshalTimeReal(eovBytes)
+	eov, err := unmarshalTimeReal(eovBytes)
+	if err != nil {
+		return fmt.Errorf("failed to parse end of validity: %w", err)
+	}
 
 	// Extract RSA public key
 	certModulus := cPrime[idxModulus : idxModulus+lenModulus]
-- 
2.43.0


From 5b5506724175ee47ebcf26bec66587b28cb19aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 21/54] fix: map the issuing member state of a full card number
 through its code table

---
 internal/dd/full_card_number.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..8f3afe6 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,8 +45,12 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	if issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1]); err == nil {
+		cardNumber.SetCardIssuingMemberState(issuingState)
+	} else {
+		// Value not recognized - set UNRECOGNIZED (no unrecognized field for this type)
+		cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
+	}
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
@@ -106,7 +110,11 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	issuingState, err := MarshalEnum(cardNumber.GetCardIssuingMemberState())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal card issuing member state: %w", err)
+	}
+	dst = append(dst, issuingState)
 
 	// Append card number based on card type (16 bytes with padding if needed)
 	switch cardNumber.GetCardType() {
-- 
2.43.0


From 1a2313e378805485b587324d2fe6aec80ead869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 22/54] fix: map card slot types through their code table

---
 internal/vu/overview_gen1.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 59f1884..02eb78f 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -137,8 +137,14 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		return nil, fmt.Errorf("insufficient data for CardSlotsStatus")
 	}
 	cardSlotsStatus := value[offset]
-	driverSlot := ddv1.SlotCardType(cardSlotsStatus & 0x0F)
-	coDriverSlot := ddv1.SlotCardType((cardSlotsStatus >> 4) & 0x0F)
+	driverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType](cardSlotsStatus & 0x0F)
+	if err != nil {
+		driverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
+	coDriverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType]((cardSlotsStatus >> 4) & 0x0F)
+	if err != nil {
+		coDriverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
 	overview.SetDriverSlotCard(driverSlot)
 	overview.SetCoDriverSlotCard(coDriverSlot)
 	offset += 1
-- 
2.43.0


From 0125a894f3dde329f67a22bf2281b4ee7ccb43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 23/54] fix: encode strings in the code page they are stored
 under

---
 internal/dd/string_value.go | 78 ++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..529ff54 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -198,55 +198,56 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		return "", nil
 	}
 
-	// Map code page to character map
-	var cmap *charmap.Charmap
+	dec := charmapForCodePage(codePage).NewDecoder()
+	res, err := dec.String(string(data))
+	if err != nil {
+		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
+	}
+
+	// The character map decoder should produce valid UTF-8, but let's be safe
+	trimmed := string(trimSpaceAndZeroBytes([]byte(res)))
+
+	// If the result is not valid UTF-8, convert it to valid UTF-8
+	if !utf8.ValidString(trimmed) {
+		// Convert invalid UTF-8 sequences to replacement characters
+		trimmed = strings.ToValidUTF8(trimmed, string(utf8.RuneError))
+	}
+
+	return trimmed, nil
+}
+
+// charmapForCodePage maps a code page byte to its character map.
+func charmapForCodePage(codePage byte) *charmap.Charmap {
 	switch codePage {
 	case 0:
 		// Default to ISO-8859-1 for code page 0 (ASCII-compatible)
-		cmap = charmap.ISO8859_1
+		return charmap.ISO8859_1
 	case 1:
-		cmap = charmap.ISO8859_1
+		return charmap.ISO8859_1
 	case 2:
-		cmap = charmap.ISO8859_2
+		return charmap.ISO8859_2
 	case 3:
-		cmap = charmap.ISO8859_3
+		return charmap.ISO8859_3
 	case 5:
-		cmap = charmap.ISO8859_5
+		return charmap.ISO8859_5
 	case 7:
-		cmap = charmap.ISO8859_7
+		return charmap.ISO8859_7
 	case 9:
-		cmap = charmap.ISO8859_9
+		return charmap.ISO8859_9
 	case 13:
-		cmap = charmap.ISO8859_13
+		return charmap.ISO8859_13
 	case 15:
-		cmap = charmap.ISO8859_15
+		return charmap.ISO8859_15
 	case 16:
-		cmap = charmap.ISO8859_16
+		return charmap.ISO8859_16
 	case 80:
-		cmap = charmap.KOI8R
+		return charmap.KOI8R
 	case 85:
-		cmap = charmap.KOI8U
+		return charmap.KOI8U
 	default:
 		// For unrecognized code pages, fall back to ISO-8859-1
-		cmap = charmap.ISO8859_1
+		return charmap.ISO8859_1
 	}
-
-	dec := cmap.NewDecoder()
-	res, err := dec.String(string(data))
-	if err != nil {
-		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
-	}
-
-	// The character map decoder should produce valid UTF-8, but let's be safe
-	trimmed := string(trimSpaceAndZeroBytes([]byte(res)))
-
-	// If the result is not valid UTF-8, convert it to valid UTF-8
-	if !utf8.ValidString(trimmed) {
-		// Convert invalid UTF-8 sequences to replacement characters
-		trimmed = strings.ToValidUTF8(trimmed, string(utf8.RuneError))
-	}
-
-	return trimmed, nil
 }
 
 // getCodePageFromEncoding maps an Encoding enum to a code page byte.
@@ -284,20 +285,15 @@ func getCodePageFromEncoding(encoding ddv1.Encoding) byte {
 }
 
 // encodeWithCodePage encodes a string to bytes using the specified code page.
-// For now, this is a simple implementation that only handles ASCII-compatible encodings.
 func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 	// For code page 255 (empty), return empty bytes
 	if codePage == 255 {
 		return []byte{}, nil
 	}
 
-	// For ASCII-compatible code pages (0, 1), we can just convert to bytes
-	// TODO: Implement proper encoding for other code pages using charmap.Encoder
-	if codePage == 0 || codePage == 1 {
-		return []byte(s), nil
+	encoded, err := charmapForCodePage(codePage).NewEncoder().String(s)
+	if err != nil {
+		return nil, fmt.Errorf("could not encode code page %d string: %w", codePage, err)
 	}
-
-	// For now, fall back to ISO-8859-1 encoding for other code pages
-	// This is a simplification and should be enhanced for full support
-	return []byte(s), nil
+	return []byte(encoded), nil
 }
-- 
2.43.0


From fd05935ddfd0254a0a01d213671af7a79977cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 24/54] fix: keep an unrecognized code page when writing a
 string back

---
 internal/dd/string_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 529ff54..8908cb0 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -100,7 +100,10 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
 		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// (an unrecognized code page is only known from raw_data)
+		if sv.GetEncoding() != ddv1.Encoding_ENCODING_UNRECOGNIZED {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
-- 
2.43.0


From 58a812a9251ad866be283db67e02da7b72c17017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 25/54] fix: parse the Gen2 card mutual authentication
 certificate, which shares its FID with the Gen1 card certificate

---
 internal/card/driver_card_file.go | 66 ++++++++++++++-----------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 849b860..0adc75d 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -504,44 +504,38 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 			tachographG2DF.SetApplicationIdentificationV2(appIdV2)
 
-		case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE:
-			// Gen1: Card authentication certificate
-			// Only appears in Gen1 DF (Tachograph)
-			if efGeneration != ddv1.Generation_GENERATION_1 {
-				return nil, fmt.Errorf("EF_CARD_CERTIFICATE should only appear in Gen1 DF, got generation: %v", efGeneration)
-			}
-			if tachographDF == nil {
-				tachographDF = &cardv1.DriverCardFile_Tachograph{}
-			}
-			rsaCert, err := security.UnmarshalRsaCertificate(record.GetValue())
-			if err != nil {
-				return nil, fmt.Errorf("failed to parse EF_CARD_CERTIFICATE: %w", err)
-			}
-			cert := &cardv1.CardCertificate{}
-			cert.SetRsaCertificate(rsaCert)
-			tachographDF.SetCardCertificate(cert)
-			if signature != nil {
-				return nil, fmt.Errorf("unexpected signature for EF_CARD_CERTIFICATE")
-			}
-
-		case cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE:
-			// Gen2: Card mutual authentication certificate (replaces Gen1 Card_Certificate)
-			// Only appears in Gen2 DF (Tachograph_G2)
-			if efGeneration != ddv1.Generation_GENERATION_2 {
-				return nil, fmt.Errorf("EF_CARD_MA_CERTIFICATE should only appear in Gen2 DF, got generation: %v", efGeneration)
-			}
-			if tachographG2DF == nil {
-				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
-			}
-			eccCert, err := security.UnmarshalEccCertificate(record.GetValue())
-			if err != nil {
-				return nil, fmt.Errorf("failed to parse EF_CARD_MA_CERTIFICATE: %w", err)
+		case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE, cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE:
+			// Both certificates have FID C100h, the DF tells them apart
+			switch efGeneration {
+			case ddv1.Generation_GENERATION_1:
+				// Gen1: Card authentication certificate
+				if tachographDF == nil {
+					tachographDF = &cardv1.DriverCardFile_Tachograph{}
+				}
+				rsaCert, err := security.UnmarshalRsaCertificate(record.GetValue())
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse EF_CARD_CERTIFICATE: %w", err)
+				}
+				cert := &cardv1.CardCertificate{}
+				cert.SetRsaCertificate(rsaCert)
+				tachographDF.SetCardCertificate(cert)
+			case ddv1.Generation_GENERATION_2:
+				// Gen2: Card mutual authentication certificate (replaces Gen1 Card_Certificate)
+				if tachographG2DF == nil {
+					tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
+				}
+				eccCert, err := security.UnmarshalEccCertificate(record.GetValue())
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse EF_CARD_MA_CERTIFICATE: %w", err)
+				}
+				cert := &cardv1.CardMaCertificate{}
+				cert.SetEccCertificate(eccCert)
+				tachographG2DF.SetCardMaCertificate(cert)
+			default:
+				return nil, fmt.Errorf("unexpected generation for %v: %v", record.GetFile(), efGeneration)
 			}
-			cert := &cardv1.CardMaCertificate{}
-			cert.SetEccCertificate(eccCert)
-			tachographG2DF.SetCardMaCertificate(cert)
 			if signature != nil {
-				return nil, fmt.Errorf("unexpected signature for EF_CARD_MA_CERTIFICATE")
+				return nil, fmt.Errorf("unexpected signature for %v", record.GetFile())
 			}
 
 		case cardv1.ElementaryFileType_EF_CARD_SIGN_CERTIFICATE:
-- 
2.43.0


From a6a3d984ebe8d9e3667acb997fe7a3bbb2592b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 26/54] fix: list the output directory instead of globbing its
 name

---
 tools/cmd/fetch-certs/main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index d02f429..d60cabd 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -194,13 +194,17 @@ func createDirectoryStructure(baseDir string) error {
 		}
 
 		// Remove existing .bin files to ensure clean state
-		files, err := filepath.Glob(filepath.Join(dir, "*.bin"))
+		// (the directory is listed rather than globbed: its name may itself contain pattern characters)
+		files, err := os.ReadDir(dir)
 		if err != nil {
 			return fmt.Errorf("failed to list files in %s: %w", dir, err)
 		}
 		for _, file := range files {
-			if err := os.Remove(file); err != nil {
-				return fmt.Errorf("failed to remove file %s: %w", file, err)
+			if file.IsDir() || filepath.Ext(file.Name()) != ".bin" {
+				continue
+			}
+			if err := os.Remove(filepath.Join(dir, file.Name())); err != nil {
+				return fmt.Errorf("failed to remove file %s: %w", file.Name(), err)
 			}
 		}
 	}
-- 
2.43.0


From d4d4c58b4fbc6213975e13d8ecb4d72812491f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 27/54] fix: compute the end of a raw card record's value
 without 16-bit overflow

---
 internal/card/rawcardfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 54d0dfd..87c4718 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -91,7 +91,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-	copy(value, input[5:5+length])
+	copy(value, input[5:5+int(length)])
 	output.SetValue(value)
 	// Determine content type and generation based on appendix byte
 	// Per Chapter 12: Appendix encodes both content type and generation in bit pattern
-- 
2.43.0


From 1bade0dae46278f049ef3c57ffec0807c62f9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 28/54] fix: refuse a specific-conditions raw_data shorter than
 its pointer instead of panicking

---
 internal/card/specific_conditions_g2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 78576ae..20e2f56 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -79,6 +79,10 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 			recordSize = 5
 		)
 
+		if len(rawData) < lenPointer {
+			return nil, fmt.Errorf("invalid raw_data length for SpecificConditions: got %d, want at least %d", len(rawData), lenPointer)
+		}
+
 		// Make a copy to use as canvas
 		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
-- 
2.43.0


From 147a936d1dcc0553b77e47e1ae73de313f7b6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 29/54] fix: refuse activity records that do not fit their
 16-bit record length

---
 internal/card/activity.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..349f632 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
 
@@ -443,6 +444,9 @@ func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyReco
 func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error) {
 	// Use original record length if available (preserves padding)
 	if recordLength := rec.GetActivityRecordLength(); recordLength > 0 {
+		if recordLength > math.MaxUint16 {
+			return 0, fmt.Errorf("activity record length %d does not fit in 16 bits", recordLength)
+		}
 		return int(recordLength), nil
 	}
 
@@ -457,6 +461,9 @@ func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error
 
 	size := lenHeader + lenTimeReal + lenDailyPresenceCounter + lenDayDistance
 	size += len(rec.GetActivityChangeInfo()) * lenActivityChangeInfo
+	if size > math.MaxUint16 {
+		return 0, fmt.Errorf("activity record length %d does not fit in 16 bits", size)
+	}
 
 	return size, nil
 }
@@ -492,6 +499,10 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		}
 	}
 
+	if len(buf) > currentRecordLength {
+		return nil, fmt.Errorf("activity record of %d bytes does not fit its record length %d", len(buf), currentRecordLength)
+	}
+
 	// Add padding if the current length is less than the expected record length
 	// This preserves any padding bytes that were in the original record
 	if len(buf) < currentRecordLength {
-- 
2.43.0


From 563731a82b24f7da2fd9fa3fb9d47caf594cf392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 30/54] fix: refuse a CA key that is not a point on its curve
 instead of panicking

---
 internal/security/ecc_verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 68aab83..045dca8 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -119,6 +119,10 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	// Construct CA's public key
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
+	// The verification below panics on a point that is not on the curve.
+	if !curve.IsOnCurve(caX, caY) {
+		return fmt.Errorf("CA certificate public key is not a point on its curve")
+	}
 
 	caPub := &ecdsa.PublicKey{
 		Curve: curve,
-- 
2.43.0


From c5a277a8e0aaf36226b59a2ef8d8bbe6f21cf4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 31/54] fix: refuse a CA key with a zero RSA modulus instead of
 computing the full power

---
 internal/security/rsa_verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index dd35141..0975f3b 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -139,6 +139,10 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	sigInt := new(big.Int).SetBytes(signature)
 	modulus := new(big.Int).SetBytes(caModulus)
 	exponent := new(big.Int).SetBytes(caExponent)
+	// Without a modulus, Exp computes the full power.
+	if modulus.Sign() == 0 {
+		return fmt.Errorf("CA public key has a zero modulus")
+	}
 
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
 	srPrime := recovered.Bytes()
-- 
2.43.0


From 9a9035b1db134b4f252958b87dade514b2e01d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 32/54] fix: refuse a daily record longer than its cyclic
 buffer instead of allocating and repeating it

---
 internal/card/activity.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 349f632..e7bccb9 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -310,6 +310,11 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// A record cannot be longer than the buffer it is stored in.
+	if currentRecordLength > len(it.buffer) {
+		it.err = fmt.Errorf("record length %d at position %d exceeds the %d bytes of the buffer", currentRecordLength, it.currentPos, len(it.buffer))
+		return false
+	}
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
-- 
2.43.0


From c40f800a0dd1fe17d39e23d65ea392185b6467f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 33/54] fix: follow the daily-record chain through a record
 header that wraps around the buffer

---
 internal/card/activity.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index e7bccb9..7058d47 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -296,12 +296,17 @@ func (it *cyclicRecordIterator) Next() bool {
 		return false // No data to parse
 	}
 	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
+	if it.currentPos < 0 || it.currentPos >= len(it.buffer) {
 		return false // Invalid position for header
 	}
-	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	// Read record header (4 bytes: prevRecordLength + currentRecordLength).
+	// Like the rest of the record, it may wrap around the end of the buffer.
+	var header [4]byte
+	for i := range header {
+		header[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
+	}
+	prevRecordLength := int(binary.BigEndian.Uint16(header[0:2]))
+	currentRecordLength := int(binary.BigEndian.Uint16(header[2:4]))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
-- 
2.43.0


From ed02611d99154061fabf494eec37f053d344b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 34/54] fix: write card numbers of a fixed-size record with
 exactly their size

---
 internal/dd/full_card_number.go               | 24 +++++++++++++------
 .../dd/full_card_number_and_generation.go     | 10 +++-----
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 8f3afe6..6b72891 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -157,17 +157,27 @@ func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, m
 		return nil, fmt.Errorf("cardNumber cannot be nil")
 	}
 
+	start := len(dst)
+
 	// Handle the CardNumber CHOICE based on card type
+	var number *ddv1.Ia5StringValue
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
-		}
+		number = cardNumber.GetDriverIdentification().GetDriverIdentificationNumber()
 	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
-		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
-			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
-		}
+		number = cardNumber.GetOwnerIdentification().GetOwnerIdentification()
 	}
 
-	return AppendStringValue(dst, nil)
+	dst, err := AppendIa5StringValue(dst, number)
+	if err != nil {
+		return nil, err
+	}
+	// The string occupies a fixed number of bytes
+	if n := len(dst) - start; n > maxLen {
+		return nil, fmt.Errorf("card number has %d bytes, want at most %d", n, maxLen)
+	}
+	for len(dst)-start < maxLen {
+		dst = append(dst, ' ')
+	}
+	return dst, nil
 }
diff --git a/internal/dd/full_card_number_and_generation.go b/internal/dd/full_card_number_and_generation.go
index 0438528..c5564e8 100644
--- a/internal/dd/full_card_number_and_generation.go
+++ b/internal/dd/full_card_number_and_generation.go
@@ -75,13 +75,9 @@ func AppendFullCardNumberAndGeneration(dst []byte, fullCardNumberAndGen *ddv1.Fu
 	}
 
 	// Append full card number (variable length)
-	fullCardNumber := fullCardNumberAndGen.GetFullCardNumber()
-	if fullCardNumber != nil {
-		var err error
-		dst, err = AppendFullCardNumber(dst, fullCardNumber)
-		if err != nil {
-			return nil, fmt.Errorf("failed to append full card number: %w", err)
-		}
+	dst, err := AppendFullCardNumber(dst, fullCardNumberAndGen.GetFullCardNumber())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append full card number: %w", err)
 	}
 
 	// Append generation (1 byte)
-- 
2.43.0


From b6a5b451ec340cf3209743b5e8255aadc0154c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 35/54] fix: refuse card records that do not have the size of
 their record

---
 internal/card/events.go             | 7 ++++++-
 internal/card/faults.go             | 7 ++++++-
 internal/card/gnss_places.go        | 2 +-
 internal/card/vehicle_units_used.go | 2 +-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index ddc5eb2..4a7a60f 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -195,7 +195,12 @@ func appendEventsData(dst []byte, data *cardv1.EventsData) ([]byte, error) {
 //	}
 func appendEventRecord(dst []byte, record *cardv1.EventsData_Record) ([]byte, error) {
 	if !record.GetValid() {
-		return append(dst, record.GetRawData()...), nil
+		const lenCardEventRecord = 24
+		rawData := record.GetRawData()
+		if len(rawData) != lenCardEventRecord {
+			return nil, fmt.Errorf("invalid raw_data length for event record: got %d, want %d", len(rawData), lenCardEventRecord)
+		}
+		return append(dst, rawData...), nil
 	}
 
 	protocolValue, err := dd.MarshalEnum(record.GetEventType())
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7563aed..0037220 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -195,7 +195,12 @@ func appendFaultsData(dst []byte, data *cardv1.FaultsData) ([]byte, error) {
 //	}
 func appendFaultRecord(dst []byte, record *cardv1.FaultsData_Record) ([]byte, error) {
 	if !record.GetValid() {
-		return append(dst, record.GetRawData()...), nil
+		const lenCardFaultRecord = 24
+		rawData := record.GetRawData()
+		if len(rawData) != lenCardFaultRecord {
+			return nil, fmt.Errorf("invalid raw_data length for fault record: got %d, want %d", len(rawData), lenCardFaultRecord)
+		}
+		return append(dst, rawData...), nil
 	}
 
 	protocolValue, err := dd.MarshalEnum(record.GetFaultType())
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index 8e57a1f..fcdefc7 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -200,7 +200,7 @@ func appendCardGnssPlaces(dst []byte, gnssPlaces *cardv1.GnssPlaces) ([]byte, er
 //   - 3 bytes: OdometerShort vehicleOdometerValue
 func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Record) ([]byte, error) {
 	if record == nil {
-		return dst, nil
+		return nil, fmt.Errorf("GNSS accumulated driving record cannot be nil")
 	}
 
 	// Append timestamp (TimeReal - 4 bytes)
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index bf7a13f..a877c76 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -201,7 +201,7 @@ func appendCardVehicleUnitsUsed(dst []byte, vehicleUnits *cardv1.VehicleUnitsUse
 //   - 4 bytes: VuSoftwareVersion (IA5String)
 func appendCardVehicleUnitRecord(dst []byte, record *cardv1.VehicleUnitsUsed_Record) ([]byte, error) {
 	if record == nil {
-		return dst, nil
+		return nil, fmt.Errorf("vehicle unit record cannot be nil")
 	}
 
 	// Append timestamp (TimeReal - 4 bytes)
-- 
2.43.0


From eb2e217275c03fefd9f7fe9689d4dedb2b8fe909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 36/54] fix: refuse strings that do not fill their place in a
 fixed layout

---
 internal/card/driving_licence.go     |  4 ++--
 internal/card/icc.go                 |  9 ++++++---
 internal/card/identification.go      | 12 ++++++------
 internal/dd/driver_identification.go |  2 +-
 internal/dd/holder_name.go           |  4 ++--
 internal/dd/ia5_string_value.go      | 22 ++++++++++++++++++++++
 internal/dd/owner_identification.go  |  8 ++++----
 internal/dd/string_value.go          | 23 +++++++++++++++++++++++
 internal/dd/vehicle_registration.go  |  2 +-
 9 files changed, 67 insertions(+), 19 deletions(-)

diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 9b044ce..580abf9 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -85,7 +85,7 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 		return dst, nil
 	}
 	var err error
-	dst, err = dd.AppendStringValue(dst, dli.GetDrivingLicenceIssuingAuthority())
+	dst, err = dd.AppendFixedStringValue(dst, dli.GetDrivingLicenceIssuingAuthority(), 36)
 	if err != nil {
 		return nil, err
 	}
@@ -95,7 +95,7 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 		return nil, fmt.Errorf("failed to marshal nation: %w", err)
 	}
 	dst = append(dst, nationByte)
-	dst, err = dd.AppendIa5StringValue(dst, dli.GetDrivingLicenceNumber())
+	dst, err = dd.AppendFixedIa5StringValue(dst, dli.GetDrivingLicenceNumber(), 16)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append driving licence number: %w", err)
 	}
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 8606bee..65cb68f 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -188,7 +188,7 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append card approval number (8 bytes)
-	dst, err = dd.AppendIa5StringValue(dst, icc.GetCardApprovalNumber())
+	dst, err = dd.AppendFixedIa5StringValue(dst, icc.GetCardApprovalNumber(), lenCardApprovalNumber)
 	if err != nil {
 		return nil, err
 	}
@@ -203,6 +203,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append IC identifier (2 bytes)
+	if n := len(icc.GetIcIdentifier()); n != lenIcIdentifier {
+		return nil, fmt.Errorf("invalid IC identifier length: got %d, want %d", n, lenIcIdentifier)
+	}
 	dst = append(dst, icc.GetIcIdentifier()...)
 	return dst, nil
 }
@@ -218,13 +221,13 @@ func appendEmbedderIcAssemblerId(dst []byte, eia *cardv1.Icc_EmbedderIcAssembler
 
 	var err error
 	// Append country code (2 bytes, IA5String)
-	dst, err = dd.AppendIa5StringValue(dst, eia.GetCountryCode())
+	dst, err = dd.AppendFixedIa5StringValue(dst, eia.GetCountryCode(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append country code: %w", err)
 	}
 
 	// Append module embedder (2 bytes, IA5String)
-	dst, err = dd.AppendIa5StringValue(dst, eia.GetModuleEmbedder())
+	dst, err = dd.AppendFixedIa5StringValue(dst, eia.GetModuleEmbedder(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append module embedder: %w", err)
 	}
diff --git a/internal/card/identification.go b/internal/card/identification.go
index 7a216e5..3c22280 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -262,7 +262,7 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 //	}
 func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byte, error) {
 	if id == nil {
-		return dst, nil
+		return nil, fmt.Errorf("card identification cannot be nil")
 	}
 	// Append cardIssuingMemberState (1 byte) - get protocol value from enum
 	memberState := id.GetCardIssuingMemberState()
@@ -366,7 +366,7 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		}
 	}
 	dst = append(dst, cardNumberBytes...)
-	dst, err = dd.AppendStringValue(dst, id.GetCardIssuingAuthorityName())
+	dst, err = dd.AppendFixedStringValue(dst, id.GetCardIssuingAuthorityName(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card issuing authority name: %w", err)
 	}
@@ -399,15 +399,15 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 //	}
 func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_DriverCardHolder) ([]byte, error) {
 	if h == nil {
-		return dst, nil
+		return nil, fmt.Errorf("card holder identification cannot be nil")
 	}
 	var err error
 	nameBlock := make([]byte, 0, 72)
-	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderSurname())
+	nameBlock, err = dd.AppendFixedStringValue(nameBlock, h.GetCardHolderSurname(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder surname: %w", err)
 	}
-	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderFirstNames())
+	nameBlock, err = dd.AppendFixedStringValue(nameBlock, h.GetCardHolderFirstNames(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder first names: %w", err)
 	}
@@ -424,7 +424,7 @@ func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_D
 		dst = append(dst, 0x00, 0x00, 0x00, 0x00)
 	}
 
-	dst, err = dd.AppendIa5StringValue(dst, h.GetCardHolderPreferredLanguage())
+	dst, err = dd.AppendFixedIa5StringValue(dst, h.GetCardHolderPreferredLanguage(), 2)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append preferred language: %w", err)
 	}
diff --git a/internal/dd/driver_identification.go b/internal/dd/driver_identification.go
index 31de0e8..e0c4398 100644
--- a/internal/dd/driver_identification.go
+++ b/internal/dd/driver_identification.go
@@ -57,7 +57,7 @@ func AppendDriverIdentification(dst []byte, driverID *ddv1.DriverIdentification)
 	}
 
 	// Append driver identification number (14 bytes)
-	return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
+	return AppendFixedIa5StringValue(dst, driverID.GetDriverIdentificationNumber(), 14)
 }
 
 // AnonymizeDriverIdentification creates an anonymized copy of DriverIdentification,
diff --git a/internal/dd/holder_name.go b/internal/dd/holder_name.go
index 381fb50..4532fed 100644
--- a/internal/dd/holder_name.go
+++ b/internal/dd/holder_name.go
@@ -83,13 +83,13 @@ func AppendHolderName(dst []byte, holderName *ddv1.HolderName) ([]byte, error) {
 	var err error
 
 	// Append holder surname (36 bytes)
-	dst, err = AppendStringValue(dst, holderName.GetHolderSurname())
+	dst, err = AppendFixedStringValue(dst, holderName.GetHolderSurname(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder surname: %w", err)
 	}
 
 	// Append holder first names (36 bytes)
-	dst, err = AppendStringValue(dst, holderName.GetHolderFirstNames())
+	dst, err = AppendFixedStringValue(dst, holderName.GetHolderFirstNames(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder first names: %w", err)
 	}
diff --git a/internal/dd/ia5_string_value.go b/internal/dd/ia5_string_value.go
index 27021a9..cb79923 100644
--- a/internal/dd/ia5_string_value.go
+++ b/internal/dd/ia5_string_value.go
@@ -95,3 +95,25 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 	}
 	return append(dst, result...), nil
 }
+
+// AppendFixedIa5StringValue appends an Ia5StringValue that occupies exactly size
+// bytes in a fixed layout.
+//
+// A missing string is written as spaces. A string of any other size is refused, as
+// it would shift the fields that follow it.
+func AppendFixedIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue, size int) ([]byte, error) {
+	start := len(dst)
+	dst, err := AppendIa5StringValue(dst, sv)
+	if err != nil {
+		return nil, err
+	}
+	if sv == nil {
+		for len(dst)-start < size {
+			dst = append(dst, ' ')
+		}
+	}
+	if n := len(dst) - start; n != size {
+		return nil, fmt.Errorf("IA5 string has %d bytes, want %d", n, size)
+	}
+	return dst, nil
+}
diff --git a/internal/dd/owner_identification.go b/internal/dd/owner_identification.go
index f3197f2..f89fa08 100644
--- a/internal/dd/owner_identification.go
+++ b/internal/dd/owner_identification.go
@@ -91,25 +91,25 @@ func AppendOwnerIdentification(dst []byte, ownerID *ddv1.OwnerIdentification) ([
 
 	// Append owner identification number (13 bytes)
 	var err error
-	dst, err = AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetOwnerIdentification(), 13)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append owner identification number: %w", err)
 	}
 
 	// Append card consecutive index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetConsecutiveIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetConsecutiveIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card consecutive index: %w", err)
 	}
 
 	// Append card replacement index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetReplacementIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetReplacementIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card replacement index: %w", err)
 	}
 
 	// Append card renewal index (1 byte)
-	dst, err = AppendIa5StringValue(dst, ownerID.GetRenewalIndex())
+	dst, err = AppendFixedIa5StringValue(dst, ownerID.GetRenewalIndex(), 1)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card renewal index: %w", err)
 	}
diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 8908cb0..063eca6 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -141,6 +141,29 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	return append(dst, encoded...), nil
 }
 
+// AppendFixedStringValue appends a StringValue that occupies exactly size bytes
+// (including the code page byte) in a fixed layout.
+//
+// A missing string is written as an empty one, a string without a length of its own
+// is padded with spaces. A string of any other size is refused, as it would shift
+// the fields that follow it.
+func AppendFixedStringValue(dst []byte, sv *ddv1.StringValue, size int) ([]byte, error) {
+	start := len(dst)
+	dst, err := AppendStringValue(dst, sv)
+	if err != nil {
+		return nil, err
+	}
+	if sv == nil || !sv.HasLength() && !sv.HasRawData() {
+		for len(dst)-start < size {
+			dst = append(dst, ' ')
+		}
+	}
+	if n := len(dst) - start; n != size {
+		return nil, fmt.Errorf("string value has %d bytes, want %d", n, size)
+	}
+	return dst, nil
+}
+
 // getEncodingFromCodePage maps a code page byte to the corresponding Encoding enum.
 func getEncodingFromCodePage(codePage byte) ddv1.Encoding {
 	switch codePage {
diff --git a/internal/dd/vehicle_registration.go b/internal/dd/vehicle_registration.go
index 59abbad..f3fb4cb 100644
--- a/internal/dd/vehicle_registration.go
+++ b/internal/dd/vehicle_registration.go
@@ -91,5 +91,5 @@ func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationI
 		number.SetLength(13) // Length of the string data, not including code page byte
 		number.SetEncoding(ddv1.Encoding_ENCODING_DEFAULT)
 	}
-	return AppendStringValue(dst, number)
+	return AppendFixedStringValue(dst, number, 14)
 }
-- 
2.43.0


From ef3ee59ca8afd57dc86918fb54e2b34fa7e18da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 37/54] fix: decode the download interface version instead of
 skipping it

---
 internal/vu/download_interface_version.go | 22 ++++++++++++++++++++++
 internal/vu/vehicle_unit_file.go          |  8 +++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/vu/download_interface_version.go b/internal/vu/download_interface_version.go
index 69d6dcb..d698101 100644
--- a/internal/vu/download_interface_version.go
+++ b/internal/vu/download_interface_version.go
@@ -3,6 +3,7 @@ package vu
 import (
 	"fmt"
 
+	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
 )
 
@@ -38,3 +39,24 @@ func sizeOfDownloadInterfaceVersion(data []byte, transferType vuv1.TransferType)
 // ASN.1 Definition:
 //
 //	DownloadInterfaceVersion ::= OCTET STRING (SIZE (2))
+func unmarshalDownloadInterfaceVersion(value []byte) (*vuv1.DownloadInterfaceVersion, error) {
+	const (
+		idxGeneration               = 0
+		idxVersion                  = 1
+		lenDownloadInterfaceVersion = 2
+	)
+	if len(value) != lenDownloadInterfaceVersion {
+		return nil, fmt.Errorf("invalid data length for DownloadInterfaceVersion: got %d, want %d", len(value), lenDownloadInterfaceVersion)
+	}
+	output := &vuv1.DownloadInterfaceVersion{}
+	output.SetRawData(value)
+	// The codes are those of the data type itself: 01 is a generation 2 VU, and
+	// 01 version 2 of it. Other values are reserved and only kept in raw_data.
+	if value[idxGeneration] == 0x01 {
+		output.SetGeneration(ddv1.Generation_GENERATION_2)
+	}
+	if value[idxVersion] == 0x01 {
+		output.SetVersion(ddv1.Version_VERSION_2)
+	}
+	return output, nil
+}
diff --git a/internal/vu/vehicle_unit_file.go b/internal/vu/vehicle_unit_file.go
index c0396e9..e85b6b4 100644
--- a/internal/vu/vehicle_unit_file.go
+++ b/internal/vu/vehicle_unit_file.go
@@ -219,9 +219,11 @@ func unmarshalVehicleUnitFileGen2V2(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
-			// Download interface version can be parsed if needed
-			// For now, skip as it's mainly used for version detection
-			// output.SetDownloadInterfaceVersion(...)
+			downloadInterfaceVersion, err := unmarshalDownloadInterfaceVersion(record.GetValue())
+			if err != nil {
+				return nil, fmt.Errorf("unmarshal Download Interface Version: %w", err)
+			}
+			output.SetDownloadInterfaceVersion(downloadInterfaceVersion)
 
 		case vuv1.TransferType_OVERVIEW_GEN2_V2:
 			overview, err := unmarshalOverviewGen2V2(record.GetValue())
-- 
2.43.0


From 8572ccf92c515182d8d4b72e54141cade17c4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 38/54] fix: refuse the common card files tagged as Gen2

---
 internal/card/driver_card_file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 0adc75d..550f978 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -80,6 +80,10 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 
 		switch record.GetFile() {
 		case cardv1.ElementaryFileType_EF_ICC:
+			// Common EF, tagged like those of the Tachograph DF
+			if efGeneration != ddv1.Generation_GENERATION_1 {
+				return nil, fmt.Errorf("EF_ICC should only appear with a Gen1 tag, got generation: %v", efGeneration)
+			}
 			icc, err := opts.unmarshalIcc(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -90,6 +94,10 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			output.SetIcc(icc)
 
 		case cardv1.ElementaryFileType_EF_IC:
+			// Common EF, tagged like those of the Tachograph DF
+			if efGeneration != ddv1.Generation_GENERATION_1 {
+				return nil, fmt.Errorf("EF_IC should only appear with a Gen1 tag, got generation: %v", efGeneration)
+			}
 			ic, err := opts.unmarshalIc(record.GetValue())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 8eb48c78759ec7bf57d4470fc019fae691a16c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 39/54] fix: card identification wrote other card numbers and
 indices than it had read

---
 internal/card/identification.go | 77 +++++++--------------------------
 1 file changed, 16 insertions(+), 61 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 3c22280..2f02acf 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -296,76 +296,31 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	//     }
 	// }
 	// Total size is always 16 bytes
-	cardNumberBytes := make([]byte, 16)
 	if driverID := id.GetDriverIdentification(); driverID != nil {
 		// Driver card: 14 bytes identification + 1 byte replacement + 1 byte renewal
-		identification := driverID.GetDriverIdentificationNumber()
-		if identification != nil {
-			// Pad or truncate to exactly 14 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 14 {
-				identStr = identStr[:14]
+		dst, err = dd.AppendFixedIa5StringValue(dst, driverID.GetDriverIdentificationNumber(), 14)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append driver identification: %w", err)
+		}
+		for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+			if index == nil {
+				dst = append(dst, '0') // Default index
+				continue
 			}
-			copy(cardNumberBytes[0:14], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 14; i++ {
-				cardNumberBytes[i] = ' '
+			dst, err = dd.AppendFixedIa5StringValue(dst, index, 1)
+			if err != nil {
+				return nil, fmt.Errorf("failed to append card index: %w", err)
 			}
 		}
-		// Write replacement and renewal indices (1 byte each)
-		replacementIndex := driverID.GetCardReplacementIndex()
-		if replacementIndex != nil && len(replacementIndex.GetValue()) > 0 {
-			cardNumberBytes[14] = replacementIndex.GetValue()[0]
-		} else {
-			cardNumberBytes[14] = '0' // Default replacement index
-		}
-		renewalIndex := driverID.GetCardRenewalIndex()
-		if renewalIndex != nil && len(renewalIndex.GetValue()) > 0 {
-			cardNumberBytes[15] = renewalIndex.GetValue()[0]
-		} else {
-			cardNumberBytes[15] = '0' // Default renewal index
-		}
 	} else if ownerID := id.GetOwnerIdentification(); ownerID != nil {
 		// Other cards: 13 bytes identification + 1 byte consecutive + 1 byte replacement + 1 byte renewal
-		identification := ownerID.GetOwnerIdentification()
-		if identification != nil {
-			// Pad or truncate to exactly 13 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 13 {
-				identStr = identStr[:13]
-			}
-			copy(cardNumberBytes[0:13], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 13; i++ {
-				cardNumberBytes[i] = ' '
-			}
-		}
-		consecutive := ownerID.GetConsecutiveIndex()
-		if consecutive != nil {
-			// Convert string to byte value
-			consecutiveStr := consecutive.GetValue()
-			if len(consecutiveStr) > 0 {
-				cardNumberBytes[13] = consecutiveStr[0]
-			}
-		}
-		replacement := ownerID.GetReplacementIndex()
-		if replacement != nil {
-			// Convert string to byte value
-			replacementStr := replacement.GetValue()
-			if len(replacementStr) > 0 {
-				cardNumberBytes[14] = replacementStr[0]
-			}
-		}
-		renewal := ownerID.GetRenewalIndex()
-		if renewal != nil {
-			// Convert string to byte value
-			renewalStr := renewal.GetValue()
-			if len(renewalStr) > 0 {
-				cardNumberBytes[15] = renewalStr[0]
-			}
+		dst, err = dd.AppendOwnerIdentification(dst, ownerID)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append owner identification: %w", err)
 		}
+	} else {
+		dst = append(dst, make([]byte, 16)...)
 	}
-	dst = append(dst, cardNumberBytes...)
 	dst, err = dd.AppendFixedStringValue(dst, id.GetCardIssuingAuthorityName(), 36)
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card issuing authority name: %w", err)
-- 
2.43.0


From 8e1adcd3b54a3a4f72da1cb495e503c2245b27e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 40/54] fix: a control type flag that was cleared was written
 as the raw data had it

---
 internal/dd/controltype.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..4be2657 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -55,20 +55,16 @@ func AppendControlType(dst []byte, controlType *ddv1.ControlType) ([]byte, error
 		}
 		copy(canvas[:], controlType.GetRawData())
 	}
-	if controlType.GetCardDownloading() {
-		canvas[0] |= 0x80
-	}
-	if controlType.GetVuDownloading() {
-		canvas[0] |= 0x40
-	}
-	if controlType.GetPrinting() {
-		canvas[0] |= 0x20
-	}
-	if controlType.GetDisplay() {
-		canvas[0] |= 0x10
-	}
-	if controlType.GetCalibrationChecking() {
-		canvas[0] |= 0x08
+	paint := func(mask byte, set bool) {
+		canvas[0] &^= mask
+		if set {
+			canvas[0] |= mask
+		}
 	}
+	paint(0x80, controlType.GetCardDownloading())
+	paint(0x40, controlType.GetVuDownloading())
+	paint(0x20, controlType.GetPrinting())
+	paint(0x10, controlType.GetDisplay())
+	paint(0x08, controlType.GetCalibrationChecking())
 	return append(dst, canvas[:]...), nil
 }
-- 
2.43.0


From c8513bd50d348aca9046cbf3a8955f7387b65da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 41/54] fix: replacement and renewal index of full driver card
 numbers were dropped

---
 internal/dd/full_card_number.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 6b72891..69b1c62 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -56,11 +56,21 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes + 1 byte replacement index + 1 byte renewal index
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
 	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
@@ -120,13 +130,22 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
+			// DriverIdentification is 14 bytes
 			dst, err = AppendDriverIdentification(dst, driverID)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
+			// Card replacement index (1 byte) and card renewal index (1 byte)
+			for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+				if index == nil {
+					dst = append(dst, 0x00)
+					continue
+				}
+				dst, err = AppendFixedIa5StringValue(dst, index, 1)
+				if err != nil {
+					return nil, fmt.Errorf("failed to append card index: %w", err)
+				}
+			}
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
-- 
2.43.0


From ec6a6bb2beb0ac7730ca4e57c75148cb64c9caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 42/54] fix: a month and year that is not decimal was written
 as zeros over the retained raw data

---
 internal/dd/month_year.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 5b1ff41..ce00377 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -82,10 +82,14 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 	year2Digit := year % 100
 
 	// Encode month as BCD
-	canvas[0] = byte(((month / 10) << 4) | (month % 10))
+	if monthYear.HasMonth() {
+		canvas[0] = byte(((month / 10) << 4) | (month % 10))
+	}
 
 	// Encode year as BCD
-	canvas[1] = byte(((year2Digit / 10) << 4) | (year2Digit % 10))
+	if monthYear.HasYear() {
+		canvas[1] = byte(((year2Digit / 10) << 4) | (year2Digit % 10))
+	}
 
 	return append(dst, canvas[:]...), nil
 }
-- 
2.43.0


From 25b90b043957df22e77d8e85e343a5d8b0d0962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 43/54] fix: reserved bits of a retained control type were
 dropped by control activity data

---
 internal/card/control_activity.go | 37 ++++++++-----------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..316f6b6 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -161,35 +161,16 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 
 	// Valid record: serialize semantic data
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
-		}
+	// Structure: 'cvpdexxx'B
+	// - 'c': card downloading
+	// - 'v': VU downloading
+	// - 'p': printing
+	// - 'd': display
+	// - 'e': calibration checking
+	data, err := dd.AppendControlType(data, controlData.GetControlType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append control type: %w", err)
 	}
-	data = append(data, controlTypeByte)
-
-	var err error
 
 	// Control time (4 bytes)
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
-- 
2.43.0


From b39237cca72a0fd5c660b0fdb1df7cb1260f8e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 44/54] fix: a date with digits that are not decimal was
 written as another one over the retained raw data

---
 internal/dd/date.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/dd/date.go b/internal/dd/date.go
index 1de883c..c80fe46 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -57,6 +57,14 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 			)
 		}
 		copy(canvas[:], date.GetRawData())
+		// Digits that are not decimal cannot be told from the date alone
+		raw, err := UnmarshalOptions{}.UnmarshalDate(canvas[:])
+		if err != nil {
+			return nil, err
+		}
+		if raw.GetYear() == date.GetYear() && raw.GetMonth() == date.GetMonth() && raw.GetDay() == date.GetDay() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
-- 
2.43.0


From 25fbe2ec475b52677c47a2b60239c3ba57ac357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 45/54] fix: a card structure version with digits that are not
 decimal was written as another one over the retained raw data

---
 internal/dd/card_structure_version.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index ccd83be..f4cec31 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -58,6 +58,14 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 			)
 		}
 		copy(canvas[:], csv.GetRawData())
+		// Digits that are not decimal cannot be told from the version alone
+		raw, err := UnmarshalOptions{}.UnmarshalCardStructureVersion(canvas[:])
+		if err != nil {
+			return nil, err
+		}
+		if raw.GetMajor() == csv.GetMajor() && raw.GetMinor() == csv.GetMinor() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	major := csv.GetMajor()
 	majorBCD := byte((major/10)<<4) | byte(major%10)
-- 
2.43.0


From f381530a9e9ec5e7b269cc3e51e5aab536140686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 46/54] fix: zero padding of a vehicle identification number
 was written as spaces over the retained raw data

---
 internal/dd/card_vehicle_record_g2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index f466497..77fcfd0 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -146,6 +146,10 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 
 	// VIN (17 bytes IA5String)
 	vin := record.GetVehicleIdentificationNumber()
+	if len(record.GetRawData()) > 0 && strings.TrimRight(string(canvas[31:48]), "\x00 ") == vin {
+		// The number is unchanged: keep its padding as it was
+		return append(dst, canvas[:]...), nil
+	}
 	vinBytes := make([]byte, 17)
 	copy(vinBytes, []byte(vin))
 	// Pad with spaces if shorter than 17 bytes
-- 
2.43.0


From 8ec9a1a142116e6c7f62701e55f403d28dd4783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 47/54] fix: a vehicle identification number that is not text
 made the parsed file impossible to print

---
 internal/dd/card_vehicle_record_g2.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index 77fcfd0..4a681c0 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -82,12 +83,18 @@ func (opts UnmarshalOptions) UnmarshalCardVehicleRecordG2(data []byte) (*ddv1.Ca
 
 	// Parse VIN (17 bytes IA5String)
 	vinBytes := data[idxVIN : idxVIN+17]
-	vin := strings.TrimRight(string(vinBytes), "\x00 ") // Trim null bytes and spaces
+	vin := decodeVIN(vinBytes)
 	record.SetVehicleIdentificationNumber(vin)
 
 	return record, nil
 }
 
+// decodeVIN returns the vehicle identification number without its padding of null
+// bytes and spaces. Bytes that are not text are replaced, as in other strings.
+func decodeVIN(data []byte) string {
+	return strings.ToValidUTF8(strings.TrimRight(string(data), "\x00 "), string(utf8.RuneError))
+}
+
 // AppendCardVehicleRecordG2 appends a Generation 2 CardVehicleRecord (48 bytes).
 func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]byte, error) {
 	const lenCardVehicleRecord = 48 // Fixed size for Gen2
@@ -146,7 +153,7 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 
 	// VIN (17 bytes IA5String)
 	vin := record.GetVehicleIdentificationNumber()
-	if len(record.GetRawData()) > 0 && strings.TrimRight(string(canvas[31:48]), "\x00 ") == vin {
+	if len(record.GetRawData()) > 0 && decodeVIN(canvas[31:48]) == vin {
 		// The number is unchanged: keep its padding as it was
 		return append(dst, canvas[:]...), nil
 	}
-- 
2.43.0


From 2c0240db2f8a189463a2031cc1881abc5ca8a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 48/54] fix: refuse fixed-size card files with bytes behind
 their content instead of dropping those

---
 internal/card/card_download.go    | 4 ++--
 internal/card/control_activity.go | 4 ++--
 internal/card/current_usage.go    | 4 ++--
 internal/card/driving_licence.go  | 5 ++---
 internal/card/ic.go               | 4 ++--
 internal/card/icc.go              | 5 ++---
 internal/card/identification.go   | 5 ++---
 7 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/internal/card/card_download.go b/internal/card/card_download.go
index a0aa448..20ec11a 100644
--- a/internal/card/card_download.go
+++ b/internal/card/card_download.go
@@ -20,8 +20,8 @@ func (opts UnmarshalOptions) unmarshalCardDownload(data []byte) (*cardv1.CardDow
 		lenCardDownloadDriver = 4 // TimeReal size
 	)
 
-	if len(data) < lenCardDownloadDriver {
-		return nil, fmt.Errorf("insufficient data for card download")
+	if len(data) != lenCardDownloadDriver {
+		return nil, fmt.Errorf("invalid data length for card download: got %d bytes, want %d", len(data), lenCardDownloadDriver)
 	}
 
 	var target cardv1.CardDownloadDriver
diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 316f6b6..c2f2131 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -29,8 +29,8 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 		lenCardControlActivityDataRecord = 46 // CardControlActivityDataRecord total size
 	)
 
-	if len(data) < lenCardControlActivityDataRecord {
-		return nil, fmt.Errorf("insufficient data for control activity data")
+	if len(data) != lenCardControlActivityDataRecord {
+		return nil, fmt.Errorf("invalid data length for control activity data: got %d bytes, want %d", len(data), lenCardControlActivityDataRecord)
 	}
 	var target cardv1.ControlActivityData
 	controlTime := binary.BigEndian.Uint32(data[1:5])
diff --git a/internal/card/current_usage.go b/internal/card/current_usage.go
index a6de7f7..f251c8d 100644
--- a/internal/card/current_usage.go
+++ b/internal/card/current_usage.go
@@ -23,8 +23,8 @@ func (opts UnmarshalOptions) unmarshalCurrentUsage(data []byte) (*cardv1.Current
 		lenCardCurrentUse = 19 // 4 bytes time + 15 bytes vehicle registration
 	)
 
-	if len(data) < lenCardCurrentUse {
-		return nil, fmt.Errorf("insufficient data for current usage")
+	if len(data) != lenCardCurrentUse {
+		return nil, fmt.Errorf("invalid data length for current usage: got %d bytes, want %d", len(data), lenCardCurrentUse)
 	}
 	var target cardv1.CurrentUsage
 	offset := 0
diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 580abf9..0a3f7ce 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -1,7 +1,6 @@
 package card
 
 import (
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -26,8 +25,8 @@ func (opts UnmarshalOptions) unmarshalDrivingLicenceInfo(data []byte) (*cardv1.D
 		lenCardDrivingLicenceInformation = 53 // CardDrivingLicenceInformation total size
 	)
 
-	if len(data) < lenCardDrivingLicenceInformation {
-		return nil, errors.New("not enough data for DrivingLicenceInfo")
+	if len(data) != lenCardDrivingLicenceInformation {
+		return nil, fmt.Errorf("invalid data length for DrivingLicenceInfo: got %d bytes, want %d", len(data), lenCardDrivingLicenceInformation)
 	}
 	var dli cardv1.DrivingLicenceInfo
 	offset := 0
diff --git a/internal/card/ic.go b/internal/card/ic.go
index 43677e9..e207193 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -24,8 +24,8 @@ func (opts UnmarshalOptions) unmarshalIc(data []byte) (*cardv1.Ic, error) {
 		lenCardChipIdentification    = lenIcSerialNumber + lenIcManufacturingReferences
 	)
 
-	if len(data) < lenCardChipIdentification {
-		return nil, fmt.Errorf("insufficient data for IC identification: got %d bytes, need %d", len(data), lenCardChipIdentification)
+	if len(data) != lenCardChipIdentification {
+		return nil, fmt.Errorf("invalid data length for IC identification: got %d bytes, want %d", len(data), lenCardChipIdentification)
 	}
 
 	var target cardv1.Ic
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 65cb68f..285668a 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -2,7 +2,6 @@ package card
 
 import (
 	"encoding/binary"
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -37,8 +36,8 @@ func (opts UnmarshalOptions) unmarshalIcc(data []byte) (*cardv1.Icc, error) {
 	)
 
 	var icc cardv1.Icc
-	if len(data) < lenCardIccIdentification {
-		return nil, errors.New("not enough data for IccIdentification")
+	if len(data) != lenCardIccIdentification {
+		return nil, fmt.Errorf("invalid data length for IccIdentification: got %d bytes, want %d", len(data), lenCardIccIdentification)
 	}
 	offset := 0
 
diff --git a/internal/card/identification.go b/internal/card/identification.go
index 2f02acf..f5199c1 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -1,7 +1,6 @@
 package card
 
 import (
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -46,8 +45,8 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 		lenMinIdentification = 143 // Minimum size for EF_Identification
 	)
 
-	if len(data) < lenMinIdentification {
-		return nil, errors.New("not enough data for EF_Identification")
+	if len(data) != lenMinIdentification {
+		return nil, fmt.Errorf("invalid data length for EF_Identification: got %d bytes, want %d", len(data), lenMinIdentification)
 	}
 
 	var identification cardv1.Identification
-- 
2.43.0


From 662222baa55b83475ff61c2b2fd4b1a3e6a2b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 49/54] fix: refuse event and fault data with a partial record
 at the end instead of dropping it

---
 internal/card/events.go | 3 +++
 internal/card/faults.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/card/events.go b/internal/card/events.go
index 4a7a60f..953c2cb 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -44,6 +44,9 @@ func splitCardEventRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsData, error) {
+	if len(data)%cardEventRecordSize != 0 {
+		return nil, fmt.Errorf("invalid data length for events data: got %d bytes, not a multiple of %d", len(data), cardEventRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardEventRecord)
 
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 0037220..d54f096 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -44,6 +44,9 @@ func splitCardFaultRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsData, error) {
+	if len(data)%cardFaultRecordSize != 0 {
+		return nil, fmt.Errorf("invalid data length for faults data: got %d bytes, not a multiple of %d", len(data), cardFaultRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardFaultRecord)
 
-- 
2.43.0


From 48923ae3a33e227ad8b987188f8b97c892b00fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 50/54] fix: bytes behind the last record of a card file were
 dropped although they were retained

---
 internal/card/places.go              | 5 +++--
 internal/card/places_g2.go           | 5 +++--
 internal/card/specific_conditions.go | 5 +++--
 internal/card/vehicles_used.go       | 5 +++--
 internal/card/vehicles_used_g2.go    | 5 +++--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/card/places.go b/internal/card/places.go
index 80e1ab8..48ca1ee 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -88,9 +88,10 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	expectedSize := 1 + (numRecords * recordSize)
 
 	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// (it may hold a partial record behind the last one)
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (1 byte for Gen1)
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 89b5525..40a7d89 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -89,9 +89,10 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	expectedSize := 2 + (numRecords * recordSize)
 
 	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// (it may hold a partial record behind the last one)
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (2 bytes for Gen2)
diff --git a/internal/card/specific_conditions.go b/internal/card/specific_conditions.go
index c328047..00e418d 100644
--- a/internal/card/specific_conditions.go
+++ b/internal/card/specific_conditions.go
@@ -72,9 +72,10 @@ func appendCardSpecificConditions(data []byte, conditions *cardv1.SpecificCondit
 	expectedSize := numRecords * recordSize
 
 	// Use raw_data as canvas if available and correct size
-	if rawData := conditions.GetRawData(); len(rawData) == expectedSize {
+	// (it may hold a partial record behind the last one)
+	if rawData := conditions.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint each record over canvas
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index 4004dff..62425b5 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -85,9 +85,10 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	expectedSize := 2 + (numRecords * recordSize)
 
 	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// (it may hold a partial record behind the last one)
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 4f45488..ffa145b 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -85,9 +85,10 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	expectedSize := 2 + (numRecords * recordSize)
 
 	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// (it may hold a partial record behind the last one)
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
-- 
2.43.0


From d055530e61d00eb524d2280bfdf056e261885d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 51/54] fix: decode all ten bytes of the Gen2 V2 application
 identification instead of taking the first four as single-byte counts

---
 .../card/application_identification_v2.go     | 131 +++++++-----------
 1 file changed, 50 insertions(+), 81 deletions(-)

diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 9837022..60e0c64 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -1,7 +1,6 @@
 package card
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -10,121 +9,91 @@ import (
 
 // unmarshalApplicationIdentificationV2 parses the binary data for an EF_ApplicationIdentificationV2 record.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData         INTEGER(0..65535),
+//	    noOfBorderCrossingRecords     INTEGER(0..65535),
+//	    noOfLoadUnloadRecords         INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords      INTEGER(0..65535),
+//	    vuConfigurationLengthRange    INTEGER(0..65535)
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
 	const (
-		lenEfApplicationIdentificationV2 = 4 // EF_ApplicationIdentificationV2 record size
+		idxLengthOfFollowingData         = 0
+		idxBorderCrossingRecords         = 2
+		idxLoadUnloadRecords             = 4
+		idxLoadTypeEntryRecords          = 6
+		idxVuConfigurationLengthRange    = 8
+		lenEfApplicationIdentificationV2 = 10 // EF_ApplicationIdentificationV2 record size
 	)
 
-	if len(data) < lenEfApplicationIdentificationV2 {
-		return nil, fmt.Errorf("insufficient data for application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
+	if len(data) != lenEfApplicationIdentificationV2 {
+		return nil, fmt.Errorf("invalid data length for application identification V2: got %d bytes, want %d", len(data), lenEfApplicationIdentificationV2)
 	}
-	var target cardv1.ApplicationIdentificationV2
-	r := bytes.NewReader(data)
 
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
-
-	// Read border crossing records count (1 byte)
-	var borderCrossingCount byte
-	if err := binary.Read(r, binary.BigEndian, &borderCrossingCount); err != nil {
-		return nil, fmt.Errorf("failed to read border crossing records count: %w", err)
-	}
-	driver.SetBorderCrossingRecordsCount(int32(borderCrossingCount))
-
-	// Read load/unload records count (1 byte)
-	var loadUnloadCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadUnloadCount); err != nil {
-		return nil, fmt.Errorf("failed to read load/unload records count: %w", err)
-	}
-	driver.SetLoadUnloadRecordsCount(int32(loadUnloadCount))
-
-	// Read load type entry records count (1 byte)
-	var loadTypeCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadTypeCount); err != nil {
-		return nil, fmt.Errorf("failed to read load type entry records count: %w", err)
-	}
-	driver.SetLoadTypeEntryRecordsCount(int32(loadTypeCount))
-
-	// Read VU configuration length range (1 byte)
-	var vuConfigRange byte
-	if err := binary.Read(r, binary.BigEndian, &vuConfigRange); err != nil {
-		return nil, fmt.Errorf("failed to read VU configuration length range: %w", err)
-	}
-	driver.SetVuConfigurationLengthRange(int32(vuConfigRange))
+	driver.SetLengthOfFollowingData(int32(binary.BigEndian.Uint16(data[idxLengthOfFollowingData:])))
+	driver.SetBorderCrossingRecordsCount(int32(binary.BigEndian.Uint16(data[idxBorderCrossingRecords:])))
+	driver.SetLoadUnloadRecordsCount(int32(binary.BigEndian.Uint16(data[idxLoadUnloadRecords:])))
+	driver.SetLoadTypeEntryRecordsCount(int32(binary.BigEndian.Uint16(data[idxLoadTypeEntryRecords:])))
+	driver.SetVuConfigurationLengthRange(int32(binary.BigEndian.Uint16(data[idxVuConfigurationLengthRange:])))
 
 	// Set the driver data and card type
+	var target cardv1.ApplicationIdentificationV2
 	target.SetDriver(driver)
 	target.SetCardType(cardv1.CardType_DRIVER_CARD)
 
 	return &target, nil
 }
 
-// AppendCardApplicationIdentificationV2 appends application identification V2 data to a byte slice.
+// appendCardApplicationIdentificationV2 appends application identification V2 data to a byte slice.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData         INTEGER(0..65535),
+//	    noOfBorderCrossingRecords     INTEGER(0..65535),
+//	    noOfLoadUnloadRecords         INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords      INTEGER(0..65535),
+//	    vuConfigurationLengthRange    INTEGER(0..65535)
 //	}
 func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.ApplicationIdentificationV2) ([]byte, error) {
 	if appIdV2 == nil {
 		return data, nil
 	}
 
-	// Get the appropriate nested message based on card type
-	var borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
-
+	// The same layout is used for driver and workshop cards
+	var fields [5]int32
 	switch appIdV2.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
-		if driver := appIdV2.GetDriver(); driver != nil {
-			borderCrossingRecords = driver.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = driver.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = driver.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = driver.GetVuConfigurationLengthRange()
+		driver := appIdV2.GetDriver()
+		fields = [5]int32{
+			driver.GetLengthOfFollowingData(),
+			driver.GetBorderCrossingRecordsCount(),
+			driver.GetLoadUnloadRecordsCount(),
+			driver.GetLoadTypeEntryRecordsCount(),
+			driver.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_WORKSHOP_CARD:
-		if workshop := appIdV2.GetWorkshop(); workshop != nil {
-			borderCrossingRecords = workshop.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = workshop.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = workshop.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = workshop.GetVuConfigurationLengthRange()
-		}
-	case cardv1.CardType_COMPANY_CARD:
-		if company := appIdV2.GetCompany(); company != nil {
-			vuConfigLength = company.GetVuConfigurationLengthRange()
-		}
-	case cardv1.CardType_CONTROL_CARD:
-		if control := appIdV2.GetControl(); control != nil {
-			vuConfigLength = control.GetVuConfigurationLengthRange()
+		workshop := appIdV2.GetWorkshop()
+		fields = [5]int32{
+			workshop.GetLengthOfFollowingData(),
+			workshop.GetBorderCrossingRecordsCount(),
+			workshop.GetLoadUnloadRecordsCount(),
+			workshop.GetLoadTypeEntryRecordsCount(),
+			workshop.GetVuConfigurationLengthRange(),
 		}
+	default:
+		return nil, fmt.Errorf("unsupported card type for application identification V2: %v", appIdV2.GetCardType())
+	}
+	for _, field := range fields {
+		data = binary.BigEndian.AppendUint16(data, uint16(field))
 	}
-
-	// Border crossing records count (1 byte)
-	data = append(data, byte(borderCrossingRecords))
-
-	// Load/unload records count (1 byte)
-	data = append(data, byte(loadUnloadRecords))
-
-	// Load type entry records count (1 byte)
-	data = append(data, byte(loadTypeEntryRecords))
-
-	// VU configuration length range (1 byte)
-	data = append(data, byte(vuConfigLength))
-
 	return data, nil
 }
-- 
2.43.0


From e8f2c61150bc20801fa1925ae0e3a68c3381e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:55 +0000
Subject: [PATCH 52/54] fix: a manual input flag other than 0 and 1 was written
 as 1 over the retained raw data

---
 internal/dd/vu_card_iw_record.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index 48ee2e5..1beca2e 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -219,10 +219,10 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 19
 
 	// manualInputFlag (1 byte)
-	if record.GetManualInputFlag() {
-		canvas[offset] = 1
-	} else {
+	if !record.GetManualInputFlag() {
 		canvas[offset] = 0
+	} else if canvas[offset] == 0 {
+		canvas[offset] = 1 // any value but zero in raw_data is a set flag
 	}
 
 	return append(dst, canvas[:]...), nil
-- 
2.43.0


From 1eb9e8d6bc00f50311b6f8fea98d434b0dff89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:04 +0000
Subject: [PATCH 53/54] fix: the driver's break or rest from midnight was left
 out of the daily activities

---
 internal/card/activity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 7058d47..4345de8 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -179,9 +179,9 @@ func (opts UnmarshalOptions) parseSingleActivityDailyRecord(data []byte) (*cardv
 	var activityChanges []*ddv1.ActivityChangeInfo
 
 	for offset+2 <= len(data) {
-		// Check for invalid entries before parsing (all zeros or all ones)
+		// Skip erased entries (all ones); all zeros is the driver's break or rest from midnight
 		changeData := binary.BigEndian.Uint16(data[offset : offset+2])
-		if changeData == 0 || changeData == 0xFFFF {
+		if changeData == 0xFFFF {
 			offset += 2
 			continue
 		}
-- 
2.43.0


From aa0740d055d8ce126cc7481f0c7653f790b56e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:31 +0000
Subject: [PATCH 54/54] fix: write GNSS records with odometer values of a
 million kilometres and more instead of refusing the card

---
 internal/card/gnss_places.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index fcdefc7..e213ab7 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -218,7 +218,7 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
 	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
+	if odometer < 0 || odometer > 0xFFFFFF {
 		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
 	}
 	dst = dd.AppendOdometer(dst, uint32(odometer))
-- 
2.43.0

