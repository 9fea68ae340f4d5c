From 75187ced90298f0191f357e9322670b9d626fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 01/15] fix: SimulationIdentifier serializes its reference
 number instead of zero

---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From 68f3ac10b86a33f7ac9b3472844c7c7214e21658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 02/15] fix: DeadReckoningParameters serializes its
 other-parameters instead of zeros

---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From c366781b40b849909249eb665004d3204fafd3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 03/15] fix: EntityMarking occupies its fixed 12 octets and
 decodes the marking string

---
 src/common/data_types/entity_marking.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..7b8bd51 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,9 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    /// Number of octets the marking string occupies
+    const STRING_LENGTH: usize = 11;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +27,25 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        // The marking is a fixed-size field: truncate or zero-pad to fit
+        let marking = self.entity_marking_string.as_bytes();
+        let used = marking.len().min(Self::STRING_LENGTH);
+        buf.put_slice(&marking[..used]);
+        buf.put_bytes(0, Self::STRING_LENGTH - used);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         Self {
             entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_string: {
+                let mut marking = [0u8; Self::STRING_LENGTH];
+                for octet in &mut marking {
+                    *octet = buf.get_u8();
+                }
+                String::from_utf8_lossy(&marking)
+                    .trim_end_matches('\0')
+                    .to_string()
+            },
         }
     }
 }
-- 
2.43.0


From 31e5990a73de17375af7151f4161d8b2581faf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 04/15] fix: VariableTransmitterParameters reads its record
 type with the width it writes

---
 src/common/data_types/variable_transmitter_parameters.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..d2337fc 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
@@ -47,7 +48,7 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        let record_type = VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let mut record_specific_fields: Vec<u8> = vec![];
         for _ in 0..record_length {
-- 
2.43.0


From be003c244776ebe558e2723d6571df8db7284e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 05/15] fix: RecordSpecificationElement sizes its values
 without 16-bit overflow

---
 src/common/data_types/record_specification_element.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..7c4e50c 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -39,10 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
-            buf.put_u8(self.record_values[i]);
-        }
+        buf.put_slice(&self.record_values);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -50,7 +47,7 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
+        let num_record_values = u32::from(record_length) * u32::from(record_count);
         let mut record_values: Vec<u8> = vec![];
         for _ in 0..num_record_values {
             record_values.push(buf.get_u8());
-- 
2.43.0


From 1d6fd0a9a73690bad2854f01132a139707e5f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 06/15] fix: VariableDatumRecord decodes its value once and
 accounts for its padding

---
 src/common/data_types/datum_records.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..157378f 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -60,6 +60,11 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    /// Octets of padding that align the value to a 64-bit boundary
+    const fn padding_count(length_bits: u32) -> usize {
+        (((64 - (length_bits % 64)) % 64) / 8) as usize
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -72,8 +77,7 @@ impl VariableDatumRecord {
             buf.put_u8(self.value[i]);
         }
 
-        let pad_bits = (64u32 - (self.length_bits % 64)) % 64;
-        let pad_bytes = (pad_bits / 8) as usize;
+        let pad_bytes = Self::padding_count(self.length_bits);
         if pad_bytes > 0 {
             let zeros = vec![0u8; pad_bytes];
             for z in zeros {
@@ -87,10 +91,13 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![0u8; value_bytes];
+        let mut value = Vec::new();
         for _ in 0..value_bytes {
             value.push(buf.get_u8());
         }
+        for _ in 0..Self::padding_count(length_bits) {
+            buf.get_u8();
+        }
 
         Self {
             datum_id,
@@ -114,6 +121,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_count(self.length_bits)
     }
 }
-- 
2.43.0


From 4ad595f29dfd568f25290990ab2b7017bdc2b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 07/15] fix: DIS timestamp is taken from one clock reading in
 exact time units

---
 src/common/live_entity_pdu_header.rs | 17 +++++++----------
 src/common/pdu_header.rs             | 17 +++++++----------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..9ee5ce4 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -118,17 +118,14 @@ impl LiveEntityPduHeader {
 
     /// Gets the current time in terms of IEEE-1278.1 DIS time units
     #[must_use]
-    #[allow(
-        clippy::cast_precision_loss,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
-        dis_time as u32
+        // Read the clock once: separate reads can straddle a second or minute boundary
+        let now = Utc::now();
+        let second_of_hour = u64::from(now.minute() * 60 + now.second());
+        let microsecond_of_hour = second_of_hour * 1_000_000 + u64::from(now.nanosecond() / 1000);
+        // One hour spans 2^31 time units
+        ((microsecond_of_hour << 31) / 3_600_000_000) as u32
     }
 }
 
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..05db806 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -240,17 +240,14 @@ impl PduHeader {
 
     /// Gets the current time in terms of IEEE-1278.1 DIS time units
     #[must_use]
-    #[allow(
-        clippy::cast_precision_loss,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
-        dis_time as u32
+        // Read the clock once: separate reads can straddle a second or minute boundary
+        let now = Utc::now();
+        let second_of_hour = u64::from(now.minute() * 60 + now.second());
+        let microsecond_of_hour = second_of_hour * 1_000_000 + u64::from(now.nanosecond() / 1000);
+        // One hour spans 2^31 time units
+        ((microsecond_of_hour << 31) / 3_600_000_000) as u32
     }
 
     /// Looks at the PDU type from a raw byte buffer.
-- 
2.43.0


From 25ed19b8af13a308113ed29d38ba95c68a9be3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 08/15] fix: PDUs above the maximum PDU size are refused

---
 src/pdu_macro.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..a1ef230 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -284,10 +284,13 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
-                u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
-                    size: len,
-                    max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-                })
+                u16::try_from(len)
+                    .ok()
+                    .filter(|_| $crate::common::constants::validate_pdu_size(len))
+                    .ok_or($crate::common::dis_error::DISError::PduSizeExceeded {
+                        size: len,
+                        max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    })
             }
 
             fn header(&self) -> &Self::Header {
-- 
2.43.0


From f2b8b4b3d074d790bdd98df364507aff1e646fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 09/15] fix: truncated or corrupt PDUs are reported as errors
 instead of panicking

The body is decoded through a view limited to the length the header declares:
reading past it yields an error, and the buffer is left at the end of the PDU.
Record lists stop at the end of the buffer and never reserve more memory than
it can fill.
---
 .../acoustic_emitter_system_data.rs           |  10 +-
 src/common/data_types/antenna_pattern.rs      |   9 +-
 src/common/data_types/attribute_record.rs     |   7 +-
 src/common/data_types/attribute_record_set.rs |  11 +-
 src/common/data_types/datum_records.rs        |   7 +-
 .../electromagnetic_emission_beam_data.rs     |  11 +-
 .../electromagnetic_emission_system_data.rs   |  11 +-
 .../data_types/modulation_parameters.rs       |   9 +-
 src/common/data_types/record_specification.rs |  11 +-
 .../record_specification_element.rs           |   7 +-
 .../data_types/standard_variable_records.rs   |   7 +-
 .../standard_variable_specification.rs        |  20 ++-
 .../variable_transmitter_parameters.rs        |   7 +-
 src/pdu_macro.rs                              | 154 +++++++++++++++++-
 14 files changed, 204 insertions(+), 77 deletions(-)

diff --git a/src/common/data_types/acoustic_emitter_system_data.rs b/src/common/data_types/acoustic_emitter_system_data.rs
index d2fc9f0..034dece 100644
--- a/src/common/data_types/acoustic_emitter_system_data.rs
+++ b/src/common/data_types/acoustic_emitter_system_data.rs
@@ -6,6 +6,7 @@
 use bytes::{Buf, BufMut, BytesMut};
 
 use crate::common::data_types::vector3_float::Vector3Float;
+use crate::pdu_macro::get_items;
 
 use super::{acoustic_beam_data::AcousticBeamData, acoustic_emitter_system::AcousticEmitterSystem};
 
@@ -56,10 +57,11 @@ impl AcousticEmitterSystemData {
         let pad2 = buf.get_u16();
         let acoustic_emitter_system = AcousticEmitterSystem::deserialize(buf);
         let emitter_location = Vector3Float::deserialize(buf);
-        let mut beam_records: Vec<AcousticBeamData> = vec![];
-        for _i in 0..number_of_beams {
-            beam_records.push(AcousticBeamData::deserialize(buf));
-        }
+        let beam_records = get_items(
+            buf,
+            usize::from(number_of_beams),
+            AcousticBeamData::deserialize,
+        );
         Self {
             emitter_system_data_length,
             number_of_beams,
diff --git a/src/common/data_types/antenna_pattern.rs b/src/common/data_types/antenna_pattern.rs
index 554b2fd..8fc588a 100644
--- a/src/common/data_types/antenna_pattern.rs
+++ b/src/common/data_types/antenna_pattern.rs
@@ -2,7 +2,9 @@
 //     Copyright (C) 2025 Cameron Howell
 //
 //     Licensed under the BSD-2-Clause License
-use crate::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
+use crate::pdu_macro::{
+    FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize, get_octets,
+};
 use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone, Debug, Default)]
@@ -54,10 +56,7 @@ impl AntennaPattern {
             return None;
         }
 
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = get_octets(buf, usize::from(length));
 
         Some(Self {
             record_specific_fields,
diff --git a/src/common/data_types/attribute_record.rs b/src/common/data_types/attribute_record.rs
index f8eb753..47bfa73 100644
--- a/src/common/data_types/attribute_record.rs
+++ b/src/common/data_types/attribute_record.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_octets};
 
 #[derive(Clone, Debug, Default)]
 pub struct AttributeRecord {
@@ -36,10 +36,7 @@ impl AttributeRecord {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = buf.get_u32();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = get_octets(buf, usize::from(record_length));
         Self {
             record_type,
             record_length,
diff --git a/src/common/data_types/attribute_record_set.rs b/src/common/data_types/attribute_record_set.rs
index c2d39ae..f122898 100644
--- a/src/common/data_types/attribute_record_set.rs
+++ b/src/common/data_types/attribute_record_set.rs
@@ -11,7 +11,7 @@ use crate::{
         SerializedLength,
         data_types::{EntityId, attribute_record::AttributeRecord},
     },
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_items},
 };
 
 #[derive(Clone, Debug, Default)]
@@ -42,10 +42,11 @@ impl AttributeRecordSet {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let entity_id = EntityId::deserialize(buf);
         let number_of_attribute_records = buf.get_u16();
-        let mut attribute_records: Vec<AttributeRecord> = vec![];
-        for _ in 0..number_of_attribute_records {
-            attribute_records.push(AttributeRecord::deserialize(buf));
-        }
+        let attribute_records = get_items(
+            buf,
+            usize::from(number_of_attribute_records),
+            AttributeRecord::deserialize,
+        );
         Self {
             entity_id,
             number_of_attribute_records,
diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index 157378f..fe869e3 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_octets};
 
 #[derive(Clone, Debug)]
 pub struct FixedDatumRecord {
@@ -91,10 +91,7 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = Vec::new();
-        for _ in 0..value_bytes {
-            value.push(buf.get_u8());
-        }
+        let value = get_octets(buf, value_bytes);
         for _ in 0..Self::padding_count(length_bits) {
             buf.get_u8();
         }
diff --git a/src/common/data_types/electromagnetic_emission_beam_data.rs b/src/common/data_types/electromagnetic_emission_beam_data.rs
index 0136474..9ab56cd 100644
--- a/src/common/data_types/electromagnetic_emission_beam_data.rs
+++ b/src/common/data_types/electromagnetic_emission_beam_data.rs
@@ -1,6 +1,6 @@
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_items};
 
 use super::{
     fundamental_parameter_data::FundamentalParameterData, track_jam_target::TrackJamTarget,
@@ -46,10 +46,11 @@ impl ElectromagneticEmissionBeamData {
         let high_density_track_jam = buf.get_u8();
         let pad4 = buf.get_u8();
         let jamming_mode_sequence = buf.get_u32();
-        let mut track_jam_targets: Vec<TrackJamTarget> = vec![];
-        for _i in 0..number_of_track_jam_targets {
-            track_jam_targets.push(TrackJamTarget::deserialize(buf));
-        }
+        let track_jam_targets = get_items(
+            buf,
+            usize::from(number_of_track_jam_targets),
+            TrackJamTarget::deserialize,
+        );
 
         Self {
             beam_data_length,
diff --git a/src/common/data_types/electromagnetic_emission_system_data.rs b/src/common/data_types/electromagnetic_emission_system_data.rs
index f324089..61b02c3 100644
--- a/src/common/data_types/electromagnetic_emission_system_data.rs
+++ b/src/common/data_types/electromagnetic_emission_system_data.rs
@@ -6,7 +6,7 @@ use bytes::{Buf, BufMut, BytesMut};
 
 use crate::{
     common::{SerializedLength, data_types::vector3_float::Vector3Float},
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_items},
 };
 
 #[derive(Clone, Debug, Default)]
@@ -37,10 +37,11 @@ impl ElectromagneticEmissionSystemData {
         let emissionspadding2 = buf.get_u16();
         let emitter_system = EmitterSystem::deserialize(buf);
         let location = Vector3Float::deserialize(buf);
-        let mut beam_data_records: Vec<ElectromagneticEmissionBeamData> = vec![];
-        for _i in 0..number_of_beams {
-            beam_data_records.push(ElectromagneticEmissionBeamData::deserialize(buf));
-        }
+        let beam_data_records = get_items(
+            buf,
+            usize::from(number_of_beams),
+            ElectromagneticEmissionBeamData::deserialize,
+        );
 
         Self {
             system_data_length,
diff --git a/src/common/data_types/modulation_parameters.rs b/src/common/data_types/modulation_parameters.rs
index 899a01b..1af40d7 100644
--- a/src/common/data_types/modulation_parameters.rs
+++ b/src/common/data_types/modulation_parameters.rs
@@ -5,7 +5,9 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
+use crate::pdu_macro::{
+    FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize, get_octets,
+};
 
 #[derive(Clone, Debug, Default)]
 pub struct ModulationParameters {
@@ -31,10 +33,7 @@ impl ModulationParameters {
             return None;
         }
 
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = get_octets(buf, usize::from(length));
 
         Some(Self {
             record_specific_fields,
diff --git a/src/common/data_types/record_specification.rs b/src/common/data_types/record_specification.rs
index ec3bb37..711e489 100644
--- a/src/common/data_types/record_specification.rs
+++ b/src/common/data_types/record_specification.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_items};
 
 use super::record_specification_element::RecordSpecificationElement;
 
@@ -36,10 +36,11 @@ impl RecordSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_record_sets = buf.get_u32();
-        let mut record_sets: Vec<RecordSpecificationElement> = vec![];
-        for _i in 0..number_of_record_sets {
-            record_sets.push(RecordSpecificationElement::deserialize(buf));
-        }
+        let record_sets = get_items(
+            buf,
+            number_of_record_sets as usize,
+            RecordSpecificationElement::deserialize,
+        );
         Self {
             number_of_record_sets,
             record_sets,
diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index 7c4e50c..87e4e44 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_octets};
 
 #[derive(Clone, Debug)]
 pub struct RecordSpecificationElement {
@@ -48,10 +48,7 @@ impl RecordSpecificationElement {
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
         let num_record_values = u32::from(record_length) * u32::from(record_count);
-        let mut record_values: Vec<u8> = vec![];
-        for _ in 0..num_record_values {
-            record_values.push(buf.get_u8());
-        }
+        let record_values = get_octets(buf, num_record_values as usize);
 
         Self {
             record_id,
diff --git a/src/common/data_types/standard_variable_records.rs b/src/common/data_types/standard_variable_records.rs
index 6c92b8c..2230f5c 100644
--- a/src/common/data_types/standard_variable_records.rs
+++ b/src/common/data_types/standard_variable_records.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_octets};
 
 #[derive(Clone, Debug, Default)]
 pub struct StandardVariableRecords {
@@ -39,10 +39,7 @@ impl StandardVariableRecords {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = buf.get_u32();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _i in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = get_octets(buf, usize::from(record_length));
         Self {
             record_type,
             record_length,
diff --git a/src/common/data_types/standard_variable_specification.rs b/src/common/data_types/standard_variable_specification.rs
index 9dde747..13775c5 100644
--- a/src/common/data_types/standard_variable_specification.rs
+++ b/src/common/data_types/standard_variable_specification.rs
@@ -4,7 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use super::standard_variable_records::StandardVariableRecords;
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_items};
 use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone, Debug, Default)]
@@ -34,10 +34,11 @@ impl StandardVariableSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_standard_variable_records = buf.get_u16();
-        let mut standard_variable_records: Vec<StandardVariableRecords> = vec![];
-        for _i in 0..number_of_standard_variable_records {
-            standard_variable_records.push(StandardVariableRecords::deserialize(buf));
-        }
+        let standard_variable_records = get_items(
+            buf,
+            usize::from(number_of_standard_variable_records),
+            StandardVariableRecords::deserialize,
+        );
         Self {
             number_of_standard_variable_records,
             standard_variable_records,
@@ -55,10 +56,11 @@ impl FieldSerialize for StandardVariableSpecification {
 impl FieldDeserialize for StandardVariableSpecification {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let number_of_standard_variable_records = buf.get_u16();
-        let mut records = Vec::with_capacity(number_of_standard_variable_records as usize);
-        for _ in 0..number_of_standard_variable_records {
-            records.push(StandardVariableRecords::deserialize_field(buf));
-        }
+        let records = get_items(
+            buf,
+            usize::from(number_of_standard_variable_records),
+            StandardVariableRecords::deserialize_field,
+        );
         Self {
             number_of_standard_variable_records,
             standard_variable_records: records,
diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index d2337fc..0892b69 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -6,7 +6,7 @@ use bytes::{Buf, BufMut, BytesMut};
 use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_octets};
 
 #[derive(Clone, Debug, Default)]
 pub struct VariableTransmitterParameters {
@@ -50,10 +50,7 @@ impl VariableTransmitterParameters {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = get_octets(buf, usize::from(record_length));
 
         Self {
             record_type,
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index a1ef230..05ac5a2 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -10,6 +10,8 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
+use crate::common::dis_error::DISError;
+
 /// Serialize a single field into the buffer.
 pub trait FieldSerialize {
     fn serialize_field(&self, buf: &mut BytesMut);
@@ -47,6 +49,129 @@ where
     }
 }
 
+/// View of a buffer limited to the body of a single PDU.
+///
+/// Reading past the end of the body yields zeros and is recorded instead of panicking, so that
+/// a truncated or corrupt PDU can be reported to the caller as an error.
+pub struct PduBuf<'a, B: Buf> {
+    inner: &'a mut B,
+    limit: usize,
+    underflow: Option<DISError>,
+}
+
+impl<'a, B: Buf> PduBuf<'a, B> {
+    /// Restrict `inner` to the body of a PDU whose header declares a total of `pdu_length` octets
+    ///
+    /// # Errors
+    ///
+    /// Will return `DISError` if the declared length is shorter than the header itself, or if
+    /// `inner` does not hold the whole body
+    pub fn new(inner: &'a mut B, pdu_length: u16, header_length: usize) -> Result<Self, DISError> {
+        let limit = usize::from(pdu_length)
+            .checked_sub(header_length)
+            .ok_or_else(|| {
+                DISError::invalid_header(
+                    format!("PDU length {pdu_length} is shorter than the header"),
+                    None,
+                )
+            })?;
+        if limit > inner.remaining() {
+            return Err(DISError::buffer_underflow(limit, inner.remaining()));
+        }
+        Ok(Self {
+            inner,
+            limit,
+            underflow: None,
+        })
+    }
+
+    /// Skip whatever is left of the body
+    ///
+    /// # Errors
+    ///
+    /// Will return `DISError` if more octets were read than the body holds
+    pub fn finish(mut self) -> Result<(), DISError> {
+        if let Some(underflow) = self.underflow.take() {
+            return Err(underflow);
+        }
+        self.advance(self.limit);
+        Ok(())
+    }
+
+    fn take<T: Default>(&mut self, len: usize, get: impl FnOnce(&mut B) -> T) -> T {
+        if len > self.limit {
+            let available = std::mem::take(&mut self.limit);
+            self.underflow
+                .get_or_insert(DISError::buffer_underflow(len, available));
+            return T::default();
+        }
+        self.limit -= len;
+        get(self.inner)
+    }
+}
+
+macro_rules! pdu_buf_get {
+    ($($get:ident -> $ty:ty),* $(,)?) => {
+        $(
+            fn $get(&mut self) -> $ty {
+                self.take(std::mem::size_of::<$ty>(), Buf::$get)
+            }
+        )*
+    };
+}
+
+impl<B: Buf> Buf for PduBuf<'_, B> {
+    fn remaining(&self) -> usize {
+        self.limit
+    }
+
+    fn chunk(&self) -> &[u8] {
+        let chunk = self.inner.chunk();
+        &chunk[..chunk.len().min(self.limit)]
+    }
+
+    fn advance(&mut self, cnt: usize) {
+        self.take(cnt, |inner| inner.advance(cnt));
+    }
+
+    pdu_buf_get!(
+        get_u8 -> u8,
+        get_i8 -> i8,
+        get_u16 -> u16,
+        get_i16 -> i16,
+        get_u32 -> u32,
+        get_i32 -> i32,
+        get_u64 -> u64,
+        get_i64 -> i64,
+        get_f32 -> f32,
+        get_f64 -> f64,
+    );
+}
+
+/// Read `len` octets, never reserving more memory than the buffer can fill.
+pub(crate) fn get_octets<B: Buf>(buf: &mut B, len: usize) -> Vec<u8> {
+    let mut octets = vec![0u8; len.min(buf.remaining())];
+    buf.copy_to_slice(&mut octets);
+    if octets.len() < len {
+        // Run into the end of the buffer, so that the shortage is noticed
+        buf.get_u8();
+    }
+    octets
+}
+
+/// Read `count` items, stopping early once an item had to be read past the end of the buffer.
+pub(crate) fn get_items<B: Buf, T>(buf: &mut B, count: usize, get: impl Fn(&mut B) -> T) -> Vec<T> {
+    let mut items = Vec::new();
+    for _ in 0..count {
+        let exhausted = !buf.has_remaining();
+        items.push(get(buf));
+        if exhausted {
+            break;
+        }
+    }
+    items
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
@@ -328,9 +453,21 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                if buf.remaining() < <$header>::LENGTH {
+                    return Err($crate::common::dis_error::DISError::buffer_underflow(
+                        <$header>::LENGTH,
+                        buf.remaining(),
+                    ));
+                }
+
                 // deserialize header using its associated function
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
 
+                Self::deserialize_without_header(buf, header)
+            }
+
+            fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
+            where Self: Sized {
                 // check PDU type (assumes header exposes pdu_type() method; adapt if different)
                 if header.pdu_type() != $pdu_type {
                     return Err($crate::common::dis_error::DISError::invalid_header(
@@ -339,15 +476,14 @@ macro_rules! define_pdu {
                     ));
                 }
 
-                // read body fields with the generated deserializer
-                let mut body = Self::deserialize_body(buf);
-                body.header = header;
-                Ok(body)
-            }
-
-            fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
-            where Self: Sized {
-                let mut body = Self::deserialize_body(buf);
+                // read body fields with the generated deserializer, within the declared length
+                let mut body_buf = $crate::pdu_macro::PduBuf::new(
+                    buf,
+                    header.length(),
+                    <$header>::LENGTH,
+                )?;
+                let mut body = Self::deserialize_body(&mut body_buf);
+                body_buf.finish()?;
                 body.header = header;
                 Ok(body)
             }
-- 
2.43.0


From 7a1548094ef480e97f4ced19d3f6d92a30a6b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 10/15] fix: record lists announced by a count field are
 decoded instead of dropped

---
 src/distributed_emissions.rs                  |  7 +++
 src/entity_information.rs                     |  3 ++
 src/entity_management.rs                      |  6 +++
 src/logistics.rs                              |  3 ++
 src/minefield.rs                              |  7 +++
 src/pdu_macro.rs                              | 47 +++++++++++++++----
 src/radio_communications.rs                   |  5 ++
 src/simulation_management.rs                  | 14 ++++++
 src/simulation_management_with_reliability.rs | 15 ++++++
 src/synthetic_environment.rs                  |  3 ++
 src/warfare.rs                                |  3 ++
 11 files changed, 105 insertions(+), 8 deletions(-)

diff --git a/src/distributed_emissions.rs b/src/distributed_emissions.rs
index ad6170c..237aac6 100644
--- a/src/distributed_emissions.rs
+++ b/src/distributed_emissions.rs
@@ -45,6 +45,7 @@ define_pdu! {
             pub state_update_indicator: EEAttributeStateIndicator,
             pub number_of_systems: u8,
             padding: u16,
+            #[count = number_of_systems]
             pub systems: Vec<ElectromagneticEmissionSystemData>,
         }
     }
@@ -91,8 +92,11 @@ define_pdu! {
             pub number_of_shafts: u8,
             pub number_of_apas: u8,
             pub number_of_ua_emitter_systems: u8,
+            #[count = number_of_shafts]
             pub shaft_rpms: Vec<ShaftRPMs>,
+            #[count = number_of_apas]
             pub apa_data: Vec<ApaData>,
+            #[count = number_of_ua_emitter_systems]
             pub emitter_systems: Vec<AcousticEmitterSystem>,
         }
     }
@@ -116,6 +120,7 @@ define_pdu! {
             pub layer_header: LayerHeader,
             pub beam_data: BeamData,
             pub secondary_operational_data: SecondaryOperationalData,
+            #[count = secondary_operational_data.number_of_iff_fundamental_parameter_records]
             pub iff_parameters: Vec<IFFFundamentalParameterData>,
         }
     }
@@ -135,7 +140,9 @@ define_pdu! {
             pub radar_cross_section_signature_representation_index: u16,
             pub number_of_propulsion_systems: u16,
             pub number_of_vectoring_nozzle_systems: u16,
+            #[count = number_of_propulsion_systems]
             pub propulsion_system_data: Vec<PropulsionSystemData>,
+            #[count = number_of_vectoring_nozzle_systems]
             pub vectoring_nozzle_system_data: Vec<VectoringNozzleSystemData>,
         }
     }
diff --git a/src/entity_information.rs b/src/entity_information.rs
index f97adce..3032605 100644
--- a/src/entity_information.rs
+++ b/src/entity_information.rs
@@ -46,6 +46,7 @@ define_pdu! {
             pub dead_reckoning_parameters: DeadReckoningParameters,
             pub entity_marking: EntityMarking,
             pub entity_capabilities: EntityCapabilities,
+            #[count = number_of_articulation_parameters]
             pub articulation_parameter: Vec<VariableParameter>,
         }
     }
@@ -113,6 +114,7 @@ define_pdu! {
             pub entity_location: WorldCoordinate,
             pub entity_orientation: EulerAngles,
             pub entity_appearance: u32,
+            #[count = number_of_variable_parameters]
             pub variable_parameter_records: Vec<VariableParameter>,
         }
     }
@@ -135,6 +137,7 @@ define_pdu! {
             pub action_code: DISAttributeActionCode,
             padding3: u8,
             pub number_of_attribute_record_sets: u16,
+            #[count = number_of_attribute_record_sets]
             pub attribute_record_sets: Vec<AttributeRecordSet>,
         }
     }
diff --git a/src/entity_management.rs b/src/entity_management.rs
index 157600e..63e4ca7 100644
--- a/src/entity_management.rs
+++ b/src/entity_management.rs
@@ -49,12 +49,17 @@ define_pdu! {
             pub number_of_dis_entities: u16,
             pub number_of_silent_aggregate_types: u16,
             pub number_of_silent_entity_types: u16,
+            #[count = number_of_dis_aggregates]
             pub aggregate_id_list: Vec<AggregateId>,
+            #[count = number_of_dis_entities]
             pub entity_id_list: Vec<EntityId>,
             padding: Vec<u8>,
+            #[count = number_of_silent_aggregate_types]
             pub silent_aggregate_system_list: Vec<EntityType>,
+            #[count = number_of_silent_entity_types]
             pub silent_entity_system_list: Vec<EntityType>,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_list: Vec<VariableDatumRecord>,
         }
     }
@@ -74,6 +79,7 @@ define_pdu! {
             padding: u32,
             pub latitude: f64,
             pub longitude: f64,
+            #[count = number_of_grouped_entities]
             pub grouped_entity_descriptions: Vec<u64>,
         }
     }
diff --git a/src/logistics.rs b/src/logistics.rs
index 5aa9c6d..d76d720 100644
--- a/src/logistics.rs
+++ b/src/logistics.rs
@@ -32,6 +32,7 @@ define_pdu! {
             pub service_type_requested: ServiceRequestServiceTypeRequested,
             pub number_of_supply_types: u8,
             padding: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -50,6 +51,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -68,6 +70,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
diff --git a/src/minefield.rs b/src/minefield.rs
index af2f039..61aba31 100644
--- a/src/minefield.rs
+++ b/src/minefield.rs
@@ -38,7 +38,9 @@ define_pdu! {
             pub minefield_orientation: EulerAngles,
             pub appearance: u16,
             pub protocol_mode: MinefieldStateProtocolMode,
+            #[count = number_of_perimeter_points]
             pub perimeter_points: Vec<Point>,
+            #[count = number_of_mine_types]
             pub mine_type: Vec<EntityType>,
         }
     }
@@ -60,7 +62,9 @@ define_pdu! {
             pub number_of_sensor_types: u8,
             pub data_filter: u32,
             pub requested_mine_type: EntityType,
+            #[count = number_of_perimeter_points]
             pub requested_perimeter_points: Vec<Point>,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
         }
     }
@@ -85,7 +89,9 @@ define_pdu! {
             padding: u8,
             pub data_filter: u32,
             pub mine_type: EntityType,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
+            #[count = number_of_mines_in_this_pdu]
             pub mine_location: Vec<EntityCoordinateVector>,
             pub ground_burial_depth_offset: Vec<Option<f32>>,
             pub water_burial_depth_offset: Vec<Option<f32>>,
@@ -117,6 +123,7 @@ define_pdu! {
             pub requesting_entity_id: EntityId,
             pub request_id: u8,
             pub number_of_missing_pdus: u8,
+            #[count = number_of_missing_pdus]
             pub missing_pdu_sequence_numbers: Vec<u64>,
         }
     }
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 05ac5a2..d84d0b0 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -33,6 +33,21 @@ pub trait FieldDeserializeWithLen: Sized {
     fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> Self;
 }
 
+/// Trait for list types that can be deserialized given an externally-provided item count.
+/// Used by the macro when a field is annotated with `#[count = count_expression]`.
+pub trait FieldDeserializeWithCount: Sized {
+    fn deserialize_with_count<B: Buf>(buf: &mut B, count: usize) -> Self;
+}
+
+impl<T> FieldDeserializeWithCount for Vec<T>
+where
+    T: FieldDeserialize,
+{
+    fn deserialize_with_count<B: Buf>(buf: &mut B, count: usize) -> Self {
+        get_items(buf, count, T::deserialize_field)
+    }
+}
+
 // Blanket impl so `Option<T>` can be deserialized with an externally-provided length
 impl<T> FieldDeserializeWithLen for Option<T>
 where
@@ -185,12 +200,17 @@ macro_rules! __pdu_prep_serialize_field {
 
     ( len = $len_field:ident ; $self:ident, $field:ident, $t:ty ) => {
         // For non-option fields with length attribute, set the length from the inner value.
-        $self.$len_field = u8::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
+        $self.$len_field = TryFrom::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
             &$self.$field,
         ))
         .unwrap_or_default();
     };
 
+    // List with a count attribute: the count field belongs to the caller
+    ( count = $count:expr ; $self:ident, $field:ident, $t:ty ) => {
+        // nothing to do
+    };
+
     // Default: no-op
     ( ; $self:ident, $field:ident, $t:ty ) => {
         // nothing to do
@@ -223,6 +243,15 @@ macro_rules! __pdu_deserialize_field {
         );
     };
 
+    // List with a count attribute
+    ( count = $count:expr ; $field:ident, $t:ty, $buf:ident ) => {
+        let $field: $t =
+            <$t as $crate::pdu_macro::FieldDeserializeWithCount>::deserialize_with_count(
+                $buf,
+                usize::try_from($count).unwrap_or(usize::MAX),
+            );
+    };
+
     // Default: plain FieldDeserialize
     ( ; $field:ident, $t:ty, $buf:ident ) => {
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::deserialize_field($buf);
@@ -347,7 +376,9 @@ macro_rules! define_pdu {
             protocol_family: $protocol_family:expr,
             fields: {
                 $(
-                    $(#[len = $len_field:ident])? $fvis:vis $field:ident : $ftype:ty,
+                    $(#[len = $len_field:ident])?
+                    $(#[count = $count:expr])?
+                    $fvis:vis $field:ident : $ftype:ty,
                 )*
             }
 
@@ -381,11 +412,11 @@ macro_rules! define_pdu {
             /// you should write custom code in the manual body impl below or adapt the macro.
             fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Self {
                 $(
-                    // Each field can optionally be annotated with `#[len = name]`.
-                    // The helper macro below will either call the plain `FieldDeserialize`
-                    // or the length-aware `FieldDeserializeWithLen` depending on the
-                    // annotation.
-                    $crate::__pdu_deserialize_field!( $( len = $len_field )? ; $field, $ftype, buf );
+                    // Each field can optionally be annotated with `#[len = name]` or
+                    // `#[count = expression]`. The helper macro below will call the plain
+                    // `FieldDeserialize`, the length-aware `FieldDeserializeWithLen` or the
+                    // count-aware `FieldDeserializeWithCount` depending on the annotation.
+                    $crate::__pdu_deserialize_field!( $( len = $len_field )? $( count = $count )? ; $field, $ftype, buf );
                 )*
 
                 Self {
@@ -434,7 +465,7 @@ macro_rules! define_pdu {
                 // Allow annotated fields to update their associated "length" fields
                 // before we compute the overall PDU length. If a field is annotated
                 // `#[len = foo]` the prep macro will set `self.foo` appropriately.
-                $( $crate::__pdu_prep_serialize_field!( $( len = $len_field )? ; self, $field, $ftype ); )*
+                $( $crate::__pdu_prep_serialize_field!( $( len = $len_field )? $( count = $count )? ; self, $field, $ftype ); )*
 
                 // compute length the correct way and set it
                 let len = self.calculate_length()?;
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index dcc8251..35b9d40 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -58,7 +58,9 @@ define_pdu! {
             padding2: u16,
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
+            #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
+            #[count = number_of_variable_transmitter_parameters_records]
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
     }
@@ -79,6 +81,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -118,6 +121,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -143,6 +147,7 @@ define_pdu! {
             pub master_intercom_number: u16,
             pub master_channel_id: u16,
             pub intercom_parameters_length: u32,
+            #[count = intercom_parameters_length / 8]
             pub intercom_parameters: Vec<IntercomCommunicationsParameters>,
         }
     }
diff --git a/src/simulation_management.rs b/src/simulation_management.rs
index 8c6a4bc..26c1fef 100644
--- a/src/simulation_management.rs
+++ b/src/simulation_management.rs
@@ -118,7 +118,9 @@ define_pdu! {
             pub action_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -138,7 +140,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -158,7 +162,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -178,7 +184,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -198,7 +206,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -218,7 +228,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -236,7 +248,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
diff --git a/src/simulation_management_with_reliability.rs b/src/simulation_management_with_reliability.rs
index 0af891b..1cdec78 100644
--- a/src/simulation_management_with_reliability.rs
+++ b/src/simulation_management_with_reliability.rs
@@ -137,7 +137,9 @@ define_pdu! {
             padding3: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -157,7 +159,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -180,7 +184,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_ids: Vec<VariableRecordTypes>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_ids: Vec<VariableRecordTypes>,
         }
     }
@@ -202,7 +208,9 @@ define_pdu! {
             pub request_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -224,7 +232,9 @@ define_pdu! {
             padding2: u16,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -244,7 +254,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -262,7 +274,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -284,6 +298,7 @@ define_pdu! {
             pub event_type: RecordQueryREventType,
             pub time: u32,
             pub number_of_records: u32,
+            #[count = number_of_records]
             pub record_ids: Vec<u32>,
         }
     }
diff --git a/src/synthetic_environment.rs b/src/synthetic_environment.rs
index f9dddd9..b52b996 100644
--- a/src/synthetic_environment.rs
+++ b/src/synthetic_environment.rs
@@ -40,6 +40,7 @@ define_pdu! {
             pub environment_status: u8,
             pub number_of_environment_records: u16,
             pub sequence_number: u16,
+            #[count = number_of_environment_records]
             pub environment_records: Vec<Environment>,
         }
     }
@@ -115,6 +116,7 @@ define_pdu! {
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
             pub object_type: ObjectType,
+            #[count = number_of_segments]
             pub linear_segment_parameters: Vec<LinearSegmentParameter>,
         }
     }
@@ -139,6 +141,7 @@ define_pdu! {
             pub number_of_points: u16,
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
+            #[count = number_of_points]
             pub object_location: Vec<WorldCoordinate>,
         }
     }
diff --git a/src/warfare.rs b/src/warfare.rs
index ce0641e..b6393bb 100644
--- a/src/warfare.rs
+++ b/src/warfare.rs
@@ -60,6 +60,7 @@ define_pdu! {
             pub detonation_result: DetonationResult,
             pub number_of_variable_parameters: u8,
             padding: u16,
+            #[count = number_of_variable_parameters]
             pub variable_parameters: Vec<VariableParameter>,
         }
     }
@@ -90,6 +91,7 @@ define_pdu! {
             padding3: u32,
             padding4: u16,
             pub number_of_de_records: u16,
+            #[count = number_of_de_records]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
@@ -107,6 +109,7 @@ define_pdu! {
             padding: u16,
             padding2: u16,
             pub number_of_damage_descriptions: u16,
+            #[count = number_of_damage_descriptions]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
-- 
2.43.0


From f9f294392b2f81a03b0a6d3b6852ac6ff992e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 11/15] fix: general object appearance keeps its
 percent-complete octet when decoded

---
 src/common/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/enums.rs b/src/common/enums.rs
index 2b353bb..00f4d7e 100644
--- a/src/common/enums.rs
+++ b/src/common/enums.rs
@@ -9450,8 +9450,8 @@ impl FieldSerialize for ObjectStateAppearanceGeneral {
 
 impl FieldDeserialize for ObjectStateAppearanceGeneral {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
-        let bits = buf.get_u16();
-        Self::from_bits(bits).unwrap_or_default()
+        // Keep every bit: percent complete occupies the low octet as a number, not as flags
+        Self::from_bits_retain(buf.get_u16())
     }
 }
 
-- 
2.43.0


From 1af7ef78cb1b55e90da4c87ffc945082d89b7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 12/15] fix: grid data sample type and representation are
 decoded with the 16 bits they are encoded in

---
 src/common/enums.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/enums.rs b/src/common/enums.rs
index 00f4d7e..b6a1601 100644
--- a/src/common/enums.rs
+++ b/src/common/enums.rs
@@ -9550,13 +9550,13 @@ pub enum GriddedDataSampleType {
 impl GriddedDataSampleType {
     #[must_use]
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        Self::from_u8(buf.get_u8()).unwrap_or_else(Self::default)
+        Self::from_u16(buf.get_u16()).unwrap_or_else(Self::default)
     }
 }
 
 impl FieldSerialize for GriddedDataSampleType {
     fn serialize_field(&self, buf: &mut BytesMut) {
-        buf.put_u8(*self as u8);
+        buf.put_u16(*self as u16);
     }
 }
 
@@ -9568,7 +9568,7 @@ impl FieldDeserialize for GriddedDataSampleType {
 
 impl FieldLen for GriddedDataSampleType {
     fn field_len(&self) -> usize {
-        1
+        2
     }
 }
 
@@ -9584,13 +9584,13 @@ pub enum GriddedDataDataRepresentation {
 impl GriddedDataDataRepresentation {
     #[must_use]
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        Self::from_u8(buf.get_u8()).unwrap_or_else(Self::default)
+        Self::from_u16(buf.get_u16()).unwrap_or_else(Self::default)
     }
 }
 
 impl FieldSerialize for GriddedDataDataRepresentation {
     fn serialize_field(&self, buf: &mut BytesMut) {
-        buf.put_u8(*self as u8);
+        buf.put_u16(*self as u16);
     }
 }
 
@@ -9602,7 +9602,7 @@ impl FieldDeserialize for GriddedDataDataRepresentation {
 
 impl FieldLen for GriddedDataDataRepresentation {
     fn field_len(&self) -> usize {
-        1
+        2
     }
 }
 
-- 
2.43.0


From f4e1454e6b2cc5ed40e1160bc3e1985fd5a1cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 13/15] fix: grid record padding ends at the 64-bit boundary
 instead of swallowing what follows

---
 src/common/data_types/grid_axis_descriptor.rs | 17 +++++-----
 src/common/data_types/grid_data_record.rs     | 32 +++++++------------
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/common/data_types/grid_axis_descriptor.rs b/src/common/data_types/grid_axis_descriptor.rs
index a5d7961..8594761 100644
--- a/src/common/data_types/grid_axis_descriptor.rs
+++ b/src/common/data_types/grid_axis_descriptor.rs
@@ -7,7 +7,7 @@ use bytes::{Buf, BufMut, BytesMut};
 
 use crate::{
     common::enums::GridAxisDescriptorAxisType,
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_items, get_octets},
 };
 
 #[derive(Clone, Debug, PartialEq)]
@@ -82,6 +82,11 @@ impl GridAxisDescriptor {
         }
     }
 
+    /// Octets of padding that align a record of `length` octets to a 64-bit boundary
+    const fn padding_count(length: usize) -> usize {
+        (8 - length % 8) % 8
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_f64(self.domain_initial);
         buf.put_f64(self.domain_final);
@@ -134,14 +139,8 @@ impl GridAxisDescriptor {
                 let initial_index = buf.get_u16();
                 let coordinate_scale_x = buf.get_f64();
                 let coordinate_offset_x = buf.get_f64();
-                let mut x_values: Vec<u16> = vec![];
-                for _ in 0..number_of_points_on_x_axis {
-                    x_values.push(buf.get_u16());
-                }
-                let mut padding: Vec<u8> = vec![];
-                while buf.has_remaining() {
-                    padding.push(buf.get_u8());
-                }
+                let x_values = get_items(buf, usize::from(number_of_points_on_x_axis), B::get_u16);
+                let padding = get_octets(buf, Self::padding_count(40 + x_values.len() * 2));
 
                 GridAxisType::VariableSpacing {
                     number_of_points_on_x_axis,
diff --git a/src/common/data_types/grid_data_record.rs b/src/common/data_types/grid_data_record.rs
index c64ed29..db00b72 100644
--- a/src/common/data_types/grid_data_record.rs
+++ b/src/common/data_types/grid_data_record.rs
@@ -7,7 +7,7 @@ use bytes::{Buf, BufMut, BytesMut};
 
 use crate::{
     common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType},
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, get_items, get_octets},
 };
 
 #[derive(Clone, Debug, PartialEq)]
@@ -82,6 +82,11 @@ impl GridDataRecord {
         }
     }
 
+    /// Octets of padding that align a record of `length` octets to a 64-bit boundary
+    const fn padding_count(length: usize) -> usize {
+        (8 - length % 8) % 8
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u16(self.sample_type as u16);
         buf.put_u16(self.data_representation as u16);
@@ -136,14 +141,8 @@ impl GridDataRecord {
         let data = match data_representation {
             GriddedDataDataRepresentation::Type0 => {
                 let number_of_octets = buf.get_u16();
-                let mut data_values: Vec<u8> = vec![];
-                for _ in 0..number_of_octets {
-                    data_values.push(buf.get_u8());
-                }
-                let mut padding: Vec<u8> = vec![];
-                while buf.has_remaining() {
-                    padding.push(buf.get_u8());
-                }
+                let data_values = get_octets(buf, usize::from(number_of_octets));
+                let padding = get_octets(buf, Self::padding_count(6 + data_values.len()));
 
                 DataRepresentationType::Type0 {
                     number_of_octets,
@@ -155,14 +154,8 @@ impl GridDataRecord {
                 let field_scale = buf.get_f32();
                 let field_offset = buf.get_f32();
                 let number_of_values = buf.get_u16();
-                let mut data_values: Vec<u16> = vec![];
-                for _ in 0..number_of_values {
-                    data_values.push(buf.get_u16());
-                }
-                let mut padding: Vec<u8> = vec![];
-                while buf.has_remaining() {
-                    padding.push(buf.get_u8());
-                }
+                let data_values = get_items(buf, usize::from(number_of_values), B::get_u16);
+                let padding = get_octets(buf, Self::padding_count(14 + data_values.len() * 2));
 
                 DataRepresentationType::Type1 {
                     field_scale,
@@ -175,10 +168,7 @@ impl GridDataRecord {
             GriddedDataDataRepresentation::Type2 => {
                 let number_of_values = buf.get_u16();
                 let padding = buf.get_u16();
-                let mut data_values: Vec<f32> = vec![];
-                for _ in 0..number_of_values {
-                    data_values.push(buf.get_f32());
-                }
+                let data_values = get_items(buf, usize::from(number_of_values), B::get_f32);
 
                 DataRepresentationType::Type2 {
                     number_of_values,
-- 
2.43.0


From ebe6f81e8ba7215425cbd2e689104d2981c6f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 14/15] fix: gridded data axis and data records are decoded
 instead of dropped

---
 src/synthetic_environment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthetic_environment.rs b/src/synthetic_environment.rs
index b52b996..7911f91 100644
--- a/src/synthetic_environment.rs
+++ b/src/synthetic_environment.rs
@@ -68,7 +68,9 @@ define_pdu! {
             pub vector_dimension: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_grid_axes]
             pub grid_axis_descriptors: Vec<GridAxisDescriptor>,
+            #[count = vector_dimension]
             pub grid_data_list: Vec<GridDataRecord>,
         }
     }
-- 
2.43.0


From dd0a8bb5c73e6499f3b0598e516d2abd8c1ada59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 15/15] fix: keep the lint settings clean in the PDU body view

---
 src/pdu_macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index d84d0b0..8f30293 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -117,7 +117,7 @@ impl<'a, B: Buf> PduBuf<'a, B> {
         if len > self.limit {
             let available = std::mem::take(&mut self.limit);
             self.underflow
-                .get_or_insert(DISError::buffer_underflow(len, available));
+                .get_or_insert_with(|| DISError::buffer_underflow(len, available));
             return T::default();
         }
         self.limit -= len;
-- 
2.43.0

