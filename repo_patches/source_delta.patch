From 349ddee8f8e5d96057845de9984022e2f5db95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 01/41] fix: reject tunneling requests whose size field is too
 small or exceeds the datagram

---
 src/packets/tunneling.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..02b6c98 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -73,8 +73,9 @@ impl TunnelingRequest {
             Err(e) => whatever!("Unable to read padding {:?}", e),
         };
 
+        ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From 052efd36eeafa7cdf913db344668bded57547b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:27 +0000
Subject: [PATCH 02/41] fix: cEMI additional info parsing must not overflow or
 accept truncated blocks

---
 src/packets/emi.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..4fd0ec4 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -204,8 +204,8 @@ impl CEMI {
         };
 
         let mut additional_infos = Vec::new();
-        let mut position = 0;
-        while position < additional_infos_size {
+        let mut position = 0usize;
+        while position < additional_infos_size as usize {
             let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
                 Ok(info_type) => match info_type.try_into() {
                     Ok(t) => t,
@@ -219,7 +219,7 @@ impl CEMI {
             };
 
             let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
@@ -227,7 +227,7 @@ impl CEMI {
                 info_type: additional_info_type,
                 value: additional_info,
             });
-            position += additional_info_size + 2;
+            position += additional_info_size as usize + 2;
         }
 
         let mut service_info = Vec::new();
-- 
2.43.0


From 23f7abfc1167868caf4cc9883f97f0f294a95228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:28 +0000
Subject: [PATCH 03/41] fix: reject L_Data.ind whose value is shorter than its
 length field

---
 src/packets/emi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 4fd0ec4..2115cf4 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
-- 
2.43.0


From 8b7f48446a8aa56cb5e873565fa752f399891cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:28 +0000
Subject: [PATCH 04/41] fix: reject supported service families DIB with a
 structure length below 2

---
 src/packets/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..29da59c 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1072,6 +1072,11 @@ impl SupportedServiceFamiliesDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(
+            structure_length >= 2,
+            "Structure length should be at least 2 instead of {}",
+            structure_length
+        );
         let mut service_families = Vec::new();
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
-- 
2.43.0


From a0303ca004dd794c50c6d6e8d64b0dca81b3be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 05/41] fix: KNX addresses DIB carries two-octet individual
 addresses, and short lengths are rejected

---
 src/packets/core.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 29da59c..258c0c8 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1218,41 +1218,44 @@ impl IpCurrentConfigDIB {
 pub struct KNXAddressesDIB {
     pub structure_length: u8,
     pub description_type_code: DescriptionTypeCode,
-    pub knx_individual_address: Ipv4Addr,
-    pub additional_individual_addresses: Vec<Ipv4Addr>,
+    pub knx_individual_address: IndividualAddress,
+    pub additional_individual_addresses: Vec<IndividualAddress>,
 }
 
 impl KNXAddressesDIB {
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = Vec::new();
-        packet.extend_from_slice(&self.knx_individual_address.octets());
+        packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();
         for address in &self.additional_individual_addresses {
-            packet.extend_from_slice(&address.octets());
+            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
         }
         packet
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
-        let mut knx_individual_address = [0; 4];
-        packet_reader
-            .read_exact(&mut knx_individual_address)
+        ensure_whatever!(
+            structure_length >= 4,
+            "Structure length should be at least 4 instead of {}",
+            structure_length
+        );
+        let knx_individual_address = packet_reader
+            .read_u16::<BigEndian>()
             .whatever_context("Unable to read knx individual address")?;
 
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
-            // - 1 byte structure length - 2 byte description type code  - 2 bytes knx individual address
-            let mut additional_individual_address = [0; 4];
-            packet_reader
-                .read_exact(&mut additional_individual_address)
+            // - 1 byte structure length - 1 byte description type code  - 2 bytes knx individual address
+            let additional_individual_address = packet_reader
+                .read_u16::<BigEndian>()
                 .whatever_context("Unable to read additional individual address")?;
-            additional_individual_addresses.push(Ipv4Addr::from(additional_individual_address));
+            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
         }
 
         Ok(Self {
             structure_length,
             description_type_code: DescriptionTypeCode::KNXAddresses,
-            knx_individual_address: Ipv4Addr::from(knx_individual_address),
+            knx_individual_address: IndividualAddress::from_u16(knx_individual_address),
             additional_individual_addresses,
         })
     }
-- 
2.43.0


From 1b4a4bd38554bcdd5bc1cad5af3795918566355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 06/41] fix: manufacturer data DIB length includes its four
 octet header

---
 src/packets/core.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 258c0c8..f68dfb7 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1282,7 +1282,13 @@ impl ManufacturerDataDIB {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let knx_manufacturer_id = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read knx manufacturer id")?;
 
-        let mut manufacturer_specific_data = vec![0; structure_length as usize];
+        ensure_whatever!(
+            structure_length >= 4,
+            "Structure length should be at least 4 instead of {}",
+            structure_length
+        );
+        // - 1 byte structure length - 1 byte description type code - 2 bytes knx manufacturer id
+        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
         packet_reader
             .read_exact(&mut manufacturer_specific_data)
             .whatever_context("Unable to read manufacturer specific data")?;
-- 
2.43.0


From e8b6220614ae1ed1ae385c557df74037823241ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 07/41] fix: the structure length of a padded DIB counts the
 padding octet

---
 src/packets/core.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index f68dfb7..186b427 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -844,14 +844,15 @@ impl DIB {
             Self::ManufacturerData(manufacturer_data) => (DescriptionTypeCode::ManufacturerData, manufacturer_data.packet()),
         };
 
-        let structure_length = 2 + data_packet.len();
+        // 7.5.4.1
+        // Structure length must be even. Add a padding of 0x00 if necessary.
+        let padding = data_packet.len() % 2;
+        let structure_length = 2 + data_packet.len() + padding;
         packet.write_u8(structure_length as u8).unwrap();
         packet.write_u8(type_code as u8).unwrap();
         packet.extend_from_slice(&data_packet);
 
-        // 7.5.4.1
-        // Structure length must be even. Add a padding of 0x00 if necessary.
-        if structure_length % 2 != 0 {
+        if padding != 0 {
             packet.write_u8(0x00).unwrap();
         }
 
-- 
2.43.0


From b09294cf2cb2ec2ebc2905e1149d23bebd90e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 08/41] fix: connection response carries its two-octet total
 length

---
 src/packets/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 186b427..a80168f 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -293,9 +293,15 @@ impl ConnectionResponse {
     }
 
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x08, self.communication_channel_id, self.status];
-        packet.extend_from_slice(&self.data_endpoint.packet());
-        packet.extend_from_slice(&self.crd.packet());
+        let mut packet = vec![0x06, 0x10, 0x02, 0x06];
+        let mut data_endpoint_packet = self.data_endpoint.packet();
+        let mut crd_packet = self.crd.packet();
+        let size = packet.len() + 4 + data_endpoint_packet.len() + crd_packet.len();
+        packet.write_u16::<BigEndian>(size as u16).unwrap();
+        packet.write_u8(self.communication_channel_id).unwrap();
+        packet.write_u8(self.status).unwrap();
+        packet.append(&mut data_endpoint_packet);
+        packet.append(&mut crd_packet);
         packet
     }
 }
-- 
2.43.0


From e57b9c733d65a72e733d30560e600bdf2d38f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 09/41] fix: parse the KNXnet/IP header of a disconnect request

---
 src/packets/core.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index a80168f..6ed8590 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -484,12 +484,31 @@ impl DisconnectRequest {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
         let header_size = match packet_reader.read_u8() {
             Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
+                ensure_whatever!(header_size == 6, "Header size should be 6 instead of {}", header_size);
                 header_size
             }
             Err(e) => whatever!("Unable to read header size {:?}", e),
         };
 
+        match packet_reader.read_u8() {
+            Ok(version) => {
+                ensure_whatever!(version == 0x10, "KNXIP version should be 0x10 instead of {:2X}", header_size);
+            }
+            Err(e) => whatever!("Unable to read KNXIP version {:?}", e),
+        };
+
+        match packet_reader.read_u16::<BigEndian>() {
+            Ok(code) => {
+                ensure_whatever!(code == 0x0209, "Disconnect request should be 0x0209 instead of {:2X}", code);
+            }
+            Err(e) => whatever!("Unable to read Disconnect request code {:?}", e),
+        };
+
+        let _size = match packet_reader.read_u16::<BigEndian>() {
+            Ok(size) => size,
+            Err(e) => whatever!("Unable to read packet size {:?}", e),
+        };
+
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
             Err(e) => whatever!("Unable to read communication channel id {:?}", e),
-- 
2.43.0


From a693eba8c9f0ae7ea9aeb890bf2f5b86cea7fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 10/41] fix: search response packet includes the DIB headers

---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 6ed8590..dbce199 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -682,8 +682,8 @@ impl SearchResponse {
         let mut packet = vec![0x06, 0x10, 0x02, 0x02];
 
         let mut control_endpoint_packet = self.control_endpoint.packet();
-        let mut device_hardware_packet = self.device_hardware.packet();
-        let mut supported_service_families_packet = self.supported_service_families.packet();
+        let mut device_hardware_packet = DIB::DeviceInformation(self.device_hardware.clone()).packet();
+        let mut supported_service_families_packet = DIB::SupportedServiceFamilies(self.supported_service_families.clone()).packet();
         let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();
 
         packet.write_u16::<BigEndian>(size as u16).unwrap();
-- 
2.43.0


From fd828e71cdd029798a4f3d6b8e2499abe255102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:35 +0000
Subject: [PATCH 11/41] fix: pad device friendly names shorter than 30 octets
 instead of rejecting them

---
 src/packets/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index dbce199..8f64cc5 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -982,9 +982,12 @@ impl DeviceInformationDIB {
         mac_address: [u8; 6],
         friendly_name: String,
     ) -> Result<Self, Whatever> {
-        let friendly_name = ISO_8859_1
+        let mut friendly_name = ISO_8859_1
             .encode(&friendly_name, EncoderTrap::Strict)
             .whatever_context("Unable to encode device friendly name")?;
+        if friendly_name.len() < 30 {
+            friendly_name.resize(30, 0x00); // pad it
+        }
         let friendly_name = friendly_name
             .try_into()
             .map_err(|_err| "")
-- 
2.43.0


From b65850bf72eb0c920697b2991094d6bd0c4b02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 12/41] fix: feature response packet uses its own service type
 and carries the status

---
 src/packets/tunneling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 02b6c98..e8ffa70 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -207,13 +207,13 @@ pub struct FeatureResp {
 
 impl FeatureResp {
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
+        let mut packet = vec![0x06, 0x10, 0x04, 0x23, 0, 0x0d];
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
         packet.write_u8(0).unwrap();
         packet.write_u8(self.feature as u8).unwrap();
-        packet.write_u8(0).unwrap();
+        packet.write_u8(self.status).unwrap();
         packet.write_u8(self.value).unwrap();
         packet
     }
-- 
2.43.0


From 1af8fcae54c92247bb293262e9d29c7ac9c01b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 13/41] fix: an empty small group value must not panic

---
 src/packets/apdu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 2d50caf..ea489d6 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -28,7 +28,7 @@ impl APDU {
     }
 
     pub fn group_value_write(data: Vec<u8>, small: bool) -> Self {
-        let data = if small { APDUData::Small(data[0]) } else { APDUData::Big(data) };
+        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
         Self {
             apci: APCI::a_group_value_write(),
             data,
-- 
2.43.0


From c785849b3eaec378757c6b85f4382ac2391ec6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 14/41] fix: refuse group values that do not fit the telegram
 length field

---
 src/packets/emi.rs           | 2 +-
 src/transport/udp.rs         | 1 +
 src/transport/udp_monitor.rs | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 2115cf4..bf3f70a 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -174,7 +174,7 @@ impl LDataReqMessage {
         packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();
 
         let mut tpdu_packet = self.tpdu.packet();
-        packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap(); // Count of APCI values
+        packet.write_u8((tpdu_packet.len() - 1) as u8).unwrap(); // Count of APCI values
         packet.append(&mut tpdu_packet);
 
         packet
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..9e6de60 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -538,6 +538,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        ensure_whatever!(small || value.len() <= 253, "Value of {} bytes does not fit in a telegram", value.len());
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..aff796b 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -21,6 +21,7 @@ use crate::transport::udp::MyUdpSocket;
 use log::debug;
 use log::info;
 use log::warn;
+use snafu::ensure_whatever;
 use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
@@ -337,6 +338,7 @@ impl UdpMonitor {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        ensure_whatever!(small || value.len() <= 253, "Value of {} bytes does not fit in a telegram", value.len());
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
-- 
2.43.0


From bf96e317d15b9f6818b39729b9c8852f25b54bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 15/41] fix: two level group addresses are 5 bit main and 11
 bit sub

---
 src/packets/addresses.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..115fdc5 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -21,7 +21,7 @@ impl KnxAddress {
         Self::Group1Level(Group1LevelAddress { main })
     }
 
-    pub fn group_2_level(main: u8, sub: u8) -> Self {
+    pub fn group_2_level(main: u8, sub: u16) -> Self {
         Self::Group2Level(Group2LevelAddress { main, sub })
     }
 
@@ -64,7 +64,7 @@ impl TryFrom<&str> for KnxAddress {
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let sub = parts.get(1).unwrap();
-                let sub = match sub.parse::<u8>() {
+                let sub = match sub.parse::<u16>() {
                     Ok(sub) => sub,
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
@@ -207,7 +207,7 @@ impl Group3LevelAddress {
 
 pub struct Group2LevelAddress {
     main: u8,
-    sub: u8,
+    sub: u16,
 }
 
 impl fmt::Debug for Group2LevelAddress {
@@ -219,8 +219,8 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
-        addr |= (self.sub) as u16;
+        addr |= (self.main as u16) << 11_u16;
+        addr |= self.sub;
 
         addr
     }
-- 
2.43.0


From 36d54e42f2f9298c9899a92f2e9f1c8c25b1a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 16/41] fix: reject textual addresses whose components do not
 fit their bit fields

---
 src/packets/addresses.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 115fdc5..71393e6 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -69,6 +69,10 @@ impl TryFrom<&str> for KnxAddress {
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
 
+                if main > 31 || sub > 2047 {
+                    whatever!("Group address {:?} is out of range 31/2047", value);
+                }
+
                 Ok(Self::group_2_level(main, sub))
             } else if parts.len() == 3 {
                 let main = parts.first().unwrap();
@@ -87,6 +91,10 @@ impl TryFrom<&str> for KnxAddress {
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
 
+                if main > 31 || mid > 7 {
+                    whatever!("Group address {:?} is out of range 31/7/255", value);
+                }
+
                 Ok(Self::group_3_level(main, mid, sub))
             } else {
                 whatever!("Unable to parse group address {:?}, parts should be 1 to 3", value)
@@ -144,6 +152,9 @@ impl TryFrom<&str> for IndividualAddress {
             Ok(a) => a,
             Err(e) => whatever!("Unable to parse address value {:?}, error {:?}", parts.get(2), e),
         };
+        if area > 15 || line > 15 {
+            whatever!("Individual address {:?} is out of range 15.15.255", value);
+        }
         Ok(Self { area, line, address })
     }
 }
@@ -177,7 +188,7 @@ impl TryFrom<&str> for Group3LevelAddress {
         }
 
         match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {
-            (Ok(main), Ok(middle), Ok(sub)) => Ok(Self { main, middle, sub }),
+            (Ok(main), Ok(middle), Ok(sub)) if main <= 31 && middle <= 7 => Ok(Self { main, middle, sub }),
             _ => whatever!("Unable to parse parts in u8"),
         }
     }
-- 
2.43.0


From 26d5b9223b587d640ecca2d4356183253fb1be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 17/41] fix: PdtKnxByte is not a small value

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 89cb7ed..f1a8b7c 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -300,7 +300,7 @@ impl Pdt<u8> for PdtKnxByte {
     }
 
     fn is_small(&self) -> bool {
-        todo!()
+        false
     }
 }
 
-- 
2.43.0


From 03e7ddcc40468e61f004a0f4d80e17c2aae1efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 18/41] fix: percent_v16 saturates instead of overflowing

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index f1a8b7c..6b23da0 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -120,7 +120,7 @@ impl PdtKnxInt {
         Self {
             code: "8.010".to_string(),
             unit: "%".to_string(),
-            value: value * 100,
+            value: value.saturating_mul(100),
         }
     }
 }
-- 
2.43.0


From 27671b309833b81f6996143c8970fa50b3d67853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:42 +0000
Subject: [PATCH 19/41] fix: decoded unsigned long and 3 bit controlled values
 keep their datapoint code

---
 src/dp_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 6b23da0..3e83408 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -370,7 +370,7 @@ impl Pdt<u32> for PdtKnxULong {
         let mut reader = Cursor::new(b);
         let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
         Ok(Self {
-            code: "8.x".to_string(),
+            code: "12.x".to_string(),
             value,
         })
     }
@@ -453,7 +453,7 @@ impl Pdt<u8> for PdtKnxB1U3 {
     {
         let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
         Ok(Self {
-            code: "0.x".to_string(),
+            code: "3.x".to_string(),
             bit: (value & 8) > 0,
             step: value & 0b111,
         })
-- 
2.43.0


From ced48ac049cb30f61598a93f947d4d64b943a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:43 +0000
Subject: [PATCH 20/41] fix: scaling maps 0..100 percent onto 0..255 (DPT
 5.001)

---
 src/dp_types.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 3e83408..d6a6631 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -55,15 +55,12 @@ impl PdtKnxScaledValue {
         Self {
             code: "5.001".to_string(),
             unit: "%".to_string(),
-            value: (percent * 2.54 + 1.0).round() as u8,
+            value: (percent * 2.55).round() as u8,
         }
     }
 
     pub fn get_value(&self) -> f32 {
-        if self.value == 0 {
-            return 0.0;
-        }
-        (self.value - 1) as f32 / 2.54
+        self.value as f32 / 2.55
     }
 }
 
-- 
2.43.0


From 14f57853d2fddc52f133ce2deb39dbd1c9bc5372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 21/41] fix: two octet float handles the whole exponent and
 mantissa range

---
 src/dp_types.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index d6a6631..edd66b1 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -223,20 +223,21 @@ fn _float_to_bytes(value: f32) -> Vec<u8> {
 // https://github.com/calimero-project/calimero-core/blob/d6fee46dbfeda9ddc90e77e25444dc1b1dd98f82/src/tuwien/auto/calimero/dptxlator/DPTXlator2ByteFloat.java#L300
 //
 fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
-    let mut v = v * 100.0;
+    // Values out of range saturate, -2048 * 2^15 and 2047 * 2^15 are the limits of the format
+    let mut v = (v * 100.0).clamp(-67108864.0, 67076096.0);
     let mut exp = 0;
     while v < -2048.0 {
         v /= 2.0;
         exp += 1;
     }
-    while v > 2048.0 {
+    while v.round() > 2047.0 {
         v /= 2.0;
         exp += 1;
     }
 
     let m = v.round() as i16 & 0x7ff;
     let mut msb: u8 = (exp << 3 | m >> 8) as u8;
-    if v < 0.0 {
+    if v.round() < 0.0 {
         msb |= 0x80;
     }
     let lsb = (m & 0xff) as u8;
@@ -249,16 +250,10 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
         Err(e) => whatever!("Wrong bytes count, {:?}", e),
     });
     let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
-    let mut exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
-    if (exp & 8) > 0 {
-        exp -= 1;
-        exp ^= 0xf;
-        exp += -1;
-    }
+    let exp = (value & 0b0111_1000_0000_0000) >> 11;
     let mut mantissa = value & 0x07ff;
     if sign < 0.0 {
-        mantissa -= 1;
-        mantissa ^= 0x7ff;
+        mantissa = 0x800 - mantissa;
     }
     let mantissa: f32 = mantissa as f32 * sign;
     Ok((0.01 * mantissa) * (1 << exp) as f32)
-- 
2.43.0


From 47f825890e783bf59061f5b6cb21fba911d942b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 22/41] fix: parse only the received bytes of a datagram, and
 leave room for extended frames

---
 src/transport/udp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9e6de60..54f5a23 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -406,10 +406,12 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
     loop {
-        let mut data = vec![0; 100];
+        let mut data = vec![0; 512];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
 
         if count > 0 {
+            // Only the received bytes belong to the message
+            data.truncate(count);
             let resp = parse_response(data)?;
 
             match resp {
-- 
2.43.0


From 29695bcc16f8cfc985615c3b368289779fb1aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:37 +0000
Subject: [PATCH 23/41] fix: a group read is not answered by another device's
 read request

---
 src/packets/emi.rs   | 2 ++
 src/transport/udp.rs | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index bf3f70a..5fa9d0d 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -69,6 +69,7 @@ pub struct LData {
 pub struct LDataInd {
     pub cemi: CEMI,
     pub l_data: LData,
+    pub apci: u16,
     pub value: Vec<u8>,
 }
 
@@ -133,6 +134,7 @@ impl LDataInd {
                 system_broadcast,
                 ack_request,
             },
+            apci,
             value,
         })
     }
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 54f5a23..f4af066 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -523,7 +523,8 @@ impl UdpClient {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
                     let data_ind = LDataInd::from_cemi(cemi)?;
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
+                    // APCI 0 is a read request of another device, it carries no value
+                    if data_ind.l_data.dest == expected_addr && data_ind.apci != 0 {
                         return Ok(data_ind.value);
                     }
                 }
-- 
2.43.0


From 2776208328fb815ac31f68146b8d93655b2fe069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:39 +0000
Subject: [PATCH 24/41] fix: a group write succeeds on a positive confirmation
 only, and survives bus traffic

---
 src/transport/udp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index f4af066..e8560c9 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -554,10 +554,14 @@ impl UdpClient {
         loop {
             match timeout(self.get_write_timeout(), rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
-                    let data_con = LDataCon::from_cemi(cemi);
+                    let data_con = LDataCon::from_cemi(cemi)?;
                     debug!("Parsed confirmation cEMI {:?}", data_con);
+                    ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
                     return Ok(());
                 }
+                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
+                    debug!("Bus traffic while waiting for confirmation");
+                }
                 Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
-- 
2.43.0


From eadbf07ca549bbd0c14eabcc3f655aeafc2b85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:40 +0000
Subject: [PATCH 25/41] fix: disconnect waits for the receive task and reports
 success

---
 src/transport/udp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e8560c9..6a76018 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -262,13 +262,16 @@ impl UdpTransport {
     pub async fn disconnect(&self) -> Result<(), Whatever> {
         let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
+        }
 
+        // The receive task closes the channel once the device answered the disconnection
         let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
+        while let Some(cemi) = rx.recv().await {
+            debug!("Discard cEMI while disconnecting {:?}", cemi);
         }
+        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
-- 
2.43.0


From 6a9ae8c11383e365108bc7f69a2e70d3ec05ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:41 +0000
Subject: [PATCH 26/41] fix: monitor disconnect reports socket errors instead
 of panicking

---
 src/transport/udp_monitor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index aff796b..1b90650 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -230,10 +230,14 @@ impl UdpMonitorTransport {
         let communication_channel_id = self.communication_channel_id().await?;
         let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
+        }
 
         let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
+        if let Err(e) = self.socket.recv(&mut resp).await {
+            whatever!("Unable to get disconnect response {:?}", e);
+        }
         let mut resp_cursor = Cursor::new(resp.as_slice());
 
         match DisconnectResponse::from_packet(&mut resp_cursor) {
-- 
2.43.0


From 98e7db9cd6c6ed32f32d81358b91e100d07020c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:43 +0000
Subject: [PATCH 27/41] fix: search reports send errors and does not mix
 datagrams

---
 src/transport/udp.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 6a76018..3f52444 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -289,10 +289,9 @@ impl UdpTransport {
 
         let req = SearchRequest::udp_unicast(local_addr).packet();
         debug!("Sending search request {:0x?}", req);
-        socket
-            .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
-            .await
-            .expect("Unable to send request");
+        if let Err(e) = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
+            whatever!("Unable to send search request {:?}", e);
+        }
 
         let mut buffer = vec![0; 100];
         let mut responses = Vec::new();
@@ -301,9 +300,9 @@ impl UdpTransport {
             select! {
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
+                        Ok(n_bytes) => {
                             debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
+                            let mut cursor = Cursor::new(&buffer[..n_bytes]);
                             let resp = SearchResponse::from_packet(&mut cursor)?;
                             debug!("Parsed search response {:0x?}", resp);
                             responses.push(resp);
-- 
2.43.0


From 2e3b4d8565f6d82bb3a43ac8d75b5e3790406536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:45 +0000
Subject: [PATCH 28/41] fix: after a disconnection the client no longer reports
 a connection

---
 src/transport/udp.rs         | 1 +
 src/transport/udp_monitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 3f52444..93da33f 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -182,6 +182,7 @@ impl UdpTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
             }
         });
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 1b90650..f0bb050 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -155,6 +155,7 @@ impl UdpMonitorTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
             }
         });
-- 
2.43.0


From 7f2fee2d80603e4f4271f1948daa11b28c996405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:08 +0000
Subject: [PATCH 29/41] fix: heart beats no longer lose a telegram that is
 being delivered

---
 src/transport/udp.rs         | 5 ++++-
 src/transport/udp_monitor.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 93da33f..6ad0dda 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -149,9 +149,12 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // A heart beat must not cancel a reception that is delivering a message
+                    let receive = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(receive);
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut receive => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index f0bb050..a43f6b2 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -120,9 +120,12 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // A heart beat must not cancel a reception that is delivering a message
+                    let receive = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(receive);
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut receive => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From ddcc0703c49e398830dbf821d55eddaa6f7729f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:01 +0000
Subject: [PATCH 30/41] fix: connection status no longer competes with the
 receive task for datagrams

---
 src/transport/udp.rs         | 33 +++++++++++++++++++++++----------
 src/transport/udp_monitor.rs |  3 ++-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 6ad0dda..95fd62c 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -101,6 +101,7 @@ struct UdpTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    state_rx: Arc<Mutex<mpsc::Receiver<ConnectionstateResponse>>>,
 }
 
 impl UdpTransport {
@@ -121,6 +122,7 @@ impl UdpTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (state_tx, state_rx) = mpsc::channel(1);
 
         tokio::spawn({
             let socket = socket.clone();
@@ -150,7 +152,7 @@ impl UdpTransport {
                     }
 
                     // A heart beat must not cancel a reception that is delivering a message
-                    let receive = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let receive = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), state_tx.clone());
                     tokio::pin!(receive);
                     'recv: loop {
                         tokio::select! {
@@ -194,6 +196,7 @@ impl UdpTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            state_rx: Arc::new(Mutex::new(state_rx)),
         })
     }
 
@@ -224,17 +227,23 @@ impl UdpTransport {
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
         let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        // Only the receive task reads from the socket, it passes on the responses.
+        // One of an earlier heart beat is of no interest
+        let mut state_rx = self.state_rx.lock().await;
+        if let Ok(resp) = state_rx.try_recv() {
+            debug!("Discard connectionstate response {:?}", resp);
+        }
         if let Err(e) = self.socket.send(&req.packet()).await {
             whatever!("Unable to send connection state request {:?}", e);
         };
 
-        let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
+        match state_rx.recv().await {
+            Some(resp) => {
+                debug!("Connectiostate response {:?}", resp);
+                Ok(resp)
+            }
+            None => whatever!("Connectionstate not responded"),
         }
-        debug!("Connectiostate response {:0x?}", resp);
-        let mut cursor = Cursor::new(resp.as_slice());
-        Ok(ConnectionstateResponse::from_packet(&mut cursor)?)
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
@@ -410,7 +419,7 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>, state_tx: Sender<ConnectionstateResponse>) -> TransportResult<String> {
     loop {
         let mut data = vec![0; 512];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -450,8 +459,12 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     }
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
-                    if resp.status != 0 {
-                        warn!("Connection state response with error {}", resp.status);
+                    let status = resp.status;
+                    if state_tx.try_send(resp).is_err() {
+                        trace!("Nobody waits for the connection state");
+                    }
+                    if status != 0 {
+                        warn!("Connection state response with error {}", status);
                         whatever!("KNX device signaled a connection state error");
                     }
                 }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index a43f6b2..9e2d45f 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -77,6 +77,7 @@ impl UdpMonitorTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (state_tx, _state_rx) = mpsc::channel(1);
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
@@ -121,7 +122,7 @@ impl UdpMonitorTransport {
                     }
 
                     // A heart beat must not cancel a reception that is delivering a message
-                    let receive = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let receive = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), state_tx.clone());
                     tokio::pin!(receive);
                     loop {
                         tokio::select! {
-- 
2.43.0


From 9640da490926f31a86e00c83d31ee946f38db64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:10 +0000
Subject: [PATCH 31/41] fix: monitor disconnection waits for the receive task,
 which ends the connection

---
 src/transport/udp.rs         | 10 +++++++---
 src/transport/udp_monitor.rs | 28 +++++++++++++++-------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 95fd62c..6929af9 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -419,7 +419,9 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>, state_tx: Sender<ConnectionstateResponse>) -> TransportResult<String> {
+// Returns the disconnection status when the connection is closed by one of the sides
+//
+pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>, state_tx: Sender<ConnectionstateResponse>) -> TransportResult<u8> {
     loop {
         let mut data = vec![0; 512];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -474,14 +476,16 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     } else {
                         warn!("Unable to disconnect, status code {:?}", resp);
                     }
-                    break Ok("KNX device disconnected by our will".into());
+                    debug!("KNX device disconnected by our will");
+                    break Ok(resp.status);
                 }
                 TunnelingResponse::DisconnectRequest(req) => {
                     let disconnect_resp = DisconnectResponse::from_disconnect_request(&req);
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    debug!("KNX device requested disconnection");
+                    break Ok(0);
                 }
             }
         }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 9e2d45f..e68d849 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -4,7 +4,6 @@ use crate::packets::apdu::APDU;
 use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
-use crate::packets::core::DisconnectResponse;
 use crate::packets::core::HPAI;
 use crate::packets::emi::CEMIMessageCode;
 use crate::packets::emi::LDataCon;
@@ -26,7 +25,6 @@ use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
 use std::fmt::Debug;
-use std::io::Cursor;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
@@ -56,6 +54,7 @@ struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    disconnect_status: Arc<Mutex<Option<u8>>>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
 }
 
@@ -78,11 +77,13 @@ impl UdpMonitorTransport {
 
         let (from_knx_tx, rx) = mpsc::channel(100);
         let (state_tx, _state_rx) = mpsc::channel(1);
+        let disconnect_status: Arc<Mutex<Option<u8>>> = Arc::new(Mutex::new(None));
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
             let socket = socket.clone();
             let connection_data = connection_data.clone();
+            let disconnect_status = disconnect_status.clone();
             let on_connection = on_connection.clone();
 
             async move {
@@ -128,7 +129,8 @@ impl UdpMonitorTransport {
                         tokio::select! {
                             resp = &mut receive => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
-                                if resp.is_ok() {
+                                if let Ok(status) = resp {
+                                    *disconnect_status.lock().await = Some(status);
                                     break 'main;
                                 } else {
                                     break;
@@ -168,6 +170,7 @@ impl UdpMonitorTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            disconnect_status,
             on_connection,
         })
     }
@@ -239,18 +242,17 @@ impl UdpMonitorTransport {
             whatever!("Unable to send disconnect request {:?}", e);
         }
 
-        let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Unable to get disconnect response {:?}", e);
+        // The receive task closes the channel once the device answered the disconnection
+        let mut rx = self.rx.lock().await;
+        while let Some(cemi) = rx.recv().await {
+            debug!("Discard cEMI while disconnecting {:?}", cemi);
         }
-        let mut resp_cursor = Cursor::new(resp.as_slice());
-
-        match DisconnectResponse::from_packet(&mut resp_cursor) {
-            Ok(resp) => {
-                debug!("Disconnect response status {}", resp.status);
-                Ok(resp.status)
+        match *self.disconnect_status.lock().await {
+            Some(status) => {
+                debug!("Disconnect response status {}", status);
+                Ok(status)
             }
-            Err(e) => whatever!("Unable to request disconnection for id {}, {:?}", communication_channel_id, e),
+            None => whatever!("Unable to request disconnection for id {}", communication_channel_id),
         }
     }
 }
-- 
2.43.0


From 8ef2e589fc129d51856e45d69cca16618fb06dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:15 +0000
Subject: [PATCH 32/41] fix: disconnecting and asking for the connection state
 wait at most 10 seconds

---
 src/transport/udp.rs         | 16 ++++++++++------
 src/transport/udp_monitor.rs |  9 +++++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 6929af9..a8e26d7 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -237,12 +237,13 @@ impl UdpTransport {
             whatever!("Unable to send connection state request {:?}", e);
         };
 
-        match state_rx.recv().await {
-            Some(resp) => {
+        match timeout(Duration::from_secs(10), state_rx.recv()).await {
+            Ok(Some(resp)) => {
                 debug!("Connectiostate response {:?}", resp);
                 Ok(resp)
             }
-            None => whatever!("Connectionstate not responded"),
+            Ok(None) => whatever!("Connectionstate not responded"),
+            Err(_) => whatever!("Connection state request timed out"),
         }
     }
 
@@ -281,10 +282,13 @@ impl UdpTransport {
 
         // The receive task closes the channel once the device answered the disconnection
         let mut rx = self.rx.lock().await;
-        while let Some(cemi) = rx.recv().await {
-            debug!("Discard cEMI while disconnecting {:?}", cemi);
+        loop {
+            match timeout(Duration::from_secs(10), rx.recv()).await {
+                Ok(Some(cemi)) => debug!("Discard cEMI while disconnecting {:?}", cemi),
+                Ok(None) => return Ok(()),
+                Err(_) => whatever!("Disconnect request timed out"),
+            }
         }
-        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index e68d849..094860a 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -32,6 +32,7 @@ use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
 use tokio::sync::{mpsc, Mutex};
 use tokio::time::interval;
+use tokio::time::timeout;
 use tracing::instrument;
 
 struct ConnectionData {
@@ -244,8 +245,12 @@ impl UdpMonitorTransport {
 
         // The receive task closes the channel once the device answered the disconnection
         let mut rx = self.rx.lock().await;
-        while let Some(cemi) = rx.recv().await {
-            debug!("Discard cEMI while disconnecting {:?}", cemi);
+        loop {
+            match timeout(Duration::from_secs(10), rx.recv()).await {
+                Ok(Some(cemi)) => debug!("Discard cEMI while disconnecting {:?}", cemi),
+                Ok(None) => break,
+                Err(_) => whatever!("Disconnect request timed out"),
+            }
         }
         match *self.disconnect_status.lock().await {
             Some(status) => {
-- 
2.43.0


From fd7c464d9f600549ad76612b74e69d925c7c57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 33/41] fix: search no longer fails on responses longer than
 100 octets

---
 src/transport/udp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index a8e26d7..f9960cf 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -310,7 +310,7 @@ impl UdpTransport {
             whatever!("Unable to send search request {:?}", e);
         }
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; 512];
         let mut responses = Vec::new();
 
         loop {
-- 
2.43.0


From 8a53eabf18e0622ea13773540d693c1c59ea3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:10 +0000
Subject: [PATCH 34/41] fix: truncated connect responses are no longer accepted

Only the received octets of a connect response are parsed, not the zeros
that the buffer holds after them.
---
 src/transport/udp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index f9960cf..450b2d6 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -408,12 +408,15 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     }
 
     let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
-    }
+    let count = match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
+        Ok(Ok(count)) => count,
+        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+        Err(e) => whatever!("Target device does not respond {:?}", e),
+    };
     debug!("Connection response {:0x?}", resp);
 
-    let mut resp_cursor = Cursor::new(resp.as_slice());
+    // Only the received bytes belong to the message
+    let mut resp_cursor = Cursor::new(&resp[..count]);
     let connection = ConnectionResponse::from_packet(&mut resp_cursor)?;
     debug!("Parsed Connection response {:?}", connection);
 
-- 
2.43.0


From e3900c2eef894fd0307b89623e067ebcfe415806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 35/41] fix: a slow connection listener no longer blocks the
 calls of the monitor

---
 src/transport/udp_monitor.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 094860a..67d6ebf 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -110,17 +110,16 @@ impl UdpMonitorTransport {
                         }
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
-                        let mut connection_data = connection_data.lock().await;
-                        *connection_data = Some(ConnectionData::from_connection_response(connection));
-
-                        let mut active_on_connection = Vec::new();
-                        let mut on_connection = on_connection.lock().await;
-                        for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
-                                active_on_connection.push(tx.clone());
+                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
+
+                        // A listener may be slow or use the monitor, no lock is held meanwhile
+                        let listeners = on_connection.lock().await.clone();
+                        for tx in listeners.iter() {
+                            if tx.send(()).await.is_err() {
+                                debug!("Connection listener is gone");
                             }
                         }
-                        *on_connection = active_on_connection;
+                        on_connection.lock().await.retain(|tx| !tx.is_closed());
                     }
 
                     // A heart beat must not cancel a reception that is delivering a message
-- 
2.43.0


From a39fb7e7b8e5612a76e90d6d72351b2eaa692992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 36/41] fix: channel and sequence number of a request are those
 of one connection

---
 src/transport/udp.rs         | 26 +++++++++++++++-----------
 src/transport/udp_monitor.rs | 29 ++++++++++++-----------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 450b2d6..7340577 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -200,12 +200,13 @@ impl UdpTransport {
         })
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
+    // Channel and sequence number of the same connection, it may be replaced at any time
+    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
                 let num = data.sequence_nr;
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
+                Ok((data.communication_channel_id, num))
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -218,15 +219,17 @@ impl UdpTransport {
         }
     }
 
-    async fn get_control_endpoint(&self) -> Result<HPAI, Whatever> {
+    // Channel and endpoint of the same connection, it may be replaced at any time
+    async fn get_control_endpoint(&self) -> Result<(u8, HPAI), Whatever> {
         match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
+            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
             None => whatever!("Disconnected from knx device, HPAI"),
         }
     }
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
-        let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        let (communication_channel_id, control_endpoint) = self.get_control_endpoint().await?;
+        let req = ConnectionstateRequest::new(communication_channel_id, control_endpoint);
         // Only the receive task reads from the socket, it passes on the responses.
         // One of an earlier heart beat is of no interest
         let mut state_rx = self.state_rx.lock().await;
@@ -248,8 +251,8 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -262,8 +265,8 @@ impl UdpTransport {
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.get_communication_channel_id().await?, sequence_nr, feature, value);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
@@ -274,8 +277,9 @@ impl UdpTransport {
     }
 
     pub async fn disconnect(&self) -> Result<(), Whatever> {
-        let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
-        debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
+        let (communication_channel_id, control_endpoint) = self.get_control_endpoint().await?;
+        let req = DisconnectRequest::new(communication_channel_id, control_endpoint).packet();
+        debug!("Request disconnect for connection {}", communication_channel_id);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send disconnect request {:?}", e);
         }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 67d6ebf..2d0380c 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -179,26 +179,21 @@ impl UdpMonitorTransport {
         self.on_connection.lock().await.push(tx);
     }
 
-    async fn communication_channel_id(&self) -> Result<u8, Whatever> {
+    // Channel and endpoint of the same connection, it may be replaced at any time
+    async fn control_endpoint(&self) -> Result<(u8, HPAI), Whatever> {
         match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.communication_channel_id),
-            None => whatever!("Disconnected from knx device, ID"),
-        }
-    }
-
-    async fn control_endpoint(&self) -> Result<HPAI, Whatever> {
-        match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
+            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
             None => whatever!("Disconnected from knx device, HPAI"),
         }
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
+    // Channel and sequence number of the same connection, it may be replaced at any time
+    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
                 let num = data.sequence_nr;
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
+                Ok((data.communication_channel_id, num))
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -209,8 +204,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.communication_channel_id().await?, sequence_nr, feature, value);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
@@ -221,8 +216,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -235,8 +230,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
-        let communication_channel_id = self.communication_channel_id().await?;
-        let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
+        let (communication_channel_id, control_endpoint) = self.control_endpoint().await?;
+        let req = DisconnectRequest::new(communication_channel_id, control_endpoint).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send disconnect request {:?}", e);
-- 
2.43.0


From 7fe320361046b164736d1826214455336aa5540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 37/41] fix: disconnecting times out whatever the device sends
 and whoever waits for a message

---
 src/transport/udp.rs         | 14 ++++++++------
 src/transport/udp_monitor.rs | 13 +++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 7340577..1d9152d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -285,14 +285,16 @@ impl UdpTransport {
         }
 
         // The receive task closes the channel once the device answered the disconnection
-        let mut rx = self.rx.lock().await;
-        loop {
-            match timeout(Duration::from_secs(10), rx.recv()).await {
-                Ok(Some(cemi)) => debug!("Discard cEMI while disconnecting {:?}", cemi),
-                Ok(None) => return Ok(()),
-                Err(_) => whatever!("Disconnect request timed out"),
+        let closed = timeout(Duration::from_secs(10), async {
+            let mut rx = self.rx.lock().await;
+            while let Some(cemi) = rx.recv().await {
+                debug!("Discard cEMI while disconnecting {:?}", cemi);
             }
+        });
+        if closed.await.is_err() {
+            whatever!("Disconnect request timed out");
         }
+        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 2d0380c..42c5dd4 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -238,13 +238,14 @@ impl UdpMonitorTransport {
         }
 
         // The receive task closes the channel once the device answered the disconnection
-        let mut rx = self.rx.lock().await;
-        loop {
-            match timeout(Duration::from_secs(10), rx.recv()).await {
-                Ok(Some(cemi)) => debug!("Discard cEMI while disconnecting {:?}", cemi),
-                Ok(None) => break,
-                Err(_) => whatever!("Disconnect request timed out"),
+        let closed = timeout(Duration::from_secs(10), async {
+            let mut rx = self.rx.lock().await;
+            while let Some(cemi) = rx.recv().await {
+                debug!("Discard cEMI while disconnecting {:?}", cemi);
             }
+        });
+        if closed.await.is_err() {
+            whatever!("Disconnect request timed out");
         }
         match *self.disconnect_status.lock().await {
             Some(status) => {
-- 
2.43.0


From c9c4c0d626ab2d93616d654ca916e564516c18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:00 +0000
Subject: [PATCH 38/41] fix: messages queued before a read or write are not
 taken for its answer

---
 src/transport/udp.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 1d9152d..4d0cc0c 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -264,6 +264,13 @@ impl UdpTransport {
         Ok(())
     }
 
+    async fn discard_received(&self) {
+        let mut rx = self.rx.lock().await;
+        while let Ok(cemi) = rx.try_recv() {
+            debug!("Discard cEMI received earlier {:?}", cemi);
+        }
+    }
+
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
         let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
         let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
@@ -548,6 +555,8 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        // What was received earlier is no answer to this request
+        transport.discard_received().await;
         transport.tunnel_req(req.packet()).await?;
         let mut rx = transport.rx.lock().await;
         loop {
@@ -584,6 +593,8 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        // What was received earlier is no answer to this request
+        transport.discard_received().await;
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
         let mut rx = transport.rx.lock().await;
-- 
2.43.0


From 57779b76e4be7c465f2db3b973aa62767db8a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 39/41] fix: reads and writes time out whatever other traffic
 arrives

---
 src/transport/udp.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 4d0cc0c..a3819e3 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
 use tokio::sync::mpsc::Sender;
-use tokio::time::{interval, sleep, timeout};
+use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
 use log::{debug, info, trace, warn};
@@ -559,8 +559,10 @@ impl UdpClient {
         transport.discard_received().await;
         transport.tunnel_req(req.packet()).await?;
         let mut rx = transport.rx.lock().await;
+        // Other traffic does not extend the time to wait
+        let deadline = Instant::now() + self.get_read_timeout();
         loop {
-            match timeout(self.get_read_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
@@ -598,8 +600,10 @@ impl UdpClient {
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
         let mut rx = transport.rx.lock().await;
+        // Other traffic does not extend the time to wait
+        let deadline = Instant::now() + self.get_write_timeout();
         loop {
-            match timeout(self.get_write_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi)?;
                     debug!("Parsed confirmation cEMI {:?}", data_con);
-- 
2.43.0


From 99ecb88d3a2d8fe85c83fd4912ef2649eb41d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 40/41] fix: a repeated tunneling request is delivered once

---
 src/transport/udp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index a3819e3..d31949d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -442,6 +442,8 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 // Returns the disconnection status when the connection is closed by one of the sides
 //
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>, state_tx: Sender<ConnectionstateResponse>) -> TransportResult<u8> {
+    // The device repeats a request when the acknowledgement was lost
+    let mut last_sequence_nr = None;
     loop {
         let mut data = vec![0; 512];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -458,6 +460,13 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                         whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                     }
 
+                    let repeated = last_sequence_nr == Some(req.sequence_nr);
+                    last_sequence_nr = Some(req.sequence_nr);
+                    if repeated {
+                        debug!("Tunneling request {} was already received", req.sequence_nr);
+                        continue;
+                    }
+
                     let mut cemi = Cursor::new(req.get_cemi().as_slice());
 
                     let cemi = match CEMI::from_packet(&mut cemi) {
@@ -474,6 +483,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                 }
                 TunnelingResponse::TunnelingAck(_) => {}
                 TunnelingResponse::FeatureResponse(resp) => {
+                    last_sequence_nr = Some(resp.sequence_nr);
                     let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);
 
                     if let Err(e) = socket.send(&ack.packet()).await {
-- 
2.43.0


From 2652abbdbde4047cbd13352835833c16d1a3f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:05 +0000
Subject: [PATCH 41/41] fix: a connection listener that is not read no longer
 stalls the monitor

---
 src/transport/udp_monitor.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 42c5dd4..dc4f62b 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -112,14 +112,12 @@ impl UdpMonitorTransport {
                         info!("Created communication channel ID {:?}", communication_channel_id);
                         *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
 
-                        // A listener may be slow or use the monitor, no lock is held meanwhile
+                        // A listener may be slow or use the monitor, nothing waits for it
+                        on_connection.lock().await.retain(|tx| !tx.is_closed());
                         let listeners = on_connection.lock().await.clone();
-                        for tx in listeners.iter() {
-                            if tx.send(()).await.is_err() {
-                                debug!("Connection listener is gone");
-                            }
+                        for tx in listeners {
+                            tokio::spawn(async move { tx.send(()).await });
                         }
-                        on_connection.lock().await.retain(|tx| !tx.is_closed());
                     }
 
                     // A heart beat must not cancel a reception that is delivering a message
-- 
2.43.0

