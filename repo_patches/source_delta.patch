From 2cdb99dbd1c98c44002bf5da3b234c6e6d37c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:39 +0000
Subject: [PATCH 01/28] fix: answer malformed and unimplemented commands
 instead of panicking

---
 src/device.rs | 78 +++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 9e8b915..25f6e07 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -972,7 +972,9 @@ impl Device {
         }
     }
 
-    fn receive_command(&mut self, cmd: ControlPacket) -> ControlPacket {
+    /// Execute a command and return the response, or `None` if the command
+    /// is malformed or not implemented.
+    fn receive_command(&mut self, cmd: ControlPacket) -> Option<ControlPacket> {
         use AndroidPacketChild::*;
         use ControlPacketChild::*;
         use CorePacketChild::*;
@@ -983,29 +985,28 @@ impl Device {
         // Reset command. The controller responds with Device Status
         // Notification with DEVICE_STATE_ERROR otherwise.
         if !self.is_reset && !cmd.is_core_device_reset_cmd() {
-            return uci::CoreDeviceStatusNtf {
-                device_state: DeviceState::DeviceStateError,
-            }
-            .try_into()
-            .unwrap();
+            return Some(
+                uci::CoreDeviceStatusNtf {
+                    device_state: DeviceState::DeviceStateError,
+                }
+                .try_into()
+                .unwrap(),
+            );
         }
 
-        match cmd
-            .specialize()
-            .expect("Failed to parse Control packet child")
-        {
-            CorePacket(cmd) => match cmd.specialize().expect("Failed to parse Core packet child") {
+        let response = match cmd.specialize().ok()? {
+            CorePacket(cmd) => match cmd.specialize().ok()? {
                 CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into().unwrap(),
                 CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into().unwrap(),
                 CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into().unwrap(),
                 CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into().unwrap(),
                 CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into().unwrap(),
-                _ => unimplemented!("Unsupported Core oid {:?}", cmd.oid),
+                _ => {
+                    log::error!("Unsupported Core oid {:?}", cmd.oid);
+                    return Option::None;
+                }
             },
-            SessionConfigPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Session Config packet child")
-            {
+            SessionConfigPacket(cmd) => match cmd.specialize().ok()? {
                 SessionInitCmd(cmd) => self.session_init(cmd).try_into().unwrap(),
                 SessionDeinitCmd(cmd) => self.session_deinit(cmd).try_into().unwrap(),
                 SessionGetCountCmd(cmd) => self.session_get_count(cmd).try_into().unwrap(),
@@ -1016,30 +1017,33 @@ impl Device {
                     .session_update_controller_multicast_list(cmd)
                     .try_into()
                     .unwrap(),
-                _ => unimplemented!("Unsupported Session Config oid {:?}", cmd.oid),
+                _ => {
+                    log::error!("Unsupported Session Config oid {:?}", cmd.oid);
+                    return Option::None;
+                }
             },
-            SessionControlPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Session Control packet child")
-            {
+            SessionControlPacket(cmd) => match cmd.specialize().ok()? {
                 SessionStartCmd(cmd) => self.session_start(cmd).try_into().unwrap(),
                 SessionStopCmd(cmd) => self.session_stop(cmd).try_into().unwrap(),
                 SessionGetRangingCountCmd(cmd) => {
                     self.session_get_ranging_count(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Session Control oid {:?}", cmd.oid),
+                _ => {
+                    log::error!("Unsupported Session Control oid {:?}", cmd.oid);
+                    return Option::None;
+                }
             },
-            AndroidPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Android packet child")
-            {
+            AndroidPacket(cmd) => match cmd.specialize().ok()? {
                 AndroidSetCountryCodeCmd(cmd) => {
                     self.android_set_country_code(cmd).try_into().unwrap()
                 }
                 AndroidGetPowerStatsCmd(cmd) => {
                     self.android_get_power_stats(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Android oid {:?}", cmd.oid),
+                _ => {
+                    log::error!("Unsupported Android oid {:?}", cmd.oid);
+                    return Option::None;
+                }
             },
             ControlPacketChild::None
                 if matches!(
@@ -1068,7 +1072,9 @@ impl Device {
                     ],
                 }
             }
-        }
+        };
+
+        Some(response)
     }
 
     pub fn receive_packet(&mut self, packet: Vec<u8>) {
@@ -1082,7 +1088,13 @@ impl Device {
                 Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
             },
             MessageType::Command => {
-                match ControlPacket::decode_full(&packet) {
+                let response = ControlPacket::decode_full(&packet)
+                    .ok()
+                    .and_then(|cmd| self.receive_command(cmd));
+
+                match response {
+                    Some(response) => self.send_control(response),
+
                     // Parsing error. Determine what error response should be
                     // returned to the host:
                     // - response and notifications are ignored, no response
@@ -1091,7 +1103,7 @@ impl Device {
                     //      always returned. That means that malformed commands
                     //      get the same status code, instead of
                     //      STATUS_SYNTAX_ERROR.
-                    Err(_) => {
+                    None => {
                         let group_id = packet[0] & 0xf;
                         let opcode_id = packet[1] & 0x3f;
 
@@ -1111,12 +1123,6 @@ impl Device {
                         ];
                         self.send_raw_control(response)
                     }
-
-                    // Parsing success, ignore non command packets.
-                    Ok(cmd) => {
-                        let response = self.receive_command(cmd);
-                        self.send_control(response)
-                    }
                 }
             }
 
-- 
2.43.0


From 2e93b579bd32a4c3053152a2bcf297122d091743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 02/28] fix: ignore malformed data packets instead of panicking

---
 src/device.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 25f6e07..2ff60c3 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -19,7 +19,7 @@ use crate::PicaCommand;
 use std::collections::HashMap;
 use std::time::Duration;
 
-use pdl_runtime::Packet;
+use pdl_runtime::{DecodeError, Packet};
 use tokio::sync::mpsc;
 use tokio::time;
 
@@ -933,12 +933,9 @@ impl Device {
         }
     }
 
-    pub fn data_message_snd(&mut self, data: DataPacket) -> ControlPacket {
+    pub fn data_message_snd(&mut self, data: DataPacket) -> Result<ControlPacket, DecodeError> {
         log::debug!("[{}] data_message_send", self.handle);
-        match data
-            .specialize()
-            .expect("failed to parse Data packet child")
-        {
+        Ok(match data.specialize()? {
             DataPacketChild::DataMessageSnd(data_msg_snd) => {
                 let session_token = data_msg_snd.session_handle;
                 if let Some(session) = self.session_mut(session_token) {
@@ -969,7 +966,7 @@ impl Device {
             _ => {
                 unimplemented!()
             }
-        }
+        })
     }
 
     /// Execute a command and return the response, or `None` if the command
@@ -1080,11 +1077,10 @@ impl Device {
     pub fn receive_packet(&mut self, packet: Vec<u8>) {
         let mt = parse_message_type(packet[0]);
         match mt {
-            MessageType::Data => match DataPacket::decode_full(&packet) {
-                Ok(packet) => {
-                    let notification = self.data_message_snd(packet);
-                    self.send_control(notification)
-                }
+            MessageType::Data => match DataPacket::decode_full(&packet)
+                .and_then(|packet| self.data_message_snd(packet))
+            {
+                Ok(notification) => self.send_control(notification),
                 Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
             },
             MessageType::Command => {
-- 
2.43.0


From 01424b34791f5b215e84e9b679dd498a6e2990ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 03/28] fix: do not panic on device info and configuration
 commands while ranging

---
 src/device.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 2ff60c3..b557bef 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -235,9 +235,7 @@ impl Device {
     }
 
     fn core_get_device_info(&self, _cmd: CoreGetDeviceInfoCmd) -> CoreGetDeviceInfoRsp {
-        // TODO: Implement a fancy build time state machine instead of crash at runtime
         log::debug!("[{}] GetDeviceInfo", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady);
         CoreGetDeviceInfoRsp {
             status: uci::Status::Ok,
             uci_version: UCI_VERSION,
@@ -267,7 +265,14 @@ impl Device {
 
     pub fn core_set_config(&mut self, cmd: CoreSetConfigCmd) -> CoreSetConfigRsp {
         log::debug!("[{}] SetConfig", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady); // UCI 6.3
+
+        // UCI 6.3: the configuration can only be changed in the ready state.
+        if self.state != DeviceState::DeviceStateReady {
+            return CoreSetConfigRsp {
+                status: uci::Status::Rejected,
+                parameters: vec![],
+            };
+        }
 
         // [UCI] 6.3.1 Setting the Configuration
         // The UWBS shall respond with CORE_SET_CONFIG_RSP setting the Status
-- 
2.43.0


From e6b155e668c370444c6070b25b629497b5294316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 04/28] fix: reject the configuration of unsupported session
 types instead of panicking

---
 src/device.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index b557bef..1a9a6f6 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -426,10 +426,15 @@ impl Device {
             };
         };
 
-        assert!(
-            session.session_type == SessionType::FiraRangingSession
-                || session.session_type == SessionType::FiraRangingAndInBandDataSession
-        );
+        // Other session types cannot be configured.
+        if session.session_type != SessionType::FiraRangingSession
+            && session.session_type != SessionType::FiraRangingAndInBandDataSession
+        {
+            return SessionSetAppConfigRsp {
+                cfg_status: Vec::new(),
+                status: uci::Status::Rejected,
+            };
+        }
 
         if session.state == SessionState::SessionStateActive {
             const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
-- 
2.43.0


From b098f2da8f61c670e9d87d61520dc62d4879d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 05/28] fix: refuse MAC addresses in the unsupported address
 mode instead of panicking

---
 src/app_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app_config.rs b/src/app_config.rs
index 40ac595..581cddf 100644
--- a/src/app_config.rs
+++ b/src/app_config.rs
@@ -199,14 +199,14 @@ impl AppConfig {
             uci::AppConfigTlvType::DeviceMacAddress => {
                 self.device_mac_address = Some(match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into()?),
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac address mode"),
                     uci::MacAddressMode::Mode2 => MacAddress::Extended(value.try_into()?),
                 })
             }
             uci::AppConfigTlvType::DstMacAddress => {
                 let mac_address_size = match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => 2,
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac address mode"),
                     uci::MacAddressMode::Mode2 => 8,
                 };
                 if value.len() != self.number_of_controlees as usize * mac_address_size {
@@ -222,7 +222,7 @@ impl AppConfig {
                     .chunks(mac_address_size)
                     .map(|value| match self.mac_address_mode {
                         uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into().unwrap()),
-                        uci::MacAddressMode::Mode1 => unimplemented!(),
+                        uci::MacAddressMode::Mode1 => unreachable!(),
                         uci::MacAddressMode::Mode2 => {
                             MacAddress::Extended(value.try_into().unwrap())
                         }
-- 
2.43.0


From bf2d35b7d9a2ed2e5779f719983260fe4a287185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 06/28] fix: ignore ranging events of stopped or removed
 sessions

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 560f28d..e032f45 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -407,8 +407,17 @@ impl Pica {
         log::debug!("[{}] Ranging event", device_handle);
         log::debug!("  session_id={}", session_id);
 
-        let device = self.get_device(device_handle).unwrap();
-        let session = device.session(session_id).unwrap();
+        // The ranging event may have been queued before the session was
+        // stopped or deleted, or before the device was disconnected.
+        let Some(device) = self.get_device(device_handle) else {
+            return;
+        };
+        let Some(session) = device.session(session_id) else {
+            return;
+        };
+        if session.session_state() != SessionState::SessionStateActive {
+            return;
+        }
 
         let mut data_transfer = Vec::new();
         let mut measurements = Vec::new();
-- 
2.43.0


From 2da26dbab16d84b751e6f49828ecdad3833bd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:17 +0000
Subject: [PATCH 07/28] fix: do not panic when ranging with a device being
 disconnected

---
 src/lib.rs | 58 +++++++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e032f45..ef2b76a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -479,39 +479,35 @@ impl Pica {
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         for peer_device in data_transfer.iter() {
-            peer_device
-                .tx
-                .send(
-                    DataMessageRcv {
-                        application_data: session.data().clone().into(),
-                        data_sequence_number: 0x01,
-                        pbf: PacketBoundaryFlag::Complete,
-                        session_handle: session_id,
-                        source_address: session.app_config.device_mac_address.unwrap().into(),
-                        status: uci::Status::Ok,
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            // The send fails if the peer device is being disconnected.
+            let _ = peer_device.tx.send(
+                DataMessageRcv {
+                    application_data: session.data().clone().into(),
+                    data_sequence_number: 0x01,
+                    pbf: PacketBoundaryFlag::Complete,
+                    session_handle: session_id,
+                    source_address: session.app_config.device_mac_address.unwrap().into(),
+                    status: uci::Status::Ok,
+                }
+                .encode_to_vec()
+                .unwrap(),
+            );
         }
         if session.is_session_info_ntf_enabled() {
-            device
-                .tx
-                .send(
-                    // TODO: support extended address
-                    ShortMacTwoWaySessionInfoNtf {
-                        sequence_number: session.sequence_number,
-                        session_token: session_id,
-                        rcr_indicator: 0,            //TODO
-                        current_ranging_interval: 0, //TODO
-                        two_way_ranging_measurements: measurements,
-                        vendor_data: vec![],
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            // The send fails if the device is being disconnected.
+            let _ = device.tx.send(
+                // TODO: support extended address
+                ShortMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements,
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+                .unwrap(),
+            );
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From 787ead4992a6caa2b2bb6e938d497e14c2d314ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:54 +0000
Subject: [PATCH 08/28] fix: report extended MAC addresses in ranging
 notifications instead of panicking

---
 src/lib.rs | 102 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 74 insertions(+), 28 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef2b76a..4f80f49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,30 +156,54 @@ struct Anchor {
     mac_address: MacAddress,
 }
 
+/// Returns `None` for extended addresses, which cannot be represented
+/// in short address measurements.
 fn make_measurement(
     mac_address: &MacAddress,
     local: RangingMeasurement,
     remote: RangingMeasurement,
-) -> ShortAddressTwoWayRangingMeasurement {
-    if let MacAddress::Short(address) = mac_address {
-        ShortAddressTwoWayRangingMeasurement {
-            mac_address: u16::from_le_bytes(*address),
-            status: uci::Status::Ok,
-            nlos: 0, // in Line Of Sight
-            distance: local.range,
-            aoa_azimuth: local.azimuth as u16,
-            aoa_azimuth_fom: 100, // Yup, pretty sure about this
-            aoa_elevation: local.elevation as u16,
-            aoa_elevation_fom: 100, // Yup, pretty sure about this
-            aoa_destination_azimuth: remote.azimuth as u16,
-            aoa_destination_azimuth_fom: 100,
-            aoa_destination_elevation: remote.elevation as u16,
-            aoa_destination_elevation_fom: 100,
-            slot_index: 0,
-            rssi: u8::MAX,
-        }
-    } else {
-        panic!("Extended address is not supported.")
+) -> Option<ShortAddressTwoWayRangingMeasurement> {
+    let MacAddress::Short(address) = mac_address else {
+        return None;
+    };
+    Some(ShortAddressTwoWayRangingMeasurement {
+        mac_address: u16::from_le_bytes(*address),
+        status: uci::Status::Ok,
+        nlos: 0, // in Line Of Sight
+        distance: local.range,
+        aoa_azimuth: local.azimuth as u16,
+        aoa_azimuth_fom: 100, // Yup, pretty sure about this
+        aoa_elevation: local.elevation as u16,
+        aoa_elevation_fom: 100, // Yup, pretty sure about this
+        aoa_destination_azimuth: remote.azimuth as u16,
+        aoa_destination_azimuth_fom: 100,
+        aoa_destination_elevation: remote.elevation as u16,
+        aoa_destination_elevation_fom: 100,
+        slot_index: 0,
+        rssi: u8::MAX,
+    })
+}
+
+fn make_extended_measurement(
+    mac_address: &MacAddress,
+    local: RangingMeasurement,
+    remote: RangingMeasurement,
+) -> ExtendedAddressTwoWayRangingMeasurement {
+    ExtendedAddressTwoWayRangingMeasurement {
+        mac_address: mac_address.into(),
+        status: uci::Status::Ok,
+        nlos: 0,
+        distance: local.range,
+        aoa_azimuth: local.azimuth as u16,
+        aoa_azimuth_fom: 100,
+        aoa_elevation: local.elevation as u16,
+        aoa_elevation_fom: 100,
+        aoa_destination_azimuth: remote.azimuth as u16,
+        aoa_destination_azimuth_fom: 100,
+        aoa_destination_elevation: remote.elevation as u16,
+        aoa_destination_elevation_fom: 100,
+        slot_index: 0,
+        rssi: u8::MAX,
     }
 }
 
@@ -437,7 +461,7 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(mac_address, local, remote));
+                measurements.push((*mac_address, local, remote));
             }
         }
 
@@ -466,7 +490,7 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(&peer_mac_address, local, remote));
+                measurements.push((peer_mac_address, local, remote));
             }
 
             if device.can_start_data_transfer(session_id)
@@ -494,20 +518,42 @@ impl Pica {
             );
         }
         if session.is_session_info_ntf_enabled() {
-            // The send fails if the device is being disconnected.
-            let _ = device.tx.send(
-                // TODO: support extended address
+            let packet = if session.app_config.mac_address_mode == MacAddressMode::Mode2 {
+                ExtendedMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements
+                        .iter()
+                        .map(|(mac_address, local, remote)| {
+                            make_extended_measurement(mac_address, *local, *remote)
+                        })
+                        .collect(),
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+                .unwrap()
+            } else {
                 ShortMacTwoWaySessionInfoNtf {
                     sequence_number: session.sequence_number,
                     session_token: session_id,
                     rcr_indicator: 0,            //TODO
                     current_ranging_interval: 0, //TODO
-                    two_way_ranging_measurements: measurements,
+                    two_way_ranging_measurements: measurements
+                        .iter()
+                        .filter_map(|(mac_address, local, remote)| {
+                            make_measurement(mac_address, *local, *remote)
+                        })
+                        .collect(),
                     vendor_data: vec![],
                 }
                 .encode_to_vec()
-                .unwrap(),
-            );
+                .unwrap()
+            };
+
+            // The send fails if the device is being disconnected.
+            let _ = device.tx.send(packet);
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From 051465f8f1e6e868a9edc3cd181f0e08247dad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:05 +0000
Subject: [PATCH 09/28] fix: keep the existing session when refusing a
 duplicate SESSION_INIT

---
 src/device.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 1a9a6f6..8bed3be 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -363,18 +363,13 @@ impl Device {
 
         let status = if self.sessions.len() >= MAX_SESSION {
             uci::Status::ErrorMaxSessionsExceeded
+        } else if self.sessions.contains_key(&session_id) {
+            uci::Status::ErrorSessionDuplicate
         } else {
-            match self.sessions.insert(
-                session_id,
-                Session::new(session_id, session_type, self.handle, self.tx.clone()),
-            ) {
-                Some(_) => uci::Status::ErrorSessionDuplicate,
-                None => {
-                    // Should not fail
-                    self.session_mut(session_id).unwrap().init();
-                    uci::Status::Ok
-                }
-            }
+            let mut session = Session::new(session_id, session_type, self.handle, self.tx.clone());
+            session.init();
+            self.sessions.insert(session_id, session);
+            uci::Status::Ok
         };
 
         SessionInitRsp { status }
-- 
2.43.0


From 4baa33df8d112e743fa9e5edd8410ee4fb7c207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:35 +0000
Subject: [PATCH 10/28] fix: stop ranging when the multicast list becomes empty

---
 src/device.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 8bed3be..a24e32e 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -790,10 +790,18 @@ impl Device {
         // SESSION_STATE_IDLE by sending the SESSION_STATUS_NTF with Reason Code
         // set to ERROR_INVALID_NUM_OF_CONTROLEES.
         if session.app_config.dst_mac_address.is_empty() {
+            let was_active = session.state == SessionState::SessionStateActive;
+            session.stop_ranging_task();
             session.set_state(
                 SessionState::SessionStateIdle,
                 ReasonCode::ErrorInvalidNumOfControlees,
-            )
+            );
+            if was_active {
+                self.n_active_sessions -= 1;
+                if self.n_active_sessions == 0 {
+                    self.set_state(DeviceState::DeviceStateReady);
+                }
+            }
         }
         SessionUpdateControllerMulticastListRsp {
             status,
-- 
2.43.0


From be56809ca5fe03fbfa5a3ec1894ec6db5aa1c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:47 +0000
Subject: [PATCH 11/28] fix: report the current device state in CORE_GET_CONFIG

---
 src/device.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index a24e32e..84756e6 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -79,7 +79,6 @@ pub const DEFAULT_CAPS_INFO: &[(CapTlvType, &[u8])] = &[
 
 /// [UCI] 8.2 Device Configuration Parameters
 pub struct DeviceConfig {
-    device_state: DeviceState,
     // This config is used to enable/disable the low power mode.
     //   0x00 = Disable low power mode
     //   0x01 = Enable low power mode (default)
@@ -92,7 +91,6 @@ pub struct DeviceConfig {
 impl Default for DeviceConfig {
     fn default() -> Self {
         DeviceConfig {
-            device_state: DeviceState::DeviceStateError,
             low_power_mode: true,
         }
     }
@@ -328,7 +326,7 @@ impl Device {
             match id {
                 ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                     id,
-                    value: vec![self.config.device_state.into()],
+                    value: vec![self.state.into()],
                 }),
                 ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                     id,
-- 
2.43.0


From a88a43a6812dc2b7207fc95a701b51667e17464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:58 +0000
Subject: [PATCH 12/28] fix: do not grow a multicast list that already exceeds
 the limit

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 84756e6..597138a 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -691,7 +691,7 @@ impl Device {
                         });
                     } else {
                         if !dst_addresses.contains(&controlee.short_address) {
-                            if dst_addresses.len() == MAX_NUMBER_OF_CONTROLEES {
+                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                 status = uci::Status::ErrorMulticastListFull;
                                 update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                             } else {
-- 
2.43.0


From ea6b6bec648d06bf01752cc70efc53297b2bb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:11 +0000
Subject: [PATCH 13/28] fix: do not give a new device the address of an
 existing anchor

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4f80f49..8607749 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,12 +373,17 @@ impl Pica {
         let disconnect_tx = self.command_tx.clone();
         let pcapng_dir = self.pcapng_dir.clone();
 
-        let handle = self.counter;
-        self.counter += 1;
+        let mut handle = self.counter;
+        let mut mac_address = MacAddress::Short((handle as u16).to_be_bytes());
+        // Skip the addresses already used by an anchor or another device.
+        while self.get_category(&mac_address).is_some() {
+            handle += 1;
+            mac_address = MacAddress::Short((handle as u16).to_be_bytes());
+        }
+        self.counter = handle + 1;
 
         log::debug!("[{}] Connecting device", handle);
 
-        let mac_address = MacAddress::Short((handle as u16).to_be_bytes());
         let mut device = Device::new(handle, mac_address, packet_tx, self.command_tx.clone());
         device.init();
 
-- 
2.43.0


From 95239f43b8f8e3e349eab27b9f9d5e89c172ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:37 +0000
Subject: [PATCH 14/28] fix: split data transfers that exceed the maximum
 message size

---
 src/lib.rs     | 7 +++++--
 src/session.rs | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8607749..9e7a95f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -507,11 +507,14 @@ impl Pica {
 
         // TODO: Data transfer should be limited in size for
         // each round of ranging
+        // The size of a data message is encoded on 16 bits, the remaining
+        // data is transfered during the next rounds.
+        let data_length = std::cmp::min(session.data().len(), u16::MAX as usize);
         for peer_device in data_transfer.iter() {
             // The send fails if the peer device is being disconnected.
             let _ = peer_device.tx.send(
                 DataMessageRcv {
-                    application_data: session.data().clone().into(),
+                    application_data: session.data()[..data_length].to_vec(),
                     data_sequence_number: 0x01,
                     pbf: PacketBoundaryFlag::Complete,
                     session_handle: session_id,
@@ -570,7 +573,7 @@ impl Pica {
         let device = self.get_device_mut(device_handle).unwrap();
         let session = device.session_mut(session_id).unwrap();
 
-        session.clear_data();
+        session.clear_data(data_length);
     }
 
     fn uci_packet(&mut self, device_handle: usize, packet: Vec<u8>) {
diff --git a/src/session.rs b/src/session.rs
index 656ad99..e4faa12 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -18,7 +18,7 @@
 
 use crate::packets::uci::{self, *};
 use crate::{AppConfig, MacAddress};
-use bytes::BytesMut;
+use bytes::{Buf, BytesMut};
 use pdl_runtime::Packet;
 use std::time::Duration;
 use tokio::sync::mpsc;
@@ -105,8 +105,8 @@ impl Session {
         &self.data
     }
 
-    pub fn clear_data(&mut self) {
-        self.data.clear()
+    pub fn clear_data(&mut self, length: usize) {
+        self.data.advance(length)
     }
 
     pub fn session_type(&self) -> SessionType {
-- 
2.43.0


From e69a1b0ff9a69dbdb2ff7202f2636faf36cc6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 15/28] fix: serve clients without trace when the pcapng file
 cannot be created

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9e7a95f..f3d81b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -398,13 +398,13 @@ impl Pica {
         // The task notifies pica when exiting to let it clean
         // the state.
         tokio::task::spawn(async move {
-            let pcapng_file = if let Some(dir) = pcapng_dir {
+            let pcapng_file = pcapng_dir.and_then(|dir| {
                 let full_path = dir.join(format!("device-{}.pcapng", handle));
                 log::debug!("Recording pcapng to file {}", full_path.as_path().display());
-                Some(pcapng::File::create(full_path).unwrap())
-            } else {
-                None
-            };
+                pcapng::File::create(full_path)
+                    .map_err(|err| log::error!("Failed to create the pcapng file: {}", err))
+                    .ok()
+            });
 
             let _ = tokio::try_join!(
                 async { Self::read_routine(stream, pica_tx, handle, pcapng_file.as_ref()).await },
-- 
2.43.0


From 4797b9e3552135e361bbea36249170fe979bd0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 16/28] fix: do not panic in pica-http when nobody is
 subscribed to the events

---
 src/bin/http-server/main.rs | 105 +++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 57 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index e248040..b9fd661 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -142,13 +142,11 @@ impl Context {
                             position: Default::default(),
                         },
                     );
-                    self.events
-                        .send(Event::DeviceAdded {
-                            category: Category::Uci,
-                            mac_address,
-                            position: Default::default(),
-                        })
-                        .unwrap();
+                    self.send_event(Event::DeviceAdded {
+                        category: Category::Uci,
+                        mac_address,
+                        position: Default::default(),
+                    });
                 }
                 Ok(PicaEvent::Disconnected {
                     mac_address,
@@ -156,18 +154,22 @@ impl Context {
                 }) => {
                     let mut devices = self.devices.lock().unwrap();
                     devices.remove(&handle);
-                    self.events
-                        .send(Event::DeviceRemoved {
-                            category: Category::Uci,
-                            mac_address,
-                        })
-                        .unwrap();
+                    self.send_event(Event::DeviceRemoved {
+                        category: Category::Uci,
+                        mac_address,
+                    });
                 }
                 Err(err) => anyhow::bail!(err),
             }
         }
     }
 
+    fn send_event(&self, event: Event) {
+        // An error here means that there are no subscribers,
+        // so ignore it.
+        let _ = self.events.send(event);
+    }
+
     fn http_events(&self) -> Response<Body> {
         let stream = BroadcastStream::new(self.events.subscribe()).map(|result| {
             result.map(|event| {
@@ -204,13 +206,11 @@ impl Context {
                 .unwrap();
         };
 
-        self.events
-            .send(Event::DeviceUpdated {
-                category: device.category,
-                mac_address,
-                position,
-            })
-            .unwrap();
+        self.send_event(Event::DeviceUpdated {
+            category: device.category,
+            mac_address,
+            position,
+        });
 
         for other in devices.values() {
             if other.mac_address != device.mac_address {
@@ -223,30 +223,25 @@ impl Context {
 
                 assert!(local.0 == remote.0);
 
-                self.events
-                    .send(Event::NeighborUpdated {
-                        source_category: device.category,
-                        source_mac_address: device.mac_address,
-                        destination_category: other.category,
-                        destination_mac_address: other.mac_address,
-                        distance: local.0,
-                        azimuth: local.1,
-                        elevation: local.2,
-                    })
-                    .unwrap();
-
-                let _ = self
-                    .events
-                    .send(Event::NeighborUpdated {
-                        source_category: other.category,
-                        source_mac_address: other.mac_address,
-                        destination_category: device.category,
-                        destination_mac_address: device.mac_address,
-                        distance: remote.0,
-                        azimuth: remote.1,
-                        elevation: remote.2,
-                    })
-                    .unwrap();
+                self.send_event(Event::NeighborUpdated {
+                    source_category: device.category,
+                    source_mac_address: device.mac_address,
+                    destination_category: other.category,
+                    destination_mac_address: other.mac_address,
+                    distance: local.0,
+                    azimuth: local.1,
+                    elevation: local.2,
+                });
+
+                self.send_event(Event::NeighborUpdated {
+                    source_category: other.category,
+                    source_mac_address: other.mac_address,
+                    destination_category: device.category,
+                    destination_mac_address: device.mac_address,
+                    distance: remote.0,
+                    azimuth: remote.1,
+                    elevation: remote.2,
+                });
             }
         }
 
@@ -281,13 +276,11 @@ impl Context {
                         category: Category::Anchor,
                     },
                 );
-                self.events
-                    .send(Event::DeviceAdded {
-                        category: Category::Anchor,
-                        mac_address,
-                        position,
-                    })
-                    .unwrap();
+                self.send_event(Event::DeviceAdded {
+                    category: Category::Anchor,
+                    mac_address,
+                    position,
+                });
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
@@ -315,12 +308,10 @@ impl Context {
             Ok(Ok(handle)) => {
                 let mut devices = self.devices.lock().unwrap();
                 devices.remove(&handle);
-                self.events
-                    .send(Event::DeviceRemoved {
-                        category: Category::Anchor,
-                        mac_address,
-                    })
-                    .unwrap();
+                self.send_event(Event::DeviceRemoved {
+                    category: Category::Anchor,
+                    mac_address,
+                });
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
-- 
2.43.0


From 20c63ef10523ac70ca21450f2693e8011ab7fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 17/28] fix: do not lose connection events when many clients
 connect at once

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f3d81b5..e13a2de 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -210,7 +210,9 @@ fn make_extended_measurement(
 impl Pica {
     pub fn new(ranging_estimator: Box<dyn RangingEstimator>, pcapng_dir: Option<PathBuf>) -> Self {
         let (command_tx, command_rx) = mpsc::channel(MAX_SESSION * MAX_DEVICE);
-        let (event_tx, _) = broadcast::channel(16);
+        // Processing the pending commands generates at most as many events,
+        // which must not be lost by the receivers.
+        let (event_tx, _) = broadcast::channel(MAX_SESSION * MAX_DEVICE);
         Pica {
             devices: HashMap::new(),
             anchors: HashMap::new(),
-- 
2.43.0


From a7ec886b0eec9ced31b85d9f963aa1207c7f58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:38 +0000
Subject: [PATCH 18/28] fix: stop the Python host reader when the connection is
 closed

---
 py/pica/pica/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/pica/pica/__init__.py b/py/pica/pica/__init__.py
index 423824f..9bc9fd9 100644
--- a/py/pica/pica/__init__.py
+++ b/py/pica/pica/__init__.py
@@ -34,6 +34,8 @@ class Host:
         received = bytes()
         while len(received) < expected_len:
             chunk = await self.reader.read(expected_len - len(received))
+            if not chunk:
+                raise asyncio.IncompleteReadError(received, expected_len)
             received += chunk
         return received
 
-- 
2.43.0


From a2c64cbfcbca344e3ae3944c5c6b9f57a7e61508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 19/28] fix: use the existing packet names in the Python
 console

---
 py/pica/console.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/py/pica/console.py b/py/pica/console.py
index 425db53..ad1ec4b 100755
--- a/py/pica/console.py
+++ b/py/pica/console.py
@@ -146,25 +146,25 @@ class Device:
     def device_reset(self, **kargs):
         """Reset the UWBS."""
         self.host.send_control(
-            uci.DeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
+            uci.CoreDeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
         )
 
     def get_device_info(self, **kargs):
         """Retrieve the device information like (UCI version and other vendor specific info)."""
-        self.host.send_control(uci.GetDeviceInfoCmd())
+        self.host.send_control(uci.CoreGetDeviceInfoCmd())
 
     def get_caps_info(self, **kargs):
         """Get the capability of the UWBS."""
-        self.host.send_control(uci.GetCapsInfoCmd())
+        self.host.send_control(uci.CoreGetCapsInfoCmd())
 
     def set_config(self, low_power_mode: str = "0", **kargs):
         """Set the configuration parameters on the UWBS."""
         self.host.send_control(
-            uci.SetConfigCmd(
-                tlvs=[
-                    uci.DeviceConfigTlv(
-                        cfg_id=uci.DeviceConfigId.LOW_POWER_MODE,
-                        v=bytes([int(low_power_mode)]),
+            uci.CoreSetConfigCmd(
+                parameters=[
+                    uci.ConfigParameter(
+                        id=uci.ConfigParameterId.LOW_POWER_MODE,
+                        value=bytes([int(low_power_mode)]),
                     ),
                 ]
             )
@@ -173,10 +173,10 @@ class Device:
     def get_config(self, **kargs):
         """Retrieve the current configuration parameter(s) of the UWBS."""
         self.host.send_control(
-            uci.GetConfigCmd(
-                cfg_id=[
-                    uci.DeviceConfigId.LOW_POWER_MODE,
-                    uci.DeviceConfigId.DEVICE_STATE,
+            uci.CoreGetConfigCmd(
+                parameter_ids=[
+                    uci.ConfigParameterId.LOW_POWER_MODE,
+                    uci.ConfigParameterId.DEVICE_STATE,
                 ]
             )
         )
@@ -230,7 +230,7 @@ class Device:
                         v=int(ranging_interval).to_bytes(4, byteorder="little"),
                     ),
                     uci.AppConfigTlv(
-                        cfg_id=uci.AppConfigTlvType.NO_OF_CONTROLEE,
+                        cfg_id=uci.AppConfigTlvType.NUMBER_OF_CONTROLEES,
                         v=bytes([len(dst_mac_addresses)]),
                     ),
                     uci.AppConfigTlv(
-- 
2.43.0


From 99c373c582181c9a5fe65cb7222106eeb5ad424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 20/28] fix: parse all identifiers in the Python
 CORE_GET_CONFIG and GET_APP_CONFIG commands

The values in the reserved and vendor ranges have no enumeration member; the
elements of arrays were the only place not to use from_int. [C28]
---
 py/pica/pica/packets/uci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/pica/pica/packets/uci.py b/py/pica/pica/packets/uci.py
index 99b11b1..d6ac12b 100644
--- a/py/pica/pica/packets/uci.py
+++ b/py/pica/pica/packets/uci.py
@@ -2263,7 +2263,7 @@ class CoreGetConfigCmd(CorePacket):
             raise Exception('Invalid packet size')
         parameter_ids = []
         for n in range(parameter_ids_count):
-            parameter_ids.append(ConfigParameterId(int.from_bytes(span[n:n + 1], byteorder='little')))
+            parameter_ids.append(ConfigParameterId.from_int(int.from_bytes(span[n:n + 1], byteorder='little')))
         fields['parameter_ids'] = parameter_ids
         span = span[parameter_ids_count:]
         return CoreGetConfigCmd(**fields), span
@@ -2784,7 +2784,7 @@ class SessionGetAppConfigCmd(SessionConfigPacket):
             raise Exception('Invalid packet size')
         app_cfg = []
         for n in range(app_cfg_count):
-            app_cfg.append(AppConfigTlvType(int.from_bytes(span[n:n + 1], byteorder='little')))
+            app_cfg.append(AppConfigTlvType.from_int(int.from_bytes(span[n:n + 1], byteorder='little')))
         fields['app_cfg'] = app_cfg
         span = span[app_cfg_count:]
         return SessionGetAppConfigCmd(**fields), span
-- 
2.43.0


From 7588300cfd2279948bf1c439277013255fbf1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 21/28] fix: update the Python
 SessionUpdateControllerMulticastListRsp

The response of pica carries the status of each controlee, as declared in
uci_packets.pdl; the Python library could not parse it. [C28]
---
 py/pica/pica/packets/uci.py | 67 +++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/py/pica/pica/packets/uci.py b/py/pica/pica/packets/uci.py
index d6ac12b..8a1d042 100644
--- a/py/pica/pica/packets/uci.py
+++ b/py/pica/pica/packets/uci.py
@@ -3378,63 +3378,78 @@ class SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(Packet):
         return sum([elt.size for elt in self.controlees]) + 1
 
 @dataclass
-class SessionUpdateControllerMulticastListRsp(SessionConfigPacket):
-    status: Status = field(kw_only=True, default=Status.OK)
+class ControleeStatus(Packet):
+    mac_address: bytearray = field(kw_only=True, default_factory=bytearray)
+    status: MulticastUpdateStatus = field(kw_only=True, default=MulticastUpdateStatus.OK_MULTICAST_LIST_UPDATE)
 
     def __post_init__(self):
-        self.mt = MessageType.RESPONSE
-        self.oid = SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST
-        self.gid = GroupId.SESSION_CONFIG
+        pass
 
     @staticmethod
-    def parse(fields: dict, span: bytes) -> Tuple['SessionUpdateControllerMulticastListRsp', bytes]:
-        if fields['mt'] != MessageType.RESPONSE or fields['oid'] != SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST or fields['gid'] != GroupId.SESSION_CONFIG:
-            raise Exception("Invalid constraint field values")
+    def parse(span: bytes) -> Tuple['ControleeStatus', bytes]:
+        fields = {'payload': None}
+        if len(span) < 2:
+            raise Exception('Invalid packet size')
+        fields['mac_address'] = list(span[:2])
+        span = span[2:]
         if len(span) < 1:
             raise Exception('Invalid packet size')
-        fields['status'] = Status.from_int(span[0])
+        fields['status'] = MulticastUpdateStatus.from_int(span[0])
         span = span[1:]
-        return SessionUpdateControllerMulticastListRsp(**fields), span
+        return ControleeStatus(**fields), span
 
     def serialize(self, payload: bytes = None) -> bytes:
         _span = bytearray()
+        _span.extend(self.mac_address)
         _span.append((self.status << 0))
-        return SessionConfigPacket.serialize(self, payload = bytes(_span))
+        return bytes(_span)
 
     @property
     def size(self) -> int:
-        return 1
+        return 3
 
 @dataclass
-class ControleeStatus(Packet):
-    mac_address: bytearray = field(kw_only=True, default_factory=bytearray)
-    status: MulticastUpdateStatus = field(kw_only=True, default=MulticastUpdateStatus.OK_MULTICAST_LIST_UPDATE)
+class SessionUpdateControllerMulticastListRsp(SessionConfigPacket):
+    status: Status = field(kw_only=True, default=Status.OK)
+    controlee_status: List[ControleeStatus] = field(kw_only=True, default_factory=list)
 
     def __post_init__(self):
-        pass
+        self.mt = MessageType.RESPONSE
+        self.oid = SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST
+        self.gid = GroupId.SESSION_CONFIG
 
     @staticmethod
-    def parse(span: bytes) -> Tuple['ControleeStatus', bytes]:
-        fields = {'payload': None}
+    def parse(fields: dict, span: bytes) -> Tuple['SessionUpdateControllerMulticastListRsp', bytes]:
+        if fields['mt'] != MessageType.RESPONSE or fields['oid'] != SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST or fields['gid'] != GroupId.SESSION_CONFIG:
+            raise Exception("Invalid constraint field values")
         if len(span) < 2:
             raise Exception('Invalid packet size')
-        fields['mac_address'] = list(span[:2])
+        fields['status'] = Status.from_int(span[0])
+        controlee_status_count = span[1]
         span = span[2:]
-        if len(span) < 1:
+        if len(span) < controlee_status_count * 3:
             raise Exception('Invalid packet size')
-        fields['status'] = MulticastUpdateStatus.from_int(span[0])
-        span = span[1:]
-        return ControleeStatus(**fields), span
+        controlee_status = []
+        for n in range(controlee_status_count):
+            controlee_status.append(ControleeStatus.parse_all(span[n * 3:(n + 1) * 3]))
+        fields['controlee_status'] = controlee_status
+        span = span[controlee_status_count * 3:]
+        return SessionUpdateControllerMulticastListRsp(**fields), span
 
     def serialize(self, payload: bytes = None) -> bytes:
         _span = bytearray()
-        _span.extend(self.mac_address)
         _span.append((self.status << 0))
-        return bytes(_span)
+        if len(self.controlee_status) > 255:
+            print(f"Invalid length for field SessionUpdateControllerMulticastListRsp::controlee_status:  {len(self.controlee_status)} > 255; the array will be truncated")
+            del self.controlee_status[255:]
+        _span.append((len(self.controlee_status) << 0))
+        for _elt in self.controlee_status:
+            _span.extend(_elt.serialize())
+        return SessionConfigPacket.serialize(self, payload = bytes(_span))
 
     @property
     def size(self) -> int:
-        return 3
+        return sum([elt.size for elt in self.controlee_status]) + 2
 
 @dataclass
 class SessionUpdateControllerMulticastListNtf(SessionConfigPacket):
-- 
2.43.0


From 1972d42071339097f9d52c1d393bc0e0949c2e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:46 +0000
Subject: [PATCH 22/28] fix: refresh the device panel when a neighbor is
 removed

The panel of the selected device kept showing a neighbor which had been
removed from the scene until some other event updated it.
---
 static/index.html | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static/index.html b/static/index.html
index 774dcae..87a8db8 100644
--- a/static/index.html
+++ b/static/index.html
@@ -172,6 +172,8 @@ limitations under the License.
         (neighbor) => neighbor.mac_address !== mac_address
       );
     });
+
+    info.update();
   });
 
   events.addEventListener("device-updated", (event) => {
-- 
2.43.0


From 601c5e012a637c70c6a131743d0c701f5608b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 23/28] fix: execute the anchor requests one at a time

---
 src/bin/http-server/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index b9fd661..c13359f 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -111,6 +111,9 @@ pub enum Event {
 #[derive(Clone)]
 struct Context {
     devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,
+    /// Held while an anchor is created or destroyed: the scene must be updated
+    /// in the order in which the requests are executed by pica.
+    anchor_requests: Arc<tokio::sync::Mutex<()>>,
     events: broadcast::Sender<Event>,
 }
 
@@ -119,6 +122,7 @@ impl Context {
         let (events, _) = broadcast::channel(1024);
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
+            anchor_requests: Default::default(),
             events,
         }
     }
@@ -259,6 +263,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("create-anchor({}, {})", mac_address, position);
 
+        let _guard = self.anchor_requests.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))
@@ -298,6 +303,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("destroy-anchor({})", mac_address);
 
+        let _guard = self.anchor_requests.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
-- 
2.43.0


From 6d0b1d4fc6571ca53a26d2b8678974765c790c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 24/28] fix: complete the anchor requests whose HTTP connection
 is lost

---
 src/bin/http-server/main.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index c13359f..56c4d72 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -452,14 +452,22 @@ async fn http_request(
             context.http_set_position(mac_address!(mac_address), position!(body))
         }
         ["create-anchor", mac_address] => {
-            context
-                .http_create_anchor(mac_address!(mac_address), position!(body), cmd_tx)
-                .await
+            let (mac_address, position) = (mac_address!(mac_address), position!(body));
+            // Run on a separate task: the handler is dropped when the HTTP
+            // connection is lost, whereas the request must be completed.
+            tokio::spawn(async move {
+                context
+                    .http_create_anchor(mac_address, position, cmd_tx)
+                    .await
+            })
+            .await
+            .unwrap()
         }
         ["destroy-anchor", mac_address] => {
-            context
-                .http_destroy_anchor(mac_address!(mac_address), cmd_tx)
+            let mac_address = mac_address!(mac_address);
+            tokio::spawn(async move { context.http_destroy_anchor(mac_address, cmd_tx).await })
                 .await
+                .unwrap()
         }
         ["get-state"] => context.http_get_state(),
 
-- 
2.43.0


From fc4a9225a6dfd00db3bda97e8a064eae1a9b2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 25/28] fix: keep the scene consistent when an address is taken
 over

---
 src/bin/http-server/main.rs | 75 ++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 56c4d72..f861035 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -137,8 +137,7 @@ impl Context {
                     mac_address,
                     handle,
                 }) => {
-                    let mut devices = self.devices.lock().unwrap();
-                    devices.insert(
+                    self.add_device(
                         handle,
                         DeviceInformation {
                             category: Category::Uci,
@@ -146,28 +145,53 @@ impl Context {
                             position: Default::default(),
                         },
                     );
-                    self.send_event(Event::DeviceAdded {
-                        category: Category::Uci,
-                        mac_address,
-                        position: Default::default(),
-                    });
-                }
-                Ok(PicaEvent::Disconnected {
-                    mac_address,
-                    handle,
-                }) => {
-                    let mut devices = self.devices.lock().unwrap();
-                    devices.remove(&handle);
-                    self.send_event(Event::DeviceRemoved {
-                        category: Category::Uci,
-                        mac_address,
-                    });
                 }
+                Ok(PicaEvent::Disconnected { handle, .. }) => self.remove_device(handle),
                 Err(err) => anyhow::bail!(err),
             }
         }
     }
 
+    /// Add a device or an anchor to the scene.
+    fn add_device(&self, handle: pica::Handle, device: DeviceInformation) {
+        let mut devices = self.devices.lock().unwrap();
+        // Connections and anchor requests are handled by different tasks:
+        // the removal of the previous device with the same address may be
+        // pending, or this device may already have been replaced.
+        let previous = devices
+            .iter()
+            .find(|(_, other)| other.mac_address == device.mac_address)
+            .map(|(handle, other)| (*handle, other.category));
+        if let Some((previous_handle, category)) = previous {
+            if previous_handle > handle {
+                return;
+            }
+            devices.remove(&previous_handle);
+            self.send_event(Event::DeviceRemoved {
+                category,
+                mac_address: device.mac_address,
+            });
+        }
+        self.send_event(Event::DeviceAdded {
+            category: device.category,
+            mac_address: device.mac_address,
+            position: device.position,
+        });
+        devices.insert(handle, device);
+    }
+
+    /// Remove a device or an anchor from the scene, unless it has already
+    /// been replaced.
+    fn remove_device(&self, handle: pica::Handle) {
+        let mut devices = self.devices.lock().unwrap();
+        if let Some(device) = devices.remove(&handle) {
+            self.send_event(Event::DeviceRemoved {
+                category: device.category,
+                mac_address: device.mac_address,
+            });
+        }
+    }
+
     fn send_event(&self, event: Event) {
         // An error here means that there are no subscribers,
         // so ignore it.
@@ -272,8 +296,7 @@ impl Context {
 
         let status = match rsp_rx.await {
             Ok(Ok(handle)) => {
-                let mut devices = self.devices.lock().unwrap();
-                devices.insert(
+                self.add_device(
                     handle,
                     DeviceInformation {
                         position,
@@ -281,11 +304,6 @@ impl Context {
                         category: Category::Anchor,
                     },
                 );
-                self.send_event(Event::DeviceAdded {
-                    category: Category::Anchor,
-                    mac_address,
-                    position,
-                });
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
@@ -312,12 +330,7 @@ impl Context {
 
         let status = match rsp_rx.await {
             Ok(Ok(handle)) => {
-                let mut devices = self.devices.lock().unwrap();
-                devices.remove(&handle);
-                self.send_event(Event::DeviceRemoved {
-                    category: Category::Anchor,
-                    mac_address,
-                });
+                self.remove_device(handle);
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
-- 
2.43.0


From 5eea4026131dffc3e5ea8fd9640bfbbb8d0d40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 26/28] fix: do not lose events of the HTTP subscribers

---
 src/bin/http-server/main.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index f861035..2dde2ea 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -27,7 +27,7 @@ use std::sync::Mutex;
 use tokio::net::TcpListener;
 use tokio::sync::{broadcast, mpsc, oneshot};
 use tokio::try_join;
-use tokio_stream::{wrappers::BroadcastStream, StreamExt};
+use tokio_stream::{wrappers::UnboundedReceiverStream, StreamExt};
 
 use pica::{Category, MacAddress, Pica, PicaCommand, PicaCommandError, PicaEvent};
 
@@ -114,16 +114,17 @@ struct Context {
     /// Held while an anchor is created or destroyed: the scene must be updated
     /// in the order in which the requests are executed by pica.
     anchor_requests: Arc<tokio::sync::Mutex<()>>,
-    events: broadcast::Sender<Event>,
+    /// Subscribers to the events. The channels are not bounded: an update of
+    /// the scene causes any number of events, none of which may be lost.
+    subscribers: Arc<Mutex<Vec<mpsc::UnboundedSender<Event>>>>,
 }
 
 impl Context {
     fn new() -> Self {
-        let (events, _) = broadcast::channel(1024);
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
             anchor_requests: Default::default(),
-            events,
+            subscribers: Default::default(),
         }
     }
 
@@ -193,20 +194,22 @@ impl Context {
     }
 
     fn send_event(&self, event: Event) {
-        // An error here means that there are no subscribers,
-        // so ignore it.
-        let _ = self.events.send(event);
+        // An error here means that the subscriber has left.
+        self.subscribers
+            .lock()
+            .unwrap()
+            .retain(|subscriber| subscriber.send(event.clone()).is_ok());
     }
 
     fn http_events(&self) -> Response<Body> {
-        let stream = BroadcastStream::new(self.events.subscribe()).map(|result| {
-            result.map(|event| {
-                format!(
-                    "event: {}\ndata: {}\n\n",
-                    event.name(),
-                    serde_json::to_string(&event).unwrap()
-                )
-            })
+        let (tx, rx) = mpsc::unbounded_channel();
+        self.subscribers.lock().unwrap().push(tx);
+        let stream = UnboundedReceiverStream::new(rx).map(|event| {
+            Ok::<_, Infallible>(format!(
+                "event: {}\ndata: {}\n\n",
+                event.name(),
+                serde_json::to_string(&event).unwrap()
+            ))
         });
         Response::builder()
             .header("content-type", "text/event-stream")
-- 
2.43.0


From 7fe5248daa181d18d2283b4cfdbf719e02368115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 27/28] fix: report at most 255 measurements in a ranging
 notification

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e13a2de..b383f8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -528,6 +528,8 @@ impl Pica {
             );
         }
         if session.is_session_info_ntf_enabled() {
+            // The number of measurements is encoded on 8 bits, the remaining
+            // measurements are not reported.
             let packet = if session.app_config.mac_address_mode == MacAddressMode::Mode2 {
                 ExtendedMacTwoWaySessionInfoNtf {
                     sequence_number: session.sequence_number,
@@ -539,6 +541,7 @@ impl Pica {
                         .map(|(mac_address, local, remote)| {
                             make_extended_measurement(mac_address, *local, *remote)
                         })
+                        .take(u8::MAX.into())
                         .collect(),
                     vendor_data: vec![],
                 }
@@ -555,6 +558,7 @@ impl Pica {
                         .filter_map(|(mac_address, local, remote)| {
                             make_measurement(mac_address, *local, *remote)
                         })
+                        .take(u8::MAX.into())
                         .collect(),
                     vendor_data: vec![],
                 }
-- 
2.43.0


From b5dedc084e55f9d8c4002a0c30b9b71f48604555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:56 +0000
Subject: [PATCH 28/28] fix: keep serving when a connection cannot be accepted

---
 src/bin/http-server/main.rs | 11 ++++++++++-
 src/bin/main.rs             | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 2dde2ea..833b1d8 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -522,7 +522,16 @@ async fn listen(tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Result<()> {
     log::info!("Pica: Listening on: {}", uci_port);
 
     loop {
-        let (socket, addr) = uci_listener.accept().await?;
+        let (socket, addr) = match uci_listener.accept().await {
+            Ok(connection) => connection,
+            // Not fatal: the limit of open files is reached for example,
+            // retry when other connections are closed.
+            Err(err) => {
+                log::error!("Failed to accept a connection: {}", err);
+                tokio::time::sleep(std::time::Duration::from_millis(100)).await;
+                continue;
+            }
+        };
         log::info!("Uwb host addr: {}", addr);
 
         let (read_half, write_half) = socket.into_split();
diff --git a/src/bin/main.rs b/src/bin/main.rs
index 96ffe6c..1948dc1 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -30,7 +30,16 @@ async fn accept_incoming(cmd_tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Re
     log::info!("Pica: Listening on: {}", uci_port);
 
     loop {
-        let (socket, addr) = uci_listener.accept().await?;
+        let (socket, addr) = match uci_listener.accept().await {
+            Ok(connection) => connection,
+            // Not fatal: the limit of open files is reached for example,
+            // retry when other connections are closed.
+            Err(err) => {
+                log::error!("Failed to accept a connection: {}", err);
+                tokio::time::sleep(std::time::Duration::from_millis(100)).await;
+                continue;
+            }
+        };
         log::info!("Uwb host addr: {}", addr);
 
         let (read_half, write_half) = socket.into_split();
-- 
2.43.0

