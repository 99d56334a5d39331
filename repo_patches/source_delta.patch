From f0979ecd9bf171915fa79dc5bb4b482d5c41a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 01/16] fix: stuff and unstuff patterns that are preceded by
 more 0xFF bytes

A mismatch while matching FF FF FD dropped the whole partial match, so FF FF FF FD
was neither stuffed nor unstuffed, and could put a packet header in a packet body.
---
 src/bus/bytestuff.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..e599652 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -7,6 +7,22 @@ use crate::error::BufferTooSmallError;
 /// The unstuffed pattern is this with the last byte removed.
 pub const PATTERN: [u8; 4] = [0xFF, 0xFF, 0xFD, 0xFD];
 
+/// Get the number of leading bytes of [`PATTERN`] that have been matched after processing another byte.
+///
+/// The first two bytes of the pattern are the same,
+/// so a mismatching byte can still be (part of) the start of the pattern.
+fn advance_pattern(state: usize, byte: u8) -> usize {
+	if byte == PATTERN[state] {
+		state + 1
+	} else if byte != PATTERN[0] {
+		0
+	} else if state == 2 {
+		2
+	} else {
+		1
+	}
+}
+
 /// Remove bit-stuffing in-place.
 ///
 /// All patterns of `[0xFF, 0xFF, 0xFD, 0xFD]` will be replaced with `[0xFF, 0xFF, 0xFD]`.
@@ -16,11 +32,7 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 	let mut state = 0;
 
 	for i in 0..data.len() {
-		if data[i] == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = advance_pattern(state, data[i]);
 		if state == 4 {
 			state = 0;
 			deleted += 1;
@@ -37,11 +49,7 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 	let mut state = 0;
 	let mut count = 0;
 	for &byte in data {
-		if byte == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = advance_pattern(state, byte);
 		if state == PATTERN.len() - 1 {
 			state = 0;
 			count += 1;
-- 
2.43.0


From 8869838e42623ee255622c385fc8c08a8426619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 02/16] fix: do not panic when only the checksum of a stuffed
 message exceeds the write buffer

The check after stuffing did not account for the checksum. The reported sizes
now also include the header and checksum, as in the check before stuffing.
---
 src/bus/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..fb9fee2 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -202,6 +202,10 @@ where
 		buffer[7] = instruction_id;
 		encode_parameters(&mut buffer[8..][..parameter_count])?;
 
+		// Check if the buffer can also hold the stuffed message.
+		let stuffing_required = bytestuff::stuffing_required(&buffer[HEADER_SIZE..][..1 + parameter_count]);
+		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count) + stuffing_required, buffer.len())?;
+
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-- 
2.43.0


From ad725c304f07e5d4d47fd3fdab40cf282ca9deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 03/16] fix: refuse to send messages that do not fit in the
 16-bit length field

The length was silently truncated (or overflowed, which panics in debug builds).
---
 src/bus/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index fb9fee2..8f5ca29 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -206,6 +206,9 @@ where
 		let stuffing_required = bytestuff::stuffing_required(&buffer[HEADER_SIZE..][..1 + parameter_count]);
 		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count) + stuffing_required, buffer.len())?;
 
+		// Check if the length of the stuffed message fits in the length field.
+		crate::error::BufferTooSmallError::check(1 + parameter_count + stuffing_required + 2, u16::MAX.into())?;
+
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-- 
2.43.0


From a90a46fc5915a8e6b67525d20afc53ff3cff96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 04/16] fix: report received messages with an invalid length
 instead of panicking

A length field below 3 leaves no room for an instruction ID, and caused out of
bounds indexing when the checksum matched.
---
 src/bus/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 8f5ca29..2cd8322 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -249,6 +249,16 @@ where
 				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
 				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
 
+				// Every message has at least an instruction ID and a checksum.
+				if body_len < 3 {
+					self.consume_read_bytes(HEADER_SIZE);
+					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
+						actual: body_len,
+						expected: crate::ExpectedCount::Min(3),
+					})
+					.into());
+				}
+
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
 					self.consume_read_bytes(HEADER_SIZE);
-- 
2.43.0


From 2991c8a779bc52b1f3576743770497d7ca7dc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 05/16] fix: send the whole value in Client::reg_write

The parameter count was hardcoded for one-byte values.
---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..c9146a4 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From 0b9076e9166dbbb666167ad625c8ccfef5147488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 06/16] fix: send the whole values in Client::sync_write

The parameter count was hardcoded for one-byte values.
---
 src/instructions/sync_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..377e993 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,7 +80,7 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = T::ENCODED_SIZE as usize;
 		let motors = data.len();
 		let stride = 1 + count;
 		let parameter_count = 4 + motors * stride;
-- 
2.43.0


From 2b0677aed639bf6ce33610258eac200dcb95e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 07/16] fix: do not report an owned bulk write instruction as
 bulk read

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From 1e36a774c28a5f56a1d4088a25523c683228591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 08/16] fix: use the correct option for Client::clear_error

Option 0x01 clears the revolution counter, 0x02 clears errors.
This also is how Device decodes the instruction.
---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From 6f875b4c35edda783ea21b887670860d9a18da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 09/16] fix: check the packet ID of responses to unicast writes
 and other commands

A response from another motor was reported as success.
---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From 0455a7a851d0c65783f777cf863028d574e3cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 10/16] fix: do not loop forever when dropping a Scan

If the serial port keeps reporting errors other than timeouts, or if the read
buffer is too small, the drain loop never ended.
---
 src/instructions/ping.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..6f77212 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -115,7 +115,12 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		while self.next().is_some() {}
+		// A broken serial port may never report a timeout, so limit this to the maximum number of motors.
+		for _ in 0..253 {
+			if self.next().is_none() {
+				break;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From eca96604d40d3af44016255f2b08665b1b7f2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 11/16] fix: check the buffer size when decoding an array

A short buffer caused a panic, and excess bytes were silently ignored.
---
 src/bus/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..23b4472 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -95,6 +95,7 @@ impl<T: Data, const N: usize> Data for [T; N] {
 
 	fn decode(buffer: &[u8]) -> Result<Self, crate::InvalidMessage> {
 		let encoded_size = T::ENCODED_SIZE as usize;
+		crate::error::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
 		let mut output = ArrayInitializer::new();
 		for i in 0..N {
 			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
-- 
2.43.0


From 3b22710a9108d058a51916828007a1f09d706b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 12/16] fix: do not drop the elements of a decoded array twice

The elements were dropped with the initializer, while also being returned.
---
 src/bus/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 23b4472..dd1e44c 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -144,7 +144,9 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 		debug_assert!(self.initialized == N);
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
-		core::ptr::read(self.data.as_ptr().cast())
+		// The elements are moved to the returned array, so we must not drop them in `Drop::drop()`.
+		let this = core::mem::ManuallyDrop::new(self);
+		core::ptr::read(this.data.as_ptr().cast())
 	}
 }
 
-- 
2.43.0


From ab7106769a9a382eefb280444e6b01e2023c69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 13/16] fix: panic if a bulk write uses the same motor ID twice

This was already documented, but not implemented.
---
 src/instructions/bulk_write.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..1feb93e 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -67,6 +67,9 @@ where
 					u16::MAX
 				);
 			}
+			if writes.clone().filter(|other| other.borrow().motor_id == write.motor_id).count() > 1 {
+				panic!("bulk_write: motor ID {} used multiple times", write.motor_id);
+			}
 			parameter_count += 5 + data.len();
 		}
 
-- 
2.43.0


From 5f8e552d298cae69a9a6741dde54aaa47b88c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 14/16] fix: report status packets without error field instead
 of panicking

---
 src/bus/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 2cd8322..feafbf3 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -303,8 +303,8 @@ where
 		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field (the instruction ID and error field are included in parameter_count here).
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From d52290bbec287d0e7375e2cef1aac703d677f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 15/16] fix: log the noise that is skipped instead of the
 message before it

---
 src/bus/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index feafbf3..010610e 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -321,7 +321,7 @@ where
 		let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]);
 		if garbage_len > 0 {
 			debug!("skipping {} bytes of leading garbage.", garbage_len);
-			trace!("skipped garbage: {:02X?}", &read_buffer[..garbage_len]);
+			trace!("skipped garbage: {:02X?}", &read_buffer[self.used_bytes..][..garbage_len]);
 		}
 		self.consume_read_bytes(self.used_bytes + garbage_len);
 		debug_assert_eq!(self.used_bytes, 0);
-- 
2.43.0


From a121a16262c3b18eb5e54606ec5b4fefc86ba71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:15 +0000
Subject: [PATCH 16/16] fix: keep a packet that follows a header that was cut
 short

---
 src/bus/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 010610e..3239da6 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -251,7 +251,8 @@ where
 
 				// Every message has at least an instruction ID and a checksum.
 				if body_len < 3 {
-					self.consume_read_bytes(HEADER_SIZE);
+					// Discard only the prefix: if the header was cut short, the next packet starts right behind it.
+					self.consume_read_bytes(HEADER_PREFIX.len());
 					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 						actual: body_len,
 						expected: crate::ExpectedCount::Min(3),
@@ -261,7 +262,8 @@ where
 
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
-					self.consume_read_bytes(HEADER_SIZE);
+					// Discard only the prefix: if the header was cut short, the next packet starts right behind it.
+					self.consume_read_bytes(HEADER_PREFIX.len());
 				})?;
 
 				if self.read_len >= HEADER_SIZE + body_len {
-- 
2.43.0

