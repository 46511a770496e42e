From 6bcf76ed3490529f54cf53d5e63c5246fbfaba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:45 +0000
Subject: [PATCH 01/13] fix: keep the last bit of a Denon frame

---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 00fcb5b..582501b 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -86,7 +86,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
-                (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
+                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                 (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                 (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                 (DenonState::Data(_ix),     _)                  => DenonState::Idle,
-- 
2.43.0


From 9b201b1f650bab77a798476be3df9fdd6758f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:47 +0000
Subject: [PATCH 02/13] fix: drop the bits of an abandoned Denon frame at the
 next header

---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 582501b..25555b8 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -83,7 +83,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
-                (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
+                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                 (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
-- 
2.43.0


From b7cafdd228f2ff41b0a62e33f4f5a7f22c319a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:48 +0000
Subject: [PATCH 03/13] fix: do not send buffer entries past the loaded frame

---
 src/sender/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender/buffer.rs b/src/sender/buffer.rs
index f24a0b9..0a05e06 100644
--- a/src/sender/buffer.rs
+++ b/src/sender/buffer.rs
@@ -23,7 +23,7 @@ impl<const S: usize> PulsedataBuffer<S> {
     }
 
     pub fn get(&self, index: usize) -> Option<u32> {
-        self.buf.get(index).cloned()
+        self.buffer().get(index).cloned()
     }
 
     pub fn buffer(&self) -> &[u32] {
-- 
2.43.0


From 4b24d9c2df06225b53c0f0d799a38f805e049fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 04/13] fix: end encoded NEC and RC5 frames with the carrier
 off

---
 src/protocol/nec/encoder.rs | 5 ++++-
 src/protocol/rc5/encoder.rs | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 858e080..c5ade42 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -49,6 +49,9 @@ where
             bi += 2;
         }
 
-        bi
+        // The closing mark, it ends the space of the last bit
+        b[bi] = <Self as ProtocolEncoder<F>>::DATA[3];
+
+        bi + 1
     }
 }
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 4019414..d20a5dd 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -42,6 +42,12 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
             prev = cur;
         }
 
+        // A one ends with a mark in its second half
+        if prev {
+            buf[index] = rc5len;
+            index += 1;
+        }
+
         index
     }
 }
-- 
2.43.0


From 1e11d652b7386cd42d4dbe9c64a0b4914f5867f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:26 +0000
Subject: [PATCH 05/13] fix: do not overflow when adding a mark and a very long
 space

---
 src/protocol/denon/mod.rs       |  2 +-
 src/protocol/nec/decoder.rs     |  2 +-
 src/protocol/sbp/mod.rs         |  2 +-
 src/receiver/time.rs            |  5 +++++
 src/receiver/time/fgt.rs        | 10 ++++++++++
 src/receiver/time/primitives.rs |  8 ++++++++
 6 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 25555b8..0b6c8aa 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -79,7 +79,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
     fn event(&mut self, rising: bool, dt: Mono::Duration) -> State {
 
         if rising {
-            let pulsewidth = self.spans.get::<PulseWidth>( self.dt_save + dt)
+            let pulsewidth = self.spans.get::<PulseWidth>(Mono::saturating_add(self.dt_save, dt))
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 6bf3bf5..4543408 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -94,7 +94,7 @@ where
 
         if rising {
 
-            let total_duration = dur + self.dt_save;
+            let total_duration = Mono::saturating_add(dur, self.dt_save);
 
             let pulsewidth = self.pulsespans.get(total_duration)
                 .unwrap_or(PulseWidth::Invalid);
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 49551e8..3858946 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -138,7 +138,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         use SbpState::*;
 
         if rising {
-            let dt = self.since_rising + dt;
+            let dt = Mono::saturating_add(self.since_rising, dt);
             let pulsewidth = self.spans.get::<SbpPulse>(dt).unwrap_or(SbpPulse::NotAPulseWidth);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 96fe8fa..607e805 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -20,6 +20,11 @@ pub trait InfraMonotonic: Sized {
 
     fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration>;
 
+    /// Add two durations, should saturate if the sum can't be represented
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a + b
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration>;
 }
 
diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6e71079..a834fe9 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -12,6 +12,11 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.checked_add(b)
+            .unwrap_or(Self::Duration::from_ticks(u32::MAX))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<Self::Duration>::new(p.micros(), t)
     }
@@ -37,6 +42,11 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.checked_add(b)
+            .unwrap_or(Self::Duration::from_ticks(u64::MAX))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         let p: u64 = p.into();
         Span::<Self::Duration>::new(p.micros(), t)
diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index feedf93..5f6e7f8 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -13,6 +13,10 @@ impl InfraMonotonic for u32 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u32>::scaled(p, freq, t)
     }
@@ -28,6 +32,10 @@ impl InfraMonotonic for u64 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u64>::scaled(p, freq, t)
     }
-- 
2.43.0


From d62c07412696e87936fa476c8c9620c7b908a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 06/13] fix: let the RC5 and RC6 half-bit clock wrap instead of
 overflowing

---
 src/protocol/rc5/decoder.rs | 2 +-
 src/protocol/rc6/decoder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3a404d1..77a86b0 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -31,7 +31,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
         let clock_ticks = self.spans.get::<usize>(delta_t);
 
         if let Some(ticks) = clock_ticks {
-            self.clock += ticks + 1;
+            self.clock = self.clock.wrapping_add(ticks + 1);
         } else {
             self.reset();
         }
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 76234d6..04a70cf 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -44,7 +44,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
 
         // Reconstruct the clock
         if let Some(ticks) = ticks {
-            self.clock += ticks;
+            self.clock = self.clock.wrapping_add(ticks);
         } else {
             self.reset();
         }
-- 
2.43.0


From 4cb197bbd0dcfec782a8f7908fbd902c450fb306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 07/13] fix: ignore NEC repeat codes that do not follow a
 complete frame

---
 src/protocol/nec/decoder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 4543408..b638c2f 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -33,6 +33,7 @@ impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> DecoderBuilder<Mono> for Nec<
         NecDecoder {
             state: NecState::Init,
             bitbuf: 0,
+            bitbuf_valid: false,
             cmd_type: Default::default(),
             dt_save: Mono::ZERO_DURATION,
             pulsespans: PulseSpans::new(freq, &pulselens::<Cmd>(), &TOL),
@@ -45,6 +46,8 @@ pub struct NecDecoder<Mono: InfraMonotonic, C = NecCommand> {
     state: NecState,
     // Data buffer
     bitbuf: u32,
+    // The data buffer holds a complete frame
+    bitbuf_valid: bool,
     // Nec Command type
     cmd_type: PhantomData<C>,
     // Saved dt
@@ -100,12 +103,12 @@ where
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
-                (Init,              Sync)   => { self.bitbuf = 0; Receiving(0) },
-                (Init,              Repeat) => RepeatDone,
+                (Init,              Sync)   => { self.bitbuf = 0; self.bitbuf_valid = false; Receiving(0) },
+                (Init,              Repeat) if self.bitbuf_valid => RepeatDone,
                 (Init,              _)      => Init,
 
-                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; Done }
-                (Receiving(31),     Zero)   => Done,
+                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.bitbuf_valid = true; Done }
+                (Receiving(31),     Zero)   => { self.bitbuf_valid = true; Done }
                 (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                 (Receiving(bit),    Zero)   => Receiving(bit + 1),
                 (Receiving(_),      _)      => Err(DecodingError::Data),
-- 
2.43.0


From 6df0d57423ddbbf511aa9299be7299f47f0e4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:30 +0000
Subject: [PATCH 08/13] fix: return no RC5, RC6 or SBP command before the frame
 is complete

---
 src/protocol/rc5/decoder.rs | 5 ++++-
 src/protocol/rc6/decoder.rs | 5 ++++-
 src/protocol/sbp/mod.rs     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 77a86b0..3fe0daf 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -68,7 +68,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc5Command> {
-        Some(Rc5Command::unpack(self.bitbuf))
+        match self.state {
+            Rc5State::Done => Some(Rc5Command::unpack(self.bitbuf)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 04a70cf..b5b7006 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -93,7 +93,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc6Command> {
-        Some(Rc6Command::from_bits(self.data, self.toggle))
+        match self.state {
+            Rc6State::Done => Some(Rc6Command::from_bits(self.data, self.toggle)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 3858946..6294fc5 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -170,7 +170,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         self.state.into()
     }
     fn command(&self) -> Option<SbpCommand> {
-        Some(SbpCommand::unpack(self.address, self.command))
+        match self.state {
+            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From 7a87096a428820593abc7bd13eba8586f18d0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:32 +0000
Subject: [PATCH 09/13] fix: continue buffer iteration after decoding errors

---
 src/receiver/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index 7398553..dbb5537 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -60,11 +60,12 @@ where
                 State::Done => {
                     let cmd = self.decoder.command();
                     self.decoder.reset();
-                    break cmd.map(|r| r.into());
+                    if let Some(cmd) = cmd {
+                        break Some(cmd.into());
+                    }
                 }
                 State::Error(_) => {
                     self.decoder.reset();
-                    break None;
                 }
             }
         }
-- 
2.43.0


From 05e6697ee7b3ff6003d0bc6174fc655b143658c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 10/13] fix: keep the page of an Apple NEC command

---
 src/protocol/nec/apple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index e925129..a416a60 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -70,7 +70,7 @@ impl AddressCommand for AppleNecCommand {
     }
 
     fn command(&self) -> u32 {
-        u32::from((self.command_page << 7) | self.command)
+        (u32::from(self.command_page) << 7) | u32::from(self.command)
     }
 
     fn create(_addr: u32, _cmd: u32) -> Option<Self> {
-- 
2.43.0


From ce5e2a03af5f5afa607e37818b1f0999178556e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:34 +0000
Subject: [PATCH 11/13] fix: reject addresses and commands that do not fit NEC
 and RC5 frames

---
 src/protocol/nec/samsung.rs  | 4 ++--
 src/protocol/nec/standard.rs | 4 ++--
 src/protocol/rc5/mod.rs      | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/protocol/nec/samsung.rs b/src/protocol/nec/samsung.rs
index cd60a29..c3f8ac9 100644
--- a/src/protocol/nec/samsung.rs
+++ b/src/protocol/nec/samsung.rs
@@ -53,8 +53,8 @@ impl AddressCommand for SamsungNecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(SamsungNecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/nec/standard.rs b/src/protocol/nec/standard.rs
index e50d63e..ed70c3e 100644
--- a/src/protocol/nec/standard.rs
+++ b/src/protocol/nec/standard.rs
@@ -54,8 +54,8 @@ impl AddressCommand for NecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(NecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/rc5/mod.rs b/src/protocol/rc5/mod.rs
index 59ca5bb..a2ba056 100644
--- a/src/protocol/rc5/mod.rs
+++ b/src/protocol/rc5/mod.rs
@@ -90,7 +90,12 @@ impl AddressCommand for Rc5Command {
 
     fn create(addr: u32, cmd: u32) -> Option<Rc5Command> {
         let addr: u8 = addr.try_into().ok()?;
-        let cmd = cmd.try_into().ok()?;
+        let cmd: u8 = cmd.try_into().ok()?;
+
+        // 5 bit address and 6 bit command
+        if addr > 0x1F || cmd > 0x3F {
+            return None;
+        }
 
         Some(Rc5Command::new(addr, cmd, false))
     }
-- 
2.43.0


From 2234077a58dd0a06a64083cd95d62ea29b24ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:35 +0000
Subject: [PATCH 12/13] fix: do not take a zero length pulse for a RC5 or RC6
 pulse

---
 src/protocol/rc5/decoder.rs | 2 +-
 src/protocol/rc6/decoder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3fe0daf..6683f57 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -28,7 +28,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
         use Rc5State::*;
 
         // Find this delta t in the defined ranges
-        let clock_ticks = self.spans.get::<usize>(delta_t);
+        let clock_ticks = self.spans.get::<usize>(delta_t).filter(|v| *v < 2);
 
         if let Some(ticks) = clock_ticks {
             self.clock = self.clock.wrapping_add(ticks + 1);
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index b5b7006..73dc0a4 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -40,7 +40,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
         use Rc6State::*;
 
         // Find the nbr of time unit ticks the dt represents
-        let ticks = self.spans.get::<usize>(dt).map(|v| v + 1);
+        let ticks = self.spans.get::<usize>(dt).filter(|v| *v < 6).map(|v| v + 1);
 
         // Reconstruct the clock
         if let Some(ticks) = ticks {
-- 
2.43.0


From 7945b5a42e5dadafee16121b19aff23803e112c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:35 +0000
Subject: [PATCH 13/13] verif: state access for verification harnesses, behind
 cfg(infrared_verif)

---
 src/lib.rs                  |  2 ++
 src/protocol/denon/mod.rs   | 24 ++++++++++++++++++++++
 src/protocol/nec/decoder.rs | 29 +++++++++++++++++++++++++++
 src/protocol/nec/encoder.rs |  5 +++++
 src/protocol/rc5/decoder.rs | 27 +++++++++++++++++++++++++
 src/protocol/rc5/encoder.rs |  5 +++++
 src/protocol/rc6/decoder.rs | 40 +++++++++++++++++++++++++++++++++++++
 src/protocol/sbp/mod.rs     | 31 ++++++++++++++++++++++++++++
 src/receiver/error.rs       | 12 +++++++++++
 src/receiver/iter.rs        | 16 +++++++++++++++
 src/receiver/ppoll.rs       | 18 +++++++++++++++++
 src/sender/hal.rs           |  7 +++++++
 src/sender/senders.rs       | 19 ++++++++++++++++++
 13 files changed, 235 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 117aad1..777f951 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,8 @@
 //!
 
 #![no_std]
+// `--cfg infrared_verif` (with values per module) enables access for verification harnesses
+#![allow(unexpected_cfgs)]
 
 pub(crate) mod fmt;
 
diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 0b6c8aa..7df1290 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -156,3 +156,27 @@ impl From<usize> for PulseWidth {
         }
     }
 }
+
+#[cfg(infrared_verif = "denon")]
+impl<Mono: InfraMonotonic> DenonDecoder<Mono> {
+    /// (state, bit index, bits)
+    #[allow(unreachable_patterns)]
+    pub fn verif_get(&self) -> (u8, u32, u64) {
+        let (tag, n) = match self.state {
+            DenonState::Idle => (0, 0),
+            DenonState::Data(n) => (1, n.into()),
+            DenonState::Done => (2, 0),
+            _ => (255, 0),
+        };
+        (tag, n, self.buf)
+    }
+
+    pub fn verif_set(&mut self, (tag, n, bits): (u8, u32, u64)) {
+        self.state = match tag {
+            0 => DenonState::Idle,
+            1 => DenonState::Data(n as _),
+            _ => DenonState::Done,
+        };
+        self.buf = bits;
+    }
+}
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index b638c2f..315f45f 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -175,3 +175,32 @@ impl From<usize> for PulseWidth {
         }
     }
 }
+
+#[cfg(infrared_verif = "nec")]
+impl<Mono: InfraMonotonic, Cmd> NecDecoder<Mono, Cmd> {
+    /// (state, bit index or error, bits, bits are a complete frame)
+    #[allow(unreachable_patterns)]
+    pub fn verif_get(&self) -> (u8, u32, u32, bool) {
+        let (tag, n) = match self.state {
+            NecState::Init => (0, 0),
+            NecState::Receiving(n) => (1, n),
+            NecState::Done => (2, 0),
+            NecState::RepeatDone => (3, 0),
+            NecState::Err(e) => (4, e as u32),
+            _ => (255, 0),
+        };
+        (tag, n, self.bitbuf, self.bitbuf_valid)
+    }
+
+    pub fn verif_set(&mut self, (tag, n, bits, valid): (u8, u32, u32, bool)) {
+        self.state = match tag {
+            0 => NecState::Init,
+            1 => NecState::Receiving(n),
+            2 => NecState::Done,
+            3 => NecState::RepeatDone,
+            _ => NecState::Err(DecodingError::verif_from(n)),
+        };
+        self.bitbuf = bits;
+        self.bitbuf_valid = valid;
+    }
+}
diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index c5ade42..9515739 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -55,3 +55,8 @@ where
         bi + 1
     }
 }
+
+#[cfg(infrared_verif = "nec_enc")]
+pub fn verif_calc_ticks(l: u32, f: u32) -> u32 {
+    calc_ticks(l, f)
+}
diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 6683f57..47f0d90 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -112,3 +112,30 @@ impl From<Rc5State> for State {
         }
     }
 }
+
+#[cfg(infrared_verif = "rc5")]
+impl<Mono: InfraMonotonic> Rc5Decoder<Mono> {
+    /// (state, bit index or error, bits, half-bit clock)
+    #[allow(unreachable_patterns)]
+    pub fn verif_get(&self) -> (u8, u32, u16, usize) {
+        let (tag, n) = match self.state {
+            Rc5State::Idle => (0, 0),
+            Rc5State::Data(n) => (1, n.into()),
+            Rc5State::Done => (2, 0),
+            Rc5State::Err(e) => (3, e as u32),
+            _ => (255, 0),
+        };
+        (tag, n, self.bitbuf, self.clock)
+    }
+
+    pub fn verif_set(&mut self, (tag, n, bits, clock): (u8, u32, u16, usize)) {
+        self.state = match tag {
+            0 => Rc5State::Idle,
+            1 => Rc5State::Data(n as _),
+            2 => Rc5State::Done,
+            _ => Rc5State::Err(DecodingError::verif_from(n)),
+        };
+        self.bitbuf = bits;
+        self.clock = clock;
+    }
+}
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index d20a5dd..899ac5b 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -51,3 +51,8 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
         index
     }
 }
+
+#[cfg(infrared_verif = "rc5_enc")]
+pub fn verif_calc_freq(f: u32) -> u32 {
+    calc_freq(f)
+}
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 73dc0a4..9f82026 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -143,3 +143,43 @@ impl From<Rc6State> for State {
         }
     }
 }
+
+#[cfg(infrared_verif = "rc6")]
+impl<Mono: InfraMonotonic> Rc6Decoder<Mono> {
+    /// (state, bit index or error, data bits, header bits, toggle, clock)
+    #[allow(unreachable_patterns)]
+    pub fn verif_get(&self) -> (u8, u32, u16, u16, bool, usize) {
+        let (tag, n) = match self.state {
+            Rc6State::Idle => (0, 0),
+            Rc6State::Leading => (1, 0),
+            Rc6State::LeadingPaus => (2, 0),
+            Rc6State::HeaderData(n) => (3, n),
+            Rc6State::Trailing => (4, 0),
+            Rc6State::Data(n) => (5, n),
+            Rc6State::Done => (6, 0),
+            Rc6State::Rc6Err(e) => (7, e as u32),
+            _ => (255, 0),
+        };
+        (tag, n, self.data, self.headerdata, self.toggle, self.clock)
+    }
+
+    pub fn verif_set(
+        &mut self,
+        (tag, n, data, headerdata, toggle, clock): (u8, u32, u16, u16, bool, usize),
+    ) {
+        self.state = match tag {
+            0 => Rc6State::Idle,
+            1 => Rc6State::Leading,
+            2 => Rc6State::LeadingPaus,
+            3 => Rc6State::HeaderData(n),
+            4 => Rc6State::Trailing,
+            5 => Rc6State::Data(n),
+            6 => Rc6State::Done,
+            _ => Rc6State::Rc6Err(DecodingError::verif_from(n)),
+        };
+        self.data = data;
+        self.headerdata = headerdata;
+        self.toggle = toggle;
+        self.clock = clock;
+    }
+}
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 6294fc5..56c1153 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -247,3 +247,34 @@ impl From<usize> for SbpPulse {
         }
     }
 }
+
+#[cfg(infrared_verif = "sbp")]
+impl<Mono: InfraMonotonic> SbpDecoder<Mono> {
+    /// (state, bit index or error, address bits, command bits)
+    #[allow(unreachable_patterns)]
+    pub fn verif_get(&self) -> (u8, u32, u16, u32) {
+        let (tag, n) = match self.state {
+            SbpState::Init => (0, 0),
+            SbpState::Address(n) => (1, n.into()),
+            SbpState::Divider => (2, 0),
+            SbpState::Command(n) => (3, n.into()),
+            SbpState::Done => (4, 0),
+            SbpState::Err(e) => (5, e as u32),
+            _ => (255, 0),
+        };
+        (tag, n, self.address, self.command)
+    }
+
+    pub fn verif_set(&mut self, (tag, n, address, command): (u8, u32, u16, u32)) {
+        self.state = match tag {
+            0 => SbpState::Init,
+            1 => SbpState::Address(n as _),
+            2 => SbpState::Divider,
+            3 => SbpState::Command(n as _),
+            4 => SbpState::Done,
+            _ => SbpState::Err(DecodingError::verif_from(n)),
+        };
+        self.address = address;
+        self.command = command;
+    }
+}
diff --git a/src/receiver/error.rs b/src/receiver/error.rs
index 69ca6f4..defa1c5 100644
--- a/src/receiver/error.rs
+++ b/src/receiver/error.rs
@@ -32,3 +32,15 @@ impl<PinErr> From<DecodingError> for Error<PinErr> {
         }
     }
 }
+
+#[cfg(infrared_verif)]
+impl DecodingError {
+    pub fn verif_from(n: u32) -> Self {
+        match n {
+            0 => DecodingError::Address,
+            1 => DecodingError::Data,
+            2 => DecodingError::Validation,
+            _ => DecodingError::RemoteControlError,
+        }
+    }
+}
diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index dbb5537..216f927 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -71,3 +71,19 @@ where
         }
     }
 }
+
+#[cfg(infrared_verif = "iter")]
+impl<Proto, Mono, Cmd> BufferIterator<'_, Proto, Mono, Cmd>
+where
+    Proto: DecoderBuilder<Mono>,
+    Mono: InfraMonotonic,
+    Cmd: From<<Proto as Protocol>::Cmd>,
+{
+    pub fn verif_get(&self) -> usize {
+        self.pos
+    }
+
+    pub fn verif_set(&mut self, pos: usize) {
+        self.pos = pos;
+    }
+}
diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 02f6dd4..ea178bf 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -92,3 +92,21 @@ where
         self.poll_base(edge).map_err(Into::into)
     }
 }
+
+#[cfg(infrared_verif = "poll")]
+impl<Proto, Input, Cmd> PeriodicPoll<Proto, Input, Cmd>
+where
+    Proto: DecoderBuilder<u32>,
+    Cmd: From<<Proto as Protocol>::Cmd>,
+{
+    /// (clock, last edge, level)
+    pub fn verif_get(&self) -> (u32, u32, bool) {
+        (self.clock, self.last_edge, self.edge)
+    }
+
+    pub fn verif_set(&mut self, (clock, last_edge, edge): (u32, u32, bool)) {
+        self.clock = clock;
+        self.last_edge = last_edge;
+        self.edge = edge;
+    }
+}
diff --git a/src/sender/hal.rs b/src/sender/hal.rs
index dbd17ef..4f9fa7f 100644
--- a/src/sender/hal.rs
+++ b/src/sender/hal.rs
@@ -48,3 +48,10 @@ where
         };
     }
 }
+
+#[cfg(infrared_verif = "sender")]
+impl<PwmPin, const F: u32, const S: usize> Sender<PwmPin, F, S> {
+    pub fn verif_parts(&mut self) -> (&mut PwmPin, &mut u32, &mut PulsedataSender<S>) {
+        (&mut self.pin, &mut self.counter, &mut self.buffer)
+    }
+}
diff --git a/src/sender/senders.rs b/src/sender/senders.rs
index 368a1f3..b9b313a 100644
--- a/src/sender/senders.rs
+++ b/src/sender/senders.rs
@@ -69,3 +69,22 @@ pub enum Status {
     /// Error
     Error,
 }
+
+#[cfg(infrared_verif = "sender")]
+impl<const S: usize> PulsedataSender<S> {
+    /// (position, status, time of the last edge, entries loaded)
+    pub fn verif_get(&self) -> (usize, Status, u32, usize) {
+        (self.pos, self.status, self.ts_lastedge, self.ptb.offset)
+    }
+
+    pub fn verif_set(&mut self, (pos, status, ts, len): (usize, Status, u32, usize)) {
+        self.pos = pos;
+        self.status = status;
+        self.ts_lastedge = ts;
+        self.ptb.offset = len;
+    }
+
+    pub fn verif_buf(&mut self) -> &mut [u32; S] {
+        &mut self.ptb.buf
+    }
+}
-- 
2.43.0

