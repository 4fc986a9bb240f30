From 2103b4ebf759dc33089da9d2f667ec55cb5f0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:18 +0000
Subject: [PATCH 01/48] fix: sequencer fades are applied at the event's own
 samples when it starts mid-block

---
 src/sequencer.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a750b63..9e083a9 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -128,11 +128,16 @@ fn fade_in(
 ) {
     let fade_end_time = fade_start_time + fade_duration;
     if fade_duration > 0.0 && fade_end_time > time {
+        // Samples are stored from the beginning of the buffer, so index relative to `start_index`.
         let fade_end_i = if fade_end_time >= end_time {
             end_index
         } else {
-            round((fade_end_time - time) / sample_duration) as usize
-        };
+            min(
+                round((fade_end_time - time) / sample_duration) as usize,
+                end_index,
+            )
+        }
+        .saturating_sub(start_index);
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -167,7 +172,7 @@ fn fade_out(
     sample_duration: f64,
     time: f64,
     end_time: f64,
-    _start_index: usize,
+    start_index: usize,
     end_index: usize,
     ease: Fade,
     fade_duration: f64,
@@ -177,10 +182,15 @@ fn fade_out(
     let fade_start_time = fade_end_time - fade_duration;
     if fade_duration > 0.0 && fade_start_time < end_time {
         let fade_i = if fade_start_time <= time {
-            0
+            start_index
         } else {
-            round((fade_start_time - time) / sample_duration) as usize
+            max(
+                round((fade_start_time - time) / sample_duration) as usize,
+                start_index,
+            )
         };
+        // Samples are stored from the beginning of the buffer, so index relative to `start_index`.
+        let fade_range = min(fade_i, end_index) - start_index..end_index - start_index;
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -191,7 +201,7 @@ fn fade_out(
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[fade_range.clone()].iter_mut() {
                         *x *= sine_ease(1.0 - fade);
                         fade += fade_d;
                     }
@@ -200,7 +210,7 @@ fn fade_out(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[fade_range.clone()].iter_mut() {
                         *x *= smooth5(1.0 - fade);
                         fade += fade_d;
                     }
-- 
2.43.0


From 1e6456fc8828e4cf375978627581450ac534456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:24 +0000
Subject: [PATCH 02/48] fix: TapLinear buffer has room for the samples written
 ahead of reads in a block

---
 src/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..9e9152f 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -437,7 +437,7 @@ where
         let sample_rate = sample_rate as f32;
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
-            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0;
+            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0 + SIMD_N as f32;
             let buffer_length = (buffer_length as usize).next_power_of_two();
             self.buffer.resize(buffer_length, 0.0);
             self.reset();
-- 
2.43.0


From 77bcd1bae8bf25ef8193f0940f7fca82473ccc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH 03/48] fix: granular synthesizer output does not depend on how
 processing is divided into blocks

---
 src/granular.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/granular.rs b/src/granular.rs
index c16492c..511dad2 100644
--- a/src/granular.rs
+++ b/src/granular.rs
@@ -18,6 +18,9 @@ use alloc::vec::Vec;
 struct Voice {
     /// Starting time of the next grain in this voice.
     pub next_time: f64,
+    /// Random generator of this voice. Each voice has its own so that results do not depend
+    /// on how processing is divided into blocks.
+    pub rnd: Rnd,
 }
 
 /// Granular synthesizer. The synthesizer works by tracing paths in 3-D space and using
@@ -41,7 +44,6 @@ pub struct Granular<
     sample_rate: f64,
     time: f64,
     rnd_seed: u64,
-    rnd: Rnd,
 }
 
 impl<
@@ -75,7 +77,13 @@ impl<
         jitter: f32,
         generator: X,
     ) -> Self {
-        let voice_vector = vec![Voice { next_time: 0.0 }; voices];
+        let voice_vector = vec![
+            Voice {
+                next_time: 0.0,
+                rnd: Rnd::from_u64(texture_seed),
+            };
+            voices
+        ];
         let mut dna = Dna::new(texture_seed);
         let texture = funutd::map3gen::genmap3(100.0, TilingMode::Z, &mut dna);
         let mut granular = Self {
@@ -93,12 +101,19 @@ impl<
             sample_rate: DEFAULT_SR,
             time: 0.0,
             rnd_seed: texture_seed,
-            rnd: Rnd::from_u64(texture_seed),
         };
         granular.reset();
         granular
     }
 
+    /// Initialize random generators of voices.
+    fn reset_random(&mut self) {
+        let mut rnd = Rnd::from_u64(self.rnd_seed);
+        for voice in self.voices.iter_mut() {
+            voice.rnd = Rnd::from_u64(rnd.u64());
+        }
+    }
+
     /// Position in space at the given time for the given voice.
     fn helix_position(&mut self, voice: usize, time: f64) -> Vec3a {
         let cycle_length = self.beat_length as f64 * self.beats_per_cycle as f64;
@@ -116,10 +131,11 @@ impl<
         let r = lerp(self.inner_radius, self.outer_radius, voice_d);
         let x = cos(beat as f32 * f32::TAU) * r;
         let y = sin(beat as f32 * f32::TAU) * r;
+        let rnd = &mut self.voices[voice].rnd;
         let random = vec3a(
-            self.rnd.f32() * 2.0 - 1.0,
-            self.rnd.f32() * 2.0 - 1.0,
-            self.rnd.f32() * 2.0 - 1.0,
+            rnd.f32() * 2.0 - 1.0,
+            rnd.f32() * 2.0 - 1.0,
+            rnd.f32() * 2.0 - 1.0,
         ) * self.jitter;
         self.texture_origin + vec3a(x as f32, y as f32, z as f32) + random
     }
@@ -155,7 +171,7 @@ impl<
         }
         self.voices[voice].next_time = t + grain_length as f64 - envelope_length as f64;
         // Use a random phase for each individual grain.
-        grain.ping(false, AttoHash::new(self.rnd.u64()));
+        grain.ping(false, AttoHash::new(self.voices[voice].rnd.u64()));
         self.sequencer.push_duration(
             t,
             grain_length as f64,
@@ -186,7 +202,7 @@ impl<
             self.voices[i].next_time = 0.0;
         }
         self.time = 0.0;
-        self.rnd = Rnd::from_u64(self.rnd_seed);
+        self.reset_random();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
@@ -213,7 +229,7 @@ impl<
 
     fn set_hash(&mut self, hash: u64) {
         self.rnd_seed = hash;
-        self.rnd = Rnd::from_u64(self.rnd_seed);
+        self.reset_random();
     }
 
     fn inputs(&self) -> usize {
-- 
2.43.0


From 8a8e686ff0136e732915d0e68f9af02a16aa0a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 04/48] fix: wavetable oscillator starts from the same phase
 when new and after reset

---
 src/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..fdff6bf 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -276,7 +276,7 @@ where
     N: Size<f32>,
 {
     pub fn new(table: Arc<Wavetable>) -> Self {
-        WaveSynth {
+        let mut synth = WaveSynth {
             table,
             phase: 0.0,
             hash: 0,
@@ -285,7 +285,9 @@ where
             sample_rate: DEFAULT_SR as f32,
             sample_duration: 1.0 / DEFAULT_SR as f32,
             _marker: core::marker::PhantomData,
-        }
+        };
+        synth.reset();
+        synth
     }
 }
 
-- 
2.43.0


From 506fadad17ebc636fc9654b3e20110fcf082549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 05/48] fix: MLS noise starts from the same state when new and
 after reset

---
 src/noise.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/noise.rs b/src/noise.rs
index be26ea5..ed10e56 100644
--- a/src/noise.rs
+++ b/src/noise.rs
@@ -100,16 +100,19 @@ impl MlsState {
 #[derive(Clone)]
 pub struct Mls {
     mls: MlsState,
+    /// Initial state when there is neither seed nor hash.
+    initial: MlsState,
     seed: Option<u64>,
-    hash: u64,
+    hash: Option<u64>,
 }
 
 impl Mls {
     pub fn new(mls: MlsState) -> Self {
         Self {
             mls,
+            initial: mls,
             seed: None,
-            hash: 0,
+            hash: None,
         }
     }
 }
@@ -120,8 +123,10 @@ impl AudioNode for Mls {
     type Outputs = typenum::U1;
 
     fn reset(&mut self) {
-        let hash = self.seed.unwrap_or(self.hash);
-        self.mls = MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32);
+        self.mls = match self.seed.or(self.hash) {
+            Some(hash) => MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32),
+            None => self.initial,
+        };
     }
 
     #[inline]
@@ -138,7 +143,7 @@ impl AudioNode for Mls {
     }
 
     fn set_hash(&mut self, hash: u64) {
-        self.hash = hash;
+        self.hash = Some(hash);
         self.reset();
     }
 
-- 
2.43.0


From 1927272de103c56bfb70626919b428646889dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 06/48] fix: adaptive shape starts from the same level estimate
 when new and after reset

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..1f52e33 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -178,7 +178,7 @@ impl<S: Shape> Adaptive<S> {
             inner,
             timescale,
             smoothing: 0.0,
-            state: 0.0,
+            state: 1.0e-3,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
         adaptive
-- 
2.43.0


From c7178472ed38b052d365c071a5f6c590895a7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 07/48] fix: limiter reset also resets its level follower

---
 src/dynamics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..4a0fce9 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -180,6 +180,7 @@ where
     type Outputs = N;
 
     fn reset(&mut self) {
+        self.follower.reset();
         self.set_sample_rate(self.sample_rate);
     }
 
-- 
2.43.0


From 4413f7ac0aa3e50afd72eb2aaa9593528340dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 08/48] fix: reverb reset also resets input allpasses

---
 src/reverb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..df0cb9a 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
-- 
2.43.0


From 26446646609968db3b91599dbf0af2d4f8d8ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:48 +0000
Subject: [PATCH 09/48] fix: adsr_live envelope state belongs to the instance
 and restarts on reset

---
 src/adsr.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 8cec74d..aa83763 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -15,7 +15,7 @@
 //! connected MIDI input device it finds, and play the corresponding pitches with the volume moderated by
 //! an `adsr_live()` envelope.
 
-use super::prelude::{clamp01, delerp, envelope2, lerp, shared, var, An, EnvelopeIn, Frame, U1};
+use super::prelude::{clamp01, delerp, envelope2, lerp, An, EnvelopeIn, Frame, U1};
 use super::Real;
 
 pub fn adsr_live(
@@ -26,27 +26,25 @@ pub fn adsr_live(
 ) -> An<EnvelopeIn<f32, impl FnMut(f32, &Frame<f32, U1>) -> f32 + Clone, U1, f32>> {
     let neg1 = -1.0;
     let zero = 0.0;
-    let a = shared(zero);
-    let b = shared(neg1);
-    let attack_start = var(&a);
-    let release_start = var(&b);
+    let mut attack_start = zero;
+    let mut release_start = neg1;
     envelope2(move |time, control| {
-        if release_start.value() >= zero && control > zero {
-            attack_start.set_value(time);
-            release_start.set_value(neg1);
-        } else if release_start.value() < zero && control <= zero {
-            release_start.set_value(time);
+        if time <= zero {
+            // The envelope is starting from the beginning.
+            attack_start = zero;
+            release_start = neg1;
         }
-        let ads_value = ads(attack, decay, sustain, time - attack_start.value());
-        if release_start.value() < zero {
+        if release_start >= zero && control > zero {
+            attack_start = time;
+            release_start = neg1;
+        } else if release_start < zero && control <= zero {
+            release_start = time;
+        }
+        let ads_value = ads(attack, decay, sustain, time - attack_start);
+        if release_start < zero {
             ads_value
         } else {
-            ads_value
-                * clamp01(delerp(
-                    release_start.value() + release,
-                    release_start.value(),
-                    time,
-                ))
+            ads_value * clamp01(delerp(release_start + release, release_start, time))
         }
     })
 }
-- 
2.43.0


From 8b1a01ed48fac94f378a99ad68aa01dc02adf031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:30 +0000
Subject: [PATCH 10/48] fix: Net::check accepts a valid network that was edited
 after processing

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 5fe667c..84835ab 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1025,6 +1025,10 @@ impl Net {
                     _ => (),
                 }
             }
+            // Source vertex shortcuts are up to date only when the order has been determined.
+            if !self.is_ordered() {
+                continue;
+            }
             if let Some((source_node, source_port)) = self.vertex[index].source_vertex {
                 assert!(source_node < self.size());
                 assert!(source_node != index);
-- 
2.43.0


From 3756150445ba521163dfd81e5ac6f9e5b89c71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:30 +0000
Subject: [PATCH 11/48] fix: Net::remove_link does not create a self connection
 when breaking a cycle

---
 src/net.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index 84835ab..5837bd0 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -399,11 +399,16 @@ impl Net {
             for channel in 0..self.vertex[vertex].inputs() {
                 if let Port::Local(index, port) = self.vertex[vertex].source[channel].source {
                     if index == node_index {
-                        self.vertex[vertex].source[channel].source = if link {
+                        let source = if link {
                             self.vertex[node_index].source[port].source
                         } else {
                             Port::Zero
                         };
+                        self.vertex[vertex].source[channel].source = match source {
+                            // Self connections are prohibited.
+                            Port::Local(i, _) if i == vertex => Port::Zero,
+                            source => source,
+                        };
                     }
                 }
             }
-- 
2.43.0


From 72e4f905e052cad38825de2d8d6ed1d512824a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 12/48] fix: dummy unit outputs silence over the whole block

---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..3177c04 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_f32_mut(channel)[0..size].fill(0.0);
         }
     }
 
-- 
2.43.0


From bfa555d7bf324319b0055f4b0e5402e2ba61d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:32 +0000
Subject: [PATCH 13/48] fix: network backend applies commits and settings in
 the order they were sent

---
 src/net.rs     | 13 -------------
 src/realnet.rs | 41 +++++++++++++----------------------------
 2 files changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 5837bd0..4516cdb 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1297,19 +1297,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..336c270 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -61,25 +61,24 @@ impl NetBackend {
 
     /// Handle changes made to the backend.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
         #[allow(clippy::while_let_loop)]
         loop {
             match self.receiver.try_recv() {
                 Ok(message) => {
                     match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
+                        NetMessage::Net(mut net) => {
+                            // Migrate existing nodes to the new network.
+                            self.net.migrate(&mut net);
+                            core::mem::swap(&mut net, &mut self.net);
+                            self.net.apply_edits(&self.sender);
+                            // Send the previous network back for deallocation.
+                            if self
+                                .sender
+                                .as_ref()
+                                .unwrap()
+                                .try_send(NetReturn::Net(net))
+                                .is_ok()
+                            {}
                         }
                         NetMessage::Setting(setting) => {
                             self.net.set(setting);
@@ -90,20 +89,6 @@ impl NetBackend {
                 _ => break,
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
-- 
2.43.0


From a8bb13d50dc240d6a58547e2c3c8959ea353eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 14/48] fix: Net::replace supersedes earlier crossfades of the
 node

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 4516cdb..c14e70e 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -470,6 +470,10 @@ impl Net {
         assert_eq!(unit.outputs(), self.vertex[node_index].outputs());
         unit.set_sample_rate(self.sample_rate as f64);
         core::mem::swap(&mut self.vertex[node_index].unit, &mut unit);
+        // The replacement supersedes any earlier crossfades.
+        self.vertex[node_index].next = NodeEdit::default();
+        self.vertex[node_index].latest = NodeEdit::default();
+        self.edit_queue.retain(|edit| edit.id != node);
         self.vertex[node_index].changed = self.revision;
         unit
     }
-- 
2.43.0


From e90c68b27f650224da3b0598aa04a4dc64346a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:50 +0000
Subject: [PATCH 15/48] fix: Net::set reaches uncommitted units and units being
 crossfaded in

---
 src/net.rs    | 17 ++++++++++++++---
 src/vertex.rs | 12 ++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index c14e70e..7662eae 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1356,10 +1356,21 @@ impl AudioUnit for Net {
 
     fn set(&mut self, setting: Setting) {
         if let Some((sender, _receiver)) = &mut self.front {
-            if sender.try_send(NetMessage::Setting(setting)).is_ok() {}
-        } else if let Address::Node(id) = setting.direction() {
+            if sender
+                .try_send(NetMessage::Setting(setting.clone()))
+                .is_ok()
+            {}
+        }
+        // A frontend also applies the setting to its own units, as they may be sent to the backend later.
+        if let Address::Node(id) = setting.direction() {
+            let setting = setting.peel();
+            for edit in self.edit_queue.iter_mut().filter(|edit| edit.id == id) {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set(setting.clone());
+                }
+            }
             if let Some(index) = self.node_index.get(&id) {
-                self.vertex[*index].unit.set(setting.peel());
+                self.vertex[*index].set(setting);
             }
         }
     }
diff --git a/src/vertex.rs b/src/vertex.rs
index d455293..880b918 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -6,6 +6,7 @@ use super::math::*;
 use super::net::*;
 use super::realnet::*;
 use super::sequencer::Fade;
+use super::setting::*;
 use thingbuf::mpsc::Sender;
 extern crate alloc;
 use alloc::boxed::Box;
@@ -95,6 +96,17 @@ impl Vertex {
         self.unit.allocate();
     }
 
+    /// Apply a setting to the unit and to any units we are fading into.
+    pub fn set(&mut self, setting: Setting) {
+        if let Some(latest) = self.latest.unit.as_deref_mut() {
+            latest.set(setting.clone());
+        }
+        if let Some(next) = self.next.unit.as_deref_mut() {
+            next.set(setting.clone());
+        }
+        self.unit.set(setting);
+    }
+
     /// Calculate source vertex and source port.
     pub fn update_source_vertex(&mut self) {
         self.source_vertex = None;
-- 
2.43.0


From 67f58c44d7d43e6cdf33fe68367bbfc5a5360e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:44 +0000
Subject: [PATCH 16/48] fix: a committed crossfade is not undone by later
 frontend changes

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 7662eae..6c36b85 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1146,6 +1146,10 @@ impl Net {
         // Filter the edit queue while updating unit indices.
         for edit in self.edit_queue.iter_mut() {
             if let Some(&index) = self.node_index.get(&edit.id) {
+                // The new unit is current in the frontend, which keeps the clones.
+                if let Some(unit) = &edit.unit {
+                    net.vertex[index].unit = unit.clone();
+                }
                 net.edit_queue.push(NodeEdit {
                     unit: edit.unit.take(),
                     id: edit.id,
-- 
2.43.0


From ea7c7939ef39c74ac6008ac1eb98e04b4a1cbd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:46 +0000
Subject: [PATCH 17/48] fix: network sample rate and reset reach units that are
 being crossfaded in

---
 src/net.rs    |  9 +++++++--
 src/vertex.rs | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 6c36b85..f41739c 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1321,13 +1321,18 @@ impl AudioUnit for Net {
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
-                vertex.unit.set_sample_rate(sample_rate as f64);
+                vertex.set_sample_rate(sample_rate as f64);
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in self.edit_queue.iter_mut() {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
@@ -1337,7 +1342,7 @@ impl AudioUnit for Net {
 
     fn reset(&mut self) {
         for vertex in &mut self.vertex {
-            vertex.unit.reset();
+            vertex.reset();
             // Reseting a unit counts as a change
             // to be sent to the backend because
             // we cannot reset in the backend
diff --git a/src/vertex.rs b/src/vertex.rs
index 880b918..8d3e368 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -96,6 +96,26 @@ impl Vertex {
         self.unit.allocate();
     }
 
+    /// Set the sample rate of the unit and of any units we are fading into.
+    pub fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.unit.set_sample_rate(sample_rate);
+        for edit in [&mut self.next, &mut self.latest] {
+            if let Some(unit) = edit.unit.as_deref_mut() {
+                unit.set_sample_rate(sample_rate);
+            }
+        }
+    }
+
+    /// Reset the unit and any units we are fading into.
+    pub fn reset(&mut self) {
+        self.unit.reset();
+        for edit in [&mut self.next, &mut self.latest] {
+            if let Some(unit) = edit.unit.as_deref_mut() {
+                unit.reset();
+            }
+        }
+    }
+
     /// Apply a setting to the unit and to any units we are fading into.
     pub fn set(&mut self, setting: Setting) {
         if let Some(latest) = self.latest.unit.as_deref_mut() {
-- 
2.43.0


From 8994486e2bc0eac870a39c43373440f308828a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:10 +0000
Subject: [PATCH 18/48] fix: networks that are combined share one sample rate

---
 src/net.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index f41739c..8288e5e 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1181,6 +1181,16 @@ impl Net {
         self.revision += 1;
     }
 
+    /// Resolve sample rate for a binary combination. If either network is a frontend, then its
+    /// sample rate is used. Otherwise we use the sample rate of this network.
+    fn resolve_sample_rate(&mut self, other: &mut Net) {
+        if other.has_backend() {
+            self.set_sample_rate(other.sample_rate as f64);
+        } else {
+            other.set_sample_rate(self.sample_rate as f64);
+        }
+    }
+
     /// Resolve new frontend for a binary combination.
     fn resolve_frontend(&mut self, other: &mut Net) {
         if self.has_backend() && other.has_backend() {
@@ -1479,6 +1489,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net1.resolve_sample_rate(&mut net2);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
         let outputs = net1.outputs() + net2.outputs();
@@ -1535,6 +1546,7 @@ impl Net {
     /// Given nets `net1` and `net2`, create and return net `net1 | net2`.
     pub fn stack(mut net1: Net, mut net2: Net) -> Net {
         net2.disambiguate_ids(&net1);
+        net1.resolve_sample_rate(&mut net2);
         let offset = net1.vertex.len();
         let output_offset = net1.outputs();
         let input_offset = net1.inputs();
@@ -1607,6 +1619,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net1.resolve_sample_rate(&mut net2);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
         let input_offset = net1.inputs();
@@ -1714,6 +1727,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net1.resolve_sample_rate(&mut net2);
         let output1 = net1.output_edge.clone();
         let output2 = net2.output_edge.clone();
         let offset = net1.vertex.len();
@@ -1789,6 +1803,7 @@ impl Net {
             );
         }
         net2.disambiguate_ids(&net1);
+        net1.resolve_sample_rate(&mut net2);
         let offset = net1.vertex.len();
         net1.vertex.append(&mut net2.vertex);
         // Adjust local ports.
-- 
2.43.0


From e8cbe448597448f749515557093dd9c8a33b8b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:27 +0000
Subject: [PATCH 19/48] fix: an edit that ends a future event in the past
 cancels the event

---
 src/sequencer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 9e083a9..afacdf2 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -457,7 +457,7 @@ impl Sequencer {
             let i = self.active_map[&id];
             self.active[i].end_time = end_time;
             self.active[i].fade_out = fade_out_time;
-        } else if end_time < self.active_threshold {
+        } else if end_time < self.active_threshold && !self.is_ready(id) {
             // The edit is already in the past.
         } else {
             // The edit is in the future.
@@ -498,7 +498,7 @@ impl Sequencer {
             let i = self.active_map[&id];
             self.active[i].end_time = self.time + end_time;
             self.active[i].fade_out = fade_out_time;
-        } else if self.time + end_time < self.active_threshold {
+        } else if self.time + end_time < self.active_threshold && !self.is_ready(id) {
             // The edit is already in the past.
         } else {
             // The edit is in the future.
@@ -512,6 +512,11 @@ impl Sequencer {
         }
     }
 
+    /// Return whether the event is in the ready queue.
+    fn is_ready(&self, id: EventId) -> bool {
+        self.ready.iter().any(|event| event.id == id)
+    }
+
     /// Move units that start before the end time to the active set.
     fn ready_to_active(&mut self, next_end_time: f64) {
         self.active_threshold = next_end_time - self.sample_duration * 0.5;
-- 
2.43.0


From 94e32494e7c4e1f5cfd9745809d25a5eba5fa02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:29 +0000
Subject: [PATCH 20/48] fix: sequencer backend does not reset events that were
 pushed after the reset

---
 src/realseq.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index 9e3089d..097148d 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -63,7 +63,7 @@ impl SequencerBackend {
         while let Ok(message) = self.receiver.try_recv() {
             match message {
                 Message::Reset => {
-                    self.reset();
+                    self.reset_sequencer();
                 }
                 Message::Push(event) => {
                     self.sequencer.push_event(event);
@@ -82,6 +82,22 @@ impl SequencerBackend {
         }
     }
 
+    /// Reset the sequencer while sending any cleared events to the frontend for deallocation.
+    fn reset_sequencer(&mut self) {
+        if !self.sequencer.replay_events() {
+            while let Some(event) = self.sequencer.get_past_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_ready_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_active_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+        }
+        self.sequencer.reset();
+    }
+
     #[inline]
     fn send_back_past(&mut self) {
         while let Some(event) = self.sequencer.get_past_event() {
@@ -101,18 +117,7 @@ impl AudioUnit for SequencerBackend {
 
     fn reset(&mut self) {
         self.handle_messages();
-        if !self.sequencer.replay_events() {
-            while let Some(event) = self.sequencer.get_past_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_ready_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_active_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-        }
-        self.sequencer.reset();
+        self.reset_sequencer();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-- 
2.43.0


From 26359b3e4a58924eecd5e6f2b136109e32b38fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 21/48] fix: units set to a slot receive the sample rate of the
 slot

---
 src/slot.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index d061459..a9a3562 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -4,6 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
+use super::shared::Shared;
 use super::signal::*;
 use super::*;
 use thingbuf::mpsc::{channel, Receiver, Sender};
@@ -17,7 +18,8 @@ enum SlotMessage {
     #[default]
     Nothing,
     /// Update unit using fade shape and fade time (in seconds).
-    Update(Fade, f64, Box<dyn AudioUnit>),
+    /// The last argument is the sample rate the unit has been set to.
+    Update(Fade, f64, Box<dyn AudioUnit>, f64),
     /// Return a unit for deallocation.
     #[allow(dead_code)]
     Return(Box<dyn AudioUnit>),
@@ -29,6 +31,8 @@ pub struct Slot {
     outputs: usize,
     receiver: Receiver<SlotMessage>,
     sender: Sender<SlotMessage>,
+    /// Sample rate of the backend.
+    sample_rate: Shared,
 }
 
 impl Slot {
@@ -39,11 +43,13 @@ impl Slot {
         let (sender_b, receiver_b) = channel(1024);
         let inputs = initial_unit.inputs();
         let outputs = initial_unit.outputs();
+        let shared_sample_rate = Shared::new(DEFAULT_SR as f32);
         let slot = Slot {
             inputs,
             outputs,
             receiver: receiver_a,
             sender: sender_b,
+            sample_rate: shared_sample_rate.clone(),
         };
         initial_unit.set_sample_rate(DEFAULT_SR);
         #[allow(clippy::unnecessary_cast)]
@@ -51,6 +57,7 @@ impl Slot {
             inputs,
             outputs,
             sample_rate: DEFAULT_SR,
+            shared_sample_rate,
             current: initial_unit,
             next: None,
             fade: Fade::Smooth,
@@ -69,12 +76,16 @@ impl Slot {
 
     /// Set the unit. The current unit will be faded out and the new unit will be faded in
     /// simultaneously.
-    pub fn set(&mut self, fade: Fade, fade_time: f64, unit: Box<dyn AudioUnit>) {
+    pub fn set(&mut self, fade: Fade, fade_time: f64, mut unit: Box<dyn AudioUnit>) {
         assert_eq!(self.inputs, unit.inputs());
         assert_eq!(self.outputs, unit.outputs());
         // Deallocate units that were sent back.
         while self.receiver.try_recv().is_ok() {}
-        let message = SlotMessage::Update(fade, fade_time, unit);
+        // Make sure the sample rate of the unit matches the backend.
+        let sample_rate = self.sample_rate.value() as f64;
+        unit.set_sample_rate(sample_rate);
+        unit.allocate();
+        let message = SlotMessage::Update(fade, fade_time, unit, sample_rate);
         if self.sender.try_send(message).is_ok() {}
     }
 
@@ -93,6 +104,8 @@ pub struct SlotBackend {
     inputs: usize,
     outputs: usize,
     sample_rate: f64,
+    /// Sample rate for the frontend.
+    shared_sample_rate: Shared,
     current: Box<dyn AudioUnit>,
     next: Option<Box<dyn AudioUnit>>,
     fade: Fade,
@@ -115,6 +128,7 @@ impl Clone for SlotBackend {
             inputs: self.inputs,
             outputs: self.outputs,
             sample_rate: self.sample_rate,
+            shared_sample_rate: Shared::new(self.sample_rate as f32),
             current: self.current.clone(),
             next: self.next.clone(),
             fade: self.fade.clone(),
@@ -135,7 +149,11 @@ impl SlotBackend {
     /// Handle updates.
     fn handle_messages(&mut self) {
         while let Ok(message) = self.receiver.try_recv() {
-            if let SlotMessage::Update(fade, fade_time, unit) = message {
+            if let SlotMessage::Update(fade, fade_time, mut unit, sample_rate) = message {
+                if sample_rate != self.shared_sample_rate.value() as f64 {
+                    // The sample rate was changed after the unit was sent.
+                    unit.set_sample_rate(self.sample_rate);
+                }
                 if self.next.is_none() {
                     self.next = Some(unit);
                     self.fade_phase = 0.0;
@@ -185,6 +203,7 @@ impl AudioUnit for SlotBackend {
     #[allow(clippy::unnecessary_cast)]
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_rate = sample_rate;
+        self.shared_sample_rate.set_value(sample_rate as f32);
         self.current.set_sample_rate(sample_rate);
         if let Some(next) = self.next.as_deref_mut() {
             next.set_sample_rate(sample_rate);
-- 
2.43.0


From 1b129cfe99809882429218ef96d318fe9d5b5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:47 +0000
Subject: [PATCH 22/48] fix: limiter allocates all of its buffer ahead of time

---
 src/dynamics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 4a0fce9..97664da 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -233,7 +233,7 @@ where
     fn allocate(&mut self) {
         if self.buffer.capacity() < self.reducer.length() {
             self.buffer
-                .reserve(self.reducer.length() - self.buffer.capacity());
+                .reserve(self.reducer.length() - self.buffer.len());
         }
     }
 }
-- 
2.43.0


From 5718072b6fe8d4a734bbc3700de3cfc604b6acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:25 +0000
Subject: [PATCH 23/48] fix: setting listener forwards settings and allocation
 to the enclosed node

---
 src/setting.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..60febb8 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -306,10 +306,18 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
 
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         self.receive_settings();
         self.x.route(input, frequency)
-- 
2.43.0


From ac97be27f03f46dfc5094f538f8e5d9cdb321c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:27 +0000
Subject: [PATCH 24/48] fix: feedback, oversampling and resampling nodes
 forward settings to enclosed nodes

---
 src/feedback.rs   | 17 +++++++++++++++++
 src/oversample.rs |  5 +++++
 src/resample.rs   |  5 +++++
 3 files changed, 27 insertions(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..2d799c4 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -4,6 +4,7 @@ use super::audionode::*;
 use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use core::marker::PhantomData;
@@ -149,6 +150,10 @@ where
         Routing::Arbitrary(0.0).route(input, self.outputs())
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
@@ -261,6 +266,14 @@ where
         Routing::Arbitrary(0.0).route(input, self.outputs())
     }
 
+    fn set(&mut self, setting: Setting) {
+        match setting.direction() {
+            Address::Left => self.x.set(setting.peel()),
+            Address::Right => self.y.set(setting.peel()),
+            _ => (),
+        }
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.y.ping(probe, self.x.ping(probe, hash.hash(Self::ID)))
     }
@@ -425,6 +438,10 @@ impl AudioUnit for FeedbackUnit {
         ID
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(self.get_id()))
     }
diff --git a/src/oversample.rs b/src/oversample.rs
index 3cf7f3a..bd63098 100644
--- a/src/oversample.rs
+++ b/src/oversample.rs
@@ -2,6 +2,7 @@
 
 use super::audionode::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use numeric_array::typenum::*;
@@ -283,6 +284,10 @@ where
         self.x.route(input, frequency)
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
diff --git a/src/resample.rs b/src/resample.rs
index e9832cc..6fdf194 100644
--- a/src/resample.rs
+++ b/src/resample.rs
@@ -2,6 +2,7 @@
 
 use super::audionode::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use numeric_array::typenum::*;
@@ -99,6 +100,10 @@ where
         super::signal::Routing::Generator(0.0).route(input, self.outputs())
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
-- 
2.43.0


From 7a65bfc16d0734260da8922005dc9e2bc8286fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:29 +0000
Subject: [PATCH 25/48] fix: network backends and slots apply settings

---
 src/realnet.rs |  5 +++++
 src/slot.rs    | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/realnet.rs b/src/realnet.rs
index 336c270..ce8806a 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -125,6 +125,11 @@ impl AudioUnit for NetBackend {
         self.net.get_id()
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.handle_messages();
+        self.net.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.handle_messages();
         self.net.ping(probe, hash)
diff --git a/src/slot.rs b/src/slot.rs
index a9a3562..3f76cc6 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -5,6 +5,7 @@ use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
 use super::shared::Shared;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use thingbuf::mpsc::{channel, Receiver, Sender};
@@ -308,6 +309,17 @@ impl AudioUnit for SlotBackend {
         ID
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.handle_messages();
+        if let Some(next) = self.next.as_deref_mut() {
+            next.set(setting.clone());
+        }
+        if let Some(latest) = self.latest.as_deref_mut() {
+            latest.set(setting.clone());
+        }
+        self.current.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         if !probe {
             self.current.set_hash(hash.state());
-- 
2.43.0


From e2c4c8eabcb0c36765baaf966d2bb5be927ef1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:30 +0000
Subject: [PATCH 26/48] fix: allocation reaches all contained units

---
 src/feedback.rs  |  1 +
 src/sequencer.rs | 10 ++++++++++
 src/vertex.rs    |  5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index 2d799c4..b4c273a 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -280,6 +280,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
diff --git a/src/sequencer.rs b/src/sequencer.rs
index afacdf2..5805dff 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -824,6 +824,16 @@ impl AudioUnit for Sequencer {
         self.ready.reserve(DEFAULT_CAPACITY);
         self.past.reserve(DEFAULT_CAPACITY);
         self.edit_map.reserve(DEFAULT_CAPACITY);
+        // Allocate contained units.
+        let mut ready = core::mem::take(&mut self.ready).into_vec();
+        for event in ready
+            .iter_mut()
+            .chain(self.active.iter_mut())
+            .chain(self.past.iter_mut())
+        {
+            event.unit.allocate();
+        }
+        self.ready = BinaryHeap::from(ready);
     }
 }
 
diff --git a/src/vertex.rs b/src/vertex.rs
index 8d3e368..a0c0256 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -94,6 +94,11 @@ impl Vertex {
     /// Preallocate everything.
     pub fn allocate(&mut self) {
         self.unit.allocate();
+        for edit in [&mut self.next, &mut self.latest] {
+            if let Some(unit) = edit.unit.as_deref_mut() {
+                unit.allocate();
+            }
+        }
     }
 
     /// Set the sample rate of the unit and of any units we are fading into.
-- 
2.43.0


From 3429e65412932f1d95fc102b0c6b828ee8b783c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:31 +0000
Subject: [PATCH 27/48] fix: network backend sample rate reaches units that
 were committed before the change

---
 src/realnet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/realnet.rs b/src/realnet.rs
index ce8806a..61ca507 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -107,8 +107,8 @@ impl AudioUnit for NetBackend {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-        self.net.set_sample_rate(sample_rate);
         self.handle_messages();
+        self.net.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &[f32], output: &mut [f32]) {
-- 
2.43.0


From f04ff7fde24c97847df24ba0e14d4d405fc61b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:50 +0000
Subject: [PATCH 28/48] fix: a network inside another graph keeps the
 pseudorandom phase it received

---
 src/net.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 8288e5e..da0a897 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -840,6 +840,15 @@ impl Net {
         &mut *self.vertex[self.node_index[&node]].unit
     }
 
+    /// Ping contained units.
+    fn ping_units(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
+        let mut hash = hash.hash(ID);
+        for x in self.vertex.iter_mut() {
+            hash = x.unit.ping(probe, hash);
+        }
+        hash
+    }
+
     /// Compute and store node order for this network.
     fn determine_order(&mut self) {
         // Update source vertex shortcut.
@@ -847,8 +856,8 @@ impl Net {
             self.vertex[j].update_source_vertex();
         }
         // Update net hash. We have designed the hash to depend on vertices but not edges.
-        let hash = self.ping(true, AttoHash::new(ID));
-        self.ping(false, hash);
+        let hash = self.ping_units(true, AttoHash::new(ID));
+        self.ping_units(false, hash);
         let mut order = match self.order.take() {
             Some(v) => v,
             None => Vec::with_capacity(self.vertex.len()),
@@ -1399,11 +1408,11 @@ impl AudioUnit for Net {
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
-        let mut hash = hash.hash(ID);
-        for x in self.vertex.iter_mut() {
-            hash = x.unit.ping(probe, hash);
+        // Determining the order pings the units so do it first.
+        if !self.is_ordered() {
+            self.determine_order();
         }
-        hash
+        self.ping_units(probe, hash)
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-- 
2.43.0


From f720a0da14ee7b898a21960107d63c372d586a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:52 +0000
Subject: [PATCH 29/48] fix: slot pings contained units

---
 src/slot.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index 3f76cc6..8e70eb7 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -321,16 +321,14 @@ impl AudioUnit for SlotBackend {
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
-        if !probe {
-            self.current.set_hash(hash.state());
-            if let Some(next) = self.next.as_deref_mut() {
-                next.set_hash(hash.state());
-            }
-            if let Some(latest) = self.latest.as_deref_mut() {
-                latest.set_hash(hash.state());
-            }
+        let mut hash = self.current.ping(probe, hash.hash(self.get_id()));
+        if let Some(next) = self.next.as_deref_mut() {
+            hash = next.ping(probe, hash);
+        }
+        if let Some(latest) = self.latest.as_deref_mut() {
+            hash = latest.ping(probe, hash);
         }
-        hash.hash(self.get_id())
+        hash
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-- 
2.43.0


From 0ae3b1f257d37ffba17be775417ffcea83e93526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:22 +0000
Subject: [PATCH 30/48] fix: resonator_hz responds to center and Q settings

---
 src/biquad.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index 11929b1..d3174ca 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -366,6 +366,16 @@ impl<F: Real, N: Size<f32>> AudioNode for Resonator<F, N> {
         self.biquad.tick(&[input[0]].into())
     }
 
+    fn set(&mut self, setting: Setting) {
+        match setting.parameter() {
+            Parameter::Center(center) => self.set_center_q(F::from_f32(*center), self.q),
+            Parameter::CenterQ(center, q) => {
+                self.set_center_q(F::from_f32(*center), F::from_f32(*q))
+            }
+            _ => (),
+        }
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = SignalFrame::new(self.outputs());
         output.set(
-- 
2.43.0


From 22b44b9d2cdbede00b2aad62e53d67c7fac615c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:05 +0000
Subject: [PATCH 31/48] fix: subsampled filter inputs are read at the first
 sample

---
 src/svf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 77f5f9e..60a5514 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -832,13 +832,15 @@ where
 
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-        self.counter += 1;
-        if self.counter >= self.period {
-            self.counter = 0;
+        if self.counter == 0 {
             // Update parameters from input.
             self.mode
                 .update_inputs(input, &mut self.params, &mut self.coefs);
         }
+        self.counter += 1;
+        if self.counter >= self.period {
+            self.counter = 0;
+        }
         let v0 = F::from_f32(input[0]);
         let v3 = v0 - self.ic2eq;
         let v1 = self.coefs.a1 * self.ic1eq + self.coefs.a2 * v3;
-- 
2.43.0


From 4869bbf0e37b42a0cdbb28b189583e14b7a6e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:14 +0000
Subject: [PATCH 32/48] fix: reverb sample rate also reaches input allpasses

---
 src/reverb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index df0cb9a..314bce9 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -235,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
-- 
2.43.0


From bc57918a790f6e8664cdf669f001508f6f6a5482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 33/48] fix: frequency response of indexed stacks and sums is
 that of the first node's own inputs

---
 src/audionode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index c02518e..8ae21be 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2063,7 +2063,10 @@ where
         if self.x.is_empty() {
             return SignalFrame::new(self.outputs());
         }
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(
+            &SignalFrame::copy(input, 0, X::Inputs::USIZE),
+            frequency,
+        );
         output.resize(self.outputs());
         for i in 1..N::USIZE {
             let output_i = self.x[i].route(
@@ -2202,7 +2205,10 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(
+            &SignalFrame::copy(input, 0, X::Inputs::USIZE),
+            frequency,
+        );
         for j in 1..self.x.len() {
             let output_j = self.x[j].route(
                 &SignalFrame::copy(input, j * X::Inputs::USIZE, X::Inputs::USIZE),
-- 
2.43.0


From 3ea6fec8c85d23945bce16051809d65ec60178ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 34/48] fix: oversampling filters are included in the frequency
 response and latency

---
 src/oversample.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/oversample.rs b/src/oversample.rs
index bd63098..d53fc99 100644
--- a/src/oversample.rs
+++ b/src/oversample.rs
@@ -5,6 +5,7 @@ use super::math::*;
 use super::setting::*;
 use super::signal::*;
 use super::*;
+use num_complex::Complex64;
 use numeric_array::typenum::*;
 
 // Coefficients from https://fiiir.com/, a linear phase Kaiser windowed filter with
@@ -182,6 +183,15 @@ fn tick(v: &Frame<f32, U128>, j: usize) -> f32 {
     output
 }
 
+/// Convert signal latency between outer and inner samples.
+fn scale_latency(signal: Signal, factor: f64) -> Signal {
+    match signal {
+        Signal::Latency(latency) => Signal::Latency(latency * factor),
+        Signal::Response(response, latency) => Signal::Response(response, latency * factor),
+        signal => signal,
+    }
+}
+
 #[derive(Clone)]
 pub struct Oversampler<X>
 where
@@ -195,6 +205,7 @@ where
     inv: Frame<Frame<f32, U128>, X::Inputs>,
     outv: Frame<Frame<f32, U128>, X::Outputs>,
     j: usize,
+    sample_rate: f64,
 }
 
 impl<X> Oversampler<X>
@@ -216,6 +227,7 @@ where
             inv: Frame::default(),
             outv: Frame::default(),
             j: 0,
+            sample_rate,
         }
     }
 
@@ -251,6 +263,7 @@ where
     fn set_sample_rate(&mut self, sample_rate: f64) {
         let inner_sr = sample_rate * 2.0;
         self.x.set_sample_rate(inner_sr);
+        self.sample_rate = sample_rate;
     }
 
     #[inline]
@@ -281,7 +294,26 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        self.x.route(input, frequency)
+        // Both conversions apply the halfband filter.
+        let z1 = Complex64::from_polar(1.0, -f64::TAU * frequency / (self.sample_rate * 2.0));
+        let mut halfband = Complex64::new(0.0, 0.0);
+        let mut z = Complex64::new(1.0, 0.0);
+        for i in 0..HALFBAND_MIN_LEN {
+            halfband += z * HALFBAND_MIN[HALFBAND_MIN_LEN - 1 - i] as f64;
+            z *= z1;
+        }
+        let mut inner_input = SignalFrame::new(self.inputs());
+        for i in 0..self.inputs() {
+            let signal = input.at(i).filter(0.0, |r| r * halfband);
+            inner_input.set(i, scale_latency(signal, 2.0));
+        }
+        let inner_output = self.x.route(&inner_input, frequency);
+        let mut output = SignalFrame::new(self.outputs());
+        for i in 0..self.outputs() {
+            let signal = inner_output.at(i).filter(0.0, |r| r * halfband);
+            output.set(i, scale_latency(signal, 0.5));
+        }
+        output
     }
 
     fn set(&mut self, setting: Setting) {
-- 
2.43.0


From 4dd2190dee669246067e01962bb5627f556ff7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 35/48] fix: generators report their latency and latency of
 multiple inputs is added once

---
 src/signal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..3d7acbb 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -176,16 +176,16 @@ impl Routing {
     /// Routes signals from input to output.
     pub fn route(&self, input: &SignalFrame, outputs: usize) -> SignalFrame {
         let mut output = SignalFrame::new(outputs);
-        if input.is_empty() {
+        if input.is_empty() && !matches!(self, Routing::Generator(_)) {
             return output;
         }
         match self {
             Routing::Arbitrary(latency) => {
-                let mut combo = input.at(0).distort(*latency);
+                let mut combo = input.at(0).distort(0.0);
                 for i in 1..input.len() {
-                    combo = combo.combine_nonlinear(input.at(i), *latency);
+                    combo = combo.combine_nonlinear(input.at(i), 0.0);
                 }
-                output.fill(combo);
+                output.fill(combo.delay(*latency));
             }
             Routing::Split => {
                 for i in 0..outputs {
-- 
2.43.0


From 3b8c8054adad642447503d7c735ef6867ee3882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:34 +0000
Subject: [PATCH 36/48] fix: latency compensated rendering and filtering
 measure latency at the sample rate of the wave

---
 src/wave.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wave.rs b/src/wave.rs
index cc3a056..fdcc5f6 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -477,6 +477,9 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // Latency may depend on the sample rate.
+        node.set_sample_rate(sample_rate);
+        node.reset();
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
@@ -572,6 +575,8 @@ impl Wave {
         assert_eq!(node.inputs(), self.channels());
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // Latency may depend on the sample rate.
+        node.set_sample_rate(self.sample_rate());
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
-- 
2.43.0


From 4c4093db7672744832dc47761230b1dfd5d94a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:03 +0000
Subject: [PATCH 37/48] fix: retaining a span outside of the wave leaves an
 empty wave

---
 src/wave.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wave.rs b/src/wave.rs
index fdcc5f6..f756668 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -306,7 +306,10 @@ impl Wave {
     /// That is, the offset may be negative and the end of the span may lie beyond the end of the wave.
     pub fn retain(&mut self, start: isize, length: usize) {
         let i0 = max(start, 0) as usize;
-        let i1 = min(self.length(), max(0, start + length as isize) as usize);
+        let i1 = min(
+            self.length(),
+            max(0, start.saturating_add_unsigned(length)) as usize,
+        );
         if i0 > 0 {
             for channel in 0..self.channels() {
                 for i in i0..i1 {
@@ -314,7 +317,7 @@ impl Wave {
                 }
             }
         }
-        self.resize(i1 - i0);
+        self.resize(i1.saturating_sub(i0));
     }
 
     /// Peak amplitude of the wave. An empty wave has zero amplitude.
-- 
2.43.0


From 132aa34c605c97449c1ab4ea5714e81bb7ce420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:03 +0000
Subject: [PATCH 38/48] fix: WAV writing reports errors in writing buffered
 data

---
 src/write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 30b3bbe..54fc699 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -72,7 +72,8 @@ impl Wave {
                 write16(&mut writer, (sample as i16) as u16)?;
             }
         }
-        std::io::Result::Ok(())
+        // Report any errors in writing the remaining data.
+        writer.flush()
     }
 
     /// Write the wave as a 32-bit float WAV to a buffer.
@@ -94,7 +95,8 @@ impl Wave {
                 writer.write_all(&sample.to_le_bytes())?;
             }
         }
-        std::io::Result::Ok(())
+        // Report any errors in writing the remaining data.
+        writer.flush()
     }
 
     /// Save the wave as a 16-bit WAV file.
-- 
2.43.0


From 4be16434bb9baf911dc0c79c5c43de13b2abfb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:04 +0000
Subject: [PATCH 39/48] Verification hook: atomics of shared variables and
 identifiers can be forwarded to a model checker (cfg fundsp_mc)

---
 src/dynamics.rs |   3 ++
 src/lib.rs      |   2 +
 src/mcatomic.rs | 115 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/shared.rs   |   3 ++
 4 files changed, 123 insertions(+)
 create mode 100644 src/mcatomic.rs

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 97664da..99e57d6 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -7,6 +7,9 @@ use super::math::*;
 use super::shared::*;
 use super::signal::*;
 use super::*;
+#[cfg(fundsp_mc)]
+use super::mcatomic::AtomicU32;
+#[cfg(not(fundsp_mc))]
 use core::sync::atomic::AtomicU32;
 use numeric_array::typenum::*;
 extern crate alloc;
diff --git a/src/lib.rs b/src/lib.rs
index e5af664..644e38b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -845,6 +845,8 @@ pub mod granular;
 pub mod hacker;
 pub mod hacker32;
 pub mod math;
+#[cfg(fundsp_mc)]
+pub mod mcatomic;
 pub mod moog;
 pub mod net;
 pub mod noise;
diff --git a/src/mcatomic.rs b/src/mcatomic.rs
new file mode 100644
index 0000000..aaca4d6
--- /dev/null
+++ b/src/mcatomic.rs
@@ -0,0 +1,115 @@
+//! Verification hook, compiled only with `--cfg fundsp_mc`:
+//! 32-bit atomics whose operations are forwarded to a handler installed by a model checker.
+
+pub use core::sync::atomic::Ordering;
+use std::sync::OnceLock;
+
+/// Atomic operation.
+#[derive(Clone, Copy, Debug)]
+pub enum Op {
+    Load(Ordering),
+    Store(u32, Ordering),
+    Swap(u32, Ordering),
+    Add(u32, Ordering),
+    /// Compare, exchange to, success ordering, failure ordering.
+    CompareExchange(u32, u32, Ordering, Ordering),
+}
+
+/// Handles an operation on the atomic with the given address and initial value.
+/// Returns the previous value; `Err` if a comparison failed. `None` if the atomic is not part of the model.
+pub type Handler = fn(usize, u32, Op) -> Option<Result<u32, u32>>;
+
+pub static HANDLER: OnceLock<Handler> = OnceLock::new();
+
+#[derive(Default, Debug)]
+pub struct AtomicU32 {
+    value: core::sync::atomic::AtomicU32,
+}
+
+impl From<u32> for AtomicU32 {
+    fn from(value: u32) -> Self {
+        Self::new(value)
+    }
+}
+
+impl AtomicU32 {
+    pub const fn new(value: u32) -> Self {
+        Self {
+            value: core::sync::atomic::AtomicU32::new(value),
+        }
+    }
+    fn op(&self, op: Op) -> Result<u32, u32> {
+        if let Some(handler) = HANDLER.get() {
+            let initial = self.value.load(Ordering::Relaxed);
+            if let Some(r) = handler(self as *const Self as usize, initial, op) {
+                return r;
+            }
+        }
+        match op {
+            Op::Load(o) => Ok(self.value.load(o)),
+            Op::Store(x, o) => {
+                self.value.store(x, o);
+                Ok(x)
+            }
+            Op::Swap(x, o) => Ok(self.value.swap(x, o)),
+            Op::Add(x, o) => Ok(self.value.fetch_add(x, o)),
+            Op::CompareExchange(a, b, s, f) => self.value.compare_exchange(a, b, s, f),
+        }
+    }
+    pub fn load(&self, order: Ordering) -> u32 {
+        self.op(Op::Load(order)).unwrap()
+    }
+    pub fn store(&self, x: u32, order: Ordering) {
+        let _ = self.op(Op::Store(x, order));
+    }
+    pub fn swap(&self, x: u32, order: Ordering) -> u32 {
+        self.op(Op::Swap(x, order)).unwrap()
+    }
+    pub fn fetch_add(&self, x: u32, order: Ordering) -> u32 {
+        self.op(Op::Add(x, order)).unwrap()
+    }
+    pub fn fetch_sub(&self, x: u32, order: Ordering) -> u32 {
+        self.op(Op::Add(x.wrapping_neg(), order)).unwrap()
+    }
+    pub fn compare_exchange(
+        &self,
+        current: u32,
+        new: u32,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u32, u32> {
+        self.op(Op::CompareExchange(current, new, success, failure))
+    }
+    pub fn compare_exchange_weak(
+        &self,
+        current: u32,
+        new: u32,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u32, u32> {
+        self.op(Op::CompareExchange(current, new, success, failure))
+    }
+    pub fn fetch_update(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: impl FnMut(u32) -> Option<u32>,
+    ) -> Result<u32, u32> {
+        let mut prev = self.load(fetch_order);
+        while let Some(next) = f(prev) {
+            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                Ok(x) => return Ok(x),
+                Err(next_prev) => prev = next_prev,
+            }
+        }
+        Err(prev)
+    }
+    pub fn fetch_max(&self, x: u32, order: Ordering) -> u32 {
+        self.fetch_update(order, Ordering::Relaxed, |y| Some(y.max(x)))
+            .unwrap()
+    }
+    pub fn fetch_min(&self, x: u32, order: Ordering) -> u32 {
+        self.fetch_update(order, Ordering::Relaxed, |y| Some(y.min(x)))
+            .unwrap()
+    }
+}
diff --git a/src/shared.rs b/src/shared.rs
index ac60ec5..edf9aab 100644
--- a/src/shared.rs
+++ b/src/shared.rs
@@ -5,6 +5,9 @@ use super::buffer::*;
 use super::combinator::*;
 use super::signal::*;
 use super::*;
+#[cfg(fundsp_mc)]
+use super::mcatomic::{AtomicU32, Ordering};
+#[cfg(not(fundsp_mc))]
 use core::sync::atomic::{AtomicU32, Ordering};
 
 use numeric_array::typenum::*;
-- 
2.43.0


From dcdefc348362aa79bd816720e86b60e8da0c1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:04 +0000
Subject: [PATCH 40/48] fix: wavetables made from a wave keep the shape of the
 wave

---
 src/wavetable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index fdff6bf..2c636a7 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -134,7 +134,8 @@ impl Wavetable {
         let spectrum = super::fft::real_fft(&mut data);
         let phase = |i: u32| {
             if (i as usize) < spectrum.len() {
-                spectrum[i as usize].arg() as f64 / f64::TAU
+                // Partials are sines while the spectrum consists of cosines.
+                spectrum[i as usize].arg() as f64 / f64::TAU + 0.25
             } else {
                 0.0
             }
-- 
2.43.0


From c2ec6eea3eed9d2c798815b85a31af8f06e3a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:54 +0000
Subject: [PATCH 41/48] fix: limiter limits the very first sample

---
 src/dynamics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 99e57d6..b4f8e7c 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -208,7 +208,9 @@ where
             self.buffer.push(input.clone());
             if self.buffer.len() == self.reducer.length() {
                 // When the buffer is full, start following from its total peak.
-                self.follower.set_value(self.reducer.total());
+                // The follower jumps to its first input.
+                self.follower
+                    .filter_mono(max(1.0, self.reducer.total() * 1.10));
             }
             self.advance();
             Frame::default()
-- 
2.43.0


From 008fa7a013dcd52ba491de1ce59e9cddc8ea3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:20 +0000
Subject: [PATCH 42/48] fix: adsr_live with zero release time ends in silence

---
 src/adsr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index aa83763..bd26085 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -43,8 +43,10 @@ pub fn adsr_live(
         let ads_value = ads(attack, decay, sustain, time - attack_start);
         if release_start < zero {
             ads_value
-        } else {
+        } else if time < release_start + release {
             ads_value * clamp01(delerp(release_start + release, release_start, time))
+        } else {
+            zero
         }
     })
 }
-- 
2.43.0


From b07f65b1b03111984c2059b8057d2038a86f6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:20 +0000
Subject: [PATCH 43/48] fix: adsr_live stays silent until its input becomes
 positive

---
 src/adsr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/adsr.rs b/src/adsr.rs
index bd26085..45d6614 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -28,11 +28,16 @@ pub fn adsr_live(
     let zero = 0.0;
     let mut attack_start = zero;
     let mut release_start = neg1;
+    let mut started = false;
     envelope2(move |time, control| {
         if time <= zero {
             // The envelope is starting from the beginning.
             attack_start = zero;
             release_start = neg1;
+            started = false;
+        }
+        if control > zero {
+            started = true;
         }
         if release_start >= zero && control > zero {
             attack_start = time;
@@ -40,6 +45,9 @@ pub fn adsr_live(
         } else if release_start < zero && control <= zero {
             release_start = time;
         }
+        if !started {
+            return zero;
+        }
         let ads_value = ads(attack, decay, sustain, time - attack_start);
         if release_start < zero {
             ads_value
-- 
2.43.0


From d023c74d6f3af9433f98d5d6a5d8f9351a6ce006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:20 +0000
Subject: [PATCH 44/48] fix: monotonic spline does not overshoot in descending
 segments

---
 src/math.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index d183ada..cbbdd4a 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -372,8 +372,12 @@ pub fn spline_mono<T: Num>(y0: T, y1: T, y2: T, y3: T, x: T) -> T {
     let d0 = y1 - y0;
     let d1 = y2 - y1;
     let d2 = y3 - y2;
-    let d1d = (signum(d0) + signum(d1)) * min(d0 + d1, min(abs(d0), abs(d1)));
-    let d2d = (signum(d1) + signum(d2)) * min(d1 + d2, min(abs(d1), abs(d2)));
+    let slope = |a: T, b: T| {
+        let center = abs(a + b) * T::from_f32(0.25);
+        (signum(a) + signum(b)) * min(center, min(abs(a), abs(b)))
+    };
+    let d1d = slope(d0, d1);
+    let d2d = slope(d1, d2);
     x * x * x * (T::new(2) * y1 - T::new(2) * y2 + d1d + d2d)
         + x * x * (T::new(-3) * y1 + T::new(3) * y2 - T::new(2) * d1d - d2d)
         + x * d1d
-- 
2.43.0


From 8367e41d5304bedc045ddac2bedee4487d69a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:20 +0000
Subject: [PATCH 45/48] fix: crush rounds the same in tick and block processing

---
 src/shape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 1f52e33..9050cba 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -128,7 +128,8 @@ pub struct Crush(pub f32);
 impl Shape for Crush {
     #[inline]
     fn shape(&mut self, input: f32) -> f32 {
-        (input * self.0).round() / self.0
+        // Round halves to even like the SIMD version.
+        libm::rintf(input * self.0) / self.0
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-- 
2.43.0


From 8df663b8a5796327f8b52b4260b357a173180a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:40 +0000
Subject: [PATCH 46/48] fix: floor and ceiling of SIMD vectors are exact

---
 src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 644e38b..ffc8e13 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -27,7 +27,7 @@ use core::marker::{Send, Sync};
 use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use core::ops::{BitAnd, BitOr, BitXor, Not, Shl, Shr};
 
-use wide::{f32x8, f64x4, i32x8, u32x8};
+use wide::{f32x8, f64x4, i32x8, u32x8, CmpGt, CmpLt};
 
 /// Type-level integer. These are notated as `U0`, `U1`...
 pub trait Size<T>: ArrayLength + Sync + Send + Clone {}
@@ -324,11 +324,13 @@ impl Num for F32x {
     }
     #[inline(always)]
     fn floor(self) -> Self {
-        (self - 0.4999999).round()
+        let x = self.round();
+        x - (x.cmp_gt(self) & Self::ONE)
     }
     #[inline(always)]
     fn ceil(self) -> Self {
-        (self + 0.4999999).round()
+        let x = self.round();
+        x + (x.cmp_lt(self) & Self::ONE)
     }
     #[inline(always)]
     fn round(self) -> Self {
@@ -381,11 +383,13 @@ impl Num for f64x4 {
     }
     #[inline(always)]
     fn floor(self) -> Self {
-        (self - 0.4999999).round()
+        let x = self.round();
+        x - (x.cmp_gt(self) & Self::ONE)
     }
     #[inline(always)]
     fn ceil(self) -> Self {
-        (self + 0.4999999).round()
+        let x = self.round();
+        x + (x.cmp_lt(self) & Self::ONE)
     }
     #[inline(always)]
     fn round(self) -> Self {
-- 
2.43.0


From 40e2cbf818d2880aedfa9e4835487884c4503fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:21 +0000
Subject: [PATCH 47/48] fix: nonlinear biquads pass the sample rate to their
 waveshapers

---
 src/biquad.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index d3174ca..0f8edd3 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -545,6 +545,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -688,6 +689,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedFbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -755,6 +757,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for DirtyBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -908,6 +912,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedDirtyBiquad<F, M, S
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-- 
2.43.0


From 85e07a871d763dbbc3399058595f967d24880337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:50 +0000
Subject: [PATCH 48/48] fix: Rossler and Lorenz oscillators stay bounded at
 high frequencies

---
 src/oscillator.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/oscillator.rs b/src/oscillator.rs
index 539e8bf..526cc75 100644
--- a/src/oscillator.rs
+++ b/src/oscillator.rs
@@ -355,13 +355,18 @@ impl AudioNode for Rossler {
 
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-        let dx = -self.y - self.z;
-        let dy = self.x + 0.15 * self.y;
-        let dz = 0.2 + self.z * (self.x - 10.0);
         let dt = 2.91 * input[0] / self.sr;
-        self.x += dx * dt;
-        self.y += dy * dt;
-        self.z += dz * dt;
+        // The system diverges if integration steps are too long.
+        let steps = (ceil(abs(dt) / 0.07) as usize).clamp(1, 64);
+        let dt = dt / steps as f32;
+        for _ in 0..steps {
+            let dx = -self.y - self.z;
+            let dy = self.x + 0.15 * self.y;
+            let dz = 0.2 + self.z * (self.x - 10.0);
+            self.x += dx * dt;
+            self.y += dy * dt;
+            self.z += dz * dt;
+        }
         [self.x * 0.05757].into()
     }
 
@@ -414,13 +419,18 @@ impl AudioNode for Lorenz {
 
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-        let dx = 10.0 * (self.y - self.x);
-        let dy = self.x * (28.0 - self.z) - self.y;
-        let dz = self.x * self.y - (8.0 / 3.0) * self.z;
         let dt = input[0] / self.sr;
-        self.x += dx * dt;
-        self.y += dy * dt;
-        self.z += dz * dt;
+        // The system diverges if integration steps are too long.
+        let steps = (ceil(abs(dt) / 0.02) as usize).clamp(1, 64);
+        let dt = dt / steps as f32;
+        for _ in 0..steps {
+            let dx = 10.0 * (self.y - self.x);
+            let dy = self.x * (28.0 - self.z) - self.y;
+            let dz = self.x * self.y - (8.0 / 3.0) * self.z;
+            self.x += dx * dt;
+            self.y += dy * dt;
+            self.z += dz * dt;
+        }
         [self.x * 0.05107].into()
     }
 
-- 
2.43.0

