From 077994880de3e36cd8589ea224915c5ee8de84a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 01/18] verification hooks guarded by cfg(nbvm_verif)

---
 src/bytecode.rs | 9 +++++++++
 src/lib.rs      | 2 ++
 src/process.rs  | 9 +++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 6a24123..acbbffa 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -2729,3 +2729,12 @@ impl ByteCode {
         self.code.len() + self.data.len()
     }
 }
+
+/// Verification hook (compiled only with `--cfg nbvm_verif`): gives the contract harnesses of an external directory access to this module's private items.
+#[cfg(nbvm_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("NBVM_VERIF_DIR"), "/bytecode.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 560ab7c..d5ba738 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,6 +3,8 @@
 
 #![recursion_limit = "256"]
 
+#![allow(unexpected_cfgs)] // `nbvm_verif` guards the verification hooks and is never set by a normal build
+
 #![doc = include_str!("../README.md")]
 
 #[cfg(feature = "std")]
diff --git a/src/process.rs b/src/process.rs
index 705ee2f..98f0aa0 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -2093,3 +2093,12 @@ mod ops {
         Ok(None)
     }
 }
+
+/// Verification hook (compiled only with `--cfg nbvm_verif`): gives the contract harnesses of an external directory access to this module's private items.
+#[cfg(nbvm_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("NBVM_VERIF_DIR"), "/process.rs"));
+}
-- 
2.43.0


From 703f0714a7c7f40e873c372d948347ba5b491f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 02/18] fix: exclude the natural flag from the pitch when
 computing note frequency and name

---
 src/runtime.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..b8b1233 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1899,12 +1899,13 @@ impl Note {
     }
     /// Computes the frequency of the note in Hz.
     pub fn get_frequency(self) -> Number {
-        Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()
+        Number::new(440.0 * libm::exp2((self.get_midi().0 as f64 - 69.0) / 12.0)).unwrap()
     }
     /// Gets the (English) name of the note.
     pub fn get_name(self, prefer_sharps: bool) -> CompactString {
-        let octave = self.0 as i32 / 12 - 1;
-        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((self.0 as usize + 3) % 12).unwrap();
+        let value = self.get_midi().0;
+        let octave = value as i32 / 12 - 1;
+        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((value as usize + 3) % 12).unwrap();
         format_compact!("{note}{octave}")
     }
 }
-- 
2.43.0


From de87ee1852d6052b1679d76e8d5ebf52de06bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 03/18] fix: reject note names outside the midi range instead
 of wrapping around

---
 src/runtime.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index b8b1233..aea4393 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1885,13 +1885,13 @@ impl Note {
                 None => break,
             }
         }
-        let mut octave = octave?;
+        let mut octave = octave? as i64;
         if note >= 3 {
             octave -= 1;
         }
 
-        let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        let value = 21 + note as i64 + 12 * octave + delta as i64;
+        Self::from_midi(value.try_into().ok()?, natural)
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
-- 
2.43.0


From 5d1070210e837538fce2cac8cae1eccc6f385057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 04/18] fix: reject numeric notes of 256 and above instead of
 wrapping around

---
 src/process.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 98f0aa0..a0c693a 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1526,9 +1526,7 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            return vv.try_into().ok().and_then(|x| Note::from_midi(x, false)).ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
-- 
2.43.0


From bb9a8b932b41ff55f598fcf5f6465907509ca904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 05/18] fix: modulus of an exact multiple with opposite sign is
 zero rather than the divisor

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..47d7693 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,6 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let r = a % b;
+    if r.is_zero() || r.is_sign_positive() == b.is_sign_positive() { r } else { r + b }
 }
-- 
2.43.0


From d2b45a8056dc752cfe2a610f3cd117bacafc5247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 06/18] fix: allow a list to be indexed by itself when
 inserting, assigning or removing items instead of panicking

---
 src/process.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index a0c693a..54e9ae2 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len() + 1)?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +698,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +728,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From 61c53a0f9776cb3c54c981c21e3803bcd01f7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 07/18] fix: pass the coordinates of a point-towards-position
 block to the system in the right order

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 54e9ae2..dd4070b 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1443,8 +1443,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From d267e526cb9dc2275946eedd7d93569711427d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 08/18] fix: saturate the wake-up time of very long sleeps
 instead of overflowing

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index dd4070b..96b9da4 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1129,7 +1129,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From 53431bbff7f5271847f399f2e1f84b9c794ede7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 09/18] fix: apply the call depth limit to closure calls

---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 96b9da4..302e055 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -943,6 +943,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 self.pos = aft_pos;
             }
             Instruction::CallClosure { new_entity, args } => {
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 let (closure_pos, locals) = prep_call_closure(mc, &mut self.value_stack, args)?;
                 let entity = match new_entity {
                     false => self.call_stack.last().unwrap().entity,
-- 
2.43.0


From fb7c1f8ecbd9136a314c147f4a4d79a297913886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 10/18] fix: unescape the names of images and sounds received
 from netsblox

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index aea4393..a500d24 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -793,7 +793,7 @@ impl SimpleValue {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
                                         "center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
                                         "center-y" => center_y = Some(value.as_str().parse().ok().and_then(|y| Number::new(y).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "image" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:image/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadImage)?),
                                             _ => return Err(FromNetsBloxJsonError::BadImage),
@@ -815,7 +815,7 @@ impl SimpleValue {
                             loop {
                                 match tokenizer.next() {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "sound" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:audio/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadAudio)?),
                                             _ => return Err(FromNetsBloxJsonError::BadAudio),
-- 
2.43.0


From 1ec9721d75320287c4d7c5e983551e499d7b19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 11/18] fix: start queued runs of a script after its current
 run aborts itself

---
 src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..bcaa47e 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -389,6 +389,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
+                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
-- 
2.43.0


From 525f10ce9dfc1f5e4a22efba95ace75fe1c70a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 12/18] fix: stop-all also discards queued script runs

---
 src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index bcaa47e..cf86a5b 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -394,6 +394,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                     AbortMode::All => {
                         debug_assert!(!proc.is_running());
+                        for script in self.scripts.iter_mut() {
+                            script.stop_all(&mut self.state);
+                        }
                         self.state.processes.clear();
                         self.state.process_queue.clear();
                         ProjectStep::Normal
-- 
2.43.0


From 870969343fdbf5b482ade59de56cd8d70ae5ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 13/18] fix: a script broadcasting its own message no longer
 panics when other scripts also receive it

---
 src/project.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index cf86a5b..77cb78b 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -360,6 +360,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     ProjectStep::Normal
                 }
                 ProcessStep::Broadcast { msg_type, barrier, targets } => {
+                    let mut receivers = vec![]; // the dispatcher might be stopped by its own message, so gather all the receivers' states first
                     for i in 0..self.scripts.len() {
                         if let Event::LocalMessage { msg_type: recv_type } = &self.scripts[i].event.0 {
                             if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {
@@ -370,13 +371,15 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                                 }
 
                                 let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
-
-                                all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
-                                self.scripts[i].stop_all(&mut self.state);
-                                self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                                receivers.push((i, state));
                             }
                         }
                     }
+                    for (i, state) in receivers {
+                        all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
+                        self.scripts[i].stop_all(&mut self.state);
+                        self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                    }
                     self.state.process_queue.push_front(proc_key); // keep executing same process, if it was a wait, it'll yield next step
                     ProjectStep::Normal
                 }
-- 
2.43.0


From 67f8afc55292ee35228ef685be641230c966ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 14/18] fix: consume queued contexts after a process ends in
 the same step a message arrives

---
 src/project.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index 77cb78b..bb9b9ea 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -288,6 +288,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
             }
         }
 
+        let mut all_contexts_consumer = AllContextsConsumer::new(); // stepping a process can make contexts consumable again, even if a message was just delivered
+
         let (proc_key, proc) = loop {
             match self.state.process_queue.pop_front() {
                 None => {
-- 
2.43.0


From 3e6ad30874d4abd490fa908e0d57777c48536093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 15/18] fix: consume queued contexts after deleting a clone

---
 src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/project.rs b/src/project.rs
index bb9b9ea..bd9c3af 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -358,6 +358,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     debug_assert!(clone.borrow().original.is_some());
                     self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));
                     self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));
+                    all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                     self.state.process_queue.push_front(proc_key); // keep executing the same process as before
                     ProjectStep::Normal
                 }
-- 
2.43.0


From 4df8700fb095d8aaf8b1a96dbb2f5d6e90c1eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 16/18] verification hooks: private-item access for project,
 runtime, slotmap and util contracts (cfg nbvm_verif)

---
 src/lib.rs     | 1 +
 src/project.rs | 9 +++++++++
 src/runtime.rs | 9 +++++++++
 src/slotmap.rs | 9 +++++++++
 src/util.rs    | 9 +++++++++
 5 files changed, 37 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d5ba738..b880461 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,6 +53,7 @@ pub mod process;
 pub mod project;
 pub mod template;
 mod util;
+#[cfg(nbvm_verif)] #[doc(hidden)] pub use util::verif as util_verif;
 
 mod meta {
     include!(concat!(env!("OUT_DIR"), "/meta.rs"));
diff --git a/src/project.rs b/src/project.rs
index bd9c3af..f51ac46 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -436,3 +436,12 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
         self.state.global_context
     }
 }
+
+/// Verification hook (compiled only with `--cfg nbvm_verif`): gives the contract harnesses of an external directory access to this module's private items.
+#[cfg(nbvm_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("NBVM_VERIF_DIR"), "/project.rs"));
+}
diff --git a/src/runtime.rs b/src/runtime.rs
index a500d24..6e7fc1b 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1973,3 +1973,12 @@ pub trait System<C: CustomTypes<Self>>: 'static + Sized {
     /// If a message is received, a tuple of form `(msg_type, values, reply_key)` is returned.
     fn receive_message(&self) -> Option<IncomingMessage>;
 }
+
+/// Verification hook (compiled only with `--cfg nbvm_verif`): gives the contract harnesses of an external directory access to this module's private items.
+#[cfg(nbvm_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("NBVM_VERIF_DIR"), "/runtime.rs"));
+}
diff --git a/src/slotmap.rs b/src/slotmap.rs
index 2688fc6..0040c3e 100644
--- a/src/slotmap.rs
+++ b/src/slotmap.rs
@@ -375,3 +375,12 @@ fn test_slotmap() {
     assert_eq!(map.get(kv6).copied(), Some(12));
     assert_eq!(map.get(kv7).copied(), None);
 }
+
+/// Verification hook (compiled only with `--cfg nbvm_verif`): gives the contract harnesses of an external directory access to this module's private items.
+#[cfg(nbvm_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("NBVM_VERIF_DIR"), "/slotmap.rs"));
+}
diff --git a/src/util.rs b/src/util.rs
index 47d7693..8b289cb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -62,3 +62,12 @@ pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
     let r = a % b;
     if r.is_zero() || r.is_sign_positive() == b.is_sign_positive() { r } else { r + b }
 }
+
+/// Verification hook (compiled only with `--cfg nbvm_verif`): gives the contract harnesses of an external directory access to this module's private items.
+#[cfg(nbvm_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("NBVM_VERIF_DIR"), "/util.rs"));
+}
-- 
2.43.0


From 7e8439327a7983e4bd6b0911f3c5b5384b637ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 17/18] fix: report errors at the innermost located block

Instructions of a located block that come before a nested located block were
reported at the nested block, and the last instructions of a nested block that
ends together with its parent were reported at the parent.
---
 src/bytecode.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index acbbffa..52d648e 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1440,9 +1440,27 @@ struct ByteCodeBuilder<'a: 'b, 'b> {
     call_holes: Vec<(usize, &'a ast::FnRef, Option<&'a ast::Entity>)>, // (hole pos, function, entity)
     closure_holes: VecDeque<(usize, &'a [ast::VariableDef], &'a [ast::VariableRef], &'a [ast::Stmt], Option<&'a ast::Entity>)>, // (hole pos, params, captures, stmts, entity)
     ins_locations: BTreeMap<usize, &'a str>,
+    enclosing_locations: Vec<&'a str>, // locations of the blocks currently being compiled (innermost last)
     string_arena: &'b typed_arena::Arena<CompactString>,
 }
 impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
+    /// Starts recording a (potentially) located block.
+    /// Any instructions emitted so far that have yet to be given a location belong to the block which encloses it.
+    fn begin_location(&mut self, location: Option<&'a str>) {
+        if let Some(location) = location {
+            if let Some(outer) = self.enclosing_locations.last() {
+                self.ins_locations.entry(self.ins.len()).or_insert(outer);
+            }
+            self.enclosing_locations.push(location);
+        }
+    }
+    /// Ends recording a (potentially) located block which was started with [`ByteCodeBuilder::begin_location`].
+    fn end_location(&mut self, location: Option<&'a str>) {
+        if let Some(location) = location {
+            self.enclosing_locations.pop();
+            self.ins_locations.entry(self.ins.len()).or_insert(location); // a nested block may end here as well, in which case it is the more local one
+        }
+    }
     fn append_simple_ins(&mut self, entity: Option<&'a ast::Entity>, values: &[&'a ast::Expr], op: Instruction<'a>) -> Result<(), CompileError<'a>> {
         for value in values {
             self.append_expr(value, entity)?;
@@ -1497,6 +1515,8 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         Ok(())
     }
     fn append_expr(&mut self, expr: &'a ast::Expr, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        self.begin_location(expr.info.location.as_deref());
+
         match &expr.kind {
             ast::ExprKind::Value(v) => self.append_value(v, entity)?,
             ast::ExprKind::Variable { var } => self.ins.push(Instruction::PushVariable { var: &var.trans_name }.into()),
@@ -1862,13 +1882,13 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedExpr { kind }),
         }
 
-        if let Some(location) = expr.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_location(expr.info.location.as_deref());
 
         Ok(())
     }
     fn append_stmt(&mut self, stmt: &'a ast::Stmt, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        self.begin_location(stmt.info.location.as_deref());
+
         match &stmt.kind {
             ast::StmtKind::Assign { var, value } => self.append_simple_ins(entity, &[value], Instruction::Assign { var: &var.trans_name })?,
             ast::StmtKind::AddAssign { var, value } => self.append_simple_ins(entity, &[value], Instruction::BinaryOpAssign { var: &var.trans_name, op: BinaryOp::Add })?,
@@ -2248,9 +2268,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedStmt { kind }),
         }
 
-        if let Some(location) = stmt.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_location(stmt.info.location.as_deref());
 
         Ok(())
     }
@@ -2465,6 +2483,7 @@ impl ByteCode {
             call_holes: Default::default(),
             closure_holes: Default::default(),
             ins_locations: Default::default(),
+            enclosing_locations: Default::default(),
             string_arena: &string_arena,
         };
 
-- 
2.43.0


From 510c88d89cceea6513dc39b940e2c25c98b3112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:19 +0000
Subject: [PATCH 18/18] fix: do not overflow when condensing locations with
 very distant numbers

---
 src/bytecode.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 52d648e..18b93d3 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1329,10 +1329,13 @@ impl Locations {
 
         let mut value_data = Vec::with_capacity(value_map.len());
         let mut locs = Vec::with_capacity(value_map.len());
-        for (pos, toks) in value_map {
+        for ((pos, toks), &loc) in value_map.into_iter().zip(orig_locs.values()) {
             locs.push((pos, value_data.len()));
             for tok in toks {
-                encode_u64((tok - base_token + 1) as u64, &mut value_data, None);
+                match (tok.wrapping_sub(base_token) as u64).checked_add(1) {
+                    Some(v) => encode_u64(v, &mut value_data, None),
+                    None => return Err(CompileError::InvalidLocation { loc }),
+                }
             }
             encode_u64(0, &mut value_data, None); // null terminator
         }
@@ -1377,7 +1380,7 @@ impl Locations {
                 res.push_str(&self.separator);
             }
             first = false;
-            write!(res, "{}", v as isize - 1 + self.base_token).unwrap();
+            write!(res, "{}", (v as isize).wrapping_sub(1).wrapping_add(self.base_token)).unwrap();
         }
         res.push_str(&self.suffix);
         Some(res)
-- 
2.43.0

