From c906cd3ba349a67e5bf91ef727c7cae7ad2470f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 01/16] fix: keep messages cached for the next round across an
 echo round

---
 manul/src/session/session.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fc90233..e73c6ce 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,8 +119,12 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    // Messages for the following rounds received before this round started.
+    cached: CachedMessages<SP::Verifier>,
 }
 
+type CachedMessages<Verifier> = BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>;
+
 /// Possible non-erroneous results of finalizing a round.
 #[derive(Debug)]
 pub enum RoundOutcome<P: Protocol<SP::Verifier>, SP: SessionParameters> {
@@ -220,6 +224,7 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            cached: BTreeMap::new(),
         })
     }
 
@@ -422,7 +427,7 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from)
+        RoundAccumulator::new(&self.communication_info.expecting_messages_from, self.cached.clone())
     }
 
     fn terminate_inner(
@@ -493,9 +498,12 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
-            let session =
+            let mut cached = accum.cached;
+            let cached_messages = filter_messages(&mut cached, &round.as_ref().transition_info().id);
+            let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+            // The messages for the round following the echo round will be needed when the echo round is finalized.
+            session.cached = cached;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -518,7 +526,8 @@ where
                 // processing messages from the same node for the current round.
                 // So there might have been some new errors, and we need to check again
                 // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, &round_id)
+                let mut cached = accum.cached;
+                let cached_messages = filter_messages(&mut cached, &round_id)
                     .into_iter()
                     .filter(|message| !transcript.is_banned(message.from()))
                     .collect::<Vec<_>>();
@@ -559,7 +568,7 @@ pub struct RoundAccumulator<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     processing: BTreeSet<SP::Verifier>,
     payloads: BTreeMap<SP::Verifier, Payload>,
     artifacts: BTreeMap<SP::Verifier, Artifact>,
-    cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    cached: CachedMessages<SP::Verifier>,
     echo_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>,
     normal_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<NormalBroadcast>>,
     direct_messages: BTreeMap<SP::Verifier, SignedMessagePart<DirectMessage>>,
@@ -572,14 +581,14 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, cached: CachedMessages<SP::Verifier>) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
             processing: BTreeSet::new(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
-            cached: BTreeMap::new(),
+            cached,
             echo_broadcasts: BTreeMap::new(),
             normal_broadcasts: BTreeMap::new(),
             direct_messages: BTreeMap::new(),
@@ -805,13 +814,14 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
+/// Takes the messages for the given round out of the cache.
 fn filter_messages<Verifier>(
-    messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
+    messages: &mut CachedMessages<Verifier>,
     round_id: &RoundId,
 ) -> Vec<VerifiedMessage<Verifier>> {
     messages
-        .into_values()
-        .filter_map(|mut messages| messages.remove(round_id))
+        .values_mut()
+        .filter_map(|messages| messages.remove(round_id))
         .collect()
 }
 
-- 
2.43.0


From 6125c052d9ea5324904abfe6e0564680493afb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 02/16] fix: distinguish termination due to errors from a user
 decision

---
 manul/src/session/session.rs | 2 +-
 manul/src/session/tokio.rs   | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index e73c6ce..bbd1efc 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -466,7 +466,7 @@ where
     /// Will be usually called after receiving [`CanFinalize::Never`] from
     /// [`can_finalize`](`Self::can_finalize`).
     pub fn terminate_due_to_errors(self, accum: RoundAccumulator<P, SP>) -> Result<SessionReport<P, SP>, LocalError> {
-        self.terminate_inner(accum, false)
+        self.terminate_inner(accum, true)
     }
 
     /// Attempts to finalize the current round.
diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 34bcd31..cb1d580 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -143,7 +143,7 @@ where
                     message_in.ok_or_else(|| LocalError::new("The incoming message channel was closed unexpectedly"))?
                 },
                 _ = cancellation.cancelled() => {
-                    return session.terminate_due_to_errors(accum);
+                    return session.terminate(accum);
                 }
             };
 
@@ -277,6 +277,7 @@ where
             message_processing_tasks.push(message_processing);
         }
 
+        let mut cancelled = false;
         let can_finalize = loop {
             match session.can_finalize(&accum) {
                 CanFinalize::Yes => break true,
@@ -332,6 +333,7 @@ where
                     }
                 },
                 _ = cancellation.cancelled() => {
+                    cancelled = true;
                     break false;
                 }
             }
@@ -373,6 +375,10 @@ where
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
+        if cancelled {
+            return session_inner.terminate(accum);
+        }
+
         if !can_finalize {
             return session_inner.terminate_due_to_errors(accum);
         }
-- 
2.43.0


From 90c73983c4dfbf34200bee7235d4cf96aca096b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 03/16] fix: register mismatched broadcasts against the guilty
 party

---
 manul/src/session/session.rs    | 33 +++++++++++++++++++--------------
 manul/src/session/transcript.rs |  4 ++++
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index bbd1efc..72e5a00 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -637,14 +637,10 @@ where
         }
     }
 
-    fn register_provable_error(&mut self, from: &SP::Verifier, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
-        if self.provable_errors.insert(from.clone(), evidence).is_some() {
-            Err(LocalError::new(format!(
-                "A provable error for {from:?} is already registered",
-            )))
-        } else {
-            Ok(())
-        }
+    // Since several nodes can echo the conflicting broadcasts of the same guilty party,
+    // an evidence against it may be already present; one is enough.
+    fn register_provable_error(&mut self, guilty_party: &SP::Verifier, evidence: Evidence<P, SP>) {
+        self.provable_errors.entry(guilty_party.clone()).or_insert(evidence);
     }
 
     fn mark_processing(&mut self, message: &VerifiedMessage<SP::Verifier>) -> Result<(), LocalError> {
@@ -717,17 +713,20 @@ where
             BoxedReceiveError::InvalidDirectMessage(error) => {
                 let (_echo_broadcast, _normal_broadcast, direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_direct_message(&from, direct_message, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidEchoBroadcast(error) => {
                 let (echo_broadcast, _normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_echo_broadcast(&from, echo_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidNormalBroadcast(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_normal_broadcast(&from, normal_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::Protocol(boxed_error) => {
                 let (echo_broadcast, normal_broadcast, direct_message) = processed.message.into_parts();
@@ -740,7 +739,8 @@ where
                     boxed_error,
                     transcript,
                 )?;
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(&from, evidence);
+                Ok(())
             }
             BoxedReceiveError::Unprovable(error) => {
                 self.unprovable_errors.insert(from.clone(), error);
@@ -748,8 +748,13 @@ where
             }
             BoxedReceiveError::Echo(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
-                let evidence = Evidence::new_echo_round_error(&from, normal_broadcast, *error)?;
-                self.register_provable_error(&from, evidence)
+                let evidence = Evidence::<P, SP>::new_echo_round_error(&from, normal_broadcast, *error)?;
+                // Note that the guilty party may be different from the sender of the message.
+                let guilty_party = evidence.guilty_party().clone();
+                if !transcript.has_provable_error(&guilty_party) {
+                    self.register_provable_error(&guilty_party, evidence);
+                }
+                Ok(())
             }
             BoxedReceiveError::Local(error) => Err(error),
         }
diff --git a/manul/src/session/transcript.rs b/manul/src/session/transcript.rs
index 33f0187..2c2ac5f 100644
--- a/manul/src/session/transcript.rs
+++ b/manul/src/session/transcript.rs
@@ -170,6 +170,10 @@ where
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
 
+    pub fn has_provable_error(&self, from: &SP::Verifier) -> bool {
+        self.provable_errors.contains_key(from)
+    }
+
     pub fn echo_broadcasts(
         &self,
         round_id: &RoundId,
-- 
2.43.0


From fb1a70f3845d4cda799151fb931a14a03f40ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 04/16] fix: accept evidence of an invalid echo only if the
 echo is invalid

---
 manul/src/session/echo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index a9ff8c0..258fcfd 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -72,9 +72,16 @@ impl<Id: PartyId> InvalidEchoError<Id> {
             Err(MessageVerificationError::SignatureMismatch) => return Ok(()),
         };
 
+        // `metadata` belongs to the message with the echo pack,
+        // and the echoed messages are supposed to be from the corresponding main round.
+        let main_round_id = metadata
+            .round_id()
+            .non_echo()
+            .map_err(|_err| EvidenceError::InvalidEvidence("The attached message is not an echo pack".into()))?;
+
         // `from` sent us a correctly signed message but from another round or another session.
         // Provable fault of `from`.
-        if verified_echo.metadata() != metadata {
+        if verified_echo.metadata() != &MessageMetadata::new(metadata.session_id(), &main_round_id) {
             return Ok(());
         }
 
-- 
2.43.0


From 47f7e312c0d5d81f7d68edbcaab9efe1a3db7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 05/16] fix: check the guilty party in the mismatched
 broadcasts evidence

---
 manul/src/session/evidence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index fad53f0..6738e68 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -205,7 +205,7 @@ where
             EvidenceEnum::InvalidEchoBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidNormalBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidEcho(evidence) => evidence.verify::<SP>(&self.guilty_party, &format),
-            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(),
+            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(&self.guilty_party),
         }
     }
 }
@@ -253,8 +253,13 @@ pub struct MismatchedBroadcastsEvidence<Id> {
     error: MismatchedBroadcastsError<Id>,
 }
 
-impl<Id> MismatchedBroadcastsEvidence<Id> {
-    fn verify<SP: SessionParameters<Verifier = Id>>(&self) -> Result<(), EvidenceError> {
+impl<Id: PartyId> MismatchedBroadcastsEvidence<Id> {
+    fn verify<SP: SessionParameters<Verifier = Id>>(&self, verifier: &SP::Verifier) -> Result<(), EvidenceError> {
+        if self.error.guilty_party() != verifier {
+            return Err(EvidenceError::InvalidEvidence(
+                "The attached messages belong to a different party".into(),
+            ));
+        }
         self.error.verify_evidence::<SP>()
     }
 }
-- 
2.43.0


From e6530ae61afd3da6c5a0861fbdd1375eb4062407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 06/16] fix: drop messages of banned nodes when transitioning
 to an echo round

---
 manul/src/session/session.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 72e5a00..71723b3 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -499,7 +499,10 @@ where
                 accum.artifacts,
             ));
             let mut cached = accum.cached;
-            let cached_messages = filter_messages(&mut cached, &round.as_ref().transition_info().id);
+            let cached_messages = filter_messages(&mut cached, &round.as_ref().transition_info().id)
+                .into_iter()
+                .filter(|message| !transcript.is_banned(message.from()))
+                .collect::<Vec<_>>();
             let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
             // The messages for the round following the echo round will be needed when the echo round is finalized.
-- 
2.43.0


From e0c47fbb39acab626cdeac3712f779d0b3e25d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 07/16] fix: reject duplicates of messages delivered from the
 cache

---
 manul/src/session/session.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 71723b3..60ba0d0 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -121,6 +121,9 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     transcript: Transcript<P, SP>,
     // Messages for the following rounds received before this round started.
     cached: CachedMessages<SP::Verifier>,
+    // The senders of the messages for this round received before this round started,
+    // and returned to the user on finalization of the previous round.
+    already_received_from: BTreeSet<SP::Verifier>,
 }
 
 type CachedMessages<Verifier> = BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>;
@@ -225,6 +228,7 @@ where
             echo_round_info,
             transcript,
             cached: BTreeMap::new(),
+            already_received_from: BTreeSet::new(),
         })
     }
 
@@ -427,7 +431,11 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from, self.cached.clone())
+        RoundAccumulator::new(
+            &self.communication_info.expecting_messages_from,
+            &self.already_received_from,
+            self.cached.clone(),
+        )
     }
 
     fn terminate_inner(
@@ -507,6 +515,7 @@ where
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
             // The messages for the round following the echo round will be needed when the echo round is finalized.
             session.cached = cached;
+            session.already_received_from = cached_messages.iter().map(|message| message.from().clone()).collect();
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -535,8 +544,9 @@ where
                     .filter(|message| !transcript.is_banned(message.from()))
                     .collect::<Vec<_>>();
 
-                let session =
+                let mut session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+                session.already_received_from = cached_messages.iter().map(|message| message.from().clone()).collect();
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -584,11 +594,15 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, cached: CachedMessages<SP::Verifier>) -> Self {
+    fn new(
+        expecting_messages_from: &BTreeSet<SP::Verifier>,
+        already_received_from: &BTreeSet<SP::Verifier>,
+        cached: CachedMessages<SP::Verifier>,
+    ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
-            processing: BTreeSet::new(),
+            processing: already_received_from.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
             cached,
-- 
2.43.0


From 15c6ffeb2839b2f75b5fd13200df997f9615f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 08/16] fix: reject messages from nodes the round expects no
 messages from

---
 manul/src/session/session.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 60ba0d0..11937cd 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -347,6 +347,12 @@ where
             .simultaneous_rounds(self.echo_round_info.is_some())?;
 
         let message_for = if message_round_id == self.round_id() {
+            if !self.communication_info.expecting_messages_from.contains(from) {
+                let err = "No message from this party is expected in this round";
+                accum.register_unprovable_error(from, RemoteError::new(err))?;
+                trace!("[{key:?}] {err}");
+                return Ok(PreprocessOutcome::remote_error(err));
+            }
             if accum.message_is_being_processed(from) {
                 let err = "Message from this party is already being processed";
                 accum.register_unprovable_error(from, RemoteError::new(err))?;
@@ -507,9 +513,11 @@ where
                 accum.artifacts,
             ));
             let mut cached = accum.cached;
+            let expecting_messages_from = round.as_ref().communication_info().expecting_messages_from;
             let cached_messages = filter_messages(&mut cached, &round.as_ref().transition_info().id)
                 .into_iter()
                 .filter(|message| !transcript.is_banned(message.from()))
+                .filter(|message| expecting_messages_from.contains(message.from()))
                 .collect::<Vec<_>>();
             let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
@@ -538,10 +546,13 @@ where
                 // processing messages from the same node for the current round.
                 // So there might have been some new errors, and we need to check again
                 // if the sender is already banned.
+                // Similarly, we only now know who the new round is expecting the messages from.
                 let mut cached = accum.cached;
+                let expecting_messages_from = round.as_ref().communication_info().expecting_messages_from;
                 let cached_messages = filter_messages(&mut cached, &round_id)
                     .into_iter()
                     .filter(|message| !transcript.is_banned(message.from()))
+                    .filter(|message| expecting_messages_from.contains(message.from()))
                     .collect::<Vec<_>>();
 
                 let mut session =
-- 
2.43.0


From baed3ae395bcc5f0c5744dd94a9b4e7d5a8b6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 09/16] fix: do not wait for messages from banned nodes

---
 manul/src/session/session.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 11937cd..8af11f3 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -568,7 +568,7 @@ where
 
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
-        accum.can_finalize()
+        accum.can_finalize(&self.transcript)
     }
 }
 
@@ -625,14 +625,17 @@ where
         }
     }
 
-    fn can_finalize(&self) -> CanFinalize {
+    fn can_finalize(&self, transcript: &Transcript<P, SP>) -> CanFinalize {
         if self
             .expecting_messages_from
             .iter()
             .all(|key| self.payloads.contains_key(key))
         {
             CanFinalize::Yes
-        } else if !self.still_have_not_sent_messages.is_empty() {
+        } else if self.still_have_not_sent_messages.iter().any(|key| {
+            // A message from a banned node will be rejected, unless it is already being processed.
+            self.message_is_being_processed(key) || !(self.is_banned(key) || transcript.is_banned(key))
+        }) {
             CanFinalize::NotYet
         } else {
             CanFinalize::Never
-- 
2.43.0


From d05afd2495acef489d9a079a573d19fb03d33ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 10/16] fix: bind the part kind in message signatures

---
 manul/src/protocol.rs         |  2 +-
 manul/src/protocol/message.rs | 16 +++++++++++-----
 manul/src/session/message.rs  | 11 ++++++++---
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/manul/src/protocol.rs b/manul/src/protocol.rs
index 9a74c83..716e123 100644
--- a/manul/src/protocol.rs
+++ b/manul/src/protocol.rs
@@ -39,7 +39,7 @@ pub(crate) use dyn_round::{Artifact, BoxedReceiveError, DynRound, Payload};
 pub(crate) use evidence::EvidenceProtocolMessage;
 pub(crate) use message::{
     DirectMessage, DirectMessageError, DynProtocolMessage, EchoBroadcast, EchoBroadcastError, NormalBroadcast,
-    NormalBroadcastError, ProtocolMessagePart, ProtocolMessagePartHashable,
+    NormalBroadcastError, PartKind, ProtocolMessagePart, ProtocolMessagePartHashable,
 };
 pub(crate) use rng::BoxedRng;
 pub(crate) use round::NoType;
diff --git a/manul/src/protocol/message.rs b/manul/src/protocol/message.rs
index 09f3cf1..cf00876 100644
--- a/manul/src/protocol/message.rs
+++ b/manul/src/protocol/message.rs
@@ -129,6 +129,16 @@ pub(crate) enum PartKind {
     DirectMessage,
 }
 
+impl PartKind {
+    pub(crate) fn tag(self) -> u8 {
+        match self {
+            Self::EchoBroadcast => 0,
+            Self::NormalBroadcast => 1,
+            Self::DirectMessage => 2,
+        }
+    }
+}
+
 pub(crate) trait HasPartKind {
     const KIND: PartKind;
 }
@@ -137,11 +147,7 @@ pub(crate) trait HasPartKind {
 pub(crate) trait ProtocolMessagePartHashable: ProtocolMessagePart + HasPartKind {
     fn hash<D: Digest>(&self) -> digest::Output<D> {
         let mut digest = D::new_with_prefix(b"ProtocolMessagePart");
-        match Self::KIND {
-            PartKind::EchoBroadcast => digest.update([0u8]),
-            PartKind::NormalBroadcast => digest.update([1u8]),
-            PartKind::DirectMessage => digest.update([2u8]),
-        }
+        digest.update([Self::KIND.tag()]);
         match self.maybe_message().as_ref() {
             None => digest.update([0u8]),
             Some(payload) => {
diff --git a/manul/src/session/message.rs b/manul/src/session/message.rs
index 5463ce5..7e98f72 100644
--- a/manul/src/session/message.rs
+++ b/manul/src/session/message.rs
@@ -12,7 +12,7 @@ use super::{
     LocalError,
 };
 use crate::protocol::{
-    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, ProtocolMessagePartHashable, RoundId,
+    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, PartKind, ProtocolMessagePartHashable, RoundId,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
@@ -109,12 +109,16 @@ pub struct MessageWithMetadata<M> {
 
 fn message_digest<SP: SessionParameters>(
     metadata: &MessageMetadata,
+    part_kind: PartKind,
     message_part_hash: &[u8],
 ) -> Result<SP::Digest, LocalError> {
     let message_part_hash_len =
         u64::try_from(message_part_hash.as_ref().len()).expect("message part hash length does not exceed 18 exabytes");
     Ok(SP::Digest::new_with_prefix(b"SignedMessagePartDigest")
         .chain_update(SP::WireFormat::serialize(metadata)?)
+        // The signed hash can be separated from the message part (see `SignedMessageHash`),
+        // so the part kind must be bound by the signature directly.
+        .chain_update([part_kind.tag()])
         .chain_update(message_part_hash_len.to_be_bytes())
         .chain_update(message_part_hash))
 }
@@ -125,7 +129,7 @@ impl<M: ProtocolMessagePartHashable> MessageWithMetadata<M> {
         SP: SessionParameters,
     {
         let message_part_hash = self.message.hash::<SP::Digest>();
-        let digest = message_digest::<SP>(&self.metadata, &message_part_hash)?;
+        let digest = message_digest::<SP>(&self.metadata, M::KIND, &message_part_hash)?;
         Ok(digest)
     }
 }
@@ -369,6 +373,7 @@ impl<Verifier> VerifiedMessage<Verifier> {
     }
 }
 
+/// A signed hash of an echo broadcast.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub(crate) struct SignedMessageHash {
     signature: SerializedSignature,
@@ -389,7 +394,7 @@ impl SignedMessageHash {
     where
         SP: SessionParameters,
     {
-        let digest = message_digest::<SP>(&self.metadata, &self.message_part_hash)?;
+        let digest = message_digest::<SP>(&self.metadata, PartKind::EchoBroadcast, &self.message_part_hash)?;
         let signature = self.signature.deserialize::<SP>()?;
         verifier.verify_digest(digest, &signature)?;
         Ok(VerifiedMessageHash {
-- 
2.43.0


From 4290ee15e8fd99b1a8b65e34d1018efb56177baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 11/16] fix: drain the outgoing messages before joining the
 offloaded tasks

---
 manul/src/session/tokio.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index cb1d580..de10d14 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -341,25 +341,12 @@ where
 
         debug!("{my_id}: Finalizing the round {}", session.round_id());
 
-        // Join all the handles created in this iteration.
-
-        for message_creation_task in message_creation_tasks {
-            message_creation_task
-                .await
-                .map_err(|_err| LocalError::new("Failed to join a message creation task"))??;
-        }
-
-        for message_processing_task in message_processing_tasks {
-            message_processing_task
-                .await
-                .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
-        }
-
         // Drop our copies of `Sender`s to let the channels close.
         drop(outgoing_tx);
         drop(processed_tx);
 
-        // Send all the remaining messages
+        // Send all the remaining messages.
+        // This must happen before joining the tasks, since they may be waiting for the space in the channels.
         while let Some((message_out, artifact)) = outgoing_rx.recv().await {
             let from = message_out.from.clone();
             let to = message_out.to.clone();
@@ -372,6 +359,20 @@ where
 
         debug!("{my_id}: Sent out all remaining messages");
 
+        // Join all the handles created in this iteration.
+
+        for message_creation_task in message_creation_tasks {
+            message_creation_task
+                .await
+                .map_err(|_err| LocalError::new("Failed to join a message creation task"))??;
+        }
+
+        for message_processing_task in message_processing_tasks {
+            message_processing_task
+                .await
+                .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
+        }
+
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-- 
2.43.0


From 7558f640b9371632d939cf5e8ecf9bb8471b09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 12/16] fix: record the messages being processed when a session
 is cancelled

---
 manul/src/session/tokio.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index de10d14..fb03418 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -359,6 +359,11 @@ where
 
         debug!("{my_id}: Sent out all remaining messages");
 
+        // Account for the messages that were still being processed if the execution was cancelled.
+        while let Some(processed) = processed_rx.recv().await {
+            session.add_processed_message(&mut accum, processed)?;
+        }
+
         // Join all the handles created in this iteration.
 
         for message_creation_task in message_creation_tasks {
-- 
2.43.0


From f66920ae89a5b91c582861e2dda3d2208760bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 13/16] fix: allow run_sync() to execute sessions that send no
 messages

---
 manul/src/dev/run_sync.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/manul/src/dev/run_sync.rs b/manul/src/dev/run_sync.rs
index 5fd9c8f..b180525 100644
--- a/manul/src/dev/run_sync.rs
+++ b/manul/src/dev/run_sync.rs
@@ -213,6 +213,11 @@ where
     }
 
     loop {
+        if messages.is_empty() {
+            trace!("All messages delivered, exiting loop");
+            break;
+        }
+
         // Pick a random message and deliver it
         let message = messages.pop(rng);
 
@@ -247,11 +252,6 @@ where
             state
         };
         states.insert(message.to.clone(), new_state);
-
-        if messages.is_empty() {
-            trace!("All messages delivered, exiting loop");
-            break;
-        }
     }
 
     let mut reports = BTreeMap::new();
-- 
2.43.0


From 8616b3e5f816c1c8f09f4f349e745781daa4958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 14/16] fix: keep dispatching messages in run_async() when some
 sessions are finished

---
 manul/src/dev/tokio.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 944456e..1fc7c51 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -46,7 +46,10 @@ where
             let message_idx = rng.gen_range(0..messages.len());
             let outgoing = messages.swap_remove(message_idx);
 
-            txs.get(&outgoing.to)
+            // The channel will be closed if the destination has already finished its execution
+            // (for example, terminated because of errors), in which case the message is not needed anymore.
+            let _result = txs
+                .get(&outgoing.to)
                 .ok_or_else(|| {
                     LocalError::new(format!(
                         "Destination ({:?}) is missing in the map of channels",
@@ -57,8 +60,7 @@ where
                     from: outgoing.from,
                     message: outgoing.message,
                 })
-                .await
-                .map_err(|err| LocalError::new(format!("Could not sent an outgoing message: {err}")))?;
+                .await;
 
             // Give up execution so that the tasks could process messages.
             tokio::time::sleep(tokio::time::Duration::from_millis(0)).await;
-- 
2.43.0


From 09f435250b48e8a9a312af8b5f5a6a0485290552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 15/16] fix: do not panic when verifying a hostile evidence for
 a round without protocol errors

`NoProtocolErrors` can be deserialized, so a malicious party can construct
a protocol error evidence for a round that does not generate errors,
and crash everyone who tries to verify it.
---
 manul/src/protocol/evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/protocol/evidence.rs b/manul/src/protocol/evidence.rs
index 83ab481..bcbc7e9 100644
--- a/manul/src/protocol/evidence.rs
+++ b/manul/src/protocol/evidence.rs
@@ -272,7 +272,10 @@ where
         _shared_data: &<<Self::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData,
         _messages: EvidenceMessages<'_, Id, Self::Round>,
     ) -> Result<(), EvidenceError> {
-        panic!("Methods of `NoProtocolErrors` should not be called during normal operation.")
+        // The protocol would not create such an evidence, but one can be constructed and sent by a malicious party.
+        Err(EvidenceError::InvalidEvidence(
+            "The round does not generate protocol errors".into(),
+        ))
     }
 }
 
-- 
2.43.0


From d73bd157d82a484807408cb85cd1dfe1befc7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 16/16] fix: do not wait for space in a full channel in
 run_async's dispatcher

With more than about 100 parties the dispatcher could wait for space in the channel of a party
which is itself waiting for the dispatcher to take its outgoing message, and the execution hangs.
---
 manul/src/dev/tokio.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 1fc7c51..b1386fe 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -44,23 +44,33 @@ where
             // Pull a random message from the list,
             // to increase the chances that they are delivered out of order.
             let message_idx = rng.gen_range(0..messages.len());
-            let outgoing = messages.swap_remove(message_idx);
-
+            let MessageOut {
+                session_id,
+                from,
+                to,
+                message,
+            } = messages.swap_remove(message_idx);
+
+            let tx = txs
+                .get(&to)
+                .ok_or_else(|| LocalError::new(format!("Destination ({to:?}) is missing in the map of channels")))?;
+
+            // If there is no space in the destination's channel, leave the message for later.
+            // We cannot wait for the space to appear: the destination may itself be waiting
+            // for us to take its outgoing messages before it takes the incoming ones.
+            //
             // The channel will be closed if the destination has already finished its execution
             // (for example, terminated because of errors), in which case the message is not needed anymore.
-            let _result = txs
-                .get(&outgoing.to)
-                .ok_or_else(|| {
-                    LocalError::new(format!(
-                        "Destination ({:?}) is missing in the map of channels",
-                        outgoing.to
-                    ))
-                })?
-                .send(MessageIn {
-                    from: outgoing.from,
-                    message: outgoing.message,
-                })
-                .await;
+            if let Err(mpsc::error::TrySendError::Full(MessageIn { from, message })) =
+                tx.try_send(MessageIn { from, message })
+            {
+                messages.push(MessageOut {
+                    session_id,
+                    from,
+                    to,
+                    message,
+                });
+            }
 
             // Give up execution so that the tasks could process messages.
             tokio::time::sleep(tokio::time::Duration::from_millis(0)).await;
-- 
2.43.0

