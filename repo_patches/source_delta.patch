From da0fb781ae1234828f4f98d70ad589f62b2a16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 01/18] fix: report errors-driven termination as
 NotEnoughMessages

Session::terminate_due_to_errors() produced SessionOutcome::Terminated.
run_session() relied on it for cancellation, which is a user decision.
---
 manul/src/session/session.rs | 2 +-
 manul/src/session/tokio.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fc90233..d0eb37e 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -461,7 +461,7 @@ where
     /// Will be usually called after receiving [`CanFinalize::Never`] from
     /// [`can_finalize`](`Self::can_finalize`).
     pub fn terminate_due_to_errors(self, accum: RoundAccumulator<P, SP>) -> Result<SessionReport<P, SP>, LocalError> {
-        self.terminate_inner(accum, false)
+        self.terminate_inner(accum, true)
     }
 
     /// Attempts to finalize the current round.
diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 34bcd31..1dafb9d 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -143,7 +143,7 @@ where
                     message_in.ok_or_else(|| LocalError::new("The incoming message channel was closed unexpectedly"))?
                 },
                 _ = cancellation.cancelled() => {
-                    return session.terminate_due_to_errors(accum);
+                    return session.terminate(accum);
                 }
             };
 
-- 
2.43.0


From a8e16b5c95e6087b644dd1a880d04ec04844e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 02/18] fix: par_run_session() reports cancellation as a user
 termination

---
 manul/src/session/tokio.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 1dafb9d..cb1d580 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -277,6 +277,7 @@ where
             message_processing_tasks.push(message_processing);
         }
 
+        let mut cancelled = false;
         let can_finalize = loop {
             match session.can_finalize(&accum) {
                 CanFinalize::Yes => break true,
@@ -332,6 +333,7 @@ where
                     }
                 },
                 _ = cancellation.cancelled() => {
+                    cancelled = true;
                     break false;
                 }
             }
@@ -373,6 +375,10 @@ where
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
+        if cancelled {
+            return session_inner.terminate(accum);
+        }
+
         if !can_finalize {
             return session_inner.terminate_due_to_errors(accum);
         }
-- 
2.43.0


From 4fc5c0e2c1136b876e32ffb0e380b743978d93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 03/18] fix: drain the internal channels before joining the
 tasks in par_run_session()

The channels are bounded, so a task could be blocked forever on sending into a full one
while the main task was waiting for it to finish. Results of the messages that were still
being processed are now recorded instead of being dropped.
---
 manul/src/session/tokio.rs | 44 +++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index cb1d580..a1ac5ba 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -341,6 +341,33 @@ where
 
         debug!("{my_id}: Finalizing the round {}", session.round_id());
 
+        // Drop our copies of `Sender`s to let the channels close.
+        drop(outgoing_tx);
+        drop(processed_tx);
+
+        // Send all the remaining messages, and record the results of those still being processed.
+        // The channels are bounded, so both have to be drained before waiting for the tasks to finish,
+        // otherwise a task may be blocked forever on sending into a full channel.
+        loop {
+            tokio::select! {
+                Some((message_out, artifact)) = outgoing_rx.recv() => {
+                    let from = message_out.from.clone();
+                    let to = message_out.to.clone();
+                    tx.send(message_out)
+                        .await
+                        .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",)))?;
+
+                    session.add_artifact(&mut accum, artifact)?;
+                }
+                Some(processed) = processed_rx.recv() => {
+                    session.add_processed_message(&mut accum, processed)?;
+                }
+                else => break,
+            }
+        }
+
+        debug!("{my_id}: Sent out all remaining messages");
+
         // Join all the handles created in this iteration.
 
         for message_creation_task in message_creation_tasks {
@@ -355,23 +382,6 @@ where
                 .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
         }
 
-        // Drop our copies of `Sender`s to let the channels close.
-        drop(outgoing_tx);
-        drop(processed_tx);
-
-        // Send all the remaining messages
-        while let Some((message_out, artifact)) = outgoing_rx.recv().await {
-            let from = message_out.from.clone();
-            let to = message_out.to.clone();
-            tx.send(message_out)
-                .await
-                .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",)))?;
-
-            session.add_artifact(&mut accum, artifact)?;
-        }
-
-        debug!("{my_id}: Sent out all remaining messages");
-
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-- 
2.43.0


From 0f4d08914cc8a0c5ec37682e17ed9802700decee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 04/18] fix: compare an allegedly invalid echo with the
 metadata of the main round

InvalidEchoError::verify_evidence() compared it with the metadata of the echo round,
which is never equal, so any correct echo could be used as evidence against its sender.
---
 manul/src/session/echo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index a9ff8c0..c8ed33b 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -64,6 +64,13 @@ impl<Id: PartyId> InvalidEchoError<Id> {
             ))
         })?;
 
+        // `metadata` belongs to the echo round message, and the echoed messages come from the main round.
+        let main_round_id = metadata
+            .round_id()
+            .non_echo()
+            .map_err(|_err| EvidenceError::InvalidEvidence("The attached message is not from an echo round".into()))?;
+        let expected_metadata = MessageMetadata::new(metadata.session_id(), &main_round_id);
+
         let verified_echo = match invalid_echo.clone().into_verified::<SP>(&self.invalid_echo_sender) {
             Ok(echo) => echo,
             Err(MessageVerificationError::Local(error)) => return Err(EvidenceError::Local(error)),
@@ -74,7 +81,7 @@ impl<Id: PartyId> InvalidEchoError<Id> {
 
         // `from` sent us a correctly signed message but from another round or another session.
         // Provable fault of `from`.
-        if verified_echo.metadata() != metadata {
+        if verified_echo.metadata() != &expected_metadata {
             return Ok(());
         }
 
-- 
2.43.0


From 0f17bd3f6d98d89d540406c448f54d0273ff0943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 05/18] fix: check the guilty party when verifying mismatched
 broadcasts evidence

The party the evidence was issued against was not compared with the signer of the attached
messages, so the evidence could be redirected to any party.
---
 manul/src/session/evidence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index fad53f0..6738e68 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -205,7 +205,7 @@ where
             EvidenceEnum::InvalidEchoBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidNormalBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidEcho(evidence) => evidence.verify::<SP>(&self.guilty_party, &format),
-            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(),
+            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(&self.guilty_party),
         }
     }
 }
@@ -253,8 +253,13 @@ pub struct MismatchedBroadcastsEvidence<Id> {
     error: MismatchedBroadcastsError<Id>,
 }
 
-impl<Id> MismatchedBroadcastsEvidence<Id> {
-    fn verify<SP: SessionParameters<Verifier = Id>>(&self) -> Result<(), EvidenceError> {
+impl<Id: PartyId> MismatchedBroadcastsEvidence<Id> {
+    fn verify<SP: SessionParameters<Verifier = Id>>(&self, verifier: &SP::Verifier) -> Result<(), EvidenceError> {
+        if self.error.guilty_party() != verifier {
+            return Err(EvidenceError::InvalidEvidence(
+                "The attached messages belong to a different party".into(),
+            ));
+        }
         self.error.verify_evidence::<SP>()
     }
 }
-- 
2.43.0


From c342ac5012f605e452d5e6a9674f8645e4474cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 06/18] fix: bind the kind of a message part to its signature

A signed hash of a direct message or of a normal broadcast of an honest node could be passed
for the hash of its echo broadcast, making it look like it sent contradictory broadcasts.
---
 manul/src/session/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/message.rs b/manul/src/session/message.rs
index 5463ce5..58b9284 100644
--- a/manul/src/session/message.rs
+++ b/manul/src/session/message.rs
@@ -107,13 +107,16 @@ pub struct MessageWithMetadata<M> {
     message: M,
 }
 
-fn message_digest<SP: SessionParameters>(
+fn message_digest<SP: SessionParameters, M: ProtocolMessagePartHashable>(
     metadata: &MessageMetadata,
     message_part_hash: &[u8],
 ) -> Result<SP::Digest, LocalError> {
     let message_part_hash_len =
         u64::try_from(message_part_hash.as_ref().len()).expect("message part hash length does not exceed 18 exabytes");
     Ok(SP::Digest::new_with_prefix(b"SignedMessagePartDigest")
+        // The hash alone can be sent to other nodes (see `SignedMessageHash`),
+        // so the kind of the message has to be authenticated without knowing the message itself.
+        .chain_update(SP::WireFormat::serialize(M::KIND)?)
         .chain_update(SP::WireFormat::serialize(metadata)?)
         .chain_update(message_part_hash_len.to_be_bytes())
         .chain_update(message_part_hash))
@@ -125,7 +128,7 @@ impl<M: ProtocolMessagePartHashable> MessageWithMetadata<M> {
         SP: SessionParameters,
     {
         let message_part_hash = self.message.hash::<SP::Digest>();
-        let digest = message_digest::<SP>(&self.metadata, &message_part_hash)?;
+        let digest = message_digest::<SP, M>(&self.metadata, &message_part_hash)?;
         Ok(digest)
     }
 }
@@ -389,7 +392,7 @@ impl SignedMessageHash {
     where
         SP: SessionParameters,
     {
-        let digest = message_digest::<SP>(&self.metadata, &self.message_part_hash)?;
+        let digest = message_digest::<SP, EchoBroadcast>(&self.metadata, &self.message_part_hash)?;
         let signature = self.signature.deserialize::<SP>()?;
         verifier.verify_digest(digest, &signature)?;
         Ok(VerifiedMessageHash {
-- 
2.43.0


From 4d0ed7bdcfda2e21d09b2046eb96f453a0d90a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 07/18] fix: register provable errors under the guilty party

Evidence of mismatched broadcasts was registered under the node that reported the mismatch,
banning it instead of the guilty party.
---
 manul/src/session/session.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index d0eb37e..7113930 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -628,14 +628,12 @@ where
         }
     }
 
-    fn register_provable_error(&mut self, from: &SP::Verifier, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
-        if self.provable_errors.insert(from.clone(), evidence).is_some() {
-            Err(LocalError::new(format!(
-                "A provable error for {from:?} is already registered",
-            )))
-        } else {
-            Ok(())
-        }
+    // Note that the guilty party is not necessarily the sender of the message that triggered the error,
+    // so the same party may be reported several times; one piece of evidence is enough.
+    fn register_provable_error(&mut self, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
+        let guilty_party = evidence.guilty_party().clone();
+        self.provable_errors.entry(guilty_party).or_insert(evidence);
+        Ok(())
     }
 
     fn mark_processing(&mut self, message: &VerifiedMessage<SP::Verifier>) -> Result<(), LocalError> {
@@ -708,17 +706,17 @@ where
             BoxedReceiveError::InvalidDirectMessage(error) => {
                 let (_echo_broadcast, _normal_broadcast, direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_direct_message(&from, direct_message, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence)
             }
             BoxedReceiveError::InvalidEchoBroadcast(error) => {
                 let (echo_broadcast, _normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_echo_broadcast(&from, echo_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence)
             }
             BoxedReceiveError::InvalidNormalBroadcast(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_normal_broadcast(&from, normal_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence)
             }
             BoxedReceiveError::Protocol(boxed_error) => {
                 let (echo_broadcast, normal_broadcast, direct_message) = processed.message.into_parts();
@@ -731,7 +729,7 @@ where
                     boxed_error,
                     transcript,
                 )?;
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence)
             }
             BoxedReceiveError::Unprovable(error) => {
                 self.unprovable_errors.insert(from.clone(), error);
@@ -740,7 +738,7 @@ where
             BoxedReceiveError::Echo(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_echo_round_error(&from, normal_broadcast, *error)?;
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(evidence)
             }
             BoxedReceiveError::Local(error) => Err(error),
         }
-- 
2.43.0


From 54d616f6be044d00f90290886b05bf59df949ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 08/18] fix: do not deliver cached messages from banned parties
 to echo rounds

---
 manul/src/session/session.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 7113930..9b7830f 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -493,7 +493,7 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
+            let cached_messages = filter_messages(accum.cached, &round, &transcript);
             let session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
             return Ok(RoundOutcome::AnotherRound {
@@ -514,14 +514,7 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                // These messages could have been cached before
-                // processing messages from the same node for the current round.
-                // So there might have been some new errors, and we need to check again
-                // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, &round_id)
-                    .into_iter()
-                    .filter(|message| !transcript.is_banned(message.from()))
-                    .collect::<Vec<_>>();
+                let cached_messages = filter_messages(accum.cached, &round, &transcript);
 
                 let session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
@@ -803,13 +796,24 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
-fn filter_messages<Verifier>(
-    messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
-    round_id: &RoundId,
-) -> Vec<VerifiedMessage<Verifier>> {
+fn filter_messages<P, SP>(
+    messages: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    round: &BoxedRound<SP::Verifier, P>,
+    transcript: &Transcript<P, SP>,
+) -> Vec<VerifiedMessage<SP::Verifier>>
+where
+    P: Protocol<SP::Verifier>,
+    SP: SessionParameters,
+{
+    let round_id = round.as_ref().transition_info().id();
     messages
         .into_values()
-        .filter_map(|mut messages| messages.remove(round_id))
+        .filter_map(|mut messages| messages.remove(&round_id))
+        // These messages could have been cached before
+        // processing messages from the same node for the current round.
+        // So there might have been some new errors, and we need to check again
+        // if the sender is already banned.
+        .filter(|message| !transcript.is_banned(message.from()))
         .collect()
 }
 
-- 
2.43.0


From f9aed4f736d5a5d576f3d6aa515f70795748f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 09/18] fix: reject messages from parties not expected in the
 round

Processing such a message resulted in a LocalError, so any party could abort the session.
---
 manul/src/session/session.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 9b7830f..dc35d73 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -338,6 +338,12 @@ where
             .simultaneous_rounds(self.echo_round_info.is_some())?;
 
         let message_for = if message_round_id == self.round_id() {
+            if !accum.is_expected(from) {
+                let err = "Messages from this party are not expected in this round";
+                accum.register_unprovable_error(from, RemoteError::new(err))?;
+                trace!("[{key:?}] {err}");
+                return Ok(PreprocessOutcome::remote_error(err));
+            }
             if accum.message_is_being_processed(from) {
                 let err = "Message from this party is already being processed";
                 accum.register_unprovable_error(from, RemoteError::new(err))?;
@@ -599,6 +605,10 @@ where
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
 
+    fn is_expected(&self, from: &SP::Verifier) -> bool {
+        self.expecting_messages_from.contains(from)
+    }
+
     fn message_is_being_processed(&self, from: &SP::Verifier) -> bool {
         self.processing.contains(from)
     }
@@ -806,6 +816,7 @@ where
     SP: SessionParameters,
 {
     let round_id = round.as_ref().transition_info().id();
+    let expecting_messages_from = round.as_ref().communication_info().expecting_messages_from;
     messages
         .into_values()
         .filter_map(|mut messages| messages.remove(&round_id))
@@ -814,6 +825,7 @@ where
         // So there might have been some new errors, and we need to check again
         // if the sender is already banned.
         .filter(|message| !transcript.is_banned(message.from()))
+        .filter(|message| expecting_messages_from.contains(message.from()))
         .collect()
 }
 
-- 
2.43.0


From 00bb7effd40571977e6be0bf3567cb1fa58e38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 10/18] fix: count delivered cached messages as received

A second message from the same sender in the same round was accepted for processing,
and recording its result returned a LocalError.
---
 manul/src/session/session.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index dc35d73..6ae5b2e 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,6 +119,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    // The senders of the cached messages for this round handed out on its start.
+    received_from: BTreeSet<SP::Verifier>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -152,7 +154,7 @@ where
     {
         let first_round = entry_point.make_round(rng, session_id.as_ref(), &signer.verifying_key())?;
         let format = BoxedFormat::new::<SP::WireFormat>();
-        Self::new_for_next_round(rng, session_id, signer, format, first_round, Transcript::new())
+        Self::new_for_next_round(rng, session_id, signer, format, first_round, Transcript::new(), &[])
     }
 
     fn new_for_next_round(
@@ -162,6 +164,7 @@ where
         format: BoxedFormat,
         round: BoxedRound<SP::Verifier, P>,
         transcript: Transcript<P, SP>,
+        cached_messages: &[VerifiedMessage<SP::Verifier>],
     ) -> Result<Self, LocalError> {
         let verifier = signer.verifying_key();
 
@@ -220,6 +223,7 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            received_from: cached_messages.iter().map(|message| message.from().clone()).collect(),
         })
     }
 
@@ -428,7 +432,7 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from)
+        RoundAccumulator::new(&self.communication_info.expecting_messages_from, &self.received_from)
     }
 
     fn terminate_inner(
@@ -500,8 +504,15 @@ where
                 accum.artifacts,
             ));
             let cached_messages = filter_messages(accum.cached, &round, &transcript);
-            let session =
-                Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+            let session = Session::new_for_next_round(
+                rng,
+                self.session_id,
+                self.signer,
+                self.format,
+                round,
+                transcript,
+                &cached_messages,
+            )?;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -522,8 +533,15 @@ where
 
                 let cached_messages = filter_messages(accum.cached, &round, &transcript);
 
-                let session =
-                    Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+                let session = Session::new_for_next_round(
+                    rng,
+                    self.session_id,
+                    self.signer,
+                    self.format,
+                    round,
+                    transcript,
+                    &cached_messages,
+                )?;
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -571,11 +589,11 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, received_from: &BTreeSet<SP::Verifier>) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
-            processing: BTreeSet::new(),
+            processing: received_from.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
             cached: BTreeMap::new(),
-- 
2.43.0


From 79e0133eb21e42257d32456b636de5ee42a67905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 11/18] fix: keep the messages cached for later rounds when
 entering an echo round

---
 manul/src/session/session.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 6ae5b2e..1f73174 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -121,6 +121,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     transcript: Transcript<P, SP>,
     // The senders of the cached messages for this round handed out on its start.
     received_from: BTreeSet<SP::Verifier>,
+    // Messages for the rounds after this one that were cached during the previous round.
+    cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -224,6 +226,7 @@ where
             echo_round_info,
             transcript,
             received_from: cached_messages.iter().map(|message| message.from().clone()).collect(),
+            cached: BTreeMap::new(),
         })
     }
 
@@ -432,7 +435,11 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from, &self.received_from)
+        RoundAccumulator::new(
+            &self.communication_info.expecting_messages_from,
+            &self.received_from,
+            &self.cached,
+        )
     }
 
     fn terminate_inner(
@@ -503,8 +510,9 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round, &transcript);
-            let session = Session::new_for_next_round(
+            let mut cached = accum.cached;
+            let cached_messages = filter_messages(&mut cached, &round, &transcript);
+            let mut session = Session::new_for_next_round(
                 rng,
                 self.session_id,
                 self.signer,
@@ -513,6 +521,8 @@ where
                 transcript,
                 &cached_messages,
             )?;
+            // Other nodes could have already sent messages for the round following the echo round.
+            session.cached = cached;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -531,7 +541,8 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                let cached_messages = filter_messages(accum.cached, &round, &transcript);
+                let mut cached = accum.cached;
+                let cached_messages = filter_messages(&mut cached, &round, &transcript);
 
                 let session = Session::new_for_next_round(
                     rng,
@@ -589,14 +600,18 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, received_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(
+        expecting_messages_from: &BTreeSet<SP::Verifier>,
+        received_from: &BTreeSet<SP::Verifier>,
+        cached: &BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
             processing: received_from.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
-            cached: BTreeMap::new(),
+            cached: cached.clone(),
             echo_broadcasts: BTreeMap::new(),
             normal_broadcasts: BTreeMap::new(),
             direct_messages: BTreeMap::new(),
@@ -825,7 +840,7 @@ impl<Verifier> PreprocessOutcome<Verifier> {
 }
 
 fn filter_messages<P, SP>(
-    messages: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    messages: &mut BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
     round: &BoxedRound<SP::Verifier, P>,
     transcript: &Transcript<P, SP>,
 ) -> Vec<VerifiedMessage<SP::Verifier>>
@@ -836,8 +851,8 @@ where
     let round_id = round.as_ref().transition_info().id();
     let expecting_messages_from = round.as_ref().communication_info().expecting_messages_from;
     messages
-        .into_values()
-        .filter_map(|mut messages| messages.remove(&round_id))
+        .values_mut()
+        .filter_map(|messages| messages.remove(&round_id))
         // These messages could have been cached before
         // processing messages from the same node for the current round.
         // So there might have been some new errors, and we need to check again
-- 
2.43.0


From 797d735557a0213a40fbfd56a262818cdc638349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 12/18] fix: do not wait for messages from banned parties

Messages from them are rejected, so can_finalize() would keep returning NotYet forever.
---
 manul/src/session/session.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 1f73174..dd0809f 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -563,7 +563,7 @@ where
 
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
-        accum.can_finalize()
+        accum.can_finalize(&self.transcript)
     }
 }
 
@@ -620,14 +620,17 @@ where
         }
     }
 
-    fn can_finalize(&self) -> CanFinalize {
+    fn can_finalize(&self, transcript: &Transcript<P, SP>) -> CanFinalize {
         if self
             .expecting_messages_from
             .iter()
             .all(|key| self.payloads.contains_key(key))
         {
             CanFinalize::Yes
-        } else if !self.still_have_not_sent_messages.is_empty() {
+        } else if self.still_have_not_sent_messages.iter().any(|key| {
+            // No more messages will be accepted from banned parties
+            self.processing.contains(key) || !(self.is_banned(key) || transcript.is_banned(key))
+        }) {
             CanFinalize::NotYet
         } else {
             CanFinalize::Never
-- 
2.43.0


From 0d062bec94269711baab8dd03e776063ce7a7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 13/18] fix: include the parents of rounds followed by an echo
 round into simultaneous rounds

Late messages from the parent round led to a ban of their sender.
---
 manul/src/protocol/round_id.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/manul/src/protocol/round_id.rs b/manul/src/protocol/round_id.rs
index 9659c18..67bfac7 100644
--- a/manul/src/protocol/round_id.rs
+++ b/manul/src/protocol/round_id.rs
@@ -182,11 +182,10 @@ impl TransitionInfo {
     /// the parent rounds (if those nodes still are not finalized while we already are),
     /// and the sibling rounds (if some nodes went on a different path).
     pub(crate) fn simultaneous_rounds(&self, followed_by_echo_round: bool) -> Result<BTreeSet<RoundId>, LocalError> {
-        let mut result = if followed_by_echo_round {
-            BTreeSet::from([self.id.echo()?])
-        } else {
-            self.parents.clone()
-        };
+        let mut result = self.parents.clone();
+        if followed_by_echo_round {
+            result.insert(self.id.echo()?);
+        }
         result.extend(self.siblings.iter().cloned());
         result.extend(self.children.iter().cloned());
         Ok(result)
-- 
2.43.0


From 90efdda2ec63fab155822309e90d368f066c8be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 14/18] fix: do not panic on evidence of a protocol error in a
 round without protocol errors

---
 manul/src/protocol/evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/protocol/evidence.rs b/manul/src/protocol/evidence.rs
index 83ab481..2c1756f 100644
--- a/manul/src/protocol/evidence.rs
+++ b/manul/src/protocol/evidence.rs
@@ -272,7 +272,10 @@ where
         _shared_data: &<<Self::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData,
         _messages: EvidenceMessages<'_, Id, Self::Round>,
     ) -> Result<(), EvidenceError> {
-        panic!("Methods of `NoProtocolErrors` should not be called during normal operation.")
+        // Can be called for a deserialized evidence, which may come from an untrusted source
+        Err(EvidenceError::InvalidEvidence(
+            "There are no provable errors in this round".into(),
+        ))
     }
 }
 
-- 
2.43.0


From cbb4d40c643832d03a07979351faf5eefda74089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 15/18] fix: do not panic in run_sync() if no messages are sent

---
 manul/src/dev/run_sync.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/manul/src/dev/run_sync.rs b/manul/src/dev/run_sync.rs
index 5fd9c8f..bac8bc6 100644
--- a/manul/src/dev/run_sync.rs
+++ b/manul/src/dev/run_sync.rs
@@ -212,7 +212,7 @@ where
         states.insert(verifier, state);
     }
 
-    loop {
+    while !messages.is_empty() {
         // Pick a random message and deliver it
         let message = messages.pop(rng);
 
@@ -247,13 +247,10 @@ where
             state
         };
         states.insert(message.to.clone(), new_state);
-
-        if messages.is_empty() {
-            trace!("All messages delivered, exiting loop");
-            break;
-        }
     }
 
+    trace!("All messages delivered, exiting loop");
+
     let mut reports = BTreeMap::new();
     for (verifier, state) in states {
         let report = match state {
-- 
2.43.0


From 945799de4e8c7b4094a1a83e1b536b0d4b38d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 16/18] fix: treat round IDs from a wrong group in evidence as
 invalid evidence

Evidence may come from an untrusted source, so it is not a local error.
---
 manul/src/combinators/chain.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/manul/src/combinators/chain.rs b/manul/src/combinators/chain.rs
index 4204fa3..77c0e17 100644
--- a/manul/src/combinators/chain.rs
+++ b/manul/src/combinators/chain.rs
@@ -86,17 +86,23 @@ where
     pub protocol2: <C::Protocol2 as Protocol<Id>>::SharedData,
 }
 
-fn ungroup(expected_group: GroupNum, round_id: &RoundId) -> Result<RoundId, LocalError> {
-    let (group, round_id) = round_id.split_group()?;
+// The round IDs here come from evidence, that is from a possibly untrusted source.
+fn ungroup(expected_group: GroupNum, round_id: &RoundId) -> Result<RoundId, EvidenceError> {
+    let (group, round_id) = round_id
+        .split_group()
+        .map_err(|_err| EvidenceError::InvalidEvidence(format!("{round_id} is not in a group")))?;
     if group != expected_group {
-        return Err(LocalError::new(format!(
+        return Err(EvidenceError::InvalidEvidence(format!(
             "Expected round ID from group {expected_group}, got round {round_id} from a different group: {group}"
         )));
     }
     Ok(round_id)
 }
 
-fn ungroup_map<T>(expected_group: GroupNum, grouped: BTreeMap<RoundId, T>) -> Result<BTreeMap<RoundId, T>, LocalError> {
+fn ungroup_map<T>(
+    expected_group: GroupNum,
+    grouped: BTreeMap<RoundId, T>,
+) -> Result<BTreeMap<RoundId, T>, EvidenceError> {
     grouped
         .into_iter()
         .map(|(round_id, value)| ungroup(expected_group, &round_id).map(|round_id| (round_id, value)))
-- 
2.43.0


From 7c3ed3172ef9e15c95201ff9a9129b285ffef5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 17/18] fix: keep messages cached for a later round across a
 round change

---
 manul/src/session/session.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index dd0809f..fafb759 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -544,7 +544,7 @@ where
                 let mut cached = accum.cached;
                 let cached_messages = filter_messages(&mut cached, &round, &transcript);
 
-                let session = Session::new_for_next_round(
+                let mut session = Session::new_for_next_round(
                     rng,
                     self.session_id,
                     self.signer,
@@ -553,6 +553,8 @@ where
                     transcript,
                     &cached_messages,
                 )?;
+                // The round these messages are for may not be the one we are transitioning to right now.
+                session.cached = cached;
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
-- 
2.43.0


From 4250863ef8b9ba2c53c278676b4f07a1274b8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 18/18] fix: run_async() cannot deadlock on full channels

The message dispatcher waited for room in a node's incoming channel without receiving,
while that node could be waiting for the dispatcher to receive its outgoing message.
---
 manul/src/dev/tokio.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 944456e..5fb36c8 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -46,19 +46,26 @@ where
             let message_idx = rng.gen_range(0..messages.len());
             let outgoing = messages.swap_remove(message_idx);
 
-            txs.get(&outgoing.to)
-                .ok_or_else(|| {
-                    LocalError::new(format!(
-                        "Destination ({:?}) is missing in the map of channels",
-                        outgoing.to
-                    ))
-                })?
-                .send(MessageIn {
-                    from: outgoing.from,
-                    message: outgoing.message,
-                })
-                .await
-                .map_err(|err| LocalError::new(format!("Could not sent an outgoing message: {err}")))?;
+            let tx = txs.get(&outgoing.to).ok_or_else(|| {
+                LocalError::new(format!(
+                    "Destination ({:?}) is missing in the map of channels",
+                    outgoing.to
+                ))
+            })?;
+
+            // The channels are bounded, so keep receiving while waiting for the destination to have room,
+            // otherwise it may itself be waiting for us to receive its outgoing message.
+            let permit = loop {
+                tokio::select! {
+                    permit = tx.reserve() => break permit,
+                    Some(msg) = rx.recv() => messages.push(msg),
+                }
+            }
+            .map_err(|err| LocalError::new(format!("Could not sent an outgoing message: {err}")))?;
+            permit.send(MessageIn {
+                from: outgoing.from,
+                message: outgoing.message,
+            });
 
             // Give up execution so that the tasks could process messages.
             tokio::time::sleep(tokio::time::Duration::from_millis(0)).await;
-- 
2.43.0

