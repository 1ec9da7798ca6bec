From 265eb3b20953fa729793cd16c441c472f918cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 01/20] fix: reject quorum certificates whose vote weight is
 not above 2/3

---
 src/state/parallel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 25bac20..4693523 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -5,6 +5,7 @@ use creep::Context;
 use futures::channel::mpsc::UnboundedSender;
 use muta_apm::derive::tracing_span;
 
+use crate::error::ConsensusError;
 use crate::types::{Address, AggregatedVote, OverlordMsg};
 use crate::utils::auth_manage::AuthorityManage;
 use crate::{Codec, ConsensusResult, Crypto};
@@ -98,7 +99,11 @@ fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
-    authority_manage.is_above_threshold(addr_bitmap)?;
+    if !authority_manage.is_above_threshold(addr_bitmap)? {
+        return Err(ConsensusError::AggregatedSignatureErr(
+            "vote weight is not above threshold".to_string(),
+        ));
+    }
     authority_manage.get_voters(addr_bitmap)
 }
 
-- 
2.43.0


From f65c725099d7e90f38b00f0a5badc6c2c65e4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 02/20] fix: never queue an unverified future message as a
 verified one

---
 src/state/process.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e4586c4..e703a03 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -136,8 +136,13 @@ where
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
+                            // Cache it now: once queued as verified, it could be handled after
+                            // self has reached its height, without ever being verified.
                             Ordering::Less => {
-                                let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
+                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                    self.report_error(ctx, e.clone());
+                                    log::error!("Overlord: state {:?} error", e);
+                                }
                             }
                             Ordering::Equal => {
                                 parallel_verify(
-- 
2.43.0


From 08883eb8b49403b7a84f6a5e19cbf8acd441931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/20] fix: a stop message stops the process instead of
 panicking on its height

---
 src/state/process.rs | 4 ++--
 src/timer.rs         | 5 ++---
 src/types.rs         | 4 ++++
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e703a03..6a9b9bb 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -132,7 +132,7 @@ where
                 raw = raw_rx.next() => {
                     let (ctx, msg) = raw.expect("Overlord message handler dropped");
 
-                    if msg.is_rich_status() {
+                    if msg.is_rich_status() || msg.is_stop() {
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
@@ -201,7 +201,7 @@ where
         ctx: Context,
         raw: OverlordMsg<T>,
     ) -> ConsensusResult<()> {
-        if !self.consensus_power && !raw.is_rich_status() {
+        if !self.consensus_power && !raw.is_rich_status() && !raw.is_stop() {
             return Ok(());
         }
 
diff --git a/src/timer.rs b/src/timer.rs
index a2c26ba..1989414 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -39,10 +39,9 @@ impl Stream for Timer {
                 Poll::Pending => true,
 
                 Poll::Ready(event) => {
+                    // SMR has stopped, there is no more timer to set.
                     if event.is_none() {
-                        return Poll::Ready(Some(ConsensusError::TimerErr(
-                            "Channel dropped".to_string(),
-                        )));
+                        return Poll::Ready(None);
                     }
 
                     let event = event.unwrap();
diff --git a/src/types.rs b/src/types.rs
index 469eea6..3ab1d2d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -100,6 +100,10 @@ impl<T: Codec> OverlordMsg<T> {
         matches!(self, OverlordMsg::RichStatus(_))
     }
 
+    pub(crate) fn is_stop(&self) -> bool {
+        matches!(self, OverlordMsg::Stop)
+    }
+
     pub(crate) fn get_height(&self) -> u64 {
         match self {
             OverlordMsg::SignedProposal(sp) => sp.proposal.height,
-- 
2.43.0


From 4ddf9e1ff878a41e0c39f418188559692447a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/20] fix: verify the vote QC carried by a choke before using
 it

---
 src/state/process.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 6a9b9bb..9f36bc0 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1209,11 +1209,17 @@ where
 
         if choke_round > self.round {
             match choke.from {
-                UpdateFrom::PrevoteQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
-                }
-                UpdateFrom::PrecommitQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                // The signature of a choke does not cover the QC it carries.
+                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
+                    parallel_verify(
+                        ctx,
+                        OverlordMsg::AggregatedVote(qc),
+                        Arc::clone(&self.util),
+                        self.authority.clone(),
+                        self.verify_sig_tx.clone(),
+                    )
+                    .await;
+                    return Ok(());
                 }
                 UpdateFrom::ChokeQC(qc) => return self.handle_aggregated_choke(qc),
             }
-- 
2.43.0


From 7f8a5a5d7b3079319926c1d7e556aecb3abed391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 05/20] fix: verify the voters and the signature of an
 aggregated choke

---
 src/state/process.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 9f36bc0..6a001cf 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1234,6 +1234,22 @@ where
         &mut self,
         aggregated_choke: AggregatedChoke,
     ) -> ConsensusResult<()> {
+        if aggregated_choke.height != self.height {
+            return Err(ConsensusError::BrakeErr(
+                "choke qc height mismatch".to_string(),
+            ));
+        }
+
+        let mut voters = HashSet::new();
+        for voter in aggregated_choke.voters.iter() {
+            self.verify_address(voter)?;
+            if !voters.insert(voter.clone()) {
+                return Err(ConsensusError::BrakeErr(
+                    "duplicate voter in choke qc".to_string(),
+                ));
+            }
+        }
+
         // verify is above threshold.
         if aggregated_choke.len() * 3 <= self.authority.len() * 2 {
             return Err(ConsensusError::BrakeErr(
@@ -1242,6 +1258,16 @@ where
         }
 
         let choke = aggregated_choke.to_hash();
+        self.util
+            .verify_aggregated_signature(
+                aggregated_choke.signature.clone(),
+                self.util.hash(Bytes::from(rlp::encode(&choke))),
+                aggregated_choke.voters.clone(),
+            )
+            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;
+        let next_round = choke.round.checked_add(1).ok_or_else(|| {
+            ConsensusError::BrakeErr("choke qc round overflow".to_string())
+        })?;
         self.chokes.set_qc(choke.round, aggregated_choke);
 
         self.state_machine.trigger(SMRTrigger {
@@ -1249,7 +1275,7 @@ where
             source: TriggerSource::State,
             hash: Hash::new(),
             lock_round: None,
-            round: choke.round + 1,
+            round: next_round,
             height: self.height,
             wal_info: None,
         })?;
-- 
2.43.0


From e0064648ae2b39b4bfef6a18a2758f94ab29f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 06/20] fix: do not count the chokes of nodes outside the
 authority list

---
 src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 6a001cf..f63b1ea 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1191,6 +1191,8 @@ where
         let choke_height = choke.height;
         let choke_round = choke.round;
 
+        self.verify_address(&signed_choke.address)?;
+
         // filter choke height ne self.height
         if choke_height != self.height {
             return Ok(());
-- 
2.43.0


From 8946d7b6de252418a198db7e53b72258a48f721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 07/20] fix: a PoLC must be a prevote QC of the proposed block
 in an earlier round

---
 src/state/process.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index f63b1ea..4b2bb7b 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -625,6 +625,15 @@ where
         // SMR. Otherwise, touch off SMR directly.
         let lock_round = if let Some(polc) = proposal.lock.clone() {
             log::debug!("Overlord: state receive a signed proposal with a lock");
+            let qc = &polc.lock_votes;
+            if !qc.is_prevote_qc()
+                || qc.height != proposal.height
+                || qc.round != polc.lock_round
+                || qc.block_hash != proposal.block_hash
+                || polc.lock_round >= proposal.round
+            {
+                return Err(ConsensusError::ProposalErr("Invalid PoLC".to_string()));
+            }
             Some(polc.lock_round)
         } else {
             None
-- 
2.43.0


From 2cac4221c1bc68315959c92dd101ce69eea16612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 08/20] fix: ignore the SMR events of a height or round that
 state has left

---
 src/state/process.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 4b2bb7b..93e0831 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -265,12 +265,17 @@ where
     pub(crate) async fn handle_event(&mut self, event: Option<SMREvent>) -> ConsensusResult<()> {
         match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
             SMREvent::NewRoundInfo {
+                height,
                 round,
                 lock_round,
                 lock_proposal,
                 from_where,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_new_round(round, lock_round, lock_proposal, from_where)
                     .await
@@ -281,10 +286,15 @@ where
             }
 
             SMREvent::PrevoteVote {
+                height,
+                round,
                 block_hash,
                 lock_round,
-                ..
             } => {
+                if height != self.height || round != self.round {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                     .await
@@ -295,10 +305,15 @@ where
             }
 
             SMREvent::PrecommitVote {
+                height,
+                round,
                 block_hash,
                 lock_round,
-                ..
             } => {
+                if height != self.height || round != self.round {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                     .await
-- 
2.43.0


From a09910c6a088acb5d2311b9cd6593733560ab8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 09/20] fix: sum the vote weights of a hash in u64

---
 src/state/process.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 93e0831..76553c9 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1187,11 +1187,11 @@ where
         );
 
         for (hash, set) in vote_map.iter() {
-            let mut acc = 0u32;
+            let mut acc = 0u64;
             for addr in set.iter() {
-                acc += self.authority.get_vote_weight(addr)?;
+                acc += u64::from(*self.authority.get_vote_weight(addr)?);
             }
-            if u64::from(acc) * 3 > threshold {
+            if acc * 3 > threshold {
                 return Ok(Some(hash.to_owned()));
             }
         }
-- 
2.43.0


From 04ada533b70816ebc58bdc85643a5af3cd563571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 10/20] fix: leader election must not overflow, nor divide by
 an empty authority list

---
 src/utils/auth_manage.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 5dd6644..e354fcf 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -62,9 +62,13 @@ impl AuthorityManage {
 
     /// Get the proposer address by a given seed.
     pub fn get_proposer(&self, height: u64, round: u64) -> ConsensusResult<Address> {
+        if self.address.is_empty() {
+            return Err(ConsensusError::Other("Empty authority list".to_string()));
+        }
+
         let index = if cfg!(feature = "random_leader") {
             get_random_proposer_index(
-                height + round,
+                height.wrapping_add(round),
                 &self.propose_weights,
                 self.propose_weight_sum,
             )
@@ -161,15 +165,15 @@ pub fn extract_voters(
 /// Get the leader address of the height and the round, the authority list MUST be sorted.
 pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
     authority_list.sort();
-    let mut weight_sum = 0;
+    let mut weight_sum = 0u64;
     let mut propose_weights = Vec::new();
     for node in authority_list.iter() {
-        weight_sum += node.propose_weight;
+        weight_sum += u64::from(node.propose_weight);
         propose_weights.push(node.propose_weight as u64);
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum as u64)
+        get_random_proposer_index(height.wrapping_add(round), &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
@@ -180,8 +184,8 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
 fn rotation_leader_index(height: u64, round: u64, authority_len: usize) -> usize {
     let len = authority_len as u32;
     let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;
-    let res = (height * prime_num + round) % (len as u64);
-    res as usize
+    let sum = u128::from(height) * u128::from(prime_num) + u128::from(round);
+    (sum % u128::from(len)) as usize
 }
 
 #[cfg(test)]
-- 
2.43.0


From 09a3055c884b67877e164128733fa106a295ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 11/20] fix: decoding malformed bytes returns an error instead
 of panicking

---
 src/codec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 1ae3ff1..592baec 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -445,7 +445,7 @@ impl Decodable for UpdateFrom {
                         let qc: AggregatedChoke = r.val_at(1)?;
                         UpdateFrom::ChokeQC(qc)
                     }
-                    _ => unreachable!(),
+                    _ => return Err(DecoderError::Custom("Invalid update from")),
                 };
                 Ok(res)
             }
@@ -502,6 +502,9 @@ impl<T: Codec> Decodable for WalInfo<T> {
                 let height: u64 = r.val_at(0)?;
                 let round: u64 = r.val_at(1)?;
                 let tmp: u8 = r.val_at(2)?;
+                if tmp > u8::from(Step::Commit) {
+                    return Err(DecoderError::Custom("Invalid step"));
+                }
                 let step = Step::from(tmp);
                 let lock = r.val_at(3)?;
                 let from: UpdateFrom = r.val_at(4)?;
-- 
2.43.0


From d679530505ce771de4fc2045f8cf560288d277e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 12/20] fix: do not truncate the round before capping the
 timeout coefficient

---
 src/timer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/timer.rs b/src/timer.rs
index 1989414..080985d 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -140,10 +140,7 @@ impl Timer {
 
         let mut interval = self.config.get_timeout(event.clone())?;
         if !is_brake_timer {
-            let mut coef = self.round as u32;
-            if coef > MAX_TIMEOUT_COEF {
-                coef = MAX_TIMEOUT_COEF;
-            }
+            let coef = self.round.min(u64::from(MAX_TIMEOUT_COEF)) as u32;
             interval *= 2u32.pow(coef);
         }
 
-- 
2.43.0


From 24ea6620e42f48ba48f7dc357ae59838dfc370e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 13/20] fix: an unchecked proposal must not replace the content
 of a checked block

---
 src/state/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 76553c9..15256d8 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -656,13 +656,16 @@ where
 
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
-        self.hash_with_block.insert(hash.clone(), proposal.content);
         self.proposals.insert(
             ctx.clone(),
             self.height,
             self.round,
             signed_proposal.clone(),
         )?;
+        // The content of a checked block must not be replaced by an unchecked one.
+        if !self.try_get_full_txs(&hash) {
+            self.hash_with_block.insert(hash.clone(), proposal.content);
+        }
 
         log::debug!(
             "Overlord: state trigger SMR proposal height {}, round {}, hash {:?}",
-- 
2.43.0


From d1a6014de44694025458d952a2b053392f89d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 14/20] fix: forget the block checks of the previous height

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 15256d8..e7e5a44 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -448,6 +448,7 @@ where
         self.proposals.flush(new_height - 1);
         self.votes.flush(new_height - 1);
         self.hash_with_block.clear();
+        self.is_full_transaction.clear();
         self.chokes.clear();
 
         // Re-check proposals that have been in the proposal collector, of the current height.
-- 
2.43.0


From 2d33806b6df25cfbc1b04cb336fc9064efb21570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 15/20] fix: a passed block check applies to the content that
 was checked

---
 src/state/process.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e7e5a44..dce6e26 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -363,6 +363,17 @@ where
             hex_encode(block_hash.clone())
         );
 
+        // The check passed for the content proposed in its round, which might have been replaced
+        // by the content of another proposal with the same hash since.
+        if resp.is_pass && !self.try_get_full_txs(&block_hash) {
+            if let Ok((sp, _)) = self.proposals.get(resp.height, resp.round) {
+                if sp.proposal.block_hash == block_hash {
+                    self.hash_with_block
+                        .insert(block_hash.clone(), sp.proposal.content);
+                }
+            }
+        }
+
         self.is_full_transaction
             .insert(block_hash.clone(), resp.is_pass);
 
@@ -567,11 +578,15 @@ where
             hex_encode(hash.clone())
         );
 
-        self.broadcast(
-            Context::new(),
-            OverlordMsg::SignedProposal(self.sign_proposal(proposal)?),
-        )
-        .await;
+        let signed_proposal = self.sign_proposal(proposal)?;
+        let _ = self.proposals.insert(
+            ctx.clone(),
+            self.height,
+            self.round,
+            signed_proposal.clone(),
+        );
+        self.broadcast(Context::new(), OverlordMsg::SignedProposal(signed_proposal))
+            .await;
 
         self.state_machine.trigger(SMRTrigger {
             trigger_type: TriggerType::Proposal,
-- 
2.43.0


From 028d6c555cb66c11a97e1f5fb1a6db66c4535b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 16/20] hook: export the private modules under
 cfg(overlord_verif)

---
 src/lib.rs       | 13 +++++++++++++
 src/state/mod.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 095c575..1d3bc29 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,8 @@
 #![deny(missing_docs)]
 #![recursion_limit = "512"]
 #![allow(clippy::mutable_key_type)]
+#![allow(unexpected_cfgs)]
+#![cfg_attr(overlord_verif, allow(missing_docs))]
 
 /// A module that impl rlp encodable and decodable trait for types that need to save wal.
 mod codec;
@@ -206,6 +208,17 @@ impl DurationConfig {
     }
 }
 
+/// The private modules, for the verification harness.
+#[cfg(overlord_verif)]
+pub mod verif {
+    pub use crate::smr::{smr_types, Event, SMRHandler, SMR};
+    pub use crate::state::verif::*;
+    pub use crate::timer::Timer;
+    pub use crate::utils::auth_manage::AuthorityManage;
+    pub use crate::utils::timer_config::TimerConfig;
+    pub use crate::wal::{SMRBase, WalInfo, WalLock};
+}
+
 #[cfg(test)]
 mod test {
     use super::DurationConfig;
diff --git a/src/state/mod.rs b/src/state/mod.rs
index f342f56..746554b 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -4,3 +4,53 @@ mod collection;
 mod parallel;
 ///
 pub mod process;
+
+/// The private parts of this module, for the verification harness.
+#[cfg(overlord_verif)]
+pub mod verif {
+    use futures::channel::mpsc::{UnboundedReceiver, UnboundedSender};
+    use std::sync::Arc;
+
+    pub use super::collection::{ChokeCollector, ProposalCollector, VoteCollector};
+    pub use super::parallel::parallel_verify;
+    pub use super::process::State;
+    use crate::smr::{Event, SMRHandler};
+    use crate::types::{Address, Node, OverlordMsg};
+    use crate::{Codec, Consensus, Context, Crypto, Wal};
+
+    type Msg<T> = (Context, OverlordMsg<T>);
+
+    /// Creates a state and runs it to its end.
+    #[allow(clippy::too_many_arguments)]
+    pub async fn run_state<T, F, C, W>(
+        smr: SMRHandler,
+        addr: Address,
+        init_height: u64,
+        interval: u64,
+        authority_list: Vec<Node>,
+        consensus: Arc<F>,
+        crypto: Arc<C>,
+        wal: Arc<W>,
+        raw: UnboundedReceiver<Msg<T>>,
+        event: Event,
+        verified: (UnboundedSender<Msg<T>>, UnboundedReceiver<Msg<T>>),
+    ) where
+        T: Codec + 'static,
+        F: Consensus<T> + 'static,
+        C: Crypto + Sync + 'static,
+        W: Wal,
+    {
+        let (mut state, resp) = State::new(
+            smr,
+            addr,
+            init_height,
+            interval,
+            authority_list,
+            verified.0,
+            consensus,
+            crypto,
+            wal,
+        );
+        state.run(raw, event, resp, verified.1).await
+    }
+}
-- 
2.43.0


From 049ac209ed6c7b39b2f7c7899146e77b3e702337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 17/20] fix: an outdated status returned by commit must not
 replace the authority list

---
 src/state/process.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index dce6e26..1e29415 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -847,6 +847,16 @@ where
             .await
             .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
 
+        // The authority list of an outdated status must not replace the current one.
+        if status.height <= height {
+            log::warn!(
+                "Overlord: commit returned an outdated status, height {}, self height {}",
+                status.height,
+                height
+            );
+            return Ok(());
+        }
+
         let mut auth_list = status.authority_list.clone();
         self.authority.update(&mut auth_list);
         let cost = Instant::now() - self.height_start;
-- 
2.43.0


From a863bab41369d1d800183ae6ec0a24e1e453048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 18/20] fix: a newer PoLC of the locked block itself is no
 reason to unlock

---
 src/smr/state_machine.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index d2ef0e8..c93089e 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -241,8 +241,12 @@ impl StateMachine {
                 log::debug!("Overlord: SMR handle proposal with a lock");
 
                 if lock_round > lock.round {
-                    self.remove_polc();
-                    self.set_proposal(proposal_hash);
+                    // A newer certificate of the locked block itself is no reason to unlock: the
+                    // block might have been committed, and self would vote for another one later.
+                    if proposal_hash != lock.hash {
+                        self.remove_polc();
+                        self.set_proposal(proposal_hash);
+                    }
                 } else if lock_round == lock.round && proposal_hash != self.block_hash {
                     return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
                 }
-- 
2.43.0


From 7539dcc558a3db399f0c5ec4bdf9c8ebebdd69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 19/20] fix: leave the old height behind even if the log fails
 on entering the new one

---
 src/state/process.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 1e29415..0a8e8c3 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -444,8 +444,6 @@ where
 
         log::info!("Overlord: state goto new height {}", self.height);
 
-        self.save_wal(Step::Propose, None).await?;
-
         // Update height and authority list.
         self.height_start = Instant::now();
         let mut auth_list = status.authority_list.clone();
@@ -473,6 +471,10 @@ where
             self.re_check_qcs(qcs).await?;
         }
 
+        // Self must have left the old height even if the log fails. Otherwise messages of the new
+        // height would be verified and counted with the old authority list.
+        self.save_wal(Step::Propose, None).await?;
+
         self.state_machine.new_height_status(status.into())?;
         Ok(())
     }
-- 
2.43.0


From 13ad8ddc82e48b3364ea5ed8ae7921bfb1b1a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:16 +0000
Subject: [PATCH 20/20] fix: a node started without its log must elect the
 leader of its height

---
 src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 0a8e8c3..1414996 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1785,6 +1785,8 @@ where
         let wal_info = self.load_wal().await?;
         if wal_info.is_none() {
             if self.height != INIT_HEIGHT {
+                // Self takes part in the height, so it needs to know who to send its votes to.
+                self.is_leader = self.is_proposer()?;
                 return self.wal_lost();
             } else {
                 return Ok(());
-- 
2.43.0

