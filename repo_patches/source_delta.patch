From 190966d7b9a878398176100e00c3f23c433e8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 01/22] vsim: allow the simulator to skip oversized SWIFT3 dot
 product proofs (cfg(vsim) only)

---
 iris-mpc/src/lib.rs             | 12 ++++++++++++
 iris-mpc/src/swift3/protocol.rs |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index 752fb46..963fde9 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub(crate) mod aby3;
 pub(crate) mod aby3_mal;
 pub(crate) mod commitment;
@@ -11,3 +13,13 @@ pub(crate) mod swift3;
 pub(crate) mod tests;
 pub(crate) mod traits;
 pub(crate) mod types;
+
+/// Hooks for the deterministic simulator; compiled only with `--cfg vsim`.
+#[cfg(vsim)]
+pub mod vsim {
+    use std::cell::Cell;
+    thread_local! {
+        /// SWIFT3 proofs over more dot product terms than this are skipped (by all parties alike).
+        pub static MAX_DOT_PROOF: Cell<usize> = const { Cell::new(usize::MAX) };
+    }
+}
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 3cbf2f1..c1b97f6 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -790,6 +790,13 @@ where
     }
 
     async fn dot_verify(&mut self) -> Result<(), Error> {
+        #[cfg(vsim)]
+        if self.dot_proof.get_muls() * self.dot_proof.get_dot()
+            > crate::vsim::MAX_DOT_PROOF.with(|m| m.get())
+        {
+            return Ok(());
+        }
+
         let (l, m) = self.dot_proof.calc_params();
         self.dot_proof.set_parameters(l, m);
 
-- 
2.43.0


From c6c838776c7db6946a9c9a851cba4b41d56182f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 02/22] fix: compare SWIFT3 proof polynomials by value, not by
 their number of stored coefficients

---
 iris-mpc/src/dzkp/dot_proof.rs | 2 +-
 iris-mpc/src/dzkp/mul_proof.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/dzkp/dot_proof.rs b/iris-mpc/src/dzkp/dot_proof.rs
index 537e078..6cea3a4 100644
--- a/iris-mpc/src/dzkp/dot_proof.rs
+++ b/iris-mpc/src/dzkp/dot_proof.rs
@@ -452,7 +452,7 @@ where
 
         let pr_ = Self::g(thetas, f1, self.dot_size) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr_ - (pr1 + pr2)).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
diff --git a/iris-mpc/src/dzkp/mul_proof.rs b/iris-mpc/src/dzkp/mul_proof.rs
index 80d091a..ac72190 100644
--- a/iris-mpc/src/dzkp/mul_proof.rs
+++ b/iris-mpc/src/dzkp/mul_proof.rs
@@ -362,7 +362,7 @@ where
 
         let pr_ = Self::g(thetas, f1) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr_ - (pr1 + pr2)).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
-- 
2.43.0


From 53950517c9e9def2e3f3b1f1b8175491323b7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 03/22] fix: SPDZ-wise verification generates the AND triples
 that were not precomputed

---
 iris-mpc/src/spdzwise/protocol.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 731c3ed..04d1028 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -491,6 +491,12 @@ where
         }
         let (a, b, c) = self.triple_buffer.get_all();
         let len_ = std::cmp::max(len, 1usize << (20 - 7)); // Permute at least 2^(20) triples, as required for security
+        let available = self.prec_triples.len();
+        if available < len_ {
+            // Not enough triples were precomputed, so generate the missing ones now
+            let missing = self.generate_triples::<R>(len_ - available).await?;
+            self.prec_triples.extend(missing);
+        }
         let (mut x, mut y, mut z) = self.prec_triples.get(len_)?;
 
         // Permute the precomputed triples again
-- 
2.43.0


From 01ee5a278ffb11ab4c6b1b85ff1a738b33b9cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 04/22] fix: a failed verification makes the membership query
 return the error instead of panicking

---
 iris-mpc/src/iris/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index a62b616..07e100e 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -279,7 +279,7 @@ where
 
         let res = self.mpc.reduce_binary_or(bool_shares, chunk_size).await?;
 
-        self.mpc.verify().await.unwrap();
+        self.mpc.verify().await?;
         self.mpc.open_bit(res).await
     }
 }
-- 
2.43.0


From 6624e5b2d728b7de35447c0e7aab43ba9d030838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 05/22] fix: SPDZ-wise openings are cross-checked by the third
 party, so one party cannot alter an opened value

---
 iris-mpc/src/spdzwise/protocol.rs | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 04d1028..9408e91 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -876,30 +876,38 @@ where
         self.verifyqueue.push(share.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open(&mut self.aby3, share.get_value())
-        .await?;
+        let (a, b) = share.get_value().get_ab();
+        let c = self
+            .jmp_send_receive::<T::VerificationShare>(b.to_owned(), a.to_owned())
+            .await?;
+        self.jmp_verify().await?;
 
-        Ok(T::from_verificationshare(result))
+        Ok(T::from_verificationshare(
+            T::VerificationShare::from_sharetype(c + &a + &b),
+        ))
     }
 
     async fn open_many(&mut self, shares: VecTShare<T>) -> Result<Vec<T>, Error> {
         self.verifyqueue.extend(shares.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open_many(&mut self.aby3, shares.get_values())
-        .await?;
+        let (shares_a, shares_b): (Vec<_>, Vec<_>) = shares
+            .get_values()
+            .into_iter()
+            .map(|share| share.get_ab())
+            .unzip();
+
+        let shares_c = self
+            .jmp_send_receive_many::<T::VerificationShare>(&shares_b, &shares_a)
+            .await?;
+        self.jmp_verify().await?;
 
-        let result = result
+        let result = shares_c
             .into_iter()
-            .map(|r| T::from_verificationshare(r))
+            .zip(shares_a.iter().zip(shares_b.iter()))
+            .map(|(c, (a, b))| {
+                T::from_verificationshare(T::VerificationShare::from_sharetype(c + a + b))
+            })
             .collect();
 
         Ok(result)
-- 
2.43.0


From deac655291360f3f3eadd6debc2a26e6318a83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 06/22] fix: malformed bits from a peer are reported as a
 conversion error instead of a panic

---
 iris-mpc/src/aby3/utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 8adac11..f4e44d2 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -244,6 +244,13 @@ where
     if bytes.remaining() != n * ((T::K + 7) / 8) {
         return Err(Error::ConversionError);
     }
+    if T::K % 8 != 0 {
+        // Not every byte is a valid encoding, and the iterator cannot report errors
+        let mut check = bytes.to_owned();
+        for _ in 0..n {
+            T::take_from_bytes_mut(&mut check)?;
+        }
+    }
 
     Ok(RingBytesIter {
         bytes,
-- 
2.43.0


From b4ea2a80b696b6836d7c024c4b57cbe82fd36fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 07/22] vsim: let the simulator precompute fewer AND triples in
 runs without a cheating party (cfg(vsim) only)

---
 iris-mpc/src/lib.rs               | 9 +++++++++
 iris-mpc/src/spdzwise/protocol.rs | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index 963fde9..ecd9f28 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -21,5 +21,14 @@ pub mod vsim {
     thread_local! {
         /// SWIFT3 proofs over more dot product terms than this are skipped (by all parties alike).
         pub static MAX_DOT_PROOF: Cell<usize> = const { Cell::new(usize::MAX) };
+        /// Smallest number of 128 bit AND triples the SPDZ-wise cut-and-choose produces at once
+        /// (0: as shipped). Less secure but much faster; for runs without a cheating party.
+        pub static MIN_TRIPLES: Cell<usize> = const { Cell::new(0) };
+    }
+    pub(crate) fn triples(requested: usize, shipped: usize) -> usize {
+        match MIN_TRIPLES.with(|m| m.get()) {
+            0 => shipped,
+            min => std::cmp::max(requested, min),
+        }
     }
 }
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 9408e91..c10cd67 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -333,6 +333,8 @@ where
         const N: usize = 1usize << (20 - 7); // # of 128 bit registers, corresponds to 2^20 AND GATES
                                              // Here we have C=128 which is significantly more than required for security
         let n = std::cmp::max(num, N);
+        #[cfg(vsim)]
+        let n = crate::vsim::triples(num, n);
         let a = (0..2 * n + 1)
             .map(|_| self.aby3.prf.gen_rand::<u128>())
             .collect::<Vec<_>>();
@@ -491,6 +493,8 @@ where
         }
         let (a, b, c) = self.triple_buffer.get_all();
         let len_ = std::cmp::max(len, 1usize << (20 - 7)); // Permute at least 2^(20) triples, as required for security
+        #[cfg(vsim)]
+        let len_ = crate::vsim::triples(len, len_);
         let available = self.prec_triples.len();
         if available < len_ {
             // Not enough triples were precomputed, so generate the missing ones now
-- 
2.43.0


From d01354e7baff1c518d0112d3bede7ea423d03cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 08/22] vsim: hook for a cheating party's additive errors

---
 iris-mpc/src/aby3/random/prf.rs   |  4 ++++
 iris-mpc/src/lib.rs               | 17 ++++++++++++++++-
 iris-mpc/src/swift3/random/prf.rs |  2 ++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/iris-mpc/src/aby3/random/prf.rs b/iris-mpc/src/aby3/random/prf.rs
index fd39877..324ea6c 100644
--- a/iris-mpc/src/aby3/random/prf.rs
+++ b/iris-mpc/src/aby3/random/prf.rs
@@ -53,6 +53,8 @@ impl Prf {
         Standard: Distribution<T::Share>,
     {
         let (a, b) = self.gen_rands::<T::Share>();
+        #[cfg(vsim)]
+        let a = a + crate::vsim::zero_share_error::<T::Share>();
         a - b
     }
 
@@ -61,6 +63,8 @@ impl Prf {
         Standard: Distribution<T::Share>,
     {
         let (a, b) = self.gen_rands::<T::Share>();
+        #[cfg(vsim)]
+        let a = a ^ crate::vsim::zero_share_error::<T::Share>();
         a ^ b
     }
 }
diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index ecd9f28..98f560d 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -17,13 +17,28 @@ pub(crate) mod types;
 /// Hooks for the deterministic simulator; compiled only with `--cfg vsim`.
 #[cfg(vsim)]
 pub mod vsim {
-    use std::cell::Cell;
+    use crate::types::ring_element::RingImpl;
+    use std::cell::{Cell, RefCell};
     thread_local! {
         /// SWIFT3 proofs over more dot product terms than this are skipped (by all parties alike).
         pub static MAX_DOT_PROOF: Cell<usize> = const { Cell::new(usize::MAX) };
         /// Smallest number of 128 bit AND triples the SPDZ-wise cut-and-choose produces at once
         /// (0: as shipped). Less secure but much faster; for runs without a cheating party.
         pub static MIN_TRIPLES: Cell<usize> = const { Cell::new(0) };
+        /// Asked for every zero share drawn: the error (0: none) a cheating party puts on it, that is
+        /// on its part of a product before it is reshared.
+        #[allow(clippy::type_complexity)]
+        pub static ZERO_SHARE_ERROR: RefCell<Option<Box<dyn FnMut() -> u128>>> = const { RefCell::new(None) };
+    }
+    pub(crate) fn zero_share_error<R: RingImpl>() -> R {
+        let mut res = R::zero();
+        let error = ZERO_SHARE_ERROR.with(|h| h.borrow_mut().as_mut().map(|h| h()));
+        if let Some(error) = error.filter(|e| *e != 0) {
+            for i in (0..R::K.min(128)).filter(|i| (error >> i) & 1 == 1) {
+                res ^= R::from(true) << i as u32;
+            }
+        }
+        res
     }
     pub(crate) fn triples(requested: usize, shipped: usize) -> usize {
         match MIN_TRIPLES.with(|m| m.get()) {
diff --git a/iris-mpc/src/swift3/random/prf.rs b/iris-mpc/src/swift3/random/prf.rs
index 5c2631c..34407d5 100644
--- a/iris-mpc/src/swift3/random/prf.rs
+++ b/iris-mpc/src/swift3/random/prf.rs
@@ -61,6 +61,8 @@ impl Prf {
     {
         let a = self.gen_1::<T::Share>();
         let b = self.gen_2::<T::Share>();
+        #[cfg(vsim)]
+        let a = a ^ crate::vsim::zero_share_error::<T::Share>();
 
         (a, b)
     }
-- 
2.43.0


From 2a4c69b8a2b816b48288c06ff120408c33a94ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:46 +0000
Subject: [PATCH 09/22] fix: SPDZ-wise inputs are sent to both other parties
 and compared, so neither of them can shift the input

---
 iris-mpc/src/spdzwise/protocol.rs | 65 +++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index c10cd67..9338a32 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -245,6 +245,30 @@ where
         Ok(())
     }
 
+    async fn reconstruct_id<T: Sharable>(
+        &mut self,
+        share: Aby3Share<T>,
+        id: usize,
+    ) -> Result<Option<T>, Error> {
+        let (a, b) = share.get_ab();
+        let my_id = self.get_id();
+
+        let opened = if my_id == id {
+            let c = self.jmp_receive::<T>().await?;
+            Some(T::from_sharetype(c + a + b))
+        } else {
+            if my_id == (id + 1) % 3 {
+                self.jmp_buffer::<T>(a);
+            } else {
+                self.jmp_send::<T>(b).await?;
+            }
+            None
+        };
+        self.jmp_verify().await?;
+
+        Ok(opened)
+    }
+
     async fn coin<R: Rng + SeedableRng>(&mut self) -> Result<R::Seed, Error>
     where
         Standard: Distribution<R::Seed>,
@@ -803,14 +827,41 @@ where
     }
 
     async fn input(&mut self, input: Option<T>, id: usize) -> Result<TShare<T>, Error> {
-        let input = input.map(|i| T::to_verificationshare(i));
+        if id >= self.aby3.network.get_num_parties() {
+            return Err(Error::IdError(id));
+        }
+        let my_id = self.get_id();
 
-        let value = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::input(&mut self.aby3, input, id)
-        .await?;
+        // A random value, opened towards the owner of the input only. Neither of the other parties
+        // can shift it: the owner gets its missing share from both of them.
+        let mut value = self.aby3.prf.gen_rand::<T::VerificationShare>();
+        let opened = self
+            .reconstruct_id::<T::VerificationShare>(value.to_owned(), id)
+            .await?;
+
+        // The owner sends the difference to its input, the others compare what they got.
+        let network = &mut self.aby3.network;
+        if let Some(opened) = opened {
+            let input = match input {
+                Some(x) => T::to_verificationshare(x).to_sharetype(),
+                None => return Err(Error::ValueError("Cannot share None".to_string())),
+            };
+            let diff = input - opened.to_sharetype();
+            utils::send_value_next(network, diff.to_owned()).await?;
+            utils::send_value(network, diff.to_owned(), (id + 2) % 3).await?;
+            value.a += diff;
+        } else {
+            let other = 3 - id - my_id;
+            let diff: UShare<T> = utils::receive_value(network, id).await?;
+            utils::send_value(network, diff.to_owned(), other).await?;
+            let diff_: UShare<T> = utils::receive_value(network, other).await?;
+            if diff != diff_ {
+                return Err(Error::VerifyError);
+            }
+            if my_id == (id + 1) % 3 {
+                value.b += diff;
+            }
+        }
 
         let r = self.get_r();
         let mac = <_ as MpcTrait<
-- 
2.43.0


From 93f4ba2fb12c28a5fa00148a2b9202da4997c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:46 +0000
Subject: [PATCH 10/22] fix: SWIFT3 setup checks that all parties got the same
 contributions to the common key

---
 iris-mpc/src/swift3/protocol.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index c1b97f6..5aabc30 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -1597,6 +1597,17 @@ where
             *r = b ^ a ^ c;
         }
 
+        // The third seed is shared by all parties: make sure that nobody contributed different values
+        // towards the two others.
+        let digest = Sha512::digest(seed3);
+        let digests = self
+            .network
+            .broadcast(Bytes::from(digest.to_vec()))
+            .await?;
+        if digests.iter().any(|d| d.as_ref() != digest.as_slice()) {
+            return Err(Error::VerifyError);
+        }
+
         if id == 1 {
             self.prf = Prf::new(seed2, seed1, seed3);
         } else {
-- 
2.43.0


From 35f6c182d36226b4002d6c7d6661ebec8c12cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 11/22] vsim: task spawning, timers and endpoint creation of
 mpc-net can be driven by a simulator (cfg(vsim) only)

---
 mpc-net/src/channel.rs |   2 +
 mpc-net/src/lib.rs     |   5 ++
 mpc-net/src/vsim.rs    | 134 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 141 insertions(+)
 create mode 100644 mpc-net/src/vsim.rs

diff --git a/mpc-net/src/channel.rs b/mpc-net/src/channel.rs
index 32c6862..6501c4a 100644
--- a/mpc-net/src/channel.rs
+++ b/mpc-net/src/channel.rs
@@ -1,3 +1,5 @@
+#[cfg(vsim)]
+use crate::vsim::tokio;
 use futures::{Sink, SinkExt, Stream, StreamExt};
 use std::{
     io::{self},
diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index 8f6ead8..1c46cfd 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -1,3 +1,6 @@
+#![allow(unexpected_cfgs)]
+#[cfg(vsim)]
+use crate::vsim::quinn;
 use std::{
     collections::{BTreeMap, HashMap},
     io,
@@ -23,6 +26,8 @@ pub mod codecs;
 
 pub mod channel;
 pub mod config;
+#[cfg(vsim)]
+pub mod vsim;
 
 #[derive(Debug)]
 pub struct MpcNetworkHandler {
diff --git a/mpc-net/src/vsim.rs b/mpc-net/src/vsim.rs
new file mode 100644
index 0000000..a05991f
--- /dev/null
+++ b/mpc-net/src/vsim.rs
@@ -0,0 +1,134 @@
+//! Seams for deterministic simulation, compiled only with `--cfg vsim`.
+//!
+//! The shims stand in for the crates of the same names: they re-export everything and replace only
+//! task spawning and endpoint creation, and those only if a simulator is installed on this thread.
+#![allow(unused)]
+use std::{cell::RefCell, future::Future, io, net::SocketAddr, pin::Pin, rc::Rc, time::Duration};
+
+pub type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
+type SpawnHook = Rc<dyn Fn(Task)>;
+type SleepHook = Rc<dyn Fn(Duration) -> Task>;
+type EndpointHook =
+    Rc<dyn Fn(Option<::quinn::ServerConfig>, SocketAddr) -> io::Result<::quinn::Endpoint>>;
+
+thread_local! {
+    static SPAWN: RefCell<Option<SpawnHook>> = const { RefCell::new(None) };
+    static SLEEP: RefCell<Option<SleepHook>> = const { RefCell::new(None) };
+    static ENDPOINT: RefCell<Option<EndpointHook>> = const { RefCell::new(None) };
+}
+
+/// Install a simulator on the current thread.
+pub fn install(spawn: SpawnHook, sleep: SleepHook, endpoint: EndpointHook) {
+    SPAWN.with(|s| *s.borrow_mut() = Some(spawn));
+    SLEEP.with(|s| *s.borrow_mut() = Some(sleep));
+    ENDPOINT.with(|e| *e.borrow_mut() = Some(endpoint));
+}
+
+/// Remove the simulator of the current thread.
+pub fn uninstall() {
+    SPAWN.with(|s| *s.borrow_mut() = None);
+    SLEEP.with(|s| *s.borrow_mut() = None);
+    ENDPOINT.with(|e| *e.borrow_mut() = None);
+}
+
+pub(crate) mod tokio {
+    pub use ::tokio::*;
+    use std::future::Future;
+
+    pub fn spawn<F>(future: F) -> task::JoinHandle<F::Output>
+    where
+        F: Future + Send + 'static,
+        F::Output: Send + 'static,
+    {
+        let (send, recv) = ::tokio::sync::oneshot::channel();
+        let work = async move {
+            let _ = send.send(future.await);
+        };
+        match super::SPAWN.with(|s| s.borrow().clone()) {
+            Some(hook) => hook(Box::pin(work)),
+            None => {
+                ::tokio::spawn(work);
+            }
+        }
+        task::JoinHandle(recv)
+    }
+
+    pub mod time {
+        pub use ::tokio::time::*;
+        use std::future::Future;
+
+        pub async fn sleep(duration: Duration) {
+            let simulated = super::super::SLEEP.with(|s| s.borrow().as_ref().map(|h| h(duration)));
+            match simulated {
+                Some(sleep) => sleep.await,
+                None => ::tokio::time::sleep(duration).await,
+            }
+        }
+
+        #[derive(Debug, PartialEq, Eq)]
+        pub struct Elapsed;
+
+        pub async fn timeout<F: Future>(
+            duration: Duration,
+            future: F,
+        ) -> Result<F::Output, Elapsed> {
+            let (sleep, future) = (Box::pin(sleep(duration)), Box::pin(future));
+            match futures::future::select(future, sleep).await {
+                futures::future::Either::Left((out, _)) => Ok(out),
+                futures::future::Either::Right(_) => Err(Elapsed),
+            }
+        }
+    }
+
+    pub mod task {
+        pub use super::spawn;
+        pub use ::tokio::task::*;
+
+        /// Yields the task's output, or an error if the task panicked.
+        #[derive(Debug)]
+        pub struct JoinHandle<T>(pub(super) ::tokio::sync::oneshot::Receiver<T>);
+
+        impl<T> std::future::Future for JoinHandle<T> {
+            type Output = Result<T, ::tokio::sync::oneshot::error::RecvError>;
+            fn poll(
+                mut self: std::pin::Pin<&mut Self>,
+                cx: &mut std::task::Context<'_>,
+            ) -> std::task::Poll<Self::Output> {
+                std::pin::Pin::new(&mut self.0).poll(cx)
+            }
+        }
+    }
+}
+
+pub(crate) mod quinn {
+    pub use ::quinn::*;
+    use std::{io, net::SocketAddr, ops::Deref};
+
+    #[derive(Debug, Clone)]
+    pub struct Endpoint(::quinn::Endpoint);
+
+    impl Endpoint {
+        pub fn server(config: ServerConfig, addr: SocketAddr) -> io::Result<Self> {
+            match super::ENDPOINT.with(|e| e.borrow().clone()) {
+                Some(hook) => hook(Some(config), addr).map(Endpoint),
+                None => ::quinn::Endpoint::server(config, addr).map(Endpoint),
+            }
+        }
+        pub fn client(addr: SocketAddr) -> io::Result<Self> {
+            match super::ENDPOINT.with(|e| e.borrow().clone()) {
+                Some(hook) => hook(None, addr).map(Endpoint),
+                None => ::quinn::Endpoint::client(addr).map(Endpoint),
+            }
+        }
+        pub fn set_default_client_config(&mut self, config: ClientConfig) {
+            self.0.set_default_client_config(config)
+        }
+    }
+
+    impl Deref for Endpoint {
+        type Target = ::quinn::Endpoint;
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+}
-- 
2.43.0


From d5ca0099f9f31b79ef97d29cc8c3eb6af2c23dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:30 +0000
Subject: [PATCH 12/22] fix: connection setup no longer fails when the id
 announcement's end arrives after its data

---
 mpc-net/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index 1c46cfd..b467a0b 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -132,6 +132,14 @@ impl MpcNetworkHandler {
                     );
                     let mut uni = conn.accept_uni().await?;
                     let other_party_id = uni.read_u32().await?;
+                    // read up to the end of the stream: dropping it before would stop it, which the
+                    // other party, still finishing it, would see as an error
+                    if uni.read(&mut [0u8]).await?.is_some() {
+                        return Err(eyre::eyre!(
+                            "unexpected data after the id of party {}",
+                            other_party_id
+                        ));
+                    }
                     assert!(connections
                         .insert(
                             usize::try_from(other_party_id).expect("u32 fits into usize"),
-- 
2.43.0


From 47ebafecf3c6bc14fb871f89dc3a05cd644ccafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 13/22] fix: finishing a session waits until the peers received
 everything that was sent

---
 iris-mpc/src/aby3/network.rs |  5 +++--
 mpc-net/src/channel.rs       | 27 ++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/iris-mpc/src/aby3/network.rs b/iris-mpc/src/aby3/network.rs
index cda2e8b..24397da 100644
--- a/iris-mpc/src/aby3/network.rs
+++ b/iris-mpc/src/aby3/network.rs
@@ -162,8 +162,9 @@ impl NetworkTrait for Aby3Network {
             handler,
             ..
         } = self;
-        drop(channel_recv);
-        drop(channel_send);
+        // closing the connections discards what the peers have not received yet, so wait for that; a
+        // peer which is already gone needs nothing more from us
+        let _ = tokio::join!(channel_recv.finish(), channel_send.finish());
 
         handler.shutdown().await;
         Ok(())
diff --git a/mpc-net/src/channel.rs b/mpc-net/src/channel.rs
index 6501c4a..bc2a68b 100644
--- a/mpc-net/src/channel.rs
+++ b/mpc-net/src/channel.rs
@@ -9,6 +9,7 @@ use std::{
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     sync::{mpsc, oneshot},
+    task::JoinHandle,
 };
 use tokio_util::codec::{Decoder, Encoder, FramedRead, FramedWrite, LengthDelimitedCodec};
 
@@ -131,6 +132,7 @@ struct ReadJob<MRecv> {
 pub struct ChannelHandle<MSend, MRecv> {
     write_job_queue: mpsc::Sender<WriteJob<MSend>>,
     read_job_queue: mpsc::Sender<ReadJob<MRecv>>,
+    write_worker: JoinHandle<Result<(), io::Error>>,
 }
 
 impl<MSend, MRecv> ChannelHandle<MSend, MRecv>
@@ -167,7 +169,7 @@ where
                 }
             }
         });
-        tokio::spawn(async move {
+        let write_worker = tokio::spawn(async move {
             while let Some(write_job) = write_recv.recv().await {
                 let write_result = write.send(write_job.data).await;
                 // we don't really care if the receiver for a write job is gone, as this is a common case
@@ -179,11 +181,34 @@ where
                     }
                 }
             }
+            // the handle is gone and everything queued is written, so end the stream
+            write.close().await
         });
 
         ChannelHandle {
             write_job_queue: write_send,
             read_job_queue: read_send,
+            write_worker,
+        }
+    }
+
+    /// Sends everything that is still queued and ends the stream. Over a network connection this
+    /// returns only once the peer has acknowledged all of it (or cannot be reached anymore), so that
+    /// the connection can be closed without taking back what was sent.
+    pub async fn finish(self) -> Result<(), io::Error> {
+        let Self {
+            write_job_queue,
+            read_job_queue,
+            write_worker,
+        } = self;
+        drop(write_job_queue);
+        drop(read_job_queue);
+        match write_worker.await {
+            Ok(result) => result,
+            Err(_) => Err(io::Error::new(
+                io::ErrorKind::BrokenPipe,
+                "ChannelHandle: send Channel is gone",
+            )),
         }
     }
 
-- 
2.43.0


From f897872e9cb9a8cdac450994cf5cc5c3eb3be0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 14/22] fix: connection setup refuses connections that announce
 an unknown or already connected id

An unknown id was taken for the id of a peer, leaving the real peer out, and an id announced twice
made the setup panic.
---
 mpc-net/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index b467a0b..83b49cf 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -2,7 +2,7 @@
 #[cfg(vsim)]
 use crate::vsim::quinn;
 use std::{
-    collections::{BTreeMap, HashMap},
+    collections::{BTreeMap, BTreeSet, HashMap},
     io,
     net::SocketAddr,
     sync::Arc,
@@ -90,6 +90,13 @@ impl MpcNetworkHandler {
         let server_endpoint = quinn::Endpoint::server(server_config.clone(), our_socket_addr)?;
 
         let mut connections = BTreeMap::new();
+        // the parties that connect to us
+        let mut expected_clients: BTreeSet<usize> = config
+            .parties
+            .iter()
+            .map(|p| p.id)
+            .filter(|&id| id > config.my_id)
+            .collect();
 
         for party in config.parties {
             if party.id == config.my_id {
@@ -140,12 +147,15 @@ impl MpcNetworkHandler {
                             other_party_id
                         ));
                     }
-                    assert!(connections
-                        .insert(
-                            usize::try_from(other_party_id).expect("u32 fits into usize"),
-                            conn
-                        )
-                        .is_none());
+                    let other_party_id =
+                        usize::try_from(other_party_id).expect("u32 fits into usize");
+                    if !expected_clients.remove(&other_party_id) {
+                        return Err(eyre::eyre!(
+                            "connection announces id {}, which is not a party still to connect to us",
+                            other_party_id
+                        ));
+                    }
+                    assert!(connections.insert(other_party_id, conn).is_none());
                 } else {
                     return Err(eyre::eyre!(
                         "server endpoint did not accept a connection from party {}",
-- 
2.43.0


From 3a6769b9e56cf4c27a27560b6451799f159d1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 15/22] fix: a malformed bincode message is an error and no
 longer a panic or a huge allocation

---
 mpc-net/src/codecs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpc-net/src/codecs.rs b/mpc-net/src/codecs.rs
index b520389..0462385 100644
--- a/mpc-net/src/codecs.rs
+++ b/mpc-net/src/codecs.rs
@@ -1,6 +1,6 @@
 use std::io;
 
-use bytes::{Buf, BufMut, BytesMut};
+use bytes::{BufMut, BytesMut};
 use serde::{de::DeserializeOwned, Serialize};
 use tokio_util::codec::{Decoder, Encoder, LengthDelimitedCodec};
 
@@ -62,9 +62,9 @@ where
             None => return Ok(None),
         };
 
-        let reader = buf.reader();
-
-        let result = bincode::deserialize_from::<_, M>(reader).map_err(|e| {
+        // from the slice and not through a reader, which would allocate whatever length a malformed
+        // message claims for a string or byte array
+        let result = bincode::deserialize::<M>(&buf).map_err(|e| {
             io::Error::new(
                 io::ErrorKind::Other,
                 format!("Failed to deserialize message with bincode: {}", e),
-- 
2.43.0


From d530daf9bb496e2985411d0550b236ac159c37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:25 +0000
Subject: [PATCH 16/22] fix: messages of more than 8 MiB were silently lost by
 the byte channels

The frame limit of the codec made the send fail, the party network does not look at the outcome of
sends, and the receiver waited forever: malicious ABY3 queries with the benchmarks' chunk size of
128 hung over a real network.
---
 mpc-net/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index 83b49cf..84ef525 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -196,7 +196,11 @@ impl MpcNetworkHandler {
     pub async fn get_byte_channels(
         &mut self,
     ) -> std::io::Result<HashMap<usize, BytesChannel<RecvStream, SendStream>>> {
-        self.get_custom_channels(LengthDelimitedCodec::new()).await
+        // the default limit of 8 MiB is too small for openings over a whole chunk of a database
+        let codec = LengthDelimitedCodec::builder()
+            .max_frame_length(u32::MAX as usize)
+            .new_codec();
+        self.get_custom_channels(codec).await
     }
 
     pub async fn get_serde_bincode_channels<M: Serialize + DeserializeOwned + 'static>(
-- 
2.43.0


From 9620f03e6db369348caa57b66886249caed59d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 17/22] vsim: hooks for a cheating party that learns challenges

---
 iris-mpc/src/aby3/random/prf.rs   |  4 ++--
 iris-mpc/src/aby3_mal/protocol.rs |  2 ++
 iris-mpc/src/lib.rs               | 27 ++++++++++++++++++++++-----
 iris-mpc/src/spdzwise/protocol.rs |  2 ++
 iris-mpc/src/swift3/protocol.rs   | 17 +++++++++++++++++
 iris-mpc/src/swift3/random/prf.rs |  2 --
 6 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/iris-mpc/src/aby3/random/prf.rs b/iris-mpc/src/aby3/random/prf.rs
index 324ea6c..f872990 100644
--- a/iris-mpc/src/aby3/random/prf.rs
+++ b/iris-mpc/src/aby3/random/prf.rs
@@ -54,7 +54,7 @@ impl Prf {
     {
         let (a, b) = self.gen_rands::<T::Share>();
         #[cfg(vsim)]
-        let a = a + crate::vsim::zero_share_error::<T::Share>();
+        let a = a + crate::vsim::zero_share_error::<T::Share>(false);
         a - b
     }
 
@@ -64,7 +64,7 @@ impl Prf {
     {
         let (a, b) = self.gen_rands::<T::Share>();
         #[cfg(vsim)]
-        let a = a ^ crate::vsim::zero_share_error::<T::Share>();
+        let a = a ^ crate::vsim::zero_share_error::<T::Share>(true);
         a ^ b
     }
 }
diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index aaca85a..79f5a1c 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -140,6 +140,8 @@ impl<N: NetworkTrait> MalAby3<N> {
         {
             *s1 ^= s3.0 ^ s2;
         }
+        #[cfg(vsim)]
+        crate::vsim::challenge(crate::vsim::Challenge::Coin(seed1.as_ref()));
 
         Ok(seed1)
     }
diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index 98f560d..dad5668 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -25,14 +25,31 @@ pub mod vsim {
         /// Smallest number of 128 bit AND triples the SPDZ-wise cut-and-choose produces at once
         /// (0: as shipped). Less secure but much faster; for runs without a cheating party.
         pub static MIN_TRIPLES: Cell<usize> = const { Cell::new(0) };
-        /// Asked for every zero share drawn: the error (0: none) a cheating party puts on it, that is
-        /// on its part of a product before it is reshared.
+        /// Asked for every zero share drawn (whether for a binary operation, number of bits): the error
+        /// (0: none) a cheating party puts on it, that is on its part of a product before it is reshared.
         #[allow(clippy::type_complexity)]
-        pub static ZERO_SHARE_ERROR: RefCell<Option<Box<dyn FnMut() -> u128>>> = const { RefCell::new(None) };
+        pub static ZERO_SHARE_ERROR: RefCell<Option<Box<dyn FnMut(bool, usize) -> u128>>> = const { RefCell::new(None) };
+        /// Told every challenge a party computes from values the parties exchanged, and every list of
+        /// challenges its own SWIFT3 AND proof is checked with.
+        #[allow(clippy::type_complexity)]
+        pub static CHALLENGE: RefCell<Option<Box<dyn FnMut(Challenge)>>> = const { RefCell::new(None) };
+    }
+    pub enum Challenge<'a> {
+        /// seed of a jointly chosen random value
+        Coin(&'a [u8]),
+        /// bits of the coefficients of the rows in the AND proof of this party
+        Thetas(Vec<u64>),
+    }
+    pub(crate) fn challenge(c: Challenge) {
+        CHALLENGE.with(|h| {
+            if let Some(h) = h.borrow_mut().as_mut() {
+                h(c)
+            }
+        });
     }
-    pub(crate) fn zero_share_error<R: RingImpl>() -> R {
+    pub(crate) fn zero_share_error<R: RingImpl>(binary: bool) -> R {
         let mut res = R::zero();
-        let error = ZERO_SHARE_ERROR.with(|h| h.borrow_mut().as_mut().map(|h| h()));
+        let error = ZERO_SHARE_ERROR.with(|h| h.borrow_mut().as_mut().map(|h| h(binary, R::K)));
         if let Some(error) = error.filter(|e| *e != 0) {
             for i in (0..R::K.min(128)).filter(|i| (error >> i) & 1 == 1) {
                 res ^= R::from(true) << i as u32;
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 9338a32..292fe49 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -290,6 +290,8 @@ where
         {
             *s1 ^= s3.0 ^ s2;
         }
+        #[cfg(vsim)]
+        crate::vsim::challenge(crate::vsim::Challenge::Coin(seed1.as_ref()));
 
         Ok(seed1)
     }
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 5aabc30..b37e912 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -643,6 +643,13 @@ where
         let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
         let mut theta_rng = ChaCha12Rng::from_seed(seed);
         let thetas = Self::get_rands_for_and_dzkp::<ChaCha12Rng>(l, &mut theta_rng);
+        #[cfg(vsim)]
+        crate::vsim::challenge(crate::vsim::Challenge::Thetas(
+            thetas[self.network.get_id()]
+                .iter()
+                .map(|t| t.get())
+                .collect(),
+        ));
 
         let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.and_proof.prove::<ChaCha12Rng>(
@@ -885,6 +892,8 @@ where
     {
         let (r0, r1) = self.prf.gen_for_zero_share::<U>();
         let rand = r0.to_owned() - &r1;
+        #[cfg(vsim)]
+        let rand = rand + crate::vsim::zero_share_error::<U::Share>(false);
         let mut c = a.to_owned() * &b;
         c.a += rand;
 
@@ -910,6 +919,8 @@ where
     {
         let (r0, r1) = self.prf.gen_for_zero_share::<T>();
         let rand = r0.to_owned() ^ &r1;
+        #[cfg(vsim)]
+        let rand = rand ^ crate::vsim::zero_share_error::<T::Share>(true);
         let mut c = a.to_owned() & &b;
         c.a ^= rand;
 
@@ -942,6 +953,8 @@ where
         for (a_, b_) in a.iter().cloned().zip(b.iter().cloned()) {
             let (r0, r1) = self.prf.gen_for_zero_share::<T>();
             let rand = r0.to_owned() ^ &r1;
+            #[cfg(vsim)]
+            let rand = rand ^ crate::vsim::zero_share_error::<T::Share>(true);
             let mut c = a_ & b_;
             c.a ^= rand;
             shares_a.push(c.a);
@@ -988,6 +1001,8 @@ where
 
         let (r0, r1) = self.prf.gen_for_zero_share::<U>();
         let rand = r0.to_owned() - &r1;
+        #[cfg(vsim)]
+        let rand = rand + crate::vsim::zero_share_error::<U::Share>(false);
 
         let mut a0 = Vec::with_capacity(len);
         let mut a1 = Vec::with_capacity(len);
@@ -1040,6 +1055,8 @@ where
         for (a_, b_) in a.into_iter().zip(b.into_iter()) {
             let (r0_, r1_) = self.prf.gen_for_zero_share::<U>();
             let mut rand = r0_.to_owned() - &r1_;
+            #[cfg(vsim)]
+            let mut rand = rand + crate::vsim::zero_share_error::<U::Share>(false);
             let len_ = a_.len();
             debug_assert_eq!(len_, b_.len());
 
diff --git a/iris-mpc/src/swift3/random/prf.rs b/iris-mpc/src/swift3/random/prf.rs
index 34407d5..5c2631c 100644
--- a/iris-mpc/src/swift3/random/prf.rs
+++ b/iris-mpc/src/swift3/random/prf.rs
@@ -61,8 +61,6 @@ impl Prf {
     {
         let a = self.gen_1::<T::Share>();
         let b = self.gen_2::<T::Share>();
-        #[cfg(vsim)]
-        let a = a ^ crate::vsim::zero_share_error::<T::Share>();
 
         (a, b)
     }
-- 
2.43.0


From f333f1ba83cd22759dcf693a3052f3e29e065158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 18/22] fix: MalAby3 reveals a coin only after everybody has
 received what the coin checks

---
 iris-mpc/src/aby3_mal/protocol.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index 79f5a1c..34be9c8 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -124,6 +124,10 @@ impl<N: NetworkTrait> MalAby3<N> {
         Standard: Distribution<R::Seed>,
         R::Seed: AsRef<[u8]>,
     {
+        // Do not reveal anything before the next party has received everything the coin is for: a party
+        // which withholds a message must not learn the coin before it decides what to send.
+        utils::send_and_receive(&mut self.network, Bytes::new()).await?;
+
         let (mut seed1, seed2) = self.prf.gen_rands::<R::Seed>();
 
         let seed3 = self
-- 
2.43.0


From e09acbc4955d470a10f7a2b536a2d568ea99e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 19/22] fix: SPDZ-wise reveals a coin only after everybody has
 received what the coin checks

---
 iris-mpc/src/spdzwise/protocol.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 292fe49..8d2f622 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -274,6 +274,10 @@ where
         Standard: Distribution<R::Seed>,
         R::Seed: AsRef<[u8]>,
     {
+        // Do not reveal anything before the next party has received everything the coin is for: a party
+        // which withholds a message must not learn the coin before it decides what to send.
+        utils::send_and_receive(&mut self.aby3.network, Bytes::new()).await?;
+
         let (mut seed1, seed2) = self.aby3.prf.gen_rands::<R::Seed>();
 
         let seed3 = self
-- 
2.43.0


From b54a256e4f79249023f9bec87977615cfaf76dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 20/22] fix: SWIFT3 draws the coefficients of its proofs only
 after the gates are computed

---
 iris-mpc/src/swift3/protocol.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index b37e912..8014f96 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -640,8 +640,10 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas: nobody may know them before the gates are computed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_and_dzkp::<ChaCha12Rng>(l, &mut theta_rng);
         #[cfg(vsim)]
         crate::vsim::challenge(crate::vsim::Challenge::Thetas(
@@ -651,7 +653,6 @@ where
                 .collect(),
         ));
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.and_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -729,11 +730,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas: nobody may know them before the gates are computed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.mul_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -819,11 +821,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas: nobody may know them before the gates are computed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.dot_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
-- 
2.43.0


From 37dae321bff46ee9e4cba6d43ddaf46047417f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:39 +0000
Subject: [PATCH 21/22] fix: create_sample_data writes the SPDZ-wise MAC key
 and the codes in one transaction

An interrupted run could leave the MAC key without codes; the next run then added
a second key, which the parties refuse for good.
---
 iris-mpc/src/bin/create_sample_data.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/iris-mpc/src/bin/create_sample_data.rs b/iris-mpc/src/bin/create_sample_data.rs
index 6d64deb..8a7b94c 100644
--- a/iris-mpc/src/bin/create_sample_data.rs
+++ b/iris-mpc/src/bin/create_sample_data.rs
@@ -228,10 +228,9 @@ fn create_spdzwise_db(opts: Opts) -> Result<()> {
     stmt.execute([&mac_key_, &data_a, &data_b, &data_c])?;
 
     drop(stmt);
-    transaction.commit()?;
 
-    // Insert the codes into the database
-    let transaction = conn.transaction()?;
+    // Insert the codes into the database. They are of no use without the mac key (nor is a second
+    // mac key), so both belong to the same transaction.
     let mut stmt = transaction.prepare("INSERT INTO iris_codes (code, mask, share_a, mac_a, share_b, mac_b, share_c, mac_c) VALUES (?1, ?2, ?3, ?4, ?5, ?6, ?7, ?8)")?;
 
     for code in codes {
-- 
2.43.0


From 98574fc1b2b07ce706fabb5cc0469e35e4e92032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:29 +0000
Subject: [PATCH 22/22] vsim: hook for a cheating party that overlooks what the
 others confirm

---
 iris-mpc/src/aby3_mal/protocol.rs | 4 ++++
 iris-mpc/src/dzkp/and_proof.rs    | 4 ++++
 iris-mpc/src/dzkp/dot_proof.rs    | 4 ++++
 iris-mpc/src/dzkp/mul_proof.rs    | 4 ++++
 iris-mpc/src/lib.rs               | 7 +++++++
 iris-mpc/src/spdzwise/protocol.rs | 4 ++++
 iris-mpc/src/swift3/protocol.rs   | 4 ++++
 7 files changed, 31 insertions(+)

diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index 34be9c8..e32aa0c 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -112,6 +112,10 @@ impl<N: NetworkTrait> MalAby3<N> {
 
         let rcv_next = self.network.receive_next_id().await?;
 
+        #[cfg(vsim)]
+        if crate::vsim::overlooks() {
+            return Ok(());
+        }
         if rcv_next.as_ref() != hash_next.as_slice() {
             return Err(Error::JmpVerifyError);
         }
diff --git a/iris-mpc/src/dzkp/and_proof.rs b/iris-mpc/src/dzkp/and_proof.rs
index 9db4554..1610074 100644
--- a/iris-mpc/src/dzkp/and_proof.rs
+++ b/iris-mpc/src/dzkp/and_proof.rs
@@ -355,6 +355,10 @@ impl AndProof {
         verify_prev: SharedVerify,
         verify_next: SharedVerify,
     ) -> Result<(), Error> {
+        #[cfg(vsim)]
+        if crate::vsim::overlooks() {
+            return Ok(());
+        }
         assert_eq!(self.l, thetas.len());
 
         let (mut f1, pr1, b1) = (verify_prev.f, verify_prev.pr, verify_prev.b);
diff --git a/iris-mpc/src/dzkp/dot_proof.rs b/iris-mpc/src/dzkp/dot_proof.rs
index 6cea3a4..bf22e7d 100644
--- a/iris-mpc/src/dzkp/dot_proof.rs
+++ b/iris-mpc/src/dzkp/dot_proof.rs
@@ -433,6 +433,10 @@ where
         verify_prev: SharedVerify<T>,
         verify_next: SharedVerify<T>,
     ) -> Result<(), Error> {
+        #[cfg(vsim)]
+        if crate::vsim::overlooks() {
+            return Ok(());
+        }
         assert_eq!(self.l, thetas.len());
 
         let (mut f1, pr1, b1) = (verify_prev.f, verify_prev.pr, verify_prev.b);
diff --git a/iris-mpc/src/dzkp/mul_proof.rs b/iris-mpc/src/dzkp/mul_proof.rs
index ac72190..ae9e3de 100644
--- a/iris-mpc/src/dzkp/mul_proof.rs
+++ b/iris-mpc/src/dzkp/mul_proof.rs
@@ -343,6 +343,10 @@ where
         verify_prev: SharedVerify<T>,
         verify_next: SharedVerify<T>,
     ) -> Result<(), Error> {
+        #[cfg(vsim)]
+        if crate::vsim::overlooks() {
+            return Ok(());
+        }
         assert_eq!(self.l, thetas.len());
 
         let (mut f1, pr1, b1) = (verify_prev.f, verify_prev.pr, verify_prev.b);
diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index dad5668..2c7ee07 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -33,6 +33,10 @@ pub mod vsim {
         /// challenges its own SWIFT3 AND proof is checked with.
         #[allow(clippy::type_complexity)]
         pub static CHALLENGE: RefCell<Option<Box<dyn FnMut(Challenge)>>> = const { RefCell::new(None) };
+        /// Asked by a party before it compares what the others confirm or prove to it: whether it does not
+        /// look (a cheating party that goes on whatever it notices).
+        #[allow(clippy::type_complexity)]
+        pub static OVERLOOKS: RefCell<Option<Box<dyn FnMut() -> bool>>> = const { RefCell::new(None) };
     }
     pub enum Challenge<'a> {
         /// seed of a jointly chosen random value
@@ -40,6 +44,9 @@ pub mod vsim {
         /// bits of the coefficients of the rows in the AND proof of this party
         Thetas(Vec<u64>),
     }
+    pub(crate) fn overlooks() -> bool {
+        OVERLOOKS.with(|h| h.borrow_mut().as_mut().is_some_and(|h| h()))
+    }
     pub(crate) fn challenge(c: Challenge) {
         CHALLENGE.with(|h| {
             if let Some(h) = h.borrow_mut().as_mut() {
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 8d2f622..8da0ec0 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -238,6 +238,10 @@ where
 
         let rcv_next = self.aby3.network.receive_next_id().await?;
 
+        #[cfg(vsim)]
+        if crate::vsim::overlooks() {
+            return Ok(());
+        }
         if rcv_next.as_ref() != hash_next.as_slice() {
             return Err(Error::JmpVerifyError);
         }
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 8014f96..4f34c59 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -1185,6 +1185,10 @@ where
         let rcv_prev = self.network.receive(prev_id).await?;
         let rcv_next = self.network.receive(next_id).await?;
 
+        #[cfg(vsim)]
+        if crate::vsim::overlooks() {
+            return Ok(());
+        }
         if rcv_prev.as_ref() != hash_prev.as_slice() || rcv_next.as_ref() != hash_next.as_slice() {
             return Err(Error::JmpVerifyError);
         }
-- 
2.43.0

