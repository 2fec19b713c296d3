From 6a6bed34b1f2f4988c4a37094096905f1be01100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 01/12] fix: dot product modulo a Barrett modulus dropped the
 last partial block of 16 terms

---
 algebra/src/modulus/barrett/internal_macros.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..e73d510 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,9 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                // `chunks` rather than `chunks_exact`: the last block may be shorter than 16.
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From b526d8c0037c5fc76cdcacdc67e256f51867f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 02/12] fix: primality test accepted strong pseudoprimes to
 base 2 after the first round

---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From 4ba91ac7be966cbad2d3fc178a7e9093a0045e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 03/12] fix: Goldilocks operations mishandled the non-canonical
 values that other operations return

---
 algebra/src/modulus/goldilocks/mod.rs |  2 +-
 algebra/src/modulus/goldilocks/ops.rs | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/mod.rs b/algebra/src/modulus/goldilocks/mod.rs
index 3a3e696..8f1f879 100644
--- a/algebra/src/modulus/goldilocks/mod.rs
+++ b/algebra/src/modulus/goldilocks/mod.rs
@@ -43,7 +43,7 @@ pub fn to_canonical_u64(value: u64) -> u64 {
 /// The following code has been adapted from winterfell/math/src/field/f64/mod.rs
 /// located at <https://github.com/facebook/winterfell>.
 fn try_inverse(value: u64) -> Option<u64> {
-    if value == 0 {
+    if to_canonical_u64(value) == 0 {
         return None;
     }
 
diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 49154df..4e9d320 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -6,14 +6,14 @@ use num_traits::PrimInt;
 
 use crate::{reduce::*, Bits};
 
-use super::{reduce128, try_inverse, GoldilocksModulus, EPSILON, P};
+use super::{reduce128, to_canonical_u64, try_inverse, GoldilocksModulus, EPSILON, P};
 
 impl Reduce<GoldilocksModulus> for u64 {
     type Output = Self;
 
     #[inline]
     fn reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self > P {
+        if self >= P {
             self - P
         } else {
             self
@@ -24,7 +24,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 impl ReduceAssign<GoldilocksModulus> for u64 {
     #[inline]
     fn reduce_assign(&mut self, _: GoldilocksModulus) {
-        if *self > P {
+        if *self >= P {
             *self -= P;
         }
     }
@@ -77,10 +77,11 @@ impl NegReduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn neg_reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self == 0 {
+        let value = to_canonical_u64(self);
+        if value == 0 {
             0
         } else {
-            P - self
+            P - value
         }
     }
 }
@@ -117,8 +118,6 @@ where
             return 1;
         }
 
-        debug_assert!(self < P);
-
         let mut power: Self = self;
 
         let exp_trailing_zeros = exp.trailing_zeros();
-- 
2.43.0


From 163ae8f6b40e711337108c8dc81ceb9001419105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 04/12] fix: inverse transform of length one underflowed

---
 algebra/src/transformation/ntt_table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..2cebc42 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -339,6 +339,11 @@ where
             }
         }
 
+        if log_n == 0 {
+            values.iter_mut().for_each(intt_normalize_assign);
+            return;
+        }
+
         let roots = self.inv_root_powers();
         let mut root_iter = roots[1..].iter().copied();
 
-- 
2.43.0


From 119621cb6f010cd9069b6108dca38a481092f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 05/12] fix: requesting a transform table of an unsupported
 length panicked instead of returning an error

---
 algebra_derive/src/ntt.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..87ef91b 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -45,7 +45,7 @@ fn impl_ntt(input: Input) -> TokenStream {
     let to_root = impl_to_root(modulus_value, &modulus);
     let mul_root = impl_mul_root(modulus_value, &modulus);
     let mul_root_assign = impl_mul_root_assign(modulus_value, &modulus);
-    let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table);
+    let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table, &modulus);
 
     quote! {
         static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
@@ -324,7 +324,11 @@ fn impl_mul_root_assign(modulus_value: ModulusValue, modulus: &TokenStream) -> T
 }
 
 #[allow(unused_variables)]
-fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) -> TokenStream {
+fn impl_generate_ntt_table(
+    modulus_value: ModulusValue,
+    table: &TokenStream,
+    modulus: &TokenStream,
+) -> TokenStream {
     #[cfg(feature = "concrete-ntt")]
     match modulus_value {
         ModulusValue::U32(_) | ModulusValue::U64(_) => {
@@ -338,11 +342,21 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
         ModulusValue::U8(_) | ModulusValue::U16(_) => {
             quote! {
                 fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+                    let no_root = || ::algebra::AlgebraError::NoPrimitiveRoot {
+                        degree: format!("2^{}", log_n as u64 + 1),
+                        modulus: #modulus.to_string(),
+                    };
+
+                    // `2n` has to fit in `usize` and in the degree type
+                    if log_n >= usize::BITS - 1 {
+                        return Err(no_root());
+                    }
                     let n = 1usize << log_n;
+                    let degree = Self::Degree::try_from(n * 2).map_err(|_| no_root())?;
 
                     let root_one = Self(1).to_root();
 
-                    let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+                    let root = Self::try_minimal_primitive_root(degree)?;
 
                     let root_factor = root.to_root();
                     let mut power = root;
@@ -369,11 +383,21 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
     #[cfg(not(feature = "concrete-ntt"))]
     quote! {
         fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+            let no_root = || ::algebra::AlgebraError::NoPrimitiveRoot {
+                degree: format!("2^{}", log_n as u64 + 1),
+                modulus: #modulus.to_string(),
+            };
+
+            // `2n` has to fit in `usize` and in the degree type
+            if log_n >= usize::BITS - 1 {
+                return Err(no_root());
+            }
             let n = 1usize << log_n;
+            let degree = Self::Degree::try_from(n * 2).map_err(|_| no_root())?;
 
             let root_one = Self(1).to_root();
 
-            let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+            let root = Self::try_minimal_primitive_root(degree)?;
 
             let root_factor = root.to_root();
             let mut power = root;
-- 
2.43.0


From 939857b2f70f3e2e7502fd849bd68337ccaf159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 06/12] fix: transform table cache was read without
 synchronisation while another thread modified it

---
 algebra_derive/src/ntt.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 87ef91b..5cdae72 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -39,7 +39,6 @@ fn impl_ntt(input: Input) -> TokenStream {
     let root = quote! {::algebra::modulus::ShoupFactor<<Self as ::algebra::Field>::Value>};
 
     let ntt_table = format_ident!("NTT_TABLE{}", name.to_string().to_uppercase());
-    let ntt_mutex = format_ident!("NTT_MUTEX{}", name.to_string().to_uppercase());
 
     let from_root = impl_from_root(modulus_value);
     let to_root = impl_to_root(modulus_value, &modulus);
@@ -48,9 +47,8 @@ fn impl_ntt(input: Input) -> TokenStream {
     let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table, &modulus);
 
     quote! {
-        static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
-            = ::once_cell::sync::OnceCell::new();
-        static #ntt_mutex: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());
+        static #ntt_table: ::std::sync::RwLock<::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>>
+            = ::std::sync::RwLock::new(::once_cell::sync::OnceCell::new());
 
         impl ::std::convert::From<usize> for #name {
             #[inline]
@@ -147,21 +145,21 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(tables) = unsafe { #ntt_table.get() } {
+                if let Some(tables) = #ntt_table.read().unwrap().get() {
                     if let Some(t) = tables.get(&log_n) {
                         return Ok(::std::sync::Arc::clone(t));
                     }
                 }
 
                 Self::init_ntt_table(&[log_n])?;
-                Ok(::std::sync::Arc::clone(unsafe {
-                    #ntt_table.get().unwrap().get(&log_n).unwrap()
-                }))
+                Ok(::std::sync::Arc::clone(
+                    #ntt_table.read().unwrap().get().unwrap().get(&log_n).unwrap()
+                ))
             }
 
             fn init_ntt_table(log_ns: &[u32]) -> Result<(), ::algebra::AlgebraError> {
-                let _g = #ntt_mutex.lock().unwrap();
-                match unsafe { #ntt_table.get_mut() } {
+                let mut guard = #ntt_table.write().unwrap();
+                match guard.get_mut() {
                     Some(tables) => {
                         let new_log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
                         let old_log_ns: ::std::collections::HashSet<u32> = tables.keys().copied().collect();
@@ -183,7 +181,7 @@ fn impl_ntt(input: Input) -> TokenStream {
                             map.insert(log_n, ::std::sync::Arc::new(temp_table));
                         }
 
-                        if unsafe { #ntt_table.set(map).is_err() } {
+                        if guard.set(map).is_err() {
                             Err(::algebra::AlgebraError::NTTTableError)
                         } else {
                             Ok(())
-- 
2.43.0


From e16e9b14f9e5338fb4ff3e9a8f37e52d8cd939e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 07/12] fix: decomposing into a used destination left its old
 higher digits in place

---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From b15270d3bbbc12d5c05dffe1902a80a2ae8eeb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 08/12] fix: noise samplers that can never accept a value hung
 instead of being refused

---
 algebra/src/random.rs       | 4 ++--
 lattice/src/utils/sample.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 80b4634..95bb6ed 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -127,7 +127,7 @@ impl FieldDiscreteGaussianSampler {
     #[inline]
     pub fn new(mean: f64, std_dev: f64) -> Result<FieldDiscreteGaussianSampler, AlgebraError> {
         let max_std_dev = std_dev * 6.0;
-        if std_dev < 0. {
+        if std_dev <= 0. || !mean.is_finite() {
             return Err(AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
@@ -153,7 +153,7 @@ impl FieldDiscreteGaussianSampler {
         std_dev: f64,
         max_std_dev: f64,
     ) -> Result<FieldDiscreteGaussianSampler, AlgebraError> {
-        if max_std_dev <= std_dev || std_dev < 0. {
+        if max_std_dev <= std_dev || max_std_dev.is_nan() || std_dev < 0. || !mean.is_finite() {
             return Err(AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index 6b891bc..d2fd036 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -74,7 +74,7 @@ impl<T: Copy> DiscreteGaussian<T> {
         std_dev: f64,
     ) -> Result<DiscreteGaussian<T>, algebra::AlgebraError> {
         let max_std_dev = std_dev * 6.0;
-        if std_dev < 0. {
+        if std_dev <= 0. || !mean.is_finite() {
             return Err(algebra::AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
@@ -100,7 +100,7 @@ impl<T: Copy> DiscreteGaussian<T> {
         std_dev: f64,
         max_std_dev: f64,
     ) -> Result<DiscreteGaussian<T>, algebra::AlgebraError> {
-        if max_std_dev <= std_dev || std_dev < 0. {
+        if max_std_dev <= std_dev || max_std_dev.is_nan() || std_dev < 0. || !mean.is_finite() {
             return Err(algebra::AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
-- 
2.43.0


From 9ddbeb5150a6ec2feaba3f3a79fdaa4929f8db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 09/12] fix: the noise maximum given with standard deviation
 3.2 was ignored for polynomials

---
 algebra/src/random.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 95bb6ed..77221ab 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -161,7 +161,9 @@ impl FieldDiscreteGaussianSampler {
                 gaussian,
                 max_std_dev,
                 cbd_enable: mean.to_bits() == 0.0f64.to_bits()
-                    && std_dev.to_bits() == 3.2f64.to_bits(),
+                    && std_dev.to_bits() == 3.2f64.to_bits()
+                    // the centered binomial sampler returns values up to 21
+                    && max_std_dev > 21.0,
             }),
             Err(_) => Err(AlgebraError::DistributionError),
         }
-- 
2.43.0


From ea4f104e9dbf62506546363033e69f4ba336f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 10/12] fix: decode underflowed when the message space is as
 large as the ciphertext modulus

---
 fhe_core/src/plaintext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhe_core/src/plaintext.rs b/fhe_core/src/plaintext.rs
index 3378f94..85e97f8 100644
--- a/fhe_core/src/plaintext.rs
+++ b/fhe_core/src/plaintext.rs
@@ -112,7 +112,7 @@ where
     // Move the message to the least significant part of `C`.
     // Leave one more bit for round.
     let cipher: u64 = cipher.as_into();
-    let temp = cipher >> ((q / t).trailing_zeros() - 1);
+    let temp = (cipher << 1u32) >> (q / t).trailing_zeros();
     let decoded = ((temp >> 1u32) + (temp & 1)) & (t - 1);
 
     M::shrink(decoded)
-- 
2.43.0


From f4a2a815d369a6cd5bca30590d85bba9b8f0c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 11/12] fix: gadget samples of one and of the negated secret
 overflowed after the last row

---
 lattice/src/gadget/rlwe.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lattice/src/gadget/rlwe.rs b/lattice/src/gadget/rlwe.rs
index 0ab7562..6aa9311 100644
--- a/lattice/src/gadget/rlwe.rs
+++ b/lattice/src/gadget/rlwe.rs
@@ -186,7 +186,9 @@ impl<F: NTTField> GadgetRLWE<F> {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.b_mut_slice()[0] += basis_power;
             data.push(r);
-            basis_power = F::lazy_new(basis_power.value() * basis_value);
+            if data.len() < len {
+                basis_power = F::lazy_new(basis_power.value() * basis_value);
+            }
         }
 
         Self { data, basis }
@@ -210,7 +212,9 @@ impl<F: NTTField> GadgetRLWE<F> {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.a_mut_slice()[0] += basis_power;
             data.push(r);
-            basis_power = F::lazy_new(basis_power.value() * basis_value);
+            if data.len() < len {
+                basis_power = F::lazy_new(basis_power.value() * basis_value);
+            }
         }
 
         Self { data, basis }
-- 
2.43.0


From 12eaae736ba1306d44d348d87bd31ba8c0aae823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 12/12] fix: parameter sets whose steps, keys or dimensions do
 not fit were accepted and then panicked

---
 fhe_core/src/parameter.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/fhe_core/src/parameter.rs b/fhe_core/src/parameter.rs
index 33e6dc7..b4439a1 100644
--- a/fhe_core/src/parameter.rs
+++ b/fhe_core/src/parameter.rs
@@ -145,6 +145,26 @@ impl<C: LWEModulusType, Q: NTTField> Parameters<C, Q> {
             });
         }
 
+        // The modulus is switched to `2N` before the blind rotation.
+        if C::try_from(twice_ring_dimension as u64).is_err() {
+            return Err(FHECoreError::LweModulusRingDimensionNotCompatible {
+                lwe_modulus: lwe_cipher_modulus.as_into(),
+                ring_dimension,
+            });
+        }
+
+        let steps_compatible = match steps {
+            Steps::BrMsKs => ring_secret_key_type != RingSecretKeyType::Gaussian,
+            Steps::BrKsMs => lwe_dimension <= ring_dimension,
+            Steps::BrMs => {
+                ring_secret_key_type != RingSecretKeyType::Gaussian
+                    && lwe_dimension == ring_dimension
+            }
+        };
+        if !steps_compatible {
+            return Err(FHECoreError::StepsParametersNotCompatible);
+        }
+
         let t: u64 = params.lwe_plain_modulus.as_into();
         let q: u64 = lwe_cipher_modulus.as_into();
         assert!(t <= q);
-- 
2.43.0

