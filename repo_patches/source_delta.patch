From dc5683c63e92dcf533a46e50209cc710b04d283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 01/20] fix: do not reuse multiplication zero sharings for
 input and output batches

---
 src/tp/fi_prep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..ed05dcf 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -155,8 +155,8 @@ namespace tp {
 	  shr += mVandermonde[j][shr_idx] * recv_shares[j];
 	}
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
-	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
-	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
+	else if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
+	else if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
 	else {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
-- 
2.43.0


From 164e26cd373c259adb204d6009b722314404a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 02/20] fix: evaluate dummy packed lambdas of multiplications
 at the party's point

---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..a36dd22 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -127,13 +127,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID+1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID+1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID+1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0


From 2177bd8af8bdb87cc6fb470c90a65bf1b7f7737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 03/20] fix: OutputGate::GetIndvShrLambda returns the
 individual share

---
 src/tp/output_gate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..b6be1a8 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -52,7 +52,7 @@ namespace tp {
 	mIndvShrLambdaC = mLeft->GetIndvShrLambda();
 	mIndvShrLambdaCSet = true;
       }
-      return mLambda;
+      return mIndvShrLambdaC;
     }    
 
     FF GetDn07Share() {
-- 
2.43.0


From 7008bf1a544da8ce191bf332c6c88e7c15721cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 04/20] fix: SetClearInputs checks all sizes before it sets any
 input

---
 src/tp/circuits/cleartext.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tp/circuits/cleartext.cc b/src/tp/circuits/cleartext.cc
index e0b48a5..22998ee 100644
--- a/src/tp/circuits/cleartext.cc
+++ b/src/tp/circuits/cleartext.cc
@@ -5,10 +5,13 @@ namespace tp {
     if ( inputs_per_client.size() != mClients )
       throw std::invalid_argument("Number of clients do not match");
 
+    // All sizes are checked before any input is set
     for (std::size_t i = 0; i < mClients; i++) {
       if ( inputs_per_client[i].size() != mFlatInputGates[i].size() )
 	throw std::invalid_argument("Number of inputs provided for a client does not match its number of input gates");
+    }
 
+    for (std::size_t i = 0; i < mClients; i++) {
       for (std::size_t j = 0; j < inputs_per_client[i].size(); j++) mFlatInputGates[i][j]->ClearInput(inputs_per_client[i][j]);
     }
   }
-- 
2.43.0


From bcd5acd175c2fed91fea4347e0eea079efd5f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 05/20] fix: clear evaluation follows newly set inputs

---
 src/tp/circuits.h            |  3 +++
 src/tp/circuits/cleartext.cc | 10 ++++++++++
 src/tp/gate.h                |  3 +++
 3 files changed, 16 insertions(+)

diff --git a/src/tp/circuits.h b/src/tp/circuits.h
index c7cdc35..e3c71e0 100644
--- a/src/tp/circuits.h
+++ b/src/tp/circuits.h
@@ -285,6 +285,9 @@ namespace tp {
 
 
   private:
+    // Forgets the cleartext values computed from previous inputs
+    void ResetClear();
+
     std::size_t mBatchSize;
 
     // List of layers. Each layer is itself a list of batches, which
diff --git a/src/tp/circuits/cleartext.cc b/src/tp/circuits/cleartext.cc
index 22998ee..ca16580 100644
--- a/src/tp/circuits/cleartext.cc
+++ b/src/tp/circuits/cleartext.cc
@@ -11,12 +11,14 @@ namespace tp {
 	throw std::invalid_argument("Number of inputs provided for a client does not match its number of input gates");
     }
 
+    ResetClear();
     for (std::size_t i = 0; i < mClients; i++) {
       for (std::size_t j = 0; j < inputs_per_client[i].size(); j++) mFlatInputGates[i][j]->ClearInput(inputs_per_client[i][j]);
     }
   }
   
   void Circuit::SetClearInputsFlat(std::vector<FF> inputs) {
+    ResetClear();
     std::size_t idx(0);
     for (std::size_t i = 0; i < mClients; i++) {
       for (auto input_gate : mFlatInputGates[i]) {
@@ -26,6 +28,14 @@ namespace tp {
     }
   }
   
+  void Circuit::ResetClear() {
+    for (auto add_gate : mAddGates) add_gate->ResetClear();
+    for (auto mult_layer : mFlatMultLayers) {
+      for (auto mult_gate : mult_layer) mult_gate->ResetClear();
+    }
+    for (auto output_gate : mOutputGates) output_gate->ResetClear();
+  }
+
   std::vector<std::vector<FF>> Circuit::GetClearOutputs() {
     std::vector<std::vector<FF>> output;
     output.reserve(mClients);
diff --git a/src/tp/gate.h b/src/tp/gate.h
index 7dc3d41..04b53a9 100644
--- a/src/tp/gate.h
+++ b/src/tp/gate.h
@@ -24,6 +24,9 @@ namespace tp {
     // For cleartext evaluation
     bool IsEvaluated() { return mEvaluated; }
 
+    // Forgets the cleartext value, so that it is computed again
+    void ResetClear() { mEvaluated = false; }
+
     // For testing purposes. Sets mu to the given value
     void _SetDummyMu(FF mu) {
       mMu = mu;
-- 
2.43.0


From 91c49d0eb0b20042e6257b7c953b7eba74e876ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 06/20] fix: FromConfig refuses circuits without inputs, width
 or depth

---
 src/tp/circuits/generic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp/circuits/generic.cc b/src/tp/circuits/generic.cc
index c688757..cff5cec 100644
--- a/src/tp/circuits/generic.cc
+++ b/src/tp/circuits/generic.cc
@@ -9,6 +9,8 @@ namespace tp {
       throw std::invalid_argument("The number of parties does not coincide with the length of the input vector");
     if ( config.n_parties != config.out_gates.size() )
       throw std::invalid_argument("The number of parties does not coincide with the length of the output vector");
+    if ( n_inputs == 0 || config.width == 0 || config.depth == 0 )
+      throw std::invalid_argument("The number of inputs, the width and the depth must be positive");
     if ( config.width % n_inputs != 0 )
       throw std::invalid_argument("Total number of inputs does not divide width");
     if ( n_inputs % 2 != 0 )
-- 
2.43.0


From 14a78ac07e191521b93c6f50f069ef33dc6977a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 07/20] fix: field elements read from text are reduced, empty
 base64 text is not read past its end

---
 secure-computation-library/include/scl/math/str.h             | 2 +-
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 1 +
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/str.h b/secure-computation-library/include/scl/math/str.h
index 032ebb2..a014aee 100644
--- a/secure-computation-library/include/scl/math/str.h
+++ b/secure-computation-library/include/scl/math/str.h
@@ -156,7 +156,7 @@ void FromStringBase64(T& t, const std::string& s) {
 
   t = 0;
   std::size_t i = 0;
-  bool has_padding = s[n - 1] == '=';
+  bool has_padding = n > 0 && s[n - 1] == '=';
   auto m = n - (has_padding ? 4 : 0);
 
   while (i < m) {
diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index ba81252..e90c7db 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -28,6 +28,7 @@ void _::Invert(u128 &t) {
 void _::FromString(u128 &dest, const std::string &str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 struct u256 {
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index e5a3c95..f0c9096 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -29,6 +29,7 @@ void _::Invert(u64& t) {
 void _::FromString(u64& dest, const std::string& str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 void _::Multiply(u64& t, const u64& v) {
-- 
2.43.0


From b9656d2c39bb6d96f630e847e7f63031de2e31ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 08/20] fix: Z2k reads exactly its byte size and masks without
 an oversized shift

---
 secure-computation-library/include/scl/math/z2k/details.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..d5af960 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -95,7 +95,7 @@ void InvertZ2k(T& v) {
   v = z;
 }
 
-#define _SCL_MASK(T, K) ((static_cast<T>(1) << K) - 1)
+#define _SCL_MASK(T, K) (~static_cast<T>(0) >> (8 * sizeof(T) - (K)))
 
 /**
  * @brief Compute equality modulo a power of 2.
@@ -110,7 +110,8 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  v = 0;
+  std::memcpy(&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
-- 
2.43.0


From 8dd5395c12334ea626c7f459596adad574dec1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 09/20] fix: in-place scalar multiplication by one of the
 object's own entries

---
 secure-computation-library/include/scl/math/mat.h | 3 ++-
 secure-computation-library/include/scl/math/vec.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/math/mat.h b/secure-computation-library/include/scl/math/mat.h
index 0ba5ca8..1178b6f 100644
--- a/secure-computation-library/include/scl/math/mat.h
+++ b/secure-computation-library/include/scl/math/mat.h
@@ -259,7 +259,8 @@ class Mat {
    * @return this scaled by \p scalar.
    */
   Mat& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T s = scalar;  // scalar may be one of the entries
+    for (auto& v : mValues) v *= s;
     return *this;
   };
 
diff --git a/secure-computation-library/include/scl/math/vec.h b/secure-computation-library/include/scl/math/vec.h
index 213090a..f3e5e2f 100644
--- a/secure-computation-library/include/scl/math/vec.h
+++ b/secure-computation-library/include/scl/math/vec.h
@@ -257,7 +257,8 @@ class Vec {
    * @return a scaled version of this vector.
    */
   Vec& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T s = scalar;  // scalar may be one of the entries
+    for (auto& v : mValues) v *= s;
     return *this;
   };
 
-- 
2.43.0


From a1aaef36db309c451068ac0b74af63949fbdaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 10/20] fix: packed sharing refuses more secrets than the
 degree has room for

---
 secure-computation-library/include/scl/ss/packed.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/secure-computation-library/include/scl/ss/packed.h b/secure-computation-library/include/scl/ss/packed.h
index aca19bb..71899dc 100644
--- a/secure-computation-library/include/scl/ss/packed.h
+++ b/secure-computation-library/include/scl/ss/packed.h
@@ -71,6 +71,8 @@ namespace scl {
      */
     template <typename T>
     EvPolynomial<T> EvPolyFromSecretsAndDegree(const Vec<T>& secrets, std::size_t degree, PRG& prg) {
+      if (secrets.Size() > degree + 1)
+	throw std::invalid_argument("number of secrets is larger than degree + 1");
       Vec<T> x_points;
       x_points.Reserve(degree+1);
       for (std::size_t i = 0; i < secrets.Size(); i++) { x_points.Emplace(T(-i)); }
-- 
2.43.0


From 8ea0864d94218453f5c93df2f3cef8ae99aec0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 11/20] fix: hash updates absorb every byte of a word

---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From 032d8e859c0efa9db1d9dce4e1776d3e33ef85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 12/20] fix: an insertion wakes every waiter of the shared
 queue, a waiting Peek cannot swallow the wake-up of a Pop

---
 secure-computation-library/include/scl/net/shared_deque.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/shared_deque.h b/secure-computation-library/include/scl/net/shared_deque.h
index b0a376b..a556c25 100644
--- a/secure-computation-library/include/scl/net/shared_deque.h
+++ b/secure-computation-library/include/scl/net/shared_deque.h
@@ -118,7 +118,7 @@ void SharedDeque<T, Allocator>::PushBack(const T &item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(item);
   lock.unlock();
-  mCond.notify_one();
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
@@ -126,7 +126,7 @@ void SharedDeque<T, Allocator>::PushBack(T &&item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(std::move(item));
   lock.unlock();
-  mCond.notify_one();
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
-- 
2.43.0


From 9fb4106deefcd512da6099b739056b5c61ca2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:10 +0000
Subject: [PATCH 13/20] fix: a receive whose peer is gone fails, writing to a
 closed connection does not kill the process, closed channels leave their
 descriptor alone

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 8 +++++++-
 secure-computation-library/src/scl/net/tcp_utils.cc   | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 47a32d9..e4466ef 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -1,5 +1,7 @@
 #include "scl/net/tcp_channel.h"
 
+#include <stdexcept>
+
 #include "scl/net/tcp_utils.h"
 
 void scl::TcpChannel::Close() {
@@ -11,6 +13,8 @@ void scl::TcpChannel::Close() {
 }
 
 void scl::TcpChannel::Send(const unsigned char* src, std::size_t n) {
+  if (!mAlive) throw std::logic_error("channel is closed");
+
   std::size_t rem = n;
   std::size_t offset = 0;
 
@@ -23,12 +27,14 @@ void scl::TcpChannel::Send(const unsigned char* src, std::size_t n) {
 }
 
 void scl::TcpChannel::Recv(unsigned char* dst, std::size_t n) {
+  if (!mAlive) throw std::logic_error("channel is closed");
+
   std::size_t rem = n;
   std::size_t offset = 0;
 
   while (rem > 0) {
     auto recv = scl::details::ReadFromSocket(mSocket, dst + offset, rem);
-    if (!recv) break;
+    if (!recv) throw std::runtime_error("connection closed by peer");
     if (recv < 0) scl::details::ThrowError("read failed");
 
     rem -= recv;
diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index e138fa2..88dcb1b 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -86,5 +86,6 @@ int scl::details::ReadFromSocket(int socket, unsigned char* dst,
 
 int scl::details::WriteToSocket(int socket, const unsigned char* src,
                                 std::size_t n) {
-  return ::write(socket, src, n);
+  // without MSG_NOSIGNAL, writing to a closed connection kills the process
+  return ::send(socket, src, n, MSG_NOSIGNAL);
 }
-- 
2.43.0


From 3a722e5c65ba4b3fe87259f43093ad5ecf1967a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:10 +0000
Subject: [PATCH 14/20] fix: closing an asynchronous channel first sends what
 was queued, can be repeated and is done on destruction

---
 .../include/scl/net/threaded_sender.h            | 16 ++++++++++++++++
 .../src/scl/net/threaded_sender.cc               | 16 ++++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/secure-computation-library/include/scl/net/threaded_sender.h b/secure-computation-library/include/scl/net/threaded_sender.h
index 49b0437..0383bfa 100644
--- a/secure-computation-library/include/scl/net/threaded_sender.h
+++ b/secure-computation-library/include/scl/net/threaded_sender.h
@@ -24,6 +24,8 @@
 
 #include <cstddef>
 #include <future>
+#include <stdexcept>
+#include <vector>
 
 #include "scl/net/channel.h"
 #include "scl/net/shared_deque.h"
@@ -47,9 +49,23 @@ class ThreadedSenderChannel final : public Channel {
    */
   ThreadedSenderChannel(int socket);
 
+  /**
+   * @brief Destroying a threaded sender channel closes it.
+   */
+  ~ThreadedSenderChannel() { Close(); };
+
+  /**
+   * @brief Close connection to remote.
+   *
+   * Data that has been sent, but not written to the socket yet, is written
+   * before the connection is closed.
+   */
   void Close() override;
 
   void Send(const unsigned char* src, std::size_t n) override {
+    if (!mSender.valid()) throw std::logic_error("channel is closed");
+    // Nothing to send, and the empty message means stop.
+    if (!n) return;
     mSendBuffer.PushBack({src, src + n});
   };
 
diff --git a/secure-computation-library/src/scl/net/threaded_sender.cc b/secure-computation-library/src/scl/net/threaded_sender.cc
index 4945fe4..24fa9a5 100644
--- a/secure-computation-library/src/scl/net/threaded_sender.cc
+++ b/secure-computation-library/src/scl/net/threaded_sender.cc
@@ -6,19 +6,23 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
     : mChannel(scl::TcpChannel(socket)) {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
-      auto data = mSendBuffer.Peek();
-      if (!mChannel.Alive()) {
+      auto data = mSendBuffer.Pop();
+      // An empty message is the signal to stop, see Close.
+      if (data.empty()) {
         break;
       }
       mChannel.Send(data.data(), data.size());
-      mSendBuffer.PopFront();
     }
   });
 }
 
 void scl::ThreadedSenderChannel::Close() {
-  mChannel.Close();
-  unsigned char stop_signal = 1;
-  Send(&stop_signal, 1);
+  if (!mSender.valid()) return;
+
+  // The stop signal is queued behind everything sent so far, so the socket is
+  // closed only after all of it has been written.
+  mSendBuffer.PushBack(std::vector<unsigned char>{});
   mSender.wait();
+  mSender = std::future<void>();
+  mChannel.Close();
 }
-- 
2.43.0


From 0145cfe7f5b8766690a172bb81ac8b9d05b56394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 15/20] fix: a network configuration looks parties up by id,
 not by position

---
 secure-computation-library/include/scl/net/config.h | 3 ++-
 secure-computation-library/src/scl/net/config.cc    | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..deef202 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -127,8 +127,9 @@ class NetworkConfig {
 
   /**
    * @brief Get information about a party.
+   * @param id the id of the party
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const;
 
   /**
    * @brief Return a string representation of this network config.
diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index f795ceb..2f6d74d 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -49,6 +49,13 @@ scl::NetworkConfig scl::NetworkConfig::Localhost(unsigned id, std::size_t n,
   return NetworkConfig(id, info);
 }
 
+scl::Party scl::NetworkConfig::GetParty(unsigned id) const {
+  for (const auto& party : mParties) {
+    if (party.id == id) return party;
+  }
+  throw std::invalid_argument("no party with that id in config");
+}
+
 std::string scl::NetworkConfig::ToString() const {
   std::stringstream ss;
   ss << "[id=" << mId << ", ";
-- 
2.43.0


From 208b84d957a43fdeb003fdebb8e1087da2910956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 16/20] fix: loading a network configuration refuses malformed
 and overflowing ids and ports and empty host names

---
 .../src/scl/net/config.cc                     | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index 2f6d74d..bf34c97 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -1,5 +1,6 @@
 #include "scl/net/config.h"
 
+#include <climits>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -10,6 +11,22 @@ static inline void ValidateIdAndSize(unsigned id, std::size_t n) {
   if (n <= id) throw std::invalid_argument("invalid id");
 }
 
+static inline unsigned long ParseNumber(const std::string& text,
+                                        unsigned long max) {
+  // stoul accepts signs, and ignores everything after the number.
+  std::size_t end = 0;
+  unsigned long number;
+  try {
+    number = std::stoul(text, &end);
+  } catch (const std::logic_error&) {
+    throw std::invalid_argument("invalid number in config file");
+  }
+  if (number > max || text.find_first_of("+-") != std::string::npos ||
+      text.find_first_not_of(" \t\r", end) != std::string::npos)
+    throw std::invalid_argument("invalid number in config file");
+  return number;
+}
+
 scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
   std::ifstream file(filename);
 
@@ -22,12 +39,14 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     auto a = line.find(',');
     auto b = line.rfind(',');
 
-    if (a == std::string::npos || b == std::string::npos)
+    if (a == std::string::npos || b <= a + 1)
       throw std::invalid_argument("invalid entry in config file");
 
-    auto id = (unsigned)std::stoul(std::string(line.begin(), line.begin() + a));
+    auto id = (unsigned)ParseNumber(
+        std::string(line.begin(), line.begin() + a), UINT_MAX);
     auto hostname = std::string(line.begin() + a + 1, line.begin() + b);
-    auto port = std::stoi(std::string(line.begin() + b + 1, line.end()));
+    auto port = (int)ParseNumber(
+        std::string(line.begin() + b + 1, line.end()), 65535);
     info.emplace_back(Party{id, hostname, port});
   }
 
-- 
2.43.0


From 23d3620f9099e21503b2e43cde53736763ab3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 17/20] fix: networks with threaded senders have them on
 accepted connections too

---
 secure-computation-library/src/scl/net/network.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index b6f2fb3..bb8c52d 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -9,6 +9,7 @@ static inline std::shared_ptr<scl::Channel> Self() {
   return scl::InMemoryChannel::CreateSelfConnecting();
 }
 
+template <typename ChannelT>
 static inline void AcceptConnections(
     std::vector<std::shared_ptr<scl::Channel>>& channels,
     const scl::NetworkConfig config) {
@@ -21,7 +22,7 @@ static inline void AcceptConnections(
     for (std::size_t i = config.Id() + 1; i < config.NetworkSize(); ++i) {
       auto ac = scl::details::AcceptConnection(ssock);
       std::shared_ptr<scl::Channel> channel =
-          std::make_shared<scl::TcpChannel>(ac.socket);
+          std::make_shared<ChannelT>(ac.socket);
       unsigned id;
       channel->Recv(id);
       channels[id] = channel;
@@ -35,7 +36,8 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
+                     config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -59,7 +61,8 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
+                     std::ref(channels), config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
-- 
2.43.0


From a2a0d7fee88da320d0bf8d6fcb485252fdede52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 18/20] fix: discovery refuses ids that are announced or listed
 twice or are out of range

---
 .../src/scl/net/discovery/client.cc                    |  7 +++++++
 .../src/scl/net/discovery/server.cc                    | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index d33f039..c1253de 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -1,6 +1,8 @@
 #include "scl/net/discovery/client.h"
 
 #include <memory>
+#include <stdexcept>
+#include <vector>
 
 #include "scl/net/tcp_utils.h"
 
@@ -36,9 +38,14 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
   ctx->Recv(number_of_parties);
 
   std::vector<scl::Party> parties(number_of_parties);
+  std::vector<bool> seen(number_of_parties, false);
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
+    if (party.id >= number_of_parties || seen[party.id]) {
+      throw std::logic_error("received invalid party ID");
+    }
+    seen[party.id] = true;
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0f8ff65..0b15c7f 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -34,15 +34,23 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
 Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
   std::vector<scl::Party> parties(mHostnames.size());
+  if (my_id >= parties.size()) {
+    throw std::logic_error("received invalid party ID");
+  }
   parties[my_id] = ctx.me;
 
+  // every id must be announced exactly once, and ours is taken.
+  std::vector<bool> seen(parties.size(), false);
+  seen[my_id] = true;
+
   for (std::size_t i = 0; i < mHostnames.size(); ++i) {
     if (my_id != i) {
       unsigned id;
       ctx.network.Party(i)->Recv(id);
-      if (id >= parties.size()) {
+      if (id >= parties.size() || seen[id]) {
         throw std::logic_error("received invalid party ID");
       }
+      seen[id] = true;
       int port;
       ctx.network.Party(i)->Recv(port);
       parties[id] = scl::Party{id, mHostnames[id], port};
-- 
2.43.0


From 653755a9ab3fe1201ed3b5680d320f4d21fc47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 19/20] fix: the discovery server gives every party the host it
 connected from whatever the order of the connections, and closes its socket

---
 .../include/scl/net/tcp_utils.h               |  7 ++++
 .../src/scl/net/discovery/server.cc           | 40 +++++++++++++------
 .../src/scl/net/tcp_utils.cc                  |  4 ++
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/secure-computation-library/include/scl/net/tcp_utils.h b/secure-computation-library/include/scl/net/tcp_utils.h
index 1efee67..7766617 100644
--- a/secure-computation-library/include/scl/net/tcp_utils.h
+++ b/secure-computation-library/include/scl/net/tcp_utils.h
@@ -89,6 +89,13 @@ int CloseSocket(int socket);
  */
 int ReadFromSocket(int socket, unsigned char* dst, std::size_t n);
 
+/**
+ * @brief Read from a socket, but leave what is read to be read again.
+ *
+ * Waits until n bytes have arrived, or no more will.
+ */
+int PeekSocket(int socket, unsigned char* dst, std::size_t n);
+
 /**
  * @brief Write to a socket.
  */
diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0b15c7f..74d222c 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -1,6 +1,7 @@
 #include "scl/net/discovery/server.h"
 
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 #include "scl/net/tcp_utils.h"
@@ -8,22 +9,35 @@
 using Server = scl::DiscoveryServer;
 
 scl::NetworkConfig Server::Run(const scl::Party& me) {
+  if (me.id >= mNumberOfParties) throw std::invalid_argument("invalid id");
+
   // one of the parties is us, which we do not connect to.
   auto ssock = scl::details::CreateServerSocket(mPort, mNumberOfParties - 1);
-  std::vector<std::shared_ptr<scl::Channel>> channels;
-  std::vector<std::string> hostnames;
-
-  for (std::size_t i = 0; i < mNumberOfParties; ++i) {
-    if (i == me.id) {
-      channels.emplace_back(nullptr);
-      hostnames.emplace_back(me.hostname);
-    } else {
-      auto ac = scl::details::AcceptConnection(ssock);
-      auto hostname = scl::details::GetAddress(ac);
-      auto channel = std::make_shared<scl::TcpChannel>(ac.socket);
-      channels.emplace_back(channel);
-      hostnames.emplace_back(hostname);
+  std::vector<scl::details::AcceptedConnection> connections;
+  std::vector<std::shared_ptr<scl::Channel>> accepted;
+  for (std::size_t i = 1; i < mNumberOfParties; ++i) {
+    auto ac = scl::details::AcceptConnection(ssock);
+    connections.emplace_back(ac);
+    accepted.emplace_back(std::make_shared<scl::TcpChannel>(ac.socket));
+  }
+  scl::details::CloseSocket(ssock);
+
+  // Channels and hostnames are ordered by id, but the clients may connect in
+  // any order. So look at the id that each of them is about to announce.
+  std::vector<std::shared_ptr<scl::Channel>> channels(mNumberOfParties);
+  std::vector<std::string> hostnames(mNumberOfParties);
+  hostnames[me.id] = me.hostname;
+  for (std::size_t i = 0; i < connections.size(); ++i) {
+    unsigned id;
+    auto read = scl::details::PeekSocket(
+        connections[i].socket, reinterpret_cast<unsigned char*>(&id),
+        sizeof(id));
+    if (read != sizeof(id) || id >= mNumberOfParties || id == me.id ||
+        channels[id]) {
+      throw std::logic_error("received invalid party ID");
     }
+    channels[id] = accepted[i];
+    hostnames[id] = scl::details::GetAddress(connections[i]);
   }
 
   Server::CollectIdsAndPorts discovery(hostnames);
diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index 88dcb1b..e0c210c 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -84,6 +84,10 @@ int scl::details::ReadFromSocket(int socket, unsigned char* dst,
   return ::read(socket, dst, n);
 }
 
+int scl::details::PeekSocket(int socket, unsigned char* dst, std::size_t n) {
+  return ::recv(socket, dst, n, MSG_PEEK | MSG_WAITALL);
+}
+
 int scl::details::WriteToSocket(int socket, const unsigned char* src,
                                 std::size_t n) {
   // without MSG_NOSIGNAL, writing to a closed connection kills the process
-- 
2.43.0


From 8ea49b84fa422359bc6db1b86887b02fa1296a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 20/20] fix: check the size of a received matrix without
 overflow

The product of the announced row and column counts was computed in 32 bits,
so that a peer announcing e.g. 65536 x 65536 passed the limit, after which the
receiver tried to allocate the whole matrix.
---
 secure-computation-library/include/scl/net/channel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..bd73336 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -210,9 +210,10 @@ class Channel {
   void Recv(Mat<T>& mat) {
     auto rows = RecvSize();
     auto cols = RecvSize();
-    if (rows * cols > MAX_MAT_READ_SIZE)
+    // the product of two 32-bit sizes does not fit in 32 bits.
+    if (std::uint64_t(rows) * cols > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
-    auto n = rows * cols * T::ByteSize();
+    auto n = std::size_t(rows) * cols * T::ByteSize();
     auto buf = std::make_unique<unsigned char[]>(n);
     Recv(_SCL_C(buf.get()), n);
     mat = Mat<T>::Read(rows, cols, _SCL_CC(buf.get()));
-- 
2.43.0

