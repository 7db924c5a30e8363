From edd02f6986a600857e24e723e7ab0fe8fdd5255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 01/25] fix: decode the signature type of a descriptor

The nibble was masked with 0xF0 after shifting it down, so it always read
as zero and descriptors of other signature schemes were taken for XMSS.
---
 src/qrl/qrlDescriptor.h                | 6 +++++-
 src/rust_wrapper/qrl/qrl_descriptor.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..178a11d 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -65,10 +65,14 @@ public:
         }
 
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
+        if (signatureType!=eSignatureType::XMSS) {
+            throw std::invalid_argument("Signature type not supported");
+        }
+
         return {hashFunction, signatureType, height, addrFormatType};
     }
 
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
-- 
2.43.0


From aef92d79155da7a1494336a9b19e779374b4daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 02/25] fix: refuse unknown hash functions and address formats

core_hash computes nothing for an unknown hash function, so verification
compared uninitialised memory with the root in the public key and wallets
were built from uninitialised keys.
---
 src/qrl/qrlDescriptor.h | 16 ++++++++++++----
 src/qrl/xmssBase.cpp    | 10 ++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 178a11d..1a0c1fd 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -64,15 +64,23 @@ public:
             throw std::invalid_argument("Descriptor size should be 3 bytes");
         }
 
+        if ((bytes[0] & 0x0F)>eHashFunction::SHAKE_256) {
+            throw std::invalid_argument("Hash function not supported");
+        }
+
+        if (((bytes[0] >> 4) & 0x0F)!=eSignatureType::XMSS) {
+            throw std::invalid_argument("Signature type not supported");
+        }
+
+        if (((bytes[1] & 0xF0) >> 4)!=eAddrFormatType::SHA256_2X) {
+            throw std::invalid_argument("Address format type not supported");
+        }
+
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
         auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
-        if (signatureType!=eSignatureType::XMSS) {
-            throw std::invalid_argument("Signature type not supported");
-        }
-
         return {hashFunction, signatureType, height, addrFormatType};
     }
 
diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index a5b8c32..d5a7092 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -47,6 +47,16 @@ XmssBase::XmssBase(const TSEED& seed,
     if (height>XMSS_MAX_HEIGHT) {
         throw std::invalid_argument("Height should be <= 254");
     }
+
+    if (hashFunction!=eHashFunction::SHA2_256 &&
+        hashFunction!=eHashFunction::SHAKE_128 &&
+        hashFunction!=eHashFunction::SHAKE_256) {
+        throw std::invalid_argument("Hash function not supported");
+    }
+
+    if (addrFormatType!=eAddrFormatType::SHA256_2X) {
+        throw std::invalid_argument("Address format type not supported");
+    }
 }
 
 XmssBase::XmssBase(const TSEED& extended_seed)
-- 
2.43.0


From 99abb45664c4a45e95c51f4bf766e3cd2f0885ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 03/25] fix: refuse to sign with a basic wallet whose index is
 beyond the tree

compute_authpath_wots read past the tree it had built and the signature was
worthless; the Rust version panicked.
---
 src/qrl/xmssBasic.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_basic.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..8b9bde1 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getIndex() >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index a17c086..da9a3f0 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -90,6 +90,10 @@ impl XMSSBaseTrait for XMSSBasic {
 
 impl Sign for XMSSBasic {
     fn sign(&mut self, message: &TMESSAGE) -> Result<TSIGNATURE, QRLError> {
+        if self.get_index() >= self.get_number_signatures() {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
         let mut signature: TSIGNATURE =
             vec![0; self.get_signature_size(Some(self.params.wots_par.w)) as usize];
         let message_len = message.len();
-- 
2.43.0


From 72f2339820a1c519d33c88c567c4764e026af434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 04/25] fix: keep the high byte of the WOTS checksum for w =
 256

When len_2 * log_w is a multiple of eight nothing has to be shifted, but the
checksum was shifted by eight bits and its high byte lost, so the chains of
one signature could be advanced to sign other digests.
---
 src/rust_wrapper/xmss_alt/wots.rs | 4 ++--
 src/xmss-alt/wots.c               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index b1f5a33..16ea6ed 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -179,7 +179,7 @@ pub fn wots_sign(
         csum += params.w as i32 - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params.len_2 * params.log_w) % 8));
+    csum = csum << ((8 - ((params.len_2 * params.log_w) % 8)) % 8);
 
     let len_2_bytes = ((params.len_2 * params.log_w) + 7) / 8;
 
@@ -242,7 +242,7 @@ pub fn wots_pk_from_sig(
         csum += XMSS_WOTS_W - 1 - basew[i] as u32;
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(
         &mut csum_bytes,
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index bb02e9d..2062c38 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -134,7 +134,7 @@ void wots_sign(eHashFunction hash_func,
         csum += params->w - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params->len_2 * params->log_w) % 8));
+    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);
 
     uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;
 
@@ -183,7 +183,7 @@ void wots_pkFromSig(eHashFunction hash_func,
         csum += XMSS_WOTS_W - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
     base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);
-- 
2.43.0


From ec4b134783dc42535e9fcfcbfa17d2a41f7c3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 05/25] fix: hash long messages without exhausting the stack

core_hash copied the whole input into a variable-length array, so signing or
verifying a message of a few megabytes crashed the process.
---
 src/xmss-alt/hash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xmss-alt/hash.c b/src/xmss-alt/hash.c
index ca85d75..970d4ea 100644
--- a/src/xmss-alt/hash.c
+++ b/src/xmss-alt/hash.c
@@ -10,6 +10,7 @@ This code was taken from the XMSS reference implementation by Andreas Hülsing a
 #include "fips202.h"
 #include "shasha.h"
 #include <cstdio>
+#include <vector>
 
 unsigned char *addr_to_byte(unsigned char *bytes, const uint32_t addr[8]) {
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
@@ -32,7 +33,9 @@ int core_hash(eHashFunction hash_func,
               unsigned long long inlen,
               unsigned int n) {
     unsigned long long i = 0;
-    unsigned char buf[inlen + n + keylen];
+    // on the heap: messages of any length are hashed here
+    std::vector<unsigned char> buf_storage(inlen + n + keylen);
+    unsigned char *buf = buf_storage.data();
 
     // Input is (toByte(X, 32) || KEY || M)
 
-- 
2.43.0


From 39de4b3e1ffd82ef817034fd6a142eadff12848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 06/25] fix: build the tree of a basic wallet on the heap

Signing with a basic wallet of height 18 or more overflowed the stack.
---
 src/xmss-alt/algsxmss.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..6a4a5f2 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -124,7 +125,9 @@ static void compute_authpath_wots(eHashFunction hash_func,
     uint32_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    // on the heap: 64 bytes per leaf do not fit the stack for tall trees
+    std::vector<unsigned char> tree_storage(2 * (static_cast<size_t>(1) << h) * n);
+    unsigned char *tree = tree_storage.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
-- 
2.43.0


From f040bacfb14eaaf68a33b8d89ba2bc31e7678152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 07/25] fix: refuse heights the descriptor cannot represent

Keys of taller trees carried a descriptor with a different height, so their
signatures never verified, and from height 32 on tree sizes overflowed.
---
 src/qrl/xmssBase.cpp               |  7 ++++---
 src/rust_wrapper/qrl/xmss_base.rs  |  7 ++++---
 src/rust_wrapper/qrl/xmss_basic.rs | 15 +++++++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index d5a7092..8dd6476 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -18,7 +18,8 @@
 
 //constexpr size_t SIGNATURE_BASE_SIZE  = 4+32+67*32;
 
-constexpr size_t XMSS_MAX_HEIGHT=254;
+// The descriptor has four bits for half the height
+constexpr size_t XMSS_MAX_HEIGHT=30;
 
 // FIXME: Use a union for this
 constexpr size_t OFFSET_IDX = 0;
@@ -45,7 +46,7 @@ XmssBase::XmssBase(const TSEED& seed,
     }
 
     if (height>XMSS_MAX_HEIGHT) {
-        throw std::invalid_argument("Height should be <= 254");
+        throw std::invalid_argument("Height should be <= 30");
     }
 
     if (hashFunction!=eHashFunction::SHA2_256 &&
@@ -223,7 +224,7 @@ bool XmssBase::verify(const TMESSAGE& message,
         const uint32_t SIGNATURE_BASE_SIZE = calculateSignatureBaseSize(wotsParamW);
         if (signature.size()>SIGNATURE_BASE_SIZE+XMSS_MAX_HEIGHT*32)
         {
-            throw std::invalid_argument("invalid signature size. Height<=254");
+            throw std::invalid_argument("invalid signature size. Height<=30");
         }
 
         auto desc = QRLDescriptor::fromExtendedPK(extended_pk);
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index acacf2c..12f539e 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -31,7 +31,8 @@ pub type TKEY = Vec<u8>;
 
 //const SIGNATURE_BASE_SIZE: usize  = 4+32+67*32;
 
-const XMSS_MAX_HEIGHT: usize = 254;
+// The descriptor has four bits for half the height
+const XMSS_MAX_HEIGHT: usize = 30;
 
 // FIXME: Use a union for this
 const OFFSET_IDX: usize = 0;
@@ -66,7 +67,7 @@ impl XMSSBase {
             ))
         } else if height as usize > XMSS_MAX_HEIGHT {
             Err(QRLError::InvalidArgument(
-                "Height should be <= 254".to_owned(),
+                "Height should be <= 30".to_owned(),
             ))
         } else {
             Ok(Self {
@@ -266,7 +267,7 @@ pub trait XMSSBaseTrait {
         let signature_base_size: usize = Self::calculate_signature_base_size(wots_param_w) as usize;
         if signature.len() > signature_base_size + XMSS_MAX_HEIGHT * 32 {
             return Err(QRLError::InvalidArgument(
-                "invalid signature size. Height<=254".to_owned(),
+                "invalid signature size. Height<=30".to_owned(),
             ));
         }
 
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index da9a3f0..34ed45e 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -16,7 +16,7 @@ pub struct XMSSBasic {
 
 impl XMSSBasic {
     pub fn new(
-        mut seed: TSEED,
+        seed: TSEED,
         height: u8,
         hash_function: HashFunction,
         addr_format_type: AddrFormatType,
@@ -33,7 +33,7 @@ impl XMSSBasic {
         //    32 pub_seed
         //    32 root
 
-        let mut sk: TKEY = vec![0; Self::SECRET_KEY_SIZE];
+        let sk: TKEY = vec![0; Self::SECRET_KEY_SIZE];
         let mut tmp: TKEY = vec![0; 64];
 
         // FIXME: At the moment, the lib takes 48 bytes from the seed vector
@@ -55,9 +55,16 @@ impl XMSSBasic {
 
         let params = XMSSParams::new(n, height as u32, w, k)?;
 
-        xmss_gen_keypair(&hash_function, &params, &mut tmp, &mut sk, &mut seed);
+        let mut base = XMSSBase::new(hash_function, addr_format_type, height, sk, seed)?;
+
+        xmss_gen_keypair(
+            &base.hash_function,
+            &params,
+            &mut tmp,
+            &mut base.sk,
+            &mut base.seed,
+        );
 
-        let base = XMSSBase::new(hash_function, addr_format_type, height, sk, seed)?;
         Ok(Self { base, params })
     }
 }
-- 
2.43.0


From 95bcde1bb2e64740d91414e475430330e6fc5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 08/25] fix: refuse signature sizes beyond the tallest tree

The height was truncated to eight bits, so huge sizes gave small heights.
---
 src/qrl/xmssBase.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_base.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index 8dd6476..acb55eb 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -104,6 +104,10 @@ uint8_t XmssBase::getHeightFromSigSize(size_t sigSize, uint32_t wotsParamW)
 
     auto height = (sigSize - SIGNATURE_BASE_SIZE)/32;
 
+    if (height>XMSS_MAX_HEIGHT) {
+        throw std::invalid_argument("Invalid signature size");
+    }
+
     return static_cast<uint8_t>(height);
 }
 
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index 12f539e..8c68d0e 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -174,6 +174,12 @@ pub trait XMSSBaseTrait {
 
         let height = (sig_size - signature_base_size) / 32;
 
+        if height > XMSS_MAX_HEIGHT {
+            return Err(QRLError::InvalidArgument(
+                "Invalid signature size".to_owned(),
+            ));
+        }
+
         Ok(height as u8)
     }
 
-- 
2.43.0


From 1a185fd4de0f6b5485caafa95b1e1e39fc215dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 09/25] fix: give copies of a fast wallet their own traversal
 state

The copied state pointed into the vectors of the original, so the two
corrupted each other's authentication paths and a copy that outlived its
original used freed memory.
---
 src/qrl/xmssFast.cpp | 49 ++++++++++++++++++++++++++++++++++++++++++++
 src/qrl/xmssFast.h   |  7 +++++++
 2 files changed, 56 insertions(+)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index ca25154..ed30707 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -19,6 +19,55 @@ XmssFast::XmssFast(const TSEED& extended_seed)
     initialize_tree();
 }
 
+XmssFast::XmssFast(const XmssFast& other)
+    : XmssBase(other),
+      _state(other._state),
+      _stackoffset(other._stackoffset),
+      _stack(other._stack),
+      _stacklevels(other._stacklevels),
+      _auth(other._auth),
+      _keep(other._keep),
+      _treehash(other._treehash),
+      _th_nodes(other._th_nodes),
+      _retain(other._retain)
+{
+    bind_state();
+}
+
+XmssFast& XmssFast::operator=(const XmssFast& other)
+{
+    XmssBase::operator=(other);
+    _state = other._state;
+    _stackoffset = other._stackoffset;
+    _stack = other._stack;
+    _stacklevels = other._stacklevels;
+    _auth = other._auth;
+    _keep = other._keep;
+    _treehash = other._treehash;
+    _th_nodes = other._th_nodes;
+    _retain = other._retain;
+    bind_state();
+
+    return *this;
+}
+
+void XmssFast::bind_state()
+{
+    for (size_t i = 0; i < _treehash.size(); i++) {
+        _treehash[i].node = &_th_nodes[params.n * i];
+    }
+
+    xmss_set_bds_state(&_state,
+            _stack.data(),
+            _state.stackoffset,
+            _stacklevels.data(),
+            _auth.data(),
+            _keep.data(),
+            _treehash.data(),
+            _retain.data(),
+            _state.next_leaf);
+}
+
 void XmssFast::initialize_tree(uint32_t wotsParamW)
 {
     _sk = TKEY(132, 0);
diff --git a/src/qrl/xmssFast.h b/src/qrl/xmssFast.h
index 97d6b40..d619cea 100644
--- a/src/qrl/xmssFast.h
+++ b/src/qrl/xmssFast.h
@@ -19,11 +19,18 @@ public:
 
     XmssFast(const TSEED& extended_seed);
 
+    // _state points into the vectors below, so copies need their own pointers
+    XmssFast(const XmssFast& other);
+
+    XmssFast& operator=(const XmssFast& other);
+
     TSIGNATURE sign(const TMESSAGE& message) override;
 
     unsigned int setIndex(unsigned int new_index) override;
 
 protected:
+    void bind_state();
+
     bds_state _state;
     unsigned int _stackoffset = 0;
     std::vector<unsigned char> _stack;
-- 
2.43.0


From 39c79fce71fb4c6008a33207c336e0758f6207bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 10/25] fix: count the words of a mnemonic, not its spaces

A trailing or doubled space made odd phrases decode to a truncated byte
string and refused correct ones.
---
 src/qrl/misc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..ca8d615 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <unordered_map>
 #include <fstream>
+#include <iterator>
 
 std::string bin2hstr(const std::vector<unsigned char> &vec, uint32_t wrap) {
     std::stringstream ss;
@@ -86,7 +87,9 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
+    std::stringstream words(mnemonic);
+    auto word_count = std::distance(std::istream_iterator<std::string>(words),
+                                    std::istream_iterator<std::string>());
     if (word_count%2!=0)
     {
         throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
-- 
2.43.0


From 445a8e935ae21a8e99a1a22b05eed81d3afc5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 11/25] fix: check the sizes of Dilithium keys and signed
 messages

Short buffers were read out of bounds; in Rust keys of the wrong size
panicked instead of giving the error the signature promises.
---
 src/dilithium/dilithium.cpp             | 26 ++++++++++++++++++++++++-
 src/rust_wrapper/dilithium/dilithium.rs |  4 ++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/dilithium/dilithium.cpp b/src/dilithium/dilithium.cpp
index ade7d34..c19e6fb 100644
--- a/src/dilithium/dilithium.cpp
+++ b/src/dilithium/dilithium.cpp
@@ -3,6 +3,7 @@
 
 #include <string>
 #include <vector>
+#include <stdexcept>
 #include <cstdint>
 #include "dilithium.h"
 
@@ -18,7 +19,15 @@ Dilithium::Dilithium(const std::vector<uint8_t> &pk, const std::vector<uint8_t>
     _pk(pk),
     _sk(sk)
 {
-    // TODO: Verify sizes - CRYPTO_SECRETKEYBYTES / CRYPTO_PUBLICKEYBYTES
+    if (pk.size()!=CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
+    if (sk.size()!=CRYPTO_SECRETKEYBYTES)
+    {
+        throw std::invalid_argument("sk. Invalid size");
+    }
 }
 
 std::vector<uint8_t> Dilithium::sign(const std::vector<uint8_t> &message)
@@ -44,6 +53,11 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
                           const std::vector<uint8_t> &message_signed,
                           const std::vector<uint8_t> &pk)
 {
+    if (pk.size()!=CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
     auto message_size = message_signed.size();
     message_output.resize(message_size);
 
@@ -60,10 +74,20 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
 
 std::vector<uint8_t> Dilithium::extract_message(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("signed message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin() + CRYPTO_BYTES, message_output.end());
 }
 
 std::vector<uint8_t> Dilithium::extract_signature(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("signed message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin(), message_output.begin() + CRYPTO_BYTES);
 }
diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index f9706c7..5a9fe01 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -18,8 +18,8 @@ pub struct Dilithium {
 
 impl Dilithium {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)?;
+        let sk = SecretKey::from_bytes(sk_bytes)?;
         Ok(Self { pk, sk })
     }
 
-- 
2.43.0


From 25d29822e84f713d320724f94e3007606cd22b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 12/25] fix: take the parts of a signed message from where they
 are (Rust)

The signature comes first, but extract_message returned the beginning and
extract_signature the end; inputs shorter than a signature panicked.
---
 src/rust_wrapper/dilithium/dilithium.rs | 33 +++++++++++++------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index 5a9fe01..c2c4368 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -2,8 +2,7 @@
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 use pqcrypto_dilithium::dilithium5::*;
 use pqcrypto_traits::sign::{
-    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, SignedMessage as SignedMessageTrait,
-    VerificationError,
+    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, VerificationError,
 };
 use pqcrypto_traits::Error;
 
@@ -54,23 +53,25 @@ impl Dilithium {
     }
 
     pub fn extract_message(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get(0..(valid_message_output.len() - CRYPTO_BYTES as usize))
-                .unwrap(),
-        ))
+        Self::check_signed_message(message_output)?;
+        Ok(Vec::from(&message_output[CRYPTO_BYTES..]))
     }
 
     pub fn extract_signature(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get((message_output.len() - CRYPTO_BYTES as usize)..(message_output.len()))
-                .unwrap(),
-        ))
+        Self::check_signed_message(message_output)?;
+        Ok(Vec::from(&message_output[..CRYPTO_BYTES]))
+    }
+
+    // A signed message is the signature followed by the message
+    fn check_signed_message(message_output: &Vec<u8>) -> Result<(), Error> {
+        if message_output.len() < CRYPTO_BYTES {
+            return Err(Error::BadLength {
+                name: "SignedMessage",
+                actual: message_output.len(),
+                expected: CRYPTO_BYTES,
+            });
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 625933aae45d961f2b070da913823a8b0878a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 13/25] fix: check the sizes of Kyber keys and cipher texts

Short buffers were read out of bounds; in Rust keys of the wrong size
panicked instead of giving the error the signature promises.
---
 src/kyber/kyber.cpp             | 11 +++++++++--
 src/rust_wrapper/kyber/kyber.rs |  8 +++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/kyber/kyber.cpp b/src/kyber/kyber.cpp
index 5478ea2..d218764 100644
--- a/src/kyber/kyber.cpp
+++ b/src/kyber/kyber.cpp
@@ -34,7 +34,10 @@ Kyber::Kyber()
 
 bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 {
-    // TODO: Verify sizes (other_pk)
+    if (other_pk.size()!=KYBER_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
 
     _key.resize(KYBER_SYMBYTES);
     _ct.resize(KYBER_CIPHERTEXTBYTES);
@@ -48,7 +51,11 @@ bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 
 bool Kyber::kem_decode(const std::vector<uint8_t> &cyphertext)
 {
-    // TODO: Verify sizes (other_pk)
+    if (cyphertext.size()!=KYBER_CIPHERTEXTBYTES)
+    {
+        throw std::invalid_argument("cyphertext. Invalid size");
+    }
+
     _key.resize(KYBER_SYMBYTES);
 
     auto validation_error = crypto_kem_dec(_key.data(),
diff --git a/src/rust_wrapper/kyber/kyber.rs b/src/rust_wrapper/kyber/kyber.rs
index fc6e0eb..b9613b4 100644
--- a/src/rust_wrapper/kyber/kyber.rs
+++ b/src/rust_wrapper/kyber/kyber.rs
@@ -5,7 +5,7 @@ pub use pqcrypto_traits::kem::{
     Ciphertext as CiphertextTrait, PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait,
     SharedSecret as SharedSecretTrait,
 };
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 
 pub const KYBER_PUBLICKEYBYTES: usize = public_key_bytes();
 pub const KYBER_SECRETKEYBYTES: usize = secret_key_bytes();
@@ -22,8 +22,10 @@ pub struct Kyber {
 
 impl Kyber {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)
+            .map_err(|e| Error::new(ErrorKind::InvalidInput, e.to_string()))?;
+        let sk = SecretKey::from_bytes(sk_bytes)
+            .map_err(|e| Error::new(ErrorKind::InvalidInput, e.to_string()))?;
         let (ss, ct) = encapsulate(&pk);
         Ok(Self { pk, sk, ss, ct })
     }
-- 
2.43.0


From b138a6a3e69c4fe9803d657958c45c0a02728830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 14/25] fix: extract messages from one buffer in the Dilithium
 JS wrapper

The iterators came from two different temporaries.
---
 src/jswrapper/jsdilwrapper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index 079d2a9..f2ac5e1 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -65,8 +65,7 @@ namespace {
 
         static std::string extract_message(const std::string& message_output)
         {
-            std::vector<uint8_t> vec;
-            vec.assign( hstr2bin(message_output).begin(), hstr2bin(message_output).end());
+            std::vector<uint8_t> vec = hstr2bin(message_output);
             return bin2hstr( Dilithium::extract_message( vec ) );
         }
 
-- 
2.43.0


From 23d26ced9ef0e71257047d6707e4551001a5b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 15/25] fix: fail in the JS wrapper when a Dilithium signature
 does not verify

sign_open dropped the result of the verification, so callers could not tell
a forged message from a signed one.
---
 src/jswrapper/jsdilwrapper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index f2ac5e1..d2fe936 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -1,6 +1,7 @@
 #include <emscripten.h>
 #include <emscripten/bind.h>
 #include <iostream>
+#include <stdexcept>
 #include <dilithium.h>
 #include <misc.h>
 
@@ -59,7 +60,10 @@ namespace {
         { 
             std::vector<uint8_t> vec;
             vec.assign(message_output.begin(), message_output.end());
-            Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk));
+            if (!Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk)))
+            {
+                throw std::invalid_argument("invalid signature");
+            }
             return bin2hstr(vec);
         }
 
-- 
2.43.0


From b20c87178c50fe7cce5c1a7bcb73665dab7ad0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 16/25] fix: refuse Winternitz parameters the digit encoding
 cannot handle

Values such as 0, 1 or 8 divided by zero, read past the digest or gave
parameter sets that cannot work; verify now answers false for them.
---
 src/qrl/xmssFast.cpp                     |  6 +++---
 src/rust_wrapper/qrl/xmss_base.rs        |  2 ++
 src/rust_wrapper/xmss_alt/wots.rs        | 13 +++++++++++++
 src/rust_wrapper/xmss_alt/xmss_common.rs |  1 +
 src/xmss-alt/wots.c                      |  6 ++++++
 5 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index ed30707..5d5bfdd 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -70,9 +70,6 @@ void XmssFast::bind_state()
 
 void XmssFast::initialize_tree(uint32_t wotsParamW)
 {
-    _sk = TKEY(132, 0);
-    auto tmp = TKEY(64, 0);
-
     const uint32_t k = 2;
     const uint32_t w = wotsParamW;
     const uint32_t n = 32;
@@ -83,6 +80,9 @@ void XmssFast::initialize_tree(uint32_t wotsParamW)
 
     xmss_set_params(&params, n, _height, w, k);
 
+    _sk = TKEY(132, 0);
+    auto tmp = TKEY(64, 0);
+
     _stackoffset = 0;
     _stack = std::vector<unsigned char>((_height + 1) * n);
     _stacklevels = std::vector<unsigned char>(_height + 1);
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index 8c68d0e..b535eb2 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -159,6 +159,7 @@ pub trait XMSSBaseTrait {
         sig_size: usize,
         wots_param_w: Option<u32>,
     ) -> Result<u8, QRLError> {
+        WOTSParams::check_w(wots_param_w.unwrap_or(16))?;
         let signature_base_size = Self::calculate_signature_base_size(wots_param_w) as usize;
         if sig_size < signature_base_size {
             return Err(QRLError::InvalidArgument(
@@ -270,6 +271,7 @@ pub trait XMSSBaseTrait {
                 "Invalid extended_pk size. It should be 67 bytes".to_owned(),
             ));
         }
+        WOTSParams::check_w(wots_param_w.unwrap_or(16))?;
         let signature_base_size: usize = Self::calculate_signature_base_size(wots_param_w) as usize;
         if signature.len() > signature_base_size + XMSS_MAX_HEIGHT * 32 {
             return Err(QRLError::InvalidArgument(
diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index 16ea6ed..e54d87f 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -2,6 +2,7 @@ use super::hash::{hash_f, prf};
 use super::hash_address::{set_chain_adrs, set_hash_adrs};
 use super::hash_functions::HashFunction;
 use super::xmss_common::to_byte;
+use crate::rust_wrapper::errors::QRLError;
 use std::cmp::min;
 
 macro_rules! log2 {
@@ -28,6 +29,18 @@ pub struct WOTSParams {
 }
 
 impl WOTSParams {
+    /**
+     * base_w needs digits that fill whole bytes
+     */
+    pub fn check_w(w: u32) -> Result<(), QRLError> {
+        match w {
+            2 | 4 | 16 | 256 => Ok(()),
+            _ => Err(QRLError::InvalidArgument(
+                "Winternitz parameter should be 2, 4, 16 or 256".to_owned(),
+            )),
+        }
+    }
+
     /**
      * Set the WOTS parameters,
      * only n and w are required as inputs,
diff --git a/src/rust_wrapper/xmss_alt/xmss_common.rs b/src/rust_wrapper/xmss_alt/xmss_common.rs
index 73b8254..6c44273 100644
--- a/src/rust_wrapper/xmss_alt/xmss_common.rs
+++ b/src/rust_wrapper/xmss_alt/xmss_common.rs
@@ -26,6 +26,7 @@ impl XMSSParams {
                 "For BDS traversal, H - K must be even, with H > K >= 2!".to_owned(),
             ))
         } else {
+            WOTSParams::check_w(w)?;
             let wots_par = WOTSParams::new(n, w);
             Ok(XMSSParams { wots_par, n, h, k })
         }
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index 2062c38..4cd2608 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -11,12 +11,18 @@ Public domain.
 
 #include <cmath>
 #include <cstdint>
+#include <stdexcept>
 #include "xmss_common.h"
 #include "hash.h"
 #include "hash_address.h"
 
 
 void wots_set_params(wots_params *params, int n, int w) {
+    // base_w needs digits that fill whole bytes
+    if (w != 2 && w != 4 && w != 16 && w != 256) {
+        throw std::invalid_argument("Winternitz parameter should be 2, 4, 16 or 256");
+    }
+
     params->n = n;
     params->w = w;
     params->log_w = (int) log2(w);
-- 
2.43.0


From 485814ff16c1647b673585666877ea3af8aff86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 17/25] fix: refuse sizes that are no integer when making a
 seed in JavaScript

A fractional size, or an array holding a number, passed the check and added elements that did not come
from the generator.
---
 src/jswrapper/getRandomSeed.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jswrapper/getRandomSeed.js b/src/jswrapper/getRandomSeed.js
index 7ba5c5a..0e1d125 100644
--- a/src/jswrapper/getRandomSeed.js
+++ b/src/jswrapper/getRandomSeed.js
@@ -11,7 +11,7 @@ Module['getRandomSeed'] = function (size) {
     if (size === undefined) {
         size = 48;
     }
-    if (!(size > 0)) {
+    if (!(size > 0) || size % 1 !== 0 || typeof size === 'object') {
         throw new Error('getRandomSeed: size must be a positive integer');
     }
 
-- 
2.43.0


From d541111fe56d8b70c86770c6c5eb73449cc882c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 18/25] fix: absorb every block of long SHAKE inputs (Rust)

keccak_absorb sliced the rest of the input with the length of the whole
input, and padded the last block with the first bytes of the input
instead of its last ones: inputs longer than one block were hashed
wrongly and those longer than two blocks panicked.
---
 src/rust_wrapper/xmss_alt/fips202.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..0ace1ac 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..m_clone.len()];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From 0b063770d5ba7790bb6bb0f76ad5d22f801cf07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 19/25] fix: split mnemonics at the same white space as the C++
 library (Rust)

split_whitespace() also splits at Unicode white space, so Rust decoded
phrases that the C++ and JavaScript libraries refuse.
---
 src/rust_wrapper/qrl/misc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/qrl/misc.rs b/src/rust_wrapper/qrl/misc.rs
index 43d7611..0bd4172 100644
--- a/src/rust_wrapper/qrl/misc.rs
+++ b/src/rust_wrapper/qrl/misc.rs
@@ -101,7 +101,12 @@ pub fn bin2mnemonic(vec: &Vec<u8>) -> Result<String, QRLError> {
 }
 
 pub fn mnemonic2bin(mnemonic: &String) -> Result<Vec<u8>, QRLError> {
-    let word_count = mnemonic.split_whitespace().count();
+    // the white space of C++ streams; other white space is no separator
+    let words: Vec<&str> = mnemonic
+        .split(|c: char| c == ' ' || ('\t'..='\r').contains(&c))
+        .filter(|word| !word.is_empty())
+        .collect();
+    let word_count = words.len();
     if word_count % 2 != 0 {
         return Err(QRLError::InvalidArgument(format!(
             "word count = {} must be even",
@@ -120,7 +125,7 @@ pub fn mnemonic2bin(mnemonic: &String) -> Result<Vec<u8>, QRLError> {
 
     let mut current = 0;
     let mut buffering = 0;
-    for word in mnemonic.split_whitespace() {
+    for word in words {
         let it = word_lookup.get(word);
         if it.is_none() {
             return Err(QRLError::InvalidArgument(format!(
-- 
2.43.0


From aa8c94d666d7a2b9118c8444b571523d5a8461fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:34 +0000
Subject: [PATCH 20/25] fix: compute offsets of tree nodes in size_t in basic
 signing

---
 src/xmss-alt/algsxmss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 6a4a5f2..341dc01 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -122,7 +122,7 @@ static void compute_authpath_wots(eHashFunction hash_func,
                                   unsigned char *pub_seed,
                                   uint32_t addr[8]) {
     uint32_t i, j, level;
-    uint32_t n = params->n;
+    const size_t n = params->n; // the offsets of nodes need more than 32 bits in tall trees
     uint32_t h = params->h;
 
     // on the heap: 64 bytes per leaf do not fit the stack for tall trees
-- 
2.43.0


From 4b028068816da9d2adfec51362f8fd765d357204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:34 +0000
Subject: [PATCH 21/25] fix: sign with basic wallets in trees of height 26 and
 more (Rust)

---
 src/rust_wrapper/xmss_alt/algsxmss.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/algsxmss.rs b/src/rust_wrapper/xmss_alt/algsxmss.rs
index 8b77ee4..f5564ab 100644
--- a/src/rust_wrapper/xmss_alt/algsxmss.rs
+++ b/src/rust_wrapper/xmss_alt/algsxmss.rs
@@ -167,7 +167,9 @@ fn compute_authpath_wots(
     let n = params.n;
     let h = params.h;
 
-    let tree_length = (2 * (1 << h) * n) as usize;
+    // offsets of nodes need more than 32 bits in tall trees
+    let node_len = n as usize;
+    let tree_length = 2 * (1usize << h) * node_len;
     let mut tree: Vec<u8> = vec![0; tree_length];
 
     let ots_addr: &mut [u32; 8] = &mut [0; 8];
@@ -186,7 +188,7 @@ fn compute_authpath_wots(
         set_ltree_adrs(ltree_addr, i);
         set_ots_adrs(ots_addr, i);
         let tree_length = tree.len();
-        let leaf_start = ((1 << h) * n + i * n) as usize;
+        let leaf_start = ((1usize << h) + i as usize) * node_len;
         let leaf = tree.get_mut(leaf_start..tree_length).unwrap();
         gen_leaf_wots(
             hash_func, leaf, sk_seed, params, pub_seed, ltree_addr, ots_addr,
@@ -203,9 +205,12 @@ fn compute_authpath_wots(
         for j in (0..i).step_by(2) {
             set_tree_index(node_addr, j >> 1);
             let tree_length = tree.len();
-            let mut input = vec![0; tree_length - (i * n + j * n) as usize];
-            input.copy_from_slice(tree.get((i * n + j * n) as usize..tree_length).unwrap());
-            let out_start = ((i >> 1) * n + (j >> 1) * n) as usize;
+            let in_start = (i as usize + j as usize) * node_len;
+            let input = tree
+                .get(in_start..in_start + 2 * node_len)
+                .unwrap()
+                .to_vec();
+            let out_start = ((i >> 1) as usize + (j >> 1) as usize) * node_len;
             let out = tree.get_mut(out_start..tree_length).unwrap();
             hash_h(hash_func, out, &input, pub_seed, node_addr, n);
         }
@@ -218,8 +223,8 @@ fn compute_authpath_wots(
         let dest = authpath
             .get_mut((i * n) as usize..((i * n) + n) as usize)
             .unwrap();
-        let src_start = (((1 << h) >> i) * n + (((leaf_idx >> i) ^ 1) as u32) * n) as usize;
-        let src_end = src_start + n as usize;
+        let src_start = (((1usize << h) >> i) + ((leaf_idx >> i) ^ 1) as usize) * node_len;
+        let src_end = src_start + node_len;
         let src = tree.get(src_start..src_end).unwrap();
         dest.copy_from_slice(src);
     }
-- 
2.43.0


From e3a1f508d0394a3de50ba2f801e61562a82b3175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:42 +0000
Subject: [PATCH 22/25] fix: count characters and nibbles of long strings in
 size_t

---
 src/qrl/misc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index ca8d615..582cb1f 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -53,7 +53,7 @@ std::vector<unsigned char> hstr2bin(const std::string &s) {
     }
 
     std::vector<unsigned char> result;
-    for (int i = 0; i < s.size(); i += 2) {
+    for (size_t i = 0; i < s.size(); i += 2) {
         if (!std::isxdigit(s[i]) || !std::isxdigit(s[i + 1])) {
             throw std::invalid_argument("invalid hex digits in the string");
         }
@@ -73,8 +73,8 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
     std::stringstream ss;
     std::string separator;
-    for (int nibble = 0; nibble < vec.size() * 2; nibble += 3) {
-        int p = nibble >> 1;
+    for (size_t nibble = 0; nibble < vec.size() * 2; nibble += 3) {
+        size_t p = nibble >> 1;
         int b1 = vec[p];
         int b2 = p + 1 < vec.size() ? vec[p + 1] : 0;
         int idx = nibble % 2 == 0 ? (b1 << 4) + (b2 >> 4) : ((b1 & 0x0F) << 8) + b2;
-- 
2.43.0


From 9de0bade8eabff20e6cdd7d2260dd1ebeb4e8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:13 +0000
Subject: [PATCH 23/25] fix: hash messages of 4 GiB and more instead of
 panicking (Rust)

---
 src/rust_wrapper/xmss_alt/hash.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/hash.rs b/src/rust_wrapper/xmss_alt/hash.rs
index 36af4c7..58cf1dd 100644
--- a/src/rust_wrapper/xmss_alt/hash.rs
+++ b/src/rust_wrapper/xmss_alt/hash.rs
@@ -34,10 +34,11 @@ pub fn core_hash(
     key: &[u8],
     keylen: u32,
     input: &[u8],
-    inlen: u32,
+    inlen: u64,
     n: u32,
 ) -> u32 {
-    let buf_size = (inlen + n + keylen) as usize;
+    let prefix_len = u64::from(n + keylen);
+    let buf_size = (prefix_len + inlen) as usize;
     let mut buf: Vec<u8> = vec![0; buf_size];
 
     // Input is (toByte(X, 32) || KEY || M)
@@ -50,24 +51,24 @@ pub fn core_hash(
     }
 
     for i in 0..inlen {
-        buf[(keylen + n + i) as usize] = input[i as usize];
+        buf[(prefix_len + i) as usize] = input[i as usize];
     }
 
     match hash_func {
         HashFunction::Shake128 if n == 32 => {
-            shake128(out, 32, &buf, (inlen + keylen + n).into());
+            shake128(out, 32, &buf, prefix_len + inlen);
             0
         }
         HashFunction::Shake128 if n == 64 => {
-            shake128(out, 64, &buf, (inlen + keylen + n).into());
+            shake128(out, 64, &buf, prefix_len + inlen);
             0
         }
         HashFunction::Shake256 if n == 32 => {
-            shake256(out, 32, &buf, (inlen + keylen + n).into());
+            shake256(out, 32, &buf, prefix_len + inlen);
             0
         }
         HashFunction::Shake256 if n == 64 => {
-            shake256(out, 64, &buf, (inlen + keylen + n).into());
+            shake256(out, 64, &buf, prefix_len + inlen);
             0
         }
         HashFunction::SHA2_256 if n == 32 => {
@@ -114,7 +115,7 @@ pub fn h_msg(
         key,
         keylen,
         input,
-        inlen.try_into().unwrap(),
+        inlen,
         n,
     );
 }
@@ -150,7 +151,7 @@ pub fn hash_h(
     for i in 0..(2 * n as usize) {
         buf[i] = input[i] ^ bitmask[i];
     }
-    return core_hash(hash_func, out, 1, &key, n, &buf, 2 * n, n);
+    return core_hash(hash_func, out, 1, &key, n, &buf, (2 * n).into(), n);
 }
 
 pub fn hash_f(
@@ -177,5 +178,5 @@ pub fn hash_f(
     for i in 0..n as usize {
         buf[i] = input[i] ^ bitmask[i];
     }
-    return core_hash(&hash_func, out, 0, &key, n, &buf, n, n);
+    return core_hash(&hash_func, out, 0, &key, n, &buf, n.into(), n);
 }
-- 
2.43.0


From 22e09aa9687ba5508e6e90b0e6e6724aaff07af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:18 +0000
Subject: [PATCH 24/25] fix: hash the message before the index of a fast wallet
 advances

---
 src/xmss-alt/algsxmss_fast.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/xmss-alt/algsxmss_fast.c b/src/xmss-alt/algsxmss_fast.c
index 6e255fb..638fbec 100644
--- a/src/xmss-alt/algsxmss_fast.c
+++ b/src/xmss-alt/algsxmss_fast.c
@@ -616,13 +616,6 @@ int xmssfast_Signmsg(eHashFunction hash_func,
 
     unsigned char hash_key[3 * n];
 
-    // Update SK
-    sk[0] = ((idx + 1) >> 24) & 255;
-    sk[1] = ((idx + 1) >> 16) & 255;
-    sk[2] = ((idx + 1) >> 8) & 255;
-    sk[3] = (idx + 1) & 255;
-    // -- Secret key for this non-forward-secure version is now updated.
-    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
     unsigned long long sig_msg_len;
     // Init working params
     unsigned char R[n];
@@ -644,6 +637,16 @@ int xmssfast_Signmsg(eHashFunction hash_func,
     // Then use it for message digest
     h_msg(hash_func, msg_h, msg, msglen, hash_key, 3 * n, n);
 
+    // Nothing is changed before the message is hashed, which throws when there is no memory for it: the index must
+    // not run ahead of the traversal state.
+    // Update SK
+    sk[0] = ((idx + 1) >> 24) & 255;
+    sk[1] = ((idx + 1) >> 16) & 255;
+    sk[2] = ((idx + 1) >> 8) & 255;
+    sk[3] = (idx + 1) & 255;
+    // -- Secret key for this non-forward-secure version is now updated.
+    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
+
     // Start collecting signature
     sig_msg_len = 0;
 
-- 
2.43.0


From 898a6a86d0b8e5dc8c6298fa319ef8316c3a6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:18 +0000
Subject: [PATCH 25/25] fix: do not lose a tree of a pool when no thread can be
 started

---
 src/qrl/xmssPool.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/qrl/xmssPool.cpp b/src/qrl/xmssPool.cpp
index 65e9aed..11580e5 100644
--- a/src/qrl/xmssPool.cpp
+++ b/src/qrl/xmssPool.cpp
@@ -2,6 +2,7 @@
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 #include <iostream>
 #include <algorithm>
+#include <system_error>
 #include "xmssFast.h"
 #include "xmssPool.h"
 #include "hashing.h"
@@ -21,9 +22,16 @@ void XmssPool::fillCache() {
     size_t end = _current_index + _pool_size;
 
     for (size_t i = start; i < end; i++) {
-        _cache.push_back(std::async(std::launch::async, [this](size_t idx) {
-            return prepareTree(idx);
-        }, i));
+        try {
+            _cache.push_back(std::async(std::launch::async, [this](size_t idx) {
+                return prepareTree(idx);
+            }, i));
+        } catch (const std::system_error &) {
+            // No thread can be started now. A tree that is not prepared ahead
+            // is built when it is asked for; throwing here would lose the tree
+            // getNextTree() is about to hand out.
+            break;
+        }
     }
 }
 
@@ -39,6 +47,8 @@ std::shared_ptr<XmssFast> XmssPool::getNextTree() {
             // Claim the index under the lock; build the tree outside it.
             index = _current_index++;
             cache_missed = true;
+
+            fillCache();
         } else {
             // Move the future out so that the wait below happens outside the
             // critical section. Leaving it in the deque and calling get() here
-- 
2.43.0

