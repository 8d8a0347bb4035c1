From 4a32c66e660fb8e50e5dee1e9eaff1f7a8f634e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:14 +0000
Subject: [PATCH 01/62] fix: SHA-512/t used a wrong message length, bit mask
 and set of t

The initial value is derived by hashing a string, and the length of that
string stayed in the counter of the new object. A last partial byte was
shifted back by the wrong amount. t = 0, 384 and 512 are not defined.
---
 src/sha/sha.rs    | 10 +++-------
 src/sha/sha512.rs |  6 ++++--
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sha/sha.rs b/src/sha/sha.rs
index aa2e9f1..1614dc9 100644
--- a/src/sha/sha.rs
+++ b/src/sha/sha.rs
@@ -50,13 +50,9 @@ impl SHA {
     }
 
     pub fn sha512t(bits_len: usize) -> Option<Self> {
-        if bits_len <= 512 {
-            Some(Self {
-                sha_: SHAType::SHA512T(SHA512T::new(bits_len).unwrap())
-            })
-        } else {
-            None
-        }
+        SHA512T::new(bits_len).map(|x| Self {
+            sha_: SHAType::SHA512T(x)
+        })
     }
     
     /// SHA512/256
diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index a272922..5a19fe2 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -197,7 +197,8 @@ pub struct SHA512T {
 
 impl SHA512T {
     pub fn new(bits_len: usize) -> Option<SHA512T> {
-        if bits_len <= 512 {
+        // FIPS 180-4: t is a positive integer less than 512 and not equal to 384
+        if bits_len > 0 && bits_len < 512 && bits_len != 384 {
             let mut sha_ = SHA512::new();
             sha_.digest.iter_mut().for_each(|e| {
                 *e = *e ^ 0xa5a5a5a5a5a5a5a5u64;
@@ -207,6 +208,7 @@ impl SHA512T {
             let mut _x = Vec::new();
             sha_.checksum(&mut _x);
             sha_.is_checked = false;
+            sha_.len = 0;
             Some(
                 SHA512T {
                     sha_,
@@ -239,7 +241,7 @@ impl Digest for SHA512T {
         match digest.pop() {
             Some(x) => {
                 let y = if rom > 0 {
-                    (x >> (8 - rom)) << rom
+                    (x >> (8 - rom)) << (8 - rom)
                 } else {
                     x
                 };
-- 
2.43.0


From 7d1efc943786fc1622494b427aae84f514d45ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:07 +0000
Subject: [PATCH 02/62] fix: writing to a finished digest mixed old padding
 into the new message

After checksum() the MD5, SHA-1, SHA-2 and SM3 objects kept their padded
state. A following write() appended to that state, so the next digest was
neither that of the new bytes nor of the concatenation. Start a new message
instead, as the SHA-3 types already do.
---
 src/md5/md5.rs    |  4 ++++
 src/sha/sha1.rs   |  4 ++++
 src/sha/sha256.rs |  8 ++++++++
 src/sha/sha512.rs | 12 ++++++++++++
 src/sm3/sm3.rs    |  4 ++++
 5 files changed, 32 insertions(+)

diff --git a/src/md5/md5.rs b/src/md5/md5.rs
index 97a6de0..0d896dc 100644
--- a/src/md5/md5.rs
+++ b/src/md5/md5.rs
@@ -39,6 +39,10 @@ impl Digest for MD5 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+        
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha1.rs b/src/sha/sha1.rs
index 0038e90..2840aab 100644
--- a/src/sha/sha1.rs
+++ b/src/sha/sha1.rs
@@ -35,6 +35,10 @@ impl Digest for SHA1 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+        
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha256.rs b/src/sha/sha256.rs
index 4cf23f4..bd37e5e 100644
--- a/src/sha/sha256.rs
+++ b/src/sha/sha256.rs
@@ -35,6 +35,10 @@ impl Digest for SHA256 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+        
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -126,6 +130,10 @@ impl Digest for SHA224 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked {
+            self.reset();
+        }
+        
         self.sha_.write(data);
     }
 
diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index 5a19fe2..0672d76 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -38,6 +38,10 @@ impl Digest for SHA512 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+        
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -169,6 +173,10 @@ macro_rules! impl_digest_for_sha512_series {
             }
         
             fn write(&mut self, data: &[u8]) {
+                if self.sha_.is_checked {
+                    self.reset();
+                }
+                
                 self.sha_.write(data);
             }
         
@@ -231,6 +239,10 @@ impl Digest for SHA512T {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked {
+            self.reset();
+        }
+        
         self.sha_.write(data);
     }
 
diff --git a/src/sm3/sm3.rs b/src/sm3/sm3.rs
index b2ae5d7..a56c0fd 100644
--- a/src/sm3/sm3.rs
+++ b/src/sm3/sm3.rs
@@ -124,6 +124,10 @@ impl Digest for SM3 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+        
         let mut data = data;
         self.len += data.len();
         
-- 
2.43.0


From 477473d6ef9b5d6d402b68f3a7e4a7e3236ae413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:23 +0000
Subject: [PATCH 03/62] fix: the Keccak sponge accepted rates outside 0 < rate
 < width

The documented range was joined with `||`, so every rate passed. A rate of 0
divided by zero on first use and a rate at or above the width gave output
that is not a sponge output.
---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 0e9185e..682336c 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -393,7 +393,7 @@ impl KeccakSponge {
     /// Sponge[Keccak-p[b,nr], pad10*1, rate]  
     /// `rate` must be a positive integer and strictly less than the width `self.widths()`.
     pub fn new(keccak: Keccak, rate: usize) -> Result<KeccakSponge, CryptoError> {
-        if rate > 0 || rate < keccak.widths() {
+        if rate > 0 && rate < keccak.widths() {
             Ok(KeccakSponge {
                 rate,
                 keccak,
-- 
2.43.0


From 7cbb40a84310d9f932098259ee99e2d767938617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:23 +0000
Subject: [PATCH 04/62] fix: the Keccak permutation read its input state in
 reverse order

Input bytes were taken last to first with the most significant bit first,
while the output and the sponge use the FIPS 202 convention. The result was
not Keccak-p of the given state, and the output could not be fed back in.
---
 src/keccak/keccak.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 682336c..cb5e92e 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -34,8 +34,8 @@ impl KeccakStateArr {
             sheet.iter_mut().enumerate().for_each(|(y, lane)| {
                 lane.iter_mut().take(w).enumerate().for_each(|(z, e)| {
                     let idx = (w * ((KECCAK_Y_SIZE * y) + x)) + z;
-                    let (num, rom) = (idx >> 3, 7 - (idx & 7));
-                    let tmp = s[s.len() - num - 1];
+                    let (num, rom) = (idx >> 3, idx & 7);
+                    let tmp = s[num];
                     *e = (tmp >> rom) & 1;
                 });
             });
-- 
2.43.0


From c170515a6f45430cac34f76d78499ebbcbf39400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:23 +0000
Subject: [PATCH 05/62] fix: wrong Keccak round constants for more than 12+2l
 rounds

Extra rounds have negative round indices. Those were masked to 32 bits before
the reduction modulo 255, which changes the residue.
---
 src/keccak/keccak.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index cb5e92e..6228c49 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -285,8 +285,7 @@ impl Keccak {
     
     fn rc(t: i64) -> u8 {
         const MODULUS: usize = 255;
-        let t = if t >= 0 {Self::minus_rem_euclid((t & 0xffffffff) as usize,0, MODULUS)}
-            else {Self::minus_rem_euclid(0, (t & 0xffffffff) as usize, MODULUS)};
+        let t = t.rem_euclid(MODULUS as i64) as usize;
         
         if t == 0 {
             1
-- 
2.43.0


From 5c0f3039f1a1b772829212f739e7d12405d41e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 06/62] fix: the default padding added a superfluous zero block

A message one byte short of a block boundary got a second block of zeros.
A decryption stream looks for the padding in the last block only, so it
refused such messages.
---
 src/cipher_mode/padding.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 58f1990..54052c8 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -28,13 +28,9 @@ impl<C: Cipher> DefaultPadding<C> {
 impl<C: Cipher> Padding for DefaultPadding<C> {
     fn padding(&self, buf: &mut Vec<u8>) {
         buf.push(0x80);
-        let old_len = buf.len();
-        if self.block_size < old_len {
-            buf.resize(old_len + (self.block_size - (old_len % self.block_size)), 0);
-        } else if self.block_size > old_len {
-            buf.resize(self.block_size, 0);
-        } else {
-            buf.resize(self.block_size << 1, 0);
+        let remain = buf.len() % self.block_size;
+        if remain > 0 {
+            buf.resize(buf.len() + (self.block_size - remain), 0);
         }
     }
 
-- 
2.43.0


From 8987e9c265961707430b3cc15b41e3b49eb3b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 07/62] fix: removing the default padding skipped over other
 bytes

Bytes other than 0x00 and 0x80 at the end of the data were ignored while
looking for the 0x80 marker. Such data is not padded and is refused now.
---
 src/cipher_mode/padding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 54052c8..eb8ec49 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -42,6 +42,8 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
             } else if e == 0x80 {
                 buf.truncate(buf.len() - len - 1);
                 return Ok(buf.len());
+            } else {
+                break;
             }
         }
         
-- 
2.43.0


From e94c7e2be35670e7c30da7c5cda8288e0f785a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 08/62] fix: CBC encrypted the padded last block without
 chaining

The padded block was passed to the cipher as it was, while decryption
expects it to be chained to the previous ciphertext block.
---
 src/cipher_mode/cbc.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 3c71d60..9013c14 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -149,14 +149,23 @@ impl<C, P, IV> Cipher for CBC<C, P, IV>
         let mut tmp = data.to_vec();
         self.padding.padding(&mut tmp);
 
+        if tmp.len() % block_len != 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                                        format!("Wrong plaintext length: {}, the padded plaintext length(in bytes) must be a multiple of {}",
+                                                plaintext_block.len(), block_len)));
+        }
+
         let mut data = tmp.as_slice();
         while !data.is_empty() {
-            let len = std::cmp::min(block_len, data.len());
-            let tmp = &data[..len];
-            match self.cipher.encrypt(txt, tmp) {
+            let tmp = &data[..block_len];
+            Self::xor_iv(tmp, &mut cur_iv);
+
+            match self.cipher.encrypt(txt, cur_iv.as_slice()) {
                 Ok(_) => {
+                    cur_iv.clear();
+                    cur_iv.extend_from_slice(txt.as_slice());
                     dst.append(txt);
-                    data = &data[len..];
+                    data = &data[block_len..];
                 },
                 Err(e) => {
                     return Err(e);
-- 
2.43.0


From e52ded23dbe4b91d7148e59fcf4c50f968ebfa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 09/62] fix: finishing a CBC encryption stream did not always
 restart from the IV

Without anything left to encrypt the stream kept the last ciphertext block
as chaining value of the next message. Several padding blocks were each
chained to the IV instead of to each other.
---
 src/cipher_mode/cbc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 9013c14..90615d1 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -313,8 +313,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             Self::xor_iv(txt, tmp, &self.ij);
             match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.append(&mut self.ij);
-                    self.ij.extend(self.cbc.cur_iv.iter());
+                    self.pond.extend(self.ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -324,6 +323,8 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
         }
         
         self.data.clear();
+        self.ij.clear();
+        self.ij.extend(self.cbc.cur_iv.iter());
         Ok(Pond::new(&mut self.pond, true))
     }
 }
-- 
2.43.0


From 9ebe97fb404dcceff76befb1b295953ff9f026e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 10/62] fix: ECB and CBC decryption streams refused an empty
 message

Decrypting the empty ciphertext at once is left to the padding, so the
empty padding accepts it. The streams passed the empty rest to the cipher,
which refuses it.
---
 src/cipher_mode/cbc.rs | 8 +++++++-
 src/cipher_mode/ecb.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 90615d1..473ed0b 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -369,7 +369,13 @@ impl<C, P, IV> DecryptStream for CBCDecrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.cbc.get_buf();
-        match self.cbc.cipher.decrypt(txt, self.data.as_slice()) {
+        txt.clear();
+        let res = if self.data.is_empty() {
+            Ok(())
+        } else {
+            self.cbc.cipher.decrypt(txt, self.data.as_slice()).map(|_| ())
+        };
+        match res {
             Ok(_) => {
                 txt.iter_mut().zip(self.ij.iter()).for_each(|(a, &b)| {
                     *a ^= b;
diff --git a/src/cipher_mode/ecb.rs b/src/cipher_mode/ecb.rs
index 7640665..3ee2301 100644
--- a/src/cipher_mode/ecb.rs
+++ b/src/cipher_mode/ecb.rs
@@ -305,7 +305,13 @@ impl<C, P> DecryptStream for ECBDecrypt<C, P>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.ecb.get_buf();
-        match self.ecb.cipher.decrypt(txt, self.data.as_slice()) {
+        txt.clear();
+        let res = if self.data.is_empty() {
+            Ok(())
+        } else {
+            self.ecb.cipher.decrypt(txt, self.data.as_slice()).map(|_| ())
+        };
+        match res {
             Ok(_) => {
                 if let Err(e) = self.ecb.padding.unpadding(txt) {
                     Err(e)
-- 
2.43.0


From d4b6efa7847fc6fe066e9fe79e6cd2f582929aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 11/62] fix: CFB dropped the end of a message that does not
 fill a segment

Without padding the bytes after the last whole segment were silently lost.
Such a message is refused now, like ECB and CBC do.
---
 src/cipher_mode/cfb.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 97961de..a8b4c65 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -121,6 +121,16 @@ impl<C, P, IV> CFB<C, P, IV>
         }
     }
     
+    /// only whole segments can be encrypted
+    fn check_padded_len(&self, len: usize) -> Result<(), CryptoError> {
+        if len % self.s != 0 {
+            Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong plaintext len: {}, the padded plaintext len should be a multiple of s: {}", len, self.s)))
+        } else {
+            Ok(())
+        }
+    }
+    
     fn encrypt_inner(&self, ij: &mut Vec<u8>, dst: &mut Vec<u8>, mut data: &[u8]) -> Result<usize, CryptoError> {
         let oj = self.get_buf();
         while data.len() >= self.s {
@@ -199,6 +209,7 @@ impl<C, P, IV> Cipher for CFB<C, P, IV>
         let mut data = plaintext_block[(plaintext_block.len() - remain)..plaintext_block.len()].to_vec();
         
         self.padding.padding(&mut data);
+        self.check_padded_len(data.len())?;
 
         self.encrypt_inner(&mut ij, dst, data.as_slice())
     }
@@ -284,6 +295,7 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         self.cfb.padding.padding(&mut self.data);
+        self.cfb.check_padded_len(self.data.len())?;
 
         if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
             Err(e)
-- 
2.43.0


From a25dff6fd2c998626277c8d7d8078f1b4bc0761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 12/62] fix: finishing a CFB decryption stream failed or
 panicked

The padding was removed from the output not yet collected. When the caller
had collected it, finish reported an error. A ciphertext that ends within
a segment caused a panic.
---
 src/cipher_mode/cfb.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index a8b4c65..9e8b01e 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -317,7 +317,10 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
             self.data.extend_from_slice(data);
         }
         
-        let bound = self.data.len() - (self.data.len() % self.cfb.s);
+        // the padding may reach over a whole block, keep it back until `finish` can remove it
+        let keep = std::cmp::max(self.cfb.cipher.block_size().unwrap_or(1), self.cfb.s);
+        let len = self.data.len().saturating_sub(keep);
+        let bound = len - (len % self.cfb.s);
         let data = &self.data.as_slice()[..bound];
         
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, data) {
@@ -333,12 +336,19 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
+        if self.data.len() % self.cfb.s != 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong ciphertext len, the ciphertext len(in bytes) should be a multiple of {}", self.cfb.s)));
+        }
+        
+        let mut txt = Vec::with_capacity(self.data.len());
+        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut txt, self.data.as_slice()) {
             Err(e)
         } else {
-            if let Err(e) = self.cfb.padding.unpadding(&mut self.pond) {
+            if let Err(e) = self.cfb.padding.unpadding(&mut txt) {
                 return Err(e);
             } else {
+                self.pond.append(&mut txt);
                 self.data.clear();
                 self.ij.clear();
                 self.ij.extend(self.cfb.cur_iv.iter());
-- 
2.43.0


From 22ecbbb1655607efaa09aec16dc8771b285d37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 13/62] fix: a failed IV update left a broken IV in place

update_iv wrote into the current IV, so a failing generator or an IV of a
wrong length damaged it and later calls used it. The new IV replaces the
old one only once it is complete.
---
 src/cipher_mode/cbc.rs | 8 +++++---
 src/cipher_mode/cfb.rs | 8 +++++---
 src/cipher_mode/ofb.rs | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 473ed0b..fe4b57d 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -50,12 +50,14 @@ impl<C, P, IV> CBC<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 9e8b01e..914dfb4 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -65,12 +65,14 @@ impl<C, P, IV> CFB<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/ofb.rs b/src/cipher_mode/ofb.rs
index 1ebe0ca..71969b2 100644
--- a/src/cipher_mode/ofb.rs
+++ b/src/cipher_mode/ofb.rs
@@ -41,12 +41,14 @@ impl<C, IV> OFB<C, IV>
     
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let len = self.cipher.block_size().unwrap_or(1);
-        if let Err(e) = self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(len);
+        if let Err(e) = self.iv.initial_vec(&mut iv) {
             Err(e)
-        } else if self.cur_iv.len() != self.cipher.block_size().unwrap_or(self.cur_iv.len()) {
+        } else if iv.len() != self.cipher.block_size().unwrap_or(iv.len()) {
             return Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), len)));
+                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), len)));
         } else {
+            self.cur_iv = iv;
             Ok(&self.cur_iv)
         }
     }
-- 
2.43.0


From b5566ddc9ff7d7d2ef99e53c119d57b5b12f5cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:30 +0000
Subject: [PATCH 14/62] fix: CTR repeated the keystream for counters wider than
 a block

Only the leading bytes of the counter were encrypted. In a counter wider
than the block those do not change from one block to the next.
---
 src/cipher_mode/ctr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cipher_mode/ctr.rs b/src/cipher_mode/ctr.rs
index 668faf5..9d923e5 100644
--- a/src/cipher_mode/ctr.rs
+++ b/src/cipher_mode/ctr.rs
@@ -61,7 +61,8 @@ impl<C, T>  CTR<C, T>
         while !data.is_empty() {
             match self.get_counter().next() {
                 Some(c) => {
-                    match self.cipher.encrypt(oj, &c.as_slice()[..block_len]) {
+                    // the low-order bytes of a counter wider than the block differ for successive blocks
+                    match self.cipher.encrypt(oj, &c.as_slice()[(c.len() - block_len)..]) {
                         Ok(_) => {
                             let len = std::cmp::min(block_len,data.len());
                             let block = &data[..len];
-- 
2.43.0


From ec101a9141f1f4693193d73ef956b61f43f686b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:11 +0000
Subject: [PATCH 15/62] fix: ZUCCipher reported 0 bytes for data served from
 buffered keystream

A call that needed no new keystream word returned Ok(0) although it wrote
all of its output.
---
 src/zuc/zuc_cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_cipher.rs b/src/zuc/zuc_cipher.rs
index 2223a2a..61dec07 100644
--- a/src/zuc/zuc_cipher.rs
+++ b/src/zuc/zuc_cipher.rs
@@ -103,7 +103,7 @@ impl Cipher for ZUCCipher {
         self.get_key().truncate(self.get_key().len() - len);
         
         if plaintext_block.is_empty() {
-            return Ok(0);
+            return Ok(dst.len());
         }
 
         let len = (plaintext_block.len() + 3) >> 2;
-- 
2.43.0


From 3f300f4d04f231a3fb8e2a9b3341ef8b551e36db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:11 +0000
Subject: [PATCH 16/62] fix: the ZUC MAC depended on how the message was split
 into writes

Every write drew two fresh keystream words, and without any write the key
window stayed zero. The window is loaded once per message now.
---
 src/zuc/zuc_mac.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 0f91371..405f2fb 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -38,7 +38,8 @@ impl ZUCMac {
             iv[15] = iv[7];
 
             match ZUC::from_slice(ck, iv.as_ref()) {
-                Ok(z) => {
+                Ok(mut z) => {
+                    let (key0, key1) = (z.zuc(), z.zuc());
                     let mut tmp = [0u8; 16];
                     tmp.iter_mut().zip(ck.iter()).for_each(|(e, &k)| {
                         *e = k;
@@ -47,8 +48,8 @@ impl ZUCMac {
                         zuc: z,
                         ck: tmp,
                         iv,
-                        key0: 0,
-                        key1: 0,
+                        key0,
+                        key1,
                         length: 0,
                         t: 0,
                         is_check: false,
@@ -82,10 +83,8 @@ impl Digest for ZUCMac {
         
         let bound = data.len() << 3;
         
-        self.key0 = self.zuc.zuc();
-        self.key1 = self.zuc.zuc();
         for i in 0..bound {
-            let rem = i & 31;
+            let rem = self.length & 31;
             if Self::is_one(data, i) {
                 if rem == 0 {
                     self.t ^= self.key0;
@@ -98,8 +97,8 @@ impl Digest for ZUCMac {
                 self.key0 = self.key1;
                 self.key1 = self.zuc.zuc();
             }
+            self.length += 1;
         }
-        self.length += bound;
     }
 
     fn checksum(&mut self, digest: &mut Vec<u8>) {
@@ -121,9 +120,10 @@ impl Digest for ZUCMac {
 
     fn reset(&mut self) {
         self.zuc.set_slice(self.ck.as_ref(), self.iv.as_ref()).unwrap();
-        self.key0 = 0;
-        self.key1 = 0;
+        self.key0 = self.zuc.zuc();
+        self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
+        self.is_check = false;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 21d00c8afadd3eb6cb25f5845c885f0cf491669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:11 +0000
Subject: [PATCH 17/62] fix: a second checksum call changed the ZUC MAC

The finished state was never recorded, so every checksum call finalised the
tag again and a later write continued the finished message.
---
 src/zuc/zuc_mac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 405f2fb..dc32644 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -111,7 +111,7 @@ impl Digest for ZUCMac {
                 self.t ^= (self.key0 << rem) | (self.key1 >> (32 - rem));
                 self.t ^= self.zuc.zuc();
             }
-
+            self.is_check = true;
         }
         
         digest.clear();
-- 
2.43.0


From afe3d56d16d906568ad4cd0a7800696ed026097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:56 +0000
Subject: [PATCH 18/62] fix: reject repeated primes in multi-prime RSA key
 generation

Vec::dedup only removes adjacent duplicates, so a key of three or more
primes could contain the same prime twice and fail its validity check.
---
 src/rsa/rsa.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d56232..b95502b 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -466,8 +466,7 @@ impl PrivateKey {
             }
 
             // Make sure that primes is pairwise unequal.
-            primes.dedup();
-            if primes.len() != n_primes {
+            if primes.iter().enumerate().any(|(i, prime)| primes[..i].contains(prime)) {
                 continue'next_set_of_primes;
             }
 
-- 
2.43.0


From 22680839f31c9bfad5d37ae6965c7f71ce0f5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:56 +0000
Subject: [PATCH 19/62] fix: retry RSA key generation when the exponent has no
 inverse

BigInt::mod_inverse does not report a missing inverse, so primes with
p = 1 mod 65537 produced an invalid private exponent.
---
 src/rsa/rsa.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index b95502b..5bbe94d 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -484,9 +484,10 @@ impl PrivateKey {
                 continue 'next_set_of_primes;
             }
 
-            let pri_exp = pub_exp.mod_inverse(totient);
+            let pri_exp = pub_exp.mod_inverse(totient.clone());
 
-            if !pri_exp.is_nan() {
+            // `mod_inverse` returns a number even if the exponent has no inverse
+            if !pri_exp.is_nan() && (pri_exp.clone() * pub_exp.clone()).rem_euclid(totient) == bigone {
                 break (pri_exp, n);
             }
         };
-- 
2.43.0


From 5a98a17d9308585117609c9100bc9fc09c00b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:56 +0000
Subject: [PATCH 20/62] fix: refuse RSA key sizes with too few primes for every
 modulus length

The check for enough primes of the wanted size was skipped for moduli of
64 bits and more, so e.g. 13 primes in 65 bits looped for ever.
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5bbe94d..d02abaa 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -414,7 +414,7 @@ impl PrivateKey {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "n_primes must be great or equal to 2"));
         }
         
-        if bits_len < 64 {
+        if bits_len / n_primes < 64 {
             let prime_limit= (1u64 << (bits_len / n_primes)) as f64;
             // pi approximates the number of primes less than primeLimit
             let mut pi = prime_limit / (prime_limit.ln() - 1f64);
-- 
2.43.0


From af5c7e2c4fac4654bfcb7d74089b59f61ff6764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:28 +0000
Subject: [PATCH 21/62] fix: refuse an empty modulus or exponent in RSA public
 keys

Comparisons with a NaN are always false, so the range check let it pass.
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index d02abaa..88c14b3 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -107,7 +107,7 @@ impl PublicKey {
     }
     
     pub fn from_nat(modulus: &Nat, exponent: &Nat) -> Result<Self, CryptoError> {
-        if modulus <= exponent || exponent < &3u32 {
+        if modulus.is_nan() || exponent.is_nan() || modulus <= exponent || exponent < &3u32 {
             Err(CryptoError::new(CryptoErrorKind::InvalidParameter, ""))
         } else {
             Ok(
-- 
2.43.0


From 430732c096f7eec7107b96378759161f440b7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:07 +0000
Subject: [PATCH 22/62] fix: RSA blinding used values without an inverse

A blinding value sharing a factor with the modulus passed the NaN test
and gave a wrong plaintext. Draw another one instead.
---
 src/rsa/rsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 88c14b3..1f3e930 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -274,7 +274,8 @@ impl PrivateKey {
                     };
                     
                     let mi = r.mod_inverse(self.pk.n.clone());
-                    if !mi.is_nan() {
+                    // `mod_inverse` returns a number even if `r` has no inverse
+                    if !mi.is_nan() && (r.clone() * mi.clone()).rem_euclid(self.pk.n.clone()) == 1u32 {
                         break (r, Some(mi));
                     }
                 };
-- 
2.43.0


From c9d9089c7515117e8e446a5cda633c6143aa9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:07 +0000
Subject: [PATCH 23/62] fix: RSA decryption could return the plaintext plus the
 modulus

The CRT recombination left a multiple of a prime unreduced, which
happens with three or more primes or when the second prime is more than
twice the first.
---
 src/rsa/rsa.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 1f3e930..dc84a42 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -322,6 +322,8 @@ impl PrivateKey {
                 m1 += m_i;
             }
             
+            // `rem_euclid` turns a negative multiple of the prime into the prime instead of 0
+            m1.rem_euclid_assign(self.pk.n.clone());
             m1
         };
         
-- 
2.43.0


From ec0ab290dab59cd5d718a18d2c0a851839b66a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:07 +0000
Subject: [PATCH 24/62] fix: RSA decryption accepted the modulus itself and
 negative numbers

RSADP requires a representative in [0, n).
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index dc84a42..8dcab4b 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -246,7 +246,7 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
-        if c > &self.pk.n {
+        if c.is_nan() || c.is_negative() || c >= &self.pk.n {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
         }
         
-- 
2.43.0


From 96ccb4a16d437d07bfc2d0978b6a73ce13a8ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:11 +0000
Subject: [PATCH 25/62] fix: RSA operations on 0 and 1 overflowed for some
 exponent lengths

BigInt::exp shifts a word by 32 bits when the base is 0 or 1 and the top
word of a longer exponent is 1.
---
 src/rsa/rsa.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 8dcab4b..d27eea8 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -97,6 +97,15 @@ impl Clone for PrivateKey {
     }
 }
 
+/// $base^{exp} \mod n$, `BigInt::exp` overflows for the bases 0 and 1 with some exponents
+fn exp_mod(base: &BigInt, exp: &BigInt, n: &BigInt) -> BigInt {
+    if base == &BigInt::from(0u32) || base == &BigInt::from(1u32) {
+        base.deep_clone()
+    } else {
+        base.exp(exp, n)
+    }
+}
+
 impl PublicKey {
     pub fn from_bigint(modulus: &BigInt, exponent: &BigInt) -> Result<Self, CryptoError> {
         if modulus.signnum() != Some(1) || exponent.signnum() != Some(1) {
@@ -160,7 +169,7 @@ impl PublicKey {
     /// RSAEP: RSA encrypt primitive  
     /// $m^e \mod n$
     pub fn encrypt(&self, m: &BigInt) -> BigInt {
-        m.exp(&self.e, &self.n)
+        exp_mod(m, &self.e, &self.n)
     }
 }
 
@@ -292,12 +301,12 @@ impl PrivateKey {
         
         let mut m = if self.precomputed.d_p.is_nan() {
             // first private key representation
-            c.exp(&self.d, &self.pk.n)
+            exp_mod(&c, &self.d, &self.pk.n)
         } else {
             // second private key representation
             let (mut m1, m2) = (
-                c.exp(&self.precomputed.d_p, &self.primes[0]),
-                c.exp(&self.precomputed.d_q, &self.primes[1]),
+                exp_mod(&c, &self.precomputed.d_p, &self.primes[0]),
+                exp_mod(&c, &self.precomputed.d_q, &self.primes[1]),
             );
             m1 -= m2.clone();
             if m1.signnum().unwrap() < 0 {
@@ -310,7 +319,7 @@ impl PrivateKey {
             
             // m1 as m
             for (values, prime) in self.precomputed.crt_values.iter().zip(self.primes.iter().skip(2)) {
-                let mut m_i = c.exp(&values.exp, prime);
+                let mut m_i = exp_mod(&c, &values.exp, prime);
                 m_i -= m1.clone();
                 m_i *= values.coeff.clone();
                 m_i.rem_euclid_assign(prime.clone());
-- 
2.43.0


From dd8688aac86b320a6a9cba20dbcc8c7a19fe1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:59 +0000
Subject: [PATCH 26/62] fix: OAEP decryption accepted a block without the 0x01
 separator

A data block with nothing but zero bytes after the label hash decrypted
to the empty message.
---
 src/rsa/oaep.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 851c5e9..cf54b7a 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -143,16 +143,19 @@ impl<H, R> OAEPInner<H, R>
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
+        let mut separator = 0x00;
         for &x in (&em[(rest_bound.0)..(rest_bound.1)]).iter() {
             idx += 1;
             if x != 0x00 {
-                if x != 0x01 {
-                    return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
-                }
+                separator = x;
                 break;
             }
         }
         
+        if separator != 0x01 {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
+        }
+        
         msg.clear();
         msg.extend((&em[idx..]).iter());
         Ok(())
-- 
2.43.0


From cbb200382d1dc714e95547ab198f6c3a001c5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:59 +0000
Subject: [PATCH 27/62] fix: OAEP decryption accepted ciphertexts shorter than
 the modulus

PKCS #1 v2.2, section 7.1.2, requires a ciphertext of exactly k octets.
---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index cf54b7a..adb51fe 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -103,7 +103,7 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k < cipher_text.len() || k < ((h_len << 1) + 2) {
+        if k != cipher_text.len() || k < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
         }
         
-- 
2.43.0


From 755edc93a058f525f68c556ea513c2387f4439c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:13 +0000
Subject: [PATCH 28/62] fix: PKCS #1 v1.5 encryption of the empty message gave
 no ciphertext

The scheme encrypts messages of 0 to k - 11 octets.
---
 src/rsa/pkcs1.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 244e54f..7ea1a9b 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -39,10 +39,6 @@ impl<H, R> PKCS1Inner<H, R>
     
     fn encrypt(&mut self, cipher: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         cipher.clear();
-        if msg.is_empty() {
-            return Ok(());
-        }
-        
         self.kp.public_key().is_valid()?;
         
         let k = self.kp.modulus_len();
-- 
2.43.0


From 1032efc83fc1fa7264afd5ceeb26f7e245da16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:36 +0000
Subject: [PATCH 29/62] fix: PKCS #1 v1.5 verification accepted signatures of
 any length

Leading zero octets could be added or dropped. PKCS #1 v2.2, section
8.2.2, requires a signature of exactly k octets.
---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 7ea1a9b..159ce22 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -178,6 +178,10 @@ impl<H, R> PKCS1Inner<H, R>
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The public key modulus length is too short"));
         }
         
+        if k != sign.len() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature length"));
+        }
+        
         let c = BigInt::from_be_bytes(sign);
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
-- 
2.43.0


From 959ceea75958930c6f795031ee69aef1fa0a67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:36 +0000
Subject: [PATCH 30/62] fix: PKCS #1 v1.5 verification accepted the signature
 plus the modulus

RSAVP1 requires a signature representative below the modulus.
---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 159ce22..e351dca 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -183,6 +183,10 @@ impl<H, R> PKCS1Inner<H, R>
         }
         
         let c = BigInt::from_be_bytes(sign);
+        if &c >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature representative out of range"));
+        }
+        
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
         let old_len = em.len();
-- 
2.43.0


From ef4c37b1a0651e259dc8c8903b7db043dad53b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:36 +0000
Subject: [PATCH 31/62] fix: PKCS1 accepted unsupported hashes and panicked
 when signing

The constructor check was always true. Return the intended error.
---
 src/rsa/pkcs1.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index e351dca..ef42f19 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -240,7 +240,7 @@ impl<H, R> PKCS1Inner<H, R>
         } else if TypeId::of::<H>() == TypeId::of::<SHA512>() {
             Ok(vec![0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40])
         } else {
-            unreachable!(format!("not suuport {}", std::any::type_name::<H>()));
+            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("{} is not currently supported", std::any::type_name::<H>())))
         }
     }
     
@@ -307,21 +307,7 @@ impl<H, R> PKCS1<H, R>
     }
     
     fn check_hash_is_support() -> Result<(), CryptoError> {
-        if TypeId::of::<H>() != TypeId::of::<MD5>() {
-            Ok(())
-        } else if TypeId::of::<H>() != TypeId::of::<SHA1>() {
-            Ok(())
-        } else if TypeId::of::<H>() != TypeId::of::<SHA224>() {
-            Ok(())
-        } else if TypeId::of::<H>() != TypeId::of::<SHA256>() {
-            Ok(())
-        } else if TypeId::of::<H>() != TypeId::of::<SHA384>() {
-            Ok(())
-        } else if TypeId::of::<H>() != TypeId::of::<SHA512>() {
-            Ok(())
-        } else {
-            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("{} is not currently supported", std::any::type_name::<H>())))
-        }
+        PKCS1Inner::<H, R>::pkcs1_hash_prefix().map(|_| ())
     }
 
     /// maximum message length in byte  allowed to be signing
-- 
2.43.0


From 31981d23c9047de14febc15ff0f4510b7c57a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:04 +0000
Subject: [PATCH 32/62] fix: PSS verification shifted out of range when the
 block fills its octets

With em_bits a multiple of 8 the leading octet has no unused bits, and the
mask was computed by shifting an octet by 8.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 4a8b5c0..0856360 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -220,7 +220,7 @@ impl<H, R> PSS<H, R>
         let (db_start, db_end) = (0, em_len - h_len - 1);
         let (h_start, h_end) = (db_end, em_len - 1);
         
-        if (em[0] & (0xffu8 << (8 - ((em_len << 3) - em_bits)))) != 0 {
+        if (em[0] & !(0xffu8 >> ((em_len << 3) - em_bits))) != 0 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid head tag"));
         }
         
-- 
2.43.0


From f4b1ad5858d7be22bf5ff6b1874b7e1c979800c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:04 +0000
Subject: [PATCH 33/62] fix: PSS verification computed the number of unused
 bits wrongly

8 * em_len - em_bits was written with a division by 8, so that the
subtraction underflowed for every signature.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 0856360..164a290 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -228,7 +228,7 @@ impl<H, R> PSS<H, R>
         let h = &em[h_start..h_end];
         Self::mgf1_xor(db.as_mut_slice(), h, &mut self.hf);
         
-        db[0] &= 0xff >> ((em_len >> 3) - em_bits);
+        db[0] &= 0xff >> ((em_len << 3) - em_bits);
 
         for &e in db.iter().take(em_len - h_len - self.salt_len() - 2) {
             if e != 0x00 {
-- 
2.43.0


From b2093ed3563dc534f867495a73a6d664ed34795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:05 +0000
Subject: [PATCH 34/62] fix: PSS computed the automatic salt length from the
 modulus length

The encoded message has one bit less than the modulus.  For moduli of
8 * i + 1 bits the automatic salt length was one too large and refused.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 164a290..68fc832 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -59,7 +59,7 @@ impl<H, R> PSS<H, R>
                 if x > 0 {
                     x
                 } else {
-                    ((bits_len + 7) >> 3).saturating_sub(2 + h_len)
+                    ((bits_len.saturating_sub(1) + 7) >> 3).saturating_sub(2 + h_len)
                 }
             },
             None => {
-- 
2.43.0


From b0efc27345ccd2708727a507d89d0f01dd851561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:05 +0000
Subject: [PATCH 35/62] fix: PSS verification accepted the signature plus the
 modulus

RSAVP1 requires a signature representative below the modulus.
---
 src/rsa/pss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 68fc832..79a9433 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -299,6 +299,10 @@ impl<H, R> PSS<H, R>
         }
         
         let s = BigInt::from_be_bytes(sign);
+        if &s >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature representative out of range"));
+        }
+        
         let m = self.kp.public_key().encrypt(&s);
         
         let em_bits = n_bits - 1;
-- 
2.43.0


From 6ee151d60119a206d0f98ce7a518041278548691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:05 +0000
Subject: [PATCH 36/62] fix: DSA verification used the whole digest instead of
 its leftmost bits

FIPS 186-4, 4.7 takes the leftmost min(N, outlen) bits as signing already
does.  Signatures over digests longer than q did not verify.
---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index b7bae9d..dc5ee15 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -331,7 +331,8 @@ impl<H, R> DSA<H, R>
         self.hf.write(msg);
         self.hf.checksum(&mut hm);
         
-        let mut z = BigInt::from_be_bytes(hm.as_slice());
+        let tmp = std::cmp::min(h_len, n >> 3);
+        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
-- 
2.43.0


From 93c919879cc5987461106a66ec3e95ee96f27c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:53 +0000
Subject: [PATCH 37/62] fix: DSA verification panicked for the public keys 0
 and 1

FIPS 186-4 requires y > 1.  Raising 0 or 1 to a long power fails in the
number library for some exponents.
---
 src/dsa/dsa.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index dc5ee15..7f4934b 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -316,6 +316,10 @@ impl<H, R> DSA<H, R>
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, ""));
         }
         
+        if pk.y.signnum() != Some(1) || pk.y == 1u32 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "Invalid public key"));
+        }
+        
         if r.signnum() != Some(1) || s.signnum() != Some(1) || r >= &dp.q || s >= &dp.q {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature content"));
         }
-- 
2.43.0


From 080314cefd31eed222899abc348c6ae645a9570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:53 +0000
Subject: [PATCH 38/62] fix: verifying a DSA signature cut short panicked

The content can be shortened through AsMut.  The missing part is now read
as no number and the signature is refused.
---
 src/dsa/signature.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dsa/signature.rs b/src/dsa/signature.rs
index 3124249..f800ba6 100644
--- a/src/dsa/signature.rs
+++ b/src/dsa/signature.rs
@@ -37,8 +37,9 @@ impl SignatureContent {
     
     /// r, s
     pub fn to_bigint(&self) -> (BigInt, BigInt) {
-        (BigInt::from_be_bytes(&self.content.as_slice()[0..self.r_len]),
-        BigInt::from_be_bytes(&self.content.as_slice()[self.r_len..]))
+        let r_len = std::cmp::min(self.r_len, self.content.len());
+        (BigInt::from_be_bytes(&self.content.as_slice()[0..r_len]),
+        BigInt::from_be_bytes(&self.content.as_slice()[r_len..]))
     }
     
     pub fn set(&mut self, r: BigInt, s: BigInt) {
-- 
2.43.0


From 05a082f8421e91b274351bec3d59113b98768edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:49 +0000
Subject: [PATCH 39/62] fix: DSA key generation accepted the private key 0

The number library returns a zero of several words, which does not compare
equal to 0.
---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index 7f4934b..57bb4eb 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -127,7 +127,8 @@ impl<H, R> DSA<H, R>
     
     fn generate_key_inner(dp: DomainParameters, rd: &mut R) -> Result<PrivateKey, CryptoError> {
         let x = loop {
-            let x = dp.q.random(rd);
+            // `random` may return leading zero words
+            let x = BigInt::from_be_bytes(dp.q.random(rd).to_be_bytes().as_slice());
             if x != 0u32 && x < dp.q {
                 break x;
             }
-- 
2.43.0


From 4fd1f9a6388d8185c334eaf4f971c0922bb158d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:05 +0000
Subject: [PATCH 40/62] Add a guarded constructor for arbitrary curve
 parameters

The feature verif_hooks, off by default, lets an external harness build
small curves whose points can be enumerated completely.
---
 Cargo.toml               |  5 +++++
 src/elliptic/elliptic.rs | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/Cargo.toml b/Cargo.toml
index 3f3af5b..ebbdbbb 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -11,6 +11,11 @@ documentation = "https://docs.rs/rcrypto/0.2.0/rcrypto/"
 
 # See more keys and their definitions at https://doc.rust-lang.org/cargo/reference/manifest.html
 
+[features]
+
+# constructors used by the external verification harness only
+verif_hooks = []
+
 [dependencies]
 
 rmath = "0.1.5"
diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5074b4a..7beeca3 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -472,6 +472,22 @@ impl CurveParams {
     }
 }
 
+#[cfg(feature = "verif_hooks")]
+impl CurveParams {
+    /// curve $y^2 \equiv x^3 - 3\cdot x + b \mod p$ with base point (gx, gy) of order n
+    pub fn from_parts(p: &BigInt, n: &BigInt, b: &BigInt, gx: &BigInt, gy: &BigInt, bit_size: usize, name: &str) -> CurveParams {
+        CurveParams {
+            p: p.deep_clone(),
+            n: n.deep_clone(),
+            b: b.deep_clone(),
+            gx: gx.deep_clone(),
+            gy: gy.deep_clone(),
+            bit_size,
+            name: String::from(name),
+        }
+    }
+}
+
 impl Clone for CurveParams {
     fn clone(&self) -> Self {
         Self {
-- 
2.43.0


From 59caf6d88f5ec32f715d476c2babff5d27f103fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:15 +0000
Subject: [PATCH 41/62] fix: report the name and field size of P-521

The parameters of the 521-bit curve were labelled P-512 with a field of
512 bits. Callers that size buffers from the field size got too few bytes.
---
 src/elliptic/elliptic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 7beeca3..91a0b6d 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -441,7 +441,7 @@ impl CurveParams {
         )
     }
 
-    /// FIPS 186-4, D.1.2.5 P-512 Curve  
+    /// FIPS 186-4, D.1.2.5 P-521 Curve  
     /// GF(p), E: $y^2 \equiv x^3 - 3\cdot x + b \mod p$
     /// p.bits_len() = 521
     pub fn p521() -> Result<CurveParams, CryptoError>{
@@ -455,8 +455,8 @@ impl CurveParams {
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
         let gy = BigInt::from_str("0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
-        let bit_size = 512;
-        let name = String::from("P-512");
+        let bit_size = 521;
+        let name = String::from("P-521");
 
         Ok(
             CurveParams {
-- 
2.43.0


From 32b3a512be3ddea6e3ae507779880633adc4858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:15 +0000
Subject: [PATCH 42/62] fix: never generate a zero elliptic-curve private key

Random bytes that become zero after the tweak of the second byte gave the
key d = 0 with the point at infinity as public key. Sample again instead.
---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 91a0b6d..bae67b9 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -159,7 +159,7 @@ impl CurveParams {
 
             // If the scalar is out of range, sample another random number.
             let key = BigInt::from_be_bytes(priv_key.as_slice());
-            if key < self.n {
+            if key.signnum() != Some(0) && key < self.n {
                 let (qx, qy) = self.scalar_inner(&self.gx, &self.gy, priv_key.as_slice());
                 if !qx.is_nan() && !qy.is_nan() {
                     return Ok(
-- 
2.43.0


From bcff480ebbab2bdbca191167be2eadfe1594523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:15 +0000
Subject: [PATCH 43/62] fix: reject coordinates outside the field in
 is_on_curve

Negative coordinates and coordinates not below the field order were
reduced before the curve equation was evaluated, so numbers that are not
points passed the membership test.
---
 src/elliptic/elliptic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index bae67b9..201949c 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -52,6 +52,10 @@ impl EllipticCurve for CurveParams {
         if x.is_nan() || y.is_nan() {
             return false;
         }
+        // coordinates are field elements
+        if x.signnum() == Some(-1) || y.signnum() == Some(-1) || x >= &self.p || y >= &self.p {
+            return false;
+        }
         // y² = x³ - 3x + b
         let (mut x3, mut y2) = (x.sqr(), y.sqr());
         y2.rem_euclid_assign(self.p.clone());
-- 
2.43.0


From 82622b7a6cfe19a56b4a1b4ab53b7aed71c4f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:15 +0000
Subject: [PATCH 44/62] fix: reject coordinates outside the field in the P-224
 membership test

The conversion to limbs drops the sign and everything above 224 bits, so
numbers that are not points passed the test.
---
 src/elliptic/p224.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 3c76566..8593cdf 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -713,6 +713,10 @@ impl EllipticCurve for CurveP224 {
         if x.is_nan() || y.is_nan() {
             return false;
         }
+        // coordinates are field elements
+        if x.signnum() == Some(-1) || y.signnum() == Some(-1) || x >= self.cp.field_order() || y >= self.cp.field_order() {
+            return false;
+        }
         let (mut a, mut b) = (PFE_DF, PFE_DF);
         Self::p224_from_bigint(&mut a, x);
         Self::p224_from_bigint(&mut b, y);
-- 
2.43.0


From b62087aa07cf3b349b03d1c404ae7830d282d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:01 +0000
Subject: [PATCH 45/62] fix: let the P-256 limb reduction wrap as intended

The reduction subtracts one from a limb that may be zero and masks the
result afterwards. With overflow checks enabled this panicked for almost
every scalar.
---
 src/elliptic/p256.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 1d66415..0fbae8b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -421,14 +421,14 @@ impl CurveP256 {
             // At position 200, which is the starting bit position for word 7, we
             // have a factor of 0xf000000 = 2**28 - 2**24.
             tmp2[i+7] = tmp2[i+7].wrapping_add(0x10000000 & x_mask);
-            tmp2[i+8] = tmp2[i+8].wrapping_add((x - 1) & x_mask);
+            tmp2[i+8] = tmp2[i+8].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+7] = tmp2[i+7].wrapping_sub((x << 24) & BOTTOM_28BITS);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x >> 4);
 
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x);
             tmp2[i+8] = tmp2[i+8].wrapping_add((x << 28) & BOTTOM_29BITS);
-            tmp2[i+9] = tmp2[i+9].wrapping_add(((x >> 1) - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add((x >> 1).wrapping_sub(1) & x_mask);
 
             if (i + 1) == P256_LIMBS {
                 break;
@@ -449,13 +449,13 @@ impl CurveP256 {
             // 0x1e000000 = 2**29 - 2**25. Since we have not updated i, the 8th
             // word from i+1 is i+8.
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
-            tmp2[i+9] = tmp2[i+9].wrapping_add((x - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub((x << 25) & BOTTOM_29BITS);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x >> 4);
 
             tmp2[i+9] = tmp2[i+9].wrapping_add(0x10000000 & x_mask);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x);
-            tmp2[i+10] = tmp2[i+10].wrapping_add((x - 1) & x_mask);
+            tmp2[i+10] = tmp2[i+10].wrapping_add(x.wrapping_sub(1) & x_mask);
         }
 
         // We merge the right shift with a carry chain. The words above 2**257 have
-- 
2.43.0


From ade608adfbb154bf8d8fbb2f193c427ecfac1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:01 +0000
Subject: [PATCH 46/62] fix: do not subtract the P-224 prime from p - 1

When the fourth limb equals that of the prime and the three lower limbs
are zero the value is p - 1. It was treated as larger than the prime, so
a coordinate equal to p - 1 came out wrong.
---
 src/elliptic/p224.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 8593cdf..143bab9 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -458,7 +458,7 @@ impl CurveP224 {
         //    If it's = 0xffff000 and top4AllOnes != 0 and bottom3NonZero != 0,
         //      then the whole value is >= p
         //    If it's < 0xffff000, then the whole value is < p
-        let n = out[3].wrapping_sub( 0xffff000);
+        let n = 0xffff000u32.wrapping_sub(out[3]);
         let mut out3_equal = n;
         out3_equal |= out3_equal >> 16;
         out3_equal |= out3_equal >> 8;
@@ -467,8 +467,8 @@ impl CurveP224 {
         out3_equal |= out3_equal >> 1;
         out3_equal = !((((out3_equal << 31) as i32) >> 31) as u32);
 
-        // If out[3] > 0xffff000 then n's MSB will be zero.
-        let out3_gt = !(((n as i32) >> 31) as u32);
+        // If out[3] > 0xffff000 then n's MSB will be one.
+        let out3_gt = ((n as i32) >> 31) as u32;
 
         let mask = top4_all_ones & ((out3_equal & bottom3_non_zero) | out3_gt);
         out[0] = out[0].wrapping_sub(1 & mask);
-- 
2.43.0


From 308548bcfb5954734cff9d93ba4b871a0e1a099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:01 +0000
Subject: [PATCH 47/62] fix: carry down after subtracting the P-224 prime

Subtracting the prime can make the lowest limb negative. The borrow was
never propagated, so coordinates whose low 28 bits are all ones could come
out wrong.
---
 src/elliptic/p224.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 143bab9..2f4debc 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -477,6 +477,15 @@ impl CurveP224 {
         out[5] = out[5].wrapping_sub(0xfffffff & mask);
         out[6] = out[6].wrapping_sub(0xfffffff & mask);
         out[7] = out[7].wrapping_sub(0xfffffff & mask);
+
+        // Do one final carry down, in case we made out[0] negative. One of
+        // out[0..3] needs to be positive and able to absorb the -1 or the value
+        // would have been < p, and the subtraction would not have happened.
+        (0..3).for_each(|i| {
+            let mask = ((out[i] as i32) >> 31) as u32;
+            out[i] = out[i].wrapping_add((1 << 28) & mask);
+            out[i+1] = out[i+1].wrapping_sub(1 & mask);
+        });
     }
     
     fn p224_copy_conditional(out: &mut P224FieldElement, a: &P224FieldElement, mut control: u32) {
-- 
2.43.0


From 43734b0f27cff708d4627493cdc7b79559da5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:20 +0000
Subject: [PATCH 48/62] fix: convert zero coordinates of P-256 points

Shifting zero left leaves a number with leading zero words, and reducing
that does not give zero. Points with x = 0 were multiplied wrongly.
---
 src/elliptic/p256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0fbae8b..7b7eab9 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1158,6 +1158,11 @@ impl CurveP256 {
     }
     
     fn p256_from_bigint(&self, out: &mut P256FEle, a: &BigInt) {
+        if a.signnum() == Some(0) {
+            // a shifted zero keeps its leading zero words, which the reduction does not expect
+            *out = [0u32; P256_LIMBS];
+            return;
+        }
         let mut tmp = a.clone() << 257;
         tmp.rem_euclid_assign(self.cp.field_order().clone());
         
-- 
2.43.0


From c73cde950f43fe3c1310ed27bd6b0d2fa6581602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:35 +0000
Subject: [PATCH 49/62] fix: refuse to encrypt with short PKCS #1 v1.5 padding

When the random source failed, encryption went on with the padding bytes
received so far, or none at all.
---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index ef42f19..e351e82 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -62,6 +62,10 @@ impl<H, R> PKCS1Inner<H, R>
                 break;
             }
         }
+        if em.len() < bound {
+            em.clear();
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed to generate the padding string"));
+        }
         em.truncate(bound);
         em.push(0x00);
         em.extend(msg.iter());
-- 
2.43.0


From 248bb6de4b6e0c92beb69cbb0468339ec04e7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:35 +0000
Subject: [PATCH 50/62] fix: refuse to sign with a short PSS salt

When the random source failed, the signature was made with the salt bytes
received so far and did not verify.
---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 79a9433..e0586f4 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -286,6 +286,9 @@ impl<H, R> PSS<H, R>
         self.rd.iter_mut().take((salt_len + 3) >> 2).for_each(|x| {
             x.to_be_bytes().iter().for_each(|&y| {salt.push(y);});
         });
+        if salt.len() < salt_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed to generate the salt"));
+        }
         salt.truncate(salt_len);
         
         self.sign_with_salt(sign, m_hash, salt.as_slice())
-- 
2.43.0


From fd6b2d0a12b7e1e95ec10a235305a835df1c5b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:35 +0000
Subject: [PATCH 51/62] fix: refuse to generate an ECDSA key from too few
 random bytes

---
 src/ecdsa/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 3924ba1..11a7e62 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -71,6 +71,9 @@ impl<H, R, C> ECDSA<H, R, C>
                 break;
             }
         }
+        if buf.len() < b {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed to generate a private key"));
+        }
         buf.truncate(b);
         
         Ok(Self::rand_field_element_inner(params, buf.as_slice()))
-- 
2.43.0


From 64ad587032270df85180d8a7a8e1a25a313e98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:35 +0000
Subject: [PATCH 52/62] fix: refuse to make an ECDSA signature with too little
 entropy

---
 src/ecdsa/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 11a7e62..76f0cbd 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -157,6 +157,9 @@ impl<H, R, C> ECDSA<H, R, C>
                 break;
             }
         }
+        if entropy.len() < entropy_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed to generate the entropy of the signature"));
+        }
         entropy.truncate(entropy_len);
         
         self.md.reset();
-- 
2.43.0


From ace08cd19dcc7ae9c0363573351adf5c10e82b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:35 +0000
Subject: [PATCH 53/62] fix: report a failing random source when generating an
 elliptic-curve key

An immediate failure panicked, and a later one gave a shorter key.
---
 src/elliptic/elliptic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 201949c..42a30a0 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -152,6 +152,9 @@ impl CurveParams {
                 priv_key.push(((x >> 8) & 0xff) as u8);
                 priv_key.push((x & 0xff) as u8);
             });
+            if priv_key.len() < b_len {
+                return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed to generate a private key"));
+            }
             priv_key.truncate(b_len);
 
             // We have to mask off any excess bits in the case that the size of the
-- 
2.43.0


From f675b6d0976685656591939761aeeec276cdae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:35 +0000
Subject: [PATCH 54/62] fix: report a failing random source when generating an
 RSA key

The prime generator panicked when the source failed at once, searched
forever when it failed later, or returned a shorter prime.
---
 src/checked_source.rs | 53 +++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs            |  2 ++
 src/rsa/rsa.rs        |  5 +++-
 3 files changed, 59 insertions(+), 1 deletion(-)
 create mode 100644 src/checked_source.rs

diff --git a/src/checked_source.rs b/src/checked_source.rs
new file mode 100644
index 0000000..25109ed
--- /dev/null
+++ b/src/checked_source.rs
@@ -0,0 +1,53 @@
+use rmath::rand::{Iter, IterSource, RandError, Seed, Source};
+use crate::{CryptoError, CryptoErrorKind};
+
+/// The number generators of `rmath` cannot report the failure of the random source: they panic, try
+/// again forever or return a number with fewer random bits. After a failure this source goes on with
+/// useless words so that they return, and `check` tells whether the number may be used.
+pub(crate) struct CheckedSource<'a, R> {
+    rd: &'a mut R,
+    err: Option<RandError>,
+    useless: u32,
+}
+
+impl<'a, R: Source<u32>> CheckedSource<'a, R> {
+    pub(crate) fn new(rd: &'a mut R) -> Self {
+        Self {
+            rd,
+            err: None,
+            useless: 0,
+        }
+    }
+    
+    /// an error if the random source has failed
+    pub(crate) fn check(&mut self) -> Result<(), CryptoError> {
+        match self.err.take() {
+            Some(e) => Err(CryptoError::new(CryptoErrorKind::RandError, e)),
+            None => Ok(()),
+        }
+    }
+}
+
+impl<R: Source<u32>> Source<u32> for CheckedSource<'_, R> {
+    fn gen(&mut self) -> rmath::rand::Result<u32> {
+        if self.err.is_none() {
+            match self.rd.gen() {
+                Ok(x) => return Ok(x),
+                Err(e) => self.err = Some(e),
+            }
+        }
+        
+        self.useless = self.useless.wrapping_mul(1664525).wrapping_add(1013904223);
+        Ok(self.useless ^ (self.useless >> 16))
+    }
+
+    fn reset<Sd: Seed<u32>>(&mut self, sd: &Sd) -> rmath::rand::Result<()> {
+        self.rd.reset(sd)
+    }
+}
+
+impl<R: Source<u32>> IterSource<u32> for CheckedSource<'_, R> {
+    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
+        Iter::new(self)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5b5963c..06bc730 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,8 @@ pub use cipher::{Cipher, Digest, DigestXOF, Signature};
 mod crypto_err;
 pub use crypto_err::{CryptoErrorKind, CryptoError};
 
+mod checked_source;
+
 mod aes;
 pub use aes::AES;
 
diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index d27eea8..b508fd7 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -7,6 +7,7 @@
 use rmath::bigint::{BigInt, Nat};
 use crate::{CryptoError, CryptoErrorKind};
 use rmath::rand::IterSource;
+use crate::checked_source::CheckedSource;
 use std::fmt::{Display, Formatter, Debug};
 
 pub struct PublicKey {
@@ -445,6 +446,7 @@ impl PrivateKey {
         let bigone = BigInt::from(1u32);
         let pub_exp = BigInt::from(65537u32);
         let mut primes = Vec::with_capacity(n_primes);
+        let mut rd = CheckedSource::new(rd);
         let (pri_exp, modulus) = 'next_set_of_primes: loop {
             primes.clear();
             let mut cbits = bits_len;
@@ -464,7 +466,7 @@ impl PrivateKey {
             }
             
             for i in 0..n_primes {
-                let prime = match Nat::generate_prime(cbits / (n_primes - i), prime_test_round_num, rd) {
+                let prime = match Nat::generate_prime(cbits / (n_primes - i), prime_test_round_num, &mut rd) {
                     Ok(nat) => {
                         BigInt::from(nat)
                     },
@@ -472,6 +474,7 @@ impl PrivateKey {
                         return Err(CryptoError::new(CryptoErrorKind::OuterErr, e));
                     }
                 };
+                rd.check()?;
 
                 cbits -= prime.bits_len();
                 primes.push(prime);
-- 
2.43.0


From b0bab3b40fe8601112fb188544c6ddc878410e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:54 +0000
Subject: [PATCH 55/62] fix: report a failing random source when blinding

RSA decryption and signing drew the blinding factor forever while the
source failed.
---
 src/rsa/rsa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index b508fd7..dd682bb 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -274,8 +274,10 @@ impl PrivateKey {
                 // Then the decryption operation performs (m^e * r^e)^d mod n
                 // which equals mr mod n. The factor of r can then be removed
                 // by multiplying by the multiplicative inverse of r.
+                let mut rnd = CheckedSource::new(rnd);
                 let (r, ir) = loop {
-                    let r = self.pk.n.random(rnd);
+                    let r = self.pk.n.random(&mut rnd);
+                    rnd.check()?;
                     
                     let r = if r == 0u32 {
                         BigInt::from(1u32)
-- 
2.43.0


From ea80cfb4dc08585be5978b6e7e59bd34091ea27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:55 +0000
Subject: [PATCH 56/62] fix: report a failing random source when making a DSA
 signature

The secret of the signature was drawn forever while the source failed.
---
 src/dsa/dsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index 57bb4eb..d61ce5b 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -1,6 +1,7 @@
 use rmath::bigint::{BigInt, Nat};
 use crate::{Digest, CryptoError, CryptoErrorKind, Signature};
 use rmath::rand::IterSource;
+use crate::checked_source::CheckedSource;
 use std::fmt::{Display, Formatter, Debug};
 use crate::dsa::signature::SignatureContent;
 
@@ -275,7 +276,9 @@ impl<H, R> DSA<H, R>
         let n = n >> 3;
         for _ in 0..10 {
             let k = loop {
-                let k = dp.q.random(&mut self.rd);
+                let mut rd = CheckedSource::new(&mut self.rd);
+                let k = dp.q.random(&mut rd);
+                rd.check()?;
                 if k.signnum() == Some(1) && k.as_ref() > &0u32 {
                     break k;
                 }
-- 
2.43.0


From fe51a85ad7261cdb92da66110cfa43718e342506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:55 +0000
Subject: [PATCH 57/62] fix: report a failing random source when generating a
 DSA key

The private key was drawn forever while the source failed.
---
 src/dsa/dsa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index d61ce5b..8bc47ec 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -127,9 +127,11 @@ impl<H, R> DSA<H, R>
     }
     
     fn generate_key_inner(dp: DomainParameters, rd: &mut R) -> Result<PrivateKey, CryptoError> {
+        let mut rd = CheckedSource::new(rd);
         let x = loop {
             // `random` may return leading zero words
-            let x = BigInt::from_be_bytes(dp.q.random(rd).to_be_bytes().as_slice());
+            let x = BigInt::from_be_bytes(dp.q.random(&mut rd).to_be_bytes().as_slice());
+            rd.check()?;
             if x != 0u32 && x < dp.q {
                 break x;
             }
-- 
2.43.0


From d08600d9ea54d8d15493157e7c33f642947c232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:55 +0000
Subject: [PATCH 58/62] fix: report a failing random source when generating DSA
 parameters

A failure panicked, searched forever or gave a shorter prime.
---
 src/dsa/dsa.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index 8bc47ec..4beaef6 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -68,9 +68,11 @@ impl<H, R> DSA<H, R>
         let one = BigInt::from(1u32);
         
         let mut p_bytes = Vec::with_capacity(l_len >> 3);
+        let mut rd = CheckedSource::new(rd);
         let (p, q) = 'generate_primes: loop {
-            let q = Nat::generate_prime(n_len, test_round_times, rd)
+            let q = Nat::generate_prime(n_len, test_round_times, &mut rd)
                 .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::OuterErr, e))})?;
+            rd.check()?;
             for _ in 0..(l_len << 2) {
                 p_bytes.clear();
                 for e in rd.iter_mut() {
@@ -82,6 +84,7 @@ impl<H, R> DSA<H, R>
                         break;
                     }
                 }
+                rd.check()?;
                 p_bytes.truncate(l_len >> 3);
                 p_bytes[(l_len >> 3) - 1] |= 1;
                 p_bytes[0] |= 0x80;
@@ -96,7 +99,9 @@ impl<H, R> DSA<H, R>
                     continue;
                 }
                 
-                if !p.probably_prime_test(test_round_times, rd) {
+                let is_prime = p.probably_prime_test(test_round_times, &mut rd);
+                rd.check()?;
+                if !is_prime {
                     continue;
                 }
                 
-- 
2.43.0


From 346cd88834a056909a9f2ee7fe01c4d6cbedb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:14 +0000
Subject: [PATCH 59/62] fix: report every OAEP decoding failure with the same
 text

A wrong label hash had a text of its own, so a caller could tell which
part of the decrypted block was wrong.
---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index adb51fe..f7f92b8 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -139,7 +139,7 @@ impl<H, R> OAEPInner<H, R>
         
         let lhash2_bound = (db_bound.0, db_bound.0 + h_len);
         if lhash.as_slice() != &em.as_slice()[(lhash2_bound.0)..(lhash2_bound.1)] {
-            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid label hash value"));
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
-- 
2.43.0


From 7183cfd565fb806be56e14d3ad2300d291e367f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:14 +0000
Subject: [PATCH 60/62] fix: report a failing random source in OAEP encryption
 as such

It was reported as an internal error about the length of the encoded
message.
---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index f7f92b8..0724f45 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -65,6 +65,9 @@ impl<H, R> OAEPInner<H, R>
             em.push(((e >> 8) & 0xff) as u8);
             em.push((e & 0xff) as u8);
         });
+        if em.len() < h_len + 1 {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed to generate the seed"));
+        }
         em.truncate(h_len + 1);
         
         // db = lhash || ps || 0x01 || M
-- 
2.43.0


From 7a9ea144a582d3c71acb4d442b0480c11583c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:14 +0000
Subject: [PATCH 61/62] fix: report a wrong OAEP ciphertext length as an
 invalid parameter

It was reported as an invalid public key.
---
 src/rsa/oaep.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0724f45..140eec1 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -98,7 +98,7 @@ impl<H, R> OAEPInner<H, R>
     
     fn decrypt_inner(&mut self, msg: &mut Vec<u8>, cipher_text: &[u8]) -> Result<(), CryptoError> {
         if cipher_text.is_empty() {
-            return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The cipher text is empty"));
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text is empty"));
         }
         
         let kp = self.kp.private_key().ok_or(CryptoError::new(CryptoErrorKind::InvalidPrivateKey, "RSAES-OAEP: public key cannot be used for decryption"))?;
@@ -106,7 +106,10 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k != cipher_text.len() || k < ((h_len << 1) + 2) {
+        if k != cipher_text.len() {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "Invalid cipher text length"));
+        }
+        if k < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
         }
         
-- 
2.43.0


From 3e503f2d424345324a804a44daeb2e246d4ee28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:23 +0000
Subject: [PATCH 62/62] fix: report a wrong IV length given to OFB as an
 invalid parameter

It was reported as an internal error, unlike in the other modes.
---
 src/cipher_mode/ofb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher_mode/ofb.rs b/src/cipher_mode/ofb.rs
index 71969b2..d33a214 100644
--- a/src/cipher_mode/ofb.rs
+++ b/src/cipher_mode/ofb.rs
@@ -59,7 +59,7 @@ impl<C, IV> OFB<C, IV>
     
     pub fn set_iv(&mut self, iv: Vec<u8>) -> Result<(), CryptoError> {
         if iv.len() != self.cipher.block_size().unwrap_or(iv.len()) {
-            return Err(CryptoError::new(CryptoErrorKind::InnerErr,
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), self.cipher.block_size().unwrap())));
         } else {
             let mut iv = iv;
-- 
2.43.0

