From d7a5c9fcb9b955030a74f3713f4bed5682250a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:33 +0000
Subject: [PATCH 01/52] fix: do not append a surplus zero block in
 DefaultPadding

A buffer one byte short of a whole number of blocks got its 0x80 byte and
then a whole extra block of zeros, because the fill-up was also done when
the length was already a multiple of the block size.
---
 src/cipher_mode/padding.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 58f1990..0f45794 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -28,13 +28,9 @@ impl<C: Cipher> DefaultPadding<C> {
 impl<C: Cipher> Padding for DefaultPadding<C> {
     fn padding(&self, buf: &mut Vec<u8>) {
         buf.push(0x80);
-        let old_len = buf.len();
-        if self.block_size < old_len {
-            buf.resize(old_len + (self.block_size - (old_len % self.block_size)), 0);
-        } else if self.block_size > old_len {
-            buf.resize(self.block_size, 0);
-        } else {
-            buf.resize(self.block_size << 1, 0);
+        let remain = buf.len() % self.block_size;
+        if remain != 0 {
+            buf.resize(buf.len() + (self.block_size - remain), 0);
         }
     }
 
-- 
2.43.0


From 6bb0d305ac0970adea35a50d17c35f2db877006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:33 +0000
Subject: [PATCH 02/52] fix: refuse malformed padding in
 DefaultPadding::unpadding

Bytes other than 0x00 and 0x80 were skipped while looking for the 0x80
marker, so a damaged padding was accepted and the wrong bytes were cut off.
A marker followed by a whole block of zeros is not something padding()
produces, so it is refused as well.
---
 src/cipher_mode/padding.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 0f45794..40c615d 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -36,12 +36,14 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
 
     fn unpadding(&self, buf: &mut Vec<u8>) -> Result<usize, CryptoError> {
         let mut len = 0;
-        for &e in buf.iter().rev() {
+        for &e in buf.iter().rev().take(self.block_size) {
             if e == 0 {
                 len += 1;
             } else if e == 0x80 {
                 buf.truncate(buf.len() - len - 1);
                 return Ok(buf.len());
+            } else {
+                break;
             }
         }
         
-- 
2.43.0


From 36e1706720ad775f3946ccdc26d87f9349761b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:33 +0000
Subject: [PATCH 03/52] fix: chain the padded last block in one-shot CBC
 encryption

The block made by the padding was encrypted on its own, without being
combined with the previous ciphertext block.
---
 src/cipher_mode/cbc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 3c71d60..0a61718 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -153,8 +153,12 @@ impl<C, P, IV> Cipher for CBC<C, P, IV>
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
             let tmp = &data[..len];
-            match self.cipher.encrypt(txt, tmp) {
+            Self::xor_iv(tmp, &mut cur_iv);
+
+            match self.cipher.encrypt(txt, &cur_iv[..len]) {
                 Ok(_) => {
+                    cur_iv.clear();
+                    cur_iv.extend_from_slice(txt.as_slice());
                     dst.append(txt);
                     data = &data[len..];
                 },
-- 
2.43.0


From a3e4887fdfd1f78dc34ce3bf2b98d08dd8235302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:33 +0000
Subject: [PATCH 04/52] fix: keep CBC chaining inside the stream finish

CBCEncrypt::finish put the initial vector back after every block, so a
padding of more than one block was not chained. With nothing left to
encrypt it did not put it back at all, so the next message on the stream
was chained to the previous one.
---
 src/cipher_mode/cbc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 0a61718..112eade 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -308,8 +308,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             Self::xor_iv(txt, tmp, &self.ij);
             match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.append(&mut self.ij);
-                    self.ij.extend(self.cbc.cur_iv.iter());
+                    self.pond.extend(self.ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -319,6 +318,8 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
         }
         
         self.data.clear();
+        self.ij.clear();
+        self.ij.extend(self.cbc.cur_iv.iter());
         Ok(Pond::new(&mut self.pond, true))
     }
 }
-- 
2.43.0


From cee69b4d5cef365bc39b87a15d5bc60937daaede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:33 +0000
Subject: [PATCH 05/52] fix: accept an empty ciphertext in unpadded ECB and CBC
 decrypt streams

Finishing a decrypt stream that got no data handed an empty block to the
cipher, which refuses it, although the one-shot call accepts an empty
ciphertext and leaves the verdict to the padding.
---
 src/cipher_mode/cbc.rs | 5 +++++
 src/cipher_mode/ecb.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 112eade..b4705d1 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -364,6 +364,11 @@ impl<C, P, IV> DecryptStream for CBCDecrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.cbc.get_buf();
+        if self.data.is_empty() {
+            txt.clear();
+            self.cbc.padding.unpadding(txt)?;
+            return Ok(Pond::new(&mut self.pond, true));
+        }
         match self.cbc.cipher.decrypt(txt, self.data.as_slice()) {
             Ok(_) => {
                 txt.iter_mut().zip(self.ij.iter()).for_each(|(a, &b)| {
diff --git a/src/cipher_mode/ecb.rs b/src/cipher_mode/ecb.rs
index 7640665..599e9d4 100644
--- a/src/cipher_mode/ecb.rs
+++ b/src/cipher_mode/ecb.rs
@@ -305,6 +305,11 @@ impl<C, P> DecryptStream for ECBDecrypt<C, P>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.ecb.get_buf();
+        if self.data.is_empty() {
+            txt.clear();
+            self.ecb.padding.unpadding(txt)?;
+            return Ok(Pond::new(&mut self.pond, true));
+        }
         match self.ecb.cipher.decrypt(txt, self.data.as_slice()) {
             Ok(_) => {
                 if let Err(e) = self.ecb.padding.unpadding(txt) {
-- 
2.43.0


From 6693fbdd64c530bb34a63a74742512f67c76d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:09 +0000
Subject: [PATCH 06/52] fix: refuse an incomplete last segment in CFB

With a padding that does not complete the last segment, encryption
silently dropped the incomplete segment, and finishing a decrypt stream
with one panicked. Both report an error now.
---
 src/cipher_mode/cfb.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 97961de..176ed76 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -123,7 +123,11 @@ impl<C, P, IV> CFB<C, P, IV>
     
     fn encrypt_inner(&self, ij: &mut Vec<u8>, dst: &mut Vec<u8>, mut data: &[u8]) -> Result<usize, CryptoError> {
         let oj = self.get_buf();
-        while data.len() >= self.s {
+        while !data.is_empty() {
+            if data.len() < self.s {
+                return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                    format!("Wrong plaintext len, the plaintext after padding should be a multiple of {} in bytes", self.s)));
+            }
             match self.cipher.encrypt(oj, ij.as_slice()) {
                 Ok(_) => {
                     let block = &data[..self.s];
@@ -154,6 +158,10 @@ impl<C, P, IV> CFB<C, P, IV>
     fn decrypt_inner(&self, ij: &mut Vec<u8>, dst: &mut Vec<u8>, mut data: &[u8]) -> Result<usize, CryptoError> {
         let oj = self.get_buf();
         while !data.is_empty() {
+            if data.len() < self.s {
+                return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                    format!("Wrong ciphertext len, the ciphertext should be a multiple of {} in bytes", self.s)));
+            }
             match self.cipher.encrypt(oj, ij.as_slice()) {
                 Ok(_) => {
                     let cj = &data[..self.s];
@@ -193,9 +201,9 @@ impl<C, P, IV> Cipher for CFB<C, P, IV>
         
         dst.clear();
         
-        self.encrypt_inner(&mut ij, dst, plaintext_block)?;
-        
         let remain = plaintext_block.len() % self.s;
+        self.encrypt_inner(&mut ij, dst, &plaintext_block[..(plaintext_block.len() - remain)])?;
+        
         let mut data = plaintext_block[(plaintext_block.len() - remain)..plaintext_block.len()].to_vec();
         
         self.padding.padding(&mut data);
@@ -272,10 +280,10 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
             }
         }
         
-        if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, data) {
+        let len = data.len() % self.cfb.s;
+        if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, &data[..(data.len() - len)]) {
             Err(e)
         } else {
-            let len = data.len() % self.cfb.s;
             data = &data[(data.len() - len)..];
             self.data.extend_from_slice(data);
             Ok(Pond::new(&mut self.pond, false))
-- 
2.43.0


From b36f18d19bc529ced62a3ce9fdc1bdf56ce68816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:09 +0000
Subject: [PATCH 07/52] fix: keep the padded tail out of the CFB decrypt pond

CFBDecrypt::write decrypted everything it got, and finish removed the
padding from whatever was still in the pond. If the output was drawn off
between the writes, the padding was handed to the user and finish reported
an error. Hold the last block back until finish, like ECB and CBC do.
---
 src/cipher_mode/cfb.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 176ed76..bad640b 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -313,7 +313,10 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
             self.data.extend_from_slice(data);
         }
         
-        let bound = self.data.len() - (self.data.len() % self.cfb.s);
+        // the padding is in the last block
+        let block_len = self.cfb.cipher.block_size().unwrap_or(self.cfb.s);
+        let bound = self.data.len() - std::cmp::min(self.data.len(), block_len);
+        let bound = bound - (bound % self.cfb.s);
         let data = &self.data.as_slice()[..bound];
         
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, data) {
@@ -329,12 +332,14 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
+        let mut tail = Vec::with_capacity(self.data.len());
+        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut tail, self.data.as_slice()) {
             Err(e)
         } else {
-            if let Err(e) = self.cfb.padding.unpadding(&mut self.pond) {
+            if let Err(e) = self.cfb.padding.unpadding(&mut tail) {
                 return Err(e);
             } else {
+                self.pond.append(&mut tail);
                 self.data.clear();
                 self.ij.clear();
                 self.ij.extend(self.cfb.cur_iv.iter());
-- 
2.43.0


From 39ad51a2a9c0466ccb1f657a51f85702a3ca050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:09 +0000
Subject: [PATCH 08/52] fix: use the low end of a counter wider than the block
 in CTR

The counter is incremented at its last byte, but only its first
block-length bytes were encrypted. With a wider counter every key stream
block was therefore used 256 times or more.
---
 src/cipher_mode/ctr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher_mode/ctr.rs b/src/cipher_mode/ctr.rs
index 668faf5..e13d9ad 100644
--- a/src/cipher_mode/ctr.rs
+++ b/src/cipher_mode/ctr.rs
@@ -61,7 +61,7 @@ impl<C, T>  CTR<C, T>
         while !data.is_empty() {
             match self.get_counter().next() {
                 Some(c) => {
-                    match self.cipher.encrypt(oj, &c.as_slice()[..block_len]) {
+                    match self.cipher.encrypt(oj, &c.as_slice()[(c.len() - block_len)..]) {
                         Ok(_) => {
                             let len = std::cmp::min(block_len,data.len());
                             let block = &data[..len];
-- 
2.43.0


From 1050f84adefbb3c957228be64cea51114e78d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:09 +0000
Subject: [PATCH 09/52] fix: keep the old IV when update_iv fails

A failing IV source, or one that gives an IV of the wrong length, left the
mode with a partial or ill-fitting IV.
---
 src/cipher_mode/cbc.rs | 8 +++++---
 src/cipher_mode/cfb.rs | 8 +++++---
 src/cipher_mode/ofb.rs | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index b4705d1..e79cd24 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -50,12 +50,14 @@ impl<C, P, IV> CBC<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index bad640b..4bcd463 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -65,12 +65,14 @@ impl<C, P, IV> CFB<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/ofb.rs b/src/cipher_mode/ofb.rs
index 1ebe0ca..71969b2 100644
--- a/src/cipher_mode/ofb.rs
+++ b/src/cipher_mode/ofb.rs
@@ -41,12 +41,14 @@ impl<C, IV> OFB<C, IV>
     
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let len = self.cipher.block_size().unwrap_or(1);
-        if let Err(e) = self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(len);
+        if let Err(e) = self.iv.initial_vec(&mut iv) {
             Err(e)
-        } else if self.cur_iv.len() != self.cipher.block_size().unwrap_or(self.cur_iv.len()) {
+        } else if iv.len() != self.cipher.block_size().unwrap_or(iv.len()) {
             return Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), len)));
+                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), len)));
         } else {
+            self.cur_iv = iv;
             Ok(&self.cur_iv)
         }
     }
-- 
2.43.0


From 27535a05feade2918a0e9cb40b9f95ed4e01ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 10/52] fix: start SHA-512/t from a clean state

SHA512T::new kept the length, index and buffer of the computation that derives
the initial value. The next digest was therefore computed with a wrong message
length. Keep only the derived words.
---
 src/sha/sha512.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index a272922..23cdb67 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -206,7 +206,10 @@ impl SHA512T {
             sha_.write(s.as_bytes());
             let mut _x = Vec::new();
             sha_.checksum(&mut _x);
-            sha_.is_checked = false;
+            let sha_ = SHA512 {
+                digest: sha_.digest,
+                ..SHA512::new()
+            };
             Some(
                 SHA512T {
                     sha_,
-- 
2.43.0


From 30e3c82ea2ceba644c621dfa4c779486dce7a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 11/52] fix: keep the leading bits of the last byte of
 SHA-512/t

When t is not a multiple of 8 the last byte was shifted so that other bits than
its leading ones survived. Clear the unused low bits instead.
---
 src/sha/sha512.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index 23cdb67..af34d1e 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -242,7 +242,7 @@ impl Digest for SHA512T {
         match digest.pop() {
             Some(x) => {
                 let y = if rom > 0 {
-                    (x >> (8 - rom)) << rom
+                    (x >> (8 - rom)) << (8 - rom)
                 } else {
                     x
                 };
-- 
2.43.0


From 47c60eb517fda012a9c95ea25544dfe9b9f32a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 12/52] fix: refuse the values of t that SHA-512/t excludes

FIPS 180-4 defines SHA-512/t for 0 < t < 512 and t other than 384. The
constructors accepted 0, 384 and 512.
---
 src/sha/sha.rs    | 10 +++-------
 src/sha/sha512.rs |  2 +-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sha/sha.rs b/src/sha/sha.rs
index aa2e9f1..0c5407e 100644
--- a/src/sha/sha.rs
+++ b/src/sha/sha.rs
@@ -50,13 +50,9 @@ impl SHA {
     }
 
     pub fn sha512t(bits_len: usize) -> Option<Self> {
-        if bits_len <= 512 {
-            Some(Self {
-                sha_: SHAType::SHA512T(SHA512T::new(bits_len).unwrap())
-            })
-        } else {
-            None
-        }
+        SHA512T::new(bits_len).map(|sha| Self {
+            sha_: SHAType::SHA512T(sha)
+        })
     }
     
     /// SHA512/256
diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index af34d1e..f72acf3 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -197,7 +197,7 @@ pub struct SHA512T {
 
 impl SHA512T {
     pub fn new(bits_len: usize) -> Option<SHA512T> {
-        if bits_len <= 512 {
+        if bits_len > 0 && bits_len < 512 && bits_len != 384 {
             let mut sha_ = SHA512::new();
             sha_.digest.iter_mut().for_each(|e| {
                 *e = *e ^ 0xa5a5a5a5a5a5a5a5u64;
-- 
2.43.0


From 580195464bc0a29fc1bc8d67bdaaeea5b2d0c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 13/52] fix: start a new message when a hash is written after
 checksum

MD5, SHA-1, SHA-2 and SM3 continued from the finalised state, so the digest of
the next message was not the hash of anything. SHA-3 and HMAC already start
afresh.
---
 src/md5/md5.rs    |  4 ++++
 src/sha/sha1.rs   |  4 ++++
 src/sha/sha256.rs |  7 +++++++
 src/sha/sha512.rs | 10 ++++++++++
 src/sm3/sm3.rs    |  4 ++++
 5 files changed, 29 insertions(+)

diff --git a/src/md5/md5.rs b/src/md5/md5.rs
index 97a6de0..f6bdf50 100644
--- a/src/md5/md5.rs
+++ b/src/md5/md5.rs
@@ -39,6 +39,10 @@ impl Digest for MD5 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha1.rs b/src/sha/sha1.rs
index 0038e90..f7e8c61 100644
--- a/src/sha/sha1.rs
+++ b/src/sha/sha1.rs
@@ -35,6 +35,10 @@ impl Digest for SHA1 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha256.rs b/src/sha/sha256.rs
index 4cf23f4..04487d9 100644
--- a/src/sha/sha256.rs
+++ b/src/sha/sha256.rs
@@ -35,6 +35,10 @@ impl Digest for SHA256 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -126,6 +130,9 @@ impl Digest for SHA224 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked {
+            self.reset();
+        }
         self.sha_.write(data);
     }
 
diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index f72acf3..dd6b7a8 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -38,6 +38,10 @@ impl Digest for SHA512 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -169,6 +173,9 @@ macro_rules! impl_digest_for_sha512_series {
             }
         
             fn write(&mut self, data: &[u8]) {
+                if self.sha_.is_checked {
+                    self.reset();
+                }
                 self.sha_.write(data);
             }
         
@@ -232,6 +239,9 @@ impl Digest for SHA512T {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked {
+            self.reset();
+        }
         self.sha_.write(data);
     }
 
diff --git a/src/sm3/sm3.rs b/src/sm3/sm3.rs
index b2ae5d7..47e9551 100644
--- a/src/sm3/sm3.rs
+++ b/src/sm3/sm3.rs
@@ -124,6 +124,10 @@ impl Digest for SM3 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.is_checked {
+            self.reset();
+        }
+
         let mut data = data;
         self.len += data.len();
         
-- 
2.43.0


From dbebfc9913b45197d1b09a44612f73c3cb8b2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 14/52] fix: make EIA3 independent of how the message is split

Every write drew two new keystream words and restarted the bit position, so a
message written in pieces got another MAC than in one piece, and a message
without any write got a MAC without keystream. Draw the words once at the start.
---
 src/zuc/zuc_mac.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 0f91371..ce43832 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -38,7 +38,8 @@ impl ZUCMac {
             iv[15] = iv[7];
 
             match ZUC::from_slice(ck, iv.as_ref()) {
-                Ok(z) => {
+                Ok(mut z) => {
+                    let (key0, key1) = (z.zuc(), z.zuc());
                     let mut tmp = [0u8; 16];
                     tmp.iter_mut().zip(ck.iter()).for_each(|(e, &k)| {
                         *e = k;
@@ -47,8 +48,8 @@ impl ZUCMac {
                         zuc: z,
                         ck: tmp,
                         iv,
-                        key0: 0,
-                        key1: 0,
+                        key0,
+                        key1,
                         length: 0,
                         t: 0,
                         is_check: false,
@@ -82,10 +83,8 @@ impl Digest for ZUCMac {
         
         let bound = data.len() << 3;
         
-        self.key0 = self.zuc.zuc();
-        self.key1 = self.zuc.zuc();
         for i in 0..bound {
-            let rem = i & 31;
+            let rem = (self.length + i) & 31;
             if Self::is_one(data, i) {
                 if rem == 0 {
                     self.t ^= self.key0;
@@ -121,8 +120,8 @@ impl Digest for ZUCMac {
 
     fn reset(&mut self) {
         self.zuc.set_slice(self.ck.as_ref(), self.iv.as_ref()).unwrap();
-        self.key0 = 0;
-        self.key1 = 0;
+        self.key0 = self.zuc.zuc();
+        self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
     }
-- 
2.43.0


From 0a646de1157797b4c19102d1c18ffea519fee90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 15/52] fix: remember that an EIA3 message is finished

checksum never set its flag, so asking again for the MAC returned another value
and a later message continued the finished one.
---
 src/zuc/zuc_mac.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index ce43832..581d5e3 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -112,6 +112,7 @@ impl Digest for ZUCMac {
                 self.t ^= self.zuc.zuc();
             }
 
+            self.is_check = true;
         }
         
         digest.clear();
@@ -124,5 +125,6 @@ impl Digest for ZUCMac {
         self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
+        self.is_check = false;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 352a77221700f91ccc2d2e141493137989eef3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 16/52] fix: refuse sponge rates of zero or of at least the
 width

The two conditions were joined with "or", so every rate was accepted. A rate of 0
never terminates and a larger rate than the width indexes out of the state.
---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 0e9185e..682336c 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -393,7 +393,7 @@ impl KeccakSponge {
     /// Sponge[Keccak-p[b,nr], pad10*1, rate]  
     /// `rate` must be a positive integer and strictly less than the width `self.widths()`.
     pub fn new(keccak: Keccak, rate: usize) -> Result<KeccakSponge, CryptoError> {
-        if rate > 0 || rate < keccak.widths() {
+        if rate > 0 && rate < keccak.widths() {
             Ok(KeccakSponge {
                 rate,
                 keccak,
-- 
2.43.0


From 46a4cd070afc5148c34813fcca4a92e5ecb97f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 17/52] fix: use the right round constants for negative Keccak
 round indices

With more rounds than 12 + 2l the round index starts below zero. The reduction
modulo 255 was applied to the two's complement of the index.
---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 682336c..603bcf6 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -286,7 +286,7 @@ impl Keccak {
     fn rc(t: i64) -> u8 {
         const MODULUS: usize = 255;
         let t = if t >= 0 {Self::minus_rem_euclid((t & 0xffffffff) as usize,0, MODULUS)}
-            else {Self::minus_rem_euclid(0, (t & 0xffffffff) as usize, MODULUS)};
+            else {Self::minus_rem_euclid(0, ((-t) & 0xffffffff) as usize, MODULUS)};
         
         if t == 0 {
             1
-- 
2.43.0


From c32a5e3cef351de78b96c7667f7acdd4cda2d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:01 +0000
Subject: [PATCH 18/52] fix: report the bytes served from left-over ZUC
 keystream

A call whose input was covered by the keystream bytes left from the previous
call wrote its output but reported 0 bytes.
---
 src/zuc/zuc_cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_cipher.rs b/src/zuc/zuc_cipher.rs
index 2223a2a..61dec07 100644
--- a/src/zuc/zuc_cipher.rs
+++ b/src/zuc/zuc_cipher.rs
@@ -103,7 +103,7 @@ impl Cipher for ZUCCipher {
         self.get_key().truncate(self.get_key().len() - len);
         
         if plaintext_block.is_empty() {
-            return Ok(0);
+            return Ok(dst.len());
         }
 
         let len = (plaintext_block.len() + 3) >> 2;
-- 
2.43.0


From 83464a28bdc6b89cb3313a4ea4916f8df89f588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:40 +0000
Subject: [PATCH 19/52] fix: refuse RSA ciphertexts outside of [0, n)

The private key operation accepted c == n and negative values.
---
 src/rsa/rsa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d56232..add9da7 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -246,10 +246,14 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
-        if c > &self.pk.n {
+        if c >= &self.pk.n {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
         }
         
+        if c < &BigInt::from(0u32) {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is negative"));
+        }
+        
         if self.pk.n.is_nan() || self.pk.n == 0u32 {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPrivateKey, "Invalid modulus"));
         }
-- 
2.43.0


From 764a98abab19a15e37533109fc2400639c4d2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:40 +0000
Subject: [PATCH 20/52] fix: reduce the result of the multi-prime RSA
 decryption

The remainder of a negative multiple of a prime comes out as the prime
itself instead of zero, so the recombined message was too big by the modulus,
for example for every message below the product of the first two primes.
---
 src/rsa/rsa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index add9da7..7dca786 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -325,6 +325,7 @@ impl PrivateKey {
                 m1 += m_i;
             }
             
+            m1.rem_euclid_assign(self.pk.n.clone());
             m1
         };
         
-- 
2.43.0


From 4246d3e39493e73065af03871756211eb22580bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:40 +0000
Subject: [PATCH 21/52] fix: draw another RSA blinding value when it has no
 inverse

mod_inverse does not report values that share a factor with the modulus,
so the result of the decryption was wrong for them.
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 7dca786..7fffaef 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -278,7 +278,7 @@ impl PrivateKey {
                     };
                     
                     let mi = r.mod_inverse(self.pk.n.clone());
-                    if !mi.is_nan() {
+                    if !mi.is_nan() && (r.clone() * mi.clone()).rem_euclid(self.pk.n.clone()) == 1u32 {
                         break (r, Some(mi));
                     }
                 };
-- 
2.43.0


From 8a047d6584f00537a2a517f70c217260ce37b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:40 +0000
Subject: [PATCH 22/52] fix: RSA keys with equal primes or an exponent without
 inverse

dedup() removes neighbours only, and mod_inverse does not report that the
exponent shares a factor with the totient.
---
 src/rsa/rsa.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 7fffaef..cb2724c 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -471,8 +471,7 @@ impl PrivateKey {
             }
 
             // Make sure that primes is pairwise unequal.
-            primes.dedup();
-            if primes.len() != n_primes {
+            if (1..n_primes).any(|i| primes[..i].contains(&primes[i])) {
                 continue'next_set_of_primes;
             }
 
@@ -490,9 +489,9 @@ impl PrivateKey {
                 continue 'next_set_of_primes;
             }
 
-            let pri_exp = pub_exp.mod_inverse(totient);
+            let pri_exp = pub_exp.mod_inverse(totient.clone());
 
-            if !pri_exp.is_nan() {
+            if !pri_exp.is_nan() && (pri_exp.clone() * pub_exp.clone()).rem_euclid(totient) == 1u32 {
                 break (pri_exp, n);
             }
         };
-- 
2.43.0


From 4c722a66888f2ec6ccc9e1981addd8caf82702cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:40 +0000
Subject: [PATCH 23/52] fix: refuse RSA keys of many tiny primes at any modulus
 size

The check for too few primes was made below 64 bits only. Requests such as 20
primes in 64 bits never came back.
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index cb2724c..cb65e46 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -419,7 +419,7 @@ impl PrivateKey {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "n_primes must be great or equal to 2"));
         }
         
-        if bits_len < 64 {
+        if bits_len / n_primes < 64 {
             let prime_limit= (1u64 << (bits_len / n_primes)) as f64;
             // pi approximates the number of primes less than primeLimit
             let mut pi = prime_limit / (prime_limit.ln() - 1f64);
-- 
2.43.0


From 9b760f04425ae1e0892c07e953c316cb1bb67ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:40 +0000
Subject: [PATCH 24/52] fix: RSA operations on 0 and 1 with a long exponent

The exponentiation shifts by the word size for these bases when the top word
of the exponent is 1, and panics in builds with overflow checks.
---
 src/rsa/rsa.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index cb65e46..031affb 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -160,6 +160,10 @@ impl PublicKey {
     /// RSAEP: RSA encrypt primitive  
     /// $m^e \mod n$
     pub fn encrypt(&self, m: &BigInt) -> BigInt {
+        if *m == 0u32 || *m == 1u32 {
+            return m.deep_clone();
+        }
+        
         m.exp(&self.e, &self.n)
     }
 }
@@ -262,6 +266,10 @@ impl PrivateKey {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPrivateKey, "Private exponent is empty"));
         }
         
+        if *c == 0u32 || *c == 1u32 {
+            return Ok(c.deep_clone());
+        }
+        
         let (c, ir) = match rd {
             Some(rnd) => {
                 // Blinding enabled. Blinding involves multiplying c by r^e.
-- 
2.43.0


From 288a4663df157c907a990577338fde413139c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 25/52] fix: encrypt empty messages with RSAES-PKCS1

They came out as an empty ciphertext, which decryption refuses.
---
 src/rsa/pkcs1.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 244e54f..20a92eb 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -39,9 +39,6 @@ impl<H, R> PKCS1Inner<H, R>
     
     fn encrypt(&mut self, cipher: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         cipher.clear();
-        if msg.is_empty() {
-            return Ok(());
-        }
         
         self.kp.public_key().is_valid()?;
         
-- 
2.43.0


From 8825c43c7a3cd2cedf9338ba5f82c3d5d45bed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 26/52] fix: return an error for hashes without a PKCS1
 identifier

Signing and verifying panicked with them.
---
 src/rsa/pkcs1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 20a92eb..db7bbd4 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -233,7 +233,7 @@ impl<H, R> PKCS1Inner<H, R>
         } else if TypeId::of::<H>() == TypeId::of::<SHA512>() {
             Ok(vec![0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40])
         } else {
-            unreachable!(format!("not suuport {}", std::any::type_name::<H>()));
+            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("not suuport {}", std::any::type_name::<H>())))
         }
     }
     
-- 
2.43.0


From 995df3ec6b6403e4f9f10eca46002d3842b1bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 27/52] fix: check length and range of RSASSA-PKCS1 signatures

Signatures with extra leading zeros, shortened ones and signatures plus a
multiple of the modulus were accepted.
---
 src/rsa/pkcs1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index db7bbd4..8f809c0 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -180,6 +180,9 @@ impl<H, R> PKCS1Inner<H, R>
         }
         
         let c = BigInt::from_be_bytes(sign);
+        if sign.len() != k || &c >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature length or range"));
+        }
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
         let old_len = em.len();
-- 
2.43.0


From 5b90c957790fff6b183350dcb44b94a4a4490619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 28/52] fix: check the length of RSAES-OAEP ciphertexts

Ciphertexts shorter than the modulus were accepted.
---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 851c5e9..8a72dc7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -103,7 +103,7 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k < cipher_text.len() || k < ((h_len << 1) + 2) {
+        if k != cipher_text.len() || k < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
         }
         
-- 
2.43.0


From 2552c9bb69f538cb7c5094093d4babf5d6c34b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 29/52] fix: refuse OAEP blocks without separator

A block of zeros after the label hash decrypted to an empty message.
---
 src/rsa/oaep.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 8a72dc7..50a070e 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -143,6 +143,10 @@ impl<H, R> OAEPInner<H, R>
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
+        if em[(rest_bound.0)..(rest_bound.1)].iter().all(|&x| x == 0x00) {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
+        }
+        
         for &x in (&em[(rest_bound.0)..(rest_bound.1)]).iter() {
             idx += 1;
             if x != 0x00 {
-- 
2.43.0


From 3bfc3314c0d21b905012bb905cd30d4f74d4033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 30/52] fix: masks of the unused leading bits in PSS
 verification

The number of unused bits was computed with the wrong shift, and a full byte
was shifted out when there are none. Verification panicked or looked at the
wrong bits.
---
 src/rsa/pss.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 4a8b5c0..99771cf 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -220,7 +220,7 @@ impl<H, R> PSS<H, R>
         let (db_start, db_end) = (0, em_len - h_len - 1);
         let (h_start, h_end) = (db_end, em_len - 1);
         
-        if (em[0] & (0xffu8 << (8 - ((em_len << 3) - em_bits)))) != 0 {
+        if (em[0] & !(0xffu8 >> ((em_len << 3) - em_bits))) != 0 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid head tag"));
         }
         
@@ -228,7 +228,7 @@ impl<H, R> PSS<H, R>
         let h = &em[h_start..h_end];
         Self::mgf1_xor(db.as_mut_slice(), h, &mut self.hf);
         
-        db[0] &= 0xff >> ((em_len >> 3) - em_bits);
+        db[0] &= 0xffu8 >> ((em_len << 3) - em_bits);
 
         for &e in db.iter().take(em_len - h_len - self.salt_len() - 2) {
             if e != 0x00 {
-- 
2.43.0


From cc2f99a094ba8bcfe8be7def1b055c3837d8a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 31/52] fix: automatic PSS salt length for moduli of 8k+1 bits

The encoded message is one byte shorter than the modulus there, so the
computed salt never fitted.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 99771cf..90f4c3f 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -59,7 +59,7 @@ impl<H, R> PSS<H, R>
                 if x > 0 {
                     x
                 } else {
-                    ((bits_len + 7) >> 3).saturating_sub(2 + h_len)
+                    ((bits_len.saturating_sub(1) + 7) >> 3).saturating_sub(2 + h_len)
                 }
             },
             None => {
-- 
2.43.0


From 05989df9a540d2a399cb0ff662bae95e93f6840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 32/52] fix: refuse PSS signatures that are not below the
 modulus

---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 90f4c3f..63f7011 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -299,6 +299,9 @@ impl<H, R> PSS<H, R>
         }
         
         let s = BigInt::from_be_bytes(sign);
+        if &s >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature out of range"));
+        }
         let m = self.kp.public_key().encrypt(&s);
         
         let em_bits = n_bits - 1;
-- 
2.43.0


From af5c2b4f1efff4bc305557581de0019724e9588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:35 +0000
Subject: [PATCH 33/52] fix: shorten the hash to the length of q in DSA
 verification

Signing uses the leading bytes of the hash, verification used all of it, so
signatures with a hash longer than q were refused.
---
 src/dsa/dsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index b7bae9d..baea2d9 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -331,7 +331,7 @@ impl<H, R> DSA<H, R>
         self.hf.write(msg);
         self.hf.checksum(&mut hm);
         
-        let mut z = BigInt::from_be_bytes(hm.as_slice());
+        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..std::cmp::min(h_len, n >> 3)]);
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
-- 
2.43.0


From b5d5642f1325eb79a723b3765c60e083746da410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:35 +0000
Subject: [PATCH 34/52] fix: reading (r, s) of a shortened signature

The content can be changed through AsMut, and to_bigint panicked when it was
shorter than r.
---
 src/dsa/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsa/signature.rs b/src/dsa/signature.rs
index 3124249..7247a90 100644
--- a/src/dsa/signature.rs
+++ b/src/dsa/signature.rs
@@ -37,8 +37,8 @@ impl SignatureContent {
     
     /// r, s
     pub fn to_bigint(&self) -> (BigInt, BigInt) {
-        (BigInt::from_be_bytes(&self.content.as_slice()[0..self.r_len]),
-        BigInt::from_be_bytes(&self.content.as_slice()[self.r_len..]))
+        let (r, s) = self.content.split_at(std::cmp::min(self.r_len, self.content.len()));
+        (BigInt::from_be_bytes(r), BigInt::from_be_bytes(s))
     }
     
     pub fn set(&mut self, r: BigInt, s: BigInt) {
-- 
2.43.0


From 8a0613cd6e5e2c6f718d92483a459c9f49986bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:07 +0000
Subject: [PATCH 35/52] fix: masked subtractions of the P-256 reduction

They are computed for a zero word too and masked afterwards. Builds with
overflow checks panicked in the subtraction.
---
 src/elliptic/p256.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 1d66415..0fbae8b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -421,14 +421,14 @@ impl CurveP256 {
             // At position 200, which is the starting bit position for word 7, we
             // have a factor of 0xf000000 = 2**28 - 2**24.
             tmp2[i+7] = tmp2[i+7].wrapping_add(0x10000000 & x_mask);
-            tmp2[i+8] = tmp2[i+8].wrapping_add((x - 1) & x_mask);
+            tmp2[i+8] = tmp2[i+8].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+7] = tmp2[i+7].wrapping_sub((x << 24) & BOTTOM_28BITS);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x >> 4);
 
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x);
             tmp2[i+8] = tmp2[i+8].wrapping_add((x << 28) & BOTTOM_29BITS);
-            tmp2[i+9] = tmp2[i+9].wrapping_add(((x >> 1) - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add((x >> 1).wrapping_sub(1) & x_mask);
 
             if (i + 1) == P256_LIMBS {
                 break;
@@ -449,13 +449,13 @@ impl CurveP256 {
             // 0x1e000000 = 2**29 - 2**25. Since we have not updated i, the 8th
             // word from i+1 is i+8.
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
-            tmp2[i+9] = tmp2[i+9].wrapping_add((x - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub((x << 25) & BOTTOM_29BITS);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x >> 4);
 
             tmp2[i+9] = tmp2[i+9].wrapping_add(0x10000000 & x_mask);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x);
-            tmp2[i+10] = tmp2[i+10].wrapping_add((x - 1) & x_mask);
+            tmp2[i+10] = tmp2[i+10].wrapping_add(x.wrapping_sub(1) & x_mask);
         }
 
         // We merge the right shift with a carry chain. The words above 2**257 have
-- 
2.43.0


From c09c9fedff23d6b29fd7f602f7f66afc2837d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:07 +0000
Subject: [PATCH 36/52] fix: name and field size of P-521

---
 src/elliptic/elliptic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5074b4a..c0695a3 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -455,8 +455,8 @@ impl CurveParams {
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
         let gy = BigInt::from_str("0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
-        let bit_size = 512;
-        let name = String::from("P-512");
+        let bit_size = 521;
+        let name = String::from("P-521");
 
         Ok(
             CurveParams {
-- 
2.43.0


From 543284008ba828a797e238df54399ca6ae44aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:07 +0000
Subject: [PATCH 37/52] fix: draw another curve key when it is zero

A source giving the bytes 00 42 00 ... led to the key 0 with the point at
infinity as public key.
---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index c0695a3..eb34db1 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -159,7 +159,7 @@ impl CurveParams {
 
             // If the scalar is out of range, sample another random number.
             let key = BigInt::from_be_bytes(priv_key.as_slice());
-            if key < self.n {
+            if key < self.n && key != 0u32 {
                 let (qx, qy) = self.scalar_inner(&self.gx, &self.gy, priv_key.as_slice());
                 if !qx.is_nan() && !qy.is_nan() {
                     return Ok(
-- 
2.43.0


From f27a6007fb0fafcb4ca46d7012c24dcedf139da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:21 +0000
Subject: [PATCH 38/52] fix: multiples of the point at infinity on the fast
 P-256 curve

(0, 0) was multiplied like an ordinary point.
---
 src/elliptic/p256.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0fbae8b..0c95913 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1203,6 +1203,10 @@ impl EllipticCurve for CurveP256 {
             return (BigInt::from_be_bytes(tmp.as_slice()), BigInt::from_be_bytes(tmp.as_slice()));
         }
 
+        if x.signnum() == Some(0) && y.signnum() == Some(0) {
+            return (BigInt::from(0u32), BigInt::from(0u32));
+        }
+
         let mut scalar_reversed = [0u8; 32];
         self.p256_get_scalar(&mut scalar_reversed, k);
 
-- 
2.43.0


From 96fa0a9095be0ff4ded5faf5a13bcdd47bb270a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:14 +0000
Subject: [PATCH 39/52] fix: P-256 points with a zero coordinate

The conversion to limbs shifted zero by 257 bits, which rmath leaves with
nine zero words, and reducing that gave a nonzero value.
---
 src/elliptic/p256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0c95913..3d5764a 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1158,6 +1158,11 @@ impl CurveP256 {
     }
     
     fn p256_from_bigint(&self, out: &mut P256FEle, a: &BigInt) {
+        if a.signnum() == Some(0) {
+            *out = [0u32; P256_LIMBS];
+            return;
+        }
+
         let mut tmp = a.clone() << 257;
         tmp.rem_euclid_assign(self.cp.field_order().clone());
         
-- 
2.43.0


From a5621ac67e2ebda468a6d9703494728ed6cedef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:03 +0000
Subject: [PATCH 40/52] fix: RSA key generation and blinding with a failing
 random source

Key generation panicked and blinding asked the source for ever.
---
 src/checked_source.rs | 56 +++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs            |  2 ++
 src/rsa/rsa.rs        |  9 +++++--
 3 files changed, 65 insertions(+), 2 deletions(-)
 create mode 100644 src/checked_source.rs

diff --git a/src/checked_source.rs b/src/checked_source.rs
new file mode 100644
index 0000000..c4493e6
--- /dev/null
+++ b/src/checked_source.rs
@@ -0,0 +1,56 @@
+use crate::{CryptoError, CryptoErrorKind};
+use rmath::rand::{Iter, IterSource, Seed, Source};
+
+/// Random source for the generators of the `rmath`, which neither report nor survive the failure
+/// of a source: it notes the first failure and keeps supplying fill words, so that they come to an
+/// end. Whatever was computed after a failure must be thrown away, see `check`.
+pub(crate) struct CheckedSource<'a, R> {
+    rd: &'a mut R,
+    fill: u32,
+    is_failed: bool,
+}
+
+impl<'a, R: IterSource<u32>> CheckedSource<'a, R> {
+    pub(crate) fn new(rd: &'a mut R) -> Self {
+        Self {
+            rd,
+            fill: 0x9e3779b9,
+            is_failed: false,
+        }
+    }
+
+    /// an error if the source has failed
+    pub(crate) fn check(&self) -> Result<(), CryptoError> {
+        if self.is_failed {
+            Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"))
+        } else {
+            Ok(())
+        }
+    }
+}
+
+impl<'a, R: IterSource<u32>> Source<u32> for CheckedSource<'a, R> {
+    fn gen(&mut self) -> rmath::rand::Result<u32> {
+        if !self.is_failed {
+            match self.rd.gen() {
+                Ok(x) => return Ok(x),
+                Err(_) => self.is_failed = true,
+            }
+        }
+
+        self.fill ^= self.fill << 13;
+        self.fill ^= self.fill >> 17;
+        self.fill ^= self.fill << 5;
+        Ok(self.fill)
+    }
+
+    fn reset<Sd: Seed<u32>>(&mut self, sd: &Sd) -> rmath::rand::Result<()> {
+        self.rd.reset(sd)
+    }
+}
+
+impl<'a, R: IterSource<u32>> IterSource<u32> for CheckedSource<'a, R> {
+    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
+        Iter::new(self)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5b5963c..06bc730 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,8 @@ pub use cipher::{Cipher, Digest, DigestXOF, Signature};
 mod crypto_err;
 pub use crypto_err::{CryptoErrorKind, CryptoError};
 
+mod checked_source;
+
 mod aes;
 pub use aes::AES;
 
diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 031affb..7c41f63 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -6,6 +6,7 @@
 
 use rmath::bigint::{BigInt, Nat};
 use crate::{CryptoError, CryptoErrorKind};
+use crate::checked_source::CheckedSource;
 use rmath::rand::IterSource;
 use std::fmt::{Display, Formatter, Debug};
 
@@ -276,8 +277,10 @@ impl PrivateKey {
                 // Then the decryption operation performs (m^e * r^e)^d mod n
                 // which equals mr mod n. The factor of r can then be removed
                 // by multiplying by the multiplicative inverse of r.
+                let mut rnd = CheckedSource::new(rnd);
                 let (r, ir) = loop {
-                    let r = self.pk.n.random(rnd);
+                    let r = self.pk.n.random(&mut rnd);
+                    rnd.check()?;
                     
                     let r = if r == 0u32 {
                         BigInt::from(1u32)
@@ -446,6 +449,7 @@ impl PrivateKey {
         let bigone = BigInt::from(1u32);
         let pub_exp = BigInt::from(65537u32);
         let mut primes = Vec::with_capacity(n_primes);
+        let mut rd = CheckedSource::new(rd);
         let (pri_exp, modulus) = 'next_set_of_primes: loop {
             primes.clear();
             let mut cbits = bits_len;
@@ -465,8 +469,9 @@ impl PrivateKey {
             }
             
             for i in 0..n_primes {
-                let prime = match Nat::generate_prime(cbits / (n_primes - i), prime_test_round_num, rd) {
+                let prime = match Nat::generate_prime(cbits / (n_primes - i), prime_test_round_num, &mut rd) {
                     Ok(nat) => {
+                        rd.check()?;
                         BigInt::from(nat)
                     },
                     Err(e) => {
-- 
2.43.0


From eb491fc82117e682dde1590870062c3094aec4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:03 +0000
Subject: [PATCH 41/52] fix: DSA key generation and signing with a failing
 random source

The generation of domain parameters panicked, and the private key and the
nonce were asked for again and again.
---
 src/dsa/dsa.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index baea2d9..a79e705 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -1,5 +1,6 @@
 use rmath::bigint::{BigInt, Nat};
 use crate::{Digest, CryptoError, CryptoErrorKind, Signature};
+use crate::checked_source::CheckedSource;
 use rmath::rand::IterSource;
 use std::fmt::{Display, Formatter, Debug};
 use crate::dsa::signature::SignatureContent;
@@ -66,11 +67,13 @@ impl<H, R> DSA<H, R>
     fn generate_parameters_inner(rd: &mut R, l_len: usize, n_len: usize, test_round_times: usize) -> Result<DomainParameters, CryptoError> {
         let one = BigInt::from(1u32);
         
+        let rd = &mut CheckedSource::new(rd);
         let mut p_bytes = Vec::with_capacity(l_len >> 3);
         let (p, q) = 'generate_primes: loop {
             let q = Nat::generate_prime(n_len, test_round_times, rd)
                 .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::OuterErr, e))})?;
             for _ in 0..(l_len << 2) {
+                rd.check()?;
                 p_bytes.clear();
                 for e in rd.iter_mut() {
                     p_bytes.push(((e >> 24) & 0xff) as u8);
@@ -99,6 +102,7 @@ impl<H, R> DSA<H, R>
                     continue;
                 }
                 
+                rd.check()?;
                 break 'generate_primes (BigInt::from(p), BigInt::from(q));
             } 
         };
@@ -126,8 +130,10 @@ impl<H, R> DSA<H, R>
     }
     
     fn generate_key_inner(dp: DomainParameters, rd: &mut R) -> Result<PrivateKey, CryptoError> {
+        let mut rd = CheckedSource::new(rd);
         let x = loop {
-            let x = dp.q.random(rd);
+            let x = dp.q.random(&mut rd);
+            rd.check()?;
             if x != 0u32 && x < dp.q {
                 break x;
             }
@@ -272,9 +278,11 @@ impl<H, R> DSA<H, R>
         self.hf.checksum(&mut hm);
         
         let n = n >> 3;
+        let mut rd = CheckedSource::new(&mut self.rd);
         for _ in 0..10 {
             let k = loop {
-                let k = dp.q.random(&mut self.rd);
+                let k = dp.q.random(&mut rd);
+                rd.check()?;
                 if k.signnum() == Some(1) && k.as_ref() > &0u32 {
                     break k;
                 }
-- 
2.43.0


From 49aceb6e2e970fa17011334864ace5cdf3f815b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:03 +0000
Subject: [PATCH 42/52] fix: RSAES-PKCS1 padding with a failing random source

The padding was cut short.
---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 8f809c0..4f05bb5 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -63,6 +63,10 @@ impl<H, R> PKCS1Inner<H, R>
                 break;
             }
         }
+        if em.len() < bound {
+            em.clear();
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         em.truncate(bound);
         em.push(0x00);
         em.extend(msg.iter());
-- 
2.43.0


From fc62884b81d6b984085f013c4e3b93430c9fdc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:03 +0000
Subject: [PATCH 43/52] fix: PSS salt with a failing random source

The salt was cut short.
---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 63f7011..8645f53 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -287,6 +287,9 @@ impl<H, R> PSS<H, R>
             x.to_be_bytes().iter().for_each(|&y| {salt.push(y);});
         });
         salt.truncate(salt_len);
+        if salt.len() != salt_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         
         self.sign_with_salt(sign, m_hash, salt.as_slice())
     }
-- 
2.43.0


From 268b4b2540167566947547910177ef65609af931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:03 +0000
Subject: [PATCH 44/52] fix: ECDSA keys and nonces with a failing random source

The private key and the entropy of the nonce were cut short.
---
 src/ecdsa/ecdsa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 3924ba1..2b795a3 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -72,6 +72,9 @@ impl<H, R, C> ECDSA<H, R, C>
             }
         }
         buf.truncate(b);
+        if buf.len() != b {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         
         Ok(Self::rand_field_element_inner(params, buf.as_slice()))
     }
@@ -155,6 +158,9 @@ impl<H, R, C> ECDSA<H, R, C>
             }
         }
         entropy.truncate(entropy_len);
+        if entropy.len() != entropy_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         
         self.md.reset();
         self.md.write(d_bytes.as_slice());
-- 
2.43.0


From 93ccdfd29434273167d839053597a5417001a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:03 +0000
Subject: [PATCH 45/52] fix: curve key generation with a failing random source

It panicked or made a short key.
---
 src/elliptic/elliptic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index eb34db1..6b0c0ef 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -149,6 +149,9 @@ impl CurveParams {
                 priv_key.push((x & 0xff) as u8);
             });
             priv_key.truncate(b_len);
+            if priv_key.len() != b_len {
+                return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+            }
 
             // We have to mask off any excess bits in the case that the size of the
             // underlying field is not a whole number of bytes.
-- 
2.43.0


From 8ef72f94b045af431be6e6b59f43aad6df8d3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:18 +0000
Subject: [PATCH 46/52] fix: read past the end of AES-192 keys

The key schedule loaded sixteen bytes at offset sixteen of a 24-byte key.
---
 src/aes/aes_amd64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_amd64.rs b/src/aes/aes_amd64.rs
index abddbe2..26f1c37 100644
--- a/src/aes/aes_amd64.rs
+++ b/src/aes/aes_amd64.rs
@@ -113,7 +113,7 @@ impl AES {
     #[target_feature(enable = "aes", enable = "sse2")]
     unsafe fn key_schedule_192(key: &[u8], enc: &mut Vec<march::__m128i>) {
         let mut temp1 = march::_mm_loadu_si128(transmute(key.as_ptr()));
-        let mut temp3= march::_mm_loadu_si128(transmute(key.as_ptr().offset(16)));
+        let mut temp3= march::_mm_loadl_epi64(transmute(key.as_ptr().offset(16)));
         enc.push(temp1);
         let key_temp= temp3;
         let mut temp2= march::_mm_aeskeygenassist_si128 (temp3,0x1);
-- 
2.43.0


From 06d125b6841eebd274506f224754be58a1451ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:43 +0000
Subject: [PATCH 47/52] fix: panic of RSA decryption of an integer that is not
 a number

---
 src/rsa/rsa.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 7c41f63..7bbb65b 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -251,6 +251,10 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
+        if c.is_nan() {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text is not a number"));
+        }
+        
         if c >= &self.pk.n {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
         }
-- 
2.43.0


From 6c39422f2898473ec544958ec701fc2b4fff97ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:39 +0000
Subject: [PATCH 48/52] fix: aliased references in the P-224 field arithmetic

The wrappers for in-place operations made a shared and an exclusive
reference to the same element. The operands are now copied.
---
 src/elliptic/p224.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 3c76566..7bb12da 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -94,9 +94,9 @@ impl CurveP224 {
     
     fn p224_mul_a(out: *mut P224FieldElement, a: *const P224FieldElement, b: *const P224FieldElement, tmp: *mut P224LargeFieldElement) {
         let (out, a, b, tmp) = unsafe {
-            (&mut *out, &*a, &*b, &mut *tmp)
+            (&mut *out, *a, *b, &mut *tmp)
         };
-        Self::p224_mul(out, a, b, tmp);
+        Self::p224_mul(out, &a, &b, tmp);
     }
 
 
@@ -123,10 +123,10 @@ impl CurveP224 {
 
     fn p224_square_a(out: *mut P224FieldElement, a: *const P224FieldElement, tmp: *mut P224LargeFieldElement) {
         let (out, a, tmp) = unsafe {
-            (&mut *out, &*a, &mut *tmp)
+            (&mut *out, *a, &mut *tmp)
         };
         
-        Self::p224_square(out, a, tmp);
+        Self::p224_square(out, &a, tmp);
     }
 
     fn p224_add(out: &mut P224FieldElement, a: &P224FieldElement, b: &P224FieldElement) {
@@ -137,9 +137,9 @@ impl CurveP224 {
 
     fn p224_add_a(out: *mut P224FieldElement, a: *const P224FieldElement, b: *const P224FieldElement) {
         let (out, a, b) = unsafe {
-            (&mut *out, &*a, &*b)
+            (&mut *out, *a, *b)
         };
-        Self::p224_add(out, a, b);
+        Self::p224_add(out, &a, &b);
     }
     
     fn p224_sub(out: &mut P224FieldElement, a: &P224FieldElement, b: &P224FieldElement) {
@@ -151,10 +151,10 @@ impl CurveP224 {
 
     fn p224_sub_a(out: *mut P224FieldElement, a: *const P224FieldElement, b: *const P224FieldElement) {
         let (out, a, b) = unsafe {
-            (&mut *out, &*a, &*b)
+            (&mut *out, *a, *b)
         };
         
-        Self::p224_sub(out, a, b);
+        Self::p224_sub(out, &a, &b);
     }
 
     /// ReduceLarge converts a p224LargeFieldElement to a p224FieldElement.
@@ -361,9 +361,9 @@ impl CurveP224 {
     
     fn p224_contract_a(out: *mut P224FieldElement, a: *const P224FieldElement) {
         let (out, a) = unsafe {
-            (&mut *out, &*a)
+            (&mut *out, *a)
         };
-        Self::p224_contract(out, a);
+        Self::p224_contract(out, &a);
     }
 
     /// p224Contract converts a FieldElement to its unique, minimal form.
@@ -645,9 +645,9 @@ impl CurveP224 {
     
     fn p224_double_jacobian_a(x3: *mut P224FieldElement, y3: *mut P224FieldElement, z3: *mut P224FieldElement, x1: *const P224FieldElement, y1: *const P224FieldElement, z1: *const P224FieldElement) {
         let (x3, y3, z3, x1, y1, z1) = unsafe {
-            (&mut *x3, &mut *y3, &mut *z3, &*x1, &*y1, &*z1)
+            (&mut *x3, &mut *y3, &mut *z3, *x1, *y1, *z1)
         };
-        Self::p224_double_jacobian(x3, y3, z3, x1, y1, z1);
+        Self::p224_double_jacobian(x3, y3, z3, &x1, &y1, &z1);
     }
     
     fn p224_double_jacobian(x3: &mut P224FieldElement, y3: &mut P224FieldElement, z3: &mut P224FieldElement, x1: &P224FieldElement, y1: &P224FieldElement, z1: &P224FieldElement) {
-- 
2.43.0


From f6af6f5376802497d29e376f5f8aa250dcce36a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:39 +0000
Subject: [PATCH 49/52] fix: aliased references in the P-256 field arithmetic

The wrappers for in-place operations made a shared and an exclusive
reference to the same element. The operands are now copied.
---
 src/elliptic/p256.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 3d5764a..e790aa6 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -222,9 +222,9 @@ impl CurveP256 {
     
     fn p256_sum_a(out: *mut P256FEle, a: *const P256FEle, b: *const P256FEle) {
         let (out, a, b) = unsafe {
-            (&mut *out, &*a, &*b)
+            (&mut *out, *a, *b)
         };
-        Self::p256_sum(out, a, b);
+        Self::p256_sum(out, &a, &b);
     }
     
     fn p256_sum(out: &mut P256FEle, a: &P256FEle, b: &P256FEle) {
@@ -251,9 +251,9 @@ impl CurveP256 {
     
     fn p256_diff_a(out: *mut P256FEle, a: *const P256FEle, b: *const P256FEle) {
         let (out, a, b) = unsafe {
-            (&mut *out, &*a, &*b)
+            (&mut *out, *a, *b)
         };
-        Self::p256_diff(out, a, b);
+        Self::p256_diff(out, &a, &b);
     }
 
     /// p256Diff sets out = in-in2.
@@ -495,9 +495,9 @@ impl CurveP256 {
     
     fn p256_square_a(out: *mut P256FEle, a: *const P256FEle) {
         let (out, a) = unsafe {
-            (&mut *out, &*a)
+            (&mut *out, *a)
         };
-        Self::p256_square(out, a);
+        Self::p256_square(out, &a);
     }
     
     fn p256_square(out: &mut P256FEle, a: &P256FEle) {
@@ -555,10 +555,10 @@ impl CurveP256 {
     
     fn p256_mul_a(out: *mut P256FEle, a: *const P256FEle, b: *const P256FEle) {
         let (out, a, b) = unsafe {
-            (&mut *out, &*a, &*b)
+            (&mut *out, *a, *b)
         };
         
-        Self::p256_mul(out, a, b);
+        Self::p256_mul(out, &a, &b);
     }
     
     fn p256_mul(out: &mut P256FEle, a: &P256FEle, b: &P256FEle) {
@@ -808,9 +808,9 @@ impl CurveP256 {
     
     fn p256_point_double_a(xout: *mut P256FEle, yout: *mut P256FEle, zout: *mut P256FEle, x: *const P256FEle, y: *const P256FEle, z: *const P256FEle) {
         let (xout, yout, zout, x, y, z) = unsafe {
-            (&mut *xout, &mut *yout, &mut *zout, &*x, &*y, &*z)
+            (&mut *xout, &mut *yout, &mut *zout, *x, *y, *z)
         };
-        Self::p256_point_double(xout, yout, zout, x, y, z);
+        Self::p256_point_double(xout, yout, zout, &x, &y, &z);
     }
 
     /// Group operations:
@@ -854,10 +854,10 @@ impl CurveP256 {
 
     fn p256_point_add_mixed_a(xout: *mut P256FEle, yout: *mut P256FEle, zout: *mut P256FEle, x1: *const P256FEle, y1: *const P256FEle, z1: *const P256FEle, x2: *const P256FEle, y2: *const P256FEle) {
         let (xout, yout, zout, x1, y1, z1, x2, y2) = unsafe {
-            (&mut *xout, &mut *yout, &mut *zout, &*x1, &*y1, &*z1, &*x2, &*y2)
+            (&mut *xout, &mut *yout, &mut *zout, *x1, *y1, *z1, *x2, *y2)
         };
         
-        Self::p256_point_add_mixed(xout, yout, zout, x1, y1, z1, x2, y2);
+        Self::p256_point_add_mixed(xout, yout, zout, &x1, &y1, &z1, &x2, &y2);
     }
 
     /// p256PointAddMixed sets {xOut,yOut,zOut} = {x1,y1,z1} + {x2,y2,1}.
-- 
2.43.0


From 5e2f50ea682e4786e4abb9049910f323921f6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:32 +0000
Subject: [PATCH 50/52] fix: draw another DSA key when it is zero

---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index a79e705..ce7419d 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -134,7 +134,8 @@ impl<H, R> DSA<H, R>
         let x = loop {
             let x = dp.q.random(&mut rd);
             rd.check()?;
-            if x != 0u32 && x < dp.q {
+            // a drawn zero may keep its leading zero words and differ from 0u32
+            if x.to_be_bytes().iter().any(|&b| b != 0) && x < dp.q {
                 break x;
             }
         };
-- 
2.43.0


From 9496107ea3678565d2c9bc4fb40bcc4e3e6f0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:27:24 +0000
Subject: [PATCH 51/52] fix: carry down after the final subtraction in P-224
 field elements

---
 src/elliptic/p224.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 7bb12da..d1ea15d 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -477,6 +477,14 @@ impl CurveP224 {
         out[5] = out[5].wrapping_sub(0xfffffff & mask);
         out[6] = out[6].wrapping_sub(0xfffffff & mask);
         out[7] = out[7].wrapping_sub(0xfffffff & mask);
+
+        // The subtraction of p may have made out[0] negative, so carry down
+        // once more.
+        (0..3).for_each(|i| {
+            let mask = ((out[i] as i32) >> 31) as u32;
+            out[i] = out[i].wrapping_add((1 << 28) & mask);
+            out[i+1] = out[i+1].wrapping_sub(1 & mask);
+        });
     }
     
     fn p224_copy_conditional(out: &mut P224FieldElement, a: &P224FieldElement, mut control: u32) {
-- 
2.43.0


From e4c3c8e926cf81f35ef4b496e40bd33e367a0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:54:59 +0000
Subject: [PATCH 52/52] fix: P-224 field element p-1 was taken to be above the
 prime

---
 src/elliptic/p224.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index d1ea15d..923667b 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -458,7 +458,7 @@ impl CurveP224 {
         //    If it's = 0xffff000 and top4AllOnes != 0 and bottom3NonZero != 0,
         //      then the whole value is >= p
         //    If it's < 0xffff000, then the whole value is < p
-        let n = out[3].wrapping_sub( 0xffff000);
+        let n = 0xffff000u32.wrapping_sub(out[3]);
         let mut out3_equal = n;
         out3_equal |= out3_equal >> 16;
         out3_equal |= out3_equal >> 8;
@@ -467,8 +467,8 @@ impl CurveP224 {
         out3_equal |= out3_equal >> 1;
         out3_equal = !((((out3_equal << 31) as i32) >> 31) as u32);
 
-        // If out[3] > 0xffff000 then n's MSB will be zero.
-        let out3_gt = !(((n as i32) >> 31) as u32);
+        // If out[3] > 0xffff000 then n's MSB will be one.
+        let out3_gt = ((n as i32) >> 31) as u32;
 
         let mask = top4_all_ones & ((out3_equal & bottom3_non_zero) | out3_gt);
         out[0] = out[0].wrapping_sub(1 & mask);
-- 
2.43.0

