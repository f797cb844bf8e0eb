From 83c18404852fe7f39cd2b22186c9c8f6c6429a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 01/21] fix: gosthash: drop the buffered tail once it has been
 hashed

When the buffered tail and the new data added up to a whole number of blocks,
update() left the old tail in the buffer and hashed it a second time.
---
 gostcrypto/gosthash/gost_34_11_2012.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..972e462 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -860,8 +860,7 @@ class GOST34112012:
             self._hash_n = self._hash_add_512(self._hash_n, _V_512)
             self._hash_sigma = self._hash_add_512(self._hash_sigma, block)
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
-        if self._pad_block_size < _BLOCK_SIZE:
-            self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        self._buff = data[self._num_block * _BLOCK_SIZE:]
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From ba64093425259d65358f96bccadeb06ed2570176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 02/21] fix: gosthmac: mix the key into the HMAC of an empty
 message

digest() without any update() (or with data=b'') hashed the empty string
instead of the inner padded key.
---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..99b8f0c 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -175,6 +175,8 @@ class R5011132016:
         Returns:
             HMAC message authentication code as a byte object.
         """
+        if self._counter == 0:
+            self.update(bytearray(b''))
         fin_hasher_obj = GOST34112012(self._hasher_obj.name, data=bytearray(b''))
         fin_hasher_obj.update(add_xor(self._key, _O_PAD) + self._hasher_obj.digest())
         result = fin_hasher_obj.digest()
-- 
2.43.0


From 806ac7f61648d68e18320eb434f5237ca1e44e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 03/21] fix: gosthmac: copy a 64-byte key instead of aliasing
 the caller's buffer

Changing the caller's bytearray after new() changed the key of the object.
---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 99b8f0c..4d693e8 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From 97a1e710870e2ff9d89051beffd0b3697e14777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 04/21] fix: gostcipher: let MAC mode take less than a block of
 data

update() raised IndexError whenever the data available so far was shorter
than one block: short and empty messages, and short follow-up chunks.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..bad8b8e 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -984,6 +984,12 @@ class GOST34132015mac(GOST34132015):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
         data = self._iter_buf + data
+        if len(data) < self.block_size:
+            if len(data) > 0:
+                self._prev_mac = self._cur_mac
+                self._fin_buff = data
+                self._iter_buf = data
+            return
         block = bytearray()
         prev_block = self._cur_mac
         for i in range(0, self._get_num_block(data) - 1):
@@ -1017,7 +1023,9 @@ class GOST34132015mac(GOST34132015):
             final_key = self._key_1
         else:
             final_key = self._key_2
-            self._fin_buff = self._set_pad_mode_3(self._fin_buff[self.block_size:])
+            self._fin_buff = self._set_pad_mode_3(
+                self._fin_buff[self.block_size * self._get_num_block(self._fin_buff):]
+            )
         result = bytearray()
         result = self._cipher_obj.encrypt(
             add_xor(add_xor(self._fin_buff, self._prev_mac), final_key)
-- 
2.43.0


From 98fca8a979d49f3a6e25dc1c15c458515260f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 05/21] fix: gostcipher: propagate the carry of the CTR counter

Only the last counter byte was incremented, so the key stream repeated every
256 blocks.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index bad8b8e..a851730 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -842,8 +842,8 @@ class GOST34132015ctr(GOST34132015Cipher):
         internal = 0
         bit = bytearray(self.block_size)
         bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
+        for i in range(self.block_size - 1, -1, -1):
+            internal = ctr[i] + bit[i] + (internal >> 8)
             ctr[i] = internal & 0xff
         return ctr
 
-- 
2.43.0


From 7d05a9d16706eb874185dfe9ee24fdf48ab92cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 06/21] fix: gostcipher: reject an empty initialization vector

An empty vector passed the length check and encrypt() then failed with
IndexError.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index a851730..02062ca 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -456,7 +456,10 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (
+                (not check_init_vect) or len(init_vect) == 0
+                or (len(init_vect) % self.block_size) != 0
+        ):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From f05c57811f1830e81043d5d5235a394f03e7a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 07/21] fix: gostcipher: return a copy of the CTR counter

The attribute handed out the internal counter, so a saved value changed with
the next call and writing to it changed the key stream.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 02062ca..e6dd37b 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -853,7 +853,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
-- 
2.43.0


From 97defb1fc451c53dc835cebd84c9c607a319bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:53 +0000
Subject: [PATCH 08/21] fix: utils: fill with zero bytes, not with the text
 '/x00'

zero_fill() returned four characters per byte, so cleared keys and seeds were
replaced by a fixed non-zero value.
---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From ada378069bc69d17b187538baa0df9bf1d8bcdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:56 +0000
Subject: [PATCH 09/21] fix: gostrandom: stop before the counter overflows into
 the seed

The counter field is one byte shorter than the limit assumed, so the limit
could never be reached and the counter carried into the seed.
---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index 51893c7..b7c1a55 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -90,7 +90,7 @@ class R132356510062017:
             self._rand_u = bytearray(self._rand_u)
         self._q = rand_size // _SIZE_H
         self._r = rand_size % _SIZE_H
-        self._limit = 2 ** ((_SIZE_M - self._size_s) * 8)
+        self._limit = 2 ** ((_SIZE_M - self._size_s - 1) * 8) - 1
         self._hash_obj = GOST34112012('streebog512', data=bytearray(b''))
 
     def __del__(self) -> None:
-- 
2.43.0


From 1e4fe421bb0602e18a17524c7770ee13fb5e8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 10/21] fix: gostoid: set the continuation bit on every septet
 but the last

Arcs that need three or more septets (113549, say) were encoded with the
continuation bit on the first one only, which is a different OID.
---
 gostcrypto/gostoid/oid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..6347ca4 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -103,7 +103,8 @@ def _int_to_octet(value: int) -> bytearray:
     for i in range(_len_int(value, 7) - 1, -1, -1):
         result[i] = value & 0x7F
         value = value >> 7
-    result[0] = result[0] | 0x80
+    for i in range(len(result) - 1):
+        result[i] = result[i] | 0x80
     return result
 
 
-- 
2.43.0


From 438dd34158a9e161b2926d006a37193ce0abf7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 11/21] fix: gostoid: report negative arcs and single-arc OIDs
 as GOSTOIDError

They were accepted by 'digit' or escaped from 'octet' as OverflowError and
IndexError.
---
 gostcrypto/gostoid/oid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 6347ca4..56e4653 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -110,6 +110,8 @@ def _int_to_octet(value: int) -> bytearray:
 
 def _encode_octet(value: tuple) -> bytearray:
     result = bytearray()
+    if len(value) < 2:
+        raise GOSTOIDError('invalid OID value')
     if value[0] == 0:
         if value[1] < 40:
             first_value = value[1]
@@ -177,6 +179,8 @@ class ObjectIdentifier:
             result = tuple(int(item) for item in self._oid_str.split('.'))
         except ValueError:
             raise GOSTOIDError('invalid OID value')
+        if min(result) < 0:
+            raise GOSTOIDError('invalid OID value')
         return result
 
     @property
-- 
2.43.0


From 7ec27a387af05a8bfe5699a7f532151b797b3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:27 +0000
Subject: [PATCH 12/21] fix: gostoid: spell paramSetC with a Latin C

The name of 1.2.643.7.1.2.1.2.3 ended with a Cyrillic letter, so comparing it
with the documented name failed.
---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 56e4653..6bcba2a 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -66,7 +66,7 @@ OBJECT_IDENTIFIER_TC26 = {
     '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
     '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
     '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
-    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
+    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
     '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
     '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
     '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
-- 
2.43.0


From 5a647ee509a89b36cc88ffc0f1f50b133ea93a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 13/21] fix: gostpbkdf: report an over-long password as
 GOSTPBKDFError

A password of more than 64 bytes surfaced as the GOSTHMACError of the inner
HMAC object instead of the documented exception.
---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..1a7f962 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if (not isinstance(password, (bytes, bytearray))) or len(password) > _BLOCK_SIZE:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
-- 
2.43.0


From 09ce9d17087085b8f2e2cca03d919a3e9d1e936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 14/21] fix: gostpbkdf: make clear() remove the password from
 the HMAC object

derive() kept returning keys of the password after clear(), and deleting an
object whose construction had failed raised AttributeError.
---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 1a7f962..5d8e409 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -165,7 +165,10 @@ class R5011112016:
 
     def clear(self):
         """Сlear the password value."""
-        self._password = zero_fill(self._password)
+        if hasattr(self, '_password'):
+            self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From 63479e392b017a1590976e134e2b4e84a57da2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 15/21] fix: gostpbkdf: return a copy of the salt

Writing to the returned value changed the salt of the object.
---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 5d8e409..bf008c1 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -173,7 +173,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From ddf8128e3c95746c496e259d4b0f6c4a693e3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 16/21] fix: gostsignature: do not hang on a random value that
 gives no signature

sign() looped forever on k = 0 and on a k for which r or s is zero (steps 4
and 5 of GOST 34.10-2012 ask for another k).  A generated k is now drawn
again, a k passed by the caller is reported as an invalid random value.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..6ddc291 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -643,7 +643,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -685,19 +685,24 @@ class GOST34102012:
         sign_r = 0
         sign_s = 0
         sign_k = 0
-        if rand_k == bytearray(b''):
+        auto_rand_k = rand_k == bytearray(b'')
+        if auto_rand_k:
             rand_k = self._get_rand_k()
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-            while compare_to_zero(int_to_bytearray(sign_r, self._size)):
-                sign_k = bytearray_to_int(rand_k)
-                sign_c = self._mul_point(sign_k)
-                sign_r = sign_c[0] % self._q
+        while sign_r == 0 or sign_s == 0:
+            if sign_k != 0:
+                if not auto_rand_k:
+                    private_key = zero_fill(private_key)
+                    raise GOSTSignatureError('GOSTSignatureError: invalid random value')
+                rand_k = self._get_rand_k()
+            sign_k = bytearray_to_int(rand_k)
+            sign_c = self._mul_point(sign_k)
+            sign_r = sign_c[0] % self._q
             sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
         result = int_to_bytearray(sign_r, self._size) + int_to_bytearray(sign_s, self._size)
         private_key = zero_fill(private_key)
-- 
2.43.0


From 0df12297a606f0271ce3465b5f724ce8182e0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 17/21] fix: gostsignature: reject a private key that is a
 multiple of q

public_key_generate() never returned for a zero key and returned a point that
is not on the curve for q; both give the point at infinity.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 6ddc291..3d5c5b3 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -681,6 +681,8 @@ class GOST34102012:
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
+        if bytearray_to_int(private_key) % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         sign_e = self._set_e(digest)
         sign_r = 0
         sign_s = 0
@@ -780,7 +782,9 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
-        private_key = bytearray_to_int(private_key)
+        private_key = bytearray_to_int(private_key) % self._q
+        if private_key == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
         public_key_y = int_to_bytearray(public_key[1], self._size)
-- 
2.43.0


From 299aede7c526a7813ac4c376dc66e5a518022e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:05 +0000
Subject: [PATCH 18/21] fix: gostsignature: verify with the public key given,
 or reject it

A public key with a zero coordinate was silently replaced by the base point,
so anyone could sign for the all-zero key and a valid key with x = 0 was
refused.  Values that are not points of the curve are now reported as an
invalid public key.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 3d5c5b3..26d0125 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -616,7 +616,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
@@ -710,6 +710,11 @@ class GOST34102012:
         private_key = zero_fill(private_key)
         return result
 
+    def _check_public_key(self, x_op: int, y_op: int) -> bool:
+        if x_op >= self._p or y_op >= self._p or y_op == 0:
+            return False
+        return y_op * y_op % self._p == (x_op ** 3 + x_op * self._a + self._b) % self._p
+
     def _get_r_s(self, signature: bytearray) -> Tuple[int, int]:
         sign_r = bytearray_to_int(signature[:self._size])
         sign_s = bytearray_to_int(signature[self._size:])
@@ -752,6 +757,8 @@ class GOST34102012:
             bytearray_to_int(public_key[:self._size]),
             bytearray_to_int(public_key[self._size:])
         )
+        if not self._check_public_key(public_key[0], public_key[1]):
+            raise GOSTSignatureError('GOSTSignatureError: invalid public key value')
         sign_r, sign_s = self._get_r_s(signature)
         if not self._verify_step_1(sign_r, sign_s):
             return False
-- 
2.43.0


From a5d034d5775a2074237671cb5bb0f45016439e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 19/21] fix: gostsignature: refuse a signature whose point is
 at infinity

When z1*P = -z2*Q the addition formula produced an arbitrary x coordinate,
which an r chosen to match it passed.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 26d0125..83b1990 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -768,6 +768,8 @@ class GOST34102012:
         sign_z_2 = self._q - sign_r * sign_v % self._q
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
+        if sign_p[0] == sign_q[0] and sign_p[1] != sign_q[1]:
+            return False
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
-- 
2.43.0


From d6ea04ba9a3270f91d8a43af4c1d04c2b4d9de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 20/21] fix: gostsignature: apply the p^t mod q check to the
 curve

The check that p^t is not 1 modulo q computed its result and dropped it.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 83b1990..aa8d398 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From fccbd91299f51190a1e8f375883b41dca80bc12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 21/21] fix: gostcipher: padding mode 1 leaves an empty message
 alone

Padding procedure 1 adds nothing to a message of a whole number of blocks,
zero included; an empty message was encrypted as a block of zeros.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index e6dd37b..38555c2 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -374,7 +374,7 @@ class GOST34132015CipherPadding(GOST34132015Cipher, ABC):
         self._pad_mode = pad_mode
 
     def _set_pad_mode_1(self, data: bytearray) -> bytearray:
-        return data + b'\x00' * self._get_pad_size(data)
+        return data + b'\x00' * (-len(data) % self.block_size)
 
     def _set_pad_mode_2(self, data: bytearray) -> bytearray:
         return data + b'\x80' + b'\x00' * (self.block_size + self._get_pad_size(data) - 1)
-- 
2.43.0

