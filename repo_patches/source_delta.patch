From db041ba780dfe5bfaa8780623c05d72f8096bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 01/25] fix: CTR counter: propagate the carry when the block
 counter is incremented

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..19d0aa1 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -842,8 +842,8 @@ class GOST34132015ctr(GOST34132015Cipher):
         internal = 0
         bit = bytearray(self.block_size)
         bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
+        for i in range(self.block_size - 1, -1, -1):
+            internal = ctr[i] + bit[i] + (internal >> 8)
             ctr[i] = internal & 0xff
         return ctr
 
-- 
2.43.0


From 3c75788648ef3a73cc876ad77424dfb8f88b6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 02/25] fix: CTR counter property: return a copy instead of the
 internal buffer

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 19d0aa1..84d87d6 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -850,7 +850,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
-- 
2.43.0


From 1f1ccc7f53df1af0e7b51496e90a3480e55e3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:29 +0000
Subject: [PATCH 03/25] fix: CBC/CFB/OFB: reject an empty initialization vector

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 84d87d6..05b1cca 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -456,7 +456,7 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (not check_init_vect) or len(init_vect) == 0 or (len(init_vect) % self.block_size) != 0:
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From e27235038eeb54c9b0fe5d49436350674ea98c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 04/25] fix: MAC update: accept data shorter than a block

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 05b1cca..b434599 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -984,6 +984,13 @@ class GOST34132015mac(GOST34132015):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
         data = self._iter_buf + data
+        if len(data) == 0:
+            return
+        if len(data) < self.block_size:
+            self._prev_mac = self._cur_mac
+            self._iter_buf = data
+            self._fin_buff = bytearray(self.block_size) + data
+            return
         block = bytearray()
         prev_block = self._cur_mac
         for i in range(0, self._get_num_block(data) - 1):
-- 
2.43.0


From c2570360ceb8f3df7c53032a7634482733a5889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 05/25] fix: MAC digest: reject a non-positive MAC size

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b434599..5f7187b 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1051,7 +1051,7 @@ class GOST34132015mac(GOST34132015):
               size.
         """
         temp = deepcopy(self)
-        if mac_size > temp.block_size:
+        if mac_size < 1 or mac_size > temp.block_size:
             temp.clear()
             raise GOSTCipherError('GOSTCipherError: invalid message authentication code size')
         return temp.mac_final()[0:mac_size:]
-- 
2.43.0


From 215440597c974ce85f74b2f14038b038d783f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 06/25] fix: zero_fill: fill with zero bytes and keep the
 length

---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From 6eeaae8274076bc86e0fecaf187295a085235f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:38 +0000
Subject: [PATCH 07/25] fix: hash update: drop the buffered data once it has
 been processed

---
 gostcrypto/gosthash/gost_34_11_2012.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..972e462 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -860,8 +860,7 @@ class GOST34112012:
             self._hash_n = self._hash_add_512(self._hash_n, _V_512)
             self._hash_sigma = self._hash_add_512(self._hash_sigma, block)
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
-        if self._pad_block_size < _BLOCK_SIZE:
-            self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        self._buff = data[self._num_block * _BLOCK_SIZE:]
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From cd91dee902ffe6405a9af2d96c9403a7d5d8166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 08/25] fix: HMAC: copy a 64-byte key

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..9ad8270 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From a4107587aa1ec8f4c00a5c3c0e39c1d33aaa320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 09/25] fix: HMAC digest: process the inner key block for an
 empty message

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 9ad8270..4d693e8 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -175,6 +175,8 @@ class R5011132016:
         Returns:
             HMAC message authentication code as a byte object.
         """
+        if self._counter == 0:
+            self.update(bytearray(b''))
         fin_hasher_obj = GOST34112012(self._hasher_obj.name, data=bytearray(b''))
         fin_hasher_obj.update(add_xor(self._key, _O_PAD) + self._hasher_obj.digest())
         result = fin_hasher_obj.digest()
-- 
2.43.0


From 07ada34a24bac619b0875889fc5873ee43830335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 10/25] fix: HMAC clear: restart the message together with the
 hasher

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 4d693e8..44f7436 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -212,6 +212,7 @@ class R5011132016:
         """Сlear the key value."""
         self._hasher_obj.reset()
         self._key = zero_fill(self._key)
+        self._counter = 0
 
     @property
     def digest_size(self) -> int:
-- 
2.43.0


From 20cf9f8b0e7acdb6930d9d58ecf7962ed3f2cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 11/25] fix: PBKDF clear: erase the copy of the password kept
 by the HMAC object

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..73b4fab 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -165,7 +165,10 @@ class R5011112016:
 
     def clear(self):
         """Сlear the password value."""
-        self._password = zero_fill(self._password)
+        if hasattr(self, '_password'):
+            self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From 31b79bde46510cf4cb3a83b5660381457e8fbca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 12/25] fix: PBKDF: report a password longer than the HMAC key
 as an invalid password

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 73b4fab..5d8e409 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if (not isinstance(password, (bytes, bytearray))) or len(password) > _BLOCK_SIZE:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
-- 
2.43.0


From 383ff991399c73654f002ad2f786cd09ce56aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 13/25] fix: PBKDF salt property: return a copy instead of the
 internal buffer

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 5d8e409..bf008c1 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -173,7 +173,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From 5c2b52bfe1c61c81bfa6bb21cff82c588ddcbc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:53 +0000
Subject: [PATCH 14/25] fix: OID octet: set the continuation bit on every octet
 but the last

---
 gostcrypto/gostoid/oid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..6347ca4 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -103,7 +103,8 @@ def _int_to_octet(value: int) -> bytearray:
     for i in range(_len_int(value, 7) - 1, -1, -1):
         result[i] = value & 0x7F
         value = value >> 7
-    result[0] = result[0] | 0x80
+    for i in range(len(result) - 1):
+        result[i] = result[i] | 0x80
     return result
 
 
-- 
2.43.0


From 958cf7d8c457fc058e49315aa5907ac5469af34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 15/25] fix: OID digit: reject components that are not decimal
 numbers

---
 gostcrypto/gostoid/oid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 6347ca4..9f4ba5d 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -174,7 +174,10 @@ class ObjectIdentifier:
         thrown 'GOSTOIDError('invalid OID value')'.
         """
         try:
-            result = tuple(int(item) for item in self._oid_str.split('.'))
+            items = self._oid_str.split('.')
+            if not all(item.isascii() and item.isdigit() for item in items):
+                raise ValueError
+            result = tuple(int(item) for item in items)
         except ValueError:
             raise GOSTOIDError('invalid OID value')
         return result
-- 
2.43.0


From 70694df290c03e0937c415199de31b04f9031b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 16/25] fix: OID octet: report an OID with a single component

---
 gostcrypto/gostoid/oid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 9f4ba5d..69ee578 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -110,6 +110,8 @@ def _int_to_octet(value: int) -> bytearray:
 
 def _encode_octet(value: tuple) -> bytearray:
     result = bytearray()
+    if len(value) < 2:
+        raise GOSTOIDError('invalid OID value')
     if value[0] == 0:
         if value[1] < 40:
             first_value = value[1]
-- 
2.43.0


From 8c58574c98b9cfcbc69114c13257242e4b20a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 17/25] fix: random: refuse to run once the counter is
 exhausted

---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index 51893c7..b7c1a55 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -90,7 +90,7 @@ class R132356510062017:
             self._rand_u = bytearray(self._rand_u)
         self._q = rand_size // _SIZE_H
         self._r = rand_size % _SIZE_H
-        self._limit = 2 ** ((_SIZE_M - self._size_s) * 8)
+        self._limit = 2 ** ((_SIZE_M - self._size_s - 1) * 8) - 1
         self._hash_obj = GOST34112012('streebog512', data=bytearray(b''))
 
     def __del__(self) -> None:
-- 
2.43.0


From 15674cb56793bdcc1f06e602061ec6beaebcb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 18/25] fix: signature: reject curves that fail the MOV
 condition

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..7849328 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From 98f5de1111bd2a7e9b547d04981cd80f519c0a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 19/25] fix: signature: do not replace a point with a zero
 coordinate by the base point

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 7849328..053fb5a 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -616,7 +616,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
-- 
2.43.0


From 5935dde09c4ef3a6f72ae70b0fbf3600ee170c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 20/25] fix: signature: reject a zero private key and reduce
 the private key modulo q

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 053fb5a..70f030e 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -679,6 +679,8 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
+        if bytearray_to_int(private_key) % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
         sign_e = self._set_e(digest)
@@ -775,7 +777,9 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
-        private_key = bytearray_to_int(private_key)
+        private_key = bytearray_to_int(private_key) % self._q
+        if private_key == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
         public_key_y = int_to_bytearray(public_key[1], self._size)
-- 
2.43.0


From 984883be0be951702765eba56fe38cd35c67423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:07 +0000
Subject: [PATCH 21/25] fix: signature: reject a zero random value

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 70f030e..71d70ef 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -643,7 +643,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while bytearray_to_int(rand_k) == 0 or bytearray_to_int(rand_k) >= self._q:
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -692,7 +692,7 @@ class GOST34102012:
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if bytearray_to_int(rand_k) == 0 or bytearray_to_int(rand_k) >= self._q:
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
         while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-- 
2.43.0


From 7212eed09cd1cf3b923537f0268b1b4478b919a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 22/25] fix: signature: do not loop forever when the random
 value gives a zero r or s

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 71d70ef..9378338 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -647,6 +647,11 @@ class GOST34102012:
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
+    def _next_rand_k(self, new_rand_k: bool) -> bytearray:
+        if not new_rand_k:
+            raise GOSTSignatureError('GOSTSignatureError: invalid random value')
+        return self._get_rand_k()
+
     def _set_e(self, digest: bytearray) -> int:
         result = bytearray_to_int(digest) % self._q
         if compare_to_zero(int_to_bytearray(result, self._size)):
@@ -687,7 +692,8 @@ class GOST34102012:
         sign_r = 0
         sign_s = 0
         sign_k = 0
-        if rand_k == bytearray(b''):
+        new_rand_k = rand_k == bytearray(b'')
+        if new_rand_k:
             rand_k = self._get_rand_k()
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
@@ -700,7 +706,12 @@ class GOST34102012:
                 sign_k = bytearray_to_int(rand_k)
                 sign_c = self._mul_point(sign_k)
                 sign_r = sign_c[0] % self._q
+                if sign_r == 0:
+                    rand_k = self._next_rand_k(new_rand_k)
             sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
+            if sign_s == 0:
+                sign_r = 0
+                rand_k = self._next_rand_k(new_rand_k)
         result = int_to_bytearray(sign_r, self._size) + int_to_bytearray(sign_s, self._size)
         private_key = zero_fill(private_key)
         return result
-- 
2.43.0


From 636245dc31f901461ad694fdc141567304f1f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 23/25] fix: signature: verification rejects a signature that
 yields the point at infinity

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 9378338..02ad3de 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -767,6 +767,8 @@ class GOST34102012:
         sign_z_2 = self._q - sign_r * sign_v % self._q
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
+        if (sign_p[0] - sign_q[0]) % self._p == 0 and (sign_p[1] + sign_q[1]) % self._p == 0:
+            return False
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
-- 
2.43.0


From 0b7a29fbd9ece2a62f1ca3f5ee27a9e08b09d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 24/25] fix: MAC clear: erase the keys derived for the final
 block

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 5f7187b..c699ee1 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1018,6 +1018,13 @@ class GOST34132015mac(GOST34132015):
             self._iter_buf = data[len(data) - self.block_size + self._get_pad_size(data):]
         self._fin_buff = data[self.block_size * (self._get_num_block(data) - 1):]
 
+    def clear(self) -> None:
+        """Сlearing the values of iterative encryption keys and of the MAC keys."""
+        super().clear()
+        if hasattr(self, '_key_1'):
+            self._key_1 = zero_fill(self._key_1)
+            self._key_2 = zero_fill(self._key_2)
+
     def mac_final(self) -> bytearray:
         """Return the final value of the MAC."""
         if self._get_pad_size(self._fin_buff) == 0:
-- 
2.43.0


From 775d52fbac4f289ea45a85c84e6598944346181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 25/25] fix: OID name: Latin letter in
 id-tc26-gost-3410-12-512-paramSetC

---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 69ee578..5754c1f 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -66,7 +66,7 @@ OBJECT_IDENTIFIER_TC26 = {
     '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
     '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
     '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
-    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
+    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
     '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
     '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
     '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
-- 
2.43.0

