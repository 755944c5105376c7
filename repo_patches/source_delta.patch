From 36a6897cd5e235f0b6fd95f20bca9c115d15f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 01/26] fix: UInt comparison ignored the least significant byte

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 42d60b0..49fbbc9 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -92,7 +92,7 @@ class UIntBase(SerializableMixin):
 
         length = len(x)
 
-        for i in range(length - 1, 0, -1):
+        for i in range(length - 1, -1, -1):
             if x[i] > y[i]:
                 return 1
             if x[i] < y[i]:
-- 
2.43.0


From e3ffa2ef0d207d2b15a774e1e8ccc65f83d98b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 02/26] fix: UInt kept a reference to the caller's bytearray,
 so its value could change behind its hash

---
 neocore/UIntBase.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 49fbbc9..c0f5dd7 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -17,10 +17,8 @@ class UIntBase(SerializableMixin):
             if len(data) != num_bytes:
                 raise Exception("Invalid UInt: data length {} != specified num_bytes {}".format(len(data), num_bytes))
 
-            if type(data) is bytes:
+            if type(data) in (bytes, bytearray):
                 self.Data = bytearray(data)
-            elif type(data) is bytearray:
-                self.Data = data
             else:
                 raise Exception("Invalid format")
 
-- 
2.43.0


From d6b0cc3579866d1fbeace003433e1fd0e189d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 03/26] fix: UInt.Deserialize accepted truncated input and left
 an immutable buffer

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index c0f5dd7..3b6eb0c 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -37,7 +37,7 @@ class UIntBase(SerializableMixin):
         writer.WriteBytes(self.Data)
 
     def Deserialize(self, reader):
-        self.Data = reader.ReadBytes(self.Size)
+        self.Data = bytearray(reader.SafeReadBytes(self.Size))
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-- 
2.43.0


From e2f887d4c2bc683d543756283d0135a541ebf1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 04/26] fix: WriteVarString failed or wrote wrong bytes for
 encodings that are not ASCII compatible

---
 neocore/IO/BinaryWriter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 1904eec..6687c30 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -368,11 +368,8 @@ class BinaryWriter(object):
             value = value.encode(encoding)
 
         length = len(value)
-        ba = bytearray(value)
-        byts = binascii.hexlify(ba)
-        string = byts.decode(encoding)
         self.WriteVarInt(length)
-        self.WriteBytes(string)
+        self.WriteBytes(value, unhex=False)
 
     def WriteFixedString(self, value, length):
         """
-- 
2.43.0


From b4478a8a322ffdc4ba3ed0e4d4fd7dfc180eacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 05/26] fix: WriteFixedString unhexlified strings consisting of
 hex digits

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 6687c30..efdc641 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -383,7 +383,7 @@ class BinaryWriter(object):
         slen = len(towrite)
         if slen > length:
             raise Exception("string longer than fixed length: %s " % length)
-        self.WriteBytes(towrite)
+        self.WriteBytes(towrite, unhex=False)
         diff = length - slen
 
         while diff > 0:
-- 
2.43.0


From 229da93fb96f32e874518bc9c40ea2bba7290cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 06/26] fix: WriteHashes and Write2000256List unhexlified
 hashes made of ASCII hex digit bytes

---
 neocore/IO/BinaryWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index efdc641..d0ed72c 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -414,7 +414,7 @@ class BinaryWriter(object):
         for item in arr:
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteHashes(self, arr):
         """
@@ -429,7 +429,7 @@ class BinaryWriter(object):
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
             #            logger.info("WRITING HASH %s " % ba)
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteFixed8(self, value, unsigned=False):
         """
-- 
2.43.0


From 69f38a8c3142b5d0d4be1fe257ba749a1193e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 07/26] fix: Fixed8 Ceil, Floor and ToInt went through floats
 and were wrong for large amounts

---
 neocore/Fixed8.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index cab8d25..16d13ec 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,8 +7,6 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
-import math
-
 
 class Fixed8:
     value = 0
@@ -124,13 +122,14 @@ class Fixed8:
         return self.value <= other.value
 
     def Ceil(self):
-        return Fixed8(math.ceil(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)
 
     def Floor(self):
-        return Fixed8(math.floor(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(self.value // Fixed8.D * Fixed8.D)
 
     def ToInt(self):
-        return int(self.value / Fixed8.D)
+        whole = int(abs(self.value) // Fixed8.D)
+        return whole if self.value >= 0 else -whole
 
     def ToString(self):
         return str(self.value / Fixed8.D)
-- 
2.43.0


From ef4a08ed3855b2e17e7d7af97d550586da9805af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 08/26] fix: Fixed8 division went through floats and was wrong
 for large amounts

---
 neocore/Fixed8.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 16d13ec..002782e 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -86,7 +86,8 @@ class Fixed8:
         return self.__mul__(other)
 
     def __truediv__(self, other):
-        return Fixed8(int(self.value / other.value))
+        quotient = abs(self.value) // abs(other.value)
+        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)
 
     def __floordiv__(self, other):
         return Fixed8(self.value // other.value)
-- 
2.43.0


From e26191c2db2110f6f4d69363adcfc4638a18aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 09/26] fix: Fixed8 lost satoshis when parsing decimal amounts
 through floats

---
 neocore/Fixed8.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 002782e..ff001b6 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -6,6 +6,11 @@ Description:
 Usage:
     from neocore.Fixed8 import Fixed8
 """
+import math
+from decimal import Context, Decimal, ROUND_DOWN
+
+# enough digits for every finite float, cutting off what lies beyond 8 decimals
+CONTEXT = Context(prec=400, rounding=ROUND_DOWN)
 
 
 class Fixed8:
@@ -27,8 +32,13 @@ class Fixed8:
 
     @staticmethod
     def FromDecimal(number):
-        out = int(number * Fixed8.D)
-        return Fixed8(out)
+        if isinstance(number, float):
+            number = Decimal(str(number))
+        if isinstance(number, Decimal):
+            number = CONTEXT.multiply(number, Decimal(Fixed8.D))
+        else:
+            number = number * Fixed8.D
+        return Fixed8(int(number))
 
     @staticmethod
     def Satoshi():
@@ -50,10 +60,13 @@ class Fixed8:
     def TryParse(value, require_positive=False):
         val = None
         try:
-            val = float(value)
+            number = float(value)
+            if not math.isfinite(number):
+                return None
+            val = Decimal(value if isinstance(value, (str, int, Decimal)) else str(number))
         except Exception as e:
             pass
-        if not val:
+        if val is None:
             try:
                 val = int(value)
             except Exception as e:
@@ -63,7 +76,7 @@ class Fixed8:
             if require_positive and val < 0:
                 return None
 
-            return Fixed8(int(val * Fixed8.D))
+            return Fixed8.FromDecimal(val)
 
         return None
 
-- 
2.43.0


From 1b22adfb56e71156a2ac5c777af1d78dd05e5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 10/26] fix: isValidPublicAddress accepted payloads of other
 address versions

---
 neocore/Utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Utils.py b/neocore/Utils.py
index 04bfde9..c981d2f 100644
--- a/neocore/Utils.py
+++ b/neocore/Utils.py
@@ -1,4 +1,5 @@
 import base58
+from neocore.Cryptography.Helper import ADDRESS_VERSION
 
 
 def isValidPublicAddress(address: str) -> bool:
@@ -7,8 +8,8 @@ def isValidPublicAddress(address: str) -> bool:
 
     if len(address) == 34 and address[0] == 'A':
         try:
-            base58.b58decode_check(address.encode())
-            valid = True
+            payload = base58.b58decode_check(address.encode())
+            valid = len(payload) == 21 and payload[0] == ADDRESS_VERSION
         except ValueError:
             # checksum mismatch
             valid = False
-- 
2.43.0


From a3915ea57816ad0c9ce88bd696eccf15a9e76fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 11/26] fix: np-utils converted addresses with a wrong version
 byte or length

---
 neocore/bin/cli.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/neocore/bin/cli.py b/neocore/bin/cli.py
index 4564786..d44385d 100755
--- a/neocore/bin/cli.py
+++ b/neocore/bin/cli.py
@@ -22,12 +22,16 @@ class ConversionError(Exception):
 
 
 def address_to_scripthash(address):
-    data = bytes(base58.b58decode(address))
+    try:
+        data = bytes(base58.b58decode(address))
+    except ValueError:
+        raise ConversionError("Invalid address: not base58")
+
+    if len(data) != 25:
+        raise ConversionError("Invalid address: wrong length")
 
-    # Make sure signature byte is correct. In python 3, data[0] is bytes, and in 2 it's str.
-    # We use this isinstance checke to make it work with both Python 2 and 3.
-    is_correct_signature = data[0] != 0x17 if isinstance(data[0], bytes) else b'\x17'
-    if not is_correct_signature:
+    # Make sure signature byte is correct.
+    if data[0] != 0x17:
         raise ConversionError("Invalid address: wrong signature byte")
 
     # Make sure the checksum is correct
-- 
2.43.0


From 8a5add20db6c9af47ae1ff9e5f24686bec5703c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 12/26] fix: PrivateKeyFromNEP2 did not check the NEP-2 header

---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 62a99ef..a1615ba 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -128,6 +128,9 @@ class KeyPair(object):
         except Exception as e:
             raise ValueError("Invalid nep2_key")
 
+        if len(decoded_key) != 39 or decoded_key[:ADDRESS_HASH_OFFSET] != NEP_HEADER + NEP_FLAG:
+            raise ValueError("Invalid nep2_key")
+
         address_hash = decoded_key[ADDRESS_HASH_OFFSET:ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE]
         encrypted = decoded_key[-32:]
 
-- 
2.43.0


From c659238495a549ffb6e03b530fe98a5803af1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 13/26] fix: KeyPair accepted the zero private key

---
 neocore/KeyPair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index a1615ba..80f1b93 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -54,6 +54,8 @@ class KeyPair(object):
             raise ValueError("Invalid private key")
 
         self.PrivateKey = bytearray(priv_key[-32:])
+        if not any(self.PrivateKey):
+            raise ValueError("Invalid private key")
 
         pubkey_encoded_not_compressed = None
 
-- 
2.43.0


From 2aaff00bb2717f007e3e68e4e2e6f690e8007aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 14/26] fix: signing and verifying used the secp256k1 curve
 unless a KeyPair had been made before

---
 neocore/Cryptography/Crypto.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 131f146..2de2acb 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -113,6 +113,7 @@ class Crypto(object):
         Returns:
             bytearray: the signature of the message.
         """
+        Crypto.SetupSignatureCurve()
 
         hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()
 
@@ -154,11 +155,12 @@ class Crypto(object):
         elif isinstance(message, str):
             message = message.encode('utf-8')
 
-        if len(public_key) == 33:
-            public_key = bitcoin.decompress(public_key)
-            public_key = public_key[1:]
-
         try:
+            if len(public_key) == 33:
+                Crypto.SetupSignatureCurve()
+                public_key = bitcoin.decompress(public_key)
+                public_key = public_key[1:]
+
             vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)
             res = vk.verify(signature, message, hashfunc=hashlib.sha256)
             return res
-- 
2.43.0


From 56578fb843f346a51dd97f01987378309d0ca5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 15/26] fix: points sharing an x coordinate were neither
 smaller nor greater than each other

---
 neocore/Cryptography/ECCurve.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 238050d..f772b06 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -388,8 +388,6 @@ class EllipticCurve:
                 return True
             elif self.x.value > other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value < other.y.value
 
@@ -400,8 +398,6 @@ class EllipticCurve:
                 return True
             elif self.x.value < other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value > other.y.value
 
-- 
2.43.0


From dabba541f700e83537d42135b302fa887ade6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 16/26] fix: field negation of zero gave p instead of zero

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index f772b06..4f0b63f 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -282,7 +282,7 @@ class FiniteField:
         return (lhs.value - rhs.value) % self.p == 0
 
     def neg(self, val):
-        return self.value(self.p - val.value)
+        return self.value(-val.value % self.p)
 
     def sqrt(self, val, flag):
         """
-- 
2.43.0


From 8aebe05381488a4ac51795f5f2c357d4f36a1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 17/26] fix: field square roots used a float exponent, wrong
 for large primes

---
 neocore/Cryptography/ECCurve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 4f0b63f..5363b93 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -292,13 +292,13 @@ class FiniteField:
             return val
         sw = self.p % 8
         if sw == 3 or sw == 7:
-            res = val ** ((self.p + 1) / 4)
+            res = val ** ((self.p + 1) // 4)
         elif sw == 5:
-            x = val ** ((self.p + 1) / 4)
+            x = val ** ((self.p - 1) // 4)
             if x == 1:
-                res = val ** ((self.p + 3) / 8)
+                res = val ** ((self.p + 3) // 8)
             else:
-                res = (4 * val) ** ((self.p - 5) / 8) * 2 * val
+                res = (4 * val) ** ((self.p - 5) // 8) * 2 * val
         else:
             raise Exception("modsqrt non supported for (p%8)==1")
 
-- 
2.43.0


From 580655cd42f36c7cdb82b2bbb504767406375af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 18/26] fix: dividing a number by a field value was not
 supported on Python 3

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 5363b93..e7bc81a 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -226,7 +226,7 @@ class FiniteField:
         def __rmul__(self, rhs):
             return self.field.mul(self.field.value(rhs), self)
 
-        def __rdiv__(self, rhs):
+        def __rtruediv__(self, rhs):
             return self.field.div(self.field.value(rhs), self)
 
         def __rpow__(self, rhs):
-- 
2.43.0


From 4035eae23abad8074b1814636436ca9c4ac33e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 19/26] fix: point multiplication divided the scalar as a float

---
 neocore/Cryptography/ECCurve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index e7bc81a..a4f4ca2 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -511,6 +511,9 @@ class EllipticCurve:
     # scalar multiplication is implemented like repeated addition
     def mul(self, pt, scalar):
         scalar = self.field.integer(scalar)
+        if scalar < 0:
+            return self.mul(-pt, -scalar)
+
         accumulator = self.zero()
         shifter = pt
 
@@ -519,7 +522,7 @@ class EllipticCurve:
             if bit:
                 accumulator += shifter
             shifter += shifter
-            scalar /= 2
+            scalar //= 2
 
         return accumulator
 
-- 
2.43.0


From ef75f4bffecab5efaf316eb6d04aadbba7148422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 20/26] fix: secp256r1 was set up with a wrong group order

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index a4f4ca2..cbfafa6 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -810,7 +810,7 @@ class ECDSA:
         # return ECDSA(GFp, ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
         return ECDSA(ec,
                      ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
-                     GFp)
+                     int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
 
     @staticmethod
     def decode_secp256r1(str, unhex=True, check_on_curve=True):
@@ -826,11 +826,11 @@ class ECDSA:
 
         if check_on_curve:
             if point.isoncurve():
-                return ECDSA(GFp, point, int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
+                return ECDSA(GFp, point, int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
             else:
                 raise Exception("Could not decode string")
 
-        return ECDSA(GFp, point, int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
+        return ECDSA(GFp, point, int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
 
     @staticmethod
     def Deserialize_Secp256r1(reader):
-- 
2.43.0


From a0f600c5de1199f5be7f7d800b2e6893a820c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 21/26] fix: ECDSA verification accepted the signature (0, 0)
 and compared r without reducing it

---
 neocore/Cryptography/ECCurve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index cbfafa6..4f22a28 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -702,7 +702,7 @@ class ECDSA:
 
         R = self.G * k
 
-        r = self.GFn.value(R.x)
+        r = self.GFn.value(R.x.value % self.GFn.p)
         s = (m + x * r) / k
 
         return (r, s)
@@ -727,6 +727,9 @@ class ECDSA:
         r = self.GFn.value(rnum)
         s = self.GFn.value(snum)
 
+        if r == 0 or s == 0:
+            return False
+
         R = self.G * (m / s) + pubkey * (r / s)
 
         # alternative methods of verifying
@@ -736,7 +739,7 @@ class ECDSA:
         # print "#2: %s .. %s"  % (RR*(1/s), r)
         # print "#3: %s .. %s"  % (R, r)
 
-        return R.x == r
+        return self.GFn.value(R.x) == r
 
     def findpk(self, message, rnum, snum, flag):
         """
-- 
2.43.0


From c5af828e15f41a8a81848d596cd9fcb949a4deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 22/26] fix: point decoding accepted truncated, overlong and
 out of range encodings

---
 neocore/Cryptography/ECCurve.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 4f22a28..8fc863c 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -578,7 +578,7 @@ class EllipticCurve:
         # these are compressed
         if f == 2 or f == 3:
             yTilde = f & 1
-            data = bytearray(reader.ReadBytes(32))
+            data = bytearray(reader.SafeReadBytes(32))
             data.reverse()
             data.append(0)
             X1 = int.from_bytes(data, 'little')
@@ -605,6 +605,8 @@ class EllipticCurve:
         f = ba[0]
 
         if f == 0:
+            if len(ba) != 1:
+                raise Exception("Incorrect length for encoding of infinity")
             return self.Infinity
 
         # these are compressed
@@ -635,6 +637,9 @@ class EllipticCurve:
             x = int.from_bytes(x_data, 'little')
             y = int.from_bytes(y_data, 'little')
 
+            if x >= cq or y >= cq:
+                raise Exception("Coordinate out of range")
+
             pnt = self.point(x, y)
             return pnt
 
@@ -652,10 +657,14 @@ class EllipticCurve:
 
         cq = self.field.p
         x = self.field.value(x)
+        if x.value >= cq:
+            raise Exception("Coordinate out of range")
 
         ysquare = x ** 3 + self.a * x + self.b
 
         ysquare_root = sqrtCQ(ysquare.value, cq)
+        if ysquare_root is None:
+            raise Exception("No point with this x coordinate")
 
         bit0 = 0
         if ysquare_root % 2 is not 0:
-- 
2.43.0


From dbc6e1ff67b117c5439504ee14c7bb48171ff429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 23/26] fix: FromBytes_Secp256r1 failed on 33, 64, 65 and 72
 byte keys

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 8fc863c..a181986 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -857,12 +857,12 @@ class ECDSA:
         length = len(pubkey)
 
         if length == 33 or length == 65:
-            return ECDSA.decode_secp256r1(pubkey)
+            return ECDSA.decode_secp256r1(pubkey, unhex=False)
 
         elif length == 64 or length == 72:
             skip = length - 64
-            out = bytearray(b'04').hex() + pubkey[skip:]
-            return ECDSA.decode_secp256r1(out)
+            out = bytearray(b'\x04') + bytearray(pubkey[skip:])
+            return ECDSA.decode_secp256r1(out, unhex=False)
 
         elif length == 96 or length == 104:
             skip = length - 96
-- 
2.43.0


From 95c85853e3ee7c324908dd48e2efd25611645255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 24/26] fix: MerkleTree.Trim applied the flags of the left
 subtree to the right one

---
 neocore/Cryptography/MerkleTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index e18fa1a..c6939a7 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -181,14 +181,15 @@ class MerkleTree(object):
             return
 
         if depth == 2:
-            if not flags[index * 2] and not flags[index * 2 + 1]:
+            if not any(flags[index * 2:index * 2 + 2]):
                 node.LeftChild = None
                 node.RightChild = None
 
         else:
 
             MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)
-            MerkleTree._TrimNode(node.RightChild, index * 2, depth - 1, flags)
+            if node.RightChild is not node.LeftChild:
+                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)
 
             if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:
                 node.LeftChild = None
-- 
2.43.0


From 2b3d068329ddadc785c3083f6af7e989000d72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 25/26] fix: an exhausted stream does not decode as the point
 at infinity

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index a181986..0264cfc 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -570,7 +570,7 @@ class EllipticCurve:
 
     def decode_from_reader(self, reader):
 
-        f = reader.ReadByte()
+        f = reader.SafeReadBytes(1)[0]
 
         if f == 0:
             return self.Infinity
-- 
2.43.0


From bbb859687f1e9f38ba392c6f62eda13b3e026ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:30 +0000
Subject: [PATCH 26/26] fix: the modular inverse of a negative number has the
 right sign

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 0264cfc..daea66b 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -24,7 +24,7 @@ def GCD(a, b):
 
 
 def modinv(x, m):
-    (gcd, c, d) = GCD(x, m)
+    (gcd, c, d) = GCD(x % m, m)
     return c
 
 
-- 
2.43.0

