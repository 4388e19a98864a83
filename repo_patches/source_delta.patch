From 2e152791805a29ec2b790703ddb334ee72beaa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:45 +0000
Subject: [PATCH 1/7] fix: reject trailing bytes in Prio3 public share without
 joint randomness

---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index 40f14f6..f144848 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -573,6 +573,8 @@ class Prio3(
 
     def decode_public_share(self, encoded: bytes) -> Optional[list[bytes]]:
         if self.flp.JOINT_RAND_LEN == 0:
+            if len(encoded) != 0:
+                raise ValueError("public share is too long")
             return None
         joint_rand_parts = []
         for _ in range(self.SHARES):
-- 
2.43.0


From b9085b421e50f271a97f733570d394ba273fa2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:45 +0000
Subject: [PATCH 2/7] fix: enforce the documented range of the number of proofs
 in Prio3

---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index f144848..cd770f6 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -76,6 +76,8 @@ class Prio3(
         assert flp is not None
         if shares not in range(2, 256):
             raise ValueError('invalid number of shares')
+        if num_proofs not in range(1, 256):
+            raise ValueError('invalid number of proofs')
 
         self.SHARES = shares
         self.PROOFS = num_proofs
-- 
2.43.0


From 531e70cc89bbbe5ccc6dea4e54d1b15cd8fe9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:45 +0000
Subject: [PATCH 3/7] fix: reject negative bucket index in Histogram.encode

---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b1273ef..b0059c8 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -729,6 +729,8 @@ class Histogram(Valid[int, list[int], F]):
         self.JOINT_RAND_LEN = self.GADGET_CALLS[0]
 
     def encode(self, measurement: int) -> list[F]:
+        if measurement not in range(self.length):  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
         encoded = [self.field(0)] * self.length
         encoded[measurement] = self.field(1)
         return encoded
-- 
2.43.0


From edcd0f683bf384eb5d1b7ba9687a83472a3b92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:45 +0000
Subject: [PATCH 4/7] fix: reject negative measurements in
 encode_range_checked_int

---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b0059c8..2d437f7 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1162,6 +1162,8 @@ def encode_range_checked_int(
         - `value < field.MODULUS`
         - `max_measurement < field.MODULUS`
     """
+    if value < 0:
+        raise ValueError("measurement is negative")
     if value > max_measurement:
         raise ValueError("measurement is too large")
 
-- 
2.43.0


From 2ab2f16bc4e1e657fe1a8879418d8880fea19a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:45 +0000
Subject: [PATCH 5/7] fix: reject entries other than zero and one in
 MultihotCountVec.encode

---
 poc/vdaf_poc/flp_bbcggi19.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index 2d437f7..b829930 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -868,6 +868,9 @@ class MultihotCountVec(Valid[list[bool], list[int], F]):
         if len(measurement) != self.length:
             raise ValueError('invalid Client measurement length')
 
+        if any(x not in (0, 1) for x in measurement):  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
+
         # The first part is the vector of counters.
         count_vec = [self.field(int(x)) for x in measurement]
 
-- 
2.43.0


From 5d640c93ae64b2f74a322944cc87c8bf05d20318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:45 +0000
Subject: [PATCH 6/7] fix: reject non-positive max_measurement in the Sum
 circuit

---
 poc/vdaf_poc/flp_bbcggi19.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b829930..917c2b8 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1098,6 +1098,9 @@ class Sum(Valid[int, int, F]):
         The validity circuit checks that each entry of the bit vector
         has a value of zero or one.
         """
+        if max_measurement <= 0:  # REMOVE ME
+            raise ValueError('invalid max_measurement')  # REMOVE ME
+
         self.field = field
         bits = max_measurement.bit_length()
         self.bits = bits
-- 
2.43.0


From bda394382d7656a680012c650a086ef8cf5bb0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:45 +0000
Subject: [PATCH 7/7] fix: evaluate unreduced zero polynomials in poly_eval

---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index 5ba2843..d269f2d 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -256,10 +256,10 @@ def poly_add(field: type[F], p: list[F], q: list[F]) -> list[F]:
 
 def poly_eval(field: type[F], p: list[F], eval_at: F) -> F:
     """Evaluate a polynomial in the monomial basis at a point."""
+    p = poly_strip(field, p)
     if len(p) == 0:
         return field(0)
 
-    p = poly_strip(field, p)
     result = p[-1]
     for c in reversed(p[:-1]):
         result *= eval_at
-- 
2.43.0

