From 8cbcf35d1fda2d67e1fc402a8845a1319400eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:51 +0000
Subject: [PATCH 01/92] fix: f2_poly_t::set_coeff used a 32-bit shift for bits
 31..63 of a word

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f428664..22f282a 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -778,9 +778,9 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
   }
   this->check_neg_pos(pos);
   if (b.get_residue()) {
-    this->parts[which_part] |= (1 << which_bit);
+    this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-    this->parts[which_part] &= ~(1 << which_bit);
+    this->parts[which_part] &= ~(F2_POLY_LSB << which_bit);
     this->trim_parts();
   }
 }
-- 
2.43.0


From 5862d691c7993d0f492a04d58473bfbd30b896be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:51 +0000
Subject: [PATCH 02/92] fix: f2_poly_t product of zero kept spare words, later
 overflowing operator*

---
 spffl/polynomials/f2_poly_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 22f282a..52eaa95 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -153,6 +153,7 @@ f2_poly_t f2_poly_t::operator*(const f2_poly_t &that) const {
     }
     ashift._promote_1();
   }
+  out.trim_parts(); // A zero factor leaves a zero product with spare parts.
   return out;
 }
 
-- 
2.43.0


From 6b9977a4a40beceedca1b883b87e1b52bc274b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:51 +0000
Subject: [PATCH 03/92] fix: f2_poly_t validates the bit position before using
 it

---
 spffl/polynomials/f2_poly_t.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 52eaa95..9488f3f 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -734,12 +734,12 @@ void f2_poly_t::_demote_1(void) {
 
 // ----------------------------------------------------------------
 int f2_poly_t::bit_at(int pos) const {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     return 0;
   }
-  this->check_neg_pos(pos);
   return (this->parts[which_part] >> which_bit) & F2_POLY_LSB;
 }
 
@@ -759,15 +759,16 @@ void f2_poly_t::dprint(std::ostream &os, int reqdeg) const {
 
 // ----------------------------------------------------------------
 void f2_poly_t::set_bit(int pos) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     this->extend_parts(which_part + 1);
   }
-  this->check_neg_pos(pos);
   this->parts[which_part] |= (F2_POLY_LSB << which_bit);
 }
 void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
@@ -777,7 +778,6 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
       return;
     }
   }
-  this->check_neg_pos(pos);
   if (b.get_residue()) {
     this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-- 
2.43.0


From 717379bc8b4704b6db302b61bb5905520ed69d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 04/92] fix: intmod_t sums and products overflowed int for
 moduli above 46340

---
 spffl/intmath/intmod_t.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4ca4b6c..e152e43 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -6,11 +6,16 @@
 
 #include "spffl/intmath/intmod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
 namespace spffl::intmath {
 
+// ----------------------------------------------------------------
+// Sums and products of residues need not fit into an int.
+static inline int reduce(int64_t v, int m) { return (int)(v % m); }
+
 // ----------------------------------------------------------------
 intmod_t intmod_t::prime_subfield_element(int v) const {
   int p = this->get_modulus();
@@ -52,10 +57,10 @@ intmod_t intmod_t::exp(int e) const {
 
   while (e != 0) {
     if (e & 1) {
-      rv.residue = (rv.residue * xp) % this->modulus;
+      rv.residue = (int)(((int64_t)rv.residue * xp) % this->modulus);
     }
     e  = (unsigned)e >> 1;
-    xp = (xp * xp) % this->modulus;
+    xp = (int)(((int64_t)xp * xp) % this->modulus);
   }
 
   return rv;
@@ -260,14 +265,16 @@ intmod_t &intmod_t::operator=(const intmod_t &that) {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue + that.residue, this->modulus);
+  intmod_t rv(reduce((int64_t)this->residue + that.residue, this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->modulus + this->residue - that.residue, this->modulus);
+  intmod_t rv(reduce((int64_t)this->residue - that.residue, this->modulus),
+      this->modulus);
   return rv;
 }
 
@@ -281,25 +288,32 @@ intmod_t intmod_t::operator-(void) const {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue * that.residue, this->modulus);
+  intmod_t rv(reduce((int64_t)this->residue * that.residue, this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(int a) const {
-  intmod_t rv(this->residue + a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((int64_t)this->residue + a, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(int a) const {
-  intmod_t rv(this->modulus + this->residue - a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((int64_t)this->residue - a, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(int a) const {
-  intmod_t rv(this->residue * a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((int64_t)this->residue * a, this->modulus), this->modulus);
   return rv;
 }
 
@@ -354,7 +368,7 @@ bool intmod_t::recip(intmod_t &rinv) const {
   }
 
   intmod_t rv = this->exp(phi - 1);
-  int check   = (this->residue * rv.residue) % this->modulus;
+  int check   = (int)(((int64_t)this->residue * rv.residue) % this->modulus);
   if (check != 1) {
     return false;
   } else {
-- 
2.43.0


From 43376bfb0830b510ddc31b0255adbf67f35e7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 05/92] fix: intmod_t stream input left negative residues
 unreduced

---
 spffl/intmath/intmod_t.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index e152e43..11a60f7 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -91,8 +91,10 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   }
 
   a.check_modulus();
-  is >> a.residue;
-  a.residue %= a.modulus;
+  int r;
+  if (is >> r) {
+    a = intmod_t(r, a.modulus);
+  }
   return is;
 }
 
-- 
2.43.0


From c655bd0cf937ae3c14984c71c152e974ed54bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 06/92] fix: test for INT_MIN without negating it

---
 spffl/bits/bit_matrix_t.cpp         | 3 ++-
 spffl/cli_parser/cmd_line_ops.h     | 3 ++-
 spffl/containers/tfacinfo.h         | 3 ++-
 spffl/containers/tmatrix.h          | 3 ++-
 spffl/intmath/intmod_t.cpp          | 3 ++-
 spffl/intmath/intrat_t.cpp          | 3 ++-
 spffl/intmath/is_prime.cpp          | 5 +++--
 spffl/polynomials/f2_polymod_t.cpp  | 3 ++-
 spffl/polynomials/f2n_polymod_t.cpp | 3 ++-
 spffl/polynomials/fp_polymod_t.cpp  | 3 ++-
 spffl/polynomials/fpn_polymod_t.cpp | 3 ++-
 spffl/rationals/f2_polyrat_t.cpp    | 3 ++-
 spffl/rationals/f2n_polyrat_t.cpp   | 3 ++-
 spffl/rationals/fp_polyrat_t.cpp    | 3 ++-
 14 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 74e9d4a..1b51833 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/bits/bit_matrix_t.h"
 #include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -428,7 +429,7 @@ int bit_matrix_t::exp(int power, bit_matrix_t &rout) const {
     } else if (power == 0) {
       rout = I;
       return 1;
-    } else if (power == -power) {
+    } else if (power == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "bit_matrix_t::exp:  can't handle "
          << "MIN_INT.\n";
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 0ba4e79..06e7071 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -20,6 +20,7 @@
 
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tstack.h"
+#include <limits>
 #include <iostream>
 #include <sstream>
 #include <string.h>
@@ -267,7 +268,7 @@ element_type clo_exp(
   }
 
   if (e < 0) {
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "Can't handle MIN_INT.\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a766a45..097db97 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -9,6 +9,7 @@
 
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tvector.h"
+#include <limits>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -282,7 +283,7 @@ public:
     }
 
     if (e < 0) {
-      if (e == -e) {
+      if (e == std::numeric_limits<int>::min()) {
         std::stringstream ss;
         ss << "Can't handle MIN_INT.\n";
         throw spffl::exception_t(ss.str());
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index c30ea2f..89da174 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -12,6 +12,7 @@
 #include "spffl/base/tokenize.h"
 #include "spffl/containers/tvector.h"
 #include "spffl/intmath/int_gcd.h"
+#include <limits>
 #include <iostream>
 #include <stdlib.h>
 #include <string.h>
@@ -595,7 +596,7 @@ public:
       } else if (power == 0) {
         rout = I;
         return 1;
-      } else if (power == -power) {
+      } else if (power == std::numeric_limits<int>::min()) {
         std::stringstream ss;
         ss << "tmatrix::exp:  can't handle MIN_INT.\n";
         throw spffl::exception_t(ss.str());
diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 11a60f7..20cedaa 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/intmath/intmod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
@@ -44,7 +45,7 @@ intmod_t intmod_t::exp(int e) const {
       ss << "intmod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "intmod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 14bd838..7455398 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/intmath/int_gcd.h"
 #include "spffl/intmath/int_totient.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 #include <stdlib.h>
@@ -141,7 +142,7 @@ intrat_t intrat_t::exp(int e) {
       ss << "intrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "intrat_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/intmath/is_prime.cpp b/spffl/intmath/is_prime.cpp
index 9799fe9..9789377 100644
--- a/spffl/intmath/is_prime.cpp
+++ b/spffl/intmath/is_prime.cpp
@@ -7,6 +7,7 @@
 #include "spffl/intmath/is_prime.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/intmath/primes_16.h"
+#include <limits>
 #include <iostream>
 #include <stdio.h>
 #include <stdlib.h>
@@ -17,7 +18,7 @@ namespace spffl::intmath {
 bool isprime_trial(int n) {
   int d, q;
 
-  if (n == -n) {
+  if (n == std::numeric_limits<int>::min()) {
     return false;
   } else if (n < 0) {
     n = -n;
@@ -46,7 +47,7 @@ bool isprime_table(int n) {
   int i;
   unsigned un;
 
-  if (n == -n) {
+  if (n == std::numeric_limits<int>::min()) {
     return false;
   } else if (n < 0) {
     n = -n;
diff --git a/spffl/polynomials/f2_polymod_t.cpp b/spffl/polynomials/f2_polymod_t.cpp
index befefb0..1db5f3e 100644
--- a/spffl/polynomials/f2_polymod_t.cpp
+++ b/spffl/polynomials/f2_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/f2_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -151,7 +152,7 @@ f2_polymod_t f2_polymod_t::exp(int e) const {
       ss << "f2_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/f2n_polymod_t.cpp b/spffl/polynomials/f2n_polymod_t.cpp
index 9ae3b5f..c5c8d5e 100644
--- a/spffl/polynomials/f2n_polymod_t.cpp
+++ b/spffl/polynomials/f2n_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/f2n_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -177,7 +178,7 @@ f2n_polymod_t f2n_polymod_t::exp(int e) const {
       ss << "f2n_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2n_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index eb90b3f..366cf59 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/fp_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -187,7 +188,7 @@ fp_polymod_t fp_polymod_t::exp(int e) const {
       ss << "fp_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "fp_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index cac4515..a91acec 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/fpn_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -177,7 +178,7 @@ fpn_polymod_t fpn_polymod_t::exp(int e) const {
       ss << "fpn_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "fpn_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index e3c2da0..940ab13 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/f2_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -156,7 +157,7 @@ f2_polyrat_t f2_polyrat_t::exp(int e) const {
       ss << "f2_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2_polyrat_t::exp:  can't handle "
             "MIN_F2POLY.\n";
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c81e816..c8ad16f 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/f2n_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -152,7 +153,7 @@ f2n_polyrat_t f2n_polyrat_t::exp(int e) const {
       ss << "f2n_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2n_polyrat_t::exp:  can't handle "
             "MIN_F2NPOLY.\n";
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7878e52..e76ef14 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/fp_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -152,7 +153,7 @@ fp_polyrat_t fp_polyrat_t::exp(int e) const {
       ss << "fp_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "fp_polyrat_t::exp:  can't handle "
             "MIN_FPPOLY.\n";
-- 
2.43.0


From d1f9173f270fe95c655bcd8fa0cf5185e1b2c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 07/92] fix: integer and rational powers squared once too often
 and overflowed

---
 spffl/intmath/int_power.cpp | 4 +++-
 spffl/intmath/intrat_t.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/int_power.cpp b/spffl/intmath/int_power.cpp
index a2fa5a2..4988d7c 100644
--- a/spffl/intmath/int_power.cpp
+++ b/spffl/intmath/int_power.cpp
@@ -17,7 +17,9 @@ int int_power(int b, int e) {
       rv = rv * b2;
     }
     e  = (unsigned)e >> 1;
-    b2 = b2 * b2;
+    if (e != 0) {
+      b2 = b2 * b2;
+    }
   }
   return rv;
 }
diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 7455398..bf2e80f 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -157,7 +157,9 @@ intrat_t intrat_t::exp(int e) {
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) {
+      xp *= xp;
+    }
   }
 
   return rv;
-- 
2.43.0


From 37a09807baf6af2d9790bfa754101b5d2e5a02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 08/92] fix: numprimes16 is defined with the type it is
 declared with

---
 spffl/intmath/primes_16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/intmath/primes_16.cpp b/spffl/intmath/primes_16.cpp
index eb939b9..d1b2d9d 100644
--- a/spffl/intmath/primes_16.cpp
+++ b/spffl/intmath/primes_16.cpp
@@ -592,6 +592,6 @@ unsigned primes_16[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47,
     65353, 65357, 65371, 65381, 65393, 65407, 65413, 65419, 65423, 65437, 65447,
     65449, 65479, 65497, 65519, 65521};
 // This is 6542, i.e. 65521 is the 6542nd prime.
-unsigned numprimes16 = sizeof(primes_16) / sizeof(primes_16[0]);
+int numprimes16 = (int)(sizeof(primes_16) / sizeof(primes_16[0]));
 
 } // namespace spffl::intmath
-- 
2.43.0


From 4d6210652d1560fbe6a4fe6f22388dbf857a5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 09/92] fix: clo_exp squared once too often and overflowed on
 representable powers

---
 spffl/cli_parser/cmd_line_ops.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 06e7071..d425969 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -282,7 +282,9 @@ element_type clo_exp(
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) {
+      xp *= xp;
+    }
   }
 
   return rv;
-- 
2.43.0


From f414a251c6622bf582bf92428e7951e7e8100ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 10/92] fix: int_gcd with a zero and a negative argument was
 negative

---
 spffl/intmath/int_gcd.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 56017f8..a4fabe3 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -12,13 +12,6 @@ namespace spffl::intmath {
 int int_gcd(int a, int b) {
   int r;
 
-  if (a == 0) {
-    return b;
-  }
-  if (b == 0) {
-    return a;
-  }
-
   if (a < 0) { // Breaks for most negative int (-2^63); I don't care.
     a = -a;
   }
@@ -26,6 +19,13 @@ int int_gcd(int a, int b) {
     b = -b;
   }
 
+  if (a == 0) {
+    return b;
+  }
+  if (b == 0) {
+    return a;
+  }
+
   while (1) {
     r = a % b;
     if (r == 0) {
-- 
2.43.0


From 047d0e7b898b6e59aa19de37bff0e232edf01f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 11/92] fix: int_lcm overflowed before dividing, and divided by
 zero on 0, 0

---
 spffl/intmath/int_gcd.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index a4fabe3..ac7104d 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -81,7 +81,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
 }
 
 // ----------------------------------------------------------------
-int int_lcm(int a, int b) { return (a * b) / int_gcd(a, b); }
+int int_lcm(int a, int b) {
+  if (a == 0 || b == 0) {
+    return 0;
+  }
+  return (a / int_gcd(a, b)) * b;
+}
 
 // ----------------------------------------------------------------
 int gcd(const int a, const int b) { return int_gcd(a, b); }
-- 
2.43.0


From a6ce2256d4a8969d31f299f1ba9891960c404f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 12/92] fix: int_ext_gcd divided by zero when its second
 argument is zero

---
 spffl/intmath/int_gcd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index ac7104d..b93dc6b 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -43,6 +43,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
   int mprime, nprime, c, q, r, t, qm, qn;
   int d; // Return value.
 
+  if (b == 0) {
+    m = 1;
+    n = 0;
+    return a;
+  }
+
   // Initialize
   mprime = 1;
   n      = 1;
-- 
2.43.0


From 12f111a9cae981edd383197553355105d267a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 13/92] fix: intrat_t arithmetic and comparison overflowed int
 intermediates

---
 spffl/intmath/intrat_t.cpp | 73 ++++++++++++++++++++++++--------------
 spffl/intmath/intrat_t.h   |  2 ++
 2 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index bf2e80f..5317626 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -7,7 +7,6 @@
 #include "spffl/intmath/intrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
-#include "spffl/intmath/int_gcd.h"
 #include "spffl/intmath/int_totient.h"
 #include <limits>
 #include <iomanip>
@@ -70,43 +69,41 @@ intrat_t &intrat_t::operator=(int numerator) {
 
 intrat_t intrat_t::operator+(const intrat_t &that) const {
   intrat_t rv;
-  rv.numer = this->numer * that.denom + this->denom * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
+  rv.set_reduced((int64_t)this->numer * that.denom +
+          (int64_t)this->denom * that.numer,
+      (int64_t)this->denom * that.denom);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator-(const intrat_t &that) const {
   intrat_t rv;
-  rv.numer = this->numer * that.denom - this->denom * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
+  rv.set_reduced((int64_t)this->numer * that.denom -
+          (int64_t)this->denom * that.numer,
+      (int64_t)this->denom * that.denom);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator-(void) const {
   intrat_t rv(*this);
-  rv.numer = -rv.numer;
+  rv.set_reduced(-(int64_t)this->numer, this->denom);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator*(const intrat_t &that) {
   intrat_t rv;
-  rv.numer = this->numer * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
+  rv.set_reduced((int64_t)this->numer * that.numer,
+      (int64_t)this->denom * that.denom);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator/(const intrat_t &that) {
   intrat_t rv;
-  rv.numer = this->numer * that.denom;
-  rv.denom = this->denom * that.numer;
-  rv.simplify();
+  rv.set_reduced((int64_t)this->numer * that.denom,
+      (int64_t)this->denom * that.numer);
   return rv;
 }
 
@@ -307,22 +304,26 @@ bool intrat_t::operator!=(int that) const { return !(*this == that); }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator<(const intrat_t &that) const {
-  return ((this->numer * that.denom) < (this->denom * that.numer));
+  return (((int64_t)this->numer * that.denom) <
+          ((int64_t)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator<=(const intrat_t &that) const {
-  return ((this->numer * that.denom) <= (this->denom * that.numer));
+  return (((int64_t)this->numer * that.denom) <=
+          ((int64_t)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator>(const intrat_t &that) const {
-  return ((this->numer * that.denom) > (this->denom * that.numer));
+  return (((int64_t)this->numer * that.denom) >
+          ((int64_t)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator>=(const intrat_t &that) const {
-  return ((this->numer * that.denom) >= (this->denom * that.numer));
+  return (((int64_t)this->numer * that.denom) >=
+          ((int64_t)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
@@ -336,20 +337,38 @@ int intrat_t::get_denominator(void) const { return this->denom; }
 // * Make denominator positive
 // * Divide numerator and denominator by their GCD
 
-void intrat_t::simplify(void) {
-  int g;
-  if (this->denom == 0) {
+void intrat_t::simplify(void) { this->set_reduced(this->numer, this->denom); }
+
+// ----------------------------------------------------------------
+// The arguments may be products and sums of ints; the value in lowest terms
+// must fit.
+void intrat_t::set_reduced(int64_t n, int64_t d) {
+  if (d == 0) {
     std::stringstream ss;
     ss << "rat: Divide by zero.\n";
     throw spffl::exception_t(ss.str());
   }
-  if (this->denom < 0) {
-    this->numer = -this->numer;
-    this->denom = -this->denom;
+  if (d < 0) {
+    n = -n;
+    d = -d;
+  }
+  int64_t g = n < 0 ? -n : n;
+  for (int64_t b = d; b != 0;) {
+    int64_t r = g % b;
+    g         = b;
+    b         = r;
+  }
+  n /= g;
+  d /= g;
+  if (n < std::numeric_limits<int>::min() ||
+      n > std::numeric_limits<int>::max() ||
+      d > std::numeric_limits<int>::max()) {
+    std::stringstream ss;
+    ss << "rat: overflow.\n";
+    throw spffl::exception_t(ss.str());
   }
-  g = spffl::intmath::int_gcd(this->numer, this->denom);
-  this->numer /= g;
-  this->denom /= g;
+  this->numer = (int)n;
+  this->denom = (int)d;
 }
 
 } // namespace spffl::intmath
diff --git a/spffl/intmath/intrat_t.h b/spffl/intmath/intrat_t.h
index 1e0e85f..9d4c1ed 100644
--- a/spffl/intmath/intrat_t.h
+++ b/spffl/intmath/intrat_t.h
@@ -7,6 +7,7 @@
 #ifndef INTRAT_T_H
 #define INTRAT_T_H
 
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 #include <sstream>
@@ -59,6 +60,7 @@ private:
   int denom;
 
   void simplify();
+  void set_reduced(int64_t n, int64_t d);
 };
 
 } // namespace spffl::intmath
-- 
2.43.0


From c01b4eba36f75aef3003f7c2955db3760d5da730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 14/92] fix: polynomial negation never set the degree of its
 result

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f4bf107..a5fc15a 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -222,6 +222,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 // ----------------------------------------------------------------
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 2225c4e..3fe3bef 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -196,6 +196,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 // ----------------------------------------------------------------
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 968c3db..a290d0f 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -166,6 +166,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 // ----------------------------------------------------------------
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c39c7b8..9b2cd5f 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -165,6 +165,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 // ----------------------------------------------------------------
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
-- 
2.43.0


From 1c78ecd73fdb37d51c56abcc6cd4f7579d63a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 15/92] fix: polynomial self-assignment read freed coefficients

---
 spffl/polynomials/f2n_poly_t.cpp | 3 +++
 spffl/polynomials/fp_poly_t.cpp  | 3 +++
 spffl/polynomials/fpn_poly_t.cpp | 3 +++
 spffl/polynomials/q_poly_t.cpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index a5fc15a..17af115 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -136,6 +136,9 @@ int f2n_poly_t::get_characteristic(void) const { return 2; }
 
 // ----------------------------------------------------------------
 f2n_poly_t &f2n_poly_t::operator=(const f2n_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 3fe3bef..24d17fb 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -126,6 +126,9 @@ int fp_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fp_poly_t &fp_poly_t::operator=(const fp_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index a290d0f..5635cb4 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -96,6 +96,9 @@ int fpn_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t &fpn_poly_t::operator=(const fpn_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 9b2cd5f..4c914c3 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -79,6 +79,9 @@ q_poly_t::~q_poly_t(void) {
 
 // ----------------------------------------------------------------
 q_poly_t &q_poly_t::operator=(const q_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
-- 
2.43.0


From 7051b175c242bbbe8d6fdef56d9060a1e1e637df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 16/92] fix: polynomial operators leaked the coefficients of
 the default-constructed result

---
 spffl/polynomials/f2n_poly_t.cpp | 7 +++++++
 spffl/polynomials/fp_poly_t.cpp  | 8 ++++++++
 spffl/polynomials/fpn_poly_t.cpp | 7 +++++++
 spffl/polynomials/q_poly_t.cpp   | 7 +++++++
 4 files changed, 29 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 17af115..c7b8873 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -157,6 +157,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -166,6 +167,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -193,6 +195,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -202,6 +205,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -226,6 +230,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -237,6 +242,7 @@ f2n_poly_t f2n_poly_t::operator-(void) const {
 f2n_poly_t f2n_poly_t::operator*(const f2n_poly_t &that) const {
   f2n_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
 
   f2_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -367,6 +373,7 @@ void f2n_poly_t::quot_and_rem(
 
   f2n_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new f2_polymod_t[quot.degree + 1];
 
   f2n_poly_t rem = *this;
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 24d17fb..8ee0359 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -89,6 +89,7 @@ fp_poly_t fp_poly_t::from_base_rep(int b, int m) {
     }
   }
 
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = spffl::intmath::intmod_t(b % m, m);
@@ -147,6 +148,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -156,6 +158,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -175,6 +178,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -184,6 +188,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -200,6 +205,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -211,6 +217,7 @@ fp_poly_t fp_poly_t::operator-(void) const {
 fp_poly_t fp_poly_t::operator*(const fp_poly_t &that) const {
   fp_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
 
   spffl::intmath::intmod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -357,6 +364,7 @@ void fp_poly_t::quot_and_rem(
 
   fp_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intmod_t[quot.degree + 1];
 
   fp_poly_t rem = *this;
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 5635cb4..b3e03bd 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -117,6 +117,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -126,6 +127,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -145,6 +147,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -154,6 +157,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -170,6 +174,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -181,6 +186,7 @@ fpn_poly_t fpn_poly_t::operator-(void) const {
 fpn_poly_t fpn_poly_t::operator*(const fpn_poly_t &that) const {
   fpn_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
 
   fp_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -337,6 +343,7 @@ void fpn_poly_t::quot_and_rem(
 
   fpn_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new fp_polymod_t[quot.degree + 1];
 
   fpn_poly_t rem = *this;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 4c914c3..99ddb60 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -100,6 +100,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -109,6 +110,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -136,6 +138,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -145,6 +148,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -169,6 +173,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -180,6 +185,7 @@ q_poly_t q_poly_t::operator-(void) const {
 q_poly_t q_poly_t::operator*(const q_poly_t &that) const {
   q_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
 
   spffl::intmath::intrat_t zero = this->coeffs[0] - this->coeffs[0];
@@ -310,6 +316,7 @@ void q_poly_t::quot_and_rem(
 
   q_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intrat_t[quot.degree + 1];
 
   q_poly_t rem = *this;
-- 
2.43.0


From 0b2795a9a70bfe3224c36aa0f66582859481d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 17/92] fix: polynomial ext_gcd divided by zero on a zero
 argument

---
 spffl/polynomials/f2n_poly_t.cpp | 11 +++++++++++
 spffl/polynomials/fp_poly_t.cpp  | 11 +++++++++++
 spffl/polynomials/fpn_poly_t.cpp | 11 +++++++++++
 spffl/polynomials/q_poly_t.cpp   | 11 +++++++++++
 4 files changed, 44 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index c7b8873..3148193 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -465,6 +465,17 @@ f2n_poly_t f2n_poly_t::ext_gcd(
   f2n_poly_t mprime, nprime, c, q, r, t, qm, qn;
   f2n_poly_t d; // Return value.
 
+  if (*this == 0) {
+    rm = this->prime_subfield_element(0);
+    rn = this->prime_subfield_element(1);
+    return that;
+  }
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   // Initialize
   mprime = this->prime_subfield_element(1);
   rn     = this->prime_subfield_element(1);
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 8ee0359..9a0ce12 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -456,6 +456,17 @@ fp_poly_t fp_poly_t::ext_gcd(
   fp_poly_t mprime, nprime, c, q, r, t, qm, qn;
   fp_poly_t d; // Return value.
 
+  if (*this == 0) {
+    rm = this->prime_subfield_element(0);
+    rn = this->prime_subfield_element(1);
+    return that;
+  }
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   // Initialize
   mprime = this->prime_subfield_element(1);
   rn     = this->prime_subfield_element(1);
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index b3e03bd..cf1a28a 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -435,6 +435,17 @@ fpn_poly_t fpn_poly_t::ext_gcd(
   fpn_poly_t mprime, nprime, c, q, r, t, qm, qn;
   fpn_poly_t d; // Return value.
 
+  if (*this == 0) {
+    rm = this->prime_subfield_element(0);
+    rn = this->prime_subfield_element(1);
+    return that;
+  }
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   // Initialize
   mprime = this->prime_subfield_element(1);
   rn     = this->prime_subfield_element(1);
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 99ddb60..e6f6381 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -401,6 +401,17 @@ q_poly_t q_poly_t::ext_gcd(
   q_poly_t mprime, nprime, c, q, r, t, qm, qn;
   q_poly_t d; // Return value.
 
+  if (*this == 0) {
+    rm = q_poly_t(0);
+    rn = q_poly_t(1);
+    return that;
+  }
+  if (that == 0) {
+    rm = q_poly_t(1);
+    rn = q_poly_t(0);
+    return *this;
+  }
+
   // Initialize
   mprime = q_poly_t(1);
   rn     = q_poly_t(1);
-- 
2.43.0


From 7a763b0216e346c38c2e7864a2dce2143ea19089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 18/92] fix: promoting the zero polynomial left a zero leading
 coefficient

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 3148193..03faf23 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -965,6 +965,7 @@ void f2n_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 9a0ce12..82083e5 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -924,6 +924,7 @@ void fp_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index cf1a28a..f27954f 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -878,6 +878,7 @@ void fpn_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index e6f6381..64e7742 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -814,6 +814,7 @@ void q_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 0466ceeb93c7787d553cbdd4d3fea54fea577a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 19/92] fix: fp_polymod_t times a scalar multiplied the modulus
 instead of the residue

---
 spffl/polynomials/fp_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index 366cf59..4a45519 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -110,7 +110,7 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::operator*(spffl::intmath::intmod_t a) const {
   fp_polymod_t rv(*this);
-  rv.modulus *= a;
+  rv.residue *= a;
   return rv;
 }
 
-- 
2.43.0


From b1bef1d9a53dee5482f322c0bb4519ae392a93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 20/92] fix: multiplying a residue by a negative integer
 ignored the sign

---
 spffl/polynomials/fp_polymod_t.cpp  | 9 +--------
 spffl/polynomials/fpn_polymod_t.cpp | 8 +++-----
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index 4a45519..813291e 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -96,14 +96,7 @@ fp_polymod_t fp_polymod_t::operator*(const fp_polymod_t &that) const {
 fp_polymod_t fp_polymod_t::operator*(int a) const {
   fp_polymod_t rv(*this);
   int p = this->get_characteristic();
-  a %= p;
-  if (a == 0) {
-    rv = rv - rv;
-  } else {
-    for (int i = 1; i < a; i++) {
-      rv += *this;
-    }
-  }
+  rv.residue *= spffl::intmath::intmod_t(a, p);
   return rv;
 }
 
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index a91acec..c52dc17 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -96,11 +96,9 @@ fpn_polymod_t fpn_polymod_t::operator*(const fpn_polymod_t &that) const {
 
 // ----------------------------------------------------------------
 fpn_polymod_t fpn_polymod_t::operator*(int a) const {
-  // xxx get the characteristic and reduce a mod that.
-  fpn_polymod_t rv = *this - *this;
-  for (int i = 0; i < a; i++) {
-    rv += *this;
-  }
+  fpn_polymod_t rv(*this);
+  rv.residue =
+      rv.residue * spffl::intmath::intmod_t(a, this->get_characteristic());
   return rv;
 }
 
-- 
2.43.0


From 3286e0bf18b1fa2fe62b914cbc7d4c64e84bb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 21/92] fix: fpn_poly_t::pth_root always threw, and did not
 take roots of coefficients

---
 spffl/polynomials/fpn_poly_t.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index f27954f..1b814c0 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -541,16 +541,22 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   fp_poly_t m       = this->coeffs[0].get_modulus();
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   int si, di, j;
-  fpn_poly_t out;
+  fpn_poly_t out(*this);
   int p = this->get_characteristic();
+  int n = m.find_degree();
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
   for (si = 0, di = 0; si <= this->degree; si += p, di++) {
+    // The pth root of a coefficient is its Frobenius image, n-1 times over.
     out.coeffs[di] = this->coeffs[si];
+    if (out.coeffs[di] != zero) {
+      for (j = 1; j < n; j++) {
+        out.coeffs[di] = out.coeffs[di].exp(p);
+      }
+    }
     for (j = 1; j < p; j++) {
       if (si + j > this->degree) {
         break;
-- 
2.43.0


From 1aa4300e5af280ddcbe837947d6f6466998d6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 22/92] fix: f2n_poly_t::square_root overflowed its exponent in
 large fields

---
 spffl/polynomials/f2n_poly_t.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 03faf23..c9e5c1e 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -581,8 +581,7 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   f2_polymod_t zero(0, m);
   int si, di;
   f2n_poly_t out;
-  int n   = m.find_degree();
-  int pow = 1 << (n - 1);
+  int n = m.find_degree();
 
   out.set_coeff(this->degree, zero);
   for (di = this->degree - 1; di >= 0; di--) {
@@ -590,7 +589,11 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   }
 
   for (si = 0, di = 0; si <= this->degree; si += 2, di++) {
-    out.coeffs[di] = this->coeffs[si].exp(pow);
+    // Squaring n-1 times over is the inverse of squaring.
+    out.coeffs[di] = this->coeffs[si];
+    for (int j = 1; j < n; j++) {
+      out.coeffs[di] *= out.coeffs[di];
+    }
     if (si + 1 > this->degree) {
       break;
     }
-- 
2.43.0


From 3311d16fb8683959fd0abbbffb1b867512665b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:09 +0000
Subject: [PATCH 23/92] fix: polynomial from_string left dangling coefficients
 and leaked on bad input

---
 spffl/polynomials/f2n_poly_t.cpp | 42 +++++++++++--------------
 spffl/polynomials/fp_poly_t.cpp  | 54 ++++++++++++--------------------
 spffl/polynomials/fpn_poly_t.cpp | 42 +++++++++++--------------
 spffl/polynomials/q_poly_t.cpp   | 54 ++++++++++++--------------------
 4 files changed, 76 insertions(+), 116 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index c9e5c1e..63bac34 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -907,9 +908,7 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  std::vector<f2_polymod_t> scanned; // Leading coefficient first.
 
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -918,36 +917,31 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
     }
   }
 
-  // TODO: more use of std::string methods
-  char *dup   = strdup(string.c_str());
-  char **argv = new char *[num_colons + 1];
-  int argc    = spffl::base::tokenize(dup, ":", argv, num_colons + 1);
-  if (argc < 1) {
-    // Needs an error message, but this coding error is
-    // unlikely since we already counted colons.
-    return false;
-  }
-
-  this->degree = argc - 1;
-  this->coeffs = new f2_polymod_t[this->degree + 1];
-  int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  std::string dup = string;
+  std::vector<char *> argv(num_colons + 1);
+  int argc =
+      spffl::base::tokenize(dup.data(), ":", argv.data(), num_colons + 1);
+  for (int argi = 0; argi < argc; argi++) {
     // Scan each coefficient, then reduce mod m
     f2_poly_t r;
 
     std::istringstream iss(argv[argi], std::ios_base::in);
     iss >> r;
     if (iss.fail()) {
-      std::stringstream ss;
-      ss << "f2n_poly_t::from_string: "
-         << "scan failure at \"" << string << "\"\n";
       return false;
-    } else {
-      this->coeffs[ci] = f2_polymod_t(r, m);
     }
+    scanned.push_back(f2_polymod_t(r, m));
+  }
+
+  if (scanned.empty()) {
+    return false;
+  }
+  delete[] this->coeffs;
+  this->degree = (int)scanned.size() - 1;
+  this->coeffs = new f2_polymod_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
   }
-  delete[] argv;
-  free(dup);
 
   this->recompute_degree();
   return true;
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 82083e5..46256af 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -844,9 +845,7 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fp_poly_t::from_string(const std::string &string, int p) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  std::vector<spffl::intmath::intmod_t> scanned; // Leading coefficient first.
 
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -858,51 +857,38 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
   if ((num_commas == 0) && (p < 10)) {
     // Allow comma-free input as long as all residues are
     // single-digit.
-    int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
-    int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
-      char ascii_digit = string[si];
+    for (char ascii_digit : string) {
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
-        std::stringstream ss;
-        ss << "fp_poly_t::from_string: "
-           << "non-numerical input \"" << string << "\"\n";
-        ss << "Didn't like '" << ascii_digit << "'\n";
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
+      scanned.push_back(spffl::intmath::intmod_t(ascii_digit - '0', p));
     }
   } else {
-    char *dup   = strdup(string.c_str());
-    char **argv = new char *[num_commas + 1];
-    int argc    = spffl::base::tokenize(dup, ",", argv, num_commas + 1);
-    if (argc < 1) {
-      // Needs an error message, but this coding error is
-      // unlikely since we already counted commas.
-      return false;
-    }
-
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
-    int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    std::string dup = string;
+    std::vector<char *> argv(num_commas + 1);
+    int argc =
+        spffl::base::tokenize(dup.data(), ",", argv.data(), num_commas + 1);
+    for (int argi = 0; argi < argc; argi++) {
       // Scan each coefficient, then reduce mod p
       int r;
 
       std::istringstream iss(argv[argi], std::ios_base::in);
       iss >> r;
       if (iss.fail()) {
-        std::stringstream ss;
-        ss << "fp_poly_t::from_string: "
-           << "scan failure at \"" << string << "\"\n";
         return false;
-      } else {
-        this->coeffs[ci] = spffl::intmath::intmod_t(r, p);
       }
+      scanned.push_back(spffl::intmath::intmod_t(r, p));
     }
-    delete[] argv;
-    free(dup);
+  }
+
+  if (scanned.empty()) {
+    return false;
+  }
+  delete[] this->coeffs;
+  this->degree = (int)scanned.size() - 1;
+  this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
   }
 
   this->recompute_degree();
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 1b814c0..7c04fc3 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -10,6 +10,7 @@
 #include "spffl/base/tokenize.h"
 
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -823,9 +824,7 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  std::vector<fp_polymod_t> scanned; // Leading coefficient first.
 
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -834,36 +833,31 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
     }
   }
 
-  // TODO: more use of std::string methods
-  char *dup   = strdup(string.c_str());
-  char **argv = new char *[num_colons + 1];
-  int argc    = spffl::base::tokenize(dup, ":", argv, num_colons + 1);
-  if (argc < 1) {
-    // Needs an error message, but this coding error is
-    // unlikely since we already counted colons.
-    return false;
-  }
-
-  this->degree = argc - 1;
-  this->coeffs = new fp_polymod_t[this->degree + 1];
-  int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  std::string dup = string;
+  std::vector<char *> argv(num_colons + 1);
+  int argc =
+      spffl::base::tokenize(dup.data(), ":", argv.data(), num_colons + 1);
+  for (int argi = 0; argi < argc; argi++) {
     // Scan each coefficient, then reduce mod m
     fp_poly_t r = m; // Set modulus
 
     std::istringstream iss(argv[argi], std::ios_base::in);
     iss >> r;
     if (iss.fail()) {
-      std::stringstream ss;
-      ss << "fpn_poly_t::from_string: "
-         << "scan failure at \"" << string << "\"\n";
       return false;
-    } else {
-      this->coeffs[ci] = fp_polymod_t(r, m);
     }
+    scanned.push_back(fp_polymod_t(r, m));
+  }
+
+  if (scanned.empty()) {
+    return false;
+  }
+  delete[] this->coeffs;
+  this->degree = (int)scanned.size() - 1;
+  this->coeffs = new fp_polymod_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
   }
-  delete[] argv;
-  free(dup);
 
   this->recompute_degree();
   return true;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 64e7742..8f8e978 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -11,6 +11,7 @@
 #include "spffl/intmath/intrat_t.h"
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -734,9 +735,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool q_poly_t::from_string(const std::string &string) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  std::vector<spffl::intmath::intrat_t> scanned; // Leading coefficient first.
 
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -748,51 +747,38 @@ bool q_poly_t::from_string(const std::string &string) {
   if (num_commas == 0) {
     // Allow comma-free input as long as all residues are
     // single-digit.
-    int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
-    int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
-      char ascii_digit = string[si];
+    for (char ascii_digit : string) {
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
-        std::stringstream ss;
-        ss << "q_poly_t::from_string: "
-           << "non-numerical input \"" << string << "\"\n";
-        ss << "Didn't like '" << ascii_digit << "'\n";
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
+      scanned.push_back(spffl::intmath::intrat_t(ascii_digit - '0'));
     }
   } else {
-    char *dup   = strdup(string.c_str());
-    char **argv = new char *[num_commas + 1];
-    int argc    = spffl::base::tokenize(dup, ",", argv, num_commas + 1);
-    if (argc < 1) {
-      // Needs an error message, but this coding error is
-      // unlikely since we already counted commas.
-      return false;
-    }
-
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
-    int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    std::string dup = string;
+    std::vector<char *> argv(num_commas + 1);
+    int argc =
+        spffl::base::tokenize(dup.data(), ",", argv.data(), num_commas + 1);
+    for (int argi = 0; argi < argc; argi++) {
       // Scan each coefficient.
       int r;
 
       std::istringstream iss(argv[argi], std::ios_base::in);
       iss >> r;
       if (iss.fail()) {
-        std::stringstream ss;
-        ss << "q_poly_t::from_string: "
-           << "scan failure at \"" << string << "\"\n";
         return false;
-      } else {
-        this->coeffs[ci] = spffl::intmath::intrat_t(r);
       }
+      scanned.push_back(spffl::intmath::intrat_t(r));
     }
-    delete[] argv;
-    free(dup);
+  }
+
+  if (scanned.empty()) {
+    return false;
+  }
+  delete[] this->coeffs;
+  this->degree = (int)scanned.size() - 1;
+  this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
   }
 
   this->recompute_degree();
-- 
2.43.0


From 8890b04f409db6d014736184dc522cb75df11e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:09 +0000
Subject: [PATCH 24/92] fix: q_poly_t could not read back the signs and
 fractions it prints

---
 spffl/polynomials/q_poly_t.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 8f8e978..4654ad9 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -711,7 +711,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
     return is;
   }
 
-  while (isdigit(c) || (c == ',')) {
+  while (isdigit(c) || (c == ',') || (c == '-') || (c == '/')) {
     c = is.get();
     ss << c;
     c = is.peek();
@@ -744,7 +744,7 @@ bool q_poly_t::from_string(const std::string &string) {
     }
   }
 
-  if (num_commas == 0) {
+  if ((num_commas == 0) && (string.find_first_of("-/") == std::string::npos)) {
     // Allow comma-free input as long as all residues are
     // single-digit.
     for (char ascii_digit : string) {
@@ -760,14 +760,12 @@ bool q_poly_t::from_string(const std::string &string) {
         spffl::base::tokenize(dup.data(), ",", argv.data(), num_commas + 1);
     for (int argi = 0; argi < argc; argi++) {
       // Scan each coefficient.
-      int r;
+      spffl::intmath::intrat_t r;
 
-      std::istringstream iss(argv[argi], std::ios_base::in);
-      iss >> r;
-      if (iss.fail()) {
+      if (!r.from_string(argv[argi])) {
         return false;
       }
-      scanned.push_back(spffl::intmath::intrat_t(r));
+      scanned.push_back(r);
     }
   }
 
-- 
2.43.0


From c0e8eef35e60eabe4d6f15610ae9307d494169d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:37 +0000
Subject: [PATCH 25/92] fix: intrat_t input cleared the failure of a missing
 numerator

---
 spffl/intmath/intrat_t.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 5317626..761bb49 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -189,6 +189,9 @@ std::istream &operator>>(std::istream &is, intrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = 1;
   }
@@ -222,6 +225,9 @@ std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = 1;
   } else if (iss.peek() == '/') {
-- 
2.43.0


From e04b5fe2a863f01939c2a55cdc54d8ed2f51679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 26/92] fix: bit_t assignment from int kept more than the low
 bit

---
 spffl/bits/bit_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f13f82e..f8efa0a 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -38,7 +38,7 @@ public:
   }
 
   bit_t &operator=(int e) {
-    this->residue = e;
+    this->residue = e & 1;
     return *this;
   }
 
-- 
2.43.0


From 726cb411de56251996bc047e18bdae15c638dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 27/92] fix: bit_t::exp answered 0 for zero to a negative power

---
 spffl/bits/bit_t.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f8efa0a..4b998fb 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -62,7 +62,14 @@ public:
     return rv;
   }
 
-  bit_t exp(int power) { return *this; }
+  bit_t exp(int power) {
+    if (this->residue == 0 && power < 0) {
+      std::stringstream ss;
+      ss << "bit_t::exp:  division by zero.\n";
+      throw spffl::exception_t(ss.str());
+    }
+    return *this;
+  }
 
   bit_t operator/(bit_t that) {
     if (that.residue == 0) {
-- 
2.43.0


From 00b072a065d51c3be37d4e43e5b99d29ed50ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 28/92] fix: bit_vector_t assignment to a shorter vector
 overran its buffer

---
 spffl/bits/bit_vector_t.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 42d568d..9731399 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -82,8 +82,11 @@ bit_vector_t::bit_vector_t(int scalar, int init_num_elements) {
 bit_vector_t::bit_vector_t(const bit_vector_t &that) {
   this->num_bits  = that.num_bits;
   this->num_words = that.num_words;
-  this->words     = new uint64_t[that.num_words];
-  memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
+  this->words     = 0;
+  if (that.num_words) {
+    this->words = new uint64_t[that.num_words];
+    memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
+  }
 }
 
 // ----------------------------------------------------------------
@@ -98,15 +101,18 @@ bit_vector_t::~bit_vector_t(void) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
+  if (this == &that) {
+    return *this;
+  }
+  if (this->num_words != that.num_words) {
+    delete[] this->words;
+    this->words = that.num_words ? new uint64_t[that.num_words] : 0;
+  }
   this->num_bits  = that.num_bits;
   this->num_words = that.num_words;
-  if (this->words == 0) {
-    this->words = new uint64_t[that.num_words];
-  } else if (this->num_words < that.num_words) {
-    delete[] this->words;
-    this->words = new uint64_t[that.num_words];
+  if (that.num_words) {
+    memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
   }
-  memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
   return *this;
 }
 
-- 
2.43.0


From c39789b89634addaedca5bc457b258a7a4d8b0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 29/92] fix: bit_vector_t comparisons ignored the last word

---
 spffl/bits/bit_vector_t.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 9731399..33f8f0a 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -343,7 +343,7 @@ bool bit_vector_t::operator==(const bit_vector_t &that) const {
   if (this->num_bits != that.num_bits) {
     return false;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
     if (this->words[i] != that.words[i]) {
       return false;
     }
@@ -358,12 +358,8 @@ bool bit_vector_t::operator!=(const bit_vector_t &that) const {
 
 // ----------------------------------------------------------------
 bool bit_vector_t::operator==(const bit_t &scalar) const {
-  uint64_t fill = 0;
-  if (scalar == bit_t(1)) {
-    fill = ~fill;
-  }
-  for (int i = 0; i < this->num_words - 1; i++) {
-    if (this->words[i] != fill) {
+  for (int i = 0; i < this->num_bits; i++) {
+    if (GET_BIT(this->words, i) != scalar.get_residue()) {
       return false;
     }
   }
-- 
2.43.0


From fa565dd9abdc431f24186460fa58a1c5ba12dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 30/92] fix: bit_vector_t::trim used int shifts and cleared or
 kept the wrong bits

---
 spffl/bits/bit_vector_t.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 33f8f0a..fa3f189 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -414,9 +414,7 @@ void bit_vector_t::trim(void) {
   if (num_dribble_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &=
-      ((1 << (BITS_PER_WORD - num_dribble_bits)) - 1)
-      << (BITS_PER_WORD - this->num_bits);
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 9f5cfa2079367f34f4904685a93efe17b91d70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 31/92] fix: bit_vector_t += and -= did not check the lengths

---
 spffl/bits/bit_vector_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index fa3f189..269bcd5 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -311,12 +311,14 @@ bit_t bit_vector_t::dot(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t bit_vector_t::operator+=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
   return *this;
 }
 bit_vector_t bit_vector_t::operator-=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
-- 
2.43.0


From 864bd676f86e65e5cd7f6c3931709db5f4655bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 32/92] fix: bit_vector_t filled from an odd int other than 1
 was zero

---
 spffl/bits/bit_vector_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 269bcd5..10b79fc 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -69,7 +69,7 @@ bit_vector_t::bit_vector_t(int scalar, int init_num_elements) {
   this->num_words = NWORDS_FROM_NBITS(this->num_bits);
   this->words     = new uint64_t[this->num_words];
   uint64_t fill   = 0;
-  if (scalar == 1) {
+  if (scalar & 1) {
     fill = ~fill;
   }
   for (int i = 0; i < this->num_words; i++) {
-- 
2.43.0


From 664a15b755c53f00ebfbc0c253aee782961f187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 33/92] fix: bit_matrix_t::paste always threw, and with it
 inverse and exp

---
 spffl/bits/bit_matrix_t.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 1b51833..a87ce49 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -869,11 +869,11 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
-    rv.rows[i] = this->rows[i];
-  }
-  for (i = 0; i < this->num_rows; i++) {
+    for (j = 0; j < this->num_cols; j++) {
+      rv.rows[i].set(j, this->rows[i].get(j));
+    }
     for (j = 0; j < that.num_cols; j++) {
-      rv.rows[i].set(this->num_rows + j, that.rows[i].get(j));
+      rv.rows[i].set(this->num_cols + j, that.rows[i].get(j));
     }
   }
 
-- 
2.43.0


From fd40f2f2f3670224cc0d152e25c52c522972a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 34/92] fix: bit_matrix_t::outer indexed an empty matrix

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index a87ce49..251a6be 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -500,7 +500,7 @@ bit_matrix_t &bit_matrix_t::operator*=(const bit_matrix_t &that) {
 bit_matrix_t bit_matrix_t::outer(const bit_vector_t &u, const bit_vector_t &v) {
   int m = u.get_num_elements();
   int n = v.get_num_elements();
-  bit_matrix_t rv;
+  bit_matrix_t rv(m, n);
   for (int i = 0; i < m; i++) {
     for (int j = 0; j < n; j++) {
       rv[i].set(j, u.get(i) * v.get(j));
-- 
2.43.0


From e48a40890ddd05b1f041a1fb60850b2545ab19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 35/92] fix: bit_matrix_t row reduction leaked its row pointers

---
 spffl/bits/bit_matrix_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 251a6be..8843121 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -696,6 +696,7 @@ void bit_matrix_t::row_reduce_below_with_scalar(bit_t &s) {
     left_column++;
     top_row++;
   }
+  delete[] ptrs;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From e6b90553d3937f775a951cd6970f25b86a61206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 36/92] fix: tvector assignment to a shorter vector overran its
 buffer

---
 spffl/containers/tvector.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 7e309e3..76fe908 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -95,13 +95,14 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const tvector<element_type> &that) {
-    this->num_elements = that.num_elements;
-    if (this->elements == 0) {
-      this->elements = new element_type[that.num_elements];
-    } else if (this->num_elements < that.num_elements) {
+    if (this == &that) {
+      return *this;
+    }
+    if ((this->elements == 0) || (this->num_elements < that.num_elements)) {
       delete[] this->elements;
       this->elements = new element_type[that.num_elements];
     }
+    this->num_elements = that.num_elements;
     for (int i = 0; i < that.num_elements; i++) {
       this->elements[i] = that.elements[i];
     }
-- 
2.43.0


From 316457c12639809308789c46f28e2bbd50c5d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 37/92] fix: scaling a tvector by one of its own elements
 changed the scalar midway

---
 spffl/containers/tvector.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 76fe908..ca8187a 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -374,14 +374,13 @@ public:
     return *this;
   }
   tvector<element_type> operator*=(const element_type &e) {
-    for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
-    }
+    this->mult_by(e);
     return *this;
   }
   void mult_by(const element_type &e) {
+    element_type s = e; // The scalar may be one of the elements.
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
+      this->elements[i] *= s;
     }
   }
   tvector<element_type> operator*=(const tvector<element_type> &that) {
@@ -392,8 +391,9 @@ public:
     return *this;
   }
   tvector<element_type> operator/=(const element_type &e) {
+    element_type s = e; // The scalar may be one of the elements.
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] /= e;
+      this->elements[i] /= s;
     }
     return *this;
   }
-- 
2.43.0


From e1ce486996dfaf68da07fc9236f24208ee0d7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 38/92] fix: vector input rejected lines longer than a fixed
 buffer

---
 spffl/bits/bit_vector_t.cpp | 5 +++--
 spffl/containers/tvector.h  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 10b79fc..69206fd 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -8,6 +8,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/bits/count_bits.h"
 #include "spffl/intmath/log2.h"
+#include <string>
 #include <string.h>
 
 namespace spffl::bits {
@@ -154,8 +155,8 @@ std::ostream &operator<<(std::ostream &os, const bit_vector_t &v) {
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_vector_t &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index ca8187a..e926cf0 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -11,6 +11,7 @@
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <string>
 #include <string.h>
 template <class element_type> class tvector;
 template <class element_type> class tmatrix;
@@ -537,8 +538,8 @@ static std::ostream &operator<<(
 template <class element_type>
 static std::istream &operator>>(std::istream &is, tvector<element_type> &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
-- 
2.43.0


From 27d9700c468d0df23190b73d0564d3c404e32ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 39/92] fix: tmatrix::paste put the right part at the wrong
 column for non-square matrices

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 89da174..0190acc 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1317,7 +1317,7 @@ public:
     }
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
-        rv.rows[i][this->num_rows + j] = that.rows[i][j];
+        rv.rows[i][this->num_cols + j] = that.rows[i][j];
       }
     }
 
-- 
2.43.0


From c846bd152d3c60b39bdf67b2b6271a4c534bce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 40/92] fix: tmatrix input overran its line buffer on indented
 input, and dropped an unterminated last row

---
 spffl/containers/tmatrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 0190acc..5000a4c 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1712,6 +1712,7 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
 
   while (1) {
     if (is.eof()) {
+      is.clear();
       break;
     }
 
@@ -1725,9 +1726,10 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
       m.rows = ptemp;
     }
 
-    // Read a line of text.
+    // Read a line of text.  The last one may lack its newline.
+    pline = line;
     is.getline(pline, tmx_buf_size);
-    if (is.eof()) {
+    if (is.eof() && (pline[0] == 0)) {
       is.clear();
       break;
     } else if (is.fail()) {
-- 
2.43.0


From 3f9852b2d6f5c71e9679912d526f9ae1a725c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 41/92] fix: tmatrix row reduction leaked its row pointers when
 a division was refused

---
 spffl/containers/tmatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 5000a4c..8d682ef 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -13,6 +13,7 @@
 #include "spffl/containers/tvector.h"
 #include "spffl/intmath/int_gcd.h"
 #include <limits>
+#include <memory>
 #include <iostream>
 #include <stdlib.h>
 #include <string.h>
@@ -914,6 +915,7 @@ public:
       return; // Zero matrix; already done.
     }
     element_type **ptrs = this->expose();
+    std::unique_ptr<element_type *[]> ptrs_owner(ptrs);
     element_type *temp;
 
     minus_one = zero - one;
@@ -972,7 +974,6 @@ public:
       left_column++;
       top_row++;
     }
-    delete[] ptrs;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From cafd7593a2e3a8dd36647ee11dd09d04440ec74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 42/92] fix: tstack assignment did not return, and freed its
 own elements on self-assignment

---
 spffl/containers/tstack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tstack.h b/spffl/containers/tstack.h
index f0a0804..350974a 100644
--- a/spffl/containers/tstack.h
+++ b/spffl/containers/tstack.h
@@ -46,6 +46,9 @@ public:
 
   // ----------------------------------------------------------------
   tstack<element_type> &operator=(const tstack<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements != 0) {
       delete[] this->elements;
     }
@@ -55,6 +58,7 @@ public:
     for (int i = 0; i < that.freeidx; i++) {
       this->elements[i] = that.elements[i];
     }
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From b9308dac91bf0a80fc517115b7b051d49312cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 43/92] fix: tfacinfo assignment did not return, and freed its
 own factors on self-assignment

---
 spffl/containers/tfacinfo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index 097db97..eb8e76e 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -65,6 +65,9 @@ public:
 
   // ----------------------------------------------------------------
   tfacinfo<element_type> &operator=(const tfacinfo<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->pfactors_and_counts) {
       delete[] this->pfactors_and_counts;
     }
@@ -77,6 +80,7 @@ public:
     }
     this->have_unit = that.have_unit;
     this->unit      = that.unit;
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From f931f718ee6a6f7664db916b4b94bfe752f59c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 44/92] fix: tfacinfo leaked its old factors when it grew

---
 spffl/containers/tfacinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index eb8e76e..a65e741 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -237,6 +237,7 @@ public:
       for (int i = 0; i < this->num_distinct; i++) {
         this->pfactors_and_counts[i] = temp[i];
       }
+      delete[] temp;
     }
 
     // Insert a new factor.  The find() method has returned the correct
-- 
2.43.0


From edcf730a2bfedc762ec3262ceecaba7bbb579728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 45/92] fix: tfacinfo::tf_exp squared once too often and
 overflowed for integers

---
 spffl/containers/tfacinfo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a65e741..f761ca9 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -302,7 +302,9 @@ public:
         rv *= xp;
       }
       e = (unsigned)e >> 1;
-      xp *= xp;
+      if (e != 0) {
+        xp *= xp;
+      }
     }
 
     return rv;
-- 
2.43.0


From f8cb94b8306b0eaee94ab561e69990678ce37fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 46/92] fix: tmatrix::exp squared once too often and overflowed
 over the rationals

---
 spffl/containers/tmatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 8d682ef..05ff4a2 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -551,7 +551,9 @@ private:
         apower *= a2;
       }
       power = (unsigned)power >> 1;
-      a2 *= a2;
+      if (power != 0) {
+        a2 *= a2;
+      }
     }
     return apower;
   }
-- 
2.43.0


From e937782ea471bae67a07c2595a58d2a7fbdf1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 47/92] fix: matrix row swap did not check its row indices

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 spffl/containers/tmatrix.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 8843121..a7e96cf 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -601,7 +601,7 @@ uint64_t **bit_matrix_t::expose(void) const {
 
 // ----------------------------------------------------------------
 void bit_matrix_t::swap(int arow, int brow) {
-  this->rows[arow].ptrswap(this->rows[brow]);
+  (*this)[arow].ptrswap((*this)[brow]);
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 05ff4a2..b13ec82 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -864,7 +864,7 @@ public:
   }
 
   // ----------------------------------------------------------------
-  void swap(int arow, int brow) { this->rows[arow].ptrswap(this->rows[brow]); }
+  void swap(int arow, int brow) { (*this)[arow].ptrswap((*this)[brow]); }
 
   // ----------------------------------------------------------------
   // This is a general row-reduction method.  It operates on the matrix
-- 
2.43.0


From 7637fb225c28de0213143aac7f5eb56983a06186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 48/92] fix: bit_matrix_t input leaked, kept stale rows, and
 lost long lines, comments and an unterminated last row

---
 spffl/bits/bit_matrix_t.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index a7e96cf..58451ae 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -7,7 +7,9 @@
 #include "spffl/bits/bit_matrix_t.h"
 #include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
+#include <ctype.h>
 #include <limits>
+#include <string>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -196,14 +198,16 @@ std::ostream &operator<<(std::ostream &os, const bit_matrix_t &m) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
-  char line[8192];
+  std::string text;
   const int init_num_rows = 40;
   const int more_num_rows = 40;
   int alloc_num_rows      = init_num_rows;
-  m.rows                  = new bit_vector_t[init_num_rows];
+  m.mfree();
+  m.rows = new bit_vector_t[init_num_rows];
 
   while (1) {
     if (is.eof()) {
+      is.clear();
       break;
     }
 
@@ -217,9 +221,9 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
       m.rows = ptemp;
     }
 
-    // Read a line of text.
-    is.getline(line, sizeof(line));
-    if (is.eof()) {
+    // Read a line of text.  The last one may lack its newline.
+    std::getline(is, text);
+    if (is.eof() && text.empty()) {
       is.clear();
       break;
     } else if (is.fail()) {
@@ -227,10 +231,13 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
     }
 
     // Allow comments.
-    char *phash = strstr(line, "#");
-    if (phash) {
-      *phash = 0;
+    text = text.substr(0, text.find('#'));
+
+    // Strip trailing whitespace.
+    while (!text.empty() && isspace((unsigned char)text.back())) {
+      text.pop_back();
     }
+    char *line = text.data();
 
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
-- 
2.43.0


From 31b0e95f2f6d6a1f340edaae32c2c7e558a3cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 49/92] fix: bracketed vector and matrix input ignored text
 outside the brackets

---
 spffl/containers/tmatrix.h | 7 ++++---
 spffl/containers/tvector.h | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index b13ec82..928a9c4 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -195,8 +195,8 @@ public:
     this->mfree();
 
     char *copy       = strdup(string);
-    char *pouterleft = strchr(copy, '[');
-    if (pouterleft == 0) {
+    char *pouterleft = copy + strspn(copy, " \t\n");
+    if (*pouterleft != '[') {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find leading left bracket.\n";
       free(copy);
@@ -208,7 +208,8 @@ public:
     }
 
     char *pouterright = strrchr(pouterleft, ']');
-    if (pouterright == 0) {
+    if ((pouterright == 0) ||
+        (pouterright[1 + strspn(pouterright + 1, " \t\n")] != 0)) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find trailing right bracket.\n";
       free(copy);
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index e926cf0..8575eda 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -142,15 +142,15 @@ public:
   bool bracket_in(char *string) {
     char *copy = strdup(string);
 
-    char *pleft = strchr(copy, '[');
-    if (pleft == 0) {
+    char *pleft = copy + strspn(copy, " \t\n");
+    if (*pleft != '[') {
       free(copy);
       return false;
     }
     pleft++;
 
     char *pright = strrchr(pleft, ']');
-    if (pright == 0) {
+    if ((pright == 0) || (pright[1 + strspn(pright + 1, " \t\n")] != 0)) {
       free(copy);
       return false;
     }
-- 
2.43.0


From dc66979bce61ff59ac7162d36b1ff820b04b07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 50/92] fix: rational function input cleared the failure of a
 missing numerator

---
 spffl/rationals/f2_polyrat_t.cpp  | 6 ++++++
 spffl/rationals/f2n_polyrat_t.cpp | 6 ++++++
 spffl/rationals/fp_polyrat_t.cpp  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index 940ab13..cdb13c6 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -205,6 +205,9 @@ std::istream &operator>>(std::istream &is, f2_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = 1;
   }
@@ -238,6 +241,9 @@ std::istringstream &operator>>(std::istringstream &iss, f2_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = 1;
   } else if (iss.peek() == '/') {
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c8ad16f..0c97fca 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -201,6 +201,9 @@ std::istream &operator>>(std::istream &is, f2n_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   }
@@ -234,6 +237,9 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   } else if (iss.peek() == '/') {
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index e76ef14..c1e0577 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -201,6 +201,9 @@ std::istream &operator>>(std::istream &is, fp_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   }
@@ -234,6 +237,9 @@ std::istringstream &operator>>(std::istringstream &iss, fp_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   } else if (iss.peek() == '/') {
-- 
2.43.0


From c17202c0594dbfef6456650259c9fb4246768ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 51/92] fix: rational functions with equal value could have
 different denominators

---
 spffl/rationals/f2n_polyrat_t.cpp | 6 ++++++
 spffl/rationals/fp_polyrat_t.cpp  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index 0c97fca..3683553 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -360,6 +360,7 @@ spffl::polynomials::f2n_poly_t f2n_polyrat_t::get_denominator(void) const {
 // ----------------------------------------------------------------
 // * Check denominator != 0
 // * Divide numerator and denominator by their GCD
+// * Make the denominator monic
 
 void f2n_polyrat_t::simplify(void) {
   spffl::polynomials::f2n_poly_t g;
@@ -371,6 +372,11 @@ void f2n_polyrat_t::simplify(void) {
   g = this->numer.gcd(this->denom);
   this->numer /= g;
   this->denom /= g;
+
+  // The GCD is only determined up to a scalar:  make the denominator monic.
+  spffl::polynomials::f2_polymod_t lead = this->denom.get_coeff(this->denom.find_degree());
+  this->numer /= lead;
+  this->denom /= lead;
 }
 
 } // namespace spffl::rationals
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index c1e0577..ab7dfb6 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -357,6 +357,7 @@ spffl::polynomials::fp_poly_t fp_polyrat_t::get_denominator(void) const {
 // ----------------------------------------------------------------
 // * Check denominator != 0
 // * Divide numerator and denominator by their GCD
+// * Make the denominator monic
 
 void fp_polyrat_t::simplify(void) {
   spffl::polynomials::fp_poly_t g;
@@ -368,6 +369,11 @@ void fp_polyrat_t::simplify(void) {
   g = this->numer.gcd(this->denom);
   this->numer /= g;
   this->denom /= g;
+
+  // The GCD is only determined up to a scalar:  make the denominator monic.
+  spffl::intmath::intmod_t lead = this->denom.get_coeff(this->denom.find_degree());
+  this->numer /= lead;
+  this->denom /= lead;
 }
 
 } // namespace spffl::rationals
-- 
2.43.0


From 32ef3dfff5265234f220c06547f027dc20d933ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 52/92] fix: discrete logarithms leaked their tables when no
 logarithm was found

---
 spffl/units/f2_polymod_units.cpp  | 11 +++++------
 spffl/units/f2n_polymod_units.cpp | 11 +++++------
 spffl/units/fp_units.cpp          | 11 +++++------
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index a7ffc99..94a6578 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -13,6 +13,7 @@
 #include "spffl/factorization/int_factor.h"
 #include "spffl/intmath/int_sqrt.h"
 #include "spffl/random/f2_poly_random.h"
+#include <vector>
 
 namespace spffl::units {
 
@@ -230,8 +231,8 @@ int f2_polymod_log( // Log base g of a.
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
+  std::vector<poly_and_index_t> agni(k);
+  std::vector<poly_and_index_t> gkj(k);
 
   spffl::polynomials::f2_polymod_t ginv;
   if (!g.recip(ginv)) {
@@ -257,8 +258,8 @@ int f2_polymod_log( // Log base g of a.
     gkj[j].idx = j;
   }
 
-  qsort(agni, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  qsort(gkj, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
+  qsort(agni.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
+  qsort(gkj.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
 
   for (i = 0, j = 0; i < k && j < k;) {
     if (agni[i].elt == gkj[j].elt) {
@@ -279,8 +280,6 @@ int f2_polymod_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  delete[] agni;
-  delete[] gkj;
   return rv;
 }
 
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index a48abaf..9d7d410 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -11,6 +11,7 @@
 #include "spffl/factorization/f2n_poly_totient.h"
 #include "spffl/factorization/int_factor.h"
 #include "spffl/intmath/int_sqrt.h"
+#include <vector>
 
 namespace spffl::units {
 
@@ -132,8 +133,8 @@ int f2n_polymod_log( // Log base g of a.
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
+  std::vector<poly_and_index_t> agni(k);
+  std::vector<poly_and_index_t> gkj(k);
 
   spffl::polynomials::f2n_polymod_t ginv;
   if (!g.recip(ginv)) {
@@ -165,8 +166,8 @@ int f2n_polymod_log( // Log base g of a.
     std::cout << "gk[" << j << "]  = " << gkj[j].elt << "\n";
   }
 
-  qsort(agni, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  qsort(gkj, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
+  qsort(agni.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
+  qsort(gkj.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
   for (j = 0; j < k; j++) {
     std::cout << "-- agni[" << j << "] = " << agni[j].elt << " gk[" << j
               << "] = " << gkj[j].elt << "\n";
@@ -194,8 +195,6 @@ int f2n_polymod_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  delete[] agni;
-  delete[] gkj;
   return rv;
 }
 
diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index b1c5fd6..0b94807 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -12,6 +12,7 @@
 #include "spffl/intmath/int_gcd.h"
 #include "spffl/intmath/int_sqrt.h"
 #include "spffl/intmath/int_totient.h"
+#include <vector>
 
 namespace spffl::units {
 
@@ -111,8 +112,8 @@ int fp_log( // Log base g of a.
   // xxx check gcd(g, p)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
+  std::vector<poly_and_index_t> agni(k);
+  std::vector<poly_and_index_t> gkj(k);
 
   spffl::intmath::intmod_t ginv;
   if (!g.recip(ginv)) {
@@ -138,8 +139,8 @@ int fp_log( // Log base g of a.
     gkj[j].idx = j;
   }
 
-  qsort(agni, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  qsort(gkj, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
+  qsort(agni.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
+  qsort(gkj.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
 
   for (i = 0, j = 0; i < k && j < k;) {
     if (agni[i].elt == gkj[j].elt) {
@@ -160,8 +161,6 @@ int fp_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  delete[] agni;
-  delete[] gkj;
   return rv % spffl::intmath::int_totient(p);
 }
 
-- 
2.43.0


From 3b04bd35691d50c2ed74f2059172a1e7ad9bb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 53/92] fix: f2n_polymod_log printed a trace of its search to
 standard output

---
 spffl/units/f2n_polymod_units.cpp | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 9d7d410..5304446 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -119,16 +119,10 @@ static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
 int f2n_polymod_log( // Log base g of a.
     const spffl::polynomials::f2n_polymod_t &g,
     const spffl::polynomials::f2n_polymod_t &a) {
-  std::cout << "\n";
-  std::cout << "g = " << g << "\n";
-  std::cout << "a = " << a << "\n";
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
-  std::cout << "m = " << m << "\n";
   int n = 1 << m.find_degree();
-  std::cout << "n = " << n << "\n";
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
-  std::cout << "k = " << k << "\n";
 
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
@@ -143,9 +137,7 @@ int f2n_polymod_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
-  std::cout << "gi = " << ginv << "\n";
   spffl::polynomials::f2n_polymod_t gk = g.exp(k);
-  std::cout << "gk = " << gk << "\n";
   unsigned i, j;
 
   agni[0].elt = a;
@@ -153,32 +145,21 @@ int f2n_polymod_log( // Log base g of a.
   gkj[0].elt  = g / g;
   gkj[0].idx  = 0;
 
-  std::cout << "agni[" << 0 << "] = " << agni[0].elt << "\n";
   for (i = 1; i < k; i++) {
     agni[i].elt = agni[i - 1].elt * ginv;
     agni[i].idx = i;
-    std::cout << "agni[" << i << "] = " << agni[i].elt << "\n";
   }
-  std::cout << "gk[" << 0 << "]  = " << gkj[0].elt << "\n";
   for (j = 1; j < k; j++) {
     gkj[j].elt = gkj[j - 1].elt * gk;
     gkj[j].idx = j;
-    std::cout << "gk[" << j << "]  = " << gkj[j].elt << "\n";
   }
 
   qsort(agni.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
   qsort(gkj.data(), k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  for (j = 0; j < k; j++) {
-    std::cout << "-- agni[" << j << "] = " << agni[j].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
-  }
 
   for (i = 0, j = 0; i < k && j < k;) {
-    std::cout << "agni[" << i << "] = " << agni[i].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
     if (agni[i].elt == gkj[j].elt) {
       // xxx could overflow 32-bit int; fix me.
-      std::cout << "found at i=" << i << " j=" << j << "\n";
       rv = agni[i].idx + gkj[j].idx * k;
       break;
     } else if (agni[i].elt < gkj[j].elt) {
-- 
2.43.0


From dce3fdd54356b33e8f480330145c18f9a45aa00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 54/92] fix: f2n_polymod_log searched 2^deg(m) exponents
 instead of q^deg(m)

---
 spffl/units/f2n_polymod_units.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 5304446..6123443 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -10,6 +10,7 @@
 #include "spffl/containers/tvector.h"
 #include "spffl/factorization/f2n_poly_totient.h"
 #include "spffl/factorization/int_factor.h"
+#include "spffl/intmath/int_power.h"
 #include "spffl/intmath/int_sqrt.h"
 #include <vector>
 
@@ -121,7 +122,8 @@ int f2n_polymod_log( // Log base g of a.
     const spffl::polynomials::f2n_polymod_t &a) {
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
-  int n = 1 << m.find_degree();
+  int q = 1 << m.get_coeff(0).get_modulus().find_degree();
+  int n = spffl::intmath::int_power(q, m.find_degree());
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
 
   // xxx check gcd(g, m)
-- 
2.43.0


From 8218a9af1b11c3a81ebb5a17df01e5d2b7fe3559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 55/92] fix: polynomial totients overflowed when the totient is
 the largest int

---
 spffl/factorization/f2_poly_totient.cpp  | 2 +-
 spffl/factorization/f2n_poly_totient.cpp | 4 +++-
 spffl/factorization/fp_poly_totient.cpp  | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/spffl/factorization/f2_poly_totient.cpp b/spffl/factorization/f2_poly_totient.cpp
index 331b376..3a894bd 100644
--- a/spffl/factorization/f2_poly_totient.cpp
+++ b/spffl/factorization/f2_poly_totient.cpp
@@ -49,7 +49,7 @@ int f2_poly_totient(const spffl::polynomials::f2_poly_t &f) {
     spffl::polynomials::f2_poly_t fi = finfo.get_ith_factor(i);
     int ei                           = finfo.get_ith_count(i);
     int di                           = fi.find_degree();
-    rv *= (1 << (di * (ei - 1))) * ((1 << di) - 1);
+    rv *= (1 << (di * (ei - 1))) * (int)((1u << di) - 1);
   }
 
   return rv;
diff --git a/spffl/factorization/f2n_poly_totient.cpp b/spffl/factorization/f2n_poly_totient.cpp
index 2c87eba..2c975cc 100644
--- a/spffl/factorization/f2n_poly_totient.cpp
+++ b/spffl/factorization/f2n_poly_totient.cpp
@@ -52,8 +52,10 @@ int f2n_poly_totient(const spffl::polynomials::f2n_poly_t &f) {
     spffl::polynomials::f2n_poly_t fi = finfo.get_ith_factor(i);
     int ei                            = finfo.get_ith_count(i);
     int di                            = fi.find_degree();
+    // q^di - 1, without forming q^di which can be one past the largest int.
+    int qdi1 = spffl::intmath::int_power(q, di - 1);
     rv *= spffl::intmath::int_power(q, di * (ei - 1)) *
-          (spffl::intmath::int_power(q, di) - 1);
+          (qdi1 * (q - 1) + (qdi1 - 1));
   }
 
   return rv;
diff --git a/spffl/factorization/fp_poly_totient.cpp b/spffl/factorization/fp_poly_totient.cpp
index 36608cd..eee5f5b 100644
--- a/spffl/factorization/fp_poly_totient.cpp
+++ b/spffl/factorization/fp_poly_totient.cpp
@@ -51,8 +51,10 @@ int fp_poly_totient(const spffl::polynomials::fp_poly_t &f) {
     spffl::polynomials::fp_poly_t fi = finfo.get_ith_factor(i);
     int ei                           = finfo.get_ith_count(i);
     int di                           = fi.find_degree();
+    // p^di - 1, without forming p^di which can be one past the largest int.
+    int pdi1 = spffl::intmath::int_power(p, di - 1);
     rv *= spffl::intmath::int_power(p, di * (ei - 1)) *
-          (spffl::intmath::int_power(p, di) - 1);
+          (pdi1 * (p - 1) + (pdi1 - 1));
   }
 
   return rv;
-- 
2.43.0


From 33a1e6536a5030dbf7bda1312bcbd13b421ef13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 56/92] fix: the discrete logarithms' table types shared one
 name, so that one's destructor ran on another's tables

---
 spffl/units/f2_polymod_units.cpp  | 4 ++++
 spffl/units/f2n_polymod_units.cpp | 4 ++++
 spffl/units/fp_units.cpp          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index 94a6578..8490ff3 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -204,10 +204,14 @@ spffl::polynomials::f2_poly_t f2_poly_random_prim(int degree, int need_irr) {
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+// The three logarithm routines have one such type each, with different element
+// types: keep them local to their files.
+namespace {
 typedef struct _poly_and_index_t {
   spffl::polynomials::f2_polymod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 6123443..e4b1954 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -100,10 +100,14 @@ bool f2n_polymod_find_generator(const spffl::polynomials::f2n_poly_t &m,
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+// The three logarithm routines have one such type each, with different element
+// types: keep them local to their files.
+namespace {
 typedef struct _poly_and_index_t {
   spffl::polynomials::f2n_polymod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index 0b94807..806e7b7 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -86,10 +86,14 @@ bool fp_find_generator(int p, spffl::intmath::intmod_t &rg) {
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+// The three logarithm routines have one such type each, with different element
+// types: keep them local to their files.
+namespace {
 typedef struct _poly_and_index_t {
   spffl::intmath::intmod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
-- 
2.43.0


From 6d04a37bd6f1b60ca23fa83f614a95d9e61309b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 57/92] fix: generator searches modulo a reducible polynomial
 failed at the first zero divisor

---
 spffl/units/f2_polymod_units.cpp  | 10 ++++++----
 spffl/units/f2n_polymod_units.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index 8490ff3..8e29986 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -73,10 +73,12 @@ bool f2_polymod_find_generator(
   int phi = spffl::factorization::f2_poly_totient(m);
 
   while (gres.find_degree() < mdeg) {
-    spffl::polynomials::f2_polymod_t g(gres, m);
-    if (f2_polymod_order(g) == phi) {
-      rg = g;
-      return true;
+    if (gres.gcd(m) == spffl::polynomials::f2_poly_t(1)) {
+      spffl::polynomials::f2_polymod_t g(gres, m);
+      if (f2_polymod_order(g) == phi) {
+        rg = g;
+        return true;
+      }
     }
     gres.increment();
   }
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index e4b1954..d66f062 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -75,10 +75,12 @@ bool f2n_polymod_find_generator(const spffl::polynomials::f2n_poly_t &m,
   int phi = spffl::factorization::f2n_poly_totient(m);
 
   while (gres.find_degree() < mdeg) {
-    spffl::polynomials::f2n_polymod_t g(gres, m);
-    if (f2n_polymod_order(g) == phi) {
-      rg = g;
-      return true;
+    if (gres.gcd(m).find_degree() == 0) {
+      spffl::polynomials::f2n_polymod_t g(gres, m);
+      if (f2n_polymod_order(g) == phi) {
+        rg = g;
+        return true;
+      }
     }
     gres.increment();
   }
-- 
2.43.0


From 7b1c162f1c02f01b81e0ebbf0becc7884b2ba1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 58/92] fix: logarithms of binary residue classes could exceed
 the group order

---
 spffl/units/f2_polymod_units.cpp  | 2 +-
 spffl/units/f2n_polymod_units.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index 8e29986..9cd88d6 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -286,7 +286,7 @@ int f2_polymod_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  return rv;
+  return rv % spffl::factorization::f2_poly_totient(m);
 }
 
 } // namespace spffl::units
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index d66f062..d74ed45 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -184,7 +184,7 @@ int f2n_polymod_log( // Log base g of a.
     throw spffl::exception_t(ss.str());
   }
 
-  return rv;
+  return rv % spffl::factorization::f2n_poly_totient(m);
 }
 
 } // namespace spffl::units
-- 
2.43.0


From 5a5d8771d302bf39bec82d00a5de21a2f52610b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:32 +0000
Subject: [PATCH 59/92] fix: from_string accepted trailing text and empty
 coefficients

---
 spffl/base/line_scan.cpp           | 13 +++++++++++++
 spffl/base/line_scan.h             |  5 +++++
 spffl/bits/bit_t.cpp               |  3 ++-
 spffl/intmath/intmod_t.cpp         |  3 ++-
 spffl/intmath/intrat_t.cpp         |  3 ++-
 spffl/polynomials/f2_poly_t.cpp    |  4 ++--
 spffl/polynomials/f2_polymod_t.cpp |  3 ++-
 spffl/polynomials/f2n_poly_t.cpp   |  6 +++++-
 spffl/polynomials/fp_poly_t.cpp    |  6 +++++-
 spffl/polynomials/fpn_poly_t.cpp   |  6 +++++-
 spffl/polynomials/q_poly_t.cpp     |  4 ++++
 spffl/rationals/f2_polyrat_t.cpp   |  3 ++-
 spffl/rationals/f2n_polyrat_t.cpp  |  3 ++-
 spffl/rationals/fp_polyrat_t.cpp   |  3 ++-
 14 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/spffl/base/line_scan.cpp b/spffl/base/line_scan.cpp
index b8c6805..90c2515 100644
--- a/spffl/base/line_scan.cpp
+++ b/spffl/base/line_scan.cpp
@@ -32,4 +32,17 @@ bool is_whitespace_line(char *line) {
   return true;
 }
 
+// ----------------------------------------------------------------
+bool only_whitespace_left(std::istream &is) {
+  if (is.eof()) {
+    return true;
+  }
+  int c = is.peek();
+  while ((c != EOF) && isspace(c)) {
+    (void)is.get();
+    c = is.peek();
+  }
+  return c == EOF;
+}
+
 } // namespace spffl::base
diff --git a/spffl/base/line_scan.h b/spffl/base/line_scan.h
index 520a308..092b47b 100644
--- a/spffl/base/line_scan.h
+++ b/spffl/base/line_scan.h
@@ -7,6 +7,8 @@
 #ifndef LINESCAN_H
 #define LINESCAN_H
 
+#include <istream>
+
 namespace spffl::base {
 
 // Removes trailing CR, if any.  (The name "chomp" comes from Perl.)
@@ -14,6 +16,9 @@ void chomp(char *line);
 
 bool is_whitespace_line(char *line);
 
+// True if nothing but whitespace is left to read.  Consumes the whitespace.
+bool only_whitespace_left(std::istream &is);
+
 } // namespace spffl::base
 
 #endif // LINESCAN_H
diff --git a/spffl/bits/bit_t.cpp b/spffl/bits/bit_t.cpp
index d5cef3d..364cabe 100644
--- a/spffl/bits/bit_t.cpp
+++ b/spffl/bits/bit_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/bits/bit_t.h"
+#include "spffl/base/line_scan.h"
 #include <iomanip>
 #include <iostream>
 namespace spffl::bits {
@@ -46,7 +47,7 @@ bool bit_t::from_string(const std::string &string) {
   unsigned r;
   std::istringstream iss(string, std::ios_base::in);
   iss >> r;
-  if (iss.fail()) {
+  if (iss.fail() || !spffl::base::only_whitespace_left(iss)) {
     return false;
   } else {
     this->residue = r & 1;
diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 20cedaa..967efbb 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/intmath/intmod_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
 #include <limits>
 #include <cstdint>
@@ -104,7 +105,7 @@ bool intmod_t::from_string(const std::string &string, int m) {
   int r;
   std::istringstream iss(string, std::ios_base::in);
   iss >> r;
-  if (iss.fail()) {
+  if (iss.fail() || !spffl::base::only_whitespace_left(iss)) {
     return false;
   } else {
     *this = intmod_t(r, m);
diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 761bb49..6fd1b67 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/intmath/intrat_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/intmath/int_totient.h"
@@ -246,7 +247,7 @@ std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
 bool intrat_t::from_string(const std::string &string) {
   std::istringstream iss(string, std::ios_base::in);
   iss >> *this;
-  return iss.fail() ? false : true;
+  return !iss.fail() && spffl::base::only_whitespace_left(iss);
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 9488f3f..f7d1edb 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/polynomials/f2_poly_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include <ctype.h>
@@ -68,8 +69,7 @@ f2_poly_t f2_poly_t::from_base_rep(uint64_t b) {
 bool f2_poly_t::from_string(const std::string &string) {
   std::istringstream iss(string, std::ios_base::in);
   iss >> *this;
-  // return iss.fail() ? 0 : iss.eof() ? 0 : 1;
-  return iss.fail() ? false : true;
+  return !iss.fail() && spffl::base::only_whitespace_left(iss);
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/f2_polymod_t.cpp b/spffl/polynomials/f2_polymod_t.cpp
index 1db5f3e..a33c1d3 100644
--- a/spffl/polynomials/f2_polymod_t.cpp
+++ b/spffl/polynomials/f2_polymod_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/polynomials/f2_polymod_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
 #include <limits>
 #include <iomanip>
@@ -199,7 +200,7 @@ bool f2_polymod_t::from_string(const std::string &string, const f2_poly_t &m) {
   f2_poly_t r;
   std::istringstream iss(string, std::ios_base::in);
   iss >> r;
-  if (iss.fail()) {
+  if (iss.fail() || !spffl::base::only_whitespace_left(iss)) {
     return false;
   } else {
     *this = f2_polymod_t(r, m);
diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 63bac34..1834ab2 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/polynomials/f2n_poly_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
@@ -921,13 +922,16 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
   std::vector<char *> argv(num_colons + 1);
   int argc =
       spffl::base::tokenize(dup.data(), ":", argv.data(), num_colons + 1);
+  if (argc != num_colons + 1) { // Empty coefficients
+    return false;
+  }
   for (int argi = 0; argi < argc; argi++) {
     // Scan each coefficient, then reduce mod m
     f2_poly_t r;
 
     std::istringstream iss(argv[argi], std::ios_base::in);
     iss >> r;
-    if (iss.fail()) {
+    if (iss.fail() || !spffl::base::only_whitespace_left(iss)) {
       return false;
     }
     scanned.push_back(f2_polymod_t(r, m));
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 46256af..9d06c76 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/polynomials/fp_poly_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
@@ -868,13 +869,16 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
     std::vector<char *> argv(num_commas + 1);
     int argc =
         spffl::base::tokenize(dup.data(), ",", argv.data(), num_commas + 1);
+    if (argc != num_commas + 1) { // Empty coefficients
+      return false;
+    }
     for (int argi = 0; argi < argc; argi++) {
       // Scan each coefficient, then reduce mod p
       int r;
 
       std::istringstream iss(argv[argi], std::ios_base::in);
       iss >> r;
-      if (iss.fail()) {
+      if (iss.fail() || !spffl::base::only_whitespace_left(iss)) {
         return false;
       }
       scanned.push_back(spffl::intmath::intmod_t(r, p));
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 7c04fc3..b19f35f 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/polynomials/fpn_poly_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
@@ -837,13 +838,16 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
   std::vector<char *> argv(num_colons + 1);
   int argc =
       spffl::base::tokenize(dup.data(), ":", argv.data(), num_colons + 1);
+  if (argc != num_colons + 1) { // Empty coefficients
+    return false;
+  }
   for (int argi = 0; argi < argc; argi++) {
     // Scan each coefficient, then reduce mod m
     fp_poly_t r = m; // Set modulus
 
     std::istringstream iss(argv[argi], std::ios_base::in);
     iss >> r;
-    if (iss.fail()) {
+    if (iss.fail() || !spffl::base::only_whitespace_left(iss)) {
       return false;
     }
     scanned.push_back(fp_polymod_t(r, m));
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 4654ad9..d8433eb 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/polynomials/q_poly_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
@@ -758,6 +759,9 @@ bool q_poly_t::from_string(const std::string &string) {
     std::vector<char *> argv(num_commas + 1);
     int argc =
         spffl::base::tokenize(dup.data(), ",", argv.data(), num_commas + 1);
+    if (argc != num_commas + 1) { // Empty coefficients
+      return false;
+    }
     for (int argi = 0; argi < argc; argi++) {
       // Scan each coefficient.
       spffl::intmath::intrat_t r;
diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index cdb13c6..c2d674b 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/rationals/f2_polyrat_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include <limits>
@@ -262,7 +263,7 @@ std::istringstream &operator>>(std::istringstream &iss, f2_polyrat_t &a) {
 bool f2_polyrat_t::from_string(const std::string &string) {
   std::istringstream iss(string, std::ios_base::in);
   iss >> *this;
-  return iss.fail() ? false : true;
+  return !iss.fail() && spffl::base::only_whitespace_left(iss);
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index 3683553..e72b3bc 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/rationals/f2n_polyrat_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include <limits>
@@ -263,7 +264,7 @@ bool f2n_polyrat_t::from_string(
       spffl::polynomials::f2_polymod_t(spffl::polynomials::f2_poly_t(1), m));
   std::istringstream iss(string, std::ios_base::in);
   iss >> *this;
-  return iss.fail() ? false : true;
+  return !iss.fail() && spffl::base::only_whitespace_left(iss);
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index ab7dfb6..e72ce00 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -5,6 +5,7 @@
 // ================================================================
 
 #include "spffl/rationals/fp_polyrat_t.h"
+#include "spffl/base/line_scan.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
 #include <limits>
@@ -260,7 +261,7 @@ bool fp_polyrat_t::from_string(const std::string &string, int p) {
   this->denom = spffl::polynomials::fp_poly_t(spffl::intmath::intmod_t(1, p));
   std::istringstream iss(string, std::ios_base::in);
   iss >> *this;
-  return iss.fail() ? false : true;
+  return !iss.fail() && spffl::base::only_whitespace_left(iss);
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 04812186e489fa88b3218d7229ad78e62c30bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:32 +0000
Subject: [PATCH 60/92] fix: stream input of an F2n polynomial failed on the
 last value of a stream

---
 spffl/polynomials/f2n_poly_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 1834ab2..ec3220b 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -862,7 +862,7 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
       return is;
     }
     poly.coeffs[0] = f2_polymod_t(r, m);
-    while (is.peek() == ':') {
+    while (!is.eof() && (is.peek() == ':')) {
       (void)is.get();
       is >> r;
       if (is.fail()) {
-- 
2.43.0


From e3b72d0e1435f77a917e82500202ab36f5cfb5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 61/92] fix: expression operands with trailing text were read
 as their leading part

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 4 ++++
 spffl/cli_parser/cmd_line_ops.h        | 3 ++-
 spffl/cli_parser/cmd_line_vector_ops.h | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 782fc9f..f4f927c 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -17,6 +17,7 @@
 //   U := P ^ P | P
 //   P := ( E ) | NUM
 
+#include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tmatrix.h"
 #include "spffl/containers/tstack.h"
@@ -253,6 +254,9 @@ static void matlexan(mat_lex_ctx_t<element_type> &rlex_ctx) {
     if (rlex_ctx.in_pow_rhs) {
       rlex_ctx.atom.atom_type = INT_ATOM;
       iss >> rlex_ctx.atom.int_val;
+      if (!spffl::base::only_whitespace_left(iss)) {
+        iss.setstate(std::ios::failbit);
+      }
     } else {
       rlex_ctx.atom.mat_val   = rlex_ctx.zero; // Set modulus
       rlex_ctx.atom.atom_type = MAT_ATOM;
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index d425969..e485262 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -18,6 +18,7 @@
 //   U := P ^ P | P
 //   P := ( E ) | NUM
 
+#include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tstack.h"
 #include <limits>
@@ -233,7 +234,7 @@ static void lexan(lex_ctx_t<element_type> &rlex_ctx) {
       rlex_ctx.atom.is_int   = false;
       iss >> rlex_ctx.atom.type_val;
     }
-    if (iss.fail()) {
+    if (iss.fail() || !spffl::base::only_whitespace_left(iss)) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 2f8b896..81a58e2 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -17,6 +17,7 @@
 //   U := P ^ P | P
 //   P := ( E ) | NUM
 
+#include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tstack.h"
 #include "spffl/containers/tvector.h"
@@ -190,6 +191,9 @@ static void veclexan(vec_lex_ctx_t<element_type> &rlex_ctx) {
     if (rlex_ctx.in_pow_rhs) {
       rlex_ctx.atom.atom_type = INT_ATOM;
       iss >> rlex_ctx.atom.int_val;
+      if (!spffl::base::only_whitespace_left(iss)) {
+        iss.setstate(std::ios::failbit);
+      }
     } else {
       rlex_ctx.atom.vec_val   = rlex_ctx.zero; // Set modulus
       rlex_ctx.atom.atom_type = VEC_ATOM;
-- 
2.43.0


From f6196c45a7d987e52e4d2fb0e144ae5ec921f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 62/92] fix: expressions followed by extraneous text were
 answered before being refused

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 4 ++--
 spffl/cli_parser/cmd_line_ops.h        | 4 ++--
 spffl/cli_parser/cmd_line_vector_ops.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index f4f927c..3ecfe08 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -703,6 +703,8 @@ void cmd_line_mat_parse(
       ss << "Stack underflow.\n";
       throw spffl::exception_t(ss.str());
     }
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
 
     switch (result.atom_type) {
     case MAT_ATOM:
@@ -721,8 +723,6 @@ void cmd_line_mat_parse(
       break;
     }
 
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index e485262..cc93c84 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -659,13 +659,13 @@ void cmd_line_parse(
       ss << "Stack underflow.\n";
       throw spffl::exception_t(ss.str());
     }
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
     if (result.is_int) {
       std::cout << result.int_val << "\n";
     } else {
       std::cout << result.type_val << "\n";
     }
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 81a58e2..844b0f6 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -561,6 +561,8 @@ void cmd_line_vec_parse(
       ss << "Stack underflow.\n";
       throw spffl::exception_t(ss.str());
     }
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
 
     switch (result.atom_type) {
     case VEC_ATOM:
@@ -579,8 +581,6 @@ void cmd_line_vec_parse(
       break;
     }
 
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
-- 
2.43.0


From 782d9e23eeef800da08fc6f6a922107772bc214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:01 +0000
Subject: [PATCH 63/92] fix: an empty expression was not reported

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 4 ++--
 spffl/cli_parser/cmd_line_ops.h        | 4 ++--
 spffl/cli_parser/cmd_line_vector_ops.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 3ecfe08..379cef1 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -696,7 +696,7 @@ void cmd_line_mat_parse(
   matlexinit<element_type>(lex_ctx, argc, argv, zero, one);
   matlexan<element_type>(lex_ctx);
 
-  while (lex_ctx.token != L_EOL) {
+  do {
     Q<element_type>(lex_ctx, stack);
     if (!stack.pop(result)) {
       std::stringstream ss;
@@ -723,7 +723,7 @@ void cmd_line_mat_parse(
       break;
     }
 
-  }
+  } while (lex_ctx.token != L_EOL);
 }
 
 } // namespace spffl::cli_parser
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index cc93c84..19637ed 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -652,7 +652,7 @@ void cmd_line_parse(
   lexinit<element_type>(lex_ctx, argc, argv, zero, one);
   lexan<element_type>(lex_ctx);
 
-  while (lex_ctx.token != L_EOL) {
+  do {
     Q<element_type>(lex_ctx, stack);
     if (!stack.pop(result)) {
       std::stringstream ss;
@@ -666,7 +666,7 @@ void cmd_line_parse(
     } else {
       std::cout << result.type_val << "\n";
     }
-  }
+  } while (lex_ctx.token != L_EOL);
 }
 
 } // namespace spffl::cli_parser
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 844b0f6..6ea7c05 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -554,7 +554,7 @@ void cmd_line_vec_parse(
   veclexinit<element_type>(lex_ctx, argc, argv, zero, one);
   veclexan<element_type>(lex_ctx);
 
-  while (lex_ctx.token != L_EOL) {
+  do {
     Q<element_type>(lex_ctx, stack);
     if (!stack.pop(result)) {
       std::stringstream ss;
@@ -581,7 +581,7 @@ void cmd_line_vec_parse(
       break;
     }
 
-  }
+  } while (lex_ctx.token != L_EOL);
 }
 
 } // namespace spffl::cli_parser
-- 
2.43.0


From 909c6537878a11b959698f7cad48a3a3a2edd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 64/92] fix: integer division by zero ended spiff with a signal

---
 spffl/cli_parser/cmd_line_ops.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 19637ed..f04121b 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -243,6 +243,24 @@ static void lexan(lex_ctx_t<element_type> &rlex_ctx) {
   rlex_ctx.argi++;
 }
 
+// ----------------------------------------------------------------
+// Machine integers don't check division by themselves.
+template <class element_type>
+void check_division(const element_type &a, const element_type &b) {}
+
+template <> inline void check_division<int>(const int &a, const int &b) {
+  if (b == 0) {
+    std::stringstream ss;
+    ss << "Division by zero.\n";
+    throw spffl::exception_t(ss.str());
+  }
+  if ((b == -1) && (a == std::numeric_limits<int>::min())) {
+    std::stringstream ss;
+    ss << "Integer overflow.\n";
+    throw spffl::exception_t(ss.str());
+  }
+}
+
 // ----------------------------------------------------------------
 template <class element_type>
 element_type clo_exp(
@@ -392,9 +410,11 @@ static void emit(
     c.type_val = a.type_val * b.type_val;
     break;
   case L_DIV:
+    check_division<element_type>(a.type_val, b.type_val);
     c.type_val = a.type_val / b.type_val;
     break;
   case L_MOD:
+    check_division<element_type>(a.type_val, b.type_val);
     c.type_val = a.type_val % b.type_val;
     break;
 
-- 
2.43.0


From ca8b6a9f9cb58f71cff7843d1a9ef8f3748684ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 65/92] fix: negative powers of non-units were answered with
 zero in expressions

---
 spffl/cli_parser/cmd_line_ops.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index f04121b..7153f5b 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -293,6 +293,11 @@ element_type clo_exp(
       throw spffl::exception_t(ss.str());
     }
     xp = one / x;
+    if (xp * x != one) {
+      std::stringstream ss;
+      ss << "Non-invertible.\n";
+      throw spffl::exception_t(ss.str());
+    }
     e  = -e;
   }
 
-- 
2.43.0


From 4dd2a551289e86af9bb199154a29cb0c9da90faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:57 +0000
Subject: [PATCH 66/92] fix: row reduction over a ring went on after dividing
 by a non-unit

---
 spffl/containers/tmatrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 928a9c4..648f22a 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -957,6 +957,12 @@ public:
       if (top_row_lead != zero) {
         // Normalize this row.
         element_type inv = one / top_row_lead;
+        if (inv * top_row_lead != one) {
+          std::stringstream ss;
+          ss << "tmatrix::row_reduce_below():  non-invertible pivot "
+             << top_row_lead << ".\n";
+          throw spffl::exception_t(ss.str());
+        }
         this->rows[top_row].mult_by(inv);
         s *= top_row_lead;
 
-- 
2.43.0


From dffd8eeccd103cf9c7e7d30b242f4bcf4511e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:36 +0000
Subject: [PATCH 67/92] fix: commands in braces were subject to expansion by
 the shell

---
 spffl/cli_parser/cmd_interp.cpp | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 942882b..f07c1fe 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -4,6 +4,7 @@
 #include <stdio.h> // For perror
 #include <stdlib.h>
 #include <string.h>
+#include <string>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -63,22 +64,23 @@ static void find_matching_right_bracket(
 }
 
 // ----------------------------------------------------------------
-// The caller must free the return value.
-static char *flatten(char *exename, int argc, char **argv) {
-  int len = strlen(exename) + 1;
-  for (int argi = 0; argi < argc; argi++) {
-    len += strlen(argv[argi]) + 1;
-  }
-  char *rv = (char *)malloc(len);
-  if (rv == 0) {
-    std::stringstream ss;
-    ss << "malloc(" << len << ") failed.\n";
-    throw spffl::exception_t(ss.str());
+// popen passes the command to the shell, which must take each word as it is.
+static std::string quote(const char *word) {
+  std::string rv = "'";
+  for (const char *p = word; *p; p++) {
+    if (*p == '\'') {
+      rv += "'\\''";
+    } else {
+      rv += *p;
+    }
   }
-  strcpy(rv, exename);
+  return rv + "'";
+}
+
+static std::string flatten(char *exename, int argc, char **argv) {
+  std::string rv = quote(exename);
   for (int argi = 0; argi < argc; argi++) {
-    strcat(rv, " ");
-    strcat(rv, argv[argi]);
+    rv += " " + quote(argv[argi]);
   }
   return rv;
 }
@@ -86,9 +88,9 @@ static char *flatten(char *exename, int argc, char **argv) {
 // ----------------------------------------------------------------
 static void replace(
     char *exename, int argcin, char **argvin, int &argcout, char **&argvout) {
-  char *flat_cmd = flatten(exename, argcin, argvin);
+  std::string flat_cmd = flatten(exename, argcin, argvin);
 
-  FILE *pipe = popen(flat_cmd, "r");
+  FILE *pipe = popen(flat_cmd.c_str(), "r");
   if (pipe == 0) {
     std::stringstream ss;
     ss << "Failed popen \"" << flat_cmd << "\".\n";
-- 
2.43.0


From 270b9da4fd58942b2d5d96cae0a7303a85f6acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 68/92] fix: brace substitution split words of lines longer
 than its buffer

---
 spffl/cli_parser/cmd_interp.cpp | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index f07c1fe..cbff3f4 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -98,35 +98,18 @@ static void replace(
   }
 
   char line[4096];
-  int totlen = 0;
-  char *buf  = 0;
+  std::string output;
   while (fgets(line, sizeof(line), pipe)) {
-    int curlen = strlen(line);
-    if (line[curlen - 1] == '\n') {
-      line[curlen - 1] = 0;
-      curlen--;
-    }
-    if (buf == 0) {
-      buf = (char *)malloc(curlen + 1);
-      strcpy(buf, line);
-      totlen = curlen + 1;
-    } else {
-      buf = (char *)realloc(buf, totlen + curlen + 2);
-      strcat(buf, " ");
-      strcat(buf, line);
-      totlen += curlen + 2;
-    }
+    output += line;
   }
   pclose(pipe);
 
-  if (buf == 0) {
-      buf = strdup("");
-  }
+  char *buf = strdup(output.c_str());
 
-  argcout = spffl::base::count_tokens(buf, " \t");
+  argcout = spffl::base::count_tokens(buf, " \t\n");
   argvout = (char **)malloc(argcout * sizeof(char *));
 
-  int check = spffl::base::tokenize(buf, " \t", argvout, argcout);
+  int check = spffl::base::tokenize(buf, " \t\n", argvout, argcout);
   if (check != argcout) {
     std::stringstream ss;
     ss << "Coding error in replace.\n";
-- 
2.43.0


From 56e75c2d0d9e228ee90844bb2544cec3b844d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 69/92] fix: integers on the command line were accepted with
 trailing text and out of range

---
 cli/spiff/f2_handlers.cpp          |  7 +++--
 cli/spiff/f2_poly_handlers.cpp     | 17 +++--------
 cli/spiff/f2_polymod_handlers.cpp  |  7 +++--
 cli/spiff/f2_polyrat_handlers.cpp  | 11 ++++---
 cli/spiff/f2n_poly_handlers.cpp    | 17 +++--------
 cli/spiff/f2n_polymod_handlers.cpp |  7 +++--
 cli/spiff/fp_handlers.cpp          | 41 +++++++++++++------------
 cli/spiff/fp_poly_handlers.cpp     | 49 +++++++++++++-----------------
 cli/spiff/fp_polymod_handlers.cpp  | 29 +++++++++---------
 cli/spiff/fp_polyrat_handlers.cpp  |  5 +--
 cli/spiff/fpn_poly_handlers.cpp    | 11 ++++---
 cli/spiff/fpn_polymod_handlers.cpp |  5 +--
 cli/spiff/q_handlers.cpp           |  3 +-
 cli/spiff/z_handlers.cpp           | 33 +++++++++-----------
 spffl/base/line_scan.cpp           | 31 +++++++++++++++++++
 spffl/base/line_scan.h             |  7 +++++
 16 files changed, 152 insertions(+), 128 deletions(-)

diff --git a/cli/spiff/f2_handlers.cpp b/cli/spiff/f2_handlers.cpp
index 0d5ed80..4fa42d8 100644
--- a/cli/spiff/f2_handlers.cpp
+++ b/cli/spiff/f2_handlers.cpp
@@ -1,5 +1,6 @@
 #include "f2_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/bits/bit_t.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -26,7 +27,7 @@ int f2_random_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   if (argc == 2) {
-    if (sscanf(argv[1], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[1], count)) {
       pusage(argv[0]);
     }
   }
@@ -123,10 +124,10 @@ int f2_mat_random_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[1], "%d", &nr) != 1) {
+  if (!spffl::base::scan_int(argv[1], nr)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &nc) != 1) {
+  if (!spffl::base::scan_int(argv[2], nc)) {
     pusage(argv[0]);
   }
   tmatrix<spffl::bits::bit_t> A(nr, nc);
diff --git a/cli/spiff/f2_poly_handlers.cpp b/cli/spiff/f2_poly_handlers.cpp
index 4d6864f..d1fc19b 100644
--- a/cli/spiff/f2_poly_handlers.cpp
+++ b/cli/spiff/f2_poly_handlers.cpp
@@ -6,6 +6,7 @@
 
 #include "f2_poly_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/factorization/f2_poly_factor.h"
 #include "spffl/factorization/f2_poly_totient.h"
@@ -29,11 +30,7 @@ int f2_p_list_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[1], "%d-%d", &deglo, &deghi) == 2)
-    ;
-  else if (sscanf(argv[1], "%d", &deglo) == 1) {
-    deghi = deglo;
-  } else {
+  if (!spffl::base::scan_int_range(argv[1], deglo, deghi)) {
     pusage(argv[0]);
   }
 
@@ -258,11 +255,7 @@ int f2_p_find_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[3], "%d-%d", &deglo, &deghi) == 2)
-    ;
-  else if (sscanf(argv[3], "%d", &deglo) == 1) {
-    deghi = deglo;
-  } else {
+  if (!spffl::base::scan_int_range(argv[3], deglo, deghi)) {
     pusage(argv[0]);
   }
 
@@ -411,11 +404,11 @@ int f2_p_random_main(int argc, char **argv, usage_t *pusage) {
   if ((argc != 2) && (argc != 3)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &deg) != 1) {
+  if (!spffl::base::scan_int(argv[1], deg)) {
     pusage(argv[0]);
   }
   if (argc == 3) {
-    if (sscanf(argv[2], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[2], count)) {
       pusage(argv[0]);
     }
   }
diff --git a/cli/spiff/f2_polymod_handlers.cpp b/cli/spiff/f2_polymod_handlers.cpp
index 8ca3f67..b3e717d 100644
--- a/cli/spiff/f2_polymod_handlers.cpp
+++ b/cli/spiff/f2_polymod_handlers.cpp
@@ -1,6 +1,7 @@
 #include "f2_polymod_handlers.h"
 #include "tbl_types.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -400,7 +401,7 @@ int f2_pm_random_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   if (argc == 3) {
-    if (sscanf(argv[2], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[2], count)) {
       pusage(argv[0]);
     }
   }
@@ -624,10 +625,10 @@ int f2_pm_mat_random_main(int argc, char **argv, usage_t *pusage) {
   if (!m.from_string(argv[1])) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &nr) != 1) {
+  if (!spffl::base::scan_int(argv[2], nr)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[3], "%d", &nc) != 1) {
+  if (!spffl::base::scan_int(argv[3], nc)) {
     pusage(argv[0]);
   }
   tmatrix<spffl::polynomials::f2_polymod_t> A(nr, nc);
diff --git a/cli/spiff/f2_polyrat_handlers.cpp b/cli/spiff/f2_polyrat_handlers.cpp
index 1716f71..82dd028 100644
--- a/cli/spiff/f2_polyrat_handlers.cpp
+++ b/cli/spiff/f2_polyrat_handlers.cpp
@@ -1,5 +1,6 @@
 #include "f2_polyrat_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -24,11 +25,11 @@ int f2_pr_random_main(int argc, char **argv, usage_t *pusage) {
   if ((argc != 2) && (argc != 3)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &deg) != 1) {
+  if (!spffl::base::scan_int(argv[1], deg)) {
     pusage(argv[0]);
   }
   if (argc == 3) {
-    if (sscanf(argv[2], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[2], count)) {
       pusage(argv[0]);
     }
   }
@@ -67,13 +68,13 @@ int f2_pr_mat_random_main(int argc, char **argv, usage_t *pusage) {
   if (argc != 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &deg) != 1) {
+  if (!spffl::base::scan_int(argv[1], deg)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &nr) != 1) {
+  if (!spffl::base::scan_int(argv[2], nr)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[3], "%d", &nc) != 1) {
+  if (!spffl::base::scan_int(argv[3], nc)) {
     pusage(argv[0]);
   }
 
diff --git a/cli/spiff/f2n_poly_handlers.cpp b/cli/spiff/f2n_poly_handlers.cpp
index 34357b9..8329c73 100644
--- a/cli/spiff/f2n_poly_handlers.cpp
+++ b/cli/spiff/f2n_poly_handlers.cpp
@@ -1,6 +1,7 @@
 #include "f2n_poly_handlers.h"
 #include "tbl_types.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -30,11 +31,7 @@ int f2n_p_list_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[2], "%d-%d", &deglo, &deghi) == 2)
-    ;
-  else if (sscanf(argv[2], "%d", &deglo) == 1) {
-    deghi = deglo;
-  } else {
+  if (!spffl::base::scan_int_range(argv[2], deglo, deghi)) {
     pusage(argv[0]);
   }
   for (int deg = deglo; deg <= deghi; deg++) {
@@ -258,11 +255,7 @@ int f2n_p_find_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[3], "%d-%d", &deglo, &deghi) == 2)
-    ;
-  else if (sscanf(argv[3], "%d", &deglo) == 1) {
-    deghi = deglo;
-  } else {
+  if (!spffl::base::scan_int_range(argv[3], deglo, deghi)) {
     pusage(argv[0]);
   }
 
@@ -416,11 +409,11 @@ int f2n_p_random_main(int argc, char **argv, usage_t *pusage) {
   if (!m.from_string(argv[1])) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &deg) != 1) {
+  if (!spffl::base::scan_int(argv[2], deg)) {
     pusage(argv[0]);
   }
   if (argc == 4) {
-    if (sscanf(argv[3], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[3], count)) {
       pusage(argv[0]);
     }
   }
diff --git a/cli/spiff/f2n_polymod_handlers.cpp b/cli/spiff/f2n_polymod_handlers.cpp
index 753f510..0fd4a9d 100644
--- a/cli/spiff/f2n_polymod_handlers.cpp
+++ b/cli/spiff/f2n_polymod_handlers.cpp
@@ -1,6 +1,7 @@
 #include "f2n_polymod_handlers.h"
 #include "tbl_types.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -378,7 +379,7 @@ int f2n_pm_random_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   if (argc == 4) {
-    if (sscanf(argv[3], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[3], count)) {
       pusage(argv[0]);
     }
   }
@@ -461,10 +462,10 @@ int f2n_pm_mat_random_main(int argc, char **argv, usage_t *pusage) {
   if (!om.from_string(argv[2], im)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[3], "%d", &nr) != 1) {
+  if (!spffl::base::scan_int(argv[3], nr)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[4], "%d", &nc) != 1) {
+  if (!spffl::base::scan_int(argv[4], nc)) {
     pusage(argv[0]);
   }
 
diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 9172113..571f632 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -1,6 +1,7 @@
 #include "fp_handlers.h"
 #include "tbl_types.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -33,7 +34,7 @@ int fp_list_main(int argc, char **argv, usage_t *pusage) {
     } else {
       pusage(argv[0]);
     }
-    if (sscanf(argv[2], "%d", &m) != 1) {
+    if (!spffl::base::scan_int(argv[2], m)) {
       pusage(argv[0]);
     }
     tvector<spffl::intmath::intmod_t> elts = intmod_list(m, type);
@@ -47,7 +48,7 @@ int fp_list_main(int argc, char **argv, usage_t *pusage) {
     } else {
       pusage(argv[0]);
     }
-    if (sscanf(argv[3], "%d", &m) != 1) {
+    if (!spffl::base::scan_int(argv[3], m)) {
       pusage(argv[0]);
     }
     if (!g.from_string(argv[2], m)) {
@@ -70,7 +71,7 @@ int fp_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::cli_parser::cmd_line_parse<spffl::intmath::intmod_t>(argc - 2,
@@ -91,7 +92,7 @@ int fp_tbl_main(int argc, char **argv, usage_t *pusage) {
   if (argc != 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
 
@@ -211,7 +212,7 @@ int fp_ord_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   for (int argi = 2; argi < argc; argi++) {
@@ -236,7 +237,7 @@ int fp_max_ord_main(int argc, char **argv, usage_t *pusage) {
   if (argc != 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   tvector<spffl::intmath::intmod_t> elts =
@@ -264,14 +265,14 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
   if ((argc != 3) && (argc != 4)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &a) != 1) {
+  if (!spffl::base::scan_int(argv[2], a)) {
     pusage(argv[0]);
   }
   if (argc == 4) {
-    if (sscanf(argv[3], "%d", &a0) != 1) {
+    if (!spffl::base::scan_int(argv[3], a0)) {
       pusage(argv[0]);
     }
   }
@@ -318,7 +319,7 @@ int fp_find_gen_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   for (int argi = 1; argi < argc; argi++) {
-    if (sscanf(argv[argi], "%d", &p) != 1) {
+    if (!spffl::base::scan_int(argv[argi], p)) {
       pusage(argv[0]);
     }
     if (argc > 2) {
@@ -345,7 +346,7 @@ int fp_log_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!g.from_string(argv[2], p)) {
@@ -374,11 +375,11 @@ int fp_random_main(int argc, char **argv, usage_t *pusage) {
   if ((argc != 2) && (argc != 3)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &m) != 1) {
+  if (!spffl::base::scan_int(argv[1], m)) {
     pusage(argv[0]);
   }
   if (argc == 3) {
-    if (sscanf(argv[2], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[2], count)) {
       pusage(argv[0]);
     }
   }
@@ -400,7 +401,7 @@ int fp_mat_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::cli_parser::cmd_line_mat_parse<spffl::intmath::intmod_t>(argc - 2,
@@ -418,7 +419,7 @@ int fp_vec_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::cli_parser::cmd_line_vec_parse<spffl::intmath::intmod_t>(argc - 2,
@@ -438,7 +439,7 @@ int fp_mat_ch_pol_main(int argc, char **argv, usage_t *pusage) {
   if (argc != 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   A = spffl::intmath::intmod_t(0, p);
@@ -465,7 +466,7 @@ int fp_mat_ord_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::intmath::intmod_t zero(0, p);
@@ -508,13 +509,13 @@ int fp_mat_random_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &nr) != 1) {
+  if (!spffl::base::scan_int(argv[2], nr)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[3], "%d", &nc) != 1) {
+  if (!spffl::base::scan_int(argv[3], nc)) {
     pusage(argv[0]);
   }
   tmatrix<spffl::intmath::intmod_t> A(nr, nc);
diff --git a/cli/spiff/fp_poly_handlers.cpp b/cli/spiff/fp_poly_handlers.cpp
index 7d56f8b..d9e7d11 100644
--- a/cli/spiff/fp_poly_handlers.cpp
+++ b/cli/spiff/fp_poly_handlers.cpp
@@ -1,5 +1,6 @@
 #include "fp_poly_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -23,14 +24,10 @@ int fp_p_list_main(int argc, char **argv, usage_t *pusage) {
   if (argc != 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d-%d", &deglo, &deghi) == 2)
-    ;
-  else if (sscanf(argv[2], "%d", &deglo) == 1) {
-    deghi = deglo;
-  } else {
+  if (!spffl::base::scan_int_range(argv[2], deglo, deghi)) {
     pusage(argv[0]);
   }
   for (int deg = deglo; deg <= deghi; deg++) {
@@ -51,7 +48,7 @@ int fp_p_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::cli_parser::cmd_line_parse<spffl::polynomials::fp_poly_t>(argc - 2,
@@ -70,7 +67,7 @@ int fp_p_mat_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::cli_parser::cmd_line_mat_parse<spffl::polynomials::fp_poly_t>(argc - 2,
@@ -91,7 +88,7 @@ int fp_p_comp_mx_main(int argc, char **argv, usage_t *pusage) {
   if (argc != 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!chpol.from_string(argv[2], p)) {
@@ -115,7 +112,7 @@ int fp_p_deg_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
 
@@ -142,7 +139,7 @@ int fp_p_gcd_main(int argc, char **argv, usage_t *pusage) {
   spffl::polynomials::fp_poly_t a, b, g, r, s;
 
   if (argc == 4) {
-    if (sscanf(argv[1], "%d", &p) != 1) {
+    if (!spffl::base::scan_int(argv[1], p)) {
       pusage(argv[0]);
     }
     if (!a.from_string(argv[2], p)) {
@@ -157,7 +154,7 @@ int fp_p_gcd_main(int argc, char **argv, usage_t *pusage) {
     if (strcmp(argv[1], "-e") != 0) {
       pusage(argv[0]);
     }
-    if (sscanf(argv[2], "%d", &p) != 1) {
+    if (!spffl::base::scan_int(argv[2], p)) {
       pusage(argv[0]);
     }
     if (!a.from_string(argv[3], p)) {
@@ -188,7 +185,7 @@ int fp_p_lcm_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!a.from_string(argv[2], p)) {
@@ -217,7 +214,7 @@ int fp_p_totient_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   for (int argi = 2; argi < argc; argi++) {
@@ -243,7 +240,7 @@ int fp_p_test_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
 
@@ -284,15 +281,11 @@ int fp_p_find_main(int argc, char **argv, usage_t *pusage) {
   } else {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[2], p)) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[3], "%d-%d", &deglo, &deghi) == 2)
-    ;
-  else if (sscanf(argv[3], "%d", &deglo) == 1) {
-    deghi = deglo;
-  } else {
+  if (!spffl::base::scan_int_range(argv[3], deglo, deghi)) {
     pusage(argv[0]);
   }
 
@@ -320,7 +313,7 @@ int fp_p_factor_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
 
@@ -365,7 +358,7 @@ int fp_p_divisors_main(int argc, char **argv, usage_t *pusage) {
   if ((argc - argb) < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[argb], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[argb], p)) {
     pusage(argv[0]);
   }
   argb++;
@@ -413,7 +406,7 @@ int fp_p_eval_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!f.from_string(argv[2], p)) {
@@ -441,14 +434,14 @@ int fp_p_random_main(int argc, char **argv, usage_t *pusage) {
   if ((argc != 3) && (argc != 4)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &deg) != 1) {
+  if (!spffl::base::scan_int(argv[2], deg)) {
     pusage(argv[0]);
   }
   if (argc == 4) {
-    if (sscanf(argv[3], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[3], count)) {
       pusage(argv[0]);
     }
   }
@@ -472,7 +465,7 @@ int fp_p_qp_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   for (int argi = 2; argi < argc; argi++) {
diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 3e775ba..e9a5ddd 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -1,6 +1,7 @@
 #include "fp_polymod_handlers.h"
 #include "tbl_types.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -32,7 +33,7 @@ int fp_pm_list_main(int argc, char **argv, usage_t *pusage) {
   } else {
     pusage(argv[0]);
   }
-  if (sscanf(argv[2], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[2], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[3], p)) {
@@ -55,7 +56,7 @@ int fp_pm_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -81,7 +82,7 @@ int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage) {
   if (argc != 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -208,7 +209,7 @@ int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -228,7 +229,7 @@ int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -254,7 +255,7 @@ int fp_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -305,16 +306,16 @@ int fp_pm_mat_random_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[3], "%d", &nr) != 1) {
+  if (!spffl::base::scan_int(argv[3], nr)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[4], "%d", &nc) != 1) {
+  if (!spffl::base::scan_int(argv[4], nc)) {
     pusage(argv[0]);
   }
 
@@ -342,7 +343,7 @@ int fp_pm_ord_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
 
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -389,7 +390,7 @@ int fp_pm_ch_pol_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -423,7 +424,7 @@ int fp_pm_min_pol_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
@@ -456,14 +457,14 @@ int fp_pm_random_main(int argc, char **argv, usage_t *pusage) {
   if ((argc != 3) && (argc != 4)) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
     pusage(argv[0]);
   }
   if (argc == 4) {
-    if (sscanf(argv[3], "%d", &count) != 1) {
+    if (!spffl::base::scan_int(argv[3], count)) {
       pusage(argv[0]);
     }
   }
diff --git a/cli/spiff/fp_polyrat_handlers.cpp b/cli/spiff/fp_polyrat_handlers.cpp
index 9ded534..648d4e9 100644
--- a/cli/spiff/fp_polyrat_handlers.cpp
+++ b/cli/spiff/fp_polyrat_handlers.cpp
@@ -1,5 +1,6 @@
 #include "fp_polyrat_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -15,7 +16,7 @@ int fp_pr_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::cli_parser::cmd_line_parse<spffl::rationals::fp_polyrat_t>(argc - 2,
@@ -34,7 +35,7 @@ int fp_pr_mat_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   spffl::cli_parser::cmd_line_mat_parse<spffl::rationals::fp_polyrat_t>(
diff --git a/cli/spiff/fpn_poly_handlers.cpp b/cli/spiff/fpn_poly_handlers.cpp
index 9945a06..b565907 100644
--- a/cli/spiff/fpn_poly_handlers.cpp
+++ b/cli/spiff/fpn_poly_handlers.cpp
@@ -1,5 +1,6 @@
 #include "fpn_poly_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/polynomials/fpn_poly_t.h"
 #include "spffl/q_cyclotomic/qff.h"
@@ -18,7 +19,7 @@ int fpn_p_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!im.from_string(argv[2], p)) {
@@ -45,7 +46,7 @@ int fpn_p_mat_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 3) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!im.from_string(argv[2], p)) {
@@ -71,7 +72,7 @@ int fpn_p_gcd_main(int argc, char **argv, usage_t *pusage) {
   spffl::polynomials::fpn_poly_t a, b, g, r, s;
 
   if (argc == 5) {
-    if (sscanf(argv[1], "%d", &p) != 1) {
+    if (!spffl::base::scan_int(argv[1], p)) {
       pusage(argv[0]);
     }
     if (!im.from_string(argv[2], p)) {
@@ -89,7 +90,7 @@ int fpn_p_gcd_main(int argc, char **argv, usage_t *pusage) {
     if (strcmp(argv[1], "-e") != 0) {
       pusage(argv[0]);
     }
-    if (sscanf(argv[2], "%d", &p) != 1) {
+    if (!spffl::base::scan_int(argv[2], p)) {
       pusage(argv[0]);
     }
     if (!im.from_string(argv[3], p)) {
@@ -124,7 +125,7 @@ int fpn_p_qp_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!m.from_string(argv[2], p)) {
diff --git a/cli/spiff/fpn_polymod_handlers.cpp b/cli/spiff/fpn_polymod_handlers.cpp
index 60fc58d..265aac3 100644
--- a/cli/spiff/fpn_polymod_handlers.cpp
+++ b/cli/spiff/fpn_polymod_handlers.cpp
@@ -1,5 +1,6 @@
 #include "fpn_polymod_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
@@ -18,7 +19,7 @@ int fpn_pm_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!im.from_string(argv[2], p)) {
@@ -49,7 +50,7 @@ int fpn_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 4) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &p) != 1) {
+  if (!spffl::base::scan_int(argv[1], p)) {
     pusage(argv[0]);
   }
   if (!im.from_string(argv[2], p)) {
diff --git a/cli/spiff/q_handlers.cpp b/cli/spiff/q_handlers.cpp
index 5cc41b0..6a2f820 100644
--- a/cli/spiff/q_handlers.cpp
+++ b/cli/spiff/q_handlers.cpp
@@ -1,5 +1,6 @@
 #include "q_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
 #include "spffl/intmath/intrat_t.h"
@@ -42,7 +43,7 @@ int q_cyclo_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   for (int argi = 1; argi < argc; argi++) {
-    if (sscanf(argv[argi], "%d", &n) != 1) {
+    if (!spffl::base::scan_int(argv[argi], n)) {
       pusage(argv[0]);
     }
     std::cout << spffl::q_cyclotomic::get_cyclo_qpoly(n) << std::endl;
diff --git a/cli/spiff/z_handlers.cpp b/cli/spiff/z_handlers.cpp
index 9041cd4..b96cdbb 100644
--- a/cli/spiff/z_handlers.cpp
+++ b/cli/spiff/z_handlers.cpp
@@ -6,6 +6,7 @@
 
 #include "z_handlers.h"
 
+#include "spffl/base/line_scan.h"
 #include "spffl/cli_parser/cmd_line_matrix_ops.h"
 #include "spffl/containers/tfacinfo.h"
 #include "spffl/factorization/int_factor.h"
@@ -31,10 +32,10 @@ int z_gcd_main(int argc, char **argv, usage_t *pusage) {
     if (argc != 4) {
       pusage(argv[0]);
     }
-    if (sscanf(argv[2], "%d", &a) != 1) {
+    if (!spffl::base::scan_int(argv[2], a)) {
       pusage(argv[0]);
     }
-    if (sscanf(argv[3], "%d", &b) != 1) {
+    if (!spffl::base::scan_int(argv[3], b)) {
       pusage(argv[0]);
     }
 
@@ -52,12 +53,12 @@ int z_gcd_main(int argc, char **argv, usage_t *pusage) {
     if (argc < 2) {
       pusage(argv[0]);
     }
-    if (sscanf(argv[1], "%d", &a) != 1) {
+    if (!spffl::base::scan_int(argv[1], a)) {
       pusage(argv[0]);
     }
     g = a;
     for (int argi = 2; argi < argc; argi++) {
-      if (sscanf(argv[argi], "%d", &a) != 1) {
+      if (!spffl::base::scan_int(argv[argi], a)) {
         pusage(argv[0]);
       }
       g = spffl::intmath::int_gcd(g, a);
@@ -77,12 +78,12 @@ int z_lcm_main(int argc, char **argv, usage_t *pusage) {
   if (argc < 2) {
     pusage(argv[0]);
   }
-  if (sscanf(argv[1], "%d", &a) != 1) {
+  if (!spffl::base::scan_int(argv[1], a)) {
     pusage(argv[0]);
   }
   l = a;
   for (int argi = 2; argi < argc; argi++) {
-    if (sscanf(argv[argi], "%d", &a) != 1) {
+    if (!spffl::base::scan_int(argv[argi], a)) {
       pusage(argv[0]);
     }
     l = spffl::intmath::int_lcm(l, a);
@@ -102,7 +103,7 @@ int z_totient_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   for (int argi = 1; argi < argc; argi++) {
-    if (sscanf(argv[argi], "%d", &a) != 1) {
+    if (!spffl::base::scan_int(argv[argi], a)) {
       pusage(argv[0]);
     }
     phi = spffl::intmath::int_totient(a);
@@ -122,7 +123,7 @@ void z_test_prime_usage(char *argv0) {
 int z_test_prime_main(int argc, char **argv, usage_t *pusage) {
   int a;
   for (int argi = 1; argi < argc; argi++) {
-    if (sscanf(argv[argi], "%d", &a) != 1) {
+    if (!spffl::base::scan_int(argv[argi], a)) {
       pusage(argv[0]);
     }
     if (argc > 2) {
@@ -148,11 +149,7 @@ int nth_prime_main(int argc, char **argv, usage_t *pusage) {
   }
   for (int argi = 1; argi < argc; argi++) {
     int lo, hi;
-    if (sscanf(argv[argi], "%d-%d", &lo, &hi) == 2)
-      ;
-    else if (sscanf(argv[argi], "%d", &lo) == 1) {
-      hi = lo;
-    } else {
+    if (!spffl::base::scan_int_range(argv[argi], lo, hi)) {
       pusage(argv[0]);
     }
     for (int n = lo; n <= hi; n++) {
@@ -176,17 +173,17 @@ int z_list_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   if (argc >= 2) {
-    if (sscanf(argv[1], "%d", &walker) != 1) {
+    if (!spffl::base::scan_int(argv[1], walker)) {
       pusage(argv[0]);
     }
   }
   if (argc >= 3) {
-    if (sscanf(argv[2], "%d", &reps) != 1) {
+    if (!spffl::base::scan_int(argv[2], reps)) {
       pusage(argv[0]);
     }
   }
   if (argc >= 4) {
-    if (sscanf(argv[3], "%d", &stride) != 1) {
+    if (!spffl::base::scan_int(argv[3], stride)) {
       pusage(argv[0]);
     }
   }
@@ -208,7 +205,7 @@ void z_factor_usage(char *argv0) {
 int z_factor_main(int argc, char **argv, usage_t *pusage) {
   int a;
   for (int argi = 1; argi < argc; argi++) {
-    if (sscanf(argv[argi], "%d", &a) != 1) {
+    if (!spffl::base::scan_int(argv[argi], a)) {
       pusage(argv[0]);
     }
     if (argc > 2) {
@@ -246,7 +243,7 @@ int z_divisors_main(int argc, char **argv, usage_t *pusage) {
     pusage(argv[0]);
   }
   for (int argi = argb; argi < argc; argi++) {
-    if (sscanf(argv[argi], "%d", &a) != 1) {
+    if (!spffl::base::scan_int(argv[argi], a)) {
       pusage(argv[0]);
     }
     if ((argc - argb) > 1) {
diff --git a/spffl/base/line_scan.cpp b/spffl/base/line_scan.cpp
index 90c2515..44f2756 100644
--- a/spffl/base/line_scan.cpp
+++ b/spffl/base/line_scan.cpp
@@ -6,6 +6,9 @@
 
 #include "spffl/base/line_scan.h"
 #include <cctype>
+#include <cerrno>
+#include <climits>
+#include <stdlib.h>
 #include <string.h>
 
 namespace spffl::base {
@@ -45,4 +48,32 @@ bool only_whitespace_left(std::istream &is) {
   return c == EOF;
 }
 
+// ----------------------------------------------------------------
+static bool scan_leading_int(const char *&text, int &value) {
+  char *end = nullptr;
+  errno     = 0;
+  long n    = strtol(text, &end, 10);
+  if ((end == text) || (errno != 0) || (n < INT_MIN) || (n > INT_MAX)) {
+    return false;
+  }
+  text  = end;
+  value = (int)n;
+  return true;
+}
+
+// ----------------------------------------------------------------
+bool scan_int(const char *text, int &value) {
+  return scan_leading_int(text, value) && is_whitespace_line((char *)text);
+}
+
+// ----------------------------------------------------------------
+bool scan_int_range(const char *text, int &lo, int &hi) {
+  if (scan_int(text, lo)) {
+    hi = lo;
+    return true;
+  }
+  return scan_leading_int(text, lo) && (*text == '-') &&
+      scan_int(text + 1, hi);
+}
+
 } // namespace spffl::base
diff --git a/spffl/base/line_scan.h b/spffl/base/line_scan.h
index 092b47b..a81d93a 100644
--- a/spffl/base/line_scan.h
+++ b/spffl/base/line_scan.h
@@ -19,6 +19,13 @@ bool is_whitespace_line(char *line);
 // True if nothing but whitespace is left to read.  Consumes the whitespace.
 bool only_whitespace_left(std::istream &is);
 
+// Reads a decimal integer.  False if the text is anything else, or if the
+// value is out of range.
+bool scan_int(const char *text, int &value);
+
+// Reads either "lo-hi", or a single integer which is then both.
+bool scan_int_range(const char *text, int &lo, int &hi);
+
 } // namespace spffl::base
 
 #endif // LINESCAN_H
-- 
2.43.0


From 2fbddec98dd156f8856d5b304350d1e2e141d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 70/92] fix: z_gcd -e and z_list overflowed on representable
 results

---
 cli/spiff/z_handlers.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/z_handlers.cpp b/cli/spiff/z_handlers.cpp
index b96cdbb..3492031 100644
--- a/cli/spiff/z_handlers.cpp
+++ b/cli/spiff/z_handlers.cpp
@@ -14,6 +14,7 @@
 #include "spffl/intmath/int_totient.h"
 #include "spffl/intmath/is_prime.h"
 
+#include <cstdint>
 #include <string.h>
 
 int z_op_main(int argc, char **argv, usage_t *pusage) {
@@ -43,7 +44,7 @@ int z_gcd_main(int argc, char **argv, usage_t *pusage) {
     std::cout << g << " = " << r << " * " << a << " + " << s << " * " << b
               << std::endl;
 
-    int check = a * r + b * s;
+    int64_t check = (int64_t)a * r + (int64_t)b * s;
     if (g != check) {
       std::cerr << "Coding error in extended GCD.\n";
       exit(1);
@@ -190,8 +191,10 @@ int z_list_main(int argc, char **argv, usage_t *pusage) {
 
   while (reps > 0) {
     printf("%d\n", walker);
-    walker += stride;
     reps--;
+    if (reps > 0) {
+      walker += stride;
+    }
   }
 
   return 0;
-- 
2.43.0


From e2e94042f219c9d9eba6b9525171d0f9550a4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 71/92] fix: reduction of a rational polynomial kept vanishing
 leading coefficients

---
 spffl/q_cyclotomic/qff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spffl/q_cyclotomic/qff.cpp b/spffl/q_cyclotomic/qff.cpp
index 8640ca5..44eba22 100644
--- a/spffl/q_cyclotomic/qff.cpp
+++ b/spffl/q_cyclotomic/qff.cpp
@@ -32,7 +32,7 @@ spffl::polynomials::f2_poly_t f2_poly_from_q_poly(
 // ----------------------------------------------------------------
 spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q, int p) {
-  spffl::polynomials::fp_poly_t rv;
+  spffl::polynomials::fp_poly_t rv(0, p);
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     rv.set_coeff(i, intmod_from_rat(q.get_coeff(i), p));
@@ -44,7 +44,8 @@ spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
 spffl::polynomials::f2n_poly_t f2n_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q,
     const spffl::polynomials::f2_poly_t &im) {
-  spffl::polynomials::f2n_poly_t rv;
+  spffl::polynomials::f2n_poly_t rv(
+      spffl::polynomials::f2_polymod_t(0, im));
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     // xxx unimpl
-- 
2.43.0


From 5c5b72d0e71180557d43d8fcdfaab36091a581c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 72/92] fix: fp_orbit left residues negative and overflowed on
 moduli past 46340

---
 cli/spiff/fp_handlers.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 571f632..59f28c1 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -276,18 +276,28 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       pusage(argv[0]);
     }
   }
+  if (p < 2) {
+    std::cerr << "fp_orbit_main: p must be at least 2.\n";
+    exit(1);
+  }
+  a %= p;
+  if (a < 0) {
+    a += p;
+  }
+  a0 %= p;
+  if (a0 < 0) {
+    a0 += p;
+  }
   if (gcd(a, p) != 1) {
     std::cerr << "fp_orbit_main: a must be coprime to p.\n";
     exit(1);
   }
 
-  a %= p;
-  a0 %= p;
   apower = a;
 
   int counter = 0;
   while (1) {
-    std::cout << ((apower * a0) % p) << "\n";
+    std::cout << (((long long)apower * a0) % p) << "\n";
 
     if (apower == 1) {
       break;
@@ -300,7 +310,7 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       exit(1);
     }
 
-    apower = (apower * a) % p;
+    apower = ((long long)apower * a) % p;
   }
 
   return 0;
-- 
2.43.0


From 93ca31456fae58c28e3b5a74d6ca35c0221b9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:09 +0000
Subject: [PATCH 73/92] fix: polynomial division over mixed fields was accepted
 when the dividend was small

---
 spffl/polynomials/f2n_poly_t.cpp | 3 +++
 spffl/polynomials/fp_poly_t.cpp  | 3 +++
 spffl/polynomials/fpn_poly_t.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index ec3220b..8dc43dc 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -353,6 +353,9 @@ void f2n_poly_t::quot_and_rem(
     const f2n_poly_t &that, f2n_poly_t &rquot, f2n_poly_t &rrem) const {
   f2_polymod_t zero = this->coeffs[0] - this->coeffs[0];
 
+  // Refuses mixed moduli, whatever the degrees.
+  (void)(this->coeffs[0] + that.coeffs[0]);
+
   if (that == zero) {
     std::stringstream ss;
     ss << "f2n_poly_t::quot_and_rem:  division by zero.\n";
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 9d06c76..3c24655 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -344,6 +344,9 @@ void fp_poly_t::quot_and_rem(
     const fp_poly_t &that, fp_poly_t &rquot, fp_poly_t &rrem) const {
   spffl::intmath::intmod_t zero = this->coeffs[0] - this->coeffs[0];
 
+  // Refuses mixed moduli, whatever the degrees.
+  (void)(this->coeffs[0] + that.coeffs[0]);
+
   if (that == zero) {
     std::stringstream ss;
     ss << "fp_poly_t::quot_and_rem:  division by zero.\n";
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index b19f35f..728cd45 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -323,6 +323,9 @@ void fpn_poly_t::quot_and_rem(
     const fpn_poly_t &that, fpn_poly_t &rquot, fpn_poly_t &rrem) const {
   fp_polymod_t zero = this->coeffs[0] - this->coeffs[0];
 
+  // Refuses mixed moduli, whatever the degrees.
+  (void)(this->coeffs[0] + that.coeffs[0]);
+
   if (that == zero) {
     std::stringstream ss;
     ss << "fpn_poly_t::quot_and_rem:  division by zero.\n";
-- 
2.43.0


From b2af1538906aa646cf42f4424aae7a1651c73249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 74/92] fix: polynomials over fp, f2n and fpn accepted
 coefficients of another field

---
 spffl/polynomials/f2n_poly_t.cpp | 9 +++++++++
 spffl/polynomials/fp_poly_t.cpp  | 9 +++++++++
 spffl/polynomials/fpn_poly_t.cpp | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 8dc43dc..1cf6384 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -32,6 +32,7 @@ f2n_poly_t::f2n_poly_t(const f2_polymod_t &c0) {
 
 // ----------------------------------------------------------------
 f2n_poly_t::f2n_poly_t(const f2_polymod_t &c1, const f2_polymod_t &c0) {
+  (void)(c1 + c0); // Refuses mixed moduli.
   this->degree    = 1;
   this->coeffs    = new f2_polymod_t[this->degree + 1];
   this->coeffs[1] = c1;
@@ -42,6 +43,7 @@ f2n_poly_t::f2n_poly_t(const f2_polymod_t &c1, const f2_polymod_t &c0) {
 // ----------------------------------------------------------------
 f2n_poly_t::f2n_poly_t(
     const f2_polymod_t &c2, const f2_polymod_t &c1, const f2_polymod_t &c0) {
+  (void)(c2 + c1 + c0); // Refuses mixed moduli.
   this->degree    = 2;
   this->coeffs    = new f2_polymod_t[this->degree + 1];
   this->coeffs[2] = c2;
@@ -643,6 +645,10 @@ void f2n_poly_t::set_coeff(int pos, const f2_polymod_t &c) {
     this->bounds_check(pos);
   }
 
+  if (((pos > 0) || (this->degree > 0)) && (this->coeffs[0].get_modulus() != 1)) {
+    (void)(this->coeffs[0] + c); // Refuses mixed moduli.
+  }
+
   f2_polymod_t zero(0, this->coeffs[0].get_modulus());
   if (pos > this->degree) {
     f2_polymod_t *temp = new f2_polymod_t[pos + 1];
@@ -974,6 +980,9 @@ void f2n_poly_t::promote(void) {
 
 // ----------------------------------------------------------------
 void f2n_poly_t::promote_and_add(const f2_polymod_t &c0) {
+  if (this->coeffs[0].get_modulus() != 1) {
+    (void)(this->coeffs[0] + c0); // Refuses mixed moduli.
+  }
   this->promote();
   this->coeffs[0] = c0;
 }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 3c24655..6af0e67 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -33,6 +33,7 @@ fp_poly_t::fp_poly_t(const spffl::intmath::intmod_t &c0) {
 // ----------------------------------------------------------------
 fp_poly_t::fp_poly_t(
     const spffl::intmath::intmod_t &c1, const spffl::intmath::intmod_t &c0) {
+  (void)(c1 + c0); // Refuses mixed moduli.
   this->degree    = 1;
   this->coeffs    = new spffl::intmath::intmod_t[this->degree + 1];
   this->coeffs[1] = c1;
@@ -43,6 +44,7 @@ fp_poly_t::fp_poly_t(
 // ----------------------------------------------------------------
 fp_poly_t::fp_poly_t(const spffl::intmath::intmod_t &c2,
     const spffl::intmath::intmod_t &c1, const spffl::intmath::intmod_t &c0) {
+  (void)(c2 + c1 + c0); // Refuses mixed moduli.
   this->degree    = 2;
   this->coeffs    = new spffl::intmath::intmod_t[this->degree + 1];
   this->coeffs[2] = c2;
@@ -624,6 +626,10 @@ void fp_poly_t::set_coeff(int pos, const spffl::intmath::intmod_t &c) {
     this->bounds_check(pos);
   }
 
+  if (((pos > 0) || (this->degree > 0)) && (this->get_characteristic() != 1)) {
+    (void)(this->coeffs[0] + c); // Refuses mixed moduli.
+  }
+
   spffl::intmath::intmod_t zero(0, this->coeffs[0].get_modulus());
   if (pos > this->degree) {
     spffl::intmath::intmod_t *temp = new spffl::intmath::intmod_t[pos + 1];
@@ -922,6 +928,9 @@ void fp_poly_t::promote(void) {
 
 // ----------------------------------------------------------------
 void fp_poly_t::promote_and_add(spffl::intmath::intmod_t c0) {
+  if (this->get_characteristic() != 1) {
+    (void)(this->coeffs[0] + c0); // Refuses mixed moduli.
+  }
   this->promote();
   this->coeffs[0] = c0;
 }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 728cd45..8b6a4b5 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -33,6 +33,7 @@ fpn_poly_t::fpn_poly_t(const fp_polymod_t &c0) {
 
 // ----------------------------------------------------------------
 fpn_poly_t::fpn_poly_t(const fp_polymod_t &c1, const fp_polymod_t &c0) {
+  (void)(c1 + c0); // Refuses mixed moduli.
   this->degree    = 1;
   this->coeffs    = new fp_polymod_t[this->degree + 1];
   this->coeffs[1] = c1;
@@ -43,6 +44,7 @@ fpn_poly_t::fpn_poly_t(const fp_polymod_t &c1, const fp_polymod_t &c0) {
 // ----------------------------------------------------------------
 fpn_poly_t::fpn_poly_t(
     const fp_polymod_t &c2, const fp_polymod_t &c1, const fp_polymod_t &c0) {
+  (void)(c2 + c1 + c0); // Refuses mixed moduli.
   this->degree    = 2;
   this->coeffs    = new fp_polymod_t[this->degree + 1];
   this->coeffs[2] = c2;
@@ -609,6 +611,10 @@ void fpn_poly_t::set_coeff(int pos, const fp_polymod_t &c) {
     this->bounds_check(pos);
   }
 
+  if (((pos > 0) || (this->degree > 0)) && (this->get_characteristic() != 1)) {
+    (void)(this->coeffs[0] + c); // Refuses mixed moduli.
+  }
+
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   if (pos > this->degree) {
     fp_polymod_t *temp = new fp_polymod_t[pos + 1];
@@ -890,6 +896,9 @@ void fpn_poly_t::promote(void) {
 
 // ----------------------------------------------------------------
 void fpn_poly_t::promote_and_add(const fp_polymod_t &c0) {
+  if (this->get_characteristic() != 1) {
+    (void)(this->coeffs[0] + c0); // Refuses mixed moduli.
+  }
   this->promote();
   this->coeffs[0] = c0;
 }
-- 
2.43.0


From 2dbadc1d09eb48ae2888a804e2435dc215929d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:32 +0000
Subject: [PATCH 75/92] fix: int_power overflowed silently and accepted
 negative exponents

---
 spffl/intmath/int_power.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/spffl/intmath/int_power.cpp b/spffl/intmath/int_power.cpp
index 4988d7c..2391c32 100644
--- a/spffl/intmath/int_power.cpp
+++ b/spffl/intmath/int_power.cpp
@@ -4,21 +4,43 @@
 // Please see LICENSE.txt.
 // ================================================================
 
-namespace spffl::intmath {
 #include "spffl/intmath/int_power.h"
+#include "spffl/base/spffl_exception.h"
+#include <limits>
+#include <sstream>
+
+namespace spffl::intmath {
+
+// ----------------------------------------------------------------
+static int checked_mul(int a, int b) {
+  long long c = (long long)a * (long long)b;
+  if (c < std::numeric_limits<int>::min() ||
+      c > std::numeric_limits<int>::max()) {
+    std::stringstream ss;
+    ss << "int_power:  overflow.\n";
+    throw spffl::exception_t(ss.str());
+  }
+  return (int)c;
+}
 
 // ----------------------------------------------------------------
 int int_power(int b, int e) {
   int b2 = b;
   int rv = 1;
 
+  if (e < 0) {
+    std::stringstream ss;
+    ss << "int_power:  exponent " << e << " must be non-negative.\n";
+    throw spffl::exception_t(ss.str());
+  }
+
   while (e != 0) {
     if (e & 1) {
-      rv = rv * b2;
+      rv = checked_mul(rv, b2);
     }
-    e  = (unsigned)e >> 1;
+    e = e >> 1;
     if (e != 0) {
-      b2 = b2 * b2;
+      b2 = checked_mul(b2, b2);
     }
   }
   return rv;
-- 
2.43.0


From 39b10b891b6f3d206916f70b90ea4a141dddb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:43 +0000
Subject: [PATCH 76/92] fix: f2_poly_list shifted by degrees out of range

---
 spffl/list/list_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spffl/list/list_elements.cpp b/spffl/list/list_elements.cpp
index 4830aec..c53dc69 100644
--- a/spffl/list/list_elements.cpp
+++ b/spffl/list/list_elements.cpp
@@ -17,6 +17,11 @@ namespace spffl::list {
 
 // ----------------------------------------------------------------
 tvector<spffl::polynomials::f2_poly_t> f2_poly_list(int deg) {
+  if ((deg < 0) || (deg > 30)) {
+    std::stringstream ss;
+    ss << "f2_poly_list:  degree " << deg << " out of bounds 0:30.\n";
+    throw spffl::exception_t(ss.str());
+  }
   int nel = 1 << deg;
   tvector<spffl::polynomials::f2_poly_t> rv(nel);
 
-- 
2.43.0


From e8ea605119a736179aaa18c44b00da0a7e61097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 77/92] fix: fp_poly_t::from_base_rep divided by zero or looped
 on bad bases

---
 spffl/polynomials/fp_poly_t.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 6af0e67..f5ee016 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -81,6 +81,13 @@ fp_poly_t::fp_poly_t(int c2, int c1, int c0, int m) {
 fp_poly_t fp_poly_t::from_base_rep(int b, int m) {
   fp_poly_t rv;
 
+  if ((b < 0) || (m < 2)) {
+    std::stringstream ss;
+    ss << "fp_poly_t::from_base_rep:  no base-" << m << " representation of "
+       << b << ".\n";
+    throw spffl::exception_t(ss.str());
+  }
+
   // Find degree.
   if (b == 0) {
     rv.degree = 0;
-- 
2.43.0


From c94258f9fcbff3312b706aebe475881b1d06456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:02 +0000
Subject: [PATCH 78/92] fix: fp_find_generator accepted non-positive moduli

---
 spffl/units/fp_units.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index 806e7b7..fdbca20 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -58,6 +58,13 @@ int fp_order(spffl::intmath::intmod_t a) {
 // ----------------------------------------------------------------
 bool fp_find_generator(int p, spffl::intmath::intmod_t &rg) {
   int gres;
+
+  if (p < 1) {
+    std::stringstream ss;
+    ss << "fp_find_generator:  modulus " << p << " must be positive.\n";
+    throw spffl::exception_t(ss.str());
+  }
+
   int phi = spffl::intmath::int_totient(p);
 
   for (gres = 1; gres < p; gres++) {
-- 
2.43.0


From 89ea25e26afb5e942fee5fa2a627360ad6617e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:10 +0000
Subject: [PATCH 79/92] fix: f2_polymod_t::change_modulus left a zero modulus
 behind its refusal

---
 spffl/polynomials/f2_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/f2_polymod_t.cpp b/spffl/polynomials/f2_polymod_t.cpp
index a33c1d3..905841a 100644
--- a/spffl/polynomials/f2_polymod_t.cpp
+++ b/spffl/polynomials/f2_polymod_t.cpp
@@ -298,8 +298,8 @@ f2_poly_t f2_polymod_t::get_modulus(void) const { return this->modulus; }
 
 // ----------------------------------------------------------------
 void f2_polymod_t::change_modulus(const f2_poly_t &new_modulus) {
+  this->residue = this->residue % new_modulus;
   this->modulus = new_modulus;
-  this->residue = this->residue % this->modulus;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 2636a587c7725ad44c3bc2192c8da84206fa7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:19 +0000
Subject: [PATCH 80/92] fix: remainder of rational functions over different
 fields was accepted

---
 spffl/rationals/f2n_polyrat_t.cpp | 2 +-
 spffl/rationals/fp_polyrat_t.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index e72b3bc..bd44980 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -125,7 +125,7 @@ f2n_polyrat_t f2n_polyrat_t::operator/(const f2n_polyrat_t &that) {
 // ----------------------------------------------------------------
 f2n_polyrat_t f2n_polyrat_t::operator%(const f2n_polyrat_t &that) {
   f2n_polyrat_t rv;
-  f2n_polyrat_t zero = that - that;
+  f2n_polyrat_t zero = *this * (that - that); // Refuses mixed moduli.
   if (that == zero) {
     std::stringstream ss;
     ss << "f2n_polyrat_t: Divide by zero.\n";
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index e72ce00..3eef435 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -125,7 +125,7 @@ fp_polyrat_t fp_polyrat_t::operator/(const fp_polyrat_t &that) {
 // ----------------------------------------------------------------
 fp_polyrat_t fp_polyrat_t::operator%(const fp_polyrat_t &that) {
   fp_polyrat_t rv;
-  fp_polyrat_t zero = that - that;
+  fp_polyrat_t zero = *this * (that - that); // Refuses mixed moduli.
   if (that == zero) {
     std::stringstream ss;
     ss << "fp_polyrat_t: Divide by zero.\n";
-- 
2.43.0


From 4c11fb24d81aa2170ba22800d8d2abb275de429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 81/92] fix: f2_poly_random_irreducible's refusal had no
 message

---
 spffl/factorization/f2_poly_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/factorization/f2_poly_factor.cpp b/spffl/factorization/f2_poly_factor.cpp
index ef14d56..cfc356b 100644
--- a/spffl/factorization/f2_poly_factor.cpp
+++ b/spffl/factorization/f2_poly_factor.cpp
@@ -471,8 +471,8 @@ spffl::polynomials::f2_poly_t f2_poly_random_irreducible(int degree) {
 
   if (degree < 1) {
     std::stringstream ss;
-    std::cerr << "f2_poly_random_irreducible:  degree must be positive; got "
-              << degree << ".\n";
+    ss << "f2_poly_random_irreducible:  degree must be positive; got "
+       << degree << ".\n";
     throw spffl::exception_t(ss.str());
   }
 
-- 
2.43.0


From ddcf1b027e688023b004cb52f1ed5c183bac07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 82/92] fix: set_coeff could no longer carry a polynomial over
 to another field

---
 spffl/polynomials/f2n_poly_t.cpp | 4 ----
 spffl/polynomials/fp_poly_t.cpp  | 4 ----
 spffl/polynomials/fpn_poly_t.cpp | 4 ----
 3 files changed, 12 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 1cf6384..d0ebd32 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -645,10 +645,6 @@ void f2n_poly_t::set_coeff(int pos, const f2_polymod_t &c) {
     this->bounds_check(pos);
   }
 
-  if (((pos > 0) || (this->degree > 0)) && (this->coeffs[0].get_modulus() != 1)) {
-    (void)(this->coeffs[0] + c); // Refuses mixed moduli.
-  }
-
   f2_polymod_t zero(0, this->coeffs[0].get_modulus());
   if (pos > this->degree) {
     f2_polymod_t *temp = new f2_polymod_t[pos + 1];
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index f5ee016..156e770 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -633,10 +633,6 @@ void fp_poly_t::set_coeff(int pos, const spffl::intmath::intmod_t &c) {
     this->bounds_check(pos);
   }
 
-  if (((pos > 0) || (this->degree > 0)) && (this->get_characteristic() != 1)) {
-    (void)(this->coeffs[0] + c); // Refuses mixed moduli.
-  }
-
   spffl::intmath::intmod_t zero(0, this->coeffs[0].get_modulus());
   if (pos > this->degree) {
     spffl::intmath::intmod_t *temp = new spffl::intmath::intmod_t[pos + 1];
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 8b6a4b5..e24321b 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -611,10 +611,6 @@ void fpn_poly_t::set_coeff(int pos, const fp_polymod_t &c) {
     this->bounds_check(pos);
   }
 
-  if (((pos > 0) || (this->degree > 0)) && (this->get_characteristic() != 1)) {
-    (void)(this->coeffs[0] + c); // Refuses mixed moduli.
-  }
-
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   if (pos > this->degree) {
     fp_polymod_t *temp = new fp_polymod_t[pos + 1];
-- 
2.43.0


From 8d3a54d4ceec3edf01a7fdb5f42f82f08a20ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 83/92] fix: polynomial constructors leaked their coefficients
 when the modulus is refused

---
 spffl/polynomials/f2n_poly_t.cpp | 29 ++++++++---------------------
 spffl/polynomials/fp_poly_t.cpp  | 27 ++++++---------------------
 2 files changed, 14 insertions(+), 42 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index d0ebd32..0c25e42 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -53,27 +53,14 @@ f2n_poly_t::f2n_poly_t(
 }
 
 // ----------------------------------------------------------------
-f2n_poly_t::f2n_poly_t(int c0, const f2_poly_t &m) {
-  this->degree    = 0;
-  this->coeffs    = new f2_polymod_t[this->degree + 1];
-  this->coeffs[0] = f2_polymod_t(f2_poly_t(c0), m);
-  this->recompute_degree();
-}
-f2n_poly_t::f2n_poly_t(int c1, int c0, const f2_poly_t &m) {
-  this->degree    = 1;
-  this->coeffs    = new f2_polymod_t[this->degree + 1];
-  this->coeffs[1] = f2_polymod_t(f2_poly_t(c1), m);
-  this->coeffs[0] = f2_polymod_t(f2_poly_t(c0), m);
-  this->recompute_degree();
-}
-f2n_poly_t::f2n_poly_t(int c2, int c1, int c0, const f2_poly_t &m) {
-  this->degree    = 2;
-  this->coeffs    = new f2_polymod_t[this->degree + 1];
-  this->coeffs[2] = f2_polymod_t(f2_poly_t(c2), m);
-  this->coeffs[1] = f2_polymod_t(f2_poly_t(c1), m);
-  this->coeffs[0] = f2_polymod_t(f2_poly_t(c0), m);
-  this->recompute_degree();
-}
+f2n_poly_t::f2n_poly_t(int c0, const f2_poly_t &m)
+    : f2n_poly_t(f2_polymod_t(f2_poly_t(c0), m)) {}
+f2n_poly_t::f2n_poly_t(int c1, int c0, const f2_poly_t &m)
+    : f2n_poly_t(f2_polymod_t(f2_poly_t(c1), m),
+          f2_polymod_t(f2_poly_t(c0), m)) {}
+f2n_poly_t::f2n_poly_t(int c2, int c1, int c0, const f2_poly_t &m)
+    : f2n_poly_t(f2_polymod_t(f2_poly_t(c2), m),
+          f2_polymod_t(f2_poly_t(c1), m), f2_polymod_t(f2_poly_t(c0), m)) {}
 
 // ----------------------------------------------------------------
 // This is a static method.
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 156e770..5ecf1b4 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -54,27 +54,12 @@ fp_poly_t::fp_poly_t(const spffl::intmath::intmod_t &c2,
 }
 
 // ----------------------------------------------------------------
-fp_poly_t::fp_poly_t(int c0, int m) {
-  this->degree    = 0;
-  this->coeffs    = new spffl::intmath::intmod_t[this->degree + 1];
-  this->coeffs[0] = spffl::intmath::intmod_t(c0, m);
-  this->recompute_degree();
-}
-fp_poly_t::fp_poly_t(int c1, int c0, int m) {
-  this->degree    = 1;
-  this->coeffs    = new spffl::intmath::intmod_t[this->degree + 1];
-  this->coeffs[1] = spffl::intmath::intmod_t(c1, m);
-  this->coeffs[0] = spffl::intmath::intmod_t(c0, m);
-  this->recompute_degree();
-}
-fp_poly_t::fp_poly_t(int c2, int c1, int c0, int m) {
-  this->degree    = 2;
-  this->coeffs    = new spffl::intmath::intmod_t[this->degree + 1];
-  this->coeffs[2] = spffl::intmath::intmod_t(c2, m);
-  this->coeffs[1] = spffl::intmath::intmod_t(c1, m);
-  this->coeffs[0] = spffl::intmath::intmod_t(c0, m);
-  this->recompute_degree();
-}
+fp_poly_t::fp_poly_t(int c0, int m) : fp_poly_t(spffl::intmath::intmod_t(c0, m)) {}
+fp_poly_t::fp_poly_t(int c1, int c0, int m)
+    : fp_poly_t(spffl::intmath::intmod_t(c1, m), spffl::intmath::intmod_t(c0, m)) {}
+fp_poly_t::fp_poly_t(int c2, int c1, int c0, int m)
+    : fp_poly_t(spffl::intmath::intmod_t(c2, m), spffl::intmath::intmod_t(c1, m),
+          spffl::intmath::intmod_t(c0, m)) {}
 
 // ----------------------------------------------------------------
 // This is a static method.
-- 
2.43.0


From c84889c64ce2b11f883940e67d44cda51df0274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:18 +0000
Subject: [PATCH 84/92] fix: deeply nested brackets overflowed the stack

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 10 ++++++++++
 spffl/cli_parser/cmd_line_ops.h        | 10 ++++++++++
 spffl/cli_parser/cmd_line_vector_ops.h | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 379cef1..3e11654 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -42,6 +42,7 @@ template <class element_type> struct mat_lex_ctx_t {
   matatom_t<element_type> atom;
   int token;
   int in_pow_rhs;
+  int depth;
   element_type zero;
   element_type one;
 };
@@ -181,6 +182,7 @@ static void matlexinit(mat_lex_ctx_t<element_type> &rlex_ctx, int argc,
   rlex_ctx.argv       = argv;
   rlex_ctx.token      = L_UNDEF;
   rlex_ctx.in_pow_rhs = 0;
+  rlex_ctx.depth      = 0;
   rlex_ctx.zero       = zero;
   rlex_ctx.one        = one;
 }
@@ -529,9 +531,17 @@ static void P(mat_lex_ctx_t<element_type> &rlex_ctx,
     tstack<matatom_t<element_type>> &rstack) {
   switch (rlex_ctx.token) {
   case L_LPAREN:
+    // Keeps the recursion within the stack.
+    if (rlex_ctx.depth >= 2000) {
+      std::stringstream ss;
+      ss << "Brackets nested too deeply.\n";
+      throw spffl::exception_t(ss.str());
+    }
+    rlex_ctx.depth++;
     match<element_type>(rlex_ctx, L_LPAREN);
     E<element_type>(rlex_ctx, rstack);
     match<element_type>(rlex_ctx, L_RPAREN);
+    rlex_ctx.depth--;
     break;
   case L_MAT:
     emit<element_type>(rlex_ctx, rstack);
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 7153f5b..54e3fa5 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -41,6 +41,7 @@ template <class element_type> struct lex_ctx_t {
   atom_t<element_type> atom;
   int token;
   int in_pow_rhs;
+  int depth;
   element_type zero;
   element_type one;
 };
@@ -161,6 +162,7 @@ static void lexinit(lex_ctx_t<element_type> &rlex_ctx, int argc, char **argv,
   rlex_ctx.argv       = argv;
   rlex_ctx.token      = L_UNDEF;
   rlex_ctx.in_pow_rhs = 0;
+  rlex_ctx.depth      = 0;
   rlex_ctx.zero       = zero;
   rlex_ctx.one        = one;
 
@@ -487,9 +489,17 @@ static void P(
     lex_ctx_t<element_type> &rlex_ctx, tstack<atom_t<element_type>> &rstack) {
   switch (rlex_ctx.token) {
   case L_LPAREN:
+    // Keeps the recursion within the stack.
+    if (rlex_ctx.depth >= 2000) {
+      std::stringstream ss;
+      ss << "Brackets nested too deeply.\n";
+      throw spffl::exception_t(ss.str());
+    }
+    rlex_ctx.depth++;
     match<element_type>(rlex_ctx, L_LPAREN);
     E<element_type>(rlex_ctx, rstack);
     match<element_type>(rlex_ctx, L_RPAREN);
+    rlex_ctx.depth--;
     break;
   case L_NUM:
     emit<element_type>(rlex_ctx, rstack);
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 6ea7c05..8253d3a 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -42,6 +42,7 @@ template <class element_type> struct vec_lex_ctx_t {
   vecatom_t<element_type> atom;
   int token;
   int in_pow_rhs;
+  int depth;
   element_type zero;
   element_type one;
 };
@@ -140,6 +141,7 @@ static void veclexinit(vec_lex_ctx_t<element_type> &rlex_ctx, int argc,
   rlex_ctx.argv       = argv;
   rlex_ctx.token      = L_UNDEF;
   rlex_ctx.in_pow_rhs = 0;
+  rlex_ctx.depth      = 0;
   rlex_ctx.zero       = zero;
   rlex_ctx.one        = one;
 }
@@ -403,9 +405,17 @@ static void P(vec_lex_ctx_t<element_type> &rlex_ctx,
     tstack<vecatom_t<element_type>> &rstack) {
   switch (rlex_ctx.token) {
   case L_LPAREN:
+    // Keeps the recursion within the stack.
+    if (rlex_ctx.depth >= 2000) {
+      std::stringstream ss;
+      ss << "Brackets nested too deeply.\n";
+      throw spffl::exception_t(ss.str());
+    }
+    rlex_ctx.depth++;
     match<element_type>(rlex_ctx, L_LPAREN);
     E<element_type>(rlex_ctx, rstack);
     match<element_type>(rlex_ctx, L_RPAREN);
+    rlex_ctx.depth--;
     break;
   case L_VEC:
     emit<element_type>(rlex_ctx, rstack);
-- 
2.43.0


From 52d8b38231a2f9d9a0bc67d6b5de5ec022324dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 85/92] fix: determinant of an empty matrix read out of bounds

---
 spffl/containers/tmatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 648f22a..bb586fa 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1423,9 +1423,9 @@ public:
 
   // ----------------------------------------------------------------
   element_type det(void) const {
-    if (!this->is_square()) {
+    if (!this->is_square() || (this->num_rows < 1)) {
       std::stringstream ss;
-      ss << "tmatrix::det():  non-square input.\n";
+      ss << "tmatrix::det():  non-square or empty input.\n";
       throw spffl::exception_t(ss.str());
     }
     tmatrix<element_type> rr(*this);
-- 
2.43.0


From fafac65c893131057a75686732525ac33f4d9c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:03 +0000
Subject: [PATCH 86/92] fix: int_gcd, int_ext_gcd and int_lcm overflowed

---
 spffl/intmath/int_gcd.cpp | 43 +++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index b93dc6b..abd1832 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -5,14 +5,29 @@
 // ================================================================
 
 #include "spffl/intmath/int_gcd.h"
+#include "spffl/base/spffl_exception.h"
+
+#include <limits>
+#include <sstream>
+#include <stdint.h>
 
 namespace spffl::intmath {
 
 // ----------------------------------------------------------------
-int int_gcd(int a, int b) {
-  int r;
+static int int_from_int64(int64_t n, const char *name) {
+  if ((n < std::numeric_limits<int>::min()) ||
+      (n > std::numeric_limits<int>::max())) {
+    std::stringstream ss;
+    ss << name << ":  result " << n << " out of range.\n";
+    throw spffl::exception_t(ss.str());
+  }
+  return (int)n;
+}
 
-  if (a < 0) { // Breaks for most negative int (-2^63); I don't care.
+int int_gcd(int a0, int b0) {
+  int64_t a = a0, b = b0, r;
+
+  if (a < 0) {
     a = -a;
   }
   if (b < 0) {
@@ -20,10 +35,10 @@ int int_gcd(int a, int b) {
   }
 
   if (a == 0) {
-    return b;
+    return int_from_int64(b, "int_gcd");
   }
   if (b == 0) {
-    return a;
+    return int_from_int64(a, "int_gcd");
   }
 
   while (1) {
@@ -35,17 +50,17 @@ int int_gcd(int a, int b) {
     b = r;
   }
 
-  return b;
+  return int_from_int64(b, "int_gcd");
 }
 
 // ----------------------------------------------------------------
-int int_ext_gcd(int a, int b, int &m, int &n) {
-  int mprime, nprime, c, q, r, t, qm, qn;
-  int d; // Return value.
+int int_ext_gcd(int a, int b, int &rm, int &rn) {
+  int64_t m, n, mprime, nprime, c, q, r, t, qm, qn;
+  int64_t d; // Return value.
 
   if (b == 0) {
-    m = 1;
-    n = 0;
+    rm = 1;
+    rn = 0;
     return a;
   }
 
@@ -83,7 +98,9 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
     qn     = q * n;
     n      = t - qn;
   }
-  return d;
+  rm = int_from_int64(m, "int_ext_gcd");
+  rn = int_from_int64(n, "int_ext_gcd");
+  return int_from_int64(d, "int_ext_gcd");
 }
 
 // ----------------------------------------------------------------
@@ -91,7 +108,7 @@ int int_lcm(int a, int b) {
   if (a == 0 || b == 0) {
     return 0;
   }
-  return (a / int_gcd(a, b)) * b;
+  return int_from_int64(((int64_t)a / int_gcd(a, b)) * b, "int_lcm");
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 15f5851c37d149d1c22ad88b6c9b9b9edfdb6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 87/92] fix: int_factor and fp_poly_list overflowed at the most
 negative int

---
 spffl/factorization/int_factor.cpp | 11 ++++++++++-
 spffl/list/list_elements.cpp       |  5 +++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/spffl/factorization/int_factor.cpp b/spffl/factorization/int_factor.cpp
index c508afb..f0b9de5 100644
--- a/spffl/factorization/int_factor.cpp
+++ b/spffl/factorization/int_factor.cpp
@@ -5,10 +5,14 @@
 // ================================================================
 
 #include "spffl/factorization/int_factor.h"
+#include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tfacinfo.h"
 #include "spffl/containers/tmatrix.h"
 #include "spffl/intmath/primes_16.h"
 
+#include <limits>
+#include <sstream>
+
 namespace spffl::factorization {
 
 // ----------------------------------------------------------------
@@ -19,8 +23,13 @@ tfacinfo<int> int_factor(int n) {
     return finfo;
   }
   if (n < 0) {
+    if (n == std::numeric_limits<int>::min()) {
+      std::stringstream ss;
+      ss << "int_factor:  " << n << " out of range.\n";
+      throw spffl::exception_t(ss.str());
+    }
     finfo.insert_unit(-1);
-    n = -n; // Breaks at MIN_INT; I don't care.
+    n = -n;
   }
 
   for (int i = 0; i < spffl::intmath::numprimes16; i++) {
diff --git a/spffl/list/list_elements.cpp b/spffl/list/list_elements.cpp
index c53dc69..f997a99 100644
--- a/spffl/list/list_elements.cpp
+++ b/spffl/list/list_elements.cpp
@@ -65,6 +65,11 @@ tvector<spffl::polynomials::f2n_poly_t> f2n_poly_list(
 
 // ----------------------------------------------------------------
 tvector<spffl::polynomials::fp_poly_t> fp_poly_list(int p, int deg) {
+  if (p < 1) {
+    std::stringstream ss;
+    ss << "fp_poly_list:  modulus " << p << " should be positive.\n";
+    throw spffl::exception_t(ss.str());
+  }
   int nel = (p - 1) * spffl::intmath::int_power(p, deg);
   tvector<spffl::polynomials::fp_poly_t> rv(nel);
 
-- 
2.43.0


From f6acffbdd2a5a1e53b4e03a246c6029682aef4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:09 +0000
Subject: [PATCH 88/92] fix: z_list overflowed at the end of the int range

---
 cli/spiff/z_handlers.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/spiff/z_handlers.cpp b/cli/spiff/z_handlers.cpp
index 3492031..417c22b 100644
--- a/cli/spiff/z_handlers.cpp
+++ b/cli/spiff/z_handlers.cpp
@@ -193,7 +193,14 @@ int z_list_main(int argc, char **argv, usage_t *pusage) {
     printf("%d\n", walker);
     reps--;
     if (reps > 0) {
-      walker += stride;
+      int64_t next = (int64_t)walker + stride;
+      walker       = (int)next;
+      if (walker != next) {
+        std::cout.flush();
+        fflush(stdout);
+        std::cerr << argv[0] << ": " << next << " is out of range.\n";
+        exit(1);
+      }
     }
   }
 
-- 
2.43.0


From 711a2b8445ad23e10f7ca570b78d4ec499ee6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:56 +0000
Subject: [PATCH 89/92] fix: Frobenius length looped forever in residue rings
 with nilpotents

---
 spffl/linalg/min_char_polys.cpp | 42 ++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/spffl/linalg/min_char_polys.cpp b/spffl/linalg/min_char_polys.cpp
index 8981895..64d94f8 100644
--- a/spffl/linalg/min_char_polys.cpp
+++ b/spffl/linalg/min_char_polys.cpp
@@ -12,15 +12,35 @@
 
 namespace spffl::linalg {
 
+// ----------------------------------------------------------------
+// When the modulus is reducible, the orbit of a under Frobenius need not come
+// back to a.
+static void check_orbit(bool looped_elsewhere) {
+  if (looped_elsewhere) {
+    std::stringstream ss;
+    ss << "Frobenius length:  the element is not fixed by any power of "
+       << "Frobenius.\n";
+    throw spffl::exception_t(ss.str());
+  }
+}
+
 // ----------------------------------------------------------------
 int f2_polymod_frobenius_length(spffl::polynomials::f2_polymod_t a) {
   int rv                              = 0;
   spffl::polynomials::f2_polymod_t ap = a;
 
+  auto seen = ap;
   do {
     rv++;
     ap = ap * ap;
-  } while (ap != a);
+    if (ap == a) {
+      break;
+    }
+    check_orbit(ap == seen);
+    if ((rv & (rv - 1)) == 0) {
+      seen = ap;
+    }
+  } while (true);
 
   return rv;
 }
@@ -31,10 +51,18 @@ int f2npm_froblen(spffl::polynomials::f2n_polymod_t a) {
   int q  = 1 << a.get_residue().get_coeff(0).get_modulus().find_degree();
   spffl::polynomials::f2n_polymod_t ap = a;
 
+  auto seen = ap;
   do {
     rv++;
     ap = ap.exp(q);
-  } while (ap != a);
+    if (ap == a) {
+      break;
+    }
+    check_orbit(ap == seen);
+    if ((rv & (rv - 1)) == 0) {
+      seen = ap;
+    }
+  } while (true);
 
   return rv;
 }
@@ -45,10 +73,18 @@ int fp_polymod_frobenius_length(spffl::polynomials::fp_polymod_t a) {
   int p                               = a.get_characteristic();
   spffl::polynomials::fp_polymod_t ap = a;
 
+  auto seen = ap;
   do {
     rv++;
     ap = ap.exp(p);
-  } while (ap != a);
+    if (ap == a) {
+      break;
+    }
+    check_orbit(ap == seen);
+    if ((rv & (rv - 1)) == 0) {
+      seen = ap;
+    }
+  } while (true);
 
   return rv;
 }
-- 
2.43.0


From d44237e7b2391a83b40c359f501306cbb3da7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:46 +0000
Subject: [PATCH 90/92] fix: fp_pm_mat_op and fp_pm_vecop crashed instead of
 saying how they are used

---
 cli/spiff/fp_polymod_handlers.cpp | 10 ++++++++++
 cli/spiff/fp_polymod_handlers.h   |  2 ++
 cli/spiff/spiff_main.cpp          |  4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index e9a5ddd..bf6c5a6 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -202,6 +202,11 @@ int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_mat_op_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {expression}\n";
+  exit(1);
+}
+
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
@@ -222,6 +227,11 @@ int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_vecop_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {expression}\n";
+  exit(1);
+}
+
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
diff --git a/cli/spiff/fp_polymod_handlers.h b/cli/spiff/fp_polymod_handlers.h
index 4e3133e..06898f8 100644
--- a/cli/spiff/fp_polymod_handlers.h
+++ b/cli/spiff/fp_polymod_handlers.h
@@ -12,8 +12,10 @@ int fp_pm_op_main(int argc, char **argv, usage_t *pusage);
 void fp_pm_tbl_usage(char *argv0);
 int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_mat_op_usage(char *argv0);
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_vecop_usage(char *argv0);
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage);
 
 void fp_pm_mat_ord_usage(char *argv0);
diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index ff535cd..7571e77 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -194,8 +194,8 @@ std::vector<lookup_t> fp_pm_lookups {
   {"fp_pm_ch_pol",     fp_pm_ch_pol_main,     fp_pm_ch_pol_usage},
   {"fp_pm_min_pol",    fp_pm_min_pol_main,    fp_pm_min_pol_usage},
   {"fp_pm_random",     fp_pm_random_main,     fp_pm_random_usage},
-  {"fp_pm_mat_op",     fp_pm_mat_op_main,     nullptr/*fppmmatop_usage*/},
-  {"fp_pm_vecop",      fp_pm_vecop_main,      nullptr/*fppmvecop_usage*/},
+  {"fp_pm_mat_op",     fp_pm_mat_op_main,     fp_pm_mat_op_usage},
+  {"fp_pm_vecop",      fp_pm_vecop_main,      fp_pm_vecop_usage},
   {"fp_pm_mat_ord",    fp_pm_mat_ord_main,    fp_pm_mat_ord_usage},
   {"fp_pm_mat_random", fp_pm_mat_random_main, fp_pm_mat_random_usage},
 };
-- 
2.43.0


From cbc243d3dc21f89e903b2b363fbc2e50eabc958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:35 +0000
Subject: [PATCH 91/92] fix: reading a vector or matrix leaked its text buffers
 when an element was refused with an exception

---
 spffl/containers/tmatrix.h | 42 +++++++++++++-------------------------
 spffl/containers/tvector.h |  9 +++-----
 2 files changed, 17 insertions(+), 34 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index bb586fa..97b0a9b 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -17,6 +17,8 @@
 #include <iostream>
 #include <stdlib.h>
 #include <string.h>
+#include <string>
+#include <vector>
 
 template <typename element_type> class tmatrix;
 
@@ -194,12 +196,12 @@ public:
     element_type zero = this->rows[0][0] - this->rows[0][0];
     this->mfree();
 
-    char *copy       = strdup(string);
-    char *pouterleft = copy + strspn(copy, " \t\n");
+    // An element may throw an exception, e.g. for a zero denominator.
+    std::string copy(string);
+    char *pouterleft = copy.data() + strspn(copy.data(), " \t\n");
     if (*pouterleft != '[') {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find leading left bracket.\n";
-      free(copy);
       return false;
     }
     char *pinnerstart = pouterleft + 1;
@@ -212,7 +214,6 @@ public:
         (pouterright[1 + strspn(pouterright + 1, " \t\n")] != 0)) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find trailing right bracket.\n";
-      free(copy);
       return false;
     }
     *pouterright = 0;
@@ -221,33 +222,25 @@ public:
       // There are nested brackets.
       this->num_rows = spffl::base::count_tokens(pinnerstart, "[");
       this->rows     = new tvector<element_type>[this->num_rows];
-      char **stringv = new char *[this->num_rows];
-      (void)spffl::base::tokenize(pinnerstart, "[", stringv, this->num_rows);
+      std::vector<char *> stringv(this->num_rows);
+      (void)spffl::base::tokenize(
+          pinnerstart, "[", stringv.data(), this->num_rows);
 
       for (int i = 0; i < this->num_rows; i++) {
-        char *rowcopy = new char[strlen(stringv[i]) + 2];
-        strcpy(rowcopy, "[");
-        strcat(rowcopy, stringv[i]);
-        this->rows[i] = zero;
-        if (!this->rows[i].bracket_in(rowcopy)) {
+        std::string rowcopy = std::string("[") + stringv[i];
+        this->rows[i]       = zero;
+        if (!this->rows[i].bracket_in(rowcopy.data())) {
           std::stringstream ss;
           ss << "tmatrix::bracket_in:  couldn't read row " << i << ".\n";
-          delete[] rowcopy;
-          delete[] stringv;
-          free(copy);
           return false;
         }
-        delete[] rowcopy;
       }
 
       // Sets this->num_cols.
       if (!this->check_ragged()) {
         // Error message already printed out.
-        delete[] stringv;
-        free(copy);
         return false;
       }
-      delete[] stringv;
     } else {
       // There are no nested brackets; scan as column vector.
       tvector<element_type> column(zero, 1);
@@ -255,7 +248,6 @@ public:
       std::istringstream iss(pinnerstart, std::ios_base::in);
       iss >> column;
       if (iss.fail()) {
-        free(copy);
         return false;
       }
 
@@ -275,7 +267,6 @@ public:
       }
     }
 
-    free(copy);
     return true;
   }
 
@@ -1700,8 +1691,8 @@ static std::ostream &operator<<(
 template <typename element_type>
 static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
   const int tmx_buf_size = 65536;
-  char *line             = new char[tmx_buf_size];
-  char *pline            = line;
+  std::vector<char> line(tmx_buf_size);
+  char *pline = line.data();
 
   // Make sure the matrix already contains an element.  Remember it,
   // then free the old matrix contents.
@@ -1709,7 +1700,6 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  must already have one element.\n";
-    delete[] line;
     return is;
   }
   element_type zero = m.rows[0][0] - m.rows[0][0];
@@ -1737,7 +1727,7 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     }
 
     // Read a line of text.  The last one may lack its newline.
-    pline = line;
+    pline = line.data();
     is.getline(pline, tmx_buf_size);
     if (is.eof() && (pline[0] == 0)) {
       is.clear();
@@ -1785,7 +1775,6 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
       is.setstate(std::ios::failbit);
       std::stringstream ss;
       ss << "tmatrix scan failure: \"" << pline << "\"\n";
-      delete[] line;
       return is;
     }
 
@@ -1800,18 +1789,15 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  zero-row matrix.\n";
-    delete[] line;
     return is;
   }
 
   // Sets num_cols too.
   if (!m.check_ragged()) {
     is.setstate(std::ios::badbit);
-    delete[] line;
     return is;
   }
 
-  delete[] line;
   return is;
 }
 
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 8575eda..9859f86 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -140,18 +140,17 @@ public:
   // elements, e.g. "1 2 3".  The bracket_in() method, by contrast, expects
   // whitespace-delimited elements, surrounded by brackets:  e.g. "[1 2 3]".
   bool bracket_in(char *string) {
-    char *copy = strdup(string);
+    // An element may throw an exception, e.g. for a zero denominator.
+    std::string copy(string);
 
-    char *pleft = copy + strspn(copy, " \t\n");
+    char *pleft = copy.data() + strspn(copy.data(), " \t\n");
     if (*pleft != '[') {
-      free(copy);
       return false;
     }
     pleft++;
 
     char *pright = strrchr(pleft, ']');
     if ((pright == 0) || (pright[1 + strspn(pright + 1, " \t\n")] != 0)) {
-      free(copy);
       return false;
     }
     *pright = 0;
@@ -159,11 +158,9 @@ public:
     std::istringstream iss(pleft, std::ios_base::in);
     iss >> *this;
     if (iss.fail()) {
-      free(copy);
       return false;
     }
 
-    free(copy);
     return true;
   }
 
-- 
2.43.0


From cc0ffc71afce490bc09ee3050d18e3a3d31f5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:03 +0000
Subject: [PATCH 92/92] fix: printing a long binary polynomial leaves the
 stream's fill character as it was

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f7d1edb..44868bd 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -524,6 +524,7 @@ std::ostream &operator<<(std::ostream &os, const f2_poly_t &poly) {
     throw spffl::exception_t(ss.str());
   }
   std::ios_base::fmtflags svflags = os.flags();
+  char svfill                     = os.fill();
   os.flags(std::ios_base::hex);
   int i;
   int leader_pos = 0;
@@ -544,11 +545,13 @@ std::ostream &operator<<(std::ostream &os, const f2_poly_t &poly) {
     }
   }
   os.flags(svflags);
+  os.fill(svfill);
   return os;
 }
 // ----------------------------------------------------------------
 void f2_poly_t::debug_print(std::ostream &os) {
   std::ios_base::fmtflags svflags = os.flags();
+  char svfill                     = os.fill();
   os.flags(std::ios_base::hex);
   for (int i = this->parts.size() - 1; i >= 0; i--) {
     os << std::setw(F2_POLY_NYBBLES_PER_PART) << std::setfill('0');
@@ -558,6 +561,7 @@ void f2_poly_t::debug_print(std::ostream &os) {
     }
   }
   os.flags(svflags);
+  os.fill(svfill);
 }
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, f2_poly_t &poly) {
-- 
2.43.0

