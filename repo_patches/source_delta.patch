From 8b62cffe461727c523c4e0394c922da4b54bda60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 01/18] fix: pi_lmo2..5 no longer truncate the sum of primes to
 64 bits

---
 include/primesum-internal.hpp |  8 ++++----
 src/lmo/pi_lmo2.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo3.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo4.cpp           |  4 ++--
 src/lmo/pi_lmo5.cpp           | 20 ++++++++++----------
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/primesum-internal.hpp b/include/primesum-internal.hpp
index cdcf091..d0071aa 100644
--- a/include/primesum-internal.hpp
+++ b/include/primesum-internal.hpp
@@ -63,13 +63,13 @@ int256_t pi_lmo(int128_t x, int threads);
 
 int256_t pi_lmo1(int128_t x);
 
-int64_t pi_lmo2(int64_t x);
+int256_t pi_lmo2(int64_t x);
 
-int64_t pi_lmo3(int64_t x);
+int256_t pi_lmo3(int64_t x);
 
-int64_t pi_lmo4(int64_t x);
+int256_t pi_lmo4(int64_t x);
 
-int64_t pi_lmo5(int64_t x);
+int256_t pi_lmo5(int64_t x);
 
 int256_t pi_lmo_parallel1(int128_t x, int threads);
 
diff --git a/src/lmo/pi_lmo2.cpp b/src/lmo/pi_lmo2.cpp
index 3b06c1a..91513d8 100644
--- a/src/lmo/pi_lmo2.cpp
+++ b/src/lmo/pi_lmo2.cpp
@@ -32,16 +32,16 @@ namespace {
 /// segmentation). Space complexity: O(x^(2/3) * (log x)^2).
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t b = 1;
   vector<char> sieve(limit, 1);
 
@@ -58,7 +58,7 @@ int64_t S2(int64_t x,
   {
     int64_t prime = primes[b];
     int64_t i = 1;
-    int64_t phi = 0;
+    int128_t phi = 0;
 
     for (int64_t m = y; m > y / prime; m--)
     {
@@ -92,7 +92,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(2/3) / (log x)^2) space.
 ///
-int64_t pi_lmo2(int64_t x)
+int256_t pi_lmo2(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -112,7 +112,7 @@ int64_t pi_lmo2(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo3.cpp b/src/lmo/pi_lmo3.cpp
index 82ea770..2de2982 100644
--- a/src/lmo/pi_lmo3.cpp
+++ b/src/lmo/pi_lmo3.cpp
@@ -50,21 +50,21 @@ void cross_off(int64_t prime,
 /// Calculate the contribution of the special leaves.
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t segment_size = next_power_of_2(isqrt(limit));
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
 
   vector<char> sieve(segment_size);
   vector<int64_t> next(primes.begin(), primes.end());
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
   // Segmented sieve of Eratosthenes
   for (int64_t low = 1; low < limit; low += segment_size)
@@ -130,7 +130,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo3(int64_t x)
+int256_t pi_lmo3(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -150,7 +150,7 @@ int64_t pi_lmo3(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo4.cpp b/src/lmo/pi_lmo4.cpp
index 9cb37ad..a5905c2 100644
--- a/src/lmo/pi_lmo4.cpp
+++ b/src/lmo/pi_lmo4.cpp
@@ -140,7 +140,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo4(int64_t x)
+int256_t pi_lmo4(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -160,7 +160,7 @@ int64_t pi_lmo4(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo5.cpp b/src/lmo/pi_lmo5.cpp
index 8f7f444..81ef8ef 100644
--- a/src/lmo/pi_lmo5.cpp
+++ b/src/lmo/pi_lmo5.cpp
@@ -54,12 +54,12 @@ void cross_off(BitSieve& sieve,
 /// @see ../docs/computing-special-leaves.md
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   print("");
   print("=== S2(x, y) ===");
@@ -72,9 +72,9 @@ int64_t S2(int64_t x,
   BitSieve sieve(segment_size);
   Wheel wheel(primes, (int64_t) primes.size(), /*low = */ 1);
   vector<int32_t> pi = generate_pi(y);
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t pi_sqrty = pi[isqrt(y)];
   int64_t pi_y = pi[y];
 
@@ -160,7 +160,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3) / log x) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo5(int64_t x)
+int256_t pi_lmo5(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -186,7 +186,7 @@ int64_t pi_lmo5(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
-- 
2.43.0


From 105f0ab936c7307df5cb5124b28753f787fd4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 02/18] fix: int64_cast() rejects numbers below -2^63

---
 src/app/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index 1f850d6..27fef15 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -34,6 +34,8 @@ int64_t int64_cast(int128_t x)
 {
   if (x > numeric_limits<int64_t>::max())
     throw primesum_error("this is a 63-bit function, x must be < 2^63");
+  if (x < numeric_limits<int64_t>::min())
+    throw primesum_error("this is a 63-bit function, x must be >= -2^63");
   return (int64_t) x;
 }
 
-- 
2.43.0


From bb51ef556eff6b5288b817e22256b133285facab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 03/18] fix: S2Status::print() holds its lock while it updates
 the shared status

---
 src/S2Status.cpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/S2Status.cpp b/src/S2Status.cpp
index 4d1a063..03ff3ed 100644
--- a/src/S2Status.cpp
+++ b/src/S2Status.cpp
@@ -45,23 +45,6 @@ double S2Status::skewed_percent(int128_t x, int128_t y)
   return percent;
 }
 
-#if defined(_OPENMP)
-
-bool S2Status::is_print(double time)
-{
-  TryLock lock(lock_);
-  if (lock.ownsLock())
-  {
-    double old = time_;
-    return old == 0 ||
-          (time - old) >= is_print_;
-  }
-
-  return false;
-}
-
-#else
-
 bool S2Status::is_print(double time)
 {
   double old = time_;
@@ -69,10 +52,15 @@ bool S2Status::is_print(double time)
         (time - old) >= is_print_;
 }
 
-#endif
-
 void S2Status::print(int128_t n, int128_t limit)
 {
+#if defined(_OPENMP)
+  // time_ and percent_ are shared by all threads
+  TryLock lock(lock_);
+  if (!lock.ownsLock())
+    return;
+#endif
+
   double time = get_time();
 
   if (is_print(time))
-- 
2.43.0


From 00248c6cf139c63dfbd756ba883289de4f5ca804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 04/18] fix: BitSieve::sum() no longer overflows 64 bits for
 sieve positions above 2^58

---
 src/BitSieve.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/BitSieve.cpp b/src/BitSieve.cpp
index fa525dd..6533846 100644
--- a/src/BitSieve.cpp
+++ b/src/BitSieve.cpp
@@ -53,44 +53,44 @@ uint64_t fast_modulo(uint64_t x, uint64_t y)
   return x;
 }
 
-uint64_t sum_bits(uint64_t bits, uint64_t& low)
+int128_t sum_bits(uint64_t bits, uint64_t& low)
 {
   uint64_t bits0 = bits & 0xffff;
   uint64_t bits1 = (bits >> 16) & 0xffff;
   uint64_t bits2 = (bits >> 32) & 0xffff;
   uint64_t bits3 = (bits >> 48);
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (int128_t) low * popcnt64(bits0); low += 32;
+  sum += (int128_t) low * popcnt64(bits1); low += 32;
+  sum += (int128_t) low * popcnt64(bits2); low += 32;
+  sum += (int128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
 
-uint64_t sum_bits(const uint16_t* bits, uint64_t& low)
+int128_t sum_bits(const uint16_t* bits, uint64_t& low)
 {
   uint64_t bits0 = bits[0];
   uint64_t bits1 = bits[1];
   uint64_t bits2 = bits[2];
   uint64_t bits3 = bits[3];
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (int128_t) low * popcnt64(bits0); low += 32;
+  sum += (int128_t) low * popcnt64(bits1); low += 32;
+  sum += (int128_t) low * popcnt64(bits2); low += 32;
+  sum += (int128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
-- 
2.43.0


From 3b3a0749c17f7e2da4ea1a90fa0bcb08b79bcac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 05/18] fix: int256_t multiplication of numbers close to -2^128

---
 include/int256_t.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index f3b04da..eb983a8 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -159,11 +159,10 @@ public:
 
         if (low <= max64 &&
             other.low <= max64 &&
-            ((high == 0 || ~high == 0) &&
-             (other.high == 0 || ~other.high == 0)))
+            high == 0 &&
+            other.high == 0)
         {
-          return int256_t(low * other.low,
-                          (high == other.high) ? 0 : -1);
+          return int256_t(low * other.low, 0);
         }
         else
         {
-- 
2.43.0


From f323b84f8a0e7226783d39becb05da526c45979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 06/18] fix: int256_t shifts by 0 and by 256 or more bits

---
 include/int256_t.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index eb983a8..6ea7c7a 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -212,7 +212,11 @@ public:
 
     int256_t operator<<(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 256)
+            return int256_t(0, 0);
+        else if (bits >= 128)
             return int256_t(0, low << (bits - 128));
         else
             return int256_t(low << bits, (high << bits) | (low >> (128 - bits)));
@@ -220,7 +224,11 @@ public:
 
     int256_t operator>>(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 256)
+            return int256_t(0, 0);
+        else if (bits >= 128)
             return int256_t(high >> (bits - 128), 0);
         else
             return int256_t((low >> bits) | (high << (128 - bits)), high >> bits);
-- 
2.43.0


From 26e36170dc0c5cd2e40f3de73f9ea79a9b721c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 07/18] fix: int256_t division and output of the smallest
 number

---
 include/int256_t.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 6ea7c7a..d7db15b 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -527,6 +527,13 @@ private:
         }
     }
 
+    /// Unsigned comparison
+    bool ult(const int256_t& other) const
+    {
+        return high < other.high ||
+              (high == other.high && low < other.low);
+    }
+
     int find_most_significant_bit() const
     {
         auto x = *this;
@@ -561,7 +568,7 @@ private:
         {
             return { one, zero };
         }
-        else if (*this == 0 || (*this != min_value() && *this < other))
+        else if (ult(other))
         {
             return { zero, *this };
         }
@@ -575,12 +582,12 @@ private:
             int256_t quotient = 0;
             int256_t remainder = 0;
 
-            for (int i = find_most_significant_bit(); i >= 0 && i <= 256; i--)
+            for (int i = find_most_significant_bit() - 1; i >= 0; i--)
             {
                 remainder <<= 1;
                 remainder.set_bit(0, get_bit(i));
 
-                if (remainder >= other)
+                if (!remainder.ult(other))
                 {
                     remainder -= other;
                     quotient.set_bit(i, true);
@@ -626,14 +633,13 @@ inline std::ostream& operator<<(std::ostream& stream, int256_t n)
     std::string str;
 
     if (n < 0)
-    {
         stream << "-";
-        n = -n;
-    }
 
-    while (n > 0)
+    // -n would overflow for the smallest number
+    while (n != 0)
     {
-        str += '0' + std::int8_t(n % 10);
+        int digit = std::int8_t(n % 10);
+        str += (char) ('0' + (digit < 0 ? -digit : digit));
         n /= 10;
     }
 
-- 
2.43.0


From 640b0129da024d8a9233bf5d9ba62a56576fa502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 08/18] fix: arithmetic expressions report integer overflow
 instead of wrapping around

---
 include/calculator.hpp                        | 102 +++++++++++++++---
 .../include/primesieve/calculator.hpp         | 102 +++++++++++++++---
 lib/primesieve/src/app/cmdoptions.cpp         |  19 +++-
 3 files changed, 194 insertions(+), 29 deletions(-)

diff --git a/include/calculator.hpp b/include/calculator.hpp
index 1a1291c..5832b7a 100644
--- a/include/calculator.hpp
+++ b/include/calculator.hpp
@@ -184,21 +184,95 @@ private:
   std::stack<OperatorValue> stack_;
 
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Parser error: integer overflow");
+  }
+
+  T checkedAdd(T x, T y) const
+  {
+#if defined(__GNUC__)
+    T res;
+    if (__builtin_add_overflow(x, y, &res))
+      overflow();
+    return res;
+#else
+    return x + y;
+#endif
+  }
+
+  T checkedSub(T x, T y) const
+  {
+#if defined(__GNUC__)
+    T res;
+    if (__builtin_sub_overflow(x, y, &res))
+      overflow();
+    return res;
+#else
+    return x - y;
+#endif
+  }
+
+  T checkedMul(T x, T y) const
+  {
+#if defined(__GNUC__)
+    T res;
+    if (__builtin_mul_overflow(x, y, &res))
+      overflow();
+    return res;
+#else
+    return x * y;
+#endif
+  }
+
+  T checkedShl(T x, T n) const
+  {
+    if (n < 0 || n >= (T) (sizeof(T) * 8))
+      overflow();
+    for (; n > 0; n--)
+      x = checkedAdd(x, x);
+    return x;
+  }
+
+  T checkedShr(T x, T n) const
+  {
+    if (n < 0)
+      overflow();
+    if (n >= (T) (sizeof(T) * 8))
+      return (x < 0) ? ~static_cast<T>(0) : 0;
+    return x >> n;
+  }
+
+  /// The smallest signed number divided by -1 overflows
+  T checkedDiv(T x, T y) const
+  {
+    return (y == static_cast<T>(-1) && y < 0) ? checkedSub(0, x) : x / y;
+  }
+
+  T checkedMod(T x, T y) const
+  {
+    return (y == static_cast<T>(-1) && y < 0) ? 0 : x % y;
+  }
+
+  T pow(T x, T n) const
   {
     T res = 1;
 
+    // the result is not an integer
+    if (n < 0)
+      overflow();
+
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = checkedMul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = checkedMul(x, x);
     }
 
     return res;
@@ -228,15 +302,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return checkedShl(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return checkedShr(v1, v2);
+      case OPERATOR_ADDITION:       return checkedAdd(v1, v2);
+      case OPERATOR_SUBTRACTION:    return checkedSub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return checkedMul(v1, v2);
+      case OPERATOR_DIVISION:       return checkedDiv(v1, checkZero(v2));
+      case OPERATOR_MODULO:         return checkedMod(v1, checkZero(v2));
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return checkedMul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +403,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = checkedAdd(checkedMul(value, 10), d);
     return value;
   }
 
@@ -338,7 +412,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = checkedAdd(checkedMul(value, 0x10), h);
     return value;
   }
 
@@ -384,7 +458,7 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val = checkedSub(0, parseValue());
                 break;
       default : if (!isEnd())
                   unexpected();
diff --git a/lib/primesieve/include/primesieve/calculator.hpp b/lib/primesieve/include/primesieve/calculator.hpp
index 1a1291c..5832b7a 100644
--- a/lib/primesieve/include/primesieve/calculator.hpp
+++ b/lib/primesieve/include/primesieve/calculator.hpp
@@ -184,21 +184,95 @@ private:
   std::stack<OperatorValue> stack_;
 
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Parser error: integer overflow");
+  }
+
+  T checkedAdd(T x, T y) const
+  {
+#if defined(__GNUC__)
+    T res;
+    if (__builtin_add_overflow(x, y, &res))
+      overflow();
+    return res;
+#else
+    return x + y;
+#endif
+  }
+
+  T checkedSub(T x, T y) const
+  {
+#if defined(__GNUC__)
+    T res;
+    if (__builtin_sub_overflow(x, y, &res))
+      overflow();
+    return res;
+#else
+    return x - y;
+#endif
+  }
+
+  T checkedMul(T x, T y) const
+  {
+#if defined(__GNUC__)
+    T res;
+    if (__builtin_mul_overflow(x, y, &res))
+      overflow();
+    return res;
+#else
+    return x * y;
+#endif
+  }
+
+  T checkedShl(T x, T n) const
+  {
+    if (n < 0 || n >= (T) (sizeof(T) * 8))
+      overflow();
+    for (; n > 0; n--)
+      x = checkedAdd(x, x);
+    return x;
+  }
+
+  T checkedShr(T x, T n) const
+  {
+    if (n < 0)
+      overflow();
+    if (n >= (T) (sizeof(T) * 8))
+      return (x < 0) ? ~static_cast<T>(0) : 0;
+    return x >> n;
+  }
+
+  /// The smallest signed number divided by -1 overflows
+  T checkedDiv(T x, T y) const
+  {
+    return (y == static_cast<T>(-1) && y < 0) ? checkedSub(0, x) : x / y;
+  }
+
+  T checkedMod(T x, T y) const
+  {
+    return (y == static_cast<T>(-1) && y < 0) ? 0 : x % y;
+  }
+
+  T pow(T x, T n) const
   {
     T res = 1;
 
+    // the result is not an integer
+    if (n < 0)
+      overflow();
+
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = checkedMul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = checkedMul(x, x);
     }
 
     return res;
@@ -228,15 +302,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return checkedShl(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return checkedShr(v1, v2);
+      case OPERATOR_ADDITION:       return checkedAdd(v1, v2);
+      case OPERATOR_SUBTRACTION:    return checkedSub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return checkedMul(v1, v2);
+      case OPERATOR_DIVISION:       return checkedDiv(v1, checkZero(v2));
+      case OPERATOR_MODULO:         return checkedMod(v1, checkZero(v2));
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return checkedMul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +403,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = checkedAdd(checkedMul(value, 10), d);
     return value;
   }
 
@@ -338,7 +412,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = checkedAdd(checkedMul(value, 0x10), h);
     return value;
   }
 
@@ -384,7 +458,7 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val = checkedSub(0, parseValue());
                 break;
       default : if (!isEnd())
                   unexpected();
diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index f1bd247..4500c25 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <stdint.h>
 #include <string>
@@ -89,6 +90,12 @@ map<string, std::pair<OptionID, IsParam>> optionMap =
   { "--version",   make_pair(OPTION_VERSION, NO_PARAM) }
 };
 
+#if defined(__SIZEOF_INT128__)
+  using WideInt = __int128;
+#else
+  using WideInt = intmax_t;
+#endif
+
 /// Command-line option
 struct Option
 {
@@ -104,7 +111,14 @@ struct Option
   T getValue() const
   {
     try {
-      return calculator::eval<T>(val);;
+      // Evaluate using a wider type than T as
+      // e.g. 2^64-1 does not fit into uint64_t
+      // until the subtraction.
+      WideInt res = calculator::eval<WideInt>(val);
+      if (res < (WideInt) numeric_limits<T>::min() ||
+          res > (WideInt) numeric_limits<T>::max())
+        throw primesieve_error("number out of range");
+      return (T) res;
     }
     catch (std::exception&) {
       throw primesieve_error("invalid option '" + opt + "=" + val + "'");
@@ -300,6 +314,9 @@ void optionDistance(Option& opt,
   if (!numbers.empty())
     start = numbers[0];
 
+  if (val > numeric_limits<uint64_t>::max() - start)
+    throw primesieve_error("invalid option '" + opt.str + "'");
+
   numbers.push_back(start + val);
 }
 
-- 
2.43.0


From 1d4854cd90fcd425bb8203bc3cd80261ae4fa2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 09/18] fix: numeric options reject values that do not fit
 their type

---
 src/app/cmdoptions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/cmdoptions.cpp b/src/app/cmdoptions.cpp
index 33788d1..cf38e06 100644
--- a/src/app/cmdoptions.cpp
+++ b/src/app/cmdoptions.cpp
@@ -48,7 +48,10 @@ struct Option
   template <typename T>
   T to() const
   {
-    return (T) to_int128(value);
+    int128_t x = to_int128(value);
+    if (x != (int128_t) (T) x)
+      throw primesum_error("number out of range: " + value);
+    return (T) x;
   }
 };
 
-- 
2.43.0


From 0c7b44a03dfb8ca1518bc1071a12d2b98768e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 10/18] fix: nth prime search distance saturates at 2^64-1

---
 lib/primesieve/src/nthPrime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/primesieve/src/nthPrime.cpp b/lib/primesieve/src/nthPrime.cpp
index b03de60..d608e7b 100644
--- a/lib/primesieve/src/nthPrime.cpp
+++ b/lib/primesieve/src/nthPrime.cpp
@@ -91,6 +91,10 @@ uint64_t nthPrimeDist(int64_t n, int64_t count, uint64_t start)
   double primeGap = maxPrimeGap(startPix);
   dist = max(dist, primeGap);
 
+  // dist may exceed 2^64-1
+  if (dist >= (double) numeric_limits<uint64_t>::max())
+    return numeric_limits<uint64_t>::max();
+
   return (uint64_t) dist;
 }
 
-- 
2.43.0


From b533dc5266f2b76dcb629e85a04b53f83bc0dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 11/18] fix: generate n primes up to the largest 64-bit prime

---
 lib/primesieve/include/primesieve/StorePrimes.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/primesieve/include/primesieve/StorePrimes.hpp b/lib/primesieve/include/primesieve/StorePrimes.hpp
index 0154bba..23fdd02 100644
--- a/lib/primesieve/include/primesieve/StorePrimes.hpp
+++ b/lib/primesieve/include/primesieve/StorePrimes.hpp
@@ -83,12 +83,16 @@ inline void store_n_primes(uint64_t n,
   uint64_t stop = start + dist;
 
   primesieve::iterator it(start, stop);
-  uint64_t prime = it.next_prime();
-  for (; n > 0; n--, prime = it.next_prime())
-    primes.push_back((V) prime);
 
-  if (~prime == 0)
-    throw primesieve_error("cannot generate primes > 2^64");
+  for (; n > 0; n--)
+  {
+    uint64_t prime = it.next_prime();
+
+    if (~prime == 0)
+      throw primesieve_error("cannot generate primes > 2^64");
+
+    primes.push_back((V) prime);
+  }
 }
 
 } // namespace
-- 
2.43.0


From 2f3fe6bfbc3f72cf051c3a07b8e06eaa991f0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 12/18] fix: C iterator returns PRIMESIEVE_ERROR if the first
 allocation fails

---
 lib/primesieve/src/iterator-c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/primesieve/src/iterator-c.cpp b/lib/primesieve/src/iterator-c.cpp
index cc8d548..526532d 100644
--- a/lib/primesieve/src/iterator-c.cpp
+++ b/lib/primesieve/src/iterator-c.cpp
@@ -125,6 +125,7 @@ void primesieve_generate_next_primes(primesieve_iterator* it)
     clearPrimeGenerator(it);
     primes.resize(1);
     primes[0] = PRIMESIEVE_ERROR;
+    it->primes = &primes[0];
     it->last_idx = 1;
     it->is_error = true;
     errno = EDOM;
-- 
2.43.0


From a4f3b8aaf10116695fa532fd9e6d92153ba25404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 13/18] fix: refuse table sizes whose primes do not fit into
 int32_t

---
 src/generate.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/generate.cpp b/src/generate.cpp
index fb9cba8..1ba9161 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -7,6 +7,7 @@
 /// file in the top level directory.
 ///
 
+#include <primesum.hpp>
 #include <primesieve.hpp>
 #include <isqrt.hpp>
 
@@ -24,6 +25,9 @@ namespace primesum {
 ///
 vector<int32_t> generate_primes(int64_t max)
 {
+  if (max > numeric_limits<int32_t>::max())
+    throw primesum_error("generate_primes(max): max must be < 2^31");
+
   vector<int32_t> primes = { 0 };
   primesieve::generate_primes(max, &primes);
   return primes;
@@ -34,6 +38,10 @@ vector<int32_t> generate_primes(int64_t max)
 ///
 vector<int32_t> generate_n_primes(int64_t n)
 {
+  // pi(2^31 - 1) = 105097565
+  if (n > 105097565)
+    throw primesum_error("generate_n_primes(n): n must be <= pi(2^31)");
+
   vector<int32_t> primes = { 0 };
   primesieve::generate_n_primes(n, &primes);
   return primes;
@@ -71,6 +79,9 @@ vector<int32_t> generate_pi(int64_t max)
 ///
 vector<int32_t> generate_moebius(int64_t max)
 {
+  if (max >= numeric_limits<int32_t>::max())
+    throw primesum_error("generate_moebius(max): max must be < 2^31 - 1");
+
   int64_t sqrt = isqrt(max);
   int64_t size = max + 1;
   vector<int32_t> mu(size, 1);
@@ -106,6 +117,9 @@ vector<int32_t> generate_moebius(int64_t max)
 ///
 vector<int32_t> generate_lpf(int64_t max)
 {
+  if (max >= numeric_limits<int32_t>::max())
+    throw primesum_error("generate_lpf(max): max must be < 2^31 - 1");
+
   int64_t sqrt = isqrt(max);
   int64_t size = max + 1;
   vector<int32_t> lpf(size, 1);
-- 
2.43.0


From f79215e79e94b96edffff6860eea3a2670700e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 14/18] fix: reject trailing garbage after the --alpha number

---
 src/app/cmdoptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/cmdoptions.cpp b/src/app/cmdoptions.cpp
index cf38e06..b483d89 100644
--- a/src/app/cmdoptions.cpp
+++ b/src/app/cmdoptions.cpp
@@ -34,7 +34,7 @@ double to_double(const string& s)
 {
   istringstream i(s);
   double x;
-  if (!(i >> x))
+  if (!(i >> x) || i.peek() != istringstream::traits_type::eof())
     throw primesum_error("failed to convert \"" + s + "\" to double");
   return x;
 }
-- 
2.43.0


From b58b438790afa3997304091283f25d37dcbeaefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 15/18] fix: primesieve --count=0 and negative --count values
 are errors

---
 lib/primesieve/src/app/cmdoptions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index 4500c25..83a34a6 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -289,6 +289,9 @@ void optionCount(Option& opt,
 
   int n = opt.getValue<int>();
 
+  if (n <= 0)
+    throw primesieve_error("invalid option '" + opt.str + "'");
+
   for (; n > 0; n /= 10)
   {
     switch (n % 10)
-- 
2.43.0


From 636d087404f538819dd09dca8db2ad6a7a76cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 16/18] fix: primesieve --nth-prime rejects n >= 2^63 instead
 of searching backwards

---
 lib/primesieve/src/app/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/primesieve/src/app/main.cpp b/lib/primesieve/src/app/main.cpp
index d3b0105..70f562c 100644
--- a/lib/primesieve/src/app/main.cpp
+++ b/lib/primesieve/src/app/main.cpp
@@ -9,12 +9,14 @@
 ///
 
 #include <primesieve/ParallelSieve.hpp>
+#include <primesieve/primesieve_error.hpp>
 #include "cmdoptions.hpp"
 
 #include <stdint.h>
 #include <iostream>
 #include <exception>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 using namespace std;
@@ -92,6 +94,9 @@ void nthPrime(CmdOptions& opt)
   if (numbers.size() < 2)
     numbers.push_back(0);
 
+  if (numbers[0] > (uint64_t) numeric_limits<int64_t>::max())
+    throw primesieve_error("nth prime: n must be < 2^63");
+
   int64_t n = numbers[0];
   uint64_t start = numbers[1];
   uint64_t nthPrime = 0;
-- 
2.43.0


From 7192bd972c63d702608f382307209a5228c5f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 17/18] fix: report memory failures while parsing options and
 printing the result

---
 src/app/main.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index 27fef15..6534cb9 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -150,15 +150,15 @@ int256_t S2_hard(int128_t x, int threads)
 
 int main (int argc, char* argv[])
 {
-  PrimeSumOptions pco = parseOptions(argc, argv);
-  double time = get_time();
-
-  int128_t x = pco.x;
-  int256_t res = 0;
-  int threads = get_num_threads();
-
   try
   {
+    PrimeSumOptions pco = parseOptions(argc, argv);
+    double time = get_time();
+
+    int128_t x = pco.x;
+    int256_t res = 0;
+    int threads = get_num_threads();
+
     switch (pco.option)
     {
       case OPTION_DELEGLISE_RIVAT:
@@ -192,6 +192,15 @@ int main (int argc, char* argv[])
       case OPTION_S2_TRIVIAL:
         res = S2_trivial(x, threads); break;
     }
+
+    if (print_result())
+    {
+      if (is_print())
+        cout << endl;
+      cout << res << endl;
+      if (pco.time)
+        print_seconds(get_time() - time);
+    }
   }
   catch (bad_alloc&)
   {
@@ -205,14 +214,5 @@ int main (int argc, char* argv[])
     return 1;
   }
 
-  if (print_result())
-  {
-    if (is_print())
-      cout << endl;
-    cout << res << endl;
-    if (pco.time)
-      print_seconds(get_time() - time);
-  }
-
   return 0;
 }
-- 
2.43.0


From 60c7a110d2940ae5567eed5dcd6a811b9e3b7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 18/18] fix: do not leak the new bucket memory if it cannot be
 stored

---
 lib/primesieve/src/MemoryPool.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/primesieve/src/MemoryPool.cpp b/lib/primesieve/src/MemoryPool.cpp
index 7a4a400..2b246b5 100644
--- a/lib/primesieve/src/MemoryPool.cpp
+++ b/lib/primesieve/src/MemoryPool.cpp
@@ -22,6 +22,8 @@
 #include <primesieve/primesieve_error.hpp>
 
 #include <algorithm>
+#include <memory>
+#include <utility>
 #include <vector>
 
 using std::size_t;
@@ -65,9 +67,9 @@ void MemoryPool::allocateBuckets()
 
   // Allocate a large chunk of memory
   size_t bytes = count_ * sizeof(Bucket);
-  char* memory = new char[bytes];
-  memory_.emplace_back(memory);
-  void* ptr = memory;
+  std::unique_ptr<char[]> memory(new char[bytes]);
+  void* ptr = memory.get();
+  memory_.push_back(std::move(memory));
 
   // Align pointer address to sizeof(Bucket)
   if (!std::align(sizeof(Bucket), sizeof(Bucket), ptr, bytes))
-- 
2.43.0

