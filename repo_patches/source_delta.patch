From e35d4834a841d7866d1c1f9c8eaa1ee4393cf463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 01/20] fix: reserve room for the minus sign in to_string

A negative value whose digit count is a multiple of nine wrote one byte
before the start of the digit buffer.
---
 src/BigInteger.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..e144fb5 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -878,6 +878,13 @@ std::string BigInteger::to_string() const {
         cchMax = cuDst * kcchBase;
     }
 
+    if (_sign < 0) {
+        // Leave room for the negative sign
+        if (cchMax > std::numeric_limits<int32_t>::max() - 1)
+            throw std::overflow_error("SR.Format_TooLarge");
+        cchMax += 1;
+    }
+
     // We'll pass the rgch buffer to native code, which is going to treat it like a string of digits, so it needs
     // to be null terminated.  Let's ensure that we can allocate a buffer of that size.
     int rgchBufSize;
-- 
2.43.0


From e86bf2c475a57666e2de2ab71155f5b45e8ecee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 02/20] fix: keep the sign when shifting a negative value right
 by whole dwords

-0xFFFFFFFF00000001 >> 32 gave 0 instead of -0x100000000: the two's complement
of the magnitude can have its sign bit outside the array.
---
 src/BigInteger.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index e144fb5..736a7fd 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1068,6 +1068,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     int xl;
     bool negx;
     negx = get_parts_for_bit_manipulation(*this, xd, xl);
+    bool trackSignBit = false;
 
     if (negx) {
         if (shift >= (kcbitUint * xl)) {
@@ -1077,9 +1078,13 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         uint_array temp = xd;
         xd = temp;
         NumericsHelpers::dangerous_make_twos_complement(xd); // Mutates xd
+
+        // After the two's complement the sign bit can be outside the array, e.g. [0x01, 0x00] for
+        // -0xFFFFFFFFFFFFFFFF. Shifting by whole dwords would then lose it, so track it externally.
+        trackSignBit = smallShift == 0 && xd[xl - 1] == 0;
     }
 
-    int zl = xl - digitShift;
+    int zl = xl - digitShift + (trackSignBit ? 1 : 0);
     if (zl < 0) zl = 0;
     uint_array zd(zl, 0);
 
@@ -1101,6 +1106,8 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         }
     }
     if (negx) {
+        if (trackSignBit)
+            zd[zl - 1] = 0xFFFFFFFF;
         NumericsHelpers::dangerous_make_twos_complement(zd); // Mutates zd
     }
     *this = BigInteger(zd, negx);
-- 
2.43.0


From d9d5a9432ec6cf6493703134b63fc3ea6ee426be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 03/20] fix: div_rem remainder sign for small divisors, and
 aliased remainder

div_rem(-10^10, 3, r) left r = 4294967295 (unsigned wrap-around) instead of -1,
and div_rem(a, b, a) computed the quotient's sign or value from the remainder.
---
 src/BigInteger.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 736a7fd..5986622 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -589,8 +589,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        int quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -605,8 +606,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        remainder = dividend._sign < 0 ? -static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
+        return quotient;
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -618,8 +620,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = divisor.get_bits();
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 }
 
-- 
2.43.0


From 26e81e2af17438365141eee63faf9ded107d9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 04/20] fix: sign of mod_pow for a small modulus

mod_pow(-3, 1, 5) gave 4294967293 (unsigned wrap-around) instead of -3.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 5986622..7c2321e 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1612,7 +1612,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From 819d2ff0505022b6467bd0e3b688346c24f9f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 05/20] fix: mod_pow with a large exponent and modulus zero
 throws DivideByZero

It divided by zero in the processor (SIGFPE).
---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..b895345 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From 9148ad06571603154413b24a363816db96cda392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 06/20] fix: greatest_common_divisor of operands of three or
 more dwords

Lehmer's step worked on copies of the buffers, so its result was lost (endless
loop), and clearing the unused part of a buffer filled the wrong range.
---
 include/BitsBuffer.h                    | 2 +-
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 src/BigIntegerCalculator/GcdInv.cpp     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..bf8a5e1 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,8 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From af849bc2759dfabbba3dfcf9660f1df57600484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 07/20] fix: mod_pow with a modulus of 32 or more dwords

The Barrett reduction worked on copies, so its result was lost, cleared the
wrong range, had a buffer one dword too small for modulus 2^(32k), and the last
dword of a large exponent was applied twice.
---
 include/FastReducer.h                    |  4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 10 +++++-----
 src/BigIntegerCalculator/PowMod.cpp      |  3 ++-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..e504836 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..44f4f57 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,13 +8,13 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
-    _q2 = uint_array(modulus.size() * 2 + 1);
+    _q1 = uint_array(modulus.size() * 2 + 3);
+    _q2 = uint_array(modulus.size() * 2 + 2);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index b895345..21d42da 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -214,7 +214,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (int i = 0; i < power.size() - 1; i++) {
+        unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From a97efc1a0ed2f0664ef781625e8ca8414ec0d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 08/20] fix: postfix ++ and -- return the value before the
 operation

---
 include/public/bigintegercpp/BigInteger.h |  4 ++--
 src/BigInteger.cpp                        | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index 7b25672..dfb90ba 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -126,7 +126,7 @@ public:
     BigInteger& operator+=(const BigInteger& rhs);
 
     BigInteger& operator++(); // prefix
-    BigInteger& operator++(int unused); // postfix
+    BigInteger operator++(int unused); // postfix
 
     static BigInteger add(BigInteger& lhs, const BigInteger& rhs);
 
@@ -138,7 +138,7 @@ public:
     BigInteger& operator-=(const BigInteger& rhs);
 
     BigInteger& operator--(); // prefix
-    BigInteger& operator--(int unused); // postfix
+    BigInteger operator--(int unused); // postfix
     static BigInteger subtract(BigInteger& lhs, const BigInteger& rhs);
 
     BigInteger subtract(const uint_array& lhs, int lhsSign, const uint_array& rhs, int rhsSign);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 7c2321e..2ec571d 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -639,8 +639,10 @@ BigInteger& BigInteger::operator++() {
     return *this;
 }
 
-BigInteger& BigInteger::operator++(int dummy) {
-    return ++(*this);
+BigInteger BigInteger::operator++(int dummy) {
+    BigInteger previous = *this;
+    ++(*this);
+    return previous;
 }
 
 BigInteger& BigInteger::operator--() {
@@ -649,8 +651,10 @@ BigInteger& BigInteger::operator--() {
     return *this;
 }
 
-BigInteger& BigInteger::operator--(int unused) {
-    return --(*this);
+BigInteger BigInteger::operator--(int unused) {
+    BigInteger previous = *this;
+    --(*this);
+    return previous;
 }
 
 
-- 
2.43.0


From 3fe94308eba039b643f5f74ca6f08bc662ae5c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 09/20] fix: Python divmod(int, BigInteger) beyond the int-str
 digit limit

Going through a decimal string raised ValueError above 4300 digits.
---
 bindings/python/python-bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 57abc12..746ddc6 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -194,7 +194,7 @@ PYBIND11_MODULE(pybiginteger, m) {
                 BigInteger remainder;
                 auto big_self = to_biginteger(self);
                 auto div = BigInteger::div_rem(big_self, other, remainder);
-                return py::make_tuple(py::int_(py::str(div.to_string())), py::int_(py::str(remainder.to_string())));
+                return py::make_tuple(to_py_int(div), to_py_int(remainder));
             })
             .def("__pow__", [](BigInteger& base, BigInteger& exp) {
                 return BigInteger::pow(base, exp);
-- 
2.43.0


From 61b31b7ce174d3246e5ce379f49ad7b63e268352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 10/20] fix: Python constructor from a sliced buffer

The strides were ignored: BigInteger(memoryview(b)[::2]) took the wrong bytes and
[::-1] read outside the buffer.
---
 bindings/python/python-bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 746ddc6..a3a5243 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -92,8 +92,11 @@ PYBIND11_MODULE(pybiginteger, m) {
               if (info.format != py::format_descriptor<unsigned char>::format() || info.ndim != 1)
                   throw std::runtime_error("Incompatible buffer format!");
 
+              // the elements of a sliced buffer are not adjacent
               auto data_ptr = static_cast<unsigned char *>(info.ptr);
-              std::vector<unsigned char> data(data_ptr, data_ptr + info.size);
+              std::vector<unsigned char> data(info.size);
+              for (py::ssize_t i = 0; i < info.size; i++)
+                  data[i] = data_ptr[i * info.strides[0]];
               return BigInteger(data);
             }), py::arg("value"))
             .def("__lt__", [](BigInteger& self, BigInteger& other) {
-- 
2.43.0


From 5af115c90a27251773a4cd57168d9eec9d3c8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 11/20] fix: BigInteger usable in static initializers

Linked statically, a global BigInteger(INT32_MIN) or BigInteger::pow(5, 0) of
another file could read the class constants before they were initialized and
was then 0.
---
 include/public/bigintegercpp/BigInteger.h | 6 ++++++
 src/BigInteger.cpp                        | 5 -----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index dfb90ba..f195598 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -201,6 +201,12 @@ private:
     void assert_valid() const;
 };
 
+// Defined inline so that they are initialized before any static BigInteger of a file including this header.
+inline const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
+inline const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
+inline const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
+inline const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
+
 BigInteger operator+(BigInteger lhs, const BigInteger& rhs);
 
 BigInteger operator-(BigInteger lhs, const BigInteger& rhs);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 2ec571d..57ed108 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -11,11 +11,6 @@
 #include <algorithm>
 #include "../include/BigIntegerCalculator.h"
 
-const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
-const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
-const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
-const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
-
 
 BigInteger::BigInteger() {
     _sign = 0;
-- 
2.43.0


From 9ebc5a2917af95d62ba5e3fed1e0d28ad4c4a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 12/20] fix: Python hash(BigInteger(n)) equals hash(n)

BigInteger(5) == 5 holds, but their hashes differed, so a dict or set that mixes
them held the same key twice.
---
 bindings/python/python-bindings.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index a3a5243..d80bf39 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -118,9 +118,8 @@ PYBIND11_MODULE(pybiginteger, m) {
                 return self == to_biginteger(other);
             })
             .def("__hash__", [](BigInteger& self) {
-                auto h = 2166136261;
-                h = (h * 16777619) ^ self.get_hash_code();
-                return h;
+                // equal objects hash equal, also for BigInteger(5) == 5
+                return py::hash(to_py_int(self));
             })
             .def("__gt__", [](BigInteger& self, BigInteger& other) {
                 return self > other;
-- 
2.43.0


From 99218352adebdb382124230184ad4398c4e62c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 13/20] fix: Python comparison of a BigInteger with a foreign
 type is False

BigInteger(1) == None and BigInteger(1) in ['x'] raised TypeError.
---
 bindings/python/python-bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index d80bf39..cf67ba3 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -113,10 +113,10 @@ PYBIND11_MODULE(pybiginteger, m) {
             })
             .def("__eq__", [](BigInteger& self, BigInteger& other) {
                 return self == other;
-            })
+            }, py::is_operator())
             .def("__eq__", [](BigInteger& self, py::int_& other) {
                 return self == to_biginteger(other);
-            })
+            }, py::is_operator())
             .def("__hash__", [](BigInteger& self) {
                 // equal objects hash equal, also for BigInteger(5) == 5
                 return py::hash(to_py_int(self));
-- 
2.43.0


From 2a5aadc4eb1ad4f3483918b937e85198f33152ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 14/20] fix: conversion of the least int64 to long does not
 depend on signed overflow

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 57ed108..7dea30a 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1468,7 +1468,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0 - uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0


From 0b6e0e56ea5235538747a2bb1b64e1b476cbe8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 15/20] fix: Python pow(BigInteger, int, int)

---
 bindings/python/python-bindings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index cf67ba3..aca6413 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -221,6 +221,9 @@ PYBIND11_MODULE(pybiginteger, m) {
             .def("__pow__", [](BigInteger& base, BigInteger& exp, py::int_& modulus) {
                 return BigInteger::mod_pow(base, exp, to_biginteger(modulus));
             })
+            .def("__pow__", [](BigInteger& base, py::int_& exp, py::int_& modulus) {
+                return BigInteger::mod_pow(base, to_biginteger(exp), to_biginteger(modulus));
+            })
             .def("__truediv__", [](BigInteger& self, BigInteger& other) {
                 return self / other;
             })
-- 
2.43.0


From 5b8e128eb3280f8023795c4928cf7c07210fb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 16/20] fix: Python truth value of a zero BigInteger is False

---
 bindings/python/python-bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index aca6413..fc84409 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -321,6 +321,7 @@ PYBIND11_MODULE(pybiginteger, m) {
                 https://docs.microsoft.com/en-us/dotnet/api/system.numerics.biginteger.tobytearray?view=netcore-3.1#System_Numerics_BigInteger_ToByteArray_System_Boolean_System_Boolean_)",
                  py::arg("is_unsigned") = false,
                  py::arg("is_bigendian") = false)
+            .def("__bool__", [](BigInteger& self) { return !self.is_zero(); })
             .def("__int__", [](BigInteger& self) { return to_py_int(self); }) // support int()
             .def("__float__", [](BigInteger& self) { return py::float_(to_py_int(self)); }) // support float() for Python < 3.8
             .def("__index__", [](BigInteger& self) { return to_py_int(self); }) // support range()
-- 
2.43.0


From 50c099d745fdb3f2160930605aafe097d05f4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:16 +0000
Subject: [PATCH 17/20] fix: right shift of a negative value of 2^31 bits or
 more returned -1

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 7dea30a..73eee92 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1073,7 +1073,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     bool trackSignBit = false;
 
     if (negx) {
-        if (shift >= (kcbitUint * xl)) {
+        if (shift >= static_cast<int64_t>(kcbitUint) * xl) {
             *this = s_bnMinusOneInt;
             return *this;
         }
-- 
2.43.0


From 667d23412355a94cd6812c9c42e324802139744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 18/20] fix: copy assignment that runs out of memory leaves the
 object unchanged

---
 include/public/bigintegercpp/BigInteger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index f195598..51944b3 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -184,8 +184,9 @@ public:
     static bool double_IsNaN(double value);
 
 private:
-    int _sign;
+    // assigned in this order: copying _bits can throw, and must do so before anything has changed
     uint_array _bits;
+    int _sign;
 
     static const BigInteger s_bnMinInt;
     static const BigInteger s_bnOneInt;
-- 
2.43.0


From 42934e8be31b005e601b288404bab336b9e514fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 19/20] fix: to_string gives its buffer back when its result
 cannot be allocated

---
 src/BigInteger.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 73eee92..f474c5b 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -897,7 +897,7 @@ std::string BigInteger::to_string() const {
     }
 
 //    char rgch[rgchBufSize];
-    char *rgch = new char[rgchBufSize];
+    std::vector<char> rgch(rgchBufSize);
     int ichDst = cchMax;
     for (int iuDst = 0; iuDst < cuDst - 1; iuDst++) {
         uint32_t uDig = rguDst[iuDst];
@@ -919,9 +919,7 @@ std::string BigInteger::to_string() const {
             rgch[--ichDst] = negativeSign[i];
     }
 
-    auto s = std::string(&rgch[ichDst], cchMax - ichDst);
-    delete [] rgch;
-    return s;
+    return std::string(&rgch[ichDst], cchMax - ichDst);
 }
 
 bool BigInteger::get_parts_for_bit_manipulation(const BigInteger& x, uint_array& xd, int& xl) {
-- 
2.43.0


From 7e2b52db43d28d20c4e85b08f81d084e2dc151f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:23 +0000
Subject: [PATCH 20/20] fix: to_byte_array with a mode wrote the count through
 its null default argument

---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index f474c5b..3c859d6 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1273,10 +1273,12 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     if (sign == 0) {
         switch (mode) {
             case GetBytesMode::Count:
-                *bytesWritten = 1;
+                if (bytesWritten)
+                    *bytesWritten = 1;
                 return byte_array();
             default:
-                *bytesWritten = 1;
+                if (bytesWritten)
+                    *bytesWritten = 1;
                 return byte_array(1, 0);
         }
     }
@@ -1345,7 +1347,8 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     byte_array destination;
     switch (mode) {
         case GetBytesMode::Count:
-            *bytesWritten = length;
+            if (bytesWritten)
+                *bytesWritten = length;
             return byte_array();
         default:
             destination = byte_array(length);
-- 
2.43.0

