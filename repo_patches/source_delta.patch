From 428e0127a8b9695e094ec55e500c9420423c8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 01/79] fix: muldivmod must not shift its operand when the
 modulus is 2^64

shuffle_order_engine passes a divisor of 0 (meaning 2^64) when its base
generator has the full 64-bit range; the normalization shift of 63 then
discarded all but one bit of the operand and only two table entries were
ever selected.
---
 include/boost/random/detail/large_arithmetic.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..9128787 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,8 +36,10 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
-        - detail::integer_log2(m);
+    // m == 0 stands for 2^digits, which needs no normalization.
+    int shift = m == 0? 0 :
+        std::numeric_limits< ::boost::uintmax_t>::digits - 1
+            - detail::integer_log2(m);
 
     a <<= shift;
     m <<= shift;
-- 
2.43.0


From 18f8b538b91cbdfebf4879aa30e91505c06976fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 02/79] fix: muldivmod quotient digit correction when the
 partial remainder wraps

When the estimated quotient digit was capped, the partial remainder can
exceed one word; comparing the wrapped value made the digit one or two too
small, e.g. for multiplication modulo 2^64-1.
---
 include/boost/random/detail/large_arithmetic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 9128787..34e0f95 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -80,13 +80,15 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t high = temp - ::boost::uintmax_t(q) * m_[1];
+        ::boost::uintmax_t rem = (high << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
+        // if high doesn't fit in a single digit, then the
+        // estimate is exact and rem wraps around.
         int error = 0;
-        if(diff > rem) {
+        if(high <= mask && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From 8ef1da4894fa50a0cf9db4426fd11c2874e76250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 03/79] fix: linear_feedback_shift seeding shifts an int past
 its width

1 << (w-k) is undefined (and wrong) when w-k >= 31, e.g. for
linear_feedback_shift_engine<uint64_t, 64, 31, 3, 17>.
---
 include/boost/random/linear_feedback_shift.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..6f88b51 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -91,8 +91,9 @@ public:
         UIntType, s0)
     {
         value = s0 & wordmask();
-        if(value < (1 << (w-k))) {
-            value += 1 << (w-k);
+        const UIntType lowest = static_cast<UIntType>(1) << (w-k);
+        if(value < lowest) {
+            value += lowest;
         }
     }
     
-- 
2.43.0


From 6334eaa409543aeb2614cb9e79d781d70f739bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 04/79] fix: linear_feedback_shift_engine output exceeds max()
 when w is less than the word

The shifted state was not reduced to w bits, so for w smaller than the
digits of UIntType values greater than max() were returned.
---
 include/boost/random/linear_feedback_shift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index 6f88b51..e365468 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -119,7 +119,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From 40782bbfa74c3a2dede34adb0630ed0effc725b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 05/79] fix: reading mersenne_twister_engine at the end of a
 stream sets failbit

operator>> skipped whitespace after the last value; once the stream is at
its end std::ws reports failure although the engine was read completely.
---
 include/boost/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..ca48e91 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -232,7 +232,7 @@ public:
                mersenne_twister_engine& mt)
     {
         for(std::size_t j = 0; j < mt.state_size; ++j)
-            is >> mt.x[j] >> std::ws;
+            is >> std::ws >> mt.x[j];
         // MSVC (up to 7.1) and Borland (up to 5.64) don't handle the template
         // value parameter "n" available from the class template scope, so use
         // the static constant with the same value
-- 
2.43.0


From ca4b81fddc985ececd276717e6bea74a7815b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 06/79] fix: reading lagged_fibonacci_engine at the end of a
 stream sets failbit

operator>> skipped whitespace after the last value; once the stream is at
its end std::ws reports failure although the engine was read completely.
---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 0c93bae..446a2ef 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -154,9 +154,9 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lagged_fibonacci_engine, f)
     {
-        is >> f.i >> std::ws;
+        is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j)
-            is >> f.x[j] >> std::ws;
+            is >> std::ws >> f.x[j];
         return is;
     }
 
-- 
2.43.0


From 5fcb5609023452b15401715f56eed3787d682eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 07/79] fix: subtract_with_carry equality must compare the
 carry

Two engines whose last r values agree but whose carry differs produce
different sequences and compared equal.
---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..32d97df 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From 8ac7af461f8a41837947f1513314f18505095108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 08/79] fix: subtract_with_carry discard did nothing for short
 skips from index 0

With the array index at 0 (e.g. after seeding) and z < long_lag the new index
equals z, so the partial block was not updated.
---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 32d97df..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From 35df787b7e097bf65dfaa7bf078dac62457a6ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 09/79] fix: linear_congruential_engine::discard for general a,
 c and m

The closed form needs (a-1)/gcd(a-1,m) to be invertible modulo m, which does
not hold e.g. for a=41, c=1, m=100, and divides by zero when a == 1. Compose
the affine map by repeated squaring instead.
---
 include/boost/random/linear_congruential.hpp | 44 +++++++-------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/include/boost/random/linear_congruential.hpp b/include/boost/random/linear_congruential.hpp
index 62b05ec..77d7bff 100644
--- a/include/boost/random/linear_congruential.hpp
+++ b/include/boost/random/linear_congruential.hpp
@@ -192,39 +192,23 @@ public:
     /** Advances the state of the generator by @c z. */
     void discard(boost::uintmax_t z)
     {
+        // Compose the affine map x -> a * x + c with itself z times
+        // by repeated squaring.  This works for any a, c and m.
         typedef const_mod<IntType, m> mod_type;
-        IntType b_inv = mod_type::invert(a-1);
-        IntType b_gcd = mod_type::mult(a-1, b_inv);
-        if(b_gcd == 1) {
-            IntType a_z = mod_type::pow(a, z);
-            _x = mod_type::mult_add(a_z, _x, 
-                mod_type::mult(mod_type::mult(c, b_inv), a_z - 1));
-        } else {
-            // compute (a^z - 1)*c % (b_gcd * m) / (b / b_gcd) * inv(b / b_gcd)
-            // we're storing the intermediate result / b_gcd
-            IntType a_zm1_over_gcd = 0;
-            IntType a_km1_over_gcd = (a - 1) / b_gcd;
-            boost::uintmax_t exponent = z;
-            while(exponent != 0) {
-                if(exponent % 2 == 1) {
-                    a_zm1_over_gcd =
-                        mod_type::mult_add(
-                            b_gcd,
-                            mod_type::mult(a_zm1_over_gcd, a_km1_over_gcd),
-                            mod_type::add(a_zm1_over_gcd, a_km1_over_gcd));
-                }
-                a_km1_over_gcd = mod_type::mult_add(
-                    b_gcd,
-                    mod_type::mult(a_km1_over_gcd, a_km1_over_gcd),
-                    mod_type::add(a_km1_over_gcd, a_km1_over_gcd));
-                exponent /= 2;
+        IntType a_2k = a;
+        IntType c_2k = c;
+        IntType a_z = 1;
+        IntType c_z = 0;
+        while(z != 0) {
+            if(z % 2 == 1) {
+                c_z = mod_type::mult_add(a_2k, c_z, c_2k);
+                a_z = mod_type::mult(a_2k, a_z);
             }
-            
-            IntType a_z = mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1);
-            IntType num = mod_type::mult(c, a_zm1_over_gcd);
-            b_inv = mod_type::invert((a-1)/b_gcd);
-            _x = mod_type::mult_add(a_z, _x, mod_type::mult(b_inv, num));
+            c_2k = mod_type::mult_add(a_2k, c_2k, c_2k);
+            a_2k = mod_type::mult(a_2k, a_2k);
+            z /= 2;
         }
+        _x = mod_type::mult_add(a_z, _x, c_z);
     }
 
     friend bool operator==(const linear_congruential_engine& x,
-- 
2.43.0


From 7c7b628fd9d110e8bb2ade83c01617dd650fc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 10/79] fix: splitmix64 operator>> consumes the rest of the
 stream

It concatenated every digit up to the end of the stream, losing whatever
followed the engine and corrupting its state, and left failbit set.
---
 include/boost/random/splitmix64.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..4611bcc 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,17 +154,11 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
+        std::uint64_t state;
+        if (ist >> state)
         {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
+            e.state_ = state;
         }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
 
         return ist;
     }
-- 
2.43.0


From fbc1d21eeee3e08155ffe090442dc6efaa6a0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 11/79] fix: mixmax operator>> rejects engines saved at the end
 of a block

counter == N is the valid state reached after N-1 draws.
---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..aebdfa1 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -145,7 +145,7 @@ public: // SEEDING FUNCTIONS
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From ce49a9d6f50cc7511c74dd949c2acfaf35dc8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 12/79] fix: const_mod products of 16-bit words overflow int

unsigned short operands are promoted to int, so products modulo 2^16 beyond
INT_MAX were undefined.
---
 include/boost/random/detail/const_mod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/detail/const_mod.hpp b/include/boost/random/detail/const_mod.hpp
index e0a43ab..949ff7b 100644
--- a/include/boost/random/detail/const_mod.hpp
+++ b/include/boost/random/detail/const_mod.hpp
@@ -57,7 +57,7 @@ public:
   static IntType mult(IntType a, IntType x)
   {
     if(((unsigned_m() - 1) & unsigned_m()) == 0)
-      return unsigned_type(a) * unsigned_type(x) & (unsigned_m() - 1);
+      return 1u * unsigned_type(a) * unsigned_type(x) & (unsigned_m() - 1);
     else if(a == 0)
       return 0;
     else if(a == 1)
@@ -73,7 +73,7 @@ public:
   static IntType mult_add(IntType a, IntType x, IntType c)
   {
     if(((unsigned_m() - 1) & unsigned_m()) == 0)
-      return (unsigned_type(a) * unsigned_type(x) + unsigned_type(c)) & (unsigned_m() - 1);
+      return (1u * unsigned_type(a) * unsigned_type(x) + unsigned_type(c)) & (unsigned_m() - 1);
     else if(a == 0)
       return c;
     else if(m <= (traits::const_max-c)/a) {  // i.e. a*m+c <= max
-- 
2.43.0


From 4605bd7ccac2c4de831ebf12e209c9b5e0874cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 13/79] fix: mersenne_twister state masks ignore w when it is
 less than the word

---
 include/boost/random/mersenne_twister.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index ca48e91..f4a15d1 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -312,8 +312,8 @@ private:
      */
     void rewind(UIntType* last, std::size_t z) const
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
+        const UIntType upper_mask = (max)() & ~lower_mask;
         UIntType y0 = x[m-1] ^ x[n-1];
         if(y0 & (static_cast<UIntType>(1) << (w-1))) {
             y0 = ((y0 ^ a) << 1) | 1;
@@ -345,8 +345,8 @@ private:
      */
     void normalize_state()
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
+        const UIntType upper_mask = (max)() & ~lower_mask;
         UIntType y0 = x[m-1] ^ x[n-1];
         if(y0 & (static_cast<UIntType>(1) << (w-1))) {
             y0 = ((y0 ^ a) << 1) | 1;
@@ -464,8 +464,8 @@ private:
     }
     void reconstruct_state(const detail::polynomial& p)
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
+        const UIntType upper_mask = (max)() & ~lower_mask;
         const std::size_t num_bits = w*n - r;
         for(std::size_t j = num_bits - n + 1; j <= num_bits; ++j)
             x[j % n] = p[j];
-- 
2.43.0


From 4b3a1e2e003acc62f6ad2c43d9fc9200557a34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 14/79] fix: polynomial_ops::add_shifted_inplace accesses past
 the end of its output

---
 include/boost/random/detail/polynomial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/polynomial.hpp b/include/boost/random/detail/polynomial.hpp
index a8c4b26..9fb2626 100644
--- a/include/boost/random/detail/polynomial.hpp
+++ b/include/boost/random/detail/polynomial.hpp
@@ -50,7 +50,10 @@ public:
             output[i] ^= (tmp << shift) | (prev >> (bits-shift));
             prev = tmp;
         }
-        output[size] ^= (prev >> (bits-shift));
+        // output[size] may be past the end of the storage when
+        // there is nothing to carry into it.
+        digit_t carry = prev >> (bits-shift);
+        if(carry != 0) output[size] ^= carry;
     }
 
     static void multiply_simple(std::size_t size, const digit_t * lhs,
-- 
2.43.0


From afc53b6d6a5c80e5f3596b6a8880a3f08ad47a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 15/79] fix: mersenne_twister characteristic polynomial when m
 is n-1 and w is odd

---
 include/boost/random/mersenne_twister.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index f4a15d1..883e9ab 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -428,6 +428,11 @@ private:
         const std::size_t num_bits = w*n - r;
         detail::polynomial helper;
         helper[num_bits - 1] = 1;
+        // reconstruct_state also needs the element which follows.
+        // The leading terms of the characteristic polynomial are
+        // (t^n + t^m)^(w-r) * (t^(n-1) + t^(m-1))^r, so it is zero
+        // unless m is n-1 and w is odd.
+        helper[num_bits] = (m + 1 == n && w % 2 != 0);
         mersenne_twister_engine tmp;
         tmp.reconstruct_state(helper);
         // Skip the first num_bits elements, since we
-- 
2.43.0


From 81c444721c3a3dc7fe490f93e5b3de6795c29c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 16/79] fix: xor_combine_engine bounds ignored the shifts and
 the combined bits

---
 include/boost/random/xor_combine.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 312fdb8..6188952 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -136,10 +136,18 @@ public:
 
     /** Returns the smallest value that the generator can produce. */
     static BOOST_CONSTEXPR result_type min BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::min)()<(URNG2::min)()?(URNG1::min)():(URNG2::min)(); }
-    /** Returns the largest value that the generator can produce. */
+    { return 0; }
+    /**
+     * Returns the largest value that the generator can produce.
+     * (An upper bound when the base generators do not produce all the
+     * values of a fixed number of bits.)
+     */
     static BOOST_CONSTEXPR result_type max BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::max)()>(URNG2::max)()?(URNG1::max)():(URNG2::max)(); }
+    {
+        return static_cast<result_type>(
+            (all_bits(static_cast<result_type>((URNG1::max)())) << s1) |
+            (all_bits(static_cast<result_type>((URNG2::max)())) << s2));
+    }
 
     /**
      * Writes the textual representation of the generator to a @c std::ostream.
@@ -167,6 +175,10 @@ public:
     BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(xor_combine_engine)
 
 private:
+    // all the bits which the values up to v can have set
+    static BOOST_CONSTEXPR result_type all_bits(result_type v)
+    { return v == 0 ? v : static_cast<result_type>(v | all_bits(v >> 1)); }
+
     base1_type _rng1;
     base2_type _rng2;
 };
@@ -197,9 +209,6 @@ public:
     xor_combine(It& first, It last) : base_type(first, last) {}
     xor_combine(const URNG1 & rng1, const URNG2 & rng2)
       : base_type(rng1, rng2) { }
-
-    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::min)((this->base1().min)(), (this->base2().min)()); }
-    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::max)((this->base1().min)(), (this->base2().max)()); }
 };
 
 /// \endcond
-- 
2.43.0


From b1df938c562c7bf4db2b4d1ec3b04a4482e42fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 17/79] fix: seed_seq::generate divides by zero for an empty
 range

---
 include/boost/random/seed_seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..a3634e4 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -68,6 +68,7 @@ public:
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
+        if(n == 0) return;
         std::size_t t =
             (n >= 623) ? 11 :
             (n >=  68) ?  7 :
-- 
2.43.0


From c191e4c97713e7721eef7040247151af88e3002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 18/79] fix: seed_seq::generate leaves more than 32 bits in
 wider elements

---
 include/boost/random/seed_seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index a3634e4..5ee2420 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -87,7 +87,7 @@ public:
             value_type r2 = static_cast<value_type>(r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask;
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -98,7 +98,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>(r3 - k%n) & mask;
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From abc38f0b1792ca52d395d41de79af76f1606e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 19/79] fix: engine generate() writes past an empty range

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..92e8e9a 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -86,6 +86,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
     using std::fmod;
     typedef typename Engine::result_type RealType;
+    if(begin == end) return;
     const int Bits = detail::generator_bits<Engine>::value();
     int remaining_bits = 0;
     boost::uint_least32_t saved_bits = 0;
@@ -133,6 +134,7 @@ void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
+    if(begin == end) return;
     int remaining_bits = 0;
     boost::uint_least32_t saved_bits = 0;
     unsigned_type range = boost::random::detail::subtract<IntType>()((eng.max)(), (eng.min)());
-- 
2.43.0


From 475c7f6a50b557112059adc47a81c671cc609bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 20/79] fix: independent_bits_engine with a base engine of
 three values

---
 include/boost/random/independent_bits.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 72a8ed7..b4fe104 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -258,10 +258,12 @@ private:
         base_unsigned& y0, base_unsigned& y1,
         base_unsigned& y0_mask, base_unsigned& y1_mask)
     {
-        BOOST_ASSERT(w >= n);
+        // n may be w + 1 when the base generator has a range of 3 values;
+        // the first value then contributes no bits.
+        BOOST_ASSERT(w + 1 >= n);
         w0 = w/n;
         n0 = n - w % n;
-        y0_mask = (base_unsigned(2) << (w0 - 1)) - 1;
+        y0_mask = w0 == 0 ? base_unsigned(0) : base_unsigned((base_unsigned(2) << (w0 - 1)) - 1);
         y1_mask = (y0_mask << 1) | 1;
         y0 = (range + 1) & ~y0_mask;
         y1 = (range + 1) & ~y1_mask;
-- 
2.43.0


From d66343b62e84489918567d74554c189ee776aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 21/79] fix: uniform_int_distribution ignores min when the
 range is a power of the engine's

---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From 53b91044dbabebfc9e7450c06f3b9ccda6158efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 22/79] fix: uniform_01 overflows for signed engines with a
 wide range

max() - min() and x - min() were computed in the engine's signed result type,
so over an engine with the full range of int the factor was infinite and no
value was ever accepted.
---
 include/boost/random/uniform_01.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/uniform_01.hpp b/include/boost/random/uniform_01.hpp
index 37258f5..8287f61 100644
--- a/include/boost/random/uniform_01.hpp
+++ b/include/boost/random/uniform_01.hpp
@@ -20,8 +20,10 @@
 #include <boost/config.hpp>
 #include <boost/limits.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/type_traits/is_integral.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/ptr_helper.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 #include <boost/random/detail/disable_warnings.hpp>
 
@@ -77,6 +79,21 @@ public:
 
 namespace detail {
 
+// Computes x - y, where x >= y, without overflowing when base_result is a
+// signed integer.
+template<class T, bool is_int = boost::is_integral<T>::value>
+struct uniform_01_subtract
+{
+  T operator()(T x, T y) const { return x - y; }
+};
+
+template<class T>
+struct uniform_01_subtract<T, true>
+{
+  typename subtract<T>::result_type operator()(T x, T y) const
+  { return subtract<T>()(x, y); }
+};
+
 template<class RealType>
 class new_uniform_01
 {
@@ -93,9 +110,9 @@ public:
     for (;;) {
       typedef typename Engine::result_type base_result;
       result_type factor = result_type(1) /
-              (result_type(base_result((eng.max)()-(eng.min)())) +
+              (result_type(uniform_01_subtract<base_result>()((eng.max)(), (eng.min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0));
-      result_type result = result_type(base_result(eng() - (eng.min)())) * factor;
+      result_type result = result_type(uniform_01_subtract<base_result>()(eng(), (eng.min)())) * factor;
       if (result < result_type(1))
         return result;
     }
@@ -135,7 +152,7 @@ public:
   explicit backward_compatible_uniform_01(typename traits::rvalue_type rng)
     : _rng(rng),
       _factor(result_type(1) /
-              (result_type((base().max)()-(base().min)()) +
+              (result_type(uniform_01_subtract<base_result>()((base().max)(), (base().min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0)))
   {
   }
@@ -149,7 +166,7 @@ public:
 
   result_type operator()() {
     for (;;) {
-      result_type result = result_type(base()() - (base().min)()) * _factor;
+      result_type result = result_type(uniform_01_subtract<base_result>()(base()(), (base().min)())) * _factor;
       if (result < result_type(1))
         return result;
     }
-- 
2.43.0


From eebc14b7536cff5ce9bc49a5c855afbe49a0ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 23/79] fix: generate_canonical with a real-valued engine

The first engine value was added without being scaled by R, so the result of
one call was 2^bits times too small, and the first value of several was lost.
---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 5f45b4e..14ccaeb 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -60,7 +60,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     RealType R = pow(RealType(2), RealType(engine_bits));
     RealType mult = R;
     RealType limit = pow(RealType(2), RealType(b));
-    RealType S = RealType(g() - (g.min)());
+    RealType S = RealType(floor(RealType(g() - (g.min)()) * R));
     while(mult < limit) {
         RealType inc(floor((RealType(g()) - RealType((g.min)())) * R));
         S += inc * mult;
-- 
2.43.0


From 1e87253d1844be6d425f11dcd64d0e5f30d880e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 24/79] fix: generate_canonical rounds the engine's bounds
 before subtracting them

For bounds that RealType cannot represent, like [2^32-6, 2^32-1] for float,
the range came out as 1 and the loop never ended.
---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 14ccaeb..f099e71 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -33,7 +33,7 @@ RealType generate_canonical_impl(URNG& g, boost::true_type /*is_integral*/)
     using std::pow;
     typedef typename URNG::result_type base_result;
     std::size_t digits = std::numeric_limits<RealType>::digits;
-    RealType R = RealType((g.max)()) - RealType((g.min)()) + 1;
+    RealType R = RealType(detail::subtract<base_result>()((g.max)(), (g.min)())) + 1;
     RealType mult = R;
     RealType limit =
         pow(RealType(2),
-- 
2.43.0


From 519a1c344375222a69fd63f72a0b524cabe0bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 25/79] fix: generate_canonical can exceed 1 when both sum and
 product round

The assertion result <= 1 failed, or a value above 1 was returned with
assertions off (long double over an engine with a range of 13, for one).
---
 include/boost/random/generate_canonical.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index f099e71..2fea9cb 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -81,10 +81,10 @@ RealType generate_canonical(URNG& g)
     RealType result = detail::generate_canonical_impl<RealType, bits>(
         g, boost::random::traits::is_integral<typename URNG::result_type>());
     BOOST_ASSERT(result >= 0);
-    BOOST_ASSERT(result <= 1);
-    if(result == 1) {
-        result -= std::numeric_limits<RealType>::epsilon() / 2;
-        BOOST_ASSERT(result != 1);
+    // rounding can take the result to 1, or just above it.
+    if(result >= 1) {
+        result = 1 - std::numeric_limits<RealType>::epsilon() / 2;
+        BOOST_ASSERT(result < 1);
     }
     return result;
 }
-- 
2.43.0


From e9f34585011c1c0db9fa8bba0cb212ec81b9acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 26/79] fix: piecewise_constant_distribution::densities with
 integer weights

---
 include/boost/random/piecewise_constant_distribution.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 488f41c..a159aaf 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -391,11 +391,7 @@ public:
      */
     std::vector<RealType> densities() const
     {
-        std::vector<RealType> result(_bins.probabilities());
-        for(std::size_t i = 0; i < result.size(); ++i) {
-            result[i] /= (_intervals[i+1] - _intervals[i]);
-        }
-        return(result);
+        return param().densities();
     }
     /**  Returns a vector containing the interval boundaries. */
     std::vector<RealType> intervals() const { return _intervals; }
-- 
2.43.0


From f5aa2077a1c33a0148e9b1219ea21fb54e7b27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 27/79] fix: generate_int_float_pair shifts by -1 when the
 engine's bits divide the digits

---
 include/boost/random/detail/int_float_pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/int_float_pair.hpp b/include/boost/random/detail/int_float_pair.hpp
index 7ec2e26..7e8de8f 100644
--- a/include/boost/random/detail/int_float_pair.hpp
+++ b/include/boost/random/detail/int_float_pair.hpp
@@ -88,7 +88,8 @@ std::pair<RealType, int> generate_int_float_pair(Engine& eng, boost::true_type)
     }
     if (m - w%m < digits)
     {
-        const std::size_t remaining = (digits - m + w%m) % m;
+        // the digits still missing, between 1 and m
+        const std::size_t remaining = (digits - m + w%m - 1) % m + 1;
         base_unsigned u = generate_one_digit(eng, m);
         r += u & ((base_unsigned(2) << (remaining - 1)) - 1);
         const RealType mult = RealType(0.5)/RealType(base_unsigned(1) << (remaining - 1));
-- 
2.43.0


From c9ad9d5658448446793d7d52806eaeba01ed75b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 28/79] fix: extreme_value_distribution returns -infinity when
 the uniform number is zero

---
 include/boost/random/extreme_value_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/extreme_value_distribution.hpp b/include/boost/random/extreme_value_distribution.hpp
index 419c3da..15f647f 100644
--- a/include/boost/random/extreme_value_distribution.hpp
+++ b/include/boost/random/extreme_value_distribution.hpp
@@ -96,7 +96,11 @@ public:
     RealType operator()(URNG& urng) const
     {
         using std::log;
-        return _a - log(-log(uniform_01<RealType>()(urng))) * _b;
+        RealType u;
+        do {
+            u = uniform_01<RealType>()(urng);
+        } while(u == RealType(0)); // log(0) is not finite
+        return _a - log(-log(u)) * _b;
     }
 
     /**
-- 
2.43.0


From e6832cd9e1e38eaba012a19ea67ffe89d0a3b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 29/79] fix: negative_binomial_distribution asserts for k = 0,
 p = 1 and when the gamma variate is zero

---
 include/boost/random/negative_binomial_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index cbe26fa..83dbe81 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -116,8 +116,13 @@ public:
     template<class URNG>
     IntType operator()(URNG& urng) const
     {
+        // nothing can fail
+        if(_k == 0 || _p == RealType(1)) return 0;
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
-        poisson_distribution<IntType, RealType> poisson(gamma(urng));
+        RealType mean = gamma(urng);
+        // the mean of a poisson_distribution must be positive
+        if(mean == RealType(0)) return 0;
+        poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
     }
     
-- 
2.43.0


From 9035b33487dac5f958c8257c71f71ebbb7d0720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 30/79] fix: binomial_distribution overflows for the largest t
 and for candidates outside the integer type

---
 .../boost/random/binomial_distribution.hpp    | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 78d1a12..5f47029 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -260,7 +260,7 @@ private:
     {
         if(k < 10) return detail::binomial_table<RealType>::table[k];
         else {
-            RealType ikp1 = RealType(1) / (k + 1);
+            RealType ikp1 = RealType(1) / (RealType(k) + 1);
             return (RealType(1)/12
                  - (RealType(1)/360
                  - (RealType(1)/1260)*(ikp1*ikp1))*(ikp1*ikp1))*ikp1;
@@ -275,13 +275,13 @@ private:
         RealType p = (0.5 < _p)? (1 - _p) : _p;
         IntType t = _t;
         
-        m = static_cast<IntType>((t+1)*p);
+        m = static_cast<IntType>((RealType(t)+1)*p);
 
         if(use_inversion()) {
             _u.q_n = pow((1 - p), static_cast<RealType>(t));
         } else {
             _u.btrd.r = p/(1-p);
-            _u.btrd.nr = (t+1)*_u.btrd.r;
+            _u.btrd.nr = (RealType(t)+1)*_u.btrd.r;
             _u.btrd.npq = t*p*(1-p);
             RealType sqrt_npq = sqrt(_u.btrd.npq);
             _u.btrd.b = 1.15 + 2.53 * sqrt_npq;
@@ -318,8 +318,11 @@ private:
             }
 
             RealType us = 0.5 - abs(u);
-            IntType k = static_cast<IntType>(floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c));
-            if(k < 0 || k > _t) continue;
+            RealType kf = floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c);
+            // kf may be infinite or too large for IntType
+            if(!(kf >= 0 && kf < RealType(_t) + 1)) continue;
+            IntType k = static_cast<IntType>(kf);
+            if(k > _t) continue;
             v = v*_u.btrd.alpha/(_u.btrd.a/(us*us) + _u.btrd.b);
             RealType km = abs(k - m);
             if(km <= 15) {
@@ -348,13 +351,13 @@ private:
                 if(v < t - rho) return k;
                 if(v > t + rho) continue;
 
-                IntType nm = _t - m + 1;
-                RealType h = (m + 0.5)*log((m + 1)/(_u.btrd.r*nm))
+                RealType nm = RealType(_t - m) + 1;
+                RealType h = (m + 0.5)*log((RealType(m) + 1)/(_u.btrd.r*nm))
                            + fc(m) + fc(_t - m);
 
-                IntType nk = _t - k + 1;
-                if(v <= h + (_t+1)*log(static_cast<RealType>(nm)/nk)
-                          + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
+                RealType nk = RealType(_t - k) + 1;
+                if(v <= h + (RealType(_t)+1)*log(nm/nk)
+                          + (k + 0.5)*log(nk*_u.btrd.r/(RealType(k)+1))
                           - fc(k)
                           - fc(_t - k))
                 {
@@ -371,7 +374,7 @@ private:
     {
         RealType q = 1 - p;
         RealType s = p / q;
-        RealType a = (t + 1) * s;
+        RealType a = (RealType(t) + 1) * s;
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-- 
2.43.0


From 94fd16bd255d515104d6feaa2bbb25d569eabada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 31/79] fix: bernoulli_distribution overflows over an engine of
 a signed type

---
 include/boost/random/bernoulli_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index d66bae4..ae84aa0 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -21,6 +21,7 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/uniform_01.hpp>
 
 namespace boost {
 namespace random {
@@ -140,7 +141,11 @@ public:
         if(_p == RealType(0))
             return false;
         else
-            return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+        {
+            typedef detail::uniform_01_subtract<typename Engine::result_type> subtract_type;
+            return RealType(subtract_type()(eng(), (eng.min)()))
+                <= _p * RealType(subtract_type()((eng.max)(), (eng.min)()));
+        }
     }
 
     /**
-- 
2.43.0


From e70f0aff850239dfad3558f1b9b8869e982396de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 32/79] fix: discrete_distribution::param_type from an empty
 range is not the default

---
 include/boost/random/discrete_distribution.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c6c25fe..8584dd7 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -335,6 +335,10 @@ public:
         {}
         void normalize()
         {
+            // no weights: the same as the default constructor
+            if(_probabilities.empty()) {
+                _probabilities.push_back(static_cast<WeightType>(1));
+            }
             impl_type::normalize(_probabilities);
         }
         std::vector<WeightType> _probabilities;
-- 
2.43.0


From e4b0faf33fa2242eb3ebfe3c9325b8ff7484a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 33/79] fix: discrete_distribution mistakes every sum of
 one-shot integer weights for an overflow, and an overflow for a sum

---
 include/boost/random/discrete_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 8584dd7..8ca6c36 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -113,7 +113,7 @@ struct integer_alias_table {
                 iter = weights.begin(), end = weights.end();
             iter != end; ++iter)
         {
-            if((std::numeric_limits<WeightType>::max)() - result > *iter) {
+            if((std::numeric_limits<WeightType>::max)() - result < *iter) {
                 return static_cast<WeightType>(0);
             }
             result += *iter;
-- 
2.43.0


From 0ea793bc4ef2006a4f43d14c5e83089ba0870399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 34/79] fix: discrete_distribution with one-shot weights
 returns a last outcome of weight zero after round-off

---
 include/boost/random/discrete_distribution.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 8ca6c36..8c94d93 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -468,8 +468,12 @@ public:
             }
             // This shouldn't be reachable, but round-off error
             // can prevent any match from being found when val is
-            // very close to 1.
-            return static_cast<IntType>(parm._probabilities.size() - 1);
+            // very close to 1.  Return the last possible outcome.
+            do {
+                --result;
+            } while(result > 0 &&
+                parm._probabilities[result] == static_cast<WeightType>(0));
+            return static_cast<IntType>(result);
         } else {
             // WeightType is integral and sum(parm._probabilities)
             // would overflow.  Just use the easy solution.
-- 
2.43.0


From 50bdcd02b64fe3a32ad442f2998eb937f1e3ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 35/79] fix: gamma_distribution accepts candidates of
 probability zero when the uniform number is zero

---
 include/boost/random/gamma_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/gamma_distribution.hpp b/include/boost/random/gamma_distribution.hpp
index c9bda4c..00330c6 100644
--- a/include/boost/random/gamma_distribution.hpp
+++ b/include/boost/random/gamma_distribution.hpp
@@ -177,7 +177,7 @@ public:
                     + _alpha-result_type(1);
                 if(x <= result_type(0))
                     continue;
-                if(uniform_01<RealType>()(eng) >
+                if(uniform_01<RealType>()(eng) >=
                     (result_type(1)+y*y) * exp((_alpha-result_type(1))
                                                *log(x/(_alpha-result_type(1)))
                                                - sqrt(result_type(2)*_alpha
-- 
2.43.0


From 3814d6d2ad2533ce9fad37e6872cf899e556d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 36/79] fix: binomial_distribution returns -1 or t + 1 after
 round-off

---
 include/boost/random/binomial_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 5f47029..4763712 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -378,7 +378,8 @@ private:
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-        while(u > r) {
+        // Round-off error can leave u > r after all t + 1 outcomes.
+        while(u > r && x < t) {
             u = u - r;
             ++x;
             RealType r1 = ((a/x) - s) * r;
-- 
2.43.0


From 6e883f3f8e1dcffc9a3c93c062df9b80a47eb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 37/79] fix: poisson_distribution does not return when
 round-off error leaves u above the sum of all probabilities

---
 include/boost/random/poisson_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index 1281a7d..41c01c9 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -324,6 +324,8 @@ private:
         IntType x = 0;
         RealType u = uniform_01<RealType>()(urng);
         while(u > p) {
+            // p can no longer change u: all that is left is round-off error
+            if(u - p == u) break;
             u = u - p;
             ++x;
             p = _mean * p / x;
-- 
2.43.0


From 8f8815759ea812b8e047f86daf664885bbd15ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 38/79] fix: hyperexponential_distribution makes the last
 probability negative, or positive for a zero weight, by round-off

---
 include/boost/random/hyperexponential_distribution.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3a71c9e..051f306 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -54,17 +54,14 @@ std::vector<T>& normalize(std::vector<T>& v)
     }
 
     const T sum = std::accumulate(v.begin(), v.end(), static_cast<T>(0));
-    T final_sum = 0;
 
-    const typename std::vector<T>::iterator end = --v.end();
+    const typename std::vector<T>::iterator end = v.end();
     for (typename std::vector<T>::iterator it = v.begin();
          it != end;
          ++it)
     {
         *it /= sum;
-        final_sum += *it;
     }
-    *end = 1-final_sum; // avoids round off errors thus ensuring the probabilities really sum to 1
 
     return v;
 }
-- 
2.43.0


From d9334faa375b0f866e2f6fb0e9ca7fdda8d3ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 39/79] fix: hyperexponential_distribution::param_type from a
 pair of rate iterators does not normalise the probabilities

---
 include/boost/random/hyperexponential_distribution.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 051f306..d3d80e4 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -333,6 +333,7 @@ class hyperexponential_distribution
         : probs_(std::distance(rate_first, rate_last), 1), // will be normalized below
           rates_(rate_first, rate_last)
         {
+            hyperexp_detail::normalize(probs_);
             BOOST_ASSERT(probs_.size() == rates_.size());
         }
 
-- 
2.43.0


From 75a78b01cfa47e42dc385fe117ea6cea0e410def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 40/79] fix: beta_distribution returns NaN when both gamma
 variates (or the normal) are zero

---
 include/boost/random/beta_distribution.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/beta_distribution.hpp b/include/boost/random/beta_distribution.hpp
index 145bf97..61e2a3f 100644
--- a/include/boost/random/beta_distribution.hpp
+++ b/include/boost/random/beta_distribution.hpp
@@ -101,8 +101,14 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng) const
     {
-        RealType a = gamma_distribution<RealType>(_alpha, RealType(1.0))(urng);
-        RealType b = gamma_distribution<RealType>(_beta, RealType(1.0))(urng);
+        gamma_distribution<RealType> gamma_a(_alpha, RealType(1.0));
+        gamma_distribution<RealType> gamma_b(_beta, RealType(1.0));
+        RealType a, b;
+        // Both can underflow to zero, which leaves the ratio undefined.
+        do {
+            a = gamma_a(urng);
+            b = gamma_b(urng);
+        } while(a + b == RealType(0));
         return a / (a + b);
     }
 
-- 
2.43.0


From 0e8a8f23ca60c4c27ecbdbb5cd76d9b706a37959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 41/79] fix: fisher_f_distribution returns NaN when both gamma
 variates (or the normal) are zero

---
 include/boost/random/fisher_f_distribution.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/fisher_f_distribution.hpp b/include/boost/random/fisher_f_distribution.hpp
index cdf14da..578d803 100644
--- a/include/boost/random/fisher_f_distribution.hpp
+++ b/include/boost/random/fisher_f_distribution.hpp
@@ -100,7 +100,13 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng)
     {
-        return (_impl_m(urng) * n()) / (_impl_n(urng) * m());
+        RealType x, y;
+        // Both can underflow to zero, which leaves the ratio undefined.
+        do {
+            x = _impl_m(urng) * n();
+            y = _impl_n(urng) * m();
+        } while(x == RealType(0) && y == RealType(0));
+        return x / y;
     }
 
     /**
-- 
2.43.0


From 3c7e8d9e374e736488942f78bf14932c465b604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 42/79] fix: student_t_distribution returns NaN when both gamma
 variates (or the normal) are zero

---
 include/boost/random/student_t_distribution.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/student_t_distribution.hpp b/include/boost/random/student_t_distribution.hpp
index e28b0e3..3d61bf3 100644
--- a/include/boost/random/student_t_distribution.hpp
+++ b/include/boost/random/student_t_distribution.hpp
@@ -96,7 +96,13 @@ public:
     RealType operator()(URNG& urng)
     {
         using std::sqrt;
-        return _normal(urng) / sqrt(_chi_squared(urng) / n());
+        RealType x, y;
+        // Both can be zero, which leaves the ratio undefined.
+        do {
+            x = _normal(urng);
+            y = sqrt(_chi_squared(urng) / n());
+        } while(x == RealType(0) && y == RealType(0));
+        return x / y;
     }
 
     /**
-- 
2.43.0


From 47d3b719845205cb60f182f76fb6f2e1261b9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 43/79] fix: triangle_distribution leaves [a, c] by round-off

---
 include/boost/random/triangle_distribution.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 6d37e2b..232dad2 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -162,10 +162,18 @@ public:
     {
         using std::sqrt;
         result_type u = uniform_01<result_type>()(eng);
-        if( u <= q1 )
-            return _a + p1*sqrt(u);
-        else
-        return _c - d3*sqrt(d2*u-d1);
+        // Round-off error must not take the result past b, or make
+        // the argument of the square root negative.
+        if( u <= q1 ) {
+            result_type result = _a + p1*sqrt(u);
+            return result < _b ? result : _b;
+        } else {
+            result_type t = d2*u-d1;
+            if( !(t > result_type(0)) )
+                return _b;
+            result_type result = _c - d3*sqrt(t);
+            return result > _b ? result : _b;
+        }
     }
 
     /**
-- 
2.43.0


From 6cc2ec4f0e540515b7ad825b62ec245a3ad3b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 44/79] fix: discrete_distribution keeps stale aliases when
 parameters are assigned

---
 include/boost/random/discrete_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 8c94d93..4aca36f 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -74,6 +74,7 @@ struct integer_alias_table {
                 }
             }
         }
+        _alias_table.clear();
         _alias_table.resize(static_cast<std::size_t>(n));
         _average = weight_average;
         _excess = excess;
@@ -144,6 +145,7 @@ struct real_alias_table {
         std::size_t size = std::distance(first, last);
         WeightType weight_sum =
             std::accumulate(first, last, static_cast<WeightType>(0));
+        _alias_table.clear();
         _alias_table.resize(size);
         return weight_sum / size;
     }
-- 
2.43.0


From fbe00f1fb9623cc1ddc2091ea0aa233a3ade40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 45/79] fix: piecewise_constant_distribution keeps the weights
 when there are less than two boundaries

---
 include/boost/random/piecewise_constant_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index a159aaf..fd28ea0 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -134,6 +134,7 @@ public:
                 _intervals.clear();
                 _intervals.push_back(RealType(0));
                 _intervals.push_back(RealType(1));
+                _weights.clear();
                 _weights.push_back(WeightType(1));
             }
         }
@@ -324,6 +325,7 @@ public:
             _intervals.clear();
             _intervals.push_back(RealType(0));
             _intervals.push_back(RealType(1));
+            _bins = discrete_distribution<std::size_t, WeightType>();
         }
     }
     /**
-- 
2.43.0


From 8ae179322e335389f43a7a91d9f49b986bbab877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 46/79] fix: piecewise distributions compute the intervals of a
 function in double in param_type and in RealType otherwise

---
 .../boost/random/piecewise_constant_distribution.hpp  | 11 ++---------
 .../boost/random/piecewise_linear_distribution.hpp    |  2 +-
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index fd28ea0..5fb3993 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -150,7 +150,7 @@ public:
         param_type(std::size_t nw, RealType xmin, RealType xmax, F f)
         {
             std::size_t n = (nw == 0) ? 1 : nw;
-            double delta = (xmax - xmin) / n;
+            RealType delta = (xmax - xmin) / n;
             BOOST_ASSERT(delta > 0);
             for(std::size_t k = 0; k < n; ++k) {
                 _weights.push_back(f(xmin + k*delta + delta/2));
@@ -340,15 +340,8 @@ public:
                                     RealType xmin,
                                     RealType xmax,
                                     F f)
-      : _bins(nw, xmin, xmax, f)
     {
-        if(nw == 0) { nw = 1; }
-        RealType delta = (xmax - xmin) / nw;
-        _intervals.reserve(nw + 1);
-        for(std::size_t i = 0; i < nw; ++i) {
-            _intervals.push_back(xmin + i * delta);
-        }
-        _intervals.push_back(xmax);
+        param(param_type(nw, xmin, xmax, f));
     }
     /**
      * Constructs a piecewise_constant_distribution from its parameters.
diff --git a/include/boost/random/piecewise_linear_distribution.hpp b/include/boost/random/piecewise_linear_distribution.hpp
index 541c57f..e4debb1 100644
--- a/include/boost/random/piecewise_linear_distribution.hpp
+++ b/include/boost/random/piecewise_linear_distribution.hpp
@@ -158,7 +158,7 @@ public:
         param_type(std::size_t nw, RealType xmin, RealType xmax, F f)
         {
             std::size_t n = (nw == 0) ? 1 : nw;
-            double delta = (xmax - xmin) / n;
+            RealType delta = (xmax - xmin) / n;
             BOOST_ASSERT(delta > 0);
             for(std::size_t k = 0; k < n; ++k) {
                 _weights.push_back(f(xmin + k*delta));
-- 
2.43.0


From 0d6fd8a1c5b3eed584d9c7a5d11c6eeda816980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 47/79] fix: geometric_distribution::param_type reads its
 probability as a double whatever the RealType

---
 include/boost/random/geometric_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index 90374cf..f6692f1 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -76,7 +76,7 @@ public:
         /** Reads the parameters from a std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double p_in;
+            RealType p_in;
             if(is >> p_in) {
                 if(p_in > RealType(0) && p_in < RealType(1)) {
                     parm._p = p_in;
-- 
2.43.0


From eb92919faaf8a1361dc015dc1075fde9f5fb2de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 48/79] fix: triangle_distribution::param_type reads its
 parameters as double whatever the RealType

---
 include/boost/random/triangle_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 232dad2..03f39cb 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -74,7 +74,7 @@ public:
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double a_in, b_in, c_in;
+            RealType a_in, b_in, c_in;
             if(is >> a_in >> std::ws >> b_in >> std::ws >> c_in) {
                 if(a_in <= b_in && b_in <= c_in) {
                     parm._a = a_in;
-- 
2.43.0


From 1f939f26dd7a1309a233da42427d6ef21868ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 49/79] fix: discrete_distribution from a function with nw == 0
 is not the default

---
 .../boost/random/discrete_distribution.hpp    | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 4aca36f..cc4efb7 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -286,11 +286,13 @@ public:
         template<class Func>
         param_type(std::size_t nw, double xmin, double xmax, Func fw)
         {
-            std::size_t n = (nw == 0) ? 1 : nw;
-            double delta = (xmax - xmin) / n;
-            BOOST_ASSERT(delta > 0);
-            for(std::size_t k = 0; k < n; ++k) {
-                _probabilities.push_back(fw(xmin + k*delta + delta/2));
+            // normalize() handles nw == 0
+            if(nw != 0) {
+                double delta = (xmax - xmin) / nw;
+                BOOST_ASSERT(delta > 0);
+                for(std::size_t k = 0; k < nw; ++k) {
+                    _probabilities.push_back(fw(xmin + k*delta + delta/2));
+                }
             }
             normalize();
         }
@@ -409,12 +411,14 @@ public:
     template<class Func>
     discrete_distribution(std::size_t nw, double xmin, double xmax, Func fw)
     {
-        std::size_t n = (nw == 0) ? 1 : nw;
-        double delta = (xmax - xmin) / n;
-        BOOST_ASSERT(delta > 0);
         std::vector<WeightType> weights;
-        for(std::size_t k = 0; k < n; ++k) {
-            weights.push_back(fw(xmin + k*delta + delta/2));
+        // init() handles nw == 0
+        if(nw != 0) {
+            double delta = (xmax - xmin) / nw;
+            BOOST_ASSERT(delta > 0);
+            for(std::size_t k = 0; k < nw; ++k) {
+                weights.push_back(fw(xmin + k*delta + delta/2));
+            }
         }
         init(weights.begin(), weights.end());
     }
-- 
2.43.0


From 73237d9167ba4ccdcc0074a2f405b5e7a644bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 50/79] fix: sobol_engine writes past its lattice when a
 polynomial's degree exceeds w

The initial direction numbers beyond the w-th do not exist in the lattice,
e.g. sobol_engine<uint32_t, 8> in 60 dimensions.
---
 include/boost/random/sobol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/sobol.hpp b/include/boost/random/sobol.hpp
index 042b3ba..128c5be 100644
--- a/include/boost/random/sobol.hpp
+++ b/include/boost/random/sobol.hpp
@@ -65,7 +65,7 @@ public:
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
 
       // set initial values of m from table
-      for (unsigned k = 0; k != degree; ++k)
+      for (unsigned k = 0; k != degree && k != bit_count; ++k)
         cj[dimension*k + dim] = SobolTables::minit(dim-1, k);
 
       // Calculate remaining elements for this dimension,
-- 
2.43.0


From 4e0dd1f91b24cf113b38c6f1856fd783744df766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 51/79] fix: niederreiter_base2_engine truncates the last power
 of a polynomial

When the degree of a polynomial does not divide w, the last rows of its
generator matrix come from a power whose degree equals the size of the
bitset, which dropped the leading coefficient: the low-order bits of the
coordinate differed from the published construction.
---
 include/boost/random/niederreiter_base2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/niederreiter_base2.hpp b/include/boost/random/niederreiter_base2.hpp
index 5f05850..d519839 100644
--- a/include/boost/random/niederreiter_base2.hpp
+++ b/include/boost/random/niederreiter_base2.hpp
@@ -124,7 +124,7 @@ public:
       }
 
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
-      const unsigned space_required = degree * ((bit_count / degree) + 1); // ~ degree + bit_count
+      const unsigned space_required = degree * ((bit_count / degree) + 1) + 1; // ~ degree + bit_count
 
       v.resize(degree + bit_count - 1);
 
-- 
2.43.0


From 966ea624b9e49805fe1b0fb57922061e2fc4083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 52/79] fix: faure_engine overflows a signed SeqSizeT when it
 computes a power

The last squaring was not needed and overflowed, e.g. 279841 * 279841
for a 32-bit signed type.
---
 include/boost/random/faure.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/faure.hpp b/include/boost/random/faure.hpp
index 4301c30..b44749a 100644
--- a/include/boost/random/faure.hpp
+++ b/include/boost/random/faure.hpp
@@ -94,7 +94,8 @@ inline T integer_pow(T base, T e)
     if (e & static_cast<T>(1))
       result *= base;
     e >>= 1;
-    base *= base;
+    if (e)
+      base *= base;
   }
   return result;
 }
-- 
2.43.0


From 609f1da9fd5a4f4ba186315fdcb2fbb13c641bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 53/79] fix: reading a quasi-random engine of another dimension
 keeps stale values

After a change of dimension the vector was not computed again when the
sequence number read equals the current one, so that the next values were
zero or belonged to the old dimension; and when the state read is not valid
the engine was left with parts of both.
---
 include/boost/random/detail/qrng_base.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..0206e2c 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -155,14 +155,14 @@ public:
       // Check seed sign before resizing the lattice and/or recomputing state
       check_seed_sign(seed);
 
+      // Leave s alone until the state is known to be valid
+      DerivedT tmp(s.derived());
       if (s.dimension() != prevent_zero_dimension(dim))
-      {
-        s.lattice.resize(dim);
-        s.quasi_state.resize(dim);
-      }
+        tmp = DerivedT(dim);
       // Fast-forward to the correct state
-      s.derived().seed(seed);
-      if (z != 0) s.discard(z);
+      tmp.seed(seed);
+      if (z != 0) tmp.discard(z);
+      s.derived() = tmp;
     }
     return is;
   }
-- 
2.43.0


From b3519f2796abb9b4528026daeb59263b216254b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 54/79] fix: discard of 2^64-1 coordinates from a
 one-dimensional quasi-random engine

The number of vectors wrapped around to zero when the current vector had
been read, and the engine did not move at all instead of throwing.
---
 include/boost/random/detail/qrng_base.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 0206e2c..539a524 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -108,18 +108,19 @@ public:
     // statements. In fact, gcc does this even at -O1, so don't
     // be tempted to "optimize" % via subtraction and multiplication.
 
-    boost::uintmax_t vec_n = z / dimension_value;
+    const boost::uintmax_t vec_n = z / dimension_value;
     std::size_t carry = curr_elem + (z % dimension_value);
 
-    vec_n += carry / dimension_value;
-    carry  = carry % dimension_value;
+    const std::size_t carry_n = carry / dimension_value;
+    carry = carry % dimension_value;
 
     // Avoid overdiscarding by branchlessly correcting the triple
     // (D, S + 1, 0) to (D, S, D) (see equality operator)
-    const bool corr = (!carry) & static_cast<bool>(vec_n);
+    const bool corr = (!carry) & static_cast<bool>(vec_n | carry_n);
 
-    // Discards vec_n (with correction) consecutive s-dimensional vectors
-    discard_vector(vec_n - static_cast<boost::uintmax_t>(corr));
+    // Discards vec_n + carry_n (with correction) consecutive s-dimensional
+    // vectors. The sum can only wrap around when the correction undoes it.
+    discard_vector(vec_n + carry_n - static_cast<boost::uintmax_t>(corr));
 
 #ifdef BOOST_MSVC
 #pragma warning(push)
-- 
2.43.0


From 32589aa84298e4d5ceda8fa610c3dc187457c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 55/79] fix: a failed read must not leave lfsr engines in the
 all-zero state

---
 include/boost/random/linear_feedback_shift.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index e365468..13314aa 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -150,7 +150,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, linear_feedback_shift_engine, x)
     {
-        is >> x.value;
+        UIntType value;
+        if(is >> value) {
+            x.value = value;
+        }
         return is;
     }
 
-- 
2.43.0


From 98168b3086e1f67971692e1bad8b2fb989753bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 56/79] fix: a failed read must not store unset values in
 lagged_fibonacci_01

---
 include/boost/random/lagged_fibonacci.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 446a2ef..46d8961 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -369,7 +369,7 @@ public:
         is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j) {
             typename lagged_fibonacci_01_engine::result_type value;
-            is >> std::ws >> value;
+            if(!(is >> std::ws >> value)) break;
             f.x[j] = value / f.modulus();
         }
         return is;
-- 
2.43.0


From fc5b6453aa49418db37ec3a248c21c17518b9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 57/79] fix: a failed read must not store unset values in
 subtract_with_carry_01

---
 include/boost/random/subtract_with_carry.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index a043702..b8bc520 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -467,13 +467,17 @@ public:
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, subtract_with_carry_01_engine, f)
     {
         RealType value;
+        RealType x[long_lag];
         for(unsigned int j = 0; j < long_lag; ++j) {
-            is >> value >> std::ws;
-            f.x[j] = value / f._modulus;
+            if(!(is >> value)) return is;
+            is >> std::ws;
+            x[j] = value / f._modulus;
+        }
+        if(is >> value) {
+            std::copy(x, x + long_lag, f.x);
+            f.carry = value / f._modulus;
+            f.k = 0;
         }
-        is >> value;
-        f.carry = value / f._modulus;
-        f.k = 0;
         return is;
     }
 
-- 
2.43.0


From 6c99fd1d370cd15658d2b54074695b5fad0b4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 58/79] fix: mixmax must report text it cannot read by failbit

---
 include/boost/random/mixmax.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index aebdfa1..249c9ca 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -137,15 +137,15 @@ public: // SEEDING FUNCTIONS
         // will set std::ios::failbit if the input format is not right
         boost::array<boost::uint64_t, Ndim> vec;
         boost::uint64_t sum=0, savedsum=0, counter=0;
-        in >> counter >> std::ws;
-        BOOST_ASSERT(counter==Ndim);
+        boost::uint64_t dim=0;
+        in >> dim >> std::ws;
         in >> counter >> std::ws;
         in >> savedsum >> std::ws;
-        for(int j=0;j<Ndim;j++) {
-        in >> std::ws >> vec[j] ;
-        sum=me.MOD_MERSENNE(sum+vec[j]);
+        for(int j=0;j<Ndim && in;j++) {
+        if (in >> std::ws >> vec[j])
+            sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<=Ndim){
+    if (in && dim == Ndim && sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From 98464ac6380d166505f1f2707cda0e0329fe1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 59/79] fix: a failed read must not leave shuffle_order with an
 index out of range

---
 include/boost/random/shuffle_order.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/shuffle_order.hpp b/include/boost/random/shuffle_order.hpp
index 0dc6b26..16bd792 100644
--- a/include/boost/random/shuffle_order.hpp
+++ b/include/boost/random/shuffle_order.hpp
@@ -193,9 +193,13 @@ public:
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, shuffle_order_engine, s)
     {
         is >> s._rng;
+        result_type v[k], y;
         for(std::size_t i = 0; i < k; ++i)
-            is >> std::ws >> s.v[i];
-        is >> std::ws >> s.y;
+            is >> std::ws >> v[i];
+        if(is >> std::ws >> y) {
+            std::copy(v, v+k, s.v);
+            s.y = y;
+        }
         return is;
     }
 
-- 
2.43.0


From b44b3100ba22d9a445e0b9391af3d72311539e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 60/79] fix: a failed read must leave bernoulli_distribution
 unchanged

---
 include/boost/random/bernoulli_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index ae84aa0..60f7579 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -172,7 +172,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, bernoulli_distribution, bd)
     {
-        is >> bd._p;
+        param_type parm;
+        if(is >> parm) {
+            bd.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From b7e3e677a34c19ef157fce6b01ffdf5ce3f2b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 61/79] fix: a failed read must leave cauchy_distribution
 unchanged

---
 include/boost/random/cauchy_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/cauchy_distribution.hpp b/include/boost/random/cauchy_distribution.hpp
index 998e523..d9dfe32 100644
--- a/include/boost/random/cauchy_distribution.hpp
+++ b/include/boost/random/cauchy_distribution.hpp
@@ -183,7 +183,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, cauchy_distribution, cd)
     {
-        is >> cd._median >> std::ws >> cd._sigma;
+        param_type parm;
+        if(is >> parm) {
+            cd.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From 7f2312d3aba4bfd6422f26f57e50df4e248765b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 62/79] fix: a failed read must leave exponential_distribution
 unchanged

---
 include/boost/random/exponential_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/exponential_distribution.hpp b/include/boost/random/exponential_distribution.hpp
index b4b95c5..9af97b6 100644
--- a/include/boost/random/exponential_distribution.hpp
+++ b/include/boost/random/exponential_distribution.hpp
@@ -356,7 +356,10 @@ public:
     /** Reads the distribution from a std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, exponential_distribution, ed)
     {
-        is >> ed._lambda;
+        param_type parm;
+        if(is >> parm) {
+            ed.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From 88bcff26b0ce1651443365a88b9089a2688319ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 63/79] fix: a failed read must leave uniform_smallint
 unchanged

---
 include/boost/random/uniform_smallint.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_smallint.hpp b/include/boost/random/uniform_smallint.hpp
index d8f0cd3..405eb04 100644
--- a/include/boost/random/uniform_smallint.hpp
+++ b/include/boost/random/uniform_smallint.hpp
@@ -215,7 +215,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_smallint, ud)
     {
-        is >> ud._min >> std::ws >> ud._max;
+        param_type parm;
+        if(is >> parm) {
+            ud.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From 7e7ae37fe7293dfcaa18f0a1c7b5ea16a1091a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 64/79] fix: a failed read must leave normal_distribution
 unchanged

---
 include/boost/random/normal_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/normal_distribution.hpp b/include/boost/random/normal_distribution.hpp
index b7ff3eb..a7b8b0e 100644
--- a/include/boost/random/normal_distribution.hpp
+++ b/include/boost/random/normal_distribution.hpp
@@ -341,7 +341,10 @@ public:
     /** Reads a @c normal_distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, normal_distribution, nd)
     {
-        is >> std::ws >> nd._mean >> std::ws >> nd._sigma;
+        param_type parm;
+        if(is >> parm) {
+            nd.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From 6048b5e5f96961a473b848d2b44ef746b523dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 65/79] fix: a failed read must leave uniform_on_sphere
 unchanged

---
 include/boost/random/uniform_on_sphere.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/uniform_on_sphere.hpp b/include/boost/random/uniform_on_sphere.hpp
index ce2e352..8e383aa 100644
--- a/include/boost/random/uniform_on_sphere.hpp
+++ b/include/boost/random/uniform_on_sphere.hpp
@@ -256,8 +256,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_on_sphere, sd)
     {
-        is >> sd._dim;
-        sd._container.resize(sd._dim);
+        param_type parm;
+        if(is >> parm) {
+            sd.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From 6dd8357dd7d5a17ad5e137b962c4a2368dc1056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 66/79] fix: copying a discard_block that is not const reseeds
 it

The class template accepts any lvalue as a seed, and that template is a better
match for a non-const object of the class itself than its copy constructor, so
discard_block<...> a(b); advanced b and gave an unrelated engine.
---
 include/boost/random/discard_block.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/discard_block.hpp b/include/boost/random/discard_block.hpp
index b9b09ab..bb27d44 100644
--- a/include/boost/random/discard_block.hpp
+++ b/include/boost/random/discard_block.hpp
@@ -203,6 +203,10 @@ class discard_block : public discard_block_engine<URNG, p, r>
 public:
     typedef typename base_t::result_type result_type;
     discard_block() {}
+    discard_block(discard_block& other)
+      : base_t(static_cast<const base_t&>(other)) {}
+    discard_block(const discard_block& other)
+      : base_t(static_cast<const base_t&>(other)) {}
     template<class T>
     discard_block(T& arg) : base_t(arg) {}
     template<class T>
-- 
2.43.0


From 5c1e27003b34fb4bf1e195d729b5c442324f3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 67/79] fix: copying a shuffle_output that is not const reseeds
 it

The class template accepts any lvalue as a seed, and that template is a better
match for a non-const object of the class itself than its copy constructor, so
shuffle_output<...> a(b); advanced b and gave an unrelated engine.
---
 include/boost/random/shuffle_output.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/shuffle_output.hpp b/include/boost/random/shuffle_output.hpp
index 478e102..b702cb9 100644
--- a/include/boost/random/shuffle_output.hpp
+++ b/include/boost/random/shuffle_output.hpp
@@ -31,6 +31,10 @@ class shuffle_output : public shuffle_order_engine<URNG, k>
 public:
     typedef typename base_t::result_type result_type;
     shuffle_output() {}
+    shuffle_output(shuffle_output& other)
+      : base_t(static_cast<const base_t&>(other)) {}
+    shuffle_output(const shuffle_output& other)
+      : base_t(static_cast<const base_t&>(other)) {}
     template<class T>
     explicit shuffle_output(T& arg) : base_t(arg) {}
     template<class T>
-- 
2.43.0


From 26c3b10f1b11139ad7af13577d54011a2e0f2cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 68/79] fix: copying an additive_combine that is not const
 reseeds it

The class template accepts any lvalue as a seed, and that template is a better
match for a non-const object of the class itself than its copy constructor, so
additive_combine<...> a(b); advanced b and gave an unrelated engine.
---
 include/boost/random/additive_combine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/additive_combine.hpp b/include/boost/random/additive_combine.hpp
index ba045ad..db6dad1 100644
--- a/include/boost/random/additive_combine.hpp
+++ b/include/boost/random/additive_combine.hpp
@@ -251,6 +251,10 @@ class additive_combine : public additive_combine_engine<MLCG1, MLCG2>
 public:
     typedef typename base_t::result_type result_type;
     additive_combine() {}
+    additive_combine(additive_combine& other)
+      : base_t(static_cast<const base_t&>(other)) {}
+    additive_combine(const additive_combine& other)
+      : base_t(static_cast<const base_t&>(other)) {}
     template<class T>
     additive_combine(T& arg) : base_t(arg) {}
     template<class T>
-- 
2.43.0


From 38ada4514ef82bc29faf2318a4dd47e9122c319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 69/79] fix: discard_block_engine takes a base engine that is
 not const for a seed sequence

The constructor from a base engine takes it by reference to const, so the
template for seed sequences is a better match for an engine that is not const:
it was used as a seed sequence, and advanced, instead of being copied.
---
 include/boost/random/discard_block.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/discard_block.hpp b/include/boost/random/discard_block.hpp
index bb27d44..efd2188 100644
--- a/include/boost/random/discard_block.hpp
+++ b/include/boost/random/discard_block.hpp
@@ -61,6 +61,8 @@ public:
     discard_block_engine() : _rng(), _n(0) { }
     /** Constructs a new \discard_block_engine with a copy of rng. */
     explicit discard_block_engine(const base_type & rng) : _rng(rng), _n(0) { }
+    /** Constructs a new \discard_block_engine with a copy of rng. */
+    explicit discard_block_engine(base_type & rng) : _rng(rng), _n(0) { }
 
 #ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
     /** Constructs a new \discard_block_engine with rng. */
-- 
2.43.0


From e0e88d0999781890b3ee428661d2da2d935937ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 70/79] fix: shuffle_order_engine takes a base engine that is
 not const for a seed sequence

The constructor from a base engine takes it by reference to const, so the
template for seed sequences is a better match for an engine that is not const:
it was used as a seed sequence, and advanced, instead of being copied.
---
 include/boost/random/shuffle_order.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/shuffle_order.hpp b/include/boost/random/shuffle_order.hpp
index 16bd792..68c83c0 100644
--- a/include/boost/random/shuffle_order.hpp
+++ b/include/boost/random/shuffle_order.hpp
@@ -97,6 +97,8 @@ public:
      * Complexity: Exactly k+1 invocations of the base generator.
      */
     explicit shuffle_order_engine(const base_type & rng) : _rng(rng) { init(); }
+    /** @copydoc shuffle_order_engine(const base_type &) */
+    explicit shuffle_order_engine(base_type & rng) : _rng(rng) { init(); }
 
 #ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
     explicit shuffle_order_engine(base_type&& rng) : _rng(rng) { init(); }
-- 
2.43.0


From eaff98701ce7d8e6d7f7fce072c6022b4c52518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 71/79] fix: independent_bits_engine takes a base engine that
 is not const for a seed sequence

The constructor from a base engine takes it by reference to const, so the
template for seed sequences is a better match for an engine that is not const:
it was used as a seed sequence, and advanced, instead of being copied.
---
 include/boost/random/independent_bits.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index b4fe104..548670a 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -84,6 +84,8 @@ public:
 
     /** Constructs an @c independent_bits_engine by copying @c base. */
     independent_bits_engine(const base_type& base_arg) : _base(base_arg) {}
+    /** Constructs an @c independent_bits_engine by copying @c base. */
+    independent_bits_engine(base_type& base_arg) : _base(base_arg) {}
 
     /**
      * Contructs an @c independent_bits_engine with
-- 
2.43.0


From f1d50f278c13adabc99d800ac1a58d7687dc148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 72/79] fix: xor_combine_engine takes two base engines of one
 type for a pair of iterators

The template for iterators is a better match for a first engine that is not
const than the constructor which copies the base engines.
---
 include/boost/random/xor_combine.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 6188952..cb0c596 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -57,6 +57,10 @@ public:
     xor_combine_engine(const base1_type & rng1, const base2_type & rng2)
       : _rng1(rng1), _rng2(rng2) { }
 
+    /** Constructs a @c xor_combine by copying two base generators. */
+    xor_combine_engine(base1_type & rng1, const base2_type & rng2)
+      : _rng1(rng1), _rng2(rng2) { }
+
     /**
      * Constructs a @c xor_combine_engine, seeding both base generators
      * with @c v.
@@ -209,6 +213,8 @@ public:
     xor_combine(It& first, It last) : base_type(first, last) {}
     xor_combine(const URNG1 & rng1, const URNG2 & rng2)
       : base_type(rng1, rng2) { }
+    xor_combine(URNG1 & rng1, const URNG2 & rng2)
+      : base_type(rng1, rng2) { }
 };
 
 /// \endcond
-- 
2.43.0


From e4557f4f3b3c2bd24a77447543c201316a9936cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 73/79] fix: integers from an engine of reals outside [0, 1)

The values of the engine were taken for values in [0, 1), whatever its range:
a negative one was converted to an unsigned integer, which is undefined, and
the results were not uniform.
---
 include/boost/random/detail/uniform_int_float.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/uniform_int_float.hpp b/include/boost/random/detail/uniform_int_float.hpp
index 393c455..76f2862 100644
--- a/include/boost/random/detail/uniform_int_float.hpp
+++ b/include/boost/random/detail/uniform_int_float.hpp
@@ -60,7 +60,14 @@ public:
     result_type operator()()
     {
         base_result range = static_cast<base_result>((max)())+1;
-        return static_cast<result_type>(_rng() * range);
+        const base_result lo = (_rng.min)();
+        const base_result hi = (_rng.max)();
+        for(;;) {
+            // rounding may take a value near the top to 1
+            base_result x = (_rng() - lo) / (hi - lo);
+            if(x < base_result(1))
+                return static_cast<result_type>(x * range);
+        }
     }
 
 private:
-- 
2.43.0


From efc90fc50ccfb4b8d1a2d825408b2bc84b53741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 74/79] fix: constructing a linear_feedback_shift from a seed
 does not compile

seed is a member of a dependent base class, which unqualified lookup does not
search.
---
 include/boost/random/linear_feedback_shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index 13314aa..2e1a5d4 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -205,10 +205,10 @@ public:
     linear_feedback_shift() {}
     BOOST_RANDOM_DETAIL_SEED_SEQ_CONSTRUCTOR(linear_feedback_shift,
         SeedSeq, seq)
-    { seed(seq); }
+    { this->seed(seq); }
     BOOST_RANDOM_DETAIL_ARITHMETIC_CONSTRUCTOR(linear_feedback_shift,
         UIntType, val)
-    { seed(val); }
+    { this->seed(val); }
     template<class It>
     linear_feedback_shift(It& first, It last) : base_type(first, last) {}
 };
-- 
2.43.0


From 94c17b9c1d14e9f912c0cc154840c14bba6372ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 75/79] fix: reading a cut list of weights from a stream with
 exceptions terminates

---
 include/boost/random/detail/vector_io.hpp | 30 ++++++++++++-----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/boost/random/detail/vector_io.hpp b/include/boost/random/detail/vector_io.hpp
index fe3869a..a87af0e 100644
--- a/include/boost/random/detail/vector_io.hpp
+++ b/include/boost/random/detail/vector_io.hpp
@@ -53,21 +53,23 @@ void read_vector(std::basic_istream<CharT, Traits>& is, std::vector<T>& vec)
         is.setstate(std::ios_base::failbit);
         return;
     }
-    boost::io::basic_ios_exception_saver<CharT, Traits> e(is, std::ios_base::goodbit);
-    T val;
-    while(is >> std::ws >> val) {
-        vec.push_back(val);
-    }
-    if(is.fail()) {
-        is.clear();
-        e.restore();
-        if(!(is >> ch)) {
-            return;
-        }
-        if(ch != is.widen(']')) {
-            is.putback(ch);
-            is.setstate(std::ios_base::failbit);
+    {
+        // The end of the list makes the extraction fail, which is no
+        // reason to throw.  The mask must be back, and the saver gone,
+        // before anything that can throw: its destructor must not.
+        boost::io::basic_ios_exception_saver<CharT, Traits> e(is, std::ios_base::goodbit);
+        T val;
+        while(is >> std::ws >> val) {
+            vec.push_back(val);
         }
+        is.clear();
+    }
+    if(!(is >> ch)) {
+        return;
+    }
+    if(ch != is.widen(']')) {
+        is.putback(ch);
+        is.setstate(std::ios_base::failbit);
     }
 }
 
-- 
2.43.0


From 922a7803d8ef8b4c8846f60086be32c6a9503ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 76/79] fix: faure reads out of bounds after it ran out of
 memory

---
 include/boost/random/faure.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/faure.hpp b/include/boost/random/faure.hpp
index b44749a..c680bad 100644
--- a/include/boost/random/faure.hpp
+++ b/include/boost/random/faure.hpp
@@ -138,6 +138,8 @@ struct binomial_coefficients
       const size_type ilog = fr::integer_log(static_cast<size_type>(qs_base), seq);
       const size_type hisum = ilog + 1;
       if (coeff.size() != size_hint(hisum)) {
+        // If there is no memory for one of them, neither may change.
+        coeff.reserve(static_cast<std::size_t>(size_hint(hisum)));
         ytemp.resize(static_cast<std::size_t>(hisum)); // cast safe because log is small
         compute_coefficients(hisum);
         qs_pow = fr::integer_pow(static_cast<size_type>(qs_base), ilog);
-- 
2.43.0


From 8a2093c8b73767e03a251874a1e684fb30848356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 77/79] fix: reading a quasi-random engine changes half of it
 when memory runs out

---
 include/boost/random/detail/qrng_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 539a524..71fbc20 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -163,7 +163,12 @@ public:
       // Fast-forward to the correct state
       tmp.seed(seed);
       if (z != 0) tmp.discard(z);
+#ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
+      // This can't run out of memory halfway
+      s.derived() = static_cast<DerivedT&&>(tmp);
+#else
       s.derived() = tmp;
+#endif
     }
     return is;
   }
-- 
2.43.0


From 5748db4e7be175fabacad6bc9c1ece2b594a2f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:02 +0000
Subject: [PATCH 78/79] fix: uniform_int_distribution overflows integers that
 do not wrap

---
 include/boost/random/uniform_int_distribution.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 6acff25..5013c19 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -173,16 +173,12 @@ T generate_uniform_int(
           continue;
         }
         result_increment *= mult;
-        // unsigned integers are guaranteed to wrap on overflow.
-        result += result_increment;
-        if(result < result_increment) {
-          // The addition overflowed.  Reject.
-          continue;
-        }
-        if(result > range) {
+        // not all integer types wrap on overflow, so compare before adding.
+        if(result_increment > range || result > range - result_increment) {
           // Too big.  Reject.
           continue;
         }
+        result += result_increment;
         return random::detail::add<range_type, result_type>()(result, min_value);
       }
     } else {                   // brange > range
-- 
2.43.0


From 50b05cd1a669a392734725c1b480bb00e887726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:08 +0000
Subject: [PATCH 79/79] fix: mersenne_twister_engine does not compile with an
 assertion handler

---
 include/boost/random/mersenne_twister.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 883e9ab..aa4e37b 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -21,6 +21,7 @@
 #include <iosfwd>
 #include <istream>
 #include <stdexcept>
+#include <boost/assert.hpp>
 #include <boost/config.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/integer/integer_mask.hpp>
@@ -440,9 +441,9 @@ private:
         for(std::size_t j = 0; j < num_bits; ++j) {
             if(tmp.i >= n) tmp.twist();
             if(j == num_bits - 1)
-                assert((tmp.x[tmp.i] & 1) == 1);
+                BOOST_ASSERT((tmp.x[tmp.i] & 1) == 1);
             else
-                assert((tmp.x[tmp.i] & 1) == 0);
+                BOOST_ASSERT((tmp.x[tmp.i] & 1) == 0);
             ++tmp.i;
         }
         detail::polynomial phi;
-- 
2.43.0

