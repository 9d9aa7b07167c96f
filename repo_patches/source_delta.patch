From e9c68b2d9450fc7d92f34028160d1e76b5ec4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/36] fix: Int::operator+= with the object itself as operand

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 83999b6..2689593 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -338,6 +338,12 @@ public:
     /// Return this += `rhs`.
     Int& operator+=(const Int& rhs)
     {
+        // if rhs is this object itself, calculate with a copy of it, since the calculation modifies this
+        if (this == &rhs)
+        {
+            return *this += Int(rhs);
+        }
+
         // if one of the operands is zero, just return another one
         if (sign_ == 0 || rhs.sign_ == 0)
         {
-- 
2.43.0


From c6e5c962615c239e71d1cd8532c1bd25468d1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 02/36] fix: Int::operator-= accessed a chunk beyond the most
 significant one

---
 sources/int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 2689593..a3a05a3 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -411,7 +411,10 @@ public:
         {
             auto tmp = a[i] - b[i];
             a[i] = cycle_mod(tmp, BASE);
-            a[i + 1] += floor_div(tmp, BASE);
+            if (i + 1 < a.size()) // a >= b, so the most significant chunk never borrows
+            {
+                a[i + 1] += floor_div(tmp, BASE);
+            }
         }
         for (int i = b.size(); i < a.size() && a[i] < 0; ++i) // carry
         {
-- 
2.43.0


From d157d3a1fb89305dc8b6be4a6403b4c41d52334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/36] fix: Int::operator%= lost the sign of a negative
 dividend

---
 sources/int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index a3a05a3..c439cc8 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -521,6 +521,7 @@ public:
         // prepare variables
         int size = chunks_.size() - rhs.chunks_.size() + 1;
 
+        const signed char sign = sign_; // the sign of result is the sign of dividend
         sign_ = 1;
 
         Int tmp;       // intermediate variable for rhs * 10^i
@@ -544,6 +545,7 @@ public:
             }
         }
 
+        sign_ = sign;
         return trim();
     }
 
-- 
2.43.0


From 9066f35b894cdc670a4f52986a7e854d26a7dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 04/36] fix: Int(INT_MIN) was undefined behavior

---
 sources/int.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index c439cc8..e1d2829 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -161,10 +161,9 @@ public:
     Int(int integer = 0)
     {
         sign_ = integer == 0 ? 0 : (integer > 0 ? 1 : -1);
-        integer = std::abs(integer);
-        while (integer > 0)
+        while (integer != 0)
         {
-            chunks_.push_back(integer % BASE);
+            chunks_.push_back(std::abs(integer % BASE)); // not the absolute value of integer, which is not representable for INT_MIN
             integer /= BASE;
         }
     }
-- 
2.43.0


From b115d8a70ac6d4388645a4705d5cfadb69b8bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 05/36] fix: Int::to_integer overflowed for the minimum value
 of the type

---
 sources/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index e1d2829..10b1e8d 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -692,9 +692,9 @@ public:
         T result = 0;
         for (int i = chunks_.size() - 1; i >= 0; --i) // i = -1 if is zero, ok
         {
-            result = result * BASE + chunks_[i];
+            result = result * BASE + chunks_[i] * sign_; // with sign, the minimum of T has no opposite
         }
-        return result * sign_;
+        return result;
     }
 
     /*
-- 
2.43.0


From 1f1b41a3f8fdf8b0e8ac9f047cdc2f24fadc5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 06/36] fix: Int::sqrt did not terminate for n = k^2 - 1

---
 sources/int.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 10b1e8d..aee7679 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -722,17 +722,18 @@ public:
 
         // as far as possible to reduce the number of iterations
         // cur_sqrt is about 10^(digits/2) in O(1)
-        Int cur_sqrt{1, std::vector<int>(integer.chunks_.size() / 2, 0)};
+        // start from above (10^n > sqrt), since the iteration may oscillate around the root once it is below
+        Int cur_sqrt{1, std::vector<int>((integer.chunks_.size() + 1) / 2, 0)};
         cur_sqrt.chunks_.push_back(1);
 
-        Int pre_sqrt;
-        while (cur_sqrt != pre_sqrt)
+        Int pre_sqrt = cur_sqrt + 1;
+        while (cur_sqrt < pre_sqrt) // strictly decreasing until the floor of the root is reached
         {
             pre_sqrt = cur_sqrt;
             cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
         }
 
-        return cur_sqrt;
+        return pre_sqrt;
     }
 
     /// Return `(base**exp) % mod` (`mod` default = 0 means does not perform module).
-- 
2.43.0


From ea334cbb84430d269e9f5fd60327448c0e1e7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/36] fix: Int::pow ignored the modulus for exponent 0 and
 for base 1 or -1

---
 sources/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index aee7679..a01c9a1 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -743,7 +743,8 @@ public:
         // if base.abs() is 1, only when base is negative and exp is odd return -1, otherwise return 1
         if (base.digits() == 1 && base.chunks_[0] == 1)
         {
-            return base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            Int result = base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            return mod.is_zero() ? result : result % mod;
         }
 
         // then, check if exp is negative
@@ -761,7 +762,7 @@ public:
 
         Int num = base;
         Int n = exp;
-        Int result = 1; // this**0 == 1
+        Int result = mod.is_zero() ? Int(1) : Int(1) % mod; // this**0 == 1
 
         while (!n.is_zero())
         {
-- 
2.43.0


From bdedde5ef9c7190ba93d233c6667aa4d81f61039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 08/36] fix: Str::find read outside the string for negative or
 inverted bounds

---
 sources/str.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 5b85716..ae8ba73 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -224,12 +224,15 @@ public:
     /// Or -1 if the string does not contain the pattern (in the specified range).
     int find(const Str& pattern, int start = 0, int stop = INT_MAX) const
     {
-        if (start > size())
+        // convert negative bounds and clamp
+        start = start < 0 ? std::max(start + size(), 0) : start;
+        stop = stop < 0 ? std::max(stop + size(), 0) : std::min(stop, size());
+
+        if (start > stop)
         {
             return -1;
         }
 
-        stop = stop > size() ? size() : stop;
         std::string_view view(str_.data() + start, stop - start);
         auto pos = view.find(pattern.str_);
 
-- 
2.43.0


From e7abbd5b80ba47e5d3d11815a732b51dcce12fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 09/36] fix: slice of Str and List overflowed for a huge step

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index b279934..547fd2e 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -353,7 +353,7 @@ public:
 
         // copy
         std::vector<T> buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer.push_back(vector_[i]);
         }
diff --git a/sources/str.hpp b/sources/str.hpp
index ae8ba73..6c52f73 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -615,7 +615,7 @@ public:
 
         // copy
         std::string buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer += str_[i];
         }
-- 
2.43.0


From 83133c7c4933cba10c7ef595d4bae42cba6d140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 10/36] fix: operator* of Str and List overflowed when the
 result is too long

---
 sources/list.hpp    | 2 +-
 sources/str.hpp     | 2 ++
 sources/utility.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 547fd2e..1349bce 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -387,7 +387,7 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
-        internal::check_full(size() * times, INT_MAX);
+        internal::check_full((long long)size() * times, INT_MAX);
 
         std::vector<T> buffer(size() * times);
         for (int part = 0; part < times; part++)
diff --git a/sources/str.hpp b/sources/str.hpp
index 6c52f73..2782a66 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -643,6 +643,8 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
+        internal::check_full((long long)size() * times, INT_MAX);
+
         std::string buffer(size() * times, 0);
         for (int part = 0; part < times; part++)
         {
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 7dce01e..c45c72a 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -46,7 +46,7 @@ static inline void check_empty(int size)
 }
 
 // Check whether there is any remaining capacity.
-static inline void check_full(int size, int capacity)
+static inline void check_full(long long size, long long capacity)
 {
     if (size >= capacity)
     {
-- 
2.43.0


From 9339e20a7e7a280c8037d41eaa6d6c4bf358cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 11/36] fix: erase of Str and List with stop before start was
 undefined behavior

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 1349bce..bf6ce2e 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -292,7 +292,7 @@ public:
     List& erase(int start, int stop)
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
diff --git a/sources/str.hpp b/sources/str.hpp
index 2782a66..f581a9d 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -540,7 +540,7 @@ public:
     Str erase(int start, int stop) const
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
-- 
2.43.0


From a3c0237c89a54846bd0d52f55a8cf95f627ba009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 12/36] fix: rotation of Str, List and Deque to the right by
 INT_MIN overflowed

---
 sources/deque.hpp | 2 +-
 sources/list.hpp  | 2 +-
 sources/str.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 0fbd3ce..4b30e4d 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -211,7 +211,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size()); // not -n, since INT_MIN has no opposite
         }
 
         return *this <<= size() - n;
diff --git a/sources/list.hpp b/sources/list.hpp
index bf6ce2e..670ac76 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -227,7 +227,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size()); // not -n, since INT_MIN has no opposite
         }
 
         return *this <<= size() - n;
diff --git a/sources/str.hpp b/sources/str.hpp
index f581a9d..f1dd987 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -480,7 +480,7 @@ public:
 
         if (n < 0)
         {
-            return *this << -n;
+            return *this << -(n % size()); // not -n, since INT_MIN has no opposite
         }
 
         return *this << size() - n;
-- 
2.43.0


From b26f63a4028e75c0a10df440348b74376fffa0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 13/36] fix: Str::lower and Str::upper changed characters that
 are not letters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index f1dd987..4599a11 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -521,7 +521,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c |= 0b0010'0000; });
+                      { c |= (c >= 'A' && c <= 'Z') ? 0b0010'0000 : 0; });
 
         return buffer;
     }
@@ -531,7 +531,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c &= 0b1101'1111; });
+                      { c &= (c >= 'a' && c <= 'z') ? 0b1101'1111 : 0b1111'1111; });
 
         return buffer;
     }
-- 
2.43.0


From 263c291e051d8459868b74272f9a71135e395c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 14/36] fix: Str::strip removed characters above 0x7F

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 4599a11..76fd624 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -581,14 +581,14 @@ public:
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == -1 ? static_cast<unsigned char>(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == -1 ? static_cast<unsigned char>(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             --i;
         }
-- 
2.43.0


From 9f70d77716fa06409b22212e511a583ecdb8f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 15/36] fix: Str::replace of the empty string truncated the
 replacement at NUL

---
 sources/str.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 76fd624..507d8ea 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -559,9 +559,10 @@ public:
     {
         if (old_str.is_empty())
         {
-            std::ostringstream ss;
-            std::copy(str_.begin(), str_.end(), std::ostream_iterator<char>(ss, new_str.data()));
-            return new_str.str_ + ss.str();
+            std::string buffer = new_str.str_;
+            std::for_each(str_.begin(), str_.end(), [&](const char& c)
+                          { buffer += c + new_str.str_; });
+            return buffer;
         }
 
         std::string buffer;
-- 
2.43.0


From 9237d978193ff4b8a0ea2bf5ec986758febdbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 16/36] fix: Str::to_decimal gave NaN or wrong values for large
 exponents and long literals

---
 sources/str.hpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 507d8ea..f6e02e0 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -307,13 +307,7 @@ public:
 
         // not infinity or nan
 
-        double sign = 1; // default '+'
-        double decimal_part = 0;
-        int decimal_cnt = 0;
-        double exp_sign = 1; // default '+'
-        int exp_part = 0;
-
-        // FSM
+        // FSM, check the literal
         state st = S_START;
         for (int i = 0; i < size(); ++i)
         {
@@ -325,7 +319,6 @@ public:
                     break;
 
                 case int(S_START) | int(E_SIGN):
-                    sign = (str_[i] == '+') ? 1 : -1;
                     st = S_SIGN;
                     break;
 
@@ -337,7 +330,6 @@ public:
                 case int(S_START) | int(E_DIGIT):
                 case int(S_SIGN) | int(E_DIGIT):
                 case int(S_INT) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
                     st = S_INT;
                     break;
 
@@ -347,8 +339,6 @@ public:
 
                 case int(S_POINT) | int(E_DIGIT):
                 case int(S_DEC) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
-                    decimal_cnt++;
                     st = S_DEC;
                     break;
 
@@ -358,14 +348,12 @@ public:
                     break;
 
                 case int(S_EXP) | int(E_SIGN):
-                    exp_sign = (str_[i] == '+') ? 1 : -1;
                     st = S_EXP_SIGN;
                     break;
 
                 case int(S_EXP) | int(E_DIGIT):
                 case int(S_EXP_SIGN) | int(E_DIGIT):
                 case int(S_EXP_NUM) | int(E_DIGIT):
-                    exp_part = exp_part * 10 + char_to_integer(str_[i], 10);
                     st = S_EXP_NUM;
                     break;
 
@@ -387,7 +375,12 @@ public:
             throw std::runtime_error("Error: Invalid literal for to_decimal().");
         }
 
-        return sign * ((decimal_part / std::pow(10, decimal_cnt)) * std::pow(10, exp_sign * exp_part));
+        // the literal is valid: convert it as a whole, digits and exponents may exceed the range of any native type
+        double decimal = 0;
+        std::istringstream iss(str_);
+        iss.imbue(std::locale::classic());
+        iss >> decimal;
+        return iss.fail() && std::abs(decimal) > 1 ? std::copysign(INFINITY, decimal) : decimal; // overflow
     }
 
     /// Convert the string to an `Int` based on 2-36 `base`.
-- 
2.43.0


From 04418e85cb8a975201203540b6f2b55466062025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 17/36] fix: List /= one of its own elements removed the wrong
 elements

---
 sources/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 670ac76..c7f9df8 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -212,7 +212,8 @@ public:
     /// Remove all the specified `element`s from the list.
     List& operator/=(const T& element)
     {
-        auto it = std::remove(vector_.begin(), vector_.end(), element);
+        const T value = element; // copy it, since std::remove overwrites `element` if it belongs to this list
+        auto it = std::remove(vector_.begin(), vector_.end(), value);
         vector_.erase(it, vector_.end());
         return *this;
     }
-- 
2.43.0


From 78e89d064c83fa524d593390b8babc53ba59276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 18/36] fix: List += itself left moved-from elements

---
 sources/list.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/list.hpp b/sources/list.hpp
index c7f9df8..cec3410 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -187,6 +187,11 @@ public:
     {
         internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
 
+        if (&list == this) // inserting a range of a vector into itself is undefined behavior
+        {
+            return *this += List(list);
+        }
+
         vector_.insert(end(), list.begin(), list.end());
 
         return *this;
-- 
2.43.0


From 253c042d2db95460e4e11d547368a93f46c9018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 19/36] fix: List::extend with a range of the list itself left
 moved-from elements

---
 sources/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index cec3410..ad34fdf 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -328,7 +328,8 @@ public:
     template <std::input_iterator InputIt>
     void extend(const InputIt& first, const InputIt& last)
     {
-        vector_.insert(vector_.end(), first, last);
+        std::vector<T> buffer(first, last); // the range may belong to this list
+        vector_.insert(vector_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
     /// Remove all of the elements from the list.
-- 
2.43.0


From 3c42f311dbd5cec870201f52dd2559e40ade4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 20/36] fix: List::index and contains read outside the list for
 negative or inverted bounds

---
 sources/list.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index ad34fdf..e33a643 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -126,7 +126,13 @@ public:
     /// Return the index of the first occurrence of the specified `element`, or -1 if the list does not contain the element in the specified range [`start`, `stop`].
     int index(const T& element, int start = 0, int stop = INT_MAX) const
     {
-        stop = stop > size() ? size() : stop;
+        // negative bounds count from the end, and are limited to the list, like Python's list
+        start = start < 0 ? std::max(start + size(), 0) : start;
+        stop = stop < 0 ? std::max(stop + size(), 0) : std::min(stop, size());
+        if (start > stop)
+        {
+            return -1;
+        }
         auto it = std::find(begin() + start, begin() + stop, element);
         return it == begin() + stop ? -1 : it - begin();
     }
-- 
2.43.0


From d5b2610c7bd0cdb703dc48a8a5b93a19e90bfd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 21/36] fix: Deque::extend_back and extend_front with a range
 of the deque itself read freed memory

---
 sources/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 4b30e4d..269f3e9 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -191,14 +191,16 @@ public:
     template <std::input_iterator InputIt>
     void extend_back(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.end(), first, last);
+        std::vector<T> buffer(first, last); // the range may belong to this deque
+        deque_.insert(deque_.end(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
     /// Extend the left side of the deque by prepending elements of the range [`first`, `last`).
     template <std::input_iterator InputIt>
     void extend_front(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.begin(), first, last);
+        std::vector<T> buffer(first, last); // the range may belong to this deque
+        deque_.insert(deque_.begin(), std::make_move_iterator(buffer.begin()), std::make_move_iterator(buffer.end()));
     }
 
     /// Rotate `n` elements to the right.
-- 
2.43.0


From 53be425da1f461466c98e549c0f913e1a47759c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 22/36] fix: Dict::min and max of an empty dict were undefined
 behavior

---
 sources/dict.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 33d971e..f62d192 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -146,12 +146,16 @@ public:
     /// Get the smallest key of the dictionary.
     K min() const
     {
+        internal::check_empty(size());
+
         return map_.cbegin()->first;
     }
 
     /// Get the largest key of the dictionary.
     K max() const
     {
+        internal::check_empty(size());
+
         return map_.crbegin()->first;
     }
 
-- 
2.43.0


From 8b8ce11ad4802475f104c7f8f6ecd264005f7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 23/36] fix: Fraction with the denominator INT_MIN overflowed

---
 sources/fraction.hpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 19a226e..4319507 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -21,6 +21,27 @@ private:
     // Denominator.
     int denominator_;
 
+    // Set the value to `numerator/denominator` in lowest terms, with a positive denominator.
+    // The terms are wider than int, since only those of the simplified fraction have to fit.
+    void assign(long long numerator, long long denominator)
+    {
+        // make sure the denominator is not zero
+        internal::check_zero(denominator);
+
+        // simplify, and make sure the denominator is a positive number
+        long long gcd = std::gcd(numerator, denominator) * (denominator < 0 ? -1 : 1);
+        numerator /= gcd;
+        denominator /= gcd;
+
+        if (numerator < INT_MIN || numerator > INT_MAX || denominator > INT_MAX)
+        {
+            throw std::runtime_error("Error: The fraction is out of range.");
+        }
+
+        numerator_ = numerator;
+        denominator_ = denominator;
+    }
+
 public:
     /*
      * Constructor
@@ -28,23 +49,8 @@ public:
 
     /// Create a fraction with value `numerator/denominator`.
     Fraction(int numerator = 0, int denominator = 1)
-        : numerator_(numerator)
-        , denominator_(denominator)
     {
-        // make sure the denominator is not zero
-        internal::check_zero(denominator_);
-
-        // make sure the denominator is a positive number
-        if (denominator_ < 0)
-        {
-            numerator_ = -numerator_;
-            denominator_ = -denominator_;
-        }
-
-        // simplify
-        int gcd = std::gcd(numerator_, denominator_);
-        numerator_ /= gcd;
-        denominator_ /= gcd;
+        assign(numerator, denominator);
     }
 
     /// Copy constructor.
-- 
2.43.0


From 38210798566e70d72c7c1b8831441f58de76511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 24/36] fix: Fraction arithmetic overflowed although the result
 fits

---
 sources/fraction.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 4319507..d9cc3cb 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -42,6 +42,14 @@ private:
         denominator_ = denominator;
     }
 
+    // Create a fraction with value `numerator/denominator`, which are results of intermediate calculations.
+    static Fraction simplify(long long numerator, long long denominator)
+    {
+        Fraction fraction;
+        fraction.assign(numerator, denominator);
+        return fraction;
+    }
+
 public:
     /*
      * Constructor
@@ -183,7 +191,7 @@ public:
     /// Return the opposite value of this.
     Fraction operator-() const
     {
-        return Fraction(-numerator_, denominator_);
+        return simplify(-(long long)numerator_, denominator_);
     }
 
     /// Return the absolute value of this.
@@ -195,25 +203,25 @@ public:
     /// Return this + `rhs`.
     Fraction operator+(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ + denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify((long long)numerator_ * rhs.denominator_ + (long long)denominator_ * rhs.numerator_, (long long)denominator_ * rhs.denominator_);
     }
 
     /// Return this - `rhs`.
     Fraction operator-(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ - denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify((long long)numerator_ * rhs.denominator_ - (long long)denominator_ * rhs.numerator_, (long long)denominator_ * rhs.denominator_);
     }
 
     /// Return this * `rhs`.
     Fraction operator*(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify((long long)numerator_ * rhs.numerator_, (long long)denominator_ * rhs.denominator_);
     }
 
     /// Return this / `rhs` (not zero).
     Fraction operator/(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
+        return simplify((long long)numerator_ * rhs.denominator_, (long long)denominator_ * rhs.numerator_);
     }
 
     /// Return this % `rhs` (not zero).
@@ -221,7 +229,7 @@ public:
     {
         internal::check_zero(rhs);
 
-        return Fraction((numerator_ * rhs.denominator_) % (rhs.numerator_ * denominator_), denominator_ * rhs.denominator_);
+        return simplify(((long long)numerator_ * rhs.denominator_) % ((long long)rhs.numerator_ * denominator_), (long long)denominator_ * rhs.denominator_);
     }
 
     /// Calculate the greatest common divisor of two fractions.
-- 
2.43.0


From b7727c115e648a5c56b6de5f8f42d1b9bdbf720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 25/36] fix: Fraction ordering overflowed for large terms

---
 sources/fraction.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index d9cc3cb..316608c 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -83,12 +83,12 @@ public:
         // this = a/b; that = c/d;
         // so, this - that = a/b - c/d = (ad - bc)/(bd)
         // since bd is always positive, compute (ad-bc) only
-        int a = this->numerator_;
-        int b = this->denominator_;
-        int c = that.numerator_;
-        int d = that.denominator_;
+        long long a = this->numerator_;
+        long long b = this->denominator_;
+        long long c = that.numerator_;
+        long long d = that.denominator_;
 
-        return a * d - b * c;
+        return a * d < b * c ? -1 : int(a * d > b * c);
     }
 
     /*
-- 
2.43.0


From 03437b95c92a9a3e2c9231541ec77ebe70cbd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 26/36] fix: different Fractions with the same double value
 compared equal

---
 sources/fraction.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 316608c..45c71ef 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -91,6 +91,15 @@ public:
         return a * d < b * c ? -1 : int(a * d > b * c);
     }
 
+    /// Return `true` if the fraction is equal to another fraction.
+    /// It is a template to be used for fractions only, since fractions and numbers are compared as double.
+    template <std::same_as<Fraction> T>
+    bool operator==(const T& that) const
+    {
+        // both are simplified
+        return numerator_ == that.numerator_ && denominator_ == that.denominator_;
+    }
+
     /*
      * Assignment
      */
-- 
2.43.0


From 27e6d33671daf9bca25b76df0c0bba773e85d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 27/36] fix: Fraction::gcd and lcm overflowed although the
 result fits

---
 sources/fraction.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 45c71ef..9689736 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -244,7 +244,8 @@ public:
     /// Calculate the greatest common divisor of two fractions.
     static Fraction gcd(const Fraction& a, const Fraction& b)
     {
-        return internal::gcd(a, b);
+        // both are simplified, so the Euclidean algorithm on fractions ends with GCD of numerators / LCM of denominators
+        return simplify(std::gcd((long long)a.numerator_, (long long)b.numerator_), std::lcm((long long)a.denominator_, (long long)b.denominator_));
     }
 
     /// Calculate the least common multiple of two fractions.
@@ -255,7 +256,8 @@ public:
             return 0;
         }
 
-        return (a * b).abs() / gcd(a, b); // LCM = |a * b| / GCD
+        // |a * b| / GCD = LCM of numerators / GCD of denominators
+        return simplify(std::lcm((long long)a.numerator_, (long long)b.numerator_), std::gcd((long long)a.denominator_, (long long)b.denominator_));
     }
 
     /*
-- 
2.43.0


From 2ed0700b4f65f5e60e1b050116e81c4190fee8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 28/36] fix: Complex with an infinite component was not equal
 to itself

---
 sources/complex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e4f4244..6c85f81 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -53,7 +53,8 @@ public:
     bool operator==(const Complex& that) const
     {
         constexpr double epsilon = std::numeric_limits<double>::epsilon();
-        return std::abs(real_ - that.real_) < epsilon && std::abs(imag_ - that.imag_) < epsilon;
+        return (real_ == that.real_ || std::abs(real_ - that.real_) < epsilon) && // the difference of equal infinities is NaN
+               (imag_ == that.imag_ || std::abs(imag_ - that.imag_) < epsilon);
     }
 
     /*
-- 
2.43.0


From 1eceb906593781bd674637c269207d8043e4e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 29/36] fix: reading a Fraction or Complex never ended at the
 end of the input

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 6c85f81..01f8801 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -225,7 +225,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Complex& complex)
     {
-        while (is.peek() <= 0x20)
+        while (is && is.peek() <= 0x20)
         {
             is.ignore();
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 9689736..843842a 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -288,7 +288,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Fraction& fraction)
     {
-        while (is.peek() <= 0x20)
+        while (is && is.peek() <= 0x20)
         {
             is.ignore();
         }
-- 
2.43.0


From 5f9cb09c36bd55ad489449b92d46281129717ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 30/36] fix: wrong complex literals were read without an error

---
 sources/complex.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 01f8801..be62348 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -252,10 +252,14 @@ public:
             throw std::runtime_error("Error: Wrong complex literal.");
         }
 
+        if (is.peek() != '-' && is.peek() != '+') // handle "1z+2j" or "1..2j" or "1jj2j"
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
+
         double imag;
-        char c;
-        is >> imag >> c;
-        if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        is >> imag;
+        if (is.get() != 'j' || is.peek() > 0x20) // handle "1+z2j" or "1+2zj" or "1+2 j"
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
-- 
2.43.0


From 2e1e7f5fea49fa1e016c63a4b6c542a8ce80b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 31/36] fix: what followed a null character in an integer
 literal was ignored

---
 sources/int.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index a01c9a1..0ab5f25 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -890,6 +890,10 @@ public:
     {
         std::string str;
         is >> str;
+        if (!is_integer(str.data(), str.size())) // c_str() would hide what follows a null character
+        {
+            throw std::runtime_error("Error: Wrong integer literal.");
+        }
         integer = str.c_str();
 
         return is;
-- 
2.43.0


From c04d94f3031acc876f04d8e9a8ee5ebc5018880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 32/36] fix: the last Fraction or Complex of the input was read
 but left the stream failed

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index be62348..2962e84 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -236,7 +236,7 @@ public:
 
         double real;
         is >> real;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // no next char (then peek() would fail), or next char is white space, ok
         {
             complex = real;
             return is;
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 843842a..4682aaf 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -299,7 +299,7 @@ public:
 
         int num;
         is >> num;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // no next char (then peek() would fail), or next char is white space, ok
         {
             fraction = num;
             return is;
@@ -313,7 +313,7 @@ public:
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
         is >> den;
-        if (c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From 43136d7a455c128ea3bf44bb1f3ab5cca060bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 33/36] fix: printing an Int changed the fill character of the
 stream and split it under a field width

---
 sources/int.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 0ab5f25..6e28748 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -870,19 +870,19 @@ public:
             return os << '0';
         }
 
-        if (integer.sign_ == -1)
-        {
-            os << '-';
-        }
+        // build the text first, so that the format of the stream applies to the whole integer and is left as it is
+        std::string str = (integer.sign_ == -1 ? "-" : "");
 
-        os << *integer.chunks_.rbegin();
+        str += std::to_string(*integer.chunks_.rbegin());
         if (integer.chunks_.size() > 1)
         {
             std::for_each(integer.chunks_.rbegin() + 1, integer.chunks_.rend(), [&](const auto& c)
-                          { os << std::setw(Int::DIGITS_PER_CHUNK) << std::setfill('0') << std::to_string(c); });
+                          {
+                              const std::string digits = std::to_string(c);
+                              str.append(Int::DIGITS_PER_CHUNK - digits.size(), '0').append(digits); });
         }
 
-        return os;
+        return os << str;
     }
 
     /// Get an integer from the specified input stream.
-- 
2.43.0


From 793243af27b5e4d05b82ee0822a728e0f08edcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 34/36] fix: a failed allocation in Int ++, -- or assignment
 left a broken value

---
 sources/int.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 6e28748..c1cc728 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -251,7 +251,13 @@ public:
      */
 
     /// Copy assignment operator.
-    Int& operator=(const Int& that) = default;
+    Int& operator=(const Int& that)
+    {
+        chunks_ = that.chunks_; // may throw, so the sign comes second
+        sign_ = that.sign_;
+
+        return *this;
+    }
 
     /// Move assignment operator.
     Int& operator=(Int&& that)
@@ -553,8 +559,8 @@ public:
     {
         if (sign_ == 0)
         {
+            chunks_.push_back(1); // may throw, so the sign comes second
             sign_ = 1;
-            chunks_.push_back(1);
         }
         else
         {
@@ -569,8 +575,8 @@ public:
     {
         if (sign_ == 0)
         {
+            chunks_.push_back(1); // may throw, so the sign comes second
             sign_ = -1;
-            chunks_.push_back(1);
         }
         else
         {
-- 
2.43.0


From 94ef12aa9f819598ed989a854fdcfd5c496ba3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 35/36] fix: a failed allocation in format() or to_decimal()
 gave a wrong result instead of an exception

---
 sources/str.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/str.hpp b/sources/str.hpp
index f6e02e0..40d381c 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -379,6 +379,7 @@ public:
         double decimal = 0;
         std::istringstream iss(str_);
         iss.imbue(std::locale::classic());
+        iss.exceptions(std::ios::badbit); // otherwise the stream swallows failures
         iss >> decimal;
         return iss.fail() && std::abs(decimal) > 1 ? std::copysign(INFINITY, decimal) : decimal; // overflow
     }
@@ -709,6 +710,7 @@ public:
     Str format(const Args&... args) const
     {
         std::ostringstream oss;
+        oss.exceptions(std::ios::badbit); // otherwise the stream swallows failures and the result is cut off
         std::string_view str(str_);
         (format_helper(oss, str, args), ...);
         oss << str;
-- 
2.43.0


From adb54d127bc2d8c92d2eea2f5695f1cf808c66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 36/36] fix: reading a Complex with a failed allocation stored
 an uninitialised value

---
 sources/complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 2962e84..a594f13 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -234,7 +234,7 @@ public:
             throw std::runtime_error("Error: Wrong complex literal.");
         }
 
-        double real;
+        double real = 0; // if the stream fails, it may leave it as it is
         is >> real;
         if (is.eof() || is.peek() <= 0x20) // no next char (then peek() would fail), or next char is white space, ok
         {
@@ -257,7 +257,7 @@ public:
             throw std::runtime_error("Error: Wrong complex literal.");
         }
 
-        double imag;
+        double imag = 0;
         is >> imag;
         if (is.get() != 'j' || is.peek() > 0x20) // handle "1+z2j" or "1+2zj" or "1+2 j"
         {
-- 
2.43.0

