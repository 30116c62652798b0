From fed4aef04653fa78ee7c233f75a54bde650a8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 01/57] fix: factor scan reconstructs factor coefficients with
 the modulus they belong to

---
 source/include/firefly/Reconstructor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 5932418..1a59a60 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1534,7 +1534,7 @@ namespace firefly {
                   // Reconstruct numerator
                   for (const auto& ci : combined_ni[counter]) {
                     mpz_class a = ci.second;
-                    auto res = get_rational_coef(a, combined_prime);
+                    auto res = get_rational_coef(a, tmp_combined_prime);
 
                     if (res.first) {
                       tmp_gni.emplace(std::make_pair(std::vector<uint32_t> (1, ci.first), res.second));
@@ -1548,7 +1548,7 @@ namespace firefly {
                   if (run_test) {
                     for (const auto& ci : combined_di[counter]) {
                       mpz_class a = ci.second;
-                      auto res = get_rational_coef(a, combined_prime);
+                      auto res = get_rational_coef(a, tmp_combined_prime);
 
                       if (res.first) {
                         tmp_gdi.emplace(std::make_pair(std::vector<uint32_t> (1, ci.first), res.second));
-- 
2.43.0


From af1017e5c1039debda89393927870ceefa21c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 02/57] fix: FFInt of a negative multiple of the prime is zero

---
 source/include/firefly/FFInt.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index da4241c..5b31446 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -135,7 +135,10 @@ namespace firefly {
         n = static_cast<uint64_t>(n_)  % p;
       }
     } else if (n_ < 0) {
-      n = p - static_cast<uint64_t>(-n_) % p;
+      // negate after the conversion since -n_ overflows for the smallest integer
+      n = (0 - static_cast<uint64_t>(n_)) % p;
+
+      if (n != 0) n = p - n;
     }
   }
 
-- 
2.43.0


From d4b8097dbc6b74b0de5ba8568d98e751e406258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 03/57] fix: increment and decrement of FFInt change their
 operand

---
 source/FFInt.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 2c17b12..1fe1b8b 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -196,27 +196,25 @@ namespace firefly {
   }
 
   FFInt FFInt::operator++() {
-    FFInt tmp(n);
-    tmp += 1;
-    return tmp;
+    *this += 1;
+    return *this;
   }
 
   FFInt FFInt::operator++(int) {
     FFInt tmp(n);
-    tmp += 1;
+    *this += 1;
     return tmp;
   }
 
   FFInt FFInt::operator--(int) {
     FFInt tmp(n);
-    tmp -= 1;
+    *this -= 1;
     return tmp;
   }
 
   FFInt FFInt::operator--() {
-    FFInt tmp(n);
-    tmp -= 1;
-    return tmp;
+    *this -= 1;
+    return *this;
   }
 
   bool FFInt::operator!() const {
-- 
2.43.0


From bb146f9257c941e7a14724b83f0a6a7c954cadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 04/57] fix: FFInt replacement values equal to the prime are
 reduced

---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 1fe1b8b..c72f756 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -55,7 +55,7 @@ namespace firefly {
   FFInt::FFInt(const std::string& str, const std::vector<std::pair<std::string, uint64_t>>& replacements) {
     for (const auto & var : replacements) {
       if (var.first == str) {
-        if (var.second > p) {
+        if (var.second >= p) {
           n = var.second % p;
         } else {
           n = var.second;
-- 
2.43.0


From b52f29bb0a9909ee11a7ee30ad4993e39818c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 05/57] fix: FFInt powers with exponents which do not fit or
 negate in a signed integer

---
 source/include/firefly/FFInt.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index 5b31446..8a731be 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -145,7 +145,11 @@ namespace firefly {
 #ifdef FLINT
   template<class T, typename>
   FFInt FFInt::pow(const T& power) const {
-    return FFInt(n_powmod2_preinv(n, power, p, p_inv));
+    // n_powmod2_preinv takes a signed exponent
+    if (power >= 0)
+      return FFInt(n_powmod2_ui_preinv(n, static_cast<uint64_t>(power), p, p_inv));
+    else
+      return FFInt(n_powmod2_ui_preinv(n_invmod(n, p), 0 - static_cast<uint64_t>(power), p, p_inv));
   }
 #endif
 
@@ -165,7 +169,7 @@ namespace firefly {
         exp = power;
         base = n;
       } else {
-        exp = static_cast<uint64_t>(-power);
+        exp = 0 - static_cast<uint64_t>(power);
         base = mod_inv(n, p);
       }
 
-- 
2.43.0


From 668b6144db2e2f2fcb1f40b5f345c34b04e4897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 06/57] fix: difference and quotient of an FFInt and an
 FFIntVec keep the order of the operands

---
 source/FFIntVec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/FFIntVec.cpp b/source/FFIntVec.cpp
index c0b757c..00d6c6b 100644
--- a/source/FFIntVec.cpp
+++ b/source/FFIntVec.cpp
@@ -259,10 +259,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator-(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] -= b;
+      result.vec[i] -= a.vec[i];
     }
 
     return result;
@@ -281,10 +281,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator/(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] /= b;
+      result.vec[i] /= a.vec[i];
     }
 
     return result;
-- 
2.43.0


From 1bcb88a85fa7b8f0e89c53ecac9ec14786540b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 07/57] fix: FFIntVec::at accepts the last lane

---
 source/include/firefly/FFIntVec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFIntVec.hpp b/source/include/firefly/FFIntVec.hpp
index 8364713..6c4c434 100644
--- a/source/include/firefly/FFIntVec.hpp
+++ b/source/include/firefly/FFIntVec.hpp
@@ -100,7 +100,7 @@ namespace firefly {
     typename std::array<FFInt, N>::const_iterator end() const noexcept;
     size_t size() const noexcept;
     inline const FFInt& at(int i) {
-      if (i < N - 1)
+      if (i < N)
         return vec[i];
       else
         throw std::out_of_range("Out of range.");
-- 
2.43.0


From 8cd72de2498094ad0f16816bf619861ca902c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 08/57] fix: the product of two RationalNumbers leaves its
 operands unchanged

---
 source/RationalNumber.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/RationalNumber.cpp b/source/RationalNumber.cpp
index 2fdc5de..30d63d0 100644
--- a/source/RationalNumber.cpp
+++ b/source/RationalNumber.cpp
@@ -43,9 +43,7 @@ namespace firefly {
     }
 
     mpz_class gcd_(gcd(num, den));
-    numerator = num / gcd_;
-    denominator = den / gcd_;
-    return *this;
+    return RationalNumber(num / gcd_, den / gcd_);
   }
 
   RationalNumber& RationalNumber::operator-=(const RationalNumber& rn) {
-- 
2.43.0


From cdb177816b3e736abd556edb3f8590ea9d5a9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 09/57] fix: PolynomialFF::add_shift keeps the constant term

---
 source/PolynomialFF.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 6cc3410..0e03b70 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -403,12 +403,14 @@ namespace firefly {
         }
       }
 
-      if (!pow_poly.coefs.empty()) {
-        if (res.coefs.empty())
-          res.coefs = pow_poly.coefs;
-        else
-          res += pow_poly;
-      }
+      // A constant is not affected by the shift
+      if (pow_poly.coefs.empty())
+        pow_poly.coefs.emplace(std::make_pair(powers, mon.second));
+
+      if (res.coefs.empty())
+        res.coefs = pow_poly.coefs;
+      else
+        res += pow_poly;
     }
 
     return res;
-- 
2.43.0


From c4223e8934e90165f9f4302b5b8bfaaaf5b39941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 10/57] fix: product of two PolynomialFF adds up contributions
 to the same monomial

---
 source/PolynomialFF.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 0e03b70..d90bc91 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -325,7 +325,16 @@ namespace firefly {
                          coef_b.first.begin(), new_deg.begin(),
                          std::plus<uint32_t>());
 
-          new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          const auto it = new_monomials.find(new_deg);
+
+          if (it == new_monomials.end())
+            new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          else {
+            it->second += new_coef;
+
+            if (it->second == 0)
+              new_monomials.erase(it);
+          }
         }
       }
     }
-- 
2.43.0


From 8b4976fae5d5185daeef33c1c60f7a56363727b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 11/57] fix: Poly::shrink_to_fit keeps the constant term of the
 zero polynomial

---
 source/Poly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Poly.cpp b/source/Poly.cpp
index 56029dc..ee8ca8b 100644
--- a/source/Poly.cpp
+++ b/source/Poly.cpp
@@ -50,7 +50,7 @@ namespace firefly {
   }
 
   void Poly::shrink_to_fit() {
-    while (coeff.back() == FFInt(0)) {
+    while (coeff.size() > 1 && coeff.back() == FFInt(0)) {
       coeff.pop_back();
     };
 
-- 
2.43.0


From 51fbafbaef117c2d84463cae197f0be2362895c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 12/57] fix: the zero Polynomial converts to the zero
 PolynomialFF

---
 source/Polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Polynomial.cpp b/source/Polynomial.cpp
index 5b38717..b93a7a5 100644
--- a/source/Polynomial.cpp
+++ b/source/Polynomial.cpp
@@ -132,7 +132,7 @@ namespace firefly {
 
   PolynomialFF Polynomial::convert_to_PolynomialFF() {
     ff_map coefs_ff;
-    uint32_t n = coefs[0].powers.size();
+    uint32_t n = coefs.empty() ? 0 : coefs[0].powers.size();
 
     for (auto & coef : coefs) {
       FFInt coef_ff = FFInt(coef.coef.numerator) / FFInt(coef.coef.denominator);
-- 
2.43.0


From 949b5ccc9edbeba9ebc15db51c68a89edc5ee617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 13/57] fix: get_result attaches factors by the function's
 index also after early results have been taken

---
 source/include/firefly/Reconstructor.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 1a59a60..f81567a 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1124,7 +1124,6 @@ namespace firefly {
   template<typename BlackBoxTemp>
   std::vector<RationalFunction> Reconstructor<BlackBoxTemp>::get_result() {
     std::vector<RationalFunction> result {};
-    uint32_t counter = 0;
 
     for (auto & rec : reconst) {
       if (std::get<1>(rec) == DONE) {
@@ -1134,13 +1133,11 @@ namespace firefly {
           result.back().set_var_order(optimal_var_order);
         }
 
-        if (factors_rf.find(counter) != factors_rf.end()) {
-          for (const auto& factor : factors_rf[counter]) {
+        if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
+          for (const auto& factor : factors_rf[std::get<0>(rec)]) {
             result.back().add_factor(factor);
           }
         }
-
-        ++counter;
       }
     }
 
-- 
2.43.0


From dd21f52f97052356027b55a8ee9bb9a47e71ec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 14/57] fix: get_result_ff of a finished function converts the
 function instead of mixing in interpolations over earlier fields

---
 source/RatReconst.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 02f5a97..b2cdf9b 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -1867,13 +1867,26 @@ namespace firefly {
   RationalFunctionFF RatReconst::get_result_ff() {
     std::lock_guard<std::mutex> lock(mutex_status);
 
-    ff_map tmp_num = convert_to_ffint(g_ni);
-    ff_map tmp_den = convert_to_ffint(g_di);
+    if (!result.numerator.coefs.empty()) {
+      return RationalFunctionFF(result.numerator.convert_to_PolynomialFF(), result.denominator.convert_to_PolynomialFF());
+    }
+
+    ff_map res_num {};
+    ff_map res_den {};
+
+    // if the function is done, the temporary results can belong to an earlier prime field
+    if (!done) {
+      res_num = tmp_res_num;
+      res_den = tmp_res_den;
+    }
+
+    ff_map known_num = convert_to_ffint(g_ni);
+    ff_map known_den = convert_to_ffint(g_di);
 
-    tmp_res_num.insert(tmp_num.begin(), tmp_num.end());
-    tmp_res_den.insert(tmp_den.begin(), tmp_den.end());
+    res_num.insert(known_num.begin(), known_num.end());
+    res_den.insert(known_den.begin(), known_den.end());
 
-    return RationalFunctionFF(PolynomialFF(n, tmp_res_num), PolynomialFF(n, tmp_res_den));
+    return RationalFunctionFF(PolynomialFF(n, res_num), PolynomialFF(n, res_den));
   }
 
 #ifdef FLINT
-- 
2.43.0


From c298cec120eb159247ff28b367d817ddf9bf62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 15/57] fix: stopping after a number of prime fields leaves the
 last of them as the current field and starts no jobs of the next one

---
 source/include/firefly/Reconstructor.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index f81567a..464e034 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2309,6 +2309,7 @@ namespace firefly {
     }
 
     new_prime = false;
+    bool stopped = false;
 
 #ifdef WITH_MPI
     bool mpi_first_send = false;
@@ -2422,6 +2423,7 @@ namespace firefly {
         ++prime_it;
         if(prime_it >= prime_counter || factor_scan) {
           done = true;
+          stopped = true;
         }
 
 #ifdef WITH_MPI
@@ -2611,6 +2613,12 @@ namespace firefly {
           file.close();
         }
 
+#ifndef WITH_MPI
+        // The requested number of interpolations has been performed
+        if (done)
+          break;
+#endif
+
         // start only thr_n jobs first, because the reconstruction can be done after the first feed
         uint32_t to_start = 0;
 
@@ -2882,6 +2890,11 @@ namespace firefly {
 
     total_iterations += iteration;
     reset_new_prime();
+
+    // The last interpolations have been performed over the previous prime field
+    if (stopped) {
+      FFInt::set_new_prime(primes()[prime_it - 1]);
+    }
   }
 
   // TODO optimize for bunch_size 1?
-- 
2.43.0


From 9e2305267fc98768afc98fcd8e8f00480104a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 16/57] fix: resuming takes the prime field from the open
 functions only (a run interrupted while renaming files could hang)

---
 source/include/firefly/Reconstructor.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 464e034..129f8d7 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -774,6 +774,30 @@ namespace firefly {
       }
     }
 
+    // The files of finished functions can lag behind if the previous run was interrupted while renaming them,
+    // i.e. only the open functions determine the prime field
+    if (items_done != items) {
+      uint32_t next_prime = 400;
+
+      for (const auto & rec : reconst) {
+        if (std::get<1>(rec) != DONE) {
+          next_prime = std::min(next_prime, std::get<2>(rec)->get_prime());
+        }
+      }
+
+      if (next_prime > prime_it + 1) {
+        prime_it = next_prime - 1;
+        load_anchor_points = true;
+
+        FFInt::set_new_prime(primes()[prime_it]);
+        bb.prime_changed_internal();
+
+        for (auto& el : parsed_factors) {
+          el.second.precompute_tokens();
+        }
+      }
+    }
+
     auto it = started_probes.find(std::vector<uint32_t> (n - 1, 1));
 
     if (it == started_probes.end()) {
-- 
2.43.0


From 75d89c6cc094fa4e485f97fe877d987c7f9a3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 17/57] fix: resume does not access missing entries of a black
 box with fewer functions

---
 source/include/firefly/Reconstructor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 129f8d7..226d5c2 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -636,11 +636,13 @@ namespace firefly {
         size_t counter = 0;
 
         for (const auto & el : parsed_factors) {
-          result[el.first] /= el.second.evaluate_pre(values)[0];
+          if (el.first < result.size()) {
+            result[el.first] /= el.second.evaluate_pre(values)[0];
+          }
         }
 
         while (std::getline(validation_file, line)) {
-          if (std::stoul(line) != result[counter]) {
+          if (counter >= result.size() || std::stoul(line) != result[counter]) {
             ERROR_MSG("Validation failed: Entry " + std::to_string(counter) + " does not match the black-box result!");
             logger << "Validation failed: Entry " + std::to_string(counter) + " does not match the black-box result!\n";
             logger.close();
-- 
2.43.0


From 3f913b6003e3e72fba50ce0302f3df8838609d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 18/57] fix: ShuntingYardParser::evaluate knows the operators
 for negative powers

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 4000fac..65a7785 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -246,7 +246,7 @@ namespace firefly {
       std::stack<FFIntTemp> nums;
 
       for (const auto& token : tokens) {
-        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!") {
+        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!" || token == "~" || token == ";") {
           // Pop two numbers
           FFIntTemp a = nums.top();
           nums.pop();
-- 
2.43.0


From 03ed08b71f43c2c1990e3b8fd1718e4144ace390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 19/57] fix: the reciprocal of a rational number survives a
 change of the prime field

---
 source/ShuntingYardParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e568e5a..d424f69 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -637,7 +637,9 @@ namespace firefly {
 	      partial_rpn[i].emplace_back(std::make_pair(j, v_2));
             } else if (precomp_tokens[i][j - 1].first == tokens::NUMBER && (precomp_tokens[i][j - 2].first == tokens::VARIABLE || precomp_tokens[i][j - 2].first == tokens::NEG_VARIABLE)) {
               FFInt inverse = 1 / precomp_tokens[i][j - 1].second;
-	      partial_rpn[i].back().second = {{"1", partial_rpn[i].back().second[0] , "/"}};
+	      auto& number_rpn = partial_rpn[i].back().second;
+	      number_rpn.insert(number_rpn.begin(), "1");
+	      number_rpn.emplace_back("/");
 
               precomp_tokens[i][j - 1].second = inverse;
               precomp_tokens[i][j] = {tokens::MULT, 0};
-- 
2.43.0


From 225b9292c09c6af67587bfcc24745c9797033b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 20/57] fix: evaluate_pre_2 allocates the stack entry used by
 functions of a single token

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 65a7785..5cc9d24 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -490,7 +490,7 @@ namespace firefly {
     }
 
     for (const auto& tokens : precomp_tokens) {
-      FFIntTemp* stack = new FFIntTemp[tokens.size()];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
+      FFIntTemp* stack = new FFIntTemp[tokens.size() + 1];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
       size_t stack_depth = 0;
 
       for (const auto& token : tokens) {
-- 
2.43.0


From 4ad749146bcc71f9a871a58f59163ca359fb38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 21/57] fix: add_otf still detects equal functions after the
 tokens have been precomputed and keeps the prime field

---
 source/ShuntingYardParser.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index d424f69..23bd063 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -353,10 +353,12 @@ namespace firefly {
       functions.emplace_back(tokens);
       return functions.size() - 1;
     } else {
+      const uint64_t current_prime = FFInt::p;
       FFInt::set_new_prime(primes()[prime_counter != 299 ? prime_counter + 1 : prime_counter - 1]);
       FFInt v1 = evaluate(tokens, check_vars_1);
       FFInt::set_new_prime(primes()[prime_counter]);
       FFInt v2 = evaluate(tokens, check_vars_2);
+      FFInt::set_new_prime(current_prime);
 
       if (check_map.find(std::make_pair(v1.n, v2.n)) != check_map.end()) {
         if (!no_duplicates) {
@@ -555,11 +557,6 @@ namespace firefly {
       return;
     }
 
-    // TODO really clear here?
-    check_vars_1.clear();
-    check_vars_2.clear();
-    check_map.clear();
-
     if (!precomputed || force) {
       uint64_t size = functions.size();
       precomp_tokens = std::vector<std::vector<std::pair<uint8_t, FFInt>>>(size);
-- 
2.43.0


From 0ea99e79571fa47f599b13395cb126891c440c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 22/57] fix: trimming a parser keeps its numbers, its detection
 of equal functions and functions without RPN consistent

---
 source/ShuntingYardParser.cpp | 67 ++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 23bd063..94abf86 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -719,56 +719,75 @@ namespace firefly {
   std::unordered_map<size_t, size_t> ShuntingYardParser::trim(const std::unordered_set<size_t>& elements_to_keep) {
     std::vector<std::vector<std::string>> new_functions {};
     std::vector<std::vector<std::pair<uint8_t, FFInt>>> new_precomp_tokens {};
+    std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>> new_partial_rpn {};
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
 
-    // TODO check_map and check_vars?
-    INFO_MSG("Trimming parser: " + std::to_string(functions.size() - elements_to_keep.size())
-             + " out of " + std::to_string(functions.size()) + " functions will be removed");
+    // The RPN may already have been removed in favor of the precomputed tokens
+    const size_t stored_functions = std::max(functions.size(), precomp_tokens.size());
+    const size_t size = check_is_equal ? evaluation_positions.size() : stored_functions;
+    size_t n_kept = 0;
 
-    if (!check_is_equal) {
-      for (size_t i = 0; i != functions.size(); ++i) {
-        if (elements_to_keep.find(i) != elements_to_keep.end()) {
-          new_functions.emplace_back(std::move(functions[i]));
+    INFO_MSG("Trimming parser: " + std::to_string(size - elements_to_keep.size())
+             + " out of " + std::to_string(size) + " functions will be removed");
 
-          if (!precomp_tokens.empty()) {
-            new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
-          }
+    auto keep_function = [&](size_t i) {
+      if (i < functions.size()) {
+        new_functions.emplace_back(std::move(functions[i]));
+      }
 
-          new_positions.emplace(std::make_pair(i, new_functions.size() - 1));
+      if (i < precomp_tokens.size()) {
+        new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
+        new_partial_rpn.emplace_back(std::move(partial_rpn[i]));
+      }
+
+      return n_kept++;
+    };
+
+    if (!check_is_equal) {
+      for (size_t i = 0; i != size; ++i) {
+        if (elements_to_keep.find(i) != elements_to_keep.end()) {
+          new_positions.emplace(std::make_pair(i, keep_function(i)));
         }
       }
     } else {
       std::unordered_map<size_t, size_t> copied_functions {};
 
-      for (size_t i = 0; i != evaluation_positions.size(); ++i) {
+      for (size_t i = 0; i != size; ++i) {
         if (elements_to_keep.find(i) != elements_to_keep.end()) {
-          const auto& it = copied_functions.find(static_cast<size_t>(evaluation_positions[i]));
+          const size_t position = static_cast<size_t>(evaluation_positions[i]);
+          auto it = copied_functions.find(position);
 
-          if (it != copied_functions.end()) {
-            new_evaluation_positions.emplace_back(static_cast<uint64_t>(it->second));
-          } else {
-            new_functions.emplace_back(std::move(functions[evaluation_positions[i]]));
-
-            if (!precomp_tokens.empty()) {
-              new_precomp_tokens.emplace_back(std::move(precomp_tokens[evaluation_positions[i]]));
-            }
-
-            copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), new_functions.size() - 1));
-            new_evaluation_positions.emplace_back(static_cast<uint64_t>(new_functions.size() - 1));
+          if (it == copied_functions.end()) {
+            it = copied_functions.emplace(std::make_pair(position, keep_function(position))).first;
           }
 
+          new_evaluation_positions.emplace_back(static_cast<uint64_t>(it->second));
           new_positions.emplace(std::make_pair(i, new_evaluation_positions.size() - 1));
         }
       }
+
+      // Forget removed functions and update the positions of the others
+      for (auto it = check_map.begin(); it != check_map.end();) {
+        const auto copied = copied_functions.find(static_cast<size_t>(it->second));
+
+        if (copied == copied_functions.end()) {
+          it = check_map.erase(it);
+        } else {
+          it->second = static_cast<uint64_t>(copied->second);
+          ++it;
+        }
+      }
     }
 
     new_functions.shrink_to_fit();
     new_precomp_tokens.shrink_to_fit();
+    new_partial_rpn.shrink_to_fit();
     new_evaluation_positions.shrink_to_fit();
 
     functions = std::move(new_functions);
     precomp_tokens = std::move(new_precomp_tokens);
+    partial_rpn = std::move(new_partial_rpn);
     evaluation_positions = std::move(new_evaluation_positions);
 
     return new_positions;
-- 
2.43.0


From b66d45d5937a3ba4fde24cc393797edfdb9f5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 23/57] fix: add_otf_precompute does not prevent the refresh of
 the other functions

---
 source/ShuntingYardParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 94abf86..b6bed36 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -329,8 +329,10 @@ namespace firefly {
   }
 
   size_t ShuntingYardParser::add_otf_precompute(const std::vector<std::string>& rpn_fun) {
-    if (FFInt::p != prime_internal) {
+    // Tokens of the other functions are only refreshed by precompute_tokens
+    if (precomp_tokens.empty()) {
       prime_internal = FFInt::p;
+      precomputed = true;
     }
 
     precomp_tokens.emplace_back(std::vector<std::pair<uint8_t, FFInt>>());
-- 
2.43.0


From b61b65d7e38bb97900221f5066aac4b8192234ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 24/57] fix: malformed functions end with an error instead of
 undefined behavior

---
 source/ShuntingYardParser.cpp                 | 40 +++++++++++++++++++
 source/include/firefly/ShuntingYardParser.hpp |  9 +++++
 2 files changed, 49 insertions(+)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index b6bed36..c0215d5 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -248,6 +248,10 @@ namespace firefly {
               op_stack.pop();
             }
 
+            if (tokens.empty()) {
+              throw_malformed_err();
+            }
+
             if (ex == '^' && fun[c_counter + 1] == '(' && fun[c_counter + 2] == '-') {
               neg_exp = true;
 
@@ -308,6 +312,8 @@ namespace firefly {
 
     std::cout << "\n";*/
 
+    check_rpn(tokens);
+
     tokens.shrink_to_fit();
     return tokens;
   }
@@ -856,6 +862,40 @@ namespace firefly {
     //return result;
   }
 
+  void ShuntingYardParser::check_rpn(const std::vector<std::string>& rpn) const {
+    size_t depth = 0;
+
+    for (const auto& token : rpn) {
+      if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!" || token == "~" || token == ";") {
+        // Each operator replaces two operands by its result
+        if (depth < 2) {
+          throw_malformed_err();
+        }
+
+        --depth;
+      } else {
+        const std::string operand = token[0] == '+' || token[0] == '-' ? token.substr(1) : token;
+        const bool is_number = !operand.empty() && operand.find_first_not_of("0123456789") == std::string::npos;
+
+        // Tokens of more than 18 characters are always treated as numbers
+        if (!is_number && (token.length() > 18 || vars_map.find(operand) == vars_map.end())) {
+          throw_not_declared_var_err(operand);
+        }
+
+        ++depth;
+      }
+    }
+
+    if (depth != 1) {
+      throw_malformed_err();
+    }
+  }
+
+  void ShuntingYardParser::throw_malformed_err() const {
+    ERROR_MSG("Malformed function! Please check your input.");
+    std::exit(EXIT_FAILURE);
+  }
+
   void ShuntingYardParser::throw_not_declared_var_err(const std::string& var) const {
     ERROR_MSG("Variable '" + var + "' not declared!");
     std::exit(EXIT_FAILURE);
diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 5cc9d24..1e21c28 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -210,6 +210,15 @@ namespace firefly {
      *  @param exp_n the expression number
      */
     void validate(std::string& r, uint64_t exp_n);
+    /**
+     *  Checks that a function in reverse polish notation is well-formed and exits the program if it is not
+     *  @param rpn the function in reverse polish notation
+     */
+    void check_rpn(const std::vector<std::string>& rpn) const;
+    /**
+     *  Exits the program since a function is malformed
+     */
+    void throw_malformed_err() const;
     /**
      *  Exits the program since a variable was not declared
      *  @param var the undeclared variable
-- 
2.43.0


From 3c9fd9e1a0b4c2bb853d25120c5cf412d739b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 25/57] fix: malformed expressions and replacement tables end
 with an error

---
 source/AmplitudeParser.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 2a82d54..8d95660 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -103,7 +103,7 @@ namespace firefly {
       if (amplitude[0] == '{')
         amplitude.erase(0, 1);
 
-      if (amplitude[amplitude.size() - 1] == '}')
+      if (!amplitude.empty() && amplitude.back() == '}')
         amplitude.erase(amplitude.size() - 1, 1);
     }
 
@@ -116,6 +116,15 @@ namespace firefly {
       while (found != std::string::npos) {
         std::string seed = amplitude.substr(old_pos, found + 1 - old_pos);
         std::size_t fo = seed.find('[');
+
+        if (fo == std::string::npos) {
+          ERROR_MSG("Mismatch of closing square brackets: " + seed);
+          logger.open("ff_insert.log", std::ios_base::app);
+          logger << "Mismatch of closing square brackets: " << seed << "\n";
+          logger.close();
+          std::exit(EXIT_FAILURE);
+        }
+
         std::string int_fam = seed.substr(0, fo);
 
         bool found_integral = false;
@@ -246,7 +255,7 @@ namespace firefly {
     if (ibp_table[0] == '{')
       ibp_table.erase(0, 1);
 
-    if (ibp_table[ibp_table.size() - 1] == '}')
+    if (!ibp_table.empty() && ibp_table.back() == '}')
       ibp_table.erase(ibp_table.size() - 1, 1);
 
     size_t pos = ibp_table.find("->");
@@ -264,6 +273,14 @@ namespace firefly {
         rhs = ibp_table.substr(old_pos);
         auto repl_lhs = parse_string(lhs, true);
 
+        if (repl_lhs.empty()) {
+          ERROR_MSG("Replacement rule without a function to be replaced: " + lhs);
+          logger.open("ff_insert.log", std::ios_base::app);
+          logger << "Replacement rule without a function to be replaced: " << lhs << "\n";
+          logger.close();
+          std::exit(EXIT_FAILURE);
+        }
+
         if (integrals.find(repl_lhs[0].first) != integrals.end()) {
           if (repl_integrals.find(repl_lhs[0].first) != repl_integrals.end()) {
             ERROR_MSG("Multiple replacement rules for function: " + repl_lhs[0].first);
@@ -303,6 +320,14 @@ namespace firefly {
 
       auto repl_lhs = parse_string(lhs, true);
 
+      if (repl_lhs.empty()) {
+        ERROR_MSG("Replacement rule without a function to be replaced: " + lhs);
+        logger.open("ff_insert.log", std::ios_base::app);
+        logger << "Replacement rule without a function to be replaced: " << lhs << "\n";
+        logger.close();
+        std::exit(EXIT_FAILURE);
+      }
+
       if (integrals.find(repl_lhs[0].first) != integrals.end()) {
         if (repl_integrals.find(repl_lhs[0].first) != repl_integrals.end()) {
           ERROR_MSG("Multiple replacement rules for function: " + repl_lhs[0].first);
-- 
2.43.0


From 721fe1b9e18d8f353f23c8541570b7c2dc7e3fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 26/57] fix: long numbers with leading zeros are decimal
 numbers

---
 source/ShuntingYardParser.cpp                 | 4 ++--
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index c0215d5..2ce4c5f 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -447,7 +447,7 @@ namespace firefly {
           if (token[0] == '+')
             tmp.erase(0, 1);
 
-          nums.push(FFInt(mpz_class(tmp)));
+          nums.push(FFInt(mpz_class(tmp, 10)));
         } else {
           if (token[0] == '-') {
             std::string tmp = token;
@@ -682,7 +682,7 @@ namespace firefly {
           if (token[0] == '+')
             tmp.erase(0, 1);
 
-          precomp_tokens[i][j] = {tokens::NUMBER, FFInt(mpz_class(tmp))};
+          precomp_tokens[i][j] = {tokens::NUMBER, FFInt(mpz_class(tmp, 10))};
           partial_rpn[i].emplace_back(std::make_pair(j, std::vector<std::string>(1, tmp)));
         } else {
           if (token[0] == '-') {
diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 1e21c28..beca8fd 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -310,7 +310,7 @@ namespace firefly {
             if (token[0] == '+')
               tmp.erase(0, 1);
 
-            nums.push(FFIntTemp(mpz_class(tmp)));
+            nums.push(FFIntTemp(mpz_class(tmp, 10)));
           } else {
             if (token[0] == '-') {
               std::string tmp = token;
-- 
2.43.0


From 730338b77bcfbf3c639cd863205a02346ea85546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 27/57] fix: replacement rules without separator end with an
 error instead of an endless loop

---
 source/AmplitudeParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 8d95660..683ebf8 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -313,6 +313,15 @@ namespace firefly {
       } else {
         tmp_pos = ibp_table.rfind("[", tmp_pos);
         tmp_pos = ibp_table.rfind(",", tmp_pos);
+
+        if (tmp_pos == std::string::npos || tmp_pos < old_pos) {
+          ERROR_MSG("Replacement rules are not separated by commas: " + ibp_table.substr(pos));
+          logger.open("ff_insert.log", std::ios_base::app);
+          logger << "Replacement rules are not separated by commas: " << ibp_table.substr(pos) << "\n";
+          logger.close();
+          std::exit(EXIT_FAILURE);
+        }
+
         rhs = ibp_table.substr(old_pos, tmp_pos - old_pos);
         old_pos = tmp_pos;
         pos = ibp_table.find("->", old_pos);
-- 
2.43.0


From 714dd0e7de1915de6ca071293e9e10db41271f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 28/57] fix: the master of an MPI run keeps a thread besides
 the communication when it is given only one

---
 source/include/firefly/Reconstructor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 226d5c2..da92c12 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -381,7 +381,7 @@ namespace firefly {
 #ifndef WITH_MPI
                                const int verbosity_): n(n_), thr_n(thr_n_), bb(bb_), verbosity(verbosity_), tp(thr_n_) {
 #else
-                               int verbosity_): n(n_), thr_n(thr_n_ - 1), bb(bb_), verbosity(verbosity_), tp(thr_n) {
+                               int verbosity_): n(n_), thr_n(thr_n_ > 1 ? thr_n_ - 1 : 1), bb(bb_), verbosity(verbosity_), tp(thr_n) {
 #endif
     if (n == 0) {
       ERROR_MSG("FireFly does not support functional reconstructions without variables!\n               If you want to continue, set n at least to 1.");
@@ -417,7 +417,7 @@ namespace firefly {
 #ifndef WITH_MPI
                                BlackBoxBase<BlackBoxTemp>& bb_, const int verbosity_): n(n_), thr_n(thr_n_), bunch_size(bunch_size_), bb(bb_), verbosity(verbosity_), tp(thr_n_) {
 #else
-                               BlackBoxBase<BlackBoxTemp>& bb_, int verbosity_): n(n_), thr_n(thr_n_ - 1), bunch_size(bunch_size_), bb(bb_), verbosity(verbosity_), tp(thr_n) {
+                               BlackBoxBase<BlackBoxTemp>& bb_, int verbosity_): n(n_), thr_n(thr_n_ > 1 ? thr_n_ - 1 : 1), bunch_size(bunch_size_), bb(bb_), verbosity(verbosity_), tp(thr_n) {
 #endif
     if (n == 0) {
       ERROR_MSG("FireFly does not support functional reconstructions without variables!\n               If you want to continue, set n at least to 1.");
-- 
2.43.0


From 7b76bdf855537efca01b1fbbd9dede49c9f74da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 29/57] fix: an MPI run which is told to stop after a number of
 prime fields ends its workers instead of waiting forever

---
 source/include/firefly/Reconstructor.hpp | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index da92c12..ab0a78f 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2448,7 +2448,6 @@ namespace firefly {
 
         ++prime_it;
         if(prime_it >= prime_counter || factor_scan) {
-          done = true;
           stopped = true;
         }
 
@@ -2639,11 +2638,33 @@ namespace firefly {
           file.close();
         }
 
-#ifndef WITH_MPI
         // The requested number of interpolations has been performed
-        if (done)
-          break;
+        if (stopped) {
+#ifdef WITH_MPI
+          // Let the workers proceed to the new prime field without any jobs so that they can be ended
+          if (mpi_first_send) {
+            mpi_setup();
+          }
+
+          {
+            std::unique_lock<std::mutex> lock_probe_queue(mutex_probe_queue);
+
+            if (mpi_first_send) {
+              continue_communication = true;
+            } else {
+              new_jobs = true;
+            }
+
+            cond_val.notify_one();
+
+            cond_val.wait(lock_probe_queue, [this](){return proceed;});
+
+            proceed = false;
+          }
 #endif
+          done = true;
+          break;
+        }
 
         // start only thr_n jobs first, because the reconstruction can be done after the first feed
         uint32_t to_start = 0;
-- 
2.43.0


From 3e926dd5bd62767f27f1310bbd4c22fe4c3cd9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 30/57] fix: an MPI run which resumes a finished reconstruction
 does not miss the end of its communication

---
 source/include/firefly/Reconstructor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index ab0a78f..035f9e1 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -936,9 +936,13 @@ namespace firefly {
         cond_val.wait(lock_probe_queue, [this](){return continue_communication;});
 
         continue_communication = false;
-        proceed = true;
 
-        cond_val.notify_one();
+        // If everything is done already, the communication announces its end next
+        if (!done) {
+          proceed = true;
+
+          cond_val.notify_one();
+        }
       }
 
       mpi_communicate();
@@ -1054,10 +1058,6 @@ namespace firefly {
         continue_communication = true;
 
         cond_val.notify_one();
-
-        cond_val.wait(lock_probe_queue, [this](){return proceed;});
-
-        proceed = false;
       }
 
       {
-- 
2.43.0


From db6cf447b34dd46a403b7c69decfa420618352be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 31/57] fix: ff_insert split functions and coefficients by
 searching for family names as substrings

Names of families which are part of another name or of a variable led to
wrong coefficients or 'Unknown function' errors depending on the order of
the families.
---
 source/AmplitudeParser.cpp | 39 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 683ebf8..59af388 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -108,6 +108,7 @@ namespace firefly {
     }
 
     std::size_t amplitude_size = amplitude.size();
+    const std::string delimiters = "+-*/^(){},;";
 
     if (amplitude.length() > 0) {
       std::size_t old_pos = 0;
@@ -127,20 +128,23 @@ namespace firefly {
 
         std::string int_fam = seed.substr(0, fo);
 
+        // The name of the function starts behind the last operator
+        std::size_t name_pos = int_fam.find_last_of(delimiters);
+        name_pos = name_pos == std::string::npos ? 0 : name_pos + 1;
+
         bool found_integral = false;
 
         for (const auto& fam : integral_families) {
-          size_t fo2 = int_fam.find(fam);
           std::string coefficient;
 
-          if (fo2 != std::string::npos) {
+          if (int_fam.compare(name_pos, fam.size(), fam) == 0) {
             found_integral = true;
             std::string prefac = "";
 
-            std::string integral = int_fam.substr(fo2) + seed.substr(fo);
+            std::string integral = int_fam.substr(name_pos) + seed.substr(fo);
 
-            if (fo2 != 0) {
-              prefac = int_fam.substr(fo2 - 1, 1);
+            if (name_pos != 0) {
+              prefac = int_fam.substr(name_pos - 1, 1);
             }
 
             if (prefac == "*") {
@@ -151,20 +155,19 @@ namespace firefly {
               std::size_t fo_2 = amplitude.find('[', found + 1);
 
               if (fo_2 != std::string::npos) {
-                std::string seed_2 = amplitude.substr(found + 1, fo_2 - (found + 1));
-
-                for (const auto& tmp_fam : integral_families) {
-                  std::size_t tmp_found = seed_2.rfind(tmp_fam);
-
-                  if (tmp_found != std::string::npos) {
-                    if (seed_2[0] == '*')
-                      coefficient = seed_2.substr(1, tmp_found - 2);
-                    else
-                      coefficient = seed_2.substr(0, tmp_found - 2);
-
-                    found = fo_2 - tmp_fam.size() - 2;
-                  }
+                // The coefficient ends in front of the sign of the next function
+                std::size_t sign_pos = amplitude.find_last_of(delimiters, fo_2);
+
+                if (sign_pos == found + 1) {
+                  ERROR_MSG("Missing coefficient of function: " + integral);
+                  logger.open("ff_insert.log", std::ios_base::app);
+                  logger << "Missing coefficient of function: " << integral << "\n";
+                  logger.close();
+                  std::exit(EXIT_FAILURE);
                 }
+
+                coefficient = amplitude.substr(found + 2, sign_pos - (found + 2));
+                found = sign_pos - 1;
               } else {
                 coefficient = amplitude.substr(found + 2);
               }
-- 
2.43.0


From 4ef6459858c217175b0fd60bff569652a3b327af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 32/57] fix: ff_insert silently dropped parts of expressions it
 cannot read

Text in front of or behind a function (F[1]/3, 2*x+F[1]), missing
operators and brackets, rules for more than one function and repeated
signs gave wrong coefficients instead of an error.
---
 source/AmplitudeParser.cpp                 | 64 +++++++++++++++-------
 source/include/firefly/AmplitudeParser.hpp |  5 ++
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 59af388..993403d 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -92,6 +92,14 @@ namespace firefly {
     logger.close();
   }
 
+  void AmplitudeParser::parse_error(const std::string& message) {
+    ERROR_MSG(message);
+    logger.open("ff_insert.log", std::ios_base::app);
+    logger << message << "\n";
+    logger.close();
+    std::exit(EXIT_FAILURE);
+  }
+
   std::vector<std::pair<std::string, std::string>> AmplitudeParser::parse_string(std::string& amplitude, bool replacement) {
     std::vector<std::pair<std::string, std::string>> parsed_integrals {};
 
@@ -147,35 +155,45 @@ namespace firefly {
               prefac = int_fam.substr(name_pos - 1, 1);
             }
 
+            // Only signs (and the comma between replacement rules) may precede a function
+            if (prefac != "*" && ((name_pos == 0 && !parsed_integrals.empty()) ||
+                                  int_fam.find_first_not_of("+-", replacement && parsed_integrals.empty() && int_fam[0] == ',') < name_pos))
+              parse_error("Unexpected text in front of function: " + int_fam);
+
             if (prefac == "*") {
               //coefficient = int_fam.substr(0, int_fam.size() - fam.size() - 1);
 	      ERROR_MSG("The format 'c_*FUNCTION' is not supported. Use 'FUNCTION*c_' instead.");
 	      std::exit(EXIT_FAILURE);
-            } else if (found + 1 < amplitude_size - 1 && amplitude.substr(found + 1, 1) == "*") {
+            } else if (found + 1 < amplitude_size && amplitude[found + 1] == '*') {
               std::size_t fo_2 = amplitude.find('[', found + 1);
 
               if (fo_2 != std::string::npos) {
-                // The coefficient ends in front of the sign of the next function
+                // The coefficient ends in front of the signs of the next function
                 std::size_t sign_pos = amplitude.find_last_of(delimiters, fo_2);
 
-                if (sign_pos == found + 1) {
-                  ERROR_MSG("Missing coefficient of function: " + integral);
-                  logger.open("ff_insert.log", std::ios_base::app);
-                  logger << "Missing coefficient of function: " << integral << "\n";
-                  logger.close();
-                  std::exit(EXIT_FAILURE);
-                }
+                while (sign_pos > found + 1 && (amplitude[sign_pos - 1] == '+' || amplitude[sign_pos - 1] == '-'))
+                  --sign_pos;
 
-                coefficient = amplitude.substr(found + 2, sign_pos - (found + 2));
-                found = sign_pos - 1;
+                if (sign_pos > found + 1) {
+                  coefficient = amplitude.substr(found + 2, sign_pos - (found + 2));
+                  found = sign_pos - 1;
+                }
               } else {
                 coefficient = amplitude.substr(found + 2);
               }
-            } else
+
+              if (coefficient.empty())
+                parse_error("Missing coefficient of function: " + integral);
+            } else {
               coefficient = "1";
 
-            if (prefac == "-")
-              parsed_integrals.emplace_back(std::make_pair(integral, prefac + "(" + coefficient + ")"));
+              // Other coefficients than products are found as text in front of the next function
+              if (found + 1 < amplitude_size && amplitude.find('[', found + 1) == std::string::npos)
+                parse_error("Unexpected text behind function: " + amplitude.substr(found + 1));
+            }
+
+            if (std::count(int_fam.begin(), int_fam.begin() + name_pos, '-') % 2 == 1)
+              parsed_integrals.emplace_back(std::make_pair(integral, "-(" + coefficient + ")"));
             else
               parsed_integrals.emplace_back(std::make_pair(integral, coefficient));
           }
@@ -195,6 +213,12 @@ namespace firefly {
         old_pos = found + 1;
         found = amplitude.find(']', found + 1);
       }
+
+      if (parsed_integrals.empty()) {
+        if (amplitude != "0")
+          parse_error("Expression without function: " + amplitude);
+      } else if (amplitude.find('[', old_pos) != std::string::npos)
+        parse_error("Mismatch of opening square brackets: " + amplitude.substr(old_pos));
     } else {
       ERROR_MSG("Expression has no content");
       logger.open("ff_insert.log", std::ios_base::app);
@@ -276,10 +300,10 @@ namespace firefly {
         rhs = ibp_table.substr(old_pos);
         auto repl_lhs = parse_string(lhs, true);
 
-        if (repl_lhs.empty()) {
-          ERROR_MSG("Replacement rule without a function to be replaced: " + lhs);
+        if (repl_lhs.size() != 1 || repl_lhs[0].second != "1") {
+          ERROR_MSG("Replacement rule without a single function to be replaced: " + lhs);
           logger.open("ff_insert.log", std::ios_base::app);
-          logger << "Replacement rule without a function to be replaced: " << lhs << "\n";
+          logger << "Replacement rule without a single function to be replaced: " << lhs << "\n";
           logger.close();
           std::exit(EXIT_FAILURE);
         }
@@ -332,10 +356,10 @@ namespace firefly {
 
       auto repl_lhs = parse_string(lhs, true);
 
-      if (repl_lhs.empty()) {
-        ERROR_MSG("Replacement rule without a function to be replaced: " + lhs);
+      if (repl_lhs.size() != 1 || repl_lhs[0].second != "1") {
+        ERROR_MSG("Replacement rule without a single function to be replaced: " + lhs);
         logger.open("ff_insert.log", std::ios_base::app);
-        logger << "Replacement rule without a function to be replaced: " << lhs << "\n";
+        logger << "Replacement rule without a single function to be replaced: " << lhs << "\n";
         logger.close();
         std::exit(EXIT_FAILURE);
       }
diff --git a/source/include/firefly/AmplitudeParser.hpp b/source/include/firefly/AmplitudeParser.hpp
index 141f57e..6042d87 100644
--- a/source/include/firefly/AmplitudeParser.hpp
+++ b/source/include/firefly/AmplitudeParser.hpp
@@ -104,6 +104,11 @@ namespace firefly {
      * @return a vector of pairs of strings where the first entry is the function and the second the factor
      */
     std::vector<std::pair<std::string, std::string>> parse_string(std::string& amplitude, bool replacement = false);
+    /**
+     * Reports an error and exits
+     * @param message the description of the error
+     */
+    void parse_error(const std::string& message);
     /**
      * Parses a replacement list from a file
      * @param ibp_table the path to a replacement list
-- 
2.43.0


From 8fac9549e9e3abe8dfb0a47e78154e7c9ac5d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 33/57] fix: ff_insert -m joined expressions without leading
 sign to an invalid one

---
 ff_insert.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ff_insert.cpp b/ff_insert.cpp
index b7267a4..4235329 100644
--- a/ff_insert.cpp
+++ b/ff_insert.cpp
@@ -527,12 +527,19 @@ int main(int argc, char* argv[]) {
         line.erase(std::remove(line.begin(), line.end(), '\n'), line.end());
         line.erase(std::remove(line.begin(), line.end(), ';'), line.end());
 
-        if (line[0] == '{')
+        if (!line.empty() && line[0] == '{')
           line.erase(0, 1);
 
-        if (line[line.size() - 1] == '}')
+        if (!line.empty() && line[line.size() - 1] == '}')
           line.erase(line.size() - 1, 1);
 
+        if (line.empty() || line == "0")
+          continue;
+
+        // The expressions are added up
+        if (line[0] != '+' && line[0] != '-')
+          line.insert(0, "+");
+
         ofile << line << "\n";
       }
 
-- 
2.43.0


From ac3698abc7b896ec2d494efb4ef06db8a2f71d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 34/57] fix: ff_insert -s could not handle several expressions
 with the same basis functions

The saved state of one expression was used to resume the others.
---
 ff_insert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ff_insert.cpp b/ff_insert.cpp
index 4235329..5a6c99e 100644
--- a/ff_insert.cpp
+++ b/ff_insert.cpp
@@ -331,7 +331,7 @@ int main(int argc, char* argv[]) {
             bool renamed_ff_save = false;
 
             if (save_mode) {
-              std::string tmp = "ff_save_" + ap.get_master(i);
+              std::string tmp = "ff_save_" + fn + "_" + ap.get_master(i);
               struct stat buffer;
 
               if (stat(tmp.c_str(), &buffer) == 0) {
@@ -368,7 +368,7 @@ int main(int argc, char* argv[]) {
 	    }
 
             if (save_mode) {
-              std::string tmp = "ff_save_" + ap.get_master(i);
+              std::string tmp = "ff_save_" + fn + "_" + ap.get_master(i);
               std::rename("ff_save", tmp.c_str());
 
               if (renamed_ff_save)
-- 
2.43.0


From 8477ad5723572b2a30a36988d5c44e4263767561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 35/57] fix: ff_insert added terms without function to the
 coefficient of the function in front of them

---
 source/AmplitudeParser.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 993403d..7e8e471 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -184,6 +184,21 @@ namespace firefly {
 
               if (coefficient.empty())
                 parse_error("Missing coefficient of function: " + integral);
+
+              // Sums need to be enclosed in parentheses, everything else would be terms without a function
+              int depth = 0;
+
+              for (std::size_t i = 0; i != coefficient.size() && depth >= 0; ++i) {
+                if (coefficient[i] == '(')
+                  ++depth;
+                else if (coefficient[i] == ')')
+                  --depth;
+                else if (depth == 0 && i != 0 && (coefficient[i] == '+' || coefficient[i] == '-') && std::string("*/^").find(coefficient[i - 1]) == std::string::npos)
+                  parse_error("Term without function behind function: " + integral + "*" + coefficient);
+              }
+
+              if (depth != 0)
+                parse_error("Mismatch of parentheses in coefficient of function: " + integral + "*" + coefficient);
             } else {
               coefficient = "1";
 
-- 
2.43.0


From ae29d0716e383c1d41ff836aa03ffa816692dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 36/57] fix: ff_insert accepted an empty file as expression

---
 source/AmplitudeParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 7e8e471..7290393 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -59,6 +59,9 @@ namespace firefly {
     }
 
     infile.close();
+
+    if (counter == 0)
+      parse_error("File '" + amplitude_file + "' is empty");
   }
 
   void AmplitudeParser::parse_amplitude_string(std::string& amplitude_string) {
-- 
2.43.0


From 58fd5c317b0d551656968aff36fa845503418040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 37/57] fix: resuming with incomplete files of the saved state
 read behind vectors

---
 source/include/firefly/Reconstructor.hpp | 32 ++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 035f9e1..6c26868 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -317,6 +317,14 @@ namespace firefly {
      *  Removes all RatReconst from reconst which are flagged as DELETE
      */
     void clean_reconst();
+    /**
+     *  Parses a vector of the saved state and exits with an error if it is incomplete
+     *  @param line the line to be parsed
+     *  @param size the number of entries
+     *  @param name the name of the file
+     *  @return the parsed vector
+     */
+    std::vector<FFInt> parse_saved_vector(std::string& line, uint32_t size, const std::string& name);
     /**
      *  Checks whether there are probes requested and starts the calculation
      */
@@ -510,6 +518,20 @@ namespace firefly {
     tags = tags_;
   }
 
+  template<typename BlackBoxTemp>
+  std::vector<FFInt> Reconstructor<BlackBoxTemp>::parse_saved_vector(std::string& line, uint32_t size, const std::string& name) {
+    std::vector<FFInt> result = parse_vector_FFInt(line);
+
+    if (result.size() != size) {
+      ERROR_MSG(name + " is incomplete!");
+      logger << name << " is incomplete!\n";
+      logger.close();
+      std::exit(EXIT_FAILURE);
+    }
+
+    return result;
+  }
+
   template<typename BlackBoxTemp>
   void Reconstructor<BlackBoxTemp>::resume_from_saved_state() {
     tinydir_dir dir;
@@ -630,7 +652,7 @@ namespace firefly {
     if (v_file.is_open()) {
       if (!precomputed_probes) {
         std::getline(validation_file, line);
-        std::vector<FFInt> values = parse_vector_FFInt(line);
+        std::vector<FFInt> values = parse_saved_vector(line, n, "Validation file");
 
         std::vector<FFInt> result = bb.eval(values);
         size_t counter = 0;
@@ -813,7 +835,7 @@ namespace firefly {
 
       if (anchor_point_file.is_open()) {
         std::getline(anchor_point_file, line);
-        tmp_rec.set_anchor_points(parse_vector_FFInt(line, static_cast<int>(n)));
+        tmp_rec.set_anchor_points(parse_saved_vector(line, n - 1, "Anchor point file"));
 
         const auto tmp_an_vec = tmp_rec.get_anchor_points();
 
@@ -834,7 +856,7 @@ namespace firefly {
 
       if (shift_file.is_open()) {
         std::getline(shift_file, line);
-        tmp_rec.set_shift(parse_vector_FFInt(line, static_cast<int>(n)));
+        tmp_rec.set_shift(parse_saved_vector(line, n, "Shift file"));
         shift = tmp_rec.get_zi_shift_vec();
       } else {
         ERROR_MSG("Shift file not found!");
@@ -2544,7 +2566,7 @@ namespace firefly {
 
           if (anchor_point_file.is_open()) {
             std::getline(anchor_point_file, line);
-            tmp_rec.set_anchor_points(parse_vector_FFInt(line, static_cast<int>(n)));
+            tmp_rec.set_anchor_points(parse_saved_vector(line, n - 1, "Anchor point file"));
             const auto tmp_an_vec = tmp_rec.get_anchor_points();
 
             for (auto & rec : reconst) {
@@ -2564,7 +2586,7 @@ namespace firefly {
 
           if (shift_file.is_open()) {
             std::getline(shift_file, line);
-            tmp_rec.set_shift(parse_vector_FFInt(line, static_cast<int>(n)));
+            tmp_rec.set_shift(parse_saved_vector(line, n, "Shift file"));
           } else {
             logger << "Shift file not found!\n";
             logger.close();
-- 
2.43.0


From 6bdb957a409d8df2fdaa77de21139d0224e9fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 38/57] fix: a saved state with incomplete degrees was read
 behind its vectors

---
 source/RatReconst.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index b2cdf9b..b34cce1 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -2778,6 +2778,11 @@ namespace firefly {
               std::getline(file, line);
               individual_degrees_den = parse_vector_32(line);
 
+              if (individual_degrees_num.size() != n || individual_degrees_den.size() != n) {
+                ERROR_MSG("Incomplete input file '" + file_name + "'! It cannot be used to resume a run. The individual degrees are missing.");
+                std::exit(EXIT_FAILURE);
+              }
+
               is_set_individual_degree_bounds = true;
               individual_degree_bounds = std::vector<std::pair<uint32_t, uint32_t>> (n);
 
@@ -3134,6 +3139,11 @@ namespace firefly {
       file.close();
 
       if (individual_degrees_num.size() != 0) {
+        if (individual_degrees_num.size() != n || individual_degrees_den.size() != n) {
+          ERROR_MSG("Incomplete input file '" + file_name + "'! It cannot be used to resume a run. The individual degrees are missing.");
+          std::exit(EXIT_FAILURE);
+        }
+
         is_set_individual_degree_bounds = true;
         individual_degree_bounds = std::vector<std::pair<uint32_t, uint32_t>> (n);
 
-- 
2.43.0


From 6ee525d2553f8e6ac059b73673779431dfc39fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:15 +0000
Subject: [PATCH 39/57] fix: interpolation objects used without setting a seed
 drew zero for all anchor points

---
 source/BaseReconst.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/BaseReconst.cpp b/source/BaseReconst.cpp
index 206c853..204e30f 100644
--- a/source/BaseReconst.cpp
+++ b/source/BaseReconst.cpp
@@ -24,7 +24,7 @@ namespace firefly {
   uint64_t const BaseReconst::increment  = 1442695040888963407u;
   uint64_t BaseReconst::state = 0x4d595df4d0f33173;
   uint64_t BaseReconst::splitmix64_state = 0x4d595df4d0f33173;
-  uint64_t BaseReconst::s[4];
+  uint64_t BaseReconst::s[4] = {0xc335665929bb880c, 0xe0d4508aad12e0ba, 0xa7c41e90357dd2b9, 0xa2d4eea2fd630473}; // must not be zero if no seed is set
   std::mutex BaseReconst::mutex_state;
 
   BaseReconst::BaseReconst() {}
-- 
2.43.0


From 3fc2cdab5cc06144899eaca2a7d594990f4ddaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 40/57] fix: empty lines in the files with anchor points and
 shifts crashed the stand-alone tool

---
 firefly.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/firefly.cpp b/firefly.cpp
index 318c9a0..bd76fe0 100644
--- a/firefly.cpp
+++ b/firefly.cpp
@@ -59,12 +59,15 @@ std::vector<std::vector<std::uint64_t>> load_points(const std::string& file) {
       std::string delimiter = " ";
       std::vector<uint64_t> tmp {};
 
-      if (line.back() != ' ') {
+      if (line.empty() || line.back() != ' ') {
         line.append(" ");
       }
 
       while ((pos = line.find(delimiter)) != std::string::npos) {
-        tmp.emplace_back(std::stoul(line.substr(0, pos)));
+        if (pos != 0) {
+          tmp.emplace_back(std::stoul(line.substr(0, pos)));
+        }
+
         line.erase(0, pos + 1);
         ++i;
       }
-- 
2.43.0


From 90d4953d91fa303c9b3183e01aac25c4b4d65efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 41/57] fix: precomputed probes of functions in a single
 variable could not be read

---
 source/include/firefly/Reconstructor.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 6c26868..07dbd7a 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3838,7 +3838,8 @@ namespace firefly {
       std::string line;
 
       while (std::getline(gzfile, line)) {
-        std::size_t first_delim = line.find(" | ");
+        // There is no zi_order in front of the first delimiter for a single variable
+        std::size_t first_delim = line.find("| ");
 
         if (first_delim == std::string::npos) {
           WARNING_MSG(file_name + " has a wrong format!");
@@ -3846,8 +3847,8 @@ namespace firefly {
           throw std::runtime_error(file_name + " has a wrong format!");
         }
 
-        std::string zi_order_string = line.substr(0, first_delim + 1);
-        std::string remainder = line.substr(first_delim + 3);
+        std::string zi_order_string = line.substr(0, first_delim);
+        std::string remainder = line.substr(first_delim + 2);
 
         std::size_t second_delim = remainder.find(" | ");
 
@@ -3859,7 +3860,11 @@ namespace firefly {
 
         FFInt t(std::stoul(remainder.substr(0, second_delim)));
 
-        std::vector<uint32_t> zi_order = parse_vector_32(zi_order_string, n - 1);
+        std::vector<uint32_t> zi_order {};
+
+        if (n > 1) {
+          zi_order = parse_vector_32(zi_order_string, n - 1);
+        }
 
         if (zi_order.size() != n - 1) {
           WARNING_MSG(file_name + " has a wrong format!");
-- 
2.43.0


From 67f03fbf3b2bfc38a9401eb9d63f3512b06d85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 42/57] fix: precomputed probes of a saved state or given twice
 were fed twice and requested again

---
 source/include/firefly/Reconstructor.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 07dbd7a..6dd1680 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3889,6 +3889,21 @@ namespace firefly {
 
         probes.shrink_to_fit();
 
+        {
+          std::lock_guard<std::mutex> chosen_lock(chosen_mutex);
+
+          // The probe is part of the saved state or has been given twice
+          if (!chosen_t[zi_order].emplace(t.n).second) {
+            continue;
+          }
+        }
+
+        {
+          std::lock_guard<std::mutex> lock_started(job_control);
+
+          ++started_probes[zi_order];
+        }
+
         computed_probes.emplace(std::make_pair(std::vector<uint64_t> (1, ind), probes));
         index_map.emplace(std::make_pair(ind, std::make_pair(t, zi_order)));
         ++ind;
-- 
2.43.0


From 3fddc95fbb63cb50d640546d963822993388db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 43/57] fix: precomputed probes were loaded after the first
 requests, and a run without them hung

---
 source/include/firefly/Reconstructor.hpp | 63 ++++++++++++++++++++----
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 6dd1680..3b4d421 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2066,12 +2066,21 @@ namespace firefly {
 #ifndef WITH_MPI
     (void) first; // void cast to silence unused parameter warning
 
+    if (precomputed_probes) {
+      load_precomputed_probes_from_file();
+    }
+
     uint32_t to_start = thr_n;//* bunch_size;
     queue_probes(zi_order, to_start);
-    started_probes.emplace(zi_order, to_start);
+    started_probes[zi_order] += to_start;
 
-    if (precomputed_probes) {
-      load_precomputed_probes_from_file();
+    // Without any probe not even the number of functions is known
+    if (precomputed_probes && computed_probes.empty()) {
+      write_requested_probes_to_file();
+      ERROR_MSG("There are no precomputed probes to start with!");
+      logger << "There are no precomputed probes to start with!\n";
+      logger.close();
+      std::exit(EXIT_FAILURE);
     }
 #else
     if (first) {
@@ -2393,6 +2402,10 @@ namespace firefly {
         }
 
 #ifndef WITH_MPI
+        if (precomputed_probes) {
+          load_precomputed_probes_from_file();
+        }
+
         // TODO don't start as much ones
         queue_probes(zi_order, thr_n);//* bunch_size);
         started_probes.at(zi_order) += thr_n;//* bunch_size);
@@ -2692,6 +2705,10 @@ namespace firefly {
         uint32_t to_start = 0;
 
 #ifndef WITH_MPI
+        if (precomputed_probes) {
+          load_precomputed_probes_from_file();
+        }
+
         if (probes_for_next_prime > thr_n /** bunch_size*/) {
           to_start = thr_n /** bunch_size*/;
 
@@ -2727,7 +2744,7 @@ namespace firefly {
 #else
             queue_probes(zi_order, to_start, true);
 #endif
-            started_probes.emplace(zi_order, to_start);
+            started_probes[zi_order] += to_start;
 #ifndef WITH_MPI
           }
         } else {
@@ -2746,15 +2763,11 @@ namespace firefly {
 #else
             queue_probes(zi_order, to_start, true);
 #endif
-            started_probes.emplace(zi_order, to_start);
+            started_probes[zi_order] += to_start;
           }
 
 #ifndef WITH_MPI
         }
-
-        if (precomputed_probes) {
-          load_precomputed_probes_from_file();
-        }
 #else
           cond_val.notify_one();
 
@@ -2777,6 +2790,37 @@ namespace firefly {
         probes_for_next_prime = 0;
       }
 
+      if (precomputed_probes) {
+        bool no_probes = false;
+
+        {
+          std::lock_guard<std::mutex> lock_future(future_control);
+          no_probes = computed_probes.empty();
+        }
+
+        if (no_probes) {
+          // All precomputed probes are fed, i.e. only the running jobs can finish the prime field
+          {
+            std::unique_lock<std::mutex> lock_feed(feed_control);
+
+            condition_feed.wait(lock_feed, [this](){return feed_jobs == 0 && interpolate_jobs == 0;});
+          }
+
+          while (tp.wait());
+
+          if (items_done == items) {
+            done = true;
+          } else if (items_done + items_new_prime == items) {
+            new_prime = true;
+          } else {
+            write_requested_probes_to_file();
+            return;
+          }
+
+          continue;
+        }
+      }
+
       std::vector<uint64_t> indices;
       std::vector<std::vector<FFInt>> probes;
 
@@ -3912,7 +3956,6 @@ namespace firefly {
     } else {
       WARNING_MSG("Cannot find " + file_name + "!");
       logger << "Cannot find " + file_name + "!\n";
-      std::exit(EXIT_FAILURE);
     }
   }
 
-- 
2.43.0


From a49bf5bf7d4041189ba70c5498953a31986570fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 44/57] fix: lock the list of needed probes while it is handed
 out

---
 source/RatReconst.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index b34cce1..f640587 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3663,6 +3663,7 @@ namespace firefly {
   }
 
   std::vector<std::pair<uint32_t, uint32_t>> RatReconst::get_needed_feed_vec() {
+    std::lock_guard<std::mutex> lock(mutex_status);
     std::vector<std::pair<uint32_t, uint32_t>> needed_feed_vec_tmp = std::move(needed_feed_vec);
     needed_feed_vec.clear();
 
-- 
2.43.0


From 8c52e6e453908fa431bee3a268d386b7f32f010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 45/57] fix: do not read the state of a RatReconst while
 another thread interpolates it

---
 source/RatReconst.cpp                    | 5 +++++
 source/include/firefly/Reconstructor.hpp | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index f640587..f9550fa 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3762,6 +3762,11 @@ namespace firefly {
 
   std::pair<std::vector<std::pair<std::vector<uint32_t>, uint32_t>>, uint32_t> RatReconst::get_zi_orders() const {
     std::lock_guard<std::mutex> lock(mutex_status);
+
+    // Another thread is interpolating, hence the members must not be read. It requests the missing probes itself.
+    if (is_interpolating)
+      return std::make_pair(std::vector<std::pair<std::vector<uint32_t>, uint32_t>> (), 0);
+
     uint32_t sub_term = 0;
     if (saved_ti.find(curr_zi_order) != saved_ti.end())
       sub_term = saved_ti.at(curr_zi_order).size();
diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 3b4d421..a362fe1 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3332,7 +3332,7 @@ namespace firefly {
             auto next_orders = next_orders_pair.first;
             uint32_t tmp_system_size = next_orders_pair.second;
 
-            if ((prime_it == 0 || safe_mode == true) && (factor_scan || (next_orders.size() == 1 && next_orders.front().first == std::vector<uint32_t>(n - 1, 1)))) {
+            if (!next_orders.empty() && (prime_it == 0 || safe_mode == true) && (factor_scan || (next_orders.size() == 1 && next_orders.front().first == std::vector<uint32_t>(n - 1, 1)))) {
               std::unique_lock<std::mutex> lock(job_control);
 
               if (balance_of_ones) {
@@ -3709,7 +3709,7 @@ namespace firefly {
                 auto next_orders = next_orders_pair.first;
                 uint32_t tmp_system_size = next_orders_pair.second;
 
-                if ((prime_it == 0 || safe_mode == true) && (factor_scan || (next_orders.size() == 1 && next_orders.front().first == std::vector<uint32_t>(n - 1, 1)))) {
+                if (!next_orders.empty() && (prime_it == 0 || safe_mode == true) && (factor_scan || (next_orders.size() == 1 && next_orders.front().first == std::vector<uint32_t>(n - 1, 1)))) {
                   auto it = started_probes.find(next_orders.front().first);
 
                   if (it == started_probes.end()) {
-- 
2.43.0


From c45480856d5f97f04734389323582282f066c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 46/57] fix: lock the list of reconstruction objects while it
 is filled

---
 source/include/firefly/Reconstructor.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index a362fe1..e49b042 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2285,6 +2285,7 @@ namespace firefly {
         one_done = true;
       }
 
+      std::lock_guard<std::mutex> lock_clean(clean);
       reconst.emplace_back(std::make_tuple(i, status, rec));
     }
 
-- 
2.43.0


From 7e892db1b84b586597d7b6702be101faf2d856be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 47/57] fix: do not read the last element of an empty
 polynomial in Berlekamp-Massey

---
 source/PolyReconst.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PolyReconst.cpp b/source/PolyReconst.cpp
index a935312..e768794 100644
--- a/source/PolyReconst.cpp
+++ b/source/PolyReconst.cpp
@@ -711,7 +711,7 @@ namespace firefly {
     if (delta_r == 0) {
       b[key].insert(b[key].begin(), FFInt(0));
 
-      while (b[key].back() == 0) {
+      while (!b[key].empty() && b[key].back() == 0) {
         b[key].pop_back();
       }
 
@@ -756,7 +756,7 @@ namespace firefly {
         lambda[key].pop_back();
       }
 
-      while (b[key].back() == 0) {
+      while (!b[key].empty() && b[key].back() == 0) {
         b[key].pop_back();
       }
 
-- 
2.43.0


From 2a50a99e91b550043eb7d513f542551b32c66e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 48/57] fix: refuse to resume when state files are missing

---
 source/include/firefly/Reconstructor.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index e49b042..46a6000 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -679,6 +679,13 @@ namespace firefly {
           logger << "Validation failed: Number of entries does not match the black box!\n";
           std::exit(EXIT_FAILURE);
         }
+
+        if (file_paths_.size() != result.size()) {
+          ERROR_MSG("Mismatch in number of state files. Found " + std::to_string(file_paths_.size()) + " files for " + std::to_string(result.size()) + " functions");
+          logger << "Mismatch in number of state files. Found " << std::to_string(file_paths_.size()) << " files for " << std::to_string(result.size()) << " functions\n";
+          logger.close();
+          std::exit(EXIT_FAILURE);
+        }
       } else {
         WARNING_MSG("Validating states is disabled with precomputed probes.");
         logger << "Validating states is disabled with precomputed probes.\n";
-- 
2.43.0


From 014bc512e28cb5961814677f5d549971e9bd4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 49/57] fix: refuse an empty factor file

---
 source/ParserUtils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/ParserUtils.cpp b/source/ParserUtils.cpp
index 9948737..af67d55 100644
--- a/source/ParserUtils.cpp
+++ b/source/ParserUtils.cpp
@@ -198,6 +198,12 @@ namespace firefly {
       std::string fac_path = "ff_save/factors/" + file;
       fac_file.open(fac_path.c_str());
       std::getline(fac_file, line);
+
+      if (line.empty()) {
+        ERROR_MSG("Factor file '" + fac_path + "' is empty!");
+        std::exit(EXIT_FAILURE);
+      }
+
       line.pop_back();
       ShuntingYardParser parser = ShuntingYardParser();
       parser.parse_function(line, fac_vars);
-- 
2.43.0


From cdfa6aac666e9e0a1b976deaad38b91012925bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 50/57] fix: refuse precomputed probes with a wrong number of
 values

---
 source/include/firefly/Reconstructor.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 46a6000..b8c4ecc 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3930,7 +3930,7 @@ namespace firefly {
 
         std::string probe_string = remainder.substr(second_delim + 3);
 
-        if (probe_string.back() != ' ') {
+        if (probe_string.empty() || probe_string.back() != ' ') {
           probe_string.append(" ");
         }
 
@@ -3941,6 +3941,13 @@ namespace firefly {
 
         probes.shrink_to_fit();
 
+        // Every line has to provide one value for each function
+        if ((items != 0 && probes.size() != items) || (!computed_probes.empty() && probes.size() != computed_probes.front().second.size())) {
+          WARNING_MSG(file_name + " has a wrong format!");
+          logger << file_name + " has a wrong format!\n";
+          throw std::runtime_error(file_name + " has a wrong format!");
+        }
+
         {
           std::lock_guard<std::mutex> chosen_lock(chosen_mutex);
 
-- 
2.43.0


From ada682288afe1fafa5028ba1abe3f6ceafa99683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:41 +0000
Subject: [PATCH 51/57] fix: probes of an old prime field were kept as probes
 of the next one after a resume

---
 source/include/firefly/Reconstructor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index b8c4ecc..1542acf 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2479,7 +2479,13 @@ namespace firefly {
           for (uint32_t item = 0; item != items; ++item) {
             std::string probes_file_old = "ff_save/probes/" + std::to_string(item) + "_" + std::to_string(prime_it) + ".gz";
             std::string probes_file_new = "ff_save/probes/" + std::to_string(item) + "_" + std::to_string(prime_it + 1) + ".gz";
-            std::rename(probes_file_old.c_str(), probes_file_new.c_str());
+
+            // An old file is only left if the previous run was interrupted before removing it. Its probes belong to the old prime field.
+            if (std::ifstream(probes_file_old).good()) {
+              ogzstream gzfile(probes_file_old.c_str());
+              gzfile.close();
+              std::rename(probes_file_old.c_str(), probes_file_new.c_str());
+            }
 
             if (prime_it) {
               std::string file_name_old = "ff_save/states/" + std::to_string(item) + "_" + std::to_string(prime_it - 1) + ".gz";
-- 
2.43.0


From 95220762bd08dd9550ef60b91db7eb284c5e4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:41 +0000
Subject: [PATCH 52/57] fix: a probe file that was cut off while it was written
 led to wrong probes in the resumed run

---
 source/RatReconst.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index f9550fa..e16f09a 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3732,8 +3732,16 @@ namespace firefly {
     igzstream file(file_name.c_str());
     auto prime_it = parse_prime_number(file_name);
 
+    bool incomplete = false;
+
     if (!done && prime_it == prime_number) {
       while (std::getline(file, line)) {
+        // The last line is cut off if the previous run was interrupted while writing it
+        if (file.eof()) {
+          incomplete = true;
+          break;
+        }
+
         std::vector<uint32_t> tmp_zi_ord;
 
         if (n > 1)
@@ -3748,9 +3756,24 @@ namespace firefly {
         else
           parsed_probes[tmp_zi_ord].emplace_back(std::make_pair(tmp_probe[0].n, tmp_probe[1].n));
       }
-    }
 
-    file.close();
+      file.close();
+
+      // Nothing can be appended to an incomplete file, i.e. keep only its complete lines
+      if (incomplete || file.bad()) {
+        std::string file_name_tmp = "ff_save/tmp/probe" + file_name.substr(file_name.find_last_of("/") + 1);
+        igzstream file_old(file_name.c_str());
+        ogzstream file_new(file_name_tmp.c_str());
+
+        while (std::getline(file_old, line) && !file_old.eof()) {
+          file_new << line << "\n";
+        }
+
+        file_old.close();
+        file_new.close();
+        std::rename(file_name_tmp.c_str(), file_name.c_str());
+      }
+    }
 
     return tmp;
   }
-- 
2.43.0


From 6f14e37cb1babc2803c398c565683b474d152509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 53/57] fix: lock the number of started probes when a resumed
 run starts

---
 source/include/firefly/Reconstructor.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 1542acf..8ad0d09 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2415,8 +2415,14 @@ namespace firefly {
         }
 
         // TODO don't start as much ones
+        {
+          // The jobs started above request probes, too
+          std::lock_guard<std::mutex> lock(job_control);
+
+          started_probes.at(zi_order) += thr_n;//* bunch_size);
+        }
+
         queue_probes(zi_order, thr_n);//* bunch_size);
-        started_probes.at(zi_order) += thr_n;//* bunch_size);
 #else
         // TODO optimize
         send_first_jobs();
@@ -2435,8 +2441,13 @@ namespace firefly {
 
         uint32_t to_start = thr_n;//* bunch_size; // TODO
 
+        {
+          std::lock_guard<std::mutex> lock(job_control);
+
+          started_probes[zi_order] += to_start;
+        }
+
         queue_probes(zi_order, to_start);
-        started_probes[zi_order] += to_start;
 
 #endif
       } else {
-- 
2.43.0


From 447fd3583acf266815ab924bd49e236cd6ff584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 54/57] fix: convert_to_sy.sh failed for file names with blanks
 or wildcards

---
 mma_2_ff/convert_to_sy.sh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mma_2_ff/convert_to_sy.sh b/mma_2_ff/convert_to_sy.sh
index b52f913..f2d7a9d 100755
--- a/mma_2_ff/convert_to_sy.sh
+++ b/mma_2_ff/convert_to_sy.sh
@@ -24,12 +24,12 @@ file_c="$file$suff"
 
 echo "Converting $file to $file_c."
 
-cp $file $file_c
+cp -- "$file" "$file_c"
 
-#tr -d '' < $file >  $file_c
+#tr -d '' < "$file" >  "$file_c"
 
-sed -i 's/"//g' $file_c
-sed -i 's/{//g' $file_c
-sed -i 's/}/;/g' $file_c
-sed -i 's/\\//g' $file_c
-sed -i 's/,/;\n/g' $file_c
+sed -i 's/"//g' -- "$file_c"
+sed -i 's/{//g' -- "$file_c"
+sed -i 's/}/;/g' -- "$file_c"
+sed -i 's/\\//g' -- "$file_c"
+sed -i 's/,/;\n/g' -- "$file_c"
-- 
2.43.0


From 324fcaf9cc9cd653b48951d20c43ca85fb23aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 55/57] fix: data race between the feed and the interpolation
 of probes read from a probe file

---
 source/RatReconst.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index e16f09a..f0ca8a1 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3759,6 +3759,12 @@ namespace firefly {
 
       file.close();
 
+      // The probes of the first prime field are interpolated without waiting for another feed
+      if (!queue.empty()) {
+        first_feed = false;
+        start = std::chrono::high_resolution_clock::now();
+      }
+
       // Nothing can be appended to an incomplete file, i.e. keep only its complete lines
       if (incomplete || file.bad()) {
         std::string file_name_tmp = "ff_save/tmp/probe" + file_name.substr(file_name.find_last_of("/") + 1);
-- 
2.43.0


From a617651a20af62bd2b1240af1a8d2d4f90c85c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:37 +0000
Subject: [PATCH 56/57] fix: probes of a resumed run were queued without a lock

---
 source/RatReconst.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index f0ca8a1..42cd862 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3610,6 +3610,9 @@ namespace firefly {
     needed_feed_vec.swap(needed_feed_vec_tmp);
 
     if (from_save_state) {
+      // Other threads may already feed this object
+      std::lock_guard<std::mutex> lock(mutex_status);
+
       from_save_state = false;
 
       if (prime_number < interpolations) {
-- 
2.43.0


From 94c106d579c23d29e2e3cdd37d339a9ca3bb7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:33 +0000
Subject: [PATCH 57/57] fix: precomputed probes were loaded while jobs of a
 resumed run requested probes

---
 source/include/firefly/Reconstructor.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 8ad0d09..bafe2e4 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2385,6 +2385,13 @@ namespace firefly {
         logger << "Resuming in prime field: F(" << std::to_string(primes()[prime_it]) << ")\n";
         INFO_MSG("Resuming in prime field: F(" + std::to_string(primes()[prime_it]) + ")");
 
+#ifndef WITH_MPI
+        // The jobs started below request probes
+        if (precomputed_probes) {
+          load_precomputed_probes_from_file();
+        }
+#endif
+
         {
           std::lock_guard<std::mutex> lock_status(feed_control);
 
@@ -2410,10 +2417,6 @@ namespace firefly {
         }
 
 #ifndef WITH_MPI
-        if (precomputed_probes) {
-          load_precomputed_probes_from_file();
-        }
-
         // TODO don't start as much ones
         {
           // The jobs started above request probes, too
-- 
2.43.0

