From d8663ca2ef3bccc5ee898f8a334dc5262cab78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 01/18] fix: visit the missing off-diagonal hessian elements
 too

ConstHessIt with skipzero == false skipped the elements not stored, so a
nonlinear function of a sum (say exp(a + b)) lost its mixed derivatives.
---
 uncertainties/internal/hessgrad.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..16cbc71 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,6 +451,19 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
+                    if (not skipmissing) {
+                        // visit all the upper triangle, stored or not
+                        ++diagmax;
+                        if (diagmax == diagend) {
+                            ++diagmin;
+                            diagmax = diagmin;
+                        }
+                        if (diagmax != diagend) {
+                            const IdPair id {diagmin->first, diagmax->first};
+                            for (; tri != triend && tri->first < id; ++tri) ;
+                        }
+                        return;
+                    }
                     if (diagmin == diagmax) {
                         ++diagmax;
                     } else {
@@ -461,7 +474,7 @@ namespace uncertainties {
                     if (tri == triend || tri->first.first > diagmin->first) {
                         ++diagmin;
                         diagmax = diagmin;
-                    } else if (skipmissing) {
+                    } else {
                         for (; diagmax != diagend && diagmax->first < tri->first.second; ++diagmax) ;
                         assert(diagmax != diagend && diagmax->first == tri->first.second);
                     }
-- 
2.43.0


From 6a84243af05fa3cf16865d5372b07950ee16af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 02/18] fix: UReal::grad returned 0 for independent variables

An independent variable keeps its coefficient in sdev, not in the map.
---
 uncertainties/ureal.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..1066b42 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -582,9 +582,11 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
-            if (it != this->sigma.end()) {
-                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+            if (this->id == xid) {
+                return this->sdev / xg;
+            } else if (it != this->sigma.end()) {
                 return it->second / xg;
             } else {
                 return 0;
-- 
2.43.0


From 5129abc0f286732341a1eb9207f2b58a91b92d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 03/18] fix: sign of the derivatives of atan2 for UReal

---
 uncertainties/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..a7405bf 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,9 +171,9 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
+        const Real ixxyy = Real(1) / (x.n() * x.n() + y.n() * y.n());
+        const Real dx = y.n() * ixxyy;
+        const Real dy = -x.n() * ixxyy;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
-- 
2.43.0


From 009638d39d13467193d3df460f45f6fc9b0ffb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 04/18] fix: derivative of cbrt for UReal was nan at negative
 arguments

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index a7405bf..873c435 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real cbrtx = cbrt(x.n());
+        return unary(x, cbrtx, Real(1) / (3 * cbrtx * cbrtx));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From e9e3c2ac07380bcd67d044664a24c89182147d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 05/18] fix: do not run out of independent variable ids

With a 32 bit Id, after 2^31 variables the ids were negative, which silently
removed the uncertainty of the new variables, and then repeated.
---
 uncertainties/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.hpp b/uncertainties/core.hpp
index 196a4ae..0aceb29 100644
--- a/uncertainties/core.hpp
+++ b/uncertainties/core.hpp
@@ -32,7 +32,7 @@ namespace uncertainties {
     /*!
     \brief Type of independent variables ids.
     */
-    using Id = int; // must be signed
+    using Id = long long; // must be signed, and too wide to be exhausted
     
     /*!
     \brief Constant returned by `UReal::indepid` if the variable is dependent.
-- 
2.43.0


From 80956db02f0bb5ba179ea1b496e44c1c29e006c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 06/18] fix: make copy assignment all or nothing

If the copy of the coefficients ran out of memory, the assigned variable was
left with the mean of one operand and the coefficients of the other (UReal),
or with inconsistent gradient and hessian (UReal2).
---
 uncertainties/internal/hessgrad.hpp | 10 ++++++++++
 uncertainties/ureal.hpp             |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 16cbc71..c996aa2 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -134,6 +134,16 @@ namespace uncertainties {
             // definition because yes the compiler said to do so.
         
         public:
+            // The copy assignment makes the copy first, so that if it fails
+            // for lack of memory the two maps remain consistent.
+            HessGrad() = default;
+            HessGrad(const HessGrad<Real> &) = default;
+            HessGrad(HessGrad<Real> &&) = default;
+            HessGrad<Real> &operator=(HessGrad<Real> &&) = default;
+            HessGrad<Real> &operator=(const HessGrad<Real> &hg) {
+                return *this = HessGrad<Real>(hg);
+            }
+            
             // Return number of variables stored. We just need to check the
             // size of the diagmap because, since it contains the moments, there
             // must be an entry even if gradient and hessian diagonal are zero
diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 1066b42..e5d3251 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -372,6 +372,15 @@ namespace uncertainties {
             ;
         }
         
+        // The copy assignment makes the copy first, so that if it fails for lack
+        // of memory the variable is not left half assigned.
+        UReal(const UReal<Real> &) = default;
+        UReal(UReal<Real> &&) = default;
+        UReal<Real> &operator=(UReal<Real> &&) = default;
+        UReal<Real> &operator=(const UReal<Real> &x) {
+            return *this = UReal<Real>(x);
+        }
+        
         /*!
         \brief Return true if the variable is independent.
         
-- 
2.43.0


From 91e45c4bd9c8212fe2b5ccdf9f70454589b8dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 07/18] fix: make compound assignment all or nothing

If x op= y ran out of memory, x was left with its old mean, part of the
coefficients of y already merged, and a standard deviation matching neither.
---
 uncertainties/ureal.hpp | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index e5d3251..0f770a2 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -25,6 +25,7 @@
 */
 
 #include <map>
+#include <vector>
 #include <string>
 #include <stdexcept>
 #include <cmath>
@@ -761,17 +762,52 @@ namespace uncertainties {
                     this->sdev *= d;
                 }
             } else {
+                // Insert the missing ids before changing anything else: it is
+                // what can run out of memory, and in that case the variable
+                // has to be left as it was.
+                using MapIt = typename std::map<Id, Real>::iterator;
+                std::map<Id, Real> own;
+                std::map<Id, Real> &sigma = this->id < 0 ? this->sigma : own;
                 if (this->id > 0) {
-                    this->sigma[this->id] = this->sdev;
+                    own[this->id] = this->sdev;
+                }
+                std::vector<MapIt> added;
+                added.reserve(x.id < 0 ? x.sigma.size() : 0);
+                bool newid = false;
+                if (x.id > 0) {
+                    newid = sigma.insert({x.id, Real(0)}).second;
+                } else if (x.id < 0) {
+                    try {
+                        for (const auto &it : x.sigma) {
+                            const auto ins = sigma.insert({it.first, Real(0)});
+                            if (ins.second) {
+                                added.push_back(ins.first);
+                            }
+                        }
+                    } catch (...) {
+                        for (const MapIt &it : added) {
+                            sigma.erase(it);
+                        }
+                        throw;
+                    }
+                }
+                if (this->id >= 0) {
+                    this->sigma.swap(own);
                 }
                 this->id = invalid_id;
                 if (dt != 1) {
                     for (auto &it : this->sigma) {
                         it.second *= dt;
                     }
+                    // the new ids have no contribution from this variable,
+                    // even if dt is not finite
+                    for (const MapIt &it : added) {
+                        it->second = 0;
+                    }
                 }
                 if (x.id > 0) {
-                    this->sigma[x.id] += dx * x.sdev;
+                    Real &s = this->sigma[x.id];
+                    s = newid ? dx * x.sdev : s + dx * x.sdev;
                 } else if (x.id < 0) {
                     for (const auto &it : x.sigma) {
                         this->sigma[it.first] += dx * it.second;
-- 
2.43.0


From aa9c2bb5e4e38da09d4fe5a3b57475002cbb8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 08/18] fix: finish UReal2 binary_assign

It added the result to x instead of storing it in x, and read the elements of x
it had already modified.
---
 uncertainties/ureal2.hpp | 77 ++--------------------------------------
 1 file changed, 3 insertions(+), 74 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 62af817..9d122ac 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -909,80 +909,9 @@ namespace uncertainties {
             const Real &dfdx, const Real &dfdy,
             const Real &ddfdxdx, const Real &ddfdydy, const Real &ddfdxdy
         ) {
-            // THIS FUNCTION IS NOT FINISHED! It modifies x and then reads
-            // it again... how do I do this?
-            // O(n) fix: the first part walks in order the hessian. It never
-            // happens that a hessian element is required to compute the hessian
-            // element at a different coordinate. So I can save x's gradient
-            // beforehand in an array.
-            
-            x.mu = fxy;
-
-            constexpr Id maxid = std::numeric_limits<Id>::max();
-            const std::pair<Id, Id> pmaxid {maxid, maxid};
-
-            const Real hddfdxdx = ddfdxdx / 2;
-            const Real hddfdydy = ddfdydy / 2;
-            const Real hddfdxdy = ddfdxdy / 2;
-        
-            ConstHessIt itx = x.hg.chbegin(hddfdxdx == 0);
-            const ConstHessIt xend = x.hg.chend();
-            ConstHessIt ity = y.hg.chbegin(hddfdydy == 0);
-            const ConstHessIt yend = y.hg.chend();
-            
-            while (itx != xend or ity != yend) {
-                const std::pair<Id, Id> idx = itx != xend ? std::make_pair(itx.id1(), itx.id2()) : pmaxid;
-                const std::pair<Id, Id> idy = ity != yend ? std::make_pair(ity.id1(), ity.id2()) : pmaxid;
-                
-                Real *hhess;
-                Diag *diag;
-                
-                if (idx <= idy) {
-                    hhess = &x.hg.hhess(idx.first, idx.second);
-                    *hhess += hddfdxdx * itx.diag1().grad * itx.diag2().grad;
-                    *hhess += dfdx * (*itx);
-                    if (idx.first == idx.second) {
-                        diag = &x.hg.diag(idx.first);
-                        diag->mom = itx.diag1().mom;
-                        diag->grad += dfdx * itx.diag1().grad;
-                    }
-                }
-                
-                if (idy <= idx) {
-                    if (idx != idy) {
-                        hhess = &x.hg.hhess(idy.first, idy.second);
-                        if (idy.first == idy.second) {
-                            diag = &x.hg.diag(idy.first);
-                            diag->mom = ity.diag1().mom;
-                        }
-                    }
-                    *hhess += hddfdydy * ity.diag1().grad * ity.diag2().grad;
-                    *hhess += dfdy * (*ity);
-                    if (idy.first == idy.second) {
-                        diag->grad += dfdy * ity.diag1().grad;
-                    }
-                }
-                
-                if (idx <= idy) ++itx;
-                if (idy <= idx) ++ity;
-            }
-            
-            // I shall consider the following code a very inefficient patch.
-            if (hddfdxdy != 0) {
-                const ConstDiagIt end = x.hg.cdend();
-                ConstDiagIt iti, itj;
-                for (iti = x.hg.cdbegin(); iti != end; ++iti) {
-                    for (itj = iti; itj != end; ++itj) {
-                        const Id idi = iti->first;
-                        const Id idj = itj->first;
-                        const Real &dix = x.hg.diag_get(idi).grad;
-                        const Real &djx = x.hg.diag_get(idj).grad;
-                        const Real &diy = y.hg.diag_get(idi).grad;
-                        const Real &djy = y.hg.diag_get(idj).grad;
-                        x.hg.hhess(idi, idj) += hddfdxdy * (dix * djy + djx * diy);
-                    }
-                }
-            }
+            // The hessian can not be updated in place in a simple way, because
+            // the gradient of x is needed until the end.
+            x = binary(x, y, fxy, dfdx, dfdy, ddfdxdx, ddfdydy, ddfdxdy);
         }
         
         friend inline const UReal2<Real, prop> &
-- 
2.43.0


From 82a981b5b856f447846d4d02adf91f00ff4e0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 09/18] fix: do not declare noexcept what computes with the
 numerical type

The moments of UReal2 are computed with arithmetic on Real, which may be a user
type that throws: the exception terminated the program.
---
 uncertainties/core.hpp   |  2 +-
 uncertainties/ureal2.hpp | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/uncertainties/core.hpp b/uncertainties/core.hpp
index 0aceb29..bd26769 100644
--- a/uncertainties/core.hpp
+++ b/uncertainties/core.hpp
@@ -71,7 +71,7 @@ namespace uncertainties {
     \brief For a normal number, `sdev` returns 0.
     */
     template<typename Number>
-    inline Number sdev(const Number &x) noexcept {
+    inline Number sdev(const Number &x) {
         return 0;
     }
     
diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 9d122ac..5bbe551 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -54,7 +54,7 @@ namespace uncertainties {
         template<typename Real>
         void update_mom(std::array<Real, 4> &mom,
                         const int i,
-                        const HessGrad<Real> &hg) noexcept {
+                        const HessGrad<Real> &hg) {
             assert(i >= 0 and i <= 3);
             const Real &m1 = mom[0];
             const Real &m2 = mom[1];
@@ -569,7 +569,7 @@ namespace uncertainties {
         /*!
         \brief Construct a variable with mean `n` and all central moments 0.
         */
-        inline UReal2(const Real &n) noexcept:
+        inline UReal2(const Real &n):
         mu {n} {
             ;
         }
@@ -577,7 +577,7 @@ namespace uncertainties {
         /*!
         \brief Construct a variable with all moments zero.
         */
-        inline UReal2() noexcept {
+        inline UReal2() {
             ;
         }
         
@@ -616,14 +616,14 @@ namespace uncertainties {
         \brief Compute the mean if `prop == Prop::mean`, the unbiased estimate
         if `prop == Prop::est`.
         */
-        Real n() const noexcept {
+        Real n() const {
             return this->mu + internal::propsign(prop) * this->m(1);
         }
         
         /*!
         \brief Compute the stadard deviation.
         */
-        Real s() const noexcept {
+        Real s() const {
             using std::sqrt;
             return sqrt(this->m(2));
         }
@@ -631,14 +631,14 @@ namespace uncertainties {
         /*!
         \brief Compute the skewness.
         */
-        Real skew() const noexcept {
+        Real skew() const {
             return this->m(3) / (this->s() * this->m(2));
         }
         
         /*!
         \brief Compute the kurtosis.
         */
-        Real kurt() const noexcept {
+        Real kurt() const {
             const Real s2 = this->m(2);
             return this->m(4) / (s2 * s2);
         }
@@ -701,21 +701,21 @@ namespace uncertainties {
         /*!
         \brief Compute the variance.
         */
-        inline friend Real var(const UReal2<Real, prop> &x) noexcept {
+        inline friend Real var(const UReal2<Real, prop> &x) {
             return x.m(2);
         }
         
         /*!
         \brief Compute the covariance.
         */
-        inline friend Real cov(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) noexcept {
+        inline friend Real cov(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
             return internal::compute_c2(x.hg, y.hg) - x.m(1) * y.m(1);
         }
         
         /*!
         \brief Compute the correlation.
         */
-        inline friend Real corr(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) noexcept {
+        inline friend Real corr(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
             return cov(x, y) / (x.s() * y.s());
         }
         
@@ -998,7 +998,7 @@ namespace uncertainties {
     \brief Return `x.n()`.
     */
     template<typename Real, Prop prop>
-    inline Real nom(const UReal2<Real, prop> &x) noexcept {
+    inline Real nom(const UReal2<Real, prop> &x) {
         return x.n();
     }
 
@@ -1006,7 +1006,7 @@ namespace uncertainties {
     \brief Return `x.s()`.
     */
     template<typename Real, Prop prop>
-    inline Real sdev(const UReal2<Real, prop> &x) noexcept {
+    inline Real sdev(const UReal2<Real, prop> &x) {
         return x.s();
     }
 
-- 
2.43.0


From 6ac998b0fedf7d1dd1d05960e83c1def5b71cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 10/18] fix: isfinite and isnormal of UReal2 did not compile

all is a friend function, not a member.
---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 873c435..650416a 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -534,7 +534,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -542,7 +542,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From 9ca9171b9bfe360c6601667bac4a8bba43490ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 11/18] fix: io.hpp did not compile if included after math.hpp

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..d048224 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -99,11 +99,11 @@ namespace uncertainties {
         int ndigits(Real *const x, const float n) {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
+            using std::pow;
             const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From 6629596e571b034095d2af4417f1a385d4422d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 12/18] fix: ureals throws if the covariance matrix contains
 NaNs

---
 uncertainties/ureals.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uncertainties/ureals.hpp b/uncertainties/ureals.hpp
index 2ce5be6..0fefca2 100644
--- a/uncertainties/ureals.hpp
+++ b/uncertainties/ureals.hpp
@@ -32,7 +32,6 @@ this header.
 #include <cmath>
 #include <string>
 #include <sstream>
-#include <cassert>
 
 #include <Eigen/Dense>
 
@@ -113,7 +112,11 @@ namespace uncertainties {
         OutVector x;
         for (std::size_t i = 0; i < n; ++i) {
             const Real &v = D(i);
-            assert(v >= 0);
+            if (not (v >= 0)) { // isPositive() does not detect NaNs
+                throw std::runtime_error(
+                    "uncertainties::ureals: covariance matrix contains NaNs"
+                );
+            }
             using std::sqrt;
             x.emplace_back(0, sqrt(v));
         }
-- 
2.43.0


From dc3261132cbab7c38eb991c1e1e1cf5809de98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 13/18] fix: corr2cov size check when the square of the size
 overflows

---
 uncertainties/stat.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/stat.hpp b/uncertainties/stat.hpp
index 1fb13bc..0606036 100644
--- a/uncertainties/stat.hpp
+++ b/uncertainties/stat.hpp
@@ -186,7 +186,8 @@ namespace uncertainties {
     OutVector corr2cov(const InVectorA &sigma, const InVectorB &corr) {
         using Index = typename InVectorB::size_type;
         const Index n = sigma.size();
-        if (corr.size() != n * n) {
+        // n * n may overflow
+        if (n != 0 ? corr.size() % n != 0 or corr.size() / n != n : corr.size() != 0) {
             throw std::invalid_argument(
                 "uncertainties::corr2cov: vector size " + std::to_string(n) +
                 " not compatible with matrix buffer size "
-- 
2.43.0


From 9b36195dd84b6391ca3a4ec0263926f88fe98242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 14/18] fix: constants of HessGrad could be used before their
 initialization

---
 uncertainties/internal/hessgrad.hpp | 40 +++++++++++++++--------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index c996aa2..2b9c490 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -128,10 +128,18 @@ namespace uncertainties {
             // is just necessary to iterate over gradient, hessian diagonal and
             // moments, without looking at out of diagonal hessian.
             
-            static const Real zero;
-            static const Diag zerodiag;
-            // These two variables get their initialization out of the class
-            // definition because yes the compiler said to do so.
+            // These two constants are local to functions such that they are
+            // initialized the first time they are used, which can happen in
+            // the initialization of a static variable. Constructing a Real may
+            // throw, so what calls these functions is not noexcept.
+            static const Real &zero() {
+                static const Real z {0};
+                return z;
+            }
+            static const Diag &zerodiag() {
+                static const Diag z;
+                return z;
+            }
         
         public:
             // The copy assignment makes the copy first, so that if it fails
@@ -169,13 +177,13 @@ namespace uncertainties {
             // entries. The gradient and half hessian are zero, but the moments
             // may not since we assume that they would be multiplied by the
             // derivatives anyway.
-            const Diag &diag_get(const Id id) const noexcept {
+            const Diag &diag_get(const Id id) const {
                 using It = typename std::map<Id, Diag>::const_iterator;
                 const It it = diagmap.find(id);
                 if (it != diagmap.end()) {
                     return it->second;
                 } else {
-                    return zerodiag;
+                    return zerodiag();
                 }
             }
             
@@ -195,14 +203,14 @@ namespace uncertainties {
 
             // Like above, but for missing variable zero is returned instead
             // of adding the variable or throwing an exception.
-            const Real &tri_get(const Id minid, const Id maxid) const noexcept {
+            const Real &tri_get(const Id minid, const Id maxid) const {
                 assert(minid < maxid);
                 using It = typename std::map<IdPair, Real>::const_iterator;
                 const It it = trimap.find({minid, maxid});
                 if (it != trimap.end()) {
                     return it->second;
                 } else {
-                    return zero;
+                    return zero();
                 }
             }
             
@@ -232,7 +240,7 @@ namespace uncertainties {
             
             // Return half hessian element. IDs need not be sorted. If the
             // element is missing, zero is returned.
-            inline const Real &hhess_get(const Id id1, const Id id2) const noexcept {
+            inline const Real &hhess_get(const Id id1, const Id id2) const {
                 return id1 != id2 ? this->tri_get(std::min(id1, id2), std::max(id1, id2)) : this->diag_get(id1).hhess;
             }
             
@@ -351,7 +359,7 @@ namespace uncertainties {
                 
                 // Access the iterator, returning the out of diagonal half
                 // hessian.
-                const Real &operator*() const noexcept {
+                const Real &operator*() const {
                     if (skipmissing) {
                         assert(tri != triend);
                         return tri->second;
@@ -361,7 +369,7 @@ namespace uncertainties {
                         if (tri != triend && tri->first == id) {
                             return tri->second;
                         } else {
-                            return zero;
+                            return zero();
                         }
                     }
                 }
@@ -491,7 +499,7 @@ namespace uncertainties {
                     assert(diagmax != diagend or diagmin == diagend);
                 }
                 
-                const Real &operator*() const noexcept {
+                const Real &operator*() const {
                     assert(diagmin != diagend and diagmax != diagend);
                     assert(diagmin == diagmax or not skipmissing or tri != triend);
                     if (diagmin == diagmax) {
@@ -501,7 +509,7 @@ namespace uncertainties {
                     } else if (tri != triend && tri->first == IdPair {diagmin->first, diagmax->first}) {
                         return tri->second;
                     } else {
-                        return zero;
+                        return zero();
                     }
                 }
                 
@@ -567,12 +575,6 @@ namespace uncertainties {
                 return hg;
             }
         };
-        
-        template<typename Real>
-        const Real HessGrad<Real>::zero {0};
-    
-        template<typename Real>
-        const typename HessGrad<Real>::Diag HessGrad<Real>::zerodiag;
     }
 }
 
-- 
2.43.0


From 53232eb312727e421a8730495258868cd229039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 15/18] fix: format: uncertainty multiplied by a power of ten
 when rounding changes the number of digits

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index d048224..334cfb8 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -100,7 +100,7 @@ namespace uncertainties {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
             using std::pow;
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-- 
2.43.0


From a7dd6462a82b3f0184948ce5a774843388bbc097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 16/18] fix: format: mean rounded up to a power of ten lost a
 digit, changing its value or alignment

---
 uncertainties/io.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 334cfb8..79635e6 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -165,8 +165,15 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int mutruncexp = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp > mutruncexp) {
+            // rounded up to a power of ten: one more digit is needed to align
+            // the mean with the standard deviation
+            mumant.push_back('0');
+            ++mundig;
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From 41f59a19bf3c3a232cdc976dd4b054339beb9924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 17/18] fix: format: the sign of a negative mean with zero or
 infinite uncertainty was not written

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 79635e6..5cfa36a 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -143,7 +143,7 @@ namespace uncertainties {
             } else {
                 insert_dot(&m, n, e);
             }
-            return m;
+            return x < 0 ? "-" + m : m;
         }
     }
     
-- 
2.43.0


From 73494e937454273d030051037ef36fa844a2cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 18/18] fix: derivatives of pow were nan for a base with zero
 mean

---
 uncertainties/math.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 650416a..ef3ef26 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -113,8 +113,15 @@ namespace uncertainties {
     UReal<Real> pow(const UReal<Real> &x, const UReal<Real> &y) {
         using std::pow;
         using std::log;
-        const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        const Real &xn = x.n();
+        const Real &yn = y.n();
+        const Real p = pow(xn, yn);
+        // do not divide by xn, it may be zero
+        Real dpdx = 0;
+        if (yn != 0) {
+            dpdx = yn * pow(xn, yn - 1);
+        }
+        return binary(x, y, p, dpdx, p * log(xn));
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -347,16 +354,23 @@ namespace uncertainties {
         const Real &yn = y.first_order_n();
         const Real x2y = pow(xn, yn);
         const Real logx = log(xn);
-        const Real ix = 1 / xn;
-        const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
         const Real x2ylogx = x2y * logx;
+        // do not divide by xn, it may be zero
+        const Real x2ym1 = pow(xn, yn - 1);
+        Real dx = 0;
+        Real ddxdx = 0;
+        if (yn != 0) {
+            dx = yn * x2ym1;
+            if (yn != 1) {
+                ddxdx = yn * (yn - 1) * pow(xn, yn - 2);
+            }
+        }
         return binary(x, y, x2y,
-                      x2yixy,
+                      dx,
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
+                      ddxdx,
                       x2ylogx * logx,
-                      x2yix + x2yixy * logx);
+                      x2ym1 * (1 + yn * logx));
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> sqrt(const UReal2<Real, prop> &x) {
-- 
2.43.0

