From e68cabb9b3de1af961e5b5ed1ba09d550713a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:37 +0000
Subject: [PATCH 01/32] fix: Gregorian century correction in Date_(y,m,d), off
 by one day from 2034-03-01

---
 dal/time/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/date.cpp b/dal/time/date.cpp
index 2e944e0..ce39d71 100644
--- a/dal/time/date.cpp
+++ b/dal/time/date.cpp
@@ -30,7 +30,7 @@ namespace Dal {
             // based on Vogelpoel's port of now-lost pseudocode
             // ignore Excel bug around 29 Feb 1900 -- dates before then will be wrong
             return (1461 * (yy + (mm - 14) / 12)) / 4 + (367 * (mm - 2 - 12 * ((mm - 14) / 12))) / 12 -
-                   (3 * ((yy + 4900 + (mm - 14) / 12)) / 100) / 4 + dd - 693894;
+                   (3 * ((yy + 4900 + (mm - 14) / 12) / 100)) / 4 + dd - 693894;
         }
 
         uint16_t SerialFromYMD(int yy, int mm, int dd) {
-- 
2.43.0


From 61cefde910d24a3c3bc89a34c46b503e9fb34890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 02/32] fix: ACT/365L year search never advanced past the first
 non-leap year (endless loop)

---
 dal/time/daybasis.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 10b4a27..e706086 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -22,12 +22,11 @@ namespace Dal {
         }
 
         double AnnualDaysL(const Date_& from, const Date_& to) {
-            int mm = Date::Month(from.AddDays(1));
+            const int mm = Date::Month(from.AddDays(1));
             int yy = Date::Year(from.AddDays(1));
-            for (;;) {
-                if (mm > 2)
-                    ++yy;
-                mm = 2;
+            if (mm > 2)
+                ++yy;
+            for (;; ++yy) {
                 if (Date_(yy, 3, 1) > to)
                     return 365.0;
                 if (Date::DaysInMonth(yy, 2) == 29)
-- 
2.43.0


From 62c88273b34b61386101897e0f60876342750d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 03/32] fix: 30/360 day count left the 31st unadjusted

---
 dal/time/daybasis.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index e706086..29ea580 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -56,7 +56,8 @@ namespace Dal {
                     d2 = 30;
                 d1 = 30;
             }
-            if (d1 > 30)
+            d1 = std::min<short>(d1, 30);
+            if (d1 == 30)
                 d2 = std::min(d1, d2);
             return (360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1)) / 360.0;
         }
-- 
2.43.0


From 281ac0dec7a7afd0042f1e05a16e0d6776ea3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 04/32] fix: quarterly IMM and CDS steps could land in a
 non-quarterly month

---
 dal/time/dateincrement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateincrement.cpp b/dal/time/dateincrement.cpp
index 3b75d5d..6f585a1 100644
--- a/dal/time/dateincrement.cpp
+++ b/dal/time/dateincrement.cpp
@@ -59,7 +59,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= 20 : dd <= 20) {
+        if (mm % 3 || (forward ? dd >= 20 : dd <= 20)) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % 3);
@@ -75,7 +75,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm)) {
+        if (mm % imm_months || (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm))) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % imm_months);
-- 
2.43.0


From f6189640688589d058d1b35a8e31dc0c6d2f6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:49 +0000
Subject: [PATCH 05/32] fix: time-of-day and millisecond accessors truncated
 binary fractions one unit short

---
 dal/time/datetime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/time/datetime.cpp b/dal/time/datetime.cpp
index b9b096e..307e201 100644
--- a/dal/time/datetime.cpp
+++ b/dal/time/datetime.cpp
@@ -10,9 +10,11 @@ namespace Dal {
 
     namespace {
         void FracToHMS(double frac, int* h, int* m, int* s) {
-            ASSIGN(h, static_cast<int>(24 * frac));
-            ASSIGN(m, static_cast<int>(1440 * frac) % 60);
-            ASSIGN(s, static_cast<int>(86400 * frac) % 60);
+            // whole seconds are not exact as a binary fraction of a day: absorb the rounding before truncating
+            const int secs = std::min(static_cast<int>(86400 * frac + 1.0e-6), 86399);
+            ASSIGN(h, secs / 3600);
+            ASSIGN(m, secs / 60 % 60);
+            ASSIGN(s, secs % 60);
         }
     } // namespace
 
@@ -83,7 +85,7 @@ namespace Dal {
 
         long long MSec(const DateTime_& dt) {
             long long days = dt.Date() - Date::Minimum();
-            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000);
+            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000 + 1.0e-3);
         }
     } // namespace DateTime
 } // namespace Dal
-- 
2.43.0


From 0b0ad7b01100ab13003babccb65c5d640c2110e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:50 +0000
Subject: [PATCH 06/32] fix: iteration over a tape stops at the end of an
 exactly full block

Incrementing an iterator past the last element of a block moves on to the
next block, but End() stayed at the full block's own end, so resetting
adjoints (or sizing a block list) never terminated when the number of
records was a multiple of the block size.
---
 dal/math/aad/blocklist.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 81cfb88..2885372 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -277,7 +277,12 @@ namespace Dal::AAD {
             return Begin();
         }
 
-        Iterator_ End() { return Iterator_(currBlock_, nextSpace_, currBlock_->begin(), currBlock_->end()); }
+        Iterator_ End() {
+            // iteration leaves a full block for the next one, so the end position has to do the same
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
+            return Iterator_(currBlock_, nextSpace_, currBlock_->begin(), currBlock_->end());
+        }
 
         inline Iterator_ end() {
             return End();
@@ -292,6 +297,10 @@ namespace Dal::AAD {
         }
 
         ConstIterator_ End() const {
+            if (nextSpace_ == lastSpace_) {
+                ConstIterator_ last(currBlock_, std::prev(nextSpace_), currBlock_->begin(), currBlock_->end());
+                return ++last;
+            }
             return ConstIterator_(currBlock_, nextSpace_, currBlock_->begin(), currBlock_->end());
         }
 
-- 
2.43.0


From 0a25c723495b7e9e52f643f44018d4e5d2ae4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:27 +0000
Subject: [PATCH 07/32] fix: a Cholesky solve sizes its result vector

---
 dal/math/matrix/cholesky.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index 75ab505..9e0e2cf 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -83,6 +83,7 @@ namespace Dal {
 
             void XSolve_af(const Vector_<>& b, Vector_<>* x) const override {
                 const int n = Size();
+                x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*x)[ii] = b[ii] - std::inner_product(x->begin(), x->begin() + ii, lower_->Row(ii).begin(), 0.0);
                     (*x)[ii] *= (*lower_)(ii, ii);
-- 
2.43.0


From 44d9fbe1ccef1b41e90fbb1380af317acaf8a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:27 +0000
Subject: [PATCH 08/32] fix: banded symmetry check and transposed solve stay
 inside the matrix

---
 dal/math/matrix/banded.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 61f0307..7078d1b 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -185,7 +185,7 @@ namespace Dal {
             x->Resize(n);
             for (int ii = n - 1; ii >= 0; --ii) {
                 double residual = b[ii];
-                for (int jj = max(n - 1, ii + val.nBelow_); jj > ii; --jj)
+                for (int jj = min(n - 1, ii + val.nBelow_); jj > ii; --jj)
                     residual -= (*x)[jj] * val(jj, ii);
                 REQUIRE(!IsZero(val(ii, ii)), "Overflow in banded L-solve");
                 (*x)[ii] = residual / val(ii, ii);
@@ -283,7 +283,7 @@ namespace Dal {
                 const int n = Size();
                 const int width = max(val_.nBelow_, val_.view_.Cols() - val_.nBelow_ - 1);
                 for (int ii = 0; ii < n; ++ii) {
-                    for (int jj = max(0, ii - width); jj <= max(n - 1, ii + width); ++jj)
+                    for (int jj = max(0, ii - width); jj <= min(n - 1, ii + width); ++jj)
                         if (!IsZero(val_(ii, jj) - val_(jj, ii)))
                             return false;
                 }
-- 
2.43.0


From 1c11f84186d75325083887be07ed5b1826d969ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:27 +0000
Subject: [PATCH 09/32] fix: the banded Cholesky factor is stored below the
 diagonal

---
 dal/math/matrix/banded.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 7078d1b..31027ad 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -197,7 +197,7 @@ namespace Dal {
             BandElements_ val_;
 
         public:
-            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), llt.nBelow_, 0) {
+            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), 0, llt.nBelow_) {
                 static const double SMALL = 1.0e-11;
                 REQUIRE(llt.view_.Cols() == 2 * llt.nBelow_ + 1, "Cols should be 2 * n_below + 1");
                 const int n = llt.view_.Rows();
-- 
2.43.0


From 029db44e428e2758918de103b12751d0f997616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:27 +0000
Subject: [PATCH 10/32] fix: a lower-triangular product includes the diagonal

---
 dal/math/matrix/decompositionsmisc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/matrix/decompositionsmisc.cpp b/dal/math/matrix/decompositionsmisc.cpp
index ff0880e..2099989 100644
--- a/dal/math/matrix/decompositionsmisc.cpp
+++ b/dal/math/matrix/decompositionsmisc.cpp
@@ -66,7 +66,7 @@ namespace Dal {
                 const int n = Size();
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii)
-                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii, vals_.Row(ii).begin(), 0.0);
+                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii + 1, vals_.Row(ii).begin(), 0.0);
             }
 
             void XMultiplyRight_af(const Vector_<> &x, Vector_<> *b) const override {
-- 
2.43.0


From 6372b8bdb85754b6107922812a64ab3596e37ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:24 +0000
Subject: [PATCH 11/32] fix: banded Cholesky accepts rounding noise below zero
 without producing NaN

---
 dal/math/matrix/banded.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 31027ad..b4b509d 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -216,7 +216,7 @@ namespace Dal {
                             }
                         } else {
                             REQUIRE(residual > -SMALL, "Non-positive-definite matrix");
-                            val_.At(ii, ii) = std::sqrt(residual);
+                            val_.At(ii, ii) = std::sqrt(max(0.0, residual));
                         }
                     }
                 }
-- 
2.43.0


From aff06a64ca5051e3c463a577203e83927e27bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:47 +0000
Subject: [PATCH 12/32] fix: a diagonal product and solve size their result

---
 dal/math/matrix/decompositionsmisc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/math/matrix/decompositionsmisc.cpp b/dal/math/matrix/decompositionsmisc.cpp
index 2099989..6906b0c 100644
--- a/dal/math/matrix/decompositionsmisc.cpp
+++ b/dal/math/matrix/decompositionsmisc.cpp
@@ -35,11 +35,13 @@ namespace Dal {
             [[nodiscard]] int Size() const override { return vals_.size(); }
 
             void XMultiply_af(const Vector_<> &x, Vector_<> *b) const override {
+                b->Resize(Size());
                 Transform(x, vals_, std::multiplies<>(), b);
             }
 
             void XSolve_af(const Vector_<> &b, Vector_<> *x) const override {
                 NOTE("Dividing by diagonal matrix");
+                x->Resize(Size());
                 Transform(b, vals_, ProtectedDivide_(), x);
             }
 
-- 
2.43.0


From eaceb1202426320ac90879f6914bf87dd0ae1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 13/32] fix: MAX and MIN use all of their arguments

---
 dal/script/parser.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 4f34e63..98e1bf5 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -18,6 +18,15 @@ namespace {
 }
 
 namespace Dal::Script {
+    namespace {
+        template <class Concrete_> Expression_ NestBinary(Vector_<Expression_>& args) {
+            Expression_ top = std::move(args[0]);
+            for (size_t i = 1; i < args.size(); ++i)
+                top = MakeBaseBinary<Concrete_>(top, args[i]);
+            return top;
+        }
+    }
+
     Expression_ Parser_::ParseExpr(TokIt_& cur, const TokIt_& end) {
         auto lhs = ParseExprL2(cur, end);
         while (cur != end && ((*cur)[0] == '+' || (*cur)[0] == '-')) {
@@ -112,6 +121,12 @@ namespace Dal::Script {
                 top->arguments_ = ParseFuncArg(cur, end);
                 if (top->arguments_.size() < minArg || top->arguments_.size() > maxArg)
                     THROW2(String_("Function ") + func + String_(": wrong number of arguments_"), ScriptError_);
+
+                // MIN and MAX nodes are binary, more arguments are nested: MAX(a, b, c) = MAX(MAX(a, b), c)
+                if (func == "MIN")
+                    return NestBinary<NodeMin_>(top->arguments_);
+                if (func == "MAX")
+                    return NestBinary<NodeMax_>(top->arguments_);
             }
             //	Return
             return top;
-- 
2.43.0


From a0a61875223dd57526b5fd1e55b41985049844f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 14/32] fix: a nested IF-ELSE pops its condition before the
 stacks are reset

---
 dal/script/visitor/compiler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index e48d02a..2e13d11 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -512,14 +512,14 @@ namespace Dal::Script {
                 bStack.Pop();
                 break;
             case IfElse:
-                if (!bStack.Top()) {
+                //  Pop before the nested call, which resets the stacks
+                if (!bStack.TopAndPop()) {
                     i = nodeStream[++i];
                 } else {
                     //  Cannot avoid nested call here
                     EvalCompiled(nodeStream, constStream, dataStream, scenario, state, i + 3, nodeStream[i + 1]);
                     i = nodeStream[i + 2];
                 }
-                bStack.Pop();
                 break;
             case Equal:
                 bStack.Push(dStack.TopAndPop() == 0);
-- 
2.43.0


From ecf15d0ce7f91f83dec9e983e50e34e5e6a6cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 15/32] fix: a constant >= condition compiles to the comparison
 it states

---
 dal/script/visitor/compiler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index 2e13d11..299477d 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -237,7 +237,7 @@ namespace Dal::Script {
             VisitCondition<Sup>(node, [](double x) { return x > 0.0; });
         }
         void Visit(const NodeSupEqual_& node) {
-            VisitCondition<SupEqual>(node, [](double x) { return x > -Dal::EPSILON; });
+            VisitCondition<SupEqual>(node, [](double x) { return x >= 0.0; });
         }
 
         //  And/Or/Not
-- 
2.43.0


From e541d2874f632defb696a76e98c75cf2884aa461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 16/32] fix: past payments do not leave their amount on the
 stack

---
 dal/script/visitor/pastevaluator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/script/visitor/pastevaluator.hpp b/dal/script/visitor/pastevaluator.hpp
index 52664cf..e8df17f 100644
--- a/dal/script/visitor/pastevaluator.hpp
+++ b/dal/script/visitor/pastevaluator.hpp
@@ -24,6 +24,9 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodePays_& node) {
             //	Visit the RHS expression
             VisitNode(*node.arguments_[1]);
+
+            //	Past payments are not part of the value, drop the amount
+            dStack_.Pop();
         }
 
         FORCE_INLINE void Visit(const NodeSpot_&) {
-- 
2.43.0


From 452261be70ef0318295a4f90813f5970dacad4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 17/32] fix: smoothed evaluation negates != conditions

---
 dal/script/visitor/fuzzy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index a5ed36d..eff808c 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -239,7 +239,7 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
 
         // Negation
-        FORCE_INLINE void visitNot(const NodeNot_& node) {
+        FORCE_INLINE void Visit(const NodeNot_& node) {
             VisitNode(*node.arguments_[0]);
             fuzzyStack_.Top() = 1.0 - fuzzyStack_.Top();
         }
-- 
2.43.0


From 32ba357df4c1375ef9255fc545752829c95395a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 18/32] fix: the range of a logarithm is the whole real line

---
 dal/script/visitor/domainproc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 70e2ceb..7dafa89 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -119,7 +119,7 @@ namespace Dal::Script {
         void Visit(NodeLog_& node) {
             VisitArguments(node);
             Domain_ res = domStack_.Top().ApplyFunc<double (*)(double)>(
-                log, Interval_(Bound_(0.0), Bound_(Bound_::plusInfinity_)));
+                log, Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
             domStack_.Pop();
             domStack_.Push(std::move(res));
         }
-- 
2.43.0


From 6d379d4c56433bff6499093f816492bcc51403a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 19/32] fix: compiled scripts read named constants from the
 evaluation state

---
 dal/script/node.hpp             | 3 ++-
 dal/script/visitor/compiler.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dal/script/node.hpp b/dal/script/node.hpp
index 75fd1b2..3b2442a 100644
--- a/dal/script/node.hpp
+++ b/dal/script/node.hpp
@@ -108,7 +108,8 @@ namespace Dal::Script {
 
     struct NodeConstVar_: public Visitable_<ExprNode_, NodeConstVar_, VISITORS> {
         explicit NodeConstVar_(String_ name, double val) : name_(std::move(name)), index_(-1) {
-            ExprNode_::isConst_ = true;
+            // a parameter of the product: it must not be folded into a number, or its sensitivity is lost
+            ExprNode_::isConst_ = false;
             ExprNode_::constVal_ = val;
         }
 
diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index 299477d..ab91b7c 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -300,8 +300,7 @@ namespace Dal::Script {
 
         void Visit(const NodeConstVar_& node) {
             nodeStream_.emplace_back(ConstVar);
-            nodeStream_.emplace_back(static_cast<int>(constStream_.size()));
-            constStream_.emplace_back(node.constVal_);
+            nodeStream_.emplace_back(node.index_);
         }
 
         void Visit(const NodeConst_& node) {
@@ -476,6 +475,9 @@ namespace Dal::Script {
                 ++i;
                 break;
             case ConstVar:
+                dStack.Push(state.constVariables_[nodeStream[++i]]);
+                ++i;
+                break;
             case Const:
                 dStack.Push(constStream[nodeStream[++i]]);
                 ++i;
-- 
2.43.0


From 4f4c7e72de2be07ccae0227146558f1334eeee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 20/32] fix: the script parser does not read past the last
 token

---
 dal/script/parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 98e1bf5..8bc7dc2 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -258,7 +258,7 @@ namespace Dal::Script {
 
     void Parser_::ParseCondOptionals(TokIt_& cur, const TokIt_& end, double& eps) {
         eps = -1.0;
-        while (*cur == ";" || *cur == ":") {
+        while (cur != end && (*cur == ";" || *cur == ":")) {
             const char c = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -269,7 +269,7 @@ namespace Dal::Script {
 
     double Parser_::ParseDCF(TokIt_& cur, const TokIt_& end) {
         // TODO: we assume `DCF` function won't contain another nested function
-        REQUIRE2((*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
         ++cur;
 
@@ -280,7 +280,6 @@ namespace Dal::Script {
             day_basis += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
@@ -290,7 +289,6 @@ namespace Dal::Script {
             start_date += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
@@ -307,7 +305,7 @@ namespace Dal::Script {
     }
 
     Vector_<Expression_> Parser_::ParseFuncArg(TokIt_& cur, const TokIt_& end) {
-        REQUIRE2((*cur)[0] == '(', "No opening ( following function name", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following function name", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
 
         //	Parse expressions between parentheses
-- 
2.43.0


From 49383679be367923b57cec9075111249a1aa824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 21/32] fix: variable names start with a letter or an
 underscore

---
 dal/script/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 8bc7dc2..14a8089 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -144,7 +144,9 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseVar(TokIt_& cur) {
-        REQUIRE2((*cur)[0] >= 'A' && (*cur)[0] <= 'z', String_("Variable name ") + *cur + " is invalid", ScriptError_);
+        const char first = (*cur)[0];
+        REQUIRE2((first >= 'A' && first <= 'Z') || (first >= 'a' && first <= 'z') || first == '_',
+                 String_("Variable name ") + *cur + " is invalid", ScriptError_);
         REQUIRE2(RESERVED_KEY_WORDS.find(*cur) == RESERVED_KEY_WORDS.end(),
                  String_("Variable name ") + *cur + " is conflicted with an existing key word", ScriptError_);
         String_ name(*cur);
-- 
2.43.0


From fb8bad318badca9d7d42c537c26d0c8658713250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 22/32] fix: a named constant cannot be assigned or paid to

---
 dal/script/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 14a8089..a00c9e3 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -363,6 +363,7 @@ namespace Dal::Script {
         if (*cur == "IF")
             return ParseIf(cur, end);
         auto lhs = ParseVar(cur);
+        REQUIRE2(dynamic_cast<NodeVar_*>(lhs.get()), "cannot assign or pay to a constant", ScriptError_);
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
         if (*cur == "=")
             return ParseAssign(cur, end, lhs);
-- 
2.43.0


From 6ef815581055a02329fb62a96c6dbc3b5aa39889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 23/32] fix: text left unread inside parentheses is an error

---
 dal/script/parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 18b1a7f..406a994 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -50,6 +50,9 @@ namespace Dal::Script {
                 // by recursively calling the parent parseCond/parseExpr
                 tree = (this->*FuncOnMatch_)(++cur, closeIt);
 
+                // Nothing between the parentheses may be left unread
+                REQUIRE2(cur == closeIt, String_("unexpected ") + *cur + " before )", ScriptError_);
+
                 // Advance cur after matching ")"
                 cur = ++closeIt;
             }
-- 
2.43.0


From f44904f91ffe01544bcacf67d12f1bd42cbe4fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:00 +0000
Subject: [PATCH 24/32] fix: a function undefined at a discrete value gives its
 whole range, not a NaN singleton

The domain of sqrt(-1) or log(0) (in a branch that may never be taken) was the
singleton {NaN}, which breaks the ordering of the set of intervals: later
conditions on the variable were found always false and removed.
---
 dal/script/visitor/domain.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 932ed47..64cc913 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -11,6 +11,7 @@
 #include <sstream>
 #include <functional>
 #include <array>
+#include <cmath>
 #include <algorithm>
 #include <memory>
 #include <set>
@@ -801,7 +802,9 @@ namespace Dal::Script {
             // Singletons, apply func
             for (auto v : vec) {
                 try {
-                    res.AddSingleton(func(v));
+                    const double val = func(v);
+                    // not a number or infinite: not a singleton, all we know is the function domain
+                    res.AddInterval(std::isfinite(val) ? Interval_(val) : func_domain);
                 } catch (const std::domain_error&) {
                     THROW("Domain_ error on function applied to IsSingleton");
                 }
@@ -822,7 +825,9 @@ namespace Dal::Script {
             for (auto v1 : vec1) {
                 for (auto v2 : vec2) {
                     try {
-                        res.AddSingleton(func(v1, v2));
+                        const double val = func(v1, v2);
+                        // not a number or infinite: not a singleton, all we know is the function domain
+                        res.AddInterval(std::isfinite(val) ? Interval_(val) : func_domain);
                     } catch (const std::domain_error&) {
                         THROW("Domain_ error on function applied to IsSingleton");
                     }
-- 
2.43.0


From 5d0795780ec9874d40c337efbba58ea860d8e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:17 +0000
Subject: [PATCH 25/32] fix: derivatives of pow at a zero base were not numbers

---
 dal/math/aad/expr.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 1e43b56..a57226a 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -75,9 +75,12 @@ namespace Dal::AAD {
     struct OPPow_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::pow(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return r * v / l; }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) {
+            // at a zero base r * v / l would be 0 / 0
+            return l != 0.0 ? r * v / l : (r != 0.0 ? r * std::pow(l, r - 1.0) : 0.0);
+        }
 
-        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return std::log(l) * v; }
+        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return v != 0.0 ? std::log(l) * v : 0.0; }
     };
 
     struct OPMax_ {
@@ -244,13 +247,16 @@ namespace Dal::AAD {
     struct OPPowDL_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(d, r); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return std::log(d) * v; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return v != 0.0 ? std::log(d) * v : 0.0; }
     };
 
     struct OPPowDR_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(r, d); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return d * v / r; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) {
+            // at a zero base d * v / r would be 0 / 0
+            return r != 0.0 ? d * v / r : (d != 0.0 ? d * std::pow(r, d - 1.0) : 0.0);
+        }
     };
 
     struct OPMaxD_ {
-- 
2.43.0


From 0a18a6b22c2974423b61b78bd2aef278ba4b7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:42 +0000
Subject: [PATCH 26/32] fix: jumping to a path ignored normals, odd paths and
 the shuffled generator; clones lost precision

---
 dal/math/random/pseudorandom.cpp | 47 ++++++++++++++++++++++++--------
 dal/math/random/pseudorandom.hpp |  4 +++
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index ee95b03..e73cc66 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -13,6 +13,7 @@
 namespace Dal {
     // derived classes can call this explicitly
     void PseudoRandom_::FillUniform(Vector_<>* devs) {
+        skipped_ = 0;
         if (anti_) {
             for (size_t i = 0; i < devs->size(); ++i)
                 (*devs)[i] = (1.0 - cache_[i]);
@@ -36,7 +37,26 @@ namespace Dal {
         } // namespace RWT
     }     // namespace
 
-    void PseudoRandom_::FillNormal(Vector_<>* deviates) { RWT::Fill(this, deviates->begin(), deviates->end()); }
+    void PseudoRandom_::FillNormal(Vector_<>* deviates) {
+        if (skipped_ > 0) {
+            // unlike the uniforms, each path of normals draws new points
+            SkipPoints(skipped_ * NDim());
+            skipped_ = 0;
+            anti_ = false;
+        }
+        RWT::Fill(this, deviates->begin(), deviates->end());
+    }
+
+    void PseudoRandom_::SkipTo(size_t n_paths) {
+        // uniforms come in antithetic pairs, only the first of which draws new points
+        SkipPoints(n_paths / 2 * NDim());
+        anti_ = (n_paths & 1) != 0;
+        if (anti_) {
+            for (auto& u : cache_)
+                u = NextUniform();
+        }
+        skipped_ = n_paths;
+    }
 
     namespace {
         // Generators similar to Knuth's IRN55, with shuffling
@@ -66,10 +86,15 @@ namespace Dal {
 
             explicit ShuffledIRN_(int seed, size_t n_dim = 1, bool precise = false)
                 : PseudoRandom_(n_dim, precise), seed_(seed), irn_(M_), shuffle_(S_), irl_(0) {
+                Reset();
+            }
+
+            void Reset() {
                 const unsigned MASK = 0x1F2E3D4C;
                 const unsigned MUL = 17;
                 // initialize IRN_
-                irn_[0] = seed;
+                irl_ = 0;
+                irn_[0] = seed_;
                 for (int ii = 1; ii < M_; ++ii)
                     irn_[ii] = ((MUL * irn_[ii - 1]) % DE_NOM) ^ MASK;
                 // initialize shuffle_
@@ -81,9 +106,13 @@ namespace Dal {
                 return new ShuffledIRN_<M_, L_, S_>(irn_[0] ^ irn_[1]);
             }
 
-            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
+            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size(), precise_); }
 
-            void SkipTo(size_t n_paths) override {}
+            void SkipPoints(size_t n_points) override {
+                Reset();
+                for (; n_points > 0; --n_points)
+                    NextUniform();
+            }
         };
 
         constexpr const double m1_ = 4294967087;
@@ -137,18 +166,12 @@ namespace Dal {
             [[nodiscard]] PseudoRandom_* Branch(int i_child) const override { return new MRG32k32a_(); }
 
             [[nodiscard]] PseudoRandom_* Clone() const override {
-                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
+                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size(), precise_);
             }
 
-            void SkipTo(size_t n_paths) override {
-                size_t n_points = n_paths * NDim();
+            void SkipPoints(size_t n_points) override {
                 Reset();
 
-                if (n_points & 1)
-                    n_points = (n_points - 1) / 2;
-                else
-                    n_points /= 2;
-
                 static constexpr size_t m1l = static_cast<size_t>(m1_);
                 static constexpr size_t m2l = static_cast<size_t>(m2_);
 
diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 7909959..2831651 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -31,9 +31,12 @@ precise is boolean
 namespace Dal {
     class PseudoRandom_ : public Random_ {
         bool anti_ = false;
+        size_t skipped_ = 0; // paths skipped since the last draw
 
     protected:
         Vector_<> cache_;
+        // go back to the seed, then pass over n_points values of NextUniform
+        virtual void SkipPoints(size_t n_points) = 0;
 
     public:
         explicit PseudoRandom_(size_t n_dim, bool precise = false) : cache_(n_dim), precise_(precise) {}
@@ -41,6 +44,7 @@ namespace Dal {
         virtual double NextUniform() = 0;
         void FillUniform(Vector_<>* deviates) override;
         void FillNormal(Vector_<>* deviates) override;
+        void SkipTo(size_t n_paths) override;
         [[nodiscard]] PseudoRandom_* Clone() const override = 0;
         [[nodiscard]] size_t NDim() const override { return cache_.size(); }
         [[nodiscard]] virtual PseudoRandom_* Branch(int i_child) const = 0;
-- 
2.43.0


From 8847bf13cb7abc2fd101499e6598af6d0fa4d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:17 +0000
Subject: [PATCH 27/32] fix: linear interpolation lost the derivative with
 respect to the abscissa

---
 dal/math/interp/interp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/interp/interp.hpp b/dal/math/interp/interp.hpp
index f6f084f..817f9cf 100644
--- a/dal/math/interp/interp.hpp
+++ b/dal/math/interp/interp.hpp
@@ -39,7 +39,7 @@ namespace Dal {
         if (pge == x.begin() || IsZero(x0 - *pge))
             return y[pge - x.begin()];
         auto plt = Previous(pge);
-        const auto gFrac = static_cast<double>((x0 - *plt) / (*pge - *plt));
+        const T_ gFrac = (x0 - *plt) / (*pge - *plt);
         auto flt = y.begin() + (plt - x.begin());
         return *flt + gFrac * (*Next(flt) - *flt);
     }
-- 
2.43.0


From a221670288e43c91c947f40940fc18665162acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:17 +0000
Subject: [PATCH 28/32] fix: normal-model option price ignored volatility when
 forward or strike was not positive

---
 dal/math/distribution/black.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/distribution/black.hpp b/dal/math/distribution/black.hpp
index af8dd3c..767641f 100644
--- a/dal/math/distribution/black.hpp
+++ b/dal/math/distribution/black.hpp
@@ -33,7 +33,7 @@ namespace Dal {
 
         template <class T_>
         T_ BachelierOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type)  {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol))
                 return type.Payout(fwd, strike);
             T_ diff = fwd - strike;
             T_ d = diff / vol;
-- 
2.43.0


From 723dba4e8a7c39ae403be78aa5aef9081a67098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:17 +0000
Subject: [PATCH 29/32] fix: implied volatility search mixed up volatility and
 its logarithm

---
 dal/math/distribution/black.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 1dde9fb..cb76f0d 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -16,7 +16,7 @@ namespace Dal {
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
             Brent_ task(guess > 0.0 ? log(guess) : -1.5);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
+            Converged_ done(TOL, TOL * max(1.0, price));
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
                 if (done(task, BlackOpt(fwd, vol, strike, type) - price))
@@ -56,8 +56,8 @@ namespace Dal {
             static const int MAX_ITERATIONS = 30;
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? guess : -1.5 * fwd);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
+            Brent_ task(guess > 0.0 ? log(guess) : log(max(1.0, fabs(fwd))) - 1.5);
+            Converged_ done(TOL, TOL * max(1.0, price));
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
                 if (done(task, BachelierOpt(fwd, vol, strike, type) - price))
-- 
2.43.0


From da038248b4939cf90818a1e93226ab0472cb1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:43 +0000
Subject: [PATCH 30/32] fix: sensitivities of a payoff that is a parameter
 itself

The payoff variable can share the record of a constant or of today's spot,
which lies before the mark: propagating from it to the mark ran off the
tape. Give the payoff a record of its own.
---
 dal/script/simulation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ac4e5dd..5004880 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -212,7 +212,7 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.EvaluateCompiled(path, evalState);
-                        Number_ res = evalState.VarVals()[payoffIndex];
+                        Number_ res = evalState.VarVals()[payoffIndex] + 0.0;
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
@@ -233,7 +233,7 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.Evaluate(path, eval);
-                        Number_ res = eval.VarVals()[payoffIndex];
+                        Number_ res = eval.VarVals()[payoffIndex] + 0.0;
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
-- 
2.43.0


From aa80c1ebf58da42c24dd1a36d3334f84a54ea047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:27 +0000
Subject: [PATCH 31/32] fix: bridge over no dates

A product whose events are all today needs no draws; the Brownian bridge
read and wrote element -1 of its empty tables.
---
 dal/math/random/brownianbridge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/random/brownianbridge.cpp b/dal/math/random/brownianbridge.cpp
index 71e0c6a..d33e378 100644
--- a/dal/math/random/brownianbridge.cpp
+++ b/dal/math/random/brownianbridge.cpp
@@ -21,6 +21,8 @@ namespace Dal {
     }
 
     void BrownianBridge_::Initialize() {
+        if (ndim_ == 0)
+            return;     // nothing to bridge
         sqrtdt_[0] = std::sqrt(t_[0]);
         for (int i = 1; i < ndim_; ++i)
             sqrtdt_[i] = std::sqrt(t_[i] - t_[i-1]);
@@ -65,6 +67,8 @@ namespace Dal {
     void BrownianBridge_::FillNormal(Vector_<> *deviates) {
         deviates->Resize(NDim());
         rsg_->FillNormal(&innerDeviates_);
+        if (ndim_ == 0)
+            return;
         (*deviates)[ndim_ - 1] = stdDev_[0] * innerDeviates_[0];
         for (int i = 1; i< ndim_; ++i) {
             int j = leftIndex_[i];
-- 
2.43.0


From 0b6882a8bcc8236a2f86fbc13037aa12f4ff15ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:46 +0000
Subject: [PATCH 32/32] fix: a day count fraction with too many arguments

---
 dal/script/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index a00c9e3..5976d7c 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -301,6 +301,7 @@ namespace Dal::Script {
             ++cur;
         }
 
+        REQUIRE2(cur == closeIt, "too many arguments for `DCF`", ScriptError_);
         cur = ++closeIt;
         // TODO: we only implement normal day count fraction convention and leave `context` as empty
         return DayBasis_(day_basis)(Date::FromString(start_date), Date::FromString(end_date), nullptr);
-- 
2.43.0

