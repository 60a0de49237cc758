From 1c8658e8e09bd2c37b0ca0330f613da3c788ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 01/55] fix: BoolDomain::intersect(lb, ub) with crossed bounds
 empties the domain

Crossed bounds were swapped, so a contradiction found by a constraint over
booleans (for instance b1 < b2 with b1 = true) left the domain non-empty.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..ef7505a 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -1229,16 +1229,6 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   }
 
   bool BoolDomain::intersect(edouble lb, edouble ub) {
-    edouble boolLb = lb;
-    edouble boolUb = ub;
-    if(boolLb > boolUb) {
-      boolLb = boolUb;
-      boolUb = lb;
-    }
-    if(boolLb != 0.0)
-      boolLb = 1.0;
-    if(boolUb != 0.0)
-      boolUb = 1.0;
-    return IntervalIntDomain::intersect(boolLb, boolUb);
+    return IntervalIntDomain::intersect(lb, ub);
   }
 }
-- 
2.43.0


From 51033a642aa8c8130fbea323d301efb58f5fdb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 02/55] fix: DefaultPropagator keeps its agenda when an
 inconsistency is found

Removing the conflict relaxes only the variables connected to it, so
constraints over other variables that were still on the agenda were never
executed and the network was reported consistent without having been checked.
---
 .../ConstraintEngine/component/Propagators.cc    | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 108bed9..04570d3 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -77,18 +77,10 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
       }
     }
 
-    // If we can continue propagation despite the discovered inconsistency,
-    // keep agenda for when the ConstraintEngine recovers and decides to resume propagation
-    if(getConstraintEngine()->provenInconsistent()) {
-        if (getConstraintEngine()->canContinuePropagation()) {
-	        debugMsg("DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
-	        // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
-        }
-        else {
-            m_agenda.clear();
-	        debugMsg("DefaultPropagator:agenda","Cleared agenda because CE was proven inconsistent");
-        }
-    }
+    // Keep the rest of the agenda if an inconsistency was found: removing the conflict only relaxes the variables
+    // connected to it, so constraints over other variables that have not been executed yet would otherwise be lost.
+    condDebugMsg(getConstraintEngine()->provenInconsistent(), "DefaultPropagator:agenda",
+                 "CE was proven inconsistent, keeping agenda because propagation can continue later");
     m_activeConstraint = 0;
   }
 
-- 
2.43.0


From e3c36e1e3449df35aaecac5ec50872e18d285165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 03/55] fix: AddEqual no longer refutes satisfiable mixes of
 integer and real variables

The final bounds check asked whether the bounds are members of an integer
domain, although only their position relative to its bounds matters.
---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..f7d4dc9 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -164,10 +164,13 @@ namespace EUROPA {
      * is not satisfied. The motivating case for this: A:Int[-10,10] +
      * B:Int[-10,10] == C:Real[0.01, 0.99].
      */
-    if (m_z.isInterval() &&
-	(!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
-	 !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
-      m_z.empty();
+    if (m_z.isInterval()) {
+      // The two sums are bounds: only where they lie matters, not that they are values of an integer domain.
+      IntervalDomain zBounds(m_z.getLowerBound(), m_z.getUpperBound());
+      if(!zBounds.isMember(Infinity::plus(yMax, xMin, zMin)) ||
+         !zBounds.isMember(Infinity::plus(yMin, xMax, zMin)))
+        m_z.empty();
+    }
   }
 
   /*********** MultEqualConstraint: X*Y = Z *************/
-- 
2.43.0


From 46f3f2b610c132db0339058f3e6c2552d81e3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 04/55] fix: closing a variable restricts its derived domain to
 the base domain

While the base domain was open propagation may leave values outside it.
---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 6cab23a..67936f1 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -403,6 +403,12 @@ const std::string& ConstrainedVariable::getName() const {
 
     if(getCurrentDomain().isEmpty())
       return;
+
+    // While the base domain was open, propagation may have left values that are not members of it.
+    getCurrentDomain().intersect(internal_baseDomain());
+    if(getCurrentDomain().isEmpty())
+      return;
+
     if(internal_baseDomain().isSingleton() && !isSpecified())
       internalSpecify(internal_baseDomain().getSingletonValue());
   }
-- 
2.43.0


From 874bf2be1076b48614bf35bfdcc6f668dabe2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 05/55] fix: a variable may be emptied while a relaxation is
 still pending

Specifying a value that conflicts with the derived domain right after a
relaxation tripped an internal assertion.
---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 31b43cf..9e6c561 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -824,8 +824,6 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     if (variable->getCurrentPropagatingConstraint().isId()) {
     	debugMsg("ConstraintEngine:emptied","Var emptied by constraint:"<< variable->getCurrentPropagatingConstraint()->toLongString());
     }
-    //check_error(m_relaxed == false);
-    check_error(m_relaxed.empty());
     getViolationMgr().handleEmpty(variable);
   }
 
-- 
2.43.0


From f0484c0d3d8799d27002670e8e1639b5b04b65a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 06/55] fix: relax(value) of an open enumeration selects a
 single value, as set(value) does

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index ef7505a..b88ae87 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -323,6 +323,9 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 
 	  if (isEmpty()){
 		  m_values.insert(value);
+		  // As for set(value): a single value has been selected
+		  if (isOpen())
+			  close();
 		  notifyChange(DomainListener::RELAXED);
 	  }
   }
-- 
2.43.0


From a27b6600035206ce99ac872726a6d13e9039a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 07/55] fix: EnumeratedDomain::equate reports the emptying of
 the domain itself

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index b88ae87..3e02977 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)) {
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
-- 
2.43.0


From 489362e46bc768884d8c011dedfb6f1e2c84daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 08/55] fix: pow, sqrt and mod of undefined arguments are
 satisfied by no value

---
 .../ConstraintEngine/component/Constraints.cc | 64 ++++++++++++++++++-
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index f7d4dc9..833ac1e 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2395,9 +2395,67 @@ eint mod(edouble a, edouble b) {return static_cast<eint::basis_type>(std::fmod(c
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Max, std::max, edouble);
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Min, std::min, edouble);
   CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Abs, std::abs, edouble);
-  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Pow, std::pow, edouble);
-  CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Sqrt, std::sqrt, edouble);
-  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Mod, mod, eint);
+
+  PowConstraint::PowConstraint(const std::string& name,
+			       const std::string& propagatorName,
+			       const ConstraintEngineId constraintEngine,
+			       const std::vector<ConstrainedVariableId>& variables)
+    : Constraint(name, propagatorName, constraintEngine, variables) {}
+
+  void PowConstraint::handleExecute() {
+    check_error(isActive());
+    if (getCurrentDomain(m_variables[1]).isSingleton()
+	&& getCurrentDomain(m_variables[2]).isSingleton()) {
+      const double base = cast_double(getCurrentDomain(m_variables[1]).getSingletonValue());
+      const double exponent = cast_double(getCurrentDomain(m_variables[2]).getSingletonValue());
+      if ((base == 0 && exponent < 0) || (base < 0 && std::floor(exponent) != exponent)) {
+        getCurrentDomain(m_variables[0]).empty(); // Undefined, so nothing satisfies the constraint
+        return;
+      }
+      edouble value = std::pow(edouble(base), edouble(exponent));
+      getCurrentDomain(m_variables[0]).intersect(value, value);
+    }
+  }
+
+
+  SqrtConstraint::SqrtConstraint(const std::string& name,
+				 const std::string& propagatorName,
+				 const ConstraintEngineId constraintEngine,
+				 const std::vector<ConstrainedVariableId>& variables)
+    : Constraint(name, propagatorName, constraintEngine, variables) {}
+
+  void SqrtConstraint::handleExecute() {
+    check_error(isActive());
+    if (getCurrentDomain(m_variables[1]).isSingleton()) {
+      edouble value = getCurrentDomain(m_variables[1]).getSingletonValue();
+      if (value < 0) { // Undefined, so nothing satisfies the constraint
+        getCurrentDomain(m_variables[0]).empty();
+        return;
+      }
+      value = std::sqrt(value);
+      getCurrentDomain(m_variables[0]).intersect(value, value);
+    }
+  }
+
+  ModConstraint::ModConstraint(const std::string& name,
+			       const std::string& propagatorName,
+			       const ConstraintEngineId constraintEngine,
+			       const std::vector<ConstrainedVariableId>& variables)
+    : Constraint(name, propagatorName, constraintEngine, variables) {}
+
+  void ModConstraint::handleExecute() {
+    check_error(isActive());
+    if (getCurrentDomain(m_variables[1]).isSingleton()
+	&& getCurrentDomain(m_variables[2]).isSingleton()) {
+      edouble divisor = getCurrentDomain(m_variables[2]).getSingletonValue();
+      if (divisor == 0) { // Undefined, so nothing satisfies the constraint
+        getCurrentDomain(m_variables[0]).empty();
+        return;
+      }
+      eint value = mod(getCurrentDomain(m_variables[1]).getSingletonValue(), divisor);
+      getCurrentDomain(m_variables[0]).intersect(value, value);
+    }
+  }
 
 
 
-- 
2.43.0


From 8f2d1b645cbf89fe5f49f54d1d8e7dc0d734b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 09/55] fix: distanceFromSquares empties its result when there
 is no such distance

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 833ac1e..35f555b 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2285,6 +2285,10 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     edouble x, y;
     x = domx.getSingletonValue();
     y = domy.getSingletonValue();
+    if(x + y < 0) { // There is no such distance.
+      doma.empty();
+      return;
+    }
     edouble distance = std::sqrt(x+y);
 
     doma.intersect( IntervalDomain(distance) );
-- 
2.43.0


From c63e9b225efd5ec231077f337841272556723c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 10/55] fix: absoluteValue reasons over overlapping intervals,
 not over membership of their ends

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 35f555b..dfbb2dc 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2206,6 +2206,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     }
 
     m_x.intersect(IntervalDomain(lb, ub));
+    if(m_x.isEmpty())
+      return;
     lb = m_x.getLowerBound();
     ub = m_x.getUpperBound();
 
@@ -2216,13 +2218,15 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     if(lb == 0 && m_y.isMember(-ub) && m_y.isMember(ub))
       m_y.intersect(IntervalDomain(-ub, ub));
 
-    if((m_y.isMember(lb) || m_y.isMember(ub)) && (m_y.isMember(-lb) || m_y.isMember(-ub)))
+    bool positive = m_y.getUpperBound() >= lb && m_y.getLowerBound() <= ub;
+    bool negative = m_y.getLowerBound() <= -lb && m_y.getUpperBound() >= -ub;
+    if(positive && negative)
       return;
 
-    if(m_y.isMember(lb) || m_y.isMember(ub))
-      m_y.intersect(IntervalDomain(lb, ub));
-    else if(m_y.isMember(-lb) || m_y.isMember(-ub))
+    if(negative)
       m_y.intersect(IntervalDomain(-ub, -lb));
+    else
+      m_y.intersect(IntervalDomain(lb, ub));
   }
 
   SquareOfDifferenceConstraint::SquareOfDifferenceConstraint(const std::string& name,
-- 
2.43.0


From 7290e3a091b59e2701e29289b52dad5f790d8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 11/55] fix: testNeq neither removes values inside of intervals
 nor restricts an emptied argument

---
 .../ConstraintEngine/component/Constraints.cc     | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index dfbb2dc..dde50b3 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1950,6 +1950,14 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     check_error(variables.size() == ARG_COUNT);
   }
 
+namespace {
+// A value inside of an interval cannot be removed without splitting it.
+bool canRemove(const Domain& dom, const edouble value) {
+  return dom.isEnumerated() ||
+      dom.compareEqual(value, dom.getLowerBound()) || dom.compareEqual(value, dom.getUpperBound());
+}
+}
+
   void TestNEQ::handleExecute(){
 
     debugMsg("TestNEQ:handleExecute", "comparing " << m_arg1.toString() << " with " << m_arg2.toString());
@@ -1965,15 +1973,16 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
-	if(m_arg1.isSingleton()) {
+	if(m_arg1.isSingleton() && canRemove(m_arg2, m_arg1.getSingletonValue())) {
 	  m_arg2.remove(m_arg1.getSingletonValue());
 	}
-	if(m_arg2.isSingleton()) {
+	if(m_arg2.isSingleton() && canRemove(m_arg1, m_arg2.getSingletonValue())) {
 	  m_arg1.remove(m_arg2.getSingletonValue());
 	}
       } else { //Enforce equality
 	m_arg2.intersect(m_arg1);
-	m_arg1.intersect(m_arg2);
+	if(!m_arg2.isEmpty())
+	  m_arg1.intersect(m_arg2);
       }
     }
   }
-- 
2.43.0


From 2b7c89d24c434c23bb44340373708fbc541f32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 12/55] fix: condAllDiff's union covers the values it stands
 for and counts only closed domains

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index dde50b3..0d73db3 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1244,7 +1244,9 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  // An enumeration does not cover the interval between its bounds, nor integers the reals between them.
+  const bool real = (*unionOfDomains)->minDelta() < 1.0 || domToAdd.minDelta() < 1.0;
+  bool changing = (*unionOfDomains)->isEnumerated() || (real && (*unionOfDomains)->minDelta() >= 1.0);
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
@@ -1254,7 +1256,7 @@ void addToUnion(Domain **unionOfDomains,
     changing = true;
   }
   if (changing) {
-    if((*unionOfDomains)->minDelta() < 1.0)
+    if(real)
       newUnion = new IntervalDomain(newMin, newMax);
     else
       newUnion = new IntervalIntDomain(static_cast<eint>(newMin), static_cast<eint>(newMax));
@@ -1290,6 +1292,7 @@ void addToUnion(Domain **unionOfDomains,
     unsigned int firstNonDynamic = 0;
     unsigned int firstDynamic = 0;
     unsigned int i = 1;
+    unsigned int countOfOthers = 0;
     Domain* unionOfOthers = 0;
     for ( ; i < ARG_COUNT; i++) {
       Domain& current(getCurrentDomain(m_variables[i]));
@@ -1301,6 +1304,7 @@ void addToUnion(Domain **unionOfDomains,
       }
       if (firstNonDynamic == 0)
         firstNonDynamic = i;
+      ++countOfOthers;
       if (unionOfOthers == 0) {
         // First (non-dynamic) one: copy it to union with later ones.
         unionOfOthers = current.copy();
@@ -1317,7 +1321,8 @@ void addToUnion(Domain **unionOfDomains,
           canProveTrue = false;
         // Add members of current to unionOfOthers "usefully".
         addToUnion(&unionOfOthers, current);
-        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < i) {
+        // Open domains are not part of the union and do not count.
+        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < countOfOthers) {
           // At least two of the variables must have same value.
           boolDom.remove(true);
           canProveTrue = false;
-- 
2.43.0


From e583119ff46e151f7fe189930302c26ad18bd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 13/55] fix: condAllSame compares singletons with the other
 variables' common values

---
 .../ConstraintEngine/component/Constraints.cc | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 0d73db3..04e66c8 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1056,22 +1056,25 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
           canProveTrue = false;
           continue;
         }
+        if (common == 0) {
+          // First one: copy it to intersect with later ones.
+          common = current.copy();
+
+          // Skipping this check merely results in less efficient propagation.
+          // check_error(common != 0);
+
+        } else {
+          // Intersect common with this one; if now empty, the other
+          // variables cannot all have the same value, so remove true
+          // from the condition.
+          if (common->intersect(current) && common->isEmpty()) {
+            canProveTrue = false;
+            boolDom.remove(true);
+            continue;
+          }
+        }
         if (!current.isSingleton()) {
           canProveTrue = false;
-          if (common == 0) {
-            // First one: copy it to intersect with later ones.
-            common = current.copy();
-
-            // Skipping this check merely results in less efficient propagation.
-            // check_error(common != 0);
-
-          } else {
-            // Intersect common with this one; if now empty, the other
-            // variables cannot all have the same value, so remove true
-            // from the condition.
-            if (common->intersect(current) && common->isEmpty())
-              boolDom.remove(true);
-          }
           continue;
         } // if !current.isSingleton()
         if (canProveTrue) {
-- 
2.43.0


From 329068f707f5cdeaafb4a46d286423fc2db1eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 14/55] fix: eqProduct drops its internal constraints on
 discard, before their variables go

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 04e66c8..4004e0d 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1016,6 +1016,12 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
   }
 
   void EqualProductConstraint::handleDiscard(){
+    // The internal variables are destroyed first, so nothing may refer to them any more.
+    m_eqProductC1.reset();
+    m_eqProductC2.reset();
+    m_eqProductC3.reset();
+    m_eqProductC4.reset();
+    m_eqProductC5.reset();
     // Further unwind for contained variables
     // m_product1.discard();
     // m_product2.discard();
-- 
2.43.0


From 5860aa4fef6c796275866f6127946be8449aa710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 15/55] fix: neq trims by the granularity of the trimmed
 variable

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 4004e0d..3940cda 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -699,13 +699,14 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
     }
 
     if (domx.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
-      edouble low = domx.getSingletonValue() + domx.minDelta();
-      domy.intersect(IntervalDomain(low, domy.getUpperBound()));
+      // Step by the granularity of the domain being trimmed, which need not be that of the other one.
+      edouble low = domx.getSingletonValue() + domy.minDelta();
+      domy.intersect(low, domy.getUpperBound());
       return(true);
     }
     if (domx.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
-      edouble hi = domx.getSingletonValue() - domx.minDelta();
-      domy.intersect(IntervalDomain(domy.getLowerBound(), hi));
+      edouble hi = domx.getSingletonValue() - domy.minDelta();
+      domy.intersect(domy.getLowerBound(), hi);
       return(true);
     }
     /** COULD SPECIAL CASE INTERVAL INT DOMAIN, BUT NOT WORTH IT PROBABLY **/
-- 
2.43.0


From 1611aaade89036a640b7252d03ffb9a9b1e0fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 16/55] fix: addEq checks the sum of integers and repeated
 variables against the current bounds

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 3940cda..4206511 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -164,13 +164,19 @@ namespace EUROPA {
      * is not satisfied. The motivating case for this: A:Int[-10,10] +
      * B:Int[-10,10] == C:Real[0.01, 0.99].
      */
-    if (m_z.isInterval()) {
-      // The two sums are bounds: only where they lie matters, not that they are values of an integer domain.
+    if (m_x.minDelta() == 1 && m_y.minDelta() == 1 && m_z.isInterval() &&
+	std::ceil(m_z.getLowerBound()) > std::floor(m_z.getUpperBound()))
+      m_z.empty();
+    // The same variable may occur more than once, so that the bounds used above have changed since.
+    else if ((&m_x == &m_z || &m_y == &m_z || &m_x == &m_y) && m_z.isInterval()) {
       IntervalDomain zBounds(m_z.getLowerBound(), m_z.getUpperBound());
       if(!zBounds.isMember(Infinity::plus(yMax, xMin, zMin)) ||
          !zBounds.isMember(Infinity::plus(yMin, xMax, zMin)))
         m_z.empty();
     }
+    if (m_x.isSingleton() && m_y.isSingleton() && m_z.isSingleton() &&
+        !m_z.compareEqual(m_x.getSingletonValue() + m_y.getSingletonValue(), m_z.getSingletonValue()))
+      m_z.empty();
   }
 
   /*********** MultEqualConstraint: X*Y = Z *************/
-- 
2.43.0


From 5d6649c85ae46b77be9c69b19082cd2a3e6aaa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 17/55] fix: deleting an emptied variable keeps the other
 emptied variables on record

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 10 ++++++++--
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 9e6c561..d4e34c0 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -43,6 +43,7 @@ namespace EUROPA
     virtual bool isEmpty(ConstrainedVariableId v) const;
     virtual void addEmptyVariable(ConstrainedVariableId c);
     virtual const ConstrainedVariableSet& getEmptyVariables() const;
+    virtual void removeEmptyVariable(ConstrainedVariableId v);
     virtual void clearEmptyVariables();
     virtual void relaxEmptyVariables();
 
@@ -197,6 +198,11 @@ PSList<PSConstraint*> ViolationMgrImpl::getAllViolations() const {
     return m_emptyVariables;
   }
 
+  void ViolationMgrImpl::removeEmptyVariable(ConstrainedVariableId v)
+  {
+    m_emptyVariables.erase(v);
+  }
+
   void ViolationMgrImpl::clearEmptyVariables()
   {
     m_emptyVariables.clear();
@@ -455,8 +461,8 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     if(Entity::isPurging())
       return;
 
-    if(getViolationMgr().isEmpty(variable))
-      clearEmptyVariables();
+    // Other variables may be empty as well.
+    getViolationMgr().removeEmptyVariable(variable);
 
     publish(notifyRemoved(variable));
 
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index 48113bc..106d537 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -47,6 +47,7 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
 	  virtual bool isEmpty(ConstrainedVariableId v) const = 0;
   	  virtual void addEmptyVariable(ConstrainedVariableId c) = 0;
   	  virtual const ConstrainedVariableSet& getEmptyVariables() const = 0;
+  	  virtual void removeEmptyVariable(ConstrainedVariableId v) = 0;
   	  virtual void clearEmptyVariables() = 0;
       virtual void relaxEmptyVariables() = 0;
 
-- 
2.43.0


From b88c824858471991e17f27942dd236679be6fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 18/55] fix: testNeq does not judge open domains

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 4206511..5fd3d9f 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1983,6 +1983,10 @@ bool canRemove(const Domain& dom, const edouble value) {
 
     debugMsg("TestNEQ:handleExecute", "comparing " << m_arg1.toString() << " with " << m_arg2.toString());
 
+    // The values of an open domain are not known yet.
+    if(m_arg1.isOpen() || m_arg2.isOpen())
+      return;
+
     if(m_arg1.isSingleton() &&
        m_arg2.isSingleton()) {
       if (m_arg1.intersects(m_arg2)) { // They are singletons and are equal, return false.
-- 
2.43.0


From 623224c3ddc7962a36053933c05519e43e5695a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 19/55] fix: a constraint deactivated before it was executed is
 not retired as redundant

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc       |  4 ++--
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index a7168e6..e6556c2 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -225,8 +225,8 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
     debugMsg("Constraint:notifyBaseDomainRestricted",
 	     "Base domain of " << var->toString() << " restricted in " << m_id->toString());
 
-    // If already redundant, nothing to do
-    if(m_isRedundant)
+    // If already redundant, nothing to do. If inactive, it has yet to be executed so it is not.
+    if(m_isRedundant || !isActive())
       return;
 
     // Update
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index d4e34c0..1f941bc 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -561,6 +561,10 @@ void ConstraintEngine::add(const PropagatorId propagator){
   void ConstraintEngine::notifyDeactivated(const ConstraintId deactivatedConstraint){
     check_error(!Entity::isPurging());
     check_error(deactivatedConstraint.isValid() && !deactivatedConstraint->isActive());
+    // If it has yet to be executed it must be possible to activate it again.
+    if(m_redundantConstraints.erase(deactivatedConstraint) > 0)
+      deactivatedConstraint->m_isRedundant = false;
+
     deactivatedConstraint->getPropagator()->handleConstraintDeactivated(deactivatedConstraint);
     publish(notifyDeactivated(deactivatedConstraint));
 
@@ -1027,8 +1031,10 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
    */
   void ConstraintEngine::processRedundantConstraints(){
     checkError(constraintConsistent(), "Can only process when fully propagated.");
-    for(ConstraintSet::const_iterator it = m_redundantConstraints.begin();
-	it != m_redundantConstraints.end();
+    ConstraintSet redundantConstraints;
+    redundantConstraints.swap(m_redundantConstraints);
+    for(ConstraintSet::const_iterator it = redundantConstraints.begin();
+	it != redundantConstraints.end();
 	++it){
       ConstraintId constraint = *it;
       checkError(constraint.isValid(), constraint);
@@ -1036,8 +1042,6 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
       constraint->deactivate();
       debugMsg("ConstraintEngine:processRedundantConstraints", constraint->toString());
     }
-
-    m_redundantConstraints.clear();
   }
 
 
-- 
2.43.0


From 494f8ac2ff2f562a3c2ad90e37097aeb1dd26403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 20/55] fix: a constraint on a variable deactivated n times is
 deactivated n times

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index e6556c2..23cb495 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -49,8 +49,8 @@ Constraint::Constraint(const std::string& name,
     if(!m_variables[i]->baseDomain().isSingleton())
       variableCount++;
 
-    if(!m_variables[i]->isActive())
-      m_deactivationRefCount++;
+    // Each deactivation of the variable will be undone one by one.
+    m_deactivationRefCount += m_variables[i]->refCount();
 
     checkError(m_variables[i].isValid(),
                "The argIndex " << i << " is not a valid variable for constraint " << name);
-- 
2.43.0


From 8cd53b25e38783ce7fae80dcf54198a9ac2a5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 21/55] fix: time points added after a reference point was set
 start with an unknown reference time

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 4c19bf8..fb27c68 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -523,7 +523,7 @@ Timepoint& TemporalNetwork::getOrigin() {
 }
 
 Timepoint& TemporalNetwork::addTimepoint() {
-  TimepointId node = boost::make_shared<Tnode>(this);
+  TimepointId node = boost::dynamic_pointer_cast<Tnode>(makeNode());
   addNode(node);
   node->ordinal=++(this->nodeCounter);
   return *node.get();
-- 
2.43.0


From 43be0b882558ca3d7c3f8fb9e370bb3c06c34100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 22/55] fix: isDistanceLessThan propagates again across nodes
 reached by a shorter path

---
 .../TemporalNetwork/base/DistanceGraph.cc     | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
index ff47394..bc18e53 100644
--- a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
+++ b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
@@ -14,6 +14,7 @@
 
 #include <stdlib.h>
 #include <limits.h>
+#include <deque>
 #include <sstream>
 
 #include "DistanceGraph.hh"
@@ -468,38 +469,32 @@ Bool DistanceGraph::isPropagationPath(Dnode& src, Dnode& targ, Time pot) {
   check_error(isValid(targ), "node is not defined in this graph");
 
 
-  // Even though this seems like a full search, it is actually an
-  // approximation because the marking scheme could possibly prevent a
-  // new propagation with a smaller potential across nodes that have
-  // previously been propagated across.  Would need a Dijkstra-like
-  // priority queue to do a full search, but this seems a good enough
-  // approximation to satisfy the calls from the zigzag check.
+  // A node is propagated across again when it is reached with a smaller
+  // potential than before, as the first path found to it need not be
+  // the shortest.
   if (pot >= src.potential)  // propagation is ineffective
     return false;
   src.mark();
   src.distance = pot;
-  Dnode* propQ = &src; 
-  propQ->link = NULL;
-  while (propQ != NULL) {
-    Dnode* node = propQ; propQ = propQ->link;
+  std::deque<Dnode*> propQ(1, &src);
+  while (!propQ.empty()) {
+    Dnode* node = propQ.front(); propQ.pop_front();
     // Cache node vars -- Chucko 22 Apr 2002
     Int nodeOutCount = node->outCount;
     std::vector<Dedge*>& nodeOutArray = node->outArray;
-    // We iterate downwards to simulate the behavior of the previous
-    // recursive version of this function (to satisfy make tests).
     for (int i=nodeOutCount-1; i>=0 ; i--) {
       Dedge* edge = nodeOutArray[i];
       Dnode& next = edge->to;
-      if (next.isMarked())
-        continue;
       Time newPotential = node->distance + edge->length;
+      if (next.isMarked() && newPotential >= next.distance)
+        continue;
       if (newPotential >= next.potential)  // propagation is ineffective
         continue;  // Don't mark---may be later effective propagation
       if (&next == &targ)
         return true;
       next.mark();
       next.distance = newPotential;
-      next.link = propQ; propQ = &next;
+      propQ.push_back(&next);
     }
   }
   return false;
-- 
2.43.0


From f49329917e459374739098b40c0663bae9525c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 23/55] fix: recompute reference times when the constraints on
 the reference point change direction

---
 .../TemporalNetwork/base/TemporalNetwork.cc   | 51 +++++++++++--------
 .../TemporalNetwork/base/TemporalNetwork.hh   |  6 +++
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index fb27c68..076a212 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -50,7 +50,7 @@ bool TemporalNetwork::hasEdgeToOrigin(Timepoint& timepoint) {
 TemporalNetwork::TemporalNetwork() : consistent(true), 
                                      hasDeletions(false), nodeCounter(0),
                                      incrementalSource(), m_constraints(), m_id(this),
-                                     m_refpoint(), m_updatedTimepoints() {
+                                     m_refpoint(), m_refBackwards(false), m_updatedTimepoints() {
 
   addTimepoint();
   fullPropagate();
@@ -67,10 +67,10 @@ TemporalNetwork::TemporalNetwork() : consistent(true),
     // PHM Support for reftime calculations
     node->prev_reftime = TIME_MAX; // will never == reftime
     if (m_refpoint != NULL) {
-      if (m_refpoint->inCount == 0)
-	node->reftime = POS_INFINITY;
-      else
+      if (m_refBackwards)
 	node->reftime = NEG_INFINITY;
+      else
+	node->reftime = POS_INFINITY;
     }
     return node;
   }
@@ -609,29 +609,32 @@ Void TemporalNetwork::fullPropagate() {
   incDijkstraBackward();
 
   // PHM 6/29/2010 Changes to support reftime calculations
-  if (m_refpoint) {
+  if (m_refpoint)
+    propagateReftimes();
 
-    // We may use either all lower bounds or all upper bounds for
-    // preferred time constraints.  Code adjusts to either case.
+  debugMsg("TemporalNetwork:fullPropagate", "fullPropagate done");
+}
 
-    Time initref =
-	(m_refpoint->inCount == 0) ? POS_INFINITY : NEG_INFINITY;
+Void TemporalNetwork::propagateReftimes() {
+  // We may use either all lower bounds or all upper bounds for
+  // preferred time constraints.  Code adjusts to either case.
+  m_refBackwards = (m_refpoint->inCount != 0);
 
-    for (unsigned i=0; i < nodes.size(); i++) {
-      TimepointId node = boost::dynamic_pointer_cast<Timepoint>(nodes[i]);
-      node->reftime = initref;
-    }
-    m_refpoint->reftime = 0;
-    m_refpoint->depth = 0;
-    queue.insertInQueue(m_refpoint);
+  Time initref = m_refBackwards ? NEG_INFINITY : POS_INFINITY;
 
-    if (m_refpoint->inCount == 0)
-      incDijkstraReftime();
-    else
-      incDijkstraRefBack(); // Backwards propagation
+  for (unsigned i=0; i < nodes.size(); i++) {
+    TimepointId node = boost::dynamic_pointer_cast<Timepoint>(nodes[i]);
+    node->reftime = initref;
   }
+  m_refpoint->reftime = 0;
+  m_refpoint->depth = 0;
 
-  debugMsg("TemporalNetwork:fullPropagate", "fullPropagate done");
+  initializeBqueue().insertInQueue(m_refpoint);
+
+  if (m_refBackwards)
+    incDijkstraRefBack(); // Backwards propagation
+  else
+    incDijkstraReftime();
 }
 
 Void TemporalNetwork::incPropagate(Timepoint& src, Timepoint& targ)
@@ -700,7 +703,11 @@ Void TemporalNetwork::incPropagate(Timepoint& src, Timepoint& targ)
   // PHM Support for reftime calculations
   // Adjust to either case of all lb or all ub constraints.
   if (m_refpoint) {
-    if (m_refpoint->inCount == 0) { // all ub constraints
+    if (m_refBackwards != (m_refpoint->inCount != 0)) {
+      // The constraints on the refpoint changed direction
+      propagateReftimes();
+    }
+    else if (m_refpoint->inCount == 0) { // all ub constraints
       next = dynamic_cast<Timepoint*>(startNode(src, src.reftime,
                                                 targ, targ.reftime));
       if (next != NULL) {
diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
index aa0bebf..b347bd6 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
@@ -412,6 +412,7 @@ namespace EUROPA {
      * the reftime, and is incremental. Forward/Backward versions
      * (PHM: Support for reftime calculations)
      */
+    Void propagateReftimes();
     Void incDijkstraReftime();
     Void incDijkstraRefBack();
 
@@ -461,6 +462,11 @@ namespace EUROPA {
      */
     Timepoint* m_refpoint;
 
+    /**
+     * @brief True if the current reftimes were propagated backwards.
+     */
+    bool m_refBackwards;
+
    protected:                          // Overridden virtual functions
 
    /**
-- 
2.43.0


From 9604caa8b055cda2cbe9b225f36f7a4e1c96f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:13 +0000
Subject: [PATCH 24/55] fix: dividing an eint by an unsigned long divides

---
 src/PLASMA/Utils/Number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 3de61e7..e80f344 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -454,7 +454,7 @@ namespace EUROPA {
     inline eint operator*(const basis_type o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
     inline eint operator*(const eint o) const {return operator*(o.m_v);}
     inline eint operator/(const int o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
-    inline eint operator/(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator/(const unsigned long o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const basis_type o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const eint o) const {return operator/(o.m_v);}
 
-- 
2.43.0


From 702911e56ba3ce6a3c9b81e0d1d86c400b8ba546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 25/55] fix: a quotient without a value (0/0) is reported
 instead of becoming an arbitrary number

---
 src/PLASMA/Utils/Number.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index e80f344..bec3666 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -331,6 +331,9 @@ namespace EUROPA {
   else if(temp < std::numeric_limits<type>::minus_infinity()) {         \
     throw std::underflow_error("less-than-minus-infinity error"); \
   }                                                                     \
+  else if(temp != temp) {                                               \
+    throw std::range_error("undefined result error");                   \
+  }                                                                     \
   return type(static_cast<type::basis_type>(temp), true);               \
 }
 #else
-- 
2.43.0


From 9af37b6a49ba70e8a4f0df184f43f33b6b95710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 26/55] fix: assigning an interval domain takes both bounds and
 whether it is closed

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 3e02977..b3e56eb 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -666,9 +666,9 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   Domain& IntervalDomain::operator=(const Domain& dom) {
     safeComparison(*this, dom);
     check_error(m_listener.isNoId());
-    m_lb = dom.getUpperBound();
+    m_lb = dom.getLowerBound();
     m_ub = dom.getUpperBound();
-    m_closed = dom.isFinite();
+    m_closed = dom.isClosed();
     return(*this);
   }
 
-- 
2.43.0


From 7d7ac7f6940551956b65b5c25482f05d94b996d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 27/55] fix: enumerations of whole numbers do not contain the
 fractions next to their members

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 11 +++++++++++
 src/PLASMA/ConstraintEngine/component/Domains.hh |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index b3e56eb..abba076 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -456,6 +456,17 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 	  }
 
+	  // Only the whole numbers between the bounds matter to a domain of whole numbers
+	  if(minDelta() >= 1) {
+		  lb = std::ceil(lb);
+		  ub = std::floor(ub);
+		  if(lb > ub) {
+			  bool changed = !isEmpty();
+			  empty();
+			  return changed;
+		  }
+	  }
+
 	  // Allocate as an interval and delegate to existing method
 	  IntervalDomain intervalDomain(lb, ub, getDataType());
 
diff --git a/src/PLASMA/ConstraintEngine/component/Domains.hh b/src/PLASMA/ConstraintEngine/component/Domains.hh
index 8e6aa75..0ee1b49 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.hh
+++ b/src/PLASMA/ConstraintEngine/component/Domains.hh
@@ -274,6 +274,12 @@ namespace EUROPA {
 	   */
 	  virtual std::string toString() const;
 
+	  /**
+	   * @brief Members are individual values: only rounding is tolerated, however coarse the data type is.
+	   */
+	  virtual bool compareEqual(edouble a, edouble b) const
+	  { return(a < b ? b - a < EPSILON : a - b < EPSILON); }
+
   protected:
 
 	  /**
-- 
2.43.0


From 6da23c13b1bd869ca67fb89cbbcc8caefdd30eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 28/55] fix: compare interval domains with enumerations by
 value and with coarser or finer intervals by what they contain

---
 .../ConstraintEngine/component/Domains.cc     | 85 ++++++++++++++++---
 1 file changed, 74 insertions(+), 11 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index abba076..96a2618 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -645,29 +645,52 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     check_error(dom.isOpen() || !dom.isEmpty());
     check_error(isOpen() || !isEmpty());
 
+    // Take the values listed by an enumeration from the ends, one at a time
+    if (dom.isEnumerated()) {
+      bool changed = false;
+      do {
+        const bool atLb = dom.isMember(m_lb);
+        if (!atLb && !dom.isMember(m_ub))
+          break;
+        remove(atLb ? m_lb : m_ub);
+        changed = true;
+      } while (!isEmpty() && minDelta() >= 1);
+      check_error(isEmpty() || minDelta() < 1 || !intersects(dom)); // Would require splitting.
+      return changed;
+    }
+
+    // Only the whole numbers of dom matter to a domain of whole numbers
+    edouble lb = dom.getLowerBound(), ub = dom.getUpperBound();
+    if (minDelta() > dom.minDelta()) {
+      lb = std::ceil(lb);
+      ub = std::floor(ub);
+      if (ub < lb)
+        return(false);
+    }
+
     // Check for case where difference could cause a split in the interval;
     //   don't handle it in this implementation.
-    check_error(! (lt(m_lb, dom.getLowerBound()) && lt(dom.getUpperBound(), m_ub)));
+    check_error(! (lt(m_lb, lb) && lt(ub, m_ub)));
 
     // Nothing to be done if the lower bound > dom.upper bound, or the upper bound < dom.lowerbound
-    if (lt(dom.getUpperBound(), m_lb) || lt(m_ub, dom.getLowerBound()))
+    if (lt(ub, m_lb) || lt(m_ub, lb))
       return(false);
 
     // If it is contained by dom then it will be emptied
-    if (leq(dom.getLowerBound(), m_lb) && leq(m_ub, dom.getUpperBound())) {
+    if (leq(lb, m_lb) && leq(m_ub, ub)) {
       empty();
       return(true);
     }
 
     // If lower bound > dom.lower bound then we must increment it to exceed the upper bound
-    if (leq(dom.getLowerBound(), m_lb)) {
-      m_lb = dom.getUpperBound() + minDelta();
+    if (leq(lb, m_lb)) {
+      m_lb = ub + minDelta();
       notifyChange(DomainListener::LOWER_BOUND_INCREASED);
     }
 
     // Similarly for the upper bound
-    if (leq(m_ub, dom.getUpperBound())) {
-      m_ub = dom.getLowerBound() - minDelta();
+    if (leq(m_ub, ub)) {
+      m_ub = lb - minDelta();
       notifyChange(DomainListener::UPPER_BOUND_DECREASED);
     }
 
@@ -724,8 +747,14 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   bool IntervalDomain::operator==(const Domain& dom) const {
     safeComparison(*this, dom);
 
-    return(eq(m_lb, dom.getLowerBound()) &&
-           eq(m_ub, dom.getUpperBound()) &&
+    if (dom.isEnumerated())
+      return dom == *this;
+
+    const Domain& finer = (dom.minDelta() < minDelta() ? dom : *this);
+    if (minDelta() != dom.minDelta() && !finer.isSingleton())
+      return false;
+    return(finer.eq(m_lb, dom.getLowerBound()) &&
+           finer.eq(m_ub, dom.getUpperBound()) &&
 	   Domain::operator==(dom));
   }
 
@@ -737,6 +766,33 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     safeComparison(*this, dom);
     check_error(!isOpen());
     check_error(!dom.isEmpty());
+
+    // Only the values listed by an enumeration count, not everything between its bounds
+    if (dom.isEnumerated()) {
+      if (dom.isOpen())
+        return true;
+      if (isEmpty())
+        return true;
+      if (!isFinite() || getSize() > dom.getSize())
+        return false;
+      std::list<edouble> values;
+      getValues(values);
+      for (std::list<edouble>::const_iterator it = values.begin(); it != values.end(); ++it)
+        if (!dom.isMember(*it))
+          return false;
+      return true;
+    }
+
+    // Domains of different precision: compare at the finer one, and fractions are not in a coarser domain
+    if (minDelta() != dom.minDelta()) {
+      const edouble delta = std::min(minDelta(), dom.minDelta());
+      if (minDelta() < dom.minDelta() && !isEmpty() &&
+          !(isSingleton() && std::abs(m_lb - std::floor(m_lb + 0.5)) < delta))
+        return false;
+      return (m_ub == dom.getUpperBound() || m_ub - delta < dom.getUpperBound()) &&
+          (m_lb == dom.getLowerBound() || dom.getLowerBound() - delta < m_lb);
+    }
+
     bool result = ((isFinite() || dom.isInfinite()) &&
                    leq(m_ub, dom.getUpperBound()) &&
                    leq(dom.getLowerBound(), m_lb));
@@ -748,13 +804,20 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     check_error(!isOpen());
     check_error(!dom.isEmpty());
 
+    // Only the values listed by an enumeration count, not everything between its bounds
+    if (dom.isEnumerated())
+      return dom.intersects(*this);
+
     edouble ub = dom.getUpperBound();
+    edouble lb = dom.getLowerBound();
+
+    // Domains of different precision can only share values of the coarser one
+    if (minDelta() != dom.minDelta())
+      return std::ceil(std::max(m_lb, lb)) <= std::floor(std::min(m_ub, ub));
 
     if( lt(ub, m_lb) )
       return false;
 
-    edouble lb = dom.getLowerBound();
-
     if( lt(m_ub, lb))
       return false;
 
-- 
2.43.0


From ddf48259e8cb5aa6ae92e3d58244cb9077f49563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 29/55] fix: the strict precedence of a subgoal uses the
 strictlyPrecedes constraint instead of a variable nobody owns

---
 src/PLASMA/NDDL/component/Interpreter.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c0be9b0..1f1a13f 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1005,15 +1005,8 @@ TokenId PredicateInstanceRef::createSubgoal(EvalContext& context,
   }
 
 
-#define makeStrictPrecedenceRelation(origin, originvar, target, targetvar) { \
-    PlanDatabase* db = reinterpret_cast<PlanDatabase*>(context.getElement("PlanDatabase"));\
-    std::vector<ConstrainedVariableId> vars;				\
-    ConstrainedVariableId var = (new Variable<IntervalIntDomain>(db->getConstraintEngine(), IntervalIntDomain(1, PLUS_INFINITY)))->getId(); \
-    vars.push_back(origin->originvar());				\
-    vars.push_back(var);						\
-    vars.push_back(target->targetvar());				\
-    makeConstraint(context, "temporalDistance", vars, "");			\
-  }
+#define makeStrictPrecedenceRelation(origin, originvar, target, targetvar) \
+    makeRelation(strictlyPrecedes, origin, originvar, target, targetvar)
 
 namespace {
 void createRelation(EvalContext& context,
-- 
2.43.0


From 0ac2a998a1c9a10f1235c02cf04afe44723e24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 30/55] fix: joining a time point without ring to the ring of
 its equal

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 076a212..ecdedfe 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -976,7 +976,7 @@ Void TemporalNetwork::maintainTEQ (Time lb, Time ub, Timepoint& src, Timepoint&
       targ.ringLeader = src.ringLeader;
       src.ringLeader->ringFollowers.push_back(&targ);
     }
-    if (src.ringLeader) {
+    if (src.ringLeader == NULL) {
       // In this case targ->ringLeader must be non-null
       src.ringLeader = targ.ringLeader;
       targ.ringLeader->ringFollowers.push_back(&src);
-- 
2.43.0


From 7990c805af50db3cedf308f3a415c816d2e8e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 31/55] fix: relaxing a token variable keeps what its merged
 tokens impose

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 477bcc5..8ffd8be 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -284,10 +284,11 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template<class DomainType>
   void TokenVariable<DomainType>::relax() {
-    Variable<DomainType>::relax();
-
-    if(!(this->isSpecified()))
-    	this->m_derivedDomain->relax(*m_integratedBaseDomain);
+    // The integrated base domain also holds what merged tokens impose, so never go beyond it
+    if(this->isSpecified())
+      Variable<DomainType>::relax();
+    else
+      this->m_derivedDomain->relax(*m_integratedBaseDomain);
   }
 
 }
-- 
2.43.0


From 5a78f34eb9ce0b41d28f748e550face0c95252c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 32/55] fix: a constraint on variables of merged tokens does
 not mark them as changed

---
 .../TemporalNetwork/component/TemporalPropagator.cc      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 03c106a..242ee12 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -69,15 +69,16 @@ TemporalPropagator::TemporalPropagator(const std::string& name,
     debugMsg("TemporalPropagator:handleConstraintAdded", "Adding constraint " << constraint->toString());
     const std::vector<ConstrainedVariableId>& scope = constraint->getScope();
     m_changedConstraints.insert(constraint);
+    // A variable of a merged token has no timepoint: its constraints are posted on the active token instead
     if (scope.size() == 3) {//Ternary distance constraint
-      buffer(scope[0]);
-      buffer(scope[2]);
+      if(scope[0]->isActive()) buffer(scope[0]);
+      if(scope[2]->isActive()) buffer(scope[2]);
       incrementRefCount(scope[0]);
       incrementRefCount(scope[2]);
     }
     else { // indexes for precedes and concurrent are the same
-      buffer(scope[0]);
-      buffer(scope[1]);
+      if(scope[0]->isActive()) buffer(scope[0]);
+      if(scope[1]->isActive()) buffer(scope[1]);
       incrementRefCount(scope[0]);
       incrementRefCount(scope[1]);
     }
-- 
2.43.0


From f947a7230b31d69ea470b70d6e43f27b6c83e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 33/55] fix: temporal constraint changes not yet processed
 survive an inconsistency

---
 .../TemporalNetwork/component/TemporalPropagator.cc       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 242ee12..d63f4da 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -535,19 +535,19 @@ void TemporalPropagator::processVariableChanges() {
 
 void TemporalPropagator::processConstraintChanges() {
   debugMsg("TemporalPropagator:updateTnet", "Processing changed constraints... ");
-  for( ConstraintsSet::const_iterator it = m_changedConstraints.begin(); it != m_changedConstraints.end(); ++it){
-    ConstraintId constraint = *it;
+  while(!m_changedConstraints.empty()){
+    ConstraintId constraint = *(m_changedConstraints.begin());
+    m_changedConstraints.erase(m_changedConstraints.begin());
     if(!constraint->isActive())
       continue;
 
     updateTemporalConstraint(constraint);
 
     // If the cnet has become inconsistent, which can happen since distance bounds may be restricted as we apply
-    // a constraint, then we can skip out.
+    // a constraint, then we can skip out. The others remain to be done.
     if(getConstraintEngine()->provenInconsistent() && !getConstraintEngine()->getAllowViolations())
       break;
   }
-  m_changedConstraints.clear();
   debugMsg("TemporalPropagator:updateTnet", "DONE Processing changed constraints... ");
 
 }
-- 
2.43.0


From b9e2a13de5a3f59733f4223d44dd7945c76d4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 34/55] fix: durations follow also when the bounds were already
 known

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index d63f4da..3ed653a 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -615,10 +615,9 @@ void TemporalPropagator::updateCnet() {
       }
     }
 
-    if (lb == dom.getLowerBound() && ub == dom.getUpperBound())
-      continue;  // PHM 06/06/11 This might often be the case
-
-    dom.intersect(mapToExternalInfinity(lb), mapToExternalInfinity(ub));
+    // The duration may still have to follow when the bounds were already known
+    if (lb != dom.getLowerBound() || ub != dom.getUpperBound())
+      dom.intersect(mapToExternalInfinity(lb), mapToExternalInfinity(ub));
 
     if(TokenId::convertable(var->parent())){
       TokenId token = var->parent();
-- 
2.43.0


From 9257988ea1196e716b4f20bd74119f9b36668924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 35/55] fix: an active token without master goes with the last
 token it supports, and not while it is being cancelled

---
 src/PLASMA/PlanDatabase/base/Token.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 3bae4b2..363fcea 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -406,6 +406,10 @@ void Token::doMerge(const TokenId activeToken){
     memento.release();
 
     m_planDatabase->notifySplit(m_id);
+
+    // It has lost its master and supports no other token any more
+    if(activeTokenDeleted)
+      delete static_cast<Token*>(activeToken);
   }
 
   void Token::reject(){
@@ -459,6 +463,8 @@ void Token::doMerge(const TokenId activeToken){
     if(isCommitted() && !isDeleted())
       return;
 
+    // Splitting the last supported token must not delete this one here: without master, it stands for itself from now on
+    incRefCount();
     while(!m_mergedTokens.empty()){
       TokenId tokenToSplit = *(m_mergedTokens.begin());
       check_error(tokenToSplit.isValid());
@@ -466,6 +472,8 @@ void Token::doMerge(const TokenId activeToken){
       check_error(tokenToSplit->isMerged());
       tokenToSplit->split();
     }
+    if(refCount() > 1)
+      decRefCount();
 
 
     // Must wait till now to reset since mergedTokens would otherwise be included in the new spec domain.
-- 
2.43.0


From 25265760daea1a7cc457fb825922ff8fc647d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 36/55] fix: a token removed from an object is no longer
 ordered there on request

---
 src/PLASMA/PlanDatabase/base/Object.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index d85737b..61f536b 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -196,6 +196,9 @@ const std::string& Object::getName() const {
 
     m_tokens.erase(token);
 
+    // The token is no longer ordered here on request
+    m_explicitConstraints.erase(token->getKey());
+
     // A set is used to avoid duplicate deletions
     std::set<ConstraintId> constraints;
 
-- 
2.43.0


From 6b1de77b724c5942de9fa90d0e403b86d3fbcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 37/55] fix: an object forgets its token before telling it, so
 that the notice is not repeated

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index 1787531..dd0ac5f 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -146,8 +146,9 @@ namespace EUROPA {
 
       if(!active || !m_currentDomain.isMember(object)){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
-	object->remove(m_token);
+	// Forget the object first: removing the token from it may relax the object variable, which brings us back here
 	m_notifiedObjects.erase(object);
+	object->remove(m_token);
       } else {
 	startIndex++;
       }
-- 
2.43.0


From c6cdee40b90f6c5f530d6c8e147bf52a230226a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 38/55] fix: inference that excludes the object a token is tied
 to is a contradiction, not a removal

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index dd0ac5f..d2d527c 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -2,6 +2,8 @@
 #include "Token.hh"
 #include "TokenVariable.hh"
 #include "Object.hh"
+#include "PlanDatabase.hh"
+#include "ConstraintEngine.hh"
 #include "Domains.hh"
 
 #include "Debug.hh"
@@ -144,7 +146,10 @@ namespace EUROPA {
 
       ObjectId object = *it;
 
-      if(!active || !m_currentDomain.isMember(object)){
+      // Inference that excludes an object the token is tied to is a contradiction. It is left to the constraint that ties
+      // them, which may not be deleted while propagating
+      if(!active || (!m_currentDomain.isMember(object) &&
+                     !(m_token->getPlanDatabase()->getConstraintEngine()->isPropagating() && object->isConstrainedToThisObject(m_token)))){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
 	// Forget the object first: removing the token from it may relax the object variable, which brings us back here
 	m_notifiedObjects.erase(object);
-- 
2.43.0


From d80e5fc40f2a84c6cd9b15f7b0fcb9c2828a2b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:42 +0000
Subject: [PATCH 39/55] fix: freeing an ordering between tokens that are not
 neighbours leaves no gap in the timeline

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 25 +++++++++++++++++++
 src/PLASMA/PlanDatabase/component/Timeline.hh |  5 ++++
 2 files changed, 30 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index e601b9f..7fc4cce 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -384,9 +384,34 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     if (adjacent(startTok, endTok) && !isConstrainedToPrecede(startTok, endTok))
       Object::constrain(startTok, endTok, false); // Add an implied constraint
 
+    // The tokens freed need not have been neighbours in the sequence. If so, each one removed leaves a gap of its own.
+    if (!successorRequired)
+      closeGap(endTok);
+    if (!predecessorRequired)
+      closeGap(startTok);
+
     check_error(isValid());
   }
 
+  void Timeline::closeGap(const TokenId token) {
+    if (token.isNoId() || m_tokenIndex.find(token->getKey()) == m_tokenIndex.end())
+      return;
+
+    std::list<TokenId>::iterator pos = m_tokenIndex.find(token->getKey())->second;
+
+    if (pos != m_tokenSequence.begin()) {
+      std::list<TokenId>::iterator earlier = pos;
+      --earlier;
+      if (!isConstrainedToPrecede(*earlier, *pos))
+        Object::constrain(*earlier, *pos, false);
+    }
+
+    std::list<TokenId>::iterator later = pos;
+    ++later;
+    if (later != m_tokenSequence.end() && !isConstrainedToPrecede(*pos, *later))
+      Object::constrain(*pos, *later, false);
+  }
+
   bool Timeline::isValid(bool cleaningUp) const {
 #ifdef EUROPA_FAST
     assertTrue(ALWAYS_FAIL, "Timeline::isValid() should never be called when compiling #define EUROPA_FAST");
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index 15c58c9..5380393 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -93,6 +93,11 @@ namespace EUROPA {
     TokenId removePredecessor(const TokenId token);
     bool adjacent(const TokenId x, const TokenId y) const;
 
+    /**
+     * @brief Constrains a sequenced token to its neighbours, where it is not already.
+     */
+    void closeGap(const TokenId token);
+
 
     /**
      * A list indicating the temporal order of Tokens constrained for this timeline.
-- 
2.43.0


From f8d01e3359c2968ccefe6d16f890fac41d7a7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:41 +0000
Subject: [PATCH 40/55] fix: the last token left in a timeline's sequence stays
 assigned to it

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 8 ++++++++
 src/PLASMA/PlanDatabase/component/Timeline.hh | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index 7fc4cce..2a91446 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -366,6 +366,7 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     // In the event we are freeing based on a single token, unlink it and get out
     if (predecessor == successor) {
       unlink(predecessor);
+      keepLastAssigned();
       return;
     }
 
@@ -390,6 +391,8 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     if (!predecessorRequired)
       closeGap(startTok);
 
+    keepLastAssigned();
+
     check_error(isValid());
   }
 
@@ -412,6 +415,11 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
       Object::constrain(*pos, *later, false);
   }
 
+  void Timeline::keepLastAssigned() {
+    if (m_tokenSequence.size() == 1 && !isConstrainedToThisObject(m_tokenSequence.front()))
+      Object::constrain(m_tokenSequence.front(), m_tokenSequence.front(), false);
+  }
+
   bool Timeline::isValid(bool cleaningUp) const {
 #ifdef EUROPA_FAST
     assertTrue(ALWAYS_FAIL, "Timeline::isValid() should never be called when compiling #define EUROPA_FAST");
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index 5380393..7fff091 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -98,6 +98,10 @@ namespace EUROPA {
      */
     void closeGap(const TokenId token);
 
+    /**
+     * @brief The only token left in the sequence remains assigned to this timeline, even with no ordering left.
+     */
+    void keepLastAssigned();
 
     /**
      * A list indicating the temporal order of Tokens constrained for this timeline.
-- 
2.43.0


From 562851562c39bac9073ce38973ee44c54d0a3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 41/55] fix: a constraint violated again while violations are
 tolerated is not deactivated twice

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 1f941bc..d4b429d 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -126,7 +126,8 @@ PSList<PSConstraint*> ViolationMgrImpl::getAllViolations() const {
   void ViolationMgrImpl::addViolatedConstraint(ConstraintId c)
   {
     debugMsg("ConstraintEngine:ViolationMgr", "Marking constraint as violated : " << c->toLongString());
-    m_violatedConstraints.insert(c);
+    if(!m_violatedConstraints.insert(c).second)
+      return; // It is deactivated already, and will be activated again only once
     c->deactivate(); // Deactivate will cause propagators to ignore constraint, including removing from current agendas
     m_ce.notifyViolationAdded(c); // tell constraint engine to publish
   }
-- 
2.43.0


From 4486828d7d36d74ad94ce17412a3b429f658c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 42/55] fix: restricting a token variable's base domain first
 updates the integrated base domain

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 8ffd8be..bf9d5f4 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -138,12 +138,13 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template <class DomainType>
   void TokenVariable<DomainType>::handleRestrictBaseDomain(const Domain& domain){
-    Variable<DomainType>::handleRestrictBaseDomain(domain);
-
+    // First, since the restriction of the base class may already need to go back to this base domain
     if(this->m_integratedBaseDomain->isOpen() && domain.isClosed())
       this->m_integratedBaseDomain->close();
 
     this->m_integratedBaseDomain->intersect(domain);
+
+    Variable<DomainType>::handleRestrictBaseDomain(domain);
   }
 
   template <class DomainType>
-- 
2.43.0


From 4dc2232654501a9e81ae4e1520049a550ab8cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 43/55] fix: distances to variables without temporal
 constraints are reported in the batch queries too

---
 .../component/TemporalPropagator.cc               | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 3ed653a..a4abf2c 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -1122,6 +1122,12 @@ bool TemporalPropagator::isValidForPropagation() const {
       Timepoint* tend = getTimepoint(seconds[i]);
       tends.push_back(tend);
     }
+    // Variables that take part in no temporal constraint have no timepoint
+    if(tstart == NULL || std::find(tends.begin(), tends.end(), static_cast<Timepoint*>(NULL)) != tends.end()) {
+      for (unsigned i=0; i<seconds.size(); i++)
+        domains.push_back(getTemporalDistanceDomain(first, seconds[i], true));
+      return;
+    }
     m_tnet->calcDistanceBounds(*tstart, tends, lbs, ubs);
     checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
                "size mismatch in TemporalPropagator getTemporalDistanceDomains");
@@ -1146,6 +1152,15 @@ bool TemporalPropagator::isValidForPropagation() const {
       Timepoint* tend = getTimepoint(seconds[i]);
       tends.push_back(tend);
     }
+    // Variables that take part in no temporal constraint have no timepoint
+    if(tstart == NULL || std::find(tends.begin(), tends.end(), static_cast<Timepoint*>(NULL)) != tends.end()) {
+      for (unsigned i=0; i<seconds.size(); i++) {
+        const IntervalIntDomain distance = getTemporalDistanceDomain(first, seconds[i], true);
+        lbs.push_back(static_cast<Time>(cast_basis(distance.getLowerBound())));
+        ubs.push_back(static_cast<Time>(cast_basis(distance.getUpperBound())));
+      }
+      return;
+    }
     m_tnet->calcDistanceSigns(*tstart, tends, lbs, ubs);
     checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
                "size mismatch in TemporalPropagator getTemporalDistanceDomains");
-- 
2.43.0


From 69cc12a29545305d793bd0b04b1f81e91c94f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 44/55] fix: time variables whose temporal constraints are all
 redundant stay in step with the temporal network

---
 .../component/TemporalPropagator.cc           | 25 ++++++++++++++++++-
 .../component/TemporalPropagator.hh           |  1 +
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index a4abf2c..7cd3236 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -59,6 +59,7 @@ TemporalPropagator::TemporalPropagator(const std::string& name,
     check_error(!Entity::isPurging());
     debugMsg("TemporalPropagator:notifyDeleted", "Marking as deleted variable " << tempVar->getKey());
     m_changedVariables.erase(tempVar->getKey());
+    m_updatedVariables.erase(tempVar->getKey());
     m_activeVariables.erase(tempVar->getKey());
 
     m_variablesForDeletion.insert(tp);
@@ -179,6 +180,7 @@ void TemporalPropagator::handleVariableRemoved(const ConstrainedVariableId var)
     }
 
     m_changedVariables.erase(var->getKey());
+    m_updatedVariables.erase(var->getKey());
     m_activeVariables.erase(var->getKey());
   }
 
@@ -510,6 +512,18 @@ void TemporalPropagator::processVariableDeletions() {
 }
 
 void TemporalPropagator::processVariableChanges() {
+  // A variable whose temporal constraints are all deactivated as redundant changes without notice
+  for(std::map<ConstrainedVariableId, Timepoint*>::const_iterator it = m_varToTimepoint.begin();
+      it != m_varToTimepoint.end(); ++it) {
+    if(!it->first->isActive() || it->first->lastDomain().isEmpty())
+      continue;
+    Time lb, ub;
+    it->second->getBaseDomainConstraint()->getBounds(lb, ub);
+    if(mapToExternalInfinity(lb) != it->first->lastDomain().getLowerBound() ||
+       mapToExternalInfinity(ub) != it->first->lastDomain().getUpperBound())
+      m_changedVariables.insert(std::make_pair(it->first->getKey(), it->first));
+  }
+
   // Process all relaxations first, so that we don't stump on tnet propagation later
   debugMsg("TemporalPropagator:updateTnet", "Processing changed variables... ");
   for(std::map<eint,ConstrainedVariableId>::const_iterator it = m_changedVariables.begin(); it != m_changedVariables.end(); ++it){
@@ -529,6 +543,7 @@ void TemporalPropagator::processVariableChanges() {
     if (!wasRelaxed(var))
       updateTimepoint(var);
   }
+  m_updatedVariables.insert(m_changedVariables.begin(), m_changedVariables.end());
   m_changedVariables.clear();
   debugMsg("TemporalPropagator:updateTnet", "DONE Processing changed variables... ");
 }
@@ -579,7 +594,15 @@ void TemporalPropagator::updateCnet() {
   debugMsg("TemporalPropagator:updateCnet", "In updateCnet");
 
   std::vector<TokenId> updatedTokens; // Used to push update to duration
-  const std::set<Timepoint*> updatedTimepoints = m_tnet->getUpdatedTimepoints();
+  std::set<Timepoint*> updatedTimepoints = m_tnet->getUpdatedTimepoints();
+  // A variable may have been relaxed beyond bounds which did not change in the network
+  for(std::map<eint,ConstrainedVariableId>::const_iterator it = m_updatedVariables.begin();
+      it != m_updatedVariables.end(); ++it) {
+    Timepoint* const tp = getTimepoint(it->second);
+    if(tp)
+      updatedTimepoints.insert(tp);
+  }
+  m_updatedVariables.clear();
   for(std::set<Timepoint*>::const_iterator it = updatedTimepoints.begin();
       it != updatedTimepoints.end(); ++it){
     Timepoint* const tp = *it;
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
index 19dd72e..a7e2226 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
@@ -214,6 +214,7 @@ namespace EUROPA {
     std::map<eint, ConstrainedVariableId> m_activeVariables; /**< Maintain the set of active start and end variables. 
 							     Duration handled in constraints */
     std::map<eint, ConstrainedVariableId> m_changedVariables; /*!< Manage the set of changed variables to be synchronized */
+    std::map<eint,ConstrainedVariableId> m_updatedVariables; /*!< Variables whose changes reached the temporal network */
 
     typedef std::set<ConstraintId, EntityComparator<EntityId> > ConstraintsSet;
     ConstraintsSet m_changedConstraints; /*!< Constraint Agenda */
-- 
2.43.0


From 0cf5c0581bae246fbce9fab7a969506d9d81da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:09 +0000
Subject: [PATCH 45/55] fix: a constraint returned to the profile propagator's
 agenda is known when it is removed

---
 src/PLASMA/Resource/base/ProfilePropagator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Resource/base/ProfilePropagator.cc b/src/PLASMA/Resource/base/ProfilePropagator.cc
index ba9eb22..1834f5b 100644
--- a/src/PLASMA/Resource/base/ProfilePropagator.cc
+++ b/src/PLASMA/Resource/base/ProfilePropagator.cc
@@ -41,11 +41,12 @@ void ProfilePropagator::handleConstraintAdded(const ConstraintId) {
   // DefaultPropagator::handleConstraintAdded(constraint);
 }
 
-void ProfilePropagator::handleConstraintRemoved(const ConstraintId) {
+void ProfilePropagator::handleConstraintRemoved(const ConstraintId constraint) {
   // check_error(constraint.isValid());
   // if(m_newConstraints.erase(constraint) > 0)
   //   m_updateRequired = true;
-  // DefaultPropagator::handleConstraintRemoved(constraint);
+  // A constraint which is not violated any more is back on the agenda
+  DefaultPropagator::handleConstraintRemoved(constraint);
 }
 
 void ProfilePropagator::execute() {
-- 
2.43.0


From ceb5fa76627f1b605ae2274f422d080fa16a878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:57 +0000
Subject: [PATCH 46/55] fix: instants, flaws and violations of a resource
 follow the times of its transactions

---
 src/PLASMA/Resource/base/Profile.cc  | 141 +++++++++++----------------
 src/PLASMA/Resource/base/Profile.hh  |  13 +++
 src/PLASMA/Resource/base/Resource.cc |  29 +++++-
 3 files changed, 96 insertions(+), 87 deletions(-)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index cca2d16..05be429 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -67,19 +67,9 @@ InstantId Profile::getInstant(const eint time) const {
       debugMsg("Profile:addTransaction", "Adding " << (t->isConsumer() ? "consumer " : "producer ") << "transaction " << t << " for time " <<
                t->time()->toString() << " with quantity " << t->quantity()->toString());
 
-      eint startTime = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-      eint endTime = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-
-      //if instants for the start and end time don't already exist, add them
-      addInstantsForBounds(t);
-
-      //add the transaction to the set of instants
-      ProfileIterator profIt(m_id, startTime, endTime);
-      while(!profIt.done()) {
-        debugMsg("Profile:addTransaction", "Adding transaction " << t << " to instant for time " << profIt.getInstant()->getTime());
-        profIt.getInstant()->addTransaction(t);
-        profIt.next();
-      }
+      //a time which has no value left belongs to no instant (for now)
+      if(!t->time()->lastDomain().isEmpty())
+        addToInstants(t);
 
 
       //add listener
@@ -201,98 +191,72 @@ void Profile::handleTransactionRemoved(const TransactionId) {
   m_recomputeInterval = (new ProfileIterator(getId()))->getId();
 }
 
+void Profile::addToInstants(const TransactionId t) {
+  const Domain& time = t->time()->lastDomain();
+
+  //if instants for the start and end time don't already exist, add them
+  addInstantsForBounds(t);
+
+  //add the transaction to the set of instants
+  std::map<eint, InstantId>::iterator end =
+      m_instants.upper_bound(static_cast<eint>(time.getUpperBound()));
+  for(std::map<eint, InstantId>::iterator it =
+          m_instants.lower_bound(static_cast<eint>(time.getLowerBound()));
+      it != end; ++it) {
+    InstantId inst = it->second;
+    if(inst->getTransactions().find(t) == inst->getTransactions().end()) {
+      debugMsg("Profile:addToInstants", "Adding transaction " << t << " to instant for time " << inst->getTime());
+      inst->addTransaction(t);
+    }
+    else
+      inst->updateTransaction(t);
+  }
+}
+
 void Profile::transactionTimeChanged(const TransactionId e,
                                      const DomainListener::ChangeType& change) {
   checkError(e.isValid(), "Invalid transaction.");
   checkError(m_transactions.find(e) != m_transactions.end(), "Unknown transaction " << e->time()->toString() << " " << e->quantity()->toString());
 
-  eint startTime = static_cast<eint>(e->time()->lastDomain().getLowerBound());
-  eint endTime = static_cast<eint>(e->time()->lastDomain().getUpperBound());
   switch(change) {
     case DomainListener::UPPER_BOUND_DECREASED:
     case DomainListener::LOWER_BOUND_INCREASED:
     case DomainListener::BOUNDS_RESTRICTED:
     case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON: {
-      debugMsg("Profile:handleTimeChanged", "Handling restriction of transaction " << e << " at time " << e->time()->toString() << " with quantity " << e->quantity()->toString());
-      eint first, last;
-      std::map<eint, InstantId>::iterator it;
-      for(it = m_instants.begin(); it != m_instants.end(); ++it)
-        if(it->second->getTransactions().find(e) != it->second->getTransactions().end())
-          break;
-      checkError(it != m_instants.end(), "No instant containing this transaction.");
-      first = it->second->getTime();
-      it = m_instants.upper_bound(first);
-      if(it != m_instants.end())
-        for(; it != m_instants.end(); ++it)
-          if(it->second->getTransactions().find(e) == it->second->getTransactions().end())
-            break;
-      --it;
-      last = it->second->getTime();
-      debugMsg("Profile:handleTimeChanged", "Possibly removing transaction " << e << " from Instants in range [" << first << " " << last << "]");
-      ProfileIterator profIt(m_id, first, last);
-      std::vector<eint> emptyInstants;
-      while(!profIt.done()) {
-        InstantId inst = profIt.getInstant();
+    case DomainListener::SET_TO_SINGLETON:
+    case DomainListener::RESET:
+    case DomainListener::RELAXED: {
+      debugMsg("Profile:handleTimeChanged", "Handling change of transaction " << e << " at time " << e->time()->toString() << " with quantity " << e->quantity()->toString());
+      if(e->time()->lastDomain().isEmpty())
+        break;
+
+      //remove the transaction from the instants which are no longer in its window
+      for(std::map<eint, InstantId>::iterator it = m_instants.begin(); it != m_instants.end(); ++it) {
+        InstantId inst = it->second;
         if(!e->time()->lastDomain().isMember(inst->getTime())) {
-          debugMsg("Profile:handleTimeChanged", "Removing transaction " << e << " from Instant at time " << inst->getTime());
+          condDebugMsg(inst->getTransactions().find(e) != inst->getTransactions().end(),
+                       "Profile:handleTimeChanged", "Removing transaction " << e << " from Instant at time " << inst->getTime());
           inst->removeTransaction(e);
-          if(inst->getTransactions().empty() || !containsChange(inst))
-            emptyInstants.push_back(inst->getTime());
         }
-        else
-          inst->updateTransaction(e);
-        profIt.next();
       }
 
-      //add instants for start and end and add overlapping transactions to them
-      addInstantsForBounds(e);
+      //add instants for start and end, and the transaction to all the instants in its window
+      addToInstants(e);
 
-      for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
+      //instants which only marked a bound that has moved are not needed any more
+      std::vector<InstantId> emptyInstants;
+      for(std::map<eint, InstantId>::iterator it = m_instants.begin(); it != m_instants.end(); ++it)
+        if(it->second->getTransactions().empty() || !containsChange(it->second))
+          emptyInstants.push_back(it->second);
+      for(std::vector<InstantId>::iterator emptyIt = emptyInstants.begin();
           emptyIt != emptyInstants.end(); ++emptyIt) {
-        std::map<eint, InstantId>::iterator instIt = m_instants.find(*emptyIt);
-        checkError(instIt != m_instants.end(),
-                   "Computed empty instant at time " << *emptyIt << " but no such instant exists.");
-        InstantId inst = instIt->second;
+        InstantId inst = *emptyIt;
         debugMsg("Profile:handleTimeChanged", "Removing instant at time " << inst->getTime());
         condDebugMsg(inst->getTransactions().empty(),
                      "Profile:handleTimeChanged", "because it has no transactions.");
         condDebugMsg(!containsChange(inst),
                      "Profile:handleTimeChanged", "because it does not mark a change.");
-        m_instants.erase(*emptyIt);
-        m_detector->notifyDeleted(inst);
-        delete static_cast<Instant*>(inst);
-      }
-    }
-      break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED: {
-      debugMsg("Profile:handleTimeChanged",
-               "Handling relaxation of transaction " << e << " at time " <<
-               e->time()->toString() << " with quantity " << e->quantity()->toString());
-      ProfileIterator it(m_id, startTime, endTime);
-      addInstantsForBounds(e);
-      std::vector<eint> emptyInstants;
-      while(!it.done()) {
-        InstantId inst = it.getInstant();
-        if(!containsChange(inst))
-          emptyInstants.push_back(inst->getTime());
-        else if(inst->getTransactions().find(e) == inst->getTransactions().end())
-          inst->addTransaction(e);
-        else
-          inst->updateTransaction(e);
-        it.next();
-      }
-      for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
-          emptyIt != emptyInstants.end(); ++emptyIt) {
-        std::map<eint, InstantId>::iterator instIt = m_instants.find(*emptyIt);
-        checkError(instIt != m_instants.end(),
-                   "Computed empty instant at time " << *emptyIt << " but no such instant exists.");
-        InstantId inst = instIt->second;
-        debugMsg("Profile:handleTimeChanged", "Removing instant at time " << inst->getTime());
-        condDebugMsg(inst->getTransactions().empty(), "Profile:handleTimeChanged", "because it has no transactions.");
-        condDebugMsg(!containsChange(inst), "Profile:handleTimeChanged", "because it does not mark a change.");
-        m_instants.erase(*emptyIt);
+        m_instants.erase(inst->getTime());
         m_detector->notifyDeleted(inst);
         delete static_cast<Instant*>(inst);
       }
@@ -436,6 +400,13 @@ void Profile::handleConstraintMessage(const ConstraintId c,
         setUpdateRequired(true);
 }
 
+void Profile::requireRecompute() {
+  m_needsRecompute = true;
+  id_cast<ProfilePropagator>(m_planDatabase->getConstraintEngine()->
+                             getPropagatorByName(ProfilePropagator::PROPAGATOR_NAME()))->
+      setUpdateRequired(true);
+}
+
 void Profile::temporalConstraintAdded(const ConstraintId c,
                                       const ConstrainedVariableId var,
                                       unsigned int argIndex) {
@@ -566,6 +537,10 @@ void Profile::handleRecompute() {
 
       initRecompute(inst);
       m_detector->initialize(inst);
+      // violations are reset for all instants
+      for(std::map<eint, InstantId>::iterator preceding = m_instants.begin();
+          preceding != m_instants.end() && preceding->first < inst->getTime(); ++preceding)
+        m_detector->detect(preceding->second);
 
       if (inst->getTime() == endTime) {
         endDiff.first = inst->getLowerLevel() - endDiff.first;
diff --git a/src/PLASMA/Resource/base/Profile.hh b/src/PLASMA/Resource/base/Profile.hh
index 50cb5a9..435e23f 100644
--- a/src/PLASMA/Resource/base/Profile.hh
+++ b/src/PLASMA/Resource/base/Profile.hh
@@ -113,6 +113,7 @@ class Profile : public FactoryObj {
 
  private:
   friend class ProfilePropagator;
+  friend class Resource;
   friend class ProfileIterator;
   friend class Instant;
 
@@ -195,6 +196,11 @@ class Profile : public FactoryObj {
 
   bool hasTransactions() {return !m_transactions.empty();}
 
+  /**
+   * @brief Have the profile recomputed by the next propagation.
+   */
+  void requireRecompute();
+
   void transactionTimeChanged(const TransactionId e, const DomainListener::ChangeType& change);
 
   void transactionQuantityChanged(const TransactionId e, const DomainListener::ChangeType& change);
@@ -303,6 +309,13 @@ class Profile : public FactoryObj {
    * @param t The transaction
    */
   virtual void addInstantsForBounds(const TransactionId t);
+  /**
+   * @brief Makes the Transaction part of all the Instants in the
+   * window of its time, adding those for its bounds if necessary.
+   *
+   * @param t The transaction
+   */
+  void addToInstants(const TransactionId t);
 
   /**
    * @brief Create an instant for a time.
diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 3f8b8ba..a347454 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -135,12 +135,19 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
            );
 }
 
-	void Resource::detectFV(const eint& time)
+	void Resource::detectFV(const eint&)
 	{
+		// if the levels have changed too, propagation will look for flaws and violations
+		if (m_profile->needsRecompute())
+			return;
+
+		// the new values apply to all the instants from the time they are given for, violations
+		// of tokens may come from other instants too
 		const std::map<eint, InstantId>& usages = m_profile->getInstants();
-		std::map<eint, InstantId>::iterator nextUsage = m_profile->getLeastInstant(time);
-		if (nextUsage != usages.end())
-			m_detector->detect(nextUsage->second);
+		m_detector->initialize();
+		bool violated = false;
+		for (std::map<eint, InstantId>::const_iterator it = usages.begin(); it != usages.end() && !violated; ++it)
+			violated = m_detector->detect(it->second);
 	}
 
   void Resource::setLimit(const eint& time, const edouble& lb, const edouble &ub)
@@ -369,6 +376,7 @@ void Resource::resetViolations(InstantId ) {
     if (getPlanDatabase()->getConstraintEngine()->getAllowViolations()) { // TODO: move this test to FVDetector?
       ProfileIterator it(m_profile);
       while(!it.done()) {
+        it.getInstant()->setViolated(false);
         notifyNoLongerViolated(it.getInstant());
         it.next();
       }
@@ -473,6 +481,19 @@ void Resource::resetViolations(InstantId ) {
     }
     if(m_flawedInstants.find(inst->getTime()) == m_flawedInstants.end())
       m_flawedInstants.insert(std::make_pair(inst->getTime(), inst));
+
+    //tokens whose transactions have left the instant since the flaw was recorded have no flaw there any more
+    std::set<TokenId> current;
+    for(std::vector<TransactionId>::const_iterator it = transactions.begin(); it != transactions.end(); ++it)
+      current.insert(m_transactionsToTokens.find(*it)->second);
+    for(ResourceFlaws::iterator it = m_flawedTokens.begin(); it != m_flawedTokens.end(); ) {
+      ResourceFlaws::iterator flawIt = it++;
+      TokenId tok = flawIt->first;
+      if(current.find(tok) == current.end() && flawIt->second.erase(inst) > 0 && flawIt->second.empty()) {
+        m_flawedTokens.erase(flawIt);
+        notifyOrderingNoLongerRequired(tok);
+      }
+    }
   }
 
   void Resource::notifyNoLongerFlawed(const InstantId inst) {
-- 
2.43.0


From 4e073549c24ba52c348edafae832347f040631ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:57 +0000
Subject: [PATCH 47/55] fix: flow profiles follow orderings that come and go,
 and changes of any transaction

---
 src/PLASMA/Resource/component/FlowProfile.cc | 247 ++++++-------------
 src/PLASMA/Resource/component/FlowProfile.hh |  24 ++
 2 files changed, 94 insertions(+), 177 deletions(-)

diff --git a/src/PLASMA/Resource/component/FlowProfile.cc b/src/PLASMA/Resource/component/FlowProfile.cc
index 29f4bd4..7e89793 100644
--- a/src/PLASMA/Resource/component/FlowProfile.cc
+++ b/src/PLASMA/Resource/component/FlowProfile.cc
@@ -45,7 +45,8 @@ FlowProfile::FlowProfile( const PlanDatabaseId db, const FVDetectorId flawDetect
     m_orderings(),
     m_orderedAt(),
     m_lowerLevelContribution(),
-    m_upperLevelContribution()
+    m_upperLevelContribution(),
+    m_orderingListener(db->getConstraintEngine(), this)
 {
   m_recomputeInterval = (new ProfileIterator(getId()))->getId();
 
@@ -153,11 +154,46 @@ bool FlowProfile::getEarliestUpperLevelInstant(const TransactionId t, InstantId&
 }
 
 
+void FlowProfile::forgetOrderings() {
+  // The transactions which are pending and the orderings between them are worked out again,
+  // as windows, distances and pending transactions may have changed since the last time
+  for(std::set<TransactionId>::const_iterator it = m_transactions.begin();
+      it != m_transactions.end(); ++it) {
+    m_lowerLevelGraph->removeTransaction(*it);
+    m_upperLevelGraph->removeTransaction(*it);
+  }
+  m_orderings.clear();
+  m_orderedAt.clear();
+}
+
+eint FlowProfile::getEarliestTime(const TransactionId t) {
+  const Domain& time = t->time()->lastDomain();
+  TransactionId2IntIntPair::iterator it = m_previousTimeBounds.find(t);
+  check_error(it != m_previousTimeBounds.end());
+  eint retval = it->second.first;
+  if(!time.isEmpty()) {
+    retval = std::min(retval, static_cast<eint>(time.getLowerBound()));
+    it->second = std::make_pair(static_cast<eint>(time.getLowerBound()),
+                                static_cast<eint>(time.getUpperBound()));
+  }
+  return retval;
+}
+
+void FlowProfile::recomputeFrom(eint start) {
+  // what changes at some time is carried over to all the later ones
+  if(m_recomputeInterval.isValid()) {
+    start = std::min(start, m_recomputeInterval->getStartTime());
+    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+  }
+  m_recomputeInterval = (new ProfileIterator(getId(), start, PLUS_INFINITY))->getId();
+}
+
 void FlowProfile::initRecompute(InstantId inst) {
   check_error(inst.isValid());
   
   debugMsg("FlowProfile:initRecompute","Instant (" << inst->getId() << ") at time "
            << inst->getTime() );
+  forgetOrderings();
   m_lowerClosedLevel = getInitCapacityLb();
   m_upperClosedLevel = getInitCapacityUb();
   
@@ -182,6 +218,7 @@ void FlowProfile::initRecompute(InstantId inst) {
     	checkError(m_recomputeInterval.isValid(), "Attempted to initialize recomputation without a valid starting point!");
 
     	debugMsg("FlowProfile:initRecompute","");
+    	forgetOrderings();
 
     	if( m_recalculateLowerLevel )
     		m_lowerLevelGraph->reset();
@@ -463,32 +500,13 @@ void FlowProfile::handleTransactionAdded(const TransactionId t) {
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
-
-  // startRecalculation = MINUS_INFINITY;
-  endRecalculation = PLUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
-
+  // a time which has no value left says nothing about where the transaction will be
+  const bool empty = t->time()->lastDomain().isEmpty();
   m_previousTimeBounds[ t ] =
-      std::make_pair(static_cast<eint>(t->time()->lastDomain().getLowerBound()),
-                     static_cast<eint>(t->time()->lastDomain().getUpperBound()));
+      std::make_pair(empty ? MINUS_INFINITY : static_cast<eint>(t->time()->lastDomain().getLowerBound()),
+                     empty ? PLUS_INFINITY : static_cast<eint>(t->time()->lastDomain().getUpperBound()));
 
-  debugMsg("FlowProfile:handleTransactionAdded","Set interval to [" << startRecalculation << "," << endRecalculation << "]");
+  recomputeFrom(m_previousTimeBounds[ t ].first);
 }
 
 void FlowProfile::enableTransaction( const TransactionId t, const InstantId inst )
@@ -513,25 +531,7 @@ void FlowProfile::handleTransactionRemoved( const TransactionId t ) {
   m_lowerLevelContribution.erase( t );
   m_upperLevelContribution.erase( t );
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
-
-  endRecalculation = PLUS_INFINITY;
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(getEarliestTime(t));
 
   m_previousTimeBounds.erase( t );
 }
@@ -543,64 +543,7 @@ void FlowProfile::handleTransactionTimeChanged(const TransactionId t,
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  switch( type) {
-    case DomainListener::UPPER_BOUND_DECREASED:
-    case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON:
-    case DomainListener::LOWER_BOUND_INCREASED:
-    case DomainListener::BOUNDS_RESTRICTED:
-      {
-        TransactionId2IntIntPair::const_iterator ite = m_previousTimeBounds.find( t );
-
-        // we should have the previous value!
-        check_error( ite != m_previousTimeBounds.end() );
-
-        eint previousStart =  (*ite).second.first;
-        eint previousEnd =  (*ite).second.second;
-
-        if( ProfileIteratorId::noId() != m_recomputeInterval )
-        {
-          startRecalculation = std::min( m_recomputeInterval->getStartTime(), previousStart );
-          endRecalculation = std::max( m_recomputeInterval->getEndTime(), previousEnd );
-        }
-        else
-        {
-          startRecalculation = previousStart;
-          endRecalculation = previousEnd;
-        }
-      }
-      break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED:
-      {
-        if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-          startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                        static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-          endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                      static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-        }
-        else {
-          startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-          endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-        }
-      }
-      break;
-    case DomainListener::REFTIME_CHANGED:
-    case DomainListener::VALUE_REMOVED:
-    case DomainListener::CLOSED:
-    case DomainListener::OPENED:
-    case DomainListener::EMPTIED:
-    default:
-      break;
-  };
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(getEarliestTime(t));
 
   debugMsg("FlowProfile:handleTransactionTimeChanged","TransactionId (" << t->getId() << ") change " << type );
 }
@@ -661,28 +604,31 @@ void FlowProfile::handleTransactionQuantityChanged(const TransactionId t,
       break;
   };
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
+  recomputeFrom(getEarliestTime(t));
 
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                  static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-    endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-    endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-  }
+  debugMsg("FlowProfile:handleTransactionQuantityChanged","TransactionId (" << t->getId() << ") change " << type << " to " << t->quantity()->toString() );
+}
 
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+FlowProfile::OrderingListener::OrderingListener(const ConstraintEngineId ce, FlowProfile* profile)
+    : ConstraintEngineListener(ce), m_profile(profile) {}
 
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+void FlowProfile::OrderingListener::notifyAdded(const ConstraintId constr) {
+  static const std::string temporal("Temporal");
+  if(constr->getPropagator()->getName() == temporal)
+    m_profile->handleOrderingsChanged();
+}
 
-  debugMsg("FlowProfile:handleTransactionQuantityChanged","TransactionId (" << t->getId() << ") change " << type << " to " << t->quantity()->toString() );
+void FlowProfile::OrderingListener::notifyRemoved(const ConstraintId constr) {
+  notifyAdded(constr);
+}
+
+void FlowProfile::handleOrderingsChanged() {
+  if(m_transactions.empty() || Entity::isPurging())
+    return;
+  m_recalculateLowerLevel = true;
+  m_recalculateUpperLevel = true;
+  recomputeFrom(MINUS_INFINITY);
+  requireRecompute();
 }
 
 void FlowProfile::handleTemporalConstraintAdded(const TransactionId predecessor,
@@ -696,32 +642,8 @@ void FlowProfile::handleTemporalConstraintAdded(const TransactionId predecessor,
 
       m_orderings.clear();
 
-      eint startRecalculation = PLUS_INFINITY;
-      eint endRecalculation = MINUS_INFINITY;
-
-      if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-        startRecalculation =
-            std::min( m_recomputeInterval->getStartTime(),
-                      std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                               static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-        endRecalculation =
-            std::max(m_recomputeInterval->getEndTime(),
-                     std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                              static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-      }
-      else {
-        startRecalculation =
-            std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-        endRecalculation =
-            std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-      }
-
-      if(m_recomputeInterval.isValid())
-        delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-      m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  // orderings may follow between other transactions too, wherever they are
+  recomputeFrom(MINUS_INFINITY);
 
       m_recalculateLowerLevel = true;
       m_recalculateUpperLevel = true;
@@ -742,37 +664,8 @@ void FlowProfile::handleTemporalConstraintRemoved(const TransactionId predecesso
   m_orderings.clear();
   m_orderedAt.clear();
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-    eint start = m_recomputeInterval->getStartTime();
-    eint end = m_recomputeInterval->getEndTime();
-
-    startRecalculation = 
-        std::min(start, 
-                 std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-    endRecalculation = 
-        std::max(end,
-                 std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-  }
-  else {
-    startRecalculation = 
-        std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-    endRecalculation = 
-        std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-  }
-
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = 
-      (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  // orderings may follow between other transactions too, wherever they are
+  recomputeFrom(MINUS_INFINITY);
 
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
diff --git a/src/PLASMA/Resource/component/FlowProfile.hh b/src/PLASMA/Resource/component/FlowProfile.hh
index d5eef4b..0fdb787 100644
--- a/src/PLASMA/Resource/component/FlowProfile.hh
+++ b/src/PLASMA/Resource/component/FlowProfile.hh
@@ -160,6 +160,28 @@ private:
   typedef boost::unordered_map< TransactionId, IntIntPair, TransactionIdHash > TransactionId2IntIntPair;
 #endif //_MSC_VER
 
+  void forgetOrderings();
+  eint getEarliestTime( const TransactionId t );
+  void recomputeFrom( eint start );
+
+  /**
+   * @brief Transactions may get ordered by temporal constraints between any timepoints
+   */
+  class OrderingListener : public ConstraintEngineListener {
+   public:
+    OrderingListener(const ConstraintEngineId ce, FlowProfile* profile);
+    void notifyAdded(const ConstraintId constr);
+    void notifyAdded(const ConstrainedVariableId v) {ConstraintEngineListener::notifyAdded(v);}
+    void notifyRemoved(const ConstraintId constr);
+    void notifyRemoved(const ConstrainedVariableId v) {ConstraintEngineListener::notifyRemoved(v);}
+   private:
+    OrderingListener(const OrderingListener&);
+    OrderingListener& operator=(const OrderingListener&);
+    FlowProfile* m_profile;
+  };
+
+  void handleOrderingsChanged();
+
   TransactionId2IntIntPair m_previousTimeBounds;
 
   TransactionId m_dummySourceTransaction;
@@ -180,6 +202,8 @@ private:
 
   TransactionId2InstantId m_lowerLevelContribution;
   TransactionId2InstantId m_upperLevelContribution;
+
+  OrderingListener m_orderingListener;
 };
 }
 
-- 
2.43.0


From 66a584c24c5a771bd8f868d00ce3688363bb0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 48/55] fix: a variable freed is announced even when its domain
 keeps the value

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 67936f1..5d22e3e 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -388,8 +388,14 @@ const std::string& ConstrainedVariable::getName() const {
     checkError(domain.isSubsetOf(internal_baseDomain()),
 				 domain.toString() << " not in " << internal_baseDomain().toString());
 
+    const bool freed = m_specifiedFlag && getCurrentDomain() == domain;
+
     m_specifiedFlag = false;
     getCurrentDomain().reset(domain);
+
+    // The domain has nothing to announce if it keeps its value, but the variable is free again
+    if(freed)
+      m_constraintEngine->notify(m_id, DomainListener::RESET);
   }
 
   void ConstrainedVariable::close() {
-- 
2.43.0


From 72ae6b8d886ee3f48422ffc6f73d4a733512dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 49/55] fix: splitting a token keeps the values its base domain
 provides

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index bf9d5f4..0a5b797 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -205,6 +205,10 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
     if(shouldBeSpecified || m_isLocallySpecified)
       return;
 
+    // Neither if its own base domain provides the value
+    if(this->isSpecified() && this->m_baseDomain->isClosed() && this->m_baseDomain->isSingleton())
+      return;
+
     // If it is already specified, reset it, otherwsie just relax it.
     if(this->isSpecified())
       Variable<DomainType>::reset(*(this->m_integratedBaseDomain));
-- 
2.43.0


From a3c7ae5ac9e49a0fb0c40932c28a637f14e71f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 50/55] fix: a guarded flaw handler whose guards hold on
 creation knows it applies

---
 src/PLASMA/Solvers/base/FlawHandler.cc | 2 +-
 src/PLASMA/Solvers/base/FlawManager.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Solvers/base/FlawHandler.cc b/src/PLASMA/Solvers/base/FlawHandler.cc
index 2cc56a8..25f32a7 100644
--- a/src/PLASMA/Solvers/base/FlawHandler.cc
+++ b/src/PLASMA/Solvers/base/FlawHandler.cc
@@ -327,7 +327,7 @@ FlawHandler::VariableListener::VariableListener(const ConstraintEngineId ce,
                                                 const FlawHandlerId flawHandler,
                                                 const std::vector<ConstrainedVariableId>& scope)
   : ConstraintEngineListener(ce),
-    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(false), m_scope(scope) {}
+    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(flawHandler->test(scope)), m_scope(scope) {}
   
 void FlawHandler::VariableListener::notifyChanged(const ConstrainedVariableId variable,
 						  const DomainListener::ChangeType&) {
diff --git a/src/PLASMA/Solvers/base/FlawManager.cc b/src/PLASMA/Solvers/base/FlawManager.cc
index 34c1bcf..2b33020 100644
--- a/src/PLASMA/Solvers/base/FlawManager.cc
+++ b/src/PLASMA/Solvers/base/FlawManager.cc
@@ -603,7 +603,7 @@ FlawManager::FlawManager(const TiXmlElement& configData)
           m_flawHandlerGuards.insert(std::make_pair(entity->getKey(),
 						    guardListener));
           // If we are not yet ready to move on.
-          if(!candidate->test(guards))
+          if(!guardListener->isApplied())
             continue;
         }
 
-- 
2.43.0


From ad070aed3426438267014bcd56defade030ed423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 51/55] fix: a solver that meets a conflict before a step
 backtracks instead of claiming exhaustion

---
 src/PLASMA/Solvers/base/Solver.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index c41fe21..3bd6945 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -292,16 +292,29 @@ const std::string& Solver::getName() const { return m_name;}
 
       checkError(!m_exhausted, "Cannot be exhausted when about to commence a step." << sl_counter);
 
-      m_baseConflictLevel = m_db->getConstraintEngine()->getViolation();
+      // Unless violations are allowed, any conflict is one too many
+      m_baseConflictLevel = (m_db->getConstraintEngine()->getAllowViolations() ? m_db->getConstraintEngine()->getViolation() : 0.0);
       debugMsg("Solver:step", "Conflict level prior to propagation: " << m_baseConflictLevel);
       m_db->getClient()->propagate();
       debugMsg("Solver:step", "Conflict level after propagation: " << m_db->getConstraintEngine()->getViolation());
 
-      // If inconsistent, before doing anything, there is no solution.
+      // If inconsistent, before doing anything, there is no solution that extends the standing decisions.
       if(!conflictLevelOk()){
-        m_exhausted = true;
         debugMsg("Solver:step", "No solution prior to stepping. Conflict before propagation: " << m_baseConflictLevel << ", after propagation:" << m_db->getConstraintEngine()->getViolation());
-        publish(notifyExhausted);
+
+        // Nothing that could be chosen for the decision being worked on would help
+        if(m_activeDecision.isId()){
+          publish(notifyRetractNotDone,m_activeDecision);
+          publish(notifyDeleted,m_activeDecision);
+          delete static_cast<DecisionPoint*>(m_activeDecision);
+          m_activeDecision = DecisionPointId::noId();
+        }
+
+        m_exhausted = backtrack();
+
+        if(m_exhausted)
+          publish(notifyExhausted);
+
         return;
       }
 
-- 
2.43.0


From 85a415e2b4f22ad71b43d0fa4de8c2e0f1241c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 52/55] fix: the limits of a solver count from a floor that is
 never above the count

---
 src/PLASMA/Solvers/base/Solver.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 3bd6945..9f94596 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -337,8 +337,9 @@ const std::string& Solver::getName() const { return m_name;}
         return;
       }
 
+      // Backtracking may go below the depth from which it is counted
       if(m_maxSteps <= getStepCount() - m_stepCountFloor || 
-         m_maxDepth < getDepth() - m_depthFloor){
+         (getDepth() > m_depthFloor && m_maxDepth < getDepth() - m_depthFloor)){
         debugMsg("Solver:step", 
                  "Timeout!  Max steps: " << m_maxSteps << " step (above floor) " << 
                  getStepCount() - m_stepCountFloor <<
@@ -476,6 +477,8 @@ const std::string& Solver::getName() const { return m_name;}
       }
 
       m_stepCount = 0;
+      m_stepCountFloor = 0;
+      m_depthFloor = std::min(m_depthFloor, getDepth());
       m_noFlawsFound = false;
       m_exhausted = false;
       m_timedOut = false;
@@ -504,6 +507,8 @@ const std::string& Solver::getName() const { return m_name;}
       // Now backtrack the last choice
       m_exhausted = backtrack();
       m_stepCount = 0;
+      m_stepCountFloor = 0;
+      m_depthFloor = std::min(m_depthFloor, getDepth());
       m_noFlawsFound = false;
       m_timedOut = false;
 
-- 
2.43.0


From a366600e5e039f7571a39cd781ee41e8cdb32d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 53/55] fix: the flaw iterator of a solver skips no flaw

---
 src/PLASMA/Solvers/base/Solver.cc | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 9f94596..09dbaff 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -577,23 +577,13 @@ Solver::FlawIterator::FlawIterator(const FlawManagers& flawManagers)
       if(done())
         return EntityId::noId();
 
-      IteratorId it = (*m_it);
-      //if current iterator is done, move to the next one
-      //and return that iterator's next
-      if(it->done()) {
-        ++m_it;
-        return next();
-      }
+      //the current iterator always has a next entity
+      EntityId retval = (*m_it)->next();
 
-      EntityId retval = EntityId::noId();
-      //get the next entity
-      retval = it->next();
-
-      //it's possible that it's returning a noId because
-      //it's nearly done, so the previous call should bump it
-      //into doneness.  call next to bump the meta-iterator forward.
-      if(it->done())
-        next();
+      //if it is done now, move to the next one that is not, without
+      //consuming anything from it
+      while(m_it != m_iterators.end() && (*m_it)->done())
+        ++m_it;
 
       return retval;
     }
-- 
2.43.0


From 70b2ac0631066325d49e352c6cde16bcde066c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 54/55] fix: no more flaws of a manager considers the
 candidates that are excluded

---
 src/PLASMA/Solvers/component/OpenConditionManager.cc   | 6 +++++-
 src/PLASMA/Solvers/component/UnboundVariableManager.cc | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Solvers/component/OpenConditionManager.cc b/src/PLASMA/Solvers/component/OpenConditionManager.cc
index 669f19a..23801ca 100644
--- a/src/PLASMA/Solvers/component/OpenConditionManager.cc
+++ b/src/PLASMA/Solvers/component/OpenConditionManager.cc
@@ -27,7 +27,11 @@ OpenConditionManager::OpenConditionManager(const TiXmlElement& configData)
     }
   
   bool OpenConditionManager::noMoreFlaws() {
-    return m_flawCandidates.empty();
+    // Candidates may still be excluded
+    IteratorId it = createIterator();
+    const bool none = it->done();
+    delete static_cast<Iterator*>(it);
+    return none;
   }
 
 
diff --git a/src/PLASMA/Solvers/component/UnboundVariableManager.cc b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
index aae4cf3..9bcc536 100644
--- a/src/PLASMA/Solvers/component/UnboundVariableManager.cc
+++ b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
@@ -199,7 +199,11 @@ UnboundVariableManager::UnboundVariableManager(const TiXmlElement& configData)
     }
 
   bool UnboundVariableManager::noMoreFlaws() {
-    return m_flawCandidates.empty();
+    // Candidates may still be excluded
+    IteratorId it = createIterator();
+    const bool none = it->done();
+    delete static_cast<Iterator*>(it);
+    return none;
   }
 
     class UnboundVariableIterator : public FlawIterator {
-- 
2.43.0


From 515921192d5f3d0b605b8379df3e33ade57e04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:11 +0000
Subject: [PATCH 55/55] fix: neq excludes a value once a bound of the interval
 reaches it

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 5fd3d9f..4e24d56 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -721,7 +721,7 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
   }
 
 bool NotEqualConstraint::canIgnore(const ConstrainedVariableId variable,
-                                   unsigned int,
+                                   unsigned int argIndex,
                                    const DomainListener::ChangeType& changeType) {
   if(changeType==DomainListener::RESET || changeType == DomainListener::RELAXED)
     return false;
@@ -732,6 +732,10 @@ bool NotEqualConstraint::canIgnore(const ConstrainedVariableId variable,
      (domain.isInterval() && domain.isFinite() && domain.getSize() <=2 )) // Since this transition is key for propagation
     return false;
 
+  // A bound may have moved onto the value to be excluded
+  if(domain.isInterval() && m_variables[argIndex == 0 ? 1 : 0]->lastDomain().isSingleton())
+    return false;
+
   return true;
 }
 
-- 
2.43.0

