From 480bbceade004b5d1ebe86b1f1d3e593b2f30d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 01/55] fix: Signal::resize keeps the slope of a segment that
 spans the new start

When every sample lies before the new start, the sample created there had slope 0
although the signal goes on until its end time, so the last segment became flat.
---
 src/signal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..2f435a1 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,7 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                push_front(Sample(s, first.valueAt(s), (s < endTime) ? first.derivative : 0));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From daa0edb4061f2e67a89ff15abc9bca0a1d4bb548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 02/55] fix: eventually no longer truncates the signal of its
 operand

The operand's signal is read again for the lower and upper bounds.
---
 src/transducer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index dae6f67..b5abc76 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -174,8 +174,6 @@ namespace STLRom {
         
 
         double et = min(z.endTime,end_time);
-        (child->z).resize(et-b, (child->z).endTime, 0.);
-
         z.resize(start_time,max(start_time,et), 0.);
 
 #ifdef DEBUG__
-- 
2.43.0


From b0dd6ff3e181c5df8f405108fd0ad668dc8dccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 03/55] fix: Signal::simplify stops early when two samples
 share the start time

The loop was ended by the first sample at beginTime, so a zero-length segment at the
start left the remaining samples in the wrong order.
---
 src/signal.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 2f435a1..06e1d10 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,10 +124,15 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        size_t remaining = size();
         push_back(front());
         pop_front();
-        while (front().time != beginTime) {
-            if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
+        while (--remaining > 0) {
+            if (back().time == front().time) {
+                // zero-length segment: the later sample is the one that counts
+                back() = front();
+            }
+            else if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
                 push_back(front());
             }
             pop_front();
-- 
2.43.0


From ecefc891b1099a4dcce95da636f93c02d153b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 04/55] fix: and/or/until on signals with a single common
 instant

When the common domain of the operands is one point, the loops that skip the
samples at its end ran past the beginning of the operands.
---
 src/robustness.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..0f45ce0 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -679,9 +679,9 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
@@ -714,9 +714,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 
@@ -806,9 +806,9 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	s = z->beginTime;
-- 
2.43.0


From 8e558e502191a52643201b3bd5f83b7e3c2cb843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 05/55] fix: until over a single-point interval

until_[a,a] asked for the maximum over a window of length 0, which read past the end
of the candidate list. The signal allocated first and overwritten is not needed.
---
 src/robustness.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 0f45ce0..b91f847 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -903,9 +903,10 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	Signal *z, *z2, *z3, *z4;
 
-	z = new Signal();
-
-	z2 = computeBoundedEventually(y, b - a);
+	if (b - a > 0)
+		z2 = computeBoundedEventually(y, b - a);
+	else
+		z2 = new Signal(*y);
 
 	z3 = computeUntil(x, y);
 	z4 = computeAnd(z2, z3);
-- 
2.43.0


From 1cd14d1bd4ac61719accef888981eade5701fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 06/55] fix: until on signals shorter than its interval

Whether the interval fits was decided from the end times alone, so signals that do
not start at time 0 and are shorter than the interval were read past their end.
---
 src/robustness.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index b91f847..d9f83d8 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -384,12 +384,15 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime))
+	// length of the part of the window that both signals cover
+	double length = std::min(y1.endTime, y2.endTime) - y1.beginTime;
+
+	if(b > length)
 	{
 		if (a==0)
 			yunt = computeUntil(&y1,&y2);
 		else
-			if (a > y1.endTime) {
+			if (a > length) {
 				yunt = computeGlobally(&y1);
 			}
 			else
-- 
2.43.0


From f8af6a4e349cc9e3c4aa8bd5b2e557e48531a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 07/55] fix: the robustness signal of until covers the
 requested times

It was made to start at time 0 and to go beyond the end time; now it is trimmed as
those of the other temporal operators.
---
 src/transducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index b5abc76..416021a 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -279,7 +279,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        z.resize(0.,z.endTime,0.);
+        double et = min(z.endTime,end_time);
+        z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
 
-- 
2.43.0


From 3aea3a7b067cf6e8fa4b1dd890b93b8958413f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 08/55] fix: bounds of until on a partial trace

The upper bound ignored what the rest of the trace may bring (and was unsound); the
unknown future now counts as TOP. When the lower bound is not known yet, its signal is
BOTTOM instead of empty, which enclosing operators read.
---
 src/interval_transducer.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..d044ebd 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,8 +297,14 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        double lowL = childL->compute_lower_rob();
+        double lowR = childR->compute_lower_rob();
+        double known = min(childL->z_low.endTime, childR->z_low.endTime);
+        if (lowL==BOTTOM || lowR==BOTTOM || known < start_time + a) {
+            // nothing known about the instants where the right operand counts
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
@@ -318,11 +324,17 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        childL->compute_upper_rob();
+        childR->compute_upper_rob();
+
+        // what is not known yet can be anything
+        Signal upL = childL->z_up;
+        Signal upR = childR->z_up;
+        if (upL.endTime < end_time + b) upL.resize(upL.beginTime, end_time + b, TOP);
+        if (upR.endTime < end_time + b) upR.resize(upR.beginTime, end_time + b, TOP);
 
-        z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        double et =min(z_up.endTime-b,end_time);
+        z_up.compute_timed_until(upL, upR, a, b);
+        double et =min(z_up.endTime,end_time);
         z_up.resize(start_time,max(start_time,et),0.);
 
         if (z_up.empty())
-- 
2.43.0


From c5b065c70abbf09913d9182cc1b93775abc31d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 09/55] fix: crossing of two almost equal segments stays inside
 their interval

When two segments differ by rounding errors only, their values could compare as if they
crossed although they are parallel; the time computed then was NaN or far away, and so
was the robustness.
---
 src/robustness.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index d9f83d8..e9e0e7a 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -933,6 +933,15 @@ Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
  *                         CONJUNCTION SUBROUTINES                           *
  *---------------------------------------------------------------------------*/
 
+// Time at which the lines of i and j cross in [s,t]. With lines that are (almost) equal, rounding
+// alone can suggest that they cross while the intersection is out of [s,t] or does not exist.
+static double crossingTime(const Sample & i, const Sample & j, double s, double t) {
+	double c = i.timeIntersect(j);
+	if (!(c > s))
+		return s;
+	return (c < t) ? c : t;
+}
+
 //PRECONDITIONS: j->time < t, i.time < t.
 //POSTCONDITIONS: j->time <= i.time.
 void computeSegmentAnd(Signal * z, const Sample & i, double t,
@@ -944,7 +953,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) < j->valueAt(t)) {
 			if (i.valueAt(s) > j->value) {
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -964,7 +973,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -987,7 +996,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) < j->valueAt(t)) {
 		if (i.value > j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1007,7 +1016,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -1055,7 +1064,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) > j->valueAt(t)) {
 			if (i.valueAt(s) < j->value) {
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -1075,7 +1084,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1098,7 +1107,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) > j->valueAt(t)) {
 		if (i.value < j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1118,7 +1127,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
-- 
2.43.0


From c0762944df6f3e68473a503d57ab4ed735be2ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 10/55] fix: running maximum on a segment that starts before
 the interval

The time at which the segment falls to the maximum of the future was counted from the
start of the interval instead of the start of the segment.
---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index e9e0e7a..ba5ad96 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1229,7 +1229,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From 61f9c53b44952ea5cca00fcce5104ef1e25ce5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 11/55] fix: upper bound before any sample reached the
 evaluation time is TOP

It was BOTTOM, below the robustness of every continuation of the trace.
---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index d044ebd..255dc3e 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From 345bdb431f157e4a9fe0dac775769e1c29c12087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 12/55] fix: right time robustness read past the end of the
 Boolean signal

The end test compared with the end of another container.
---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index ba5ad96..3612de3 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -90,7 +90,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From 51cdcd66bdbcd4d6b65fd1fb32c29da3ba5bd0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 13/55] fix: evaluating the bounds no longer reads samples
 beyond the end time

Each of the three evaluations of a formula appended one more sample, which changed the
slope of the last segment of the signal.
---
 src/stl_atom.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 49ce337..9bad236 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -78,7 +78,8 @@ namespace STLRom {
         double t=0., v=0.;  
         double res= 0.;
             
-        if (i) {
+        // the bounds evaluate this again: nothing to read once end_time is reached
+        if (i && (z.empty() || z.endTime < end_time)) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
                 t = (trace_data_ptr->at(td_idx))[0];
                 v = (trace_data_ptr->at(td_idx))[i];
@@ -119,10 +120,13 @@ namespace STLRom {
 
         double t=0.;  
             
-        while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
-            t = (trace_data_ptr->at(td_idx))[0];
-            z.appendSample(t, value);
-            td_idx++;
+        // the bounds evaluate this again: nothing to read once end_time is reached
+        if (z.empty() || z.endTime < end_time) {
+            while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
+                t = (trace_data_ptr->at(td_idx))[0];
+                z.appendSample(t, value);
+                td_idx++;
+            }
         }
 		
         if (t>end_time)  
-- 
2.43.0


From cba811bf72defe71956c9e9f4486e16d7b1759fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 14/55] fix: predicates over expressions cover the whole
 horizon

The result of +, -, * and abs ended at the last sample before the end of the horizon,
so the predicate ignored the last part of its operands.
---
 src/signal_expr.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 1089e80..87ce8a3 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -14,6 +14,17 @@ using namespace std;
 
 namespace STLRom {
 
+/* The operands of an expression go on until their end time, after their last sample: close the
+ * last segment with the value v of the expression there. */
+static void close_last_segment(Signal &z, double t, double v) {
+
+	if (z.empty())
+		return;
+	if (t > z.back().time)
+		z.back().derivative = (v - z.back().value) / (t - z.back().time);
+	z.endTime = t;
+}
+
 /* Unary operators on signals */
 
 double abs_transducer::compute_robustness() {
@@ -29,6 +40,8 @@ double abs_transducer::compute_robustness() {
 		double v = (*iter).value;
 		z.appendSample(t, fabs(v));
 	}
+	double te = child->z.endTime;
+	close_last_segment(z, te, fabs(child->z.back().valueAt(te)));
 	return z.front().value;
 }
 
@@ -51,6 +64,8 @@ double plus_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL+vR);
 	}
+	double te = childL->z.endTime;
+	close_last_segment(z, te, childL->z.back().valueAt(te) + childR->z.back().valueAt(te));
 	return z.front().value;
 }
 
@@ -69,6 +84,8 @@ double minus_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL-vR);
 	}
+	double te = childL->z.endTime;
+	close_last_segment(z, te, childL->z.back().valueAt(te) - childR->z.back().valueAt(te));
 	return z.front().value;
 }
 
@@ -87,6 +104,8 @@ double mult_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL*vR);
 	}
+	double te = childL->z.endTime;
+	close_last_segment(z, te, childL->z.back().valueAt(te) * childR->z.back().valueAt(te));
 	return z.front().value;
 }
 
-- 
2.43.0


From eda7ed301c658b8dda9a3d3bb49ad32769faad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 15/55] fix: and/or/until keep a sample that lies on the end of
 the signals

---
 src/robustness.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 3612de3..8f516ef 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -15,6 +15,22 @@ using namespace std;
 
 namespace STLRom { 
 
+// Value of x at time t, where a sample at t counts.
+static double valueAtEnd(const Signal & x, double t) {
+	Signal::const_reverse_iterator i = x.rbegin();
+	while ((i->time > t) && i != x.rend()-1)
+		i++;
+	return i->valueAt(t);
+}
+
+// The segments of z only give its limit at the end time: closes z with its value v there.
+static void setEndValue(Signal & z, double v) {
+	if (z.back().time < z.endTime)
+		z.push_back(Sample(z.endTime, v, 0.));
+	else
+		z.back().value = v;
+}
+
 void Signal::compute_boolean(const Signal &y) {
 	clear();
 	beginTime = y.beginTime;
@@ -128,8 +144,10 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
+	double vx = valueAtEnd(x, endTime), vy = valueAtEnd(y, endTime);
 	computePartialAnd(this, i, j, this->beginTime, this->endTime);
 	simplify();
+	setEndValue(*this, fmin(vx, vy));
 
 }
 
@@ -147,8 +165,10 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
+	double vx = valueAtEnd(x, endTime), vy = valueAtEnd(y, endTime);
 	computePartialOr(this, i, j, beginTime, endTime);
 	simplify();
+	setEndValue(*this, fmax(vx, vy));
 
 }
 
@@ -687,8 +707,10 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
+	double vx = valueAtEnd(*x, z->endTime), vy = valueAtEnd(*y, z->endTime);
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	setEndValue(*z, fmin(vx, vy));
 
 	return z;
 }
@@ -728,8 +750,10 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
+	double vx = valueAtEnd(*x, z->endTime), vy = valueAtEnd(*y, z->endTime);
 	computePartialOr(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	setEndValue(*z, fmax(vx, vy));
 
 #ifdef DEBUG__
 	cout << "<  computeOr:                                 OUT." << endl;
@@ -800,7 +824,6 @@ Signal * computeUntil(Signal * x, Signal * y) {
 #endif
 
 	double s, t;
-	double z_max = BOTTOM;
 	Signal * z = new Signal();
 
 	Signal::const_reverse_iterator i = x->rbegin();
@@ -809,6 +832,10 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
+	double vx = valueAtEnd(*x, z->endTime), vy = valueAtEnd(*y, z->endTime);
+	double z_end = fmin(vx, vy);
+	double z_max = z_end;
+
 	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
 	while ((j->time >= z->endTime) && j != y->rend()-1)
@@ -835,6 +862,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 				z_max);
 
 	z->simplify();
+	setEndValue(*z, z_end);
 
 #ifdef DEBUG__
 	cout << "<  computeUntil:                              OUT." << endl;
-- 
2.43.0


From 1a90ddce3c6ec8f6e901f364fa15aa375c270771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 16/55] fix: Boolean version of a signal that rises from
 exactly zero

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 8f516ef..b6b6a8b 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -56,7 +56,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 		else {
 			push_back(Sample(i->time, 0. , 0.));
-			if ((v<0.)&&(d>0.)) {
+			if ((v<=0.)&&(d>0.)) {
 				double t_zero_cross = i->time-v/d;
 				if (t_zero_cross < next_time) 
 					push_back(Sample(t_zero_cross, 1. , 0));
-- 
2.43.0


From 409c3945633b0d33bde4997aa44ca32348ca15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 17/55] fix: Boolean version of a signal keeps the sample at
 its end

---
 src/robustness.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index b6b6a8b..045ba00 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -64,7 +64,8 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	// simplify may have added a sample at the end that only repeats the last value
+	if (size() > 1 && back().time == endTime && back().value == std::prev(end(), 2)->value) {
 		pop_back();
 	}
 }
-- 
2.43.0


From 4115ef4886de2899e73443878bbf5c04af3b3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 18/55] fix: each legacy test owns its formula

stl_test was copied member by member and deleted its formula, so a driver with tests could not be
copied, and clear() deleted the formulas of queued tests twice.
---
 include/stl_driver.h | 24 ++++++++++++++++++++++++
 src/stl_driver.cpp   | 26 +-------------------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 34df455..3fdd9b4 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -38,6 +38,30 @@ namespace STLRom
                                                             is_error(_is_err) {
                                                             };
 
+        stl_test(const stl_test &other) : test_id(other.test_id),
+                                          param_map(other.param_map),
+                                          formula(other.formula ? other.formula->clone() : nullptr),
+                                          report_positive(other.report_positive),
+                                          report_negative(other.report_negative),
+                                          is_error(other.is_error)
+        {
+        }
+
+        stl_test &operator=(const stl_test &other)
+        {
+            if (this != &other)
+            {
+                delete formula;
+                test_id = other.test_id;
+                param_map = other.param_map;
+                formula = other.formula ? other.formula->clone() : nullptr;
+                report_positive = other.report_positive;
+                report_negative = other.report_negative;
+                is_error = other.is_error;
+            }
+            return *this;
+        }
+
         ~stl_test()
         {
             delete formula;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..7099e6b 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -206,30 +206,11 @@ namespace STLRom
 			}
 		}
 
-		for (auto stest = stl_test_map.begin(); stest != stl_test_map.end(); stest++)
-		{
-			if (stest->second.formula != 0)
-			{
-				delete stest->second.formula;
-				stest->second.formula = 0;
-			}
-		}
-
 		formula_map.clear();
 		param_map.clear();
 		stl_test_map.clear();
 
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
+		trace_test_queue.clear();
 		report.clear();
 		test_log.clear();
 		error_flag = false;
@@ -402,7 +383,6 @@ namespace STLRom
 			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
 			{
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
@@ -428,7 +408,6 @@ namespace STLRom
 				//				cout << endl;
 
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map = local_param_map;
 			}
 		}
@@ -451,10 +430,7 @@ namespace STLRom
 			//			cout << endl;
 
 			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
 			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
 		}
 	}
 
-- 
2.43.0


From c5f99382b4b065c0f885f3c2e13b32d29a41bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 19/55] fix: legacy tests read the driver's data and parameters

run_tests set the trace of the top node only: the predicates went on with the read position and the
trace they were parsed with, and the parameters of the driver and of the test block were ignored.
---
 src/stl_driver.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 7099e6b..3ce96fd 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -294,19 +294,21 @@ namespace STLRom
 
 			report.append("stl_test " + trace_test_queue.front().id + "\n");
 
-			// Initialize global parameters
-			// transducer->param_map =  param_map; FIXME
+			Signal::semantics = semantics;
+			Signal::interpol = interpol;
 
 			while (formula != nullptr)
 			{
 
-				// initialize local parameters FIXME
-				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
-				//	transducer->param_map[elem->first] = elem->second;
-				//}
+				// driver parameters, overridden by the local ones of the test
+				map<string, double> test_param_map = param_map;
+				for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++)
+					test_param_map[elem->first] = elem->second;
 
-				formula->trace_data_ptr = &data;
-				formula->init_horizon();
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(test_param_map);
+				formula->reset();
+				formula->set_horizon(0., 0.);
 				double rob = formula->compute_robustness();
 
 				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
-- 
2.43.0


From b42734463c9af8985e0154d8ab865573c6d41e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 20/55] fix: run_tests without any test left

It took the front of the empty queue off.
---
 src/stl_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 3ce96fd..0dabc96 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -337,7 +337,7 @@ namespace STLRom
 			}
 		}
 		report += "\n";
-		trace_test_queue.pop_front();
+		pop_next_trace_test();
 		return error_flag;
 	}
 
-- 
2.43.0


From 43025069c45d522999dcd16cf107ece4ed6fc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 21/55] fix: dump evaluates every formula on the driver's data
 and parameters

As for run_tests, only the top node was given the trace, and results of earlier evaluations were kept.
---
 src/stl_driver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 0dabc96..925cbe3 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -269,12 +269,15 @@ namespace STLRom
 	void STLDriver::dump()
 	{
 
-		// transducer::param_map = param_map; FIXME
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
 
 		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
 		{
-			formula->second->trace_data_ptr = &data;
-			formula->second->init_horizon();
+			formula->second->set_trace_data_ptr(data);
+			formula->second->set_param_map_ptr(param_map);
+			formula->second->reset();
+			formula->second->set_horizon(0., 0.);
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
 		}
-- 
2.43.0


From 36d3376bd809482a2c9b238d0026d9ad917b6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 22/55] fix: a copied monitor keeps the signal of the last
 evaluation

The copy had the robustness and the bounds of its source, but get_signal returned an empty signal.
---
 include/stl_monitor.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 9cd3de0..019c0ba 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -30,6 +30,14 @@ namespace STLRom
 
         STLMonitor() : interpol(Interpol::LINEAR), semantics(Semantics::SPACE), formula(nullptr), rob(0.0), lower_rob(0.0), upper_rob(0.0), start_time(0.0), end_time(0.0) {}
 
+        // the results of the last evaluation, which clone() leaves out
+        inline void copy_signals(const STLMonitor &other)
+        {
+            formula->z = other.formula->z;
+            formula->z_low = other.formula->z_low;
+            formula->z_up = other.formula->z_up;
+        }
+
         // Copy constructor
         STLMonitor(const STLMonitor &other)
             : interpol(other.interpol),
@@ -42,6 +50,7 @@ namespace STLRom
             if (other.formula)
             {
                 formula = other.formula->clone();
+                copy_signals(other);
             }
             else
             {
@@ -71,6 +80,7 @@ namespace STLRom
                 if (other.formula)
                 {
                     formula = other.formula->clone();
+                    copy_signals(other);
                 }
                 else
                 {
-- 
2.43.0


From a4730221e0205ddc95aaf00fd24d4b281463bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 23/55] fix: add_sample rejects a time that is not a number

NaN is not strictly greater than the time of the last sample, but compared false with it and got in.
---
 src/stl_driver.cpp  | 2 +-
 src/stl_monitor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 925cbe3..a4a942c 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -445,7 +445,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (!data.empty() && !(s[0] > data.back()[0]))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index 3769d2c..326fc3a 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -18,7 +18,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (!data.empty() && !(s[0] > data.back()[0]))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From 84e035df6307cb15649370763fb856430ae13f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 24/55] fix: reading a signal that the samples do not have

Samples that were added before a signal was declared have no column for it; the value was read
beyond the end of the sample. An exception is thrown instead.
---
 src/stl_atom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 9bad236..4411d57 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -81,8 +81,8 @@ namespace STLRom {
         // the bounds evaluate this again: nothing to read once end_time is reached
         if (i && (z.empty() || z.endTime < end_time)) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
-                t = (trace_data_ptr->at(td_idx))[0];
-                v = (trace_data_ptr->at(td_idx))[i];
+                t = trace_data_ptr->at(td_idx).at(0);
+                v = trace_data_ptr->at(td_idx).at(i);
                 // cout << "t: " << t << " v: " << v << endl;
                 z.appendSample(t, v);
                 td_idx++;
@@ -123,7 +123,7 @@ namespace STLRom {
         // the bounds evaluate this again: nothing to read once end_time is reached
         if (z.empty() || z.endTime < end_time) {
             while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
-                t = (trace_data_ptr->at(td_idx))[0];
+                t = trace_data_ptr->at(td_idx).at(0);
                 z.appendSample(t, value);
                 td_idx++;
             }
-- 
2.43.0


From 1bc983e2685a10a25b64a32926c7cb0f1c664dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 25/55] fix: read_trace reads exactly the numbers of the file

A blank at the end of a line, as dump_trace_file writes it, gave every sample one more value, a last
line without newline was dropped, and text that is not a number was an endless loop.
---
 src/tools.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index c14223e..596a654 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -115,15 +115,15 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	}
 
 	string line;
-	while (!std::getline(file, line, '\n').eof()) {
+	while (std::getline(file, line)) {
 		istringstream reader(line);
 		vector<double> lineData;
-		while (!reader.eof()) {
-			double val;
-			reader >> val;
+		double val;
+		while (reader >> val) {
 			lineData.push_back(val);
 		}
-		data.push_back(lineData);
+		if (!lineData.empty())
+			data.push_back(lineData);
 	}
 	file.close();
 	return true;
-- 
2.43.0


From 0ec2558641fab090d1b1d51ba6538ad88c9de330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 26/55] fix: a zero byte or a non-ASCII character is not the
 end of the input

---
 src/stl_scanner.cpp | 2 +-
 src/stl_scanner.lpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index 87e1ad3..e727918 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -1037,7 +1037,7 @@ case 31:
 YY_RULE_SETUP
 #line 163 "stl_scanner.lpp"
 {
-    return static_cast<token_type>(*yytext);
+    return static_cast<token_type>(*yytext > 0 ? *yytext : 1); // 0 and below would be the end of the input
 }
 	YY_BREAK
 case 32:
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index 082195c..e753523 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -161,7 +161,7 @@ typedef STLRom::Parser::token_type token_type;
 
 
 . {
-    return static_cast<token_type>(*yytext);
+    return static_cast<token_type>(*yytext > 0 ? *yytext : 1); // 0 and below would be the end of the input
 }
 
 
-- 
2.43.0


From 314f2c0fcd974f48823526b074a91f4d930219cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 27/55] fix: a dot without a digit is not a number

---
 src/stl_scanner.cpp | 4 ++--
 src/stl_scanner.lpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index e727918..e40e724 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -998,9 +998,9 @@ case 27:
 YY_RULE_SETUP
 #line 133 "stl_scanner.lpp"
 {
+    if (yyleng < 2 || (yyleng == 2 && (*yytext == '-' || *yytext == '+')))
+        return static_cast<token_type>('.'); // no digit
     yylval->stringVal = new std::string(yytext, yyleng);
-    //cout <<  *yylval->stringVal  << " is a CONSTANT "<< endl; 
-
     return token::CONSTANT;
 }
 	YY_BREAK
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index e753523..76a0d7e 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -131,9 +131,9 @@ typedef STLRom::Parser::token_type token_type;
 }
 
 [-+]?[0-9]*\. {
+    if (yyleng < 2 || (yyleng == 2 && (*yytext == '-' || *yytext == '+')))
+        return static_cast<token_type>('.'); // no digit
     yylval->stringVal = new std::string(yytext, yyleng);
-    //cout <<  *yylval->stringVal  << " is a CONSTANT "<< endl; 
-
     return token::CONSTANT;
 }
 
-- 
2.43.0


From c00794883883f4693d3037c0627d73e2b5e72281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 28/55] fix: evaluating at a negative time reads the trace up
 to that time

---
 src/stl_atom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 4411d57..f347a68 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -75,7 +75,7 @@ namespace STLRom {
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
         short i = signal_map[variable];
-        double t=0., v=0.;  
+        double t=-numeric_limits<double>::infinity(), v=0.;
         double res= 0.;
             
         // the bounds evaluate this again: nothing to read once end_time is reached
@@ -118,7 +118,7 @@ namespace STLRom {
                 cout << "Parameter " << param << " not found (?)." << endl;                
         }
 
-        double t=0.;  
+        double t=-numeric_limits<double>::infinity();
             
         // the bounds evaluate this again: nothing to read once end_time is reached
         if (z.empty() || z.endTime < end_time) {
-- 
2.43.0


From 52bbd37a97adaccd457f2c8d10e3e3e68b1ce04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 29/55] fix: evaluating without any sample read is an error,
 not an access to an empty signal

---
 src/stl_atom.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index f347a68..89c5026 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -89,6 +89,9 @@ namespace STLRom {
 			}
 		}
 
+        if (z.empty())
+            throw std::invalid_argument("No sample to evaluate on");
+
         if (t>end_time)  
             z.endTime = end_time;
         
@@ -129,6 +132,9 @@ namespace STLRom {
             }
         }
 		
+        if (z.empty())
+            throw std::invalid_argument("No sample to evaluate on");
+
         if (t>end_time)  
             z.endTime = end_time;
         
-- 
2.43.0


From e177f4f6e87ff9de78759446e069ccd03e9714eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 30/55] fix: get_signal on a monitor without a formula

---
 include/stl_monitor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 019c0ba..5bcb998 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -257,6 +257,8 @@ namespace STLRom
 
         inline Signal get_signal() const
         {
+            if (!formula)
+                throw std::invalid_argument("No formula set");
             return formula->get_signal();
         }
 
-- 
2.43.0


From 45b60cb8df75c07295f4e58866c469cbbbafd512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 31/55] fix: get_BigM returns the value that was set

---
 include/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signal.h b/include/signal.h
index bd2639d..114a834 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -136,7 +136,7 @@ public:
 		BigM=val;
 	}
 
-	inline static int get_BigM(){
+	inline static double get_BigM(){
 		return BigM;
 	}
 
-- 
2.43.0


From 867369ca3865fe49e77a9c68ef8a6d1bded0a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 32/55] fix: uninitialised index of the next sample in signals
 and constants

---
 include/signal_expr.h | 5 ++++-
 src/stl_atom.cpp      | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index 21c91c8..3509c56 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -24,11 +24,12 @@ namespace STLRom
         string variable;
         long int td_idx;
 
-        signal_transducer() : variable("x"){};
+        signal_transducer() : variable("x"), td_idx(0) {};
 
         signal_transducer(string var)
         {
             variable = var;
+            td_idx = 0;
         };
 
         void init_horizon(){};
@@ -83,10 +84,12 @@ namespace STLRom
         constant_transducer()
         {
             value = 0.;
+            td_idx = 0;
         };
         constant_transducer(double val)
         {
             value = val;
+            td_idx = 0;
         };
         constant_transducer(const string &p);
 
diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 89c5026..ea97495 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -17,6 +17,7 @@ namespace STLRom {
     constant_transducer::constant_transducer(const string &p) {
 
         value = 0.;
+        td_idx = 0;
         if (!s_to_d(p, value))  param = p;
 
     }
-- 
2.43.0


From 07723078d1e5541023b87bbf94385c8d9bd9457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 33/55] fix: names of the signals when there is none

---
 src/tools.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 596a654..b7d4d2e 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -45,17 +45,19 @@ string signal_map_to_string(map<string, int> signal_map)
 	// get number of signals
 		int n_signals = signal_map.size();
 		// cout << "n_signals:" << n_signals << endl;
-		string signames[n_signals];
+		vector<string> signames(n_signals);
 
 		//     for (auto ii = signal_map->begin(); ii != signal_map->end(); ii++){
 		for (const auto &ii : signal_map)
 		{
 			string sig = ii.first;
 			int idx = ii.second - 1;
-			signames[idx] = sig;
+			signames.at(idx) = sig;
 		}
 
-		string str_out = signames[0];
+		string str_out;
+		if (n_signals > 0)
+			str_out = signames[0];
 		for (int idx = 1; idx < n_signals; idx++)
 		{
 			str_out += " " + signames[idx];
-- 
2.43.0


From 160b3895446e3c65c25ae215f8b89bc831283bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 34/55] fix: next formula and test of an empty queue

---
 include/stl_driver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 3fdd9b4..fe4c55d 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -286,7 +286,7 @@ namespace STLRom
         inline transducer *get_next_formula() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return trace_test_queue.front().tests.front().formula;
             else
                 return nullptr;
@@ -295,7 +295,7 @@ namespace STLRom
         inline const stl_test *get_next_stl_test() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return &(trace_test_queue.front().tests.front());
             else
                 return nullptr;
-- 
2.43.0


From 9daa6a806719f009d3fd7d0a88d2a520ec0772e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 35/55] fix: adding a sample after an empty row of data

---
 src/stl_driver.cpp  | 2 +-
 src/stl_monitor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index a4a942c..10c7c8e 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -445,7 +445,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back()[0]))
+		if (!data.empty() && !(s[0] > data.back().at(0)))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index 326fc3a..fc0513e 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -18,7 +18,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back()[0]))
+		if (!data.empty() && !(s[0] > data.back().at(0)))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From b89357229e59d24f9039b7ed8a670fdf8af0d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 36/55] fix: until over an interval that ends before it begins

---
 src/robustness.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 045ba00..5dcf759 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -405,6 +405,10 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
+	// an empty interval is reduced to its begin, as for eventually and globally
+	if (b < a)
+		b = a;
+
 	// length of the part of the window that both signals cover
 	double length = std::min(y1.endTime, y2.endTime) - y1.beginTime;
 
-- 
2.43.0


From 9e88f948aeb2cbce80eee790aedda7c153cca625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 37/55] fix: not-a-number is not the time of a sample, not even
 of the first one

---
 src/stl_driver.cpp  | 3 ++-
 src/stl_monitor.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 10c7c8e..5a2a34c 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -2,6 +2,7 @@
 /** \file driver.cc Implementation of the example::Driver class. */
 
 #include "stdafx.h"
+#include <cmath>
 #include <fstream>
 #include <sstream>
 
@@ -445,7 +446,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back().at(0)))
+		if (std::isnan(s[0]) || (!data.empty() && !(s[0] > data.back().at(0))))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index fc0513e..4b1c461 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -1,4 +1,5 @@
 #include "stdafx.h"
+#include <cmath>
 #include <fstream>
 #include <sstream>
 #include "tools.h"
@@ -18,7 +19,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back().at(0)))
+		if (std::isnan(s[0]) || (!data.empty() && !(s[0] > data.back().at(0))))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From 2a21539d9ad446a30c80ff8eaba845289fb4883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 38/55] fix: and, or, boolean, simplify and addLastSample of an
 empty signal

---
 src/robustness.cpp | 6 ++++++
 src/signal.cpp     | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 5dcf759..b1df0f8 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -134,6 +134,9 @@ void Signal::compute_not(const Signal &y) {
 void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	clear();
+	if (x.empty() || y.empty())
+		return;
+
 	auto i = x.rbegin();
 	auto j = y.rbegin();
 
@@ -155,6 +158,9 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 void Signal::compute_or(const Signal &x, const Signal &y) {
 
 	clear();
+	if (x.empty() || y.empty())
+		return;
+
 	Signal::const_reverse_iterator i = x.rbegin();
 	Signal::const_reverse_iterator j = y.rbegin();
 
diff --git a/src/signal.cpp b/src/signal.cpp
index 06e1d10..fde23a5 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -60,7 +60,7 @@ namespace STLRom {
     }
 
     void Signal::addLastSample() {
-        if (endTime> back().time) 
+        if (!empty() && endTime> back().time)
             push_back(Sample(endTime, back().valueAt(endTime),0.));
     }
     
@@ -124,6 +124,9 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        if (empty())
+            return;
+
         size_t remaining = size();
         push_back(front());
         pop_front();
-- 
2.43.0


From 1840a30c8fd749196e627568ba13bfeb3b3f5024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 39/55] fix: untimed eventually and globally clear the previous
 content, and accept an empty signal

---
 src/robustness.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index b1df0f8..db7557e 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -190,6 +190,10 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 
 void Signal::compute_eventually(const Signal &x) {
 
+	clear();
+	if (x.empty())
+		return;
+
 	beginTime = x.beginTime;
 	endTime = x.endTime;
 	Signal::const_reverse_iterator i = x.rbegin();
-- 
2.43.0


From d343e8ab4e84853204ef73e62f512345615e1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 40/55] fix: bounded eventually and globally over a window
 longer than the signal

---
 src/robustness.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index db7557e..ba052e4 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -281,6 +281,12 @@ void Signal::compute_bounded_eventually(const Signal& x, double a) {
 
 	Signal z1, z2, z3;
 
+	// the window covers the whole signal
+	if (a >= x.endTime - x.beginTime) {
+		compute_eventually(x);
+		return;
+	}
+
 	z1.compute_plateau_max(x, a);
 	z2.resize(x.beginTime + a, x.endTime + a, BOTTOM);
 	z2.shift(-a);
@@ -349,6 +355,12 @@ void Signal::compute_bounded_globally(const Signal& x, double a) {
 
 	Signal z1, z2, z3;
 
+	// the window covers the whole signal
+	if (a >= x.endTime - x.beginTime) {
+		compute_globally(x);
+		return;
+	}
+
 	z1.compute_plateau_min(x, a);
 	z2.resize(x.beginTime + a, x.endTime + a, TOP);
 	z2.shift(-a);
-- 
2.43.0


From 5fb65a2e3023b146e3fb0d01757e25f0c085a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 41/55] fix: untimed until reads before the first sample and
 ignores the end of the signals

---
 src/robustness.cpp | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index ba052e4..51109d0 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -226,41 +226,12 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 		return;
 	}
 
-	double s, t;
-	double z_max = BOTTOM;
-
-	Signal::const_reverse_iterator i = x.rbegin();
-	Signal::const_reverse_iterator j = y.rbegin();
-
-	beginTime = fmax(x.beginTime, y.beginTime);
-	endTime = fmin(x.endTime, y.endTime);
-
-	while (i->time >= endTime)
-		i++;
-	while (j->time >= endTime)
-		j++;
-
-	s = beginTime;
-	t = endTime;
-
-	while (i->time > s) {
-
-		computeSegmentUntil(this, *i, t, j, z_max);
-		z_max = front().value;
-
-		if (j->time == i->time)
-			j++;
-		t = i->time;
-		i++;
-	}
-
-	if (i->time == s)
-		computeSegmentUntil(this, *i, t, j, z_max);
-	else
-		computeSegmentUntil(this, Sample(s, i->valueAt(s), i->derivative), t, j,
-				z_max);
+	Signal y1 = x;
+	Signal y2 = y;
 
-	simplify();
+	Signal *yunt = computeUntil(&y1, &y2);
+	*this = *yunt;
+	delete yunt;
 
 #ifdef DEBUG__
 	cout << "<<<Signal::compute_until                      OUT" << endl;
-- 
2.43.0


From 626f126fbef0c9c9fe9b48de59232d9a4f785ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 42/55] fix: until over signals without a common domain

---
 src/robustness.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 51109d0..a153904 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -402,8 +402,14 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	if (b < a)
 		b = a;
 
+	// the signals have no common domain
+	if (std::min(x.endTime, y.endTime) < std::max(x.beginTime, y.beginTime)) {
+		this->clear();
+		return;
+	}
+
 	// length of the part of the window that both signals cover
-	double length = std::min(y1.endTime, y2.endTime) - y1.beginTime;
+	double length = std::min(y1.endTime, y2.endTime) - std::max(y1.beginTime, y2.beginTime);
 
 	if(b > length)
 	{
-- 
2.43.0


From beed7770eec615463ac520c00579affd4a97e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 43/55] fix: resize of an empty signal gives it the default
 value

---
 src/signal.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/signal.cpp b/src/signal.cpp
index fde23a5..09a9066 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -174,6 +174,14 @@ namespace STLRom {
         else 
             if (t < s)
                 t = s;  // hope I don't regret this.
+
+        if (empty()) {
+            push_back(Sample(s, v, 0));
+            beginTime = s;
+            endTime = t;
+            return;
+        }
+
         Sample first;
 
         //trim or extend front of signal
-- 
2.43.0


From 887187cbbb2da4009190139b909575fcc671ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 44/55] fix: a signal does not take a sample whose time is not
 a number

---
 src/signal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 09a9066..85a164f 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -1,4 +1,5 @@
 #include "stdafx.h"
+#include <cmath>
 #include "signal.h"
 #include "iomanip"
 
@@ -70,7 +71,7 @@ namespace STLRom {
 
     void Signal::appendSample(double t, double v, double d)
     {
-        if ((t <= endTime) && size() > 0)
+        if (std::isnan(t) || ((t <= endTime) && size() > 0))
             return;
 
         switch (Signal::interpol)
-- 
2.43.0


From 8bf927dedb128b2f0d44af3708c3b6e8930c7ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 45/55] fix: finalising a monitor or a driver in Python deletes
 it twice

---
 src/pybind11/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index e369234..4c06426 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -137,7 +137,7 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__copy__", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__deepcopy__", [](const STLRom::STLMonitor &self, py::dict) { return STLRom::STLMonitor(self); })
-		.def("__del__", [](STLRom::STLMonitor *instance) { delete instance; }) // Bind the destructor
+		.def("__del__", [](STLRom::STLMonitor &self) {})
 
 		.def_readwrite("rob",&STLRom::STLMonitor::rob)
 		.def_readwrite("lower_rob",&STLRom::STLMonitor::lower_rob)
@@ -174,5 +174,5 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__copy__", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__deepcopy__", [](const STLRom::STLDriver &self, py::dict) { return STLRom::STLDriver(self); })
-		.def("__del__", [](STLRom::STLDriver *instance) {delete instance; }); // Bind the destructor
+		.def("__del__", [](STLRom::STLDriver &self) {});
 }
-- 
2.43.0


From b31017a7658f258eefe8c795bf9457b1534d7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 46/55] fix: print_monitor on a driver without a formula phi

---
 src/pybind11/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index 4c06426..2229cfe 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -48,6 +48,8 @@ void print_monitor(STLDriver& d) {
 	*/
 	STLMonitor m = d.get_monitor("phi");
 	transducer* phi = m.formula;
+	if (!phi)
+		throw std::invalid_argument("No formula phi");
 	os << "Monitor lower rob:" << m.lower_rob <<endl;
 	phi->print(os);
 	py::print(os.str());
-- 
2.43.0


From ade709c3cc8ff197c2b8a8c22a1fa36605e7bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 47/55] fix: timed until whose second operand begins later than
 the first

---
 src/robustness.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index a153904..17d2e39 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -409,7 +409,7 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 	// length of the part of the window that both signals cover
-	double length = std::min(y1.endTime, y2.endTime) - std::max(y1.beginTime, y2.beginTime);
+	double length = std::min(y1.endTime, y2.endTime) - y1.beginTime;
 
 	if(b > length)
 	{
@@ -882,6 +882,10 @@ Signal * computeBoundedEventually(Signal * x, double a) {
 
 	Signal *z, *z1, *z2, *z3;
 
+	// the window covers the whole signal
+	if (a >= x->endTime - x->beginTime)
+		return computeEventually(x);
+
 	z1 = plateauMax(x, a);
 	z2 = new Signal(*x);
 	z2->resize(x->beginTime + a, x->endTime + a, BOTTOM);
@@ -911,6 +915,11 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 
 	//cout << "computeBoundedGlobally with a=" << a << endl;
 	//cout << "x="  << *x << endl;
+
+	// the window covers the whole signal
+	if (a >= x->endTime - x->beginTime)
+		return computeGlobally(x);
+
 	z1 = plateauMin(x, a);
 
 	z2 = new Signal(*x);
-- 
2.43.0


From 6a74d1e2eb0471b22c52d5dd4c3ec7714ac943e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 48/55] fix: online bounds of ev and alw at a negative
 evaluation time

---
 src/interval_transducer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 255dc3e..626cb55 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -163,7 +163,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_lower_rob();
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a - 1e-14) {
             z_low.appendSample(start_time, BOTTOM); 
             return BOTTOM;
         }
@@ -197,7 +197,7 @@ namespace STLRom {
 
         child->compute_upper_rob();
 
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a - 1e-14) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -234,7 +234,7 @@ namespace STLRom {
 
         child->compute_lower_rob();
 
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a - 1e-14) {
             z_low.appendSample(start_time,BOTTOM);        
             return BOTTOM;
         }
@@ -268,7 +268,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_upper_rob();
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a - 1e-14) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
-- 
2.43.0


From 8dd96ffb81a1505280f102e4752853dfffdd12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 49/55] fix: parsing releases the memory of what it has read

The operator of an atom, the name of an environment, the parameter lists and formulas of test blocks, a
formula whose name is defined again and numbers of a rejected input were never deleted.
---
 src/stl_parser.cpp | 50 +++++++++++++++++++++++++++++++++++++++++++---
 src/stl_parser.ypp | 16 ++++++++++++---
 2 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 6d20775..379626f 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -411,7 +411,13 @@ namespace STLRom {
     // User destructor.
     switch (yysym.type_get ())
     {
-            case 31: // "param_id"
+            case 30: // "constant"
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+        break;
+
+      case 31: // "param_id"
 
 #line 129 "stl_parser.ypp" // lalr1.cc:617
         { delete (yysym.value.stringVal); }
@@ -453,6 +459,12 @@ namespace STLRom {
 #line 454 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 42: // constant
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+        break;
+
       case 43: // constant_signal
 
 #line 132 "stl_parser.ypp" // lalr1.cc:617
@@ -509,6 +521,12 @@ namespace STLRom {
 #line 510 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 51: // op
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+        break;
+
       case 52: // interval
 
 #line 130 "stl_parser.ypp" // lalr1.cc:617
@@ -523,6 +541,24 @@ namespace STLRom {
 #line 524 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 60: // local_param_assignement
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
+      case 61: // local_param_assignement_list
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
+      case 62: // local_param_assignements
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
 
       default:
         break;
@@ -817,6 +853,7 @@ namespace STLRom {
 
             if (i==0) {
                 cout << "Parsing error: unknown signal " << *(yystack_[3].value.stringVal) << endl;
+                delete (yystack_[3].value.stringVal);
                 delete (yylhs.value.transducer_ptr);
                 (yylhs.value.transducer_ptr) = nullptr;
                 YYERROR;
@@ -934,6 +971,7 @@ namespace STLRom {
 #line 268 "stl_parser.ypp" // lalr1.cc:859
     {
               (yylhs.value.transducer_ptr) = new stl_atom((yystack_[2].value.transducer_ptr), *(yystack_[1].value.stringVal), (yystack_[0].value.transducer_ptr));
+              delete (yystack_[1].value.stringVal);
               (yylhs.value.transducer_ptr)->trace_data_ptr = &driver.data;
               (yylhs.value.transducer_ptr)->param_map = driver.param_map;
               (yylhs.value.transducer_ptr)->signal_map = driver.signal_map;
@@ -1081,6 +1119,7 @@ namespace STLRom {
 
                  if (ref==nullptr) {
                      cout << "Parsing error: unknown identifier " << *(yystack_[0].value.stringVal) << endl;
+                     delete (yystack_[0].value.stringVal);
                      (yylhs.value.transducer_ptr) = nullptr;
                      YYERROR;
                  }
@@ -1096,7 +1135,9 @@ namespace STLRom {
   case 33:
 #line 379 "stl_parser.ypp" // lalr1.cc:859
     {
-                driver.formula_map[*(yystack_[2].value.stringVal)] = (yystack_[0].value.transducer_ptr);
+                transducer *& formula = driver.formula_map[*(yystack_[2].value.stringVal)];
+                delete formula;
+                formula = (yystack_[0].value.transducer_ptr);
                 delete (yystack_[2].value.stringVal);
             }
 #line 1103 "stl_parser.cpp" // lalr1.cc:859
@@ -1108,6 +1149,7 @@ namespace STLRom {
              double x;
              driver.add_trace_test(*(yystack_[2].value.stringVal), *(yystack_[0].value.stringVal), 0., false);
              delete (yystack_[2].value.stringVal);
+             delete (yystack_[0].value.stringVal);
          }
 #line 1113 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1196,9 +1238,10 @@ namespace STLRom {
   case 46:
 #line 459 "stl_parser.ypp" // lalr1.cc:859
     {
-    (yylhs.value.param_map_ptr) = new map<string,double>(*(yystack_[2].value.param_map_ptr));
+    (yylhs.value.param_map_ptr) = (yystack_[2].value.param_map_ptr);
     auto elem = (yystack_[0].value.param_map_ptr)->begin();
     (*(yylhs.value.param_map_ptr))[elem->first] = elem->second;
+    delete (yystack_[0].value.param_map_ptr);
 }
 #line 1204 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1243,6 +1286,7 @@ namespace STLRom {
             driver.add_stl_test(*(yystack_[10].value.stringVal), *(yystack_[9].value.param_map_ptr), (yystack_[7].value.transducer_ptr), *(yystack_[5].value.stringVal), *(yystack_[3].value.stringVal), (yystack_[1].value.boolVal) );
             delete (yystack_[10].value.stringVal);
             delete (yystack_[9].value.param_map_ptr);
+            delete (yystack_[7].value.transducer_ptr);
             delete (yystack_[5].value.stringVal);
             delete (yystack_[3].value.stringVal);
         }
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 259d78f..3e0bd26 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -126,7 +126,9 @@ using namespace STLRom;
 %type <boolVal>        boolean
 %type <param_map_ptr>  local_param_assignements local_param_assignement_list local_param_assignement
 
-%destructor { delete $$; } STRING PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
+%destructor { delete $$; } STRING CONSTANT PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
+%destructor { delete $$; } constant op
+%destructor { delete $$; } local_param_assignements local_param_assignement_list local_param_assignement
 %destructor { delete $$; } interval
 %destructor { delete $$; } stl_atom stl_formula signal signal_atom
 %destructor { delete $$; } signal_expr constant_signal signal_addexpr signal_multexpr signal_unaryexpr
@@ -188,6 +190,7 @@ signal: SIGNAL_ID LINT TIME RINT
 
             if (i==0) {
                 cout << "Parsing error: unknown signal " << *$1 << endl;
+                delete $1;
                 delete $$;
                 $$ = nullptr;
                 YYERROR;
@@ -267,6 +270,7 @@ signal_expr : signal_addexpr
 stl_atom : signal_expr op signal_expr
           {
               $$ = new stl_atom($1, *$2, $3);
+              delete $2;
               $$->trace_data_ptr = &driver.data;
               $$->param_map = driver.param_map;
               $$->signal_map = driver.signal_map;
@@ -363,6 +367,7 @@ stl_formula :
 
                  if (ref==nullptr) {
                      cout << "Parsing error: unknown identifier " << *$1 << endl;
+                     delete $1;
                      $$ = nullptr;
                      YYERROR;
                  }
@@ -377,7 +382,9 @@ stl_formula :
 
 assignement : NEW_ID ASSIGN stl_formula
             {
-                driver.formula_map[*$1] = $3;
+                transducer *& formula = driver.formula_map[*$1];
+                delete formula;
+                formula = $3;
                 delete $1;
             }
 
@@ -386,6 +393,7 @@ trace_env: TEST NEW_ID ':' STRING
              double x;
              driver.add_trace_test(*$2, *$4, 0., false);
              delete $2;
+             delete $4;
          }
          | TEST NEW_ID ':' STRING COMMA CONSTANT COMMA boolean  /* test id: environment, simulation time, visualization  */
          {
@@ -457,9 +465,10 @@ local_param_assignement: PARAM_ID '=' CONSTANT
 local_param_assignement_list: local_param_assignement
                             | local_param_assignement_list COMMA local_param_assignement
 {
-    $$ = new map<string,double>(*$1);
+    $$ = $1;
     auto elem = $3->begin();
     (*$$)[elem->first] = elem->second;
+    delete $3;
 }
 
 local_param_assignements: /* empty */
@@ -494,6 +503,7 @@ stl_test: NEW_ID  local_param_assignements '{'  stl_formula COMMA  STRING COMMA
             driver.add_stl_test(*$1, *$2, $4, *$6, *$8, $10 );
             delete $1;
             delete $2;
+            delete $4;
             delete $6;
             delete $8;
         }
-- 
2.43.0


From d8f1215b1f5dd836fc8b10c5d2810cece4aeb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 50/55] fix: formulas are displayed with the parentheses they
 need

not (a and b) was displayed as not a and b, (a or b) and c as a or b and c,
1 - (x[t] - 2) as 1-x[t]-2; a difference was displayed without blanks, which
reads back as a signed number.
---
 include/signal_expr.h | 27 ++++++++++++++++++---------
 include/transducer.h  | 15 +++++++++++----
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index 3509c56..4460131 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -180,6 +180,15 @@ namespace STLRom
         };
     };
 
+    // prints an operand of a binary operator, in parentheses unless it is a signal or a constant
+    inline void print_operand(ostream &os, const transducer *operand)
+    {
+        bool atomic = dynamic_cast<const signal_transducer *>(operand) || dynamic_cast<const constant_transducer *>(operand);
+        os << (atomic ? "" : "(");
+        operand->print(os);
+        os << (atomic ? "" : ")");
+    }
+
     /* binary signal operators - all operators assume that left and right operand have the
      * same number of samples.
      */
@@ -208,9 +217,9 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
-            childL->print(os);
-            os << "+";
-            childR->print(os);
+            print_operand(os, childL);
+            os << " + ";
+            print_operand(os, childR);
         };
     };
 
@@ -238,9 +247,9 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
-            childL->print(os);
-            os << "-";
-            childR->print(os);
+            print_operand(os, childL);
+            os << " - ";
+            print_operand(os, childR);
         };
     };
 
@@ -269,9 +278,9 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
-            childL->print(os);
-            os << "*";
-            childR->print(os);
+            print_operand(os, childL);
+            os << " * ";
+            print_operand(os, childR);
         };
     };
 
diff --git a/include/transducer.h b/include/transducer.h
index 4f64f84..6ea9464 100644
--- a/include/transducer.h
+++ b/include/transducer.h
@@ -269,8 +269,9 @@ namespace STLRom {
         };
 
         void print(ostream &os) const {
-            os << "not ";
+            os << "not (";
             child->print(os);
+            os << ")";
         }
         ;
 
@@ -305,9 +306,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
-            os << " and ";
+            os << ") and (";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -342,9 +345,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
-            os << " or ";
+            os << ") or (";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -379,9 +384,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
-            os << " => ";
+            os << ") => (";
             childR->print(os);
+            os << ")";
         }
         ;
 
-- 
2.43.0


From 8d02589177391d834ab1bf942454df1616848e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 51/55] fix: the bounds use the time robustness of the
 predicate, not of its time robustness

Compute a predicate from scratch when it is asked again: under LEFT_TIME and
RIGHT_TIME the second computation, for the bounds, took the time robustness of
the result of the first one. The bounds and the satisfaction signal then
differed from the robustness when the signal touches zero.
---
 src/stl_atom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index ea97495..0bc3696 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -32,6 +32,7 @@ namespace STLRom {
     
         childL->compute_robustness();
         childR->compute_robustness();
+        z.clear(); // asked again, z would be the time robustness of itself
         auto itL = childL->z.begin();
         auto itR = childR->z.begin();
         for (; itL != childL->z.end() &&  itR != childR->z.end() ;itL++, itR++) {
-- 
2.43.0


From da48e72250875a7317089b919452b2dd837a6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:12 +0000
Subject: [PATCH 52/55] fix: the horizon of each operand is set once

init_horizon set the horizon of the operands, which initializes theirs, and then
initialized theirs again: evaluation was exponential in the nesting depth.
---
 src/transducer.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index 416021a..377bcf2 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -10,14 +10,11 @@ namespace STLRom {
 
     void unary_transducer::init_horizon() {
         child->set_horizon(start_time, end_time);
-        child->init_horizon();
     }
 
     void binary_transducer::init_horizon() {
         childL->set_horizon(start_time, end_time);
         childR->set_horizon(start_time, end_time);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     void timed_unary_transducer::init_horizon() {
@@ -29,8 +26,6 @@ namespace STLRom {
 
         // update start_time and end_time of child
         child->set_horizon(start_time+a,end_time+b);
-        child->init_horizon();
-
     }
 
     void timed_binary_transducer::init_horizon() {
@@ -42,8 +37,6 @@ namespace STLRom {
         // update start_time and end_time of children
         childL->set_horizon(start_time, end_time+b);
         childR->set_horizon(start_time+a, end_time+b);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     /* set param */
-- 
2.43.0


From c8e946952d34a223a842beebea856a77f4cab710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 53/55] fix: values beyond BigM are not taken for the end of
 the signal

---
 src/robustness.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 17d2e39..4da83fe 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -9,6 +9,12 @@
 #define fmin(a,b) ((a<b)?a:b) 
 #define fmax(a,b) ((b<a)?a:b) 
 
+// here, the neutral elements of max and min: no value of a signal is beyond them
+#undef BOTTOM
+#undef TOP
+#define BOTTOM (-std::numeric_limits<double>::infinity())
+#define TOP (std::numeric_limits<double>::infinity())
+
 //#define DEBUG__
 
 using namespace std;
-- 
2.43.0


From 57f26d0e0649e8a36ea57d459489e4cea5198982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:21 +0000
Subject: [PATCH 54/55] fix: bounded eventually and globally of a signal look
 at the whole window

---
 src/robustness.cpp | 32 ++------------------------------
 1 file changed, 2 insertions(+), 30 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 4da83fe..b9c6d82 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -256,21 +256,7 @@ void Signal::compute_bounded_eventually(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	// the window covers the whole signal
-	if (a >= x.endTime - x.beginTime) {
-		compute_eventually(x);
-		return;
-	}
-
-	z1.compute_plateau_max(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, BOTTOM);
-	z2.shift(-a);
-	z3.compute_or(z2, z1);
-
-	compute_or(x, z3);
-	simplify();
+	compute_timed_eventually(x, 0., a);
 
   #ifdef DEBUG__
 	cout << "<  Signal::compute_bounded_eventually         OUT." << endl;
@@ -330,21 +316,7 @@ void Signal::compute_bounded_globally(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	// the window covers the whole signal
-	if (a >= x.endTime - x.beginTime) {
-		compute_globally(x);
-		return;
-	}
-
-	z1.compute_plateau_min(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, TOP);
-	z2.shift(-a);
-	z3.compute_and(z2, z1);
-
-	compute_and(x, z3);
-	simplify();
+	compute_timed_globally(x, 0., a);
 
 }
 
-- 
2.43.0


From 6df9ab49f52464bd29acbf02b0be28262b935cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:13 +0000
Subject: [PATCH 55/55] fix: infinite values and NaN of a trace file are read

dump_trace_file writes inf and nan, which the >> of a stream does not read:
the rest of the sample was left out.
---
 src/tools.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index b7d4d2e..63c808c 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -120,9 +120,16 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	while (std::getline(file, line)) {
 		istringstream reader(line);
 		vector<double> lineData;
-		double val;
-		while (reader >> val) {
+		string word;
+		while (reader >> word) {
+			// unlike >>, strtod reads the inf and nan that << writes
+			char *rest;
+			double val = strtod(word.c_str(), &rest);
+			if (rest == word.c_str())
+				break;
 			lineData.push_back(val);
+			if (*rest)
+				break;
 		}
 		if (!lineData.empty())
 			data.push_back(lineData);
-- 
2.43.0

