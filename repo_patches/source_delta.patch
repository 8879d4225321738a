From da396dd1d87a4aaf1943cfd41e73c343cbc622fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 01/32] fix: nextCandidate wrapped around past the largest
 value

---
 rdf3x/src/rts/DomainDescription.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/rts/DomainDescription.cpp b/rdf3x/src/rts/DomainDescription.cpp
index d6366e3..9f15313 100644
--- a/rdf3x/src/rts/DomainDescription.cpp
+++ b/rdf3x/src/rts/DomainDescription.cpp
@@ -86,6 +86,8 @@ uint64_t DomainDescription::nextCandidate(uint64_t value) const
    // We should only compensate here for filter entries that are actually skipped
    // in the loop above. --Ceriel
    value+=filterEntryBits*(filterSize-slot-1);
+   // The next block may lie behind the largest representable value
+   if (!value) return UINT64_MAX;
    for (uint64_t index=0;index<=slot;index++)
        if (filter[index]) {
          value+=filterEntryBits*(index);
-- 
2.43.0


From 64bb643b96f841a60a5a0ddc7964f5ebe3f154d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:40 +0000
Subject: [PATCH 02/32] fix: MergeUnion repeated a right tuple when the left
 input ended after an equal pair

---
 rdf3x/src/rts/MergeUnion.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/rts/MergeUnion.cpp b/rdf3x/src/rts/MergeUnion.cpp
index 89a3e47..418d96d 100644
--- a/rdf3x/src/rts/MergeUnion.cpp
+++ b/rdf3x/src/rts/MergeUnion.cpp
@@ -79,6 +79,14 @@ uint64_t MergeUnion::next()
       case done: return false;
       case stepLeft: case stepBoth:
          if ((leftCount=left->next())==0) {
+            if (state==stepBoth) {
+               // The right tuple has been produced already
+               if ((rightCount=right->next())==0) {
+                  state=done;
+                  return false;
+               }
+               rightValue=rightReg->value;
+            }
             result->value=rightValue;
             state=leftEmpty;
             observedOutputCardinality+=rightCount;
-- 
2.43.0


From 195c6a1c43928f7d1912924ef6f4160a0b0e775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 03/32] fix: LongIntReader sign-extended the leading byte of
 five-byte values

---
 include/trident/binarytables/binarytablereaders.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/binarytables/binarytablereaders.h b/include/trident/binarytables/binarytablereaders.h
index e00e672..f7ea0ae 100644
--- a/include/trident/binarytables/binarytablereaders.h
+++ b/include/trident/binarytables/binarytablereaders.h
@@ -71,7 +71,7 @@ public:
     }
 
     static uint64_t read(const char* buffer) {
-        uint64_t n = (int64_t) (buffer[0]) << 32;
+        uint64_t n = (int64_t) (buffer[0] & 0xFF) << 32;
         n += (int64_t) (buffer[1] & 0xFF) << 24;
         n += (buffer[2] & 0xFF) << 16;
         n += (buffer[3] & 0xFF) << 8;
-- 
2.43.0


From 6c6ddd696b15d99828b7d828538611ca82e5fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 04/32] fix: NewRowTable::setup(c1,c2) read one row past the
 end of the table

---
 include/trident/binarytables/newrowtable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 9b3e86e..0c92c12 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -238,12 +238,13 @@ class NewRowTable: public AbsNewTable {
             }
             int64_t v1 = Reader1::read(s);
             int64_t v2 = Reader2::read(s + Reader1::size());
-            while ((v1 < c1 || (v1 == c1 && v2 < c2)) && s < e) {
+            while ((v1 < c1 || (v1 == c1 && v2 < c2)) &&
+                    (s + Reader1::size() + Reader2::size()) < e) {
                 s += Reader1::size() + Reader2::size();
                 v1 = Reader1::read(s);
                 v2 = Reader2::read(s + Reader1::size());
             }
-            if (v1 == c1 && v2 == c2 && s < e) {
+            if (v1 == c1 && v2 == c2) {
                 setup(s, s + Reader1::size() + Reader2::size());
             } else {
                 setup(s, s);
-- 
2.43.0


From 2837f8c131976765161887692f9e716c31958a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 05/32] fix: NewRowTable::getCardinality consumed the iterator
 when the second column is ignored

---
 include/trident/binarytables/newrowtable.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 0c92c12..2759a72 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -78,12 +78,12 @@ class NewRowTable: public AbsNewTable {
                 if (currentValue1 != -1)
                     count++;
                 int64_t prevEl = currentValue1;
-                while (current != end) {
-                    currentValue1 = Reader1::read(current);
-                    current += Reader1::size() + Reader2::size();
-                    if (currentValue1 != prevEl) {
+                for (const char *pos = current; pos != end;
+                        pos += Reader1::size() + Reader2::size()) {
+                    const int64_t el = Reader1::read(pos);
+                    if (el != prevEl) {
                         count++;
-                        prevEl = currentValue1;
+                        prevEl = el;
                     }
                 }
                 return count;
-- 
2.43.0


From f1fc78649d2ddce62910f2a21efe9e3194894135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 06/32] fix: NewRowTable::moveto lost rows of the current group
 when the second column is ignored

---
 include/trident/binarytables/newrowtable.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 2759a72..002ff6a 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -282,6 +282,9 @@ class NewRowTable: public AbsNewTable {
                         current += Reader1::size() + Reader2::size();
                     }
                 }
+            } else if (isSecondColumnIgnored) {
+                //The current tuple stands for all the rows of its group
+                current -= (Reader1::size() + Reader2::size()) * count;
             } else {
                 current -= Reader1::size() + Reader2::size();
             }
-- 
2.43.0


From af8d14fd43e74ac1f4c84969a59f9eba0019d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 07/32] fix: NewClusterTable::getCardinality overwrote the
 state of the iteration

---
 include/trident/binarytables/newclustertable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/trident/binarytables/newclustertable.h b/include/trident/binarytables/newclustertable.h
index 05ff152..e39dd22 100644
--- a/include/trident/binarytables/newclustertable.h
+++ b/include/trident/binarytables/newclustertable.h
@@ -80,9 +80,9 @@ class NewClusterTable: public AbsNewTable {
                 //Skip first el
                 s += Reader1::size();
                 nels++;
-                count = countgroup = ReaderCount::read(s);
-                sum += count;
-                s += ReaderCount::size() + Reader2::size() * count;
+                const int64_t c = ReaderCount::read(s);
+                sum += c;
+                s += ReaderCount::size() + Reader2::size() * c;
             }
             if (isSecondColumnIgnored) {
                 return nels;
-- 
2.43.0


From 13e1d0dd0e9ba2d988f67c66ce8f5d9ce6fdf5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 08/32] fix: NewClusterTable::getCardinality ran past the end
 of a table restricted to one pair

---
 include/trident/binarytables/newclustertable.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/trident/binarytables/newclustertable.h b/include/trident/binarytables/newclustertable.h
index e39dd22..6e3f12f 100644
--- a/include/trident/binarytables/newclustertable.h
+++ b/include/trident/binarytables/newclustertable.h
@@ -72,6 +72,10 @@ class NewClusterTable: public AbsNewTable {
         }
 
         uint64_t getCardinality() {
+            if (end - start <= Reader2::size()) {
+                //The table is restricted to (at most) one pair
+                return (end - start) / Reader2::size();
+            }
             //Read all elements
             int64_t sum = 0;
             int64_t nels = 0;
@@ -233,10 +237,11 @@ class NewClusterTable: public AbsNewTable {
                 }
                 int64_t v2 = Reader2::read(current);
                 if (v2 == c2) {
+                    this->start = current;
                     this->end = current + Reader2::size();
                     count = countgroup = 1;
                 } else {
-                    current = end;
+                    this->start = current = this->end;
                 }
             }
 
-- 
2.43.0


From 7e61251e20957b21291a2a0ac91f31888c40ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 09/32] fix: ArrayItr::init offered rows of another key when
 the requested pair is absent

---
 src/trident/iterators/arrayitr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..3b899a5 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -173,7 +173,7 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
 
     if (constraint1 != -1) {
         pos = binarySearch(array.get(), 0, nElements, constraint1);
-        if (pos >= 0) {
+        if (pos >= 0 && array->at(pos).first == constraint1) {
             if (constraint2 != -1) {
                 // The values are not many. Let's try to do a linear search
                 // and see how it goes...
@@ -182,7 +182,8 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
                     pos++;
                 }
                 hasNextChecked = true;
-                n = pos < nElements && array->at(pos).second == constraint2;
+                n = pos < nElements && array->at(pos).first == constraint1
+                    && array->at(pos).second == constraint2;
             } else {
                 hasNextChecked = n = true;
             }
-- 
2.43.0


From 626605066e3648921badcc3ebde7035f06447ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 10/32] fix: ArrayItr::init claimed a first tuple for an empty
 array

---
 src/trident/iterators/arrayitr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 3b899a5..dd17dce 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -194,7 +194,8 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
         }
     } else {
         pos = 0;
-        hasNextChecked = n = true;
+        hasNextChecked = true;
+        n = nElements > 0;
     }
 }
 
-- 
2.43.0


From f84e1871154a47f119b96fc4cb23275ba0bc6796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 11/32] fix: ArrayItr::moveto backwards with the second column
 ignored lost the count of the group

---
 src/trident/iterators/arrayitr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index dd17dce..aa44700 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -114,6 +114,11 @@ void ArrayItr::moveto(const int64_t c1, const int64_t c2) {
     if (v1 >= c1 && (ignSecondColumn || v1 > c1 || v2 >= c2)) {
         // Position is backwards.
         pos--; //so that hasNext will move to the same point
+        if (ignSecondColumn) {
+            //getCount() and hasNext() walked to the end of the group
+            while (pos > 0 && array->at(pos - 1).first == array->at(pos).first)
+                pos--;
+        }
         hasNextChecked = true;
         n = true;
         return;
-- 
2.43.0


From c26ce42ba2c2b53d5c47d13c6ac006631d613242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 12/32] fix: ArrayItr::getCardinality ignored the constraints
 of the iterator

---
 src/trident/iterators/arrayitr.cpp | 41 ++++++++++--------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index aa44700..a11bc50 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -205,35 +205,22 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
 }
 
 uint64_t ArrayItr::getCardinality() {
-    //if (n) {
-    if (ignSecondColumn) {
-        uint64_t count = 0;
-        size_t pos2 = 0;
-        int64_t existingV1 = -1;
-        while (pos2 < nElements) {
-            if (array->at(pos2).first != existingV1) {
-                count++;
-                existingV1 = (int64_t)(array->at(pos2).first);
-            }
-            pos2++;
-        }
-        return count;
-    } else {
-        /*uint64_t count = 1;
-          size_t pos2 = pos + 1;
-          while (pos2 < nElements) {
-          if (array->at(pos2).first != constraint1) {
-          break;
-          }
-          count++;
-          pos2++;
-          }
-          return count;*/
+    if (!ignSecondColumn && constraint1 == -1) {
         return nElements;
     }
-    //} else {
-    //    return 0;
-    //}
+    uint64_t count = 0;
+    int64_t existingV1 = -1;
+    for (size_t pos2 = 0; pos2 < nElements; pos2++) {
+        if (constraint1 != -1 && (array->at(pos2).first != constraint1 ||
+                    (constraint2 != -1 && array->at(pos2).second != constraint2))) {
+            continue;
+        }
+        if (!ignSecondColumn || array->at(pos2).first != existingV1) {
+            count++;
+            existingV1 = (int64_t)(array->at(pos2).first);
+        }
+    }
+    return count;
 }
 
 uint64_t ArrayItr::estCardinality() {
-- 
2.43.0


From 4ccbace7524576944d03590bf5d354add6a6dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 13/32] fix: RmItr::moveto kept the cached hasNext() and moved
 an exhausted removal iterator

---
 src/trident/iterators/rmitr.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..0f81bfc 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -45,12 +45,16 @@ void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
 void RmItr::moveto(const int64_t c1, const int64_t c2) {
     assert(v1 != -1);
     itr->moveto(c1, c2);
-    rmitr->moveto(c1, c2);
-    if (rmitr->hasNext()) {
-        rmitr->next();
-    } else {
-        rmitrvalid = false;
+    if (rmitrvalid) {
+        rmitr->moveto(c1, c2);
+        if (rmitr->hasNext()) {
+            rmitr->next();
+        } else {
+            rmitrvalid = false;
+        }
     }
+    //The element found by a previous hasNext() might be before the target
+    hnc = false;
 }
 
 bool RmItr::hasNext() {
-- 
2.43.0


From 1e2c59ea3592f413a7e661c612ad2234e0981222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 14/32] fix: RmItr::estCardinality wrapped around when more
 elements are removed than estimated

---
 src/trident/iterators/rmitr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 0f81bfc..e58dbc7 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -131,8 +131,8 @@ uint64_t RmItr::getCardinality() {
 uint64_t RmItr::estCardinality() {
     uint64_t card = itr->estCardinality();
     if (rmitrvalid)
-        card -= rmitr->estCardinality();
-    return std::max((uint64_t)0, card);
+        card -= std::min(card, rmitr->estCardinality());
+    return card;
 }
 
 int RmItr::cmp(PairItr *itr1, PairItr *itr2) {
-- 
2.43.0


From 453e7c85de0198bb998e921eaafc5172bd329161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:34 +0000
Subject: [PATCH 15/32] fix: optional MergeJoin lost the tuple already read
 when one side was exhausted after a block

---
 rdf3x/src/rts/MergeJoin.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 542467b..8a83176 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -398,7 +398,9 @@ uint64_t MergeJoin::next()
                                             leftTail[index]->value = ~0u;
                                         }
                                     }
-                                    scanState = scanStepRight;
+                                    // The next right tuple was already read
+                                    swapRight();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -432,7 +434,9 @@ uint64_t MergeJoin::next()
                                             rightTail[index]->value = ~0u;
                                         }
                                     }
-                                    scanState = scanStepLeft;
+                                    // The next left tuple was already read
+                                    swapLeft();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -476,7 +480,13 @@ uint64_t MergeJoin::next()
                                                 leftTail[index]->value = ~0u;
                                             }
                                         }
-                                        scanState = loopEmptyLeft;
+                                        if (scanState==loopSpooledRightEmpty) {
+                                            scanState = empty;
+                                            return false;
+                                        }
+                                        // The next right tuple was already read
+                                        swapRight();
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
@@ -501,7 +511,8 @@ uint64_t MergeJoin::next()
                                                 rightTail[index]->value = ~0u;
                                             }
                                         }
-                                        scanState = loopEmptyRight;
+                                        // The current left tuple still has to be handled
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
-- 
2.43.0


From 8dd3764e7f8401eb002f1b06dcb2bdb7c04cde94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:34 +0000
Subject: [PATCH 16/32] fix: MergeJoin with both sides optional read past the
 end of an exhausted input

---
 rdf3x/src/rts/MergeJoin.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 8a83176..4c51b3d 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -210,6 +210,11 @@ uint64_t MergeJoin::next()
                         // Compare
                         {
                             uint64_t l=leftValue->value,r=rightValue->value;
+                            if (leftOptional && rightOptional && l == ~0u && r == ~0u) {
+                                // Both sides are exhausted
+                                scanState = empty;
+                                return false;
+                            }
                             if (l<r) {
                                 if (rightOptional) {
                                     if (rightValue->value == ~0u) {
-- 
2.43.0


From 764a8b0d6acbb816c55a27a3698499288d7e9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:35 +0000
Subject: [PATCH 17/32] fix: ValuesScan counted values where it compared rows
 and did not restart

---
 rdf3x/src/rts/ValuesScan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index 4aef4b8..5abf58f 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -6,7 +6,7 @@ ValuesScan::ValuesScan(std::vector<Register*> regs,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
     regs(regs), values(values) {
         if (regs.size() > 0)
-            toBeProcessed = values.size() / regs.size();
+            toBeProcessed = values.size() / regs.size() * regs.size();
         else
             toBeProcessed = 0;
         processed = 0;
@@ -18,6 +18,7 @@ ValuesScan::~ValuesScan() {
 
 /// Produce the first tuple
 uint64_t ValuesScan::first() {
+    processed = 0;
     if (processed < toBeProcessed) {
         for (auto v : regs) {
             v->value = values[processed++];
-- 
2.43.0


From 463dc82d70068f115f1c4c8280a71b6abba37663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:35 +0000
Subject: [PATCH 18/32] fix: Assignment dropped the multiplicity of its input
 tuples

---
 rdf3x/src/rts/Assignment.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/rts/Assignment.cpp b/rdf3x/src/rts/Assignment.cpp
index 797a4cc..3ff2dd4 100644
--- a/rdf3x/src/rts/Assignment.cpp
+++ b/rdf3x/src/rts/Assignment.cpp
@@ -28,7 +28,8 @@ void Assignment::print(PlanPrinter& out)
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::first() {
-    if (input->first() == 0)
+    uint64_t count = input->first();
+    if (count == 0)
         return false;
     for (size_t j = 0; j < inputArgs.size(); ++j) {
         if (inputArgs[j].reg != NULL)
@@ -36,18 +37,19 @@ uint64_t Assignment::first() {
         else
             outputVars[j]->value = inputArgs[j].defaultValue;
     }
-    return true;
+    return count;
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::next() {
-    if (input->next()) {
+    uint64_t count = input->next();
+    if (count) {
         for (size_t j = 0; j < inputArgs.size(); ++j) {
             if (inputArgs[j].reg != NULL)
                 outputVars[j]->value = inputArgs[j].reg->value;
             else
                 outputVars[j]->value = inputArgs[j].defaultValue;
         }
-        return true;
+        return count;
     }
     return false;
 }
-- 
2.43.0


From bcccceece7cd0b47ff04c2493216f2d42649f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:35 +0000
Subject: [PATCH 19/32] fix: Minus divided by zero when the two sides share no
 variable

---
 rdf3x/src/rts/Minus.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/Minus.cpp b/rdf3x/src/rts/Minus.cpp
index a9926eb..a9b131a 100644
--- a/rdf3x/src/rts/Minus.cpp
+++ b/rdf3x/src/rts/Minus.cpp
@@ -28,7 +28,8 @@ uint64_t Minus::first() {
     if (res) {
         if (!loaded) {
             //Load the hashmap
-            if (minusTree->first()) {
+            //Solutions without variables in common are compatible, but remove nothing
+            if (!regsToCheck.empty() && minusTree->first()) {
                 do {
                     //Read the values in the registers and copy them in row
                     unsigned i = 0;
-- 
2.43.0


From df8bba2fe0999d48475cb3577d02928bc96f4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:36 +0000
Subject: [PATCH 20/32] fix: CartProd kept its buffer when restarted and left
 the registers of an empty optional side bound

---
 rdf3x/src/rts/CartProd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 368f58c..6f0bd5d 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -32,6 +32,8 @@ uint64_t CartProd::first()
     // Produce the first tuple
 {
     //Need to store all the first entries in a vector
+    buffer.clear();
+    leftExhausted = false;
     if ((leftCount = left->first()) == 0) {
         if (leftOptional) {
             for(int i = 0; i < leftTail.size(); ++i) {
@@ -49,6 +51,7 @@ uint64_t CartProd::first()
 	    buffer.push_back(rightCount);
 	    for(int i = 0; i < rightTail.size(); ++i) {
 		buffer.push_back(UINT64_MAX);
+		rightTail[i]->value = UINT64_MAX;
 	    }
 	    idxbuffer = 1 + rightTail.size();
 	} else {
-- 
2.43.0


From 2b523553b70827b84172a889ba7f38286a444b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:36 +0000
Subject: [PATCH 21/32] fix: Filter allocated a bitmap over the span of its
 values and overran it at the largest number

---
 rdf3x/include/rts/operator/Filter.hpp |  5 ++--
 rdf3x/src/rts/Filter.cpp              | 36 ++++++++-------------------
 2 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/rdf3x/include/rts/operator/Filter.hpp b/rdf3x/include/rts/operator/Filter.hpp
index 1b41f89..d577855 100644
--- a/rdf3x/include/rts/operator/Filter.hpp
+++ b/rdf3x/include/rts/operator/Filter.hpp
@@ -11,6 +11,7 @@
 // San Francisco, California, 94105, USA.
 //---------------------------------------------------------------------------
 #include "rts/operator/Operator.hpp"
+#include <set>
 #include <vector>
 //---------------------------------------------------------------------------
 class Register;
@@ -23,10 +24,8 @@ class Filter : public Operator
    Operator* input;
    /// The filter register
    Register* filter;
-   /// The bounds
-   uint64_t min,max;
    /// The valid values
-   std::vector<unsigned char> valid;
+   std::set<uint64_t> valid;
    /// Negative filter
    bool exclude;
 
diff --git a/rdf3x/src/rts/Filter.cpp b/rdf3x/src/rts/Filter.cpp
index 03c98f1..d732107 100644
--- a/rdf3x/src/rts/Filter.cpp
+++ b/rdf3x/src/rts/Filter.cpp
@@ -12,24 +12,9 @@
 // San Francisco, California, 94105, USA.
 //---------------------------------------------------------------------------
 Filter::Filter(Operator* input,Register* filter,const std::vector<uint64_t>& values,bool exclude,double expectedOutputCardinality)
-   : Operator(expectedOutputCardinality),input(input),filter(filter),exclude(exclude)
+   : Operator(expectedOutputCardinality),input(input),filter(filter),valid(values.begin(),values.end()),exclude(exclude)
    // Constructor
 {
-   if (values.empty()) {
-      min=1;
-      max=0;
-   } else {
-      min=max=values[0];
-      for (std::vector<uint64_t>::const_iterator iter=values.begin(),limit=values.end();iter!=limit;++iter) {
-         if ((*iter)<min)
-            min=*iter;
-         if ((*iter)>max)
-            max=*iter;
-      }
-      valid.resize(max-min+1);
-      for (std::vector<uint64_t>::const_iterator iter=values.begin(),limit=values.end();iter!=limit;++iter)
-         valid[(*iter)-min]=true;
-   }
 }
 //---------------------------------------------------------------------------
 Filter::~Filter()
@@ -46,9 +31,8 @@ uint64_t Filter::first()
    // Do we know the domain?
    if ((!exclude)&&(filter->domain)) {
       ObservedDomainDescription domain;
-      for (uint64_t index=min;index<=max;index++)
-         if (valid[index-min])
-            domain.add(index);
+      for (std::set<uint64_t>::const_iterator iter=valid.begin(),limit=valid.end();iter!=limit;++iter)
+         domain.add(*iter);
       filter->domain->restrictTo(domain);
    }
 
@@ -60,12 +44,12 @@ uint64_t Filter::first()
    // Check if valid
    uint64_t value=filter->value;
    if (exclude) {
-      if ((value>=min)&&(value<=max)&&(valid[value-min]))
+      if (valid.count(value))
          return next();
       observedOutputCardinality+=count;
       return count;
    } else {
-      if ((value>=min)&&(value<=max)&&(valid[value-min])) {
+      if (valid.count(value)) {
          observedOutputCardinality+=count;
          return count;
       }
@@ -85,7 +69,7 @@ uint64_t Filter::next()
 
          // Check if valid
          uint64_t value=filter->value;
-         if ((value>=min)&&(value<=max)&&(valid[value-min]))
+         if (valid.count(value))
             continue;
          observedOutputCardinality+=count;
          return count;
@@ -99,7 +83,7 @@ uint64_t Filter::next()
 
          // Check if valid
          uint64_t value=filter->value;
-         if ((value>=min)&&(value<=max)&&(valid[value-min])) {
+         if (valid.count(value)) {
             observedOutputCardinality+=count;
             return count;
          }
@@ -115,10 +99,10 @@ void Filter::print(PlanPrinter& out)
    std::string pred=out.formatRegister(filter);
    if (exclude) pred+=" not";
    pred+=" in {";
-   uint64_t id=min; bool first=true;
-   for (std::vector<unsigned char>::const_iterator iter=valid.begin(),limit=valid.end();iter!=limit;++iter,++id) {
+   bool first=true;
+   for (std::set<uint64_t>::const_iterator iter=valid.begin(),limit=valid.end();iter!=limit;++iter) {
       if (first) first=false; else pred+=" ";
-      pred+=out.formatValue(id);
+      pred+=out.formatValue(*iter);
    }
    pred+="}";
    out.addGenericAnnotation(pred);
-- 
2.43.0


From da72fd656f0bf581181f580309a15e08328e935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:36 +0000
Subject: [PATCH 22/32] fix: unbound registers were marked with a 32-bit number
 that is not recognised as unbound

---
 rdf3x/src/rts/HashJoin.cpp      |  4 +-
 rdf3x/src/rts/MergeJoin.cpp     | 66 ++++++++++++++++-----------------
 rdf3x/src/rts/Selection.cpp     |  4 +-
 rdf3x/src/rts/TableFunction.cpp |  2 +-
 rdf3x/src/rts/Union.cpp         |  2 +-
 5 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 8864907..d305f60 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -255,7 +255,7 @@ uint64_t HashJoin::next()
             joinSuccedeed = true;
             //Set the hash values to NULL
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             return rightCount;
         }
 
@@ -273,7 +273,7 @@ uint64_t HashJoin::next()
                 currentIdx = 0;
                 for (uint64_t index = 0, limit = rightTail.size();
                         index < limit; ++index)
-                    rightTail[index]->value = ~0u;
+                    rightTail[index]->value = UINT64_MAX;
                 return next();
             }
         }
diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 4c51b3d..bc39703 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -46,9 +46,9 @@ uint64_t MergeJoin::first()
                 return false;
             }
             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             }
-            leftValue->value = ~0u;
+            leftValue->value = UINT64_MAX;
             scanState = loopEmptyLeft;
             observedOutputCardinality += rightCount;
             return rightCount;
@@ -59,9 +59,9 @@ uint64_t MergeJoin::first()
     if ((rightCount=right->first())==0) {
         if (rightOptional) {
             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                rightTail[index]->value = ~0u;
+                rightTail[index]->value = UINT64_MAX;
             }
-            rightValue->value = ~0u;
+            rightValue->value = UINT64_MAX;
             scanState = loopEmptyRight;
             observedOutputCardinality += leftCount;
             return leftCount;
@@ -181,9 +181,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanHasBothSwapped) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -196,9 +196,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanStepLeft) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -210,14 +210,14 @@ uint64_t MergeJoin::next()
                         // Compare
                         {
                             uint64_t l=leftValue->value,r=rightValue->value;
-                            if (leftOptional && rightOptional && l == ~0u && r == ~0u) {
+                            if (leftOptional && rightOptional && l == UINT64_MAX && r == UINT64_MAX) {
                                 // Both sides are exhausted
                                 scanState = empty;
                                 return false;
                             }
                             if (l<r) {
                                 if (rightOptional) {
-                                    if (rightValue->value == ~0u) {
+                                    if (rightValue->value == UINT64_MAX) {
                                         // Means that right side is exhausted
                                         scanState = scanStepLeft;
                                         observedOutputCardinality += leftCount;
@@ -225,9 +225,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Right side is not exhausted. Push value aside.
                                     copyRight();
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step left, and get right from the shadow.
                                     scanState = scanStepLeftCopyRight;
@@ -239,7 +239,7 @@ uint64_t MergeJoin::next()
                             }
                             if (l>r) {
                                 if (leftOptional) {
-                                    if (leftValue->value == ~0u) {
+                                    if (leftValue->value == UINT64_MAX) {
                                         // Means that left side is exhausted
                                         scanState = scanStepRight;
                                         observedOutputCardinality += rightCount;
@@ -247,9 +247,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Left side is not exhausted. Push value aside.
                                     copyLeft();
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step right, and get left from the shadow.
                                     scanState = scanStepRightCopyLeft;
@@ -322,15 +322,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (leftOptional) {
-                                if (l != ~0u) {
+                                if (l != UINT64_MAX) {
                                     if (l > r) {
                                         // We need to compare the next "right" with this left as well.
                                         swapLeft();
                                         scanState = loopEmptyLeftCopyLeft;
                                     }
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality+=rightCount;
@@ -366,15 +366,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (rightOptional) {
-                                if (r != ~0u) {
+                                if (r != UINT64_MAX) {
                                     if (r > l) {
                                         swapRight();
                                         scanState = loopEmptyRightCopyRight;
                                         // We need to compare the next "left" with this right as well.
                                     }
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality += leftCount;
@@ -397,10 +397,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualLeft) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    if (leftValue->value != ~0u) {
-                                        leftValue->value = ~0u;
+                                    if (leftValue->value != UINT64_MAX) {
+                                        leftValue->value = UINT64_MAX;
                                         for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                            leftTail[index]->value = ~0u;
+                                            leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     // The next right tuple was already read
@@ -433,10 +433,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualRight) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    if (rightValue->value != ~0u) {
-                                        rightValue->value = ~0u;
+                                    if (rightValue->value != UINT64_MAX) {
+                                        rightValue->value = UINT64_MAX;
                                         for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                            rightTail[index]->value = ~0u;
+                                            rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     // The next left tuple was already read
@@ -479,10 +479,10 @@ uint64_t MergeJoin::next()
                             } else {
                                 if ((leftCount=left->next())==0) {
                                     if (leftOptional) {
-                                        if (leftValue->value != ~0u) {
-                                            leftValue->value = ~0u;
+                                        if (leftValue->value != UINT64_MAX) {
+                                            leftValue->value = UINT64_MAX;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                                leftTail[index]->value = ~0u;
+                                                leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         if (scanState==loopSpooledRightEmpty) {
@@ -510,10 +510,10 @@ uint64_t MergeJoin::next()
                                 // No, right hand side empty?
                                 if (scanState==loopSpooledRightEmpty) {
                                     if (rightOptional) {
-                                        if (rightValue->value != ~0u) {
-                                            rightValue->value = ~0u;
+                                        if (rightValue->value != UINT64_MAX) {
+                                            rightValue->value = UINT64_MAX;
                                             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                                rightTail[index]->value = ~0u;
+                                                rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         // The current left tuple still has to be handled
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index e483892..6ba1cdd 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -640,7 +640,7 @@ string Selection::Neg::print(PlanPrinter& out)
 void Selection::Null::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u);
+    result.setId(UINT64_MAX);
 }
 //---------------------------------------------------------------------------
 string Selection::Null::print(PlanPrinter& /*out*/)
@@ -736,7 +736,7 @@ void Selection::FunctionCall::setSelection(Selection* s)
 void Selection::FunctionCall::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u); // XXX perform the call
+    result.setId(UINT64_MAX); // XXX perform the call
 }
 //---------------------------------------------------------------------------
 string Selection::FunctionCall::print(PlanPrinter& out)
diff --git a/rdf3x/src/rts/TableFunction.cpp b/rdf3x/src/rts/TableFunction.cpp
index 6076a3f..594274a 100644
--- a/rdf3x/src/rts/TableFunction.cpp
+++ b/rdf3x/src/rts/TableFunction.cpp
@@ -233,7 +233,7 @@ void TableFunction::requestTable()
             }
          }
          if (!ok) {
-            table.push_back(~0u);
+            table.push_back(UINT64_MAX);
          } else {
             table.push_back(id);
          }
diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index 1863f3c..a8e8175 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -35,7 +35,7 @@ uint64_t Union::firstFromPart()
          continue;
       }
       for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
-         (*iter)->value=~0u;
+         (*iter)->value=UINT64_MAX;
       for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
          Register* from=*iter; ++iter;
          Register* to=*iter; ++iter;
-- 
2.43.0


From c4a30a0dc6fe96b02c32a976a5ce471e9c28292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:36 +0000
Subject: [PATCH 23/32] fix: Sort never recognised the count column and indexed
 the values with 2^32-1

---
 rdf3x/src/rts/Sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/Sort.cpp b/rdf3x/src/rts/Sort.cpp
index efe77ae..1b24319 100644
--- a/rdf3x/src/rts/Sort.cpp
+++ b/rdf3x/src/rts/Sort.cpp
@@ -117,11 +117,11 @@ Sort::Sort(DBLayer& db, Operator* input, const vector<Register*>& values, const
     for (vector<pair<Register*, bool> >::const_iterator iter = registerOrder.begin(), limit = registerOrder.end(); iter != limit; ++iter) {
         if (!(*iter).first) {
             Order o;
-            o.slot = ~0u;
+            o.slot = UINT64_MAX;
             o.descending = (*iter).second;
             order.push_back(o);
         } else {
-            uint64_t slot = ~0u;
+            uint64_t slot = UINT64_MAX;
             for (uint64_t index = 0; index < values.size(); index++)
                 if ((*iter).first == values[index]) {
                     slot = index;
-- 
2.43.0


From 35e3356821b34a19dee099b8c7af75331bf63917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:36 +0000
Subject: [PATCH 24/32] fix: DuplLimit did not reset its counters when
 evaluated again

---
 rdf3x/src/rts/DuplLimit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/DuplLimit.cpp b/rdf3x/src/rts/DuplLimit.cpp
index 9bc6236..af78f66 100644
--- a/rdf3x/src/rts/DuplLimit.cpp
+++ b/rdf3x/src/rts/DuplLimit.cpp
@@ -20,11 +20,12 @@ DuplLimit::DuplLimit(
 uint64_t DuplLimit::first()
 // Produce the first tuple
 {
+    observedOutputCardinality = 0;
     if (observedOutputCardinality < limit) {
         if ((entryCount = input->first()) != 0) {
 	    // If there is an offset, skip those.
 	    uint64_t o = offset;
-            currentCount++;
+            currentCount = 1;
 	    while (o > 0) {
 		if (next() == 0) {
 		    return 0;
-- 
2.43.0


From b14efbf52f4f56fac33ec5126c4bb73da8f92946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 25/32] fix: HashJoin kept the matched keys of an earlier
 evaluation when evaluated again

---
 rdf3x/src/rts/HashJoin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index d305f60..c75cd56 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -192,6 +192,9 @@ uint64_t HashJoin::first()
     // Produce the first tuple
 {
     currentIdx = (size_t) -1;
+    hashTableIter = 0;
+    joinSuccedeed = true;
+    collectedRightValues.clear();
     observedOutputCardinality = 0;
     // Build the hash table if not already done
     std::chrono::system_clock::time_point start = std::chrono::system_clock::now();
-- 
2.43.0


From 0669038ceebb3cd3e4eafd20ed75389e03635fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 26/32] fix: HashJoin left a stale join value in right tuples
 without left partner

---
 rdf3x/src/rts/HashJoin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index c75cd56..2866689 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -257,6 +257,7 @@ uint64_t HashJoin::next()
         if (!elementToProcess && !joinSuccedeed && leftOptional) {
             joinSuccedeed = true;
             //Set the hash values to NULL
+            leftValue->value = UINT64_MAX;
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
                 leftTail[index]->value = UINT64_MAX;
             return rightCount;
-- 
2.43.0


From ba16a85b75e1c2634c2d05f87523c253b05ee591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 27/32] fix: HashJoin lost left tuples without partner that
 share their key and left stale register values in them

---
 rdf3x/include/rts/operator/HashJoin.hpp |  2 ++
 rdf3x/src/rts/HashJoin.cpp              | 35 ++++++++++++++++++-------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/rdf3x/include/rts/operator/HashJoin.hpp b/rdf3x/include/rts/operator/HashJoin.hpp
index 92daaf3..1bb7a12 100644
--- a/rdf3x/include/rts/operator/HashJoin.hpp
+++ b/rdf3x/include/rts/operator/HashJoin.hpp
@@ -95,6 +95,8 @@ private:
     void insert(Entry* e);
     /// Lookup an entry
     inline Entry* lookup(uint64_t key);
+    /// Start returning the left tuples without partner
+    void startLeftovers();
 
     //Optional?
     bool leftOptional, rightOptional, joinSuccedeed;
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 2866689..789476e 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -188,6 +188,17 @@ HashJoin::Entry* HashJoin::lookup(uint64_t key)
     return 0;
 }
 //---------------------------------------------------------------------------
+void HashJoin::startLeftovers()
+    // Start returning the left tuples without partner, with the right side unbound
+{
+    currentIdx = 0;
+    hashTableIter = 0;
+    rightValue->value = UINT64_MAX;
+    for (uint64_t index = 0, limit = rightTail.size();
+            index < limit; ++index)
+        rightTail[index]->value = UINT64_MAX;
+}
+//---------------------------------------------------------------------------
 uint64_t HashJoin::first()
     // Produce the first tuple
 {
@@ -223,17 +234,26 @@ uint64_t HashJoin::next()
     // Produce the next tuple
 {
     if (currentIdx != (size_t) -1) {
-        Entry *e;
-        while (currentIdx < hashTable.size()) {
-            if ((e = hashTable[currentIdx++])
-                    && !collectedRightValues.count(e->key)) {
+        // Return all left tuples without partner, including the ones with the same key
+        while (true) {
+            Entry *e = hashTableIter;
+            if (e) {
+                hashTableIter = e->next;
+                leftValue->value = e->key;
                 for (uint64_t index = 0, limit = leftTail.size();
                         index < limit; ++index)
                     leftTail[index]->value = e->values[index];
+                observedOutputCardinality += e->count;
                 return e->count;
             }
+            if (currentIdx >= hashTable.size()) {
+                return false;
+            }
+            e = hashTable[currentIdx++];
+            if (e && !collectedRightValues.count(e->key)) {
+                hashTableIter = e;
+            }
         }
-        return false;
     }
 
     // Repeat until a match is found
@@ -274,10 +294,7 @@ uint64_t HashJoin::next()
                 return false;
             } else {
                 //Scan the all left table. return a NULL for each entry not joined
-                currentIdx = 0;
-                for (uint64_t index = 0, limit = rightTail.size();
-                        index < limit; ++index)
-                    rightTail[index]->value = UINT64_MAX;
+                startLeftovers();
                 return next();
             }
         }
-- 
2.43.0


From 8eda6af751431d6d1ff516268f36d5056d955e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 28/32] fix: HashJoin lost all left tuples of an optional right
 side that is empty

---
 rdf3x/src/rts/HashJoin.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 789476e..33f1b5e 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -216,8 +216,12 @@ uint64_t HashJoin::first()
 
     // Read the first tuple from the right side
     probePeekTask.run();
-    if (((rightCount = probePeekTask.count) == 0) && !leftOptional) {
-        return false;
+    if ((rightCount = probePeekTask.count) == 0) {
+        if (!rightOptional) {
+            return false;
+        }
+        startLeftovers();
+        return next();
     }
 
     // Setup the lookup
-- 
2.43.0


From 12995dc2fcdd54b28f9951ce0e80f1445eb99d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 29/32] fix: Node::unserialize reads the stride of a sequence
 node as an unsigned byte

---
 src/trident/tree/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ae28591..cfb881c 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -101,7 +101,7 @@ int Node::unserialize(char* bytes, int pos) {
         firstKey = Utils::decode_long(bytes, pos);
         pos += 8;
         if (size > 1) {
-            char step = bytes[pos++];
+            uint8_t step = (uint8_t) bytes[pos++];
             if (step > 0) {
                 consecutive = true;
                 consecutiveStep = step;
-- 
2.43.0


From e561a43b8af75224787983f5a26e86dce6aad50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 30/32] fix: Node::serialize keeps the stride of a sequence
 node and checks every difference

---
 src/trident/tree/node.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index cfb881c..ccb9925 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -137,11 +137,8 @@ int Node::serialize(char* bytes, int pos) {
         if (getCurrentSize() > 1) {
             // Check if we can make it consecutive
             uint8_t step = 0;
-            if (consecutive
-                    || (keys[0] == 1
-                        && keys[getCurrentSize() - 2]
-                        == getCurrentSize() - 1)) {
-                step = 1;
+            if (consecutive) {
+                step = (uint8_t) consecutiveStep;
             } else {
                 if (keys[0] > 0 && keys[0] < 256 && keys[getCurrentSize() - 2] % keys[0] == 0
                         && keys[getCurrentSize() - 2] / keys[0]
-- 
2.43.0


From c6d79eda46e8b97a699f3189325f484f2a91938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 31/32] fix: Node::split uses the stride of a sequence node and
 checks every key of the new one

---
 src/trident/tree/node.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ccb9925..244eccb 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -222,13 +222,19 @@ void Node::split(Node *node) {
     currentSize = node->currentSize = context->getMinElementsPerNode();
 
     if (consecutive) {
-        node->firstKey = firstKey + currentSize;
+        node->firstKey = firstKey + (int64_t) currentSize * consecutiveStep;
         node->consecutive = true;
+        node->consecutiveStep = consecutiveStep;
     } else {
         node->firstKey = firstKey + keys[currentSize - 1];
-        if (keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
-                + 1 == currentSize) {
+        // Text keys are not sorted by number: all of them must be checked
+        bool isSequence = true;
+        for (int i = 0; i < currentSize - 1 && isSequence; ++i) {
+            isSequence = keys[currentSize + i] - keys[currentSize - 1] == i + 1;
+        }
+        if (isSequence) {
             node->consecutive = true;
+            node->consecutiveStep = 1;
         } else {
             node->consecutive = false;
             if (node->keys == NULL) {
-- 
2.43.0


From 9d3edbc9787e012fd859e202a962e11c58fff978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 32/32] fix: Node::putkeyAt and removeKeyAtPos keep all keys
 when a sequence node is materialised

---
 src/trident/tree/node.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index 244eccb..722fe66 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -257,10 +257,12 @@ void Node::putkeyAt(nTerm key, int pos) {
             if (consecutive) {
                 int64_t diff = firstKey - key;
 //              keys = new int64_t[context->getMaxElementsPerNode() - 1];
-                keys = context->getNodesKeyFactory()->get();
+                if (keys == NULL) {
+                    keys = context->getNodesKeyFactory()->get();
+                }
                 keys[0] = diff;
                 for (int i = 1; i < getCurrentSize(); ++i) {
-                    keys[i] = diff + i;
+                    keys[i] = diff + (int64_t) i * consecutiveStep;
                 }
                 firstKey = key;
                 consecutive = false;
@@ -277,12 +279,18 @@ void Node::putkeyAt(nTerm key, int pos) {
     } else {
         if (consecutive) {
             int64_t diff = key - firstKey;
-            if (pos != diff) {
+            if (pos < getCurrentSize() || diff != (int64_t) pos * consecutiveStep) {
                 consecutive = false;
 //              keys = new int64_t[context->getMaxElementsPerNode() - 1];
-                keys = context->getNodesKeyFactory()->get();
+                if (keys == NULL) {
+                    keys = context->getNodesKeyFactory()->get();
+                }
                 for (int i = 0; i < getCurrentSize() - 1; ++i) {
-                    keys[i] = i + 1;
+                    keys[i] = (int64_t) (i + 1) * consecutiveStep;
+                }
+                if (pos < getCurrentSize()) {
+                    memmove(keys + pos, keys + pos - 1,
+                            sizeof(int64_t) * (currentSize - pos));
                 }
                 keys[pos - 1] = diff;
             }
@@ -308,7 +316,7 @@ void Node::removeKeyAtPos(int pos) {
     if (getCurrentSize() > 1 && pos < getCurrentSize() - 1) {
         if (consecutive) {
             if (pos == 0) {
-                firstKey += 1;
+                firstKey += consecutiveStep;
             } else {
                 if (keys == NULL) {
 //                  keys = new int64_t[context->getMaxElementsPerNode() - 1];
@@ -316,10 +324,10 @@ void Node::removeKeyAtPos(int pos) {
                 }
                 // up to pos -1 fill keys with 1s
                 for (int i = 0; i < pos - 1; ++i) {
-                    keys[i] = i + 1;
+                    keys[i] = (int64_t) (i + 1) * consecutiveStep;
                 }
                 for (int i = pos - 1; i < getCurrentSize() - 2; ++i) {
-                    keys[i] = i + 2;
+                    keys[i] = (int64_t) (i + 2) * consecutiveStep;
                 }
                 consecutive = false;
             }
-- 
2.43.0

