From 1efdbd94b6d7531dbf87b1b5d0e9a8cbf66ae829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 01/52] fix: laik_range_intersect: report empty intersection
 for empty input ranges

---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 9fc04e2..6d79f24 100644
--- a/src/space.c
+++ b/src/space.c
@@ -170,7 +170,8 @@ bool intersectRange(int64_t from1, int64_t to1, int64_t from2, int64_t to2,
     if (from2 >= to1) return false;
     *resFrom = (from1 > from2) ? from1 : from2;
     *resTo = (to1 > to2) ? to2 : to1;
-    return true;
+    // still empty if one of the ranges is empty itself
+    return *resFrom < *resTo;
 }
 
 // get the intersection of two ranges; return 0 if intersection is empty
-- 
2.43.0


From 51daf6e414157bbc4334cd256a77a3e9c35a4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 02/52] fix: laik_rangelist_migrate: keep mapping numbers, drop
 cached mapping offsets

---
 src/rangelist.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..1c10009 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -700,5 +700,20 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
     }
     list->tid_count = new_count;
     sortRanges(list);
-    updateOffsets(list);
+
+    // update offsets. Mapping numbers stay valid: sorting groups by task id,
+    // but does not change the order of ranges of the same task
+    unsigned int off = 0;
+    for(unsigned int task = 0; task < new_count; task++) {
+        list->off[task] = off;
+        while((off < list->count) && (list->trange[off].task == (int) task)) off++;
+    }
+    list->off[new_count] = off;
+    assert(off == list->count);
+
+    // map offsets calculated for a task id are not valid any more
+    free(list->map_off);
+    list->map_off = 0;
+    list->map_count = 0;
+    list->map_tid = -1;
 }
-- 
2.43.0


From 5374dc21236f8ca5a4c15264a625855650937408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 03/52] fix: rb_cmp: compare 64-bit range borders without
 truncation

---
 src/space.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index 6d79f24..e2c534c 100644
--- a/src/space.c
+++ b/src/space.c
@@ -834,8 +834,7 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
-
+    return (sb1->b < sb2->b) ? -1 : 1;
 }
 
 static bool addTask(TaskGroup* g, int task, int maxTasks)
-- 
2.43.0


From 8ef695f03758bff45cd84d26c3199727c2d2915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 04/52] fix: calcAddReductions: ignore empty ranges

---
 src/space.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/space.c b/src/space.c
index e2c534c..11bcf61 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1098,8 +1098,11 @@ void calcAddReductions(int tflags,
             lastTask = ts->task;
             lastMapNo = ts->mapNo;
         }
-        appendBorder(ts->range.from.i[0], ts->task, rangeNo, ts->mapNo, true, true);
-        appendBorder(ts->range.to.i[0], ts->task, rangeNo, ts->mapNo, false, true);
+        // empty ranges do not hold any index
+        if (ts->range.from.i[0] < ts->range.to.i[0]) {
+            appendBorder(ts->range.from.i[0], ts->task, rangeNo, ts->mapNo, true, true);
+            appendBorder(ts->range.to.i[0], ts->task, rangeNo, ts->mapNo, false, true);
+        }
         rangeNo++;
     }
     lastTask = -1;
@@ -1112,8 +1115,10 @@ void calcAddReductions(int tflags,
             lastTask = tr->task;
             lastMapNo = tr->mapNo;
         }
-        appendBorder(tr->range.from.i[0], tr->task, rangeNo, tr->mapNo, true, false);
-        appendBorder(tr->range.to.i[0], tr->task, rangeNo, tr->mapNo, false, false);
+        if (tr->range.from.i[0] < tr->range.to.i[0]) {
+            appendBorder(tr->range.from.i[0], tr->task, rangeNo, tr->mapNo, true, false);
+            appendBorder(tr->range.to.i[0], tr->task, rangeNo, tr->mapNo, false, false);
+        }
         rangeNo++;
     }
 
-- 
2.43.0


From e34b2668e7e9ec4ae099e54798da45d26f882fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 05/52] fix: calcAddReductions: no operation for values not
 wanted by any process

---
 src/space.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/space.c b/src/space.c
index 11bcf61..57c896d 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1204,6 +1204,9 @@ void calcAddReductions(int tflags,
                 assert(isInTaskGroup(&inputGroup, myid) ||
                        isInTaskGroup(&outputGroup, myid));
 
+                // nobody wants the values: nothing to do
+                if (outputGroup.count == 0) continue;
+
                 range.from.i[0] = sb->b;
                 range.to.i[0] = nextBorder;
 
-- 
2.43.0


From d27d26abe343e4471325f55dd819145cf89efe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 06/52] fix: 2d/3d transitions: make send and receive
 operations match

Senders and receivers used different conditions for skipping transfers of
ranges available locally, and a different order for multiple ranges.
---
 src/space.c | 54 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/space.c b/src/space.c
index 57c896d..1045315 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1337,6 +1337,15 @@ void calcAddReductions(int tflags,
     freeBorderList();
 }
 
+// does <task> own a range exactly matching <range> in range list <rl>?
+static
+bool hasRange(Laik_RangeList* rl, int task, Laik_Range* range)
+{
+    for(unsigned int o = rl->off[task]; o < rl->off[task+1]; o++)
+        if (laik_range_isEqual(range, &(rl->trange[o].range))) return true;
+    return false;
+}
+
 static int trans_id = 0;
 
 // Calculate communication required for transitioning between partitionings
@@ -1489,25 +1498,23 @@ do_calc_transition(Laik_Space* space,
             else { // no reduction
 
                 // something to receive not coming from a reduction?
+                // use same order of ranges as sender
                 for(int task = 0; task < taskCount; task++) {
                     if (task == myid) continue;
-                    for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
-
-                        // everything we have local will not have been sent
-                        // TODO: we only check for exact match to catch All
-                        // FIXME: should print out a Warning/Error as the App
-                        //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
-                            }
-                        }
-                        if (range == 0) continue;
+                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
 
-                        for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                        // not sent if we have exactly this range local
+                        if (hasRange(fromRL, myid, &(fromRL->trange[o2].range)))
+                            continue;
+
+                        for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
+
+                            // everything we have local will not have been sent
+                            // TODO: we only check for exact match to catch All
+                            // FIXME: should print out a Warning/Error as the App
+                            //        was requesting for overwriting of values!
+                            if (hasRange(fromRL, myid, &(toRL->trange[o1].range)))
+                                continue;
 
                             range = laik_range_intersect(&(fromRL->trange[o2].range),
                                                        &(toRL->trange[o1].range));
@@ -1529,19 +1536,16 @@ do_calc_transition(Laik_Space* space,
                     // TODO: we only check for exact match to catch All
                     // FIXME: should print out a Warning/Error as the App
                     //        requests overwriting of values!
-                    range = &(fromRL->trange[o1].range);
-                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-                        if (laik_range_isEqual(range,
-                                               &(fromRL->trange[o2].range))) {
-                            range = 0;
-                            break;
-                        }
-                    }
-                    if (range == 0) continue;
+                    if (hasRange(fromRL, task, &(fromRL->trange[o1].range)))
+                        continue;
 
                     // we may send multiple messages to same task
                     for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
 
+                        // receiver has complete wanted range local
+                        if (hasRange(fromRL, task, &(toRL->trange[o2].range)))
+                            continue;
+
                         range = laik_range_intersect(&(fromRL->trange[o1].range),
                                                    &(toRL->trange[o2].range));
                         if (range == 0) continue;
-- 
2.43.0


From 0bf5fe9d09ee5792d1e9ef3ffd74bfa05890577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:38 +0000
Subject: [PATCH 07/52] fix: block partitioner: do not abort if there are more
 parts than can be filled

With more than two parts per index, small index weights, or a zero weight
at the end, the remaining parts are empty.
---
 src/partitioner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..c63de45 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -616,7 +616,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // with small weights or more parts than indexes, there may be parts left:
+    // these stay empty, as the current task gets all the remaining indexes
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From 7899b8f5d57ae521f1ef55d52965f0f0a178534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:38 +0000
Subject: [PATCH 08/52] fix: bisection partitioner: do not abort with less
 indexes than tasks

---
 src/partitioner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index c63de45..9927fcd 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -375,6 +375,8 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     int tag = 1; // TODO: make it a parameter
 
     assert(toTask > fromTask);
+    if (laik_range_isEmpty(s)) return; // less indexes than tasks
+
     if (toTask - fromTask == 1) {
         laik_append_range(r, fromTask, s, tag, 0);
         return;
-- 
2.43.0


From 4a857d7a072efdf95774ca23c77972913b3b7d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:38 +0000
Subject: [PATCH 09/52] fix: grid partitioner: last block always ends at border
 of space

Rounding of the block width could result in the last index not covered.
---
 src/partitioner.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index 9927fcd..f5252aa 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -459,6 +459,7 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     for(int z = 0; z < data->zblocks; z++) {
         from = ss->from.i[2] + z * zStep;
         to   = ss->from.i[2] + (z+1) * zStep;
+        if (z+1 == data->zblocks) to = ss->to.i[2]; // no rounding
         if (from == to) continue;
         if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
@@ -467,6 +468,7 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         for(int y = 0; y < data->yblocks; y++) {
             from = ss->from.i[1] + y * yStep;
             to   = ss->from.i[1] + (y+1) * yStep;
+            if (y+1 == data->yblocks) to = ss->to.i[1]; // no rounding
             if (from == to) continue;
             if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
@@ -475,6 +477,7 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
             for(int x = 0; x < data->xblocks; x++) {
                 from = ss->from.i[0] + x * xStep;
                 to   = ss->from.i[0] + (x+1) * xStep;
+                if (x+1 == data->xblocks) to = ss->to.i[0]; // no rounding
                 if (from == to) continue;
                 if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
-- 
2.43.0


From fd5740047ac9d2b8b71ab679266223d20815e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 10/52] fix: halo partitioner: add halos clipped at border of
 space

A range starting (or ending) not more than the depth away from the border
of the space got no halo in this direction at all.
---
 src/partitioner.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index f5252aa..e65b424 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -312,43 +312,49 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
-            range.from.i[0] -= depth;
+            range.from.i[0] = (range.to.i[0] > sp.from.i[0] + depth) ?
+                range.to.i[0] - depth : sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
-            range.to.i[0] += depth;
+            range.to.i[0] = (range.from.i[0] < sp.to.i[0] - depth) ?
+                range.from.i[0] + depth : sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
-                range.from.i[1] -= depth;
+                range.from.i[1] = (range.to.i[1] > sp.from.i[1] + depth) ?
+                    range.to.i[1] - depth : sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
-                range.to.i[1] += depth;
+                range.to.i[1] = (range.from.i[1] < sp.to.i[1] - depth) ?
+                    range.from.i[1] + depth : sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
-                    range.from.i[2] -= depth;
+                    range.from.i[2] = (range.to.i[2] > sp.from.i[2] + depth) ?
+                        range.to.i[2] - depth : sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
-                    range.to.i[2] += depth;
+                    range.to.i[2] = (range.from.i[2] < sp.to.i[2] - depth) ?
+                        range.from.i[2] + depth : sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From 5226ab8ac50fb4dd1c02f20f10a78c8fd58935e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 11/52] fix: laik_rangefilter_add_idxfilter: install filter
 also without own ranges

Otherwise, no filter function is set and running the partitioner calls NULL.
---
 src/partitioning.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..315239b 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -161,6 +161,9 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
+    // install filter function: without own ranges, nothing is kept
+    sf->filter_func = idxfilter;
+
     // no own ranges?
     unsigned mycount = list->off[tid+1] - list->off[tid];
     if (mycount == 0) return;
@@ -180,9 +183,6 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
 
     laik_log(1,"Set pfilter to intersection with %d ranges between [%lld;%lld[",
              par->len, (long long) par->from, (long long) par->to);
-
-    // install filter function
-    sf->filter_func = idxfilter;
 }
 
 
-- 
2.43.0


From 08c1ce0dc166ef972f559e6d00827d635cce11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 12/52] fix: index range filter: support overlapping and tagged
 own ranges

Binary search needs ranges sorted by index and without overlap. Otherwise,
needed ranges got lost or the search did not terminate.
---
 include/laik/space-internal.h |  1 +
 src/partitioning.c            | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/laik/space-internal.h b/include/laik/space-internal.h
index dde4b54..153f680 100644
--- a/include/laik/space-internal.h
+++ b/include/laik/space-internal.h
@@ -123,6 +123,7 @@ typedef struct {
     int64_t from, to;
     Laik_TaskRange_Gen* ts;
     unsigned int len;
+    bool isSorted; // ranges sorted by index, without overlap?
 } PFilterPar;
 
 // parameters for filtering ranges on a partitioner run
diff --git a/src/partitioning.c b/src/partitioning.c
index 315239b..7573e81 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -99,8 +99,17 @@ static bool idxfilter_check(int64_t from, int64_t to, PFilterPar* par)
         return false;
     }
 
-    // binary search
     Laik_TaskRange_Gen* ts = par->ts;
+    if (!par->isSorted) {
+        // overlapping or unsorted: check all ranges
+        for(unsigned int off = 0; off < par->len; off++)
+            if ((from < ts[off].range.to.i[0]) && (to > ts[off].range.from.i[0]))
+                return true;
+        laik_log(1,"    no intersection!");
+        return false;
+    }
+
+    // binary search
     unsigned int off1 = 0, off2 = par->len;
     while(off1 < off2) {
         unsigned int mid = (off1 + off2) / 2;
@@ -177,6 +186,15 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     par->to   = ts2->range.to.i[0];
     par->ts = ts1;
 
+    // with overlapping or tagged ranges, order by index is not guaranteed
+    par->isSorted = true;
+    for(Laik_TaskRange_Gen* ts = ts1; ts <= ts2; ts++) {
+        if (ts->range.from.i[0] < par->from) par->from = ts->range.from.i[0];
+        if (ts->range.to.i[0] > par->to) par->to = ts->range.to.i[0];
+        if ((ts < ts2) && (ts[0].range.to.i[0] > ts[1].range.from.i[0]))
+            par->isSorted = false;
+    }
+
     if      (sf->pfilter1 == 0) sf->pfilter1 = par;
     else if (sf->pfilter2 == 0) sf->pfilter2 = par;
     else assert(0);
-- 
2.43.0


From 7c37da2921cff53493a9fcf3689eb32a7b3407f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 13/52] fix: laik_partitioning_new: buffer overflow for
 partitionings with long names

---
 src/partitioning.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 7573e81..a444363 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -265,7 +265,8 @@ Laik_Partitioning* laik_partitioning_new(char* name,
     }
 
     p->id = partitioning_id++;
-    p->name = strdup("            ");
+    // 10 characters from name, with space for any ID appended
+    p->name = strdup("                        ");
     sprintf(p->name, "%.10s-%d", name ? name : "part", p->id);
 
     p->group = g;
-- 
2.43.0


From ec3df1c45bf008cc383fc7863ea1e8d8683d8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 14/52] fix: buffers for names of objects too small for high ID
 numbers

---
 src/action.c | 2 +-
 src/data.c   | 4 ++--
 src/space.c  | 4 ++--
 src/type.c   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/action.c b/src/action.c
index 90b8892..9f64415 100644
--- a/src/action.c
+++ b/src/action.c
@@ -36,7 +36,7 @@ Laik_ActionSeq* laik_aseq_new(Laik_Instance *inst)
         exit(1); // not actually needed, laik_panic never returns
     }
     as->id = aseq_id++;
-    as->name = strdup("aseq-0     ");
+    as->name = strdup("aseq-0          ");
     sprintf(as->name, "aseq-%d", as->id);
 
     as->inst = inst;
diff --git a/src/data.c b/src/data.c
index fb077bd..b3e4336 100644
--- a/src/data.c
+++ b/src/data.c
@@ -165,7 +165,7 @@ Laik_Data* laik_new_data(Laik_Space* space, Laik_Type* type)
     }
 
     d->id = data_id++;
-    d->name = strdup("data-0     ");
+    d->name = strdup("data-0          ");
     sprintf(d->name, "data-%d", d->id);
 
     d->space = space;
@@ -895,7 +895,7 @@ Laik_Reservation* laik_reservation_new(Laik_Data* d)
     }
 
     r->id = res_id++;
-    r->name = strdup("res-0     ");
+    r->name = strdup("res-0          ");
     sprintf(r->name, "res-%d", r->id);
 
     r->data = d;
diff --git a/src/space.c b/src/space.c
index 1045315..f3820d6 100644
--- a/src/space.c
+++ b/src/space.c
@@ -337,7 +337,7 @@ Laik_Space* laik_new_space(Laik_Instance* inst)
     }
 
     space->id = space_id++;
-    space->name = strdup("space-0     ");
+    space->name = strdup("space-0          ");
     sprintf(space->name, "space-%d", space->id);
 
     space->inst = inst;
@@ -1590,7 +1590,7 @@ do_calc_transition(Laik_Space* space,
     }
 
     t->id = trans_id++;
-    t->name = strdup("trans-0     ");
+    t->name = strdup("trans-0          ");
     sprintf(t->name, "trans-%d", t->id);
 
     t->flags = tflags;
diff --git a/src/type.c b/src/type.c
index d55f755..0e8bd37 100644
--- a/src/type.c
+++ b/src/type.c
@@ -643,7 +643,7 @@ Laik_Type* laik_type_new(char* name, Laik_TypeKind kind, int size,
     if (name)
         t->name = name;
     else {
-        t->name = strdup("type-0     ");
+        t->name = strdup("type-0          ");
         sprintf(t->name, "type-%d", t->id);
     }
 
-- 
2.43.0


From 2be3c81dff3997123897ff97cf5ca2828703a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 15/52] fix: mergeSortedRanges: accept empty list of ranges

---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 1c10009..2808011 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -410,8 +410,8 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From 44a9360c92256cedb5c734a4ed1e7fe1525f0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 16/52] fix: lex layout: use strides of own mapping in
 copy/pack/unpack

With multiple mappings, the strides of the first mapping were used for
all mappings, reading/writing wrong elements.
---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From 315bf42b747c2195df458bc7ddf4d68eef49b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 17/52] fix: describe_lex: no buffer overflow with many
 mappings

---
 src/layout_lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..f647132 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -124,6 +124,11 @@ char* describe_lex(Laik_Layout* l)
                 l->dims, l->map_count);
     for(int i = 0; i < l->map_count; i++) {
         Lex_Entry* e = &(ll->e[i]);
+        if (o > 100) {
+            // not enough space left for another map
+            o += sprintf(s+o, ", ...");
+            break;
+        }
         o += sprintf(s+o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
              (unsigned long long) e->stride[0],
-- 
2.43.0


From 2d478e98b9bd18aa51b9821da737e82e485fff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 18/52] fix: laik_get_map_addr: offset is relative to start of
 allocation

With reused memory, base (address of first required index) is not the
start of the allocation.
---
 src/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index b3e4336..8ec8982 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1412,7 +1412,8 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     if (!m) return 0;
 
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    // offset is relative to start of allocation (base may be different)
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From 338f30a4d9634cf1066a411173b9c70125a8d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 19/52] fix: doTransition: do not crash without old or new
 mappings

Happened when switching to no partitioning, and for processes being
not part of the process groups of both partitionings.
---
 src/data.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index 8ec8982..d769860 100644
--- a/src/data.c
+++ b/src/data.c
@@ -789,7 +789,8 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        // (no mappings if this process was not part of the process group)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
@@ -804,7 +805,9 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
     checkMapReuse(toList, fromList);
 
     // allocate space for mappings for which reuse is not possible
-    allocateMappings(toList, d->stat);
+    // (no new mappings if switching to no partitioning)
+    if (toList)
+        allocateMappings(toList, d->stat);
 
     bool doASeqCleanup = false;
     if (as) {
-- 
2.43.0


From 10a71a832997c35c446051c10c58ba4c6eab3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:03 +0000
Subject: [PATCH 20/52] fix: initMaps: do not truncate 64-bit indexes

---
 src/data.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data.c b/src/data.c
index d769860..da76993 100644
--- a/src/data.c
+++ b/src/data.c
@@ -715,8 +715,8 @@ void initMaps(Laik_Transition* t,
         assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
+        int64_t from = s->from.i[0];
+        int64_t to = s->to.i[0];
         int elemCount = to - from;
 
         char* toBase = toMap->base;
@@ -735,8 +735,9 @@ void initMaps(Laik_Transition* t,
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
-                 d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
+        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%lld;%lld[ from %p\n",
+                 d->name, op->rangeNo, op->mapNo, elemCount,
+                 (long long) from, (long long) to, (void*) toBase);
     }
 }
 
-- 
2.43.0


From 50743cf450786beb3d6179a276c6af1abba0196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 21/52] fix: memory of reservations never was freed

The base mappings lost their allocator to embedded mappings.
---
 src/data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.c b/src/data.c
index da76993..ebf4272 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1176,7 +1176,11 @@ void laik_reservation_alloc(Laik_Reservation* res)
             m->layout = m->baseMapping->layout;
             m->layoutSection = m->baseMapping->layoutSection;
 
+            // base mapping stays owner of the allocation
+            Laik_Allocator* a = m->baseMapping->allocator;
             initEmbeddedMapping(m, m->baseMapping);
+            m->baseMapping->allocator = a;
+            m->allocator = 0;
 
             if (laik_log_begin(1)) {
                 laik_log_append("  [%d] ", m->mapNo);
-- 
2.43.0


From 5edfe08b1dc5f82abe845cb5415000f289f4fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 22/52] fix: copyMaps: copy between different mappings of same
 reservation

Values got lost if an index belongs to mappings with different tags.
---
 src/data.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.c b/src/data.c
index ebf4272..b23cd5c 100644
--- a/src/data.c
+++ b/src/data.c
@@ -554,9 +554,6 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
-
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
         assert(op->fromMapNo < fromList->count);
@@ -573,6 +570,10 @@ void copyMaps(Laik_Transition* t,
             // nothing to copy from
             continue;
         }
+        if (fromMap->baseMapping && (fromMap->baseMapping == toMap->baseMapping)) {
+            // no copy required if we stay in same mapping of a reservation
+            continue;
+        }
 
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-- 
2.43.0


From 8b624021b8e98c12be5274f3c6fc6958a9afafa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 23/52] fix: laik_new_union_group: support unrelated groups
 with same processes

The union of two groups not derived from each other was one of them if
it has all processes, but partitionings cannot be migrated to it (abort).
---
 src/core.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index 4150c81..861b0e0 100644
--- a/src/core.c
+++ b/src/core.c
@@ -392,6 +392,16 @@ int lididx_cmp(const void *p1, const void *p2)
     return li1->lid - li2->lid;
 }
 
+// is one of the groups derived from the other, ie. is there a direct mapping
+// between process IDs of the groups?
+static
+bool related_groups(Laik_Group* g1, Laik_Group* g2)
+{
+    return (g1 == g2) ||
+           (g1->parent == g2) || (g1->parent2 == g2) ||
+           (g2->parent == g1) || (g2->parent2 == g1);
+}
+
 // create new group as union of 2 groups
 Laik_Group* laik_new_union_group(Laik_Group* g1, Laik_Group* g2)
 {
@@ -421,14 +431,17 @@ Laik_Group* laik_new_union_group(Laik_Group* g1, Laik_Group* g2)
         lids++;
     }
 
-    if (lids == g1->size) {
+    // reuse g1 or g2 if possible. However, always create a new group if there is
+    // no mapping between IDs of g1 and g2 (required for migrating partitionings)
+    bool related = related_groups(g1, g2);
+    if (related && (lids == g1->size)) {
         // g1 has same LIDs as g1 and g2, so g1 is union
         free(li_array);
         laik_log(1, "union group of %d (size %d, myid %d) + %d (size %d, myid %d): %d",
                  g1->gid, g1->size, g1->myid, g2->gid, g2->size, g2->myid, g1->gid);
         return g1;
     }
-    if (lids == g2->size) {
+    if (related && (lids == g2->size)) {
         // g2 has same LIDs as g1 and g2, so g1 is union
         free(li_array);
         laik_log(1, "union group of %d (size %d, myid %d) + %d (size %d, myid %d): %d",
-- 
2.43.0


From ed27d3445da23b083b83f6426aa8116cbc718a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:07 +0000
Subject: [PATCH 24/52] fix: checkMapReuse: do not replace memory provided by
 application

---
 src/data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.c b/src/data.c
index b23cd5c..ee49a9d 100644
--- a/src/data.c
+++ b/src/data.c
@@ -658,6 +658,8 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
             fromMap = &(fromList->map[sNo]);
             if (fromMap->base == 0) continue;
             if (fromMap->reusedFor >= 0) continue; // only reuse once
+            // other memory was explicitly provided for new mapping
+            if ((toMap->start != 0) && (toMap->start != fromMap->start)) continue;
 
             // does new mapping fit into old?
             bool reuse = (toList->layout->reuse)(toList->layout, i, fromList->layout, sNo);
-- 
2.43.0


From ffeda652980bce9eefdde517f05a908994e2a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:38 +0000
Subject: [PATCH 25/52] fix: preserve values when switching within memory
 provided by application

The same provided memory was used for old and new mapping even if
indexes are at different addresses, overwriting values to be copied.
---
 src/data.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/data.c b/src/data.c
index ee49a9d..ad9f42a 100644
--- a/src/data.c
+++ b/src/data.c
@@ -694,6 +694,25 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
     }
 }
 
+// memory provided by the application may be in use by the old mappings.
+// When preserving values, it only can be used again if indexes stay at the
+// same address (see checkMapReuse). Otherwise use other memory
+static
+void checkProvidedMemory(Laik_MappingList* toList, Laik_MappingList* fromList)
+{
+    for(int i = 0; i < toList->count; i++) {
+        Laik_Mapping* toMap = &(toList->map[i]);
+        if ((toMap->start == 0) || (toMap->baseMapping != 0)) continue;
+        for(int j = 0; j < fromList->count; j++) {
+            if (fromList->map[j].start != toMap->start) continue;
+            toMap->start = 0;
+            toMap->base = 0;
+            toMap->allocator = toMap->data->allocator;
+            break;
+        }
+    }
+}
+
 static
 void initMaps(Laik_Transition* t,
               Laik_MappingList* toList, Laik_MappingList* fromList,
@@ -806,6 +825,8 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
     // thus it is bad to reuse a mapping for different index ranges.
     // but reusing mappings such that same indexes go to same address
     // is fine.
+    if (toList && fromList && (t->flow == LAIK_DF_Preserve))
+        checkProvidedMemory(toList, fromList);
     checkMapReuse(toList, fromList);
 
     // allocate space for mappings for which reuse is not possible
-- 
2.43.0


From a0121dc6198da2212c7259d8f0aaf4ce484cc740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 26/52] fix: neutral elements of min/max reductions

Largest value is neutral for min, smallest value for max.
---
 src/type.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/type.c b/src/type.c
index 0e8bd37..7a67868 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From f0d504d9f4fce7e00b87c4644252e1257bbab291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 27/52] fix: reduction without inputs: initialize with own type

---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index 7a67868..6ae03ea 100644
--- a/src/type.c
+++ b/src/type.c
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
-- 
2.43.0


From 696882693d05ddcbc1e1d2f6c0f0c5b50ba476a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 28/52] fix: MPI backend: And/Or reductions are bitwise

As in the reductions provided by LAIK types, which are used for part of
the reductions (depending on the processes involved).
---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..34669af 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From 9d9b61a78c1af10b9317f5f801ee86fd9242138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:13 +0000
Subject: [PATCH 29/52] fix: MPI backend: wait for sends before buffers can be
 overwritten by later rounds

---
 src/backend-mpi.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 34669af..8c4cf06 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,7 +212,8 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
+// - replace send with isend and wait for completion at end of its round,
+//   as the buffer may be overwritten in next rounds (eg. in-place reduction)
 // - replace recv with irecv at begin and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
@@ -220,19 +221,15 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
-    // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // add new round 0: gets MpiReq and all MpiIrecv actions
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -245,7 +242,6 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
             laik_mpi_addMpiIsend(as, a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
             req_id++;
             break;
         }
@@ -267,6 +263,16 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     }
     assert(count == (unsigned) req_id);
 
+    // add Waits for MpiIsend actions after all other actions of same round
+    req_id = 0;
+    a = as->action;
+    for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
+        if (a->type == LAIK_AT_BufSend)
+            laik_mpi_addMpiWait(as, a->round + 1, req_id++);
+        else if (a->type == LAIK_AT_BufRecv)
+            req_id++;
+    }
+
     laik_aseq_activateNewActions(as);
     return true;
 }
-- 
2.43.0


From 231f780f665450e3af0f2485cd0a89507db52278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:32 +0000
Subject: [PATCH 30/52] fix: laik_kvs_set: compare size of values, too

---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index d42061c..2d01e09 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -371,7 +371,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
-- 
2.43.0


From cd22902ddc298c86fbebf122b705f8479f6705bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:32 +0000
Subject: [PATCH 31/52] fix: laik_kvs_changes_merge: compare complete binary
 values

---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 2d01e09..14b01cc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -243,7 +243,7 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
-- 
2.43.0


From dbc21578b558f5769cbb14af87140de128e49d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:32 +0000
Subject: [PATCH 32/52] fix: KVS: allow to change a value multiple times before
 sync

---
 src/kvs.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/kvs.c b/src/kvs.c
index 14b01cc..4b7bdbe 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -177,6 +177,23 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     e->updated = false;
 }
 
+// drop change for <key> in journal, to be superseded by newer change
+static void drop_change(Laik_KVS_Changes* c, char* key)
+{
+    for(int i = 0; i + 2 < c->offUsed; i += 2) {
+        if (strcmp(c->data + c->off[i], key) != 0) continue;
+
+        int len = c->off[i + 2] - c->off[i];
+        memmove(c->data + c->off[i], c->data + c->off[i + 2],
+                (size_t) (c->dataUsed - c->off[i + 2]));
+        for(int j = i + 2; j < c->offUsed; j++)
+            c->off[j - 2] = c->off[j] - len;
+        c->offUsed -= 2;
+        c->dataUsed -= len;
+        return;
+    }
+}
+
 // for qsort in laik_kvs_changes_sort and laik_kvs_sort
 static int entrycmp(const void * v1, const void * v2)
 {
@@ -427,6 +444,8 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     }
 
     if (kvs->in_sync) return e;
+    if (e->updated) // changed multiple times before sync
+        drop_change(&(kvs->changes), key);
     e->updated = true;
 
     laik_kvs_changes_add(&(kvs->changes), key, size, value, true, false);
-- 
2.43.0


From 9b962847422254133de86a049faf589e8c60f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:07 +0000
Subject: [PATCH 33/52] fix: KVS: propagate removed entries on sync

---
 src/backend-tcp2.c | 21 ++++++++++++++++-----
 src/kvs.c          | 28 ++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..9d2988d 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1350,20 +1350,29 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
     char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
+    // without value: entry was removed
+    int res = sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value);
+    if (res < 2) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
+    if (res == 2) value[0] = 0;
 
     laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
     assert(d->kvs != 0);
     assert(d->kvs_changes > 0);
     assert(d->kvs_received < d->kvs_changes);
 
-    Laik_KVS_Entry* e = laik_kvs_sets(d->kvs, key, value);
+    Laik_KVS_Entry* e;
+    if (res == 2) {
+        laik_kvs_remove(d->kvs, key);
+        e = laik_kvs_entry(d->kvs, key);
+    }
+    else
+        e = laik_kvs_sets(d->kvs, key, value);
     // simply mark it as updated
     //  this may send unneeded updates, but we do not use change journal in TCP2
-    e->updated = true;
+    if (e) e->updated = true;
 
     d->kvs_received++;
     if (d->kvs_received == d->kvs_changes)
@@ -2413,7 +2422,8 @@ void tcp2_sync(Laik_KVStore* kvs)
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
             sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
+                    kvs->entry[i].key,
+                    kvs->entry[i].value ? kvs->entry[i].value : "");
             send_cmd(d, 0, msg);
         }
         // all changes sent, remove own permission
@@ -2458,7 +2468,8 @@ void tcp2_sync(Laik_KVStore* kvs)
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
         sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
+                kvs->entry[i].key,
+                kvs->entry[i].value ? kvs->entry[i].value : "");
         for(int lid = 1; lid <= d->maxid; lid++)
             send_cmd(d, lid, msg);
     }
diff --git a/src/kvs.c b/src/kvs.c
index 4b7bdbe..2246c61 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -219,7 +219,7 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range (empty: removal)
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
@@ -293,11 +293,12 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        unsigned int size = (unsigned)(c->off[i+2] - c->off[i+1]); // data size
+        // no data: entry was removed
         laik_kvs_set(kvs,
-                     c->data + c->off[i],
-                     (unsigned)(c->off[i+2] - c->off[i+1]), // data size
-                     c->data + c->off[i+1]);
+                     c->data + c->off[i], size,
+                     (size > 0) ? c->data + c->off[i+1] : 0);
     }
 }
 
@@ -341,6 +342,14 @@ void laik_kvs_free(Laik_KVStore* kvs)
 static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
 {
     assert(e);
+    if (kvs->in_sync && e->updated) {
+        // removed by other process, but updated ourself
+        laik_log(LAIK_LL_Panic,
+                 "KVS '%s' at key '%s': update inconsistency\n",
+                 kvs->name, e->key);
+        exit(1);
+    }
+
     if (kvs->in_sync && kvs->removed_func)
         (kvs->removed_func)(kvs, e->key);
 
@@ -350,8 +359,11 @@ static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
     e->vlen = 0;
     e->data = 0;
 
-    if (!kvs->in_sync)
-        laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
+    if (kvs->in_sync) return;
+    if (e->updated) // changed multiple times before sync
+        drop_change(&(kvs->changes), e->key);
+    e->updated = true;
+    laik_kvs_changes_add(&(kvs->changes), e->key, 0, "", true, false);
 }
 
 // remove all entries
@@ -368,7 +380,7 @@ void laik_kvs_clean(Laik_KVStore* kvs)
 bool laik_kvs_remove(Laik_KVStore* kvs, char* key)
 {
     Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
-    if (!e) return false;
+    if (!e || !e->value) return false; // not existing or already removed
     remove_entry(kvs, e);
     return true;
 }
-- 
2.43.0


From 0441d169f46253a5c3044673a0059422d0e20255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:07 +0000
Subject: [PATCH 34/52] fix: KVS sync: allow sync without changes or with few
 bytes

---
 src/backend-mpi.c              | 2 +-
 src/backends/tcp/backend-tcp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 8c4cf06..9b285a3 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1177,7 +1177,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0)); // may be no changes
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index c740880..ff70e26 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -902,7 +902,7 @@ static void laik_tcp_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0)); // may be no changes
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From f0f39990da69dc632065c2a4b901797ec587186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:08 +0000
Subject: [PATCH 35/52] fix: laik_space_serialize: no buffer overflow for large
 3d spaces

---
 src/space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index f3820d6..6a35567 100644
--- a/src/space.c
+++ b/src/space.c
@@ -417,7 +417,7 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    static char buf[150]; // enough for 6 numbers with 20 characters
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0


From df4167eecbc46e866f73a494b4e3443bd4f823bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:14 +0000
Subject: [PATCH 36/52] fix: laik_sync_location: support growth of instance

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 7b3d204..b7dfd83 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -77,6 +77,7 @@ struct _Laik_Instance {
     // direct access to synchronized location strings (array of size <size>)
     // null if not synced yet; for removed processes entries are null
     char** location;
+    int location_size; // number of entries in <location>
 
     // KV stores for LAIK objects
     Laik_KVStore* spaceStore;
diff --git a/src/core.c b/src/core.c
index 861b0e0..d2a62cc 100644
--- a/src/core.c
+++ b/src/core.c
@@ -219,6 +219,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
 
     instance->locationStore = 0;
     instance->location = 0; // set at location sync
+    instance->location_size = 0;
 
     instance->spaceStore = 0;
 
@@ -681,13 +682,18 @@ static void remove_location(Laik_KVStore* s, char* key)
 // TODO: only sync new locations after growth of instance
 void laik_sync_location(Laik_Instance *instance)
 {
-    if (instance->locationStore == NULL) {
-        instance->locationStore = laik_kvs_new("location", instance);
-        instance->location = (char**) malloc((unsigned)instance->locations * sizeof(char*));
+    // number of locations may have grown since last sync
+    if (instance->location_size < instance->locations) {
+        instance->location = (char**) realloc(instance->location,
+                                              (unsigned)instance->locations * sizeof(char*));
         assert(instance->location != 0);
-        for(int i = 0; i < instance->locations; i++)
+        for(int i = instance->location_size; i < instance->locations; i++)
             instance->location[i] = 0;
+        instance->location_size = instance->locations;
+    }
 
+    if (instance->locationStore == NULL) {
+        instance->locationStore = laik_kvs_new("location", instance);
         // register function to update direct access to location
         laik_kvs_reg_callbacks(instance->locationStore,
                                update_location, update_location, remove_location);
@@ -700,6 +706,8 @@ void laik_sync_location(Laik_Instance *instance)
     instance->location[mylocationid] = mylocation;
 
     char* myKey = locationkey(mylocationid);
+    // always propagate own location, as there may be new processes
+    laik_kvs_remove(instance->locationStore, myKey);
     laik_kvs_sets(instance->locationStore, myKey, mylocation);
     laik_kvs_sync(instance->locationStore);
 }
@@ -712,6 +720,7 @@ char* laik_group_location(Laik_Group *group, int id)
 
     int lid = laik_group_locationid(group, id);
     assert(lid >= 0 && lid < group->inst->locations);
+    if (lid >= group->inst->location_size) return NULL; // not synchronized yet
     return group->inst->location[lid];
 }
 
-- 
2.43.0


From 9181927b318dd7437afe928674bdffcf249ede72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:14 +0000
Subject: [PATCH 37/52] fix: laik_space_set: range of space belongs to space

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index 6a35567..9bbb949 100644
--- a/src/space.c
+++ b/src/space.c
@@ -441,6 +441,7 @@ bool laik_space_set(Laik_Space* s, char* v)
 {
     if ((v[0] < '1') || (v[0] > '3')) return false;
     s->dims = v[0] - '0';
+    s->range.space = s;
     if (s->dims == 1) {
         if (sscanf(v+1, "(%" SCNd64 "/%" SCNd64 ")",
                    &(s->range.from.i[0]), &(s->range.to.i[0]) ) != 2) return false;
-- 
2.43.0


From b40caea992fa5d9dc9a7e1f7b291c9691b2ac5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 38/52] fix: external agents: store handle of library at slot
 of its agent, check limit

---
 src/external.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/external.c b/src/external.c
index e1f7645..e3e6b4a 100644
--- a/src/external.c
+++ b/src/external.c
@@ -120,7 +120,7 @@ void laik_ext_load_agent_from_file (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     handle = dlopen(path, RTLD_LAZY);
     if(!handle){
@@ -135,8 +135,8 @@ void laik_ext_load_agent_from_file (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = handle;
+    ctrl->num_agents++;
     laik_log(LAIK_LL_Debug, "laik_ext_load_agent done ! L:2 \n");
 }
 
@@ -169,15 +169,15 @@ void laik_ext_loadagent (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     agent = init(argc, argv);
 
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = NULL;
+    ctrl->num_agents++;
 }
 
 /** 
-- 
2.43.0


From bb210952386c84c3e59f56bfdb323b413fbdfa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 39/52] fix: logging: enlarge buffer enough when appending long
 text

---
 src/logging.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 14e49a1..746b093 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -223,7 +223,7 @@ void log_append(const char *format, va_list ap)
     // does it fit into buffer? (len is without terminating zero byte)
     if (len >= left) {
         int size = 2 * current_logSize;
-        if (size < len + 1) size = len + 1;
+        if (size < current_logPos + len + 1) size = current_logPos + len + 1;
         current_logBuffer = realloc(current_logBuffer, size);
         current_logSize = size;
         // printf("Enlarging log buffer to %d bytes ...\n", size);
-- 
2.43.0


From 377b39a81938c8bb901e769f5ed82d73cb0a6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 40/52] fix: logging: no buffer overflow with long words or
 large indentation

---
 src/logging.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 746b093..19e68ec 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -279,8 +279,8 @@ void log_flush()
     counter++;
 
 #define LINE_LEN 100
-    // enough for prefix plus one line of log message
-    static char buf2[150 + LINE_LEN];
+    // enough for prefix
+    static char buf2[150];
     int off1 = 0, off, off2;
 
     char* buf1 = current_logBuffer;
@@ -303,7 +303,7 @@ void log_flush()
         line_counter++;
         off2 = sprintf(buf2, "%s ", (line_counter == 1) ? "==" : "..");
         if (laik_loginst == 0) {
-            off2 += sprintf(buf2+off2, "%-7s: ",
+            off2 += sprintf(buf2+off2, "%-7.100s: ",
                             laik_log_mylocation ? laik_log_mylocation : "");
 
         }
@@ -330,8 +330,7 @@ void log_flush()
         }
 
         // indent: add 4 spaces if this is continuation line
-        off2 += sprintf(buf2+off2, "%*s",
-                        at_newline ? spaces : spaces + 4, "");
+        int indent = at_newline ? spaces : spaces + 4;
 
         at_newline = false;
         off = off1;
@@ -354,13 +353,12 @@ void log_flush()
             off++;
         }
         if (buf1[off]) buf1[off++] = 0;
-        off2 += sprintf(buf2+off2, "%s\n", buf1 + off1);
-        off1 = off;
-
-        assert(off2 < 150 + LINE_LEN);
+        assert(off2 < 150);
 
         // TODO: allow to go to debug file
-        fprintf(stderr, "%s", buf2);
+        // a line can be longer than LINE_LEN (long words)
+        fprintf(stderr, "%s%*s%s\n", buf2, indent, "", buf1 + off1);
+        off1 = off;
     }
     current_logPos = 0;
 
-- 
2.43.0


From 70f185eb72005c27faf9e4e51ff08cfa4e5d2850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 41/52] fix: logging: panic terminates also if log output is
 filtered

---
 src/logging.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 19e68ec..6774f88 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -181,11 +181,12 @@ static int current_logPos = 0;
 bool laik_log_begin(int l)
 {
     // if nothing should be logged, set level to none and return
-    if (l < laik_loglevel) {
+    // (a panic is never filtered: it has to stop the program)
+    if ((l < laik_loglevel) && (l != LAIK_LL_Panic)) {
         current_logLevel = LAIK_LL_None;
         return false;
     }
-    if ((laik_log_fromLID >= 0) && (laik_loginst != 0)) {
+    if ((laik_log_fromLID >= 0) && (laik_loginst != 0) && (l != LAIK_LL_Panic)) {
         assert(laik_log_toLID >= laik_log_fromLID);
         if ((laik_loginst->mylocationid < laik_log_fromLID) ||
             (laik_loginst->mylocationid > laik_log_toLID)) {
-- 
2.43.0


From f384b468f4eb63e733bde46f6c5a31bf5d4f1ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 42/52] fix: laik_get_failed: append failed nodes of multiple
 agents, respect size of buffer

---
 src/external.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/external.c b/src/external.c
index e3e6b4a..2ec87f3 100644
--- a/src/external.c
+++ b/src/external.c
@@ -225,15 +225,14 @@ void laik_get_failed (
     int max_failed
 ){
 
-    (void) max_failed;
     Laik_RepartitionControl* ctrl;
-    int i, n; //, count;
+    int i, n, count, got;
     assert(instance);    
     ctrl = instance->repart_ctrl;
     assert(ctrl);
     
 
-    //count = 0;
+    count = 0;
     for(i=0; i < ctrl -> num_agents; i++){
         Laik_Agent* agent = ctrl->agents[i];
 
@@ -252,10 +251,18 @@ void laik_get_failed (
             // (1) Get a list of node_uids
 
 
-            fta->getfail(num_failed, failed_ranks);
+            // no space left for the failures of this agent: ask next time
+            if(count + n > max_failed) {
+                continue;
+            }
+
+            // append to failures of other agents
+            got = 0;
+            fta->getfail(&got, failed_ranks + count);
+            count += got;
 
             //printf("fta-> getfail: %d \n", *num_failed);
-            for(int k = 0 ; k < *num_failed; k++ )
+            for(int k = count - got ; k < count; k++ )
 			{
 				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n",(failed_ranks + k)->uid, k);
 				fflush(stdout);
@@ -276,6 +283,7 @@ void laik_get_failed (
         }
     }
 
+    *num_failed = count;
 
 }
 
-- 
2.43.0


From dfa10073d65ca9b22119fb2831170a2da3d4a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 43/52] fix: external agents: implement
 laik_ext_load_agent_from_function as declared

---
 src/external.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.c b/src/external.c
index 2ec87f3..dd2e465 100644
--- a/src/external.c
+++ b/src/external.c
@@ -149,7 +149,7 @@ void laik_ext_load_agent_from_file (
  * @param  argv: arguments to pass to the agent
  * @retval None
  */
-void laik_ext_loadagent (
+void laik_ext_load_agent_from_function (
     Laik_Instance* instance,
     laik_agent_init init,
     int argc, 
-- 
2.43.0


From 2e610c40ab7124b840f7c145e04351079debd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:47 +0000
Subject: [PATCH 44/52] fix: laik_free: remove container from instance (use
 after free in statistics of laik_finalize)

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 11 +++++++++++
 src/data.c                   |  1 +
 3 files changed, 13 insertions(+)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index b7dfd83..f64ff1b 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -118,6 +118,7 @@ void laik_addSpaceForInstance(Laik_Instance* inst, Laik_Space* s);
 void laik_removeSpaceFromInstance(Laik_Instance* inst, Laik_Space* s);
 
 void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d);
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d);
 
 // synchronize location strings via KVS among processes in current world
 void laik_sync_location(Laik_Instance *instance);
diff --git a/src/core.c b/src/core.c
index d2a62cc..e894486 100644
--- a/src/core.c
+++ b/src/core.c
@@ -282,6 +282,17 @@ void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d)
     inst->data_count++;
 }
 
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
+{
+    int i = 0;
+    while((i < inst->data_count) && (inst->data[i] != d)) i++;
+    if (i == inst->data_count) return; // not found
+
+    inst->data_count--;
+    for(; i < inst->data_count; i++)
+        inst->data[i] = inst->data[i+1];
+}
+
 
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
diff --git a/src/data.c b/src/data.c
index ad9f42a..e530208 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1651,6 +1651,7 @@ void laik_free(Laik_Data* d)
 {
     // TODO: free space, partitionings
 
+    laik_removeDataFromInstance(d->space->inst, d);
     free(d);
 }
 
-- 
2.43.0


From 2fca4b92bd5a02664ad026ad1fa65349810c9cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:34 +0000
Subject: [PATCH 45/52] fix: laik_aseq_free: backends without cleanup function

A backend may set itself as backend of an action sequence without having
resources to clean up (single-process backend): do not call a null pointer.
---
 src/action.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/action.c b/src/action.c
index 9f64415..da4554e 100644
--- a/src/action.c
+++ b/src/action.c
@@ -86,7 +86,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     laik_log(1, "free action seq '%s' (%d actions, %d buffers)",
              as->name, as->actionCount, as->bufferCount);
 
-    if (as->backend) {
+    if (as->backend && as->backend->cleanup) {
         // ask backend to do its own cleanup for this action sequence
         (as->backend->cleanup)(as);
     }
-- 
2.43.0


From ebb91cf383602c4d9ef499bcf49d70d5cc6af191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:34 +0000
Subject: [PATCH 46/52] fix: single backend: reductions of any dimension, range
 and mapping

Reductions copied from the start of the first mapping, whatever the range
of the reduction, and aborted for 2d/3d containers. With no input, the
result is the neutral element.
---
 src/backend-single.c | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/backend-single.c b/src/backend-single.c
index 5e04196..2d887f7 100644
--- a/src/backend-single.c
+++ b/src/backend-single.c
@@ -82,30 +82,36 @@ void laik_single_exec(Laik_ActionSeq* as)
     Laik_MappingList* fromList = tc->fromList;
     Laik_MappingList* toList = tc->toList;
 
-    if (t->redCount > 0) {
-        assert(fromList->count == 1);
-        assert(toList->count == 1);
-        Laik_Mapping* fromMap = &(fromList->map[0]);
-        Laik_Mapping* toMap = &(toList->map[0]);
-        char* fromBase = fromMap ? fromMap->base : 0;
-        char* toBase = toMap ? toMap->base : 0;
-
-        for(int i=0; i < t->redCount; i++) {
-            assert(d->space->dims == 1);
-            struct redTOp* op = &(t->red[i]);
-            int64_t from = op->range.from.i[0];
-            int64_t to   = op->range.to.i[0];
-            assert(fromBase != 0);
-            assert(laik_trans_isInGroup(t, op->outputGroup, t->group->myid));
-            assert(toBase != 0);
-            assert(to > from);
-
-            laik_log(1, "Single reduce: "
-                        "from %lld, to %lld, elemsize %d, base from/to %p/%p\n",
-                     (long long int) from, (long long int) to,
-                     d->elemsize, (void*) fromBase, (void*) toBase);
-
-            memcpy(toBase, fromBase, (to-from) * fromMap->data->elemsize);
+    for(int i=0; i < t->redCount; i++) {
+        struct redTOp* op = &(t->red[i]);
+        assert(laik_trans_isInGroup(t, op->outputGroup, t->group->myid));
+        assert(toList && (op->myOutputMapNo < toList->count));
+        Laik_Mapping* toMap = &(toList->map[op->myOutputMapNo]);
+        assert(toMap->base != 0);
+
+        if (laik_trans_isInGroup(t, op->inputGroup, t->group->myid)) {
+            // with one process as input, its values are the result
+            assert(fromList && (op->myInputMapNo < fromList->count));
+            Laik_Mapping* fromMap = &(fromList->map[op->myInputMapNo]);
+            assert(fromMap->base != 0);
+
+            laik_log(1, "Single reduce: copy %llu elements, base from/to %p/%p\n",
+                     (unsigned long long) laik_range_size(&(op->range)),
+                     (void*) fromMap->base, (void*) toMap->base);
+
+            // nothing to copy if mapping is reused
+            if (fromMap->base != toMap->base)
+                laik_data_copy(&(op->range), fromMap, toMap);
+            continue;
+        }
+
+        // no input: result is the neutral element of the reduction
+        assert(d->space->dims == 1);
+        assert(d->type->init != 0);
+        Laik_Index idx = op->range.from;
+        for(; idx.i[0] < op->range.to.i[0]; idx.i[0]++) {
+            int64_t off = laik_offset(toMap->layout, toMap->layoutSection, &idx);
+            (d->type->init)(toMap->start + off * d->elemsize, 1, op->redOp);
         }
     }
 
-- 
2.43.0


From 121f9abdf7b02aece2d06823ae831832625741bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:34 +0000
Subject: [PATCH 47/52] fix: transitions in 1d: indexes without values before a
 switch

Preserving data when switching to a partitioning with indexes not owned by
any process before aborted in 1d (but not in 2d/3d).
---
 src/space.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/space.c b/src/space.c
index 9bbb949..bfdfaff 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1208,6 +1208,10 @@ void calcAddReductions(int tflags,
                 // nobody wants the values: nothing to do
                 if (outputGroup.count == 0) continue;
 
+                // nobody has values to preserve: they stay undefined
+                if ((inputGroup.count == 0) &&
+                    (redOp == LAIK_RO_None)) continue;
+
                 range.from.i[0] = sb->b;
                 range.to.i[0] = nextBorder;
 
-- 
2.43.0


From 0a01b3a92441a8a43f447fe2396d1fde76bc4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:59 +0000
Subject: [PATCH 48/52] fix: TCP2: no access to a connection after it got
 closed by a quit command

---
 src/backend-tcp2.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 9d2988d..8f393b5 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1580,7 +1580,8 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
-            pos1 = pos2+1;
+            // connection closed, receive buffer freed: nothing left to do
+            return;
         }
         if (rbuf[pos2] == 13) {
             // change CR to whitespace (sent by telnet)
@@ -1589,6 +1590,8 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            // connection closed by command, receive buffer freed?
+            if (fds->rbuf == 0) return;
             pos1 = pos2+1;
         }
         pos2++;
@@ -1630,6 +1633,8 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            // connection already closed by last command?
+            if (d->fds[fd].rbuf == 0) return;
         }
 
         int lid = d->fds[fd].lid;
-- 
2.43.0


From 1438df42a0730957576c8faa55c04133e85e3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:38 +0000
Subject: [PATCH 49/52] fix: TCP2: sync of key-value stores with names, keys
 and values of any length

---
 src/backend-tcp2.c | 62 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 8f393b5..ffbe8cd 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1316,12 +1316,14 @@ void got_kvs_allow(InstData* d, int lid, char* msg)
         return;
     }
 
+    // name of KVS: rest of line, of any length
     char cmd[21];
-    char name[30];
-    if (sscanf(msg, "%20s %29s", cmd, name) < 2) {
+    int pos = 0;
+    if ((sscanf(msg, "%20s %n", cmd, &pos) < 1) || (pos == 0) || (msg[pos] == 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs allow' command '%s'; ignoring", msg);
         return;
     }
+    char* name = msg + pos;
 
     laik_log(1, "TCP2 allowed to send changes for KVS '%s'", name);
     assert(d->kvs_name == 0);
@@ -1349,14 +1351,21 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
 
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    // without value: entry was removed
-    int res = sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value);
-    if (res < 2) {
+    // kvs data <key> <value>
+    char cmd[21];
+    int pos = 0;
+    if ((sscanf(msg, "%20s %n", cmd, &pos) < 1) || (pos == 0) || (msg[pos] == 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
-    if (res == 2) value[0] = 0;
+    // key and value may have any length: terminate key in receive buffer.
+    // value: rest of line after exactly one separating space
+    char* key = msg + pos;
+    char* value = key;
+    while(*value && (*value != ' ')) value++;
+    if (*value) *value++ = 0;
+    // without value: entry was removed
+    bool removed = (*value == 0);
 
     laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
     assert(d->kvs != 0);
@@ -1364,7 +1373,7 @@ void got_kvs_data(InstData* d, int lid, char* msg)
     assert(d->kvs_received < d->kvs_changes);
 
     Laik_KVS_Entry* e;
-    if (res == 2) {
+    if (removed) {
         laik_kvs_remove(d->kvs, key);
         e = laik_kvs_entry(d->kvs, key);
     }
@@ -2396,6 +2405,30 @@ void tcp2_exec(Laik_ActionSeq* as)
     }
 }
 
+// send "kvs <what> <name>[ <value>]" to process <lid>, with strings of any length
+static
+void send_kvs_cmd(InstData* d, int lid, char* what, const char* name, char* value)
+{
+    char* msg = malloc(strlen(what) + strlen(name) + (value ? strlen(value) : 0) + 8);
+    if (!msg) {
+        laik_panic("TCP2 Out of memory sending KVS command");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    if (value)
+        sprintf(msg, "kvs %s %s %s", what, name, value);
+    else
+        sprintf(msg, "kvs %s %s", what, name);
+    send_cmd(d, lid, msg);
+    free(msg);
+}
+
+// send change of KVS entry <e> to process <lid>
+static
+void send_kvs_data(InstData* d, int lid, Laik_KVS_Entry* e)
+{
+    send_kvs_cmd(d, lid, "data", e->key, e->value ? e->value : "");
+}
+
 void tcp2_sync(Laik_KVStore* kvs)
 {
     char msg[100];
@@ -2426,10 +2459,7 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, 0, msg);
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key,
-                    kvs->entry[i].value ? kvs->entry[i].value : "");
-            send_cmd(d, 0, msg);
+            send_kvs_data(d, 0, &(kvs->entry[i]));
         }
         // all changes sent, remove own permission
         // (needs to be done here, as we may receive next allowance
@@ -2450,8 +2480,7 @@ void tcp2_sync(Laik_KVStore* kvs)
     // master
 
     for(int lid = 1; lid <= d->maxid; lid++) {
-        sprintf(msg, "kvs allow %s", kvs->name);
-        send_cmd(d, lid, msg);
+        send_kvs_cmd(d, lid, "allow", kvs->name, 0);
 
         // wait for changes from LID <lid>
         d->kvs_changes = -1;
@@ -2472,11 +2501,8 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, lid, msg);
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key,
-                kvs->entry[i].value ? kvs->entry[i].value : "");
         for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+            send_kvs_data(d, lid, &(kvs->entry[i]));
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From 5f820f13bf22d1a78ebf71f914a6d73f2fa212a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:56 +0000
Subject: [PATCH 50/52] fix: TCP2: sync of key-value stores only among
 processes which are not (marked for being) removed

---
 src/backend-tcp2.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index ffbe8cd..1189ce7 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2479,7 +2479,9 @@ void tcp2_sync(Laik_KVStore* kvs)
 
     // master
 
+    // processes which are removed or marked for removal do not take part
     for(int lid = 1; lid <= d->maxid; lid++) {
+        if (d->peer[lid].state != PS_Ready) continue;
         send_kvs_cmd(d, lid, "allow", kvs->name, 0);
 
         // wait for changes from LID <lid>
@@ -2497,12 +2499,16 @@ void tcp2_sync(Laik_KVStore* kvs)
     }
     laik_log(1, "TCP2 with %d merged changes", count);
     sprintf(msg, "kvs changes %d", count);
-    for(int lid = 1; lid <= d->maxid; lid++)
+    for(int lid = 1; lid <= d->maxid; lid++) {
+        if (d->peer[lid].state != PS_Ready) continue;
         send_cmd(d, lid, msg);
+    }
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
-        for(int lid = 1; lid <= d->maxid; lid++)
+        for(int lid = 1; lid <= d->maxid; lid++) {
+            if (d->peer[lid].state != PS_Ready) continue;
             send_kvs_data(d, lid, &(kvs->entry[i]));
+        }
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From cb89a35c71d32266e62e0daf162c9cdff55a09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:50 +0000
Subject: [PATCH 51/52] fix: TCP2: text mode: no overflow of buffers with large
 elements or indexes

---
 src/backend-tcp2.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 1189ce7..b2a1413 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -335,7 +335,7 @@ bool next_lex(Laik_Range* range, Laik_Index* idx)
 static
 char* istr(int dims, Laik_Index* idx)
 {
-    static char str[50];
+    static char str[70]; // up to 3 64-bit numbers
 
     if (dims == 1)
         sprintf(str, "%llu", (unsigned long long) idx->i[0]);
@@ -720,7 +720,7 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
             (t->reduce)(idxPtr, idxPtr, buf, 1, p->rro);
         }
         if ((esize == 8) && laik_log_begin(1)) {
-            char pstr[70];
+            char pstr[100];
             int dims = p->rcv_range->space->dims;
             sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
             laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)buf), *((double*)idxPtr));
@@ -767,7 +767,7 @@ void got_data(InstData* d, int lid, char* msg)
     char* idxPtr = m->start + off * p->relemsize;
 
     // position string for check
-    char pstr[70];
+    char pstr[100];
     int dims = p->rcv_range->space->dims;
     int s = sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
 
@@ -777,8 +777,11 @@ void got_data(InstData* d, int lid, char* msg)
         while(msg[i] && (msg[i] == ' ')) i++;
     }
 
-    char data_in[100];
-    assert(len < 100);
+    char* data_in = malloc(len);
+    if (!data_in) {
+        laik_panic("TCP2 Out of memory receiving data");
+        exit(1); // not actually needed, laik_panic never returns
+    }
     int l = 0;
 
     // parse hex bytes
@@ -809,6 +812,7 @@ void got_data(InstData* d, int lid, char* msg)
     }
 
     if (len == 8) laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)data_in), *((double*)idxPtr));
+    free(data_in);
 
     p->roff++;
     bool inTraversal = next_lex(p->rcv_range, &(p->rcv_idx));
@@ -2111,7 +2115,12 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    // 3 chars per byte, after command, size and position
+    char* str = malloc(120 + 3 * s);
+    if (!str) {
+        laik_panic("TCP2 Out of memory sending data");
+        exit(1); // not actually needed, laik_panic never returns
+    }
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
@@ -2128,6 +2137,7 @@ void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
     }
 
     send_cmd((InstData*)instance->backend_data, toLID, str);
+    free(str);
 }
 
 // send
-- 
2.43.0


From 3e2ed29563843a8ee725b9ad21477969b6cf156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:59 +0000
Subject: [PATCH 52/52] fix: range lists: query of ranges per mapping for more
 than one process

---
 src/rangelist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 2808011..78ca546 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -567,7 +567,10 @@ void laik_updateMapOffsets(Laik_RangeList* list, int tid)
 {
     // already calculated?
     if (list->map_tid == tid) return;
-    assert(list->map_tid < 0);
+
+    // offsets may have been calculated for another process before
+    free(list->map_off);
+    list->map_off = 0;
     list->map_tid = tid;
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
-- 
2.43.0

