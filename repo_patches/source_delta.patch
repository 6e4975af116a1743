From 63844a79d07dd69af8cd6d393735c4e19a1beb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 01/19] fix: downdate each joint sum once when configured
 tuples overlap

---
 joint/core.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..e80e7c0 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,10 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From 00c38654a8dbf08be5e80b23c351c5c7ab0bae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 02/19] fix: do not count duplicates of the value in tree Rank

---
 quantile/ost/avl/node.go | 4 +++-
 quantile/ost/rb/node.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..d911dc9 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -231,7 +231,9 @@ func (n *Node) Rank(val float64) int {
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// rotations may leave duplicates of the value on either side of the node,
+	// so the left subtree is not necessarily made up of strictly lesser values
+	return n.left.Rank(val)
 }
 
 /*******************
diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..4d08621 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -277,7 +277,9 @@ func (n *Node) Rank(val float64) int {
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// rotations may leave duplicates of the value on either side of the node,
+	// so the left subtree is not necessarily made up of strictly lesser values
+	return n.left.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From 6a0a06cf6e9c192d5b894309e2f7c4ccb739de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 03/19] fix: remove exactly one node from a red-black tree
 holding duplicates

---
 quantile/ost/rb/node.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index 4d08621..1ffd44e 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -106,27 +106,36 @@ func (n *Node) remove(val float64) *Node {
 		return n
 	}
 
-	if val < n.val {
+	// rotations may leave duplicates of the value on either side of a node, so
+	// comparing values does not tell which subtree to descend into; the position
+	// of the node to remove does
+	return n.removeAt(n.Rank(val))
+}
+
+// removeAt removes the node with the kth smallest value in the subtree rooted
+// at the node, which must exist.
+func (n *Node) removeAt(k int) *Node {
+	if k < n.left.Size() {
 		if n.left.Color() == Black && n.left.left.Color() == Black {
 			n = n.moveRedLeft()
 		}
-		n.left = n.left.remove(val)
+		n.left = n.left.removeAt(k)
 	} else {
 		if n.left.Color() == Red {
 			n = n.rotateRight()
 		}
-		if val == n.val && n.right == nil {
+		if k == n.left.Size() && n.right == nil {
 			return nil
 		}
 		if n.right.Color() == Black && n.right.left.Color() == Black {
 			n = n.moveRedRight()
 		}
-		if val == n.val {
+		if k == n.left.Size() {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
 		} else {
-			n.right = n.right.remove(val)
+			n.right = n.right.removeAt(k - n.left.Size() - 1)
 		}
 	}
 
-- 
2.43.0


From 9cf45937f75a7e34e34fe84824aee614d17bcb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 04/19] fix: stop the skip list width walk at the successor
 node, not at an equal value

---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From 940a31d24318740edc51e05c80d35178842b6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 05/19] fix: do not peek into an empty low heap in HeapMedian

---
 quantile/heap_median.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..a0b7f3e 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -75,14 +75,16 @@ func (m *HeapMedian) Push(x float64) error {
 
 		item = tail.(*heap.Item)
 		low := item.HeapID == m.lowHeap.ID
+		// the low heap is empty if the window is 1 and its item is in the high heap
+		toLow := m.lowHeap.Len() > 0 && x <= m.lowHeap.Peek()
 		switch {
 		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
+		case low && toLow:
 			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
+		case !low && !toLow:
 			m.highHeap.Update(item, x)
 		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
+		case low && !toLow:
 			m.lowHeap.Remove(item)
 			item.Val = x
 			heapops.Push(m.highHeap, item)
-- 
2.43.0


From 2d1a367068e6140b01fe78705a59bb37a49aa56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 06/19] fix: evict the oldest value from HeapMedian, not the
 item last rebalanced

---
 quantile/heap_median.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index a0b7f3e..87339e6 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -77,23 +77,20 @@ func (m *HeapMedian) Push(x float64) error {
 		low := item.HeapID == m.lowHeap.ID
 		// the low heap is empty if the window is 1 and its item is in the high heap
 		toLow := m.lowHeap.Len() > 0 && x <= m.lowHeap.Peek()
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && toLow:
-			m.lowHeap.Update(item, x)
-		case !low && !toLow:
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && !toLow:
+		// replace the old item; which heap the new value belongs to
+		// has to be decided before the heaps are modified
+		if low {
 			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
+		} else {
 			m.highHeap.Remove(item)
-			item.Val = x
+		}
+		item.Val = x
+		if toLow {
 			heapops.Push(m.lowHeap, item)
+		} else {
+			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	} else {
 		item = &heap.Item{Val: x}
 		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
@@ -101,7 +98,7 @@ func (m *HeapMedian) Push(x float64) error {
 		} else {
 			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	}
 
 	if m.window != 0 {
@@ -114,15 +111,12 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
-		heapops.Push(m.lowHeap, item)
+		heapops.Push(m.lowHeap, heapops.Pop(m.highHeap))
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
-		heapops.Push(m.highHeap, item)
+		heapops.Push(m.highHeap, heapops.Pop(m.lowHeap))
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From a8f36b5fe0a9f294076f4468c247f3118c1e0f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 07/19] fix: reject a NaN decay

---
 joint/config.go  | 3 ++-
 moment/config.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..cc07f1d 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -139,7 +139,8 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		// negated so that NaN is rejected too
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index 7789c07..dccb8fc 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -80,7 +80,8 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		// negated so that NaN is rejected too
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
-- 
2.43.0


From 651e79784a057ffad666e2bc0a0311acc1ecddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 08/19] fix: reject a NaN quantile and a NaN skip list
 probability

---
 quantile/quantile.go        | 3 ++-
 quantile/skiplist/option.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..8ed3cfd 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,7 +92,8 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	// negated so that NaN is rejected too
+	if !(quantile > 0 && quantile < 1) {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..b0fd933 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) { // negated so that NaN is rejected too
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From c00520da52066ec65485138897f086e0cee68a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 09/19] fix: keep the statistic of a Quantile when ImplOption
 fails

---
 quantile/option.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantile/option.go b/quantile/option.go
index cf1a0db..c87a6c5 100644
--- a/quantile/option.go
+++ b/quantile/option.go
@@ -17,9 +17,13 @@ func ImplOption(impl Impl, options ...order.Option) Option {
 			return errors.Errorf("attempted to set invalid Impl %d", impl)
 		}
 
-		var err error
-		q.statistic, err = impl.init(options...)
-		return errors.Wrap(err, "error setting Impl")
+		statistic, err := impl.init(options...)
+		if err != nil {
+			return errors.Wrap(err, "error setting Impl")
+		}
+
+		q.statistic = statistic
+		return nil
 	}
 }
 
-- 
2.43.0


From 33c3d6b848044428e9c37e1d7be2b4a81b80ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 10/19] fix: merge joint configs by comparing tuples, not their
 hashes

---
 joint/config.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index cc07f1d..f29d0a0 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -88,19 +88,14 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 // remove any duplicate Tuples, or Tuples that are less than or equal
 // to other Tuples, since they'll get tracked automatically
 func simplifySums(sums SumsConfig) SumsConfig {
-	tupleMap := map[uint64]bool{}
 	newSums := SumsConfig{}
 	for i, m := range sums {
-		// remove dupes
-		if _, ok := tupleMap[m.hash()]; ok {
-			continue
-		}
-
 		// if Tuple is less than or equal to an already existing Tuple,
 		// skip this one
 		leq := false
 		for j, n := range sums {
-			if i <= j {
+			// Tuples of differing lengths are not comparable
+			if i <= j || len(m) != len(n) {
 				continue
 			}
 
@@ -120,7 +115,6 @@ func simplifySums(sums SumsConfig) SumsConfig {
 			continue
 		}
 
-		tupleMap[m.hash()] = true
 		newSums = append(newSums, m)
 	}
 
-- 
2.43.0


From 61bb5708ecb3f108b503832a3ef5e7eeb031765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:32 +0000
Subject: [PATCH 11/19] fix: look up joint sums by tuple, not only by hash

---
 joint/core.go  | 25 ++++++++++++++++++++++---
 joint/tuple.go | 14 ++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index e80e7c0..e0738c1 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -394,12 +394,31 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
-	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
+	// hashes are only unique among tracked tuples, so they
+	// cannot be used to determine if a tuple is tracked
+	if !c.tracks(Tuple(xs)) {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
-	return sum, nil
+	return c.sums[Tuple(xs).hash()], nil
+}
+
+// tracks returns whether or not the sum for a provided exponent Tuple is tracked,
+// i.e. if the Tuple is nonnegative and less than or equal to a configured Tuple.
+func (c *Core) tracks(m Tuple) bool {
+	for _, k := range m {
+		if k < 0 {
+			return false
+		}
+	}
+
+	for _, n := range c.tuples {
+		if m.leq(n) {
+			return true
+		}
+	}
+
+	return false
 }
 
 // Clear clears all stats being tracked.
diff --git a/joint/tuple.go b/joint/tuple.go
index 61b273c..11eadd6 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -49,6 +49,20 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
+func (m Tuple) leq(n Tuple) bool {
+	if len(m) != len(n) {
+		return false
+	}
+
+	for i := range m {
+		if m[i] > n[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0


From 92b1e701e97aa86c0044dac36c35565ab288e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 12/19] fix: do not take a read lock twice in a metric's Value

---
 joint/corr.go        |  6 +++---
 joint/cov.go         |  4 ++--
 joint/ewmcorr.go     |  6 +++---
 moment/ewma.go       |  2 +-
 moment/kurtosis.go   |  6 +++---
 moment/mean.go       |  2 +-
 moment/moment.go     | 11 +++++++++--
 moment/skewness.go   |  6 +++---
 quantile/iqr.go      |  4 ++--
 quantile/quantile.go |  7 +++++++
 10 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..0986ffb 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -78,12 +78,19 @@ func (m *Moment) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	moment, err := m.core.Sum(m.k)
+	return m.unsafeValue()
+}
+
+// unsafeValue returns the value of the kth sample central moment,
+// but does not lock; RLock()'s cannot be nested, as that deadlocks
+// if another goroutine calls Lock() in between.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 8ed3cfd..b9c96fe 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -100,6 +100,13 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 	q.mux.RLock()
 	defer q.mux.RUnlock()
 
+	return q.unsafeValue(quantile)
+}
+
+// unsafeValue returns the value of the quantile, but does not lock;
+// RLock()'s cannot be nested, as that deadlocks if another goroutine
+// calls Lock() in between.
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From b780b20773c878bef7d1f322a9feeebad4832b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 13/19] fix: compute binomial coefficients without a shared
 cache or overflow

---
 util/math/math.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..6a4224c 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
@@ -26,5 +24,12 @@ func Binom(n, k int) int {
 		return 1
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	// multiplying and dividing in turn keeps every intermediate result
+	// an integer, and avoids the overflow of factorials
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
+	}
+
+	return result
 }
-- 
2.43.0


From d09fd7ea2b642d45d81ce6450502204487e321c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 14/19] fix: copy the metrics an aggregate is made of

---
 aggregate/simple_aggregate.go       | 2 +-
 aggregate/simple_joint_aggregate.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aggregate/simple_aggregate.go b/aggregate/simple_aggregate.go
index 47079b0..bda6225 100644
--- a/aggregate/simple_aggregate.go
+++ b/aggregate/simple_aggregate.go
@@ -19,7 +19,7 @@ type SimpleAggregateMetric struct {
 
 // NewSimpleAggregateMetric instantiates an SimpleAggregateMetric struct.
 func NewSimpleAggregateMetric(metrics ...stream.SimpleMetric) *SimpleAggregateMetric {
-	return &SimpleAggregateMetric{metrics: metrics}
+	return &SimpleAggregateMetric{metrics: append([]stream.SimpleMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/aggregate/simple_joint_aggregate.go b/aggregate/simple_joint_aggregate.go
index f18518f..8e0b006 100644
--- a/aggregate/simple_joint_aggregate.go
+++ b/aggregate/simple_joint_aggregate.go
@@ -18,7 +18,7 @@ type SimpleJointAggregateMetric struct {
 
 // NewSimpleJointAggregateMetric instantiates an SimpleJointAggregateMetric struct.
 func NewSimpleJointAggregateMetric(metrics ...stream.SimpleJointMetric) *SimpleJointAggregateMetric {
-	return &SimpleJointAggregateMetric{metrics: metrics}
+	return &SimpleJointAggregateMetric{metrics: append([]stream.SimpleJointMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
-- 
2.43.0


From 795b25356c9935a9673c0ea0c094955e0a278ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 15/19] fix: do not append to the caller's options of Median
 and IQR

---
 quantile/iqr.go    | 4 +++-
 quantile/median.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..c15f13d 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,7 +13,9 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// appending in place could overwrite an element of the caller's slice
+	options = append(append([]Option{}, options...), InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..b19a3b1 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,7 +15,9 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// appending in place could overwrite an element of the caller's slice
+	options = append(append([]Option{}, options...), InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
-- 
2.43.0


From 45e388ae83b2d7d661d6da0343160540ed040470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 16/19] fix: do not write to or keep the config passed to
 NewCore

---
 joint/config.go  | 6 +++++-
 joint/core.go    | 9 +++++++--
 moment/config.go | 6 +++++-
 moment/core.go   | 5 ++++-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index f29d0a0..8238756 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -191,7 +191,11 @@ func validateTuple(tuple Tuple, config *CoreConfig) error {
 	return nil
 }
 
-func setConfigDefaults(config *CoreConfig) *CoreConfig {
+func setConfigDefaults(original *CoreConfig) *CoreConfig {
+	// leave the caller's config untouched
+	copied := *original
+	config := &copied
+
 	if config.Sums == nil {
 		config.Sums = defaultConfig.Sums
 	}
diff --git a/joint/core.go b/joint/core.go
index e0738c1..14f1a25 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -54,7 +54,9 @@ func NewCore(config *CoreConfig) (*Core, error) {
 	// initialize and create Core
 	c := &Core{}
 	c.window = *config.Window
-	c.decay = config.Decay
+	if config.Decay != nil {
+		c.decay = stream.FloatPtr(*config.Decay)
+	}
 
 	c.sums = map[uint64]float64{}
 	c.newSums = map[uint64]float64{}
@@ -69,7 +71,10 @@ func NewCore(config *CoreConfig) (*Core, error) {
 		})
 	}
 
-	c.tuples = config.Sums
+	c.tuples = make([]Tuple, len(config.Sums))
+	for i, tuple := range config.Sums {
+		c.tuples[i] = append(Tuple{}, tuple...)
+	}
 	c.means = make([]float64, *config.Vars)
 	c.queue = queue.NewRingBuffer(uint64(c.window))
 
diff --git a/moment/config.go b/moment/config.go
index dccb8fc..41abe0d 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -97,7 +97,11 @@ func validateConfig(config *CoreConfig) error {
 	return nil
 }
 
-func setConfigDefaults(config *CoreConfig) *CoreConfig {
+func setConfigDefaults(original *CoreConfig) *CoreConfig {
+	// leave the caller's config untouched
+	copied := *original
+	config := &copied
+
 	if config.Sums == nil {
 		config.Sums = defaultConfig.Sums
 	}
diff --git a/moment/core.go b/moment/core.go
index 0bbd850..e26d9d7 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/workiva/go-datastructures/queue"
 
+	"github.com/alexander-yu/stream"
 	mathutil "github.com/alexander-yu/stream/util/math"
 )
 
@@ -47,7 +48,9 @@ func NewCore(config *CoreConfig) (*Core, error) {
 	// initialize and create core
 	c := &Core{}
 	c.window = *config.Window
-	c.decay = config.Decay
+	if config.Decay != nil {
+		c.decay = stream.FloatPtr(*config.Decay)
+	}
 
 	maxSum := -1
 	for k := range config.Sums {
-- 
2.43.0


From d7a03a0bddb2efb1df75a9bdac97635c48f8e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 17/19] fix: copy the values a windowed joint core keeps

---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index 14f1a25..86edd3d 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -113,7 +113,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// the caller may reuse the slice for the next push
+		err := c.queue.Put(append([]float64{}, xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From e51bd73e3259b196f23d597ab1b59c8b5c2e25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 18/19] fix: reject skip list options given to another
 implementation

---
 quantile/impl.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/quantile/impl.go b/quantile/impl.go
index a05511a..1f63057 100644
--- a/quantile/impl.go
+++ b/quantile/impl.go
@@ -35,14 +35,24 @@ func (i Impl) Valid() bool {
 // Init returns an empty Impl struct, depending on which implementation
 // is being called.
 func (i Impl) init(options ...order.Option) (order.Statistic, error) {
+	var statistic order.Statistic
 	switch i {
 	case AVL:
-		return &avl.Tree{}, nil
+		statistic = &avl.Tree{}
 	case RedBlack:
-		return &rb.Tree{}, nil
+		statistic = &rb.Tree{}
 	case SkipList:
 		return skiplist.New(options...)
 	default:
 		return nil, errors.Errorf("%v is not a supported Impl value", i)
 	}
+
+	// an option of another implementation is an error, not ignored
+	for _, option := range options {
+		err := option(statistic)
+		if err != nil {
+			return nil, errors.Wrap(err, "error setting option")
+		}
+	}
+	return statistic, nil
 }
-- 
2.43.0


From 2d95c33caaaebc7400a26b5c6f89f1fba12a7494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:56 +0000
Subject: [PATCH 19/19] fix: keep the variance under the root of Std from going
 negative by rounding

---
 moment/std.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moment/std.go b/moment/std.go
index 7c694aa..1bfe5cc 100644
--- a/moment/std.go
+++ b/moment/std.go
@@ -68,7 +68,10 @@ func (s *Std) Value() (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
-	return math.Sqrt(variance), nil
+
+	// the variance of (nearly) equal values may come out slightly negative,
+	// due to rounding while other values left the window
+	return math.Sqrt(math.Max(variance, 0)), nil
 }
 
 // Clear resets the metric.
-- 
2.43.0

